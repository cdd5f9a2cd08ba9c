/* reference decoder of SBN frames, and frame generator */
#include "vpn.h"
#include <ctype.h>
#include <zlib.h>
#include "src/sbn.c"
#define U16(p,i) (((p)[i]<<8)|(p)[(i)+1])
#define U32(p,i) (((uint32_t)(p)[i]<<24)|((p)[(i)+1]<<16)|((p)[(i)+2]<<8)|(p)[(i)+3])
#define AL(c) (((c)>='A'&&(c)<='Z')||((c)>='a'&&(c)<='z'))
#define DG(c) ((c)>='0'&&(c)<='9')
#define ANUM(c) (AL(c)||DG(c))
static void put16(unsigned char *p, int v){ p[0]=v>>8; p[1]=v; }
static int nearv(int v){ switch(rn(6)){ case 0: return v-1; case 1: return v+1; case 2: return v; case 3: return (int)rn(65536); case 4: return 0; default: return v/2; } }
/* returns the number of bytes */
static int gen_frame(unsigned char *r, int malformed){
  rbytes(r,SBN_FRAME_SIZE);
  int first=rn(2); int off=32+(first?36:0);
  int max=SBN_FRAME_SIZE-off; int n=rn(5)==0?(int)rn(max+1):(int)rn(200); if(rn(8)==0) n=max; if(rn(8)==0) n=(int)rn(30);
  int dbo=rn(2)?0:21+(int)rn(60); if(dbo>n) dbo=rn(2)?0:n; if(dbo&&rn(6)==0) dbo=n;
  r[4]=rn(12)?3:(int)rn(12); put16(r+20,first?0:1+(int)rn(65535)); put16(r+22,dbo); put16(r+24,n);
  r[17]=rn(2)?rn(8):rn(256); if(rn(3)) r[17]&=~16;
  if(first&&!dbo&&(r[17]&16)&&rn(4)){ /* really compressed data */
    static unsigned char plain[SBN_FRAME_SIZE+300]; uLong pl=rn(6)==0?rn(SBN_FRAME_SIZE+200):rn(100); rbytes(plain,pl); for(uLong i=0;i<pl;i++) plain[i]=rn(3)?'A'+plain[i]%26:plain[i]; if(pl>200) memset(plain+30,'X',pl-30);
    if(pl&&rn(3)==0) plain[0]=1;
    uLong cl=max; if(compress(r+off,&cl,plain,pl)==Z_OK){ n=(int)cl; put16(r+24,n);} }
  else if(n>0){ if(rn(2)) r[off]='A'+rn(26); else if(rn(2)) r[off]=64; }
  int size=off+n;
  if(malformed) switch(rn(6)){ case 0: size=nearv(size); break; case 1: put16(r+24,nearv(n)); break; case 2: put16(r+22,nearv(rn(2)?n:21)); break; case 3: size=(int)rn(80); break; case 4: put16(r+20,rn(3)); break; default: size=rr(0,SBN_FRAME_SIZE); }
  if(size<0) size=0; if(size>SBN_FRAME_SIZE) size=SBN_FRAME_SIZE;
  int s=0; for(int i=0;i<14;i++) s+=r[i]; put16(r+14,s);
  if(rn(10)==0) r[rn(16)]^=1<<rn(8);
  return size;
}
static struct sbn_frame *gen(unsigned idx, int malformed){
  struct sbn_frame *f=malloc(sizeof *f); rbytes(f,sizeof *f); unsigned char *r=(unsigned char*)f->rawdata;
  f->rawdata_size=gen_frame(r,malformed);
  char hex[400]; int k=0; for(int i=0;i<72&&i<f->rawdata_size;i++) k+=sprintf(hex+k,"%02x",r[i]);
  INFO("frame of %d bytes, starting %s",f->rawdata_size,hex);
  return f;
}
/* reference status, and what has to be found */
struct ref { int st, data, first, off, dbo, dbs, comp; const unsigned char *p; int n; unsigned char plain[MAX_FRDATA_SIZE]; int ccb; };
static void reference(const unsigned char *r, int n, struct ref *x){
  memset(x,0,sizeof *x); 
  if(n<16){ x->st=2; return; } int s=0; for(int i=0;i<14;i++) s+=r[i]; if(s!=U16(r,14)){ x->st=1; return; }
  if(r[4]!=3) return; x->data=1; if(n<32){ x->st=2; return; }
  x->first=U16(r,20)==0; x->off=32+(x->first?36:0); x->dbo=U16(r,22); x->dbs=U16(r,24); x->comp=(r[17]&16)!=0;
  if(n<x->off||n!=x->off+x->dbs){ x->st=2; return; }
  if(x->dbo&&(x->dbo<21||x->dbo>x->dbs)){ x->st=2; return; }
  if(!x->first) return;
  const unsigned char *b=r+x->off;
  if(x->dbo){ x->ccb=AL(b[0])?0:24; if(x->dbo<x->ccb) x->st=2; return; }
  x->p=b; x->n=x->dbs;
  if(x->comp){ uLong l=MAX_FRDATA_SIZE; if(uncompress(x->plain,&l,b,x->dbs)!=Z_OK){ x->st=3; return; } x->p=x->plain; x->n=(int)l; }
  x->ccb=(x->n>0&&AL(x->p[0]))?0:24; if(x->n<x->ccb) x->st=2;
}
static void check_frame(unsigned idx, int malformed){
  struct sbn_frame *f=gen(idx,malformed); static struct sbn_frame before; before=*f; struct ref *x=malloc(sizeof *x);
  const unsigned char *r=(unsigned char*)before.rawdata; int n=before.rawdata_size;
  reference(r,n,x); int st=sbn_unpack_frame(f);
  CHECK(st==x->st,"status %d instead of %d",st,x->st);
  CHECK(!memcmp(f->rawdata,r,SBN_FRAME_SIZE)&&f->rawdata_size==n,"frame changed");
  if(n>=16){ struct frame_level_header *h=&f->fh; int s=0; for(int i=0;i<14;i++) s+=r[i];
    CHECK(h->data_cksum==s&&h->hdlc_address==r[0]&&h->hdlc_control==r[1]&&h->header_length==(r[2]&15)&&h->sbn_version==r[2]>>4&&h->sbn_control==r[3]&&h->sbn_command==r[4]&&h->sbn_datstream==r[5]&&h->sbn_src==r[6]&&h->sbn_dest==r[7]&&h->sbn_seq_number==U32(r,8)&&h->sbn_run==U16(r,12)&&h->sbn_cksum==U16(r,14),"frame level header"); }
  if(st==0&&x->data){ const unsigned char *q=r+16; struct product_def_header *h=&f->pdh;
    CHECK(h->header_length32==(q[0]&15)&&h->version==q[0]>>4&&h->transfer_type==q[1]&&h->header_length==U16(q,2)&&h->block_number==U16(q,4)&&h->data_block_offset==U16(q,6)&&h->data_block_size==U16(q,8)&&h->records_per_block==q[10]&&h->blocks_per_record==q[11]&&h->product_seq_number==U32(q,12),"product definition header");
    if(x->first){ struct product_spec_header *p=&f->psh; q=r+32;
      CHECK(p->opt_field_number==q[0]&&p->opt_field_type==q[1]&&p->opt_field_length==U16(q,2)&&p->version==q[4]&&p->transfer_status_flag==q[5]&&p->awips_data_length==U16(q,6)&&p->bytes_per_record==U16(q,8)&&p->product_type==q[10]&&p->product_category==q[11]&&p->product_code==U16(q,12)&&p->num_fragments==U16(q,14)&&p->next_header_offset==U16(q,16)&&p->reserved==q[18]&&p->source==q[19]&&p->orig_seq_number==U32(q,20)&&p->ncf_recv_time==U32(q,24)&&p->ncf_transmit_time==U32(q,28)&&p->run_id==U16(q,32)&&p->orig_run_id==U16(q,34),"product specific header"); }
    CHECK(f->ctrlhdr_size==x->dbo&&f->ctrlhdr==(x->dbo?f->rawdata+x->off:NULL),"control header");
    CHECK(f->frdata==f->rawdata+x->off+x->dbo&&f->frdata_size==x->dbs-x->dbo,"data block %d",f->frdata_size);
    CHECK(f->f_frdata_compressed==x->comp,"compressed flag");
    if(x->first&&!x->dbo){ CHECK(f->ccb_size==x->ccb,"ccb size"); CHECK(f->pdata_size==x->n-x->ccb,"product data size %d",f->pdata_size); CHECK(!memcmp(f->pdata,x->p+x->ccb,x->n-x->ccb),"product data"); CHECK(x->ccb?f->ccb==f->pdata-24:f->ccb==NULL,"ccb"); }
    if(x->first&&x->dbo){ CHECK(f->ccb_size==x->ccb&&f->ccb==(x->ccb?f->ctrlhdr:NULL),"ccb in the control header"); CHECK(f->pdata==NULL&&f->pdata_size==0,"no product data"); }
    if(!x->first) CHECK(f->ccb==NULL&&f->ccb_size==0,"later frame");
    char ch[MAX_CTRLHDR_SIZE]; int sz=rn(4)?(int)sizeof ch:1+(int)rn(sizeof ch); char *c=malloc(sz); int cs=sz; int e=copy_ctrlheader(c,&cs,f);
    if(x->dbo&&x->dbo<=sz) CHECK(e==0&&cs==x->dbo&&!memcmp(c,r+x->off,cs),"copy of the control header"); else CHECK(e==1&&cs==0&&c[0]==0,"no control header");
    free(c);
  }
  free(x); free(f);
}
