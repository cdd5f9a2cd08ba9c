/* byte level specification of an SBN frame, from the protocol layout:
   frame level header 16 bytes, product definition header 16, product specific header 36 (block 0 only),
   optional control header, product data */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "vpctype.h"
#include "sbn.h"
#define U8(p,i)  ((int)BYTE(p,i))
#define U16(p,i) (((int)BYTE(p,i) << 8) | (int)BYTE(p,(i)+1))
#define U32(p,i) (((uint32_t)BYTE(p,i) << 24) | ((uint32_t)BYTE(p,(i)+1) << 16) | ((uint32_t)BYTE(p,(i)+2) << 8) | (uint32_t)BYTE(p,(i)+3))
#define SUM14(p) (U8(p,0)+U8(p,1)+U8(p,2)+U8(p,3)+U8(p,4)+U8(p,5)+U8(p,6)+U8(p,7)+U8(p,8)+U8(p,9)+U8(p,10)+U8(p,11)+U8(p,12)+U8(p,13))
#define ISALPHA_(c) (((c) >= 'a' && (c) <= 'z') || ((c) >= 'A' && (c) <= 'Z'))
#define FH_OK(h,p) ((h)->data_cksum == SUM14(p) && (h)->hdlc_address == U8(p,0) && (h)->hdlc_control == U8(p,1) && (h)->header_length == (U8(p,2) & 15) \
  && (h)->sbn_version == (U8(p,2) >> 4) && (h)->sbn_control == U8(p,3) && (h)->sbn_command == U8(p,4) && (h)->sbn_datstream == U8(p,5) \
  && (h)->sbn_src == U8(p,6) && (h)->sbn_dest == U8(p,7) && (h)->sbn_seq_number == U32(p,8) && (h)->sbn_run == U16(p,12) && (h)->sbn_cksum == U16(p,14))
#define PD_OK(h,p) ((h)->header_length32 == (U8(p,0) & 15) && (h)->version == (U8(p,0) >> 4) && (h)->transfer_type == U8(p,1) && (h)->header_length == U16(p,2) \
  && (h)->block_number == U16(p,4) && (h)->data_block_offset == U16(p,6) && (h)->data_block_size == U16(p,8) && (h)->records_per_block == U8(p,10) \
  && (h)->blocks_per_record == U8(p,11) && (h)->product_seq_number == U32(p,12))
#define PS_OK(h,p) ((h)->opt_field_number == U8(p,0) && (h)->opt_field_type == U8(p,1) && (h)->opt_field_length == U16(p,2) && (h)->version == U8(p,4) \
  && (h)->transfer_status_flag == U8(p,5) && (h)->awips_data_length == U16(p,6) && (h)->bytes_per_record == U16(p,8) && (h)->product_type == U8(p,10) \
  && (h)->product_category == U8(p,11) && (h)->product_code == U16(p,12) && (h)->num_fragments == U16(p,14) && (h)->next_header_offset == U16(p,16) \
  && (h)->reserved == U8(p,18) && (h)->source == U8(p,19) && (h)->orig_seq_number == U32(p,20) && (h)->ncf_recv_time == U32(p,24) \
  && (h)->ncf_transmit_time == U32(p,28) && (h)->run_id == U16(p,32) && (h)->orig_run_id == U16(p,34))
/* spec functions of the raw frame r of n bytes */
#define F_CMD(r) U8(r,4)
#define F_BLK(r) U16(r,20)
#define F_TT(r)  U8(r,17)
#define F_DBO(r) U16(r,22)
#define F_DBS(r) U16(r,24)
#define F_OFF(r) (32 + (F_BLK(r) == 0 ? 36 : 0))
#define F_COMP(r) ((F_TT(r) & 16) != 0)
#define HDR_STATUS(r,n) ((n) < 16 ? 2 : SUM14(r) != U16(r,14) ? 1 : F_CMD(r) != 3 ? 0 : (n) < 32 ? 2 : F_BLK(r) == 0 && (n) < 68 ? 2 : (n) != F_OFF(r) + F_DBS(r) ? 2 : 0)
#define CH_BAD(r) (F_DBO(r) != 0 && (F_DBO(r) < 21 || F_DBO(r) > F_DBS(r)))
int vp_unzret;     /* status of the decompression, if there was one */
#define SBN_PRE(f) REQ(FRESH(f, sizeof(*f)) && f->rawdata_size >= 0 && f->rawdata_size <= SBN_FRAME_SIZE)
static int unpack_fl_header(struct frame_level_header *flh, unsigned char *data)
  REQ(FRESH(flh, sizeof(*flh)) && FRESH(data, 16)) ASG(*flh)
  ENS(FH_OK(flh, data)) ENS(RET == (SUM14(data) == U16(data,14) ? 0 : 1));
static void unpack_pd_header(struct product_def_header *pdh, unsigned char *data)
  REQ(FRESH(pdh, sizeof(*pdh)) && FRESH(data, 16)) ASG(*pdh) ENS(PD_OK(pdh, data));
static void unpack_ps_header(struct product_spec_header *psh, unsigned char *data)
  REQ(FRESH(psh, sizeof(*psh)) && FRESH(data, 36)) ASG(*psh) ENS(PS_OK(psh, data));
static int unpack_sbn_headers(struct sbn_frame *f)
  SBN_PRE(f) ASG(f->fh, f->pdh, f->psh)
  ENS(RET == HDR_STATUS(f->rawdata, f->rawdata_size))
  ENS(IMP(f->rawdata_size >= 16, FH_OK(&f->fh, f->rawdata)))
  ENS(IMP(RET == 0 && F_CMD(f->rawdata) == 3, PD_OK(&f->pdh, f->rawdata + 16)))
  ENS(IMP(RET == 0 && F_CMD(f->rawdata) == 3 && F_BLK(f->rawdata) == 0, PS_OK(&f->psh, f->rawdata + 32)));
int unz(char *out, int *outlen, char *in, int inlen)
  REQ(*outlen >= 0 && __CPROVER_w_ok(out, *outlen) && inlen >= 0 && __CPROVER_r_ok(in, inlen))
  ASG(__CPROVER_object_upto(out, *outlen), *outlen, vp_unzret)
  ENS(RET == vp_unzret) ENS(*outlen >= 0 && *outlen <= OLD(*outlen));
#define DATA_T(f) (F_CMD(f->rawdata) == 3)
#define NOCH(f) (F_DBO(f->rawdata) == 0)
#define FIRST(f) (F_BLK(f->rawdata) == 0)
/* where the product starts when there is no control header */
#define PD_P(f) (F_COMP(f->rawdata) ? f->blkdata : f->rawdata + F_OFF(f->rawdata))
#define PD_N(f) (F_COMP(f->rawdata) ? f->blkdata_size : F_DBS(f->rawdata))
#define PD_C(f) (F_COMP(f->rawdata) ? f->blkdata[0] : f->rawdata[F_OFF(f->rawdata)])
#define CCB_N(f) (PD_N(f) > 0 && ISALPHA_(PD_C(f)) ? 0 : 24)
#define ST_REST(f) (CH_BAD(f->rawdata) ? 2 : \
   !FIRST(f) ? 0 : \
   !NOCH(f) ? (!ISALPHA_(f->rawdata[F_OFF(f->rawdata)]) && F_DBO(f->rawdata) < 24 ? 2 : 0) : \
   F_COMP(f->rawdata) && vp_unzret != 0 ? 3 : PD_N(f) < CCB_N(f) ? 2 : 0)
#define ST_ALL(f) (HDR_STATUS(f->rawdata, f->rawdata_size) != 0 ? HDR_STATUS(f->rawdata, f->rawdata_size) : !DATA_T(f) ? 0 : ST_REST(f))
#define OKD(f) (RET == 0 && DATA_T(f))
int sbn_unpack_frame(struct sbn_frame *f)
  SBN_PRE(f)
  ASG(f->fh, f->pdh, f->psh, f->ctrlhdr, f->ctrlhdr_size, f->frdata, f->frdata_size, f->blkdata, f->blkdata_size, f->ccb, f->ccb_size, f->pdata, f->pdata_size, f->f_frdata_compressed, f->f_unzstatus, vp_unzret)
  ENS(RET == ST_ALL(f))
  ENS(IMP(f->rawdata_size >= 16, FH_OK(&f->fh, f->rawdata)))
  ENS(IMP(OKD(f), PD_OK(&f->pdh, f->rawdata + 16) && IMP(FIRST(f), PS_OK(&f->psh, f->rawdata + 32))))
  ENS(IMP(OKD(f), f->ctrlhdr_size == F_DBO(f->rawdata) && (NOCH(f) ? f->ctrlhdr == NULL : f->ctrlhdr == f->rawdata + F_OFF(f->rawdata))))
  ENS(IMP(OKD(f), f->frdata == f->rawdata + F_OFF(f->rawdata) + F_DBO(f->rawdata) && f->frdata_size == F_DBS(f->rawdata) - F_DBO(f->rawdata)
      && f->frdata_size >= 0 && F_OFF(f->rawdata) + F_DBO(f->rawdata) + f->frdata_size == f->rawdata_size))
  ENS(IMP(OKD(f), f->f_frdata_compressed == (F_COMP(f->rawdata) ? 1 : 0)))
  ENS(IMP(OKD(f) && !FIRST(f), f->ccb == NULL && f->ccb_size == 0))
  ENS(IMP(OKD(f) && FIRST(f) && !NOCH(f), f->pdata == NULL && f->pdata_size == 0
      && (ISALPHA_(f->ctrlhdr[0]) ? f->ccb == NULL && f->ccb_size == 0 : f->ccb == f->ctrlhdr && f->ccb_size == 24)))
  ENS(IMP(OKD(f) && FIRST(f) && NOCH(f), f->ccb_size == CCB_N(f) && (f->ccb_size == 0 ? f->ccb == NULL : f->ccb == PD_P(f))
      && f->pdata == PD_P(f) + f->ccb_size && f->pdata_size == PD_N(f) - f->ccb_size && f->pdata_size >= 0))
  ENS(IMP(OKD(f) && FIRST(f) && NOCH(f) && F_COMP(f->rawdata), f->blkdata_size >= 0 && f->blkdata_size <= MAX_FRDATA_SIZE))
  ENS(IMP(RET == 3, f->f_unzstatus == vp_unzret && vp_unzret != 0));
