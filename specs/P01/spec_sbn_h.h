void h_unpack_fl_header(void){ struct frame_level_header *h; unsigned char *p; int r = unpack_fl_header(h, p); COVER(r == 0, "checksum right"); COVER(r == 1, "checksum wrong"); REACH(); }
void h_unpack_pd_header(void){ struct product_def_header *h; unsigned char *p; unpack_pd_header(h, p); REACH(); }
void h_unpack_ps_header(void){ struct product_spec_header *h; unsigned char *p; unpack_ps_header(h, p); REACH(); }
void h_unpack_sbn_headers(void){ struct sbn_frame *f; int r = unpack_sbn_headers(f); COVER(r == 0, "ok"); COVER(r == 1, "checksum"); COVER(r == 2, "inconsistent"); REACH(); }
#define COV(f,r) COVER(r == 0 && FIRST(f) && DATA_T(f) && NOCH(f), "first, no control header"); COVER(r == 0 && FIRST(f) && DATA_T(f) && !NOCH(f), "first, control header"); \
  COVER(r == 0 && DATA_T(f) && !FIRST(f), "later frame"); COVER(r == 3, "decompression error"); COVER(r == 1, "checksum"); COVER(r == 0 && !DATA_T(f), "no data transfer");
void h_sbn_unpack_frame(void){ struct sbn_frame *f; int r = sbn_unpack_frame(f); COVER(r == 0, "accepted"); COVER(r == 1, "checksum"); COVER(r == 2, "inconsistent"); COVER(r == 3, "decompression error"); REACH(); }
/* the whole decoder inlined (only the decompression behind its contract) */
#undef RET
#define RET r
#undef ENS
#define ENS(x) CLAIM(x, #x)
void h_whole_frame(void){
  struct sbn_frame *f = malloc(sizeof(*f)); ASSUME(f != NULL); ASSUME(f->rawdata_size >= 0 && f->rawdata_size <= SBN_FRAME_SIZE);
  int n0 = f->rawdata_size; unsigned k = nondet_uint(); ASSUME(k < SBN_FRAME_SIZE); char c0 = f->rawdata[k];
  int r = sbn_unpack_frame(f);
  CLAIM(f->rawdata_size == n0 && f->rawdata[k] == c0, "the received frame is not changed");
  CLAIM(r == ST_ALL(f), "status as the frame deserves");
  CLAIM(IMP(f->rawdata_size >= 16, FH_OK(&f->fh, f->rawdata)), "frame level header");
  CLAIM(IMP(OKD(f), PD_OK(&f->pdh, f->rawdata + 16) && IMP(FIRST(f), PS_OK(&f->psh, f->rawdata + 32))), "product headers");
  CLAIM(IMP(OKD(f), f->ctrlhdr_size == F_DBO(f->rawdata) && f->frdata == f->rawdata + F_OFF(f->rawdata) + F_DBO(f->rawdata) && f->frdata_size == F_DBS(f->rawdata) - F_DBO(f->rawdata)), "data block location");
  CLAIM(IMP(OKD(f), f->frdata_size >= 0 && F_OFF(f->rawdata) + F_DBO(f->rawdata) + f->frdata_size == f->rawdata_size), "data block ends where the frame ends");
  CLAIM(IMP(OKD(f) && FIRST(f) && NOCH(f), f->pdata == PD_P(f) + f->ccb_size && f->pdata_size == PD_N(f) - f->ccb_size && f->pdata_size >= 0), "product data");
  COV(f, r) REACH();
}
