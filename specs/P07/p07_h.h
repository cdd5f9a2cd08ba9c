void h_unpack_uint32(void){ void *p; size_t s; unpack_uint32(p, s); REACH(); }
void h_pack_uint32(void){ void *p; size_t s; uint32_t u; pack_uint32(p, u, s); REACH(); }
void h_unpack_uint16(void){ void *p; size_t s; unpack_uint16(p, s); REACH(); }
void h_pack_uint16(void){ void *p; size_t s; uint16_t u; pack_uint16(p, u, s); REACH(); }
void h_calc_checksum(void){ void *p; size_t s; calc_checksum(p, s); REACH(); }
void h_roundtrip(void){
  size_t n; ASSUME(n >= 8 && n <= MAXLEN); 
  unsigned char *p = malloc(n); ASSUME(p != 0);
  size_t s; ASSUME(s <= n - 4);
  uint32_t u = nondet_u32(); uint16_t w = nondet_u16();
  if (nondet_bool()) {
    pack_uint32(p, u, s);
    CLAIM(unpack_uint32(p, s) == u, "unpack_uint32 inverts pack_uint32");
  } else {
    pack_uint16(p, w, s);
    CLAIM(unpack_uint16(p, s) == w, "unpack_uint16 inverts pack_uint16");
  }
  REACH();
}
