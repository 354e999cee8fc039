/* C01, C02: varints.  Loop-free code over the full input domain. */
#include "vf.h"
#include "spec.h"
#include "core/varint.h"

/* canonical encoding of `wide` is what pack writes for the value at v, and
 * nothing outside those bytes changes; size agrees */
static void encode_is(pb_type_t type, const void *v, uint64_t wide) {
  uint8_t out[16], old[16];
  for (int i = 0; i < 16; i++) old[i] = out[i] = vf_u8();
  size_t n = pb_varint_pack(type, out + 2, v);
  size_t s = pb_varint_size(type, v);
  CHECK(n == spec_varint_size(wide), "packed length is canonical");
  CHECK(s == n, "announced size equals packed length");
  for (size_t i = 0; i < 10; i++)
    if (i < n) CHECK(out[2 + i] == spec_varint_byte(wide, i), "packed byte is canonical");
  for (size_t i = 0; i < 16; i++)
    if (i < 2 || i >= 2 + n) CHECK(out[i] == old[i], "no byte outside the varint is written");
  REACH("encode");
}
void h_encode_int32(void)  { int32_t  v = (int32_t)vf_in();  encode_is(PB_TYPE_INT32,  &v, (uint64_t)(int64_t)v); }
void h_encode_enum(void)   { int32_t  v = (int32_t)vf_in();  encode_is(PB_TYPE_ENUM,   &v, (uint64_t)(int64_t)v); }
void h_encode_int64(void)  { int64_t  v = (int64_t)vf_in();  encode_is(PB_TYPE_INT64,  &v, (uint64_t)v); }
void h_encode_uint32(void) { uint32_t v = (uint32_t)vf_in(); encode_is(PB_TYPE_UINT32, &v, v); }
void h_encode_uint64(void) { uint64_t v = vf_in();           encode_is(PB_TYPE_UINT64, &v, v); }
void h_encode_sint32(void) { int32_t  v = (int32_t)vf_in();  encode_is(PB_TYPE_SINT32, &v, spec_zigzag32(v)); }
void h_encode_sint64(void) { int64_t  v = (int64_t)vf_in();  encode_is(PB_TYPE_SINT64, &v, spec_zigzag64(v)); }
void h_encode_bool(void)   { uint8_t  v = (uint8_t)vf_in();  encode_is(PB_TYPE_BOOL,   &v, v); }

/* pack, then unpack from exactly the packed bytes followed by anything */
#define ROUND(name, T, TYPE) \
void h_round_##name(void) { \
  T v = (T)vf_in(), w = (T)vf_in(); size_t extra = vf_range(0, 6); \
  uint8_t p[16]; for (size_t i = 0; i < 16; i++) p[i] = vf_u8(); \
  size_t n = pb_varint_pack(TYPE, p, &v); \
  size_t m = pb_varint_unpack(TYPE, p, n + extra, &w); \
  CHECK(m == n, "reading consumes exactly the written bytes"); \
  CHECK(w == v, "reading returns the written value"); \
  REACH("round"); }
ROUND(int32, int32_t, PB_TYPE_INT32)
ROUND(enum, int32_t, PB_TYPE_ENUM)
ROUND(int64, int64_t, PB_TYPE_INT64)
ROUND(uint32, uint32_t, PB_TYPE_UINT32)
ROUND(uint64, uint64_t, PB_TYPE_UINT64)
ROUND(sint32, int32_t, PB_TYPE_SINT32)
ROUND(sint64, int64_t, PB_TYPE_SINT64)
ROUND(bool, uint8_t, PB_TYPE_BOOL)

/* C02: any bytes, any remaining length (exact-size object: a read beyond it
 * is a failed obligation) */
#define DEC_PRE(T) \
  size_t n = vf_size(1); uint8_t *p = vf_buf(n); \
  T v = (T)vf_in()

#define DECODE(name, T, TYPE, MAX, VALUE) \
void h_decode_##name(void) { \
  DEC_PRE(T); \
  size_t len = spec_varint_len(p, n, MAX); \
  size_t r = pb_varint_unpack(TYPE, p, n, &v); \
  CHECK(r == len, "accepted exactly if the varint ends within the bytes and its maximum length"); \
  if (r) { uint64_t u = spec_varint_value(p, len); (void)u; \
    CHECK(v == (T)(VALUE), "decoded value"); REACH("accepted"); } \
  else REACH("rejected"); \
  free(p); }
DECODE(uint32, uint32_t, PB_TYPE_UINT32, 5, (uint32_t)u)
DECODE(uint64, uint64_t, PB_TYPE_UINT64, 10, u)
DECODE(int64,  int64_t,  PB_TYPE_INT64, 10, u)
DECODE(bool,   uint8_t,  PB_TYPE_BOOL, 2, (uint8_t)u)
DECODE(sint32, int32_t,  PB_TYPE_SINT32, 5, ((uint32_t)u >> 1) ^ (0u - ((uint32_t)u & 1)))
DECODE(sint64, int64_t,  PB_TYPE_SINT64, 10, (u >> 1) ^ (0ull - (u & 1)))

/* int32 and enum: up to five bytes, or exactly the ten bytes of a
 * sign-extended negative number */
static void decode_int32(pb_type_t type) {
  DEC_PRE(int32_t);
  size_t len = spec_varint_len(p, n, 10);
  uint64_t u = spec_varint_value(p, len);
  int ext = len == 10 && (int64_t)u == (int64_t)(int32_t)(uint32_t)u && (int64_t)u < 0 && p[9] == 1;
  size_t r = pb_varint_unpack(type, p, n, &v);
  if (len > 0 && len <= 5) CHECK(r == len, "short int32 varint accepted");
  else if (ext) CHECK(r == 10, "sign-extended negative int32 accepted");
  else CHECK(r == 0, "anything else rejected");
  if (r) { CHECK(v == (int32_t)(uint32_t)u, "decoded value"); REACH("accepted"); }
  else REACH("rejected");
  free(p);
}
void h_decode_int32(void) { decode_int32(PB_TYPE_INT32); }
void h_decode_enum(void)  { decode_int32(PB_TYPE_ENUM); }

void h_scan(void) {
  size_t n = vf_size(1); uint8_t *p = vf_buf(n);
  size_t len = spec_varint_len(p, n, 10);
  size_t r = pb_varint_scan(p, n);
  CHECK(r == len, "scan finds exactly the end of a varint of at most ten bytes");
  if (r) REACH("found"); else REACH("none");
  free(p);
}
