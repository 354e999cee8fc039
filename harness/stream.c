/* C03: reading from and skipping in a stream over any buffer, any position. */
#include "vf.h"
#include "spec.h"
#include "core/buffer.h"
#include "core/stream.h"
#include <protobluff/core/string.h>

#define PRE \
  size_t n = vf_size(1); uint8_t *d = vf_buf(n); \
  size_t o = vf_range(0, VF_CAP); REQUIRE(o <= n); \
  pb_buffer_t b = pb_buffer_create_zero_copy_internal(d, n); \
  pb_stream_t s = pb_stream_create_at(&b, o); \
  CHECK(pb_stream_offset(&s) == o && pb_stream_left(&s) == n - o && pb_stream_size(&s) == n, "a stream starts where it was asked to")
#define POST(err, adv, failcode) do { \
  CHECK(b.data == d && b.size == n, "buffer untouched"); \
  if (!(err)) { CHECK(pb_stream_offset(&s) == o + (adv), "advances by exactly the bytes of the value"); \
                CHECK(pb_stream_offset(&s) <= n, "stays within the buffer"); REACH("read"); } \
  else { CHECK(pb_stream_offset(&s) == o, "a failed read leaves the position unchanged"); \
         CHECK((err) == (failcode), "error code"); REACH("failed"); } } while (0)

#define VARINT(name, T, TYPE, MAX, VALUE) \
void h_read_##name(void) { PRE; T v = (T)vf_in(); \
  size_t len = spec_varint_len(d + o, n - o, MAX); \
  pb_error_t e = pb_stream_read(&s, TYPE, &v); \
  CHECK(!e == (len != 0), "succeeds exactly if a complete varint is left"); \
  if (!e) { uint64_t u = spec_varint_value(d + o, len); (void)u; CHECK(v == (T)(VALUE), "value"); } \
  POST(e, len, PB_ERROR_VARINT); free(d); }
VARINT(uint32, uint32_t, PB_TYPE_UINT32, 5, (uint32_t)u)
VARINT(uint64, uint64_t, PB_TYPE_UINT64, 10, u)
VARINT(int64,  int64_t,  PB_TYPE_INT64, 10, u)
VARINT(bool,   uint8_t,  PB_TYPE_BOOL, 2, (uint8_t)u)
VARINT(sint32, int32_t,  PB_TYPE_SINT32, 5, ((uint32_t)u >> 1) ^ (0u - ((uint32_t)u & 1)))
VARINT(sint64, int64_t,  PB_TYPE_SINT64, 10, (u >> 1) ^ (0ull - (u & 1)))

static void read_int32(pb_type_t type) { PRE; int32_t v = (int32_t)vf_in();
  size_t len = spec_varint_len(d + o, n - o, 10);
  uint64_t u = spec_varint_value(d + o, len);
  if (len > 5 && !(len == 10 && (int64_t)u == (int64_t)(int32_t)(uint32_t)u && (int64_t)u < 0 && d[o + 9] == 1)) len = 0;
  pb_error_t e = pb_stream_read(&s, type, &v);
  CHECK(!e == (len != 0), "succeeds exactly if a complete int32 varint is left");
  if (!e) CHECK(v == (int32_t)(uint32_t)u, "value");
  POST(e, len, PB_ERROR_VARINT); free(d); }
void h_read_int32(void) { read_int32(PB_TYPE_INT32); }
void h_read_enum(void)  { read_int32(PB_TYPE_ENUM); }

static void read_fixed(pb_type_t type, size_t w) { PRE;
  uint8_t v[8], old[8]; for (int i = 0; i < 8; i++) old[i] = v[i] = vf_u8();
  pb_error_t e = pb_stream_read(&s, type, v);
  CHECK(!e == (n - o >= w), "succeeds exactly if all bytes are left");
  for (size_t i = 0; i < 8; i++) {
    if (!e && i < w) CHECK(v[i] == d[o + i], "value bytes");
    else CHECK(v[i] == old[i], "nothing else is written"); }
  POST(e, w, PB_ERROR_OFFSET); free(d); }
void h_read_fixed64(void)  { read_fixed(PB_TYPE_FIXED64, 8); }
void h_read_sfixed64(void) { read_fixed(PB_TYPE_SFIXED64, 8); }
void h_read_double(void)   { read_fixed(PB_TYPE_DOUBLE, 8); }
void h_read_fixed32(void)  { read_fixed(PB_TYPE_FIXED32, 4); }
void h_read_sfixed32(void) { read_fixed(PB_TYPE_SFIXED32, 4); }
void h_read_float(void)    { read_fixed(PB_TYPE_FLOAT, 4); }

static void read_length(pb_type_t type) { PRE;
  pb_string_t v = { NULL, 0 };
  size_t len = spec_varint_len(d + o, n - o, 5);
  uint64_t u = (uint32_t)spec_varint_value(d + o, len);
  int ok = len && n - o - len >= u;
  pb_error_t e = pb_stream_read(&s, type, &v);
  CHECK(!e == ok, "succeeds exactly if the prefix and all announced bytes are left");
  if (!e) CHECK(v.data == d + o + len && v.size == u, "the string is the announced bytes");
  POST(e, len + u, len ? PB_ERROR_OFFSET : PB_ERROR_VARINT); free(d); }
void h_read_string(void)  { read_length(PB_TYPE_STRING); }
void h_read_bytes(void)   { read_length(PB_TYPE_BYTES); }
void h_read_message(void) { read_length(PB_TYPE_MESSAGE); }

void h_skip(void) { PRE;
  unsigned w = (unsigned)vf_range(0, 7);
  size_t adv = 0; int ok = 0; pb_error_t code = PB_ERROR_INVALID;
  size_t l10 = spec_varint_len(d + o, n - o, 10), l5 = spec_varint_len(d + o, n - o, 5);
  if (w == 0) { adv = l10; ok = l10 != 0; code = PB_ERROR_VARINT; }
  if (w == 1) { adv = 8; ok = n - o >= 8; code = PB_ERROR_OFFSET; }
  if (w == 2) { adv = l5 + (uint32_t)spec_varint_value(d + o, l5);
                ok = l5 && n - o >= adv; code = l5 ? PB_ERROR_OFFSET : PB_ERROR_VARINT; }
  if (w == 5) { adv = 4; ok = n - o >= 4; code = PB_ERROR_OFFSET; }
  pb_error_t e = pb_stream_skip(&s, (pb_wiretype_t)w);
  CHECK(!e == ok, "skips exactly if the field is complete and its wiretype supported");
  if (!e && w == 0) REACH("varint"); if (!e && w == 1) REACH("64bit");
  if (!e && w == 2) REACH("length"); if (!e && w == 5) REACH("32bit");
  POST(e, adv, code); free(d); }

void h_advance(void) { PRE; size_t a = (size_t)vf_in();
  pb_error_t e = pb_stream_advance(&s, a);
  CHECK(!e == (a <= n - o), "advances exactly within the buffer");
  POST(e, a, PB_ERROR_OFFSET); free(d); }
