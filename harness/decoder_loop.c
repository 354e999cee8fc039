/* C04, unbounded: each iteration of the decoder's loops delivers or skips
 * exactly the record (or packed value) at its offset; by induction over the
 * loops every encoded value is delivered once, in order.  The callees are
 * their contracts: descriptor lookup (C16) is an arbitrary function from
 * numbers to fields, reading and skipping (C03) are arbitrary functions from
 * position and type to a result that fits the bytes left. */
#include "vf.h"
#include <pb_verify.h>
#include "core/buffer.h"
#include "core/decoder.h"
#include "core/descriptor.h"
#include "core/stream.h"
#include <protobluff/core/string.h>

dec_ghost_t DG;
static uint8_t *D; static size_t N; static int U; static const pb_buffer_t *B;
static pb_descriptor_t desc = { { NULL, 0 }, NULL };
static pb_field_descriptor_t *F;             /* arbitrary field */
int nondet_int(void); size_t nondet_size(void); uint64_t nondet_u64(void);

read_t Q[NQ]; unsigned Qn;
static unsigned w_wt(pb_type_t t) { return pb_field_descriptor_wiretype_map[t]; }
static read_t query(size_t off, unsigned type) {
  SEEN(0) SEEN(1) SEEN(2) SEEN(3)
  read_t r; r.off = off; r.type = type; r.err = nondet_int(); r.len = nondet_size(); r.sub = nondet_size(); r.val = nondet_u64();
  REQUIRE(r.err >= PB_ERROR_NONE && r.err <= PB_ERROR_EOM);
  REQUIRE(r.err || (r.len >= 1 && off <= N && r.len <= N - off && r.sub <= r.len && r.sub >= 1));
  if (type == PB_TYPE_UINT32) REQUIRE(r.val <= UINT32_MAX);
  if (Qn < NQ) Q[Qn++] = r;
  return r; }

static pb_error_t read_any(pb_stream_t *s, pb_type_t type, void *value) {
  CHECK(s->buffer == B && s->offset <= N, "the stream runs over the decoder's buffer");
  read_t r = query(s->offset, type);
  if (r.err) return (pb_error_t)r.err;
  if (w_wt(type) == PB_WIRETYPE_LENGTH) *(pb_string_t *)value = pb_string_init(D + s->offset + r.sub, r.len - r.sub);
  else if (pb_field_descriptor_type_size_map[type] == 8) *(uint64_t *)value = r.val;
  else if (pb_field_descriptor_type_size_map[type] == 4) *(uint32_t *)value = (uint32_t)r.val;
  else *(uint8_t *)value = (uint8_t)r.val;
  s->offset += r.len;
  return PB_ERROR_NONE; }
static pb_error_t skip_any(pb_stream_t *s, unsigned wt) {
  CHECK(s->buffer == B && s->offset <= N, "the stream runs over the decoder's buffer");
  read_t r = query(s->offset, 32 + wt);
  if (r.err) return (pb_error_t)r.err;
  s->offset += r.len;
  return PB_ERROR_NONE; }
static pb_error_t skip0(pb_stream_t *s) { return skip_any(s, 0); }
static pb_error_t skip1(pb_stream_t *s) { return skip_any(s, 1); }
static pb_error_t skip2(pb_stream_t *s) { return skip_any(s, 2); }
static pb_error_t skip5(pb_stream_t *s) { return skip_any(s, 5); }
const pb_stream_read_f pb_stream_read_jump[] = {
  [PB_TYPE_INT32] = read_any, [PB_TYPE_INT64] = read_any, [PB_TYPE_UINT32] = read_any, [PB_TYPE_UINT64] = read_any,
  [PB_TYPE_SINT32] = read_any, [PB_TYPE_SINT64] = read_any, [PB_TYPE_FIXED32] = read_any, [PB_TYPE_FIXED64] = read_any,
  [PB_TYPE_SFIXED32] = read_any, [PB_TYPE_SFIXED64] = read_any, [PB_TYPE_BOOL] = read_any, [PB_TYPE_ENUM] = read_any,
  [PB_TYPE_FLOAT] = read_any, [PB_TYPE_DOUBLE] = read_any, [PB_TYPE_STRING] = read_any, [PB_TYPE_BYTES] = read_any, [PB_TYPE_MESSAGE] = read_any };
const pb_stream_skip_f pb_stream_skip_jump[8] = { skip0, skip1, skip2, NULL, NULL, skip5 };
pb_error_t pb_stream_advance(pb_stream_t *s, size_t n) {
  if (N - s->offset < n) return PB_ERROR_OFFSET;
  s->offset += n; return PB_ERROR_NONE; }

const pb_field_descriptor_t *pb_descriptor_field_by_tag(const pb_descriptor_t *d, pb_tag_t tag) {
  CHECK(d == &desc, "fields are looked up in the decoder's descriptor");
  CHECK(tag == DG.num, "the field looked up is the one of the record");
  return DG.known ? F : NULL; }

void dec_step(size_t o) {
  Qn = 0;
  DG.pending = DG.packed = DG.known = 0;
  read_t t = query(o, PB_TYPE_UINT32);
  DG.bad = t.err != 0; DG.next = o;
  if (DG.bad) return;
  uint32_t num = (uint32_t)t.val >> 3; unsigned wt = t.val & 7;
  o += t.len; DG.num = num;
  DG.known = num && nondet_int() && F->tag == num;
  unsigned w = w_wt(F->type);
  if (!DG.known || (wt != w && wt != PB_WIRETYPE_LENGTH)) {
    if (wt == 3 || wt == 4 || wt > 5) { DG.bad = 1; return; }
    read_t s = query(o, 32 + wt);
    DG.bad = s.err != 0; DG.next = o + s.len;
  } else if (wt != w) {
    read_t l = query(o, PB_TYPE_UINT32);
    DG.bad = l.err != 0 || l.val > N - (o + l.len);
    DG.packed = 1; DG.vnext = o + l.len; DG.pend = DG.next = DG.vnext + l.val;
  } else {
    read_t v = query(o, F->type);
    DG.bad = v.err != 0; DG.pending = !v.err;
    DG.off = o; DG.len = v.len; DG.sub = v.sub; DG.val = v.val; DG.next = o + v.len; } }

void dec_vstep(size_t o) {
  Qn = 0;
  CHECK(DG.packed && o == DG.vnext, "packed values are read one after the other");
  read_t v = query(o, F->type);
  DG.bad = v.err != 0 || v.len > DG.pend - o; DG.pending = !DG.bad;
  DG.off = o; DG.len = v.len; DG.sub = v.sub; DG.val = v.val; DG.vnext = o + v.len; }

static pb_error_t handler(const pb_field_descriptor_t *f, const void *value, void *user) {
  CHECK(user == &U, "the handler gets the caller's data");
  CHECK(!DG.failed, "no value is delivered after an error");
  CHECK(DG.pending, "no value is delivered that is not encoded there");
  CHECK(f == F, "the value is delivered for its field");
  DG.pending = 0;
  if (F->type == PB_TYPE_MESSAGE) {
    const pb_decoder_t *s = value;
    CHECK(pb_decoder_valid(s) && pb_decoder_descriptor(s) == F->refer, "submessages come with a decoder of their type");
    CHECK(pb_buffer_data(pb_decoder_buffer(s)) == D + DG.off + DG.sub && pb_buffer_size(pb_decoder_buffer(s)) == DG.len - DG.sub, "over exactly their bytes");
    REACH("message");
  } else if (w_wt(F->type) == PB_WIRETYPE_LENGTH) {
    const pb_string_t *s = value;
    CHECK(s->data == D + DG.off + DG.sub && s->size == DG.len - DG.sub, "strings are views of exactly their bytes");
    REACH("string");
  } else {
    size_t w = pb_field_descriptor_type_size_map[F->type];
    CHECK(w == 8 ? *(const uint64_t *)value == DG.val : w == 4 ? *(const uint32_t *)value == (uint32_t)DG.val : *(const uint8_t *)value == (uint8_t)DG.val,
      "the value delivered is the value encoded");
    REACH("scalar"); }
  int e = nondet_int(); REQUIRE(e >= PB_ERROR_NONE && e <= PB_ERROR_EOM);
  if (e) { DG.failed = 1; DG.fail = e; }
  return (pb_error_t)e; }

void h_decode_loop(void) {
  size_t n = nondet_size(); REQUIRE(n <= VF_CAP); uint8_t *d = malloc(n + !n); REQUIRE(d != NULL);
  D = d; N = n;
  F = malloc(sizeof *F); REQUIRE(F != NULL);
  REQUIRE(F->type >= PB_TYPE_INT32 && F->type <= PB_TYPE_MESSAGE);
  DG.next = 0; DG.pending = DG.bad = DG.failed = 0;
  pb_buffer_t b = pb_buffer_create_zero_copy_internal(d, n); B = &b;
  pb_decoder_t dec = pb_decoder_create(&desc, &b);
  pb_error_t r = pb_decoder_decode(&dec, handler, &U);
  CHECK(b.data == d && b.size == n, "the buffer is untouched");
  if (r) { CHECK(DG.failed ? r == DG.fail : DG.bad, "decoding fails exactly with the handler's error or on malformed bytes"); REACH("failed"); }
  else { CHECK(DG.next == n && !DG.pending && !DG.failed && !DG.bad, "otherwise every byte was decoded and every value delivered"); REACH("decoded"); }
}
