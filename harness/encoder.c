/* C05, C06 twin: the encoder against a reference encoder, with an allocator
 * that fails now and then; finds failing inputs. */
#include "vf.h"
#include "spec.h"
#include <string.h>
#include "core/buffer.h"
#include "core/decoder.h"
#include "core/descriptor.h"
#include "core/encoder.h"
#include <protobluff/core/string.h>

static pb_descriptor_t sub;
#define FD(tag, type, label, flags) { tag, "f", type, label, (type) == PB_TYPE_MESSAGE ? &sub : NULL, NULL, flags }
#define TYPES(label, flags, base) \
  FD(base + 1, PB_TYPE_INT32, label, flags), FD(base + 2, PB_TYPE_INT64, label, flags), FD(base + 3, PB_TYPE_UINT32, label, flags), \
  FD(base + 4, PB_TYPE_UINT64, label, flags), FD(base + 5, PB_TYPE_SINT32, label, flags), FD(base + 6, PB_TYPE_SINT64, label, flags), \
  FD(base + 7, PB_TYPE_FIXED32, label, flags), FD(base + 8, PB_TYPE_FIXED64, label, flags), FD(base + 9, PB_TYPE_SFIXED32, label, flags), \
  FD(base + 10, PB_TYPE_SFIXED64, label, flags), FD(base + 11, PB_TYPE_BOOL, label, flags), FD(base + 12, PB_TYPE_ENUM, label, flags), \
  FD(base + 13, PB_TYPE_FLOAT, label, flags), FD(base + 14, PB_TYPE_DOUBLE, label, flags)
#define LENS(label, base) FD(base + 15, PB_TYPE_STRING, label, 0), FD(base + 16, PB_TYPE_BYTES, label, 0), FD(base + 17, PB_TYPE_MESSAGE, label, 0)
static const pb_field_descriptor_t fields[] = {
  TYPES(PB_LABEL_OPTIONAL, 0, 0), LENS(PB_LABEL_REQUIRED, 0),
  TYPES(PB_LABEL_REPEATED, 0, 2040), LENS(PB_LABEL_REPEATED, 2040),
  TYPES(PB_LABEL_REPEATED, PB_FLAG_PACKED, 536870890) };
#define NF (sizeof fields / sizeof *fields)
static pb_descriptor_t desc = { { fields, NF }, NULL };
static pb_descriptor_t sub = { { fields, NF }, NULL };

static int fail_at, calls, live;
static void *e_allocate(void *d, size_t n) { if (calls++ == fail_at) return NULL; live++; return malloc(n); }
static void *e_resize(void *d, void *b, size_t n) { if (calls++ == fail_at) return NULL; if (!b) live++; return realloc(b, n); }
static void e_free(void *d, void *b) { CHECK(live > 0, "freed once"); live--; free(b); }
static pb_allocator_t EA = { { e_allocate, e_resize, e_free }, NULL };

#define CAP 200000
static uint8_t ref[CAP]; static size_t ref_n;
static void put(uint8_t c) { REQUIRE(ref_n < CAP); ref[ref_n++] = c; }
static void varint(uint64_t v) { size_t n = spec_varint_size(v); for (size_t i = 0; i < n; i++) put(spec_varint_byte(v, i)); }
static void raw(const void *p, size_t n) { for (size_t i = 0; i < n; i++) put(((const uint8_t *)p)[i]); }
static unsigned wt(pb_type_t t) {
  switch (t) { case PB_TYPE_FIXED32: case PB_TYPE_SFIXED32: case PB_TYPE_FLOAT: return 5;
    case PB_TYPE_FIXED64: case PB_TYPE_SFIXED64: case PB_TYPE_DOUBLE: return 1;
    case PB_TYPE_STRING: case PB_TYPE_BYTES: case PB_TYPE_MESSAGE: return 2; default: return 0; } }
static void value(pb_type_t t, const void *p) {
  switch (t) {
    case PB_TYPE_INT32: case PB_TYPE_ENUM: varint((uint64_t)(int64_t)*(const int32_t *)p); break;
    case PB_TYPE_INT64: case PB_TYPE_UINT64: varint(*(const uint64_t *)p); break;
    case PB_TYPE_UINT32: varint(*(const uint32_t *)p); break;
    case PB_TYPE_SINT32: varint(spec_zigzag32(*(const int32_t *)p)); break;
    case PB_TYPE_SINT64: varint(spec_zigzag64(*(const int64_t *)p)); break;
    case PB_TYPE_BOOL: varint(*(const uint8_t *)p); break;
    case PB_TYPE_STRING: case PB_TYPE_BYTES: varint(((const pb_string_t *)p)->size); raw(((const pb_string_t *)p)->data, ((const pb_string_t *)p)->size); break;
    case PB_TYPE_MESSAGE: varint(((const pb_encoder_t *)p)->buffer.size); raw(((const pb_encoder_t *)p)->buffer.data, ((const pb_encoder_t *)p)->buffer.size); break;
    default: raw(p, wt(t) == 1 ? 8 : 4); } }
static size_t item(pb_type_t t) {
  return t == PB_TYPE_MESSAGE ? sizeof(pb_encoder_t) : wt(t) == 2 ? sizeof(pb_string_t) : t == PB_TYPE_BOOL ? 1 :
    wt(t) == 1 || t == PB_TYPE_INT64 || t == PB_TYPE_UINT64 || t == PB_TYPE_SINT64 ? 8 : 4; }

static size_t same_prefix(const pb_encoder_t *e) {
  return pb_buffer_valid(&e->buffer) && !memcmp(e->buffer.size ? e->buffer.data : ref, ref, e->buffer.size); }

void h_encode(void) {
  static union { uint64_t u[64]; pb_string_t s[24]; pb_encoder_t m[24]; uint8_t b[36000]; } vals;
  static uint8_t text[512];
  fail_at = (int)vf_range(0, 15) - 5; calls = live = 0; ref_n = 0;
  static uint8_t old[CAP];
  pb_encoder_t enc = pb_encoder_create_with_allocator(&EA, &desc);
  size_t ops = vf_range(1, 4);
  for (size_t k = 0; k < ops; k++) {
    const pb_field_descriptor_t *f = &fields[vf_range(0, NF - 1)];
    size_t w = item(f->type), n = f->label == PB_LABEL_REPEATED ? vf_range(1, w > 8 ? 5 : vf_range(0, 9) ? 40 : 4500) : 1;
    int packed = n > 1 && (f->flags & PB_FLAG_PACKED), before = calls;
    memset(&vals, 0, sizeof vals);
    pb_encoder_t subs[5];
    for (size_t i = 0; i < n; i++) {
      if (f->type == PB_TYPE_MESSAGE) {
        vals.m[i] = pb_encoder_create(&sub); uint32_t x = vf_u32(); pb_string_t s = pb_string_init(text, vf_range(0, 150));
        if (vf_bool()) REQUIRE(!pb_encoder_encode(&vals.m[i], 3, &x, 1));
        if (vf_bool()) REQUIRE(!pb_encoder_encode(&vals.m[i], 15, &s, 1));
      } else if (wt(f->type) == 2) { for (int q = 0; q < 4; q++) text[(vf_u8() + 7 * i) & 511] = vf_u8(); vals.s[i] = pb_string_init(text + (i & 3), vf_range(0, 300)); }
      else { uint64_t v = vf_u64(); memcpy(vals.b + i * w, &v, w); if (w == 1) vals.b[i] &= 1; } }
    /* what it should add */
    size_t base = ref_n; static size_t ends[4501]; memcpy(old, ref, ref_n);
    if (packed) {
      varint((uint32_t)f->tag << 3 | 2);
      size_t at = ref_n; for (size_t i = 0; i < n; i++) value(f->type, vals.b + i * w);
      size_t len = ref_n - at; static uint8_t tmp[CAP]; memcpy(tmp, ref + at, len); ref_n = at; varint(len); raw(tmp, len);
      ends[n - 1] = ref_n;
    } else for (size_t i = 0; i < n; i++) { varint((uint32_t)f->tag << 3 | wt(f->type)); value(f->type, vals.b + i * w); ends[i] = ref_n; }
    pb_error_t e = pb_encoder_encode(&enc, f->tag, vals.b, n);
    int failed = fail_at >= before && fail_at < calls;
    CHECK(pb_encoder_valid(&enc), "the encoder stays valid");
    if (failed) {
      CHECK(e == PB_ERROR_ALLOC, "a failed allocation is reported");
      int ok = enc.buffer.size == base; for (size_t i = 0; i < n && !packed; i++) if (enc.buffer.size == ends[i] && i + 1 < n) ok = 1;
      CHECK(ok && same_prefix(&enc), "the buffer keeps what was encoded completely, and nothing else");
      ref_n = enc.buffer.size; REACH("failed");
    } else {
      CHECK(!e, "encoding succeeds");
      CHECK(enc.buffer.size == ref_n && same_prefix(&enc), "exactly the wire representation is appended"); REACH("encoded"); }
    if (f->type == PB_TYPE_MESSAGE) for (size_t i = 0; i < n; i++) pb_encoder_destroy(&vals.m[i]);
  }
  pb_encoder_destroy(&enc);
  CHECK(live == 0, "destroying frees the buffer, once");
}
