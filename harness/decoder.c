/* C04: the decoder delivers exactly the known fields, in order. */
#include "vf.h"
#include "wire.h"
#include "core/buffer.h"
#include "core/decoder.h"
#include "core/descriptor.h"
#include <protobluff/core/string.h>

static pb_descriptor_t sub = { { NULL, 0 }, NULL };
#ifndef T1
#define T1 PB_TYPE_INT32
#define T2 PB_TYPE_STRING
#define T4 PB_TYPE_MESSAGE
#define TX PB_TYPE_BOOL
#endif
static const pb_field_descriptor_t fields[] = {
  { 1, "a", T1, PB_LABEL_OPTIONAL, NULL, NULL, 0 },
  { 2, "b", T2, PB_LABEL_REPEATED, NULL, NULL, 0 },
  { 4, "d", T4, PB_LABEL_OPTIONAL, T4 == PB_TYPE_MESSAGE ? &sub : NULL, NULL, 0 },
};
static const pb_field_descriptor_t xfields[] = { { 10, "x", TX, PB_LABEL_REPEATED, NULL, NULL, PB_FLAG_PACKED } };
static pb_descriptor_t ext = { { xfields, 1 }, NULL };
static pb_descriptor_t desc = { { fields, 3 }, &ext };
static const pb_field_descriptor_t *lookup(uint32_t num) {
  return num == 1 ? &fields[0] : num == 2 ? &fields[1] : num == 4 ? &fields[2] : num == 10 ? &xfields[0] : NULL; }

typedef struct { const pb_field_descriptor_t *f; uint64_t v; size_t off, len; } ev_t;
#ifdef VF_PROOF
#define EVS 4
#else
#define EVS VF_CAP
#endif
static ev_t ev[EVS + 1]; static size_t ev_n, ev_k; static int ev_bad, stop_at; static pb_error_t stop_with;
static const uint8_t *D; static int U;

/* one pass over the wire: the values to be delivered, and whether it ends
 * well-formed */
static void reference(const uint8_t *d, size_t n) {
  size_t o = 0, pend = 0; const pb_field_descriptor_t *pf = NULL;
  for (size_t step = 0; step < 2 * EVS; step++) {
    if (ev_bad) break;
    if (pf && o == pend) { pf = NULL; }
    if (!pf && o == n) break;
    if (pf) {
      uint64_t v; size_t l = w_scalar(pf->type, d, o, n, &v);
      if (!l || o + l > pend) { ev_bad = 1; break; }
      ev[ev_n++] = (ev_t){ pf, v, o, l }; o += l; continue; }
    rec_t r = w_record(d, o, n);
    const pb_field_descriptor_t *f = r.num ? lookup(r.num) : NULL;
    if (!r.ok) { ev_bad = 1; break; }
    if (!f || (r.wt != w_wiretype(f->type) && r.wt != 2)) { o = r.end; continue; }
    if (r.wt != w_wiretype(f->type)) { pf = f; pend = r.end; o = r.val; continue; }
    if (r.wt == 2) { ev[ev_n++] = (ev_t){ f, 0, r.val, r.end - r.val }; o = r.end; continue; }
    uint64_t v; size_t l = w_scalar(f->type, d, r.val, n, &v);
    if (!l) { ev_bad = 1; break; }
    ev[ev_n++] = (ev_t){ f, v, r.val, l }; o = r.val + l; } }

static pb_error_t handler(const pb_field_descriptor_t *f, const void *value, void *user) {
  CHECK(user == &U, "the handler gets the caller's data");
  CHECK(ev_k < ev_n, "no value is delivered that is not encoded there");
  REQUIRE(ev_k < ev_n);
  CHECK(stop_at < 0 || ev_k <= (size_t)stop_at, "no value is delivered after an error");
  ev_t *e = &ev[ev_k];
  CHECK(f == e->f, "the value is delivered for its field");
  REQUIRE(f == e->f);
  if (f->type == PB_TYPE_MESSAGE) {
    const pb_decoder_t *s = value;
    CHECK(pb_decoder_valid(s) && pb_decoder_descriptor(s) == f->refer, "submessages come with a decoder of their type");
    CHECK(pb_buffer_data(pb_decoder_buffer(s)) == D + e->off && pb_buffer_size(pb_decoder_buffer(s)) == e->len, "over exactly their bytes");
    REACH("message");
  } else if (w_wiretype(f->type) == 2) {
    const pb_string_t *s = value;
    CHECK(s->data == D + e->off && s->size == e->len, "strings are views of exactly their bytes");
    REACH("string");
  } else {
    CHECK(w_load(f->type, value) == e->v, "the value delivered is the value encoded");
    REACH("scalar"); }
  ev_k++;
  return stop_at >= 0 && ev_k == (size_t)stop_at + 1 ? stop_with : PB_ERROR_NONE; }

#ifndef VF_CBMC
static size_t shape(uint8_t *d, size_t n, unsigned mode) {
  static const uint8_t tags[] = { 0x08, 0x12, 0x22, 0x50, 0x52, 0x18, 0x1a, 0x3d, 0x39, 0x0a, 0x10, 0x20, 0x0d, 0x55, 0x13, 0x00 };
  size_t o = 0;
  while (o < n) {
    uint8_t t = tags[d[o] % (mode == 1 ? 8 : mode == 2 ? 14 : 16)]; d[o++] = t;
    if (o < n && (t & 7) == 2) { size_t l = d[o] % 6; if (l > n - o - 1 && mode < 3) l = n - o - 1; d[o++] = (uint8_t)l;
      if (t == 0x52 && mode < 3) for (size_t i = 0; i < l && o + i < n; i++) d[o + i] &= i + 1 == l ? 0x01 : 0x81;
      if (t == 0x0a && mode < 3 && l && o + l <= n) d[o + l - 1] &= 0x7f;
      o += l; }
    else if ((t & 7) == 5) o += 4; else if ((t & 7) == 1) o += 8;
    else { unsigned k = 0; while (o < n && k++ < 4 && (d[o] & 0x80) && t != 0x50) o++; if (o < n) d[o++] &= t == 0x50 ? 0x01 : 0x7f; } }
  return n; }
#endif

void h_decode(void) {
  size_t n = vf_range(0, VF_CAP); uint8_t *d = malloc(VF_CAP ? n + !n : 1); REQUIRE(d != NULL);
#ifdef VF_CBMC
  unsigned mode = vf_range(0, 0);
#else
  unsigned mode = vf_range(0, 3);
#endif
  for (size_t i = 0; i < VF_CAP; i++) if (i < n) d[i] = vf_u8();
#ifndef VF_CBMC
  if (mode) n = shape(d, n, mode);           /* mostly well-formed records over the same bytes */
#endif
  D = d;
  stop_at = (int)vf_range(0, 3) - 1; stop_with = (pb_error_t)vf_range(PB_ERROR_ALLOC, PB_ERROR_EOM);
  reference(d, n);
  pb_buffer_t b = pb_buffer_create_zero_copy_internal(d, n);
  pb_decoder_t dec = pb_decoder_create(&desc, &b);
  pb_error_t r = pb_decoder_decode(&dec, handler, &U);
  if (stop_at >= 0 && (size_t)stop_at < ev_n) {
    CHECK(ev_k == (size_t)stop_at + 1 && r == stop_with, "an error of the handler ends decoding and is returned");
    REACH("stopped");
  } else {
    CHECK(ev_k == ev_n, "every encoded value is delivered");
    if (ev_bad) { CHECK(r != PB_ERROR_NONE, "malformed bytes are reported"); REACH("malformed"); }
    else { CHECK(r == PB_ERROR_NONE, "well-formed bytes decode without error"); REACH("well-formed"); }
  }
  CHECK(b.data == d && b.size == n, "the buffer is untouched");
  pb_decoder_destroy(&dec); free(d);
}
