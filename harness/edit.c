/* C11, C12, C15: what the edits of a record splice into the buffer, where,
 * and what they tell the levels above.  For every part, value and outcome of
 * what is called; splicing (C09), alignment (C10) and the levels (edit_level)
 * by their contracts. */
#include "vf.h"
#include "core/stream.h"
#include "core/varint.h"
#include "message/common.h"
#include "message/cursor.h"
#include "message/journal.h"
#include "message/message.h"
#include "message/part.h"
int nondet_int(void); size_t nondet_size(void); uint64_t nondet_u64(void);
pb_error_t adjust_prefix(pb_part_t *part, ptrdiff_t *delta); pb_error_t adjust_recursive(pb_part_t *part, pb_stream_t *stream, ptrdiff_t *delta); pb_error_t adjust(pb_part_t *part, ptrdiff_t delta);
void init(pb_part_t *part, pb_wiretype_t wiretype, pb_tag_t tag);
static pb_error_t any_result(void) { int e = nondet_int(); REQUIRE(e >= PB_ERROR_NONE && e <= PB_ERROR_EOM); return (pb_error_t)e; }
static size_t any(size_t a, size_t b) { size_t v = nondet_size(); REQUIRE(a <= v && v <= b); return v; }
#define MAX ((size_t)1 << 31)
static pb_journal_t J; static pb_part_t P; static uint8_t data[16];
static size_t o, t, l, s, e;      /* the message, tag, length prefix, start and end of the part */
static int elem, length, stale, edits, prefixes, adjusts; static pb_error_t aerr, werr, perr, jerr; static pb_offset_t OFF;
static size_t w_origin, w_start, w_end, w_size; static const uint8_t *w_data; static uint8_t w_copy[16];
static ptrdiff_t a_delta, g; static pb_part_t a_part;
static pb_offset_t off(void) { pb_offset_t r = { s, e, { (ptrdiff_t)(o - s), elem ? 0 : (ptrdiff_t)(t - s), length ? (ptrdiff_t)(l - s) : 0 } }; return r; }
#define AT(p, n) ((size_t)((p).offset.start + (p).offset.diff.n))
static int same(pb_offset_t a, pb_offset_t b) { return a.start == b.start && a.end == b.end && a.diff.origin == b.diff.origin && a.diff.tag == b.diff.tag && a.diff.length == b.diff.length; }
pb_error_t pb_journal_align(const pb_journal_t *j, pb_version_t *v, pb_offset_t *p) {
  CHECK(j == &J && *v != J.entry.size, "what is not aligned is aligned"); if (aerr && !edits) return aerr; if (edits) { pb_error_t x = any_result(); if (x) return x; } else *p = OFF;
  *v = J.entry.size; return PB_ERROR_NONE; }
static pb_error_t edit(pb_journal_t *j, size_t origin, size_t start, size_t end, size_t size) {
  CHECK(j == &J && !edits && !adjusts && !prefixes, "the buffer is edited once, first"); edits = 1; w_origin = origin; w_start = start; w_end = end; w_size = size;
  if (!werr && size != end - start) J.entry.size++;
  return werr; }
pb_error_t pb_journal_write(pb_journal_t *j, size_t origin, size_t start, size_t end, const uint8_t d[], size_t size) {
  w_data = d; if (d != data) for (size_t i = 0; i < 12; i++) if (i < size) w_copy[i] = d[i];
  return edit(j, origin, start, end, size); }
pb_error_t pb_journal_clear(pb_journal_t *j, size_t origin, size_t start, size_t end) { return edit(j, origin, start, end, 0); }
pb_error_t lvl_prefix(pb_part_t *p, ptrdiff_t *delta) {
  CHECK(p == &P && edits && !adjusts && !prefixes && p->version == J.entry.size, "the part's own prefix is adjusted through its aligned handle"); prefixes = 1; if (perr) return perr;
  if (g) { J.entry.size++; p->version++; p->offset.start += g; p->offset.end += g; p->offset.diff.origin -= g; p->offset.diff.tag -= g; p->offset.diff.length -= g; *delta += g; }
  return PB_ERROR_NONE; }
pb_error_t lvl_adjust(pb_part_t *p, ptrdiff_t delta) {
  CHECK(p == &P && edits && !adjusts && p->version == J.entry.size && delta, "the levels above are told a change"); adjusts = 1; a_delta = delta; a_part = *p;
  if (nondet_int()) J.entry.size += any(0, 100); if (jerr) p->version |= (pb_version_t)1 << (8 * sizeof(pb_version_t) - 1); return jerr; }
pb_error_t lvl_below(pb_part_t *p, pb_stream_t *st, ptrdiff_t *delta) {
  CHECK(p == &P && st->buffer == &J.buffer && !st->offset && *delta == a_delta && !adjusts, "the levels are followed from the start of the buffer"); adjusts = 1; return jerr; }
pb_error_t lvl_read(pb_stream_t *x, pb_type_t type, void *value) { return PB_ERROR_NONE; } pb_error_t lvl_skip(pb_stream_t *x, pb_wiretype_t wt) { return PB_ERROR_NONE; }
#define INV(v) (((v) >> (8 * sizeof(pb_version_t) - 1)) != 0)
static void setup(int el, int len) {
  elem = el; length = len; stale = 0; edits = prefixes = adjusts = 0;
  o = any(0, MAX); t = any(o, MAX); l = any(t + 1, MAX); s = len ? any(l + 1, MAX) : l; if (el) t = l = s; e = any(s, MAX);
  uint8_t *d = malloc(1); REQUIRE(d != NULL); J.buffer.data = d; J.buffer.size = MAX; J.entry.size = any(0, MAX);
  OFF = off(); P.journal = &J; P.version = J.entry.size; P.offset = OFF;
  aerr = any_result(); werr = any_result(); perr = any_result(); jerr = any_result(); g = 0; }
static void maybe_stale(void) { if (nondet_int()) { stale = 1; P.version = nondet_size(); REQUIRE(P.version != J.entry.size && !INV(P.version)); P.offset.start = nondet_size(); P.offset.end = nondet_size(); P.offset.diff.origin = nondet_size(); P.offset.diff.tag = elem ? 0 : nondet_size(); P.offset.diff.length = nondet_size(); } }

/* the length prefix of a part is made the canonical encoding of its size */
void h_prefix(void) {
  setup(0, 1); REQUIRE(s - l <= 10); ptrdiff_t d0 = (ptrdiff_t)nondet_int(), d = d0; size_t size = e - s, v0 = P.version;
  pb_error_t r = adjust_prefix(&P, &d);
  size_t k = size < 128 ? 1 : size < 16384 ? 2 : size < 2097152 ? 3 : size < 268435456 ? 4 : 5;
  CHECK(edits == 1 && r == werr, "the prefix is written"); CHECK(w_origin == l && w_start == l && w_end == s && w_size == k, "in place of the old one");
  for (size_t i = 0; i < 5; i++) if (i < k) CHECK(w_copy[i] == (uint8_t)(((size >> 7 * i) & 127) | (i + 1 < k ? 128 : 0)), "as the encoding of the size");
  if (r) { CHECK(same(P.offset, OFF) && d == d0 && P.version == v0, "or nothing changes"); REACH("failed"); return; }
  CHECK((size_t)P.offset.start == l + k && (size_t)P.offset.end == l + k + size && AT(P, origin) == o && AT(P, tag) == t && AT(P, length) == l, "the part is where it is now");
  CHECK(d == d0 + (ptrdiff_t)(k - (s - l)) && P.version == J.entry.size, "the growth is added"); if (P.version != v0) REACH("resized"); else REACH("in place"); }

void h_write(void) {
  int el = nondet_int() != 0, len = nondet_int() != 0; REQUIRE(!(el && len)); setup(el, len); maybe_stale();
  size_t size = any(0, MAX), old = e - s; g = (ptrdiff_t)any(0, 8) - 4; REQUIRE(size > old ? g >= 0 : size < old ? g <= 0 : g == 0); REQUIRE((ptrdiff_t)s + g > (ptrdiff_t)l);
  pb_error_t r = pb_part_write(&P, data, size);
  if (stale && aerr) { CHECK(r == PB_ERROR_INVALID && !edits && !adjusts, "what cannot be aligned is not written"); REACH("unaligned"); return; }
  CHECK(edits == 1 && w_origin == s && w_start == s && w_end == e && w_data == data && w_size == size, "the contents of the part are replaced by the data");
  if (werr) { CHECK(r == werr && !adjusts && !prefixes && same(P.offset, OFF), "or nothing is changed"); REACH("failed"); return; }
  if (size == old) { CHECK(!r && !adjusts && !prefixes && same(P.offset, OFF) && P.version == J.entry.size, "a write of the same size changes nothing else"); REACH("in place"); return; }
  CHECK(prefixes == len, "a length prefix is adjusted if there is one");
  if (len && perr) { CHECK(r == perr && !adjusts, "an error is reported"); REACH("prefix failed"); return; }
  if (!len) g = 0;
  CHECK(adjusts == 1 && a_delta == (ptrdiff_t)(size - old) + g, "the levels above are told the growth");
  CHECK((size_t)a_part.offset.start == s + g && (size_t)a_part.offset.end == s + g + size && AT(a_part, origin) == o && (el ? !a_part.offset.diff.tag : AT(a_part, tag) == t), "and where the part is now");
  if (jerr) { CHECK(r == jerr && INV(P.version), "an error is reported"); REACH("level failed"); }
  else { CHECK(r || P.version == J.entry.size, "afterwards the part is aligned"); CHECK(!INV(P.version), "and valid"); if (!r) REACH("written"); } }

void h_clear(void) {
  int el = nondet_int() != 0, len = nondet_int() != 0; REQUIRE(!(el && len)); setup(el, len); maybe_stale();
  pb_error_t r = pb_part_clear(&P); size_t from = el ? s : t;
  if (stale && aerr) { CHECK(r == PB_ERROR_INVALID && !edits && !adjusts, "what cannot be aligned is not erased"); REACH("unaligned"); return; }
  CHECK(edits == 1 && w_start == from && w_end == e && w_origin == (el ? s : o), "the record or the element is erased");
  CHECK(!(werr && (adjusts || INV(P.version))) && (werr ? r == werr && same(P.offset, OFF) : INV(P.version)), "or nothing is changed; afterwards the part is invalid");
  if (werr) { REACH("failed"); return; }
  if (from == e) { CHECK(!adjusts && !r, "nothing is told when there is nothing to erase"); REACH("empty"); return; }
  CHECK(adjusts == 1 && a_delta == -(ptrdiff_t)(e - from) && r == jerr, "the levels above are told the loss");
  CHECK((size_t)a_part.offset.start == from && (size_t)a_part.offset.end == from && AT(a_part, origin) == (el ? o : from) && (!a_part.offset.diff.tag) == el, "and where it was"); REACH("erased"); }

void h_init(void) {
  setup(1, 0); e = s; P.offset.end = e; OFF = P.offset; int wt = nondet_int(); uint32_t tag = (uint32_t)nondet_u64();
  REQUIRE((wt == 0 || wt == 1 || wt == 2 || wt == 5) && tag >= 1 && tag < (1u << 29)); init(&P, (pb_wiretype_t)wt, tag);
  uint32_t v = tag << 3 | (uint32_t)wt; size_t k = v < 128 ? 1 : v < 16384 ? 2 : v < 2097152 ? 3 : v < 268435456 ? 4 : 5, n = k + (wt == 2);
  CHECK(edits == 1 && w_origin == o && w_start == s && w_end == s && w_size == n, "a record is inserted");
  for (size_t i = 0; i < 5; i++) if (i < k) CHECK(w_copy[i] == (uint8_t)(((v >> 7 * i) & 127) | (i + 1 < k ? 128 : 0)), "with its tag");
  if (wt == 2) CHECK(!w_copy[k], "and no length");
  if (werr) { CHECK(INV(P.version) && !adjusts, "or the part is invalid"); REACH("failed"); return; }
  CHECK((size_t)P.offset.start == s + n && (size_t)P.offset.end == s + n && AT(P, origin) == o && AT(P, tag) == s && AT(P, length) == s + k, "the part is after its tag");
  CHECK(adjusts == 1 && a_delta == (ptrdiff_t)n && same(a_part.offset, P.offset), "the levels above are told");
  CHECK(INV(P.version) == (jerr != 0), "an error makes the part invalid"); if (jerr) REACH("level failed"); else REACH("inserted"); }

void h_adjust(void) {
  setup(0, 0); a_delta = (ptrdiff_t)nondet_size(); REQUIRE(a_delta); CHECK(adjust(&P, a_delta) == jerr && adjusts, "the result is that of the levels"); REACH("adjusted"); }
