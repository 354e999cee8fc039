/* C11, C20, C21: the value of a field is what is encoded at its place, a put
 * writes exactly the encoding of its value there, values match if they are
 * equal, and what is not there has its default.  For every type, value and
 * position; reading (C03), packing (C01), alignment (C10) and writing by
 * their contracts. */
#include "vf.h"
#include "core/buffer.h"
#include "core/descriptor.h"
#include "core/stream.h"
#include "core/varint.h"
#include "message/common.h"
#include "message/cursor.h"
#include "message/field.h"
#include "message/journal.h"
#include "message/message.h"
#include "message/part.h"
int nondet_int(void); size_t nondet_size(void); uint64_t nondet_u64(void);
static pb_field_descriptor_t *F; static pb_descriptor_t desc = { { NULL, 0 }, NULL };
static pb_journal_t J; static pb_field_t X; static pb_message_t M;
static uint8_t *D; static size_t n; static pb_tag_t TAG; static pb_offset_t OFF;   /* where the field is after alignment */
static int badalign, reads, packs, writes, puts, cmps, gets, failed; static pb_error_t rerr, werr, perr, cerr; static int rcmp;
static union { uint64_t u; pb_string_t s; uint8_t b[16]; } RV, PV;       /* the value read, the value put */
static pb_error_t any_result(void) { int e = nondet_int(); REQUIRE(e >= PB_ERROR_NONE && e <= PB_ERROR_EOM); return (pb_error_t)e; }
static size_t width(pb_type_t t) { return t == PB_TYPE_BOOL ? 1 : t == PB_TYPE_STRING || t == PB_TYPE_BYTES ? sizeof(pb_string_t)
  : t == PB_TYPE_INT64 || t == PB_TYPE_UINT64 || t == PB_TYPE_SINT64 || t == PB_TYPE_FIXED64 || t == PB_TYPE_SFIXED64 || t == PB_TYPE_DOUBLE ? 8 : 4; }
static int is_length(pb_type_t t) { return t == PB_TYPE_STRING || t == PB_TYPE_BYTES; }
static int is_fixed(pb_type_t t) { return t == PB_TYPE_FIXED32 || t == PB_TYPE_SFIXED32 || t == PB_TYPE_FLOAT ? 4 : t == PB_TYPE_FIXED64 || t == PB_TYPE_SFIXED64 || t == PB_TYPE_DOUBLE ? 8 : 0; }
static pb_error_t read_any(pb_stream_t *s, pb_type_t type, void *value) {
  CHECK(type == F->type, "the value is read as what it is"); CHECK(!reads++, "it is read once");
  CHECK(s->buffer->data == D && s->buffer->size == n && s->offset == OFF.start + OFF.diff.length, "at its place");
  if (!rerr) memcpy(value, RV.b, width(type)); return rerr; }
#define ALL(f) f, f, f, f, f, f, f, f, f, f, f, f, f, f, f, f, f, f, f, f
const pb_stream_read_f pb_stream_read_jump[20] = { ALL(read_any) };
static uint8_t *packed_at; static size_t packed_n;
static size_t pack_any(uint8_t data[], const void *value) {
  CHECK(value == &PV, "the value is packed"); CHECK(!packs++, "once"); packed_at = data; packed_n = nondet_size(); REQUIRE(packed_n >= 1 && packed_n <= 10);
  data[packed_n - 1] = 1; return packed_n; }
const pb_varint_pack_f pb_varint_pack_jump[20] = { ALL(pack_any) };
pb_error_t pb_journal_align(pb_journal_t *j, pb_version_t *v, pb_offset_t *o) {
  if (badalign) return PB_ERROR_INVALID;
  *v = J.entry.size; *o = OFF; return PB_ERROR_NONE; }
pb_error_t pb_part_write(pb_part_t *part, const uint8_t data[], size_t size) {
  CHECK(part == &X.part, "the part of the field is written"); CHECK(!writes++, "once"); pb_type_t t = F->type;
  if (is_length(t)) CHECK(data == PV.s.data && size == PV.s.size, "with the bytes of the string");
  else if (is_fixed(t)) CHECK(data == PV.b && size == (size_t)is_fixed(t), "with the bytes of the value");
  else CHECK(packs == 1 && data == packed_at && size == packed_n, "with the packed value");
  return werr = any_result(); }
int vf_memcmp(const void *a, const void *b, size_t k) {
  CHECK(!cmps++, "values are compared once");
  if (is_length(F->type)) { CHECK(a == PV.s.data && b == RV.s.data && k == PV.s.size && PV.s.size == RV.s.size, "the bytes of strings of equal length are compared"); return rcmp = nondet_int(); }
  CHECK(a == &PV && k == width(F->type), "the values are compared");
  int r = 0; for (size_t i = 0; i < 8; i++) if (i < k && ((const uint8_t *)a)[i] != ((const uint8_t *)b)[i]) r = 1;
  return rcmp = r; }
const pb_field_descriptor_t *pb_descriptor_field_by_tag(const pb_descriptor_t *d, pb_tag_t tag) { CHECK(d == &desc && tag == TAG, "the field of the tag is looked up"); return F; }
static uint8_t DEF[16];
static void setup(void) {
  F = malloc(sizeof *F); REQUIRE(F != NULL); int l = nondet_int(), t = nondet_int(), e = nondet_int();
  REQUIRE(l >= PB_LABEL_REQUIRED && l <= PB_LABEL_ONEOF && t >= PB_TYPE_INT32 && t <= PB_TYPE_MESSAGE);
#ifndef ANY_TYPE
  REQUIRE(t != PB_TYPE_MESSAGE);
#endif
  TAG = (pb_tag_t)nondet_u64(); REQUIRE(TAG != 0);
  pb_field_descriptor_t x = { .tag = TAG, .type = (pb_type_t)t, .label = (pb_label_t)l, .value = nondet_int() ? DEF : NULL }; memcpy(F, &x, sizeof x);
  for (int i = 0; i < 16; i++) { DEF[i] = (uint8_t)nondet_u64(); RV.b[i] = (uint8_t)nondet_u64(); PV.b[i] = (uint8_t)nondet_u64(); }
  n = nondet_size(); REQUIRE(n >= 1 && n <= VF_SIZE_MAX); D = malloc(n); REQUIRE(D != NULL);
  J.buffer.data = D; J.buffer.size = n; J.buffer.allocator = NULL; J.entry.data = NULL; J.entry.size = nondet_size(); REQUIRE(!(J.entry.size >> 62));
  size_t s = nondet_size(), k = nondet_size(), len = nondet_size(); REQUIRE(s <= k && k <= n && len <= s); pb_offset_t o = { s, k, { -(ptrdiff_t)s, -(ptrdiff_t)s, -(ptrdiff_t)len } }; OFF = o;
  int stale = nondet_int(); badalign = stale && nondet_int(); rerr = any_result();
  pb_offset_t was = { nondet_size(), nondet_size(), { 0, 0, 0 } };
  X.descriptor = F; X.part.journal = &J; X.part.offset = stale ? was : OFF; X.part.version = stale ? J.entry.size - 1 : J.entry.size; REQUIRE(!stale || J.entry.size > 0);
  if (nondet_int()) { X.part.version = PB_PART_INVALID; badalign = 1; }
  M.descriptor = &desc; M.part.journal = &J; M.part.version = J.entry.size; M.part.offset.start = 0; M.part.offset.end = n;
  reads = packs = writes = puts = cmps = gets = failed = 0; werr = perr = cerr = PB_ERROR_NONE; rcmp = 0; }
void h_get(void) {
  setup(); uint8_t got[16]; pb_error_t e = pb_field_get(&X, got);
  if (badalign) { CHECK(e == PB_ERROR_INVALID && !reads, "no value of what is not there"); REACH("invalid"); return; }
  CHECK(reads == 1 && e == rerr, "the value is read"); size_t i = nondet_size(); REQUIRE(i < width(F->type));
  if (!e) { CHECK(got[i] == RV.b[i], "and returned"); REACH("read"); } }
void h_match(void) {
  setup(); int r = pb_field_match(&X, &PV);
  if (badalign) { CHECK(!r && !reads, "nothing matches what is not there"); return; }
  CHECK(reads == 1, "the value is read"); if (rerr) { CHECK(!r, "nothing matches what cannot be read"); return; }
  if (is_length(F->type)) { CHECK(!!r == (PV.s.size == RV.s.size && cmps == 1 && !rcmp), "strings match if they are equal"); REACH("strings"); return; }
  int eq = 1; for (size_t i = 0; i < 8; i++) if (i < width(F->type) && PV.b[i] != RV.b[i]) eq = 0;
  CHECK(!!r == eq, "values match if they are equal"); if (r) REACH("equal"); else REACH("different"); }
void h_put(void) {
  setup(); pb_error_t e = pb_field_put(&X, &PV);
  if (X.part.version == PB_PART_INVALID) { CHECK(e == PB_ERROR_INVALID && !writes, "nothing is put into what is not there"); return; }
  CHECK(writes == 1 && e == werr, "the value is written"); REACH("written"); }
/* creating a field puts its default, a put of a string replaces nothing else */
static pb_field_t Y; static int created;
pb_part_t pb_part_create(pb_message_t *m, pb_tag_t tag) { CHECK(m == &M && tag == TAG, "the part of the tag is created"); CHECK(!created++, "once"); return X.part; }
pb_error_t val_put(pb_field_t *f, const void *value) {
  CHECK(!puts++, "one value is put"); CHECK(f->descriptor == F && f->part.version == X.part.version && f->part.offset.start == X.part.offset.start, "into the field created");
  const void *def = F->label != PB_LABEL_ONEOF ? F->value : NULL;
  if (def) CHECK(value == def, "its default"); else { size_t i = nondet_size(); REQUIRE(i < width(F->type)); CHECK(!is_length(F->type) && ((const uint8_t *)value)[i] == 0, "zero if it has none"); }
  return perr = any_result(); }
void h_create(void) {
  setup(); created = 0; REQUIRE(X.part.version == PB_PART_INVALID || (X.part.version == J.entry.size && OFF.start == X.part.offset.start)); if (nondet_int()) { M.part.version = PB_PART_INVALID; }
  pb_field_t f = pb_field_create(&M, TAG); int bad = f.part.version == PB_PART_INVALID;
  if (M.part.version == PB_PART_INVALID || X.part.version == PB_PART_INVALID) { CHECK(bad && !puts, "no field without a place"); return; }
  int has = (F->label != PB_LABEL_ONEOF && F->value) || !is_length(F->type), empty = X.part.offset.start == X.part.offset.end;
  CHECK(puts == (empty && has), "a default is put where there is no value"); CHECK(bad == (perr != 0), "a failure is reported");
  if (!bad) CHECK(f.descriptor == F && f.part.journal == &J && f.part.offset.start == X.part.offset.start && f.part.offset.end == X.part.offset.end, "the field is at its place"); if (puts) REACH("default"); else REACH("value"); }
/* messages: reading is reading the cursor's record, or the default */
static pb_cursor_t K; static int cursors;
pb_cursor_t pb_cursor_create(pb_message_t *m, pb_tag_t tag) { CHECK(m == &M && tag == TAG, "the field of the tag is looked for"); CHECK(!cursors++, "once"); return K; }
pb_error_t pb_cursor_get(pb_cursor_t *c, void *v) { CHECK(!gets++ && !c->error && c->pos == K.pos, "the record found is read"); if (!rerr) memcpy(v, RV.b, width(F->type)); return rerr; }
static int m1, m2, matches, seeks;
int pb_cursor_match(pb_cursor_t *c, const void *v) { CHECK(!matches++ && c->pos == K.pos && v == &PV && !seeks, "the first record found is compared"); return m1; }
int pb_cursor_seek(pb_cursor_t *c, const void *v) { CHECK(!seeks++ && c->pos == K.pos && v == &PV, "then the others"); return m2; }
static void cursor(void) { pb_cursor_t k = { { NULL } }; k.pos = nondet_size(); k.error = any_result(); K = k; cursors = matches = seeks = 0; m1 = nondet_int(); m2 = nondet_int(); }
void h_mget(void) {
  setup(); cursor(); uint8_t got[16]; if (nondet_int()) M.part.version = PB_PART_INVALID; pb_error_t e = pb_message_get(&M, TAG, got);
  if (M.part.version == PB_PART_INVALID) { CHECK(e == PB_ERROR_INVALID && !gets, "no value of an invalid message"); return; }
  size_t i = nondet_size(); REQUIRE(i < width(F->type)); const uint8_t *def = F->label != PB_LABEL_ONEOF ? F->value : NULL;
  if (!K.error) { CHECK(gets == 1 && e == rerr, "the value is read"); if (!e) { CHECK(got[i] == RV.b[i], "and returned"); REACH("read"); } }
  else if (K.error != PB_ERROR_EOM) { CHECK(e == K.error && !gets, "an unreadable message is an error"); REACH("unreadable"); }
  else if (def) { CHECK(!e && got[i] == def[i], "an absent field has its default"); REACH("default"); }
  else { CHECK(e == PB_ERROR_ABSENT, "or is absent"); REACH("absent"); } }
void h_mhas(void) {
  setup(); cursor();
  if (nondet_int()) { int r = pb_message_has(&M, TAG); CHECK(!!r == !K.error, "a field is there if a record of it is"); REACH("has"); }
  else { int r = pb_message_match(&M, TAG, &PV); CHECK(!!r == (m1 || m2), "a field matches if a record of it does"); CHECK(matches == 1 && seeks == !m1, "every record is compared"); REACH("match"); } }
