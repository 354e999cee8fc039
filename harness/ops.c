/* C11, C12, C20, C21: the operations on cursors and messages that only pass
 * on to others do so once, on the right handle, with the right value, and
 * return the outcome.  What they pass on to is their contract. */
#include "vf.h"
#include "core/descriptor.h"
#include "message/common.h"
#include "message/cursor.h"
#include "message/field.h"
#include "message/journal.h"
#include "message/message.h"
#include "message/nested.h"
#include "message/oneof.h"
#include "message/part.h"
int nondet_int(void); size_t nondet_size(void);
static pb_field_descriptor_t F; static pb_descriptor_t desc, sub; static pb_journal_t J, J2; static pb_message_t M, V; static pb_cursor_t C, R; static pb_field_t X;
static uint8_t value[16]; static const void *VALUE; static pb_tag_t TAG, *path; static size_t depth; static pb_oneof_descriptor_t O;
static int made, did, ended, op, rint, creates, aligns[3], kind; static pb_error_t rerr, aerr; static pb_offset_t OFF, OFF2, OFF3, CUR, PAK; static pb_version_t NOW;
enum { MATCH = 1, GET, PUT, CLEARF, WRITE, CLEARM, CLEARP, CREATE };
static pb_error_t any_result(void) { int e = nondet_int(); REQUIRE(e >= PB_ERROR_NONE && e <= PB_ERROR_EOM); return (pb_error_t)e; }
static pb_offset_t any_off(void) { pb_offset_t o = { nondet_size(), nondet_size(), { (ptrdiff_t)nondet_size(), (ptrdiff_t)nondet_size(), (ptrdiff_t)nondet_size() } }; return o; }
static int same(pb_offset_t a, pb_offset_t b) { return a.start == b.start && a.end == b.end && a.diff.origin == b.diff.origin && a.diff.tag == b.diff.tag && a.diff.length == b.diff.length; }
static void act(int o, const void *v, const void *w) { CHECK(made == 1 && !did++, "one operation is performed"); CHECK(v == w, "with the value"); op = o; }
#ifdef OF_CURSOR
pb_field_t pb_field_create_from_cursor(pb_cursor_t *c) { CHECK(c == &C && !made++, "on the field of the cursor"); return X; }
pb_field_t pb_field_create(pb_message_t *m, pb_tag_t t) { pb_field_t f = X; return f; }
pb_message_t pb_message_create_from_cursor(pb_cursor_t *c) { CHECK(c == &C && !made++, "on the message of the cursor"); return V; }
pb_part_t pb_part_create_from_cursor(pb_cursor_t *c) { CHECK(c == &C && !made++, "on the part of the cursor"); return X.part; }
pb_error_t pb_message_clear(pb_message_t *m) { CHECK(m->part.journal == V.part.journal && m->part.version == V.part.version && same(m->part.offset, V.part.offset), "the message is cleared"); act(CLEARM, NULL, NULL); return rerr; }
pb_message_t pb_message_create_nested(pb_message_t *m, const pb_tag_t *t, size_t n) { CHECK(m == &M && t == path && n == depth - 1 && !made++, "down to the last message of the branch"); return V; }
void pb_message_destroy(pb_message_t *m) { m->part.version |= PB_PART_INVALID; }
#endif
#define SAME_PART(p, q) ((p).journal == (q).journal && (p).version == (q).version && same((p).offset, (q).offset))
#define SAME_MSG(m, n) ((m).descriptor == (n).descriptor && SAME_PART((m).part, (n).part))
#define SAME_CURSOR(a, b) (SAME_MSG((a).message, (b).message) && (a).tag == (b).tag && (a).current.descriptor == (b).current.descriptor && same((a).current.offset, (b).current.offset) && same((a).current.packed, (b).current.packed) && (a).pos == (b).pos && (a).error == (b).error)
#if defined OF_FIELD || defined OF_NESTED
pb_message_t pb_message_create_nested(pb_message_t *m, const pb_tag_t *t, size_t n) { CHECK(m == &M && t == path && n == depth - 1 && !made++, "down to the last message of the branch"); return V; }
void pb_message_destroy(pb_message_t *m) { CHECK(m->part.journal == V.part.journal && !ended++, "the submessage is dropped once"); m->part.version |= PB_PART_INVALID; }
#endif
#ifdef OF_FIELD
pb_field_t ops_field_create(pb_message_t *m, pb_tag_t t) { CHECK(made == 1 && !did++ && !ended && SAME_MSG(*m, V) && t == path[depth - 1], "the field is created in the last message of the branch"); return X; }
pb_part_t pb_part_create_from_cursor(pb_cursor_t *c) { CHECK(c == &C && !made++, "on the part of the cursor"); return X.part; }
pb_error_t pb_part_clear(pb_part_t *p) { CHECK(p == &X.part && !made++, "the part of the field is cleared"); did++; return rerr; }
#endif
#ifdef OF_CURSOR
pb_cursor_t ops_cursor_create(pb_message_t *m, pb_tag_t t) { CHECK(made == 1 && !did++ && SAME_MSG(*m, V) && t == path[depth - 1], "the cursor is created on the last message of the branch"); return R; }
pb_cursor_t ops_cursor_unsafe(pb_message_t *m, pb_tag_t t) { CHECK(!made++ && SAME_MSG(*m, M) && t == TAG, "the cursor is created anew on its message and tag"); return R; }
#endif
#ifdef OF_NESTED
pb_error_t pb_message_put(pb_message_t *m, pb_tag_t t, const void *v) { CHECK(made == 1 && !did++ && !ended && SAME_MSG(*m, V) && t == path[depth - 1] && v == VALUE, "the value is put to the last message of the branch"); return rerr; }
#endif
#ifdef OF_ONEOF
pb_cursor_t pb_cursor_create_unsafe(pb_message_t *m, pb_tag_t t) { CHECK(!made++ && m == &M && !t, "a cursor over the whole message is created"); return R; }
#endif
#ifdef OF_MESSAGE
pb_part_t pb_part_create_from_journal(pb_journal_t *j) { CHECK(j == &J && !made++, "on the whole journal"); return X.part; }
#endif
#if !defined OF_PART && !defined OF_FIELD && !defined OF_NESTED && !defined OF_ONEOF
#define FIELD(f) CHECK((f)->descriptor == &F && (f)->part.journal == X.part.journal && (f)->part.version == X.part.version && same((f)->part.offset, X.part.offset), "the operation is on that field")
int pb_field_match(pb_field_t *f, const void *v) { FIELD(f); act(MATCH, v, VALUE); return rint = nondet_int(); }
pb_error_t pb_field_get(pb_field_t *f, void *v) { FIELD(f); act(GET, v, VALUE); return rerr; }
pb_error_t pb_field_put(pb_field_t *f, const void *v) { FIELD(f); act(PUT, v, VALUE); return rerr; }
pb_error_t pb_field_clear(pb_field_t *f) { FIELD(f); act(CLEARF, NULL, NULL); return rerr; }
void pb_field_destroy(pb_field_t *f) { f->part.version |= PB_PART_INVALID; }
pb_error_t pb_part_write(pb_part_t *p, const uint8_t d[], size_t n) {
  CHECK(p->journal == X.part.journal && p->version == X.part.version && same(p->offset, X.part.offset), "the operation is on that part"); act(WRITE, d, J2.buffer.data + OFF2.start);
  CHECK(n == OFF2.end - OFF2.start, "with all bytes of the message"); return rerr; }
pb_error_t pb_part_error(const pb_part_t *p) { return p->version & PB_PART_INVALID ? PB_ERROR_INVALID : PB_ERROR_NONE; }
void pb_part_destroy(pb_part_t *p) { p->version |= PB_PART_INVALID; }
#endif
#ifdef OF_MESSAGE
pb_field_t pb_field_create_without_default(pb_message_t *m, pb_tag_t t) { CHECK(m == &M && t == TAG && !made++, "on the field of the tag"); return X; }
pb_part_t pb_part_create(pb_message_t *m, pb_tag_t t) { CHECK(m == &M && t == TAG && !made++, "on the record of the tag"); return X.part; }
pb_error_t pb_part_clear(pb_part_t *p) { CHECK(p == &M.part && !made++, "the part of the message is cleared"); act(CLEARP, NULL, NULL); return rerr; }
pb_part_t pb_part_create_from_cursor(pb_cursor_t *c) { CHECK(c == &C && !made++, "on the part of the cursor"); return X.part; }
#endif
const pb_field_descriptor_t *pb_descriptor_field_by_tag(const pb_descriptor_t *d, pb_tag_t tag) { CHECK(d == &desc && tag == TAG, "the field of the tag is looked up"); return &F; }
pb_error_t pb_journal_align(pb_journal_t *j, pb_version_t *v, pb_offset_t *o) {
  CHECK(*v != j->entry.size, "what is not aligned is aligned");
  if (j == &J2) { CHECK(same(*o, V.part.offset), "the value is aligned"); if (aerr) return aerr; *o = OFF2; *v = J2.entry.size; return PB_ERROR_NONE; }
  CHECK(j == &J, "in its journal");
  if (o == &C.current.packed) { CHECK(same(*o, PAK) && !aligns[0]++ && *v == NOW, "the packed record is aligned once"); if (nondet_int()) return any_result() ? PB_ERROR_INVALID : PB_ERROR_INVALID; *o = OFF; }
  else if (o == &X.part.offset) { CHECK(*v == NOW && !aligns[0]++, "the field is aligned once"); if (aerr) return aerr; *o = OFF; }
  else if (o == &C.current.offset) { CHECK(same(*o, CUR) && !aligns[1]++ && *v == NOW, "the record is aligned once"); kind |= 2; if (rerr) return PB_ERROR_INVALID; *o = OFF2; }
  else { CHECK(o == &C.message.part.offset && !aligns[2]++ && *v == NOW, "the message is aligned once"); if (aerr) return PB_ERROR_INVALID; *o = OFF3; }
  *v = J.entry.size; return PB_ERROR_NONE; }
static void setup(void) {
  int t = nondet_int(); REQUIRE(t >= PB_TYPE_INT32 && t <= PB_TYPE_MESSAGE); pb_field_descriptor_t f = { .type = (pb_type_t)t, .refer = &sub }; memcpy(&F, &f, sizeof F);
  uint8_t *b = malloc(1); REQUIRE(b != NULL); J.buffer.data = b; J.buffer.size = 1; J2.buffer.size = nondet_size(); REQUIRE(J2.buffer.size >= 1 && J2.buffer.size <= VF_CAP); b = malloc(J2.buffer.size); REQUIRE(b != NULL); J2.buffer.data = b;
  J.entry.size = nondet_size(); J2.entry.size = nondet_size(); REQUIRE(!(J.entry.size >> 63) && !(J2.entry.size >> 63));
  OFF = any_off(); OFF2 = any_off(); OFF3 = any_off(); REQUIRE(OFF2.start <= OFF2.end && OFF2.end <= J2.buffer.size);
  X.descriptor = &F; X.part.journal = &J; X.part.version = nondet_size(); X.part.offset = any_off();
  M.descriptor = &desc; M.part.journal = &J; M.part.version = nondet_size(); M.part.offset = any_off(); REQUIRE(!(M.part.version >> 63));
  V.descriptor = &sub; V.part.journal = &J2; V.part.version = nondet_size(); V.part.offset = any_off(); if (V.part.version == J2.entry.size) OFF2 = V.part.offset;
  REQUIRE(OFF2.start <= OFF2.end && OFF2.end <= J2.buffer.size);
  C.message = M; C.current.descriptor = &F; C.current.offset = CUR = any_off(); C.current.packed = PAK = any_off(); C.error = nondet_int() ? any_result() : PB_ERROR_NONE; C.tag = TAG = (pb_tag_t)nondet_size(); NOW = M.part.version;
  R.message = V; R.tag = (pb_tag_t)nondet_size(); R.current.offset = any_off(); R.current.packed = any_off(); R.pos = nondet_size(); R.error = nondet_int() ? any_result() : PB_ERROR_NONE;
  depth = nondet_size(); REQUIRE(depth >= 2 && depth <= (size_t)1 << 40); path = malloc(depth * sizeof *path); REQUIRE(path != NULL); ended = 0;
  made = did = op = rint = creates = kind = 0; aligns[0] = aligns[1] = aligns[2] = 0; rerr = any_result(); aerr = any_result(); VALUE = F.type == PB_TYPE_MESSAGE ? (const void *)&V : value; }
#define MSG (F.type == PB_TYPE_MESSAGE)
#define VBAD ((V.part.version >> 63) || (V.part.version != J2.entry.size && aerr))
static void put_result(pb_error_t r) {
  if (MSG && VBAD) { CHECK(r == PB_ERROR_INVALID && !did && !made, "an invalid message is not put"); REACH("invalid"); return; }
  CHECK(did == 1 && op == (MSG ? WRITE : PUT) && r == rerr, "the value is put and the outcome returned"); if (MSG) REACH("message"); else REACH("value"); }
#ifdef OF_CURSOR
void h_cmatch(void) { setup(); int r = pb_cursor_match(&C, VALUE); if (C.error || MSG) CHECK(!r && !did, "nothing matches a cursor without a value"); else { CHECK(did == 1 && op == MATCH && r == rint, "the value is matched"); REACH("matched"); } }
void h_cget(void) { setup(); pb_error_t r = pb_cursor_get(&C, (void *)VALUE); if (C.error || MSG) CHECK(r == PB_ERROR_INVALID && !did, "no value is read from a cursor without one"); else { CHECK(did == 1 && op == GET && r == rerr, "the value is read"); REACH("read"); } }
void h_cput(void) { setup(); pb_error_t r = pb_cursor_put(&C, VALUE); if (C.error) CHECK(r == PB_ERROR_INVALID && !did, "nothing is put through an invalid cursor"); else put_result(r); }
void h_cerase(void) { setup(); pb_error_t r = pb_cursor_erase(&C); if (C.error) CHECK(r == PB_ERROR_INVALID && !did, "nothing is erased through an invalid cursor"); else { CHECK(did == 1 && op == (MSG ? CLEARM : CLEARF) && r == rerr, "the record is erased and the outcome returned"); REACH("erased"); } }
#define ERASED (C.current.packed.end ? C.current.offset.start >= C.current.offset.end : !C.current.offset.diff.tag)
void h_calign(void) {
  setup(); C.error = PB_ERROR_NONE; pb_error_t r = pb_cursor_align(&C);
  if (NOW == J.entry.size) { CHECK(same(C.current.offset, CUR) && same(C.current.packed, PAK) && C.message.part.version == NOW, "an aligned cursor does not change");
    CHECK(!r == !ERASED, "and is refused exactly if what it is on was erased"); if (r) REACH("erased"); else REACH("aligned"); return; }
  CHECK(aligns[0] == (PAK.end != 0) && aligns[2] == 1, "the packed record and the message are aligned");
  CHECK((r == 0) == (!aerr && aligns[1] && !rerr && !ERASED), "an error is reported"); CHECK(aligns[1] == !aerr, "the record is aligned");
  if (!r) { CHECK(same(C.current.offset, OFF2) && same(C.message.part.offset, OFF3) && C.message.part.version == J.entry.size, "everything is where it is now"); REACH("moved"); } }
#endif
#ifdef OF_MESSAGE
void h_mput(void) { setup(); pb_error_t r = pb_message_put(&M, TAG, VALUE); put_result(r); }
void h_mclear(void) { setup(); pb_error_t r = pb_message_clear(&M); CHECK(did == 1 && op == CLEARP && r == rerr, "the message is cleared"); REACH("cleared"); }
void h_mcursor(void) {
  setup(); pb_message_t m = pb_message_create_from_cursor(&C);
  if (C.error || !MSG) CHECK((m.part.version & PB_PART_INVALID) && !made, "there is no message without one"); else { CHECK(made == 1 && m.descriptor == &sub && m.part.journal == &J && m.part.version == X.part.version && same(m.part.offset, X.part.offset), "the message at the cursor is returned"); REACH("message"); } }
#endif
#ifdef OF_PART
pb_error_t pb_cursor_align(pb_cursor_t *c) { CHECK(c == &C && !made++, "the cursor is aligned"); if (aerr) return aerr; C.current.offset = OFF; C.message.part.version = J.entry.size; return PB_ERROR_NONE; }
void h_pcursor(void) {
  setup(); pb_part_t p = pb_part_create_from_cursor(&C);
  if (C.error || aerr) { CHECK(p.version & PB_PART_INVALID, "there is no part without a record"); REACH("invalid"); }
  else { CHECK(p.journal == &J && p.version == J.entry.size && same(p.offset, OFF), "the part is the record of the cursor, where it is now"); REACH("part"); } }
#endif
#ifdef OF_MESSAGE
void h_mfield(void) {
  setup(); NOW = X.part.version; pb_part_t was = X.part; pb_message_t m = pb_message_create_from_field(&desc, &X);
  if ((was.version & PB_PART_INVALID) || (was.version != J.entry.size && aerr)) { CHECK(m.part.version & PB_PART_INVALID, "there is no message in a field that is not there"); REACH("invalid"); }
  else { CHECK(m.descriptor == &desc && m.part.journal == &J && m.part.version == J.entry.size && same(m.part.offset, was.version == J.entry.size ? was.offset : OFF), "the message is the contents of the field, where it is now"); REACH("message"); } }
void h_mwithin(void) {
  setup(); REQUIRE(MSG); M.part.version = nondet_size(); pb_message_t m = pb_message_create_within(&M, TAG);
  if (M.part.version & PB_PART_INVALID) { CHECK((m.part.version & PB_PART_INVALID) && !made, "nothing is created within an invalid message"); REACH("invalid"); }
  else { CHECK(made == 1 && m.descriptor == &sub && SAME_PART(m.part, X.part), "the record of the tag is created"); REACH("message"); } }
void h_mcreate(void) { setup(); pb_message_t m = pb_message_create(&desc, &J); CHECK(made == 1 && m.descriptor == &desc && SAME_PART(m.part, X.part), "a message is the whole journal"); REACH("message"); }
#endif
#ifdef OF_PART
void h_pjournal(void) {
  setup(); pb_allocator_t a = { 0 }; J.buffer.allocator = nondet_int() ? &a : NULL; J.buffer.size = nondet_size(); pb_part_t p = pb_part_create_from_journal(&J);
  if (!J.buffer.allocator) { CHECK(p.version & PB_PART_INVALID, "there is no part of an invalid journal"); REACH("invalid"); }
  else { CHECK(p.journal == &J && p.version == J.entry.size && !p.offset.start && p.offset.end == J.buffer.size && !p.offset.diff.origin && !p.offset.diff.tag && !p.offset.diff.length, "the part is all of the journal, as it is now"); REACH("part"); } }
#endif
#ifdef OF_FIELD
void h_fcursor(void) {
  setup(); if (nondet_int()) C.current.descriptor = NULL; pb_field_t f = pb_field_create_from_cursor(&C);
  if (C.error || !C.current.descriptor || MSG) { CHECK((f.part.version & PB_PART_INVALID) && !made, "there is no field without a value"); REACH("invalid"); }
  else { CHECK(made == 1 && f.descriptor == &F && SAME_PART(f.part, X.part), "the field at the cursor is returned"); REACH("field"); } }
void h_fclear(void) { setup(); pb_error_t r = pb_field_clear(&X); CHECK(made == 1 && r == rerr, "the field is cleared and the outcome returned"); REACH("cleared"); }
void h_fnested(void) { setup(); pb_field_t f = pb_field_create_nested(&M, path, depth); CHECK(did == 1 && f.descriptor == &F && SAME_PART(f.part, X.part), "the field of the last message is returned"); REACH("created"); }
#endif
#ifdef OF_CURSOR
void h_cnested(void) { setup(); pb_cursor_t c = pb_cursor_create_nested(&M, path, depth); CHECK(did == 1 && SAME_CURSOR(c, R), "the cursor on the last message is returned"); REACH("created"); }
void h_crewind(void) { setup(); int r = pb_cursor_rewind(&C); CHECK(made == 1 && SAME_CURSOR(C, R) && !r == !!R.error, "rewinding is starting over"); if (r) REACH("found"); else REACH("none"); }
#endif
#ifdef OF_NESTED
void h_nput(void) { setup(); pb_error_t r = pb_message_nested_put(&M, path, depth, VALUE); CHECK(did == 1 && r == rerr, "the value is put and the outcome returned"); REACH("put"); }
#endif
#ifdef OF_ONEOF
void h_ocreate(void) { setup(); pb_oneof_t o = pb_oneof_create(&O, &M); CHECK(made == 1 && o.descriptor == &O && SAME_CURSOR(o.cursor, R), "a oneof is its members over the whole message"); REACH("created"); }
#endif
