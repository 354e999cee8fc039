/* C12, C13, C14, C15, unbounded: which records the operations on messages,
 * cursors and oneofs read, place values at and erase, for every sequence of
 * records.  A cursor's position is the index of its record; advancing
 * (cursor.c) is its contract: it stops at the next record looked for, skips
 * no such record and ends after the last.  That no record is missed is stated
 * for an arbitrary one, SC.w. */
#include "vf.h"
#include <pb_verify.h>
#include "core/buffer.h"
#include "core/descriptor.h"
#include "message/common.h"
#include "message/cursor.h"
#include "message/field.h"
#include "message/journal.h"
#include "message/message.h"
#include "message/oneof.h"
#include "message/part.h"
int nondet_int(void); size_t nondet_size(void); uint64_t nondet_u64(void);
seq_const_t SC = { 0 }; seq_t SG = { 0 };
const pb_field_descriptor_t *F0 = NULL, *F1 = NULL, *F2 = NULL;
static pb_journal_t JJ = { { NULL } }; void *SJ = NULL;
static pb_descriptor_t desc = { { NULL, 0 }, NULL };
static pb_message_t M = { NULL };
static pb_tag_t TAG;                   /* what is looked for, the tag of F0 */
int real_next(pb_cursor_t *);
cur_ghost_t CG = { 0 }; read_t Q[NQ] = { { 0 } }; unsigned Qn = 0;
void cur_step(pb_cursor_t *c, size_t o) {}
#define KIND(d) ((d) == F0 ? 0 : (d) == F1 ? 1 : 2)
#define MEM(d) ((d) == F0 ? SC.m0 : (d) == F1 ? SC.m1 : SC.m2)

/* after a loop contract has forgotten it, the pointers are these again */
void seq_step(pb_cursor_t *c) {
  const pb_field_descriptor_t *d = c->current.descriptor;
  c->current.descriptor = d == F0 ? F0 : d == F1 ? F1 : F2;
  CHECK(c->current.descriptor == d && c->message.part.journal == &JJ, "a cursor is on a field of its message");
  c->message.part.journal = &JJ; }
int seq_next(pb_cursor_t *c) {
  if (c->error) return 0;
  CHECK(!SG.fail, "nothing is attempted after a failure");
  size_t p = c->current.offset.end, k = nondet_size(); int i = nondet_int();
  const pb_field_descriptor_t *wd = SC.wk == 0 ? F0 : SC.wk == 1 ? F1 : F2, *d = i == 0 ? F0 : i == 1 ? F1 : F2;
  int wm = !SG.wgone && SC.w < SC.n && SC.wk < 3 && (!c->tag || wd->tag == c->tag) && p <= SC.w;
  if (nondet_int()) {                       /* no more of them */
    REQUIRE(!wm); if ((!c->tag || c->tag == TAG) && p < SG.nof) SG.nof = p;
    c->error = (pb_error_t)SC.end; return 0; }
  REQUIRE(i >= 0 && i < 3 && p <= k && k < SC.n && !(wm && SC.w < k) && !(k == SC.w && (!wm || i != SC.wk)));
  REQUIRE((!c->tag || d->tag == c->tag) && !(i == 0 && k >= SG.nof));
  c->current.descriptor = d; c->current.offset.start = k; c->current.offset.end = k + 1; c->pos++;
  c->current.packed.start = c->current.packed.end = nondet_int() ? 0 : 1;
  SG.ptag = SG.ltag; SG.cm = MEM(d);
  if (SG.cm) { SG.ltag = d->tag; SG.li = k; SG.any = 1; if (!c->tag) SG.member = 1; }
  SG.count = 1;
  return 1; }
int pb_cursor_next(pb_cursor_t *c) { return seq_next(c); }
pb_error_t pb_cursor_erase(pb_cursor_t *c) {
  CHECK(!SG.fail, "nothing is attempted after a failure"); CHECK(!c->error, "only a record that is there is erased");
  if ((SG.fail = nondet_int())) { REQUIRE(SG.fail > 0 && SG.fail <= PB_ERROR_EOM); return (pb_error_t)SG.fail; }
  if (c->current.offset.start == SC.w) { CHECK(!SG.wgone, "no record is erased twice"); SG.wgone = 1; }
  if (nondet_int()) { JJ.entry.size = JJ.entry.size + 1; REQUIRE(!(JJ.entry.size >> 62)); }
  c->current.packed.end = 0;
  return PB_ERROR_NONE; }
pb_error_t pb_journal_align(pb_journal_t *j, pb_version_t *v, pb_offset_t *o) {    /* C10; records keep their index */
  CHECK(j == &JJ, "handles are aligned with their journal"); 
  if (nondet_int()) return PB_ERROR_INVALID;
  *v = JJ.entry.size; return PB_ERROR_NONE; }
const pb_field_descriptor_t *pb_descriptor_field_by_tag(const pb_descriptor_t *d, pb_tag_t tag) {
  CHECK(d == &desc && tag == TAG, "the field of the tag is looked up"); return F0; }

static const pb_field_descriptor_t *any_field(const pb_oneof_descriptor_t *o) {
  pb_field_descriptor_t *f = malloc(sizeof *f); REQUIRE(f != NULL);
  int l = nondet_int(); REQUIRE(l == PB_LABEL_REQUIRED || l == PB_LABEL_OPTIONAL || l == PB_LABEL_REPEATED || l == PB_LABEL_ONEOF);
  int t = nondet_int(); REQUIRE(t >= PB_TYPE_INT32 && t <= PB_TYPE_MESSAGE);
  uint32_t tag = (uint32_t)nondet_u64(); REQUIRE(tag != 0);
  pb_field_descriptor_t x = { .tag = tag, .type = (pb_type_t)t, .label = (pb_label_t)l, .value = l == PB_LABEL_ONEOF && nondet_int() ? o : NULL,
    .flags = t < PB_TYPE_STRING && l == PB_LABEL_REPEATED && nondet_int() ? 1 : 0 };
  memcpy(f, &x, sizeof x); return f; }
static pb_oneof_descriptor_t O1 = { { NULL } };
#define IN_ONEOF(d) ((d)->label == PB_LABEL_ONEOF && (d)->value == &O1)
static void setup(void) {
  SJ = &JJ;
  F0 = any_field(&O1); F1 = any_field(&O1); F2 = any_field(&O1);
  REQUIRE(F0->tag != F1->tag && F0->tag != F2->tag && F1->tag != F2->tag);
  REQUIRE(F0->label != PB_LABEL_ONEOF || F0->value == &O1);
  TAG = F0->tag;
  SC.n = nondet_size(); SC.w = nondet_size(); SC.wk = nondet_int(); SC.end = nondet_int();
  REQUIRE(SC.n <= VF_SIZE_MAX && SC.w <= VF_SIZE_MAX && SC.wk >= 0 && SC.wk <= 3 && SC.end > PB_ERROR_NONE && SC.end <= PB_ERROR_EOM);
  SC.t0 = F0->tag; SC.t1 = F1->tag; SC.t2 = F2->tag; SC.m0 = IN_ONEOF(F0); SC.m1 = IN_ONEOF(F1); SC.m2 = IN_ONEOF(F2);
  SC.wmem = SC.wk == 0 ? SC.m0 : SC.wk == 1 ? SC.m1 : SC.wk == 2 && SC.m2;
  uint32_t wt = SC.wk == 0 ? SC.t0 : SC.wk == 1 ? SC.t1 : SC.t2; SC.wtag = wt < TAG ? -1 : wt > TAG;
  SG.wgone = 0; SG.nof = SC.n; SG.ltag = SG.ptag = 0; SG.li = 0; SG.any = SG.cm = SG.member = SG.fail = 0; SG.count = 0; SG.matched = 0; SC.wmatch = 0;
  JJ.entry.size = nondet_size(); REQUIRE(!(JJ.entry.size >> 62)); JJ.buffer.data = NULL; JJ.buffer.size = 0;
  M.descriptor = &desc; M.part.journal = &JJ; M.part.version = nondet_int() ? JJ.entry.size : nondet_size(); REQUIRE(M.part.version <= JJ.entry.size);
  M.part.offset.start = 0; M.part.offset.end = SC.n; M.part.offset.diff.origin = M.part.offset.diff.tag = M.part.offset.diff.length = 0; }
#define W_IS (SC.w < SC.n && SC.wk < 3)

/* C13, C14: a cursor on a tag is on the first record of a repeated field and
 * on the last of any other, unless that is hidden by another member of its oneof */
void h_create(void) {
  setup(); pb_cursor_t c = pb_cursor_create(&M, TAG);
  CHECK(!SG.wgone, "nothing is erased");
  if (!SG.count) { CHECK(c.error, "no cursor where there is no field"); CHECK(c.error == PB_ERROR_INVALID || !(W_IS && SC.wtag == 0), "unless there is none"); REACH("none"); return; }
  size_t at = c.current.offset.start; int hidden = F0->label == PB_LABEL_ONEOF && W_IS && SC.wmem && SC.w > at;
  CHECK(c.current.descriptor == F0 && at < SC.n, "the cursor is on a record of the field");
  CHECK(at != SC.w || SC.wk == 0, "the cursor is on a record of the field");
  if (F0->label == PB_LABEL_REPEATED) { CHECK(!(W_IS && SC.wtag == 0 && SC.w < at), "on the first record of a repeated field"); CHECK(!c.error, "which is visible"); REACH("first"); return; }
  CHECK(!(W_IS && SC.wtag == 0 && SC.w > at), "on the last record of the field");
  CHECK(!c.error || (c.error == PB_ERROR_EOM && F0->label == PB_LABEL_ONEOF && SG.member), "a field is hidden only by another member after it");
  CHECK(!hidden || c.error == PB_ERROR_EOM, "and hidden by every one");
  if (hidden) REACH("hidden"); else REACH("last"); }

/* C14: the case of a oneof is the tag of its last member */
static pb_oneof_t O;
static void oneof(void) { setup(); REQUIRE(F0->label == PB_LABEL_ONEOF); O.descriptor = &O1; pb_cursor_t c = { { NULL } };
  c.message = M; c.error = nondet_int() ? PB_ERROR_NONE : PB_ERROR_EOM; c.tag = 0; O.cursor = c; }
void h_case(void) {
  oneof(); pb_tag_t t = pb_oneof_case(&O);
  CHECK(t == SG.ltag, "the case is the tag of the last member"); CHECK(t || !SG.any, "if there is one");
  CHECK(!SG.count || !(W_IS && SC.wmem) || (SG.any && SG.li >= SC.w), "no member comes after it");
  CHECK(!SG.wgone, "nothing is erased"); if (t) REACH("set"); else REACH("clear"); }
/* C14: clearing a oneof erases all of its members and nothing else */
void h_clear(void) {
  oneof(); pb_error_t e = pb_oneof_clear(&O);
  CHECK(e == (pb_error_t)SG.fail, "a failure is reported"); CHECK(!SG.wgone || (W_IS && SC.wmem), "nothing but members is erased");
  if (SG.count && !e) { CHECK(SG.wgone == (W_IS && SC.wmem), "every member is erased"); REACH("cleared"); } else if (e) REACH("failed"); }
/* C12, C14: erasing a field erases all of its records, for a member of a oneof all members, and nothing else */
void h_erase(void) {
  setup(); M.part.version = JJ.entry.size; pb_error_t e = pb_message_erase(&M, TAG);
  int of = W_IS && (F0->label == PB_LABEL_ONEOF ? SC.wmem : SC.wtag == 0);
  CHECK(!SG.wgone || of, "nothing but the field is erased"); CHECK(!SG.fail || e == (pb_error_t)SG.fail, "a failure is reported");
  if (SG.count && !e) { CHECK(SG.wgone == of, "every record of the field is erased"); REACH("erased"); } else if (e) REACH("failed"); }

/* C12, C14, C15: where a value is put */
static int inits; static pb_wiretype_t iwt; static pb_part_t ipart;
void seq_init(pb_part_t *part, unsigned wt, pb_tag_t tag) {
  CHECK(!inits++, "one record is inserted"); CHECK(tag == TAG, "under its tag"); ipart = *part; iwt = wt; CHECK(!SG.fail, "nothing is attempted after a failure"); }
void h_place(void) {
  setup(); inits = 0; pb_part_t p = pb_part_create(&M, TAG); size_t at = p.offset.start; int hid = W_IS && SC.wmem && SC.wtag;
  int bad = p.version == PB_PART_INVALID, rep = F0->label == PB_LABEL_REPEATED, pk = rep && F0->flags;
  CHECK(!SG.wgone || (hid && F0->label == PB_LABEL_ONEOF), "nothing but other members of the oneof is erased");
  CHECK(!SG.fail || bad, "no part where another member could not be erased");
  CHECK(!bad || !inits, "nothing is inserted on failure");
  if (bad) { REACH("failed"); return; }
  CHECK(SC.end == PB_ERROR_EOM || SG.fail, "no part of a malformed message") ;
  CHECK(p.journal == &JJ, "a part of the message's journal");
  if (!inits && !pk) {
    CHECK(!rep && at < SC.n && p.offset.end == at + 1, "an existing record is replaced only for a field that is not repeated");
    CHECK(at != SC.w || SC.wk == 0, "the record is one of the field"); CHECK(!(W_IS && SC.wtag == 0 && SC.w > at), "its last");
    CHECK(!(hid && SC.w > at) || F0->label != PB_LABEL_ONEOF || SG.wgone, "other members after it are erased"); REACH("existing");
  } else {
    CHECK(p.offset.end == at && at <= SC.n && (!inits || (ipart.offset.start == at && ipart.offset.end == at)), "a record is inserted between records");
    CHECK(p.offset.start + p.offset.diff.origin == 0, "within the message");
    CHECK(rep || !(W_IS && SC.wtag == 0), "a field that is not repeated is not duplicated");
    CHECK(!(W_IS && SC.wtag == 0) || SC.w < at, "after the other values of the field");
    CHECK(!(W_IS && SC.wtag < 0) || SC.w < at || SG.wgone || rep, "after the fields with lower tags");
    CHECK(!inits || iwt == (pk ? PB_WIRETYPE_LENGTH : pb_field_descriptor_wiretype(F0)), "with its wiretype");
    CHECK(!(hid && SC.w >= at && F0->label == PB_LABEL_ONEOF) || SG.wgone, "other members after it are erased"); REACH("inserted"); } }
/* C13, C21: seeking stops at the next record that matches */
pb_field_t pb_field_create_from_cursor(pb_cursor_t *c) {
  CHECK(!c->error, "a value is compared only where there is one"); pb_field_t f = { F0 };
  f.part.journal = &JJ; f.part.version = JJ.entry.size; f.part.offset = c->current.offset; return f; }
int pb_field_match(pb_field_t *f, const void *v) {
  CHECK(v == &TAG, "with the value given"); SG.matched = f->part.offset.start == SC.w ? SC.wmatch : nondet_int() ? 1 : 0;
  return SG.matched; }
void h_seek(void) {
  setup(); pb_cursor_t c = { { NULL } }; c.message = M; c.message.part.version = JJ.entry.size; c.tag = TAG; c.pos = nondet_size(); c.current.descriptor = F0;
  size_t p = c.current.offset.end = nondet_size(); REQUIRE(p <= SC.n); c.current.offset.start = p ? p - 1 : 0; REQUIRE(!(SC.w + 1 == p && SC.wk));
  c.error = nondet_int() ? PB_ERROR_NONE : PB_ERROR_EOM; SC.wmatch = nondet_int() ? 1 : 0; SG.matched = 0; int bad = c.error;
  int r = pb_cursor_seek(&c, &TAG); size_t at = c.current.offset.start;
  CHECK(!SG.wgone, "nothing is erased");
  if (bad || F0->type == PB_TYPE_MESSAGE) { CHECK(!r && !SG.count, "invalid cursors and messages match nothing"); return; }
  if (r) { CHECK(SG.matched && !c.error && at >= p && at < SC.n, "the cursor is on a record that matches"); CHECK(at != SC.w || (SC.wk == 0 && SC.wmatch), "the cursor is on a record that matches"); }
  CHECK(!(W_IS && SC.wtag == 0 && SC.wmatch && SC.w >= p) || (r && at <= SC.w), "the next record that matches is found");
  if (r) REACH("found"); else REACH("not found"); }

/* C13: advancing visits records and the elements of packed records in turn */
static int over;
int rec_next(pb_cursor_t *c) {
  CHECK(!over && !c->error && !c->current.packed.end, "records are read outside of packed records"); SG.count = 1;
  size_t e = c->current.offset.end, a = nondet_size(), b = nondet_size(); int k = nondet_int();
  if (k == 0) { c->error = (pb_error_t)SC.end; return 0; }
  REQUIRE(e < a && a <= b && b <= SC.n);
  c->current.offset.start = a;
  if (k == 1) { REQUIRE(a < b); c->current.offset.end = b; SG.matched = 1; return 1; }
  c->current.packed.start = a; c->current.packed.end = b; c->current.offset.end = a; return 0; }
int rec_packed(pb_cursor_t *c) {
  CHECK(!over && !c->error && c->current.packed.end, "elements are read in a packed record"); SG.count = 1;
  size_t e = c->current.offset.end, b = nondet_size(); int k = nondet_int();
  if (e >= c->current.packed.end) { c->current.offset = c->current.packed; c->current.packed.end = 0; return 0; }
  if (k == 0) { c->error = (pb_error_t)SC.end; return 0; }
  REQUIRE(e < b && b <= c->current.packed.end);
  c->current.offset.start = e; c->current.offset.end = b; SG.matched = 1; return 1; }
void h_advance(void) {
  setup(); pb_cursor_t c = { { NULL } }; c.message = M; c.tag = nondet_int() ? TAG : 0; size_t pos = c.pos = nondet_size(); over = 0;
  size_t p = c.current.packed.end = nondet_size(), e = c.current.offset.end = nondet_size(); REQUIRE(p <= SC.n && e <= SC.n && (!p || e <= p));
  c.error = nondet_int() ? PB_ERROR_NONE : PB_ERROR_EOM; int bad = c.error; SG.matched = 0;
  int r = real_next(&c);
  CHECK(!bad || (!r && !SG.count), "a cursor at the end stays there");
  CHECK(bad || SG.count, "a cursor is advanced"); CHECK(c.pos == pos + r, "positions are counted");
  CHECK(r == SG.matched, "it stops at the first record or element"); CHECK(r ? !c.error : c.error != PB_ERROR_NONE, "or at the end");
  if (r) REACH("next"); else REACH("end"); }
