/* C11, C12, unbounded: after an edit, the length prefixes of everything that
 * contains it are made right, one level of nesting after another, for every
 * edit, every sequence of records of every level and every depth.
 *
 * Positions are absolute.  The edit replaced the old bytes [.x, .y) and the
 * part now says where the new ones are.  A level is a sequence of records; .T
 * is its record that contains the edit: a message (A) or a packed record (C).
 * In the level of the edited record itself (B) there is none. */
#include "vf.h"
#include <pb_verify.h>
#include "core/stream.h"
#include "core/varint.h"
#include "message/common.h"
#include "message/cursor.h"
#include "message/journal.h"
#include "message/message.h"
#include "message/part.h"
int nondet_int(void); size_t nondet_size(void); uint64_t nondet_u64(void);
cur_ghost_t CG = { 0 }; read_t Q[NQ] = { { 0 } }; unsigned Qn = 0; const pb_field_descriptor_t *F0 = NULL, *F1 = NULL, *F2 = NULL; seq_t SG = { 0 }; seq_const_t SC = { 0 }; void *SJ = NULL; nest_t NG = { 0 };
void cur_step(pb_cursor_t *c, size_t o) {} void seq_step(pb_cursor_t *c) {}
lvl_const_t LC = { 0 }; lvl_t LG = { 0 };
static pb_journal_t J = { { NULL } }; static pb_part_t P = { NULL };
pb_error_t adjust_prefix(pb_part_t *part, ptrdiff_t *delta); pb_error_t adjust_recursive(pb_part_t *part, pb_stream_t *stream, ptrdiff_t *delta); pb_error_t adjust(pb_part_t *part, ptrdiff_t delta);
void init(pb_part_t *part, pb_wiretype_t wiretype, pb_tag_t tag);
static pb_error_t any_error(void) { int e = nondet_int(); REQUIRE(e > PB_ERROR_NONE && e <= PB_ERROR_EOM); return (pb_error_t)e; }
static size_t any(size_t a, size_t b) { size_t v = nondet_size(); REQUIRE(a <= v && v <= b); return v; }
#define MAX ((size_t)1 << 31)
enum { INIT, WRITE, CLEAR, EWRITE, ECLEAR };

/* the record at a boundary of the level */
void lvl_step(pb_part_t *part, pb_stream_t *s) {
  CHECK(s->offset == LG.at && LG.at <= LC.bound, "records are visited one after another");
  LG.live = LG.at < LC.bound || LC.kase != 1; LG.phase = 0; if (!LG.live) return;
  if (LC.kase != 1 && LG.at == LC.To) { LG.wt = PB_WIRETYPE_LENGTH; LG.l = LC.Tl; LG.s = LC.Ts; LG.e = LC.Ty; }
  else {
    LG.wt = nondet_int() & 7; REQUIRE(LG.wt == 0 || LG.wt == 1 || LG.wt == 2 || LG.wt == 5);
    size_t end = LG.at < LC.X ? LC.X : LC.bound;       /* the edited record is one of them */
    LG.l = any(LG.at + 1, end); LG.s = LG.wt == PB_WIRETYPE_LENGTH ? any(LG.l + 1, end) : LG.l; LG.e = LG.at == LC.X ? end : any(LG.s, end); } }
pb_error_t lvl_read(pb_stream_t *s, pb_type_t type, void *value) {
  CHECK(type == PB_TYPE_UINT32 && LG.live, "tags and lengths of records that are there are read");
  if (!LG.phase) { CHECK(s->offset == LG.at, "a tag is read at the start of a record"); LG.phase = 1; s->offset = LG.l; *(uint32_t *)value = (uint32_t)nondet_u64() << 3 | (uint32_t)LG.wt; }
  else { CHECK(LG.phase == 1 && s->offset == LG.l && LG.wt == PB_WIRETYPE_LENGTH, "a length is read after its tag"); LG.phase = 2; s->offset = LG.s; *(uint32_t *)value = (uint32_t)(LG.e - LG.s); }
  return PB_ERROR_NONE; }
pb_error_t lvl_skip(pb_stream_t *s, pb_wiretype_t wt) {
  CHECK(LG.phase == 1 && s->offset == LG.l && (int)wt == LG.wt, "a value is skipped by its type"); LG.at = s->offset = LG.e; return PB_ERROR_NONE; }
pb_error_t pb_stream_advance(pb_stream_t *s, size_t n) {
  CHECK(LG.phase == 2 && s->offset == LG.s && n == LG.e - LG.s, "a record is skipped as a whole");
  CHECK(LC.kase == 1 || LG.at != LC.To, "the record that contains the edit is not skipped"); LG.at = s->offset = LG.e; return PB_ERROR_NONE; }
/* the levels below */
pb_error_t lvl_below(pb_part_t *part, pb_stream_t *s, ptrdiff_t *delta) {
  CHECK(LC.kase == 0 && !LG.below && !LG.calls && LG.phase == 2, "the levels below a message that contains the edit are adjusted first");
  CHECK(part == &P && s->offset == LC.Ts && s->buffer == &J.buffer && *delta == LC.delta, "over its contents"); LG.below = 1;
  if (nondet_int()) { LG.fail = any_error(); return (pb_error_t)LG.fail; }
  if (nondet_int()) { J.entry.size += any(1, 100); LG.G = LC.G; *delta = (ptrdiff_t)nondet_size(); } else LG.G = LC.delta;
  LG.nd = *delta; return PB_ERROR_NONE; }
pb_error_t pb_journal_align(const pb_journal_t *j, pb_version_t *v, pb_offset_t *o) {
  CHECK(LG.below && j == &J && *v != J.entry.size && !LG.aligned, "the record is aligned when the levels below changed");
  CHECK((size_t)o->start == LC.Ts && (size_t)o->end == LC.Ty + LC.delta && *v == LC.version, "from where it was after the edit");
  if (nondet_int()) { LG.fail = any_error(); return (pb_error_t)LG.fail; }
  LG.aligned = 1; o->end = LC.Ty + LG.G; *v = J.entry.size; return PB_ERROR_NONE; }
pb_error_t pb_journal_clear(pb_journal_t *j, size_t origin, size_t start, size_t end) {
  CHECK(j == &J && LC.kase == 2 && LC.delta < 0 && LC.Ty + LC.delta == LC.Ts && !LG.calls, "a packed record is removed only when its last element is");
  CHECK(origin == LC.To && start == LC.To && end == LC.Ts, "as a whole"); LG.calls = 2;
  if (nondet_int()) LG.fail = any_error(); return (pb_error_t)LG.fail; }
pb_error_t lvl_prefix(pb_part_t *t, ptrdiff_t *delta) {
  CHECK(LC.kase != 1 && !LG.calls, "one length prefix is adjusted per level"); LG.calls = 1;
  CHECK(t->journal == &J && t->version == J.entry.size, "through an aligned handle");
  CHECK((size_t)t->offset.start == LC.Ts && (size_t)(t->offset.start + t->offset.diff.length) == LC.Tl, "the prefix of the record that contains the edit");
  CHECK((size_t)t->offset.end == LC.Ty + (LG.below ? LG.G : LC.delta), "to the size of its contents after the edit and the changes below");
  CHECK(*delta == (LG.below ? LG.nd : LC.delta), "the growth is passed on");
  if (LC.kase == 0) CHECK(LG.below || (LC.direct && LC.op == CLEAR && LC.Ty + LC.delta == LC.Ts), "after the levels below");
  *delta += (ptrdiff_t)nondet_int(); LG.nd = *delta; if (nondet_int()) LG.fail = any_error(); return (pb_error_t)LG.fail; }

void h_level(void) {
  int op = nondet_int(), kase = nondet_int(); REQUIRE(op >= INIT && op <= ECLEAR && kase >= 0 && kase <= 2);
  int elem = op == EWRITE || op == ECLEAR; REQUIRE(!elem || kase != 1); REQUIRE(elem || kase != 2);
  /* the message M of the record, the packed record K of the element, the old bytes */
  size_t m = any(0, MAX), k = 0, ks = m, r = 0, x, y, s, e; ptrdiff_t tag = 0;
  if (elem) { k = any(m, MAX); ks = any(k + 2, MAX); }
  x = any(ks, MAX); y = any(x, MAX); ptrdiff_t d;
  r = x;        /* where the record starts */
  if (op == INIT) { REQUIRE(x == y); s = e = any(x + 1, MAX); tag = (ptrdiff_t)(x - s); d = (ptrdiff_t)(s - x); }
  else if (op == WRITE) { r = any(m, MAX); s = any(r + 1, MAX); e = any(s, MAX); REQUIRE(r < x && r < s); tag = (ptrdiff_t)(r - s); d = (ptrdiff_t)(e - y); }
  else if (op == EWRITE) { s = x; e = any(s + 1, MAX); d = (ptrdiff_t)(e - y); }
  else { s = e = x; d = (ptrdiff_t)(x - y); if (op == CLEAR) tag = -(ptrdiff_t)any(1, MAX); }
  REQUIRE(d != 0);
  size_t origin = op == CLEAR ? x : m;
  /* the level */
  size_t start = any(0, m), to = 0, tl = 0, ts = 0, ty = 0;
  if (kase == 1) REQUIRE(start == m);
  else {
    to = kase == 2 ? k : any(start, MAX); tl = any(to + 1, MAX); ts = kase == 2 ? ks : any(tl + 1, MAX); ty = any(ts, MAX); REQUIRE(tl < ts && ty >= y);
    if (kase == 2) REQUIRE(start == m); else REQUIRE(ts <= m); }
  LC.lo = start; LC.op = op; LC.kase = kase; LC.To = to; LC.Tl = tl; LC.Ts = ts; LC.Ty = ty; LC.delta = d; LC.direct = !elem && ts == m; LC.x = x; LC.r = r;
  LC.X = kase == 1 ? r : to; LC.bound = kase == 1 ? (op == INIT ? x : e) : to; LC.G = any(0, 2 * MAX) - MAX; REQUIRE(ty + LC.G >= ts && ty + LC.G <= 4 * MAX);
  LC.version = J.entry.size = any(0, MAX); LC.start = s; LC.end = e; LC.origin = (ptrdiff_t)(origin - s); LC.tag = tag; LC.length = nondet_int();
  uint8_t *data = malloc(1); REQUIRE(data != NULL); J.buffer.data = data; J.buffer.size = MAX;
  P.journal = &J; P.version = LC.version; P.offset.start = s; P.offset.end = e; P.offset.diff.origin = LC.origin; P.offset.diff.tag = tag; P.offset.diff.length = LC.length;
  LG.at = start; LG.below = LG.calls = LG.aligned = LG.phase = LG.live = LG.fail = 0; LG.nd = d; LG.G = 0;
  pb_stream_t st = { &J.buffer, start };
  ptrdiff_t delta = d; pb_error_t err = adjust_recursive(&P, &st, &delta);
  CHECK(err == (pb_error_t)LG.fail, "an error is reported if and only if something failed");
  CHECK((P.version == LC.version) == !err && (err ? P.version >> (8 * sizeof P.version - 1) : 1), "after an error the part is invalid");
  CHECK((size_t)P.offset.start == s && (size_t)P.offset.end == e, "the part is where it was");
  if (err) { REACH("failed"); return; }
  CHECK(delta == LG.nd, "the growth is returned");
  if (kase == 1) { CHECK(!LG.calls && !LG.below, "in the level of the record nothing is to be adjusted"); REACH("record"); }
  else if (kase == 0) { CHECK(LG.calls == 1, "the length prefix of the message that contains the edit is adjusted"); REACH("message"); }
  else { CHECK(LG.calls == (d < 0 && ty + d == ts ? 2 : 1), "a packed record gets a new length or, emptied, is removed"); if (LG.calls == 2) REACH("emptied"); else REACH("packed"); } }
