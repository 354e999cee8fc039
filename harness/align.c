/* C10: the contract of one alignment step, for every edit the library makes
 * and every handle, wherever both are in the tree of messages.
 *
 * A handle Y is given by absolute positions: O (first byte of the message it
 * belongs to), T (its tag), L (its length prefix), S, E (its contents).  An
 * edit replaces [a, b) by n bytes.  The tree is laminar: what is not inside
 * one another is disjoint. */
#include "vf.h"
#include "core/allocator.h"
#include "message/journal.h"
#include "message/common.h"
#ifdef GONE
#define GONE_REACHED REACH("gone")
#else
#define GONE_REACHED ((void)0)
#endif
static size_t MO, ME;
#ifdef DBG
#include <stdio.h>
#endif
#if defined(DBG) || !defined(VF_PROOF)
#define POS ((size_t)14)
#else
#define POS ((size_t)1 << 32)
#endif
typedef struct { size_t O, T, L, S, E; int root, elem; size_t PT, PS, PE; } node;
static size_t add(size_t p, size_t k) { return p + vf_range(k, POS); }
static size_t pos(void) { return vf_range(0, POS); }
/* record, root message, or element of a packed record */
static node any_node(int kind) {
  node y = { 0 };
  if (kind == 0) { y.root = 1; y.E = vf_bool() ? ME : pos(); return y; }
  y.O = vf_bool() ? MO : pos();
  if (kind == 1) {
    y.T = add(y.O, 0); y.L = add(y.T, 1); y.S = vf_bool() ? MO : add(y.L, 0); y.E = vf_bool() ? ME : add(y.S, 0);
    REQUIRE(y.L <= y.S && y.S <= y.E); REQUIRE(y.L < y.S || y.S < y.E); y.PT = y.T; y.PS = y.S; y.PE = y.E; }
  else { y.elem = 1; y.PT = add(y.O, 0); y.PS = add(y.PT, 2); y.S = add(y.PS, 0); y.E = add(y.S, 1); y.PE = add(y.E, 0); y.T = y.L = y.S; }
  return y; }
/* an element of the packed record q */
static node element_of(node q) {
  node y = { 0 }; y.elem = 1; y.O = q.O; y.PT = q.T; y.PS = q.S; y.PE = q.E; y.T = y.L = y.S = add(q.S, 0); y.E = add(y.S, 1); REQUIRE(y.E <= q.E); return y; }
static void step(node y, node w, int gone, size_t origin, size_t b, size_t d) {
  pb_offset_t o = { y.S, y.E, { (ptrdiff_t)(y.O - y.S), y.elem ? 0 : (ptrdiff_t)(y.T - y.S), y.elem ? 0 : (ptrdiff_t)(y.L - y.S) } };
  size_t at = 0; pb_journal_entry_t e = { origin, b, (ptrdiff_t)d }, es[1] = { e };
  pb_journal_t j = { .buffer = { &allocator_default, .data = (uint8_t *)es, .size = b }, .entry = { es, at + 1 } };
#ifdef DBG
  fprintf(stderr, "Y O=%zu T=%zu L=%zu S=%zu E=%zu elem=%d P=[%zu %zu %zu] M=[%zu %zu] edit origin=%zu end=%zu d=%zd gone=%d want O=%zu T=%zu L=%zu S=%zu E=%zu\n", y.O,y.T,y.L,y.S,y.E,y.elem,y.PT,y.PS,y.PE,MO,ME,origin,b,d,gone,w.O,w.T,w.L,w.S,w.E);
#endif
  pb_version_t v = at; int r = pb_journal_align(&j, &v, &o);
  if (gone) { CHECK(r == PB_ERROR_INVALID && v == SIZE_MAX, "a handle whose bytes were erased is invalid after the edit");
    CHECK(pb_journal_align(&j, &v, &o) == PB_ERROR_INVALID && v == SIZE_MAX, "and stays invalid"); GONE_REACHED; return; }
  CHECK(!r && v == at + 1, "a handle whose bytes are there stays valid");
  CHECK(o.start == w.S, "its start follows its bytes");
  CHECK(o.end == w.E, "its end follows its bytes");
  CHECK((size_t)o.start + o.diff.origin == w.O, "the start of its message follows");
  CHECK(w.elem ? !o.diff.tag : o.start + o.diff.tag == w.T, "its tag follows");
  CHECK(w.elem ? !o.diff.length : o.start + o.diff.length == w.L, "its length prefix follows");
  pb_offset_t p = o; CHECK(!pb_journal_align(&j, &v, &p) && v == at + 1 && p.start == o.start && p.end == o.end && p.diff.origin == o.diff.origin && p.diff.tag == o.diff.tag && p.diff.length == o.diff.length, "aligning again changes nothing");
  REACH("moved"); }

/* one call for all cases */
static node Y_, W_; static int GONE_; static size_t OR_, B_, D_;
static void become(node y, node w, int gone, size_t origin, size_t b, size_t d) { Y_ = y; W_ = w; GONE_ = gone; OR_ = origin; B_ = b; D_ = d; }
static void go(void) { step(Y_, W_, GONE_, OR_, B_, D_); }

/* the message with the edited record X, and where Y is relative to [T, E) */
static void message(void) { MO = pos(); ME = add(MO, 0); REQUIRE(MO != 1); }
static int contains(node y) { return !y.elem && (y.S == MO ? y.E == ME : y.S + 2 <= MO && ME <= y.E) && (y.root ? y.S == 0 && (MO >= 2 || !MO) : y.T < y.L && y.L < y.S); }
static int before(node y, size_t T) { return !y.root && y.PE <= T && y.E <= T && ((y.O == MO || y.O >= MO + 2) || y.PE + 2 <= MO); }
static int after(node y, size_t E) { return !y.root && y.PT >= E && (y.O == MO ? y.PE <= ME : y.O >= E + 2 || (y.O + 2 <= MO && y.PT >= ME)); }
static node moved(node y, size_t E, size_t d) {           /* everything from E on */
  node w = y; if (w.O >= E && y.O > MO) w.O += d; w.T += d; w.L += d; w.S += d; w.E += d; return w; }
static node grown(node y, size_t d) { node w = y; w.E += d; return w; }
static node record(void) { node x = { 0 }; x.O = MO; x.PT = x.T = add(MO, 0); x.L = add(x.T, 1); x.PS = x.S = add(x.L, 0); x.PE = x.E = add(x.S, 0); ME = add(x.E, 0);
  REQUIRE(x.L < x.S || x.S < x.E); return x; }
static node any_y(int k) {
#ifdef KIND
  (void)k; return any_node(KIND);
#else
  return any_node(k);
#endif
}
enum { SAME, ANC, BEFORE, AFTER, INSIDE, SIB_BEFORE, SIB_AFTER, CONTEXT };

/* a value is written */
void h_value(void) {
  message(); node x = record(); size_t n = vf_range(1, POS), d = n - (x.E - x.S); REQUIRE(d);
  node y; switch (vf_range(0, 3)) {
    case SAME: become(x, grown(x, d), 0, x.S, x.E, d); break;
    case ANC: y = any_y(vf_bool()); REQUIRE(contains(y)); become(y, grown(y, d), 0, x.S, x.E, d); break;
    case BEFORE: y = any_y(1 + vf_bool()); REQUIRE(before(y, x.T)); become(y, y, 0, x.S, x.E, d); break;
    default: y = any_y(1 + vf_bool()); REQUIRE(after(y, x.E)); become(y, moved(y, x.E, d), 0, x.S, x.E, d); }
  go(); }
/* a length prefix is written */
void h_prefix(void) {
  message(); node x = record(); REQUIRE(x.L < x.S && x.S - x.L <= 10); size_t n = vf_range(1, 5), d = n - (x.S - x.L); REQUIRE(d);
  node y, w; switch (vf_range(0, 4)) {
    case SAME: w = x; w.S += d; w.E += d; become(x, w, 0, x.L, x.S, d); break;
    case ANC: y = any_y(vf_bool()); REQUIRE(contains(y)); become(y, grown(y, d), 0, x.L, x.S, d); break;
    case BEFORE: y = any_y(1 + vf_bool()); REQUIRE(before(y, x.T)); become(y, y, 0, x.L, x.S, d); break;
    case AFTER: y = any_y(1 + vf_bool()); REQUIRE(after(y, x.E)); become(y, moved(y, x.E, d), 0, x.L, x.S, d); break;
    default: y = any_y(1 + vf_bool());
      if (y.elem && vf_bool()) y = element_of(x);
      else REQUIRE((y.O == x.S || y.O >= x.S + 2) && y.PE <= x.E);
      become(y, moved(y, x.S, d), 0, x.L, x.S, d); }
  go(); }
/* an empty record is inserted between two records */
void h_insert(void) {
  message(); size_t e = pos(), d = vf_range(1, 20); REQUIRE(MO <= e && e <= ME);
  node y; switch (vf_range(1, 3)) {
    case ANC: y = any_y(vf_bool()); REQUIRE(contains(y)); become(y, grown(y, d), 0, MO, e, d); break;
    case BEFORE: y = any_y(1 + vf_bool()); REQUIRE(before(y, e)); become(y, y, 0, MO, e, d); break;
    default: y = any_y(1 + vf_bool()); REQUIRE(after(y, e)); become(y, moved(y, e, d), 0, MO, e, d); }
  go(); }
/* a record is erased */
void h_erase(void) {
  message(); node x = record(); size_t d = x.T - x.E;
  node y; switch (vf_range(0, 4)) {
    case SAME: become(x, x, 1, MO, x.E, d); break;
    case ANC: y = any_y(vf_bool()); REQUIRE(contains(y)); become(y, grown(y, d), 0, MO, x.E, d); break;
    case BEFORE: y = any_y(1 + vf_bool()); REQUIRE(before(y, x.T)); become(y, y, 0, MO, x.E, d); break;
    case AFTER: y = any_y(1 + vf_bool()); REQUIRE(after(y, x.E)); become(y, moved(y, x.E, d), 0, MO, x.E, d); break;
    default: REQUIRE(x.L < x.S); y = any_y(1 + vf_bool()); REQUIRE((y.O == x.S || y.O >= x.S + 2) && y.PE <= x.E);
      become(y, y, 1, MO, x.E, d); }
  go(); }
/* everything is erased */
void h_erase_all(void) {
  MO = 0; ME = vf_range(1, POS); node y;
  if (vf_bool()) { y = any_y(1 + vf_bool()); REQUIRE(y.PE <= ME && (!y.O || y.O >= 2)); become(y, y, 1, 0, ME, -ME); }
  else { y = any_node(0); REQUIRE(y.E == ME); become(y, grown(y, -ME), 0, 0, ME, -ME); }
  go(); }
/* an element of a packed record is written, appended or erased */
static void element(int append, int erase) {
  message(); node q = record(); REQUIRE(q.L < q.S);
  size_t a = append ? q.E : add(q.S, 0), b = append ? q.E : add(a, 1); REQUIRE(b <= q.E);
  size_t n = erase ? 0 : vf_range(1, 16), d = n - (b - a); REQUIRE(d);
  node y; switch (vf_range(0, 7)) {
    case SAME: REQUIRE(!append); y = element_of(q); y.S = y.T = y.L = a; y.E = b;
      become(y, grown(y, d), erase, a, b, d); break;
    case ANC: y = any_y(vf_bool()); REQUIRE(contains(y)); become(y, grown(y, d), 0, a, b, d); break;
    case BEFORE: y = any_y(1 + vf_bool()); REQUIRE(before(y, q.T)); become(y, y, 0, a, b, d); break;
    case AFTER: y = any_y(1 + vf_bool()); REQUIRE(after(y, q.E)); become(y, moved(y, q.E, d), 0, a, b, d); break;
    case CONTEXT: become(q, grown(q, d), 0, a, b, d); break;
    case SIB_BEFORE: y = element_of(q); REQUIRE(y.E <= a); become(y, y, 0, a, b, d); break;
    default: y = element_of(q); REQUIRE(y.S >= b);
      become(y, moved(y, b, d), 0, a, b, d); }
  go(); }
void h_element(void) { element(0, 0); }
void h_append(void) { element(1, 0); }
void h_element_erase(void) { element(0, 1); }
/* a packed record without elements is erased */
void h_packed_erase(void) {
  message(); node q = record(); REQUIRE(q.L < q.S && (q.E = q.PE = q.S));  size_t d = q.T - q.E;
  node y; switch (vf_range(0, 3)) {
    case SAME: become(q, q, 1, q.T, q.E, d); break;
    case ANC: y = any_y(vf_bool()); REQUIRE(contains(y)); become(y, grown(y, d), 0, q.T, q.E, d); break;
    case BEFORE: y = any_y(1 + vf_bool()); REQUIRE(before(y, q.T)); become(y, y, 0, q.T, q.E, d); break;
    default: y = any_y(1 + vf_bool()); REQUIRE(after(y, q.E)); become(y, moved(y, q.E, d), 0, q.T, q.E, d); }
  go(); }
/* aligning over two edits is aligning over one, then the other */
void h_two(void) {
  pb_offset_t o = { pos(), pos(), { -(ptrdiff_t)pos(), -(ptrdiff_t)pos(), -(ptrdiff_t)pos() } }, p = o;
  size_t at = vf_range(0, 1);
  pb_journal_entry_t e = { pos(), pos(), (ptrdiff_t)(pos() - pos()) }, f = { pos(), pos(), (ptrdiff_t)(pos() - pos()) };
  pb_journal_entry_t es[3] = { e, e, e };
  es[at] = e; es[at + 1] = f;
  pb_journal_t j = { .buffer = { &allocator_default, .data = (uint8_t *)es, .size = 1 }, .entry = { es, at + 2 } }, j1 = j; j1.entry.size = at + 1;
  pb_version_t v = at, w = at; int r = pb_journal_align(&j, &v, &o), s = pb_journal_align(&j1, &w, &p);
  if (s) { CHECK(r && v == SIZE_MAX && w == SIZE_MAX, "gone after the first edit, gone after both"); CHECK(pb_journal_align(&j, &w, &p) == PB_ERROR_INVALID && w == SIZE_MAX, "and for good"); REACH("gone"); return; }
  s = pb_journal_align(&j, &w, &p);
  CHECK(r == s && v == w, "the same verdict");
  if (!r) { CHECK(o.start == p.start && o.end == p.end && o.diff.origin == p.diff.origin && o.diff.tag == p.diff.tag && o.diff.length == p.diff.length, "the same offsets"); REACH("there"); } }
