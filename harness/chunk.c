/* C19, unbounded: for a list of chunks of any length, a block gets a chunk of
 * its own with room for it, growing a block touches that chunk and the link to
 * it only, freeing it unlinks and frees that chunk only, and destroying the
 * allocator frees every chunk once.  W is an arbitrary chunk, S stands for any
 * other one: nothing is known of it but that it leads to W if W lies ahead. */
#include <stdlib.h>
#include "vf.h"
#include <pb_verify.h>
#include "core/allocator.h"
#include "util/chunk_allocator.h"
/* ROOM: the obligations that need arithmetic, for a solver that can do it */
#ifdef ROOM
#undef CHECK
#undef REACH
#define CHECK(c, m) ((void)0)
#define REACH(m) ((void)0)
#define ENOUGH(c, m) __CPROVER_assert((c), m)
#else
#define ENOUGH(c, m) ((void)0)
#endif
int nondet_int(void); size_t nondet_size(void);
void *allocator_allocate(void *data, size_t size); void *allocator_resize(void *data, void *block, size_t size); void allocator_free(void *data, void *block);
vf_chunk HB = { 0 }, HW = { 0 }, HS = { 0 }; chk_t HG = { 0 }; chk_const_t HC = { 0 };
static vf_chunk N = { 0 }, Z = { 0 }; static size_t got; static int mallocs, reallocs, frees, none, moved; static vf_chunk *bnext; static size_t bcap, wcap;
static vf_chunk *pick(vf_chunk *a, vf_chunk *b) { return nondet_int() ? a : b; }
/* the next one of the other chunks */
static void other(void) {
  HS.capacity = HG.scap = nondet_size(); HS.next = HC.before || (HC.destroy && !HG.wfreed) ? pick(&HS, &HW) : HG.seen || HG.wfreed ? pick(NULL, &HS) : pick(NULL, pick(&HS, &HW)); HG.snext = HS.next; }
void chk_head(void *h) {
  vf_chunk **head = h; CHECK(HS.next == HG.snext && HS.capacity == HG.scap, "looking for a chunk changes nothing");
  if (*head == &HB) { *head = &HB; HG.last = 0; } else if (*head == &HW) { *head = &HW; HG.last = 1; HG.seen = 1; } else { CHECK(*head == &HS, "chunks are looked for in the list"); *head = &HS; HG.last = 2; }
  other(); }
void chk_first(void *b) {
  CHECK(b == &HB, "the chunks are those of the list"); CHECK(!HG.held, "every chunk is freed");
  if (HB.next == &HW) { HB.next = &HW; HG.held = 1; HW.next = HC.wnone ? NULL : &HS; } else if (HB.next) { HB.next = &HS; HG.held = 1; other(); } else HB.next = NULL; }
void *chk_malloc(size_t n) { mallocs++; got = n; if (nondet_int()) { none = 1; return NULL; } N.next = pick(&Z, &HS); N.capacity = nondet_size(); return &N; }
void *chk_realloc(void *p, size_t n) { reallocs++; got = n; CHECK(p == &HW, "only the chunk of the block is resized"); if (nondet_int()) { none = 1; return NULL; } if (nondet_int()) return &HW; moved = 1; N = HW; HW.next = &Z; return &N; }
void chk_free(void *p) {
  if (!HC.destroy) frees++;
  if (p == &HW) { CHECK(!HG.wfreed, "no chunk is freed twice"); HG.wfreed = 1; HG.held = 0; HW.next = &Z; }
  else if (p == &HB) { CHECK(!HG.bfreed && HC.destroy, "the base is freed once"); HG.bfreed = 1; HB.next = &Z; }
  else { CHECK(p == &HS && HC.destroy && HG.held, "only chunks are freed, once"); HG.held = 0; HS.next = HG.snext = &Z; } }

static void setup(void) {
  mallocs = reallocs = frees = none = moved = 0; got = 0; HG.seen = HG.wfreed = HG.bfreed = HG.held = HG.last = 0; Z.next = &Z; Z.capacity = 0; 
  HB.capacity = bcap = nondet_size(); HW.capacity = wcap = nondet_size(); HC.wnone = nondet_int() != 0; HW.next = HC.wnone ? NULL : &HS; other();
  HB.next = bnext = HC.before || HC.destroy ? pick(&HW, &HS) : pick(NULL, pick(&HW, &HS)); REQUIRE(bcap >= 1); }
static void same_w(void) { CHECK(HW.next == (HC.wnone ? NULL : &HS) && HW.capacity == wcap, "the chunk is kept"); }
static void same_b(void) { CHECK(HB.next == bnext, "the base is kept"); }
static void same_s(void) { CHECK(HS.next == HG.snext, "the other chunks are kept"); }
static size_t size_for(void) { size_t n = nondet_size(); REQUIRE(n >= 1 && n < (size_t)1 << 62 && bcap < (size_t)1 << 62); return n; }
static void allocated(size_t n, void *p) {
  CHECK(mallocs == 1 && !reallocs && !frees, "one block of memory is taken");
  if (none) { CHECK(!p, "running out of memory is reported"); same_w(); same_b(); same_s(); REACH("exhausted"); return; }
  CHECK((uint8_t *)p == (uint8_t *)&N + sizeof N, "the block is that of the new chunk"); CHECK(got == sizeof N + N.capacity, "the capacity is what there is"); ENOUGH(N.capacity >= n, "there is room for the block");
  int b = HB.next == &N, w = HW.next == &N, t = HS.next == &N; vf_chunk *wnext = HC.wnone ? NULL : &HS; CHECK(b + w + t == 1, "one chunk leads to it");
  if (b) { CHECK(N.next == bnext, "it leads to the rest"); REACH("first"); } else same_b();
  if (w) { CHECK(N.next == wnext && HW.capacity == wcap, "it leads to the rest"); REACH("after W"); } else same_w();
  if (t) { CHECK(N.next == HG.snext, "it leads to the rest"); REACH("after another"); } else same_s(); }
static void kept(void) { CHECK(HB.capacity == bcap && HS.capacity == HG.scap, "capacities are kept"); }
void h_allocate(void) {
  HC.before = HC.destroy = 0; setup(); size_t n = size_for();
  if (nondet_int()) { CHECK(!allocator_allocate(NULL, n) && !mallocs, "nothing is allocated from nothing"); return; }
  void *p = nondet_int() ? allocator_allocate(&HB, n) : allocator_resize(&HB, NULL, n); allocated(n, p); kept(); }
void h_resize(void) {
  HC.before = 1; HC.destroy = 0; setup(); size_t n = size_for(); void *block = (uint8_t *)&HW + sizeof HW;
  if (nondet_int()) { CHECK(!allocator_resize(NULL, block, n) && !reallocs, "nothing is resized in nothing"); return; }
  void *p = allocator_resize(&HB, block, n); CHECK(!mallocs && !frees && reallocs <= 1, "only the chunk is resized"); kept();
  if (n <= wcap) { CHECK(p == block && !reallocs, "a block for which there is room stays"); same_w(); same_b(); same_s(); REACH("fits"); return; }
  CHECK(reallocs == 1, "a block grows");
  if (none) { CHECK(!p, "running out of memory is reported"); same_w(); same_b(); same_s(); REACH("exhausted"); return; }
  vf_chunk *c = moved ? &N : &HW; CHECK((uint8_t *)p == (uint8_t *)c + sizeof N, "the block is that of the chunk"); CHECK(c->next == (HC.wnone ? NULL : &HS), "the next chunk stays the next");
  CHECK(got == sizeof N + c->capacity, "the capacity is what there is"); ENOUGH(c->capacity >= n, "there is room for the block");
  if (HG.last == 0) { CHECK(bnext == &HW && HB.next == c, "the one before leads to it"); REACH("first"); } else same_b();
  if (HG.last == 2) { CHECK(HG.snext == &HW && HS.next == c, "the one before leads to it"); REACH("later"); } else same_s(); }
void h_free(void) {
  HC.before = 1; HC.destroy = 0; setup(); void *block = (uint8_t *)&HW + sizeof HW;
  if (nondet_int()) { allocator_free(NULL, block); CHECK(!frees, "nothing is freed of nothing"); return; }
  allocator_free(&HB, block); vf_chunk *rest = HC.wnone ? NULL : &HS;
  CHECK(frees == 1 && HG.wfreed && !mallocs && !reallocs, "the chunk of the block is freed"); kept();
  if (HG.last == 0) { CHECK(bnext == &HW && HB.next == rest, "the one before leads to the one after"); REACH("first"); } else same_b();
  if (HG.last == 2) { CHECK(HG.snext == &HW && HS.next == rest, "the one before leads to the one after"); REACH("later"); } else same_s(); }
void h_destroy(void) {
  HC.before = 0; HC.destroy = 1; setup(); pb_allocator_t a = { .data = nondet_int() ? &HB : NULL };
  pb_chunk_allocator_destroy(&a);
  if (a.data) { CHECK(HG.wfreed && HG.bfreed && !HG.held && !mallocs && !reallocs, "every chunk is freed, and the base"); REACH("destroyed"); } else CHECK(!HG.bfreed && !HG.wfreed, "nothing is freed of nothing"); }
void h_create(void) {
  setup(); size_t n = nondet_size(); int dflt = nondet_int(); REQUIRE(n >= 1);
  pb_allocator_t a = dflt ? pb_chunk_allocator_create() : pb_chunk_allocator_create_with_capacity(n);
  CHECK(a.proc.allocate == allocator_allocate && a.proc.resize == allocator_resize && a.proc.free == allocator_free, "what the allocator does"); CHECK(mallocs == 1 && got >= sizeof N && !frees, "the base is allocated");
  if (none) { CHECK(!a.data, "or there is none"); REACH("exhausted"); } else { CHECK(a.data == &N && !N.next && N.capacity >= 1 && (dflt || N.capacity == n), "it has no chunks"); REACH("created"); } }
