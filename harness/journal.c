/* C09: a journal write or clear splices the buffer and logs the change, or
 * changes nothing.  The allocator is arbitrary: every call may fail. */
#include "ghost.h"
#include "core/buffer.h"
#include "message/buffer.h"
#include "message/journal.h"

typedef pb_journal_entry_t ent_t;
#ifdef VF_PROOF
#define M_CAP ((size_t)1 << 40)
ent_t nondet_ent(void);
#else
#define M_CAP ((size_t)3)
#endif

/* slots: 0 the buffer's block, 1 the log's block, 2.. blocks made since */
#define NS 6
static void *S_p[NS]; static size_t S_n[NS]; static int S_live[NS], S_cnt, S_calls, S_failed; static uint64_t S_mask;
static size_t EW; static ent_t EV;           /* arbitrary old entry */
static int s_find(const void *p) {
  for (int i = 0; i < NS; i++) if (S_live[i] && S_p[i] == p) return i;
  return -1; }
static void *s_new(size_t n, int slot) {
  uint8_t *p = malloc(n); REQUIRE(p != NULL);
  S_p[slot] = p; S_n[slot] = n; S_live[slot] = 1; return p; }
static void *s_resize(void *data, void *block, size_t n) {
  CHECK(n > 0, "allocator is asked for at least one byte");
  int i = block ? s_find(block) : S_cnt++;
  CHECK(i >= 0 && i < NS, "only live blocks are resized");
  int f = (S_mask >> (S_calls & 63)) & 1; S_calls++;
  if (f) { S_failed++; return NULL; }
  uint8_t *p = malloc(n); REQUIRE(p != NULL);
  size_t m = block ? (S_n[i] < n ? S_n[i] : n) : 0;
#ifdef VF_PROOF
  if (i == 0) {
    if (W[0] >= m) V[0] = nondet_vf_byte();
    if (W[1] >= m) V[1] = W[1] == W[0] ? V[0] : nondet_vf_byte();
  } else if (i == 1) {
    if (EW < m / sizeof(ent_t)) {
      ent_t o = ((ent_t *)block)[EW], c = ((ent_t *)p)[EW];
      REQUIRE(o.origin == c.origin && o.offset == c.offset && o.delta == c.delta); }
  }
#else
  for (size_t k = 0; k < 3 * VF_CAP + (M_CAP + 1) * sizeof(ent_t); k++) if (k < n) p[k] = k < m ? ((uint8_t *)block)[k] : 0xA5;
#endif
  if (block) { free(block); }
  S_p[i] = p; S_n[i] = n; S_live[i] = 1; return p; }
static void *s_allocate(void *data, size_t n) { return s_resize(data, NULL, n); }
static void s_free(void *data, void *block) {
  int i = s_find(block); S_calls++;
  CHECK(block && i >= 0, "only live blocks are freed");
  if (i < 0) return;
  S_live[i] = 0; free(block); }
static pb_allocator_t S = { { s_allocate, s_resize, s_free }, NULL };

/* a journal of any size with any log, over S or over the zero-copy allocator */
#define PRE \
  S_mask = vf_in(); S_cnt = 2; \
  size_t n = vf_range(0, VF_CAP), m = vf_range(0, M_CAP); EW = (size_t)vf_in(); \
  int zc = vf_bool(); REQUIRE(!zc || (n && !m)); \
  uint8_t *d = n ? vf_buf(n) : NULL; \
  ent_t *log = NULL; if (m) { log = malloc(m * sizeof(ent_t)); REQUIRE(log != NULL); } FILL \
  S_p[0] = d; S_n[0] = n; S_live[0] = n && !zc; S_p[1] = log; S_n[1] = m * sizeof(ent_t); S_live[1] = m != 0; \
  pb_allocator_t *al = zc ? &allocator_zero_copy : &S; \
  pb_journal_t j = { { al, d, n }, { log, m } }; \
  size_t o = (size_t)vf_in(), s = (size_t)vf_in(), e = (size_t)vf_in(); OFFSETS \
  if (EW < m) EV = log[EW]; \
  REQUIRE(o <= e)
#ifdef VF_CBMC
#define OFFSETS
#else
#define OFFSETS o %= VF_CAP + 3; s %= VF_CAP + 3; e %= VF_CAP + 3; EW %= 4;
#endif
#ifdef VF_PROOF
#define FILL
#define SAVE uint8_t dummy = 0;
#else
#define FILL for (size_t i = 0; i < M_CAP; i++) if (i < m) { log[i].origin = vf_u8(); log[i].offset = vf_u8(); log[i].delta = (int8_t)vf_u8(); }
#endif

static void log_check(pb_journal_t *j, pb_allocator_t *al, size_t m, int logged, size_t o, size_t e, ptrdiff_t delta) {
  CHECK(j->buffer.allocator == al, "allocator kept");
  CHECK(pb_journal_version(j) == m + (logged ? 1 : 0), "one more entry iff the size changed");
  if (logged) {
    ent_t *x = &j->entry.data[m];
    CHECK(x->origin == o && x->offset == e && x->delta == delta, "the new entry holds origin, end and difference");
  }
  if (EW < m) {
    ent_t *x = &j->entry.data[EW];
    CHECK(x->origin == EV.origin && x->offset == EV.offset && x->delta == EV.delta, "earlier entries are kept");
  }
  if (j->entry.data) {
    int i = s_find(j->entry.data);
    CHECK(i >= 0 && S_n[i] >= j->entry.size * sizeof(ent_t), "the log owns enough memory");
    CHECK(j->buffer.data != (void *)j->entry.data, "log and buffer are apart");
  }
  if (j->buffer.size && al == &S) {
    int i = s_find(j->buffer.data);
    CHECK(i >= 0 && S_n[i] >= j->buffer.size, "the buffer owns enough memory");
  }
}

void h_jwrite(void) { PRE;
  size_t k = vf_size(1); uint8_t *x = vf_buf(k);
  int range = s <= e && e <= n; size_t nn = n - (e - s) + k; ptrdiff_t delta = k - (e - s);
#ifdef VF_PROOF
  size_t w = (size_t)vf_in();
  X = x; XW = w - s; XV = nondet_vf_byte();
  W[0] = w; V[0] = nondet_vf_byte();
  W[1] = w - delta; V[1] = W[1] == W[0] ? V[0] : nondet_vf_byte();
  uint8_t same = V[0], splice = w < s ? V[0] : w < s + k ? XV : V[1];
#else
  uint8_t old[VF_CAP + 1]; for (size_t i = 0; i < VF_CAP; i++) if (i < n) old[i] = d[i];
#endif
  pb_error_t r = pb_journal_write(&j, o, s, e, x, k);
  if (!range) { CHECK(r != PB_ERROR_NONE, "a range outside the journal is refused"); }
  else if (zc && delta) { CHECK(r == PB_ERROR_ALLOC, "zero-copy memory cannot change its size"); }
  else if (!S_failed || !delta) { CHECK(r == PB_ERROR_NONE, "without an allocation failure the write succeeds"); }
  else { CHECK(r == PB_ERROR_NONE || r == PB_ERROR_ALLOC, "an allocation failure is reported"); }
  log_check(&j, al, m, !r && delta, o, e, delta);
  if (zc) { CHECK(j.buffer.data == d && !S_calls && j.entry.data == log, "nothing is allocated for zero-copy journals"); }
  if (!r) {
    CHECK(j.buffer.size == nn, "size after the splice");
#ifdef VF_PROOF
    if (w < nn) { CHECK(V[0] == splice, "prefix, written bytes, shifted suffix"); }
#else
    for (size_t i = 0; i < 3 * VF_CAP; i++) if (i < nn)
      CHECK(j.buffer.data[i] == (i < s ? old[i] : i < s + k ? x[i - s] : old[i - k + (e - s)]), "prefix, written bytes, shifted suffix");
#endif
    REACH("written");
  } else {
    CHECK(j.buffer.size == n, "a refused write keeps the size");
#ifdef VF_PROOF
    if (w < n) { CHECK(V[0] == same, "a refused write keeps every byte"); }
#else
    for (size_t i = 0; i < VF_CAP; i++) if (i < n) CHECK(j.buffer.data[i] == old[i], "a refused write keeps every byte");
#endif
    REACH("refused");
  }
}

void h_jclear(void) { PRE;
  int range = s <= e && e <= n; size_t nn = n - (e - s); ptrdiff_t delta = s - e;
#ifdef VF_PROOF
  size_t w = (size_t)vf_in();
  X = NULL;
  W[0] = w; V[0] = nondet_vf_byte();
  W[1] = w + (e - s); V[1] = W[1] == W[0] ? V[0] : nondet_vf_byte();
  uint8_t same = V[0], splice = w < s ? V[0] : V[1];
#else
  uint8_t old[VF_CAP + 1]; for (size_t i = 0; i < VF_CAP; i++) if (i < n) old[i] = d[i];
#endif
  pb_error_t r = pb_journal_clear(&j, o, s, e);
  if (!range) { CHECK(r != PB_ERROR_NONE, "a range outside the journal is refused"); }
  else if (zc && delta) { CHECK(r == PB_ERROR_ALLOC, "zero-copy memory cannot change its size"); }
  else if (!S_failed || !delta) { CHECK(r == PB_ERROR_NONE, "without an allocation failure clearing succeeds"); }
  else { CHECK(r == PB_ERROR_NONE || r == PB_ERROR_ALLOC, "an allocation failure is reported"); }
  log_check(&j, al, m, !r && delta, o, e, delta);
  if (zc) { CHECK(j.buffer.data == d && !S_calls && j.entry.data == log, "nothing is allocated for zero-copy journals"); }
  if (!r) {
    CHECK(j.buffer.size == nn, "size after the splice");
    if (!nn && !zc) { CHECK(!S_live[0] && j.buffer.data == NULL, "an emptied buffer returns its memory"); }
#ifdef VF_PROOF
    if (w < nn) { CHECK(V[0] == splice, "prefix, then shifted suffix"); }
#else
    for (size_t i = 0; i < VF_CAP; i++) if (i < nn)
      CHECK(j.buffer.data[i] == (i < s ? old[i] : old[i + (e - s)]), "prefix, then shifted suffix");
#endif
    REACH("cleared");
  } else {
    CHECK(j.buffer.size == n, "a refused clear keeps the size");
#ifdef VF_PROOF
    if (w < n) { CHECK(V[0] == same, "a refused clear keeps every byte"); }
#else
    for (size_t i = 0; i < VF_CAP; i++) if (i < n) CHECK(j.buffer.data[i] == old[i], "a refused clear keeps every byte");
#endif
    REACH("refused");
  }
}

void h_jdestroy(void) { PRE; (void)s;
  pb_journal_destroy(&j);
  CHECK(!S_live[0] && !S_live[1], "every block is returned once");
  CHECK(!zc || !S_calls, "zero-copy memory is not freed");
  CHECK(zc || !pb_journal_valid(&j), "a destroyed journal is invalid");
  int calls = S_calls; pb_journal_destroy(&j);
  CHECK(S_calls == calls, "destroying again does nothing");
  REACH("destroyed");
}

void h_jinvalid(void) {
  pb_journal_t j = pb_journal_create_invalid(); uint8_t x = vf_u8();
  size_t o = (size_t)vf_in(), s = (size_t)vf_in(), e = (size_t)vf_in(), k = vf_range(1, 1);
  pb_version_t v = (size_t)vf_in(), v0 = v; pb_offset_t f = { (size_t)vf_in(), (size_t)vf_in(), { 1, 2, 3 } }, f0 = f;
  CHECK(pb_journal_write(&j, o, s, e, &x, k) == PB_ERROR_INVALID, "writing to an invalid journal is refused");
  CHECK(pb_journal_clear(&j, o, s, e) == PB_ERROR_INVALID, "clearing an invalid journal is refused");
  CHECK(pb_journal_align(&j, &v, &f) == PB_ERROR_INVALID && v == v0 && f.start == f0.start && f.end == f0.end, "aligning with an invalid journal is refused");
  pb_journal_destroy(&j);
  CHECK(!j.buffer.allocator && !j.buffer.data && !j.entry.data && !j.entry.size, "and has no effect");
  REACH("invalid");
}
