/* Executable contracts of the message interface: each operation must change
 * the journal as its specification changes the model, byte for byte, and every
 * handle must follow.  Run on the compiled code over generated histories. */
#include "model.h"
#ifndef MODE
#define MODE 0
#endif

#include <setjmp.h>
#include "core/allocator.h"
/* A check states properties by number.  Deciding one of them (VF_PROP), the
 * failure of a check of others only ends the history. */
static jmp_buf OUT;
#ifdef VF_PROP
#undef REACH
#define REACH(msg) ((void)0)
#define CK(tags, c, msg) do { if (strstr(tags, VF_PROP)) vf_reach(msg); if (!(c)) { if (strstr(tags, VF_PROP)) vf_fail(msg, __FILE__, __LINE__); else longjmp(OUT, 1); } } while (0)
#else
#define CK(tags, c, msg) CHECK(c, msg)
#endif
/* the default allocator, counted, and failing when told to */
static pb_allocator_t SYS; static size_t ALLOCS, FAILED; static int EXHAUSTED;
static void *c_allocate(void *d, size_t n) { ALLOCS++; if (EXHAUSTED) { FAILED++; return NULL; } return SYS.proc.allocate(d, n); }
static void *c_resize(void *d, void *b, size_t n) { ALLOCS++; if (EXHAUSTED) { FAILED++; return NULL; }
  void *r = SYS.proc.allocate(d, n); (void)r;                /* always moves, so that stale pointers are found */
  if (r && b) { extern size_t malloc_usable_size(void *); size_t k = malloc_usable_size(b); memcpy(r, b, k < n ? k : n); SYS.proc.free(d, b); }
  return r; }
static void c_free(void *d, void *b) { ALLOCS++; SYS.proc.free(d, b); }
static void count(void) { if (!SYS.proc.free) SYS = allocator_default; allocator_default.proc.allocate = c_allocate; allocator_default.proc.resize = c_resize; allocator_default.proc.free = c_free; }

static pb_journal_t J; static msg *ROOT; static int ZERO; static size_t STEPS;
typedef struct { pb_message_t h; msg *m; } mh; static mh H[64]; static int HN;
typedef struct { pb_field_t h; rec *r; const pb_field_descriptor_t *f; } fh; static fh FH[64]; static int FN;
typedef struct { pb_cursor_t h; msg *m; rec *r; const pb_field_descriptor_t *f; } ch; static ch CH[16]; static int CN;
typedef struct { pb_oneof_t h; msg *m; const pb_oneof_descriptor_t *o; } oh; static oh OH[16]; static int ON;

#include <stdio.h>
static void show(const char *w, const uint8_t *d, size_t n) { fprintf(stderr, "%s", w); for (size_t i = 0; i < n; i++) fprintf(stderr, " %02x", d[i]); fputc('\n', stderr); }
static int same(void) {
  bytes b = { 0 }; encode(ROOT, &b);
  if (getenv("VF_SHOW")) { size_t n = pb_journal_size(&J), i = 0; while (i < n && i < b.n && pb_journal_data(&J)[i] == b.d[i]) i++; if (i < n || i < b.n) { fprintf(stderr, "journal %zu model %zu first difference at %zu\n", n, b.n, i); size_t a = i > 12 ? i - 12 : 0;
    show("journal:", pb_journal_data(&J) + a, n - a > 40 ? 40 : n - a); show("model:  ", b.d + a, b.n - a > 40 ? 40 : b.n - a); } else fprintf(stderr, "same\n"); }
  int r = pb_journal_size(&J) == b.n && (!b.n || !memcmp(pb_journal_data(&J), b.d, b.n)); free(b.d); return r; }
static int canon(msg *m, msg *to) {                   /* shortest prefixes on the way */
  if (m == to) return 1;
  for (int i = 0; i < m->n; i++) if (m->r[i]->sub && canon(m->r[i]->sub, to)) { m->r[i]->ln = 0; return 1; }
  return 0; }
static void prefixes(msg *m, int how) {               /* keep, or restore */
  for (int i = 0; i < m->n; i++) { rec *r = m->r[i];
    if (how) { r->ln = r->kn; r->lv = r->kv; memcpy(r->len, r->klen, 10); } else { r->kn = r->ln; r->kv = r->lv; memcpy(r->klen, r->len, 10); }
    if (r->sub) prefixes(r->sub, how); } }
static int same_or(msg *m) {
  if (!(gen_flags & G_LENGTHS)) return same();
  prefixes(ROOT, 0); if (same()) return 1;
  prefixes(ROOT, 1); canon(ROOT, m); if (same()) return 1;
  prefixes(ROOT, 1); return 0; }
static int matches(msg *m) { return same_or(m); }

/* every handle delimits what it did, or is known to be gone */
static void handles(void) {
  bytes b = { 0 }; encode(ROOT, &b); free(b.d);
  for (int i = 0; i < HN; i++) { msg *m = H[i].m;
    pb_message_t c = pb_message_copy(&H[i].h); pb_message_t *h = RN(2) ? &H[i].h : &c;
    if (m->dead == 2) continue;
    if (m->dead) { CK("C10", !pb_message_valid(h) || pb_message_align(h), "a handle to an erased message is known to be gone"); continue; }
    CK("C10", pb_message_valid(h) && !pb_message_align(h), "a handle stays valid while its message is there");
    CK("C10", pb_message_start(h) == m->start && pb_message_end(h) == m->end, "a handle delimits the bytes of its message");
    pb_message_t again = pb_message_copy(h);
    CK("C10", !pb_message_align(&again) && !memcmp(&again, h, sizeof again), "aligning again changes nothing"); }
  for (int i = 0; i < FN; i++) { rec *r = FH[i].r;
    pb_field_t c = pb_field_copy(&FH[i].h); pb_field_t *h = RN(2) ? &FH[i].h : &c;
    if (r->dead == 2) continue;
    if (r->dead) { CK("C10", !pb_field_valid(h) || pb_field_align(h), "a handle to an erased field is known to be gone"); continue; }
    CK("C10", pb_field_valid(h) && !pb_field_align(h), "a handle stays valid while its field is there");
    CK("C10", pb_field_start(h) == r->pos && pb_field_end(h) == r->end, "a handle delimits the value of its field"); } }

/* cursors and oneofs kept from before */
static void op_keep(pb_message_t *h, msg *m) {
  if (RN(3) == 0) { if (ON < 16) { const pb_oneof_descriptor_t *o = RN(2) ? &one : &two; OH[ON++] = (oh){ pb_oneof_create(o, h), m, o }; } return; }
  const pb_field_descriptor_t *f = any_field(); elem e[OCC];
  if (m->n && RN(4)) { const pb_field_descriptor_t *g = field_of(m->r[RN(m->n)]->tag); if (g) f = g; }
  unsigned n = occurrences(m, f->tag, e, OCC);
  if (!n || CN >= 16) return;
  unsigned k = RN(n); pb_cursor_t c = pb_cursor_create_unsafe(h, f->tag);
  for (unsigned i = 0; i < k; i++) CK("C13", pb_cursor_next(&c), "a cursor visits every occurrence");
  CK("C13", pb_cursor_valid(&c), "a cursor is at an occurrence");
  if (e[k].r->wt != w_wiretype(f->type)) { pb_cursor_destroy(&c); return; }
  CH[CN++] = (ch){ c, m, e[k].r, f }; REACH("kept cursor"); }

static uint8_t *before; static size_t before_n; static pb_version_t before_v;
static void save(void) { before_n = pb_journal_size(&J); before_v = pb_journal_version(&J); before = malloc(before_n + 1); if (before_n) memcpy(before, pb_journal_data(&J), before_n); }
static void unchanged(const char *tags, const char *what) {
  CK(tags, pb_journal_size(&J) == before_n && (!before_n || !memcmp(pb_journal_data(&J), before, before_n)) && pb_journal_version(&J) == before_v, what); free(before); }

/* ---- reading ---- */
typedef union { uint64_t u; pb_string_t s; } any;
static void read_singular(pb_message_t *h, msg *m, const pb_field_descriptor_t *f) {
  any got, keep; memset(&got, 0x5a, sizeof got); keep = got;
  elem e; int there = visible(m, f, &e);
  CK("C14 C20", !pb_message_has(h, f->tag) == !there, "a field is present exactly if it occurs (the last occurrence, the active member)");
  pb_error_t err = pb_message_get(h, f->tag, &got);
  if (there) { CK("C12 C14", !err && stands_for(f, &got, e.r->val.d + e.off, e.n), "reading yields the visible occurrence"); REACH("present"); }
  else if (default_of(f)) { CK("C20", !err && !memcmp(&got, default_of(f), pb_field_descriptor_type_size(f)), "an absent field reads as its default"); REACH("default"); }
  else { CK("C20", err == PB_ERROR_ABSENT, "an absent field without a default is reported"); CK("C20", !memcmp(&got, &keep, sizeof got), "and delivers nothing"); REACH("absent"); } }
static void read_match(pb_message_t *h, msg *m, const pb_field_descriptor_t *f) {
  elem e[OCC], v; unsigned n = occurrences(m, f->tag, e, OCC); int want = 0;
  value x = any_value(f);
  if (RN(2) && n) { elem t = e[RN(n)]; memset(&x, 0, sizeof x);            /* a value that occurs, or nearly */
    if (w_wiretype(f->type) == 2) { uint8_t *p = malloc(t.n + 2); memcpy(p, t.r->val.d + t.off, t.n); size_t k = t.n;
      switch (RN(4)) { case 0: k += 1; p[t.n] = 0; break; case 1: if (k > 1) k--; break; case 2: if (k) p[RN(k)] ^= 1 << RN(8); break; default: ; }
      x.v.s.data = p; x.v.s.size = k; }
    else { w_scalar(f->type, t.r->val.d, t.off, t.r->val.n, &x.v.u); if (RN(3) == 0) { uint8_t *p = (uint8_t *)&x.v; p[RN(w_native(f->type))] ^= f->type == PB_TYPE_BOOL ? 1 : 1 << RN(8); } } }
  if (f->label == PB_LABEL_REPEATED) { for (unsigned i = 0; i < n; i++) want |= stands_for(f, &x.v, e[i].r->val.d + e[i].off, e[i].n); }
  else if (visible(m, f, &v)) want = stands_for(f, &x.v, v.r->val.d + v.off, v.n);
  CK("C21", !pb_message_match(h, f->tag, &x.v) == !want, "matching succeeds exactly for the values that are there"); if (want) REACH("match"); else REACH("no match"); }
static void read_cursor(pb_message_t *h, msg *m, const pb_field_descriptor_t *f) {
  elem e[OCC]; unsigned n = occurrences(m, f->tag, e, OCC), k = 0;
  pb_cursor_t c = pb_cursor_create(h, f->tag);
  if (f->label != PB_LABEL_REPEATED) {           /* at the visible occurrence */
    elem v; int there = visible(m, f, &v);
    CK("C14 C13", !pb_cursor_valid(&c) == !there, "a cursor over a singular field is at its visible occurrence");
    if (there) { const pb_offset_t *o = pb_cursor_offset(&c); CK("C14 C13", o->start == v.r->pos + v.off && o->end == o->start + (v.r->sub ? size_of(v.r->sub) : v.n), "over exactly its bytes"); }
    pb_cursor_destroy(&c);
    c = pb_cursor_create_unsafe(h, f->tag); }
  for (int round = 0; round < 2; round++) {
    k = 0;
    if (pb_cursor_valid(&c)) do {
      CK("C13", k < n, "a cursor visits no more than the occurrences"); REQUIRE(k < n);
      const pb_offset_t *o = pb_cursor_offset(&c); size_t s = e[k].r->pos + e[k].off;
      CK("C13", o->start == s && o->end == s + (e[k].r->sub ? size_of(e[k].r->sub) : e[k].n), "a cursor visits exactly the bytes of each occurrence, in order");
      CK("C13", c.pos == k && pb_cursor_tag(&c) == f->tag, "and knows where it is");
      if (!e[k].r->sub) { any got; CK("C13", !pb_cursor_get(&c, &got) && stands_for(f, &got, e[k].r->val.d + e[k].off, e[k].n), "and reads its value"); }
      k++; } while (pb_cursor_next(&c));
    CK("C13", k == n, "a cursor visits every occurrence");
    CK("C13", pb_cursor_error(&c) == PB_ERROR_EOM, "and then reports the end");
    int again = pb_cursor_rewind(&c);
    CK("C13", !again == !n, "a cursor can be rewound"); }
  if (n) REACH("visited");
  pb_cursor_destroy(&c); }
static void read_all(pb_message_t *h, msg *m) {           /* a cursor over all fields; the cases of oneofs */
  unsigned k = 0; int i = 0; elem e[OCC]; unsigned n = 0, q = 0; (void)k;
  pb_cursor_t c = pb_cursor_create_without_tag(h);
  int more = pb_cursor_valid(&c);
  for (i = 0; i < m->n; i++) { rec *r = m->r[i]; const pb_field_descriptor_t *f = field_of(r->tag);
    if (!f) continue;
    n = occurrences(m, r->tag, e, OCC);
    for (q = 0; q < n; q++) if (e[q].r == r) {
      CK("C13", more, "a cursor over all fields visits each occurrence"); REQUIRE(more);
      const pb_offset_t *o = pb_cursor_offset(&c); size_t s = r->pos + e[q].off;
      CK("C13", pb_cursor_tag(&c) == f->tag && o->start == s && o->end == s + (r->sub ? size_of(r->sub) : e[q].n), "in the order of the wire");
      more = pb_cursor_next(&c); } }
  CK("C13", !more && pb_cursor_error(&c) == PB_ERROR_EOM, "and nothing else"); pb_cursor_destroy(&c);
  const pb_oneof_descriptor_t *os[] = { &one, &two };
  for (int x = 0; x < 2; x++) { pb_oneof_t o = pb_oneof_create(os[x], h);
    CK("C14", pb_oneof_case(&o) == active(m, os[x]), "the case of a oneof is its visible member"); pb_oneof_destroy(&o); } }
static void read_nested(pb_message_t *h, msg *m) {
  pb_tag_t t[3] = { RN(4) ? 5 : 11, RN(4) ? 5 : 11, 0 }; size_t n = 2 + RN(2); const pb_field_descriptor_t *f;
  do f = any_scalar(); while (f->label == PB_LABEL_REPEATED); t[n - 1] = f->tag;
  msg *x = m; elem e;
  for (size_t i = 0; i + 1 < n && x; i++) x = visible(x, field_of(t[i]), &e) ? e.r->sub : NULL;
  any got, keep; memset(&got, 0x5a, sizeof got); keep = got;
  int has = pb_message_nested_has(h, t, n); pb_error_t err = pb_message_nested_get(h, t, n, &got);
  if (!x) { CK("C20", !has && err == PB_ERROR_ABSENT && !memcmp(&got, &keep, sizeof got), "a field of an absent submessage is absent");
    value v = any_value(f); CK("C21 C24", !pb_message_nested_match(h, t, n, &v.v), "a field of an absent submessage matches nothing"); REACH("absent parent"); return; }
  int there = visible(x, f, &e);
  CK("C14 C20", !has == !there, "a nested field is present exactly if it occurs");
  if (there) { CK("C12 C14", !err && stands_for(f, &got, e.r->val.d + e.off, e.n), "reading a nested field yields its visible occurrence");
    CK("C21", pb_message_nested_match(h, t, n, &got), "which matches"); REACH("nested"); }
  else if (default_of(f)) CK("C20", !err && !memcmp(&got, default_of(f), pb_field_descriptor_type_size(f)), "an absent nested field reads as its default");
  else CK("C20", err == PB_ERROR_ABSENT && !memcmp(&got, &keep, sizeof got), "an absent nested field is reported"); }
static void reads(int rounds) {
  bytes b = { 0 }; encode(ROOT, &b); free(b.d);
  for (int i = 0; i < HN; i++) if (!H[i].m->dead && (rounds > 1 || RN(3) == 0)) for (int k = 0; k < rounds; k++) {
    save(); const pb_field_descriptor_t *f = any_field();
    pb_message_t h = pb_message_copy(&H[i].h);
    if (f->type != PB_TYPE_MESSAGE) { if (f->label != PB_LABEL_REPEATED) read_singular(&h, H[i].m, f); read_match(&h, H[i].m, f); }
    read_cursor(&h, H[i].m, f); if (RN(2)) read_all(&h, H[i].m); read_nested(&h, H[i].m);
    unchanged("C24", "reading changes nothing"); }
  for (int i = 0; i < FN; i++) if (!FH[i].r->dead) { any got; pb_field_t h = pb_field_copy(&FH[i].h); save();
    CK("C10 C12", !pb_field_get(&h, &got) && stands_for(FH[i].f, &got, FH[i].r->val.d, FH[i].r->val.n), "a field handle reads its value");
    CK("C21", pb_field_match(&h, &got), "and matches it"); unchanged("C24", "reading changes nothing"); } }

/* ---- editing ---- */
/* whether an operation was refused, for want of room: then it has no effect */
static int refused(pb_error_t err, int fits) {
  int room = !ZERO && !FAILED; EXHAUSTED = 0; FAILED = 0;
  if (ZERO) CK("C23", !err == !!fits || fits < 0, "without room, exactly what keeps the size is done");
  if (!err || room) return 0;
  CK("C12 C15 C23", same(), "a refused operation changes nothing"); REACH("refused"); return 1; }
/* a record of field f is added: anywhere */
static int added(msg *m, rec *r) {
  for (int at = m->n; at >= 0; at--) { insert_rec(m, r, at); if (matches(m)) return 1;
    memmove(&m->r[at], &m->r[at + 1], (m->n - at - 1) * sizeof *m->r); m->n--; }
  return 0; }

/* Members of a oneof other than the one put are removed; those encoded before
 * it are hidden by it, so they may also stay. */
typedef struct { msg m; rec r[64]; } saved;
static void keep_model(saved *k, msg *m) { k->m = *m; for (int i = 0; i < m->n; i++) k->r[i] = *m->r[i]; }
static void undo_model(saved *k, msg *m) { *m = k->m; for (int i = 0; i < m->n; i++) { *m->r[i] = k->r[i]; if (m->r[i]->sub) kill_msg(m->r[i]->sub, 0); } }
static int erase_hidden(msg *m, const pb_field_descriptor_t *f, int stay) {   /* all but the first ones; returns how many there are */
  elem o[OCC]; int n = 0; elem e[OCC];
  if (!oneof_of(f)) return 0;
  for (int i = 0; i < m->n; i++) { const pb_field_descriptor_t *g = field_of(m->r[i]->tag);
    if (!g || g == f || oneof_of(g) != oneof_of(f)) continue;
    unsigned k = occurrences(m, g->tag, e, OCC); for (unsigned q = 0; q < k && n < OCC; q++) if (e[q].r == m->r[i]) o[n++] = e[q]; }
  for (int i = n; i-- > stay; ) erase_elem(m, o[i]);
  return n; }

/* what putting a value does */
static rec *put_model(msg *m, const pb_field_descriptor_t *f, const uint8_t *d, size_t n, int *ok) {
  elem e[OCC]; saved k0; keep_model(&k0, m); *ok = 0;
  for (int stay = 0, some = 0; stay <= some; stay++) {
    if (stay) undo_model(&k0, m);
    some = erase_hidden(m, f, stay);
    unsigned k = occurrences(m, f->tag, e, OCC);
    if (k && f->label != PB_LABEL_REPEATED) { elem x = e[k - 1]; splice(x.r, x.off, x.n, d, n); if ((*ok = matches(m))) return x.r->wt == w_wiretype(f->type) ? x.r : NULL; continue; }
    if (f->flags & PB_FLAG_PACKED) {
      if (k && e[k - 1].r->wt == 2) { rec *r = e[k - 1].r; splice(r, r->val.n, 0, d, n); if (matches(m)) { *ok = 1; REACH("appended"); return NULL; } splice(r, r->val.n - n, n, NULL, 0); }
      rec *r = new_rec(f->tag, 2); put(&r->val, d, n); *ok = added(m, r); return NULL; }
    rec *r = new_rec(f->tag, w_wiretype(f->type)); put(&r->val, d, n); if ((*ok = added(m, r))) return r; }
  return NULL; }
static int in_place(msg *m, const pb_field_descriptor_t *f, size_t n) {
  elem e[OCC]; unsigned k = occurrences(m, f->tag, e, OCC);
  if (oneof_of(f)) for (size_t i = 0; i < NF; i++) if (oneof_of(&F[i]) == oneof_of(f) && &F[i] != f && occurrences(m, F[i].tag, e, OCC)) return active(m, oneof_of(f)) == f->tag ? -1 : 0;
  k = occurrences(m, f->tag, e, OCC);
  return f->label != PB_LABEL_REPEATED && k && e[k - 1].n == n; }

static void op_put(pb_message_t *h, msg *m) {
  if (getenv("VF_SHOW")) { bytes b = { 0 }; encode(ROOT, &b); show("before: ", b.d, b.n); fprintf(stderr, "put in %zu..%zu flags %d\n", m->start, m->end, gen_flags); }
  const pb_field_descriptor_t *f = any_scalar(); value x = any_value(f);
  int fits = in_place(m, f, x.n), ok = 0; pb_error_t err; pb_field_t fld; int keep = 0;
  if (RN(3)) err = pb_message_put(h, f->tag, &x.v);
  else {
    fld = RN(2) || ZERO || EXHAUSTED ? pb_field_create_without_default(h, f->tag) : pb_field_create(h, f->tag);
    err = pb_field_valid(&fld) ? pb_field_put(&fld, &x.v) : PB_ERROR_ALLOC; keep = !err; }
  if (refused(err, fits)) return;
  CK("C12 C14", !err, "putting a value succeeds");
  rec *r = put_model(m, f, enc_of(&x), x.n, &ok);
  CK("C11 C12 C14", ok, "putting a value changes its field, the enclosing length prefixes and nothing else");
  if (keep && r && FN < 60) FH[FN++] = (fh){ fld, r, f };
  if (!oneof_of(f) || 1) { if (f->label != PB_LABEL_REPEATED) { any got; CK("C12 C14", !pb_message_get(h, f->tag, &got) && stands_for(f, &got, enc_of(&x), x.n), "what was put is what is read"); }
    CK("C12 C21", pb_message_match(h, f->tag, &x.v), "what was put matches"); }
  REACH("put"); }
static void op_create(pb_message_t *h, msg *m) {              /* a field with its default */
  const pb_field_descriptor_t *f = any_scalar(); elem e[OCC]; int ok = 0;
  if (ZERO || EXHAUSTED) return;
  if (oneof_of(f)) return;
  unsigned k = occurrences(m, f->tag, e, OCC); value x; memset(&x, 0, sizeof x);
  if (w_wiretype(f->type) == 2 && (!f->value || f->type == PB_TYPE_BYTES)) return;
  pb_field_t fld = pb_field_create(h, f->tag);
  CK("C12", pb_field_valid(&fld), "a field can be created");
  if (k && f->label != PB_LABEL_REPEATED && e[k - 1].n) { CK("C12", same(), "creating a field that is there changes nothing"); return; }
  const uint8_t *d; size_t n;
  if (f->type == PB_TYPE_STRING) { d = def_str.data; n = def_str.size; }
  else { static const value zero; uint64_t u = 0; if (f->value) memcpy(&u, f->value, pb_field_descriptor_type_size(f)); (void)zero;
    if (w_wiretype(f->type) == 0) { n = f->type == PB_TYPE_SINT32 ? varint(x.enc, (uint32_t)((int32_t)u << 1) ^ (uint32_t)((int32_t)u >> 31)) : varint(x.enc, u); }
    else { n = w_native(f->type); memcpy(x.enc, &u, n); } d = x.enc; }
  rec *r = put_model(m, f, d, n, &ok);
  CK("C12", ok, "a created field has its default");
  if (r && FN < 60) FH[FN++] = (fh){ fld, r, f }; REACH("created"); }
static void op_within(pb_message_t *h, msg *m) {
  if (getenv("VF_SHOW")) { bytes b = { 0 }; encode(ROOT, &b); show("before: ", b.d, b.n); fprintf(stderr, "within in %zu..%zu flags %d\n", m->start, m->end, gen_flags); }
  pb_tag_t path[3]; size_t n = RN(4) ? 1 : 2; path[0] = (uint32_t[]){ 5, 6, 11 }[RN(3)]; path[1] = (uint32_t[]){ 5, 6, 11 }[RN(3)];
  if (n == 2 && path[0] == 6) path[0] = 5;
  if (getenv("VF_SHOW")) fprintf(stderr, "path %u %u (%zu)\n", path[0], path[1], n);
  pb_message_t s = n == 1 && RN(2) ? pb_message_create_within(h, path[0]) : pb_message_create_nested(h, path, n);
  if (refused(pb_message_valid(&s) ? PB_ERROR_NONE : PB_ERROR_ALLOC, -1)) return;
  CK("C12", pb_message_valid(&s), "a submessage can be created");
  saved k0, k1; msg *x = m, *second = NULL; int ok = 0; elem e[OCC]; keep_model(&k0, m);
  int some[2] = { 0, 0 }, stay[2];
  for (stay[0] = 0; stay[0] <= some[0] && !ok; stay[0]++) for (stay[1] = 0; stay[1] <= some[1] && !ok; stay[1]++) {
    if (stay[0] || stay[1]) { if (second) undo_model(&k1, second); undo_model(&k0, m); }
    rec *top = NULL; msg *in = NULL; x = m;
    for (size_t i = 0; i < n; i++) { const pb_field_descriptor_t *f = field_of(path[i]);
      if (i && !top && !second) { second = x; keep_model(&k1, x); }
      some[i] = erase_hidden(x, f, stay[i]);
      unsigned k = occurrences(x, path[i], e, OCC);
      if (k && f->label != PB_LABEL_REPEATED) { x = e[k - 1].r->sub; continue; }
      rec *r = new_rec(path[i], 2); r->sub = calloc(1, sizeof(msg));
      if (top) insert_rec(x, r, 0); else { top = r; in = x; }
      x = r->sub; }
    ok = top ? added(in, top) : matches(x); }
  CK("C11 C12 C14", ok, "creating a submessage adds it, adjusts the enclosing length prefixes and changes nothing else");
  if (HN < 60) H[HN++] = (mh){ s, x }; REACH("within"); }
static void op_put_message(pb_message_t *h, msg *m) {
  const pb_field_descriptor_t *f = field_of((uint32_t[]){ 5, 6, 11 }[RN(3)]); msg *sub; bytes b = { 0 };
  if (getenv("VF_SHOW")) { bytes b = { 0 }; encode(ROOT, &b); show("before: ", b.d, b.n); fprintf(stderr, "put message %u in %zu..%zu flags %d\n", f->tag, m->start, m->end, gen_flags); }
  do { sub = gen(2); } while (!size_of(sub));
  encode(sub, &b); pb_journal_t o = pb_journal_create_zero_copy(b.d, b.n); pb_message_t src = pb_message_create(&D, &o);
  elem e[OCC]; unsigned k = occurrences(m, f->tag, e, OCC); int others = 0; elem y[OCC];
  if (oneof_of(f)) for (size_t q = 0; q < NF; q++) if (oneof_of(&F[q]) == oneof_of(f) && &F[q] != f && occurrences(m, F[q].tag, y, OCC)) others = 1;
  int fits = !others && k && f->label != PB_LABEL_REPEATED && size_of(e[k - 1].r->sub) == b.n;
  pb_error_t err = pb_message_put(h, f->tag, &src); pb_message_destroy(&src); pb_journal_destroy(&o);
  if (refused(err, fits)) return;
  CK("C12", !err, "putting a submessage succeeds");
  saved k0; int ok = 0; keep_model(&k0, m);
  for (int stay = 0, some = 0; stay <= some && !ok; stay++) {
    if (stay) undo_model(&k0, m);
    some = erase_hidden(m, f, stay);
    k = occurrences(m, f->tag, e, OCC);
    if (k && f->label != PB_LABEL_REPEATED) { rec *r = e[k - 1].r; msg *t = r->sub, was = *t;
      memcpy(t->r, sub->r, sizeof t->r); t->n = sub->n; ok = matches(m);
      if (!ok && (gen_flags & G_LENGTHS)) { r->ln = 0; ok = matches(m); }
      if (!ok) *t = was;
      else for (int i = 0; i < was.n; i++) { was.r[i]->dead = 2; if (was.r[i]->sub) kill_msg(was.r[i]->sub, 2); } }
    else { rec *r = new_rec(f->tag, 2); r->sub = sub; ok = added(m, r); } }
  CK("C11 C12 C14", ok, "putting a submessage copies its bytes, adjusts the enclosing length prefixes and changes nothing else"); REACH("put message"); }
static void op_erase(pb_message_t *h, msg *m) {
  const pb_field_descriptor_t *f = any_field(); elem e[OCC];
  if (RN(2) && m->n) { const pb_field_descriptor_t *g = field_of(m->r[RN(m->n)]->tag); if (g) f = g; }
  unsigned k = occurrences(m, f->tag, e, OCC);
  if (oneof_of(f)) for (size_t i = 0; i < NF; i++) if (oneof_of(&F[i]) == oneof_of(f)) k += occurrences(m, F[i].tag, e, OCC);
  pb_error_t err;
  if (oneof_of(f) && RN(2)) { pb_oneof_t o = pb_oneof_create(oneof_of(f), h); err = pb_oneof_clear(&o); pb_oneof_destroy(&o); }
  else err = pb_message_erase(h, f->tag);
  if (refused(err, !k)) return;
  CK("C15", !err, "erasing succeeds");
  if (oneof_of(f)) erase_others(m, oneof_of(f), 0); else erase_all(m, f->tag);
  CK("C11 C15", matches(m), "erasing removes every occurrence, adjusts the enclosing length prefixes and changes nothing else");
  CK("C15", !pb_message_has(h, f->tag), "what was erased is absent");
  save(); CK("C15", !pb_message_erase(h, f->tag), "erasing again succeeds"); unchanged("C15", "and changes nothing");
  if (k) REACH("erased"); }
static void op_clear(mh *x) {                              /* a submessage clears itself */
  if (x->m == ROOT) return;
  msg *m = x->m; rec *r = NULL; msg *in = NULL; msg *stack[256]; int sp = 0; stack[sp++] = ROOT;
  while (sp) { msg *s = stack[--sp]; for (int i = 0; i < s->n; i++) if (s->r[i]->sub) { if (s->r[i]->sub == m) { r = s->r[i]; in = s; } if (sp < 250) stack[sp++] = s->r[i]->sub; } }
  if (!r) return;
  pb_message_t h = pb_message_copy(&x->h); pb_error_t err = pb_message_clear(&h);
  if (refused(err, 0)) return;
  x->h = h; CK("C15", !err, "clearing a submessage succeeds");
  remove_rec(in, r);
  CK("C11 C15", matches(in), "clearing a submessage removes it, adjusts the enclosing length prefixes and changes nothing else"); REACH("cleared"); }
static void op_field(void) {                                /* through a field handle kept from before */
  if (!FN) return; fh *x = &FH[RN(FN)]; rec *r = x->r;
  if (r->dead == 2) return;
  value v = any_value(x->f);
  if (r->dead) { pb_field_t bf = pb_field_copy(&x->h); save(); CK("C25 C10", pb_field_put(&x->h, &v.v), "putting to an erased field is refused"); any g; CK("C25 C10", pb_field_get(&x->h, &g), "reading an erased field is refused"); CK("C25 C10", !pb_field_match(&x->h, &v.v), "an erased field matches nothing");
    CK("C25 C10", pb_field_clear(&x->h), "clearing an erased field is refused");
    pb_field_descriptor_t as = *x->f; *(pb_type_t *)&as.type = PB_TYPE_BYTES; bf.descriptor = &as;
    pb_message_t sm = pb_message_create_from_field(&D, &bf); CK("C25 C10", !pb_message_valid(&sm), "an erased field holds no message"); pb_message_destroy(&sm); unchanged("C25", "and changes nothing"); REACH("dead field"); return; }
  msg *in = NULL; msg *stack[256]; int sp = 0; stack[sp++] = ROOT;
  while (sp) { msg *s = stack[--sp]; for (int i = 0; i < s->n; i++) { if (s->r[i] == r) in = s; if (s->r[i]->sub && sp < 250) stack[sp++] = s->r[i]->sub; } }
  if (!in) return;
  if (RN(3)) { pb_error_t err = pb_field_put(&x->h, &v.v);
    if (refused(err, v.n == r->val.n)) return;
    CK("C12", !err, "putting through a handle succeeds"); splice(r, 0, r->val.n, enc_of(&v), v.n); CK("C11 C12 C14", matches(in), "putting through a handle changes its field, the length prefixes and nothing else"); REACH("field put"); }
  else { pb_error_t err = pb_field_clear(&x->h);
    if (refused(err, 0)) return;
    CK("C15", !err, "clearing through a handle succeeds"); remove_rec(in, r); CK("C11 C15", matches(in), "clearing through a handle removes its field, adjusts the length prefixes and changes nothing else"); REACH("field cleared"); } }
static void op_oneof(void) {                                /* through a oneof kept from before */
  if (!ON) return; oh *x = &OH[RN(ON)]; msg *m = x->m; elem e[OCC]; unsigned k = 0;
  if (m->dead == 2) return;
  if (m->dead) { save(); CK("C25 C10", !pb_oneof_case(&x->h), "an erased message has no oneof"); pb_oneof_clear(&x->h); pb_oneof_clear(&x->h); unchanged("C25 C10", "and clearing it changes nothing"); return; }
  if (RN(2)) { CK("C14", pb_oneof_case(&x->h) == active(m, x->o), "the case of a oneof is its visible member, however old the handle"); return; }
  for (size_t i = 0; i < NF; i++) if (oneof_of(&F[i]) == x->o) k += occurrences(m, F[i].tag, e, OCC);
  pb_error_t err = pb_oneof_clear(&x->h);
  if (refused(err, !k)) return;
  CK("C15", !err, "clearing a oneof succeeds"); erase_others(m, x->o, 0);
  CK("C11 C15", matches(m), "clearing a oneof removes every member, however old the handle, and nothing else");
  CK("C14 C15", !pb_oneof_case(&x->h), "a cleared oneof has no case"); REACH("oneof"); }
static void gone(pb_cursor_t *c, const pb_field_descriptor_t *f, int times) {   /* a cursor on what was erased */
  any g; value v; memset(&v, 0, sizeof v); if (f->type != PB_TYPE_MESSAGE) v = any_value(f);
  save();
  while (times--) switch (RN(5)) {
    case 0: if (f->type != PB_TYPE_MESSAGE) CK("C25 C10", pb_cursor_get(c, &g), "reading at a cursor on what was erased is refused"); break;
    case 1: if (f->type != PB_TYPE_MESSAGE) CK("C25 C10", !pb_cursor_match(c, &v.v), "a cursor on what was erased matches nothing"); break;
    case 2: if (f->type != PB_TYPE_MESSAGE) CK("C25 C10", pb_cursor_put(c, &v.v), "putting at a cursor on what was erased is refused"); break;
    case 3: CK("C25 C10", pb_cursor_erase(c), "erasing at a cursor on what was erased is refused"); break;
    default: if (f->type == PB_TYPE_MESSAGE) { pb_message_t s = pb_message_create_from_cursor(c); CK("C25 C10", !pb_message_valid(&s), "a cursor on what was erased holds no message"); }
      else { pb_field_t s = pb_field_create_from_cursor(c); CK("C25 C10", !pb_field_valid(&s), "a cursor on what was erased holds no field"); } }
  unchanged("C25 C10", "and changes nothing"); }
static void op_cursor(void) {                               /* through a cursor kept from before */
  if (!CN) return; ch *x = &CH[RN(CN)]; rec *r = x->r; msg *m = x->m; elem e[OCC]; const pb_field_descriptor_t *f = x->f;
  if (r->dead == 2 || m->dead == 2) { *x = CH[--CN]; return; }
  if (m->dead || r->dead) { gone(&x->h, f, 3);
    if (m->dead) { pb_cursor_rewind(&x->h); CK("C25 C10", !pb_cursor_valid(&x->h), "an erased message has nothing to visit"); }
    *x = CH[--CN]; REACH("dead cursor"); return; }
  unsigned n = occurrences(m, f->tag, e, OCC), k = 0;
  while (k < n && e[k].r != r) k++;
  REQUIRE(k < n);
  if (f->type != PB_TYPE_MESSAGE && RN(3)) { any got; CK("C10 C12 C13", !pb_cursor_get(&x->h, &got) && stands_for(f, &got, r->val.d, r->val.n), "a cursor still reads what it is on"); }
  else if (f->type == PB_TYPE_MESSAGE && HN < 60) { pb_message_t s = pb_message_create_from_cursor(&x->h); CK("C10 C13", pb_message_valid(&s), "a cursor still is on its submessage"); H[HN++] = (mh){ s, r->sub }; }
  switch (RN(5)) {
    case 0: case 1:
      if (k + 1 < n) { CK("C13", pb_cursor_next(&x->h), "a cursor goes on to the next occurrence");
        bytes b = { 0 }; encode(ROOT, &b); free(b.d); const pb_offset_t *o = pb_cursor_offset(&x->h); elem y = e[k + 1];
        CK("C13 C10", o->start == y.r->pos + y.off && o->end == o->start + (y.r->sub ? size_of(y.r->sub) : y.n), "however the message has changed in between");
        if (y.r->wt == w_wiretype(f->type)) x->r = y.r; else *x = CH[--CN]; REACH("went on"); }
      else { CK("C13", !pb_cursor_next(&x->h), "a cursor ends after the last occurrence"); *x = CH[--CN]; }
      break;
    case 2: { int there = pb_cursor_rewind(&x->h);
      CK("C13", there, "a cursor can be rewound, however the message has changed"); REQUIRE(there);
      bytes b = { 0 }; encode(ROOT, &b); free(b.d); const pb_offset_t *o = pb_cursor_offset(&x->h); elem y = e[0];
      CK("C13 C10", o->start == y.r->pos + y.off && o->end == o->start + (y.r->sub ? size_of(y.r->sub) : y.n), "to the first occurrence");
      if (y.r->wt == w_wiretype(f->type)) x->r = y.r; else *x = CH[--CN]; REACH("rewound"); break; }
    case 3: if (f->type != PB_TYPE_MESSAGE) { value v = any_value(f); pb_error_t err = pb_cursor_put(&x->h, &v.v);
      if (refused(err, v.n == r->val.n)) return;
      CK("C11 C12 C14", !err, "putting at a cursor kept from before succeeds"); splice(r, 0, r->val.n, enc_of(&v), v.n);
      CK("C11 C12 C14", matches(m), "and changes what it is on, the length prefixes and nothing else"); REACH("kept put"); } break;
    default: { pb_error_t err = pb_cursor_erase(&x->h);
      if (refused(err, 0)) return;
      CK("C13 C15", !err, "erasing at a cursor kept from before succeeds"); remove_rec(m, r);
      CK("C13 C15", matches(m), "and removes what it is on, adjusts the length prefixes and changes nothing else"); *x = CH[--CN]; REACH("kept erase"); } } }
static void op_walk(pb_message_t *h, msg *m) {              /* edits while a cursor visits */
  const pb_field_descriptor_t *f = any_field(); elem e[OCC];
  if (m->n && RN(4)) { const pb_field_descriptor_t *g = field_of(m->r[RN(m->n)]->tag); if (g) f = g; }
  unsigned n = occurrences(m, f->tag, e, OCC), k = 0, seen = 0, first = f->label == PB_LABEL_REPEATED ? RN(2) : 0;
  pb_cursor_t c = first ? pb_cursor_create(h, f->tag) : pb_cursor_create_unsafe(h, f->tag);
  int how = RN(4);
  if (pb_cursor_valid(&c)) do {
    CK("C13", seen < n, "a cursor visits no occurrence twice"); REQUIRE(seen < n);
    occurrences(m, f->tag, e, OCC); elem x = e[k]; seen++;
    if (f->type != PB_TYPE_MESSAGE) { any got; CK("C13 C12", !pb_cursor_get(&c, &got) && stands_for(f, &got, x.r->val.d + x.off, x.n), "a cursor reads each occurrence in order, while they are edited"); }
    int act = how == 0 ? RN(3) : how == 1 ? 2 : how == 2 ? 1 : RN(2) ? 0 : 2;
    if (act == 1 && f->type != PB_TYPE_MESSAGE) { value v = any_value(f); pb_error_t err = pb_cursor_put(&c, &v.v);
      if (refused(err, v.n == x.n)) { k++; continue; }
      CK("C11 C12 C14", !err, "putting at a cursor succeeds"); splice(x.r, x.off, x.n, enc_of(&v), v.n);
      CK("C11 C12 C14", matches(m), "putting at a cursor changes what it visits, the length prefixes and nothing else"); k++; REACH("cursor put"); }
    else if (act == 2) { pb_error_t err = pb_cursor_erase(&c);
      if (refused(err, 0)) { k++; continue; }
      CK("C13", !err, "erasing at a cursor succeeds"); erase_elem(m, x);
      CK("C13", matches(m), "erasing at a cursor removes what it visits, adjusts the length prefixes and changes nothing else"); if (RN(2)) gone(&c, f, 1 + RN(3)); REACH("cursor erase"); }
    else {
      if (f->type == PB_TYPE_MESSAGE && HN < 60 && RN(2)) { pb_message_t s = pb_message_create_from_cursor(&c); CK("C13", pb_message_valid(&s), "a submessage can be taken from a cursor"); H[HN++] = (mh){ s, x.r->sub }; }
      if (f->type != PB_TYPE_MESSAGE && FN < 60 && x.r->wt == w_wiretype(f->type) && RN(2)) { pb_field_t s = pb_field_create_from_cursor(&c); CK("C13", pb_field_valid(&s), "a field can be taken from a cursor"); FH[FN++] = (fh){ s, x.r, f }; }
      k++; }
  } while (pb_cursor_next(&c));
  CK("C13", seen == n, "a cursor visits every occurrence, while they are edited");
  if (RN(2)) { unsigned left = occurrences(m, f->tag, e, OCC); int there = pb_cursor_rewind(&c);
    CK("C13", !there == !left, "after the edits, a cursor can be rewound exactly if something is left");
    if (there && left) { bytes b = { 0 }; encode(ROOT, &b); free(b.d); const pb_offset_t *o = pb_cursor_offset(&c);
      CK("C13", o->start == e[0].r->pos + e[0].off && o->end == o->start + (e[0].r->sub ? size_of(e[0].r->sub) : e[0].n), "to the first that is left"); } }
  pb_cursor_destroy(&c); }
static void op_nested(pb_message_t *h, msg *m) {
  pb_tag_t t[3] = { 5, 5, 0 }; size_t n = 2 + RN(2); const pb_field_descriptor_t *f = any_scalar(); t[n - 1] = f->tag;
  msg *x = m; elem e; size_t d = 0;
  for (; d + 1 < n; d++) { if (!visible(x, field_of(5), &e)) break; x = e.r->sub; }
  if (RN(2)) {
    value v = any_value(f); int fits = d + 1 == n ? in_place(x, f, v.n) : 0; pb_error_t err = pb_message_nested_put(h, t, n, &v.v);
    if (refused(err, fits)) return;
    CK("C12", !err, "putting a nested value succeeds");
    if (d + 1 == n) { int ok; put_model(x, f, enc_of(&v), v.n, &ok); CK("C11 C12 C14", ok, "putting a nested value changes its field, the enclosing length prefixes and nothing else"); }
    else { rec *top = new_rec(5, 2), *r = top; r->sub = calloc(1, sizeof(msg));
      for (size_t q = d + 1; q + 1 < n; q++) { rec *y = new_rec(5, 2); y->sub = calloc(1, sizeof(msg)); insert_rec(r->sub, y, 0); r = y; }
      rec *y = new_rec(f->tag, f->flags & PB_FLAG_PACKED ? 2 : w_wiretype(f->type)); put(&y->val, enc_of(&v), v.n); insert_rec(r->sub, y, 0);
      CK("C11 C12 C14", added(x, top), "putting a nested value creates the messages around it and changes nothing else"); }
    REACH("nested put");
  } else {
    pb_error_t err = pb_message_nested_erase(h, t, n);
    if (refused(err, -1)) return;
    if (d + 1 < n) { CK("C15", same(), "erasing in an absent message changes nothing"); return; }
    CK("C15", !err, "erasing a nested field succeeds"); if (oneof_of(f)) erase_others(x, oneof_of(f), 0); else erase_all(x, f->tag);
    CK("C11 C15", matches(x), "erasing a nested field removes it, adjusts the length prefixes and changes nothing else"); REACH("nested erase"); } }
static void op_dead(mh *x) {
  const pb_field_descriptor_t *f = any_scalar(); value v = any_value(f); any g; save();
  pb_message_t h = pb_message_copy(&x->h);
  CK("C25 C10", pb_message_put(&h, f->tag, &v.v), "putting to an erased message is refused");
  if (f->label != PB_LABEL_REPEATED) { h = pb_message_copy(&x->h); CK("C25 C10", pb_message_get(&h, f->tag, &g), "reading from an erased message is refused"); }
  h = pb_message_copy(&x->h); CK("C25 C10", !pb_message_has(&h, f->tag) && !pb_message_match(&h, f->tag, &v.v), "an erased message has no fields");
  h = pb_message_copy(&x->h); CK("C25 C10", pb_message_clear(&h), "clearing an erased message is refused");
  h = pb_message_copy(&x->h); pb_message_t s = pb_message_create_within(&h, 5); CK("C25 C10", !pb_message_valid(&s), "an erased message has no submessages");
  h = pb_message_copy(&x->h); pb_cursor_t c = pb_cursor_create(&h, f->tag); CK("C25 C10", !pb_cursor_valid(&c), "an erased message has no cursor");
  h = pb_message_copy(&x->h); pb_field_t q = pb_field_create_without_default(&h, f->tag); CK("C25 C10", !pb_field_valid(&q), "an erased message has no new fields");
  h = pb_message_copy(&x->h); pb_oneof_t o = pb_oneof_create(&one, &h); CK("C25 C10", pb_oneof_case(&o) == 0, "an erased message has no oneofs");
  unchanged("C25", "and nothing changes"); REACH("dead"); }

static uint8_t *exact;                                    /* zero copy: the caller's memory */
static void begin(void) {
  count(); ALLOCS = 0;
  bytes b = { 0 }; ROOT = gen(0); encode(ROOT, &b);
  if (ZERO) { while (!b.n) { ROOT = gen(0); encode(ROOT, &b); } exact = malloc(b.n); memcpy(exact, b.d, b.n); J = pb_journal_create_zero_copy(exact, b.n); }
  else J = b.n ? pb_journal_create(b.d, b.n) : pb_journal_create_empty();
  REQUIRE(pb_journal_valid(&J)); free(b.d);
  HN = FN = CN = ON = 0; H[HN++] = (mh){ pb_message_create(&D, &J), ROOT }; }
static void finish(void) {
  if (ZERO) { CK("C23", pb_journal_data(&J) == exact, "zero-copy journals stay where they are"); CK("C23", !ALLOCS, "zero-copy journals never allocate"); pb_journal_destroy(&J); uint8_t x = exact[0]; (void)x; free(exact); }
  else pb_journal_destroy(&J); }
static void descend(mh *x) {                               /* a handle to an existing submessage */
  elem e[OCC]; uint32_t t = (uint32_t[]){ 5, 6, 11 }[RN(3)]; unsigned n = occurrences(x->m, t, e, OCC);
  if (!n || HN >= 60) return;
  if (t != 6) { if (!visible(x->m, field_of(t), &e[0])) return; n = 1; }
  unsigned k = RN(n); pb_cursor_t c = pb_cursor_create(&x->h, t);
  for (unsigned i = 0; i < k; i++) CK("C13", pb_cursor_next(&c), "a cursor visits every submessage");
  pb_message_t s = pb_message_create_from_cursor(&c); pb_cursor_destroy(&c);
  CK("C13", pb_message_valid(&s), "a submessage can be taken from a cursor");
  H[HN++] = (mh){ s, e[k].r->sub }; }

static void seed(void) { S = vf_u64() * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull; if (!S) S = 1; R(); R(); }
static void flags(void) { static const int fl[] = { 0, G_DUPLICATE, G_UNSORTED, G_UNSORTED | G_DUPLICATE, G_MIXED, 31, 31, G_MIXED | G_FOREIGN, G_LENGTHS };
  gen_flags = fl[RN(sizeof fl / sizeof *fl)]; big = RN(3) == 0 ? 116 : RN(8) == 0 ? 16372 : RN(24) == 0 ? 65528 : 0; }

/* reading well-formed messages */
void h_reads(void) {
  seed();
  for (int it = 0; it < 60; it++) { flags(); ZERO = RN(2); if (setjmp(OUT)) continue;
    begin();
    for (int k = RN(5); k--; ) descend(&H[RN(HN)]);
    size_t a = ALLOCS; reads(12); CK("C24 C23", ALLOCS == a, "reading does not allocate"); finish(); } }

/* histories of edits */
void h_edits(void) {
  seed();
  for (int it = 0; it < 20; it++) { flags(); ZERO = MODE == 1; EXHAUSTED = FAILED = 0; if (setjmp(OUT)) continue;
    begin();
    for (int k = RN(4); k--; ) descend(&H[RN(HN)]);
    for (int k = RN(4); k--; ) { mh *x = &H[RN(HN)]; op_keep(&x->h, x->m); }
    int n = 1 + RN(7);
    for (STEPS = 0; STEPS < (size_t)n; STEPS++) {
      mh *x = &H[RN(HN)]; if (RN(3) == 0) x = &H[HN - 1];
      if (x->m->dead == 2) continue;
      if (x->m->dead) { op_dead(x); op_cursor(); op_oneof(); continue; }
      pb_message_t c = pb_message_copy(&x->h); pb_message_t *h = RN(2) ? &x->h : &c;   /* stale handles, too */
      EXHAUSTED = MODE == 2 && RN(3) == 0; FAILED = 0;
      switch (RN(15)) {
        case 12: op_cursor(); break;
        case 13: op_oneof(); break;
        case 14: op_keep(h, x->m); break;
        case 0: case 1: case 2: op_put(h, x->m); break;
        case 3: op_within(h, x->m); break;
        case 4: op_put_message(h, x->m); break;
        case 5: op_erase(h, x->m); break;
        case 6: op_clear(x); break;
        case 7: op_field(); break;
        case 8: case 9: op_walk(h, x->m); break;
        case 10: op_nested(h, x->m); break;
        default: if (RN(3) == 0) op_create(h, x->m); else descend(x); }
      EXHAUSTED = FAILED = 0;
      handles();
      if (RN(3) == 0) reads(1); }
    reads(1); finish(); } }
