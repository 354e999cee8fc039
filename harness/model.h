/* An abstract model of messages for the executable contracts of the message
 * interface (harness/message.c): a message is its list of records; every
 * operation is specified by its effect on that list. */
#ifndef MODEL_H
#define MODEL_H
#include "vf.h"
#include "wire.h"
#include "core/descriptor.h"
#include <protobluff/core.h>
#include <protobluff/message.h>
#include "message/cursor.h"
#include "message/field.h"
#include "message/journal.h"
#include "message/message.h"
#include "message/oneof.h"
#include "message/part.h"

static uint64_t S;
static uint32_t R(void) { S ^= S << 13; S ^= S >> 7; S ^= S << 17; return (uint32_t)(S >> 16); }
static uint32_t RN(uint32_t n) { return R() % n; }

/* ---- schema: a message nesting itself, every kind of field ---- */
extern pb_descriptor_t D;
static const pb_enum_value_descriptor_t evs[] = { { -2, "a" }, { 0, "b" }, { 5, "c" } };
static const pb_enum_descriptor_t E = { { evs, 3 } };
static const size_t one_idx[] = { 6, 7, 10 }, two_idx[] = { 14, 15 };
static const pb_oneof_descriptor_t one = { &D, { one_idx, 3 } }, two = { &D, { two_idx, 2 } };
static const int32_t def_i32 = -7; static const uint8_t def_bool = 1; static const pb_string_t def_str = { (uint8_t *)"default", 7 };
static const double def_dbl = 2.5; static const uint64_t def_f64 = 0x1122334455667788ull;
static const pb_field_descriptor_t F[] = {
  { 1, "a", PB_TYPE_UINT32, PB_LABEL_OPTIONAL, NULL, NULL, 0 }, { 2, "b", PB_TYPE_STRING, PB_LABEL_OPTIONAL, NULL, NULL, 0 },
  { 3, "c", PB_TYPE_UINT32, PB_LABEL_REPEATED, NULL, NULL, 0 }, { 4, "d", PB_TYPE_UINT32, PB_LABEL_REPEATED, NULL, NULL, PB_FLAG_PACKED },
  { 5, "e", PB_TYPE_MESSAGE, PB_LABEL_OPTIONAL, &D, NULL, 0 }, { 6, "f", PB_TYPE_MESSAGE, PB_LABEL_REPEATED, &D, NULL, 0 },
  { 7, "g", PB_TYPE_UINT32, PB_LABEL_ONEOF, NULL, &one, 0 }, { 8, "h", PB_TYPE_STRING, PB_LABEL_ONEOF, NULL, &one, 0 },
  { 9, "i", PB_TYPE_FIXED64, PB_LABEL_OPTIONAL, NULL, &def_f64, 0 }, { 10, "j", PB_TYPE_STRING, PB_LABEL_REPEATED, NULL, NULL, 0 },
  { 11, "k", PB_TYPE_MESSAGE, PB_LABEL_ONEOF, &D, &one, 0 }, { 12, "l", PB_TYPE_SINT32, PB_LABEL_OPTIONAL, NULL, &def_i32, 0 },
  { 13, "m", PB_TYPE_BOOL, PB_LABEL_OPTIONAL, NULL, &def_bool, 0 }, { 14, "n", PB_TYPE_STRING, PB_LABEL_OPTIONAL, NULL, &def_str, 0 },
  { 15, "o", PB_TYPE_INT64, PB_LABEL_ONEOF, NULL, &two, 0 }, { 16, "p", PB_TYPE_FLOAT, PB_LABEL_ONEOF, NULL, &two, 0 },
  { 17, "q", PB_TYPE_FIXED32, PB_LABEL_REPEATED, NULL, NULL, PB_FLAG_PACKED }, { 18, "r", PB_TYPE_DOUBLE, PB_LABEL_OPTIONAL, NULL, &def_dbl, 0 },
  { 19, "s", PB_TYPE_ENUM, PB_LABEL_OPTIONAL, &E, NULL, 0 }, { 20, "t", PB_TYPE_SINT64, PB_LABEL_REPEATED, NULL, NULL, PB_FLAG_PACKED },
  { 21, "u", PB_TYPE_BYTES, PB_LABEL_OPTIONAL, NULL, NULL, 0 }, { 300, "v", PB_TYPE_UINT32, PB_LABEL_OPTIONAL, NULL, NULL, 0 } };
static const pb_field_descriptor_t FX[] = { { 1000, "x", PB_TYPE_UINT32, PB_LABEL_OPTIONAL, NULL, NULL, 0 } };
static pb_descriptor_t DX = { { FX, 1 }, NULL };
#define NF (sizeof F / sizeof *F)
pb_descriptor_t D = { { F, NF }, &DX };
static const pb_field_descriptor_t *field_of(uint32_t tag) {
  for (size_t i = 0; i < NF; i++) if (F[i].tag == tag) return &F[i];
  return tag == 1000 ? FX : NULL; }
static const pb_field_descriptor_t *any_field(void) { uint32_t i = RN(NF + 1); return i == NF ? FX : &F[i]; }
static const pb_field_descriptor_t *any_scalar(void) { const pb_field_descriptor_t *f; do f = any_field(); while (f->type == PB_TYPE_MESSAGE); return f; }
static const void *oneof_of(const pb_field_descriptor_t *f) { return f && f->label == PB_LABEL_ONEOF ? f->value : NULL; }
static const void *default_of(const pb_field_descriptor_t *f) { return f->label == PB_LABEL_ONEOF ? NULL : f->value; }

/* ---- records ---- */
typedef struct { uint8_t *d; size_t n, cap; } bytes;
static void put(bytes *b, const void *p, size_t n) {
  if (b->n + n > b->cap) { b->cap = 2 * (b->n + n) + 64; b->d = realloc(b->d, b->cap); }
  if (n) memcpy(b->d + b->n, p, n); b->n += n; }
static size_t varint(uint8_t *d, uint64_t v) { size_t n = 0; while (v > 127) { d[n++] = v | 128; v >>= 7; } d[n++] = v; return n; }
static void put_varint(bytes *b, uint64_t v) { uint8_t d[10]; put(b, d, varint(d, v)); }

typedef struct msg msg; typedef struct rec rec;
struct rec {
  uint32_t tag; unsigned wt; bytes val;        /* payload, unless a submessage */
  msg *sub;                                    /* submessage (known message field) */
  uint8_t len[10], klen[10]; size_t ln, lv, kn, kv;              /* its length prefix as encoded, and the length it stands for */
  size_t tagpos, pos, end;                     /* where it is encoded: set by encode() */
  int dead; };
struct msg { rec *r[64]; int n; size_t start, end; int dead; };  /* dead: 1 erased, 2 replaced */

static rec *new_rec(uint32_t tag, unsigned wt) { rec *r = calloc(1, sizeof *r); r->tag = tag; r->wt = wt; return r; }
static size_t size_of(msg *m);
static void prefix(rec *r, size_t n) { if (n != r->lv || !r->ln) { r->ln = varint(r->len, n); r->lv = n; } }
static size_t size_rec(rec *r) {
  uint8_t t[10]; size_t n = r->sub ? size_of(r->sub) : r->val.n, h = varint(t, (uint64_t)r->tag << 3 | r->wt);
  if (r->wt == 2) { prefix(r, n); h += r->ln; }
  return h + n; }
static size_t size_of(msg *m) { size_t n = 0; for (int i = 0; i < m->n; i++) n += size_rec(m->r[i]); return n; }
static void encode(msg *m, bytes *o) {
  m->start = o->n;
  for (int i = 0; i < m->n; i++) { rec *r = m->r[i];
    r->tagpos = o->n; put_varint(o, (uint64_t)r->tag << 3 | r->wt);
    if (r->wt == 2) { prefix(r, r->sub ? size_of(r->sub) : r->val.n); put(o, r->len, r->ln); }
    r->pos = o->n;
    if (r->sub) encode(r->sub, o); else put(o, r->val.d, r->val.n);
    r->end = o->n; }
  m->end = o->n; }

/* ---- values ---- */
typedef struct { rec *r; size_t off, n; } elem;      /* an occurrence: part of the payload of a record */
static unsigned occurrences(msg *m, uint32_t tag, elem *e, unsigned max) {
  const pb_field_descriptor_t *f = field_of(tag); unsigned n = 0;
  if (!f) return 0;
  for (int i = 0; i < m->n; i++) { rec *r = m->r[i];
    if (r->tag != tag) continue;
    if (r->wt == w_wiretype(f->type)) { if (n < max) e[n] = (elem){ r, 0, r->val.n }; n++; }
    else if (r->wt == 2) for (size_t o = 0; o < r->val.n; ) {
      uint64_t v; size_t l = w_scalar(f->type, r->val.d, o, r->val.n, &v); if (!l) abort();
      if (n < max) e[n] = (elem){ r, o, l }; n++; o += l; } }
  return n < max ? n : max; }
#define OCC 256
static rec *parent_rec(msg *m, int i) { return m->r[i]; }
static void splice(rec *r, size_t off, size_t old, const uint8_t *d, size_t n) {
  bytes b = { 0 }; put(&b, r->val.d, off); put(&b, d, n); put(&b, r->val.d + off + old, r->val.n - off - old); r->val = b; }
static void kill_msg(msg *m, int how) { m->dead = how; for (int i = 0; i < m->n; i++) { m->r[i]->dead = how; if (m->r[i]->sub) kill_msg(m->r[i]->sub, how); } }
static void remove_rec(msg *m, rec *r) {
  for (int i = 0; i < m->n; i++) if (m->r[i] == r) { memmove(&m->r[i], &m->r[i + 1], (m->n - i - 1) * sizeof *m->r); m->n--; break; }
  r->dead = 1; if (r->sub) kill_msg(r->sub, 1); }
static void insert_rec(msg *m, rec *r, int at) { if (m->n >= 63) abort(); memmove(&m->r[at + 1], &m->r[at], (m->n - at) * sizeof *m->r); m->r[at] = r; m->n++; }
static void erase_elem(msg *m, elem e) {
  if (e.n == e.r->val.n || e.r->sub) remove_rec(m, e.r); else splice(e.r, e.off, e.n, NULL, 0); }
static void erase_all(msg *m, uint32_t tag) { elem e[OCC]; while (occurrences(m, tag, e, OCC)) erase_elem(m, e[0]); }
static void erase_others(msg *m, const void *o, uint32_t but) { for (size_t i = 0; i < NF; i++) if (oneof_of(&F[i]) == o && F[i].tag != but) erase_all(m, F[i].tag); }
/* the member of a oneof which is last on the wire */
static uint32_t active(msg *m, const void *o) {
  uint32_t t = 0;
  for (int i = 0; i < m->n; i++) { const pb_field_descriptor_t *f = field_of(m->r[i]->tag);
    if (f && oneof_of(f) == o && (m->r[i]->wt == w_wiretype(f->type) || (m->r[i]->wt == 2 && m->r[i]->val.n))) t = f->tag; }
  return t; }
/* the occurrence that is visible when reading a singular field */
static int visible(msg *m, const pb_field_descriptor_t *f, elem *v) {
  elem e[OCC]; unsigned n = occurrences(m, f->tag, e, OCC);
  if (!n || (oneof_of(f) && active(m, oneof_of(f)) != f->tag)) return 0;
  *v = e[n - 1]; return 1; }

/* a native value of field f, and its encoding */
typedef struct { union { uint64_t u; uint32_t w; uint8_t b; double d; float f; pb_string_t s; } v; uint8_t enc[10]; size_t n; const uint8_t *d; } value;
static uint64_t rnd_int(void) {
  switch (RN(6)) { case 0: return RN(4); case 1: return 126 + RN(4); case 2: return 0xffffffffu - RN(3); case 3: return (uint64_t)R() << RN(33); case 4: return ~(uint64_t)RN(300); default: return RN(70000); } }
static size_t big;                                    /* sizes strings prefer */
static value any_value(const pb_field_descriptor_t *f) {
  value x; memset(&x, 0, sizeof x); uint64_t u = rnd_int();
  switch (f->type) {
    case PB_TYPE_STRING: case PB_TYPE_BYTES: {
      size_t n = RN(4) == 0 ? 100 + RN(60) : big && RN(3) == 0 ? big + RN(12) : 1 + RN(6);
      uint8_t *p = malloc(n); for (size_t i = 0; i < n; i++) p[i] = (uint8_t)(RN(4) ? R() : 8 + (R() & 3));
      x.v.s.data = p; x.v.s.size = n; x.d = p; x.n = n; return x; }
    case PB_TYPE_BOOL: x.v.b = u & 1; x.n = varint(x.enc, x.v.b); break;
    case PB_TYPE_ENUM: { x.v.w = (uint32_t)evs[u % 3].number; x.n = varint(x.enc, (uint64_t)(int64_t)(int32_t)x.v.w); break; }
    case PB_TYPE_INT32: x.v.w = (uint32_t)u; x.n = varint(x.enc, (uint64_t)(int64_t)(int32_t)x.v.w); break;
    case PB_TYPE_UINT32: x.v.w = (uint32_t)u; x.n = varint(x.enc, x.v.w); break;
    case PB_TYPE_SINT32: x.v.w = (uint32_t)u; x.n = varint(x.enc, (uint32_t)(x.v.w << 1) ^ (uint32_t)-(int32_t)(x.v.w >> 31)); break;
    case PB_TYPE_SINT64: x.v.u = u; x.n = varint(x.enc, (u << 1) ^ (uint64_t)-(int64_t)(u >> 63)); break;
    case PB_TYPE_INT64: case PB_TYPE_UINT64: x.v.u = u; x.n = varint(x.enc, u); break;
    default: x.v.u = u * 0x9E3779B97F4A7C15ull; x.n = w_native(f->type); memcpy(x.enc, &x.v.u, x.n); }
  x.d = NULL; return x; }
static const uint8_t *enc_of(const value *x) { return x->d ? x->d : x->enc; }
/* whether the native value at p is what the encoded bytes stand for */
static int stands_for(const pb_field_descriptor_t *f, const void *p, const uint8_t *d, size_t n) {
  if (w_wiretype(f->type) == 2) { const pb_string_t *s = p; return s->size == n && (!n || !memcmp(s->data, d, n)); }
  uint64_t v; size_t l = w_scalar(f->type, d, 0, n, &v); return l == n && w_load(f->type, p) == v; }

/* ---- generation of well-formed messages ---- */
#define G_UNSORTED 1
#define G_DUPLICATE 2        /* several occurrences of singular fields, several members of a oneof */
#define G_MIXED 4            /* packed and unpacked encodings of repeated fields */
#define G_FOREIGN 8          /* known numbers with other wiretypes, empty packed fields */
#define G_LENGTHS 16         /* length prefixes with more bytes than needed */
static int gen_flags;
static msg *gen(int depth) {
  msg *m = calloc(1, sizeof *m); uint32_t ts[12]; int n = RN(depth ? 5 : 7), k = 0;
  for (int i = 0; i < n; i++) {
    uint32_t t = RN(10) == 0 ? 77 : any_field()->tag; const pb_field_descriptor_t *f = field_of(t); int skip = 0;
    if (RN(3) == 0) t = 5 + RN(2), f = field_of(t);
    if (f && f->label != PB_LABEL_REPEATED && !(gen_flags & G_DUPLICATE)) for (int j = 0; j < k; j++) { const pb_field_descriptor_t *g = field_of(ts[j]);
      if (g && (g == f || (oneof_of(f) && oneof_of(g) == oneof_of(f)))) skip = 1; }
    if (!skip) ts[k++] = t; }
  if (!(gen_flags & G_UNSORTED)) for (int i = 0; i < k; i++) for (int j = i + 1; j < k; j++) if (ts[j] < ts[i]) { uint32_t t = ts[i]; ts[i] = ts[j]; ts[j] = t; }
  for (int i = 0; i < k; i++) { const pb_field_descriptor_t *f = field_of(ts[i]); rec *r;
    if (!f || ((gen_flags & G_FOREIGN) && RN(6) == 0 && w_wiretype(f->type) != 2)) {
      unsigned wt = (unsigned[]){ 0, 1, 2, 5 }[RN(f ? 2 : 4)]; if (f) wt = w_wiretype(f->type) == 1 ? 5 : w_wiretype(f->type) == 5 ? 1 : RN(2) ? 1 : 5;
      if (f && RN(4) == 0) wt = 2;
      r = new_rec(ts[i], wt); uint8_t b[10]; for (int q = 0; q < 10; q++) b[q] = (uint8_t)R();
      if (wt == 0) put_varint(&r->val, rnd_int()); else if (wt == 2) { if (!f) put(&r->val, b, RN(10)); } else put(&r->val, b, wt == 1 ? 8 : 4); }
    else if (f->type == PB_TYPE_MESSAGE) { r = new_rec(ts[i], 2); r->sub = depth < 3 ? gen(depth + 1) : calloc(1, sizeof(msg)); }
    else {
      int lengthy = w_wiretype(f->type) == 2, packed = !lengthy && ((f->flags & PB_FLAG_PACKED) ? !((gen_flags & G_MIXED) && RN(2)) : (gen_flags & G_MIXED) && RN(3) == 0);
      r = new_rec(ts[i], packed ? 2 : w_wiretype(f->type));
      for (int c = packed ? 1 + RN(3) : 1; c--; ) { value v = any_value(f); put(&r->val, enc_of(&v), v.n); } }
    if (r->wt == 2 && (gen_flags & G_LENGTHS) && RN(3) == 0) {
      size_t l = r->sub ? size_of(r->sub) : r->val.n; r->lv = l; r->ln = varint(r->len, l);
      if (r->ln < 5) { r->len[r->ln - 1] |= 128; r->len[r->ln++] = 0; } }
    m->r[m->n++] = r; }
  return m; }
#endif
