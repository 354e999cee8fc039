/* C18: validation against a reference over generated schemas and messages. */
#include "vf.h"
#include "wire.h"
#include "core/descriptor.h"
#include <protobluff/core.h>
#include <protobluff/util/validator.h>
#ifdef VF_PROP
#define ONLY(tag, c, msg) do { if (!strcmp(tag, VF_PROP)) { vf_reach(msg); if (!(c)) vf_fail(msg, __FILE__, __LINE__); } } while (0)
#undef REACH
#define REACH(m) ((void)0)
#else
#define ONLY(tag, c, msg) CHECK(c, msg)
#endif
static uint64_t S;
static uint32_t R(void) { S ^= S << 13; S ^= S >> 7; S ^= S << 17; return (uint32_t)(S >> 16); }
static uint32_t RN(uint32_t n) { return R() % n; }
#define ND 4
static pb_field_descriptor_t T[ND][24], TX[ND][2][6];
static pb_descriptor_t DS[ND], XS[ND][2];
static const pb_enum_value_descriptor_t evs[] = { { 0, "a" }, { 1, "b" } };
static const pb_enum_descriptor_t E = { { evs, 2 } };
static void field(pb_field_descriptor_t *f, uint32_t tag, int ext) {
  static const pb_type_t ty[] = { PB_TYPE_UINT32, PB_TYPE_STRING, PB_TYPE_FIXED32, PB_TYPE_FIXED64, PB_TYPE_SINT64, PB_TYPE_BOOL, PB_TYPE_INT32, PB_TYPE_MESSAGE, PB_TYPE_MESSAGE, PB_TYPE_ENUM };
  pb_type_t t = ty[RN(10)]; pb_label_t l = ext ? PB_LABEL_OPTIONAL : RN(2) ? PB_LABEL_REQUIRED : RN(2) ? PB_LABEL_OPTIONAL : PB_LABEL_REPEATED;
  pb_field_descriptor_t v = { tag, "f", t, l, t == PB_TYPE_MESSAGE ? (void *)&DS[RN(ND)] : t == PB_TYPE_ENUM ? (void *)&E : NULL, NULL, l == PB_LABEL_REPEATED && w_wiretype(t) != 2 ? PB_FLAG_PACKED : 0 };
  memcpy(f, &v, sizeof v); }
static void schema(void) {
  for (int i = 0; i < ND; i++) {
    uint32_t tag = 0; int n = 1 + RN(RN(4) ? 5 : 20); for (int k = 0; k < n; k++) field(&T[i][k], tag += 1 + RN(RN(5) ? 2 : 30), 0);
    pb_descriptor_t d = { { T[i], n }, NULL }; memcpy(&DS[i], &d, sizeof d);
    for (int x = (int)RN(3); x--; ) { uint32_t t = tag + 100 + 50 * x; int m = 1 + RN(5); for (int k = 0; k < m; k++) field(&TX[i][x][k], t += 1 + RN(3), 1);
      pb_descriptor_t e = { { TX[i][x], m }, NULL }; memcpy(&XS[i][x], &e, sizeof e); pb_descriptor_extend(&DS[i], &XS[i][x]); } } }
static const pb_field_descriptor_t *find(const pb_descriptor_t *d, uint32_t tag) {
  for (; d; d = d->extension) for (size_t k = 0; k < d->field.size; k++) if (d->field.data[k].tag == tag) return &d->field.data[k];
  return NULL; }
/* 0 well-formed and complete, 1 incomplete, 2 malformed */
static int reference(const pb_descriptor_t *d, const uint8_t *b, size_t s, size_t n) {
  int res = 0; uint8_t seen[24] = { 0 };
  for (; s < n; ) {
    rec_t r = w_record(b, s, n); if (!r.ok) return 2;
    s = r.end; const pb_field_descriptor_t *f = find(d, r.num); uint64_t v; int is = 0;
    if (!f) continue;
    if (r.wt == w_wiretype(f->type)) { is = 1;
      if (f->type == PB_TYPE_MESSAGE) { int q = reference(f->refer, b, r.val, r.end); if (q == 2) return 2; if (q) res = 1; }
      else if (r.wt != 2 && w_scalar(f->type, b, r.val, r.end, &v) != r.end - r.val) return 2; }
    else if (r.wt == 2) for (size_t q = r.val; q < r.end; ) { size_t l = w_scalar(f->type, b, q, r.end, &v); if (!l) return 2; q += l; is = 1; }
    if (is) for (size_t k = 0; k < d->field.size; k++) if (&d->field.data[k] == f) seen[k] = 1; }
  for (size_t k = 0; k < d->field.size; k++) if (d->field.data[k].label == PB_LABEL_REQUIRED && !seen[k]) res = 1;
  return res; }
typedef struct { uint8_t d[1 << 14]; size_t n; } bytes;
static void pv(bytes *b, uint64_t v) { if (b->n > 16000) return; while (v > 127) { b->d[b->n++] = v | 128; v >>= 7; } b->d[b->n++] = v; }
static void gen(const pb_descriptor_t *d0, bytes *b, int depth, int miss) {
  for (const pb_descriptor_t *d = d0; d; d = d->extension)
  for (size_t k = 0; k < d->field.size; k++) { const pb_field_descriptor_t *f = &d->field.data[k];
    if (f->label == PB_LABEL_REQUIRED ? miss && RN(miss) == 0 : RN(3)) continue;
    for (int c = RN(5) == 0 ? 1 + (int)RN(3) : 1; c--; ) {
      unsigned w = w_wiretype(f->type); if (b->n > 15000) return;
      if (RN(12) == 0) { pv(b, (d->field.data[d->field.size - 1].tag + 5000 + RN(9)) << 3 | 0); pv(b, R()); }
      if (f->type == PB_TYPE_MESSAGE) { bytes *x = malloc(sizeof *x); x->n = 0; if (depth < 3) gen(f->refer, x, depth + 1, miss); 
        if (b->n + x->n > 15000) { free(x); return; }
        pv(b, f->tag << 3 | 2); pv(b, x->n); memcpy(b->d + b->n, x->d, x->n); b->n += x->n; free(x); continue; }
      if (w != 2 && RN(6) == 0) { pv(b, f->tag << 3 | 2); pv(b, w == 0 ? 2 : w == 1 ? 8 : 4); for (int i = w == 0 ? 2 : w == 1 ? 8 : 4; i--; ) b->d[b->n++] = RN(2); continue; }
      pv(b, f->tag << 3 | w);
      if (w == 0) pv(b, RN(2)); else if (w == 2) { pv(b, 2); b->d[b->n++] = 1; b->d[b->n++] = 2; } else for (int i = w == 1 ? 8 : 4; i--; ) b->d[b->n++] = R(); } } }
void h_validate(void) {
  S = vf_u64() * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull; if (!S) S = 1; R(); R();
  schema();
  for (int it = 0; it < 60; it++) {
    static bytes b; b.n = 0; static const int ms[] = { 0, 0, 0, 20, 60, 3 };
    const pb_descriptor_t *d = &DS[RN(ND)]; gen(d, &b, 0, ms[RN(6)]);
    if (RN(3) == 0) for (int k = RN(3); k-- && b.n > 1; ) { if (RN(2)) b.n -= RN(3) % b.n; else b.d[RN(b.n)] ^= 1 << RN(8); }
    if (!b.n) continue;
    uint8_t *x = malloc(b.n); memcpy(x, b.d, b.n);
    pb_buffer_t buf = pb_buffer_create_zero_copy(x, b.n); pb_validator_t v = pb_validator_create(d);
    pb_error_t err = pb_validator_check(&v, &buf); int want = reference(d, b.d, 0, b.n);
    if (want == 0) { ONLY("C18", !err, "a complete message is accepted"); REACH("complete"); }
    else if (want == 1) { ONLY("C18", err == PB_ERROR_ABSENT, "a missing required field is reported as absent"); REACH("incomplete"); }
    else { ONLY("C18", err && 1, "a malformed message is reported"); REACH("malformed"); }
    ONLY("C24", !memcmp(x, b.d, b.n), "validation changes nothing");
    pb_validator_destroy(&v); pb_buffer_destroy(&buf); free(x); } }
