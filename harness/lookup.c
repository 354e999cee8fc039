/* C16, C17: lookups against a linear search of the tables, with extensions
 * registered in any order, repetitions included. */
#include "vf.h"
#include "core/descriptor.h"
#include <protobluff/util/descriptor.h>
#ifdef VF_CBMC
#define NT 1
#define NX 2
#define NR 3
#else
#define NT VF_BND
#define NX 5
#define NR 9
#endif
static pb_descriptor_t d[NX + 1]; static pb_field_descriptor_t t[NX + 1][NT + 1];
static size_t order[NR + 2], on;                  /* reference: tables in the order of registration */
#ifndef VF_CBMC
static char names[64][4];
static const char *name_of(uint64_t i) { i %= 64; names[i][0] = "ab_A"[i & 3]; if (i >> 2) { names[i][1] = "abAz"[i >> 2 & 3]; if (i >> 4) names[i][2] = "abx"[(i >> 4) - 1]; } return names[i]; }
#else
static const char *name_of(uint64_t i) { return "x"; }
#endif

static void build(void) {
  for (size_t x = 0; x <= NX; x++) {
    size_t n = vf_range(0, NT); uint32_t tag = 0;
    for (size_t i = 0; i < NT; i++) if (i < n) {
      uint64_t gap = vf_range(1, 1u << 26); if (gap & 1) gap = 1 + (gap >> 1) % 3;
      tag += gap;
      *(pb_tag_t *)&t[x][i].tag = tag; *(const char **)&t[x][i].name = name_of(vf_u8()); }
    *(const pb_field_descriptor_t **)&d[x].field.data = t[x]; *(size_t *)&d[x].field.size = n; }
  order[on++] = 0; }

static void register_some(void) {
  size_t r = vf_range(0, NR);
  for (size_t i = 0; i < NR; i++) if (i < r) {
    size_t x = vf_range(1, NX); int known = 0;
    for (size_t k = 0; k <= NR; k++) if (k < on && order[k] == x) known = 1;
    pb_descriptor_extend(&d[0], &d[x]);
    if (known) REACH("registered again"); else order[on++] = x; } }

static void frame(void) {                        /* the descriptors themselves keep their tables */
  for (size_t x = 0; x <= NX; x++) CHECK(d[x].field.data == t[x] && d[x].field.size <= NT, "tables are kept");
  for (size_t k = 0; k <= NR; k++) if (k < on) CHECK(d[order[k]].extension == (k + 1 < on ? &d[order[k + 1]] : NULL), "extensions are chained once each, in the order of their registration"); }

static void lookup_tag(uint32_t tag) {
  const pb_field_descriptor_t *w = NULL;
  for (size_t k = 0; k <= NR; k++) if (k < on && !w)
    for (size_t i = 0; i < NT; i++) if (!w && i < d[order[k]].field.size && t[order[k]][i].tag == tag) w = &t[order[k]][i];
  const pb_field_descriptor_t *r = pb_descriptor_field_by_tag(&d[0], tag);
  CHECK(r == w, "a lookup by tag finds the field in the table or the first extension having it, or nothing");
  if (r) REACH("found"); else REACH("not found"); }

void h_extends(void) {
  build(); register_some(); frame();
  uint32_t tag = vf_u32(); REQUIRE(tag > 0);
#ifndef VF_CBMC
  for (size_t x = 0; x <= NX; x++) for (size_t i = 0; i < d[x].field.size; i++) {
    lookup_tag(t[x][i].tag); lookup_tag(t[x][i].tag + 1); if (t[x][i].tag > 1) lookup_tag(t[x][i].tag - 1); }
#endif
  lookup_tag(tag); }

#ifndef VF_CBMC
static pb_enum_value_descriptor_t ev[2 * NT + 1];
void h_lookup(void) {
  h_extends();
  for (int q = 0; q < 12; q++) {
    char key[4]; strcpy(key, name_of(vf_u8()));
    const pb_field_descriptor_t *w = NULL;
    for (size_t k = 0; k < on && !w; k++) for (size_t i = 0; i < d[order[k]].field.size && !w; i++) if (!strcmp(t[order[k]][i].name, key)) w = &t[order[k]][i];
    CHECK(pb_descriptor_field_by_name(&d[0], key) == w, "a lookup by name finds the first field having it, or nothing"); }
  size_t n = vf_range(0, 2 * NT); int64_t v = vf_range(0, 3) ? -(int64_t)vf_range(0, 40) : INT32_MIN;
  for (size_t i = 0; i < n; i++) {
    uint64_t gap = vf_u8() & 7; v += gap == 7 ? (int64_t)vf_range(0, 1u << 30) : gap & 3 ? (int64_t)(gap & 3) : 0; if (v > INT32_MAX) v = INT32_MAX;
    pb_enum_value_descriptor_t e = { (pb_enum_t)v, name_of(vf_u8()) }; memcpy(&ev[i], &e, sizeof e); }
  pb_enum_descriptor_t ed = { { ev, n } };
  for (size_t q = 0; q < n + 6; q++) {
    pb_enum_t k = q < n ? ev[q].number : (pb_enum_t)(vf_u8() - 60); int any = 0;
    if (q == n) k = INT32_MIN; if (q == n + 1) k = INT32_MAX;
    for (size_t i = 0; i < n; i++) if (ev[i].number == k) any = 1;
    const pb_enum_value_descriptor_t *r = pb_enum_descriptor_value_by_number(&ed, k);
    CHECK(!r == !any && (!r || (r >= ev && r < ev + n && r->number == k)), "a lookup by number finds a value having it, or nothing");
    char key[4]; strcpy(key, name_of(vf_u8())); const pb_enum_value_descriptor_t *w = NULL;
    for (size_t i = 0; i < n && !w; i++) if (!strcmp(ev[i].name, key)) w = &ev[i];
    CHECK(pb_enum_descriptor_value_by_name(&ed, key) == w, "a lookup by name finds the first value having it, or nothing"); }
  /* iteration visits every entry once, in order, both ways */
  size_t at = 0; pb_descriptor_iter_t it = pb_descriptor_iter_create(&d[0]);
  if (pb_descriptor_iter_begin(&it)) do { CHECK(pb_descriptor_iter_current(&it) == &t[0][at] && pb_descriptor_iter_pos(&it) == at, "fields in order"); at++; } while (pb_descriptor_iter_next(&it));
  CHECK(at == d[0].field.size, "all fields");
  if (pb_descriptor_iter_end(&it)) do { at--; CHECK(pb_descriptor_iter_current(&it) == &t[0][at], "fields in reverse order"); } while (pb_descriptor_iter_prev(&it));
  CHECK(at == 0, "all fields");
  pb_descriptor_iter_destroy(&it);
  pb_enum_descriptor_iter_t ei = pb_enum_descriptor_iter_create(&ed);
  if (pb_enum_descriptor_iter_begin(&ei)) do { CHECK(pb_enum_descriptor_iter_current(&ei) == &ev[at] && pb_enum_descriptor_iter_pos(&ei) == at, "values in order"); at++; } while (pb_enum_descriptor_iter_next(&ei));
  CHECK(at == n, "all values");
  if (pb_enum_descriptor_iter_end(&ei)) do { at--; CHECK(pb_enum_descriptor_iter_current(&ei) == &ev[at], "values in reverse order"); } while (pb_enum_descriptor_iter_prev(&ei));
  CHECK(at == 0, "all values");
  pb_enum_descriptor_iter_destroy(&ei); }
#endif
