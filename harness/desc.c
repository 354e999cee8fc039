/* C16: lookup and iteration agree with the descriptor table, for tables of
 * any size.  TW is an arbitrary index of the table. */
#include "vf.h"
#ifdef PB_VERIFY
#include <pb_verify.h>
#endif
#include "core/descriptor.h"
#include <protobluff/util/descriptor.h>

#ifdef VF_PROOF
size_t TW; static const pb_descriptor_t *NEXT; static const pb_field_descriptor_t *FOUND; static int asked;
size_t nondet_size(void); int nondet_int(void);

/* the search in the remaining extensions (induction over their chain) */
const pb_field_descriptor_t *rest_by_tag(const pb_descriptor_t *d, pb_tag_t tag) {
  CHECK(d == NEXT && NEXT, "the search goes on in the extension");
  asked = 1; return FOUND; }

/* instances of the precondition: tags are strictly ascending */
void desc_step(const pb_descriptor_t *d, size_t f) {
  if (f > 0 && TW < f - 1) REQUIRE(d->field.data[TW].tag < d->field.data[f - 1].tag); }

void h_by_tag(void) {
  size_t n = nondet_size(); REQUIRE(n <= 1u << 29);
  pb_field_descriptor_t *t = malloc(n * sizeof *t); REQUIRE(t != NULL);
  pb_descriptor_t ext = { { NULL, 0 }, NULL }; NEXT = nondet_int() ? &ext : NULL;
  pb_field_descriptor_t other; FOUND = nondet_int() ? &other : NULL;
  pb_descriptor_t d = { { t, n }, (pb_descriptor_t *)NEXT };
  pb_tag_t tag = nondet_int(); REQUIRE(tag > 0);
  asked = 0;
  TW = nondet_size(); REQUIRE(TW >= n || t[TW].tag > TW);   /* strictly ascending from 1 */
  const pb_field_descriptor_t *r = pb_descriptor_field_by_tag(&d, tag);
  if (TW < n && t[TW].tag == tag) { CHECK(r == &t[TW], "a field of the table is found by its tag"); REACH("found"); }
  if (r && !asked) {
    size_t i = (size_t)(r - t);
    CHECK(__CPROVER_same_object(r, t) && i < n && r == &t[i] && r->tag == tag, "what is found is an entry of the table with that tag"); }
  if (asked) { CHECK(r == FOUND, "what the extensions have is found there"); REACH("in extension"); }
  if (!r) { CHECK(asked || !NEXT, "nothing is found only if no extension has it"); REACH("not found"); } }

void enum_step(const pb_enum_descriptor_t *d, size_t v) {
  if (TW < v) REQUIRE(d->value.data[TW].number <= d->value.data[v].number); }
void h_by_number(void) {
  size_t n = nondet_size(); REQUIRE(n <= (size_t)1 << 32);
  pb_enum_value_descriptor_t *t = malloc(n * sizeof *t); REQUIRE(t != NULL);
  pb_enum_descriptor_t d = { { t, n } };
  pb_enum_t number = nondet_int();
  TW = nondet_size();
  const pb_enum_value_descriptor_t *r = pb_enum_descriptor_value_by_number(&d, number);
  if (TW < n && t[TW].number == number) { CHECK(r != NULL, "a value of the table is found by its number"); REACH("found"); }
  if (r) {
    size_t i = (size_t)(r - t);
    CHECK(__CPROVER_same_object(r, t) && i < n && r == &t[i] && r->number == number, "what is found is an entry of the table with that number");
  } else REACH("not found"); }

/* lookup by name; what strcmp says of a name is arbitrary, but the same each
 * time it is asked about the name of entry TW */
const char *WN, *EQN; int WEQ; static const char *KEY;
int name_cmp(const char *a, const char *b) {
  CHECK(a == KEY || b == KEY, "the key is what names are compared to");
  const char *n = b == KEY ? a : b;
  int r = nondet_int();
  if (n == WN) REQUIRE(!r == WEQ);
  if (!r) EQN = n;
  return r; }
const pb_field_descriptor_t *rest_by_name(const pb_descriptor_t *d, const char *name) {
  CHECK(d == NEXT && NEXT && name == KEY, "the search goes on in the extension");
  asked = 1; return FOUND; }
static char keybytes[1];
void h_by_name(void) {
  size_t n = nondet_size(); REQUIRE(n <= 1u << 29);
  pb_field_descriptor_t *t = malloc(n * sizeof *t); REQUIRE(t != NULL);
  pb_descriptor_t ext = { { NULL, 0 }, NULL }; NEXT = nondet_int() ? &ext : NULL;
  pb_field_descriptor_t other; FOUND = nondet_int() ? &other : NULL;
  pb_descriptor_t d = { { t, n }, (pb_descriptor_t *)NEXT };
  asked = 0; KEY = keybytes; EQN = NULL; WEQ = nondet_int() ? 1 : 0;
  TW = nondet_size(); if (TW >= n) { WN = NULL; WEQ = 0; } else { WN = t[TW].name; REQUIRE(WN != KEY && WN != NULL); }
  const pb_field_descriptor_t *r = pb_descriptor_field_by_name(&d, KEY);
  if (TW < n && WEQ) { CHECK(r && !asked, "a field of the table is found by its name"); REACH("found"); }
  if (r && !asked) {
    size_t i = (size_t)(r - t);
    CHECK(__CPROVER_same_object(r, t) && i < n && r == &t[i] && r->name == EQN, "what is found is an entry of the table with that name"); }
  if (asked) { CHECK(r == FOUND, "what the extensions have is found there"); REACH("in extension"); }
  if (!r) { CHECK(asked || !NEXT, "nothing is found only if no extension has it"); REACH("not found"); } }
void h_enum_by_name(void) {
  size_t n = nondet_size(); REQUIRE(n <= 1u << 29);
  pb_enum_value_descriptor_t *t = malloc(n * sizeof *t); REQUIRE(t != NULL);
  pb_enum_descriptor_t d = { { t, n } };
  KEY = keybytes; EQN = NULL; WEQ = nondet_int() ? 1 : 0;
  TW = nondet_size(); if (TW >= n) { WN = NULL; WEQ = 0; } else { WN = t[TW].name; REQUIRE(WN != KEY && WN != NULL); }
  const pb_enum_value_descriptor_t *r = pb_enum_descriptor_value_by_name(&d, KEY);
  if (TW < n && WEQ) { CHECK(r != NULL, "a value of the table is found by its name"); REACH("found"); }
  if (r) {
    size_t i = (size_t)(r - t);
    CHECK(__CPROVER_same_object(r, t) && i < n && r == &t[i] && r->name == EQN, "what is found is an entry of the table with that name");
  } else REACH("not found"); }
#endif

/* iteration: begin, next, prev and end move over every table in order */
#define ITER(name, D, IT, T, create, begin, end, prev, next, at, current, DESC, CURRENT) \
void h_iter_##name(void) { \
  size_t n = vf_range(0, (size_t)1 << 32), p = (size_t)vf_in(); \
  static T table[1]; \
  D d = DESC; \
  IT it = create(&d); \
  int b = begin(&it); \
  CHECK(!b == !n, "an iteration begins exactly if there is an entry"); \
  if (n) { CHECK(at(&it) == 0, "at the first entry"); CHECK(current(&it) == CURRENT(0), "which is delivered"); } \
  CHECK(!end(&it) == !n, "it ends at the last entry exactly if there is one"); \
  if (n) { CHECK(at(&it) == n - 1, "the last entry is the last"); } \
  if (n) { REQUIRE(p < n); it.pos = p; \
    CHECK(current(&it) == CURRENT(p), "the entry delivered is the one at the position"); \
    int k = next(&it); \
    CHECK(k == (p + 1 < n), "there is a next entry unless this is the last"); \
    if (k) { CHECK(at(&it) == p + 1, "the next entry follows"); REACH("next"); } \
    it.pos = p; k = prev(&it); \
    CHECK(k == (p > 0), "there is a previous entry unless this is the first"); \
    if (k) { CHECK(at(&it) == p - 1, "the previous entry precedes"); REACH("prev"); } } \
}
#define TABLE(i) (&table[0] + (i))
ITER(fields, pb_descriptor_t, pb_descriptor_iter_t, pb_field_descriptor_t, pb_descriptor_iter_create, pb_descriptor_iter_begin, pb_descriptor_iter_end,
  pb_descriptor_iter_prev, pb_descriptor_iter_next, pb_descriptor_iter_pos, pb_descriptor_iter_current, ((pb_descriptor_t){ { table, n }, NULL }), TABLE)
ITER(enums, pb_enum_descriptor_t, pb_enum_descriptor_iter_t, pb_enum_value_descriptor_t, pb_enum_descriptor_iter_create, pb_enum_descriptor_iter_begin, pb_enum_descriptor_iter_end,
  pb_enum_descriptor_iter_prev, pb_enum_descriptor_iter_next, pb_enum_descriptor_iter_pos, pb_enum_descriptor_iter_current, ((pb_enum_descriptor_t){ { table, n } }), TABLE)

void h_iter_oneof(void) {
  size_t n = vf_range(0, VF_CAP < ((size_t)1 << 32) ? VF_CAP : (size_t)1 << 32), p = (size_t)vf_in();
  static const pb_field_descriptor_t table[1];
  pb_descriptor_t m = { { table, 1 }, NULL };
  size_t *index = malloc(n * sizeof *index + !n); REQUIRE(index != NULL);
  pb_oneof_descriptor_t d = { &m, { index, n } };
  pb_oneof_descriptor_iter_t it = pb_oneof_descriptor_iter_create(&d);
  CHECK(!pb_oneof_descriptor_iter_begin(&it) == !n, "an iteration begins exactly if there is a member");
  if (n) CHECK(pb_oneof_descriptor_iter_pos(&it) == 0, "at the first member");
  CHECK(!pb_oneof_descriptor_iter_end(&it) == !n, "it ends at the last member exactly if there is one");
  if (n) {
    CHECK(pb_oneof_descriptor_iter_pos(&it) == n - 1, "the last member is the last");
    REQUIRE(p < n); it.pos = p;
    index[p] = vf_range(0, 1000);
    CHECK(pb_oneof_descriptor_iter_current(&it) == table + index[p], "the member delivered is the field with the index at the position");
    int k = pb_oneof_descriptor_iter_next(&it);
    CHECK(k == (p + 1 < n), "there is a next member unless this is the last");
    if (k) { CHECK(pb_oneof_descriptor_iter_pos(&it) == p + 1, "the next member follows"); REACH("next"); }
    it.pos = p; k = pb_oneof_descriptor_iter_prev(&it);
    CHECK(k == (p > 0), "there is a previous member unless this is the first");
    if (k) { CHECK(pb_oneof_descriptor_iter_pos(&it) == p - 1, "the previous member precedes"); REACH("prev"); } }
  free(index); }
