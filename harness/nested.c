/* C20, unbounded: reading and writing along a branch of tags is reading and
 * writing level by level, for branches of any length.  A message's start is
 * its depth. */
#include "vf.h"
#include <pb_verify.h>
#include "core/descriptor.h"
#include "message/common.h"
#include "message/cursor.h"
#include "message/message.h"
#include "message/nested.h"
#include "message/part.h"
int nondet_int(void); size_t nondet_size(void); uint64_t nondet_u64(void);
nest_t NG = { 0 };
static pb_tag_t *T = NULL; static size_t N = 0; static pb_descriptor_t desc = { { NULL, 0 }, NULL }; static pb_journal_t J = { { NULL } };
static pb_message_t M = { NULL };
cur_ghost_t CG = { 0 }; read_t Q[NQ] = { { 0 } }; unsigned Qn = 0; const pb_field_descriptor_t *F0 = NULL, *F1 = NULL, *F2 = NULL; seq_t SG = { 0 }; seq_const_t SC = { 0 }; void *SJ = NULL;
void cur_step(pb_cursor_t *c, size_t o) {} void seq_step(pb_cursor_t *c) {}
static int bad(const pb_message_t *m) { return m->part.version != 0; }
static pb_error_t any_error(void) { int e = nondet_int(); REQUIRE(e > PB_ERROR_NONE && e <= PB_ERROR_EOM); return (pb_error_t)e; }
/* the next level, where there is one */
pb_cursor_t pb_cursor_create(pb_message_t *m, pb_tag_t tag) {
  pb_cursor_t c = { { NULL } }; CHECK(!NG.stop, "nothing is read after a level that is missing");
  if (bad(m)) { c.error = PB_ERROR_INVALID; NG.stop = c.error; return c; }
  CHECK(NG.depth < N - 1 && m->part.offset.start == NG.depth && tag == T[NG.depth], "the branch is followed level by level");
  if (nondet_int()) { c.error = any_error(); NG.stop = c.error; return c; }
  NG.depth = NG.depth + 1; c.error = PB_ERROR_NONE; c.current.offset.start = NG.depth; return c; }
pb_message_t pb_message_create_from_cursor(pb_cursor_t *c) {
  pb_message_t m = { NULL }; CHECK(!c->error && c->current.offset.start == NG.depth, "a message is read where there is one");
  m.descriptor = &desc; m.part.journal = &J; m.part.offset.start = NG.depth;
  if (nondet_int()) { m.part.version = PB_PART_INVALID; NG.fail = 1; }
  return m; }
pb_message_t nst_within(pb_message_t *m, pb_tag_t tag) {
  pb_message_t r = { NULL }; CHECK(!bad(m) && !NG.fail, "nothing is created within an invalid message");
  CHECK(NG.depth < N && m->part.offset.start == NG.depth && tag == T[NG.depth], "the branch is followed level by level");
  NG.depth = NG.depth + 1; r.part.offset.start = NG.depth; r.descriptor = &desc; r.part.journal = &J;
  if (nondet_int()) { r.part.version = PB_PART_INVALID; NG.fail = 1; }
  return r; }
/* what is done in the last message */
static int calls, rint; static pb_error_t rerr; static char value[16];
static void leaf(pb_message_t *m, pb_tag_t tag) {
  CHECK(!calls++, "one operation is performed"); CHECK(NG.depth == N - 1 && tag == T[N - 1] && (bad(m) ? NG.fail : m->part.offset.start == NG.depth), "in the last message of the branch, on the last tag"); }
#ifndef REAL_MESSAGE
void pb_message_destroy(pb_message_t *m) { m->descriptor = NULL; m->part.version = PB_PART_INVALID; }
int pb_message_has(pb_message_t *m, pb_tag_t tag) { leaf(m, tag); return rint = nondet_int(); }
int pb_message_match(pb_message_t *m, pb_tag_t tag, const void *v) { leaf(m, tag); CHECK(v == value, "with the value"); return rint = nondet_int(); }
pb_error_t pb_message_get(pb_message_t *m, pb_tag_t tag, void *v) { leaf(m, tag); CHECK(v == value, "into the value"); return rerr = (pb_error_t)nondet_int(); }
pb_error_t pb_message_put(pb_message_t *m, pb_tag_t tag, const void *v) { return PB_ERROR_NONE; }
pb_error_t pb_message_erase(pb_message_t *m, pb_tag_t tag) { leaf(m, tag); return rerr = (pb_error_t)nondet_int(); }
#endif
static void setup(size_t least) {
  N = nondet_size(); REQUIRE(N >= least && N <= (size_t)1 << 40); T = malloc(N * sizeof *T); REQUIRE(T != NULL);
  NG.depth = 0; NG.stop = NG.fail = 0; calls = 0; rint = 0; rerr = PB_ERROR_NONE;
  M.descriptor = &desc; M.part.journal = &J; M.part.offset.start = 0; M.part.version = nondet_int() ? PB_PART_INVALID : 0; }
#define MISSING (NG.stop || M.part.version)
void h_nested_read(void) {
  setup(2); int r;
  if (nondet_int()) r = pb_message_nested_has(&M, T, N); else r = pb_message_nested_match(&M, T, N, value);
  if (calls) { CHECK(r == rint, "the result is that of the operation"); REACH("read"); } else { CHECK(MISSING && !r, "nothing is found unless every level is there"); REACH("missing"); } }
void h_nested_get(void) {
  setup(2); pb_error_t e = pb_message_nested_get(&M, T, N, value);
  if (calls) { CHECK(e == rerr, "the result is that of the operation"); REACH("read"); }
  else { CHECK(MISSING && e == (M.part.version ? PB_ERROR_INVALID : NG.stop == PB_ERROR_EOM ? PB_ERROR_ABSENT : NG.stop), "a missing level is absent, an unreadable one an error"); REACH("missing"); } }
void h_nested_erase(void) {
  setup(2); pb_error_t e = pb_message_nested_erase(&M, T, N);
  if (calls) { CHECK(e == rerr, "the result is that of the operation"); REACH("erased"); } else { CHECK(MISSING && e, "a missing level is reported"); REACH("missing"); } }
void h_nested_create(void) {
  setup(1); pb_message_t m = pb_message_create_nested(&M, T, N);
  if (bad(&m)) { CHECK(NG.fail || M.part.version, "creation fails only where a level cannot be created"); REACH("failed"); }
  else { CHECK(NG.depth == N && m.part.offset.start == N && !NG.fail, "every level is created in turn"); REACH("created"); } }
