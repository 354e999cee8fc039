/* C13, unbounded: the loop of next() skips exactly the records that are not
 * looked for and stops at the first that is, for every message, position and
 * descriptor.  Reading and skipping (C03) and descriptor lookup (C16) are
 * their contracts, as in decoder_loop.c. */
#include "vf.h"
#include <pb_verify.h>
#include "core/buffer.h"
#include "core/descriptor.h"
#include "core/stream.h"
#include "message/common.h"
#include "message/message.h"
#include "message/cursor.h"
int vf_next(pb_cursor_t *cursor); int vf_next_packed(pb_cursor_t *cursor);   /* cursor_wrap.c */

cur_ghost_t CG = { 0 };
int nondet_int(void); size_t nondet_size(void); uint64_t nondet_u64(void);
static uint8_t *D; static size_t ME, SUB;      /* data; end of the message; bytes before the (sub)stream */
static pb_descriptor_t desc = { { NULL, 0 }, NULL };
const pb_field_descriptor_t *F0 = NULL, *F1 = NULL;          /* two arbitrary fields, all others are unknown */
read_t Q[NQ] = { { 0 } }; unsigned Qn = 0;
static unsigned w_wt(pb_type_t t) { return pb_field_descriptor_wiretype_map[t]; }
static read_t query(size_t off, unsigned type) {
  SEEN(0) SEEN(1) SEEN(2) SEEN(3)
  read_t r; r.off = off; r.type = type; r.err = nondet_int(); r.len = nondet_size(); r.sub = 0; r.val = nondet_u64();
  REQUIRE(r.err >= PB_ERROR_NONE && r.err <= PB_ERROR_EOM);
  REQUIRE(r.err || (r.len >= 1 && off <= ME && r.len <= ME - off));
  REQUIRE(r.val <= UINT32_MAX);
  if (Qn < NQ) Q[Qn++] = r;
  return r; }
static void over(pb_stream_t *s) {
  CHECK(s->buffer->data == D + SUB && s->buffer->size == ME - SUB && s->offset <= ME - SUB, "the stream runs over the bytes of the message"); }
static pb_error_t read_u32(pb_stream_t *s, pb_type_t type, void *value) {
  CHECK(type == PB_TYPE_UINT32, "tags and lengths are read"); over(s);
  read_t r = query(SUB + s->offset, type);
  if (r.err) return (pb_error_t)r.err;
  *(uint32_t *)value = (uint32_t)r.val; s->offset += r.len;
  return PB_ERROR_NONE; }
const pb_stream_read_f pb_stream_read_jump[] = { [PB_TYPE_UINT32] = read_u32 };
static pb_error_t skip_any(pb_stream_t *s, unsigned wt) {
  over(s); read_t r = query(SUB + s->offset, 32 + wt);
  if (r.err) return (pb_error_t)r.err;
  s->offset += r.len;
  return PB_ERROR_NONE; }
static pb_error_t skip0(pb_stream_t *s) { return skip_any(s, 0); }
static pb_error_t skip1(pb_stream_t *s) { return skip_any(s, 1); }
static pb_error_t skip2(pb_stream_t *s) { return skip_any(s, 2); }
static pb_error_t skip5(pb_stream_t *s) { return skip_any(s, 5); }
const pb_stream_skip_f pb_stream_skip_jump[8] = { skip0, skip1, skip2, NULL, NULL, skip5 };
pb_error_t pb_stream_advance(pb_stream_t *s, size_t n) {
  over(s); if (ME - SUB - s->offset < n) return PB_ERROR_OFFSET;
  s->offset += n; return PB_ERROR_NONE; }
static const pb_field_descriptor_t *field_of(uint32_t n) { return F0 && F0->tag == n ? F0 : F1 && F1->tag == n ? F1 : NULL; }
const pb_field_descriptor_t *pb_descriptor_field_by_tag(const pb_descriptor_t *d, pb_tag_t tag) {
  CHECK(d == &desc, "fields are looked up in the message's descriptor"); return field_of(tag); }

/* one record, by the specification */
void cur_step(pb_cursor_t *c, size_t o) {
  Qn = 0;
  const pb_field_descriptor_t *f = c->current.descriptor;   /* one of these by the invariant; for the verifier's sake */
  c->current.descriptor = f == F0 ? F0 : f == F1 ? F1 : NULL;
  CHECK(c->current.descriptor == f, "the descriptor is one of the message's");
  CG.bad = CG.match = CG.packed = 0; CG.o = o;
  read_t t = query(o, PB_TYPE_UINT32);
  if (t.err) { CG.bad = t.err; return; }
  uint32_t num = (uint32_t)t.val >> 3; unsigned wt = t.val & 7;
  CG.l = o + t.len;
  if (wt == PB_WIRETYPE_LENGTH) {
    read_t l = query(CG.l, PB_TYPE_UINT32);
    if (l.err) { CG.bad = l.err; return; }
    CG.s = CG.l + l.len;
    if (l.val > ME - CG.s) { CG.bad = PB_ERROR_OFFSET; return; }
    CG.e = CG.s + l.val;
  } else {
    if (wt > 5 || wt == 3 || wt == 4) { CG.bad = PB_ERROR_INVALID; return; }
    CG.s = CG.l;
    read_t s = query(CG.s, 32 + wt);
    if (s.err) { CG.bad = s.err; return; }
    CG.e = CG.s + s.len; }
  CG.next = CG.e; const pb_field_descriptor_t *g = field_of(num); CG.d = g;
  if ((c->tag && c->tag != num) || !g) return;
  if (wt == w_wt(g->type)) CG.match = 1;
  else if (wt == PB_WIRETYPE_LENGTH) CG.match = CG.packed = 1; }

static pb_field_descriptor_t *any_field(void) {
  pb_field_descriptor_t *f = malloc(sizeof *f); REQUIRE(f != NULL);
  REQUIRE(f->type >= PB_TYPE_INT32 && f->type <= PB_TYPE_MESSAGE && f->tag != 0); return f; }
static pb_journal_t J = { { NULL } }; static pb_cursor_t C = { { NULL } };
static size_t MS;
static void setup(void) {
  MS = nondet_size(); ME = nondet_size(); size_t n = nondet_size(); REQUIRE(MS <= ME && ME <= n && n <= VF_CAP && n >= 1);
  D = malloc(n); REQUIRE(D != NULL); SUB = 0;
  J.buffer.data = D; J.buffer.size = n;
  F0 = any_field(); F1 = any_field(); REQUIRE(F0->tag != F1->tag);
  C.message.descriptor = &desc; C.message.part.journal = &J; C.message.part.version = J.entry.size = nondet_size();
  REQUIRE(!(J.entry.size >> 63));
  C.message.part.offset.start = MS; C.message.part.offset.end = ME;
  C.tag = (pb_tag_t)nondet_u64(); C.pos = nondet_size(); C.error = PB_ERROR_NONE;
  int k = nondet_int(); C.current.descriptor = k == 1 ? F0 : k == 2 ? F1 : NULL; }
#define SAMEO(a, b) ((a).start == (b).start && (a).end == (b).end && (a).diff.origin == (b).diff.origin && (a).diff.tag == (b).diff.tag && (a).diff.length == (b).diff.length)
void h_next(void) {
  setup(); pb_offset_t none = { 0 }; C.current.packed = none;
  C.current.offset.start = nondet_size(); size_t e0 = C.current.offset.end = nondet_size(); REQUIRE(MS <= e0 && e0 <= ME);
  CG.next = e0; CG.bad = CG.match = CG.packed = 0;
  pb_cursor_t old = C;
  int r = vf_next(&C);
  const pb_offset_t *o = &C.current.offset, *p = &C.current.packed;
  CHECK(C.tag == old.tag && C.pos == old.pos && C.message.descriptor == &desc && C.message.part.journal == &J && C.message.part.version == old.message.part.version
    && C.message.part.offset.start == MS && C.message.part.offset.end == ME && J.buffer.data == D, "nothing else changes");
  if (r) {
    CHECK(CG.match && !CG.packed && !C.error && !p->end, "a field is visited only if its record is looked for");
    CHECK(o->start == CG.s && o->end == CG.e && o->start + o->diff.origin == MS && o->start + o->diff.tag == CG.o && o->start + o->diff.length == CG.l, "over exactly the bytes of its record");
    CHECK(C.current.descriptor == CG.d, "with its descriptor"); REACH("visited");
  } else if (!C.error) {
    CHECK(CG.match && CG.packed, "a packed record is entered only if it is looked for");
    CHECK(p->start == CG.s && p->end == CG.e && p->start + p->diff.origin == MS && p->start + p->diff.tag == CG.o && p->start + p->diff.length == CG.l, "over exactly its bytes");
    CHECK(o->start == CG.s && o->end == CG.s && o->start + o->diff.origin == MS && !o->diff.tag && !o->diff.length, "from its start");
    CHECK(C.current.descriptor == CG.d, "with its descriptor"); REACH("packed");
  } else {
    CHECK(!CG.match && !p->end, "an end is reported only if no record is looked for");
    if (CG.bad) { CHECK(C.error != PB_ERROR_EOM || CG.bad == PB_ERROR_EOM, "malformed bytes are not an end"); CHECK(C.error == CG.bad || CG.bad == PB_ERROR_INVALID || CG.bad == PB_ERROR_OFFSET, "and are reported"); REACH("malformed"); }
    else { CHECK(C.error == PB_ERROR_EOM && CG.next == ME, "the end is reported after the last record"); REACH("end"); } } }
void h_next_packed(void) {
  setup();
  size_t ps = nondet_size(), pe = nondet_size(), a = nondet_size(), e = nondet_size();
  REQUIRE(MS + 1 < ps && ps <= a && a <= e && e <= pe && pe <= ME && C.current.descriptor);
  pb_offset_t P = { ps, pe, { (ptrdiff_t)(MS - ps), (ptrdiff_t)nondet_size(), (ptrdiff_t)nondet_size() } }, O = { a, e, { (ptrdiff_t)(MS - a), 0, 0 } };
  C.current.packed = P; C.current.offset = O; ME = pe; SUB = e; Qn = 0;
  pb_cursor_t old = C; read_t q = query(e, 32 + w_wt(C.current.descriptor->type));
  int r = vf_next_packed(&C); const pb_offset_t *o = &C.current.offset, *p = &C.current.packed;
  CHECK(C.tag == old.tag && C.pos == old.pos && C.current.descriptor == old.current.descriptor, "nothing else changes");
  if (r) {
    CHECK(e < pe && !q.err && !C.error && SAMEO(*p, P), "an element is visited only if there is one");
    CHECK(o->start == e && o->end == e + q.len && o->start + o->diff.origin == MS && !o->diff.tag && !o->diff.length, "over exactly its bytes"); REACH("element");
  } else if (e < pe) { CHECK(q.err && C.error == q.err, "malformed elements are reported"); REACH("malformed"); }
  else { CHECK(!C.error && !p->end && SAMEO(*o, P), "after the last element the cursor is back at the packed record"); REACH("left"); } }
