/* C25: operations on invalid handles.  The handles are arbitrary but for being
 * invalid: whatever they point to must not be touched, and no allocator called
 * (there is none that could be). */
#include "vf.h"
#include "core/descriptor.h"
#include "message/cursor.h"
#include "message/field.h"
#include "message/journal.h"
#include "message/message.h"
#include "message/nested.h"
#include "message/oneof.h"
#include "message/part.h"

#ifdef VF_PROOF      /* what an operation would go on to: never reached */
#define NEVER(decl, ret) decl { CHECK(0, "an operation on an invalid handle goes no further"); REQUIRE(0); ret; }
NEVER(pb_error_t pb_journal_write(pb_journal_t *j, size_t o, size_t s, size_t e, const uint8_t *d, size_t n), return PB_ERROR_NONE)
NEVER(pb_error_t pb_journal_clear(pb_journal_t *j, size_t o, size_t s, size_t e), return PB_ERROR_NONE)
NEVER(pb_error_t pb_journal_align(pb_journal_t *j, pb_version_t *v, pb_offset_t *o), return PB_ERROR_NONE)
NEVER(const pb_field_descriptor_t *pb_descriptor_field_by_tag(const pb_descriptor_t *d, pb_tag_t t), return NULL)
NEVER(pb_error_t pb_stream_advance(pb_stream_t *s, size_t n), return PB_ERROR_NONE)
#endif
#ifdef NOWHERE
static void *wild(void) { return NULL; }   /* any access is an error */
#else
static void *wild(void) { return (void *)(uintptr_t)vf_u64(); }
#endif
static void set_part(pb_part_t *p) {
  p->version = vf_u64() | PB_PART_INVALID; p->journal = wild();
  p->offset.start = vf_u64(); p->offset.end = vf_u64(); p->offset.diff.origin = vf_u64(); p->offset.diff.tag = vf_u64(); p->offset.diff.length = vf_u64(); }
static void set_message(pb_message_t *m) { m->descriptor = wild(); set_part(&m->part); }
static void set_field(pb_field_t *f) { f->descriptor = wild(); set_part(&f->part); }
static void set_cursor(pb_cursor_t *c) {
  set_message(&c->message); c->tag = vf_u32(); c->current.descriptor = wild();
  c->current.offset.start = vf_u64(); c->current.offset.end = vf_u64(); c->current.packed.end = vf_u64(); c->pos = vf_u64();
  c->error = (pb_error_t)vf_range(1, PB_ERROR_ABSENT); }
#define DEAD(p) CHECK((p).version & PB_PART_INVALID, "an invalid handle stays invalid")
static const uint8_t byte[2] = { 1, 2 };
static uint64_t VAL, KEPT;
static void value(void) { VAL = KEPT = vf_u64(); }
static void untouched(void) { CHECK(VAL == KEPT, "nothing is delivered"); }

void h_parts(void) {
  pb_part_t p; set_part(&p); size_t n = vf_size(1);
  CHECK(!pb_part_valid(&p) && pb_part_error(&p) == PB_ERROR_INVALID, "an invalid part is known to be invalid");
  CHECK(pb_part_write(&p, byte, n) == PB_ERROR_INVALID, "writing to an invalid part is refused");
  CHECK(pb_part_clear(&p) == PB_ERROR_INVALID, "clearing an invalid part is refused");
  pb_part_t q = pb_part_copy(&p); DEAD(q); pb_part_destroy(&q); DEAD(q); DEAD(p);
  pb_journal_t j = pb_journal_create_invalid(); pb_part_t r = pb_part_create_from_journal(&j); DEAD(r);
  REACH("parts"); }
void h_messages(void) {
  pb_message_t m; set_message(&m); uint32_t tag = (uint32_t)vf_range(1, 0xffffffffu);
  pb_tag_t t[3] = { vf_u32(), vf_u32(), vf_u32() }; size_t n = (size_t)vf_range(2, 3);
  value();
  CHECK(!pb_message_valid(&m), "an invalid message is known to be invalid");
  CHECK(!pb_message_has(&m, tag), "an invalid message has no fields");
  CHECK(!pb_message_match(&m, tag, &VAL), "an invalid message matches nothing");
  CHECK(pb_message_get(&m, tag, &VAL) == PB_ERROR_INVALID, "reading an invalid message is refused");
  CHECK(pb_message_put(&m, tag, &VAL) == PB_ERROR_INVALID, "putting to an invalid message is refused");
  CHECK(pb_message_erase(&m, tag) == PB_ERROR_INVALID, "erasing from an invalid message is refused");
  CHECK(pb_message_clear(&m) == PB_ERROR_INVALID, "clearing an invalid message is refused");
  pb_message_t s = pb_message_create_within(&m, tag); DEAD(s.part);
  s = pb_message_create_nested(&m, t, n); DEAD(s.part);
  s = pb_message_copy(&m); DEAD(s.part);
  CHECK(!pb_message_nested_has(&m, t, n), "an invalid message has no nested fields");
  CHECK(!pb_message_nested_match(&m, t, n, &VAL), "an invalid message matches nothing");
  CHECK(pb_message_nested_get(&m, t, n, &VAL) == PB_ERROR_INVALID, "reading an invalid message is refused");
  CHECK(pb_message_nested_erase(&m, t, n) == PB_ERROR_INVALID, "erasing from an invalid message is refused");
  untouched(); DEAD(m.part); REACH("messages"); }
void h_messages_put(void) {
  pb_message_t m; set_message(&m); pb_tag_t t[3] = { vf_u32(), vf_u32(), vf_u32() }; size_t n = (size_t)vf_range(2, 3); value();
  pb_journal_t j = pb_journal_create_invalid(); const pb_descriptor_t *d = wild();
  CHECK(pb_message_nested_put(&m, t, n, &VAL) == PB_ERROR_INVALID, "putting to an invalid message is refused");
  pb_message_t s = pb_message_create(d, &j); DEAD(s.part);
  pb_cursor_t c; set_cursor(&c); s = pb_message_create_from_cursor(&c); DEAD(s.part);
  pb_field_t f; set_field(&f); s = pb_message_create_from_field(d, &f); DEAD(s.part);
  pb_message_destroy(&m); DEAD(m.part); untouched(); REACH("messages"); }
void h_fields(void) {
  pb_field_t f; set_field(&f); value();
  pb_message_t m; set_message(&m); uint32_t tag = (uint32_t)vf_range(1, 0xffffffffu); pb_tag_t t[3] = { vf_u32(), vf_u32(), vf_u32() };
  CHECK(!pb_field_valid(&f), "an invalid field is known to be invalid");
  CHECK(pb_field_get(&f, &VAL) == PB_ERROR_INVALID, "reading an invalid field is refused");
  CHECK(pb_field_put(&f, &VAL) == PB_ERROR_INVALID, "putting to an invalid field is refused");
  CHECK(!pb_field_match(&f, &VAL), "an invalid field matches nothing");
  CHECK(pb_field_clear(&f) == PB_ERROR_INVALID, "clearing an invalid field is refused");
  pb_field_t g = pb_field_create(&m, tag); DEAD(g.part);
  g = pb_field_create_without_default(&m, tag); DEAD(g.part);
  g = pb_field_create_nested(&m, t, (size_t)vf_range(2, 3)); DEAD(g.part);
  pb_cursor_t c; set_cursor(&c); g = pb_field_create_from_cursor(&c); DEAD(g.part);
  pb_part_t p = pb_part_create_from_cursor(&c); DEAD(p);
  pb_field_destroy(&f); DEAD(f.part); untouched(); REACH("fields"); }
void h_cursors(void) {
  pb_cursor_t c; set_cursor(&c); value(); pb_message_t m; set_message(&m); uint32_t tag = vf_u32(); pb_tag_t t[3] = { vf_u32(), vf_u32(), vf_u32() };
  CHECK(!pb_cursor_valid(&c), "an invalid cursor is known to be invalid");
  CHECK(!pb_cursor_next(&c), "an invalid cursor has no next field");
  CHECK(!pb_cursor_seek(&c, &VAL) && !pb_cursor_match(&c, &VAL), "an invalid cursor matches nothing");
  CHECK(pb_cursor_get(&c, &VAL) == PB_ERROR_INVALID, "reading at an invalid cursor is refused");
  CHECK(pb_cursor_put(&c, &VAL) == PB_ERROR_INVALID, "putting at an invalid cursor is refused");
  CHECK(pb_cursor_erase(&c) == PB_ERROR_INVALID, "erasing at an invalid cursor is refused");
  pb_cursor_t d = pb_cursor_create_unsafe(&m, tag); CHECK(pb_cursor_error(&d) == PB_ERROR_INVALID, "an invalid message has no cursors");
  d = pb_cursor_create(&m, tag ? tag : 1); CHECK(pb_cursor_error(&d) == PB_ERROR_INVALID, "an invalid message has no cursors");
  d = pb_cursor_create_nested(&m, t, (size_t)vf_range(2, 3)); CHECK(pb_cursor_error(&d) == PB_ERROR_INVALID, "an invalid message has no cursors");
  CHECK(!pb_cursor_rewind(&c) && pb_cursor_error(&c) == PB_ERROR_INVALID, "a cursor over an invalid message cannot be rewound");
  pb_cursor_destroy(&c); CHECK(pb_cursor_error(&c) == PB_ERROR_INVALID, "a destroyed cursor is invalid");
  untouched(); REACH("cursors"); }
void h_oneofs(void) {
  pb_oneof_t o; o.descriptor = wild(); set_cursor(&o.cursor); pb_message_t m; set_message(&m); const pb_oneof_descriptor_t *d = wild();
  CHECK(pb_oneof_case(&o) == 0, "an invalid oneof has no case");
  pb_oneof_t q = pb_oneof_create(d, &m); CHECK(pb_oneof_error(&q) == PB_ERROR_INVALID, "an invalid message has no oneofs");
  pb_error_t err = pb_oneof_clear(&o); (void)err;                  /* nothing to clear */
  pb_oneof_destroy(&o); CHECK(pb_oneof_error(&o) == PB_ERROR_INVALID, "a destroyed oneof is invalid");
  REACH("oneofs"); }
