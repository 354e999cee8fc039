/* one file of the message layer; its calls of others in the same file are
 * calls of their contracts where a unit says so */
#include "core/descriptor.h"
#include "message/common.h"
#include "message/cursor.h"
#include "message/journal.h"
#include "message/message.h"
#include "message/field.h"
pb_field_t ops_field_create(pb_message_t *m, pb_tag_t tag); pb_cursor_t ops_cursor_create(pb_message_t *m, pb_tag_t tag); pb_cursor_t ops_cursor_unsafe(pb_message_t *m, pb_tag_t tag);
#if defined OF_FIELD
#include "message/field.c"
pb_field_t call_field_create(pb_message_t *m, pb_tag_t tag) { return ops_field_create(m, tag); }
#elif defined OF_CURSOR
#include "message/cursor.c"
pb_cursor_t call_cursor_create(pb_message_t *m, pb_tag_t tag) { return ops_cursor_create(m, tag); }
pb_cursor_t call_cursor_unsafe(pb_message_t *m, pb_tag_t tag) { return ops_cursor_unsafe(m, tag); }
#endif
