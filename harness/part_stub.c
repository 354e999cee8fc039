/* the functions of part.c and cursor.c that only look at or drop a handle */
#define pb_part_write real_write
#define pb_part_create real_create
#define pb_part_create_from_cursor real_part_from_cursor
#define pb_cursor_create real_cursor_create
#include "message/part.c"
void pb_cursor_destroy(pb_cursor_t *cursor) { pb_message_destroy(&(cursor->message)); cursor->error = PB_ERROR_INVALID; }
