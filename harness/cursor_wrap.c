/* the static functions of cursor.c, callable from the harness */
#include "message/cursor.c"
int vf_next(pb_cursor_t *cursor) { return next(cursor); }
int vf_next_packed(pb_cursor_t *cursor) { return next_packed(cursor); }
