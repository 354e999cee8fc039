/* part.c; inserting a record is called through its contract */
#include "message/part.c"
void seq_init(pb_part_t *part, unsigned wiretype, pb_tag_t tag);
void call_init(pb_part_t *part, pb_wiretype_t wiretype, pb_tag_t tag) { seq_init(part, wiretype, tag); }
