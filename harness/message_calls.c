/* message.c; creating a message within another is called through its contract */
#include "message/message.c"
pb_message_t nst_within(pb_message_t *message, pb_tag_t tag);
pb_message_t call_within(pb_message_t *message, pb_tag_t tag) { return nst_within(message, tag); }
