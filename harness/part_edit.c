/* part.c; its static functions can be called from the harness, and their
 * calls of one another are calls of contracts where a unit says so */
#include "core/buffer.h"
#include "core/common.h"
#include "core/stream.h"
#include "core/varint.h"
#include "core/descriptor.h"
#include "message/common.h"
#include "message/cursor.h"
#include "message/journal.h"
#include "message/message.h"
#include "message/part.h"
#define static
#include "message/part.c"
#undef static
pb_error_t lvl_adjust(pb_part_t *part, ptrdiff_t delta); pb_error_t lvl_prefix(pb_part_t *part, ptrdiff_t *delta); pb_error_t lvl_below(pb_part_t *part, pb_stream_t *stream, ptrdiff_t *delta);
pb_error_t call_adjust(pb_part_t *part, ptrdiff_t delta) { return lvl_adjust(part, delta); }
pb_error_t call_prefix(pb_part_t *part, ptrdiff_t *delta) { return lvl_prefix(part, delta); }
pb_error_t call_below(pb_part_t *part, pb_stream_t *stream, ptrdiff_t *delta) { return lvl_below(part, stream, delta); }
pb_error_t lvl_read(pb_stream_t *s, pb_type_t type, void *value); pb_error_t lvl_skip(pb_stream_t *s, pb_wiretype_t wt);
pb_error_t call_read(pb_stream_t *s, pb_type_t type, void *value) { return lvl_read(s, type, value); }
pb_error_t call_skip(pb_stream_t *s, pb_wiretype_t wt) { return lvl_skip(s, wt); }
