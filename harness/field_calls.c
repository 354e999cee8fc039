/* field.c; putting a value is called through its contract */
#include "message/field.c"
pb_error_t val_put(pb_field_t *field, const void *value);
pb_error_t call_put(pb_field_t *field, const void *value) { return val_put(field, value); }
