/* validator.c; its static functions can be called from the harness, and call
 * one another through their contracts */
#include "core/common.h"
#include "core/decoder.h"
#include "core/descriptor.h"
#include "util/validator.h"
#define static
#include "util/validator.c"
#undef static
pb_error_t val_check(const pb_decoder_t *decoder);
pb_error_t call_check(const pb_decoder_t *decoder) { return val_check(decoder); }
