/* Operations on invalid core handles (C04, C05, C25). */
#include "vf.h"
#include "core/buffer.h"
#include "core/decoder.h"
#include "core/descriptor.h"
#include "core/encoder.h"
#include <protobluff/core/string.h>

static pb_descriptor_t desc = { { NULL, 0 }, NULL };
static int U;
static pb_error_t never(const pb_field_descriptor_t *f, const void *value, void *user) {
  CHECK(0, "no handler call on an invalid decoder"); return PB_ERROR_NONE; }
void h_decode_invalid(void) {
  pb_buffer_t b = pb_buffer_create_invalid();
  pb_decoder_t dec = pb_decoder_create(&desc, &b);
  CHECK(!pb_decoder_valid(&dec) && pb_decoder_decode(&dec, never, &U) == PB_ERROR_INVALID, "decoding an invalid buffer is refused");
  REACH("invalid");
}

void h_encode_invalid(void) {
  pb_encoder_t e = { &desc, pb_buffer_create_invalid() }; uint64_t v = vf_in(); uint32_t tag = vf_u32(); size_t n = (size_t)vf_in();
  REQUIRE(tag != 0 && n != 0);
  CHECK(!pb_encoder_valid(&e) && pb_encoder_encode(&e, tag, &v, n) == PB_ERROR_INVALID, "encoding with an invalid encoder is refused");
  CHECK(!pb_encoder_valid(&e) && !e.buffer.data && !e.buffer.size, "and changes nothing");
  pb_encoder_destroy(&e);
  pb_encoder_t g = pb_encoder_create(&desc); pb_encoder_destroy(&g);
  CHECK(!pb_encoder_valid(&g) && pb_encoder_encode(&g, tag, &v, n) == PB_ERROR_INVALID, "so is a destroyed one");
  pb_encoder_destroy(&g);
  REACH("invalid");
}
