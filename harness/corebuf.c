/* C08: buffers own a copy of their data and release it once. */
#include "ghost.h"
#include "core/buffer.h"

void h_create(void) {
  A_fail_resize = vf_bool(); A_calls = 0;
  size_t n = vf_size(1); uint8_t *x = vf_buf(n);
#ifdef VF_PROOF
  size_t w = (size_t)vf_in(); X = x; XW = w; XV = nondet_vf_byte(); W[0] = W[1] = w; V[0] = V[1] = nondet_vf_byte();
#endif
  pb_buffer_t b = pb_buffer_create_with_allocator(&A, x, n);
  if (A_fail_resize) {
    CHECK(!pb_buffer_valid(&b) && pb_buffer_error(&b) == PB_ERROR_ALLOC, "a failed allocation yields an invalid buffer");
    CHECK(A_live == 0 && b.data == NULL && b.size == 0, "which owns nothing");
    REACH("failed");
  } else {
    CHECK(pb_buffer_valid(&b) && pb_buffer_size(&b) == n && pb_buffer_data(&b) == A_block && A_block != x, "the buffer owns a block of its own");
    CHECK(A_size >= n && A_live == 1 && b.allocator == &A, "which is large enough");
#ifdef VF_PROOF
    if (w < n) { CHECK(V[0] == XV, "every byte is copied"); }
#else
    for (size_t i = 0; i < VF_CAP; i++) if (i < n) CHECK(b.data[i] == x[i], "every byte is copied");
#endif
    REACH("created");
  }
  /* what is left of a block may be shorter, and nothing */
  if (!A_fail_resize) b.size = vf_range(0, n);
  int made = A_calls;
  pb_buffer_destroy(&b);
  CHECK(A_live == 0 && A_calls == made + (A_fail_resize ? 0 : 1), "destroying returns the block once");
  CHECK(!pb_buffer_valid(&b), "a destroyed buffer is invalid");
  made = A_calls; pb_buffer_destroy(&b);
  CHECK(A_live == 0 && A_calls == made, "destroying again does nothing");

}

void h_grow(void) {
  A_fail_resize = vf_bool(); A_calls = 0;
  size_t n = vf_range(0, VF_CAP), c = vf_range(0, VF_CAP), k = vf_size(1); REQUIRE(c >= n); uint8_t *d = c ? vf_buf(c) : NULL;
  A_block = d; A_size = c; A_live = c ? 1 : 0;
  pb_buffer_t b = pb_buffer_create_empty_with_allocator(&A);
  CHECK(pb_buffer_valid(&b) && pb_buffer_empty(&b) && !A_calls, "an empty buffer owns nothing");
  b.data = d; b.size = n;
#ifdef VF_PROOF
  size_t w = (size_t)vf_in(); X = NULL; W[0] = W[1] = w; V[0] = V[1] = nondet_vf_byte(); uint8_t v = V[0];
#else
  uint8_t old[VF_CAP + 1]; for (size_t i = 0; i < VF_CAP; i++) if (i < n) old[i] = d[i];
#endif
  uint8_t *r = pb_buffer_grow(&b, k);
  CHECK((r == NULL) == (A_fail_resize != 0), "growing fails exactly when the allocator does");
  CHECK(b.allocator == &A && pb_buffer_data(&b) == A_block, "the buffer keeps its block and allocator");
  if (r) {
    CHECK(pb_buffer_size(&b) == n + k && A_size >= n + k, "the buffer grows by the request");
    CHECK(r == b.data + n, "the new room follows the old bytes");
    REACH("grown");
  } else {
    CHECK(pb_buffer_size(&b) == n && b.data == d, "a failed growth leaves the buffer");
    REACH("failed");
  }
#ifdef VF_PROOF
  if (w < n) { CHECK(V[0] == v, "the old bytes are kept"); }
#else
  for (size_t i = 0; i < VF_CAP; i++) if (i < n) CHECK(b.data[i] == old[i], "the old bytes are kept");
#endif
}

/* zero-copy buffers alias the given memory; the fake allocator has no
 * procedures, so that any call of one is a failed pointer obligation */
void h_zero_copy(void) {
  size_t n = vf_size(1); uint8_t *x = vf_buf(n);
  pb_buffer_t b = pb_buffer_create_zero_copy(x, n);
  CHECK(pb_buffer_valid(&b) && pb_buffer_data(&b) == x && pb_buffer_size(&b) == n, "zero-copy buffers alias the memory");
  CHECK(pb_buffer_grow(&b, vf_size(1)) == NULL, "they do not grow");
  CHECK(pb_buffer_data(&b) == x && pb_buffer_size(&b) == n, "and stay as they are");
  pb_buffer_destroy(&b);
#ifdef VF_CBMC
  CHECK(__CPROVER_r_ok(x, n), "destroying leaves the memory");
#endif
  free(x);
  REACH("zero-copy");
}

void h_invalid(void) {
  pb_buffer_t b = pb_buffer_create_invalid();
  CHECK(!pb_buffer_valid(&b) && pb_buffer_grow(&b, vf_size(1)) == NULL, "invalid buffers do not grow");
  pb_buffer_destroy(&b);
  CHECK(!b.allocator && !b.data && !b.size, "and can be destroyed");
  REACH("invalid");
}

/* the default allocator is malloc, realloc and free */
void h_default(void) {
  size_t n = vf_size(1), k = vf_size(1), w = (size_t)vf_in() % 8;
  uint8_t x[8], y[8]; for (int i = 0; i < 8; i++) { x[i] = vf_u8(); y[i] = vf_u8(); }
  REQUIRE(n <= 4 && k <= 4);
  pb_buffer_t b = pb_buffer_create(x, n);
  REQUIRE(pb_buffer_valid(&b));
  uint8_t *r = pb_buffer_grow(&b, k);
  if (r) for (int i = 0; i < 4; i++) if ((size_t)i < k) r[i] = y[i];
  CHECK(b.size == n + (r ? k : 0), "size");
  if (w < b.size) { CHECK(b.data[w] == (w < n ? x[w] : y[w - n]), "contents"); }
  pb_buffer_destroy(&b);
  CHECK(!b.data && !b.size, "destroyed");
  pb_buffer_t c = pb_buffer_create_empty();
  CHECK(pb_buffer_valid(&c) && !c.size, "empty");
  r = pb_buffer_grow(&c, k);
  if (r) for (int i = 0; i < 4; i++) if ((size_t)i < k) r[i] = y[i];
  if (r && w < k) { CHECK(c.data[w] == y[w], "contents after growing an empty buffer"); }
  pb_buffer_destroy(&c);
  REACH("default");
}
