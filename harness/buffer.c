/* C07: writing into and clearing from a buffer is an exact splice. */
#include "ghost.h"
#include "core/buffer.h"
#include "message/buffer.h"

/* buffer of any size (possibly empty) over the failing allocator, or over
 * the zero-copy one when zc */
#define PRE \
  A_fail_resize = vf_bool(); A_calls = 0; \
  size_t n = vf_range(0, VF_CAP); uint8_t *d = n ? vf_buf(n) : NULL; \
  int zc = vf_bool(); REQUIRE(!zc || n); \
  A_block = d; A_size = n; A_live = n ? 1 : 0; \
  pb_allocator_t *al = zc ? &allocator_zero_copy : &A; \
  pb_buffer_t b = n ? pb_buffer_create_zero_copy_internal(d, n) : pb_buffer_create_empty_with_allocator(al); \
  b.allocator = al; \
  size_t s = (size_t)vf_in(), e = (size_t)vf_in(); OFFSETS
#ifdef VF_CBMC
#define OFFSETS
#else
#define OFFSETS s %= VF_CAP + 3; e %= VF_CAP + 3;
#endif

#if defined CASE_GROW
#define CASE(k) REQUIRE((k) > e - s)
#elif defined CASE_SHRINK
#define CASE(k) REQUIRE((k) < e - s)
#elif defined CASE_SAME
#define CASE(k) REQUIRE((k) == e - s)
#else
#define CASE(k)
#endif

void h_write(void) { PRE;
  size_t k = vf_size(1); uint8_t *x = vf_buf(k);
  CASE(k);
  int range = s <= e && e <= n; size_t nn = n - (e - s) + k;
#ifdef VF_PROOF
  size_t w = (size_t)vf_in();
  X = x; XW = w - s; XV = nondet_vf_byte();
  W[0] = w; V[0] = nondet_vf_byte();
  W[1] = w - (k - (e - s)); V[1] = W[1] == W[0] ? V[0] : nondet_vf_byte();
  uint8_t same = V[0], splice = w < s ? V[0] : w < s + k ? XV : V[1];
#else
  uint8_t old[VF_CAP + 1]; for (size_t i = 0; i < VF_CAP; i++) if (i < n) old[i] = d[i];
#endif
  pb_error_t r = pb_buffer_write(&b, s, e, x, k);
  if (!range) { CHECK(r == PB_ERROR_OFFSET, "a range outside the buffer is rejected"); }
  else if (k != e - s && (zc || (A_fail_resize && k > e - s))) { CHECK(r == PB_ERROR_ALLOC, "a failed or forbidden allocation is reported"); }
  else { CHECK(r == PB_ERROR_NONE, "otherwise the write succeeds"); }
  CHECK(b.allocator == al, "allocator kept");
  if (!r) {
    CHECK(b.size == nn, "size after the splice");
    if (nn && !zc) { CHECK(b.data == A_block && A_size >= nn, "the buffer owns enough memory"); }
    if (zc) { CHECK(b.data == d && A_calls == 0, "zero-copy memory is kept, nothing is allocated"); }
#ifdef VF_PROOF
    if (w < nn) { CHECK(V[0] == splice, "prefix, written bytes, shifted suffix"); }
#else
    for (size_t i = 0; i < 3 * VF_CAP; i++) if (i < nn)
      CHECK(b.data[i] == (i < s ? old[i] : i < s + k ? x[i - s] : old[i - k + (e - s)]), "prefix, written bytes, shifted suffix");
#endif
    REACH("written");
  } else {
    CHECK(b.size == n && b.data == d, "a failed write leaves the buffer");
#ifdef VF_PROOF
    if (w < n) { CHECK(V[0] == same, "a failed write leaves every byte"); }
#else
    for (size_t i = 0; i < VF_CAP; i++) if (i < n) CHECK(b.data[i] == old[i], "a failed write leaves every byte");
#endif
    REACH("refused");
  }
}

void h_clear(void) { PRE;
  int range = s <= e && e <= n; size_t nn = n - (e - s);
#ifdef VF_PROOF
  size_t w = (size_t)vf_in();
  X = NULL;
  W[0] = w; V[0] = nondet_vf_byte();
  W[1] = w + (e - s); V[1] = W[1] == W[0] ? V[0] : nondet_vf_byte();
  uint8_t same = V[0], splice = w < s ? V[0] : V[1];
#else
  uint8_t old[VF_CAP + 1]; for (size_t i = 0; i < VF_CAP; i++) if (i < n) old[i] = d[i];
#endif
  pb_error_t r = pb_buffer_clear(&b, s, e);
  if (!range) { CHECK(r == PB_ERROR_OFFSET, "a range outside the buffer is rejected"); }
  else if (e != s && zc) { CHECK(r == PB_ERROR_ALLOC, "zero-copy memory cannot be cleared"); }
  else { CHECK(r == PB_ERROR_NONE, "otherwise clearing always succeeds"); }
  CHECK(b.allocator == al, "allocator kept");
  if (!r) {
    CHECK(b.size == nn, "size after the splice");
    if (nn && !zc) { CHECK(b.data == A_block && A_size >= nn, "the buffer owns enough memory"); }
    if (!nn && !zc) { CHECK(A_live == 0 && b.data == NULL, "an emptied buffer returns its memory"); }
    if (zc) { CHECK(b.data == d && A_calls == 0, "zero-copy memory is kept, nothing is allocated"); }
#ifdef VF_PROOF
    if (w < nn) { CHECK(V[0] == splice, "prefix, then shifted suffix"); }
#else
    for (size_t i = 0; i < VF_CAP; i++) if (i < nn)
      CHECK(b.data[i] == (i < s ? old[i] : old[i + (e - s)]), "prefix, then shifted suffix");
#endif
    REACH("cleared");
  } else {
    CHECK(b.size == n && b.data == d, "a failed clear leaves the buffer");
#ifdef VF_PROOF
    if (w < n) { CHECK(V[0] == same, "a failed clear leaves every byte"); }
#else
    for (size_t i = 0; i < VF_CAP; i++) if (i < n) CHECK(b.data[i] == old[i], "a failed clear leaves every byte");
#endif
    REACH("refused");
  }
}

void h_write_invalid(void) {
  pb_buffer_t b = pb_buffer_create_invalid(); uint8_t x = vf_u8();
  CHECK(!pb_buffer_valid(&b), "an invalid buffer is recognised");
  CHECK(pb_buffer_write(&b, 0, 0, &x, 1) == PB_ERROR_INVALID, "writing to an invalid buffer is refused");
  CHECK(pb_buffer_clear(&b, 0, 0) == PB_ERROR_INVALID, "clearing an invalid buffer is refused");
  CHECK(!b.allocator && !b.data && !b.size, "and has no effect");
  REACH("invalid");
}
