/* Ghost bytes: the contents of one tracked object (the buffer) at two
 * arbitrary offsets W[0], W[1], and of one source object X at offset XW.
 * In the proof, memcpy / memmove / the allocator are contracts over these
 * bytes (what the C standard says about each single byte, for a byte chosen
 * arbitrarily); in the bounded and native runs the real functions run and
 * every byte is compared. */
#ifndef GHOST_H
#define GHOST_H
#include "vf.h"
#include "core/allocator.h"

#ifdef VF_PROOF
uint8_t nondet_vf_byte(void);
size_t W[2]; uint8_t V[2]; const uint8_t *X; size_t XW; uint8_t XV;
static uint8_t ghost_at(const uint8_t *p, size_t i) {
  size_t o = __CPROVER_POINTER_OFFSET(p) + i;
  if (X && __CPROVER_same_object(p, X)) return o == XW ? XV : nondet_vf_byte();
  if (o == W[0]) return V[0];
  if (o == W[1]) return V[1];
  return nondet_vf_byte(); }
static void ghost_copy(uint8_t *d, const uint8_t *s, size_t n) {
  size_t o = __CPROVER_POINTER_OFFSET(d);
  uint8_t v0 = V[0], v1 = V[1];
  if (W[0] >= o && W[0] - o < n) v0 = ghost_at(s, W[0] - o);
  if (W[1] >= o && W[1] - o < n) v1 = W[1] == W[0] ? v0 : ghost_at(s, W[1] - o);
  V[0] = v0; V[1] = v1; }
void *memmove(void *d, const void *s, size_t n) {
  CHECK(__CPROVER_r_ok(s, n), "memmove source readable");
  CHECK(__CPROVER_w_ok(d, n), "memmove destination writable");
  ghost_copy(d, s, n); return d; }
void *memcpy(void *d, const void *s, size_t n) {
  CHECK(__CPROVER_r_ok(s, n), "memcpy source readable");
  CHECK(__CPROVER_w_ok(d, n), "memcpy destination writable");
  CHECK(!__CPROVER_same_object(d, s) || n == 0, "memcpy regions are disjoint");
  ghost_copy(d, s, n); return d; }
#endif

/* an arbitrary allocator: any request may fail */
static int A_fail_resize, A_calls, A_live;
static void *A_block; static size_t A_size;
static void *a_allocate(void *data, size_t n) {
  CHECK(n > 0, "allocator is asked for at least one byte");
  A_calls++;
  if (A_fail_resize) return NULL;
  uint8_t *p = malloc(n); REQUIRE(p != NULL);
  A_live++; A_block = p; A_size = n; return p; }
static void *a_resize(void *data, void *block, size_t n) {
  CHECK(n > 0, "allocator is asked for at least one byte");
  CHECK(!block || block == A_block, "only the live block is resized");
  A_calls++;
  if (A_fail_resize) return NULL;
  uint8_t *p = malloc(n); REQUIRE(p != NULL);
  size_t m = block ? (A_size < n ? A_size : n) : 0;
#ifdef VF_PROOF
  if (W[0] >= m) V[0] = nondet_vf_byte();
  if (W[1] >= m) V[1] = W[1] == W[0] ? V[0] : nondet_vf_byte();
#else
  for (size_t i = 0; i < 3 * VF_CAP; i++) if (i < n) { p[i] = i < m ? ((uint8_t *)block)[i] : 0xA5; }
#endif
  if (block) free(block); else A_live++;
  A_block = p; A_size = n; return p; }
static void a_free(void *data, void *block) {
  CHECK(block && block == A_block, "only the live block is freed");
  A_calls++; A_live--; free(block); A_block = NULL; A_size = 0; }
static pb_allocator_t A = { { a_allocate, a_resize, a_free }, NULL };
#endif
