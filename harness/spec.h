/* Mathematical specification functions of the wire format (written from the
 * Protocol Buffers encoding rules, not from the code). */
#ifndef SPEC_H
#define SPEC_H
#include <stdint.h>
#include <stddef.h>

/* number of 7-bit groups of v, at least one */
static inline size_t spec_varint_size(uint64_t v) {
  return v < (1ull <<  7) ? 1 : v < (1ull << 14) ? 2 : v < (1ull << 21) ? 3 :
         v < (1ull << 28) ? 4 : v < (1ull << 35) ? 5 : v < (1ull << 42) ? 6 :
         v < (1ull << 49) ? 7 : v < (1ull << 56) ? 8 : v < (1ull << 63) ? 9 : 10; }

/* i-th byte of the canonical encoding of v */
static inline uint8_t spec_varint_byte(uint64_t v, size_t i) {
  uint8_t g = (uint8_t)((v >> (7 * i)) & 0x7f);
  return i + 1 < spec_varint_size(v) ? (uint8_t)(g | 0x80) : g; }

static inline uint32_t spec_zigzag32(int32_t v) {
  return v < 0 ? (uint32_t)(-(int64_t)v) * 2u - 1u : (uint32_t)v * 2u; }
static inline uint64_t spec_zigzag64(int64_t v) {
  return v < 0 ? (0 - (uint64_t)v) * 2u - 1u : (uint64_t)v * 2u; }

/* length of the varint at p within n bytes and at most max bytes; 0: none */
static inline size_t spec_varint_len(const uint8_t *p, size_t n, size_t max) {
  for (size_t i = 0; i < max; i++) {
    if (i >= n) return 0;
    if (!(p[i] & 0x80)) return i + 1;
  }
  return 0; }

/* value of the varint of len bytes at p, modulo 2^64 */
static inline uint64_t spec_varint_value(const uint8_t *p, size_t len) {
  uint64_t v = 0;
  for (size_t i = 0; i < 10; i++)
    if (i < len) v |= (uint64_t)(p[i] & 0x7f) << (7 * i);
  return v; }
#endif
