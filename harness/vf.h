/* Shared by every harness.  One harness text serves three uses:
 *
 *   proof    (cbmc, VF_PROOF)  symbolic sizes without bound; libc copies are
 *                              contracts over ghost bytes where stated
 *   bounded  (cbmc, VF_BND=n)  same text, buffers of at most n bytes
 *   native   (gcc/clang+ASan)  same text against the compiled code, inputs
 *                              from a replay file or a seeded generator
 */
#ifndef VF_H
#define VF_H
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

#ifdef VF_CBMC
uint64_t nondet_vf_u64(void);
extern uint64_t VF_IN[]; extern unsigned VF_N;
static inline uint64_t vf_in(void) {
  uint64_t v = nondet_vf_u64(); VF_IN[VF_N] = v; VF_N++; return v; }
#define REQUIRE(c) __CPROVER_assume(c)
#define CHECK(c, msg) __CPROVER_assert((c), msg)
#ifdef VF_NOREACH
#define REACH(msg) ((void)0)
#else
#define REACH(msg) __CPROVER_assert(0, "REACH " msg)
#endif
#else
uint64_t vf_in(void);
void vf_reject(void);
void vf_fail(const char *msg, const char *file, int line);
void vf_reach(const char *msg);
#define REQUIRE(c) do { if (!(c)) vf_reject(); } while (0)
#define CHECK(c, msg) do { if (!(c)) vf_fail(msg, __FILE__, __LINE__); } while (0)
#define REACH(msg) vf_reach(msg)
#endif

#define VF_SIZE_MAX ((size_t)1 << 48)   /* object sizes the machine can have */

static inline uint8_t  vf_u8(void)  { return (uint8_t)vf_in(); }
static inline uint32_t vf_u32(void) { return (uint32_t)vf_in(); }
static inline uint64_t vf_u64(void) { return vf_in(); }
static inline int      vf_bool(void){ return (int)(vf_in() & 1); }

#ifdef VF_PROOF
#define VF_CAP VF_SIZE_MAX
#else
#ifndef VF_BND
#define VF_BND 24
#endif
#define VF_CAP ((size_t)VF_BND)
#endif

/* a size in [lo, cap] */
static inline size_t vf_size(size_t lo) {
  size_t n = (size_t)vf_in();
#ifndef VF_CBMC
  if (n > VF_CAP || n < lo) n = lo + n % (VF_CAP - lo + 1);
#endif
  REQUIRE(n >= lo && n <= VF_CAP); return n; }

/* a value in [lo, hi] */
static inline uint64_t vf_range(uint64_t lo, uint64_t hi) {
  uint64_t n = vf_in();
#ifndef VF_CBMC
  if (n > hi || n < lo) n = lo + n % (hi - lo + 1);
#endif
  REQUIRE(n >= lo && n <= hi); return n; }

/* an object of exactly n bytes with arbitrary contents (n > 0) */
static inline uint8_t *vf_buf(size_t n) {
  uint8_t *p = malloc(n);
  REQUIRE(p != NULL);
#ifndef VF_PROOF
  for (size_t i = 0; i < VF_CAP; i++) if (i < n) p[i] = vf_u8();
#endif
  return p; }
#endif
