/* C19: histories of a chunk allocator against a list of live blocks.  The
 * system allocator under it is counted and fails when told to. */
#include "vf.h"
#include <assert.h>
#include <protobluff/core.h>
#include "core/allocator.h"
#include "core/common.h"
#include <protobluff/util/chunk_allocator.h>
static uint64_t S;
static uint32_t R(void) { S ^= S << 13; S ^= S >> 7; S ^= S << 17; return (uint32_t)(S >> 16); }
static uint32_t RN(uint32_t n) { return R() % n; }
/* system blocks: each is handed out and given back once */
static struct { uint8_t *p; size_t n; } sys[256]; static int sysn, failing;
static void *sys_malloc(size_t n) { if (failing) return NULL; if (sysn >= 250) abort(); sys[sysn].p = malloc(n); sys[sysn].n = n; return sys[sysn++].p; }
static void sys_free(void *p) { for (int i = 0; i < sysn; i++) if (sys[i].p == p) { memmove(&sys[i], &sys[i + 1], (sysn - i - 1) * sizeof *sys); sysn--; free(p); return; }
  CHECK(0, "only what was allocated is freed, once"); }
static void *sys_realloc(void *p, size_t n) {
  if (failing) return NULL;
  for (int i = 0; i < sysn; i++) if (sys[i].p == p) { uint8_t *q = malloc(n); memcpy(q, p, sys[i].n < n ? sys[i].n : n); free(p); sys[i].p = q; sys[i].n = n; return q; }
  CHECK(0, "only what was allocated is resized"); return NULL; }
#define malloc(n) sys_malloc(n)
#define realloc(p, n) sys_realloc(p, n)
#define free(p) sys_free(p)
#include "util/chunk_allocator.c"
#undef malloc
#undef realloc
#undef free
static struct { uint8_t *p; size_t n; uint8_t x; } B[128]; static int bn;
static void all_there(void) {
  for (int i = 0; i < bn; i++) { int in = 0;
    for (size_t k = 0; k < B[i].n; k++) CHECK(B[i].p[k] == (uint8_t)(B[i].x + k), "a block keeps its contents until it is freed");
    for (int s = 0; s < sysn; s++) if (B[i].p >= sys[s].p && B[i].p + B[i].n <= sys[s].p + sys[s].n) in = 1;
    CHECK(in, "a block lies in memory the allocator owns");
    CHECK(!((uintptr_t)B[i].p & (sizeof(void *) - 1)), "a block is aligned");
    for (int k = 0; k < i; k++) CHECK(B[k].p + B[k].n <= B[i].p || B[i].p + B[i].n <= B[k].p, "blocks do not overlap"); } }
static void fill(int i) { B[i].x = (uint8_t)R(); for (size_t k = 0; k < B[i].n; k++) B[i].p[k] = (uint8_t)(B[i].x + k); }
void h_chunks(void) {
  S = vf_u64() * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull; if (!S) S = 1; R(); R();
  static const size_t caps[] = { 1, 2, 7, 8, 16, 64, 100, 4096 };
  for (int it = 0; it < 30; it++) {
    sysn = bn = failing = 0; size_t cap = caps[RN(8)];
    pb_allocator_t a = RN(5) ? pb_chunk_allocator_create_with_capacity(cap) : pb_chunk_allocator_create(); if (sysn && !RN(3)) failing = 0;
    for (int step = 0; step < 40; step++) {
      size_t n = 1 + (RN(3) ? RN(3 * (uint32_t)cap + 3) : RN(40)) % 5000; failing = RN(8) == 0;
      switch (RN(5)) {
        case 0: case 1: { if (bn >= 100) break; uint8_t *p = pb_allocator_allocate(&a, n);
          CHECK(!p == failing, "allocation fails exactly with the system"); if (p) { B[bn].p = p; B[bn].n = n; fill(bn++); REACH("allocated"); } break; }
        case 2: case 3: { if (bn >= 100) break; int i = bn && RN(6) ? (int)RN(bn) : -1; uint8_t *p = pb_allocator_resize(&a, i < 0 ? NULL : B[i].p, n);
          if (!p) { CHECK(failing, "resizing fails only with the system"); break; }
          if (i < 0) { B[bn].p = p; B[bn].n = n; fill(bn++); }
          else { size_t m = B[i].n < n ? B[i].n : n; for (size_t k = 0; k < m; k++) CHECK(p[k] == (uint8_t)(B[i].x + k), "resizing keeps the contents"); B[i].p = p; B[i].n = n; fill(i); REACH("resized"); } break; }
        default: { if (!bn) break; int i = (int)RN(bn); pb_allocator_free(&a, B[i].p); B[i] = B[--bn]; REACH("freed"); } }
      all_there(); }
    pb_chunk_allocator_destroy(&a); CHECK(!sysn, "destroying frees everything"); } }
