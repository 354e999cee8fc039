/* Native driver: vf_native FILE (replay) | --random SEED COUNT */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
void VF_ENTRY(void);
static uint64_t *in; static size_t in_n, in_p; static int rnd; static uint64_t st;
static uint64_t mix(void){ st ^= st << 13; st ^= st >> 7; st ^= st << 17; return st; }
static uint64_t lg[1 << 16]; static size_t lg_n; static unsigned long reached;
uint64_t vf_in(void) {
  uint64_t v;
  if (rnd) { uint64_t r = mix();
    switch (r & 7) { case 0: v = mix() & 7; break; case 1: v = mix() & 0xff; break;
      case 2: v = mix() & 31; break; case 3: v = (mix() & 1) ? ~0ull << (mix() & 63) : 1ull << (mix() & 63); break;
      case 4: v = 0x80 | (mix() & 0x7f); break; case 5: v = mix() & 0xffffffff; break; default: v = mix(); } }
  else v = in_p < in_n ? in[in_p++] : 0;
  if (lg_n < sizeof lg / sizeof *lg) lg[lg_n++] = v;
  return v; }
static int case_mode; static char logpath[4096];
static void dump(void) { if (!logpath[0]) return; FILE *f = fopen(logpath, "w"); if (!f) return;
  for (size_t i = 0; i < lg_n; i++) fprintf(f, "%llu\n", (unsigned long long)lg[i]); fclose(f); }
void vf_reject(void) { _exit(77); }
void vf_fail(const char *msg, const char *file, int line) {
  fprintf(stderr, "CHECK FAILED: %s (%s:%d)\n", msg, file, line); dump(); _exit(1); }
void vf_reach(const char *msg) { (void)msg; reached++; }
/* 10 s of processor time without an end */
static void endless(int n) { (void)n; static const char m[] = "CHECK FAILED: no end\n"; if (write(2, m, sizeof m - 1)) {} dump(); _exit(1); }
static void limit(void) { struct itimerval t = { { 0, 0 }, { 10, 0 } }; signal(SIGPROF, endless); setitimer(ITIMER_PROF, &t, NULL); }
void __asan_set_death_callback(void (*)(void)) __attribute__((weak));
int main(int c, char **v) {
  if (__asan_set_death_callback) __asan_set_death_callback(dump);
  if (c > 3 && !strcmp(v[1], "--random")) {
    rnd = 1; unsigned long seed = strtoul(v[2], 0, 10), n = strtoul(v[3], 0, 10), ok = 0;
    if (c > 4) snprintf(logpath, sizeof logpath, "%s", v[4]);
    for (unsigned long i = 0; i < n; i++) {
      fflush(stdout); fflush(stderr);
      pid_t p = fork();
      if (!p) { limit(); st = (seed + 1) * 0x9E3779B97F4A7C15ull + i * 0xD1B54A32D192ED03ull; if (!st) st = 1; mix(); mix(); VF_ENTRY(); _exit(reached ? 0 : 77); }
      int s; waitpid(p, &s, 0);
      if (WIFEXITED(s) && WEXITSTATUS(s) == 77) continue;
      if (WIFEXITED(s) && WEXITSTATUS(s) == 0) { ok++; continue; }
      fprintf(stderr, "case %lu of seed %lu failed (status %x)\n", i, seed, s); return 1; }
    printf("random: %lu run, %lu effective\n", n, ok); return 0; }
  FILE *f = fopen(v[1], "r"); if (!f) return 99;
  in = malloc(sizeof(uint64_t) << 16); unsigned long long x;
  while (in_n < (1 << 16) && fscanf(f, "%llu", &x) == 1) in[in_n++] = x;
  fclose(f); limit(); VF_ENTRY(); return 0; }
