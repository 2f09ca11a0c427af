/* Native counterpart of the engine's harness interface: used only to replay
   inputs the solver produced. */
#define _GNU_SOURCE
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
static FILE *in; static int opened; static int allow;
void vf_sym(unsigned char *p, size_t n, const char *nm) {
  (void)nm;
  if (!opened) { const char *f = getenv("VF_INPUT"); if (f) in = fopen(f, "rb"); opened = 1; }
  memset(p, 0, n);
  if (in) { size_t k = fread(p, 1, n, in); (void)k; }
}
void vf_assume(int c) { if (!c) { printf("VF_ASSUME_FALSE\n"); fflush(stdout); _exit(77); } }
void vf_assert(int c, const char *m) {
  if (!c) { printf("VF_ASSERT_FAIL %s\n", m); fflush(stdout); if (!getenv("VF_KEEP_GOING")) _exit(3); }
}
void vf_cover(const char *m) { printf("VF_COVER %s\n", m); }
void vf_expect(const char *m) { (void)m; }
void vf_out(uint64_t v) { printf("VF_OUT %llx\n", (unsigned long long)v); }
int64_t vf_param(int k, int64_t d) {
  char b[32]; snprintf(b, sizeof b, "VF_P_%d", k);
  const char *e = getenv(b); return e ? strtoll(e, 0, 0) : d;
}
uint64_t vf_concretize(uint64_t v) { return v; }
void vf_allow_panic(int c) { allow = c; }
void vf_end(void) { printf("VF_END\n"); fflush(stdout); _exit(0); }
void vf_log(const char *m, uint64_t v) { printf("VF_LOG %s %llx\n", m, (unsigned long long)v); }
int vf_panic_allowed(void) { return allow; }
/* same deterministic stream as the engine */
static uint64_t rng = 0x123456789abcdef1ULL;
ssize_t getrandom(void *p, size_t n, unsigned fl) {
  (void)fl; unsigned char *b = p;
  for (size_t i = 0; i < n; i++) { rng = rng * 6364136223846793005ULL + 1442695040888963407ULL; b[i] = (rng >> 33) & 0xff; }
  return (ssize_t)n;
}
