/* Native side of the harness intrinsics: replays concrete values given by the engine. */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static char *in, *cs;
static int panic_ok, failed;
int irs_rt_failed(void) { return failed; }
static uint64_t tier;
void irs_rt_init(void) {
  char *p = getenv("IRS_INPUTS"); in = p ? strdup(p) : strdup("");
  p = getenv("IRS_CASES"); cs = p ? strdup(p) : strdup("");
  p = getenv("IRS_TIER"); tier = p ? strtoull(p, 0, 10) : 0;
}
static char *next(char **s) {
  if (!*s || !**s) return 0;
  char *r = *s, *c = strchr(r, ',');
  if (c) { *c = 0; *s = c + 1; } else *s = r + strlen(r);
  return r;
}
double irs_f64(double lo, double hi) {
  if (lo == hi) return lo;
  char *t = next(&in);
  if (!t || *t != 'f') return lo;
  uint64_t b = strtoull(t + 1, 0, 16);
  double d; memcpy(&d, &b, 8); return d;
}
int64_t irs_i64(int64_t lo, int64_t hi) {
  if (lo == hi) return lo;
  char *t = next(&in);
  if (!t || *t != 'i') return lo;
  return strtoll(t + 1, 0, 10);
}
uint64_t irs_case(uint64_t n) { if (n <= 1) { char *t = next(&cs); (void)t; return 0; } char *t = next(&cs); return t ? strtoull(t, 0, 10) : 0; }
uint64_t irs_tier(void) { return tier; }
uint64_t irs_symbolic(void) { return 0; }
void irs_exact(_Bool b) { (void)b; }
void irs_panic_ok(_Bool b) { panic_ok = b; }
int irs_rt_panic_ok(void) { return panic_ok; }
void irs_assume(_Bool b) { if (!b) { fflush(stdout); _Exit(failed ? 3 : 4); } }
int64_t irs_concretize(int64_t v) { return v; }
void irs_reach(const char *p, uint64_t n) { (void)p; (void)n; }
void irs_trace(double v) { uint64_t b; memcpy(&b, &v, 8); printf("IRS-TRACE %016llx\n", (unsigned long long)b); }
void irs_check(_Bool b, const char *p, uint64_t n) {
  if (!b) { printf("IRS-VIOLATION %.*s\n", (int)n, p); failed = 1; }
}
