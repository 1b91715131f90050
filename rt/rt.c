// Native side of the harness API: replays a list of input values against the real compiled code.
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <stdbool.h>
#include <unistd.h>
#include <math.h>
static uint64_t *vals; static size_t nvals, pos; static int inited;
static void init(void) {
  if (inited) return; inited = 1;
  const char *f = getenv("VH_VALUES"); if (!f) return;
  FILE *h = fopen(f, "r"); if (!h) { fprintf(stderr, "VH: cannot open values\n"); exit(99); }
  size_t cap = 64; vals = malloc(cap * 8); unsigned long long v;
  while (fscanf(h, "%llu", &v) == 1) { if (nvals == cap) { cap *= 2; vals = realloc(vals, cap * 8); } vals[nvals++] = v; }
  fclose(h);
}
static uint64_t pop(void) { init(); if (pos >= nvals) { fprintf(stdout, "VH-OUT-OF-VALUES\n"); fflush(stdout); _exit(98); } return vals[pos++]; }
uint8_t vsym_u8(void) { return (uint8_t)pop(); }
uint16_t vsym_u16(void) { return (uint16_t)pop(); }
uint32_t vsym_u32(void) { return (uint32_t)pop(); }
uint64_t vsym_u64(void) { return pop(); }
bool vsym_bool(void) { return pop() != 0; }
uint64_t vsym_range(uint64_t lo, uint64_t hi) { (void)lo; (void)hi; return pop(); }
int64_t vsym_int(int64_t lo, int64_t hi) { (void)lo; (void)hi; return (int64_t)pop(); }
float vsym_dyadic(int64_t lo, int64_t hi, uint32_t sh) { (void)lo; (void)hi; return (float)ldexp((double)(int64_t)pop(), -(int)sh); }
float vsym_f32(void) { uint32_t x = (uint32_t)pop(); float f; memcpy(&f, &x, 4); return f; }
double vsym_f64(void) { uint64_t x = pop(); double f; memcpy(&f, &x, 8); return f; }
void vassume(bool c) { if (!c) { printf("VH-ASSUME-FALSE\n"); fflush(stdout); _exit(97); } }
void vassert_(bool c, const char *p, size_t n) { if (!c) { printf("VH-VIOLATION %.*s\n", (int)n, p); fflush(stdout); if (!getenv("VH_CONTINUE")) _exit(10); } }
void vcover(uint32_t id) { (void)id; }
void vobserve(uint64_t v) { printf("OBS %llu\n", (unsigned long long)v); }
void vobserve_f32(float f) { uint32_t x; if (f == 0) f = 0; memcpy(&x, &f, 4); if (x == 0x80000000u) x = 0; printf("OBS %u\n", x); }
static bool panic_ok;
void vpanic_ok(bool b) { panic_ok = b; }
bool vpanic_is_ok(void) { return panic_ok; }
uint64_t vparam_(const char *p, size_t n, uint64_t d) { char b[128] = "VH_PARAM_"; size_t k = strlen(b); if (n > 100) return d; memcpy(b + k, p, n); b[k + n] = 0; const char *e = getenv(b); return e ? strtoull(e, 0, 10) : d; }
uint64_t vconcrete(uint64_t x) { return x; }
bool vis_symbolic(void) { return false; }
uint64_t vallocated(void) { return 0; }
void vlog_(const char *p, size_t n, uint64_t v) { printf("LOG %.*s %lld\n", (int)n, p, (long long)v); }
void vend(void) { fflush(stdout); _exit(0); }
