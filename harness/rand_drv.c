/* draws from random states. scenario: calls {fn state count arg lo hi nd d..}.. states: 0 the library's, 1 and 2 own.
   fn + 100: a long array, compared to single draws from the same state (or if it is a permutation), the state is not changed
   values are logged as bytes, doubles as the integer that was scaled */
#include "vd_sp.h"
#include "vt.h"
static long *va, vn, vp;
static long nx(void) { return (vp < vn ? va[vp++] : 0); }
static char buf[64000]; static size_t bo;
#define B(...) bo += snprintf(buf + bo, sizeof(buf) - bo, __VA_ARGS__)
static void word(uint64_t x) { B("["); for (int i = 0; i < 8; i += 1) B(i ? ",%d" : "%d", (int)((x >> (8 * i)) & 255)); B("]"); }
static sph_random_state_t own[3];
/* integer k if v is k * 2^-53 */
static uint64_t k53(double v) { double x = ldexp(v, 53); if (!(x >= 0 && x <= 9007199254740992.0) || x != floor(x)) return (~(uint64_t)0); return (x); }
static uint64_t unit(double v) { return (v >= 0 && v < 1 ? k53(v) : ~(uint64_t)0); }
static uint64_t both(double v) { return (v >= -1 && v < 1 ? k53((v + 1) / 2) : ~(uint64_t)0); }
/* 32 bits of v / range */
static uint64_t part(double v, double range) { return (v >= 0 && v < range ? (uint64_t)floor(v / range * 4294967296.0) : ~(uint64_t)0); }
static void many(long fn, sph_random_state_t* s, long si, long k, long arg, uint64_t range, sp_time_t* d, long nd) {
  sph_random_state_t s0 = *s, s1; uint64_t *u = malloc(k * 8), *v = malloc(k * 8); double *f = malloc(k * 8), *g = malloc(k * 8); sp_time_t *t = malloc(k * sizeof(sp_time_t)), *x = malloc(k * sizeof(sp_time_t)); int m = 0, same = 1;
  #define SINGLES(to, e) for (long i = 0; i < k; i += 1) to[i] = e; break
  switch (fn) {
    case 2: sph_random_u64_array(s, k, u); m = 1; break; case 4: sph_random_u64_bounded_array(s, range, k, u); m = 1; break;
    case 6: sph_random_u32_array(s, k, t); break; case 8: sph_random_u32_bounded_array(s, range, k, t); break;
    case 10: sph_random_f64_array(s, k, f); m = 2; break; case 12: sph_random_f64_array_0to1(s, k, f); m = 2; break; case 14: sph_random_f64_array_1to1(s, k, f); m = 2; break; case 16: sph_random_f64_bounded_array(s, arg / 16.0, k, f); m = 2; break;
    case 21: sp_times_random(k, t); break; case 23: sp_times_random_bounded(range, k, t); break; case 25: sp_samples_random(k, f); m = 2; break; case 26: sp_noise(k, f); m = 2; break; case 28: sp_units_random(k, f); m = 2; break;
    case 29: sp_samples_random_bounded(arg / 16.0, k, f); m = 2; break; case 31: sp_times_random_discrete(d, nd, k, t); break;
    case 34: for (long i = 0; i < k; i += 1) t[i] = i; sp_times_shuffle(t, k); m = 3; break;
    case 38: for (long i = 0; i < k; i += 1) f[i] = i; sp_samples_shuffle(f, k); for (long i = 0; i < k; i += 1) t[i] = f[i]; m = 3; break;
    default: vt_stop("{\"e\":\"bad\"}");
  }
  s1 = *s; *s = s0;
  switch (fn) {
    case 2: SINGLES(v, sph_random_u64(s)); case 4: SINGLES(v, sph_random_u64_bounded(s, range)); case 6: SINGLES(x, sph_random_u32(s)); case 8: SINGLES(x, sph_random_u32_bounded(s, range));
    case 10: SINGLES(g, sph_random_f64(s)); case 12: SINGLES(g, sph_random_f64_0to1(s)); case 14: SINGLES(g, sph_random_f64_1to1(s)); case 16: SINGLES(g, sph_random_f64_bounded(s, arg / 16.0));
    case 21: SINGLES(x, sp_time_random()); case 23: SINGLES(x, sp_time_random_bounded(range)); case 25: case 26: SINGLES(g, sp_sample_random()); case 28: SINGLES(g, sp_unit_random()); case 29: SINGLES(g, sph_random_f64_bounded(s, arg / 16.0)); case 31: SINGLES(x, sp_time_random_discrete(d, nd));
  }
  if (m == 3) { /* every value once, and a state that moved by as many bounded draws of decreasing range */
    memset(u, 0, k * 8); for (long i = 0; i < k; i += 1) { if (t[i] < k) u[t[i]] += 1; } for (long i = 0; i < k; i += 1) if (u[i] != 1) same = 0;
    for (long i = 0; i < k; i += 1) sph_random_u64_bounded(s, k - i);
  }
  else for (long i = 0; i < k; i += 1) if (m == 1 ? u[i] != v[i] : m == 2 ? f[i] != g[i] : t[i] != x[i]) same = 0;
  if (memcmp(&s1, s, sizeof(s1))) same = 0;
  *s = s0; vt_log("{\"e\":\"many\",\"fn\":%ld,\"s\":%ld,\"n\":%ld,\"same\":%d}", fn, si, k, same);
  free(u); free(v); free(f); free(g); free(t); free(x);
}
static void run(long* a, long n) {
  va = a; vn = n; vp = 0;
  if (sp_initialize(0, 2, 10).id) vt_stop("{\"e\":\"bad\"}");
  B("{\"e\":\"init\",\"seed\":"); word(sp_random_seed); B("}"); vt_log("%s", buf);
  while (vp < vn) {
    long fn = nx(), si = nx(), k = nx(), arg = nx(); uint64_t lo = nx(), hi = nx(); uint64_t range = lo + (hi << 32); long nd = nx(); sp_time_t d[512]; for (long i = 0; i < nd; i += 1) { long x = nx(); if (i < 512) d[i] = x; }
    sph_random_state_t* s = si ? own + si : &sp_random_state; bo = 0; buf[0] = 0;
    if (fn >= 100) { many(fn - 100, s, si, k, arg, range, d, nd); continue; }
    B("{\"e\":\"draw\",\"fn\":%ld,\"s\":%ld,\"n\":%ld,\"arg\":%ld,\"range\":", fn, si, k, arg); word(range); B(",\"d\":["); for (long i = 0; i < nd; i += 1) B(i ? ",%d" : "%d", (int)d[i]); B("],\"o\":[");
    uint64_t* u = calloc(k + 1, 8); double* f = calloc(k + 1, 8); sp_time_t* t = calloc(k + 1, sizeof(sp_time_t));
    int ou = 0, of = 0, ot = 0;
    switch (fn) {
      case 0: *s = si ? sph_random_state_new(range) : sp_random_state_new(range); k = 0; break;
      case 1: for (long i = 0; i < k; i += 1) u[i] = sph_random_u64(s); ou = 1; break;
      case 2: sph_random_u64_array(s, k, u); ou = 1; break;
      case 3: for (long i = 0; i < k; i += 1) u[i] = sph_random_u64_bounded(s, range); ou = 1; break;
      case 4: sph_random_u64_bounded_array(s, range, k, u); ou = 1; break;
      case 5: for (long i = 0; i < k; i += 1) t[i] = sph_random_u32(s); ot = 1; break;
      case 6: sph_random_u32_array(s, k, t); ot = 1; break;
      case 7: for (long i = 0; i < k; i += 1) t[i] = sph_random_u32_bounded(s, range); ot = 1; break;
      case 8: sph_random_u32_bounded_array(s, range, k, t); ot = 1; break;
      case 9: for (long i = 0; i < k; i += 1) f[i] = sph_random_f64(s); of = 1; break;
      case 10: sph_random_f64_array(s, k, f); of = 1; break;
      case 11: for (long i = 0; i < k; i += 1) f[i] = sph_random_f64_0to1(s); of = 1; break;
      case 12: sph_random_f64_array_0to1(s, k, f); of = 1; break;
      case 13: for (long i = 0; i < k; i += 1) f[i] = sph_random_f64_1to1(s); of = 2; break;
      case 14: sph_random_f64_array_1to1(s, k, f); of = 2; break;
      case 15: for (long i = 0; i < k; i += 1) f[i] = sph_random_f64_bounded(s, arg / 16.0); of = 3; break;
      case 16: sph_random_f64_bounded_array(s, arg / 16.0, k, f); of = 3; break;
      /* library state */
      case 20: for (long i = 0; i < k; i += 1) t[i] = sp_time_random(); ot = 1; break;
      case 21: sp_times_random(k, t); ot = 1; break;
      case 22: for (long i = 0; i < k; i += 1) t[i] = sp_time_random_bounded(range); ot = 1; break;
      case 23: sp_times_random_bounded(range, k, t); ot = 1; break;
      case 24: for (long i = 0; i < k; i += 1) f[i] = sp_sample_random(); of = 2; break;
      case 25: sp_samples_random(k, f); of = 2; break;
      case 26: sp_noise(k, f); of = 2; break;
      case 27: for (long i = 0; i < k; i += 1) f[i] = sp_unit_random(); of = 1; break;
      case 28: sp_units_random(k, f); of = 1; break;
      case 29: sp_samples_random_bounded((arg / 16.0), k, f); of = 3; break;
      case 30: for (long i = 0; i < k; i += 1) t[i] = sp_time_random_discrete(d, nd); ot = 1; break;
      case 31: sp_times_random_discrete(d, nd, k, t); ot = 1; break;
      case 32: { sp_time_t m = k < nd ? k : nd; sp_time_t* x = malloc(m * sizeof(sp_time_t)); sp_times_random_discrete_unique(d, nd, k, x); for (long i = 0; i < m; i += 1) t[i] = x[i]; free(x); k = m; ot = 1; break; }
      case 33: sp_times_random_binary(k, t); ot = 1; break;
      case 34: for (long i = 0; i < k; i += 1) t[i] = i; sp_times_shuffle(t, k); ot = 1; break;
      case 35: for (long i = 0; i < k; i += 1) t[i] = llround(sp_sample_random_discrete_bounded(d, nd, arg) * nd); ot = 1; break;
      case 36: for (long i = 0; i < k; i += 1) t[i] = sp_normal_random(arg, arg + range); ot = 1; break;
      case 37: { sp_time_t m = k; sp_time_t c = 0; for (long i = 0; i < k; i += 1) u[i] = i + 5; sp_time_t* x = malloc((k + 1) * sizeof(sp_time_t)); sp_time_t* y = malloc((k + 1) * sizeof(sp_time_t)); for (long i = 0; i < k; i += 1) x[i] = i; sp_times_select_random(x, m, y, &c); k = c; for (long i = 0; i < k; i += 1) t[i] = y[i]; free(x); free(y); ot = 1; break; }
      case 39: for (long i = 0; i < k; i += 1) t[i] = sp_time_random_discrete_bounded(d, nd, arg); ot = 1; break;
      case 40: for (long i = 0; i < k; i += 1) t[i] = sp_time_deharmonize(arg + i, range, d[0] / 8.0); ot = 1; break;
      case 38: for (long i = 0; i < k; i += 1) f[i] = i; sp_samples_shuffle(f, k); for (long i = 0; i < k; i += 1) t[i] = f[i]; ot = 1; break;
      default: vt_stop("{\"e\":\"bad\"}");
    }
    for (long i = 0; i < k; i += 1) { if (i) B(","); word(ou ? u[i] : ot ? t[i] : of == 1 ? unit(f[i]) : of == 2 ? both(f[i]) : part(f[i], arg / 16.0)); }
    B("]}"); vt_log("%s", buf); free(u); free(f); free(t);
  }
  sp_deinitialize();
  vt_log("{\"e\":\"end\"}");
}
int main(int argc, char** argv) { return (vt_main(argc, argv, run, 20)); }
