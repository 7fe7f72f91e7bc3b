/* fourier transforms, impulse responses and their frequency responses. scenario: calls {op arguments}, see below */
#include "vd_sp.h"
#include "vt.h"
static long *va, vn, vp;
static long nx(void) { return (vp < vn ? va[vp++] : 0); }
static char buf[200000]; static size_t bo;
#define B(...) bo += snprintf(buf + bo, sizeof(buf) - bo, __VA_ARGS__)
static long fix(double v, double q) { v *= q; return (fabs(v) < 2e9 ? lround(v) : -2000000001); }
static void arr(const char* key, double* a, long n, double q) { B(",\"%s\":[", key); for (long i = 0; i < n; i += 1) B(i ? ",%ld" : "%ld", fix(a[i], q)); B("]"); }
static double* dup(double* a, long n) { double* r = vt_malloc(n * sizeof(*r) + !n); memcpy(r, a, n * sizeof(*r)); return (r); }
static void run(long* a, long n) {
  va = a; vn = n; vp = 0; if (sp_initialize(0, 2, 1000).id) vt_stop("{\"e\":\"bad\"}");
  while (vp < vn) {
    long op = nx(); bo = 0; buf[0] = 0;
    if (op < 4) { /* n, count of values that are not zero, {index re im}, failing allocation. 1: forward, 2: inverse, 3: both */
      long k = nx(), m = nx(); double *re = vt_malloc(k * sizeof(*re) + !k), *im = vt_malloc(k * sizeof(*im) + !k); memset(re, 0, k * sizeof(*re)); memset(im, 0, k * sizeof(*im));
      for (long i = 0; i < m; i += 1) { long j = nx(); double x = nx(), y = nx(); re[j] = x; im[j] = y; }
      long fail = nx(); double *ore = dup(re, k), *oim = dup(im, k); int st = 0;
      vt_track(1); vt_fail_at(fail); if (op & 1) st = sp_fft(k, ore, oim); if (op & 2) st = st || sp_ffti(k, ore, oim); int inj = vt_failed(); vt_fail_at(0); vt_track(0);
      if (op == 3 && k) for (long i = 0; i < k; i += 1) { ore[i] /= k; oim[i] /= k; }
      B("{\"e\":\"%s\",\"st\":%d,\"inj\":%d,\"live\":%ld", op == 1 ? "fft" : op == 2 ? "ffti" : "back", st, inj, vt_live()); arr("re", re, k, 1); arr("im", im, k, 1); arr("ore", ore, k, 1000); arr("oim", oim, k, 1000); B("}");
      vt_free(re); vt_free(im); vt_free(ore); vt_free(oim); }
    else if (op == 4) { /* n values.. */
      long k = nx(); double *x = vt_malloc(k * sizeof(*x)); for (long i = 0; i < k; i += 1) x[i] = nx(); double *y = dup(x, k), *z = dup(x, k);
      sp_spectral_inversion_ir(y, k); sp_spectral_reversal_ir(z, k); B("{\"e\":\"flip\""); arr("a", x, k, 1); arr("inverted", y, k, 1); arr("reversed", z, k, 1); B("}"); vt_free(x); vt_free(y); vt_free(z); }
    else if (op == 5) { /* kind c t c2 t2 points */
      long kind = nx(); double c = nx(), t = nx(), c2 = nx(), t2 = nx(); long points = nx(); sp_sample_t *ir = 0, *ir2 = 0; sp_time_t len = 0, len2 = 0; status_t s, s2; unsigned char g[5 * sizeof(sp_sample_t)]; sp_sample_t* x = (void*)g;
      if (kind < 2) { s = sp_windowed_sinc_lp_hp_ir(c / 1000, t / 1000, kind, &ir, &len); x[0] = c / 1000; x[1] = t / 1000; *(sp_bool_t*)(x + 2) = kind; s2 = sp_windowed_sinc_lp_hp_ir_f(g, &ir2, &len2); }
      else { s = sp_windowed_sinc_bp_br_ir(c / 1000, c2 / 1000, t / 1000, t2 / 1000, kind - 2, &ir, &len); x[0] = c / 1000; x[1] = c2 / 1000; x[2] = t / 1000; x[3] = t2 / 1000; *(sp_bool_t*)(x + 4) = kind - 2; s2 = sp_windowed_sinc_bp_br_ir_f(g, &ir2, &len2); }
      int ok = !s.id && !s2.id; B("{\"e\":\"ir\",\"kind\":%ld,\"c\":%ld,\"t\":%ld,\"c2\":%ld,\"t2\":%ld,\"points\":%ld,\"st\":%d,\"same\":%d", kind, (long)c, (long)t, (long)c2, (long)t2, points, !ok, ok && len == len2 && !memcmp(ir, ir2, len * sizeof(*ir))); arr("ir", ir, ok ? len : 0, 1e5); B("}"); if (ok) { free(ir); free(ir2); } }
    else if (op == 6) { /* kind c t c2 t2 f block: a cosine with frequency f through a filter in blocks */
      long kind = nx(); double c = nx(), t = nx(), c2 = nx(), t2 = nx(); long f = nx(), block = nx(), m; sp_convolution_filter_state_t* state = 0; status_t s; int st = 0; sp_sample_t x[2000], o[2000]; sp_time_t len = 0; m = 0;
      for (long i = 0; i < 2000; i += 1) x[i] = cos(2 * M_PI * i * f / 1000); memset(o, 0, sizeof(o));
      do { s = kind < 2 ? sp_windowed_sinc_lp_hp(x + m, block, c / 1000, t / 1000, kind, &state, o + m) : sp_windowed_sinc_bp_br(x + m, block, c / 1000, c2 / 1000, t / 1000, t2 / 1000, kind - 2, &state, o + m); if (s.id) { st = 1; break; } len = state->ir_len; m += block; } while (m < len + 60 && m + block < 2000);
      B("{\"e\":\"sine\",\"kind\":%ld,\"c\":%ld,\"t\":%ld,\"c2\":%ld,\"t2\":%ld,\"f\":%ld,\"block\":%ld,\"irlen\":%u,\"st\":%d", kind, (long)c, (long)t, (long)c2, (long)t2, f, block, len, st); arr("o", o, m, 1e4); B("}"); sp_convolution_filter_state_free(state); }
    else if (op == 7) { /* direction (1: forward, 2: inverse), n, count of values that are not zero, {index re im}, count of observed indices, indices.. */
      long dir = nx(), k = nx(), m = nx(); double *re = vt_malloc(k * sizeof(*re)), *im = vt_malloc(k * sizeof(*im)); memset(re, 0, k * sizeof(*re)); memset(im, 0, k * sizeof(*im));
      B("{\"e\":\"large\",\"n\":%ld,\"dir\":%ld,\"in\":[", k, dir);
      for (long i = 0; i < m; i += 1) { long j = nx(), x = nx(), y = nx(); re[j] = x; im[j] = y; B(i ? ",[%ld,%ld,%ld]" : "[%ld,%ld,%ld]", j, x, y); }
      vt_track(1); int st = dir == 1 ? sp_fft(k, re, im) : sp_ffti(k, re, im); vt_track(0); long c = nx();
      B("],\"st\":%d,\"live\":%ld,\"out\":[", st, vt_live());
      for (long i = 0; i < c; i += 1) { long j = nx(); B(i ? ",[%ld,%ld,%ld]" : "[%ld,%ld,%ld]", j, fix(re[j], 1000), fix(im[j], 1000)); }
      B("]}"); vt_free(re); vt_free(im); }
    else if (op == 8) { /* circular convolution. complex, n, failing allocation, {re im re im}.. */
      long cx = nx(), k = nx(), fail = nx(); double* x[8]; for (int i = 0; i < 8; i += 1) x[i] = vt_malloc(k * sizeof(double) + !k); for (long i = 0; i < k; i += 1) for (int j = 0; j < 4; j += 1) { double v = nx(); x[j][i] = cx || !(j & 1) ? v : 0; x[4 + j][i] = 7; }
      double* y[4]; for (int j = 0; j < 4; j += 1) y[j] = dup(x[j], k); vt_track(1); vt_fail_at(fail); int ok = cx ? Fft_convolveComplex(x[0], x[1], x[2], x[3], x[4], x[5], k) : Fft_convolveReal(x[0], x[2], x[4], k); int inj = vt_failed(); vt_fail_at(0); vt_track(0);
      int same = 1; for (int j = 0; j < 4; j += 1) same &= !memcmp(x[j], y[j], k * sizeof(double)); if (!cx) memset(x[5], 0, k * sizeof(double));
      B("{\"e\":\"circular\",\"ok\":%d,\"inj\":%d,\"live\":%ld,\"same\":%d", ok, inj, vt_live(), same); arr("re", x[0], k, 1); arr("im", x[1], k, 1); arr("re2", x[2], k, 1); arr("im2", x[3], k, 1); arr("ore", x[4], k, 1000); arr("oim", x[5], k, 1000); B("}");
      for (int i = 0; i < 8; i += 1) vt_free(x[i]); for (int j = 0; j < 4; j += 1) vt_free(y[j]); }
    else { vt_log("{\"e\":\"bad\"}"); break; }
    vt_log("%s", buf);
  }
  sp_deinitialize(); vt_log("{\"e\":\"end\"}");
}
int main(int argc, char** argv) { return (vt_main(argc, argv, run, 20)); }
