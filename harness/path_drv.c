/* sampled paths. scenario: operations.
   1 variant length points q xs.. ys.. cs..   x without first and last, in 1/8. y integers. c in 1/4 or all zero
     variant: 0 general 1 fixed size function 2 event macro; +10 times; +20 envelope_zero; +30 envelope_scaled (y / 4 and the scalar 4) +40 envelope_scaled (y / 4 and the scalar 2, twice the values are recorded)
   4 K and the operation 1 or 3: the values in the library are greater by K * 2^20
   3 variant length points xs.. ys.. cs.. windows {position}..   long path, x in positions. values at the 12 positions behind each window position of the path and of a spline path with the same points that is read in these parts, in 1/100
   2 segments {type args}.. reads {new a b}..   see segment() */
#include "vd_sp.h"
#include "vt.h"
static long *va, vn, vp;
static long nx(void) { return (vp < vn ? va[vp++] : 0); }
static char buf[60000]; static size_t bo;
static void b0(void) { bo = 0; buf[0] = 0; }
#define B(...) bo += snprintf(buf + bo, sizeof(buf) - bo, __VA_ARGS__)
#define Q 10000
static double K;
static void bsamples(sp_sample_t* a, long n, double q) { B("["); for (long i = 0; i < n; i += 1) { double v = (a[i] - K) * q; B(i ? ",%ld" : "%ld", fabs(v) < 2e9 ? lround(v) : -2000000001); } B("]"); }
static void btimes(sp_time_t* a, long n) { B("["); for (long i = 0; i < n; i += 1) { long v = (long)a[i] - (long)K; B(i ? ",%ld" : "%ld", labs(v) < 100000 ? v * 10000 : -2000000001); } B("]"); }
static status_t samples_n(sp_sample_t** o, long l, int n, double* x, double* y, double* c) {
  switch (n + (c ? 10 : 0)) {
    case 2: return (sp_path_samples2(o, l, y[0], y[1])); case 3: return (sp_path_samples3(o, l, x[0], y[0], y[1], y[2]));
    case 4: return (sp_path_samples4(o, l, x[0], x[1], y[0], y[1], y[2], y[3])); case 5: return (sp_path_samples5(o, l, x[0], x[1], x[2], y[0], y[1], y[2], y[3], y[4]));
    case 12: return (sp_path_samples_c2(o, l, y[0], y[1], c[0])); case 13: return (sp_path_samples_c3(o, l, x[0], y[0], y[1], y[2], c[0], c[1]));
    case 14: return (sp_path_samples_c4(o, l, x[0], x[1], y[0], y[1], y[2], y[3], c[0], c[1], c[2]));
    default: return (sp_path_samples_c5(o, l, x[0], x[1], x[2], y[0], y[1], y[2], y[3], y[4], c[0], c[1], c[2], c[3])); }
}
static status_t times_n(sp_time_t** o, long l, int n, double* x, double* y, double* c) {
  switch (n + (c ? 10 : 0)) {
    case 2: return (sp_path_times2(o, l, y[0], y[1])); case 3: return (sp_path_times3(o, l, x[0], y[0], y[1], y[2]));
    case 4: return (sp_path_times4(o, l, x[0], x[1], y[0], y[1], y[2], y[3])); case 5: return (sp_path_times5(o, l, x[0], x[1], x[2], y[0], y[1], y[2], y[3], y[4]));
    case 12: return (sp_path_times_c2(o, l, y[0], y[1], c[0])); case 13: return (sp_path_times_c3(o, l, x[0], y[0], y[1], y[2], c[0], c[1]));
    case 14: return (sp_path_times_c4(o, l, x[0], x[1], y[0], y[1], y[2], y[3], c[0], c[1], c[2]));
    default: return (sp_path_times_c5(o, l, x[0], x[1], x[2], y[0], y[1], y[2], y[3], y[4], c[0], c[1], c[2], c[3])); }
}
static status_t zero_n(sp_sample_t** o, long l, int n, double* x, double* y, double* c) {
  switch (n + (c ? 10 : 0)) {
    case 3: return (sp_envelope_zero3(o, l, x[0], y[0])); case 4: return (sp_envelope_zero4(o, l, x[0], x[1], y[0], y[1])); case 5: return (sp_envelope_zero5(o, l, x[0], x[1], x[2], y[0], y[1], y[2]));
    case 13: return (sp_envelope_zero_c3(o, l, x[0], y[0], c[0], c[1])); case 14: return (sp_envelope_zero_c4(o, l, x[0], x[1], y[0], y[1], c[0], c[1], c[2]));
    default: return (sp_envelope_zero_c5(o, l, x[0], x[1], x[2], y[0], y[1], y[2], c[0], c[1], c[2], c[3])); }
}
static status_t scaled_n(sp_time_t** o, long l, int n, double k, double* x, double* y, double* c) {
  switch (n) {
    case 3: return (sp_envelope_scaled3(o, l, k, x[0], y[0], y[1], y[2])); case 4: return (sp_envelope_scaled4(o, l, k, x[0], x[1], y[0], y[1], y[2], y[3]));
    default: return (sp_envelope_scaled5(o, l, k, x[0], x[1], x[2], y[0], y[1], y[2], y[3], y[4])); }
}
static void path(void) {
  status_declare; long variant = nx(), len = nx(), n = nx(); double x[24], y[24], c[24], ex[24]; int curved = 0; sp_sample_t* o = 0; sp_time_t* t = 0;
  double *px = vt_malloc((n - 2) * sizeof(double) + 1), *py = vt_malloc(n * sizeof(double)), *pc; /* exact sizes */
  for (int i = 0; i < n - 2; i += 1) x[i] = nx() / 8.0;
  for (int i = 0; i < n; i += 1) y[i] = nx() + K;
  for (int i = 0; i < n - 1; i += 1) { c[i] = nx() / 4.0; curved |= c[i] != 0; }
  b0(); B("{\"e\":\"path\",\"v\":%ld,\"len\":%ld,\"x\":[0", variant, len); for (int i = 0; i < n - 2; i += 1) B(",%ld", lround(x[i] * 8)); B(",%ld],\"y\":[", len * 8);
  for (int i = 0; i < n; i += 1) B(i ? ",%ld" : "%ld", lround(y[i] - K)); B("],\"c\":["); for (int i = 0; i < n - 1; i += 1) B(i ? ",%ld" : "%ld", lround(c[i] * 4)); B("]");
  pc = 0; if (curved) { pc = vt_malloc((n - 1) * sizeof(double)); memcpy(pc, c, (n - 1) * sizeof(double)); }
  memcpy(px, x, (n - 2) * sizeof(double)); memcpy(py, y, n * sizeof(double));
  for (int i = 0; i < n - 2; i += 1) ex[i] = (x[i] - (i ? x[i - 1] : 0)) / len;
  int fixed = variant % 10;
  vt_track(1);
  if (variant / 10 == 0) status = fixed ? samples_n(&o, len, n, x, y, pc) : sp_path_samples(&o, len, n, n > 2 ? px : 0, py, pc);
  else if (variant / 10 == 1) status = fixed ? times_n(&t, len, n, x, y, pc) : sp_path_times(&t, len, n, n > 2 ? px : 0, py, pc);
  else if (variant / 10 == 2) { memcpy(px, ex, (n - 2) * sizeof(double)); status = fixed ? zero_n(&o, len, n, ex, y + 1, pc) : sp_envelope_zero(&o, len, n, px, py + 1, pc); }
  else { double f = variant / 10 == 4 ? 2 : 4; for (int i = 0; i < n; i += 1) { y[i] /= 4; py[i] = y[i]; } memcpy(px, ex, (n - 2) * sizeof(double)); status = fixed ? scaled_n(&t, len, n, f, ex, y, pc) : sp_envelope_scaled(&t, len, n, f, px, py, pc); }
  vt_track(0);
  /* inputs are not changed */
  int same = 1; for (int i = 0; i < n - 2; i += 1) same &= px[i] == (variant / 10 < 2 ? x[i] : (x[i] - (i ? x[i - 1] : 0)) / len); for (int i = 0; i < n; i += 1) same &= py[i] == y[i];
  B(",\"same\":%d,\"r\":%d,\"out\":", same, status.id); if (status.id) B("[]"); else if (o) bsamples(o, len, Q); else if (variant / 10 == 4) { B("["); for (long i = 0; i < len; i += 1) { long v = 2 * (long)t[i] - (long)K; B(i ? ",%ld" : "%ld", labs(v) < 100000 ? v * 10000 : -2000000001); } B("]"); } else btimes(t, len); B("}"); vt_log("%s", buf);
  vt_track(1); if (!status.id) { free(o); free(t); } vt_track(0);
  vt_free(px); vt_free(py); if (pc) vt_free(pc);
}
/* 0 move x y, 1 line x y, 2 constant, 3 arc x y c/4, 4 bezier1 x1 y1 x y, 5 bezier2 x1 y1 x2 y2 x y, 6 path segments {..}; x in 1/8 */
static spline_path_segment_t segment(int* depth);
static spline_path_segment_t* segments(int* depth, long* n) {
  *n = nx(); spline_path_segment_t* s = vt_malloc(*n * sizeof(spline_path_segment_t));
  for (long i = 0; i < *n; i += 1) s[i] = segment(depth);
  return (s);
}
static spline_path_t nested(int* depth) { spline_path_t p; long n; spline_path_segment_t* s = segments(depth, &n); spline_path_set(&p, s, n); return (p); }
static spline_path_segment_t segment(int* depth) {
  long t = nx(); double a[6];
  if (t == 6) { *depth += 1; spline_path_t p = nested(depth); return (spline_path_path(p)); }
  if (t == 2) return (spline_path_constant());
  int n = t < 2 ? 2 : t == 3 ? 3 : t == 4 ? 4 : 6; for (int i = 0; i < n; i += 1) a[i] = nx();
  for (int i = 0; i < n; i += 2) if (!(t == 3 && i == 2)) a[i] /= 8;
  switch (t) { case 0: return (spline_path_move(a[0], a[1])); case 1: return (spline_path_line(a[0], a[1])); case 3: return (spline_path_bezier_arc(a[0], a[1], a[2] / 4));
    case 4: return (spline_path_bezier1(a[0], a[1], a[2], a[3])); default: return (spline_path_bezier2(a[0], a[1], a[2], a[3], a[4], a[5])); }
}
static void reads(void) {
  int depth = 0; long at = vp; spline_path_t p = nested(&depth); long n = nx(); spline_path_point_t ps = spline_path_start(p), pe = spline_path_end(p);
  vt_log("{\"e\":\"ends\",\"sx\":%ld,\"sy\":%ld,\"ex\":%ld,\"ey\":%ld,\"size\":%ld}", lround(ps.x * 8), lround(ps.y * Q), lround(pe.x * 8), lround(pe.y * Q), (long)spline_path_size(p));
  for (long i = 0; i < n; i += 1) {
    long fresh = nx(), a = nx(), b = nx(); sp_sample_t* o = vt_malloc(b > a ? (b - a) * sizeof(sp_sample_t) : 1);
    for (long j = 0; j < b - a; j += 1) o[j] = 77777;
    if (fresh) { /* 1 the segments set again, 2 a copy of the segments, 3 directly from the segments */
      long k = vp, m; vp = at;
      if (fresh == 2) {
        spline_path_t q; spline_path_segment_t* s = segments(&depth, &m); vt_track(1); if (spline_path_set_copy(&q, s, m)) vt_log("{\"e\":\"bad\"}");
        memset(s, 0x5a, m * sizeof(*s)); vt_free(s); spline_path_get(&q, a, b, o); free(q.segments); vt_track(0); vp = at;
      }
      else if (fresh == 3) { spline_path_segment_t* s = segments(&depth, &m); if (spline_path_segments_get(s, m, a, b, o)) vt_log("{\"e\":\"bad\"}"); vp = at; }
      p = nested(&depth); vp = k;
    }
    if (fresh < 2) spline_path_get(&p, a, b, o);
    b0(); B("{\"e\":\"get\",\"a\":%ld,\"b\":%ld,\"out\":", a, b); bsamples(o, b - a, Q); B("}"); vt_log("%s", buf); vt_free(o);
  }
}
static void long_path(void) {
  status_declare; long v = nx(), len = nx(), n = nx(), curved = 0; double x[24], y[24], c[24], o[12]; sp_sample_t* so = 0; sp_time_t* to = 0; spline_path_segment_t seg[24]; spline_path_t p;
  for (int i = 0; i < n - 2; i += 1) x[i] = nx();
  for (int i = 0; i < n; i += 1) y[i] = nx() + K;
  for (int i = 0; i < n - 1; i += 1) { c[i] = nx() / 4.0; curved |= c[i] != 0; }
  b0(); B("{\"e\":\"long\",\"v\":%ld,\"len\":%ld,\"x\":[0", v, len); for (int i = 0; i < n - 2; i += 1) B(",%ld", lround(x[i])); B(",%ld],\"y\":[", len);
  for (int i = 0; i < n; i += 1) B(i ? ",%ld" : "%ld", lround(y[i] - K)); B("],\"c\":["); for (int i = 0; i < n - 1; i += 1) B(i ? ",%ld" : "%ld", lround(c[i] * 4));
  vt_track(1); status = v ? sp_path_times(&to, len, n, n > 2 ? x : 0, y, curved ? c : 0) : sp_path_samples(&so, len, n, n > 2 ? x : 0, y, curved ? c : 0); vt_track(0);
  seg[0] = spline_path_move(0, y[0]); x[n - 2] = len;
  for (int i = 0; i + 1 < n; i += 1) seg[i + 1] = c[i] ? spline_path_bezier_arc(x[i], y[i + 1], c[i]) : spline_path_line(x[i], y[i + 1]);
  vt_track(1); int bad = spline_path_set(&p, seg, n); vt_track(0);
  B("],\"r\":%d,\"size\":%ld,\"w\":[", status.id || bad, (long)spline_path_size(p)); long w = nx();
  for (long i = 0; i < w && !status.id; i += 1) {
    long k = nx(); for (int j = 0; j < 12; j += 1) o[j] = 7777; vt_track(1); spline_path_get(&p, k, k + 12, o); vt_track(0);
    B(i ? ",[%ld,[" : "[%ld,[", k); for (int j = 0; j < 12; j += 1) { double d = ((v ? to[k + j] : so[k + j]) - K) * 100.0; B(j ? ",%ld" : "%ld", fabs(d) < 1e6 ? lround(d) : 2000000); }
    B("],["); for (int j = 0; j < 12; j += 1) { double d = (o[j] - K) * 100; B(j ? ",%ld" : "%ld", fabs(d) < 1e6 ? lround(d) : 2000000); } B("]]");
  }
  vt_track(1); if (!status.id) { free(so); free(to); } vt_track(0); B("]}"); vt_log("%s", buf);
}
static void run(long* a, long n) {
  va = a; vn = n; vp = 0;
  while (vp < vn) { long op = nx(); K = 0; if (op == 4) { K = nx() * 1048576.0; op = nx(); } if (op == 1) path(); else if (op == 2) reads(); else if (op == 3) long_path(); else { vt_log("{\"e\":\"bad\"}"); break; } }
  vt_log("{\"e\":\"end\",\"live\":%ld}", vt_live());
}
int main(int argc, char** argv) { return (vt_main(argc, argv, run, 20)); }
