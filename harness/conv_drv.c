/* convolution, convolution filters and moving average. inputs and impulse responses are integers, or scaled for windowed sinc.
   scenario: q tol, then operations */
#include "vd_sp.h"
#include "vt.h"
#define VC_REGS 4
static long *vc_a, vc_n, vc_p;
static double vc_q;
static sp_convolution_filter_state_t* vc_state[VC_REGS];
static sp_sample_t* vc_carry[VC_REGS]; static sp_time_t vc_carry_len[VC_REGS];
static int vc_ir_fail;
static long vc_next(void) { return (vc_p < vc_n ? vc_a[vc_p++] : 0); }
/* exactly sized so that address sanitizer sees accesses outside */
static sp_sample_t* vc_samples(long n) { sp_sample_t* r = vt_malloc(n ? n * sizeof(sp_sample_t) : 1); for (long i = 0; i < n; i += 1) r[i] = vc_next(); return (r); }
/* inputs have this unit, which is not a single precision number, and outputs are divided by it */
#define VC_UNIT (1 + 1.0 / (1 << 26))
static double vc_u = VC_UNIT;
static sp_sample_t* vc_inputs(long n) { sp_sample_t* r = vc_samples(n); for (long i = 0; i < n; i += 1) r[i] *= VC_UNIT; return (r); }
static char vc_buf[60000];
static char* vc_json(sp_sample_t* a, long n, double q);
static char* vc_plain(sp_sample_t* a, long n, double q) { vc_u = 1; char* r = vc_json(a, n, q); vc_u = VC_UNIT; return (r); }
static char* vc_json(sp_sample_t* a, long n, double q) {
  size_t o = 0; o += snprintf(vc_buf + o, sizeof(vc_buf) - o, "[");
  for (long i = 0; i < n; i += 1) {
    double v = a[i] * q / vc_u; long r = -2000000001;
    if (q == 1 ? (fabs(v - round(v)) < 1e-9 * (1 + fabs(v)) && fabs(v) < 1e9) : fabs(v) < 2e9) r = lround(v);
    o += snprintf(vc_buf + o, sizeof(vc_buf) - o, i ? ",%ld" : "%ld", r);
  }
  snprintf(vc_buf + o, sizeof(vc_buf) - o, "]"); return (vc_buf);
}
static char vc_arg_buf[3000];
static char* vc_args(void* a, int n) {
  size_t o = snprintf(vc_arg_buf, sizeof(vc_arg_buf), "["); for (int i = 0; i < n; i += 1) o += snprintf(vc_arg_buf + o, sizeof(vc_arg_buf) - o, i ? ",%d" : "%d", ((signed char*)a)[i]);
  snprintf(vc_arg_buf + o, sizeof(vc_arg_buf) - o, "]"); return (vc_arg_buf);
}
static int vc_arg_len; /* the length is not given to impulse response functions, the first argument is it */
/* arguments: n, coefficients ... */
static status_t vc_ir(int f, void* arguments, sp_sample_t** out_ir, sp_time_t* out_len) {
  status_declare; signed char* a = arguments; int n = a[0];
  vt_log("{\"e\":\"ir\",\"f\":%d,\"args\":%s,\"st\":%d}", f, vc_args(a, vc_arg_len), vc_ir_fail);
  if (vc_ir_fail) { status.id = vc_ir_fail; status.group = (uint8_t*)"vd"; return (status); }
  status_require((sp_samples_new(n, out_ir)));
  for (int i = 0; i < n; i += 1) (*out_ir)[i] = f ? -2 * a[1 + i] : a[1 + i];
  *out_len = n;
exit:
  status_return;
}
static status_t vc_ir_0(void* a, sp_sample_t** o, sp_time_t* l) { return (vc_ir(0, a, o, l)); }
static status_t vc_ir_1(void* a, sp_sample_t** o, sp_time_t* l) { return (vc_ir(1, a, o, l)); }

static sp_sample_t* vc_long_ir; static long vc_long_len;
static status_t vc_ir_long(void* a, sp_sample_t** out_ir, sp_time_t* out_len) {
  status_declare; status_require((sp_samples_new(vc_long_len, out_ir))); memcpy(*out_ir, vc_long_ir, vc_long_len * sizeof(sp_sample_t)); *out_len = vc_long_len;
exit:
  status_return;
}
static void vc_log_begin(int x, int f, char* key, sp_sample_t* ir, long ir_len, sp_sample_t* in, long n) {
  size_t o = 0; static char b[62000];
  o += snprintf(b + o, sizeof(b) - o, "{\"e\":\"fb\",\"x\":%d,\"f\":%d,\"args\":%s,\"ir\":%s", x, f, key, vc_plain(ir, ir_len, vc_q));
  o += snprintf(b + o, sizeof(b) - o, ",\"in\":%s}", vc_json(in, n, 1));
  vt_log("%s", b);
}
static void vc_run(long* a, long n) {
  status_declare; vc_a = a; vc_n = n; vc_p = 0;
  memset(vc_state, 0, sizeof(vc_state)); memset(vc_carry, 0, sizeof(vc_carry)); memset(vc_carry_len, 0, sizeof(vc_carry_len));
  vc_q = vc_next();
  vt_track(1);
  while (vc_p < vc_n) {
    long op = vc_next();
    if (op == 1) { /* filter: x f len args.. n in.. irfail allocfail */
      int x = vc_next(), f = vc_next(), len = vc_next(); signed char args[256] = {0};
      for (int i = 0; i < len; i += 1) args[i] = vc_next();
      long m = vc_next(); sp_sample_t* in = vc_inputs(m); sp_sample_t* out = vt_malloc(m ? m * sizeof(sp_sample_t) : 1);
      vc_ir_fail = vc_next(); long af = vc_next(); sp_sample_t ir[130]; vc_arg_len = len;
      for (int i = 0; i < args[0]; i += 1) ir[i] = f ? -2 * args[1 + i] : args[1 + i];
      for (long i = 0; i < m; i += 1) out[i] = 77777;
      vc_log_begin(x, f, vc_args(args, len), ir, args[0], in, m);
      /* the arguments may be on the stack of the caller */
      void* args2 = vt_malloc(len ? len : 1); memcpy(args2, args, len);
      vt_fail_at(af);
      status = sp_convolution_filter(in, m, f ? vc_ir_1 : vc_ir_0, args2, len, vc_state + x, out);
      int inj = vt_failed(); vt_fail_at(0); vt_free(args2);
      vt_log("{\"e\":\"fe\",\"x\":%d,\"r\":%d,\"inj\":%d,\"out\":%s}", x, status.id, inj, status.id ? "[]" : vc_json(out, m, vc_q));
      vt_free(in); vt_free(out);
    } else if (op == 2) { /* sp_convolve: x blen b.. n in.. */
      int x = vc_next(); long bl = vc_next(); sp_sample_t* b = vc_samples(bl); long m = vc_next(); sp_sample_t* in = vc_inputs(m);
      sp_sample_t* out = vt_malloc(m ? m * sizeof(sp_sample_t) : 1); long cl = sp_inline_max((long)vc_carry_len[x], bl - 1);
      for (long i = 0; i < m; i += 1) out[i] = 77777;
      sp_sample_t* c = vt_malloc(cl ? cl * sizeof(sp_sample_t) : 1);
      for (long i = 0; i < cl; i += 1) c[i] = i < vc_carry_len[x] ? vc_carry[x][i] : 0;
      sp_convolve(in, m, b, bl, cl, c, out);
      { static char s[62000]; size_t o = 0;
        o += snprintf(s + o, sizeof(s) - o, "{\"e\":\"cv\",\"x\":%d,\"b\":%s", x, vc_plain(b, bl, vc_q)); o += snprintf(s + o, sizeof(s) - o, ",\"in\":%s", vc_json(in, m, 1));
        o += snprintf(s + o, sizeof(s) - o, ",\"out\":%s", vc_json(out, m, vc_q)); o += snprintf(s + o, sizeof(s) - o, ",\"carry\":%s}", vc_json(c, cl, vc_q)); vt_log("%s", s); }
      /* what remains of longer earlier responses */
      long rest = cl - m; if (rest < 0) rest = 0;
      if (vc_carry[x]) vt_free(vc_carry[x]);
      vc_carry[x] = c; vc_carry_len[x] = sp_inline_max(rest, bl - 1);
      if (vc_carry_len[x] > cl) vc_carry_len[x] = cl;
      vt_free(in); vt_free(out); vt_free(b);
    } else if (op == 3 || op == 4) { /* windowed sinc: x cutoffs.. flag n in.. allocfail, in 1/1000 */
      int x = vc_next(); long p[5]; int np = op == 3 ? 3 : 5; sp_sample_t* ir = 0; sp_time_t ir_len = 0; char key[100];
      for (int i = 0; i < np; i += 1) p[i] = vc_next();
      long m = vc_next(); sp_sample_t* in = vc_inputs(m); sp_sample_t* out = vt_malloc(m ? m * sizeof(sp_sample_t) : 1); long af = vc_next();
      for (long i = 0; i < m; i += 1) out[i] = 77777;
      vt_track(0);
      if (op == 3) status = sp_windowed_sinc_lp_hp_ir(p[0] / 1000.0, p[1] / 1000.0, p[2], &ir, &ir_len);
      else status = sp_windowed_sinc_bp_br_ir(p[0] / 1000.0, p[1] / 1000.0, p[2] / 1000.0, p[3] / 1000.0, p[4], &ir, &ir_len);
      if (op == 3) snprintf(key, sizeof(key), "[%ld,%ld,%ld]", p[0], p[1], p[2]); else snprintf(key, sizeof(key), "[%ld,%ld,%ld,%ld,%ld]", p[0], p[1], p[2], p[3], p[4]);
      vc_log_begin(x, op, key, ir, ir_len, in, m); free(ir);
      vt_track(1); vt_fail_at(af);
      if (op == 3) status = sp_windowed_sinc_lp_hp(in, m, p[0] / 1000.0, p[1] / 1000.0, p[2], vc_state + x, out);
      else status = sp_windowed_sinc_bp_br(in, m, p[0] / 1000.0, p[1] / 1000.0, p[2] / 1000.0, p[3] / 1000.0, p[4], vc_state + x, out);
      int inj = vt_failed(); vt_fail_at(0);
      vt_log("{\"e\":\"fe\",\"x\":%d,\"r\":%d,\"inj\":%d,\"out\":%s}", x, status.id, inj, status.id ? "[]" : vc_json(out, m, vc_q));
      vt_free(in); vt_free(out);
    } else if (op == 5) { int x = vc_next(); sp_convolution_filter_state_free(vc_state[x]); vc_state[x] = 0; vt_log("{\"e\":\"fr\",\"x\":%d}", x); }
    else if (op == 6) { /* moving average: radius n in.. hasprev prev.. hasnext next.. */
      long r = vc_next(), m = vc_next(); sp_sample_t* in = vc_inputs(m); sp_sample_t *prev = 0, *next = 0; int fp, fn; static char s[62000]; size_t o = 0;
      o += snprintf(s + o, sizeof(s) - o, "{\"e\":\"ma\",\"r\":%ld,\"in\":%s", r, vc_json(in, m, 1));
      fp = vc_next(); if (fp) { prev = fp == 2 ? in : vc_inputs(m); /* 2: the input itself, as for periodic signals */ o += snprintf(s + o, sizeof(s) - o, ",\"prev\":%s", vc_json(prev, m, 1)); } else o += snprintf(s + o, sizeof(s) - o, ",\"prev\":[]");
      fn = vc_next(); if (fn) { next = fn == 2 ? in : vc_inputs(r); o += snprintf(s + o, sizeof(s) - o, ",\"next\":%s", vc_json(next, r, 1)); } else o += snprintf(s + o, sizeof(s) - o, ",\"next\":[]");
      o += snprintf(s + o, sizeof(s) - o, ",\"hp\":%d,\"hn\":%d", prev != 0, next != 0);
      sp_sample_t* out = vt_malloc(m * sizeof(sp_sample_t)); for (long i = 0; i < m; i += 1) out[i] = 77777;
      sp_moving_average(in, m, prev, next, r, out);
      o += snprintf(s + o, sizeof(s) - o, ",\"out\":[");
      for (long i = 0; i < m; i += 1) { double v = out[i] * (2 * r + 1) / vc_u; long k = fabs(v) < 1e6 ? lround(v) : -2000000001; if (fabs(v - k) > 1e-9 * (100 + fabs(v))) k = -2000000001; o += snprintf(s + o, sizeof(s) - o, i ? ",%ld" : "%ld", k); }
      vt_log("%s]}", s);
      vt_free(in); vt_free(out); if (fp == 1) vt_free(prev); if (fn == 1) vt_free(next);
    } else if (op == 8) { /* moving average of a constant: radius n hasprev hasnext. number of values that differ from it */
      long r = vc_next(), m = vc_next(), hp = vc_next(), hn = vc_next(), bad = 0; sp_sample_t *in = vt_malloc(m * sizeof(sp_sample_t)), *prev = hp ? vt_malloc(m * sizeof(sp_sample_t)) : 0, *next = hn ? vt_malloc((r ? r : 1) * sizeof(sp_sample_t)) : 0, *out = vt_malloc(m * sizeof(sp_sample_t));
      for (long i = 0; i < m; i += 1) { in[i] = 1; out[i] = 7; if (prev) prev[i] = 1; } if (next) for (long i = 0; i < r; i += 1) next[i] = 1;
      sp_moving_average(in, m, prev, next, r, out);
      for (long i = 0; i < m; i += 1) {
        long c = 2 * r + 1; if (!hp && i < r) c -= 2 * (r - i); if (!hn && i + r >= m) c -= 2 * (i + r - m + 1); /* reflected with the opposite sign */
        if (!(fabs(out[i] * (2 * r + 1) - c) < 1e-3)) bad += 1;
      }
      vt_log("{\"e\":\"mc\",\"r\":%ld,\"n\":%ld,\"hp\":%ld,\"hn\":%ld,\"bad\":%ld}", r, m, hp, hn, bad);
      vt_free(in); vt_free(out); if (prev) vt_free(prev); if (next) vt_free(next);
    } else if (op == 7) { /* properties of impulse responses: kind parameters */
      long kind = vc_next(), p[4]; sp_sample_t* ir = 0; sp_time_t len = 0; double sym = 0, dc = 0, ny = 0;
      for (int i = 0; i < 4; i += 1) p[i] = vc_next();
      if (kind < 2) status = sp_windowed_sinc_lp_hp_ir(p[0] / 1000.0, p[2] / 1000.0, kind, &ir, &len);
      else status = sp_windowed_sinc_bp_br_ir(p[0] / 1000.0, p[1] / 1000.0, p[2] / 1000.0, p[3] / 1000.0, kind - 2, &ir, &len);
      for (long i = 0; i < len; i += 1) { sym = fmax(sym, fabs(ir[i] - ir[len - 1 - i])); dc += ir[i]; ny += (labs(i - (long)(len / 2)) % 2 ? -1 : 1) * ir[i]; }
      vt_log("{\"e\":\"irf\",\"kind\":%ld,\"p\":[%ld,%ld,%ld,%ld],\"r\":%d,\"len\":%u,\"sym\":%ld,\"dc\":%ld,\"ny\":%ld}", kind, p[0], p[1], p[2], p[3], status.id, len, lround(fmin(sym * 1e6, 2e9)), lround(fmax(-2e9, fmin(2e9, dc * 1e6))), lround(fmax(-2e9, fmin(2e9, ny * 1e6))));
      free(ir);
    } else if (op == 9) { /* long streams: mode, period of the impulse response, its length, values.., period of the input, number of non-zero values, values.., segments {size}.., windows {position}.. 8 values are recorded at each position */
      static char s[62000]; size_t o = 0; long mode = vc_next(), n = vc_next(), L = vc_next(); sp_sample_t* t = vc_samples(n); long m = vc_next(), lim = vc_next(); sp_sample_t* u = vc_inputs(m); long k = vc_next(), N = 0, size[100];
      for (long i = 0; i < k && i < 100; i += 1) { size[i] = vc_next(); N += size[i]; }
      sp_sample_t *in = vt_malloc(N * sizeof(sp_sample_t)), *out = vt_malloc(N * sizeof(sp_sample_t)), *ir = vt_malloc(L * sizeof(sp_sample_t)), *carry = vt_malloc(L * sizeof(sp_sample_t));
      for (long i = 0; i < N; i += 1) { in[i] = i < lim ? u[i % m] : 0; out[i] = 77777; }
      for (long i = 0; i < L; i += 1) { ir[i] = t[i % n]; carry[i] = 0; }
      sp_convolution_filter_state_t* st = 0; vc_long_ir = ir; vc_long_len = L; int r = 0; long long arg = L;
      for (long i = 0, p = 0; i < k && !r; p += size[i], i += 1) {
        /* exact sizes */
        sp_sample_t *si = vt_malloc(size[i] * sizeof(sp_sample_t) + 1), *so = vt_malloc(size[i] * sizeof(sp_sample_t) + 1); memcpy(si, in + p, size[i] * sizeof(sp_sample_t));
        if (mode) sp_convolve(si, size[i], ir, L, L - 1, carry, so); else { status = sp_convolution_filter(si, size[i], vc_ir_long, &arg, sizeof(arg), &st, so); r = status.id; }
        memcpy(out + p, so, size[i] * sizeof(sp_sample_t)); vt_free(si); vt_free(so);
      }
      if (st) sp_convolution_filter_state_free(st);
      o += snprintf(s + o, sizeof(s) - o, "{\"e\":\"lc\",\"r\":%d,\"L\":%ld,\"lim\":%ld,\"size\":%ld,\"t\":%s", r, L, lim, N, vc_plain(t, n, 1)); o += snprintf(s + o, sizeof(s) - o, ",\"u\":%s,\"w\":[", vc_json(u, m, 1)); k = vc_next();
      for (long i = 0; i < k; i += 1) { long p = vc_next(); o += snprintf(s + o, sizeof(s) - o, i ? ",[%ld,%s]" : "[%ld,%s]", p, vc_json(out + p, 8, 1)); }
      vt_log("%s]}", s); vt_free(in); vt_free(out); vt_free(ir); vt_free(carry); vt_free(t); vt_free(u);
    } else { vt_log("{\"e\":\"bad\"}"); break; }
  }
  vt_track(0);
  for (int x = 0; x < VC_REGS; x += 1) if (vc_carry[x]) vt_free(vc_carry[x]);
  vt_log("{\"e\":\"end\",\"live\":%ld}", vt_live());
}
int main(int argc, char** argv) { return (vt_main(argc, argv, vc_run, 20)); }
