/* statistics. scenario: calls {fn type is os fail p m R off na a..}..
   values are multiplied by m (results in the unit of values are divided by m again) and the array is repeated R times.
   off is added to all values, and taken away from results that move with it */
#include "vd_sp.h"
#include "vt.h"
static long *va, vn, vp;
static long nx(void) { return (vp < vn ? va[vp++] : 0); }
static char buf[64000]; static size_t bo;
#define B(...) bo += snprintf(buf + bo, sizeof(buf) - bo, __VA_ARGS__)
static const char* names[] = { "range", "mean", "deviation", "median", "center", "skewness", "kurtosis", "inharmonicity", "totimes", "unique", "uniqueall", "repetition", "repetitionall" };
static void run(long* a, long n) {
  va = a; vn = n; vp = 0;
  while (vp < vn) {
    long fn = nx(), t = nx(), is = nx(), os = nx(), fail = nx(), p = nx(), m = nx(), R = nx(), off = nx(), k = nx(), s = k, rep = 1; sp_sample_t o[3] = { 0, 0, 0 }; int r = 0, no = 1, inj = 0;
    if (!is) is = 1;
    if (!m) m = 1;
    if (R > 1) s = k * R; else R = 1;
    sp_time_t* x = malloc(s * sizeof(sp_time_t)); sp_sample_t* y = malloc(s * sizeof(sp_sample_t)); long* in = malloc(k * sizeof(long) + 8); sp_time_t* to = malloc(s * sizeof(sp_time_t));
    for (long i = 0; i < k; i += 1) { in[i] = nx(); x[i] = in[i] * m + off; y[i] = in[i] * (double)m / is + off; }
    for (long i = k; i < s; i += 1) { x[i] = x[i - k]; y[i] = y[i - k]; }
    bo = 0; buf[0] = 0; B("{\"e\":\"stat\",\"fn\":\"%s\",\"t\":%ld,\"is\":%ld,\"os\":%ld,\"p\":%ld,\"m\":%ld,\"R\":%ld,\"off\":%ld,\"a\":[", fn < 13 ? names[fn] : "?", t, is, os, p, m, R, off);
    for (long i = 0; i < k; i += 1) B(i ? ",%ld" : "%ld", in[i]);
    vt_track(1); vt_fail_at(fail);
    sp_stat_times_f_t tf[] = { sp_stat_times_range, sp_stat_times_mean, sp_stat_times_deviation, sp_stat_times_median, sp_stat_times_center, sp_stat_times_skewness, sp_stat_times_kurtosis, sp_stat_times_inharmonicity };
    sp_stat_samples_f_t sf[] = { sp_stat_samples_range, sp_stat_samples_mean, sp_stat_samples_deviation, sp_stat_samples_median, sp_stat_samples_center, sp_stat_samples_skewness, sp_stat_samples_kurtosis, sp_stat_samples_inharmonicity };
    if (fn < 8) { if (fn == 0) no = 3; r = t ? sf[fn](y, s, o) : tf[fn](x, s, o); }
    else if (fn == 8) { sp_samples_scale_to_times(y, s, p, to); no = 0; }
    else if (fn == 9) { o[0] = sp_stat_unique_max(in[0], p); }
    else if (fn == 10) { o[0] = sp_stat_unique_all_max(in[0]); }
    else if (fn == 11) { o[0] = sp_stat_repetition_max(in[0], p); }
    else if (fn == 12) { o[0] = sp_stat_repetition_all_max(in[0]); }
    vt_track(0); inj = vt_failed(); vt_fail_at(0);
    for (long i = k; i < s; i += 1) if (x[i] != x[i - k] || y[i] != y[i - k] || (fn == 8 && to[i] != to[i - k])) rep = 0;
    B("],\"a2\":["); for (long i = 0; i < k; i += 1) { double v = (t ? (y[i] - off) * is : (double)x[i] - off) / m; B(i ? ",%ld" : "%ld", v == floor(v) && fabs(v) < 2e9 ? (long)v : 2000000011); }
    B("],\"o\":["); if (fn == 8) for (long i = 0; i < k; i += 1) B(i ? ",%d" : "%d", (int32_t)to[i]);
    else for (int i = 0; i < no; i += 1) { double v = (o[i] - (fn == 1 || fn == 3 || (fn == 0 && i < 2) ? off : 0)) * os / (fn < 4 ? m : 1); B(i ? ",%ld" : "%ld", fabs(v) < 2e9 ? llround(v) : 2000000011); }
    B("],\"rep\":%ld,\"r\":%d,\"inj\":%d,\"live\":%ld}", rep, r, inj, vt_live()); vt_log("%s", buf);
    free(x); free(y); free(in); free(to);
  }
  vt_log("{\"e\":\"end\"}");
}
int main(int argc, char** argv) { return (vt_main(argc, argv, run, 20)); }
