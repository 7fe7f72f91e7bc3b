/* array operations. scenario: calls {op type alias+2*R is os exact np p.. na a.. nb b.. no}..
   R: the arrays are repeated R times. results are logged for one repetition if all are alike, else rep is 0.
   is 2 for times: values are given and logged with 2^31 subtracted.
   type 0 times 1 samples. sample values are given times is and logged times os. out arrays have exactly the size they need */
#include "vd_sp.h"
#include "vt.h"
static long *va, vn, vp;
static long nx(void) { return (vp < vn ? va[vp++] : 0); }
static char buf[60000]; static size_t bo;
#define B(...) bo += snprintf(buf + bo, sizeof(buf) - bo, __VA_ARGS__)
#define BAD 2000000011
static long is, os, exact;
#define INF 1999999999 /* stands for infinity, for samples */
#define REAL(v) ((v) == INF ? INFINITY : (v) == -INF ? -INFINITY : (v) / (double)is)
static long enc(double v) { if (isinf(v)) return (v < 0 ? -INF : INF); v *= os; if (!(fabs(v) < 2e9)) return (BAD); long r = llround(v); return (exact && fabs(v - r) > 1e-7 * (1 + fabs(v)) ? BAD : r); }
static long P[64]; static long A[300], C[300];
typedef struct { sp_time_t *a, *b, *o; } tt;
static long R, alike, bias;
/* n: with repetitions */
static sp_time_t* tnew(long* v, long n) { sp_time_t* r = malloc(n * sizeof(sp_time_t)); for (long i = 0; i < n; i += 1) r[i] = v ? v[i % (n / R)] + bias : 77777; return (r); }
static sp_sample_t* snew(long* v, long n) { sp_sample_t* r = malloc(n * sizeof(sp_sample_t)); for (long i = 0; i < n; i += 1) r[i] = v ? REAL(v[i % (n / R)]) : 77777; return (r); }
static void bt(const char* k, sp_time_t* a, long n) { B(",\"%s\":[", k); for (long i = 0; i < n; i += 1) B(i ? ",%d" : "%d", (int32_t)(a[i] - bias)); B("]"); }
/* to one repetition. how 0: arrays in a row 1: each element in a row, 2: like 1 in any order, 3: like 0 with p0 added in each, 4: smallest and largest */
#define COLLAPSE(T, one) \
static int less_##one(const void* a, const void* b) { T x = *(T*)a, y = *(T*)b; return (x < y ? -1 : x > y); } \
static long collapse_##one(T* a, long n, int how, long p0) { \
  long m = n / R; if (R == 1) return (n); \
  if (how == 4) { for (long i = 0; i < n; i += 1) { if (a[i] < a[0]) a[0] = a[i]; if (i && a[i] > a[1]) a[1] = a[i]; } return (2); } \
  if (n % R) { alike = 0; return (0); } \
  if (how == 2) qsort(a, n, sizeof(T), less_##one); \
  for (long i = 0; i < n; i += 1) alike &= how == 1 || how == 2 ? a[i] == a[i - i % R] : how == 3 ? a[i] == a[i % m] + p0 * (i / m) : a[i] == a[i % m]; \
  if (how == 1 || how == 2) for (long i = 0; i < m; i += 1) a[i] = a[i * R]; \
  return (m); }
COLLAPSE(sp_time_t, t) COLLAPSE(sp_sample_t, s)
static void bs(const char* k, sp_sample_t* a, long n, int in) { long o = os; if (in) os = is; B(",\"%s\":[", k); for (long i = 0; i < n; i += 1) B(i ? ",%ld" : "%ld", enc(a[i])); B("]"); os = o; }
static void bl(const char* k, long* a, long n) { B(",\"%s\":[", k); for (long i = 0; i < n; i += 1) B(i ? ",%ld" : "%ld", a[i]); B("]"); }
/* operations for both types. o: output of size no, in-place operations work on o as a copy of a */
#define SHARED(T, one, many, pv, set_new, conv) \
static const char* shared_##many(long op, T* a, long na, T* b, T* o, long no, T** alloc, status_t* st, T* val, int* hasval, int* inplace) { \
  *inplace = 0; *hasval = 0; \
  if (op == 1) { *val = sp_##many##_min(a, na); *hasval = 1; return ("min"); } \
  if (op == 2) { *val = sp_##many##_max(a, na); *hasval = 1; return ("max"); } \
  if (op == 3) { *val = sp_##many##_absolute_max(a, na); *hasval = 1; return ("absmax"); } \
  if (op == 4) { sp_##many##_reverse(a, na, o); return ("reverse"); } \
  if (op == 5) { *val = sp_##many##_equal(a, na, pv(0)) ? 1 : 0; *hasval = 2; return ("equal"); } \
  if (op == 12) { *st = sp_##many##_new(na, alloc); return ("new"); } \
  if (op == 13) { sp_##many##_copy(a, na, o); return ("copy"); } \
  if (op == 14) { sp_##many##_cusum(a, na, o); return ("cusum"); } \
  if (op == 17) { sp_##many##_additions(pv(0), pv(1), no, o); return ("additions"); } \
  if (op == 18) { *st = sp_##many##_duplicate(a, na, alloc); return ("duplicate"); } \
  if (op == 19) { sp_##many##_range(a, P[0], P[1], o); return ("range"); } \
  if (op == 20) { sp_##many##_and_##many(a, b, na, pv(0), o); return ("and"); } \
  if (op == 21) { sp_##many##_or_##many(a, b, na, pv(0), o); return ("or"); } \
  if (op == 22) { sp_##many##_xor_##many(a, b, na, pv(0), o); return ("xor"); } \
  if (op == 28) { for (long i = 0; i < na; i += 1) o[i] = sp_##one##_round_to_multiple(a[i], pv(0)); return ("rtm"); } \
  *inplace = 1; \
  if (op == 6) { sp_##many##_square(o, na); return ("square"); } \
  if (op == 7) { sp_##many##_add(o, na, pv(0)); return ("add"); } \
  if (op == 8) { sp_##many##_multiply(o, na, pv(0)); return ("multiply"); } \
  if (op == 9) { sp_##many##_divide(o, na, pv(0)); return ("divide"); } \
  if (op == 10) { sp_##many##_set(o, na, pv(0)); return ("set"); } \
  if (op == 11) { sp_##many##_subtract(o, na, pv(0)); return ("subtract"); } \
  if (op == 15) { sp_##many##_swap(o, P[0], P[1]); return ("swap"); } \
  if (op == 16) { sp_##many##_shuffle(o, na); return ("shuffle"); } \
  if (op == 23) { sp_##many##_multiply_##many(o, na, b); return ("multiply2"); } \
  if (op == 24) { sp_##many##_divide_##many(o, na, b); return ("divide2"); } \
  if (op == 25) { sp_##many##_add_##many(o, na, b); return ("add2"); } \
  if (op == 26) { sp_##many##_subtract_##many(o, na, b); return ("subtract2"); } \
  if (op == 27) { quicksort(sp_##one##_sort_less, sp_##one##_sort_swap, o, 0, na - 1); return ("sort"); } \
  return (0); }
#define PT(i) ((sp_time_t)P[i])
#define PS(i) REAL(P[i])
SHARED(sp_time_t, time, times, PT, 0, 0)
SHARED(sp_sample_t, sample, samples, PS, 0, 0)
static void call(void) {
  long op = nx(), type = nx(), alias = nx(); is = nx(); os = nx(); exact = nx();
  long np = nx(); memset(P, 0, sizeof(P)); for (long i = 0; i < np; i += 1) P[i] = nx();
  long na = nx(); for (long i = 0; i < na; i += 1) A[i] = nx();
  long nb = nx(); for (long i = 0; i < nb; i += 1) C[i] = nx();
  long no = nx(); if (!is) is = 1; if (!os) os = 1;
  R = alias >> 1 ? alias >> 1 : 1; alias &= 1; alike = 1; bias = type == 0 && is == 2 ? 1L << 31 : 0;
  long Q[64]; memcpy(Q, P, sizeof(Q)); long na1 = na, how = op == 27 ? 1 : op == 16 ? 2 : op == 43 ? 3 : op == 60 ? 4 : 0, nb1 = nb;
  int tiled_b = op != 41; if (bias) { if (op == 5 || op == 7 || op == 43 || op == 49 || op == 50 || op == 51 || op == 10) { P[0] += bias; P[1] += bias; } }
  if (R > 1) { na *= R; if (tiled_b) nb *= R; no *= R; if (op == 47 || op == 78) P[0] *= R; if (op == 19) { P[1] += na1 * (R - 1); no = P[1] - P[0]; } if (op == 53) { P[0] = na1 * (R / 3); P[1] = 0; } }
  status_t st; memset(&st, 0, sizeof(st)); const char* name = 0; int inplace = 0, hasval = 0; long osize = no;
  vt_track(1);
  bo = 0; buf[0] = 0;
  if (type == 0) {
    long R1 = R; sp_time_t* a = tnew(A, na); if (!tiled_b) R = 1; sp_time_t* b = tnew(C, nb); R = R1; sp_time_t* o; sp_time_t* alloc = 0; sp_time_t v = 0; sp_sample_t* sa = 0; sp_time_t on = 0; int sout = 0;
    if (alias) { o = tnew(0, na > no ? na : no); for (long i = 0; i < na; i += 1) o[i] = a[i]; free(a); a = o; }
    else { o = tnew(0, no); }
    /* in-place operations get a copy */
    long ip = op >= 6 && op <= 11 || op == 15 || op == 16 || op >= 23 && op <= 27; if (ip) for (long i = 0; i < na; i += 1) o[i] = a[i];
    name = shared_times(op, a, na, b, o, no, &alloc, &st, &v, &hasval, &inplace);
    if (alloc) { free(o); o = alloc; if (alias) a = 0; osize = na; }
    if (!name) {
      inplace = 0; sp_sample_t* sc; 
      if (op == 40) { v = sp_times_sum(a, na); hasval = 2; if (sp_time_sum(a, na) != v) v = BAD; name = "sum"; }
      else if (op == 41) { sp_times_select(b, a, na, o); name = "select"; } /* b: values a: indices. aliasing of indices and out */
      else if (op == 90) { sp_times_select(a, b, nb, o); name = "select_from"; }
      else if (op == 42) { sp_times_bits_to_times(a, no, o); name = "bits"; }
      else if (op == 43) { sp_times_gt_indices(a, na, P[0], o, &on); osize = on; name = "gt"; }
      else if (op == 44) { sp_times_select_random(a, na, o, &on); osize = on; name = "selrnd"; }
      else if (op == 45) { st = sp_times_constant(no, P[0], &alloc); if (!st.id) { free(o); o = alloc; } name = "constant"; }
      else if (op == 46) { st = sp_times_scale(a, na, P[0], o); name = "scale"; }
      else if (op == 47) { sp_times_scale_sum(a, na, P[0], o); name = "tscalesum"; }
      else if (op == 48) { sp_times_multiplications(P[0], P[1], no, o); name = "multiplications"; }
      else if (op == 49) { v = sp_times_contains(a, na, P[0]) ? 1 : 0; hasval = 2; name = "contains"; }
      else if (op == 50) { sp_times_extract_in_range(a, na, P[0], P[1], o, &on); osize = on; name = "extract"; }
      else if (op == 51) { sp_times_limit(a, na, P[0], o); name = "limit"; }
      else if (op == 52) { sp_times_scale_y(a, na, P[0], o); name = "tscaley"; }
      else if (op == 53) { sp_times_remove(a, na, P[0], P[1], o); name = "remove"; }
      else if (op == 54) { sp_times_insert_space(a, na, P[0], P[1], o); name = "insert"; }
      else if (op == 55) { sp_times_subdivide_difference(a, na, P[0], P[1], o); name = "subdivide"; }
      else if (op == 56) { sp_times_blend(a, b, P[0] / (double)P[1], na, o); name = "tblend"; }
      else if (op == 57) { sc = malloc(na * sizeof(sp_sample_t)); for (long i = 0; i < na; i += 1) sc[i] = P[i % na1 + 1] / (double)P[0]; sp_times_mask(a, b, sc, na, o); free(sc); name = "tmask"; }
      else if (op == 58) { sa = malloc(na * sizeof(sp_sample_t)); sp_times_to_samples(a, na, sa); sout = 1; name = "copy"; }
      else if (op == 59) { sp_time_t* t = tnew(A, na); st = sp_times_to_samples_replace(t, na, &sa); if (st.id) free(t); sout = 1; name = "copy"; }
      else if (op == 60) { st = sp_times_random_binary(no, o); name = "binary"; }
      else if (op == 61) { sp_times_zero(o, na); name = "new"; }
      else if (op == 62) { sp_times_make_seamless_right(a, na, b, nb, o); name = "seamlessr"; }
      else if (op == 63) { sp_times_make_seamless_left(a, na, b, nb, o); name = "seamlessl"; }
      else name = "unknown";
    }
    B("{\"e\":\"call\",\"op\":\"%s\",\"t\":0,\"r\":%d", name, st.id); bl("p", Q, np); bl("a", A, na1); bl("b", C, nb1);
    if (op == 40 && R > 1) { alike &= v % R == 0; v /= R; }
    if (hasval) B(",\"o\":[%d]", (int32_t)(v - (hasval == 1 ? bias : 0))); else if (sout) { bs("o", sa, sa ? collapse_s(sa, na, 0, 0) : 0, 0); free(sa); } else { long bi = bias; if (op == 43) bias = 0; bt("o", o, collapse_t(o, osize > no && !alloc ? no : osize, how, na1)); bias = bi; }
    if (!alias && !inplace) bt("a2", a, collapse_t(a, na, 0, 0)); else bl("a2", A, na1);
    if (!tiled_b) R = 1; bt("b2", b, collapse_t(b, nb, 0, 0)); R = R1; B(",\"n\":%ld,\"rep\":%ld", osize, alike);
    if (a && a != o) free(a); free(b); free(o);
  }
  else {
    sp_sample_t* a = snew(A, na); sp_sample_t* b = snew(C, nb); sp_sample_t* o; sp_sample_t* alloc = 0; sp_sample_t v = 0; sp_time_t* ta = 0; int tout = 0;
    if (alias) { o = snew(0, na > no ? na : no); for (long i = 0; i < na; i += 1) o[i] = a[i]; free(a); a = o; }
    else { o = snew(0, no); }
    long ip = op >= 6 && op <= 11 || op == 15 || op == 16 || op >= 23 && op <= 27 || op == 72 || op == 73 || op == 74 || op == 77 || op == 81; if (ip) for (long i = 0; i < na; i += 1) o[i] = a[i];
    name = shared_samples(op, a, na, b, o, no, &alloc, &st, &v, &hasval, &inplace);
    if (alloc) { free(o); o = alloc; if (alias) a = 0; osize = na; }
    if (!name) {
      inplace = 0;
      if (op == 70) { ta = malloc(na * sizeof(sp_time_t)); sp_samples_to_times(a, na, ta); tout = 1; name = "totimes"; }
      else if (op == 71) { sp_sample_t* t = snew(A, na); st = sp_samples_to_times_replace(t, na, &ta); if (st.id) free(t); tout = 1; name = "totimes"; }
      else if (op == 72) { inplace = 1; sp_samples_to_units(o, na); name = "units"; }
      else if (op == 73) { inplace = 1; sp_samples_set_gain(o, na, PS(0)); name = "gain"; }
      else if (op == 74) { inplace = 1; sp_samples_set_unity_gain(o, b, na); name = "unity"; }
      else if (op == 75) { sp_samples_differences(a, na, o); name = "differences"; }
      else if (op == 76) { sp_samples_divisions(PS(0), (double)P[1], no, o); name = "divisions"; }
      else if (op == 77) { inplace = 1; sp_samples_scale_y(o, na, PS(0)); name = "sscaley"; }
      else if (op == 78) { sp_samples_scale_sum(a, na, PS(0), o); name = "sscalesum"; }
      else if (op == 79) { sp_samples_blend(a, b, P[0] / (double)P[1], na, o); name = "sblend"; }
      else if (op == 80) { sp_samples_limit_abs(a, na, PS(0), o); name = "limitabs"; }
      else if (op == 81) { inplace = 1; sp_samples_limit(o, na, PS(0)); name = "limit"; }
      else if (op == 83) { v = sp_samples_sum(a, na); hasval = 1; name = "sum"; }
      else if (op == 61) { sp_samples_zero(o, na); name = "new"; }
      else if (op == 82) {
        uint8_t* u = malloc(na); for (long i = 0; i < na; i += 1) u[i] = A[i]; uint64_t x = sp_u64_from_array(u, na); free(u);
        /* as bytes again */ free(o); o = malloc(8 * sizeof(sp_sample_t)); osize = no = 8; for (long i = 0; i < 8; i += 1) o[i] = (x >> (8 * i)) & 255; name = "u64";
      }
      else name = "unknown";
    }
    B("{\"e\":\"call\",\"op\":\"%s\",\"t\":1,\"is\":%ld,\"os\":%ld,\"r\":%d", name, is, os, st.id); bl("p", Q, np); bl("a", A, na1); bl("b", C, nb1);
    if (op == 83) v /= R;
    if (hasval == 2) B(",\"o\":[%ld]", (long)v); else if (hasval) bs("o", &v, 1, 0); else if (tout) { bt("o", ta, ta ? collapse_t(ta, na, 0, 0) : 0); free(ta); } else bs("o", o, collapse_s(o, osize, how, na1), 0);
    if (!alias && !inplace) bs("a2", a, collapse_s(a, na, 0, 0), 1); else bl("a2", A, na1);
    bs("b2", b, collapse_s(b, nb, 0, 0), 1); B(",\"n\":%ld,\"rep\":%ld", osize, alike);
    if (a && a != o) free(a); free(b); free(o);
  }
  vt_track(0);
  B(",\"live\":%ld}", vt_live()); vt_log("%s", buf);
}
static void run(long* a, long n) {
  va = a; vn = n; vp = 0; sp_random_state = sp_random_state_new(nx());
  while (vp < vn) call();
  vt_log("{\"e\":\"end\"}");
}
int main(int argc, char** argv) { return (vt_main(argc, argv, run, 20)); }
