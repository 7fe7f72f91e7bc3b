/* permutations, compositions, digit sequences and their counts. scenario: calls {op ..}
   1 fail n values.. permutations | 2 fail sum: compositions | 3 base digits steps start..: increments | 4 base digits words start..: sequences
   5 fn a b: counts. 0 sequence_max 1 permutations_max 2 compositions_max 3 expt 4 factorial | 6 index n divisors..: modulo_match */
#include "vd_sp.h"
#include "vt.h"
static long *va, vn, vp;
static long nx(void) { return (vp < vn ? va[vp++] : 0); }
static char buf[64000]; static size_t bo;
#define B(...) bo += snprintf(buf + bo, sizeof(buf) - bo, __VA_ARGS__)
static void bt(const char* k, sp_time_t* a, long n) { if (*k) B(",\"%s\":", k); B("["); for (long i = 0; i < n; i += 1) B(i ? ",%d" : "%d", (int32_t)a[i]); B("]"); }
static void run(long* a, long n) {
  va = a; vn = n; vp = 0;
  while (vp < vn) {
    long op = nx(); bo = 0; buf[0] = 0;
    if (op == 1) {
      long fail = nx(), k = nx(); sp_time_t* set = malloc(k * sizeof(sp_time_t)); sp_time_t** out = 0; sp_time_t size = 0;
      for (long i = 0; i < k; i += 1) set[i] = nx();
      B("{\"e\":\"perms\""); bt("set", set, k);
      vt_track(1); vt_fail_at(fail); status_t s = sp_times_permutations(k, set, k, &out, &size); vt_track(0); int inj = vt_failed(); vt_fail_at(0);
      bt("set2", set, k); B(",\"r\":%d,\"inj\":%d,\"size\":%d,\"o\":[", s.id, inj, (int)(s.id ? 0 : size));
      if (!s.id) { for (long i = 0; i < size; i += 1) { if (i) B(","); bt("", out[i], k); } vt_track(1); for (long i = 0; i < size; i += 1) free(out[i]); free(out); vt_track(0); }
      B("],\"live\":%ld}", vt_live()); free(set);
    }
    else if (op == 2) {
      long fail = nx(), sum = nx(); sp_time_t **out = 0, *sizes = 0, size = 0;
      B("{\"e\":\"comps\",\"sum\":%ld", sum);
      vt_track(1); vt_fail_at(fail); status_t s = sp_times_compositions(sum, &out, &size, &sizes); vt_track(0); int inj = vt_failed(); vt_fail_at(0);
      B(",\"r\":%d,\"inj\":%d,\"size\":%d,\"o\":[", s.id, inj, (int)(s.id ? 0 : size));
      if (!s.id) { for (long i = 0; i < size; i += 1) { if (i) B(","); bt("", out[i], sizes[i]); } vt_track(1); for (long i = 0; i < size; i += 1) free(out[i]); free(out); free(sizes); vt_track(0); }
      B("],\"live\":%ld}", vt_live());
    }
    else if (op == 3) {
      long base = nx(), digits = nx(), steps = nx(); sp_time_t* w = malloc(digits * sizeof(sp_time_t)); for (long i = 0; i < digits; i += 1) w[i] = nx();
      B("{\"e\":\"incs\",\"base\":%ld", base); bt("w", w, digits); B(",\"o\":[");
      for (long i = 0; i < steps; i += 1) { if (i) B(","); sp_times_sequence_increment(w, digits, base); bt("", w, digits); }
      B("]}"); free(w);
    }
    else if (op == 4) {
      long base = nx(), digits = nx(), words = nx(); sp_time_t* w = malloc(digits * words * sizeof(sp_time_t)); for (long i = 0; i < digits * words; i += 1) w[i] = i < digits ? nx() : 77777;
      B("{\"e\":\"seqs\",\"base\":%ld,\"words\":%ld", base, words); bt("w", w, digits); sp_times_sequences(base, digits, words, w); B(",\"o\":[");
      for (long i = 0; i < words; i += 1) { if (i) B(","); bt("", w + i * digits, digits); }
      B("]}"); free(w);
    }
    else if (op == 5) {
      long fn = nx(), x = nx(), y = nx(); sp_time_t v = fn == 0 ? sp_set_sequence_max(x, y) : fn == 1 ? sp_permutations_max(x, y) : fn == 2 ? sp_compositions_max(x) : fn == 3 ? sp_time_expt(x, y) : sp_time_factorial(x);
      B("{\"e\":\"count\",\"fn\":%ld,\"x\":%ld,\"y\":%ld,\"v\":%d}", fn, x, y, (int32_t)v);
    }
    else if (op == 6) {
      long index = nx(), k = nx(); size_t d[32]; for (long i = 0; i < k && i < 32; i += 1) d[i] = nx();
      B("{\"e\":\"match\",\"i\":%ld,\"v\":%d,\"d\":[", index, (int)sp_modulo_match(index, d, k)); for (long i = 0; i < k && i < 32; i += 1) B(i ? ",%d" : "%d", (int)d[i]); B("]}");
    }
    else if (op == 7) { /* many permutations: how many, how many different ones, how many of all elements. sorted sets give each permutation a number */
      long k = nx(), bad = 0, distinct = 0, max = 1; sp_time_t* set = malloc(k * sizeof(sp_time_t)); sp_time_t** out = 0; sp_time_t size = 0; for (long i = 0; i < k; i += 1) { set[i] = nx(); max *= i + 1; }
      status_t s = sp_times_permutations(k, set, k, &out, &size); char* seen = calloc(max + 1, 1);
      for (long i = 0; !s.id && i < size; i += 1) { long rank = 0, used = 0; for (long j = 0; j < k && rank >= 0; j += 1) { long x = -1, less = 0; for (long m = 0; m < k; m += 1) if (set[m] == out[i][j] && !(used >> m & 1)) x = m; if (x < 0) { rank = -1; break; } used |= 1l << x; for (long m = 0; m < x; m += 1) less += !(used >> m & 1); rank = rank * (k - j) + less; } if (rank < 0) bad += 1; else if (!seen[rank]) { seen[rank] = 1; distinct += 1; } free(out[i]); }
      if (!s.id) free(out); free(seen); free(set); B("{\"e\":\"permsum\",\"n\":%ld,\"r\":%d,\"size\":%ld,\"distinct\":%ld,\"bad\":%ld}", k, s.id, (long)size, distinct, bad);
    }
    else if (op == 8) { /* many compositions. their partial sums as bits are the number */
      long sum = nx(), bad = 0, distinct = 0; sp_time_t **out = 0, *sizes = 0, size = 0; status_t s = sp_times_compositions(sum, &out, &size, &sizes); char* seen = calloc(1l << sum, 1);
      for (long i = 0; !s.id && i < size; i += 1) { long at = 0, code = 0, ok = sizes[i] > 0; for (long j = 0; ok && j < sizes[i]; j += 1) { if (!out[i][j] || out[i][j] > sum - at) ok = 0; else { at += out[i][j]; code |= 1l << (at - 1); } } if (!ok || at != sum) bad += 1; else if (!seen[code]) { seen[code] = 1; distinct += 1; } free(out[i]); }
      if (!s.id) { free(out); free(sizes); } free(seen); B("{\"e\":\"compsum\",\"n\":%ld,\"r\":%d,\"size\":%ld,\"distinct\":%ld,\"bad\":%ld}", sum, s.id, (long)size, distinct, bad);
    }
    else if (op == 9) { /* long series of words, eight of them and their successors, and how many do not follow by one */
      long base = nx(), digits = nx(), words = nx(); sp_time_t* w = malloc(digits * words * sizeof(sp_time_t)); for (long i = 0; i < digits * words; i += 1) w[i] = i < digits ? nx() : 77777; B("{\"e\":\"seqsum\",\"base\":%ld,\"words\":%ld", base, words); bt("w", w, digits);
      sp_times_sequences(base, digits, words, w); long off = 0; for (long i = 1; i < words; i += 1) { int carry = 1; for (long j = 0; j < digits; j += 1) { sp_time_t want = w[(i - 1) * digits + j] + carry; carry = want == base; if (carry) want = 0; if (w[i * digits + j] != want) { off += 1; break; } } }
      B(",\"off\":%ld,\"at\":[", off); long at = vp; for (int i = 0; i < 8; i += 1) B(i ? ",%ld" : "%ld", nx()); vp = at; B("],\"o\":["); for (int i = 0; i < 8; i += 1) { long x = nx(); if (i) B(","); bt("", w + x * digits, digits); } B("]}"); free(w);
    }
    else break;
    vt_log("%s", buf);
  }
  vt_log("{\"e\":\"end\"}");
}
int main(int argc, char** argv) { return (vt_main(argc, argv, run, 20)); }
