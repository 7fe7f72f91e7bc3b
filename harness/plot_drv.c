/* data files and commands for plots. commands are recorded and not executed, temporary files are created in a scratch directory */
#define _GNU_SOURCE 1
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static char cmds[8][3000]; static int cmd_n; static char opened[400];
static int rec_system(const char* a) { if (a && cmd_n < 8) snprintf(cmds[cmd_n++], sizeof(cmds[0]), "%s", a); return (0); }
static FILE* rec_fopen(const char* a, const char* mode) {
  char q[700]; const char* t = getenv("VT_SCRATCH"); if (strchr(mode, 'w')) snprintf(opened, sizeof(opened), "%s", a);
  if (a[0] == '/' && strncmp(a, t, strlen(t))) { char b[400]; snprintf(b, sizeof(b), "%s", a); for (char* c = b; *c; c += 1) if (*c == '/') *c = '_'; snprintf(q, sizeof(q), "%s/p%d%s", t, (int)getpid(), b); a = q; }
  return (fopen(a, mode));
}
#include <unistd.h>
#include <sys/mman.h>
#define system rec_system
#define fopen rec_fopen
#include "vd_sp.h"
#include "vt.h"
static long *va, vn, vp;
static long nx(void) { return (vp < vn ? va[vp++] : 0); }
static char buf[900000]; static size_t bo;
#define B(...) bo += snprintf(buf + bo, sizeof(buf) - bo, __VA_ARGS__)
static void bytes(const char* key, const unsigned char* a, long n) { B(",\"%s\":[", key); for (long i = 0; i < n; i += 1) B(i ? ",%d" : "%d", a[i]); B("]"); }
static void commands(void) { B(",\"cmds\":["); for (int i = 0; i < cmd_n; i += 1) { B(i ? ",[" : "["); for (int j = 0; cmds[i][j]; j += 1) B(j ? ",%d" : "%d", (unsigned char)cmds[i][j]); B("]"); } B("]"); }
static void text(const char* path) { static unsigned char t[60000]; long n = 0; FILE* f = rec_fopen(path, "r"); if (f) { n = fread(t, 1, sizeof(t), f); fclose(f); } B(",\"found\":%d", !!f); bytes("text", t, n); }
static sp_sample_t* samples; static sp_time_t* times; static long size; static char vals[20000];
/* kind, size, values. samples are in thousandths or, for spectra, integers. times are two parts */
static void data(long kind) {
  size = nx(); size_t o = 0; samples = vt_malloc(size * sizeof(sp_sample_t) + 1); times = vt_malloc(size * sizeof(sp_time_t) + 1); vals[0] = 0;
  for (long i = 0; i < size; i += 1) { long v = nx(); if (kind == 2) { long w = nx(); times[i] = v * 10000 + w; o += snprintf(vals + o, sizeof(vals) - o, i ? ",[%ld,%ld]" : "[%ld,%ld]", v, w); } else { samples[i] = kind == 1 ? v / 1000.0 : v; o += snprintf(vals + o, sizeof(vals) - o, i ? ",%ld" : "%ld", v); } }
}
static struct { int kind; char path[400], vals[3000]; } done[8]; static int done_n;
static void run(long* a, long n) {
  va = a; vn = n; vp = 0; const char* t = getenv("VT_SCRATCH"); char dir[300]; snprintf(dir, sizeof(dir), "%s/plots-%d", t, (int)getpid());
  while (vp < vn) {
    long op = nx(), kind = nx(), fail = nx(), steps = 0; bo = 0; long live0 = vt_live(); int inj = 0; char path[1500]; cmd_n = 0; opened[0] = 0; uint64_t sum = 0, sum2 = 0;
    if (op == 4) { data(kind); static char out[60000]; int mf = memfd_create("out", 0), of = dup(fileno(stdout)); fflush(stdout); dup2(mf, fileno(stdout)); vt_track(1);
      if (kind == 1) sp_samples_display(samples, size); else sp_times_display(times, size); vt_track(0); fflush(stdout); dup2(of, fileno(stdout)); long m = pread(mf, out, sizeof(out), 0); (close)(mf); (close)(of);
      B("{\"e\":\"line\",\"kind\":%ld,\"v\":[%s]", kind, vals); bytes("text", (unsigned char*)out, m); B("}"); vt_log("%s", buf); vt_free(samples); vt_free(times); continue; }
    if (op == 5) { /* many plots one after another. the data of each is read after all have been displayed */
      long k = nx(), opens = 0, ok = 0, named = 0, mixed = kind == 0; char (*paths)[60] = vt_malloc(k * 60 + 1); B("{\"e\":\"many\",\"kind\":%ld,\"n\":%ld", kind, k); vt_track(1);
      for (long i = 0; i < k; i += 1) { sp_sample_t x = i; sp_time_t y = i; long kd = mixed ? 1 + i % 3 : kind; cmd_n = 0; opened[0] = 0; if (kd == 1) sp_plot_samples(&x, 1); else if (kd == 2) sp_plot_times(&y, 1); else sp_plot_spectrum(&x, 1); snprintf(paths[i], 60, "%s", opened); opens += opened[0] != 0; char q[70]; snprintf(q, sizeof(q), "\"%s\"", opened); named += cmd_n == 1 && strstr(cmds[0], q); }
      vt_track(0); for (long i = 0; i < k; i += 1) { char want[40], got[40]; long kd = mixed ? 1 + i % 3 : kind; snprintf(want, sizeof(want), kd == 2 ? "%ld\n" : "%ld.000\n", kd == 3 ? 2 * i : i); FILE* f = rec_fopen(paths[i], "r"); size_t m = f ? fread(got, 1, sizeof(got) - 1, f) : 0; got[m] = 0; if (f) (fclose)(f); ok += !strcmp(want, got); }
      B(",\"opened\":%ld,\"named\":%ld,\"own\":%ld,\"live\":%ld,\"open\":%d}", opens, named, ok, vt_live() - live0, vt_open_files()); vt_free(paths); vt_log("%s", buf); continue; }
    if (op == 6) { /* long data. size factor summand modulus windows {from count}.. */
      long k = nx(), f = nx(), s = nx(), m = nx(), w = nx(), lines = 0, at = vp; samples = vt_malloc(k * sizeof(sp_sample_t) + 1); times = vt_malloc(k * sizeof(sp_time_t) + 1); for (long i = 0; i < k; i += 1) { samples[i] = kind == 3 ? (i == f % k) * (m * (double)k / 2) : (i * f + s) % m / 1000.0; times[i] = (i * f + s) % m; }
      snprintf(path, sizeof(path), "%s-long", dir); vt_track(1); if (kind == 1) sp_plot_samples_to_file(samples, k, (uint8_t*)path); else if (kind == 2) sp_plot_times_to_file(times, k, (uint8_t*)path); else sp_plot_spectrum_to_file(samples, k, (uint8_t*)path); vt_track(0);
      B("{\"e\":\"longdata\",\"kind\":%ld,\"n\":%ld,\"f\":%ld,\"s\":%ld,\"m\":%ld,\"live\":%ld,\"open\":%d,\"rows\":[", kind, k, f, s, m, vt_live() - live0, vt_open_files()); FILE* g = fopen(path, "r"); char line[100]; int c0 = 0;
      while (g && fgets(line, sizeof(line), g)) { vp = at; for (long j = 0; j < w; j += 1) { long from = nx(), count = nx(); if (lines >= from && lines < from + count) { size_t z = strlen(line); B(c0++ ? ",[%ld" : "[%ld", lines); for (size_t q = 0; q + 1 < z; q += 1) B(",%d", line[q]); B("]"); break; } } lines += 1; }
      vp = at + 2 * w; if (g) (fclose)(g); B("],\"lines\":%ld}", lines); remove(path); vt_free(samples); vt_free(times); vt_log("%s", buf); continue; }
    if (op == 2) { steps = nx(); long length = nx(), seed = nx(); for (long i = 0; i < length; i += 1) { path[i] = 'a' + seed % 26; seed = (seed * 1103515245 + 12345) & 0x7fffffff; if (i % 7 == 3) path[i] = '/'; } path[length] = 0; }
    else { data(kind); for (long i = 0; i < size; i += 1) { uint64_t x = 0; if (kind == 2) x = times[i]; else memcpy(&x, samples + i, 8); sum = sum * 31 + x; } snprintf(path, sizeof(path), "%s-%ld", dir, vp); if (op == 1 && nx()) { FILE* f = fopen(path, "w"); fputs("1.000\n2.000\n3.000\n4.000\n5.000\n6.000\n7.000\n", f); (fclose)(f); } }
    uint8_t* p = vt_malloc(strlen(path) + 1); strcpy((char*)p, path); vt_track(1); vt_fail_at(fail);
    if (op == 1) { if (kind == 1) sp_plot_samples_to_file(samples, size, p); else if (kind == 2) sp_plot_times_to_file(times, size, p); else sp_plot_spectrum_to_file(samples, size, p); }
    else if (op == 2) { if (kind == 1) sp_plot_samples_file(p, steps); else if (kind == 2) sp_plot_times_file(p, steps); else sp_plot_spectrum_file(p); }
    else { if (kind == 1) sp_plot_samples(samples, size); else if (kind == 2) sp_plot_times(times, size); else sp_plot_spectrum(samples, size); }
    inj = vt_failed(); vt_fail_at(0); vt_track(0); vt_free(p);
    B("{\"e\":\"%s\",\"kind\":%ld,\"inj\":%d,\"live\":%ld,\"open\":%d", op == 1 ? "data" : op == 2 ? "display" : "plot", kind, inj, vt_live() - live0, vt_open_files());
    if (op == 2) { B(",\"steps\":%d", kind == 3 || steps); bytes("path", (unsigned char*)path, strlen(path)); commands(); B("}"); }
    else {
      for (long i = 0; i < size; i += 1) { uint64_t x = 0; if (kind == 2) x = times[i]; else memcpy(&x, samples + i, 8); sum2 = sum2 * 31 + x; }
      B(",\"same\":%d,\"v\":[%s]", sum == sum2, vals); if (op == 1) text(path); else { bytes("path", (unsigned char*)opened, strlen(opened)); commands(); text(opened); if (!inj && done_n < 8) { done[done_n].kind = kind; strcpy(done[done_n].path, opened); snprintf(done[done_n].vals, sizeof(done[0].vals), "%s", vals); done_n += 1; } } B("}"); vt_free(samples); vt_free(times);
      if (op == 1) remove(path);
    }
    vt_log("%s", buf);
  }
  for (int i = 0; i < done_n; i += 1) { bo = 0; B("{\"e\":\"late\",\"kind\":%d,\"v\":[%s]", done[i].kind, done[i].vals); text(done[i].path); B("}"); vt_log("%s", buf); }
  vt_log("{\"e\":\"end\",\"leak\":%ld}", vt_live());
}
int main(int argc, char** argv) { return (vt_main(argc, argv, run, 20)); }
