/* wav files. scenario: operations. samples are given as m e: m * 2^e
   1 path channels rate fail chunks {size {{m e} per frame} per channel}..  write a file. path 0 file 1 missing directory 2 a directory. fail: nth allocation or file operation fails, plus 100 if half of the data is processed
   2 source [count bytes..] fail reads {size}..   read. source 0 last written file 1 these bytes 2 missing 3 a directory 4 these bytes followed by "at gap": the file has gap more bytes at this position, which are not recorded
   5 channels rate frames repetitions {{m e} per frame} per channel writes {size}.. reads {size}..   write and read back a long file. only the first repetition is recorded, and if the others are the same
   4 channels size samples..   interleave and deinterleave */
#include "vd_sp.h"
#include "vt.h"
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
static long *va, vn, vp;
static long nx(void) { return (vp < vn ? va[vp++] : 0); }
static char buf[60000]; static size_t bo;
static void b0(void) { bo = 0; buf[0] = 0; }
#define B(...) bo += snprintf(buf + bo, sizeof(buf) - bo, __VA_ARGS__)
static char dir[200], target[300], odd[300];
static int cls(status_t s) { return (!s.id ? 0 : (!strcmp(s.group, sp_s_group_sp) && s.id == sp_s_id_file_eof) ? 1 : 2); }
static long gap_at, gap;
static void bbytes(const char* p) {
  unsigned char c[8000]; long n = 0; int fd = open(p, O_RDONLY);
  if (fd >= 0) { n = read(fd, c, gap ? gap_at : sizeof(c)); if (gap && n == gap_at) { lseek(fd, gap_at + gap, SEEK_SET); long m = read(fd, c + n, sizeof(c) - n); if (m > 0) n += m; } close(fd); }
  B("["); for (long i = 0; i < n; i += 1) B(i ? ",%d" : "%d", c[i]); B("]");
}
#define UNSET -77.125
static void bsample(double v) {
  float f = v; unsigned char c[4]; memcpy(c, &f, 4);
  if (v == UNSET) B("[]"); else if ((double)f != v) B("[-1]"); else B("[%d,%d,%d,%d]", c[0], c[1], c[2], c[3]);
}
static void inputs(long ch, long n, sp_sample_t** s, const char* name) {
  B("\"%s\":[", name);
  for (long c = 0; c < ch; c += 1) {
    s[c] = vt_malloc(n ? n * sizeof(sp_sample_t) : 1); B(c ? ",[" : "[");
    for (long i = 0; i < n; i += 1) { long m = nx(), e = nx(); s[c][i] = ldexp(m, e); B(i ? ",[%ld,%ld]" : "[%ld,%ld]", m, e); }
    B("]");
  }
  B("]");
}
static char* path_of(long p) { return (p == 0 ? target : p == 1 ? odd : dir); }
static void op_write(void) { gap = gap_at = 0;
  long p = nx(), ch = nx(), rate = nx(), fail = nx(), chunks = nx(); sp_file_t f; status_t s; sp_sample_t* x[256];
  char* path = path_of(p); if (p == 0) unlink(target);
  vt_track(1); vt_partial(fail > 99); vt_fail_at(fail % 100); s = sp_file_open_write((uint8_t*)path, ch, rate, &f); int opened = !s.id, inj = vt_failed(), r;
  vt_log("{\"e\":\"create\",\"p\":%ld,\"part\":%d,\"ch\":%ld,\"rate\":%ld,\"r\":%d,\"inj\":%d}", p, fail > 99, ch, rate, cls(s), inj);
  for (long k = 0; k < chunks; k += 1) {
    long n = nx(); b0(); B("{\"e\":\"write\",\"n\":%ld,", n); vt_track(0); inputs(ch, n, x, "x"); vt_track(1);
    if (opened) { s = sp_file_write(&f, x, n); r = vt_failed(); B(",\"r\":%d,\"inj\":%d,\"live\":%ld}", cls(s), r && !inj, vt_live()); inj = r; vt_log("%s", buf); }
    for (long c = 0; c < ch; c += 1) vt_free(x[c]);
  }
  s.id = 0; if (opened) s = sp_file_close_write(&f); r = vt_failed(); vt_fail_at(0);
  vt_track(0); b0(); B("{\"e\":\"written\",\"r\":%d,\"inj\":%d,\"open\":%d,\"live\":%ld,\"files\":%d,\"bytes\":", cls(s), opened && r && !inj, opened, vt_live(), vt_open_files()); if (opened) bbytes(path); else B("[]"); B("}"); vt_log("%s", buf);
}
static void op_read(void) {
  long src = nx(), n = 0, fail, reads; sp_file_t f; status_t s; sp_sample_t* x[256]; int four = src == 4; if (four) src = 1; char* path = src < 2 ? target : src == 2 ? odd : dir;
  if (src == 1) { n = nx(); long* by = va + vp; vp += n; gap_at = gap = 0; if (four) { gap_at = nx(); gap = nx(); } FILE* o = fopen(target, "w"); for (long i = 0; i < n; i += 1) { if (gap && i == gap_at) for (long j = 0; j < gap; j += 1) fputc("data\30\0\0\0"[j % 8], o); fputc(by[i], o); } fclose(o); }
  else gap = gap_at = 0;
  fail = nx(); reads = nx();
  vt_track(1); vt_partial(fail > 99); vt_fail_at(fail % 100); s = sp_file_open_read((uint8_t*)path, &f); int opened = !s.id, inj = vt_failed(), r;
  b0(); B("{\"e\":\"open\",\"src\":%ld,\"r\":%d,\"inj\":%d,\"gap\":[%ld,%ld],\"ch\":%d,\"bytes\":", src, cls(s), inj, gap_at, gap, opened ? (int)f.channel_count : 0); vt_track(0); if (src < 2) bbytes(path); else B("[]"); B("}"); vt_log("%s", buf); 
  for (long k = 0; k < reads; k += 1) {
    long m = nx(); if (!opened) continue;
    for (long c = 0; c < f.channel_count; c += 1) { x[c] = vt_malloc(m ? m * sizeof(sp_sample_t) : 1); for (long i = 0; i < m; i += 1) x[c][i] = UNSET; }
    vt_track(1); s = sp_file_read(f, m, x); vt_track(0); r = vt_failed();
    b0(); B("{\"e\":\"read\",\"n\":%ld,\"r\":%d,\"inj\":%d,\"live\":%ld,\"x\":[", m, cls(s), r && !inj, vt_live()); inj = r;
    for (long c = 0; c < f.channel_count; c += 1) { B(c ? ",[" : "["); for (long i = 0; i < m; i += 1) { if (i) B(","); bsample(x[c][i]); } B("]"); vt_free(x[c]); }
    B("]}"); vt_log("%s", buf);
  }
  vt_fail_at(0); vt_track(1); if (opened) sp_file_close_read(f); vt_track(0);
  vt_log("{\"e\":\"closed\",\"live\":%ld,\"files\":%d}", vt_live(), vt_open_files());
}
static void op_interleave(void) {
  long ch = nx(), n = nx(); double *a[16], *c[16], *b = vt_malloc(n * ch ? n * ch * sizeof(double) : 1);
  for (long i = 0; i < ch; i += 1) { a[i] = vt_malloc(n ? n * sizeof(double) : 1); c[i] = vt_malloc(n ? n * sizeof(double) : 1); for (long j = 0; j < n; j += 1) { a[i][j] = nx(); c[i][j] = UNSET; } }
  sp_interleave(a, b, n, ch); sp_deinterleave(c, b, n, ch);
  b0(); B("{\"e\":\"inter\",\"ch\":%ld,\"n\":%ld,\"a\":[", ch, n);
  for (long i = 0; i < ch; i += 1) { B(i ? ",[" : "["); for (long j = 0; j < n; j += 1) B(j ? ",%ld" : "%ld", lround(a[i][j])); B("]"); }
  B("],\"b\":["); for (long j = 0; j < n * ch; j += 1) B(j ? ",%ld" : "%ld", lround(b[j])); B("],\"c\":[");
  for (long i = 0; i < ch; i += 1) { B(i ? ",[" : "["); for (long j = 0; j < n; j += 1) B(j ? ",%ld" : "%ld", lround(c[i][j])); B("]"); vt_free(a[i]); vt_free(c[i]); }
  B("]}"); vt_log("%s", buf); vt_free(b);
}
static void op_long(void) {
  long ch = nx(), rate = nx(), n = nx(), R = nx(), N = n * R, rep = 1, brep = 1, pos = 0; sp_file_t f; status_t s; sp_sample_t *x[256], *y[256], *z[256]; unlink(target);
  b0(); B("{\"e\":\"long\",\"ch\":%ld,\"rate\":%ld,\"n\":%ld,\"R\":%ld,", ch, rate, n, R); inputs(ch, n, x, "x");
  for (long c = 0; c < ch; c += 1) {
    y[c] = vt_malloc(N * sizeof(sp_sample_t)); z[c] = vt_malloc((2 * N + 8) * sizeof(sp_sample_t));
    for (long i = 0; i < N; i += 1) y[c][i] = x[c][i % n];
    for (long i = 0; i < 2 * N + 8; i += 1) z[c][i] = UNSET;
  }
  sp_sample_t* at[256]; int st = 0;
  vt_track(1); s = sp_file_open_write((uint8_t*)target, ch, rate, &f); st = cls(s);
  long k = nx(); for (long i = 0; i < k; i += 1) { long m = nx(); for (long c = 0; c < ch; c += 1) at[c] = y[c] + pos; if (!st) { s = sp_file_write(&f, at, m); st = cls(s); } pos += m; }
  if (!st) { s = sp_file_close_write(&f); st = cls(s); }
  vt_track(0); B(",\"sum\":%ld,\"w\":%d,\"head\":[", pos, st);
  int fd = open(target, O_RDONLY); size_t size = lseek(fd, 0, SEEK_END); unsigned char* by = vt_malloc(size + 1); lseek(fd, 0, SEEK_SET);
  for (size_t got = 0; got < size;) { ssize_t g = read(fd, by + got, size - got); if (g <= 0) break; got += g; } close(fd);
  long p = 4 * ch * n; for (long i = 0; i < 44 && i < size; i += 1) B(i ? ",%d" : "%d", by[i]); B("],\"first\":["); for (long i = 0; i < p && 44 + i < size; i += 1) B(i ? ",%d" : "%d", by[44 + i]);
  for (size_t i = 44 + p; i < size; i += 1) if (by[i] != by[i - p]) rep = 0;
  B("],\"len\":%ld,\"rep\":%ld,\"rd\":[", (long)size, rep); vt_free(by);
  vt_track(1); s = sp_file_open_read((uint8_t*)target, &f); st = cls(s); pos = 0;
  k = nx(); for (long i = 0; i < k; i += 1) { long m = nx(); for (long c = 0; c < ch; c += 1) at[c] = z[c] + pos; if (!st && m <= N + 8) { s = sp_file_read(f, m, at); } B(i ? ",[%ld,%d]" : "[%ld,%d]", m, st ? 2 : cls(s)); pos += m; if (pos > N) pos = N; }
  if (!st) sp_file_close_read(f);
  vt_track(0); B("],\"back\":[");
  for (long c = 0; c < ch; c += 1) { B(c ? ",[" : "["); for (long i = 0; i < n; i += 1) { if (i) B(","); bsample(z[c][i]); } B("]"); }
  for (long c = 0; c < ch; c += 1) for (long i = 0; i < 2 * N + 8; i += 1) if (i < N ? i >= n && i < pos && z[c][i] != z[c][i - n] : z[c][i] != UNSET) brep = 0;
  B("],\"brep\":%ld,\"live\":%ld,\"files\":%d}", brep, vt_live(), vt_open_files()); vt_log("%s", buf);
  for (long c = 0; c < ch; c += 1) { vt_free(x[c]); vt_free(y[c]); vt_free(z[c]); }
}
static void run(long* a, long n) {
  va = a; vn = n; vp = 0; const char* t = getenv("VT_SCRATCH");
  snprintf(dir, sizeof(dir), "%s/wav%d", t ? t : "/tmp", (int)getpid()); mkdir(dir, 0700);
  snprintf(target, sizeof(target), "%s/a.wav", dir); snprintf(odd, sizeof(odd), "%s/missing/a.wav", dir);
  while (vp < vn) { long op = nx(); if (op == 1) op_write(); else if (op == 2) op_read(); else if (op == 4) op_interleave(); else if (op == 5) op_long(); else { vt_log("{\"e\":\"bad\"}"); break; } }
  unlink(target); rmdir(dir);
  vt_log("{\"e\":\"end\"}");
}
int main(int argc, char** argv) { return (vt_main(argc, argv, run, 20)); }
