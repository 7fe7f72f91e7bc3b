/* rendering of events to files and memory. scenario: fn channels rate block start end leaves {leaf: start end zdur failprep failgen}.. runs {fail}.. tree
   or, for long renderings, fn channels rate block start end 100 + cuts, cuts {position}.., leaves ..: only the first 13 samples behind each cut are recorded, and if the samples up to the next cut repeat them
   fn 0 range to file (4 with progress) 1 range to block 2 sp_render_file 3 sp_render_plot. tree: 0 leaf | 1 children.. count first, 2: group whose children are appended. fail: nth allocation or file operation fails */
#define _GNU_SOURCE 1
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/mman.h>
/* commands of plots are not executed and files outside of the scratch directory are created in it */
static char drawn[400]; static int cmds;
static int rec_system(const char* a) { cmds += 1; return (a ? 0 : 1); }
static FILE* rec_fopen(const char* a, const char* mode) {
  char q[700]; const char* t = getenv("VT_SCRATCH"); if (!t) t = "/tmp";
  if (strncmp(a, t, strlen(t)) || !strncmp(a, "/tmp/sp-plot", 12)) { char b[300]; snprintf(b, sizeof(b), "%s", a); for (char* c = b; *c; c += 1) if (*c == '/') *c = '_'; snprintf(q, sizeof(q), "%s/r%d%s", t, (int)getpid(), b); a = q; if (strchr(mode, 'w')) snprintf(drawn, sizeof(drawn), "%s", q); }
  return (fopen(a, mode));
}
#define system rec_system
#define fopen rec_fopen
#include "vd_sp.h"
#include "vt.h"
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
static long *va, vn, vp;
static long nx(void) { return (vp < vn ? va[vp++] : 0); }
static char buf[60000]; static size_t bo;
static void b0(void) { bo = 0; buf[0] = 0; }
#define B(...) bo += snprintf(buf + bo, sizeof(buf) - bo, __VA_ARGS__)
static double U; /* unit of samples. for blocks one that single precision does not have */
typedef struct { long n, s, e, zdur, fp, fg, gens; } leaf_t;
static leaf_t leaf[16];
static status_t st(int id) { status_t s; s.id = id; s.group = (uint8_t*)(id ? "vd" : ""); return (s); }
static status_t l_prepare(sp_event_t* event) {
  leaf_t* d = event->config; int r = d->fp ? 100 + d->n : 0;
  if (!r && d->zdur) event->end = event->start + d->zdur;
  vt_log("{\"e\":\"prep\",\"n\":%ld,\"r\":%d}", d->n, r); return (st(r));
}
static status_t l_generate(sp_time_t start, sp_time_t end, sp_block_t out, sp_event_t* event) {
  leaf_t* d = event->config; d->gens += 1; int r = d->fg && d->gens == d->fg ? 200 + d->n : 0;
  vt_log("{\"e\":\"gen\",\"n\":%ld,\"a\":%u,\"b\":%u,\"ch\":%d,\"r\":%d}", d->n, start, end, (int)out.channel_count, r);
  if (!r && end > start && end - start < 2000000) for (long c = 0; c < out.channel_count; c += 1) for (long p = start; p < end; p += 1) out.samples[c][p - start] += (((p * (d->n + 2) + c * 3 + d->n * 5) % 13) - 6) / 4.0 * U;
  return (st(r));
}
static void l_free(sp_event_t* event) { leaf_t* d = event->config; vt_log("{\"e\":\"free\",\"n\":%ld}", d->n); event->free = 0; sp_event_memory_free(event); }
static long nleaf;
static int build_failed;
static sp_event_t build(void) {
  long t = nx(); sp_event_t ev; sp_event_reset(ev); sp_event_t* e = &ev;
  if (!t) { leaf_t* d = leaf + nleaf++; d->gens = 0; ev.start = d->s; ev.end = d->zdur ? 0 : d->e; ev.prepare = l_prepare; ev.generate = l_generate; ev.free = l_free; ev.config = d; return (ev); }
  long k = nx(), start = nx(); sp_group_event(e);
  for (long i = 0; i < k; i += 1) { sp_event_t c = build(); status_t s = t == 1 ? sp_group_add(e, c) : sp_group_append(e, c); if (s.id) build_failed = s.id; }
  ev.start += start; ev.end += start; return (ev);
}
static void bsamples(sp_sample_t* a, long n) { B("["); for (long i = 0; i < n; i += 1) { double v = a[i] * 4 / U; B(i ? ",%ld" : "%ld", fabs(v) < 1e6 && v == floor(v) ? (long)v : 9999999); } B("]"); }
static void run(long* a, long n) {
  va = a; vn = n; vp = 0; char dir[200], target[300]; const char* t = getenv("VT_SCRATCH");
  snprintf(dir, sizeof(dir), "%s/render%d", t ? t : "/tmp", (int)getpid()); mkdir(dir, 0700); snprintf(target, sizeof(target), "%s/a.wav", dir);
  long fn = nx(), ch = nx(), rate = nx(), bs = nx(), start = nx(), end = nx(), leaves = nx(), cuts = 0, cut[64];
  if (leaves >= 100) { cuts = leaves - 100; for (long i = 0; i < cuts; i += 1) cut[i] = nx(); leaves = nx(); }
  for (long i = 0; i < leaves; i += 1) { leaf[i].n = i; leaf[i].s = nx(); leaf[i].e = nx(); leaf[i].zdur = nx(); leaf[i].fp = nx(); leaf[i].fg = nx(); }
  long runs = nx(), fails[64]; for (long k = 0; k < runs; k += 1) { long f = nx(); if (k < 64) fails[k] = f; }
  if (runs > 64) runs = 64;
  long at = vp; U = fn == 1 ? 1 + 1.0 / (1 << 26) : 1;
  if (sp_initialize(0, ch, fn == 2 || fn == 3 ? rate : 5).id) vt_stop("{\"e\":\"bad\"}");
  for (long k = 0; k < runs; k += 1) {
    status_t s; sp_block_t block; block.size = 0; block.channel_count = 0; int opens; unlink(target); if (drawn[0]) unlink(drawn);
    vp = at; nleaf = 0; build_failed = 0; vt_log("{\"e\":\"build\"}"); vt_track(1); sp_event_t event = build();
    if (build_failed) { vt_track(0); vt_log("{\"e\":\"unbuilt\"}"); vt_track(1); sp_event_free(event); vt_track(0); vt_log("{\"e\":\"released\",\"live\":%ld}", vt_live()); continue; }
    vt_log("{\"e\":\"render\",\"fn\":%ld,\"end\":%u}", fn, event.end);
    int mf = memfd_create("out", 0), of = dup(fileno(stdout)); fflush(stdout); dup2(mf, fileno(stdout)); drawn[0] = 0; cmds = 0;
    vt_fail_at(fails[k]);
    if (fn == 4) s = sp_render_range_file(event, start, end, sp_render_config(ch, rate, bs, 1), (uint8_t*)target);
    else if (fn == 3) s = sp_render_plot(event);
    else if (fn == 0) s = sp_render_range_file(event, start, end, sp_render_config(ch, rate, bs, 0), (uint8_t*)target);
    else if (fn == 1) s = sp_render_range_block(event, start, end, sp_render_config(ch, rate, bs, 0), &block);
    else s = sp_render_file(event, (uint8_t*)target);
    vt_track(0); int inj = vt_failed(); vt_fail_at(0); opens = vt_open_files();
    static unsigned char c[1 << 23]; long m = 0; fflush(stdout); dup2(of, fileno(stdout)); m = pread(mf, c, 4000, 0); close(mf); close(of); char text[4001]; long tn = 0;
    for (long i = 0; i < m; i += 1) if (m - i >= (long)strlen(target) && !memcmp(c + i, target, strlen(target))) { text[tn++] = '@'; i += strlen(target) - 1; } else text[tn++] = c[i];
    b0(); B("{\"e\":\"rendered\",\"r\":%d,\"inj\":%d,\"files\":%d,\"cmds\":%d,\"msg\":[", s.id, inj, opens, cmds); for (long i = 0; i < tn; i += 1) B(i ? ",%d" : "%d", (unsigned char)text[i]); B("],\"bytes\":");
    m = 0; int fd = fn == 1 || (fn == 3 && !drawn[0]) ? -1 : open(fn == 3 ? drawn : target, O_RDONLY); if (fd >= 0) { m = read(fd, c, sizeof(c)); close(fd); }
    B("["); for (long i = 0; i < (cuts && m > 44 ? 44 : m) && !s.id; i += 1) B(i ? ",%d" : "%d", c[i]);
    if (cuts && !s.id) {
      long size = fn == 1 ? block.size : (m - 44) / 4 / ch; float* f = fn == 1 ? 0 : (float*)(c + 44);
      #define AT(i, k) (f ? f[(i) * ch + (k)] : block.samples[k][i])
      B("],\"size\":%ld,\"rest\":%ld,\"segs\":[", size, fn == 1 ? 0 : (m - 44) % (4 * ch));
      for (long k = 0; k < cuts; k += 1) {
        long x = cut[k] - start, y = k + 1 < cuts ? cut[k + 1] - start : size, rep = 1; B(k ? ",[%ld,[" : "[%ld,[", x + start); 
        for (long h = 0; h < ch; h += 1) { B(h ? ",[" : "["); for (long i = x; i < y && i < x + 13 && i < size; i += 1) { double v = AT(i, h) * 4 / U; B(i > x ? ",%ld" : "%ld", fabs(v) < 1e6 && v == floor(v) ? (long)v : 9999999); } B("]"); }
        for (long i = x + 13; i < y && i < size; i += 1) for (long h = 0; h < ch; h += 1) if (AT(i, h) != AT(i - 13, h)) rep = 0;
        B("],%ld]", rep);
      }
    }
    B("],\"out\":[");
    if (fn == 1 && !s.id && !cuts) for (long i = 0; i < block.channel_count; i += 1) { if (i) B(","); bsamples(block.samples[i], block.size); }
    B("]}"); vt_log("%s", buf);
    vt_track(1); if (fn == 1 && !s.id) sp_block_free(&block); vt_track(0);
    vt_log("{\"e\":\"released\",\"live\":%ld}", vt_live());
  }
  sp_deinitialize(); unlink(target); if (drawn[0]) unlink(drawn); rmdir(dir);
  vt_log("{\"e\":\"end\"}");
}
int main(int argc, char** argv) { return (vt_main(argc, argv, run, 20)); }
