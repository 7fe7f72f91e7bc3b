/* containers, allocation helpers, strings, directories (inside of a scratch directory) and float sums. scenario: operations, see below */
#define _GNU_SOURCE 1
#include "vd_sp.h"
#include "sph-sp/string.h"
#include "sph-sp/filesystem.h"
#include "vt.h"
#include <ftw.h>
#include <fcntl.h>
static long *va, vn, vp;
static long nx(void) { return (vp < vn ? va[vp++] : 0); }
static char buf[200000]; static size_t bo;
#define B(...) bo += snprintf(buf + bo, sizeof(buf) - bo, __VA_ARGS__)
#define NODES 12
typedef struct { long a; sph_queue_node_t node; long b; } element_t;
static element_t el[NODES]; static sph_queue_t queue;
static long id(sph_queue_node_t* n) { if (!n) return (0); long i = sph_queue_get(n, element_t, node) - el; return (i >= 0 && i < NODES && n == &el[i].node ? i + 1 : -1); }
static void qlog(void) { int c = 0; B(",\"size\":%ld,\"first\":%ld,\"last\":%ld,\"items\":[", (long)queue.size, queue.size ? id(queue.first) : queue.first != 0, queue.size ? id(queue.last) : 0);
  for (sph_queue_node_t* n = queue.first; n && c < 30; n = n->next) B(c++ ? ",%ld" : "%ld", id(n)); B("]}"); }
array3_declare_type(arr, long);
static arr_t arr; static int arr_on;
static void alog(void) { B(",\"size\":%ld,\"used\":%ld,\"full\":%d,\"unused\":%ld,\"items\":[", (long)array3_max_size(arr), (long)array3_size(arr), array3_full(arr) ? 1 : 0, (long)array3_unused_size(arr)); for (long i = 0; i < arr.used && i < 100; i += 1) B(i ? ",%ld" : "%ld", array3_get(arr, i)); B("]}"); }
static long freed[40], freed_n;
static void handler1(void* a) { if (freed_n < 40) freed[freed_n++] = 100 + (long)a; }
static void handler2(void* a) { if (freed_n < 40) freed[freed_n++] = 200 + (long)a; }
static uint8_t* str(void) { long n = nx(); uint8_t* r = vt_malloc(n + 1); for (long i = 0; i < n; i += 1) r[i] = nx(); r[n] = 0; return (r); }
static void slog(const char* key, uint8_t* a) { B(",\"%s\":[", key); for (long i = 0; a && a[i] && i < 500; i += 1) B(i ? ",%d" : "%d", a[i]); B("]"); }
/* directories */
static int mode_ok, mode_want, dir_n;
static int visit(const char* p, const struct stat* s, int t, struct FTW* f) {
  if (t != FTW_D) return (0); if (strcmp(p, ".") && (int)(s->st_mode & 0777) != mode_want) mode_ok = 0;
  B(dir_n++ ? ",[" : "["); if (strcmp(p, ".")) { int c = 0; char q[2000]; snprintf(q, sizeof(q), "%s", p + 2); for (char* t = strtok(q, "/"); t; t = strtok(0, "/")) B(c++ ? ",%d" : "%d", t[0] == 'd' ? atoi(t + 1) : 999); } B("]"); return (0);
}
static int rmv(const char* p, const struct stat* s, int t, struct FTW* f) { return (remove(p)); }
/* long strings are sequences of runs of the same character, long arrays and queues of consecutive numbers */
static uint8_t* rstr(void) { long k = nx(), n = 0, at = vp; for (long i = 0; i < k; i += 1) { nx(); n += nx(); } vp = at; uint8_t* r = vt_malloc(n + 1); n = 0; for (long i = 0; i < k; i += 1) { long c = nx(), m = nx(); memset(r + n, c, m); n += m; } r[n] = 0; return (r); }
static void rlog(const char* key, uint8_t* a) { B(",\"%s\":[", key); for (long i = 0, c = 0; a && a[i] && c < 1000; c += 1) { long j = i; while (a[j] && a[j] == a[i]) j += 1; B(c ? ",[%d,%ld]" : "[%d,%ld]", a[i], j - i); i = j; } B("]"); }
static long lrun_a, lrun_n; static int lruns; /* consecutive numbers */
static void lrun(long v) { if (lrun_n && v == lrun_a + lrun_n) { lrun_n += 1; return; } if (lrun_n && lruns < 100) { B(lruns ? ",[%ld,%ld]" : "[%ld,%ld]", lrun_a, lrun_n); lruns += 1; } lrun_a = v; lrun_n = 1; }
static void lend(void) { if (lrun_n) B(lruns ? ",[%ld,%ld]" : "[%ld,%ld]", lrun_a, lrun_n); lrun_n = 0; lruns = 0; }
static element_t* many; static long released[3]; static char* seen;
static void handler3(void* a) { released[0] += 1; if (seen[(long)a]) released[2] += 1; seen[(long)a] |= 1; }
static void handler4(void* a) { released[1] += 1; if (seen[(long)a]) released[2] += 1; seen[(long)a] |= 2; }
static void run(long* a, long n) {
  va = a; vn = n; vp = 0; arr_on = 0; sph_queue_init(&queue); for (int i = 0; i < NODES; i += 1) { el[i].a = el[i].b = 77; el[i].node.next = (void*)&el[i]; }
  const char* t = getenv("VT_SCRATCH"); char dir[300]; snprintf(dir, sizeof(dir), "%s/tools-%d", t, (int)getpid()); if (!t || mkdir(dir, 0700) || chdir(dir)) vt_stop("{\"e\":\"bad\"}"); umask(022); mode_want = 0755;
  while (vp < vn) {
    long op = nx(); bo = 0; buf[0] = 0; long live0 = vt_live();
    if (op == 1) { long i = nx(); sph_queue_enq(&queue, &el[i - 1].node); B("{\"e\":\"enq\",\"id\":%ld", i); qlog(); }
    else if (op == 2) { long r = id(sph_queue_deq(&queue)); B("{\"e\":\"deq\",\"r\":%ld", r); qlog(); }
    else if (op == 3) { long i = nx(); B("{\"e\":\"remove\",\"id\":%ld,\"r\":%d", i, sph_queue_remove(&queue, &el[i - 1].node)); qlog(); }
    else if (op == 4) { sph_queue_init(&queue); B("{\"e\":\"qinit\""); qlog(); }
    else if (op == 5) { long k = nx(), fail = nx(); if (arr_on) { vt_track(1); array3_free(arr); vt_track(0); live0 -= 1; } arr_on = 0; vt_track(1); vt_fail_at(fail); int r = arr_new(k, &arr), inj = vt_failed(); vt_fail_at(0); vt_track(0); if (r) { array3_set_null(arr); } else arr_on = 1; B("{\"e\":\"anew\",\"n\":%ld,\"r\":%d,\"inj\":%d,\"live\":%ld", k, r, inj, vt_live() - live0); alog(); }
    else if (op == 6) { long v = nx(); array3_add(arr, v); B("{\"e\":\"aadd\",\"v\":%ld", v); alog(); }
    else if (op == 7) { array3_remove(arr); B("{\"e\":\"aremove\""); alog(); }
    else if (op == 8) { array3_clear(arr); B("{\"e\":\"aclear\""); alog(); }
    else if (op == 9) { long k = nx(), fail = nx(); vt_track(1); vt_fail_at(fail); int r = arr_resize(&arr, k), inj = vt_failed(); vt_fail_at(0); vt_track(0); B("{\"e\":\"aresize\",\"n\":%ld,\"r\":%d,\"inj\":%d", k, r, inj); alog(); }
    else if (op == 10) { long kind = nx(), k = nx(); freed_n = 0; unsigned index = 9;
      if (kind < 2) { vt_track(1); memreg_init(20); memreg_init_named(x, 20); for (long i = 0; i < k; i += 1) { void* p = malloc(8); if (kind) { memreg_add_named(x, p); } else { memreg_add(p); } } if (kind) { memreg_free_named(x); index = memreg_index_x; } else { memreg_free; index = memreg_index; } vt_track(0); if (vt_live() == live0 && !vt_bad_frees()) for (long i = 0; i < k; i += 1) freed[freed_n++] = i; B("{\"e\":\"register\",\"kind\":%ld,\"added\":[", kind); for (long i = 0; i < k; i += 1) B(i ? ",%ld" : "%ld", i); }
      else { memreg2_init_named(y, 20); B("{\"e\":\"register\",\"kind\":%ld,\"added\":[", kind); for (long i = 0; i < k; i += 1) { int h = nx(); memreg2_add_named(y, (void*)i, h ? handler2 : handler1); B(i ? ",%ld" : "%ld", (h ? 200 : 100) + i); } memreg2_free_named(y); index = memreg2_index_y; }
      B("],\"freed\":["); for (long i = 0; i < freed_n; i += 1) B(i ? ",%ld" : "%ld", freed[i]); B("],\"index\":%u}", index); }
    else if (op == 11) { long kind = nx(), k = nx(), k0 = nx(), fail = nx(); unsigned char *p = (void*)0x1234, *q; status_t s; int usable = 1; vt_track(1); if (kind == 2) { p = malloc(k0); for (long i = 0; i < k0; i += 1) p[i] = i + 1; } q = p; long before = vt_live() - live0; vt_fail_at(fail);
      s = kind == 0 ? sph_helper_malloc(k, &p) : kind == 1 ? sph_helper_calloc(k, &p) : kind == 2 ? sph_helper_realloc(k, &p) : sph_helper_malloc_string(k, &p); int inj = vt_failed(); vt_fail_at(0); long live = vt_live() - live0; vt_track(0);
      if (!s.id) { for (long i = 0; i < k; i += 1) { if (kind == 1) usable &= p[i] == 0; if (kind == 2 && i < k0) usable &= p[i] == (unsigned char)(i + 1); p[i] = 7; } if (kind == 3) usable &= p[k] == 0; }
      B("{\"e\":\"alloc\",\"kind\":%ld,\"st\":%d,\"inj\":%d,\"group\":%d,\"kept\":%d,\"usable\":%d,\"live\":%ld,\"before\":%ld}", kind, s.id, inj, s.id && !strcmp((char*)s.group, "sph") && s.id == sph_helper_status_id_memory && *sph_helper_status_name(s) == 'm' && strlen((char*)sph_helper_status_description(s)) > 5, p == q, usable, live, before); vt_track(1); if (!s.id || kind == 2) free(p); vt_track(0); }
    else if (op >= 12 && op <= 16) { long fail = nx(); uint8_t *x = 0, *y = 0, *o = 0, *xs[9]; size_t len = 0; long k = 0; int r = 0; if (op == 14) { k = nx(); for (long i = 0; i < k; i += 1) xs[i] = str(); x = str(); } else { x = str(); if (op == 12) y = str(); } uint8_t* keep = vt_malloc(strlen((char*)x) + 1); strcpy((char*)keep, (char*)x);
      vt_track(1); vt_fail_at(fail); if (op == 12) o = string_append(x, y); else if (op == 13) o = string_clone(x); else if (op == 14) o = string_join(xs, k, x, &len); else if (op == 15) r = ensure_trailing_slash(x, &o); else o = dirname_2(x); int inj = vt_failed(); vt_fail_at(0); vt_track(0);
      B("{\"e\":\"%s\",\"inj\":%d,\"null\":%d,\"r\":%d,\"len\":%ld,\"new\":%d,\"same\":%d", op == 12 ? "append" : op == 13 ? "clone" : op == 14 ? "join" : op == 15 ? "slash" : "dirname", inj, !o, r, (long)len, vt_live() == live0 + 1 && o != x, !strcmp((char*)keep, (char*)x));
      slog(op == 14 ? "d" : "a", x); if (y) slog("b", y); slog("o", o); if (op == 14) { B(",\"q\":["); for (long i = 0; i < k; i += 1) { B(i ? ",[" : "["); for (long j = 0; xs[i][j]; j += 1) B(j ? ",%d" : "%d", xs[i][j]); B("]"); } B("]"); } B("}");
      if (vt_live() > live0) { vt_track(1); free(o); vt_track(0); } vt_free(x); vt_free(keep); if (y) vt_free(y); for (long i = 0; i < k; i += 1) vt_free(xs[i]); }
    else if (op == 17) { long x = nx(); char p[20]; snprintf(p, sizeof(p), "d%ld", x); int f = open(p, O_CREAT | O_EXCL | O_WRONLY, 0600); B("{\"e\":\"file\",\"path\":[%ld],\"st\":%d}", x, f < 0); if (f >= 0) close(f); }
    else if (op == 18) { /* fail absolute slashes n names.. */
      long fail = nx(), absolute = nx(), slashes = nx(), k = nx(); char p[2000]; size_t o = 0; p[0] = 0; if (absolute) o = snprintf(p, sizeof(p), "%s/", dir); B("{\"e\":\"ensure\",\"path\":[");
      for (long i = 0; i < k; i += 1) { long x = nx(); B(i ? ",%ld" : "%ld", x); if (i) o += snprintf(p + o, sizeof(p) - o, (slashes & 1) ? "//" : "/"); o += x == -1 ? snprintf(p + o, sizeof(p) - o, ".") : x == -2 ? snprintf(p + o, sizeof(p) - o, "..") : snprintf(p + o, sizeof(p) - o, "d%ld", x); } if (slashes & 2) snprintf(p + o, sizeof(p) - o, "/");
      errno = 0; vt_track(1); vt_fail_at(fail); int r = ensure_directory_structure((uint8_t*)p, mode_want | 022), inj = vt_failed(); vt_fail_at(0); vt_track(0); B("],\"r\":%d,\"inj\":%d,\"live\":%ld,\"dirs\":[", r, inj, vt_live() - live0); dir_n = 0; mode_ok = 1; nftw(".", visit, 8, FTW_PHYS); B("],\"modes\":%d}", mode_ok); }
    else if (op == 19) { long bits = nx(), k = nx(); double x[64], q = bits == 64 ? ldexp(1, 60) : ldexp(1, 40); float y[64]; B("{\"e\":\"sum\",\"bits\":%ld,\"hi\":[", bits); long lo[64]; for (long i = 0; i < k; i += 1) { long h = nx(); lo[i] = nx(); x[i] = h ? h * q : lo[i]; if (h) lo[i] = 0; y[i] = x[i]; B(i ? ",%ld" : "%ld", h); } B("],\"lo\":["); for (long i = 0; i < k; i += 1) B(i ? ",%ld" : "%ld", lo[i]);
      double *x2 = vt_malloc(k * sizeof(double)); memcpy(x2, x, k * sizeof(double)); float* y2 = vt_malloc(k * sizeof(float)); memcpy(y2, y, k * sizeof(float)); double v = bits == 64 ? sph_f64_sum(x2, k) : sph_f32_sum(y2, k); vt_free(x2); vt_free(y2); B("],\"v\":%ld,\"big\":%ld}", fabs(v) < 1e9 && v == round(v) ? (long)v : -1999999999, lround(v / q)); }
    else if (op == 20) { long bits = nx(), x = nx(), y = nx(), m = nx(); int r = bits == 64 ? sph_f64_nearly_equal(x / 8.0, y / 8.0, m / 8.0) : sph_f32_nearly_equal(x / 8.0, y / 8.0, m / 8.0); B("{\"e\":\"near\",\"a\":%ld,\"b\":%ld,\"m\":%ld,\"r\":%d}", x, y, m, r); }
    else if (op == 21) { long bits = nx(), m = nx(), k = nx(), l; double x[64], y[64]; float x3[64], y3[64]; for (long i = 0; i < k; i += 1) x3[i] = x[i] = nx(); l = nx(); for (long i = 0; i < l; i += 1) y3[i] = y[i] = nx(); int r = bits == 64 ? sph_f64_array_nearly_equal(x, k, y, l, m) : sph_f32_array_nearly_equal(x3, k, y3, l, m);
      B("{\"e\":\"nears\",\"m\":%ld,\"a\":[", m); for (long i = 0; i < k; i += 1) B(i ? ",%ld" : "%ld", (long)x[i]); B("],\"b\":["); for (long i = 0; i < l; i += 1) B(i ? ",%ld" : "%ld", (long)y[i]); B("],\"r\":%d}", r); }
    else if (op == 22) { long f = nx(), k = 0; uint8_t *x = 0, *y = 0, *o = 0, *xs[400]; size_t len = 0; int r = 0; if (f == 14) { k = nx(); for (long i = 0; i < k; i += 1) xs[i] = rstr(); } x = rstr(); if (f == 12) y = rstr(); uint8_t* keep = vt_malloc(strlen((char*)x) + 1); strcpy((char*)keep, (char*)x);
      vt_track(1); if (f == 12) o = string_append(x, y); else if (f == 13) o = string_clone(x); else if (f == 14) o = string_join(xs, k, x, &len); else if (f == 15) r = ensure_trailing_slash(x, &o); else o = dirname_2(x); vt_track(0);
      B("{\"e\":\"long\",\"f\":%ld,\"null\":%d,\"r\":%d,\"len\":%ld,\"new\":%d,\"same\":%d", f, !o, r, (long)len, vt_live() == live0 + 1 && o != x, !strcmp((char*)keep, (char*)x));
      rlog("a", x); if (y) rlog("b", y); rlog("o", o); B(",\"q\":["); for (long i = 0; i < k; i += 1) { char* z = buf + bo; B(i ? ",[" : "["); rlog("", xs[i]); char* w = strchr(z, ':'); memmove(z + !!i, w + 1, strlen(w)); bo = strlen(buf); } B("]}");
      if (vt_live() > live0) { vt_track(1); free(o); vt_track(0); } vt_free(x); vt_free(keep); if (y) vt_free(y); for (long i = 0; i < k; i += 1) vt_free(xs[i]); }
    else if (op == 23) { /* array of size k, u used, resized to m, w more */
      long k = nx(), u = nx(), m = nx(), w = nx(); arr_t b; vt_track(1); int r = arr_new(k, &b); for (long i = 0; i < u; i += 1) { array3_add(b, i * 3 + 1); } r |= arr_resize(&b, m); vt_track(0);
      B("{\"e\":\"abig\",\"k\":%ld,\"u\":%ld,\"m\":%ld,\"w\":%ld,\"r\":%d,\"used1\":%ld", k, u, m, w, r, (long)array3_size(b)); for (long i = 0; i < w; i += 1) { array3_add(b, (b.used) * 3 + 1); }
      long ok = 0; while (ok < b.used && array3_get(b, ok) == ok * 3 + 1) ok += 1; B(",\"size\":%ld,\"used\":%ld,\"unused\":%ld,\"full\":%d,\"ok\":%ld}", (long)array3_max_size(b), (long)array3_size(b), (long)array3_unused_size(b), array3_full(b) ? 1 : 0, ok); vt_track(1); array3_free(b); vt_track(0); }
    else if (op == 24) { /* queue: pairs added, taken */
      long k = nx(), next = 0; sph_queue_t q; sph_queue_init(&q); many = vt_malloc(200000 * sizeof(element_t)); B("{\"e\":\"qbig\",\"steps\":["); long at = vp; for (long i = 0; i < k; i += 1) { long x = nx(), y = nx(); B(i ? ",[%ld,%ld]" : "[%ld,%ld]", x, y); } B("],\"sizes\":["); vp = at;
      static long sizes[50], tk[200000]; long tn = 0; for (long i = 0; i < k; i += 1) { long x = nx(), y = nx(); for (long j = 0; j < x; j += 1) sph_queue_enq(&q, &many[next++].node); sizes[2 * i] = q.size; for (long j = 0; j < y; j += 1) tk[tn++] = sph_queue_get(sph_queue_deq(&q), element_t, node) - many; sizes[2 * i + 1] = q.size; }
      for (long i = 0; i < 2 * k; i += 1) B(i ? ",%ld" : "%ld", sizes[i]); B("],\"taken\":["); for (long i = 0; i < tn; i += 1) lrun(tk[i]); lend(); B("]}"); vt_free(many); }
    else if (op == 25) { /* register with k addresses, every mth with the other handler */
      long k = nx(), m = nx(), all = 1; seen = vt_malloc(k + 1); memset(seen, 0, k + 1); released[0] = released[1] = released[2] = 0; memreg2_init_named(z, k); for (long i = 0; i < k; i += 1) { memreg2_add_named(z, (void*)i, i % m ? handler3 : handler4); } memreg2_free_named(z);
      for (long i = 0; i < k; i += 1) all &= seen[i] == (i % m ? 1 : 2); B("{\"e\":\"rbig\",\"k\":%ld,\"m\":%ld,\"a\":%ld,\"b\":%ld,\"twice\":%ld,\"all\":%ld}", k, m, released[0], released[1], released[2], all); vt_free(seen); }
    else if (op == 26) { /* sums and comparisons of long arrays: bits repeats count values {hi lo}.. changed index */
      long bits = nx(), R = nx(), k = nx(), n0 = R * k; double* x = vt_malloc(n0 * sizeof(double)), *x1 = vt_malloc(n0 * sizeof(double)); float* y = vt_malloc(n0 * sizeof(float)), *y1 = vt_malloc(n0 * sizeof(float)); double q = bits == 64 ? ldexp(1, 60) : ldexp(1, 40); B("{\"e\":\"sbig\",\"rep\":%ld,\"v\":[", R);
      for (long i = 0; i < k; i += 1) { long h = nx(), l = nx(); B(i ? ",[%ld,%ld]" : "[%ld,%ld]", h, l); x[i] = y[i] = h ? h * q : l; } for (long i = k; i < n0; i += 1) { x[i] = x[i - k]; y[i] = y[i - k]; } memcpy(x1, x, n0 * sizeof(double)); memcpy(y1, y, n0 * sizeof(float));
      long at = nx(), d = nx(); double v = bits == 64 ? sph_f64_sum(x, n0) : sph_f32_sum(y, n0); if (at >= 0) { x1[at] += d; y1[at] += d; } int r = bits == 64 ? sph_f64_array_nearly_equal(x, n0, x1, n0, 1) : sph_f32_array_nearly_equal(y, n0, y1, n0, 1);
      B("],\"sum\":%ld,\"at\":%ld,\"d\":%ld,\"near\":%d}", fabs(v) < 2e9 && v == floor(v) ? (long)v : -2000000001, at, d, r); vt_free(x); vt_free(y); vt_free(x1); vt_free(y1); }
    else { vt_log("{\"e\":\"bad\"}"); break; }
    vt_log("%s", buf);
  }
  if (arr_on) { vt_track(1); array3_free(arr); vt_track(0); }
  nftw(dir, rmv, 8, FTW_PHYS | FTW_DEPTH); vt_log("{\"e\":\"end\",\"leak\":%ld}", vt_live());
}
int main(int argc, char** argv) { return (vt_main(argc, argv, run, 20)); }
