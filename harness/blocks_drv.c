/* sample blocks, event lists, time range parts. scenario: operations, see below. the state is logged after each */
#define _GNU_SOURCE 1
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/time.h>
#include "vd_sp.h"
#include "vt.h"
static long *va, vn, vp;
static long nx(void) { return (vp < vn ? va[vp++] : 0); }
static char buf[200000]; static size_t bo;
#define B(...) bo += snprintf(buf + bo, sizeof(buf) - bo, __VA_ARGS__)
#define N 6
static long R, T; /* sizes of blocks are R times as large in the library, with R equal samples for one. times are T times as large */
#define DIV(x, m) ((x) % (m) ? -7 : (x) / (m))
#define U (1 + 1.0 / (1 << 26)) /* samples have this unit, which single precision does not have */
static sp_block_t view[N]; static int used[N], heap_of[N], live[N]; static sp_sample_t* base[N][sp_channel_count_limit]; static long hch[N], hsize[N];
static void state(void) { /* arrays and block values */
  int c = 0; B(",\"heap\":[");
  for (int h = 0; h < N; h += 1) if (live[h]) {
    B(c++ ? ",[%d,[" : "[%d,[", h);
    for (int i = 0; i < hch[h]; i += 1) { B(i ? ",[" : "["); for (int k = 0; k < hsize[h]; k += 1) { double v = base[h][i][k * R] / U; for (long j = 1; j < R; j += 1) if (base[h][i][k * R + j] != base[h][i][k * R]) v = 0.5; B(k ? ",%ld" : "%ld", v == round(v) && fabs(v) < 1e8 ? lround(v) : -99999); } B("]"); }
    B("]]");
  }
  c = 0; B("],\"views\":[");
  for (int v = 0; v < N; v += 1) if (used[v]) {
    int h = heap_of[v]; long off = 0; if (view[v].size && view[v].channel_count) { off = view[v].samples[0] - base[h][0]; for (int i = 1; i < view[v].channel_count; i += 1) if (view[v].samples[i] - base[h][i] != off) off = -1; }
    B(c++ ? ",[%d,%d,%ld,%ld,%d]" : "[%d,%d,%ld,%ld,%d]", v, h, DIV(off, R), DIV((long)view[v].size, R), (int)view[v].channel_count);
  }
  B("]}");
}
/* lists */
static sp_event_list_t* lists[3]; static long freed[200], freed_n;
static void on_free(sp_event_t* e) { if (freed_n < 200) freed[freed_n++] = (long)e->config; e->free = 0; }
static void list_state(long x) {
  sp_event_list_t *a = lists[x], *last = 0; int c = 0; B(",\"first\":%d,\"fwd\":[", a ? a->previous != 0 : 0);
  for (; a && c < 100; a = a->next) { B(c++ ? ",[%ld,%ld]" : "[%ld,%ld]", (long)a->event.config, DIV((long)a->event.start, T)); last = a; }
  B("],\"bwd\":["); c = 0; for (a = last; a && c < 100; a = a->previous) B(c++ ? ",[%ld,%ld]" : "[%ld,%ld]", (long)a->event.config, DIV((long)a->event.start, T));
  B("],\"freed\":["); for (c = 0; c < freed_n; c += 1) B(c ? ",%ld" : "%ld", freed[c]); B("]}");
  sp_event_list_validate(lists[x]);
}
/* runs f in a process of its own. returns its exit code, 99 if it was ended by a signal or did not end. what it prints is in text */
static char text[8000];
static int apart(void (*f)(sp_event_list_t*), sp_event_list_t* l) {
  int p[2], st = 0; long n = 0, k; fflush(stdout); if (pipe(p)) return (98); pid_t pid = fork();
  if (!pid) { struct itimerval t = {{0, 0}, {0, 300000}}; signal(SIGVTALRM, SIG_DFL); setitimer(ITIMER_VIRTUAL, &t, 0); dup2(p[1], 1); f(l); fflush(stdout); _exit(0); }
  close(p[1]); while (n < (long)sizeof(text) - 1 && (k = read(p[0], text + n, sizeof(text) - 1 - n)) > 0) n += k; text[n] = 0; close(p[0]); waitpid(pid, &st, 0);
  return (WIFEXITED(st) ? WEXITSTATUS(st) : 99);
}
static long runs[9][4], rn; /* parts in a row */
static long live0, pfail, pcode, pn, pcalls[300][3]; static int psame; static sp_event_t* pevent; static sp_block_t pout;
static status_t part(sp_time_t d, sp_time_t i, sp_time_t t, sp_block_t out, sp_event_t* e) {
  status_declare; if (pn < 300) { pcalls[pn][0] = d; pcalls[pn][1] = i; pcalls[pn][2] = t; } pn += 1;
  if (rn && d == runs[rn - 1][1] && i == runs[rn - 1][2] + runs[rn - 1][0] * d && t == runs[rn - 1][3] + runs[rn - 1][0] * d) runs[rn - 1][0] += 1; else if (rn < 9) { runs[rn][0] = 1; runs[rn][1] = d; runs[rn][2] = i; runs[rn][3] = t; rn += 1; }
  psame &= e == pevent && !memcmp(&out, &pout, sizeof(out));
  if (pn == pfail) { status.id = pcode; status.group = (uint8_t*)"vd"; } return (status);
}
static void run(long* a, long n) {
  va = a; vn = n; vp = 0; R = T = 1; memset(used, 0, sizeof(used)); memset(live, 0, sizeof(live)); memset(lists, 0, sizeof(lists)); if (sp_initialize(0, 2, 100).id) vt_stop("{\"e\":\"bad\"}");
  while (vp < vn) {
    long op = nx(); bo = 0; buf[0] = 0; freed_n = 0; live0 = vt_live();
    if (op == 40) { R = nx(); T = nx(); continue; }
    if (op == 1) { long v = nx(), ch = nx(), size = nx(), fail = nx(); sp_block_t b; memset(&b, 0x5a, sizeof(b)); vt_track(1); vt_fail_at(fail); status_t s = sp_block_new(ch, size * R, &b); int inj = vt_failed(); vt_fail_at(0); vt_track(0);
      if (!s.id) { view[v] = b; used[v] = live[v] = 1; heap_of[v] = v; hch[v] = ch; hsize[v] = size; for (int i = 0; i < ch; i += 1) base[v][i] = b.samples[i]; }
      B("{\"e\":\"new\",\"v\":%ld,\"ch\":%ld,\"size\":%ld,\"st\":%d,\"inj\":%d,\"leak\":%ld", v, ch, size, s.id, inj, vt_live() - live0); state(); }
    else if (op == 2) { long v = nx(), x = nx(); for (int i = 0; i < view[v].channel_count; i += 1) for (long k = 0; k < view[v].size; k += 1) view[v].samples[i][k] = (x + 100 * (i + 1) + k / R + 1) * U; B("{\"e\":\"fill\",\"v\":%ld,\"base\":%ld", v, x); state(); }
    else if (op == 3) { long v = nx(); sp_block_zero(view[v]); B("{\"e\":\"zero\",\"v\":%ld", v); state(); }
    else if (op == 4) { long x = nx(), y = nx(); sp_block_copy(view[x], view[y]); B("{\"e\":\"copy\",\"a\":%ld,\"b\":%ld", x, y); state(); }
    else if (op == 5) { long v = nx(), u = nx(), o = nx(); view[v] = sp_block_with_offset(view[u], o * R); used[v] = 1; heap_of[v] = heap_of[u]; B("{\"e\":\"offset\",\"v\":%ld,\"u\":%ld,\"o\":%ld", v, u, o); state(); }
    else if (op == 6) { long v = nx(); int h = heap_of[v], m = hsize[h] ? hch[h] : 0; vt_track(1); sp_block_free(view + v); vt_track(0); live[h] = 0; for (int i = 0; i < N; i += 1) if (heap_of[i] == h) used[i] = 0; B("{\"e\":\"free\",\"v\":%ld,\"live\":%ld", v, vt_live() - live0 + m); state(); }
    else if (op == 10) { long x = nx(), id = nx(), start = nx(), end = nx(), fail = nx(); sp_declare_event(e); e.start = start * T; e.end = end * T; e.free = on_free; e.config = (void*)id; vt_track(1); vt_fail_at(fail); status_t s = sp_event_list_add(lists + x, e); int inj = vt_failed(); vt_fail_at(0); vt_track(0);
      long m = 0; for (int k = 0; k < 3; k += 1) if (k != x) for (sp_event_list_t* l = lists[k]; l && m < 300; l = l->next) m += 1; for (int k = 0; k < N; k += 1) if (live[k] && hsize[k]) m += hch[k];
      B("{\"e\":\"list\",\"op\":\"add\",\"x\":%ld,\"id\":%ld,\"start\":%ld,\"st\":%d,\"inj\":%d,\"live\":%ld", x, id, start, s.id, inj, vt_live() - m); list_state(x); }
    else if (op == 11 || op == 12 || op == 13) { long x = nx(), k = op == 12 ? nx() : 0; vt_track(1);
      if (op == 11) sp_event_list_reverse(lists + x); else if (op == 13) sp_event_list_free(lists + x); else { sp_event_list_t* l = lists[x]; for (long i = 1; i < k && l; i += 1) l = l->next; if (l) sp_event_list_remove(lists + x, l); }
      vt_track(0); long m = 0; for (int j = 0; j < 3; j += 1) if (j != x) for (sp_event_list_t* l = lists[j]; l && m < 300; l = l->next) m += 1; for (int j = 0; j < N; j += 1) if (live[j] && hsize[j]) m += hch[j];
      B("{\"e\":\"list\",\"op\":\"%s\",\"x\":%ld,\"k\":%ld,\"live\":%ld", op == 11 ? "reverse" : op == 12 ? "remove" : "free", x, k, vt_live() - m); list_state(x); }
    else if (op == 20) { long res = nx(), start = nx(), end = nx(); pfail = nx(); pcode = nx(); pn = 0; psame = 1; sp_event_t e; memset(&e, 0, sizeof(e)); pevent = &e; memset(&pout, 0x11, sizeof(pout)); status_t s = sp_event_block_generate(res * T, part, start * T, end * T, pout, &e);
      B("{\"e\":\"parts\",\"res\":%ld,\"start\":%ld,\"end\":%ld,\"fail\":%ld,\"code\":%ld,\"st\":%d,\"same\":%d,\"calls\":[", res, start, end, pfail, pcode, s.id, psame); for (long i = 0; i < pn && i < 300; i += 1) B(i ? ",[%ld,%ld,%ld]" : "[%ld,%ld,%ld]", DIV(pcalls[i][0], T), DIV(pcalls[i][1], T), DIV(pcalls[i][2], T)); B("]}"); }
    else if (op == 23) { long res = nx(), start = nx(), end = nx(); pfail = nx(); pcode = nx(); pn = rn = 0; psame = 1; sp_event_t e; memset(&e, 0, sizeof(e)); pevent = &e; memset(&pout, 0x11, sizeof(pout)); status_t s = sp_event_block_generate(res, part, start, end, pout, &e);
      B("{\"e\":\"runs\",\"res\":%ld,\"start\":%ld,\"end\":%ld,\"fail\":%ld,\"code\":%ld,\"st\":%d,\"same\":%d,\"runs\":[", res, start, end, pfail, pcode, s.id, psame); for (long i = 0; i < rn; i += 1) B(i ? ",[%ld,%ld,%ld,%ld]" : "[%ld,%ld,%ld,%ld]", runs[i][0], runs[i][1], runs[i][2], runs[i][3]); B("]}"); }
    else if (op == 21) { long start = nx(), end = nx(), config = nx(), onset = nx(), d = nx(), c = nx(); sp_event_t e, f, g; memset(&e, 0, sizeof(e)); e.start = start * T; e.end = end * T; e.config = (void*)config; e.free = on_free; e.generate = (void*)part; e.prepare = (void*)part; e.memory.data = (void*)&e; e.memory.size = 3; e.memory.used = 2; f = e;
      g = sp_event_schedule(e, onset * T, d * T, (void*)c); int same = !memcmp(&e, &f, sizeof(e)) && g.free == e.free && g.generate == e.generate && g.prepare == e.prepare && g.memory.data == e.memory.data && g.memory.size == 3 && g.memory.used == 2;
      B("{\"e\":\"schedule\",\"from\":[%ld,%ld,%ld],\"onset\":%ld,\"duration\":%ld,\"config\":%ld,\"to\":[%ld,%ld,%ld],\"same\":%d}", start, end, config, onset, d, c, DIV((long)g.start, T), DIV((long)g.end, T), (long)g.config, same); }
    else if (op == 22) { long m = nx(); sp_sample_t* x = vt_malloc(m * sizeof(*x)); for (long i = 0; i < m; i += 1) x[i] = nx() * U; long k = nx(); sp_sample_t* y = vt_malloc(k * sizeof(*y)); for (long i = 0; i < k; i += 1) y[i] = nx(); sp_sample_t* o = vt_malloc((m + k - 1) * sizeof(*o)); memset(o, 0, (m + k - 1) * sizeof(*o));
      sp_convolve_one(x, m, y, k, o); B("{\"e\":\"convolved\",\"a\":["); for (long i = 0; i < m; i += 1) B(i ? ",%ld" : "%ld", lround(x[i] / U)); B("],\"b\":["); for (long i = 0; i < k; i += 1) B(i ? ",%ld" : "%ld", (long)y[i]); B("],\"o\":["); for (long i = 0; i < m + k - 1; i += 1) B(i ? ",%ld" : "%ld", o[i] / U == round(o[i] / U) ? lround(o[i] / U) : -99999); B("]}"); vt_free(x); vt_free(y); vt_free(o); }
    else if (op == 30) { long m = nx(); sp_event_list_t l[8]; memset(l, 0, sizeof(l)); B("{\"e\":\"valid\",\"next\":["); for (long i = 0; i < m; i += 1) { long x = nx(); l[i].next = x ? l + x - 1 : 0; B(i ? ",%ld" : "%ld", x); }
      B("],\"prev\":["); for (long i = 0; i < m; i += 1) { long x = nx(); l[i].previous = x ? l + x - 1 : 0; B(i ? ",%ld" : "%ld", x); } int r = apart(sp_event_list_validate, m ? l : 0); B("],\"r\":%d}", r); }
    else if (op == 31) { long x = nx(); int r = apart(sp_event_list_display, lists[x]); unsigned long w[5]; int k = 0, c = 0, bad = 0; B("{\"e\":\"display\",\"x\":%ld,\"r\":%d,\"rows\":[", x, r);
      for (char* t = text; *t && sscanf(t, "%lu %lu %lu event %lu %lu%n", w, w + 1, w + 2, w + 3, w + 4, &k) == 5; t += k + (t[k] == '\n')) { long ids[3]; for (int i = 0; i < 3; i += 1) { ids[i] = w[i] ? -1 : 0; for (sp_event_list_t* l = lists[x]; l; l = l->next) if ((unsigned long)l == w[i]) ids[i] = (long)l->event.config; } B(c++ ? ",[%ld,%ld,%ld,%ld,%ld]" : "[%ld,%ld,%ld,%ld,%ld]", ids[0], ids[1], ids[2], DIV((long)w[3], T), DIV((long)w[4], T)); if (t[k] != '\n') bad = 1; }
      B("],\"bad\":%d}", bad); }
    else { vt_log("{\"e\":\"bad\"}"); break; }
    vt_log("%s", buf);
  }
  vt_track(1); for (int h = 0; h < N; h += 1) if (live[h]) { sp_block_t b = {0}; b.channel_count = hch[h]; b.size = hsize[h]; for (int i = 0; i < hch[h]; i += 1) b.samples[i] = base[h][i]; sp_block_free(&b); }
  for (int x = 0; x < 3; x += 1) sp_event_list_free(lists + x); vt_track(0); sp_deinitialize(); vt_log("{\"e\":\"end\",\"leak\":%ld}", vt_live());
}
int main(int argc, char** argv) { return (vt_main(argc, argv, run, 20)); }
