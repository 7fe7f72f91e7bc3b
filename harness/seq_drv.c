/* drives event lists, groups, maps and event memory of the sequencer through scenarios and logs what it observes.
   scenario: integers, see op codes below. all instrumentation is in user callbacks, which the library allows to be replaced */
#include "vd_sp.h"
#include "vt.h"

#define VD_NODES 16
#define VD_DIGITS 7
#define VD_BASE 128.0
#define VD_PRE 5
typedef struct {
  int n, kind, zdur, fail_what, fail_n, preg, digit, gens;
  unsigned long cn, prepared, started, ended, freed, window; /* crowds: many events with the same range */
  sp_event_t event; /* until added */
  status_t (*prepare)(sp_event_t*);
} vd_node_t;
enum { vd_leaf, vd_group, vd_pgroup, vd_map_plain, vd_iso_pass, vd_iso_drop, vd_auto, vd_crowd, vd_kinds };
static vd_node_t vd_nodes[VD_NODES];
#define VD_REGS 1024
static int vd_regs[VD_NODES * VD_REGS];
static long vd_base, vd_nest; /* positions in the library are greater by base. all events are in another group */
static sp_event_t vd_outer; static int vd_outer_used;
static long vd_unit = 1; /* number of samples per position. all samples of a position have the same value */
static unsigned long vd_far; /* positions from 500 are so that position 1000 is this one. for very long events and distances */
static unsigned long vd_pos(unsigned long x) { return (vd_far && x + 500 >= vd_far ? x + 1000 - vd_far : x % vd_unit ? 2000000000 : x / vd_unit); }
static unsigned long vd_time(long p) { return (vd_far && p >= 500 ? vd_far + p - 1000 : (unsigned long)p * vd_unit); }
/* the value a sample gets for its position */
#define VD_VALUE(x) (double)(vd_pos((x) - ((x) % vd_unit)) % 64 + 1 + ch)
static int vd_parallel;

static status_t vd_status(int id) { status_t s; s.id = id; s.group = (uint8_t*)(id ? "vd" : ""); return (s); }
static void vd_handler(void* a) { vt_log("{\"e\":\"rel\",\"n\":%d,\"r\":%d}", (*(int*)a) / VD_REGS, (*(int*)a) % VD_REGS); }
static void vd_handler2(void* a) { vt_log("{\"e\":\"rel\",\"n\":%d,\"r\":%d,\"h\":1}", (*(int*)a) / VD_REGS, (*(int*)a) % VD_REGS); }
/* even registrations use one handler, odd the other one, to see that handlers stay with their addresses */
static sp_memory_free_t vd_handler_of(int r) { return ((r & 1) ? vd_handler2 : vd_handler); }

static status_t vd_prepare_leaf(sp_event_t* event) {
  vd_node_t* d = event->config; status_declare;
  for (int i = 0; i < d->preg; i += 1) {
    int r = 1000 + i;
    vd_regs[d->n * VD_REGS + r] = d->n * VD_REGS + r;
    if (i == 0) { status = sp_event_memory_ensure(event, d->preg); vt_log("{\"e\":\"ens\",\"n\":%d,\"k\":%d,\"st\":%d}", d->n, d->preg, status.id); }
    sp_event_memory_fixed_add_with_handler(event, vd_regs + (d->n * VD_REGS + r), vd_handler_of(r));
    vt_log("{\"e\":\"reg\",\"n\":%d,\"r\":%d,\"st\":0,\"fixed\":1}", d->n, r);
  }
  int r = d->fail_what == 1 ? 100 + d->n : 0;
  if (!r && d->zdur) event->end = event->start + d->zdur * vd_unit;
  vt_log("{\"e\":\"prep\",\"n\":%d,\"r\":%d}", d->n, r);
  vs_yield();
  return (vd_status(r));
}
static status_t vd_generate(sp_time_t start, sp_time_t end, sp_block_t out, sp_event_t* event) {
  vd_node_t* d = event->config; double w = 1; int r;
  for (int i = 0; i < d->digit; i += 1) w *= VD_BASE;
  d->gens += 1;
  r = (d->fail_what == 2 && d->gens == d->fail_n) ? 200 + d->n : 0;
  vt_log("{\"e\":\"gen\",\"n\":%d,\"a\":%lu,\"b\":%lu,\"c\":%d,\"r\":%d}", d->n, vd_pos(start), vd_pos(end), (int)out.channel_count, r);
  vs_yield();
  if (!r && end > start && (end - start) / vd_unit < 100000) {
    for (int ch = 0; ch < out.channel_count; ch += 1) for (sp_time_t i = 0; i < end - start; i += 1) out.samples[ch][i] += w * VD_VALUE((unsigned long)start + i);
  }
  if (vd_parallel) { vs_yield(); vt_log("{\"e\":\"gend\",\"n\":%d}", d->n); }
  return (vd_status(r));
}
static void vd_free(sp_event_t* event) {
  vd_node_t* d = event->config;
  vt_log("{\"e\":\"free\",\"n\":%d}", d->n);
  event->free = 0;
  sp_event_memory_free(event);
}
/* a crowd logs what its last event does. everything else has to be the same for all */
#define VD_INC(x) __atomic_add_fetch(&(x), 1, __ATOMIC_SEQ_CST)
static status_t vd_crowd_prepare(sp_event_t* event) {
  vd_node_t* d = event->config; unsigned long k = VD_INC(d->prepared);
  if (k >= d->cn) vt_log("{\"e\":\"prep\",\"n\":%d,\"r\":0}", d->n);
  return (vd_status(0));
}
static status_t vd_crowd_generate(sp_time_t start, sp_time_t end, sp_block_t out, sp_event_t* event) {
  vd_node_t* d = event->config; double w = 1; unsigned long k = VD_INC(d->started), win = ((unsigned long)start << 32) + end, old = __atomic_exchange_n(&d->window, win, __ATOMIC_SEQ_CST);
  for (int i = 0; i < d->digit; i += 1) w *= VD_BASE;
  if (k >= d->cn || (old && old != win)) vt_log("{\"e\":\"gen\",\"n\":%d,\"a\":%lu,\"b\":%lu,\"c\":%d,\"r\":0}", d->n, vd_pos(start), vd_pos(end), (int)out.channel_count);
  if (end > start && (end - start) / vd_unit < 100000) for (int ch = 0; ch < out.channel_count; ch += 1) for (sp_time_t i = 0; i < end - start; i += 1) out.samples[ch][i] += w;
  if (VD_INC(d->ended) >= d->cn && vd_parallel) vt_log("{\"e\":\"gend\",\"n\":%d}", d->n);
  return (vd_status(0));
}
static void vd_crowd_free(sp_event_t* event) {
  vd_node_t* d = event->config; event->free = 0;
  if (VD_INC(d->freed) >= d->cn) vt_log("{\"e\":\"free\",\"n\":%d}", d->n);
}
static int vd_digit(double v, int d) {
  /* digits of a sum of at most base-1 per node */
  for (int i = 0; i < d; i += 1) v = floor(v / VD_BASE);
  if (d == VD_DIGITS - 1) return ((int)v);
  return ((int)(v - VD_BASE * floor(v / VD_BASE)));
}
/* [[[digit of position 0], ...] per digit] per channel. -1 if not an exact value */
static int vd_digits(char* s, size_t size, sp_block_t b, sp_time_t n) {
  size_t o = 0;
  o += snprintf(s + o, size - o, "[");
  for (int ch = 0; ch < b.channel_count; ch += 1) {
    o += snprintf(s + o, size - o, ch ? ",[" : "[");
    for (int d = 0; d < VD_DIGITS; d += 1) {
      o += snprintf(s + o, size - o, d ? ",[" : "[");
      for (sp_time_t i = 0; i < n; i += 1) {
        double v = b.samples[ch][i * vd_unit];
        for (long j = 1; j < vd_unit; j += 1) if (b.samples[ch][i * vd_unit + j] != v) v = -1;
        o += snprintf(s + o, size - o, i ? ",%d" : "%d", (v < 0 || v > 9007199254740991.0 || v != floor(v)) ? -1 : vd_digit(v, d));
      }
      o += snprintf(s + o, size - o, "]");
    }
    o += snprintf(s + o, size - o, "]");
  }
  o += snprintf(s + o, size - o, "]");
  return (o);
}
static status_t vd_map(sp_time_t start, sp_time_t end, sp_block_t in, sp_block_t out, void* config) {
  vd_node_t* d = config; double w = 1; int r; static __thread char s[30000];
  sp_time_t n = end > start && (end - start) / vd_unit < 1000 ? (end - start) / vd_unit : 0;
  for (int i = 0; i < d->digit; i += 1) w *= VD_BASE;
  d->gens += 1;
  r = (d->fail_what == 2 && d->gens == d->fail_n) ? 200 + d->n : 0;
  vd_digits(s, sizeof(s), in, n);
  int rest = 1; /* a private buffer must be zero elsewhere */
  if (in.samples[0] != out.samples[0]) for (int ch = 0; ch < in.channel_count; ch += 1) for (sp_time_t i = n * vd_unit; i < in.size; i += 1) if (in.samples[ch][i] != 0) rest = 0;
  vt_log("{\"e\":\"map\",\"n\":%d,\"a\":%lu,\"b\":%lu,\"same\":%d,\"rest\":%d,\"c\":%d,\"r\":%d,\"in\":%s}", d->n, vd_pos(start), vd_pos(end), in.samples[0] == out.samples[0], rest, (int)in.channel_count, r, s);
  if (r) return (vd_status(r));
  for (int ch = 0; ch < out.channel_count; ch += 1) for (sp_time_t i = 0; i < n * vd_unit; i += 1) {
    if (d->kind == vd_iso_pass) out.samples[ch][i] += in.samples[ch][i];
    out.samples[ch][i] += w * VD_VALUE((unsigned long)start + i);
  }
  return (vd_status(0));
}
/* prepare of groups and maps: one function for each node because their config is used by the library */
static status_t vd_prepare_wrap(int n, sp_event_t* event) {
  vd_node_t* d = vd_nodes + n; status_t s;
  if (d->fail_what == 1) { vt_log("{\"e\":\"prep\",\"n\":%d,\"r\":%d}", n, 100 + n); return (vd_status(100 + n)); }
  vt_log("{\"e\":\"prep\",\"n\":%d,\"r\":0}", n);
  s = d->prepare ? d->prepare(event) : vd_status(0);
  return (s);
}
#define W(k) static status_t vd_prepare_##k(sp_event_t* e) { return (vd_prepare_wrap(k, e)); }
W(0) W(1) W(2) W(3) W(4) W(5) W(6) W(7) W(8) W(9) W(10) W(11) W(12) W(13) W(14) W(15)
#undef W
static status_t (*vd_prepare_wraps[])(sp_event_t*) = { vd_prepare_0, vd_prepare_1, vd_prepare_2, vd_prepare_3, vd_prepare_4, vd_prepare_5, vd_prepare_6, vd_prepare_7, vd_prepare_8, vd_prepare_9, vd_prepare_10, vd_prepare_11, vd_prepare_12, vd_prepare_13, vd_prepare_14, vd_prepare_15 };

static void vd_node_init(vd_node_t* d, int n, int kind, int zdur, int fw, int fn, int preg, int digit) {
  memset(d, 0, sizeof(*d));
  d->n = n; d->kind = kind; d->zdur = zdur; d->fail_what = fw; d->fail_n = fn; d->preg = preg; d->digit = digit;
  sp_event_t* e = &d->event; sp_event_reset((*e));
  if (kind == vd_leaf || kind == vd_auto) {
    e->prepare = vd_prepare_leaf; e->generate = vd_generate; e->config = d;
    if (kind == vd_leaf) e->free = vd_free;
  } else if (kind == vd_crowd) { e->prepare = vd_crowd_prepare; e->generate = vd_crowd_generate; e->free = vd_crowd_free; e->config = d; d->cn = preg; d->preg = 0; }
  else if (kind == vd_group) { sp_group_event(e); }
  else if (kind == vd_pgroup) { sp_group_parallel_event(e); }
  if (kind == vd_group || kind == vd_pgroup) e->start = zdur; /* a value from before children are added. the range is set later */
  if (kind == vd_group || kind == vd_pgroup) { d->prepare = e->prepare; e->prepare = vd_prepare_wraps[n]; }
}
static void vd_wrap(vd_node_t* m, vd_node_t* d, long s, long t) {
  sp_map_event_config_t* c = 0; sp_event_t* e = &m->event; status_t st;
  st = sp_map_event_config_new((&c));
  if (st.id) vt_stop("{\"e\":\"crash\",\"why\":\"map config\"}");
  s = vd_time(s); t = vd_time(t); d->event.start = s; d->event.end = t;
  c->event = d->event; c->map_generate = vd_map; c->config = m; c->isolate = m->kind != vd_map_plain;
  sp_map_event(e, c);
  e->start = s; e->end = t;
  st = sp_event_memory_add(e, c);
  if (st.id) vt_stop("{\"e\":\"crash\",\"why\":\"map memory\"}");
  m->prepare = e->prepare; e->prepare = vd_prepare_wraps[m->n];
}
static sp_event_list_t* vd_list;
static long vd_live0;
static int vd_direct_failed;
static void vd_run(long* a, long n) {
  long i = 0, cc = 1; static char s[200000]; status_t st;
  vt_track(1);
  while (i < n) {
    long op = a[i++];
    if (op == 0) { /* strategy seed param channels: scenario head */
      cc = a[i + 3]; vs_start(a[i], a[i + 1], a[i + 2]); i += 4;
    } else if (op == 1) { vd_node_init(vd_nodes + a[i], a[i], a[i + 1], a[i + 2], a[i + 3], a[i + 4], a[i + 5], a[i + 6]); i += 7; }
    else if (op == 2 || op == 3) { /* group node start end */
      long g = a[i], k = a[i + 1]; sp_event_t* e = &vd_nodes[k].event; i += 2;
      long es = a[i++], ee = a[i++];
      vt_log("{\"e\":\"addb\",\"g\":%ld,\"n\":%ld,\"s\":%ld,\"t\":%ld,\"app\":%d}", g, k, es, ee, op == 3);
      if (vd_nodes[k].kind == vd_group || vd_nodes[k].kind == vd_pgroup) e->start = 0;
      es = vd_time(es); if (ee >= 0) ee = vd_time(ee);
      if (g < 0) { es += vd_base; if (ee >= 0) ee += vd_base; }
      if (ee >= 0) { e->start = es; e->end = ee; } else *e = sp_event_schedule(*e, es, 0, 0); /* -1: with the duration the group has */
      for (unsigned long m = vd_nodes[k].cn ? vd_nodes[k].cn : 1; m; m -= 1) {
      if (g < 0 && vd_nest) { if (!vd_outer_used) { sp_event_t* o = &vd_outer; sp_event_reset((*o)); if (vd_nest == 1) { sp_group_event(o); } else { sp_group_parallel_event(o); } vd_outer_used = 1; } st = sp_group_add(&vd_outer, *e); }
      else if (g < 0) st = sp_event_list_add(&vd_list, *e);
      else st = op == 3 ? sp_group_append(&vd_nodes[g].event, *e) : sp_group_add(&vd_nodes[g].event, *e);
      if (st.id) break; }
      vt_log("{\"e\":\"adde\",\"n\":%ld,\"r\":%d,\"ge\":%lu}", k, st.id, g < 0 ? 0 : vd_pos(vd_nodes[g].event.end));
    } else if (op == 4) { /* map node start end */
      long m = a[i], k = a[i + 1], es = a[i + 2], ee = a[i + 3]; i += 4;
      vt_log("{\"e\":\"wrap\",\"g\":%ld,\"n\":%ld,\"s\":%ld,\"t\":%ld}", m, k, es, ee);
      vd_wrap(vd_nodes + m, vd_nodes + k, es, ee);
    } else if (op == 5 || op == 7) {
      long k = a[i], r = a[i + 1]; i += 2; vd_regs[k * VD_REGS + r] = k * VD_REGS + r; st = vd_status(0);
      if (op == 5) st = sp_event_memory_add_with_handler(&vd_nodes[k].event, vd_regs + k * VD_REGS + r, vd_handler_of(r));
      else sp_event_memory_fixed_add_with_handler(&vd_nodes[k].event, vd_regs + k * VD_REGS + r, vd_handler_of(r));
      vt_log("{\"e\":\"reg\",\"n\":%ld,\"r\":%ld,\"st\":%d,\"fixed\":%d}", k, r, st.id, op == 7);
    } else if (op == 6) {
      long k = a[i], z = a[i + 1]; i += 2;
      st = sp_event_memory_ensure(&vd_nodes[k].event, z);
      vt_log("{\"e\":\"ens\",\"n\":%ld,\"k\":%ld,\"st\":%d}", k, z, st.id);
    } else if (op == 8) {
      long k = a[i++];
      vt_log("{\"e\":\"mfb\",\"n\":%ld}", k);
      sp_event_memory_free(&vd_nodes[k].event);
      vt_log("{\"e\":\"mfe\",\"n\":%ld}", k);
    } else if (op == 9) { if (vd_outer_used) { st = sp_event_list_add(&vd_list, vd_outer); if (st.id) vt_log("{\"e\":\"bad\"}"); vd_outer_used = 0; } if (vd_list) sp_seq_events_prepare((&vd_list)); vt_log("{\"e\":\"sort\"}"); }
    else if (op == 10) {
      long bs = a[i], be = a[i + 1], par = a[i + 2], pre = a[i + 3]; i += 4; sp_block_t b;
      b.channel_count = cc; b.size = (be - bs) * vd_unit;
      for (int ch = 0; ch < cc; ch += 1) {
        b.samples[ch] = vt_malloc((be - bs) * vd_unit * sizeof(double));
        for (long p = 0; p < (be - bs) * vd_unit; p += 1) b.samples[ch][p] = pre ? VD_PRE : 0;
      }
      vt_log("{\"e\":\"blk\",\"s\":%ld,\"t\":%ld,\"par\":%ld,\"pre\":%ld}", bs, be, par, pre ? (long)VD_PRE : 0);
      for (int k = 0; k < VD_NODES; k += 1) { vd_nodes[k].started = 0; vd_nodes[k].ended = 0; vd_nodes[k].window = 0; }
      st = par ? sp_seq_parallel(vd_time(bs) + vd_base, vd_time(be) + vd_base, b, &vd_list) : sp_seq(vd_time(bs) + vd_base, vd_time(be) + vd_base, b, &vd_list);
      vd_digits(s, sizeof(s), b, be - bs);
      vt_log("{\"e\":\"ret\",\"st\":%d,\"empty\":%d,\"out\":%s}", st.id, vd_list == 0, s);
      for (int ch = 0; ch < cc; ch += 1) vt_free(b.samples[ch]);
    } else if (op == 11) {
      vt_log("{\"e\":\"lfb\"}"); sp_event_list_free(&vd_list); vt_log("{\"e\":\"lfe\",\"empty\":%d}", vd_list == 0);
    } else if (op == 12) {
      long w = a[i++], x = a[i++]; vd_parallel = w > 0; /* workers, number of the thread that can not be created or, negative, of the allocation that fails */
      vs_fail_create(x > 0 ? x : 0); if (x < 0) vt_fail_at(-x); st = sp_initialize(w, cc, 50); vs_fail_create(0); int spare = x < 0 && !vt_failed(); if (x < 0) vt_fail_at(0); if (spare) x = 0; /* it does not allocate that often */
      vt_log("{\"e\":\"init\",\"w\":%ld,\"x\":%ld,\"st\":%d,\"threads\":%d}", w, x, st.id, vs_threads());
      if (spare) { sp_deinitialize(); vt_log("{\"e\":\"deinit\",\"threads\":%d}", vs_threads()); }
    } else if (op == 13) { sp_deinitialize(); vt_log("{\"e\":\"deinit\",\"threads\":%d}", vs_threads()); }
    else if (op == 14) { /* free an event that was not added */
      long k = a[i++]; vt_log("{\"e\":\"efb\",\"n\":%ld}", k); sp_event_free((vd_nodes[k].event)); vt_log("{\"e\":\"efe\",\"n\":%ld,\"null\":%d}", k, vd_nodes[k].event.free == 0);
    } else if (op == 15) { /* prepare an event that is used without a list. node end, -1: as it is */
      long k = a[i], t = a[i + 1]; i += 2; sp_event_t* e = &vd_nodes[k].event; e->start = 0; if (t >= 0) e->end = vd_time(t);
      vt_log("{\"e\":\"dpb\",\"n\":%ld,\"t\":%lu}", k, vd_pos(e->end));
      st = vd_status(0); if (e->prepare) { st = e->prepare(e); if (!st.id) e->prepare = 0; }
      vd_direct_failed = st.id != 0; vt_log("{\"e\":\"dpe\",\"n\":%ld,\"st\":%d}", k, st.id);
    } else if (op == 16) { /* generate a part of it. node start end pre */
      long k = a[i], bs = a[i + 1], be = a[i + 2], pre = a[i + 3]; i += 4; sp_block_t b; if (vd_direct_failed) continue;
      b.channel_count = cc; b.size = (be - bs) * vd_unit;
      for (int ch = 0; ch < cc; ch += 1) {
        b.samples[ch] = vt_malloc((be - bs) * vd_unit * sizeof(double));
        for (long p = 0; p < (be - bs) * vd_unit; p += 1) b.samples[ch][p] = pre ? VD_PRE : 0;
      }
      vt_log("{\"e\":\"blk\",\"s\":%ld,\"t\":%ld,\"par\":0,\"pre\":%ld}", bs, be, pre ? (long)VD_PRE : 0);
      for (int j = 0; j < VD_NODES; j += 1) { vd_nodes[j].started = 0; vd_nodes[j].ended = 0; vd_nodes[j].window = 0; }
      st = vd_nodes[k].event.generate(vd_time(bs), vd_time(be), b, &vd_nodes[k].event); vd_direct_failed = st.id != 0;
      vd_digits(s, sizeof(s), b, be - bs);
      vt_log("{\"e\":\"dret\",\"n\":%ld,\"st\":%d,\"out\":%s}", k, st.id, s);
      for (int ch = 0; ch < cc; ch += 1) vt_free(b.samples[ch]);
    } else if (op == 17) { vd_base = (a[i] << 16) + a[i + 1]; vd_nest = a[i + 2]; i += 3; }
    else if (op == 18) vd_unit = a[i++];
    else if (op == 19) { vd_far = (a[i] << 16) + a[i + 1]; i += 2; }
    else vt_stop("{\"e\":\"crash\",\"why\":\"driver\"}");
  }
  long steps = vs_steps();
  vs_stop();
  vt_track(0);
  vt_log("{\"e\":\"end\",\"live\":%ld,\"steps\":%ld}", vt_live() - vd_live0, steps);
}
int main(int argc, char** argv) { return (vt_main(argc, argv, vd_run, 20)); }
