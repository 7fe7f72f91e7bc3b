/* compositions of the event types of the library: waves, noises, groups, parallel groups and maps, rendered by sp_seq, sp_seq_parallel or sp_render_range_block.
   scenario: strategy seed param workers channels rate mode(0 seq 1 parallel 2 render) late(noise seeds continue and are prepared by the renderer) nodes {node}.. roots {node start}.. start parts sizes.. block
   node: 0 size wvf.. dur channels {use amp channel frq hasf f.. phs hasp p.. hasa a..} | 1 group kids {node start append}.. | 2 parallel group | 3 isolated map node factor | 4 map node added | 5 noise dur seed amp trn frq wdt prepared */
#include "vd_sp.h"
#include "vt.h"
static long *va, vn, vp;
static long nx(void) { return (vp < vn ? va[vp++] : 0); }
static sp_sample_t* nsamples(long n) { sp_sample_t* r = vt_malloc(n ? n * sizeof(sp_sample_t) : 1); for (long i = 0; i < n; i += 1) r[i] = nx(); return (r); }
static sp_time_t* ntimes(long n) { sp_time_t* r = vt_malloc(n ? n * sizeof(sp_time_t) : 1); for (long i = 0; i < n; i += 1) r[i] = nx(); return (r); }
static char buf[60000]; static size_t bo;
static void b0(void) { bo = 0; buf[0] = 0; }
#define B(...) bo += snprintf(buf + bo, sizeof(buf) - bo, __VA_ARGS__)
static void bsamples(sp_sample_t* a, long n) { B("["); for (long i = 0; i < n; i += 1) { double v = a[i] * 65536; B(i ? ",%ld" : "%ld", fabs(v) < 2e9 ? lround(v) : -2000000001); } B("]"); }
typedef struct { sp_event_t e; double k; long seed, pre; sp_noise_event_config_t base; int noise; long dur; } node_t;
static node_t node[16];
static status_t map_isolated(sp_time_t start, sp_time_t end, sp_block_t in, sp_block_t out, void* config) {
  status_declare; node_t* d = config; (void)start; vs_yield();
  for (int c = 0; c < out.channel_count; c += 1) for (sp_time_t i = 0; i < end - start; i += 1) out.samples[c][i] += d->k * in.samples[c][i];
  status_return;
}
static status_t map_plain(sp_time_t start, sp_time_t end, sp_block_t in, sp_block_t out, void* config) {
  status_declare; node_t* d = config; (void)in; vs_yield();
  for (int c = 0; c < out.channel_count; c += 1) for (sp_time_t i = 0; i < end - start; i += 1) out.samples[c][i] += d->k * (start + i + 1);
  status_return;
}
static void block_init(sp_block_t* b, long cc, long n) { b->channel_count = cc; b->size = n; for (long i = 0; i < cc; i += 1) { b->samples[i] = vt_malloc(n ? n * sizeof(sp_sample_t) : 1); for (long j = 0; j < n; j += 1) b->samples[i][j] = 0; } }
static void block_end(sp_block_t* b) { for (long i = 0; i < b->channel_count; i += 1) vt_free(b->samples[i]); }
static void bblock(sp_block_t b, long n) { B("["); for (long i = 0; i < b.channel_count; i += 1) { if (i) B(","); bsamples(b.samples[i], n); } B("]"); }
static void noise_alone(long n, long cc, long late) {
  status_declare; node_t* d = node + n; sp_event_t ev; sp_event_t* e = &ev; sp_event_reset(ev); sp_noise_event_config_t c = d->base; sp_block_t b; (void)status;
  ev.end = d->dur; sp_noise_event(e, &c); if (!late) sp_random_state = sp_random_state_new(d->seed);
  block_init(&b, cc, d->dur); status = ev.prepare(e); if (!status.id) status = ev.generate(0, d->dur, b, e);
  b0(); B("{\"e\":\"alone\",\"n\":%ld,\"r\":%d,\"out\":", n + 1, status.id); bblock(b, d->dur); B("}"); vt_log("%s", buf);
  if (ev.free) ev.free(e); block_end(&b);
}
static void run(long* a, long n) {
  status_declare; sp_event_list_t* list = 0; va = a; vn = n; vp = 0; int bad = 0; memset(node, 0, sizeof(node));
  long st = nx(), seed = nx(), param = nx(); vs_start(st, seed, param);
  long workers = nx(), cc = nx(), rate = nx(), mode = nx(), late = nx(), nodes = nx();
  vt_track(1);
  status = sp_initialize(workers, cc, rate); bad = bad || status.id;
  long order[16], orders = 0;
  for (long k = 0; k < nodes; k += 1) {
    node_t* d = node + k; sp_event_t* e = &d->e; sp_event_reset((*e)); long kind = nx();
    if (kind == 0) {
      sp_wave_event_config_t* c = 0; status = sp_wave_event_config_new_n(1, &c); long size = nx(); c->wvf = nsamples(size); c->wvf_size = size; long dur = nx(); c->channel_count = nx();
      for (long i = 0; i < c->channel_count; i += 1) {
        sp_wave_event_channel_config_t* x = c->channel_config + i;
        x->use = nx(); x->amp = nx(); x->channel = nx(); x->frq = nx(); x->fmod = nx() ? ntimes(dur) : 0; x->phs = nx(); x->pmod = nx() ? ntimes(dur) : 0; x->amod = nx() ? nsamples(dur) : 0;
      }
      e->end = dur; sp_wave_event(e, c); status = sp_event_memory_add(e, c); bad = bad || status.id;
    } else if (kind == 1 || kind == 2) {
      if (kind == 1) { sp_group_event(e); } else { sp_group_parallel_event(e); }
      long kids = nx(); for (long i = 0; i < kids; i += 1) { long j = nx(), s = nx(), app = nx(); sp_event_t x = sp_event_schedule(node[j].e, s, 0, 0); status = app ? sp_group_append(e, x) : sp_group_add(e, x); bad = bad || status.id; }
    } else if (kind == 3 || kind == 4) {
      sp_map_event_config_t* c = 0; long j = nx(); d->k = nx(); status = sp_map_event_config_new(&c);
      c->event = node[j].e; c->isolate = kind == 3; c->map_generate = kind == 3 ? map_isolated : map_plain; c->config = d; sp_map_event(e, c); e->start = 0; e->end = node[j].e.end; status = sp_event_memory_add(e, c); bad = bad || status.id;
    } else {
      sp_noise_event_config_t* c = 0; d->dur = nx(); d->seed = nx(); d->base = sp_noise_event_config_defaults(); sp_noise_event_channel_config_t* x = d->base.channel_config;
      x->amp = nx(); x->trnl = x->trnh = nx(); x->frq = nx(); x->wdt = nx(); d->pre = nx(); d->base.channel_count = 1;
      x->amod = vt_malloc(d->dur * sizeof(sp_sample_t)); for (long i = 0; i < d->dur; i += 1) x->amod[i] = 1;
      if (!late) noise_alone(k, cc, 0); else order[orders++] = k;
      status = sp_noise_event_config_new(&c); *c = d->base; e->end = d->dur; sp_noise_event(e, c); status = sp_event_memory_add(e, c); bad = bad || status.id;
      if (!late) sp_random_state = sp_random_state_new(d->seed);
      if (d->pre && !late) { status = e->prepare(e); e->prepare = 0; bad = bad || status.id; }
    }
  }
  if (late) { sp_random_state = sp_random_state_new(seed); for (long i = 0; i < orders; i += 1) noise_alone(order[i], cc, 1); sp_random_state = sp_random_state_new(seed); }
  else for (long k = 0; k < nodes; k += 1) if (node[k].dur && !node[k].pre) sp_random_state = sp_random_state_new(node[k].seed);
  sp_event_t ge; sp_event_t* g = &ge; sp_event_reset(ge); sp_group_event(g);
  long roots = nx(); for (long i = 0; i < roots; i += 1) { long j = nx(), s = nx(); sp_event_t x = sp_event_schedule(node[j].e, s, 0, 0); status = mode == 2 ? sp_group_add(g, x) : sp_event_list_add(&list, x); bad = bad || status.id; }
  if (mode != 2 && list) sp_seq_events_prepare((&list));
  long pos = nx(), parts = nx();
  vt_log("{\"e\":\"go\",\"r\":%d}", bad);
  if (mode == 2) {
    long len = nx(); for (long i = 1; i < parts; i += 1) nx(); long bs = nx(); sp_block_t b = {0}; sp_render_config_t rc = sp_render_config(cc, rate, bs, 0);
    status = sp_render_range_block(ge, pos, pos + len, rc, &b);
    b0(); B("{\"e\":\"blk\",\"a\":%ld,\"b\":%ld,\"r\":%d,\"out\":", pos, pos + len, status.id); bblock(b, status.id ? 0 : len); B("}"); vt_log("%s", buf); sp_block_free(&b);
  } else {
    status.id = 0;
    for (long i = 0; i < parts; i += 1) {
      long len = nx(); sp_block_t b; if (status.id) continue;
      block_init(&b, cc, len); status = mode ? sp_seq_parallel(pos, pos + len, b, &list) : sp_seq(pos, pos + len, b, &list);
      b0(); B("{\"e\":\"blk\",\"a\":%ld,\"b\":%ld,\"r\":%d,\"out\":", pos, pos + len, status.id); bblock(b, len); B("}"); vt_log("%s", buf); block_end(&b); pos += len;
    }
    sp_event_list_free(&list);
  }
  sp_deinitialize();
  int threads = vs_threads(); vs_stop(); vt_track(0);
  vt_log("{\"e\":\"end\",\"live\":%ld,\"threads\":%d}", vt_live(), threads);
}
int main(int argc, char** argv) { return (vt_main(argc, argv, run, 20)); }
