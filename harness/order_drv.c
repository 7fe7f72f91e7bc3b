/* events whose values make the order of floating point additions visible, see Order.tla.
   scenario: strategy seed param workers parallel start events {start duration h l status}.. blocks size.. */
#include "vd_sp.h"
#include "vt.h"
#define BIG 1152921504606846976.0 /* 2^60 */
typedef struct { sp_sample_t v; int st; } own_t;
static status_t generate(sp_time_t start, sp_time_t end, sp_block_t out, sp_event_t* e) {
  status_declare; own_t* o = e->config; vs_yield();
  for (sp_time_t i = 0; i < end - start; i += 1) for (int c = 0; c < out.channel_count; c += 1) out.samples[c][i] += o->v;
  vs_yield(); if (o->st) { status.group = "drv"; status.id = o->st; }
  status_return;
}
static char bh[20000], bl[20000];
static void run(long* a, long n) {
  status_declare; sp_event_list_t* list = 0; static own_t own[64]; long i = 3; (void)n;
  vs_start(a[0], a[1], a[2]); long workers = a[i++], parallel = a[i++], pos = a[i++], events = a[i++];
  vt_track(1);
  status = sp_initialize(workers, 1, 50);
  for (long k = 0; k < events; k += 1) {
    sp_event_t e; sp_event_reset(e); e.start = a[i]; e.end = a[i] + a[i + 1]; own[k].v = a[i + 2] * BIG + a[i + 3]; own[k].st = a[i + 4]; e.config = own + k; e.generate = generate; i += 5;
    status = sp_event_list_add(&list, e);
  }
  if (list) sp_seq_events_prepare((&list));
  long blocks = a[i++];
  for (long k = 0; k < blocks; k += 1) {
    long size = a[i++]; sp_block_t b; b.channel_count = 1; b.size = size; b.samples[0] = vt_malloc(size * sizeof(sp_sample_t)); for (long j = 0; j < size; j += 1) b.samples[0][j] = 0;
    status = parallel ? sp_seq_parallel(pos, pos + size, b, &list) : sp_seq(pos, pos + size, b, &list);
    int oh = 0, ol = 0; bh[0] = bl[0] = 0;
    for (long j = 0; j < size; j += 1) {
      double v = b.samples[0][j], h = fabs(v) < 1e25 ? round(v / BIG) : 999, l = v - h * BIG; if (!(fabs(l) < 1e9)) l = 999999; if (l != floor(l)) l = 999998;
      oh += snprintf(bh + oh, sizeof bh - oh, j ? ",%d" : "%d", (int)h); ol += snprintf(bl + ol, sizeof bl - ol, j ? ",%d" : "%d", (int)l);
    }
    vt_log("{\"e\":\"blk\",\"a\":%ld,\"b\":%ld,\"r\":%d,\"h\":[%s],\"l\":[%s]}", pos, pos + size, status.id, bh, bl);
    vt_free(b.samples[0]); pos += size; if (status.id) break;
  }
  sp_event_list_free(&list);
  sp_deinitialize();
  int threads = vs_threads(); vs_stop(); vt_track(0);
  vt_log("{\"e\":\"end\",\"live\":%ld,\"threads\":%d}", vt_live(), threads);
}
int main(int argc, char** argv) { return (vt_main(argc, argv, run, 20)); }
