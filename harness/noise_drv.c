/* noise events. scenario: rate seed reject resolution duration channels {use amp/2 channel frq hasf f.. wdt hasw w.. trnl trnh hasa amod/2..}
   out-channels background via(0 direct 1 sp_seq) start keys {cutoff-l cutoff-h trnl trnh}.. runs {allocfail blocks sizes..}.. */
#include "vd_sp.h"
#include "vt.h"
static long *va, vn, vp;
static long nx(void) { return (vp < vn ? va[vp++] : 0); }
static sp_time_t* ntimes(long n) { sp_time_t* r = vt_malloc(n ? n * sizeof(sp_time_t) : 1); for (long i = 0; i < n; i += 1) r[i] = nx(); return (r); }
static sp_sample_t* nhalves(long n) { sp_sample_t* r = vt_malloc(n ? n * sizeof(sp_sample_t) : 1); for (long i = 0; i < n; i += 1) r[i] = nx() / 2.0; return (r); }
static char buf[60000]; static size_t bo;
static void b0(void) { bo = 0; buf[0] = 0; }
#define B(...) bo += snprintf(buf + bo, sizeof(buf) - bo, __VA_ARGS__)
static void bsamples(sp_sample_t* a, long n, double q) { B("["); for (long i = 0; i < n; i += 1) { double v = a[i] * q; B(i ? ",%ld" : "%ld", fabs(v) < 2e9 ? lround(v) : -2000000001); } B("]"); }
static void run(long* a, long n) {
  status_declare; va = a; vn = n; vp = 0;
  long rate = nx(), seed = nx(), reject = nx(), res = nx(), dur = nx(), nch = nx();
  sp_initialize(0, sp_channel_count_limit, rate);
  sp_noise_event_config_t base = sp_noise_event_config_defaults();
  sp_noise_event_config_t* made = 0; status = sp_noise_event_config_new_n(2, &made);
  for (int k = 0; k < 3; k += 1) {
    sp_noise_event_config_t* d = k ? made + k - 1 : &base; int plain = !d->is_reject;
    b0(); B("{\"e\":\"def\",\"r\":%d,\"limit\":%d,\"n\":%ld,\"res\":%ld,\"ch\":[", status.id, sp_channel_count_limit, (long)d->channel_count, (long)d->resolution);
    for (int i = 0; i < sp_channel_count_limit; i += 1) {
      sp_noise_event_channel_config_t* cc = d->channel_config + i; plain = plain && !cc->amod && !cc->fmod && !cc->wmod && !cc->filter_state && cc->use == !i;
      B("%s[%ld,%ld,%ld,%ld,%ld,%ld]", i ? "," : "", lround(cc->amp * 10), (long)cc->channel, lround(cc->frq * 1000), lround(cc->wdt * 1000), lround(cc->trnl * 1000), lround(cc->trnh * 1000));
    }
    B("],\"plain\":%d}", plain); vt_log("%s", buf);
  }
  free(made);
  base.is_reject = reject; base.resolution = res; base.channel_count = nch;
  for (long i = 0; i < nch; i += 1) {
    sp_noise_event_channel_config_t* cc = base.channel_config + i;
    cc->use = nx(); cc->amp = nx() / 2.0; cc->channel = nx(); cc->frq = nx(); cc->fmod = nx() ? ntimes(dur) : 0;
    cc->wdt = nx(); cc->wmod = nx() ? ntimes(dur) : 0; cc->trnl = nx(); cc->trnh = nx(); cc->amod = nx() ? nhalves(dur) : 0;
  }
  long outs = nx(), bg = nx(), via = nx(), start = nx(), keys = nx();
  for (long k = 0; k < keys; k += 1) {
    long x[4]; sp_sample_t* ir = 0; sp_time_t len = 0; for (int i = 0; i < 4; i += 1) x[i] = nx();
    status_t s = sp_windowed_sinc_bp_br_ir(sp_hz_to_factor(x[0]), sp_hz_to_factor(x[1]), sp_hz_to_factor(x[2]), sp_hz_to_factor(x[3]), reject, &ir, &len);
    b0(); B("{\"e\":\"ir\",\"r\":%d,\"k\":[%ld,%ld,%ld,%ld],\"ir\":", s.id, x[0], x[1], x[2], x[3]); bsamples(ir, len, 5e4); B("}"); vt_log("%s", buf); free(ir);
  }
  long runs = nx();
  for (long k = 0; k < runs; k += 1) {
    long af = nx(), blocks = nx(), pos = 0; sp_event_list_t* events = 0; sp_event_t ev = {0}; sp_event_t* event = &ev; sp_noise_event_config_t* c = vt_malloc(sizeof(sp_noise_event_config_t));
    *c = base; ev.start = via ? start : 0; ev.end = ev.start + dur; sp_noise_event(event, c);
    sp_random_state = sp_random_state_new(seed);
    vt_track(1); vt_fail_at(0);
    if (via) status = sp_event_list_add(&events, ev);
    else {
      vt_fail_at(af); status = event->prepare(event); int inj = vt_failed(); vt_fail_at(0);
      sp_random_state_t rs = c->random_state; sp_sample_t* w = vt_malloc(dur * sizeof(sp_sample_t));
      if (!status.id) sp_samples_random_primitive(&rs, dur, w);
      b0(); B("{\"e\":\"run\",\"r\":%d,\"inj\":%d,\"white\":", status.id, inj); bsamples(w, status.id ? 0 : dur, 1e4); B("}"); vt_log("%s", buf); vt_free(w);
    }
    if (via) { vt_log("{\"e\":\"run\",\"r\":0,\"inj\":0,\"white\":[]}"); vt_fail_at(af); }
    for (long b = 0; b < blocks; b += 1) {
      long len = nx(); if (status.id) continue;
      sp_block_t out; status_t s; out.channel_count = outs; out.size = len;
      for (long i = 0; i < outs; i += 1) { out.samples[i] = vt_malloc(len ? len * sizeof(sp_sample_t) : 1); for (long j = 0; j < len; j += 1) out.samples[i][j] = bg + i; }
      s = via ? sp_seq(pos, pos + len, out, &events) : event->generate(pos, pos + len, out, event);
      b0(); B("{\"e\":\"gen\",\"a\":%ld,\"b\":%ld,\"r\":%d,\"inj\":%d,\"out\":[", pos, pos + len, s.id, vt_failed());
      for (long i = 0; i < outs; i += 1) { if (i) B(","); bsamples(out.samples[i], len, 1e6); vt_free(out.samples[i]); }
      B("]}"); vt_log("%s", buf); pos += len;
      if (s.id) { status = s; }
    }
    vt_fail_at(0);
    if (via) sp_event_list_free(&events); else if (event->free) event->free(event);
    vt_track(0); vt_log("{\"e\":\"freed\",\"live\":%ld}", vt_live()); vt_free(c);
  }
  sp_deinitialize();
  vt_log("{\"e\":\"end\"}");
}
int main(int argc, char** argv) { return (vt_main(argc, argv, run, 20)); }
