/* wave events, sp_wave, sine tables and phase functions with integer waveforms.
   scenario: mode and configuration, see below */
#include "vd_sp.h"
#include "vt.h"
static long *va, vn, vp;
static long nx(void) { return (vp < vn ? va[vp++] : 0); }
static sp_sample_t* nsamples(long n) { sp_sample_t* r = vt_malloc(n ? n * sizeof(sp_sample_t) : 1); for (long i = 0; i < n; i += 1) r[i] = nx(); return (r); }
static sp_time_t* ntimes(long n) { sp_time_t* r = vt_malloc(n ? n * sizeof(sp_time_t) : 1); for (long i = 0; i < n; i += 1) r[i] = nx(); return (r); }
static char buf[60000]; static size_t bo;
/* samples of waveforms and backgrounds have this unit, which is not a single precision number */
#define UNIT (1 + 1.0 / (1 << 26))
static sp_sample_t* usamples(long n) { sp_sample_t* r = nsamples(n); for (long i = 0; i < n; i += 1) r[i] *= UNIT; return (r); }
static void b0(void) { bo = 0; buf[0] = 0; }
#define B(...) bo += snprintf(buf + bo, sizeof(buf) - bo, __VA_ARGS__)
static void bsamples(sp_sample_t* a, long n, double q) { B("["); for (long i = 0; i < n; i += 1) { double v = a[i] * q / (q == 1 ? UNIT : 1); B(i ? ",%ld" : "%ld", (fabs(v) < 2e9 && (q != 1 || fabs(v - round(v)) < 1e-9 * (1 + fabs(v)))) ? lround(v) : -2000000001); } B("]"); }

/* waveforms of more than 1000 samples: a repeated pattern with steps */
static sp_sample_t* wave_form(long n) {
  if (n <= 1000) return (usamples(n));
  long k = nx(); sp_sample_t* t = usamples(k); sp_sample_t* r = vt_malloc(n * sizeof(sp_sample_t)); for (long i = 0; i < n; i += 1) r[i] = t[i % k] + UNIT * (i / 10000);
  vt_free(t); return (r);
}
/* modes 6 and 7 are 0 and 1 with long arrays: after the duration are the period of all modulation arrays, and the first position. at the end positions of windows of 8 samples that are recorded instead of whole blocks
   mode start size wvf.. duration channels {use amp channel frq hasf f.. phs hasp p.. hasa a..} out-channels background blocks sizes.. */
static long tile;
static sp_sample_t* tsamples(long n) { if (!tile) return (nsamples(n)); sp_sample_t* r = vt_malloc(n * sizeof(sp_sample_t)); for (long i = 0; i < n; i += 1) r[i] = i < tile ? nx() : r[i - tile]; return (r); }
static sp_time_t* ttimes(long n) { if (!tile) return (ntimes(n)); sp_time_t* r = vt_malloc(n * sizeof(sp_time_t)); for (long i = 0; i < n; i += 1) r[i] = i < tile ? nx() : r[i - tile]; return (r); }
static void wave_event(int seq, int lg) {
  status_declare; sp_event_list_t* events = 0; sp_event_t ev = {0}; sp_event_t* event = &ev;
  long start = nx(), size = nx(); sp_sample_t* wvf = wave_form(size); long dur = nx(), base = 0; tile = 0; if (lg) { tile = nx(); base = nx(); } long n = nx(); sp_wave_event_config_t* c; sp_sample_t* full[sp_channel_count_limit];
  vt_track(1);
  status = sp_wave_event_config_new_n(1, &c);
  c->wvf = wvf; c->wvf_size = size; c->channel_count = n;
  for (long i = 0; i < n; i += 1) {
    sp_wave_event_channel_config_t* cc = c->channel_config + i;
    cc->use = nx(); cc->amp = nx(); cc->channel = nx(); cc->frq = nx();
    cc->fmod = nx() ? ttimes(dur) : 0; cc->phs = nx(); cc->pmod = nx() ? ttimes(dur) : 0; cc->amod = nx() ? tsamples(dur) : 0;
  }
  ev.start = seq ? start + base : 0; ev.end = ev.start + dur;
  sp_wave_event(event, c);
  status = sp_event_memory_add(event, c);
  event->free = sp_event_memory_free;
  long outs = nx(), bg = nx(), blocks = nx(), pos = base, at = vp, total = 0, st = 0;
  if (lg) { for (long b = 0; b < blocks; b += 1) total += nx(); vp = at; for (long i = 0; i < outs; i += 1) full[i] = vt_malloc((total + 8) * sizeof(sp_sample_t)); }
  if (seq) status = sp_event_list_add(&events, ev); else status = event->prepare(event);
  for (long b = 0; b < blocks && !status.id; b += 1) {
    long len = nx(); sp_block_t out; status_t s; sp_sample_t* m[sp_channel_count_limit];
    out.channel_count = outs; out.size = len;
    for (long i = 0; i < outs; i += 1) { m[i] = vt_malloc(len ? len * sizeof(sp_sample_t) : 1); out.samples[i] = m[i]; for (long j = 0; j < len; j += 1) m[i][j] = (bg + i) * UNIT; }
    s = seq ? sp_seq(pos, pos + len, out, &events) : event->generate(pos, pos + len, out, event);
    if (lg) { st = st || s.id; for (long i = 0; i < outs; i += 1) { memcpy(full[i] + (pos - base), m[i], len * sizeof(sp_sample_t)); vt_free(m[i]); } pos += len; continue; }
    b0(); B("{\"e\":\"gen\",\"a\":%ld,\"b\":%ld,\"r\":%d,\"out\":[", pos, pos + len, s.id);
    for (long i = 0; i < outs; i += 1) { if (i) B(","); bsamples(m[i], len, 1); vt_free(m[i]); }
    B("]}"); vt_log("%s", buf);
    pos += len;
  }
  if (lg) {
    long w = nx(); b0(); B("{\"e\":\"long\",\"r\":%ld,\"end\":%ld,\"w\":[", st || status.id, pos);
    for (long k = 0; k < w; k += 1) { long p = nx(); B(k ? ",[%ld,[" : "[%ld,[", p + base); for (long i = 0; i < outs; i += 1) { if (i) B(","); bsamples(full[i] + p, 8, 1); } B("]]"); }
    B("]}"); vt_log("%s", buf); for (long i = 0; i < outs; i += 1) vt_free(full[i]);
  }
  if (seq) sp_event_list_free(&events); else if (event->free) event->free(event);
  vt_track(0);
}
/* size wvf.. n amp hasa a.. frq hasf f.. phs hasstate background parts sizes.. */
static void wave_function(void) {
  long size = nx(); sp_sample_t* wvf = wave_form(size); long n = nx(), amp = nx(); sp_sample_t* amod = nx() ? nsamples(n) : 0;
  long frq = nx(); sp_time_t* fmod = nx() ? ntimes(n) : 0; sp_time_t phs = nx(); long has = nx(), bg = nx(), parts = nx(), pos = 0;
  for (long b = 0; b < parts; b += 1) {
    long len = nx(); sp_sample_t* out = vt_malloc(len ? len * sizeof(sp_sample_t) : 1); for (long j = 0; j < len; j += 1) out[j] = bg * UNIT;
    sp_wave(len, wvf, size, amp, amod ? amod + pos : 0, frq, fmod ? fmod + pos : 0, has ? &phs : 0, out);
    b0(); B("{\"e\":\"gen\",\"a\":%ld,\"b\":%ld,\"r\":0,\"out\":[", pos, pos + len); bsamples(out, len, 1); B("]}"); vt_log("%s", buf);
    vt_free(out); pos += len;
  }
}
/* sines from the tables made at initialization. rate kind(0 sine 1 lfo) n frq amp phs parts sizes.. */
static void sines(void) {
  long rate = nx(), lfo = nx(), n = nx(), frq = nx(), amp = nx(), pos = 0; sp_time_t phs = nx(); long parts = nx(); (void)n;
  vt_track(1);
  status_t s = sp_initialize(0, 2, rate);
  b0(); B("{\"e\":\"table\",\"r\":%d,\"t\":", s.id); bsamples(lfo ? sp_sine_table_lfo : sp_sine_table, lfo ? rate * sp_sine_lfo_factor : rate, 1e6); B("}"); vt_log("%s", buf);
  sp_wave_event_config_t* made = 0; sp_wave_event_config_t d0 = sp_wave_event_config_defaults(); s = sp_wave_event_config_new_n(2, &made);
  for (int k = 0; k < 3; k += 1) {
    sp_wave_event_config_t d = k ? made[k - 1] : d0; int plain = !s.id;
    b0(); B("{\"e\":\"def\",\"size\":%u,\"table\":%d,\"n\":%d,\"amp\":[", d.wvf_size, d.wvf == sp_sine_table, d.channel_count);
    for (int i = 0; i < sp_channel_count_limit; i += 1) { sp_wave_event_channel_config_t* cc = d.channel_config + i; plain = plain && !cc->amod && !cc->fmod && !cc->pmod && !cc->frq && !cc->phs && cc->use == !i; B("%s%d", i ? "," : "", (int)cc->amp); }
    B("],\"ch\":["); for (int i = 0; i < sp_channel_count_limit; i += 1) B("%s%d", i ? "," : "", d.channel_config[i].channel);
    B("],\"limit\":%d,\"plain\":%d}", sp_channel_count_limit, plain); vt_log("%s", buf);
  }
  free(made);
  for (long b = 0; b < parts; b += 1) {
    long len = nx(); sp_sample_t* out = vt_malloc(len ? len * sizeof(sp_sample_t) : 1); for (long j = 0; j < len; j += 1) out[j] = 0;
    if (lfo) sp_sine_lfo(len, amp, 0, frq, 0, &phs, out); else sp_sine(len, amp, 0, frq, 0, &phs, out);
    b0(); B("{\"e\":\"sine\",\"a\":%ld,\"b\":%ld,\"out\":", pos, pos + len); bsamples(out, len, 1e6); B("}"); vt_log("%s", buf);
    vt_free(out); pos += len;
  }
  sp_deinitialize();
  vt_track(0);
}
/* phase functions: cycle start changes.. (in 1/4 for the float version) */
static void phases(int is_float) {
  long cycle = nx(), cur = nx(), n = nx();
  for (long i = 0; i < n; i += 1) { long c = nx(); long r = is_float ? sp_phase_float(cur, c / 4.0, cycle) : sp_phase(cur, c, cycle); vt_log("{\"e\":\"phs\",\"fl\":%d,\"cy\":%ld,\"cur\":%ld,\"c\":%ld,\"v\":%ld}", is_float, cycle, cur, c, r); cur = r; }
}
static void run(long* a, long n) {
  va = a; vn = n; vp = 0; long mode = nx();
  if (mode < 2) wave_event(mode, 0); else if (mode == 6 || mode == 7) wave_event(mode - 6, 1); else if (mode == 2) wave_function(); else if (mode == 3) sines(); else if (mode < 6) phases(mode == 5);
  vt_log("{\"e\":\"end\",\"live\":%ld}", vt_live());
}
int main(int argc, char** argv) { return (vt_main(argc, argv, run, 20)); }
