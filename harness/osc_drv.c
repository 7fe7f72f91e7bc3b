/* functions of time and conversions. scenario: calls {op arguments}, see below */
#include "vd_sp.h"
#include "vt.h"
static long *va, vn, vp;
static long nx(void) { return (vp < vn ? va[vp++] : 0); }
static char buf[64000]; static size_t bo;
#define B(...) bo += snprintf(buf + bo, sizeof(buf) - bo, __VA_ARGS__)
static long fix(double v, double q) { v *= q; return (fabs(v) < 2e9 ? lround(v) : -2000000001); }
static sp_time_t big(void) { sp_time_t hi = nx(); return (hi * 65536 + nx()); }
#define T(t) (long)((t) >> 16), (long)((t) & 65535)
static void run(long* a, long n) {
  va = a; vn = n; vp = 0; if (sp_initialize(0, 2, 1000).id) vt_stop("{\"e\":\"bad\"}");
  while (vp < vn) {
    long op = nx(); bo = 0; buf[0] = 0;
    if (op == 1) { sp_time_t t = big(), x = nx(), y = nx(); B("{\"e\":\"tri\",\"t\":[%ld,%ld],\"a\":%u,\"b\":%u,\"v\":%ld}", T(t), x, y, fix(sp_triangle(t, x, y), 1e6)); }
    else if (op == 2) { sp_time_t t = big(), size = nx(); sp_sample_t v = sp_square(t, size); B("{\"e\":\"square\",\"t\":[%ld,%ld],\"size\":%u,\"v\":%ld}", T(t), size, v == 1 ? 1 : v == -1 ? -1l : 99); }
    else if (op == 3) { sp_time_t x = nx(), y = nx(), c = nx(); B("{\"e\":\"phase\",\"cur\":%u,\"change\":%u,\"cycle\":%u,\"v\":%u}", x, y, c, sp_phase(x, y, c)); }
    else if (op == 4) { sp_time_t x = nx(); long y = nx(); sp_time_t c = nx(); B("{\"e\":\"phasef\",\"cur\":%u,\"change\":%ld,\"cycle\":%u,\"v\":%u}", x, y, c, sp_phase_float(x, y / 64.0, c)); }
    else if (op == 5) { long x = nx(), c = nx(); double v = sp_pan_to_amp(x / 64.0, c) * 64; B("{\"e\":\"pan\",\"x\":%ld,\"c\":%ld,\"v\":%ld}", x, c, v == round(v) ? lround(v) : 9999); }
    else if (op == 6) { long size = nx(); sp_sample_t* o = vt_malloc((size + 2) * sizeof(*o)); o[size] = o[size + 1] = 77.77777; sp_sine_period(size, o);
      B("{\"e\":\"sine\",\"size\":%ld,\"o\":[", size); for (long i = 0; i < size + 2; i += 1) B(i ? ",%ld" : "%ld", fix(o[i], 1e5)); B("]}"); vt_free(o); }
    else if (op == 7) { long x = nx(); B("{\"e\":\"sinc\",\"x\":%ld,\"v\":%ld}", x, fix(sp_sinc(x / 16.0), 1e5)); }
    else if (op == 8) { long w = nx(); B("{\"e\":\"window\",\"width\":%ld,\"o\":[", w); for (long i = 0; i < w; i += 1) B(i ? ",%ld" : "%ld", fix(sp_window_blackman(i, w), 1e5)); B("]}"); }
    else if (op == 9) { long x = nx(), y = nx(), d = nx(), k = nx(); sp_rate = nx();
      B("{\"e\":\"convert\",\"rate\":%u,\"x\":%ld,\"y\":%ld,\"d\":%ld,\"n\":%ld,\"wave\":%ld,\"hz\":%u,\"factor\":%ld,\"fhz\":%ld,\"rad\":%ld,\"rhz\":%ld,\"unit\":%ld,\"dur\":%u}", sp_rate, x, y, d, k, (long)(sp_hz_to_samples((sp_time_t)x)), sp_samples_to_hz((sp_time_t)x),
        fix(sp_hz_to_factor(x), 1e6), (long)sp_factor_to_hz(sp_hz_to_factor(x)), fix(sp_hz_to_rad((y / 16.0)), 1e3), fix(sp_rad_to_hz((sp_hz_to_rad((y / 16.0)))), 1e4), fix(sp_sample_to_unit((y / 16.0)), 32), sp_rate_duration((sp_time_t)k, (sp_time_t)d)); }
    else if (op == 10) { long x = nx(); double v = x / 64.0; B("{\"e\":\"round\",\"x\":%ld,\"up\":%u,\"down\":%u,\"near\":%u}", x, sp_cheap_ceiling_positive(v), sp_cheap_floor_positive(v), sp_cheap_round_positive(v)); }
    else if (op == 11) { sp_time_t x = nx(), y = nx(); long f = nx(), sx = x, sy = y;
      B("{\"e\":\"pair\",\"x\":%u,\"y\":%u,\"f\":%ld,\"max\":%u,\"min\":%u,\"smax\":%ld,\"smin\":%ld,\"imax\":%u,\"imin\":%u,\"diff\":%u,\"sub\":%u,\"quot\":%u,\"opt\":%u,\"lim\":%ld,\"abs\":%ld,\"odd\":%d,\"inter\":%ld}", x, y, f, sp_time_max(x, y), sp_time_min(x, y), fix(sp_sample_max(x, y), 1), fix(sp_sample_min(x, y), 1), sp_inline_max(x, y), sp_inline_min(x, y),
        sp_inline_absolute_difference(x, y), sp_inline_no_underflow_subtract(x, y), sp_inline_no_zero_divide(x, y), sp_inline_optional(x, y), sp_inline_limit((sx - 20), (-sy), sy), sp_inline_abs((sx - sy)), (int)sp_time_odd_p(x), fix(sp_sample_interpolate_linear((double)x, (double)y, (f / 8.0)), 8)); }
    else if (op == 12) { /* names and descriptions of all known failures */
      int ids[] = {sp_s_id_file_write, sp_s_id_file_read, sp_s_id_file_not_implemented, sp_s_id_file_eof, sp_s_id_eof, sp_s_id_input_type, sp_s_id_memory, sp_s_id_invalid_argument, sp_s_id_not_implemented}; int k = sizeof(ids) / sizeof(*ids);
      B("{\"e\":\"statuses\",\"ids\":["); for (int i = 0; i < k; i += 1) B(i ? ",%d" : "%d", ids[i]);
      for (int d = 0; d < 2; d += 1) { B(d ? "],\"desc\":[" : "],\"names\":["); for (int i = 0; i < k; i += 1) { status_declare; static char own_group[3]; strcpy(own_group, "sp"); status.group = (uint8_t*)((d + i) % 2 ? own_group : sp_s_group_sp); status.id = ids[i]; B(i ? ",\"%s\"" : "\"%s\"", (char*)(d ? sp_status_description(status) : sp_status_name(status))); } }
      B("]}"); }
    else if (op == 14) { sp_time_t x = nx(), b = nx(); long k = nx(); B("{\"e\":\"harm\",\"x\":%u,\"b\":%u,\"k\":%ld,\"v\":%u}", x, b, k, sp_time_harmonize(x, b, k / 8.0)); }
    else if (op == 15) { status_declare; long g = nx(); static char group_copy[10]; strcpy(group_copy, g == 0 ? sp_s_group_sph : g == 1 ? sp_s_group_sp : "other"); status.group = (uint8_t*)group_copy; /* created at run time: groups are compared as strings */ status.id = nx();
      B("{\"e\":\"status\",\"g\":%ld,\"id\":%d,\"mem\":%d,\"name\":\"%s\",\"desc\":\"%s\"}", g, status.id, sph_helper_status_id_memory, (char*)sp_status_name(status), (char*)sp_status_description(status)); }
    else if (op == 13) { /* tables made by sp_initialize */
      long rate = nx(); sp_deinitialize(); if (sp_initialize(0, 2, rate).id) vt_stop("{\"e\":\"bad\"}"); int same = 1; sp_sample_t* o = vt_malloc(rate * sizeof(*o));
      sp_sine_period(rate, o); same &= !memcmp(o, sp_sine_table, rate * sizeof(*o)) && sp_rate == rate; vt_free(o);
      o = vt_malloc(rate * sp_sine_lfo_factor * sizeof(*o)); sp_sine_period(rate * sp_sine_lfo_factor, o); same &= !memcmp(o, sp_sine_table_lfo, rate * sp_sine_lfo_factor * sizeof(*o)); vt_free(o);
      B("{\"e\":\"tables\",\"rate\":%ld,\"same\":%d}", rate, same); }
    else if (op == 16) { /* sines from tables: which rate size bg amp/2 frq phase+1 has-amod amod/2.. has-fmod fmod.. */
      long w = nx(), rate = nx(), size = nx(), bg = nx(), amp = nx(), frq = nx(), ph = nx(); sp_time_t phs = ph ? ph - 1 : 0;
      sp_deinitialize(); if (sp_initialize(0, 2, rate).id) vt_stop("{\"e\":\"bad\"}");
      sp_sample_t *am = 0, *o = vt_malloc(size * sizeof(*o)); sp_time_t* f = 0;
      B("{\"e\":\"sines\",\"lfo\":%ld,\"rate\":%ld,\"factor\":%ld,\"bg\":%ld,\"amp\":%ld,\"frq\":%ld,\"phs\":%ld,\"am\":[", w, rate, (long)sp_sine_lfo_factor, bg, amp, frq, ph);
      if (nx()) { am = vt_malloc(size * sizeof(*am)); for (long i = 0; i < size; i += 1) { long x = nx(); am[i] = x / 2.0; B(i ? ",%ld" : "%ld", x); } }
      B("],\"fm\":[");
      if (nx()) { f = vt_malloc(size * sizeof(*f)); for (long i = 0; i < size; i += 1) { f[i] = nx(); B(i ? ",%u" : "%u", f[i]); } }
      for (long i = 0; i < size; i += 1) o[i] = bg;
      if (w) sp_sine_lfo(size, amp / 2.0, am, frq, f, ph ? &phs : 0, o); else sp_sine(size, amp / 2.0, am, frq, f, ph ? &phs : 0, o);
      B("],\"after\":%u,\"o\":[", phs); for (long i = 0; i < size; i += 1) B(i ? ",%ld" : "%ld", fix(o[i], 1e5)); B("]}");
      vt_free(o); if (am) vt_free(am); if (f) vt_free(f); }
    else { vt_log("{\"e\":\"bad\"}"); break; }
    vt_log("%s", buf);
  }
  sp_deinitialize(); vt_log("{\"e\":\"end\"}");
}
int main(int argc, char** argv) { return (vt_main(argc, argv, run, 20)); }
