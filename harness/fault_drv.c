/* library calls with a failing allocation or file operation. scenario: op variant limit.
   each try lets one more operation succeed until nothing fails; a failed call is repeated without failure */
#include "vd_sp.h"
#include "vt.h"
#include <sph-sp/string.h>
#include <sys/stat.h>
#include <unistd.h>
static long V; /* variant */
static int phase; /* 0 setup 1 call 2 cleanup */
static long nth; static unsigned long dg; static char file[300];
static void arm(void) { vt_fail_at(nth); }
static int inj; /* the armed operation was reached */
static void disarm(void) { inj |= vt_failed(); vt_fail_at(0); nth = 0; }
static void dig(const void* a, size_t n) { const unsigned char* p = a; for (size_t i = 0; i < n; i += 1) dg = (dg ^ p[i]) * 1099511628211ul; }
static void dn(long n) { dig(&n, sizeof(n)); }
static void dblock(sp_block_t b) { for (int c = 0; c < b.channel_count; c += 1) dig(b.samples[c], b.size * sizeof(sp_sample_t)); }
#define SETUP if (phase == 0)
#define CALL if (phase == 1)
#define CLEAN if (phase == 2)
#define LIB(x) do { arm(); r = (x); disarm(); } while (0)
#define S(x) (x).id
/* ---- arrays ---- */
static void* p1; static void* p2; static void* p3; static void* p4;
#define DROP(p) do { free(p); p = 0; } while (0)
static int o_times_new(void) { int r = 0; SETUP p1 = 0; CALL { LIB(S(sp_times_new(V, (sp_time_t**)&p1))); if (!r) dig(p1, V * sizeof(sp_time_t)); else p1 = 0; } CLEAN DROP(p1); return (r); }
static int o_samples_new(void) { int r = 0; SETUP p1 = 0; CALL { LIB(S(sp_samples_new(V, (sp_sample_t**)&p1))); if (!r) dig(p1, V * sizeof(sp_sample_t)); else p1 = 0; } CLEAN DROP(p1); return (r); }
static sp_block_t blk;
static int o_block_new(void) { int r = 0; SETUP blk.size = 0; CALL { LIB(S(sp_block_new(1 + V % 2, V / 2, &blk))); if (!r) { dn(blk.size); dn(blk.channel_count); dblock(blk); sp_block_free(&blk); } } return (r); }
static int o_duplicate(void) {
  int r = 0; sp_time_t t[8] = {1, 2, 3, 4, 5, 6, 7, 8}; sp_sample_t s[8] = {1, 2, 3, 4, 5, 6, 7, 8}; SETUP p1 = 0;
  CALL { if (V & 1) LIB(S(sp_times_duplicate(t, 1 + V / 2, (sp_time_t**)&p1))); else LIB(S(sp_samples_duplicate(s, 1 + V / 2, (sp_sample_t**)&p1))); if (!r) dig(p1, (1 + V / 2) * 4); else p1 = 0; }
  CLEAN DROP(p1); return (r);
}
static int o_permutations(void) {
  int r = 0; sp_time_t set[5] = {3, 1, 4, 2, 7}; CALL { sp_time_t** out = 0; sp_time_t n = 0; LIB(S(sp_times_permutations(V, set, V, &out, &n)));
    if (!r) { dn(n); for (sp_time_t i = 0; i < n; i += 1) { dig(out[i], V * sizeof(sp_time_t)); free(out[i]); } free(out); } } return (r);
}
static int o_compositions(void) {
  int r = 0; CALL { sp_time_t** out = 0; sp_time_t n = 0; sp_time_t* sizes = 0; LIB(S(sp_times_compositions(V, &out, &n, &sizes)));
    if (!r) { dn(n); for (sp_time_t i = 0; i < n; i += 1) { dig(out[i], sizes[i] * sizeof(sp_time_t)); free(out[i]); } free(out); free(sizes); } } return (r);
}
static int o_random_binary(void) { int r = 0; sp_time_t out[300] = {0}; CALL { sp_random_state = sp_random_state_new(7); LIB(S(sp_times_random_binary(V, out))); if (!r) dig(out, sizeof(out)); } return (r); }
static int o_constant(void) { int r = 0; SETUP p1 = 0; CALL { LIB(S(sp_times_constant(V, 9, (sp_time_t**)&p1))); if (!r) dig(p1, V * sizeof(sp_time_t)); else p1 = 0; } CLEAN DROP(p1); return (r); }
static int o_scale(void) { int r = 0; sp_time_t in[6] = {2, 9, 4, 8, 1, 5}, out[64] = {0}; CALL { LIB(S(sp_times_scale(in, 2 + V % 5, 1 + V / 5, out))); if (!r) dig(out, sizeof(out)); } return (r); }
static int o_replace(void) {
  int r = 0; SETUP { p1 = 0; if (V & 1) { sp_times_new(1 + V, (sp_time_t**)&p1); for (long i = 0; i <= V; i += 1) ((sp_time_t*)p1)[i] = i * 3; } else { sp_samples_new(1 + V, (sp_sample_t**)&p1); for (long i = 0; i <= V; i += 1) ((sp_sample_t*)p1)[i] = i * 3; } }
  CALL { void* out = 0; if (V & 1) LIB(S(sp_times_to_samples_replace(p1, 1 + V, (sp_sample_t**)&out))); else LIB(S(sp_samples_to_times_replace(p1, 1 + V, (sp_time_t**)&out))); if (!r) { p1 = 0; dig(out, (1 + V) * 4); free(out); } }
  CLEAN DROP(p1); return (r);
}
static int o_median(void) {
  int r = 0; sp_time_t t[9] = {4, 9, 2, 7, 5, 1, 8, 3, 6}; sp_sample_t s[9] = {4, 9, 2, 7, 5, 1, 8, 3, 6}, out = 0;
  CALL { if (V & 1) LIB(sp_stat_times_median(t, 1 + V / 2, &out)); else LIB(sp_stat_samples_median(s, 1 + V / 2, &out)); if (!r) dig(&out, sizeof(out)); } return (r);
}
static int o_fft(void) {
  int r = 0; double re[40], im[40]; long n = 1 + V / 2; CALL { for (long i = 0; i < n; i += 1) { re[i] = i % 5; im[i] = i % 3; }
    if (V & 1) LIB(sp_fft(n, re, im)); else LIB(sp_ffti(n, re, im)); if (!r) { dig(re, n * 8); dig(im, n * 8); } } return (r);
}
/* ---- paths ---- */
static int o_path(void) {
  int r = 0; sp_sample_t* s = 0; sp_time_t* t = 0; sp_sample_t x[3] = {5, 9, 14}, y[5] = {1, 7, 3, 9, 2}, c[4] = {0, 0.5, -0.3, 0.2}, xe[3] = {.2, .3, .2};
  CALL {
    switch (V) {
      case 0: LIB(S(sp_path_samples(&s, 20, 5, x, y, c))); break; case 1: LIB(S(sp_path_times(&t, 20, 5, x, y, c))); break;
      case 2: LIB(S(sp_path_samples2(&s, 20, 1, 4))); break; case 3: LIB(S(sp_path_samples3(&s, 20, 7, 1, 4, 2))); break;
      case 4: LIB(S(sp_path_samples4(&s, 20, 7, 9, 1, 4, 2, 8))); break; case 5: LIB(S(sp_path_samples5(&s, 20, 7, 9, 12, 1, 4, 2, 8, 3))); break;
      case 6: LIB(S(sp_path_times2(&t, 20, 1, 4))); break; case 7: LIB(S(sp_path_times3(&t, 20, 7, 1, 4, 2))); break;
      case 8: LIB(S(sp_path_times4(&t, 20, 7, 9, 1, 4, 2, 8))); break; case 9: LIB(S(sp_path_times5(&t, 20, 7, 9, 12, 1, 4, 2, 8, 3))); break;
      case 10: LIB(S(sp_path_samples_c3(&s, 20, 7, 1, 4, 2, .2, -.4))); break; case 11: LIB(S(sp_path_times_c5(&t, 20, 7, 9, 12, 1, 4, 2, 8, 3, .1, .2, 0, -.3))); break;
      case 12: LIB(S(sp_envelope_zero(&s, 20, 5, xe, y, c))); break; case 13: LIB(S(sp_envelope_scaled(&t, 20, 5, 6, xe, y, c))); break;
      case 14: LIB(S(sp_envelope_zero3(&s, 20, .4, 5))); break; case 15: LIB(S(sp_envelope_scaled4(&t, 20, 5, .3, .4, 1, 2, 3, 4))); break;
      case 16: LIB(S(sp_envelope_zero_c5(&s, 20, .2, .2, .2, 5, 2, 4, .1, .2, .3, .4))); break; case 17: LIB(S(sp_envelope_scaled5(&t, 20, 5, .3, .2, .2, 1, 2, 3, 4, 5))); break;
    }
    if (!r) { if (s) dig(s, 20 * sizeof(*s)); if (t) dig(t, 20 * sizeof(*t)); free(s); free(t); }
  }
  return (r);
}
static int o_set_copy(void) {
  int r = 0; spline_path_segment_t g[4]; spline_path_t path; sp_sample_t out[12]; CALL { g[0] = spline_path_move(0, 1); g[1] = spline_path_line(4, 5); g[2] = spline_path_bezier_arc(8, 2, .5); g[3] = spline_path_constant();
    LIB(spline_path_set_copy(&path, g, 1 + V)); if (!r) { memset(g, 255, sizeof(g)); spline_path_get(&path, 0, 12, out); dig(out, sizeof(out)); free(path.segments); } } return (r);
}
/* ---- filters: state stays usable ---- */
static sp_convolution_filter_state_t* fs; static sp_convolution_filter_state_t* fs0;
static status_t ir_f(void* args, sp_sample_t** ir, sp_time_t* len) {
  status_declare; uint8_t* a = args; *len = a[0]; status_require(sp_samples_new(*len, ir)); for (sp_time_t i = 0; i < *len; i += 1) (*ir)[i] = i + a[1]; exit: status_return;
}
static int o_filter(void) {
  /* variant: length of the first response (0: no state yet), of the second, argument lengths */
  int r = 0; sp_sample_t in[6] = {1, 2, 3, 4, 5, 6}, out[6]; uint8_t a[6] = {1 + V % 5, 2, 0, 0, 0, 0}, b[6] = {1 + V / 5 % 5, 3, 0, 0, 0, 0}; int la = V / 25 % 2 ? 5 : 2, lb = V / 50 % 2 ? 5 : 2;
  SETUP { fs = 0; if (V < 100 && sp_convolution_filter(in, 6, ir_f, a, la, &fs, out).id) vt_stop("{\"e\":\"bad\"}"); }
  CALL { LIB(S(sp_convolution_filter(in, 6, ir_f, b, lb, &fs, out))); if (!r) { dig(out, sizeof(out)); memset(in, 0, sizeof(in)); if (sp_convolution_filter(in, 6, ir_f, b, lb, &fs, out).id) r = 99; dig(out, sizeof(out)); } }
  CLEAN { sp_convolution_filter_state_free(fs); fs = 0; }
  return (r);
}
static int o_sinc(void) {
  int r = 0; sp_sample_t in[8] = {1, 0, 0, 2, 0, 0, 1, 0}, out[8]; sp_sample_t* ir = 0; sp_time_t n = 0;
  SETUP fs = 0;
  CALL {
    switch (V) {
      case 0: LIB(S(sp_windowed_sinc_lp_hp_ir(.1, .2, 0, &ir, &n))); break; case 1: LIB(S(sp_windowed_sinc_lp_hp_ir(.1, .2, 1, &ir, &n))); break;
      case 2: LIB(S(sp_windowed_sinc_bp_br_ir(.1, .3, .2, .2, 0, &ir, &n))); break; case 3: LIB(S(sp_windowed_sinc_bp_br_ir(.1, .3, .2, .2, 1, &ir, &n))); break;
      case 4: LIB(S(sp_windowed_sinc_bp_br_ir(0, .3, .2, .2, 0, &ir, &n))); break; case 5: LIB(S(sp_windowed_sinc_bp_br_ir(.1, .5, .2, .2, 0, &ir, &n))); break;
      case 6: LIB(S(sp_windowed_sinc_bp_br_ir(0, .5, .2, .2, 0, &ir, &n))); break; case 7: LIB(S(sp_windowed_sinc_bp_br_ir(0, .5, .2, .2, 1, &ir, &n))); break;
      case 8: LIB(S(sp_windowed_sinc_bp_br_ir(.2, .5, .2, .2, 1, &ir, &n))); break; case 9: LIB(S(sp_windowed_sinc_bp_br_ir(0, .3, .2, .2, 1, &ir, &n))); break;
      case 10: LIB(S(sp_windowed_sinc_lp_hp(in, 8, .1, .2, 0, &fs, out))); break; case 11: LIB(S(sp_windowed_sinc_bp_br(in, 8, .1, .3, .2, .3, 1, &fs, out))); break;
      case 12: LIB(S(sp_windowed_sinc_bp_br(in, 8, .1, .3, .2, .3, 0, &fs, out))); break;
      case 13: LIB(S(sp_null_ir(&ir, &n))); break; case 14: LIB(S(sp_passthrough_ir(&ir, &n))); break;
    }
    if (!r) { if (ir) dig(ir, n * sizeof(*ir)); else dig(out, sizeof(out)); free(ir); }
  }
  CLEAN { sp_convolution_filter_state_free(fs); fs = 0; }
  return (r);
}
/* ---- events ---- */
static sp_event_list_t* list; static sp_event_t ev0; static long freed;
static status_t l_prepare(sp_event_t* e) { status_declare; void* a; e->end = e->start + 4; status_require(sph_helper_malloc(16, &a)); if (sp_event_memory_add(e, a).id) { free(a); status.id = 7; } exit: status_return; }
static status_t l_generate(sp_time_t a, sp_time_t b, sp_block_t out, sp_event_t* e) { status_declare; for (int c = 0; c < out.channel_count; c += 1) for (sp_time_t i = a; i < b; i += 1) out.samples[c][i - a] += i + 1 + c + (long)e->config; status_return; }
static sp_event_t leaf(long s, long e, long n, int mem) {
  sp_event_t ev; sp_event_reset(ev); ev.start = s; ev.end = e; ev.generate = l_generate; ev.config = (void*)n; if (!e) ev.prepare = l_prepare;
  if (mem && sp_event_memory_add(&ev, malloc(8)).id) vt_stop("{\"e\":\"bad\"}");
  return (ev);
}
static void dlist(sp_event_list_t* l) { for (; l; l = l->next) { dn(l->event.start); dn(l->event.end); dn((long)l->event.config); } }
static int o_list_add(void) {
  int r = 0; SETUP { list = 0; for (long i = 0; i < V; i += 1) sp_event_list_add(&list, leaf(i * 2, i * 2 + 3, i, 1)); }
  CALL { sp_event_t e = leaf(3, 5, 50, 1); LIB(S(sp_event_list_add(&list, e))); if (r) { sp_event_free(e); } else dlist(list); }
  CLEAN sp_event_list_free(&list); return (r);
}
static int o_memory_add(void) {
  int r = 0; SETUP { sp_event_reset(ev0); for (long i = 0; i < V; i += 1) if (sp_event_memory_add(&ev0, malloc(8)).id) vt_stop("{\"e\":\"bad\"}"); }
  CALL { void* a = malloc(8); LIB(S(sp_event_memory_add(&ev0, a))); if (r) free(a); else dn(array3_size(ev0.memory)); }
  CLEAN { sp_event_memory_free(&ev0); } return (r);
}
static int o_memory_ensure(void) {
  int r = 0; long have = V % 10, more = 1 + V / 10; SETUP { sp_event_reset(ev0); for (long i = 0; i < have; i += 1) if (sp_event_memory_add(&ev0, malloc(8)).id) vt_stop("{\"e\":\"bad\"}"); }
  CALL { LIB(S(sp_event_memory_ensure(&ev0, more))); if (!r) { for (long i = 0; i < more; i += 1) sp_event_memory_fixed_add(&ev0, malloc(8)); dn(array3_size(ev0.memory)); } }
  CLEAN { sp_event_memory_free(&ev0); } return (r);
}
static sp_sample_t* us; static sp_time_t* ut;
static status_t event_macros(sp_event_t* e) {
  status_declare; sp_sample_t x[3] = {5, 9, 14}, y[5] = {1, 7, 3, 9, 2}, c[4] = {0, 0.5, -0.3, 0.2}, xe[3] = {.2, .3, .2}; us = 0; ut = 0;
  switch (V % 100) {
    case 0: sp_event_malloc_srq(e, 160, &us); memset(us, 1, 160); break; case 1: sp_event_malloc_type_n_srq(e, 20, sp_sample_t, &us); memset(us, 1, 20 * sizeof(*us)); break;
    case 2: sp_event_samples_srq(e, 20, &us); break; case 3: sp_event_times_srq(e, 20, &ut); break;
    case 4: sp_event_path_samples_srq(e, &us, 20, 5, x, y, c); break; case 5: sp_event_path_samples3_srq(e, &us, 20, 7, 1, 4, 2); break;
    case 6: sp_event_path_samples4_srq(e, &us, 20, 7, 9, 1, 4, 2, 8); break; case 7: sp_event_path_samples5_srq(e, &us, 20, 7, 9, 12, 1, 4, 2, 8, 3); break;
    case 8: sp_event_path_samples_c3_srq(e, &us, 20, 7, 1, 4, 2, .2, .3); break; case 9: sp_event_path_samples_c4_srq(e, &us, 20, 7, 9, 1, 4, 2, 8, .1, .2, .3); break;
    case 10: sp_event_path_samples_c5_srq(e, &us, 20, 7, 9, 12, 1, 4, 2, 8, 3, .1, .2, .3, .4); break; case 11: sp_event_path_times_srq(e, &ut, 20, 5, x, y, c); break;
    case 12: sp_event_path_times3_srq(e, &ut, 20, 7, 1, 4, 2); break; case 13: sp_event_path_times4_srq(e, &ut, 20, 7, 9, 1, 4, 2, 8); break;
    case 14: sp_event_path_times5_srq(e, &ut, 20, 7, 9, 12, 1, 4, 2, 8, 3); break; case 15: sp_event_path_times_c3_srq(e, &ut, 20, 7, 1, 4, 2, .2, .3); break;
    case 16: sp_event_path_times_c4_srq(e, &ut, 20, 7, 9, 1, 4, 2, 8, .1, .2, .3); break; case 17: sp_event_path_times_c5_srq(e, &ut, 20, 7, 9, 12, 1, 4, 2, 8, 3, .1, .2, .3, .4); break;
    case 18: sp_event_envelope_zero_srq(e, &us, 20, 5, xe, y, c); break; case 19: sp_event_envelope_zero3_srq(e, &us, 20, .4, 5); break;
    case 20: sp_event_envelope_zero4_srq(e, &us, 20, .2, .4, 5, 3); break; case 21: sp_event_envelope_zero5_srq(e, &us, 20, .2, .2, .2, 5, 2, 4); break;
    case 22: sp_event_envelope_zero_c3_srq(e, &us, 20, .4, 5, .1, .2); break; case 23: sp_event_envelope_zero_c4_srq(e, &us, 20, .2, .4, 5, 3, .1, .2, .3); break;
    case 24: sp_event_envelope_zero_c5_srq(e, &us, 20, .2, .2, .2, 5, 2, 4, .1, .2, .3, .4); break; case 25: sp_event_envelope_scaled_srq(e, &ut, 20, 5, 6, xe, y, c); break;
    case 26: sp_event_envelope_scaled3_srq(e, &ut, 20, 6, .4, 1, 2, 3); break; case 27: sp_event_envelope_scaled4_srq(e, &ut, 20, 6, .2, .4, 1, 2, 3, 4); break;
    case 28: sp_event_envelope_scaled5_srq(e, &ut, 20, 6, .2, .2, .2, 1, 2, 3, 4, 5); break;
  }
exit:
  status_return;
}
static int o_srq(void) {
  int r = 0; long have = V / 100; SETUP { sp_event_reset(ev0); for (long i = 0; i < have; i += 1) if (sp_event_memory_add(&ev0, malloc(8)).id) vt_stop("{\"e\":\"bad\"}"); }
  CALL { LIB(S(event_macros(&ev0))); if (!r) { if (us) dig(us, 20 * sizeof(*us)); if (ut) dig(ut, 20 * sizeof(*ut)); dn(array3_size(ev0.memory)); } }
  CLEAN sp_event_memory_free(&ev0); return (r);
}
static int o_config_new(void) {
  int r = 0; long n = 1 + V / 3; SETUP p1 = 0; CALL {
    if (V % 3 == 0) { LIB(S(sp_wave_event_config_new_n(n, (sp_wave_event_config_t**)&p1))); if (!r) for (long i = 0; i < n; i += 1) { dn(((sp_wave_event_config_t*)p1)[i].channel_count); dn(((sp_wave_event_config_t*)p1)[i].wvf_size); } }
    else if (V % 3 == 1) { LIB(S(sp_noise_event_config_new_n(n, (sp_noise_event_config_t**)&p1))); if (!r) for (long i = 0; i < n; i += 1) { dn(((sp_noise_event_config_t*)p1)[i].channel_count); dn(((sp_noise_event_config_t*)p1)[i].resolution); } }
    else { LIB(S(sp_map_event_config_new_n(n, (sp_map_event_config_t**)&p1))); if (!r) dig(p1, n * sizeof(sp_map_event_config_t)); }
    if (r) p1 = 0; }
  CLEAN DROP(p1); return (r);
}
static int o_group_add(void) {
  int r = 0; SETUP { sp_event_reset(ev0); sp_event_t* e = &ev0; sp_group_event(e); for (long i = 0; i < V / 4; i += 1) sp_group_add(&ev0, leaf(i, i + 3, i, 1)); }
  CALL { sp_event_t e = leaf(1, V & 1 ? 0 : 5, 50, V & 2); if (V & 2) e.free = sp_event_memory_free; LIB(S(sp_group_add(&ev0, e))); if (!r) { dn(ev0.end); dlist(ev0.config); } }
  CLEAN sp_event_free(ev0); return (r);
}
static int o_group_append(void) {
  int r = 0; SETUP { sp_event_reset(ev0); sp_event_t* e = &ev0; sp_group_event(e); for (long i = 0; i < V / 4; i += 1) sp_group_add(&ev0, leaf(i, i + 3, i, 1)); }
  CALL { sp_event_t e = leaf(1, V & 1 ? 0 : 5, 50, V & 2); if (V & 2) e.free = sp_event_memory_free; LIB(S(sp_group_append(&ev0, e))); if (!r) { dn(ev0.end); dlist(ev0.config); } }
  CLEAN sp_event_free(ev0); return (r);
}
static status_t mapper(sp_time_t start, sp_time_t end, sp_block_t in, sp_block_t out, void* state) { status_declare; for (int c = 0; c < out.channel_count; c += 1) for (sp_time_t i = 0; i < end - start; i += 1) out.samples[c][i] = in.samples[c][i] * 2 + 1; status_return; }
/* an event tree. kind: 0 leaves 1 group 2 map 3 isolated map 4 wave 5 noise 6 parallel group 7 nested 8 nested with noise and wave */
static sp_wave_event_config_t wc; static sp_noise_event_config_t nc; static sp_map_event_config_t mc[3]; static int mcn;
static sp_sample_t amod[32]; static sp_time_t mods[64];
static void own(sp_event_t* e) { if (sp_event_memory_add(e, malloc(8)).id) vt_stop("{\"e\":\"bad\"}"); if (!e->free) e->free = sp_event_memory_free; }
static sp_event_t tree(long kind) {
  sp_event_t ev; sp_event_t* e = &ev; sp_event_reset(ev);
  switch (kind) {
    case 0: return (leaf(0, 12, 3, 1));
    case 1: case 6: if (kind == 1) { sp_group_event(e); } else { sp_group_parallel_event(e); } own(e); sp_group_add(e, leaf(0, 6, 1, 1)); sp_group_add(e, leaf(3, 9, 2, 0)); sp_group_append(e, leaf(0, 3, 3, 1)); break;
    case 2: case 3: { sp_map_event_config_t* m = mc + mcn++; sp_event_reset((m->event)); m->config = 0; m->map_generate = mapper; m->isolate = kind == 3; m->event = tree(mcn > 1 ? 0 : 1); ev.end = 12; sp_map_event(e, m); own(e); break; }
    case 4: wc = sp_wave_event_config_defaults(); wc.wvf = amod; wc.wvf_size = 8; wc.channel_count = 2; wc.channel_config[0].frq = 3; wc.channel_config[0].amp = 1; wc.channel_config[0].amod = amod; wc.channel_config[1].use = 0; ev.end = 12; sp_wave_event(e, &wc); own(e); break;
    case 5: nc = sp_noise_event_config_defaults(); nc.channel_count = 2; nc.resolution = 5; nc.channel_config[0].amod = amod; nc.channel_config[0].amp = 1; nc.channel_config[0].frq = 10; nc.channel_config[0].wdt = 5; nc.channel_config[0].trnl = 25; nc.channel_config[0].trnh = 25; nc.channel_config[0].use = 1; nc.channel_config[1].use = 1; nc.channel_config[1].frq = 12; ev.end = 12; sp_noise_event(e, &nc); own(e); break;
    case 7: { sp_group_event(e); sp_event_t a = tree(1), b = tree(3), c = tree(2); sp_group_add(e, a); sp_group_add(e, b); sp_group_append(e, c); break; }
    case 8: { sp_group_event(e); sp_event_t a = tree(5), b = tree(4), c = tree(3); sp_group_add(e, a); sp_group_add(e, b); sp_group_append(e, c); break; }
    case 9: { sp_group_parallel_event(e); sp_event_t a = tree(6), b = tree(3), c = tree(5); sp_group_add(e, a); sp_group_add(e, b); sp_group_append(e, c); break; }
  }
  return (ev);
}
static sp_event_t fresh(long kind) { mcn = 0; sp_random_state = sp_random_state_new(3); nc.random_state = sp_random_state; return (tree(kind)); }
static int o_seq(void) { /* V: kind + 10 * parallel + 20 * blocks */
  int r = 0, par = V / 10 % 2, k; static sp_sample_t o[2][40]; sp_block_t out; long size = V / 20 ? 15 : 30, pos;
  CALL {
    memset(o, 0, sizeof(o)); out.channel_count = 2; out.size = size; list = 0;
    sp_event_t e = fresh(V % 10); if (sp_event_list_add(&list, e).id || sp_event_list_add(&list, leaf(2, 9, 60, 1)).id) vt_stop("{\"e\":\"bad\"}"); sp_seq_events_prepare(&list);
    arm(); for (pos = 0; pos < 30 && !r; pos += size) { out.samples[0] = o[0] + pos; out.samples[1] = o[1] + pos; r = par ? S(sp_seq_parallel(pos, pos + size, out, &list)) : S(sp_seq(pos, pos + size, out, &list)); } disarm();
    if (!r) sp_event_list_free(&list); /* a failed call has freed the list */
    if (r && list) r = -1; if (!r) dig(o, sizeof(o)); list = 0;
  }
  return (r);
}
static void dfile(void) { FILE* f; unsigned char c[4000]; vt_track(0); f = fopen(file, "rb"); if (f) { size_t n = fread(c, 1, sizeof(c), f); dn(n); dig(c, n); fclose(f); } else dn(-1); vt_track(1); }
static int o_render(void) { /* V: kind + 10 * fn */
  int r = 0; CALL { sp_event_t e = V == 30 ? leaf(0, 0, 1, 1) : fresh(V % 10); sp_block_t b; unlink(file);
    if (V / 10 == 0) { LIB(S(sp_render_range_block(e, 0, 20, sp_render_config(2, 100, 7, 0), &b))); if (!r) { dblock(b); sp_block_free(&b); } }
    else if (V / 10 == 1) { LIB(S(sp_render_range_file(e, 3, 20, sp_render_config(2, 100, 7, 0), (uint8_t*)file))); if (!r) dfile(); }
    else { LIB(S(sp_render_file(e, (uint8_t*)file))); if (!r) dfile(); } }
  return (r);
}
/* ---- files ---- */
static int o_file_write(void) {
  int r = 0; sp_file_t f; sp_sample_t s[2][8] = {{1, 2, 3, 4, 5, 6, 7, 8}, {8, 7, 6, 5, 4, 3, 2, 1}}; sp_sample_t* p[2] = {s[0], s[1]};
  CALL { unlink(file); arm(); r = S(sp_file_open_write((uint8_t*)file, 1 + V % 2, 100, &f)); if (!r) { for (long i = 0; i <= V / 2 && !r; i += 1) r = S(sp_file_write(&f, p, 8)); int rc = S(sp_file_close_write(&f)); if (!r) r = rc; } disarm(); if (!r) dfile(); }
  return (r);
}
static int o_file_read(void) {
  int r = 0; sp_file_t f; sp_sample_t s[2][8] = {{1, 2, 3, 4, 5, 6, 7, 8}, {8, 7, 6, 5, 4, 3, 2, 1}}; sp_sample_t* p[2] = {s[0], s[1]}; sp_sample_t o[2][8] = {0}; sp_sample_t* q[2] = {o[0], o[1]};
  SETUP { unlink(file); if (sp_file_open_write((uint8_t*)file, 1 + V % 2, 100, &f).id || sp_file_write(&f, p, 8).id) vt_stop("{\"e\":\"bad\"}"); sp_file_close_write(&f); }
  CALL { arm(); r = S(sp_file_open_read((uint8_t*)file, &f)); if (!r) { for (long i = 0; i <= V / 2 && !r; i += 1) { q[0] = o[0] + i * 2; q[1] = o[1] + i * 2; r = S(sp_file_read(f, 2, q)); } sp_file_close_read(f); } disarm(); if (!r) dig(o, sizeof(o)); }
  return (r);
}
/* ---- process wide ---- */
static int o_initialize(void) { int r = 0; CALL { LIB(S(sp_initialize(V, 2, 50))); if (!r) { dig(sp_sine_table, 50 * sizeof(sp_sample_t)); dig(sp_sine_table_lfo, 50 * sizeof(sp_sample_t)); sp_deinitialize(); } } return (r); }
static sph_thread_pool_t pool; static long ran;
static void task(sph_thread_pool_task_t* t) { __atomic_add_fetch(&ran, 1, __ATOMIC_SEQ_CST); free(t); }
static int o_pool(void) {
  int r = 0; SETUP { ran = 0; if (sph_thread_pool_new(1 + V % 6, &pool)) vt_stop("{\"e\":\"bad\"}"); for (int i = 0; i < 3; i += 1) { sph_thread_pool_task_t* t = malloc(sizeof(*t)); t->f = task; sph_thread_pool_enqueue(&pool, t); } }
  CALL { if (V < 6) LIB(sph_thread_pool_finish(&pool, 0, 0)); else { arm(); r = sph_thread_pool_finish(&pool, 1, 0); int q = sph_thread_pool_finish(&pool, 0, 0); disarm(); if (!r) r = q; } if (!r) { dn(ran); dn(pool.size); } }
  return (r);
}
static int o_string(void) {
  int r = 0; uint8_t* out = 0; size_t n = 0; uint8_t* parts[3] = {(uint8_t*)"ab", (uint8_t*)"", (uint8_t*)"cde"};
  CALL { arm(); switch (V) { case 0: out = string_append((uint8_t*)"abc", (uint8_t*)"de"); r = !out; break; case 1: out = string_clone((uint8_t*)"abc"); r = !out; break; case 2: out = string_join(parts, 3, (uint8_t*)", ", &n); r = !out; break;
      case 3: r = ensure_trailing_slash((uint8_t*)"abc", &out) == 1; break; case 4: r = S(sph_helper_malloc_string(3, &out)); if (!r) memcpy(out, "xyz", 3); break; }
    disarm(); if (!r) { dig(out, strlen(out)); free(out); } }
  return (r);
}
static int o_helper(void) {
  int r = 0; SETUP { p1 = 0; if (V / 3) { p1 = malloc(8); memcpy(p1, "abcdefgh", 8); } }
  CALL { if (V % 3 == 2) LIB(S(sph_helper_realloc(32, &p1))); else { DROP(p1); if (V % 3) LIB(S(sph_helper_malloc(32, &p1))); else LIB(S(sph_helper_calloc(32, &p1))); } if (!r && V / 3 && V % 3 == 2) dig(p1, 8); }
  CLEAN DROP(p1); return (r);
}
/* a noise event that is prepared again with the same configuration. prepare marks channels that are not used as used, so that only the others give the same samples again */
static int o_noise(void) {
  int r = 0; static sp_sample_t o[2][40]; sp_block_t b; sp_event_t* e = &ev0;
  SETUP { for (int i = 0; i < 32; i += 1) amod[i] = 1 + i % 3; nc = sp_noise_event_config_defaults(); nc.channel_count = 2; nc.resolution = 5; sp_noise_event_channel_config_t* c = nc.channel_config; c[0].amod = amod; c[0].frq = 10; c[0].wdt = 5; c[0].trnl = c[0].trnh = V & 4 ? 2 : 25; c[0].use = 1; c[1].use = V & 1; c[1].trnl = c[1].trnh = c[1].wdt = 0; if (V & 2) c[1].frq = 12;
    sp_event_reset(ev0); ev0.end = 20; sp_noise_event(e, (&nc)); }
  CALL { memset(o, 0, sizeof o); b.channel_count = 2; b.size = 20; b.samples[0] = o[0]; b.samples[1] = o[1]; sp_random_state = sp_random_state_new(3);
    LIB(S(sp_noise_event_prepare(&ev0))); if (!r) { r = S(ev0.generate(0, 20, b, &ev0)); if (V & 1) dig(o, sizeof o); ev0.free(&ev0); } }
  return (r);
}
static int (*ops[])(void) = { o_times_new, o_samples_new, o_block_new, o_duplicate, o_permutations, o_compositions, o_random_binary, o_constant, o_scale, o_replace, o_median, o_fft, o_path, o_set_copy, o_filter, o_sinc,
  o_list_add, o_memory_add, o_memory_ensure, o_srq, o_config_new, o_group_add, o_group_append, o_seq, o_render, o_file_write, o_file_read, o_initialize, o_pool, o_string, o_helper, o_noise };
static void result(int r, int again) { vt_log("{\"e\":\"%s\",\"r\":%d,\"d\":[%lu,%lu,%lu]}", again ? "again" : "ret", r, dg & 0xffffff, dg >> 24 & 0xffffff, dg >> 48); }
static void run(long* a, long n) {
  long op = a[0], limit = n > 2 ? a[2] : 60; V = a[1]; const char* t = getenv("VT_SCRATCH"); char dir[200];
  if (op < 0 || op >= (long)(sizeof(ops) / sizeof(*ops))) vt_stop("{\"e\":\"bad\"}");
  snprintf(dir, sizeof(dir), "%s/fault%d", t ? t : "/tmp", (int)getpid()); mkdir(dir, 0700); snprintf(file, sizeof(file), "%s/a.wav", dir);
  for (int i = 0; i < 32; i += 1) amod[i] = (i % 4) * .25;
  for (int i = 0; i < 64; i += 1) mods[i] = i % 3;
  if (op != 27 && sp_initialize((op == 23 || op == 24) && (V % 10 == 6 || V % 10 == 9 || V / 10 % 2) ? 2 : 0, 2, 100).id) vt_stop("{\"e\":\"bad\"}");
  vt_fail_at(0); vt_trace(1);
  for (long k = 0; k <= limit; k += 1) {
    vt_log("{\"e\":\"try\",\"n\":%ld}", k);
    vt_track(1); nth = 0; phase = 0; ops[op]();
    inj = 0; nth = k; dg = 14695981039346656037ul; phase = 1; int r = ops[op](); int reached = inj; result(r, 0);
    if (r) { nth = 0; dg = 14695981039346656037ul; r = ops[op](); result(r, 1); }
    phase = 2; ops[op](); vt_track(0); vt_log("{\"e\":\"rel\",\"live\":%ld}", vt_live());
    if (k && !reached) break;
  }
  vt_trace(0); if (op != 27) sp_deinitialize(); unlink(file); rmdir(dir); vt_log("{\"e\":\"end\"}");
}
int main(int argc, char** argv) { return (vt_main(argc, argv, run, 30)); }
