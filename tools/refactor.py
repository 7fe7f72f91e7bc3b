"""behaviour preserving edits, to see that the checks stay quiet. usage: refactor.py DIRECTORY (a clone of the repository)"""
import sys
R = sys.argv[1] + "/source/"; C = R + "c-precompiled/sph-sp/"; L = R + "c/foreign/sph-sc-lib/sph-sp/"
files = {}


def rep(path, old, new, count=1):
    s = files.get(path) or open(path).read()
    if s.count(old) < 1: print("NOT FOUND", path, old[:70]); return
    files[path] = s.replace(old, new, count)


Q = C + "sequencer.c"; M = C + "main.c"; F = C + "filter.c"; FL = C + "file.c"; ST = C + "statistics.c"; P = C + "path.c"; PL = C + "plot.c"; A = C + "arrays.c"; TP = L + "thread-pool.c"; FU = L + "futures.c"; SP = L + "spline-path.c"; RA = L + "random.c"; QU = L + "queue.h"

# sequencer: a helper for one event, other loops
rep(Q, "status_t sp_seq(sp_time_t start, sp_time_t end, sp_block_t out, sp_event_list_t** events) {", """static status_t sp_seq_event(sp_event_t* event, sp_time_t start, sp_time_t end, sp_block_t out) {
  status_declare;
  sp_event_t e;
  sp_time_t offset;
  sp_event_prepare_optional_srq((*event));
  e = *event;
  offset = 0;
  if (e.start > start) {
    offset = (e.start - start);
    out = sp_block_with_offset(out, offset);
  };
  status_require(((e.generate)((offset ? 0 : (start - e.start)), (((e.end < end) ? e.end : end) - e.start), out, event)));
exit:
  status_return;
}
status_t sp_seq(sp_time_t start, sp_time_t end, sp_block_t out, sp_event_list_t** events) {""")
rep(Q, """  current = *events;
  while (current) {
    ep = &(current->event);
    e = *ep;
    if (e.end <= start) {
      next = current->next;
      sp_event_list_remove(events, current);
      current = next;
      continue;
    } else if (end <= e.start) {
      break;
    } else if (e.end > start) {
      sp_event_prepare_optional_srq((*ep));
      e = *ep;
      status_require(((e.generate)(((start > e.start) ? (start - e.start) : 0), (sp_inline_min(end, (e.end)) - e.start), ((e.start > start) ? sp_block_with_offset(out, (e.start - start)) : out), ep)));
    };
    current = current->next;
  };
""", """  for (current = *events; current; current = next) {
    next = current->next;
    ep = &(current->event);
    e = *ep;
    if (e.end <= start) {
      sp_event_list_remove(events, current);
    } else {
      if (!(e.start < end)) {
        break;
      };
      status_require((sp_seq_event(ep, start, end, out)));
      next = current->next;
    };
  };
""")
# parallel: all results are collected before merging
rep(Q, """  for (sp_size_t sf_i = 0; (sf_i < active); sf_i += 1) {
    sf = (sf_array + sf_i);
    sph_future_touch((&(sf->future)));
    status_require((sf->status));
""", """  for (sp_size_t sf_i = 0; (sf_i < active); sf_i += 1) {
    sph_future_touch((&((sf_array + sf_i)->future)));
  };
  for (sp_size_t sf_i = 0; (sf_i < active); sf_i += 1) {
    sf = (sf_array + sf_i);
    status_require((sf->status));
""")
rep(Q, """      for (sp_size_t i = 0; (i < sf->out.size); i += 1) {
        ((out.samples)[ci])[(sf->out_start + i)] += ((sf->out.samples)[ci])[i];
      };
""", """      sp_sample_t* target = (sf->out_start + (out.samples)[ci]);
      sp_samples_add_samples(target, (sf->out.size), ((sf->out.samples)[ci]));
""")
# list: insertion before the first that does not start later
rep(Q, """  if (current->event.start <= event.start) {
    /* first */
    new->previous = 0;
    new->next = current;
    current->previous = new;
    *a = new;
  } else {
    while (current->next) {
      current = current->next;
      if (current->event.start <= event.start) {
        /* middle */
        new->previous = current->previous;
        new->next = current;
        current->previous->next = new;
        current->previous = new;
        goto exit;
      };
    };
    /* last */
    new->next = 0;
    new->previous = current;
    current->next = new;
  };
""", """  sp_event_list_t* last = 0;
  while (current && (current->event.start > event.start)) {
    last = current;
    current = current->next;
  };
  new->next = current;
  new->previous = last;
  if (current) {
    current->previous = new;
  };
  if (last) {
    last->next = new;
  } else {
    *a = new;
  };
""")
rep(Q, """  while (current) {
    sp_event_free((current->event));
    temp = current;
    current = current->next;
    free(temp);
  };
  *events = 0;
}""", """  for (; current; current = temp) {
    temp = current->next;
    sp_event_free((current->event));
    free(current);
  };
  *events = 0;
}""")
rep(Q, """  duration = (end - start);
  if (!duration) {
    goto exit;
  };
  if (duration < resolution) {
    resolution = duration;
  };
  block_count = sp_cheap_floor_positive((duration / resolution));
  block_initial = (block_count * resolution);
  block_rest = (duration % resolution);
  for (i = 0; (i < block_initial); i += resolution) {
    status_require((generate(resolution, i, (i + start), out, event)));
  };
  if (block_rest) {
    status_require((generate(block_rest, i, (i + start), out, event)));
  };
""", """  block_initial = end;
  block_count = 0;
  block_rest = (end - start);
  for (i = 0; block_rest; i += duration) {
    duration = ((block_rest < resolution) ? block_rest : resolution);
    status_require((generate(duration, i, (start + i), out, event)));
    block_rest -= duration;
  };
""")
# waves: the phase in a helper, always modulo
rep(Q, "status_t sp_wave_event_generate(sp_time_t start, sp_time_t end, sp_block_t out, sp_event_t* event) {", "static sp_time_t sp_wave_event_phase(sp_time_t a, sp_time_t b, sp_time_t size) { return (((a + b) % size)); }\nstatus_t sp_wave_event_generate(sp_time_t start, sp_time_t end, sp_block_t out, sp_event_t* event) {")
rep(Q, """      if (cc.pmod) {
        phsn = (cc.phs + (cc.pmod)[i]);
        if (phsn >= c->wvf_size) {
          phsn = (phsn % c->wvf_size);
        };
      } else {
        phsn = cc.phs;
      };
""", """      phsn = (cc.pmod ? sp_wave_event_phase((cc.phs), ((cc.pmod)[i]), (c->wvf_size)) : cc.phs);
""")
rep(Q, """      cc.phs += (cc.fmod ? (cc.frq + (cc.fmod)[i]) : cc.frq);
      if (cc.phs >= c->wvf_size) {
        cc.phs = (cc.phs % c->wvf_size);
      };
""", """      cc.phs = sp_wave_event_phase((cc.phs), (cc.frq + (cc.fmod ? (cc.fmod)[i] : 0)), (c->wvf_size));
""")
rep(Q, "      outn = (cc.amp * (cc.amod)[(event_i + i)] * temp[i]);\n", "      outn = temp[i];\n      outn = ((cc.amp * (cc.amod)[(event_i + i)]) * outn);\n")
rep(Q, "  free(((c->temp)[0]));\n  free(((c->temp)[1]));\n  free(((c->temp)[2]));\n", "  for (sp_size_t i = 3; i; i -= 1) {\n    free(((c->temp)[(i - 1)]));\n  };\n")
# main
rep(M, """  sp_time_t a_index = 0;
  sp_time_t b_index = 0;
  while ((a_index < a_len)) {
    while ((b_index < b_len)) {
      out[(a_index + b_index)] += (a[a_index] * b[b_index]);
      b_index += 1;
    };
    b_index = 0;
    a_index += 1;
  };
""", """  for (sp_time_t a_index = 0; (a_index < a_len); a_index += 1) {
    sp_sample_t* target = (out + a_index);
    for (sp_time_t b_index = 0; (b_index < b_len); b_index += 1) {
      target[b_index] = (target[b_index] + (b[b_index] * a[a_index]));
    };
  };
""")
rep(M, """      /* copy all entries to out and reset */
      memcpy(out, carryover, (carryover_len * sizeof(sp_sample_t)));
      sp_samples_zero(carryover, carryover_len);
      sp_samples_zero((carryover_len + out), (a_len - carryover_len));
""", """      /* take all entries */
      for (a_index = 0; (a_index < a_len); a_index += 1) {
        out[a_index] = ((a_index < carryover_len) ? carryover[a_index] : 0);
      };
      memset(carryover, 0, (carryover_len * sizeof(sp_sample_t)));
""")
rep(M, """  remainder = ((end - start) % config.block_size);
  block_end = (config.block_size * ((end - start) / config.block_size));
""", """  remainder = (end - start);
  remainder = (remainder % config.block_size);
  block_end = ((end - start) - remainder);
""")
rep(M, """    status_require((sp_file_write((&file), (block.samples), (config.block_size))));
    sp_block_zero(block);
  };
  if (remainder) {
""", """    status_require((sp_file_write((&file), (block.samples), (config.block_size))));
    sp_block_zero(block);
  };
  if (0 < remainder) {
""")
rep(M, "  sp_time_t a = (current + change);\n  return (((a < cycle) ? a : (a % cycle)));", "  return (((current + change) % cycle));")
rep(M, """    if (exp & 1) {
      a *= base;
    };
    exp = (exp >> 1);
    if (!exp) {
      break;
    };
    base *= base;
""", """    if (1 == (exp % 2)) {
      a = (base * a);
    };
    exp /= 2;
    if (0 == exp) {
      break;
    };
    base = (base * base);
""")
rep(M, "  for (sp_size_t i = 0; (i < selection_size); i += 1) {\n    result *= (set_size - i);\n  };", "  while (selection_size) {\n    selection_size -= 1;\n    result *= (set_size - selection_size);\n  };")
rep(M, "  while ((n > 0)) {\n    result *= n;\n    n -= 1;\n  };", "  for (sp_time_t i = 2; (i <= n); i += 1) {\n    result *= i;\n  };")
# initialization in another order
rep(M, """  sp_sine_table = 0;
  sp_sine_table_lfo = 0;
  sp_cpu_count = cpu_count;
  sp_rate = rate;
  sp_channel_count = channel_count;
  sp_random_state = sp_random_state_new(sp_random_seed);
  sp_sine_lfo_factor = 100;
""", """  sp_sine_lfo_factor = 100;
  sp_random_state = sp_random_state_new(sp_random_seed);
  sp_channel_count = channel_count;
  sp_rate = rate;
  sp_cpu_count = cpu_count;
  sp_sine_table_lfo = 0;
  sp_sine_table = 0;
""")
# filter
rep(F, "    sum = ((sum + in[(i + radius)]) - (prev", "    sum += (in[(i + radius)] - (prev")
rep(F, "(in[((radius - i) + 1)] * -1)));", "(in[((radius - i) + 1)] * -1)));")
rep(F, """    /* sum lp and hp ir samples */
    for (i = start; (i < end); i = (1 + i)) {
      out[i] = (over[(i - start)] + out[i]);
    };
""", """    for (i = 0; (i < (end - start)); i += 1) {
      out[(start + i)] += over[i];
    };
""")
rep(F, "  state->carryover_len = carryover_len;\n  memcpy((state->ir_f_arguments), ir_f_arguments, ir_f_arguments_len);\n  state->ir_f = ir_f;\n", "  state->ir_f = ir_f;\n  memcpy((state->ir_f_arguments), ir_f_arguments, ir_f_arguments_len);\n  state->carryover_len = carryover_len;\n")
rep(F, "  for (i = 0; (i < len); i += 1) {\n    ir[i] /= sum;\n  };", "  sp_samples_divide(ir, len, sum);")
# files
rep(FL, "  if (!fwrite(header, 40, 1, (file->file))) {", "  if ((20 != fwrite(header, 1, 20, (file->file))) || (20 != fwrite((20 + header), 1, 20, (file->file)))) {")
rep(FL, "  for (sp_time_t i = 0; (i < sample_count); i += 1) {\n    for (sp_channel_count_t j = 0; (j < channel_count); j += 1) {\n      file_data[((i * channel_count) + j)] = (samples[j])[i];\n    };\n  };", "  for (sp_channel_count_t j = 0; (j < channel_count); j += 1) {\n    for (sp_time_t i = 0; (i < sample_count); i += 1) {\n      file_data[(j + (channel_count * i))] = (samples[j])[i];\n    };\n  };")
rep(FL, "  if (!(interleaved_count == read)) {\n    if (feof((file.file))) {\n      if (!read) {\n        sp_status_set_goto(sp_s_id_file_eof);\n      };\n    } else {\n      sp_status_set_goto(sp_s_id_file_read);\n    };\n  };", "  if (read < interleaved_count) {\n    if (!feof((file.file))) {\n      sp_status_set_goto(sp_s_id_file_read);\n    };\n    if (0 == read) {\n      sp_status_set_goto(sp_s_id_file_eof);\n    };\n  };")
# statistics
rep(ST, "    min = a[0]; \\\n    max = min; \\\n    for (sp_size_t i = 0; (i < size); i += 1) { \\\n      b = a[i]; \\\n      if (b > max) { \\\n        max = b; \\\n      } else { \\\n        if (b < min) { \\\n          min = b; \\\n        }; \\\n      }; \\\n    }; \\", "    min = a[(size - 1)]; \\\n    max = a[(size - 1)]; \\\n    for (sp_size_t i = 0; ((1 + i) < size); i += 1) { \\\n      b = a[i]; \\\n      max = ((b > max) ? b : max); \\\n      min = ((b < min) ? b : min); \\\n    }; \\")
rep(ST, "    *out = (m3 / sqrt((m2 * m2 * m2))); \\", "    *out = (m3 / (m2 * sqrt(m2))); \\")
rep(ST, "    *out = sqrt((sum / size)); \\", "    sum /= size; \\\n    *out = sqrt(sum); \\")
rep(ST, "  while ((width <= size)) {\n    result += (size - (width - 1));\n    width += 1;\n  };", "  for (; (width <= size); width += 1) {\n    result += sp_stat_unique_max(size, width);\n  };")
# paths
rep(P, "  segments[0] = spline_path_move(0, (y[0]));\n  segments[last_point_index] = ((fabs(cn) < 1.0e-5) ? spline_path_line(xn, yn) : spline_path_bezier_arc(xn, yn, cn));\n  for (sp_path_point_count_t i = 1; (i < last_point_index); i += 1) {\n    xn = x[(i - 1)];\n    yn = y[i];\n    cn = (c ? c[(i - 1)] : 0);\n", "  segments[0] = spline_path_move(0, (y[0]));\n  for (sp_path_point_count_t i = 1; (i <= last_point_index); i += 1) {\n    xn = ((i < last_point_index) ? x[(i - 1)] : length);\n    yn = y[i];\n    cn = (c ? c[(i - 1)] : 0);\n")
# plots
rep(PL, "  snprintf(command, command_size, command_pattern, path);\n  system(command);\n  free(command);", "  if (0 < snprintf(command, command_size, command_pattern, path)) {\n    system(command);\n  };\n  free(command);", 2)
rep(PL, "  for (i = 0; (i < a_size); i += 1) {\n    fprintf(file, \"%lu\\n\", (a[i]));\n  };", "  i = 0;\n  while (i < a_size) {\n    fprintf(file, \"%lu\\n\", (a[i]));\n    i += 1;\n  };")
# threads
rep(TP, "  sph_queue_enq((&(a->queue)), (&(task->q)));\n  pthread_cond_signal((&(a->queue_not_empty)));\n  pthread_mutex_unlock((&(a->queue_mutex)));\n", "  sph_queue_enq((&(a->queue)), (&(task->q)));\n  pthread_mutex_unlock((&(a->queue_mutex)));\n  pthread_cond_signal((&(a->queue_not_empty)));\n")
rep(TP, """get_task:
  pthread_mutex_lock((&(a->queue_mutex)));
wait:
  /* considers so-called spurious wakeups */
  if (a->queue.size) {
    task = sph_queue_get((sph_queue_deq((&(a->queue)))), sph_thread_pool_task_t, q);
  } else {
    pthread_cond_wait((&(a->queue_not_empty)), (&(a->queue_mutex)));
    goto wait;
  };
  pthread_mutex_unlock((&(a->queue_mutex)));
  (task->f)(task);
  goto get_task;
""", """  while (1) {
    pthread_mutex_lock((&(a->queue_mutex)));
    while (!a->queue.size) {
      pthread_cond_wait((&(a->queue_not_empty)), (&(a->queue_mutex)));
    };
    task = sph_queue_get((sph_queue_deq((&(a->queue)))), sph_thread_pool_task_t, q);
    pthread_mutex_unlock((&(a->queue_mutex)));
    (task->f)(task);
  };
  return (0);
""")
rep(FU, "  if (!__atomic_load_n((&(a->finished)), __ATOMIC_ACQUIRE) && sph_thread_pool_dequeue((&sph_futures_pool), (&(a->task)))) {\n    sph_future_eval((&(a->task)));\n  };\n", "  if (!__atomic_load_n((&(a->finished)), __ATOMIC_ACQUIRE)) {\n    if (sph_thread_pool_dequeue((&sph_futures_pool), (&(a->task)))) {\n      sph_future_eval((&(a->task)));\n      return ((a->task.data));\n    };\n  };\n")
rep(SP, "  y = ((s->points)[0]).y;\n  for (size_t i = 0; (i < (end - start)); i += 1) {\n    out[i] = y;\n  };", "  y = (s->points)->y;\n  while (start < end) {\n    *out = y;\n    out += 1;\n    start += 1;\n  };")
rep(SP, "    if (s_start > end) {\n      break;\n    };\n    if (s_end < start) {\n      path->current_segment_index = i;\n      continue;\n    };\n", "    if (s_end < start) {\n      path->current_segment_index = i;\n      continue;\n    } else if (end < s_start) {\n      break;\n    };\n")
for k, v in files.items(): open(k, "w").write(v)
