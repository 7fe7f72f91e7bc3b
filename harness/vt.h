/* shared by all drivers: event log in shared memory, allocation tracking and fault injection, one child process per scenario */
#ifndef vt_h
#define vt_h
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#ifdef __cplusplus
extern "C" {
#endif
/* log: events of one scenario as comma separated json objects */
void vt_log(const char* format, ...) __attribute__((format(printf, 1, 2)));
size_t vt_log_mark(void);
/* allocations made while tracking is on */
void vt_track(int on);
void vt_trace(int on); /* log each tracked allocation, release and file handle */
long vt_live(void); /* tracked allocations that are not freed */
long vt_bad_frees(void); /* frees of addresses that are not allocated */
long vt_alloc_count(void); /* allocations and other countable operations so far */
void vt_fail_at(long n); /* let the nth countable operation from now fail. 0: none */
int vt_failed(void);
void vt_partial(int); /* if a failure has been injected since vt_fail_at */
int vt_open_files(void);
void* vt_malloc(size_t n); /* untracked */
void vt_free(void* a);
extern int vt_log_full;
/* runs one scenario per line of standard input. f gets the integers of the line */
int vt_main(int argc, char** argv, void (*f)(long* a, long n), double timeout_s);
void vt_stop(const char* event); /* log event and end the scenario process */
/* scheduler (sched.c). without it the functions do nothing */
void vs_start(long strategy, long seed, long param);
void vs_stop(void);
void vs_yield(void);
int vs_self(void);
long vs_steps(void);
int vs_threads(void); /* started threads that did not end */
void vs_fail_create(int n); /* let the nth thread creation fail */
#ifdef __cplusplus
}
#endif
#endif
