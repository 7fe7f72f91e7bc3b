/* scheduler functions for drivers without controlled scheduling */
#include "vt.h"
void vs_start(long strategy, long seed, long param) { (void)strategy; (void)seed; (void)param; }
void vs_stop(void) {}
void vs_yield(void) {}
int vs_self(void) { return (0); }
long vs_steps(void) { return (0); }
void vs_fail_create(int n) { (void)n; }
int vs_threads(void) { return (-1); }
