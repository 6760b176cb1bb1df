// seqrt.h: exhaustive enumeration of the executions of sequential code. A scenario is a function that draws every
// free decision from sq_choose(); the engine runs it once for every sequence of decisions (depth first, replayed
// from the start each time), the values of the first decision being distributed over worker processes.
#ifndef SEQRT_H
#define SEQRT_H
#include <stdint.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdio.h>
#include <time.h>

int sq_choose(int n, const char *what);                       // 0..n-1, all of them explored
void sq_fail(const char *prop, const char *fmt, ...) __attribute__((format(printf, 2, 3)));   // NULL: whatever is being checked
void sq_state(uint64_t h);                                    // counts distinct states
void sq_outcome(uint64_t h);                                  // counts distinct outcomes
void sq_hit(const char *name);                                // names what was reached (non vacuity)
void sq_note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));   // description of this execution (samples, replay)
void sq_step(void);                                           // one operation of the code under test
uint64_t sq_hash(const void *p, size_t n, uint64_t seed);
bool sq_is(const char *prop);
extern int sq_thorough;                                       // tier
extern bool sq_replaying;

// the simulated surroundings of the code under test
extern struct sq_cfg {
    int oom;             // number of allocations that may fail (each one in turn)
    int io_faults;       // number of failing or short file operations (each one in turn)
    bool real_fs;        // fopen goes to the real file system
    time_t now;          // what time() answers
    bool dl_fails;       // loading libraries may fail
} sq_cfg;
extern int sq_oom_hit, sq_io_hit;                             // faults injected so far in this execution
extern bool sq_io_read_failed, sq_io_write_failed;
void sq_file_put(const char *name, const void *data, size_t len);
const void *sq_file_get(const char *name, size_t *len);       // NULL: no such file
int sq_open_files(void);
void *sq_dlsym_hook(const char *name) __attribute__((weak));
void sq_no_leaks(const char *prop);                           // every block and file of the code under test was released
size_t sq_live(void);
size_t sq_heap(void);                                         // bytes allocated in the whole process
void sq_wait_hook(void) __attribute__((weak));                // called when the code under test waits for another thread

struct sq_scen { const char *name, *props; void (*fn)(int root); int nroot_quick, nroot_thorough; int cap_quick_s; };
extern struct sq_scen sq_scenarios[];
extern int sq_n_scenarios;
#endif
