#ifndef MCINT_H
#define MCINT_H
#include "mcrt.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <elf.h>
#include <time.h>
#include <math.h>
#include <complex.h>
#include <sys/stat.h>
#include <sys/select.h>
#include <sys/time.h>
#include <ucontext.h>
// the library's errno is one per thread, and so is the simulated one
int *mcw___errno_location(void);
#undef errno
#define errno (*mcw___errno_location())
#define MAXT 40
#define MAXSTK 96
#define MAXP 20000
#define MAXDEV 20
#define MAXHIT 24
#define MAXRACY 64
enum { TS_NONE, TS_LIVE, TS_DONE };
enum { ST_NONE, ST_OK, ST_VIOLATION, ST_PRUNED, ST_HORIZON, ST_DIVERGED, ST_ERROR, ST_KNOWN };
struct mtx;
struct thr {
    int id; char name[48]; bool env, env_sleep; int state;
    ucontext_t ctx; void *stack; void *(*fn)(void *); void *arg; void *ret;
    bool (*pred)(void *); void *parg; int64_t deadline; bool timed_out; const char *label;
    int joined, detached, err;
    uint32_t vc[MAXT]; uint64_t h;
    bool signaled; struct mtx *cmtx; void *cond;
    uint64_t sigs, sigmask;   // signals to be handled, being handled
    int sp; void *pcs[MAXSTK + 1];
};
extern struct thr *cur; extern struct thr thrs[]; extern int nthr; extern int in_mc;
struct mc_task { uint16_t ndev, cost; uint64_t exp_hash; struct { uint16_t pos, alt; } dev[MAXDEV]; };
struct mc_result {
    int status, kind, npoints, used, devpos, completed; uint64_t steps, hash; uint32_t known; int ignored; int nracy; uint32_t racy[MAXRACY];
    char msg[1400]; char outcome[512]; char hits[MAXHIT][48];
    struct { uint16_t n, alt; uint8_t cost; uint64_t key; } pts[MAXP];
};
struct mc_visited { uint64_t *tab; uint64_t mask; uint64_t *count; };
bool visit(struct mc_visited *v, uint64_t key, int budget);
extern struct mc_result *R; extern struct mc_task *T; extern struct mc_visited *V;
extern uint32_t mc_racy[]; extern int mc_nracy;
extern int mc_mask, mc_policy, mc_bound; extern const char *mc_prop;
void mc_load_symbols(void); const char *mc_sym(void *pc); void mc_mem_init(void); void mc_sim_init(void);
void mc_run(struct scenario *sc, int alarm_s);
void mc_access(void *p, size_t n, int write, void *pc);
void mc_release(uint64_t k); void mc_acquire(uint64_t k);
int mc_fault(int bit, const char *label);
void mc_check_fd_leaks(void);
typedef void (*mc_sighandler)(int);
#endif
