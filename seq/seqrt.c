#define _GNU_SOURCE
#include "seqrt.h"
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <fcntl.h>
#include <math.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <stdatomic.h>
#include <pthread.h>
#include <protobuf-c/protobuf-c.h>

#define MAXD 4096
#define NTAB (1u << 21)
#define MAXJ 16
#define CPU_LIMIT_S 40
struct slot { pid_t pid; int root, depth, len, started; int val[MAXD], ar[MAXD]; char note[1000]; char msg[1500]; char prop[8]; int failed; };
struct shared {
    atomic_int next_root, stop;
    atomic_ulong execs, completed, steps, states, outcomes;
    atomic_ulong roots_done;
    struct { char name[60]; atomic_ulong n; } hits[64]; atomic_int nhits; atomic_flag lock;
    char samples[12][400]; atomic_int nsamples;
    atomic_ulong st[NTAB], oc[NTAB];
    struct slot slot[MAXJ];
};
static struct shared *S;
static struct slot *me;
static int pos;               // position in the path of the current execution
static const char *prop = "?";
int sq_thorough; bool sq_replaying;
struct sq_cfg sq_cfg; int sq_oom_hit, sq_io_hit; bool sq_io_read_failed, sq_io_write_failed;
static bool inside;           // the harness function runs
static double t_end;
static double now_s(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

uint64_t sq_hash(const void *p, size_t n, uint64_t h) {
    const uint8_t *b = p; h ^= 0x9E3779B97F4A7C15ull + n;
    for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 0x100000001b3ull; h ^= h >> 29; }
    h *= 0xbf58476d1ce4e5b9ull; return h ^ (h >> 32);
}
static void ins(atomic_ulong *t, uint64_t h, atomic_ulong *cnt) {
    if (!h) h = 1;
    for (unsigned i = 0; i < 64; i++) {
        atomic_ulong *c = &t[(h + i) & (NTAB - 1)];
        unsigned long v = atomic_load_explicit(c, memory_order_relaxed);
        if (v == h) return;
        if (v == 0) { unsigned long z = 0; if (atomic_compare_exchange_strong(c, &z, h)) { atomic_fetch_add(cnt, 1); return; } if (z == h) return; }
    }
}
void sq_state(uint64_t h) { ins(S->st, h, &S->states); }
void sq_outcome(uint64_t h) { ins(S->oc, h, &S->outcomes); }
void sq_step(void) { atomic_fetch_add_explicit(&S->steps, 1, memory_order_relaxed); }
bool sq_is(const char *p) { return !strcmp(p, prop); }
void sq_hit(const char *name) {
    int n = S->nhits;
    for (int i = 0; i < n; i++) if (!strcmp(S->hits[i].name, name)) { S->hits[i].n++; return; }
    while (atomic_flag_test_and_set(&S->lock)) {}
    for (int i = 0; i < S->nhits; i++) if (!strcmp(S->hits[i].name, name)) { S->hits[i].n++; atomic_flag_clear(&S->lock); return; }
    if (S->nhits < 64) { strncpy(S->hits[S->nhits].name, name, 59); S->hits[S->nhits].n = 1; S->nhits++; }
    atomic_flag_clear(&S->lock);
}
void sq_note(const char *fmt, ...) { va_list ap; va_start(ap, fmt); size_t k = strlen(me->note); if (k < sizeof me->note - 2) vsnprintf(me->note + k, sizeof me->note - k, fmt, ap); va_end(ap); }
int sq_choose(int n, const char *what) {
    if (n <= 1) return 0;
    if (pos >= MAXD) { fprintf(stderr, "too many choices (%s)\n", what); _exit(3); }
    if (pos >= me->len) { me->val[pos] = 0; me->ar[pos] = n; me->len = pos + 1; }
    else if (me->ar[pos] != n) { snprintf(me->msg, sizeof me->msg, "harness is not deterministic: choice %d (%s) has %d values, had %d", pos, what, n, me->ar[pos]); me->failed = 2; _exit(3); }
    if (sq_replaying) fprintf(stdout, "  choice %d: %s = %d of %d\n", pos, what, me->val[pos], n);
    return me->val[pos++];
}
void sq_fail(const char *p, const char *fmt, ...) {
    if (p && strcmp(p, prop) && strcmp(prop, "ANY")) return;
    va_list ap; va_start(ap, fmt); vsnprintf(me->msg, sizeof me->msg, fmt, ap); va_end(ap);
    me->failed = 1;
    if (sq_replaying) { printf("FAILED: %s\n", me->msg); fflush(stdout); }
    _exit(77);
}

// ------------------------------------------------------------------ the code under test calls these (see build.sh)
struct blk { void *p; size_t n; uint32_t seq; };
#define NBLK (1 << 16)
static struct blk blks[NBLK]; static size_t live; static uint32_t aseq; static size_t live_bytes;
static void blk_add(void *p, size_t n) {
    if (!p) return;
    size_t i = ((uintptr_t) p >> 4) * 0x9E3779B1u % NBLK;
    while (blks[i].p && blks[i].p != (void *) 1) i = (i + 1) % NBLK;
    if (live > NBLK / 2) { fprintf(stderr, "too many blocks\n"); _exit(3); }
    blks[i] = (struct blk) {p, n, ++aseq}; live++; live_bytes += n;
}
static bool blk_del(void *p) {
    size_t i = ((uintptr_t) p >> 4) * 0x9E3779B1u % NBLK;
    for (int k = 0; k < NBLK && blks[i].p; k++, i = (i + 1) % NBLK) if (blks[i].p == p) { live--; live_bytes -= blks[i].n; blks[i].p = blks[(i + 1) % NBLK].p ? (void *) 1 : NULL; return true; }
    return false;
}
static bool deny(size_t n) {
    if (n > (3ull << 30) || live_bytes + n > (6ull << 30)) return true;      // a machine of this size refuses
    if (sq_cfg.oom && inside && sq_oom_hit < sq_cfg.oom && sq_choose(2, "allocation fails")) { sq_oom_hit++; errno = ENOMEM; return true; }
    return false;
}
static void fill(void *p, size_t n) { if (p) memset(p, 0xFD, n < 65536 ? n : 65536); }
void *mcw_malloc(size_t n) { if (deny(n)) return NULL; void *p = malloc(n); fill(p, n); blk_add(p, n); return p; }
void *mcw_calloc(size_t a, size_t b) { if (deny(a * b)) return NULL; void *p = calloc(a, b); blk_add(p, a * b); return p; }
void mcw_free(void *p) { if (p) blk_del(p); free(p); }
void *mcw_realloc(void *q, size_t n) { if (deny(n)) return NULL; if (q) blk_del(q); void *p = realloc(q, n); blk_add(p, n); return p; }
char *mcw_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = mcw_malloc(n); if (p) memcpy(p, s, n); return p; }
char *mcw_strndup(const char *s, size_t k) { size_t n = strnlen(s, k); char *p = mcw_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
void *mcw_volk_malloc(size_t n, size_t al) { if (deny(n)) return NULL; void *p = NULL; if (posix_memalign(&p, al < 16 ? 16 : al, n)) return NULL; fill(p, n); blk_add(p, n); return p; }
void mcw_volk_free(void *p) { mcw_free(p); }
size_t mcw_volk_get_alignment(void) { return 32; }
size_t sq_live(void) { return live; }

static time_t tick;
time_t mcw_time(time_t *t) { time_t v = sq_cfg.now + tick; if (t) *t = v; return v; }

// messages of the code under test
int mcw_fprintf(FILE *f, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = 0; if (f != stderr && f != stdout) r = vfprintf(f, fmt, ap); else if (sq_replaying) { fputs("    | ", stdout); r = vfprintf(stdout, fmt, ap); } va_end(ap); return r; }
int mcw_printf(const char *fmt, ...) { (void) fmt; return 0; }
int mcw_puts(const char *s) { (void) s; return 0; }
int mcw_putchar(int c) { return c; }
int mcw_fputs(const char *s, FILE *f) { return f == stderr || f == stdout ? 0 : fputs(s, f); }
void mcw_perror(const char *s) { (void) s; }

// files in memory
struct mf { char name[120]; uint8_t *b; size_t len, cap; };
static struct mf mfs[32]; static int nmf, nopen;
struct fh { struct mf *m; size_t at; FILE *f; };
static struct mf *mf_find(const char *n) { for (int i = 0; i < nmf; i++) if (!strcmp(mfs[i].name, n)) return &mfs[i]; return NULL; }
static struct mf *mf_make(const char *n) { struct mf *m = mf_find(n); if (m) return m; if (nmf == 32) { fprintf(stderr, "too many files\n"); _exit(3); } m = &mfs[nmf++]; memset(m, 0, sizeof *m); strncpy(m->name, n, sizeof m->name - 1); return m; }
void sq_file_put(const char *name, const void *d, size_t len) { struct mf *m = mf_make(name); free(m->b); m->b = malloc(len + 1); memcpy(m->b, d, len); m->len = m->cap = len; }
const void *sq_file_get(const char *name, size_t *len) { struct mf *m = mf_find(name); if (!m) return NULL; *len = m->len; return m->b ? (void *) m->b : ""; }
int sq_open_files(void) { return nopen; }
static int io_fault(int kinds, const char *what) {
    if (!sq_cfg.io_faults || sq_io_hit >= sq_cfg.io_faults || !inside) return 0;
    int c = sq_choose(kinds, what);
    if (c) sq_io_hit++;
    return c;
}
static ssize_t ck_read(void *c, char *b, size_t n) {
    struct fh *h = c;
    int k = io_fault(2, "file read fails");
    if (k == 1) { sq_io_read_failed = true; errno = EIO; return -1; }
    size_t left = h->m->len > h->at ? h->m->len - h->at : 0;
    if (n > left) n = left;
    if (n) memcpy(b, h->m->b + h->at, n);
    h->at += n; return n;
}
static ssize_t ck_write(void *c, const char *b, size_t n) {
    struct fh *h = c;
    int k = io_fault(n > 1 ? 3 : 2, "file write fails or is short");
    if (k == 1) { sq_io_write_failed = true; errno = ENOSPC; return 0; }
    if (k == 2) { sq_io_write_failed = true; n /= 2; errno = ENOSPC; }
    if (h->at + n > h->m->cap) { h->m->cap = (h->at + n) * 2; h->m->b = realloc(h->m->b, h->m->cap); }
    if (h->at > h->m->len) memset(h->m->b + h->m->len, 0, h->at - h->m->len);
    memcpy(h->m->b + h->at, b, n); h->at += n;
    if (h->at > h->m->len) h->m->len = h->at;
    return n;
}
static int ck_seek(void *c, off64_t *o, int w) { struct fh *h = c; off64_t p = w == SEEK_SET ? *o : w == SEEK_CUR ? (off64_t) h->at + *o : (off64_t) h->m->len + *o; if (p < 0) return -1; h->at = p; *o = p; return 0; }
static int ck_close(void *c) { struct fh *h = c; nopen--; free(h); return 0; }
FILE *mcw_fopen(const char *n, const char *mode) {
    if (sq_cfg.real_fs) return fopen(n, mode);
    bool wr = mode[0] == 'w' || mode[0] == 'a';
    if (io_fault(2, "fopen fails")) { errno = EACCES; return NULL; }
    struct mf *m = mf_find(n);
    if (!wr && !m) { errno = ENOENT; return NULL; }
    if (wr && (strchr(n, '/') == NULL || !strncmp(n, "/none/", 6) || n[strlen(n) - 1] == '/')) { errno = ENOENT; return NULL; }
    if (!m) m = mf_make(n);
    if (mode[0] == 'w') m->len = 0;
    struct fh *h = calloc(1, sizeof *h); h->m = m; if (mode[0] == 'a') h->at = m->len;
    FILE *f = fopencookie(h, mode, (cookie_io_functions_t) {ck_read, ck_write, ck_seek, ck_close});
    if (!f) { free(h); return NULL; }
    static char rb[32][64];      // reads come in blocks, as from a disk; writes are visible at once
    if (mode[0] == 'r') setvbuf(f, rb[m - mfs], _IOFBF, 64); else setvbuf(f, NULL, _IONBF, 0);
    nopen++;
    return f;
}
FILE *mcw_fopen64(const char *n, const char *m) { return mcw_fopen(n, m); }
// libraries
static int nlib;
void *mcw_dlopen(const char *n, int fl) { (void) n; (void) fl; if (sq_cfg.dl_fails && sq_choose(2, "dlopen fails")) return NULL; nlib++; return &nlib; }
static const char *dlerr;
void *mcw_dlsym(void *h, const char *n) { (void) h; void *p = sq_dlsym_hook ? sq_dlsym_hook(n) : NULL; dlerr = p ? NULL : "no such symbol"; return p; }
int mcw_dlclose(void *h) { (void) h; nlib--; return 0; }
char *mcw_dlerror(void) { const char *e = dlerr; dlerr = NULL; return (char *) e; }

// waiting for another thread: there is none, the harness says what happens meanwhile
static int nwaits;
static int waited(pthread_mutex_t *m) { if (!sq_wait_hook || ++nwaits > 1000) { snprintf(me->msg, sizeof me->msg, "waits for ever"); me->failed = 1; _exit(77); } pthread_mutex_unlock(m); sq_wait_hook(); pthread_mutex_lock(m); return 0; }
int mcw_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return waited(m); }
int mcw_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { return waited(m); }
// protocol buffers allocate through here
static void *pb_alloc(void *d, size_t n) { return mcw_malloc(n); }
static void pb_free(void *d, void *p) { mcw_free(p); }
static ProtobufCAllocator pb = {pb_alloc, pb_free, NULL};
ProtobufCMessage *mcw_protobuf_c_message_unpack(const ProtobufCMessageDescriptor *d, ProtobufCAllocator *a, size_t n, const uint8_t *data) { return protobuf_c_message_unpack(d, a ? a : &pb, n, data); }
void mcw_protobuf_c_message_free_unpacked(ProtobufCMessage *m, ProtobufCAllocator *a) { protobuf_c_message_free_unpacked(m, a ? a : &pb); }
extern size_t __sanitizer_get_current_allocated_bytes(void);
size_t sq_heap(void) { return __sanitizer_get_current_allocated_bytes(); }

void sq_no_leaks(const char *p) {
    if (live) { size_t b = 0; for (int i = 0; i < NBLK; i++) if (blks[i].p && blks[i].p != (void *) 1 && (!b || blks[i].n > b)) b = blks[i].n; sq_fail(p, "%zu memory blocks were never released (largest %zu bytes)", live, b); }
    if (nopen) sq_fail(p, "%d files were never closed", nopen);
    if (nlib) sq_fail(p, "%d libraries were never closed", nlib);
}

// ------------------------------------------------------------------ volk: scalar kernels, instrumented, with the alignment the _a variants need
#define CX float _Complex
static void al(const void *p, const char *n) { if ((uintptr_t) p & 31) { fprintf(stderr, "ERROR: AddressSanitizer: unaligned operand of %s\n", n); abort(); } }
static void k_dotf(float *r, const float *a, const float *b, unsigned n) { float s = 0; for (unsigned i = 0; i < n; i++) s += a[i] * b[i]; *r = s; }
static void k_dotf_a(float *r, const float *a, const float *b, unsigned n) { al(a, "32f_x2_dot_prod_32f_a"); al(b, "32f_x2_dot_prod_32f_a"); k_dotf(r, a, b, n); }
static void k_dotcf(CX *r, const CX *a, const float *b, unsigned n) { float re = 0, im = 0; for (unsigned i = 0; i < n; i++) { re += __real__ a[i] * b[i]; im += __imag__ a[i] * b[i]; } __real__ *r = re; __imag__ *r = im; }
static void k_dotcf_a(CX *r, const CX *a, const float *b, unsigned n) { al(a, "32fc_32f_dot_prod_32fc_a"); al(b, "32fc_32f_dot_prod_32fc_a"); k_dotcf(r, a, b, n); }
static CX cmul(CX a, CX b) { CX r; __real__ r = __real__ a * __real__ b - __imag__ a * __imag__ b; __imag__ r = __real__ a * __imag__ b + __imag__ a * __real__ b; return r; }
static CX cjg(CX a) { __imag__ a = -__imag__ a; return a; }
static void k_mul(CX *r, const CX *a, const CX *b, unsigned n) { for (unsigned i = 0; i < n; i++) r[i] = cmul(a[i], b[i]); }
static void k_mul_a(CX *r, const CX *a, const CX *b, unsigned n) { al(r, "multiply_a"); al(a, "multiply_a"); al(b, "multiply_a"); k_mul(r, a, b, n); }
static void k_mulc(CX *r, const CX *a, const CX *b, unsigned n) { for (unsigned i = 0; i < n; i++) r[i] = cmul(a[i], cjg(b[i])); }
static void k_mulc_a(CX *r, const CX *a, const CX *b, unsigned n) { al(r, "multiply_conjugate_a"); al(a, "multiply_conjugate_a"); al(b, "multiply_conjugate_a"); k_mulc(r, a, b, n); }
static void k_16f(float *r, const int16_t *a, const float s, unsigned n) { for (unsigned i = 0; i < n; i++) r[i] = (float) a[i] / s; }
static void k_16f_a(float *r, const int16_t *a, const float s, unsigned n) { al(r, "16i_convert_a"); al(a, "16i_convert_a"); k_16f(r, a, s, n); }
static void k_f16(int16_t *r, const float *a, const float s, unsigned n) { for (unsigned i = 0; i < n; i++) { float x = a[i] * s; r[i] = x > 32767 ? 32767 : x < -32768 ? -32768 : (int16_t) rintf(x); } }
static void k_f16_a(int16_t *r, const float *a, const float s, unsigned n) { al(r, "convert_16i_a"); al(a, "convert_16i_a"); k_f16(r, a, s, n); }
static void k_f8(int8_t *r, const float *a, const float s, unsigned n) { for (unsigned i = 0; i < n; i++) { float x = a[i] * s; r[i] = x > 127 ? 127 : x < -128 ? -128 : (int8_t) rintf(x); } }
static void k_f8_a(int8_t *r, const float *a, const float s, unsigned n) { al(r, "convert_8i_a"); al(a, "convert_8i_a"); k_f8(r, a, s, n); }
#define V(ret, name, k, ...) ret (*mcw_volk_##name)(__VA_ARGS__) = k; ret (*mcw_volk_##name##_u)(__VA_ARGS__) = k; ret (*mcw_volk_##name##_a)(__VA_ARGS__) = k##_a;
V(void, 32f_x2_dot_prod_32f, k_dotf, float *, const float *, const float *, unsigned)
V(void, 32fc_32f_dot_prod_32fc, k_dotcf, CX *, const CX *, const float *, unsigned)
V(void, 32fc_x2_multiply_32fc, k_mul, CX *, const CX *, const CX *, unsigned)
V(void, 32fc_x2_multiply_conjugate_32fc, k_mulc, CX *, const CX *, const CX *, unsigned)
V(void, 16i_s32f_convert_32f, k_16f, float *, const int16_t *, const float, unsigned)
V(void, 32f_s32f_convert_16i, k_f16, int16_t *, const float *, const float, unsigned)
V(void, 32f_s32f_convert_8i, k_f8, int8_t *, const float *, const float, unsigned)

// ------------------------------------------------------------------ exploration
static void reset(void) {
    memset(blks, 0, sizeof blks); live = 0; live_bytes = 0; aseq = 0;      // what an execution leaves is not carried over
    for (int i = 0; i < nmf; i++) free(mfs[i].b);
    nmf = 0; nopen = 0; nlib = 0; nwaits = 0; tick = 0; dlerr = NULL;
    memset(&sq_cfg, 0, sizeof sq_cfg); sq_cfg.now = 1600000000;
    sq_oom_hit = sq_io_hit = 0; sq_io_read_failed = sq_io_write_failed = false;
    errno = 0;
}
static void on_prof(int s) { (void) s; snprintf(me->msg, sizeof me->msg, "no end after %d s of processing", CPU_LIMIT_S); me->failed = 1; _exit(77); }
static bool advance(void) {
    while (me->len > 0 && me->val[me->len - 1] + 1 >= me->ar[me->len - 1]) me->len--;
    if (me->len == 0) return false;
    me->val[me->len - 1]++;
    return true;
}
static void arm(void) { struct itimerval t = {{0, 0}, {CPU_LIMIT_S, 0}}; setitimer(ITIMER_PROF, &t, NULL); }
static void run_once(struct sq_scen *sc) {
    pos = 0; me->note[0] = 0; me->started = 1;
    reset(); arm();
    inside = true; sc->fn(me->root); inside = false;
    me->started = 0;
    S->execs++; S->completed++;
    if (S->nsamples < 12 && me->note[0]) { int i = S->nsamples++; if (i < 12) snprintf(S->samples[i], sizeof S->samples[i], "%s", me->note); }
}
static void worker(struct sq_scen *sc, int nroot, bool resume) {
    signal(SIGPROF, on_prof);
    int fails = 0; (void) fails;
    if (resume) { me->started = 0; S->execs++; if (advance()) goto go; S->roots_done++; }
    for (;;) {
        if (S->stop || now_s() > t_end) return;
        me->root = S->next_root++;
        if (me->root >= nroot) return;
        me->len = 0;
    go:
        for (;;) {
            run_once(sc);
            if (S->stop || now_s() > t_end) return;
            if (!advance()) break;
        }
        S->roots_done++;
    }
}
static char errs[8000];
static void read_err(int fd) { struct { char b[8000]; } *t = (void *) errs; memset(t, 0, sizeof errs); off_t e = lseek(fd, 0, SEEK_END); (void) pread(fd, errs, sizeof errs - 1, e > 7999 ? e - 7999 : 0); }
static void describe(struct slot *s, int st, int fd, char *out, size_t n) {
    read_err(fd);
    char *p = strstr(errs, "runtime error:"), *q = strstr(errs, "SUMMARY:"), *a = strstr(errs, "AddressSanitizer");
    char line[600] = "";
    char *src = p ? p : q ? q : a;
    if (p) { while (p > errs && p[-1] != '\n') p--; src = p; }
    if (src) { snprintf(line, sizeof line, "%.*s", (int) strcspn(src, "\n"), src); }
    char frames[700] = ""; char *f = errs; int k = 0;
    while (k < 4 && (f = strstr(f, "    #"))) { char *e = strchr(f, '\n'); char *in = strstr(f, " in "); if (in && e && in < e) { snprintf(frames + strlen(frames), sizeof frames - strlen(frames), " <-%.*s", (int) (strcspn(in + 4, " ") ), in + 4); k++; } if (!e) break; f = e; }
    if (WIFSIGNALED(st)) snprintf(out, n, "crash (signal %d) %s%s", WTERMSIG(st), line, frames);
    else snprintf(out, n, "crash %s%s", line[0] ? line : "(unexpected exit)", frames);
    (void) s;
}
static char *knowns[64]; static int nknown, khit[64];
static int known(const char *m) { for (int i = 0; i < nknown; i++) if (strstr(m, knowns[i])) { khit[i] = 1; return 1; } return 0; }
static FILE *jo; static bool first_json = true;
static void jstr(FILE *f, const char *s) { fputc('"', f); for (; *s; s++) { unsigned char c = *s; if (c == '"' || c == '\\') fprintf(f, "\\%c", c); else if (c < 32 || c > 126) fprintf(f, "?"); else fputc(c, f); } fputc('"', f); }
static void spawn(struct sq_scen *sc, int nroot, int j, int fd, bool resume) {
    pid_t p = fork();
    if (p == 0) { me = &S->slot[j]; dup2(fd, 2); worker(sc, nroot, resume); _exit(0); }
    S->slot[j].pid = p;
}
static int run_scenario(struct sq_scen *sc, double cap, int jobs, const char *replay_out) {
    int nroot = sq_thorough ? sc->nroot_thorough : sc->nroot_quick;
    double t0 = now_s(); t_end = t0 + cap;
    S->next_root = 0; S->stop = 0; S->execs = S->completed = S->steps = S->states = S->outcomes = S->roots_done = 0; S->nhits = 0; S->nsamples = 0;
    memset((void *) S->st, 0, sizeof S->st); memset((void *) S->oc, 0, sizeof S->oc); memset(S->slot, 0, sizeof S->slot);
    int fds[MAXJ], rc = 0; char msg[2000] = "";
    if (jobs > nroot) jobs = nroot;
    fflush(NULL);
    for (int j = 0; j < jobs; j++) { fds[j] = memfd_create("err", 0); fcntl(fds[j], F_SETFL, O_APPEND); }
    int alive = 0;
    for (int j = 0; j < jobs; j++) { spawn(sc, nroot, j, fds[j], false); alive++; }
    while (alive > 0) {
        int st; pid_t p = waitpid(-1, &st, 0);
        if (p < 0) break;
        alive--;
        int w = -1; for (int i = 0; i < jobs; i++) if (S->slot[i].pid == p) w = i;
        if (w < 0 || (WIFEXITED(st) && WEXITSTATUS(st) == 0)) continue;
        struct slot *s = &S->slot[w]; char m[2000];
        if (WIFEXITED(st) && WEXITSTATUS(st) == 77 && s->failed == 1) snprintf(m, sizeof m, "%s", s->msg);
        else if (WIFEXITED(st) && WEXITSTATUS(st) == 3) { read_err(fds[w]); fprintf(stderr, "harness failure in %s: %s %s\n", sc->name, s->failed == 2 ? s->msg : "", errs); S->stop = 1; rc = 2; continue; }
        else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { fprintf(stderr, "worker of %s was killed\n", sc->name); S->stop = 1; rc = 2; continue; }
        else describe(s, st, fds[w], m, sizeof m);
        if (known(m)) {   // listed finding: go on behind it
            if (ftruncate(fds[w], 0)) {}
            s->failed = 0; spawn(sc, nroot, w, fds[w], true); alive++; continue;
        }
        if (!rc) {
            rc = 1; snprintf(msg, sizeof msg, "%s", m); S->stop = 1;
            printf("FOUND [%s] %s: %s\n   execution: root %d, %s\n", prop, sc->name, m, s->root, s->note); fflush(stdout);
            if (replay_out) {
                FILE *f = fopen(replay_out, "w");
                if (f) { fprintf(f, "property %s\nscenario %s\nmessage %s\nnote %s\ntier %s\nroot %d\nchoices", prop, sc->name, m, s->note, sq_thorough ? "thorough" : "quick", s->root); for (int i = 0; i < s->len; i++) fprintf(f, " %d/%d", s->val[i], s->ar[i]); fprintf(f, "\n"); fclose(f); }
            }
        }
    }
    for (int j = 0; j < jobs; j++) close(fds[j]);
    bool complete = rc == 0 && (long) S->roots_done >= nroot;
    printf("%-40s %10lu executions %9lu states %9lu outcomes %s %.1fs%s\n", sc->name, S->execs, S->states, S->outcomes, complete ? "complete" : rc ? "stopped" : "CAPPED", now_s() - t0, "");
    fflush(stdout);
    if (jo) {
        if (!first_json) fprintf(jo, ","); first_json = false;
        fprintf(jo, "\n{\"name\":"); jstr(jo, sc->name);
        fprintf(jo, ",\"executions\":%lu,\"completed\":%lu,\"states\":%lu,\"steps\":%lu,\"outcomes\":%lu,\"complete\":%s,\"bound\":%d,\"policies\":1,\"wall_s\":%.2f,\"hits\":{", S->execs, S->completed, S->states, S->steps, S->outcomes, complete ? "true" : "false", nroot, now_s() - t0);
        for (int i = 0; i < S->nhits; i++) { if (i) fprintf(jo, ","); jstr(jo, S->hits[i].name); fprintf(jo, ":%lu", S->hits[i].n); }
        fprintf(jo, "},\"samples\":[");
        for (int i = 0; i < S->nsamples && i < 12; i++) { if (i) fprintf(jo, ","); char b[500]; snprintf(b, sizeof b, "%s: %s", sc->name, S->samples[i]); jstr(jo, b); }
        fprintf(jo, "]}");
    }
    return rc;
}
static bool has_prop(const char *props, const char *p) { if (!strcmp(p, "ANY")) return true; size_t n = strlen(p); for (const char *s = props; (s = strstr(s, p)); s++) if ((s == props || s[-1] == ' ') && (s[n] == 0 || s[n] == ' ')) return true; return false; }
static int replay(const char *file) {
    static char sn[300], line[100000]; FILE *f = fopen(file, "r"); if (!f) return 2;
    me = &S->slot[0]; static char pr[20];
    while (fgets(line, sizeof line, f)) {
        line[strcspn(line, "\n")] = 0;
        if (!strncmp(line, "property ", 9)) { snprintf(pr, sizeof pr, "%s", line + 9); prop = pr; }
        else if (!strncmp(line, "scenario ", 9)) snprintf(sn, sizeof sn, "%s", line + 9);
        else if (!strncmp(line, "tier ", 5)) sq_thorough = !strcmp(line + 5, "thorough");
        else if (!strncmp(line, "root ", 5)) me->root = atoi(line + 5);
        else if (!strncmp(line, "message ", 8)) printf("recorded: %s\n", line + 8);
        else if (!strncmp(line, "choices", 7)) for (char *t = strtok(line + 7, " "); t; t = strtok(NULL, " ")) { sscanf(t, "%d/%d", &me->val[me->len], &me->ar[me->len]); me->len++; }
    }
    fclose(f);
    sq_replaying = true;
    for (int i = 0; i < sq_n_scenarios; i++) if (!strcmp(sq_scenarios[i].name, sn)) {
        pid_t p = fork();
        if (p == 0) { signal(SIGPROF, on_prof); run_once(&sq_scenarios[i]); printf("note: %s\nthe property held in this execution\n", me->note); exit(0); }
        int st; waitpid(p, &st, 0);
        printf("note: %s\n", me->note);
        return WIFEXITED(st) && WEXITSTATUS(st) == 0 ? 0 : 1;
    }
    return 2;
}
int main(int argc, char **argv) {
    const char *out = NULL, *rout = NULL, *only = NULL, *rep = NULL, *kf = NULL; int jobs = 8; double cap = 0; bool list = false;
    for (int i = 1; i < argc; i++) {
        if (!strcmp(argv[i], "--list")) list = true;
        else if (i + 1 < argc) {
            if (!strcmp(argv[i], "--prop")) prop = argv[i + 1];
            else if (!strcmp(argv[i], "--tier")) sq_thorough = !strcmp(argv[i + 1], "thorough");
            else if (!strcmp(argv[i], "--out")) out = argv[i + 1];
            else if (!strcmp(argv[i], "--replay-out")) rout = argv[i + 1];
            else if (!strcmp(argv[i], "--known")) kf = argv[i + 1];
            else if (!strcmp(argv[i], "--jobs")) jobs = atoi(argv[i + 1]);
            else if (!strcmp(argv[i], "--scenario")) only = argv[i + 1];
            else if (!strcmp(argv[i], "--cap")) cap = atof(argv[i + 1]);
            else if (!strcmp(argv[i], "--replay")) rep = argv[i + 1];
            i++;
        }
    }
    if (list) { for (int i = 0; i < sq_n_scenarios; i++) printf("%s: %s\n", sq_scenarios[i].name, sq_scenarios[i].props); return 0; }
    S = mmap(NULL, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (S == MAP_FAILED) return 2;
    if (jobs > MAXJ) jobs = MAXJ; if (jobs < 1) jobs = 1;
    if (rep) return replay(rep);
    if (kf) { FILE *f = fopen(kf, "r"); char l[1000]; while (f && fgets(l, sizeof l, f)) { l[strcspn(l, "\n")] = 0; if (*l && nknown < 64) knowns[nknown++] = strdup(l); } if (f) fclose(f); }
    if (out) { jo = fopen(out, "w"); fprintf(jo, "{\"scenarios\":["); }
    int rc = 0;
    for (int i = 0; i < sq_n_scenarios && !rc; i++) {
        struct sq_scen *sc = &sq_scenarios[i];
        if (only && strcmp(only, sc->name)) continue;
        if (!has_prop(sc->props, prop)) continue;
        rc = run_scenario(sc, cap ? cap : sq_thorough ? 600 : sc->cap_quick_s ? sc->cap_quick_s : 60, jobs, rout);
    }
    if (jo) { fprintf(jo, "],\n\"known\":["); for (int i = 0; i < nknown; i++) fprintf(jo, "%s%s", i ? "," : "", khit[i] ? "true" : "false"); fprintf(jo, "],\"rc\":%d}\n", rc); fclose(jo); }
    return rc;
}
