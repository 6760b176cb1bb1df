// mcrt.c: scheduler, memory and race monitors, choices. See mcrt.h.
#define _GNU_SOURCE
#include "mcint.h"
#include <ucontext.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <pthread.h>
#include <semaphore.h>

struct mc_cfg mc_cfg;
int mc_verbose;
struct mc_result *R;                 // shared with the explorer
struct mc_task *T;                   // the prefix to follow
int mc_mask; const char *mc_prop; int mc_policy; int mc_bound;
struct mc_visited *V;
static char notebuf[8192];

// ------------------------------------------------------------------ hashing
static inline uint64_t mix64(uint64_t x) { x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ULL; x ^= x >> 27; x *= 0x94d049bb133111ebULL; return x ^ (x >> 31); }
static inline uint64_t comb(uint64_t a, uint64_t b) { return mix64(a * 0x9E3779B97F4A7C15ULL + b + 0x1234567); }
#define OBJN 8192
static struct { uint64_t k, h; } objs[OBJN];
static uint64_t *objh(uint64_t k) {
    uint64_t i = mix64(k) % OBJN;
    if (k == 0) k = 1;
    while (objs[i].k && objs[i].k != k) i = (i + 1) % OBJN;
    objs[i].k = k;
    return &objs[i].h;
}
static uint64_t S;                   // hash of the partial order executed so far
uint64_t mc_state_hash(void) { return S; }

// ------------------------------------------------------------------ threads
struct thr thrs[MAXT];
int nthr;
struct thr *cur;
static int64_t now_ms = 1700000000000LL;
static int timeouts_fired;
int in_mc;                           // simulator active
static ucontext_t main_ctx;

int64_t mc_now(void) { return now_ms; }
int mc_self(void) { return cur ? cur->id : -1; }
const char *mc_thread_name(int id) { return thrs[id].name; }

void mc_note(const char *fmt, ...) {
    if (!mc_verbose) return;
    va_list ap; va_start(ap, fmt);
    printf("      [%s] ", cur ? cur->name : "-"); vprintf(fmt, ap); printf("\n");
    va_end(ap);
}

// ------------------------------------------------------------------ symbols
struct sym { uintptr_t a; size_t n; const char *name; };
static struct sym *syms; static int nsyms;
static int symcmp(const void *a, const void *b) { const struct sym *x = a, *y = b; return x->a < y->a ? -1 : x->a > y->a; }
void mc_load_symbols(void) {
    int fd = open("/proc/self/exe", O_RDONLY);
    struct stat st; fstat(fd, &st);
    char *m = mmap(NULL, st.st_size, PROT_READ, MAP_PRIVATE, fd, 0);
    close(fd);
    Elf64_Ehdr *eh = (void *) m; Elf64_Shdr *sh = (void *) (m + eh->e_shoff);
    for (int i = 0; i < eh->e_shnum; i++) if (sh[i].sh_type == SHT_SYMTAB) {
        Elf64_Sym *s = (void *) (m + sh[i].sh_offset); int n = sh[i].sh_size / sizeof(*s);
        const char *str = m + sh[sh[i].sh_link].sh_offset;
        syms = malloc(sizeof(struct sym) * n);
        for (int j = 0; j < n; j++) if (ELF64_ST_TYPE(s[j].st_info) == STT_FUNC && s[j].st_value)
            syms[nsyms++] = (struct sym) {s[j].st_value, s[j].st_size, str + s[j].st_name};
        qsort(syms, nsyms, sizeof(*syms), symcmp);
    }
}
const char *mc_sym(void *pc) {
    uintptr_t p = (uintptr_t) pc; int lo = 0, hi = nsyms;
    while (hi - lo > 1) { int mid = (lo + hi) / 2; if (syms[mid].a <= p) lo = mid; else hi = mid; }
    if (nsyms && p >= syms[lo].a && p <= syms[lo].a + syms[lo].n) {
        static char out[4][80]; static int k; k = (k + 1) % 4;
        snprintf(out[k], 80, "%s", syms[lo].name);
        char *dot = strstr(out[k], ".part"); if (dot) *dot = 0;
        dot = strstr(out[k], ".isra"); if (dot) *dot = 0;
        dot = strstr(out[k], ".const"); if (dot) *dot = 0;
        return out[k];
    }
    return "?";
}
static void stack_str(struct thr *t, char *out, size_t n) {
    out[0] = 0;
    for (int i = t->sp - 1, k = 0; i >= 0 && k < 6; i--, k++) {
        size_t l = strlen(out);
        snprintf(out + l, n - l, "%s%s", k ? "<-" : "", mc_sym(t->pcs[i]));
    }
}

// ------------------------------------------------------------------ verdicts
static void finish(int status) __attribute__((noreturn));
static void finish(int status) { R->status = status; R->hash = S; fflush(stdout); _exit(0); }

extern const char **mc_known; extern int mc_nknown;
// what a scenario that is run for the first property shows about the others is also a violation of the first: the answers
// and samples of a session prove its framing, sharing, ownership, source
static bool concerns(const char *checked, const char *p) {
    static const char *const T[][2] = {
        {"C03", "C16"}, {"C04", "C10"}, {"C05", "C04"}, {"C06", "C04 C05 C09 C17"}, {"C07", "C04 C05 C08 C16"}, {"C08", "C07 C15"}, {"C09", "C04 C10 C15"}, {"C10", "C04 C05 C08 C09"},
        {"C01", "C08"}, {"C12", "C08 C09"}, {"C14", "C05 C08 C09 C15"}, {"C18", "C05 C08 C09"}, {"C21", "C05 C15"}, {"C22", "C04 C05 C08 C09 C10"}, {"C15", "C08 C09"}, {"C16", "C04 C07 C08"}, {"C17", "C06 C08 C09"}};
    if (!strcmp(checked, p)) return true;
    for (size_t i = 0; i < sizeof T / sizeof *T; i++) if (!strcmp(T[i][0], checked) && strstr(T[i][1], p)) return true;
    return false;
}
void mc_fail(int kind, const char *prop, const char *fmt, ...) {
    char msg[1200];
    va_list ap; va_start(ap, fmt); vsnprintf(msg, sizeof msg, fmt, ap); va_end(ap);
    if (kind == K_ORACLE && strcmp(mc_prop, "ANY")) { if (!concerns(mc_prop, prop)) { if (mc_verbose) printf("   (ignored: %s %s)\n", prop, msg); return; } }
    else if (!(kind & mc_mask)) { if (mc_verbose) printf("   (ignored: %s)\n", msg); R->ignored++; return; }
    for (int i = 0; i < mc_nknown; i++) if (strstr(msg, mc_known[i])) { R->known |= 1u << i; if (mc_verbose) printf("   (known: %s)\n", msg); finish(ST_KNOWN); }
    snprintf(R->msg, sizeof R->msg, "%s", msg);
    R->kind = kind;
    if (mc_verbose) { printf("*** %s\n", msg); }
    finish(ST_VIOLATION);
}
void mc_outcome(const char *fmt, ...) {
    size_t l = strlen(R->outcome);
    va_list ap; va_start(ap, fmt);
    if (l + 1 < sizeof R->outcome) vsnprintf(R->outcome + l, sizeof R->outcome - l, fmt, ap);
    va_end(ap);
}
void mc_hit(const char *what) {
    for (int i = 0; i < MAXHIT; i++) {
        if (!R->hits[i][0]) { snprintf(R->hits[i], sizeof R->hits[i], "%s", what); return; }
        if (!strcmp(R->hits[i], what)) return;
    }
}

// ------------------------------------------------------------------ choices
static int point(int n, int cost, const char *label, bool sched) {
    int p = R->npoints;
    if (p >= MAXP) { snprintf(R->msg, sizeof R->msg, "more than %d choice points: livelock", MAXP); mc_fail(K_HANG, NULL, "execution does not end: more than %d steps", MAXP); finish(ST_HORIZON); }
    int alt = 0;
    uint64_t key = comb(comb(S, cur ? cur->id + 1 : 0), comb(mc_policy, sched ? 7 : 9));
    if (R->devpos < T->ndev && T->dev[R->devpos].pos == p) {
        alt = T->dev[R->devpos].alt;
        if (alt >= n || (R->devpos == T->ndev - 1 && T->exp_hash && T->exp_hash != key)) { snprintf(R->msg, sizeof R->msg, "divergence at point %d (%s): alt %d of %d", p, label, alt, n); finish(ST_DIVERGED); }
        R->devpos++;
        R->used += cost;
    } else if (R->devpos >= T->ndev && V && n > 1) {
        // new territory: stop where an equivalent execution with at least as much budget has been
        if (!visit(V, key, mc_bound - R->used)) finish(ST_PRUNED);
    }
    R->pts[p].n = (uint16_t) n; R->pts[p].cost = (uint8_t) cost; R->pts[p].key = key; R->pts[p].alt = (uint16_t) alt;
    R->npoints++;
    if (mc_verbose && n > 1) printf("  #%d%s %s: %d of %d (t=%lld)\n", p, sched ? "" : " data", label, alt, n, (long long) (now_ms - 1700000000000LL));
    return alt;
}
int mc_choose(int n, int cost, const char *label) {
    if (n <= 1) return 0;
    int a = point(n, cost, label, false);
    if (cur) { cur->h = comb(cur->h, 77 + a); S += mix64(cur->h); }
    return a;
}
static int faults_used; int mc_faulted;   // the kinds that happened
int mc_fault(int bit, const char *label) {
    if (!(mc_cfg.faults & bit)) return 0;
    if (cur && cur->env) return 0;
    if (faults_used >= (mc_cfg.max_faults ? mc_cfg.max_faults : 1)) return 0;
    char l[80]; snprintf(l, sizeof l, "fault:%s", label);
    int a = mc_choose(2, 1, l);
    if (a) { faults_used++; mc_faulted |= bit; char h[64]; snprintf(h, sizeof h, "fault %s", label); mc_hit(h); mc_outcome("!%s ", label); }
    return a;
}
int mc_oom(size_t n) {
    if (!mc_cfg.oom || (cur && cur->env)) return 0;
    if (faults_used >= (mc_cfg.max_faults ? mc_cfg.max_faults : 1)) return 0;
    char l[120]; snprintf(l, sizeof l, "oom:%s", cur && cur->sp ? mc_sym(cur->pcs[cur->sp - 1]) : "?");
    int a = mc_choose(2, 1, l);
    if (a) { faults_used++; mc_hit("failed allocation"); mc_outcome("!oom "); if (cur->sp > 1) { snprintf(l, sizeof l, "oom:%s", mc_sym(cur->pcs[cur->sp - 1])); } }
    return a;
}

void mc_event(uint64_t obj, uint64_t op) {
    if (!cur) return;
    uint64_t *o = objh(obj);
    uint64_t h = comb(comb(cur->h, *o), op);
    cur->h = h; *o = h; S += mix64(h);
    R->steps++;
}

// ------------------------------------------------------------------ scheduler
static bool enabled(struct thr *t) {
    if (t->state == TS_DONE || t->state == TS_NONE) return false;
    if (t->timed_out || t->sigs & ~t->sigmask) return true;
    return t->pred == NULL || t->pred(t->parg);
}
static void switch_to(struct thr *t) {
    struct thr *old = cur;
    if (t == old) return;
    cur = t;
    swapcontext(old ? &old->ctx : &main_ctx, &t->ctx);
}
static int order(int *out) {   // enabled threads in the order of the policy
    int n = 0, k = 0, tmp[MAXT], c = cur ? cur->id : -1;
    bool curen = cur && enabled(cur);
    switch (mc_policy) {
        default:
        case 0: if (curen) out[n++] = c; for (int i = 0; i < nthr; i++) if (!(curen && i == c) && enabled(&thrs[i])) out[n++] = i; break;
        case 1: if (curen) out[n++] = c; for (int i = nthr - 1; i >= 0; i--) if (!(curen && i == c) && enabled(&thrs[i])) out[n++] = i; break;
        case 2: if (curen) out[n++] = c; for (int j = 1; j <= nthr; j++) { int i = (c + j + nthr) % nthr; if (i != c && enabled(&thrs[i])) out[n++] = i; } break;
        case 3: for (int i = nthr - 1; i >= 0; i--) if (enabled(&thrs[i])) out[n++] = i; break;   // youngest first
        case 4: for (int i = 0; i < nthr; i++) if (enabled(&thrs[i])) out[n++] = i; break;        // oldest first
        case 5: // environment first
            for (int i = 0; i < nthr; i++) if (enabled(&thrs[i])) { if (thrs[i].env) out[n++] = i; else tmp[k++] = i; }
            for (int i = 0; i < k; i++) out[n++] = tmp[i];
            break;
        case 6: // environment last
            for (int i = 0; i < nthr; i++) if (enabled(&thrs[i])) { if (!thrs[i].env) out[n++] = i; else tmp[k++] = i; }
            for (int i = 0; i < k; i++) out[n++] = tmp[i];
            break;
    }
    return n;
}
static void report_deadlock(const char *what, int kind) {
    char msg[1000]; int l = snprintf(msg, sizeof msg, "%s:", what);
    for (int i = 0; i < nthr && l < 800; i++) if (thrs[i].state == TS_LIVE) {
        char st[300]; stack_str(&thrs[i], st, sizeof st);
        if (thrs[i].env) continue;
        l += snprintf(msg + l, sizeof msg - l, " {%s in %s at %s}", thrs[i].name, thrs[i].label ? thrs[i].label : "-", st);
    }
    for (int i = 0; i < nthr && l < 900; i++) if (thrs[i].state == TS_LIVE && thrs[i].env)
        l += snprintf(msg + l, sizeof msg - l, " {env %s in %s}", thrs[i].name, thrs[i].label ? thrs[i].label : "-");
    mc_fail(kind, NULL, "%s", msg);
    finish(ST_HORIZON);
}
static void schedule(void) {
    for (;;) {
        int ord[2 * MAXT + 2], n = order(ord), sched_n = n;
        if (n == 0) {
            // quiescent: time passes until the earliest deadline
            struct thr *best = NULL;
            for (int i = 0; i < nthr; i++) if (thrs[i].state == TS_LIVE && thrs[i].deadline >= 0 && (!best || thrs[i].deadline < best->deadline)) best = &thrs[i];
            if (!best) report_deadlock("deadlock", K_DEADLOCK);
            if (best->deadline > now_ms) now_ms = best->deadline;
            best->timed_out = true;
            S += mix64(comb(now_ms, best->id));
            if (!best->env_sleep && ++timeouts_fired > (mc_cfg.max_timeouts ? mc_cfg.max_timeouts : 40)) report_deadlock("no progress: only timeouts happen", K_HANG);
            continue;
        }
        if (mc_cfg.dev_timeouts)
            for (int i = 0; i < nthr; i++) if (thrs[i].state == TS_LIVE && !thrs[i].timed_out && thrs[i].deadline >= 0 && !thrs[i].env && !enabled(&thrs[i])) ord[n++] = i;
        int a = n > 1 ? point(n, 1, cur && cur->label ? cur->label : "start", true) : 0;
        struct thr *t = &thrs[ord[a]];
        if (a >= sched_n) { t->timed_out = true; S += mix64(comb(now_ms + 5, t->id)); if (t->deadline > now_ms) now_ms = t->deadline; mc_hit("early timeout"); }
        if (mc_verbose && t != cur) printf("      -> %s%s (%s)\n", t->name, a >= sched_n ? " times out" : "", t->label ? t->label : "start");
        switch_to(t);
        return;
    }
}
static void mc_handle(int sig);
// one visible operation: waits until pred holds; false when the deadline passed first
bool mc_op(bool (*pred)(void *), void *arg, int64_t deadline_ms, const char *label) {
    if (!in_mc) return true;
    struct thr *me = cur;
    for (;;) {
        me->pred = pred; me->parg = arg; me->deadline = deadline_ms; me->timed_out = false; me->label = label;
        schedule();
        uint64_t sigs = me->sigs & ~me->sigmask;
        if (!sigs) break;
        // a signal is handled on the way
        int sig = __builtin_ctzll(sigs); bool was = me->timed_out;
        me->sigs &= ~(1ull << sig);
        me->pred = NULL; me->deadline = -1; me->timed_out = false; me->label = NULL;
        me->h = comb(me->h, 0x516 + sig); S += mix64(me->h);
        mc_handle(sig);
        me->timed_out = was;
        if (was) break;
    }
    bool to = me->timed_out;
    if (to && pred && pred(arg)) to = false;
    me->pred = NULL; me->deadline = -1; me->timed_out = false; me->label = NULL;
    me->h = comb(me->h, to ? 0x7143 : 0x7142); S += mix64(me->h);
    return !to;
}
void mc_yield(const char *label) { mc_op(NULL, NULL, -1, label); }
static bool never(void *a) { (void) a; return false; }
void mc_sleep(int64_t ms) { cur->env_sleep = cur->env; mc_op(never, NULL, now_ms + ms, "sleep"); cur->env_sleep = false; }

static void vc_join(uint32_t *a, const uint32_t *b) { for (int i = 0; i < MAXT; i++) if (b[i] > a[i]) a[i] = b[i]; }

static void thread_exit(void *ret) {
    cur->ret = ret;
    mc_event((uint64_t) cur->id + 0x7000, 0xE);
    cur->state = TS_DONE;
    cur->pred = NULL; cur->label = "exit";
    cur->sp = 0;
    schedule();
    abort();
}
static void tramp(void) { thread_exit(cur->fn(cur->arg)); }
#define STACK (512 * 1024)
static struct thr *new_thread(const char *name, void *(*fn)(void *), void *arg, bool env) {
    if (nthr >= MAXT) { fprintf(stderr, "too many threads\n"); finish(ST_ERROR); }
    struct thr *t = &thrs[nthr];
    memset(t, 0, sizeof *t);
    t->id = nthr; t->fn = fn; t->arg = arg; t->env = env; t->state = TS_LIVE; t->deadline = -1; t->label = "start";
    snprintf(t->name, sizeof t->name, "%s", name);
    t->stack = mmap(NULL, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    getcontext(&t->ctx);
    t->ctx.uc_stack.ss_sp = t->stack; t->ctx.uc_stack.ss_size = STACK; t->ctx.uc_link = NULL;
    makecontext(&t->ctx, tramp, 0);
    t->vc[t->id] = 1;
    if (cur) {
        vc_join(t->vc, cur->vc);
        t->vc[t->id]++;
        cur->vc[cur->id]++;
        mc_event((uint64_t) t->id + 0x7000, 0xC);
        t->h = comb(cur->h, 0xBEEF);
    }
    nthr++;
    return t;
}
int mc_spawn(const char *name, void *(*fn)(void *), void *arg) { return new_thread(name, fn, arg, true)->id; }
static bool thr_done(void *a) { return ((struct thr *) a)->state == TS_DONE; }
void mc_wait_thread(int id) { mc_op(thr_done, &thrs[id], -1, "wait for thread"); vc_join(cur->vc, thrs[id].vc); mc_event((uint64_t) id + 0x7000, 0xF); }
bool mc_thread_done(int id) { return thrs[id].state == TS_DONE; }
int mc_live_server_threads(void) { int n = 0; for (int i = 1; i < nthr; i++) if (!thrs[i].env && thrs[i].state == TS_LIVE) n++; return n; }

// ------------------------------------------------------------------ heap
#define ARENA_SZ (256u << 20)
#define LARGEST (32u << 20)
static char *arena; static size_t atop = 64;
static uint8_t *ast;                 // state of each arena byte: 0 none, 1 live, 2 freed
struct cell { uint32_t w, r; };
static struct cell *acell, *gcell;   // race cells for heap and globals
extern char __data_start, _end;
struct alloc { uint32_t off, size; uint8_t live, ignore; void *pc[3]; };
static struct alloc *allocs; static int nallocs; static long live_allocs;
#define MAXALLOC 1000000
#define REDZ 32

void mc_mem_init(void) {
    arena = mmap((void *) 0x200000000000, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    ast = mmap(NULL, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    acell = mmap(NULL, sizeof(struct cell) * (size_t) ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    gcell = mmap(NULL, sizeof(struct cell) * (size_t) (&_end - &__data_start + 16), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    allocs = mmap(NULL, sizeof(struct alloc) * MAXALLOC, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (arena == MAP_FAILED || ast == MAP_FAILED || acell == MAP_FAILED || gcell == MAP_FAILED) { perror("mmap"); _exit(9); }
}
static struct alloc *find_alloc(uint32_t off) {   // last allocation starting at or before off
    int lo = 0, hi = nallocs;
    if (!nallocs) return NULL;
    while (hi - lo > 1) { int mid = (lo + hi) / 2; if (allocs[mid].off <= off) lo = mid; else hi = mid; }
    return &allocs[lo];
}
static const char *alloc_desc(struct alloc *a) {
    static char b[240];
    if (!a) return "?";
    snprintf(b, sizeof b, "block of %u bytes allocated in %s<-%s", a->size, mc_sym(a->pc[0]), mc_sym(a->pc[1]));
    return b;
}
static void *heap_alloc(size_t n, size_t align) {
    if (n > LARGEST) return NULL;
    size_t off = (atop + REDZ + align - 1) / align * align;
    if (off + n + REDZ > ARENA_SZ || nallocs >= MAXALLOC) return NULL;
    struct alloc *a = &allocs[nallocs++];
    a->off = (uint32_t) off; a->size = (uint32_t) n; a->live = 1;
    for (int i = 0; i < 3; i++) a->pc[i] = cur && cur->sp > i ? cur->pcs[cur->sp - 1 - i] : NULL;
    memset(ast + off, 1, n);
    memset(arena + off, 0xBE, n);
    // at least one byte apart
    atop = off + (n ? n : 1);
    live_allocs++;
    return arena + off;
}
long mc_live_allocs(void) { return live_allocs; }
void mc_ignore_live_allocs(void) { for (int i = 0; i < nallocs; i++) if (allocs[i].live) { allocs[i].ignore = 1; } }

// ------------------------------------------------------------------ race detector (FastTrack)
#define EP(t) (((uint32_t) (t)->id << 26) | ((t)->vc[(t)->id] & 0x3ffffff))
#define EPT(e) ((e) >> 26)
#define EPC(e) ((e) & 0x3ffffff)
#define SHARED 0xF8000000u
static uint32_t (*rvcs)[MAXT]; static int nrvc;
int mc_races_on = 1;
// Places that take part in a race become scheduling points: the explorer collects them and starts the level again,
// so that what a missing lock leads to is explored and not only that it is missing.
uint32_t mc_racy[MAXRACY]; int mc_nracy;
static bool is_racy(void *pc) { for (int i = 0; i < mc_nracy; i++) if (mc_racy[i] == (uint32_t) (uintptr_t) pc) return true; return false; }
static void racy_point(void *p, int write, void *pc) {
    if (!in_mc || !cur || !is_racy(pc)) return;
    mc_yield("racing access");
    mc_event((uint64_t) p, write ? 96 : 95);
}
static void race(struct thr *t, int other, int write, int oldwrite, void *addr, void *pc) {
    bool known = is_racy(pc);
    if (!known && R->nracy < MAXRACY) { int i = 0; while (i < R->nracy && R->racy[i] != (uint32_t) (uintptr_t) pc) i++; if (i == R->nracy) R->racy[R->nracy++] = (uint32_t) (uintptr_t) pc; }
    if (!(mc_mask & K_RACE) && !mc_verbose) { R->ignored++; return; }
    char st[300]; stack_str(t, st, sizeof st);
    struct alloc *a = NULL;
    if ((char *) addr >= arena && (char *) addr < arena + ARENA_SZ) a = find_alloc((uint32_t) ((char *) addr - arena));
    mc_fail(K_RACE, NULL, "data race: %s by %s in %s (%s) conflicts with an earlier %s by %s; %s", write ? "write" : "read", t->name, mc_sym(pc), st, oldwrite ? "write" : "read", thrs[other].name, a ? alloc_desc(a) : "global");
}
static void race_check(struct cell *c, int write, void *addr, void *pc) {
    struct thr *t = cur;
    uint32_t e = EP(t);
    if (write) {
        if (c->w == e) return;
        if (c->w && EPC(c->w) > t->vc[EPT(c->w)]) race(t, EPT(c->w), 1, 1, addr, pc);
        if (c->r) {
            if (c->r >= SHARED) {
                uint32_t *v = rvcs[c->r - SHARED];
                for (int i = 0; i < nthr; i++) if (v[i] > t->vc[i]) { race(t, i, 1, 0, addr, pc); break; }
            } else if (EPC(c->r) > t->vc[EPT(c->r)]) race(t, EPT(c->r), 1, 0, addr, pc);
        }
        c->w = e; c->r = 0;
    } else {
        if (c->r == e) return;
        if (c->w && EPC(c->w) > t->vc[EPT(c->w)]) race(t, EPT(c->w), 0, 1, addr, pc);
        if (c->r == 0 || (c->r < SHARED && EPC(c->r) <= t->vc[EPT(c->r)])) { c->r = e; return; }
        if (c->r < SHARED) {
            if (!rvcs) rvcs = mmap(NULL, sizeof(*rvcs) * 1000000, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (nrvc >= 999999) return;
            int k = nrvc++;
            memset(rvcs[k], 0, sizeof rvcs[k]);
            rvcs[k][EPT(c->r)] = EPC(c->r);
            c->r = SHARED + k;
        }
        rvcs[c->r - SHARED][t->id] = t->vc[t->id];
    }
}
void mc_access(void *p, size_t n, int write, void *pc) {
    char *a = p;
    if (!in_mc || !cur || n == 0) return;
    if (a >= arena && a < arena + ARENA_SZ) {
        size_t off = a - arena;
        for (size_t i = 0; i < n; i++) {
            if (off + i >= ARENA_SZ || ast[off + i] != 1) {
                struct alloc *al = find_alloc((uint32_t) (off + i));
                char st[300]; stack_str(cur, st, sizeof st);
                if (al && ast[off + i] == 2) mc_fail(K_MEM, NULL, "use after free: %s in %s (%s) of a freed %s", write ? "write" : "read", mc_sym(pc), st, alloc_desc(al));
                else mc_fail(K_MEM, NULL, "out of bounds: %s of %zu bytes in %s (%s), %ld bytes after the start of a %s", write ? "write" : "read", n, mc_sym(pc), st, al ? (long) (off - al->off) : -1L, alloc_desc(al));
                return;
            }
        }
        if (mc_races_on) for (size_t i = 0; i < n; i++) race_check(&acell[off + i], write, a + i, pc);
    } else if (a >= &__data_start && a + n <= &_end) {
        size_t off = a - &__data_start;
        if (mc_races_on) for (size_t i = 0; i < n; i++) race_check(&gcell[off + i], write, a + i, pc);
    }
}
// release / acquire on a synchronisation object
struct sync { uint64_t k; uint32_t vc[MAXT]; };
static struct sync *syncs; static int nsync_sz = 4096;
static struct sync *sync_get(uint64_t k) {
    if (!syncs) syncs = mmap(NULL, sizeof(struct sync) * nsync_sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    uint64_t i = mix64(k) % nsync_sz;
    while (syncs[i].k && syncs[i].k != k) i = (i + 1) % nsync_sz;
    syncs[i].k = k;
    return &syncs[i];
}
void mc_release(uint64_t k) { if (!cur) return; vc_join(sync_get(k)->vc, cur->vc); cur->vc[cur->id]++; }
void mc_acquire(uint64_t k) { if (!cur) return; vc_join(cur->vc, sync_get(k)->vc); }

void *mc_malloc_at(size_t n, size_t align) {
    if (!in_mc) return heap_alloc(n, align);
    if (mc_oom(n)) { errno = ENOMEM; return NULL; }
    return heap_alloc(n, align);
}
void *mcw_malloc(size_t n) { return mc_malloc_at(n, 16); }
void *mcw_calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) return NULL; void *p = mc_malloc_at(n, 16); if (p) memset(p, 0, n); return p; }
void *mcw_aligned_alloc(size_t al, size_t n) { return mc_malloc_at(n, al); }
int mcw_posix_memalign(void **p, size_t al, size_t n) { void *q = mc_malloc_at(n, al); if (!q) return ENOMEM; *p = q; return 0; }
void mcw_free(void *p) {
    if (!p) return;
    char *a = p;
    char st[300]; st[0] = 0; if (cur) stack_str(cur, st, sizeof st);
    if (a < arena || a >= arena + ARENA_SZ) { mc_fail(K_MEM, NULL, "free of a pointer that was not allocated (%s)", st); return; }
    size_t off = a - arena;
    struct alloc *al = find_alloc((uint32_t) off);
    if (!al || al->off != off) { mc_fail(K_MEM, NULL, "free of an interior pointer (%s) of a %s", st, alloc_desc(al)); return; }
    if (!al->live) { mc_fail(K_MEM, NULL, "double free (%s) of a %s", st, alloc_desc(al)); return; }
    if (in_mc && cur) mc_access(p, al->size, 1, cur->sp ? cur->pcs[cur->sp - 1] : NULL);
    al->live = 0; live_allocs--;
    memset(ast + off, 2, al->size);
    memset(p, 0xDE, al->size);
}
void *mcw_realloc(void *p, size_t n) {
    void *q = mc_malloc_at(n, 16);
    if (!q) return NULL;
    if (p) {
        struct alloc *al = find_alloc((uint32_t) ((char *) p - arena));
        memcpy(q, p, al->size < n ? al->size : n);
        mcw_free(p);
    }
    return q;
}
char *mcw_strdup(const char *s) { size_t n = strlen(s) + 1; mc_access((void *) s, n, 0, __builtin_return_address(0)); char *p = mcw_malloc(n); if (p) { memcpy(p, s, n); mc_access(p, n, 1, __builtin_return_address(0)); } return p; }
char *mcw_strndup(const char *s, size_t k) { size_t n = strnlen(s, k); char *p = mcw_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
void *mcw_volk_malloc(size_t n, size_t al) { return mc_malloc_at(n, al < 16 ? 16 : al); }
void mcw_volk_free(void *p) { mcw_free(p); }
size_t mcw_volk_get_alignment(void) { return 32; }

void mc_check_leaks(int what) {
    if (what & K_LEAKTHR) for (int i = 1; i < nthr; i++) if (!thrs[i].env) {
        if (thrs[i].state == TS_LIVE) { char st[300]; stack_str(&thrs[i], st, sizeof st); mc_fail(K_LEAKTHR, NULL, "thread %s still runs after the end: in %s at %s", thrs[i].name, thrs[i].label ? thrs[i].label : "-", st); }
        else if (!thrs[i].joined && !thrs[i].detached) mc_fail(K_LEAKTHR, NULL, "thread %s was never joined", thrs[i].name);
    }
    if (what & K_LEAKFD) mc_check_fd_leaks();
    if (what & K_LEAKMEM) for (int i = 0; i < nallocs; i++) if (allocs[i].live && !allocs[i].ignore) mc_fail(K_LEAKMEM, NULL, "memory leak: %s<-%s never freed", alloc_desc(&allocs[i]), mc_sym(allocs[i].pc[2]));
}

// ------------------------------------------------------------------ compiler hooks
void __tsan_init(void) {}
void __tsan_func_entry(void *pc) { (void) pc; if (cur && in_mc) { if (cur->sp < MAXSTK) cur->pcs[cur->sp] = __builtin_return_address(0); cur->sp++; } }
void __tsan_func_exit(void) { if (cur && in_mc && cur->sp > 0) cur->sp--; }
#define RA __builtin_return_address(0)
#define RACY(p, w) do { if (__builtin_expect(mc_nracy, 0)) racy_point(p, w, RA); } while (0)
#define RW(n) \
    void __tsan_read##n(void *p) { RACY(p, 0); mc_access(p, n, 0, RA); } \
    void __tsan_write##n(void *p) { RACY(p, 1); mc_access(p, n, 1, RA); } \
    void __tsan_unaligned_read##n(void *p) { RACY(p, 0); mc_access(p, n, 0, RA); } \
    void __tsan_unaligned_write##n(void *p) { RACY(p, 1); mc_access(p, n, 1, RA); } \
    void __tsan_volatile_read##n(void *p) { mc_yield("volatile read"); mc_event((uint64_t) p, 21); } \
    void __tsan_volatile_write##n(void *p) { mc_yield("volatile write"); mc_event((uint64_t) p, 22); } \
    void __tsan_unaligned_volatile_read##n(void *p) { (void) p; } \
    void __tsan_unaligned_volatile_write##n(void *p) { (void) p; }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, long n) { RACY(p, 0); mc_access(p, n, 0, RA); }
void __tsan_write_range(void *p, long n) { RACY(p, 1); mc_access(p, n, 1, RA); }
void __tsan_vptr_update(void **p, void *v) { (void) p; (void) v; }
void __tsan_vptr_read(void **p) { (void) p; }
static void at_check(void *p, size_t n, void *pc) {   // atomics: no race among themselves, but must be live memory
    int r = mc_races_on; mc_races_on = 0; mc_access(p, n, 0, pc); mc_races_on = r;
}
#define ATOM(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T *p, int mo) { (void) mo; mc_yield("atomic load"); at_check((void *) p, sizeof(T), RA); mc_acquire((uint64_t) p); mc_event((uint64_t) p, 1); return *p; } \
    void __tsan_atomic##bits##_store(volatile T *p, T v, int mo) { (void) mo; mc_yield("atomic store"); at_check((void *) p, sizeof(T), RA); mc_release((uint64_t) p); *p = v; mc_event((uint64_t) p, 2); } \
    T __tsan_atomic##bits##_exchange(volatile T *p, T v, int mo) { (void) mo; mc_yield("atomic xchg"); at_check((void *) p, sizeof(T), RA); mc_acquire((uint64_t) p); mc_release((uint64_t) p); T o = *p; *p = v; mc_event((uint64_t) p, 3); return o; } \
    T __tsan_atomic##bits##_fetch_add(volatile T *p, T v, int mo) { (void) mo; mc_yield("atomic add"); at_check((void *) p, sizeof(T), RA); mc_acquire((uint64_t) p); mc_release((uint64_t) p); T o = *p; *p = o + v; mc_event((uint64_t) p, 4); return o; } \
    T __tsan_atomic##bits##_fetch_sub(volatile T *p, T v, int mo) { (void) mo; mc_yield("atomic sub"); at_check((void *) p, sizeof(T), RA); mc_acquire((uint64_t) p); mc_release((uint64_t) p); T o = *p; *p = o - v; mc_event((uint64_t) p, 5); return o; } \
    T __tsan_atomic##bits##_fetch_and(volatile T *p, T v, int mo) { (void) mo; mc_yield("atomic and"); at_check((void *) p, sizeof(T), RA); mc_acquire((uint64_t) p); mc_release((uint64_t) p); T o = *p; *p = o & v; mc_event((uint64_t) p, 6); return o; } \
    T __tsan_atomic##bits##_fetch_or(volatile T *p, T v, int mo) { (void) mo; mc_yield("atomic or"); at_check((void *) p, sizeof(T), RA); mc_acquire((uint64_t) p); mc_release((uint64_t) p); T o = *p; *p = o | v; mc_event((uint64_t) p, 7); return o; } \
    T __tsan_atomic##bits##_fetch_xor(volatile T *p, T v, int mo) { (void) mo; mc_yield("atomic xor"); at_check((void *) p, sizeof(T), RA); mc_acquire((uint64_t) p); mc_release((uint64_t) p); T o = *p; *p = o ^ v; mc_event((uint64_t) p, 8); return o; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *e, T v, int mo, int fmo) { (void) mo; (void) fmo; mc_yield("atomic cas"); at_check((void *) p, sizeof(T), RA); mc_acquire((uint64_t) p); mc_release((uint64_t) p); mc_event((uint64_t) p, 9); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *e, T v, int mo, int fmo) { return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, mo, fmo); } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T e, T v, int mo, int fmo) { __tsan_atomic##bits##_compare_exchange_strong(p, &e, v, mo, fmo); return e; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { (void) mo; }
void __tsan_atomic_signal_fence(int mo) { (void) mo; }

// ------------------------------------------------------------------ pthread
#undef errno
extern int *__errno_location(void);
int *mcw___errno_location(void) { return cur ? &cur->err : __errno_location(); }
#define errno (*mcw___errno_location())
int mcw_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
    (void) a;
    if (mc_fault(FAULT_THREAD, "pthread_create")) return EAGAIN;
    char name[48]; snprintf(name, sizeof name, "%s#%d", mc_sym((void *) fn), nthr);
    struct thr *n = new_thread(name, fn, arg, false);
    if (a) { int d = 0; pthread_attr_getdetachstate(a, &d); if (d == PTHREAD_CREATE_DETACHED) n->detached = 1; }
    mc_access(t, sizeof *t, 1, RA);
    *t = 1000 + n->id;
    mc_yield("after pthread_create");
    return 0;
}
int mcw_pthread_join(pthread_t t, void **ret) {
    if (t < 1000 || t >= 1000u + nthr) { if (mc_verbose) mc_note("join of no thread (%lu)", (unsigned long) t); return ESRCH; }
    struct thr *x = &thrs[t - 1000];
    char st[300]; stack_str(cur, st, sizeof st);
    if (x->joined || x->detached || x->env) { mc_fail(K_JOIN, NULL, "thread joined twice or after detach: %s in %s", x->name, st); return EINVAL; }
    if (x == cur) { mc_fail(K_JOIN | K_DEADLOCK, NULL, "thread joins itself: %s in %s", x->name, st); return EDEADLK; }
    x->joined = 1;
    mc_op(thr_done, x, -1, "pthread_join");
    vc_join(cur->vc, x->vc);
    mc_event((uint64_t) x->id + 0x7000, 0xA);
    if (ret) *ret = x->ret;
    return 0;
}
int mcw_pthread_detach(pthread_t t) { if (t < 1000 || t >= 1000u + nthr) return ESRCH; thrs[t - 1000].detached = 1; return 0; }
pthread_t mcw_pthread_self(void) { return 1000 + cur->id; }
int mcw_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
void mcw_pthread_exit(void *r) { thread_exit(r); abort(); }
// mutexes, identified by address
struct mtx { void *p; int owner, count, recursive; };   // owner -1: free
static struct mtx mtxs[512]; static int nmtx;
static struct mtx *mtx(void *p) {
    for (int i = 0; i < nmtx; i++) if (mtxs[i].p == p) return &mtxs[i];
    if (nmtx >= 512) finish(ST_ERROR);
    mtxs[nmtx] = (struct mtx) {p, -1, 0, 0};
    return &mtxs[nmtx++];
}
static bool mtx_free(void *a) { return ((struct mtx *) a)->owner < 0; }
static void m_touch(void *p, void *pc) { int r = mc_races_on; mc_races_on = 0; mc_access(p, 8, 0, pc); mc_races_on = r; }
int mcw_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { struct mtx *x = mtx(m); x->owner = -1; x->count = 0; x->recursive = 0; if (a) { int ty = 0; pthread_mutexattr_gettype(a, &ty); x->recursive = ty == PTHREAD_MUTEX_RECURSIVE; } mc_access(m, sizeof *m, 1, RA); return 0; }
int mcw_pthread_mutex_destroy(pthread_mutex_t *m) {
    struct mtx *x = mtx(m);
    if (x->owner >= 0) { char st[300]; stack_str(cur, st, sizeof st); mc_fail(K_MEM, NULL, "destroying a locked mutex in %s", st); }
    return 0;
}
int mcw_pthread_mutex_lock(pthread_mutex_t *m) {
    struct mtx *x = mtx(m);
    m_touch(m, RA);
    if (x->owner == cur->id && x->recursive) { x->count++; return 0; }
    mc_op(mtx_free, x, -1, "mutex_lock");
    m_touch(m, RA);
    x->owner = cur->id; x->count = 1;
    mc_acquire((uint64_t) m);
    mc_event((uint64_t) m, 10);
    return 0;
}
int mcw_pthread_mutex_trylock(pthread_mutex_t *m) {
    struct mtx *x = mtx(m);
    m_touch(m, RA);
    mc_yield("mutex_trylock");
    mc_event((uint64_t) m, 11);
    if (x->owner >= 0) return EBUSY;
    x->owner = cur->id; x->count = 1;
    mc_acquire((uint64_t) m);
    return 0;
}
int mcw_pthread_mutex_unlock(pthread_mutex_t *m) {
    struct mtx *x = mtx(m);
    m_touch(m, RA);
    if (x->owner != cur->id) { char st[300]; stack_str(cur, st, sizeof st); mc_fail(K_MEM, NULL, "unlock of a mutex that the thread does not hold in %s", st); return EPERM; }
    if (--x->count > 0) return 0;
    x->owner = -1;
    mc_release((uint64_t) m);
    mc_event((uint64_t) m, 12);
    return 0;
}
// condition variables: waiters carry a flag
static bool cond_ready(void *a) { struct thr *t = a; return t->signaled && mtx_free(t->cmtx); }
static int nspurious;
static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, int64_t deadline) {
    struct mtx *x = mtx(m);
    struct thr *me = cur;
    mc_yield("before cond_wait");   // a signal without the mutex is lost here
    m_touch(c, RA); m_touch(m, RA);
    if (x->owner != me->id) { mc_fail(K_MEM, NULL, "pthread_cond_wait without holding the mutex"); return EPERM; }
    int cnt = x->count;
    x->owner = -1; x->count = 0;
    mc_release((uint64_t) m);
    mc_event((uint64_t) m, 13);
    mc_event((uint64_t) c, 14);
    me->signaled = false; me->cmtx = x; me->cond = c;
    if (nspurious < mc_cfg.spurious && mc_choose(2, 1, "spurious wakeup")) { nspurious++; me->signaled = true; }
    bool ok = mc_op(cond_ready, me, deadline, "cond_wait");
    if (!ok) { me->cond = NULL; mc_op(mtx_free, x, -1, "cond_wait relock"); }
    me->cond = NULL;
    m_touch(m, RA);
    x->owner = me->id; x->count = cnt;
    mc_acquire((uint64_t) m);
    mc_event((uint64_t) c, 15);
    mc_event((uint64_t) m, 16);
    return ok ? 0 : ETIMEDOUT;
}
int mcw_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return cond_wait(c, m, -1); }
int mcw_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) { return cond_wait(c, m, (int64_t) ts->tv_sec * 1000 + ts->tv_nsec / 1000000); }
int mcw_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { (void) a; mc_access(c, sizeof *c, 1, RA); return 0; }
int mcw_pthread_cond_destroy(pthread_cond_t *c) {
    for (int i = 0; i < nthr; i++) if (thrs[i].state == TS_LIVE && thrs[i].cond == c && !thrs[i].signaled) mc_fail(K_MEM, NULL, "destroying a condition variable that %s waits on", thrs[i].name);
    return 0;
}
int mcw_pthread_cond_broadcast(pthread_cond_t *c) {
    m_touch(c, RA);
    for (int i = 0; i < nthr; i++) if (thrs[i].state == TS_LIVE && thrs[i].cond == c) thrs[i].signaled = true;
    mc_event((uint64_t) c, 17);
    return 0;
}
int mcw_pthread_cond_signal(pthread_cond_t *c) {
    m_touch(c, RA);
    int w[MAXT], n = 0;
    for (int i = 0; i < nthr; i++) if (thrs[i].state == TS_LIVE && thrs[i].cond == c && !thrs[i].signaled) w[n++] = i;
    if (n) thrs[w[mc_choose(n, 1, "who is woken by cond_signal")]].signaled = true;
    mc_event((uint64_t) c, 18);
    return 0;
}
// read-write locks, semaphores, once
struct rwl { void *p; int w, r; }; static struct rwl rwls[64]; static int nrwl;
static struct rwl *rwl(void *p) { for (int i = 0; i < nrwl; i++) if (rwls[i].p == p) return &rwls[i]; rwls[nrwl] = (struct rwl) {p, 0, 0}; return &rwls[nrwl++]; }
static bool rw_canr(void *a) { return !((struct rwl *) a)->w; }
static bool rw_canw(void *a) { struct rwl *x = a; return !x->w && !x->r; }
int mcw_pthread_rwlock_init(pthread_rwlock_t *l, const void *a) { (void) a; rwl(l); return 0; }
int mcw_pthread_rwlock_destroy(pthread_rwlock_t *l) { (void) l; return 0; }
int mcw_pthread_rwlock_rdlock(pthread_rwlock_t *l) { struct rwl *x = rwl(l); mc_op(rw_canr, x, -1, "rdlock"); x->r++; mc_acquire((uint64_t) l); mc_event((uint64_t) l, 31); return 0; }
int mcw_pthread_rwlock_wrlock(pthread_rwlock_t *l) { struct rwl *x = rwl(l); mc_op(rw_canw, x, -1, "wrlock"); x->w = 1; mc_acquire((uint64_t) l); mc_event((uint64_t) l, 32); return 0; }
int mcw_pthread_rwlock_unlock(pthread_rwlock_t *l) { struct rwl *x = rwl(l); if (x->w) x->w = 0; else x->r--; mc_release((uint64_t) l); mc_event((uint64_t) l, 33); return 0; }
struct smx { void *p; int v; }; static struct smx smxs[64]; static int nsmx;
static struct smx *smx(void *p) { for (int i = 0; i < nsmx; i++) if (smxs[i].p == p) return &smxs[i]; smxs[nsmx] = (struct smx) {p, 0}; return &smxs[nsmx++]; }
static bool sm_ok(void *a) { return ((struct smx *) a)->v > 0; }
int mcw_sem_init(sem_t *s, int sh, unsigned v) { (void) sh; smx(s)->v = (int) v; return 0; }
int mcw_sem_destroy(sem_t *s) { (void) s; return 0; }
int mcw_sem_wait(sem_t *s) { struct smx *x = smx(s); mc_op(sm_ok, x, -1, "sem_wait"); x->v--; mc_acquire((uint64_t) s); mc_event((uint64_t) s, 34); return 0; }
int mcw_sem_trywait(sem_t *s) { struct smx *x = smx(s); mc_yield("sem_trywait"); mc_event((uint64_t) s, 36); if (x->v <= 0) { errno = EAGAIN; return -1; } x->v--; mc_acquire((uint64_t) s); return 0; }
int mcw_sem_post(sem_t *s) { struct smx *x = smx(s); x->v++; mc_release((uint64_t) s); mc_event((uint64_t) s, 35); return 0; }
int mcw_pthread_once(pthread_once_t *o, void (*fn)(void)) { struct smx *x = smx(o); if (!x->v) { x->v = 1; fn(); } mc_acquire((uint64_t) o); mc_release((uint64_t) o); return 0; }
int mcw_sched_yield(void) { mc_yield("sched_yield"); return 0; }

// ------------------------------------------------------------------ memory functions of libc
void *mcw_memcpy(void *d, const void *s, size_t n) {
    mc_access((void *) s, n, 0, RA); mc_access(d, n, 1, RA);
    if (n && d != s && ((char *) d < (const char *) s + n && (const char *) s < (char *) d + n)) mc_fail(K_MEM, NULL, "memcpy of overlapping ranges in %s", mc_sym(RA));
    return memmove(d, s, n);
}
void *mcw_memmove(void *d, const void *s, size_t n) { mc_access((void *) s, n, 0, RA); mc_access(d, n, 1, RA); return memmove(d, s, n); }
void *mcw_memset(void *d, int c, size_t n) { mc_access(d, n, 1, RA); return memset(d, c, n); }
int mcw_memcmp(const void *a, const void *b, size_t n) { mc_access((void *) a, n, 0, RA); mc_access((void *) b, n, 0, RA); return memcmp(a, b, n); }
size_t mcw_strlen(const char *s) { size_t n = strlen(s); mc_access((void *) s, n + 1, 0, RA); return n; }
char *mcw_strncpy(char *d, const char *s, size_t n) { size_t l = strnlen(s, n); mc_access((void *) s, l < n ? l + 1 : n, 0, RA); mc_access(d, n, 1, RA); return strncpy(d, s, n); }
char *mcw_strcpy(char *d, const char *s) { size_t l = strlen(s) + 1; mc_access((void *) s, l, 0, RA); mc_access(d, l, 1, RA); return strcpy(d, s); }
int mcw_strcmp(const char *a, const char *b) { return strcmp(a, b); }
int mcw_strncmp(const char *a, const char *b, size_t n) { return strncmp(a, b, n); }

// ------------------------------------------------------------------ volk: scalar reference kernels with checks
#define CX float _Complex
static void k_dotf(float *r, const float *a, const float *b, unsigned n) { mc_access((void *) a, 4ul * n, 0, RA); mc_access((void *) b, 4ul * n, 0, RA); mc_access(r, 4, 1, RA); float s = 0; for (unsigned i = 0; i < n; i++) s += a[i] * b[i]; *r = s; }
static void k_dotcf(CX *r, const CX *a, const float *b, unsigned n) { mc_access((void *) a, 8ul * n, 0, RA); mc_access((void *) b, 4ul * n, 0, RA); mc_access(r, 8, 1, RA); CX s = 0; for (unsigned i = 0; i < n; i++) s += a[i] * b[i]; *r = s; }
static void k_mul(CX *r, const CX *a, const CX *b, unsigned n) { mc_access((void *) a, 8ul * n, 0, RA); mc_access((void *) b, 8ul * n, 0, RA); mc_access(r, 8ul * n, 1, RA); for (unsigned i = 0; i < n; i++) r[i] = a[i] * b[i]; }
static void k_mulc(CX *r, const CX *a, const CX *b, unsigned n) { mc_access((void *) a, 8ul * n, 0, RA); mc_access((void *) b, 8ul * n, 0, RA); mc_access(r, 8ul * n, 1, RA); for (unsigned i = 0; i < n; i++) r[i] = a[i] * conjf(b[i]); }
static void k_16f(float *r, const int16_t *a, const float s, unsigned n) { mc_access((void *) a, 2ul * n, 0, RA); mc_access(r, 4ul * n, 1, RA); for (unsigned i = 0; i < n; i++) r[i] = (float) a[i] / s; }
static void k_f16(int16_t *r, const float *a, const float s, unsigned n) { mc_access((void *) a, 4ul * n, 0, RA); mc_access(r, 2ul * n, 1, RA); for (unsigned i = 0; i < n; i++) { float x = a[i] * s; r[i] = x > 32767 ? 32767 : x < -32768 ? -32768 : (int16_t) rintf(x); } }
static void k_f8(int8_t *r, const float *a, const float s, unsigned n) { mc_access((void *) a, 4ul * n, 0, RA); mc_access(r, n, 1, RA); for (unsigned i = 0; i < n; i++) { float x = a[i] * s; r[i] = x > 127 ? 127 : x < -128 ? -128 : (int8_t) rintf(x); } }
#define VK(name, sig, k) sig = k; 
void (*mcw_volk_32f_x2_dot_prod_32f)(float *, const float *, const float *, unsigned) = k_dotf;
void (*mcw_volk_32f_x2_dot_prod_32f_a)(float *, const float *, const float *, unsigned) = k_dotf;
void (*mcw_volk_32f_x2_dot_prod_32f_u)(float *, const float *, const float *, unsigned) = k_dotf;
void (*mcw_volk_32fc_32f_dot_prod_32fc)(CX *, const CX *, const float *, unsigned) = k_dotcf;
void (*mcw_volk_32fc_32f_dot_prod_32fc_a)(CX *, const CX *, const float *, unsigned) = k_dotcf;
void (*mcw_volk_32fc_32f_dot_prod_32fc_u)(CX *, const CX *, const float *, unsigned) = k_dotcf;
void (*mcw_volk_32fc_x2_multiply_32fc)(CX *, const CX *, const CX *, unsigned) = k_mul;
void (*mcw_volk_32fc_x2_multiply_32fc_u)(CX *, const CX *, const CX *, unsigned) = k_mul;
void (*mcw_volk_32fc_x2_multiply_32fc_a)(CX *, const CX *, const CX *, unsigned) = k_mul;
void (*mcw_volk_32fc_x2_multiply_conjugate_32fc)(CX *, const CX *, const CX *, unsigned) = k_mulc;
void (*mcw_volk_32fc_x2_multiply_conjugate_32fc_u)(CX *, const CX *, const CX *, unsigned) = k_mulc;
void (*mcw_volk_32fc_x2_multiply_conjugate_32fc_a)(CX *, const CX *, const CX *, unsigned) = k_mulc;
void (*mcw_volk_16i_s32f_convert_32f)(float *, const int16_t *, const float, unsigned) = k_16f;
void (*mcw_volk_16i_s32f_convert_32f_u)(float *, const int16_t *, const float, unsigned) = k_16f;
void (*mcw_volk_16i_s32f_convert_32f_a)(float *, const int16_t *, const float, unsigned) = k_16f;
void (*mcw_volk_32f_s32f_convert_16i)(int16_t *, const float *, const float, unsigned) = k_f16;
void (*mcw_volk_32f_s32f_convert_16i_u)(int16_t *, const float *, const float, unsigned) = k_f16;
void (*mcw_volk_32f_s32f_convert_16i_a)(int16_t *, const float *, const float, unsigned) = k_f16;
void (*mcw_volk_32f_s32f_convert_8i)(int8_t *, const float *, const float, unsigned) = k_f8;
void (*mcw_volk_32f_s32f_convert_8i_u)(int8_t *, const float *, const float, unsigned) = k_f8;
void (*mcw_volk_32f_s32f_convert_8i_a)(int8_t *, const float *, const float, unsigned) = k_f8;

// ------------------------------------------------------------------ protobuf-c with our allocator
#include <protobuf-c/protobuf-c.h>
static void *pb_alloc(void *d, size_t n) { (void) d; return mcw_malloc(n); }
static void pb_free(void *d, void *p) { (void) d; mcw_free(p); }
static ProtobufCAllocator pb = {pb_alloc, pb_free, NULL};
ProtobufCMessage *mcw_protobuf_c_message_unpack(const ProtobufCMessageDescriptor *d, ProtobufCAllocator *a, size_t n, const uint8_t *data) {
    mc_access((void *) data, n, 0, RA);
    return protobuf_c_message_unpack(d, a ? a : &pb, n, data);
}
static void pb_touch(ProtobufCMessage *m) { if (m) mc_access(m, 8, 0, RA); }
void mcw_protobuf_c_message_free_unpacked(ProtobufCMessage *m, ProtobufCAllocator *a) { pb_touch(m); protobuf_c_message_free_unpacked(m, a ? a : &pb); }

// ------------------------------------------------------------------ time
time_t mcw_time(time_t *t) { time_t x = now_ms / 1000; if (t) *t = x; return x; }
int mcw_gettimeofday(struct timeval *tv, void *tz) { (void) tz; tv->tv_sec = now_ms / 1000; tv->tv_usec = now_ms % 1000 * 1000; return 0; }
int mcw_clock_gettime(clockid_t c, struct timespec *ts) { (void) c; ts->tv_sec = now_ms / 1000; ts->tv_nsec = now_ms % 1000 * 1000000; return 0; }
unsigned mcw_sleep(unsigned s) { mc_sleep((int64_t) s * 1000); return 0; }
int mcw_usleep(unsigned us) { mc_sleep((us + 999) / 1000); return 0; }
int mcw_nanosleep(const struct timespec *r, struct timespec *m) { (void) m; mc_sleep(r->tv_sec * 1000 + (r->tv_nsec + 999999) / 1000000); return 0; }
// process level
typedef void (*sigh)(int);
static struct { sigh h; bool once, nomask; } handlers[65];
static sigh set_handler(int sig, sigh h, bool once, bool nomask) {
    mc_yield("signal()");
    sigh o = handlers[sig].h; handlers[sig].h = h; handlers[sig].once = once; handlers[sig].nomask = nomask;
    if (sig == SIGPIPE) mc_cfg.sigpipe_ignored = (h != SIG_DFL);
    mc_event(0x516000 + sig, 1);
    mc_yield("signal() returns");
    return o;
}
bool mc_handled(int sig) { return handlers[sig].h != SIG_DFL; }
sigh mcw_signal(int sig, sigh h) { return set_handler(sig, h, false, false); }
sigh mcw___sysv_signal(int sig, sigh h) { return set_handler(sig, h, true, true); }
int mcw_sigaction(int sig, const struct sigaction *n, struct sigaction *o) {
    if (o) { memset(o, 0, sizeof *o); o->sa_handler = handlers[sig].h; }
    if (n) set_handler(sig, n->sa_handler, n->sa_flags & SA_RESETHAND, n->sa_flags & SA_NODEFER);
    return 0;
}
int mc_raise(int sig) {
    mc_yield("signal");
    mc_event(0x516000 + sig, 2);
    sigh h = handlers[sig].h;
    if (h == SIG_DFL) return 0;
    if (h == SIG_IGN) return 1;
    thrs[0].sigs |= 1ull << sig;
    return 2;
}
static void mc_handle(int sig) {
    sigh h = handlers[sig].h;
    if (h == SIG_DFL) { if (mc_exit_hook) mc_exit_hook(-sig); finish(ST_OK); }   // handled once before: killed
    if (h == SIG_IGN) return;
    if (handlers[sig].once) handlers[sig].h = SIG_DFL;
    bool mask = !handlers[sig].nomask; struct thr *me = cur;
    if (mask) me->sigmask |= 1ull << sig;
    mc_event(0x516000 + sig, 3);
    h(sig);
    if (mask) me->sigmask &= ~(1ull << sig);
}
void (*mc_exit_hook)(int);
void mcw_exit(int c) { if (mc_exit_hook) mc_exit_hook(c); finish(ST_OK); }
void mcw_abort(void) { mc_fail(K_CRASH, NULL, "abort() called in %s", mc_sym(RA)); finish(ST_HORIZON); }

// ------------------------------------------------------------------ run one execution
static void on_crash(int sig, siginfo_t *si, void *u) {
    ucontext_t *uc = u; char st[300] = "";
    void *pc = (void *) uc->uc_mcontext.gregs[REG_RIP];
    if (cur) stack_str(cur, st, sizeof st);
    signal(sig, SIG_DFL);
    if (sig == SIGALRM) { mc_fail(K_HANG, NULL, "execution does not end (spinning) in %s: %s", mc_sym(pc), st); finish(ST_HORIZON); }
    mc_fail(K_CRASH, NULL, "crash: signal %d (%s) in %s: %s", sig, strsignal(sig), mc_sym(pc), st);
    (void) si;
    finish(ST_HORIZON);
}
struct scenario *mc_sc;
static void *main_fn(void *a) { (void) a; mc_sc->fn(mc_sc->param); R->completed = 1; finish(ST_OK); }
void mc_run(struct scenario *sc, int alarm_s) {
    static char sigstack[65536];
    stack_t ss = {.ss_sp = sigstack, .ss_size = sizeof sigstack};
    sigaltstack(&ss, NULL);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_crash; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    int sigs[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGTRAP, SIGABRT, SIGALRM};
    for (unsigned i = 0; i < sizeof sigs / sizeof *sigs; i++) sigaction(sigs[i], &sa, NULL);
    alarm(alarm_s);
    mc_sc = sc;
    memset(&mc_cfg, 0, sizeof mc_cfg);
    mc_cfg.sock_cap = 65536; mc_cfg.sigpipe_ignored = 1;
    (void) notebuf;
    mc_sim_init();
    struct thr *m = new_thread("main", main_fn, NULL, false);
    in_mc = 1;
    cur = m;
    swapcontext(&main_ctx, &m->ctx);
    _exit(8);
}
