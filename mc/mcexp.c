// mcexp.c: the explorer. Forks one process per execution; deviation bounded depth first search.
#define _GNU_SOURCE
#include "mcint.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <pthread.h>
#include <sys/prctl.h>
#include <sched.h>

#define NSTACK (1 << 20)
#define VBITS 25
#define NOUT 65536
struct shared {
    pthread_mutex_t mu;
    long top, active, stop, dropped;
    uint64_t execs, pruned, points, steps, maxpts, completed, horizon, ignored, known_hits;
    uint64_t visited;
    uint64_t noutcomes; uint64_t outh[NOUT];
    char samples[6][700]; int nsamples;
    char hits[64][48]; uint64_t hitn[64];
    uint32_t known;
    int nviol; struct { struct mc_task t; char msg[1400]; int kind, policy; } viol[4];
    int diverged; char divmsg[400];
    int nracy; uint32_t racy[MAXRACY];
    double deadline;
    struct mc_task stack[NSTACK];
};
static struct shared *SH;
static struct mc_visited vis;
const char **mc_known; int mc_nknown;
static double nowf(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static uint64_t fnv(const char *s) { uint64_t h = 1469598103934665603ULL; while (*s) { h ^= (uint8_t) *s++; h *= 1099511628211ULL; } return h ? h : 1; }

bool visit(struct mc_visited *v, uint64_t key, int budget) {
    uint64_t k = key & ~15ULL; if (!k) k = 16;
    uint64_t i = (key >> 7) & v->mask;
    for (int n = 0; n < 64; n++, i = (i + 1) & v->mask) {
        uint64_t o = __atomic_load_n(&v->tab[i], __ATOMIC_RELAXED);
        if (o == 0) {
            if (__atomic_compare_exchange_n(&v->tab[i], &o, k | (uint64_t) budget, 0, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) { __atomic_add_fetch(v->count, 1, __ATOMIC_RELAXED); return true; }
        }
        if ((o & ~15ULL) == k) {
            if ((int) (o & 15) >= budget) return false;
            __atomic_store_n(&v->tab[i], k | (uint64_t) budget, __ATOMIC_RELAXED);
            return true;
        }
    }
    return true;   // table full around here: explore anyway
}

static void child(struct scenario *sc, struct mc_task *t, int alarm_s) {
    T = t;
    R->status = ST_NONE; R->npoints = R->used = R->devpos = R->completed = 0; R->steps = 0; R->known = 0; R->ignored = 0; R->nracy = 0; R->msg[0] = R->outcome[0] = 0; memset(R->hits, 0, sizeof R->hits);
    pid_t p = fork();
    if (p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); mc_run(sc, alarm_s); _exit(7); }
    int st;
    while (waitpid(p, &st, 0) < 0) {}
    if (R->status == ST_NONE) {
        R->status = ST_ERROR;
        if (WIFSIGNALED(st)) snprintf(R->msg, sizeof R->msg, "execution died by signal %d", WTERMSIG(st));
        else snprintf(R->msg, sizeof R->msg, "execution ended with exit code %d", WEXITSTATUS(st));
    }
}
static void push(struct mc_task *t) {
    if (SH->top >= NSTACK) { SH->dropped++; return; }
    SH->stack[SH->top++] = *t;
}
static int alarm_secs = 20;
static void worker(struct scenario *sc, int bound) {
    R = mmap(NULL, sizeof *R, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    static struct mc_task kids[4096];
    for (;;) {
        pthread_mutex_lock(&SH->mu);
        if (SH->stop || (SH->top == 0 && SH->active == 0)) { pthread_mutex_unlock(&SH->mu); break; }
        if (SH->top == 0) { pthread_mutex_unlock(&SH->mu); usleep(50); continue; }
        struct mc_task t = SH->stack[--SH->top];
        SH->active++;
        pthread_mutex_unlock(&SH->mu);
        child(sc, &t, alarm_secs);
        int start = t.ndev ? t.dev[t.ndev - 1].pos + 1 : 0;
        int nk = 0;
        pthread_mutex_lock(&SH->mu);
        SH->execs++; SH->steps += R->steps; SH->points += R->npoints > start ? R->npoints - start : 0;
        if ((uint64_t) R->npoints > SH->maxpts) SH->maxpts = R->npoints;
        SH->ignored += R->ignored;
        for (int i = 0; i < R->nracy; i++) {
            int j = 0; while (j < SH->nracy && SH->racy[j] != R->racy[i]) j++;
            if (j == SH->nracy && j < MAXRACY) { SH->racy[SH->nracy++] = R->racy[i]; if (!SH->stop) SH->stop = 3; }   // again with these as scheduling points
        }
        SH->known |= R->known; if (R->known) SH->known_hits++;
        for (int i = 0; i < MAXHIT && R->hits[i][0]; i++) for (int j = 0; j < 64; j++) {
            if (!SH->hits[j][0]) strcpy(SH->hits[j], R->hits[i]);
            if (!strcmp(SH->hits[j], R->hits[i])) { SH->hitn[j]++; break; }
        }
        if (R->status == ST_PRUNED) SH->pruned++;
        else if (R->status == ST_OK || R->status == ST_HORIZON || R->status == ST_KNOWN) {
            SH->completed++;
            if (R->status == ST_HORIZON) SH->horizon++;
            uint64_t h = fnv(R->outcome); bool isnew = false;
            for (uint64_t i = h % NOUT, n = 0; n < NOUT; i = (i + 1) % NOUT, n++) { if (SH->outh[i] == h) break; if (!SH->outh[i]) { SH->outh[i] = h; SH->noutcomes++; isnew = true; break; } }
            if (isnew && SH->nsamples < 6) snprintf(SH->samples[SH->nsamples++], 700, "%s: deviations=%d points=%d steps=%llu outcome: %s", sc->name, t.ndev, R->npoints, (unsigned long long) R->steps, R->outcome);
        } else if (R->status == ST_VIOLATION || R->status == ST_ERROR) {
            if (SH->nviol < 4) { SH->viol[SH->nviol].t = t; SH->viol[SH->nviol].kind = R->status == ST_ERROR ? -1 : R->kind; SH->viol[SH->nviol].policy = mc_policy; snprintf(SH->viol[SH->nviol].msg, 1400, "%s", R->msg); SH->nviol++; }
            SH->stop = 1;
        } else if (R->status == ST_DIVERGED) { SH->diverged++; snprintf(SH->divmsg, 400, "%s", R->msg); SH->stop = 1; }
        // children: every alternative at every new point, deepest first on the stack top
        if (!SH->stop && t.ndev < MAXDEV) {
            for (int p = start; p < R->npoints; p++) {
                int cost = t.cost + R->pts[p].cost;
                if (R->pts[p].n < 2 || cost > bound) continue;
                for (int a = R->pts[p].n - 1; a >= 1; a--) {
                    struct mc_task c = t;
                    c.dev[c.ndev].pos = (uint16_t) p; c.dev[c.ndev].alt = (uint16_t) a; c.ndev++; c.cost = (uint16_t) cost; c.exp_hash = R->pts[p].key;
                    push(&c); nk++;
                }
            }
        } else if (t.ndev >= MAXDEV) { for (int p = start; p < R->npoints; p++) if (R->pts[p].n > 1 && t.cost + R->pts[p].cost <= bound) SH->dropped++; }
        if (nowf() > SH->deadline && (SH->top > 0)) SH->stop = 2;
        SH->active--;
        pthread_mutex_unlock(&SH->mu);
    }
    (void) kids;
    _exit(0);
}

static void jstr(FILE *f, const char *s) { fputc('"', f); for (; *s; s++) { if (*s == '"' || *s == '\\') fputc('\\', f); if (*s == '\n') { fputs("\\n", f); continue; } if ((unsigned char) *s < 32) { fprintf(f, "\\u%04x", *s); continue; } fputc(*s, f); } fputc('"', f); }

static bool has_prop(const char *props, const char *p) { return !strcmp(p, "ANY") || strstr(props, p) != NULL; }
static int kinds_of(const char *p) {
    int k = K_CRASH | K_DEADLOCK | K_HANG | K_ORACLE | K_MEM;
    if (!strcmp(p, "ANY")) return ~0;   // development: whatever fails
    if (!strcmp(p, "C02")) k |= K_MEM | K_RACE | K_FD | K_JOIN;
    if (!strcmp(p, "C01")) k |= K_MEM | K_RACE | K_LEAKS;
    if (!strcmp(p, "C11")) k |= K_LEAKS | K_FD | K_JOIN;
    if (!strcmp(p, "C23")) k |= K_LEAKS | K_MEM | K_FD | K_JOIN;
    if (!strcmp(p, "C16")) k |= K_MEM | K_FD | K_RACE | K_LEAKS | K_JOIN;
    if (!strcmp(p, "C03") || !strcmp(p, "C04") || !strcmp(p, "C06") || !strcmp(p, "C07")) k |= K_FD;
    return k;
}
int main(int argc, char **argv) {
    const char *prop = "C02", *tier = "quick", *out = NULL, *only = NULL, *replay = NULL, *replay_out = NULL, *knownf = NULL;
    int jobs = 8, bound_override = -1, pol_override = -1; double cap = 0;
    for (int i = 1; i < argc; i++) {
        if (!strcmp(argv[i], "--prop")) prop = argv[++i];
        else if (!strcmp(argv[i], "--tier")) tier = argv[++i];
        else if (!strcmp(argv[i], "--out")) out = argv[++i];
        else if (!strcmp(argv[i], "--scenario")) only = argv[++i];
        else if (!strcmp(argv[i], "--replay")) replay = argv[++i];
        else if (!strcmp(argv[i], "--replay-out")) replay_out = argv[++i];
        else if (!strcmp(argv[i], "--known")) knownf = argv[++i];
        else if (!strcmp(argv[i], "--jobs")) jobs = atoi(argv[++i]);
        else if (!strcmp(argv[i], "--bound")) bound_override = atoi(argv[++i]);
        else if (!strcmp(argv[i], "--policy")) pol_override = atoi(argv[++i]);
        else if (!strcmp(argv[i], "--cap")) cap = atof(argv[++i]);
        else if (!strcmp(argv[i], "--list")) { for (int s = 0; s < n_scenarios; s++) printf("%s: %s\n", scenarios[s].name, scenarios[s].props); return 0; }
        else { fprintf(stderr, "unknown argument %s\n", argv[i]); return 2; }
    }
    setvbuf(stdout, NULL, _IOLBF, 0);
    mc_load_symbols();
    mc_mem_init();
    mc_prop = prop; mc_mask = kinds_of(prop);
    if (knownf) {
        FILE *f = fopen(knownf, "r"); char line[600];
        mc_known = calloc(32, sizeof *mc_known);
        while (f && fgets(line, sizeof line, f) && mc_nknown < 32) { line[strcspn(line, "\n")] = 0; if (line[0]) mc_known[mc_nknown++] = strdup(line); }
        if (f) fclose(f);
    }
    if (replay) {
        FILE *f = fopen(replay, "r"); char line[4000], scn[200] = ""; struct mc_task t; memset(&t, 0, sizeof t); unsigned p, a; char pr[20];
        if (!f) { perror(replay); return 2; }
        while (fgets(line, sizeof line, f)) {
            if (sscanf(line, "scenario %199[^\n]", scn) == 1) continue;
            if (sscanf(line, "policy %d", &mc_policy) == 1) continue;
            if (sscanf(line, "bound %d", &mc_bound) == 1) continue;
            if (sscanf(line, "racing %x", &p) == 1) { if (mc_nracy < MAXRACY) mc_racy[mc_nracy++] = p; continue; }
            if (sscanf(line, "property %19s", pr) == 1) { mc_prop = strdup(pr); mc_mask = kinds_of(pr); continue; }
            if (sscanf(line, "deviation %u %u", &p, &a) == 2) { t.dev[t.ndev].pos = (uint16_t) p; t.dev[t.ndev].alt = (uint16_t) a; t.ndev++; }
        }
        for (int s = 0; s < n_scenarios; s++) if (!strcmp(scenarios[s].name, scn)) {
            mc_verbose = 1;
            R = mmap(NULL, sizeof *R, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            child(&scenarios[s], &t, 60);
            printf("status %d: %s\noutcome: %s\npoints %d steps %llu\n", R->status, R->msg, R->outcome, R->npoints, (unsigned long long) R->steps);
            return R->status == ST_VIOLATION ? 1 : 0;
        }
        fprintf(stderr, "no such scenario %s\n", scn);
        return 2;
    }
    SH = mmap(NULL, sizeof *SH, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    vis.mask = (1ull << VBITS) - 1;
    vis.count = &SH->visited;
    FILE *jf = out ? fopen(out, "w") : NULL;
    if (jf) fprintf(jf, "{\"scenarios\": [");
    bool thorough = !strcmp(tier, "thorough"), first = true; int rc = 0;
    uint64_t te = 0, tst = 0;
    for (int s = 0; s < n_scenarios && rc == 0; s++) {
        struct scenario *sc = &scenarios[s];
        SH->nracy = 0;
        if (only ? strcmp(only, sc->name) : !has_prop(sc->props, prop)) continue;
        if (!only && !thorough && sc->bound_quick < 0) continue;   // thorough only
        int maxb = bound_override >= 0 ? bound_override : thorough ? sc->bound_thorough : sc->bound_quick < 0 ? sc->bound_thorough : sc->bound_quick;
        int pols = pol_override >= 0 ? 1 << pol_override : thorough ? (sc->policies | 0x7f) : sc->policies;
        if (sc->policies == 1 && pol_override < 0) pols = 1;   // sequential scenario: the policy does not matter
        double t0 = nowf(), limit = cap > 0 ? cap : thorough ? 240 : sc->cap_quick_s ? sc->cap_quick_s : 60;
        if (jf) { fprintf(jf, "%s\n{\"name\": ", first ? "" : ","); jstr(jf, sc->name); fprintf(jf, ", \"levels\": ["); first = false; }
        bool firstl = true; uint64_t execs = 0, steps = 0, states = 0, compl = 0; int nout = 0, prevb = -1; bool incomplete = false; int done_bound = maxb;
        memset(SH->outh, 0, sizeof SH->outh); SH->noutcomes = 0; SH->nsamples = 0; memset(SH->hits, 0, sizeof SH->hits); memset(SH->hitn, 0, sizeof SH->hitn);
        int np = __builtin_popcount(pols), pi = 0;
        for (int pol = 0; pol < 8 && rc == 0; pol++) if (pols & (1 << pol)) {
            pi++;
            // iterate the bound, so that what was covered completely is known, and the first counterexample is the simplest
            for (int b = maxb > 1 ? 1 : maxb; b <= maxb && rc == 0; b = b < 3 || b == maxb ? b + 1 : maxb) {
                double pdl = t0 + limit * pi / np;
                pthread_mutexattr_t ma; pthread_mutexattr_init(&ma); pthread_mutexattr_setpshared(&ma, PTHREAD_PROCESS_SHARED);
                pthread_mutex_init(&SH->mu, &ma);
                SH->top = SH->active = SH->stop = SH->dropped = 0; SH->execs = SH->pruned = SH->points = SH->steps = SH->maxpts = SH->completed = SH->horizon = SH->ignored = 0; SH->visited = 0; SH->nviol = 0; SH->diverged = 0;
                SH->deadline = pdl;
                vis.tab = mmap(NULL, sizeof(uint64_t) << VBITS, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
                V = &vis;
                mc_policy = pol; mc_bound = b;
                struct mc_task root; memset(&root, 0, sizeof root);
                push(&root);
                double tb = nowf();
                memcpy(mc_racy, SH->racy, sizeof(uint32_t) * MAXRACY); mc_nracy = SH->nracy;
                fflush(NULL);
                pid_t pids[64];
                for (int j = 0; j < jobs; j++) { pids[j] = fork(); if (pids[j] == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); if (jf) fclose(jf), jf = NULL; worker(sc, b); } }
                for (int j = 0; j < jobs; j++) { int st; while (waitpid(pids[j], &st, 0) < 0 && errno == EINTR) {} if (!WIFEXITED(st) || WEXITSTATUS(st)) { fprintf(stderr, "explorer worker died (%d)\n", st); rc = 2; } }
                munmap(vis.tab, sizeof(uint64_t) << VBITS);
                execs += SH->execs; steps += SH->steps; states += SH->visited; compl += SH->completed;
                bool capped = SH->stop == 2 || SH->dropped;
                if (capped) { incomplete = true; if (prevb < done_bound) done_bound = prevb; } else prevb = b;
                if (jf) { fprintf(jf, "%s{\"policy\": %d, \"bound\": %d, \"executions\": %llu, \"pruned\": %llu, \"completed\": %llu, \"states\": %llu, \"steps\": %llu, \"max_points\": %llu, \"capped\": %s, \"wall_s\": %.2f}", firstl ? "" : ", ", pol, b, (unsigned long long) SH->execs, (unsigned long long) SH->pruned, (unsigned long long) SH->completed, (unsigned long long) SH->visited, (unsigned long long) SH->steps, (unsigned long long) SH->maxpts, capped ? "true" : "false", nowf() - tb); firstl = false; }
                printf("  %-28s policy %d bound %d: %llu executions (%llu pruned), %llu states, %llu steps, %llu outcomes, max %llu points, ignored %llu%s %.1fs\n", sc->name, pol, b, (unsigned long long) SH->execs, (unsigned long long) SH->pruned, (unsigned long long) SH->visited, (unsigned long long) SH->steps, (unsigned long long) SH->noutcomes, (unsigned long long) SH->maxpts, (unsigned long long) SH->ignored, capped ? " CAPPED" : "", nowf() - tb);
                if (SH->diverged) { fprintf(stderr, "nondeterminism: %s\n", SH->divmsg); rc = 2; break; }
                if (SH->nviol) {
                    // confirm twice; a hang gets a longer limit
                    struct mc_task t = SH->viol[0].t; char m1[1400]; snprintf(m1, sizeof m1, "%s", SH->viol[0].msg);
                    R = mmap(NULL, sizeof *R, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
                    V = NULL; int okc = 0; uint64_t hh[2];
                    for (int k = 0; k < 2; k++) { child(sc, &t, 60); hh[k] = R->hash; if (R->status == ST_VIOLATION || R->status == ST_ERROR) okc++; if (R->status != ST_VIOLATION && R->status != ST_ERROR) printf("  replay %d: status %d %s\n", k, R->status, R->msg); }
                    if (okc == 2 && hh[0] == hh[1] && R->status == ST_VIOLATION) {
                        rc = 1;
                        if (replay_out) {
                            FILE *rf = fopen(replay_out, "w");
                            fprintf(rf, "property %s\nscenario %s\npolicy %d\nbound %d\n", prop, sc->name, pol, b);
                            for (int d = 0; d < mc_nracy; d++) fprintf(rf, "racing %x\n", mc_racy[d]);
                            for (int d = 0; d < t.ndev; d++) fprintf(rf, "deviation %u %u\n", t.dev[d].pos, t.dev[d].alt);
                            fprintf(rf, "message %s\noutcome %s\n", R->msg, R->outcome);
                            fclose(rf);
                        }
                        printf("  FOUND scenario=%s policy=%d bound=%d deviations=%d: %s\n", sc->name, pol, b, t.ndev, R->msg);
                        if (jf) { fprintf(jf, "], \"violation\": "); jstr(jf, R->msg); fprintf(jf, ", \"x\": ["); }
                    } else if (okc == 0 && strstr(m1, "spinning")) { printf("  (slow execution, not a hang)\n"); incomplete = true; alarm_secs = 60; rc = 0; b = b <= 3 ? b - 1 : 3; continue; }
                    else { fprintf(stderr, "violation did not replay: %s / %s\n", m1, R->msg); rc = 2; }
                }
                if (SH->stop == 3 && !SH->nviol && !SH->diverged && nowf() < pdl) { b = b <= 3 ? b - 1 : 3; continue; }
                if (capped) break;
            }
        }
        nout = (int) SH->noutcomes; te += execs; tst += states;
        if (jf) {
            fprintf(jf, "], \"executions\": %llu, \"completed\": %llu, \"states\": %llu, \"steps\": %llu, \"outcomes\": %d, \"complete\": %s, \"bound\": %d, \"policies\": %d, \"wall_s\": %.2f, \"known\": %u, \"hits\": {", (unsigned long long) execs, (unsigned long long) compl, (unsigned long long) states, (unsigned long long) steps, nout, incomplete || rc ? "false" : "true", done_bound, np, nowf() - t0, SH->known);
            for (int j = 0; j < 64 && SH->hits[j][0]; j++) { if (j) fprintf(jf, ", "); jstr(jf, SH->hits[j]); fprintf(jf, ": %llu", (unsigned long long) SH->hitn[j]); }
            fprintf(jf, "}, \"samples\": [");
            for (int j = 0; j < SH->nsamples; j++) { if (j) fprintf(jf, ", "); jstr(jf, SH->samples[j]); }
            fprintf(jf, "]}");
        }
    }
    if (jf) { fprintf(jf, "\n], \"known\": ["); for (int i = 0; i < mc_nknown; i++) { if (i) fprintf(jf, ", "); fprintf(jf, "%s", SH->known & (1u << i) ? "true" : "false"); } fprintf(jf, "], \"rc\": %d}\n", rc); fclose(jf); }
    printf("total: %llu executions, %llu states, rc %d\n", (unsigned long long) te, (unsigned long long) tst, rc);
    return rc;
}
