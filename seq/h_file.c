// C18 (C11, C23): file based radios, against the bytes of the files
#include "seqrt.h"
#include "sdr/file_source.h"
#include <complex.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
typedef float complex cf;
static sdr_device *dev; static bool woken, stopped;
void sq_wait_hook(void) { if (stopped) return; stopped = woken = true; dev->stop_rx(dev->plugin); }   // the session ends while the device waits at the end of the file
static float val(int i) { return (float) ((i * 37 + 11) % 101) / 50.0f - 1.0f; }
static void fill(cf *x, int n) { for (int i = 0; i < n; i++) { float v[2] = {val(2 * i), val(2 * i + 1)}; if (i % 13 == 5) v[0] = -0.0f; if (i % 17 == 3) v[1] = 1e30f; memcpy(&x[i], v, 8); } }
static double complex osc(int64_t f, uint64_t fs, int i) { double p = fmod((double) f / (double) fs * i, 1.0) * 2 * M_PI; return cos(p) + I * sin(p); }
static const struct { uint64_t fs; int64_t off; } O[] = {{48000, 0}, {48000, 1000}, {48000, -1000}, {9600, 4800}, {9600, -4799}, {1000000, 1}, {2400000, -600000}};
void mcw_free(void *);
static void destroy(void) { dev->destroy(dev->plugin); mcw_free(dev); dev = NULL; }   // as the server does
static bool near_(cf got, double complex want, double tol) { double m = cabs(want); return cabs((double complex) got - want) <= tol * (m + 1); }
static void rx(int root) {
    int o = root % 7, bytes = root / 7, n = bytes / 8, max = 1 + sq_choose(sq_thorough ? 9 : 6, "buffer length"); stopped = woken = false;
    static cf x[40]; fill(x, 40); if (o) for (int i = 0; i < 40; i++) if (cabsf(x[i]) > 100) x[i] = 0.5f;
    sq_file_put("/in", x, bytes);
    if (file_source_create(7, "/in", NULL, O[o].fs, O[o].off, max, &dev)) sq_fail("C18", "a file receiver was not created");
    int stop_at = sq_choose(n / max + 3, "stopped before read"), got = 0, reads = 0; sq_note("file of %d bytes, buffers of %d, offset %ld, stopped before read %d", bytes, max, (long) O[o].off, stop_at); bool ended = false; int after = 0;
    for (;;) {
        if (reads == stop_at && !stopped) { dev->stop_rx(dev->plugin); stopped = true; }
        cf *y = (void *) &y; size_t len = 12345; int c = dev->sdr_process_rx(&y, &len, dev->plugin); sq_step(); reads++;
        if (c == 0) {
            if (ended) sq_fail("C18", "samples after the end");
            if (len == 0 || len > (size_t) max) sq_fail("C18", "%zu samples in a buffer of %d", len, max);
            for (size_t i = 0; i < len; i++, got++) {
                if (got >= n) sq_fail("C18", "more samples than the file has");
                if (o == 0 ? memcmp(&y[i], &x[got], 8) != 0 : !near_(y[i], (double complex) x[got] * osc(O[o].off, O[o].fs, got), 1e-4)) sq_fail("C18", "sample %d is %g%+gi instead of %g%+gi (shifted by %ld)", got, crealf(y[i]), cimagf(y[i]), crealf(x[got]), cimagf(x[got]), (long) O[o].off);
            }
        } else { if (y != NULL || len != 0) sq_fail("C18", "the end comes with samples"); ended = true; if (++after == 2) break; }
        sq_state(sq_hash(&got, 4, root * 100 + max * 10 + stopped)); if (reads > 200) sq_fail("C18", "the file does not end");
    }
    if (got != n && !(stop_at * max < n && got >= stop_at * max)) sq_fail("C18", "%d samples of %d were delivered", got, n);   // a device that was stopped may end early
    cf one = 1; if (dev->sdr_process_tx(&one, 1, dev->plugin) == 0) sq_fail("C18", "a receiver transmits");
    destroy(); sq_no_leaks("C18"); sq_outcome(sq_hash(&got, 4, reads));
}
static void tx(int root) {
    int o = root % 7, max = 1 + root / 7, lens[6], nl = 0, tot = 0, N = sq_thorough ? 8 : 6; static cf x[64]; fill(x, 64); if (o) for (int i = 0; i < 64; i++) if (cabsf(x[i]) > 100) x[i] = 0.25f * I;
    while (nl < 6) { int k = sq_choose(N + 2, "buffer length"); if (k == 0) break; lens[nl++] = k - 1; if (nl == (sq_thorough ? 5 : 4)) break; }
    if (root & 1) { char old[600]; memset(old, 0x31, sizeof old); sq_file_put("/out", old, sizeof old); }   // a file of an earlier transmission is replaced
    sq_cfg.io_faults = sq_choose(2, "faults");
    sq_note("buffers of at most %d, offset %ld:", max, (long) O[o].off);
    if (file_source_create(7, NULL, "/out", O[o].fs, O[o].off, max, &dev)) { if (!sq_io_hit) sq_fail("C18", "a file transmitter was not created"); if (dev) sq_fail("C18", "a failed transmitter is returned"); sq_no_leaks("C18"); sq_hit("not opened"); return; }
    if (sq_io_hit) sq_fail("C18", "a file that cannot be opened was accepted");
    bool failed = false;
    for (int i = 0; i < nl; i++) {
        cf *q = malloc(lens[i] * 8 + 1), *r = realloc(q, lens[i] ? lens[i] * 8 : 1); memcpy(r, x + tot, lens[i] * 8); int hits = sq_io_hit; int c = dev->sdr_process_tx(r, lens[i], dev->plugin); sq_step(); sq_note(" %d", lens[i]);
        for (int k = 0; k < lens[i]; k++) if (memcmp(&r[k], &x[tot + k], 8)) sq_fail("C18", "the given samples were changed"); free(r);
        if (lens[i] > max) { if (c == 0) sq_fail("C18", "a buffer longer than the maximum was accepted"); continue; }
        if (sq_io_hit != hits) { if (c == 0) sq_fail("C18", "a write error was not reported"); failed = true; sq_hit("write error"); break; }
        if (c) sq_fail("C18", "samples were refused"); tot += lens[i];
    }
    cf *y; size_t len; if (dev->sdr_process_rx(&y, &len, dev->plugin) == 0) sq_fail("C18", "a transmitter receives");
    sq_cfg.io_faults = 0; destroy(); size_t n; const cf *f = sq_file_get("/out", &n);
    if (!f || (failed ? n < tot * 8 : n != (size_t) tot * 8)) sq_fail("C18", "%zu bytes are stored instead of %d", f ? n : 0, tot * 8);
    for (int i = 0; i < tot; i++) if (o == 0 ? memcmp(&f[i], &x[i], 8) != 0 : !near_(f[i], (double complex) x[i] * osc(O[o].off, O[o].fs, i), 1e-4)) sq_fail("C18", "stored sample %d is %g%+gi instead of %g%+gi (shifted by %ld)", i, crealf(f[i]), cimagf(f[i]), crealf(x[i]), cimagf(x[i]), (long) O[o].off);
    sq_no_leaks("C18"); sq_outcome(sq_hash(f, n, 0)); sq_state(sq_hash(&tot, 4, root * 10 + nl));
}
static void create_fails(int root) {
    static const char *N_[] = {NULL, "/in", "/missing", "/none/out", "/out"}; const char *r = N_[root % 3], *t = (const char *[]) {NULL, "/out", "/none/out", "/dir/"}[root / 3 % 4]; int64_t off = root / 12 ? 500 : 0;
    sq_file_put("/in", "12345678", 8); dev = NULL; sq_cfg.oom = sq_is("C23"); sq_cfg.io_faults = !sq_cfg.oom; int max = sq_choose(2, "buffer length") ? 1 : 1000; sq_note("rx %s tx %s offset %ld", r ? r : "-", t ? t : "-", (long) off);
    int c = file_source_create(1, r, t, 48000, off, max, &dev); sq_step(); bool bad = (r && !strcmp(r, "/missing")) || (t && strcmp(t, "/out"));
    if (c == 0 && (bad || sq_oom_hit || sq_io_hit)) sq_fail(NULL, "a device that cannot be set up was created");
    if (c && !(bad || sq_oom_hit || sq_io_hit)) sq_fail(NULL, "a device was not created (%d)", c);
    if (c && dev) sq_fail(NULL, "a failed device is returned");
    if (c == 0) destroy();
    sq_no_leaks(NULL); sq_state(root * 2 + c); sq_outcome(c); sq_hit(c ? "failed" : "created");
}
static void rx_faults(int root) {   // a read error ends the stream, nothing wrong is delivered
    int n = 1 + root, max = 1 + sq_choose(4, "buffer length"); static cf x[40]; fill(x, 40); sq_file_put("/in", x, n * 8 + sq_choose(2, "partial sample") * 4); stopped = woken = false; sq_note("%d samples, buffers of %d", n, max);
    if (file_source_create(7, "/in", NULL, 48000, 0, max, &dev)) sq_fail("C18", "not created"); sq_cfg.io_faults = 1; int got = 0;
    for (int k = 0; k < 60; k++) {
        cf *y; size_t len; int c = dev->sdr_process_rx(&y, &len, dev->plugin); sq_step();
        if (c) { if (y || len) sq_fail("C18", "a failing read comes with samples"); break; }
        if (len == 0 || len > (size_t) max) sq_fail("C18", "%zu samples in a buffer of %d", len, max);
        for (size_t i = 0; i < len; i++, got++) if (memcmp(&y[i], &x[got], 8)) sq_fail("C18", "sample %d is wrong", got);
    }
    if (got > n || (!sq_io_read_failed && got != n)) sq_fail("C18", "%d samples of %d", got, n); if (sq_io_read_failed) { sq_hit("read error"); if (woken) sq_fail("C18", "a read error is taken for the end of the file"); }
    dev->stop_rx(dev->plugin); destroy(); sq_no_leaks("C18"); sq_state(root * 100 + got); sq_outcome(got);
}
struct sq_scen sq_scenarios[] = {
    {"file receiver", "C18", rx, 7 * 130, 7 * 260, 60}, {"file transmitter", "C18", tx, 7 * 6, 7 * 8, 60}, {"set-up of file radios", "C18 C23", create_fails, 24, 24, 30}, {"read errors", "C18", rx_faults, 12, 30, 30},
};
int sq_n_scenarios = sizeof sq_scenarios / sizeof *sq_scenarios;
