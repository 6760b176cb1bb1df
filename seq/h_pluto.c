// C17, C11, C23: the plutosdr driver against a model of the radio
#include "seqrt.h"
static int faults; static bool fault_hit; static char fault_call[48]; static int rxlen;
static bool fault(const char *c) { extern int sq_choose(int, const char *); if (!faults) return false; if (!sq_choose(2, c)) return false; faults--; fault_hit = true; __builtin_strncpy(fault_call, c, 47); return true; }
#define FI_FAULT(c) fault(c)
#define FI_BAD(...) sq_fail(NULL, __VA_ARGS__)
#define FI_RX_LEN(max) rxlen
#include "fakeiio.h"
#include "sdr/plutosdr.h"
#include <complex.h>
#include <math.h>
typedef float complex cf;
void *mcw_malloc(size_t); void mcw_free(void *);
static iio_lib lib;
static const uint64_t FS[] = {520834, 520833, 1041666, 1041667, 2083333, 2083334, 61440000, 61440001, 0, 4294967296ull + 600000};
#define NFS 10
static struct stream_cfg *cfg(uint64_t fs, uint64_t center, int mode, double gain) { struct stream_cfg *c = mcw_malloc(sizeof *c); if (!c) return NULL; memset(c, 0, sizeof *c); c->sampling_freq = fs; c->center_freq = center; c->gain_control_mode = mode; c->offset = 12345; c->manual_gain = gain; return c; }
static void destroy(sdr_device *d) { d->destroy(d->plugin); mcw_free(d); }
static void nothing_held(const char *when) { const char *h = fi_held(); if (h) sq_fail(NULL, "%s: %s is held", when, h); sq_no_leaks(NULL); }
static void initial(int k) { fi_reset(); fi_lib(&lib); faults = 0; fault_hit = false; if (k == 1) { strcpy(FI.fir, "RX 3 GAIN -6 DEC 4\nTX 3 GAIN 0 INT 4\n"); FI.firlen = 1; FI.fir_rx = FI.fir_tx = 4; FI.fir_on = true; FI.rate = 600000; } FI.no_dev_fir = k == 2; if (k == 3) FI.other_device = true; }
static void conf_is(bool rx, bool tx, uint64_t frx, uint64_t ftx, uint64_t center, double gain, int mode, bool rx_only, int max, unsigned ms) {
    const char *w = fi_fir_wrong(rx ? fi_dec(frx) : 0, tx ? fi_dec(ftx) : 0); if (w) sq_fail("C17", "%s", w);
    if (rx && (w = fi_stream_wrong(false, center, frx, gain, mode))) sq_fail("C17", "%s", w);
    if (tx && (w = fi_stream_wrong(true, center + 7, ftx, gain, mode))) sq_fail("C17", "%s", w);
    const struct fi_attr *p = fi_get(0, "altvoltage1", true, "powerdown");
    if (rx && !tx && rx_only && (!p || strcmp(p->val, "1")) && !(fault_hit && (!strcmp(fault_call, "powerdown") || !strncmp(fault_call, "find_", 5)))) sq_fail("C17", "the transmitter is not switched off while only receiving");
    if (rx && !tx && !rx_only && p) sq_fail("C17", "the transmitter of another session is switched");
    if (rx && !tx && fi_get(0, "voltage0", true, "hardwaregain")) sq_fail("C17", "the gain of the transmitter is changed by a receiver");
    if (tx && !rx && (fi_get(0, "altvoltage0", true, "frequency") || fi_get(0, "voltage0", false, "hardwaregain"))) sq_fail("C17", "the receiver is changed by a transmitter");
    if (FI.ctx[FI.nctx - 1].timeout != (int) ms) sq_fail("C17", "the timeout is %d instead of %u", FI.ctx[FI.nctx - 1].timeout, ms);
    if (FI.live_buf != rx + tx || FI.enabled != 2 * (rx + tx)) sq_fail("C17", "%d buffers and %d channels are in use", FI.live_buf, FI.enabled);
    for (int i = 0; i < FI.nbuf; i++) if (FI.buf[i]->live && (int) FI.buf[i]->n != max) sq_fail("C17", "a buffer of %zu samples instead of %d", FI.buf[i]->n, max);
}
static void setup(int root) {
    int kind = root % 4, init = root / 4 % 4, nf = sq_is("C17") ? 1 : 1; bool rx = kind != 1, tx = kind == 1 || kind == 2; if (kind == 3 && init) return;
    uint64_t frx = FS[sq_choose(rx ? NFS : 1, "rx rate")], ftx = FS[sq_choose(tx ? NFS : 1, "tx rate")]; static const uint64_t CF[] = {437000000, 70000000, 5999999999ull, 1}; uint64_t center = CF[sq_choose(4, "centre")]; static const double G[] = {0, -12.5, 71.25}; double gain = G[sq_choose(3, "gain")]; int mode = sq_choose(5, "gain mode"); bool rx_only = tx ? false : sq_choose(2, "rx only"); int max = sq_choose(2, "buffer") ? 37 : 1;
    if (kind == 3) { rx = tx = false; }
    initial(init); unsigned ms = root % 3 ? 10000 : 0; 
    sq_note("%s rates %lu %lu centre %lu gain %g mode %d rx only %d, radio state %d", kind == 0 ? "rx" : kind == 1 ? "tx" : kind == 2 ? "rx+tx" : "none", (unsigned long) frx, (unsigned long) ftx, (unsigned long) center, gain, mode, rx_only, init);
    bool small = center == CF[0] && gain == G[1] && mode <= 1; sdr_device *d = NULL; struct stream_cfg *a = rx ? cfg(frx, center, mode, gain) : NULL, *b = tx ? cfg(ftx, center + 7, mode, gain) : NULL;
    if (!small && !sq_thorough && (frx != FS[0] && frx != FS[5] && frx != FS[6])) { mcw_free(a); mcw_free(b); return; }
    faults = small && !sq_is("C23") ? nf : 0; if (sq_is("C23") && small) sq_cfg.oom = 1;
    int c = plutosdr_create(5, rx_only, a, b, ms, max, &lib, &d); sq_step(); faults = 0;
    bool bad_rate = (rx && (frx < 520834 || frx > 61440000)) || (tx && (ftx < 520834 || ftx > 61440000)), mixed = rx && tx && (fi_dec(frx) != fi_dec(ftx)), bad = bad_rate || mode == 4 || init == 3 || kind == 3;
    if (c == 0) {
        if (bad) sq_fail("C17", "a configuration that cannot be set up was accepted");
        if (sq_oom_hit) sq_fail("C23", "an allocation failed and the radio was created");
        if (fault_hit && strcmp(fault_call, "powerdown") && strcmp(fault_call, "in_out_voltage_filter_fir_en") && strncmp(fault_call, "find_", 5)) sq_fail("C17", "%s failed and the radio was created", fault_call);
        if (fault_hit) sq_hit(fault_call);
        conf_is(rx, tx, frx, ftx, center, gain, mode, rx_only, max, ms); sq_hit("created");
        destroy(d);
    } else {
        if (!bad && !fault_hit && !sq_oom_hit && !mixed) sq_fail("C17", "a configuration was refused (%d)", c);
        if (d) sq_fail("C17", "a failed radio is returned"); sq_hit(fault_hit ? "a call failed" : "refused");
        if (bad_rate && ((rx && frx < 520834) || (tx && ftx < 520834)) && FI.writes && !fault_hit) sq_fail("C17", "an unsupported rate changed the radio");
    }
    nothing_held(c ? "after a failed set-up" : "after the end"); sq_state(sq_hash(&FI.at, sizeof FI.at, FI.calls)); sq_outcome(c * 100 + FI.writes);
}
static void tx(int root) {
    initial(0); int max = 1 + root; sdr_device *d = NULL; if (plutosdr_create(5, false, NULL, cfg(600000, 437000000, 0, 0), 10, max, &lib, &d)) sq_fail("C17", "not created");
    static const float V[] = {0, 1, -1, 0.5f, -0.25f, 0.99997f, 2.5f, -3.0f, 1.0f / 32768, 0.1f, -0.7f}; int n = 0, nb = 1 + sq_choose(3, "number of buffers"); bool dead = false; sq_note("buffers of at most %d:", max); faults = sq_choose(2, "faults");
    for (int b = 0; b < nb; b++) {
        int len = sq_choose(sq_thorough ? 14 : 10, "buffer length"); cf *q = malloc(len * 8 + 1); for (int i = 0; i < len; i++) { float v[2] = {V[(n + i) * 3 % 11], V[((n + i) * 5 + 4) % 11]}; memcpy(&q[i], v, 8); } q = realloc(q, len ? len * 8 : 1);
        int c = d->sdr_process_tx(q, len, d->plugin); sq_step(); sq_note(" %d", len);
        if (fault_hit && !dead) { if (c == 0) sq_fail("C17", "the radio failed and samples count as sent"); dead = true; free(q); break; }
        if (c) sq_fail("C17", "%d samples were refused", len);
        free(q); n += len; if ((int) FI.ntx != n) sq_fail("C17", "%zu samples were given to the radio instead of %d", FI.ntx, n);
    }
    if ((int) FI.ntx > n && !dead) sq_fail("C17", "more samples were sent");
    for (int i = 0; i < (int) FI.ntx; i++) for (int k = 0; k < 2; k++) { float v = V[(k ? i * 5 + 4 : i * 3) % 11]; double w = v * 32768.0; if (w > 32767) w = 32767; if (w < -32768) w = -32768; if (fabs(FI.tx[2 * i + k] - w) > 1.01) sq_fail("C17", "part %d of sample %d is sent as %d instead of %.0f", k, i, FI.tx[2 * i + k], w); }
    faults = 0; cf *o; size_t ol; if (d->sdr_process_rx(&o, &ol, d->plugin) == 0 || ol) sq_fail("C17", "a transmitter receives");
    destroy(d); nothing_held("after the end"); sq_state(root * 1000 + n); sq_outcome(sq_hash(FI.tx, FI.ntx * 4, dead));
}
static void rx(int root) {
    initial(0); int max = 1 + root; sdr_device *d = NULL; if (plutosdr_create(5, true, cfg(600000, 437000000, 0, 0), NULL, 10, max, &lib, &d)) sq_fail("C17", "not created");
    uint32_t at = 0; int stop_at = sq_choose(5, "stopped before read"); bool stopped = false; sq_note("buffers of at most %d, stopped before read %d:", max, stop_at); faults = sq_choose(2, "faults");
    for (int b = 0; b < 4; b++) {
        if (b == stop_at) { d->stop_rx(d->plugin); stopped = true; }
        rxlen = stopped ? max : sq_choose(max + 2, "samples") - 1; if (rxlen < 0) rxlen = -110; sq_note(" %d", rxlen); cf *o = (void *) &o; size_t n = 999; bool hit = fault_hit;
        int c = d->sdr_process_rx(&o, &n, d->plugin); sq_step();
        if (stopped || rxlen < 0 || fault_hit != hit) { if (c == 0 || n || o) sq_fail("C17", "samples of a %s radio", stopped ? "stopped" : "failing"); if (FI.nrx != at && stopped) sq_fail("C17", "a stopped radio is read"); break; }
        if (c || (int) n != rxlen) sq_fail("C17", "%d samples are returned as %zu (%d)", rxlen, n, c);
        for (size_t i = 0; i < n; i++) for (int k = 0; k < 2; k++, at++) { float g = k ? cimagf(o[i]) : crealf(o[i]); if (fabs(g - fi_rx_val(at) / 2048.0) > 1e-6) sq_fail("C17", "part %d of sample %zu is %g instead of %g", k, i, g, fi_rx_val(at) / 2048.0); }
    }
    faults = 0; cf one = 1; if (d->sdr_process_tx(&one, 1, d->plugin) == 0) sq_fail("C17", "a receiver transmits");
    destroy(d); nothing_held("after the end"); sq_state(root * 1000 + at); sq_outcome(at);
}
// a receiver and a transmitter of one radio come and go, one of the set-ups may fail: the other is not disturbed
static void shared(int root) {
    initial(0); sdr_device *dev[2] = {NULL, NULL}; int depth = sq_thorough ? 6 : 5, budget = 1, sent[2] = {0, 0}; bool up[2] = {false, false}; FI.nrx = 0; uint32_t at = 0;
    for (int s = 0; s < depth; s++) {
        int w = s == 0 ? root % 2 : sq_choose(2, "which"); int act = up[w] ? sq_choose(2, "use or end") : 0;
        if (!up[w]) {
            int before = FI.live_ctx; fault_hit = false; faults = (s == 0 ? root / 2 : budget && sq_choose(2, "set-up fails")) ? 1 : 0; sq_cfg.oom = sq_is("C23") && faults ? 1 : 0; if (sq_is("C23")) faults = 0;
            struct stream_cfg *c = cfg(600000, 437000000 + w, 0, 1.5); if (!c) { sq_cfg.oom = 0; budget = 0; continue; } dev[w] = NULL;
            int rc = plutosdr_create(w, w == 0 && !up[1], w ? NULL : c, w ? c : NULL, 10, 4, &lib, &dev[w]); sq_step(); bool armed = faults == 0; faults = 0; if (fault_hit || sq_oom_hit) budget = 0; sq_cfg.oom = 0; (void) armed;
            sq_note("%s%s %s", s ? ", " : "", w ? "tx" : "rx", rc ? "fails" : "starts");
            if (rc && !fault_hit && !sq_oom_hit) sq_fail("C17", "a set-up failed"); up[w] = rc == 0; if (rc && before && !FI.live_ctx) sq_fail(NULL, "a failed set-up ended the other session's context");
            if (up[w]) sent[w] = 0;
        } else if (act == 0) {
            if (w) { cf q[3] = {0.5f, 0.25f * I, -0.5f}; size_t n0 = FI.ntx; if (dev[1]->sdr_process_tx(q, 3, dev[1]->plugin) || FI.ntx != n0 + 3) sq_fail("C17", "a running transmitter is disturbed"); }
            else { cf *o; size_t n; rxlen = 3; at = FI.nrx; if (dev[0]->sdr_process_rx(&o, &n, dev[0]->plugin) || n != 3) sq_fail("C17", "a running receiver is disturbed"); for (int i = 0; i < 3; i++) if (fabs(crealf(o[i]) - fi_rx_val(at + 2 * i) / 2048.0) > 1e-6) sq_fail("C17", "a received sample is wrong"); }
            sq_step(); sq_note(", use %s", w ? "tx" : "rx");
        } else { if (w == 0) dev[0]->stop_rx(dev[0]->plugin); destroy(dev[w]); up[w] = false; sq_step(); sq_note(", end %s", w ? "tx" : "rx"); }
        if (FI.live_buf != up[0] + up[1] || FI.enabled != 2 * (up[0] + up[1])) sq_fail(NULL, "%d buffers and %d channels are in use by %d sessions", FI.live_buf, FI.enabled, up[0] + up[1]);
        if (FI.live_ctx != (up[0] || up[1])) sq_fail(NULL, "%d contexts for %d sessions", FI.live_ctx, up[0] + up[1]);
        sq_state(sq_hash(up, sizeof up, s * 100 + FI.calls));
    }
    for (int w = 0; w < 2; w++) if (up[w]) destroy(dev[w]);
    nothing_held("after the end"); sq_outcome(FI.calls);
}
struct sq_scen sq_scenarios[] = {
    {"set-up of the radio", "C17 C11 C23", setup, 16, 16, 90}, {"transmitted samples", "C17", tx, 9, 17, 60}, {"received samples", "C17", rx, 8, 12, 60}, {"shared radio", "C17 C11 C23", shared, 4, 4, 60},
};
int sq_n_scenarios = sizeof sq_scenarios / sizeof *sq_scenarios;
