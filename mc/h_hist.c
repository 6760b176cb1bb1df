// h_hist.c: histories of requests. One driver performs operations on the real server one after the other (every
// connection is served by the server's own threads) and compares each answer, each file, each SDR connection and the
// resources held with a model. Every sequence of operations up to a depth is enumerated.
#include "srv.h"
#include <signal.h>
static const char *BADWHY;
#define FI_FAULT(what) 0
#define FI_BAD(...) (mc_fail(K_ORACLE, "C17", __VA_ARGS__), mc_fail(K_ORACLE, strstr(#__VA_ARGS__, "a second buffer") ? "C06" : "C11", __VA_ARGS__))
static int FI_RX_LEN(int n);
#include "../ref/fakeiio.h"
#include "../ref/refdsp.h"
static int64_t radio_until;      // the radio delivers one buffer per 100 ms of virtual time
static int radio_left;
static int FI_RX_LEN(int n) { if (radio_left > 0) { radio_left--; return n; } mc_sleep(1000); return -ETIMEDOUT; }
static iio_lib IIO;
static void use_radio(void) { fi_reset(); fi_lib(&IIO); cfg.iio = &IIO; cfg.tx_plutosdr_timeout_millis = 1000; cfg.rx_plutosdr_gain = 11.5; cfg.tx_plutosdr_gain = -7.25; }

static const char *TLE_OK[4] = {"LUCKY-7", "1 44406U 19038W   20069.88080907  .00000505  00000-0  32890-4 0  9992", "2 44406  97.5270  32.5584 0026284 107.4758 252.9348 15.12089395 37524", "2 44406  97.5270  32.5584 0026284 107.4758 252.9348 15.12089395 37524"};
static const char *TLE_SUM[3] = {"LUCKY-7", "1 44406U 19038W   20069.88080907  .00000505  00000-0  32890-4 0  9993", "2 44406  97.5270  32.5584 0026284 107.4758 252.9348 15.12089395 37524"};
static const char *TLE_SHORT[3] = {"LUCKY-7", "1 44406U", "2 44406  97.5270  32.5584 0026284 107.4758 252.9348 15.12089395 37524"};
static const char *TLE_LONG[3] = {"LUCKY-7", "1 44406U 19038W   20069.88080907  .00000505  00000-0  32890-4 0  9992", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"};
static const char *TLE_EMPTY[3] = {"", "", ""};
static const char *TLE_SWAP[3] = {"LUCKY-7", "2 44406  97.5270  32.5584 0026284 107.4758 252.9348 15.12089395 37524", "1 44406U 19038W   20069.88080907  .00000505  00000-0  32890-4 0  9992"};

// ------------------------------------------------------------------ what a request must be answered with
enum { V_OK = 0, V_INVALID = 1, V_INTERNAL = 3, V_ANY = 100, V_SKIP = 101 };   // V_ANY: any well formed answer; V_SKIP: too large to run
static bool tle_good(const char **t, int n) { return n == 3 && t != TLE_SUM && t != TLE_SHORT && t != TLE_LONG && t != TLE_EMPTY && t != TLE_SWAP; }
static int verdict_rx(const struct rxp *p) {
    if (p->demod != 1 || p->center == 0 || p->rate == 0 || p->baud == 0) return V_INVALID;
    if (p->tle && p->ntle != 3) return V_INVALID;
    if (p->dec < 1 || p->dec > 255 || p->dest < 0 || p->dest > 2) return V_INVALID;
    if (cfg.rx_sdr_type == 2 && !p->file) return V_INVALID;
    if (!p->has_fsk || p->tw == 0) return V_INVALID;
    // realisable?
    double carson = fabs((double) p->dev) + p->baud / 2.0, nyq = p->rate / 2.0;
    if (p->tle && !tle_good(p->tle, p->ntle)) return V_INTERNAL;
    if (p->dev == 0 || p->rate / p->baud < p->dec || p->baud / 2 == 0) return V_INTERNAL;
    if (floor(carson) > nyq || carson > 4294967295.0 || floor(0.1 * carson + 1e-6) < 1) return V_INTERNAL;
    double taps = 53.0 * p->rate / 22 / fmin(p->tw, floor(0.1 * carson));
    if (taps >= 2147483647.0) return V_INTERNAL;
    double sps = (double) p->rate / p->baud / p->dec;
    if (taps > 3e5 || sps > 1e4) return V_SKIP;
    if (cfg.rx_sdr_type == 0 && (p->center > 0xffffffffull || p->center + p->offset > 0xffffffffull || p->rate > 0xffffffffull)) return V_INTERNAL;
    if (cfg.rx_sdr_type == 1 && (p->rate < 520834 || p->rate > 61440000)) return V_INTERNAL;
    if (cfg.rx_sdr_type == 2 && !mc_file_get(p->file)) return V_INTERNAL;
    return V_OK;
}
static int verdict_tx(const struct txp *p) {
    if (p->mod != 1 || cfg.tx_sdr_type == 0 || p->center == 0 || p->rate == 0 || p->baud == 0 || !p->has_fsk) return V_INVALID;
    if (p->tle && p->ntle != 3) return V_INVALID;
    if (cfg.tx_sdr_type == 2 && !p->file) return V_INVALID;
    double sps = (double) p->rate / p->baud, dev = fabs((double) p->dev);
    if (sps < 1 || (float) sps >= 256) return V_INTERNAL;
    if (dev > p->rate / 2.0 * (1 + 1e-6)) return V_INTERNAL;
    if (dev > p->rate / 2.0 * (1 - 1e-6) && dev != p->rate / 2.0) return V_ANY;
    if (p->tle && !tle_good(p->tle, p->ntle)) return V_INTERNAL;
    if (cfg.tx_sdr_type == 1 && (p->rate < 520834 || p->rate > 61440000)) return V_INTERNAL;
    if (cfg.tx_sdr_type == 2 && strncmp(p->file, "/sim/", 5)) return V_INTERNAL;
    return V_OK;
}

// ------------------------------------------------------------------ one request, checked
static struct { long mem; int fds, thr, files; const char *radio; } base;
static void resources(const char *when, bool record) {   // only the acceptor is left after a ping
    long mem = mc_live_allocs(); int fds = mc_open_fds(), thr = mc_live_server_threads(), files = mc_open_files();
    if (record) { base.mem = mem; base.fds = fds; base.thr = thr; base.files = files; return; }
    if (mem != base.mem) mc_fail(K_ORACLE, "C11", "%s: %ld memory blocks are held, %ld before", when, mem, base.mem);
    if (fds != base.fds) mc_fail(K_ORACLE, "C11", "%s: %d descriptors are open, %d before", when, fds, base.fds);
    if (thr != base.thr) mc_fail(K_ORACLE, "C11", "%s: %d threads are running, %d before", when, thr, base.thr);
    if (files != base.files) mc_fail(K_ORACLE, "C11", "%s: %d files are open, %d before", when, files, base.files);
    if (cfg.iio && fi_held()) mc_fail(K_ORACLE, "C11", "%s: %s of the radio is still held", when, fi_held());
}
static void ping(void) { memset(&CL[7], 0, sizeof CL[7]); CL[7].name = "ping"; ping_alive(); }
static bool begin(void) { if (!start_server()) return false; ping(); resources("start", true); return true; }
static void finish(void) { ping(); resources("after the session and a ping", false); stop_server(); end_checks(); }
static bool framing;   // the same answers are what C10 promises
#define fail05(...) (mc_fail(K_ORACLE, "C05", __VA_ARGS__), framing ? mc_fail(K_ORACLE, "C10", __VA_ARGS__) : (void) 0)
// checks the answer to a request; true when it was accepted
static bool answered(struct cli *c, int want, const char *what) {
    bool ok = cl_response(c);
    if (!c->got) { mc_fail(K_ORACLE, "C04", "%s: no answer", what); return false; }
    mc_outcome("%d/%u ", c->status, c->status ? c->details : 0);
    if (want == V_ANY) { if (!ok && c->details != 1 && c->details != 3) fail05("%s: refused with details %u", what, c->details); }
    else if (want == V_OK && !ok) fail05("%s: a valid request was refused with details %u", what, c->details);
    else if (want != V_OK && ok) fail05("%s: accepted, but it should be refused with details %d", what, want);
    else if (want != V_OK && (int) c->details != want) fail05("%s: refused with details %u instead of %d", what, c->details, want);
    if (!ok) {
        cl_eof(c);
        if (c->nst) mc_fail(K_ORACLE, "C04", "%s: %zu bytes follow the refusal", what, c->nst);
        mc_sleep(10);
        if (mc_live_server_threads() != base.thr) fail05("%s: work was started although the request was refused", what);
        if (c->details == 1 && nsd) fail05("%s: the SDR was contacted for an invalid request", what);
    }
    return ok;
}

// ------------------------------------------------------------------ battery: all pairs of field values
struct mut { int f; long long v; const void *p; };
enum { F_CENTER, F_RATE, F_OFF, F_MOD, F_BAUD, F_DEC, F_DEST, F_DEV, F_TW, F_DC, F_FSK, F_DUMP, F_FILE, F_START, F_TLE, F_LAT };
static const struct { const char **t; int n; } TLES[] = {{TLE_OK, 3}, {TLE_OK, 0}, {TLE_OK, 2}, {TLE_OK, 4}, {TLE_SUM, 3}, {TLE_SHORT, 3}, {TLE_LONG, 3}, {TLE_EMPTY, 3}, {TLE_SWAP, 3}};
#define X32 0x100000000ll
static const struct mut MRX[] = {
    {F_CENTER, 0}, {F_CENTER, 1}, {F_CENTER, X32 - 1}, {F_CENTER, X32}, {F_CENTER, -1},
    {F_RATE, 0}, {F_RATE, 1}, {F_RATE, 4799}, {F_RATE, 4800}, {F_RATE, 7199}, {F_RATE, 7200}, {F_RATE, 48000}, {F_RATE, 520833}, {F_RATE, 520834}, {F_RATE, 600000}, {F_RATE, 61440001}, {F_RATE, X32}, {F_RATE, -1},
    {F_OFF, 1}, {F_OFF, -1000}, {F_OFF, -437525001}, {F_OFF, X32 - 437525000}, {F_OFF, X32 - 437525001}, {F_OFF, (long long) 1 << 62},
    {F_MOD, 0}, {F_MOD, 2}, {F_MOD, -1}, {F_MOD, X32},
    {F_BAUD, 0}, {F_BAUD, 1}, {F_BAUD, 2}, {F_BAUD, 9600}, {F_BAUD, 9601}, {F_BAUD, X32 - 1},
    {F_DEC, 0}, {F_DEC, 2}, {F_DEC, 3}, {F_DEC, 255}, {F_DEC, 256}, {F_DEC, 257}, {F_DEC, X32 - 1},
    {F_DEST, 0}, {F_DEST, 1}, {F_DEST, 3}, {F_DEST, -1}, {F_DEST, 1000},
    {F_DEV, 0}, {F_DEV, -1200}, {F_DEV, 2400}, {F_DEV, 2401}, {F_DEV, (long long) 1 << 40}, {F_DEV, (long long) ((unsigned long long) 1 << 63)},
    {F_TW, 0}, {F_TW, 1}, {F_TW, X32 - 1}, {F_DC, 1}, {F_FSK, 0}, {F_DUMP, 0},
    {F_FILE, 0, "/sim/in.cf32"}, {F_FILE, 0, "/sim/absent"}, {F_FILE, 0, ""}, {F_FILE, 0, NULL}, {F_START, -1}, {F_START, 1583840449},
    {F_TLE, 0}, {F_TLE, 1}, {F_TLE, 2}, {F_TLE, 3}, {F_TLE, 4}, {F_TLE, 5}, {F_TLE, 6}, {F_TLE, 7}, {F_TLE, 8}, {F_LAT, -1},
};
static const struct mut MTX[] = {
    {F_CENTER, 0}, {F_CENTER, 1}, {F_CENTER, -1},
    {F_RATE, 0}, {F_RATE, 1}, {F_RATE, 4799}, {F_RATE, 4800}, {F_RATE, 2399}, {F_RATE, 1228799}, {F_RATE, 1228800}, {F_RATE, 520833}, {F_RATE, 520834}, {F_RATE, 61440001}, {F_RATE, X32}, {F_RATE, -1},
    {F_OFF, 1}, {F_OFF, -1000}, {F_OFF, (long long) 1 << 62},
    {F_MOD, 0}, {F_MOD, 2}, {F_MOD, -1}, {F_MOD, X32},
    {F_BAUD, 0}, {F_BAUD, 1}, {F_BAUD, 37}, {F_BAUD, 38}, {F_BAUD, 9600}, {F_BAUD, 9601}, {F_BAUD, X32 - 1},
    {F_DEV, 0}, {F_DEV, -1200}, {F_DEV, 4800}, {F_DEV, 4810}, {F_DEV, -4800}, {F_DEV, -4810}, {F_DEV, (long long) ((unsigned long long) 1 << 63)}, {F_FSK, 0}, {F_DUMP, 0},
    {F_FILE, 0, "/sim/other"}, {F_FILE, 0, "/nowhere/x"}, {F_FILE, 0, ""}, {F_FILE, 0, NULL}, {F_START, -1}, {F_START, 1583840449},
    {F_TLE, 0}, {F_TLE, 1}, {F_TLE, 2}, {F_TLE, 3}, {F_TLE, 4}, {F_TLE, 5}, {F_TLE, 6}, {F_TLE, 7}, {F_TLE, 8},
};
#define N(a) ((int) (sizeof(a) / sizeof *(a)))
static void mut_rx(struct rxp *p, const struct mut *m) {
    switch (m->f) {
        case F_CENTER: p->center = m->v; break; case F_RATE: p->rate = m->v; break; case F_OFF: p->offset = m->v; break; case F_MOD: p->demod = (int) m->v; break;
        case F_BAUD: p->baud = m->v; break; case F_DEC: p->dec = m->v; break; case F_DEST: p->dest = (int) m->v; break; case F_DEV: p->dev = m->v; break; case F_TW: p->tw = m->v; break;
        case F_DC: p->dc = (int) m->v; break; case F_FSK: p->has_fsk = 0; break; case F_DUMP: p->dump = 0; break; case F_FILE: p->file = m->p; break; case F_START: p->start = m->v; if (!p->file) p->file = "/sim/in.cf32"; break;
        case F_TLE: p->tle = TLES[m->v].t; p->ntle = TLES[m->v].n; break; case F_LAT: p->lat = -900000000; p->lon = 1800000000; p->alt = -1; break;
    }
}
static void mut_tx(struct txp *p, const struct mut *m) {
    switch (m->f) {
        case F_CENTER: p->center = m->v; break; case F_RATE: p->rate = m->v; break; case F_OFF: p->offset = m->v; break; case F_MOD: p->mod = (int) m->v; break;
        case F_BAUD: p->baud = m->v; break; case F_DEV: p->dev = m->v; break; case F_FSK: p->has_fsk = 0; break; case F_DUMP: p->dump = 0; break; case F_FILE: p->file = m->p; break; case F_START: p->start = m->v; if (!p->file) p->file = "/sim/tx.cf32"; break;
        case F_TLE: p->tle = TLES[m->v].t; p->ntle = TLES[m->v].n; break;
    }
}
static void rx_base(struct rxp *p) { *p = rx_def(); if (cfg.rx_sdr_type == 1) p->rate = 600000, p->baud = 48000, p->dev = 12000, p->tw = 20000; if (cfg.rx_sdr_type == 2) p->file = "/sim/in.cf32"; }
static void tx_base(struct txp *p) { *p = tx_def(); if (cfg.tx_sdr_type == 1) p->rate = 600000, p->baud = 48000, p->dev = 12000, p->file = NULL; }
static void run_rx(struct cli *c, const struct rxp *p, int want) {
    struct enc *f = rx_frame(p);
    cl_connect(c); if (c->refused) return;
    c->t_req = mc_now();
    cl_send(c, f->b, f->n);
    if (!answered(c, want, "receive request")) return;
    mc_hit("accepted");
    if (cfg.rx_sdr_type == 0) {
        if (nsd != 1) mc_fail(K_ORACLE, "C16", "%d SDR connections for one session", nsd);
        else if ((uint64_t) SD[0].center != (uint64_t) p->center + (uint64_t) p->offset || (uint64_t) SD[0].band != (uint64_t) p->center || (uint64_t) SD[0].rate != (uint64_t) p->rate || SD[0].dest != 1) mc_fail(K_ORACLE, "C16", "the SDR server was asked for center %u band %u rate %u destination %d", SD[0].center, SD[0].band, SD[0].rate, SD[0].dest);
    }
    if (cfg.rx_sdr_type == 1) { const char *w = fi_stream_wrong(false, p->center + p->offset, p->rate, cfg.rx_plutosdr_gain, 0); if (w) mc_fail(K_ORACLE, "C17", "%s", w); w = fi_fir_wrong(fi_dec(p->rate), 0); if (w) mc_fail(K_ORACLE, "C17", "%s", w); }
    mc_sleep(200);
    cl_bye(c); cl_eof(c); cl_close(c);
    struct mc_file *d = fget(OUTDIR "/rx.sdr2demod.%d.cf32", c->details), *s = fget(OUTDIR "/rx.demod2client.%d.s8", c->details);
    if (!p->dump != !d) mc_fail(K_ORACLE, "C08", "the dump was %sasked for", p->dump ? "" : "not ");
    if ((p->dest != 1) != !!s) mc_fail(K_ORACLE, "C08", "the file of bits was %sasked for", p->dest != 1 ? "" : "not ");
    if (p->dest == 0 && c->nst) mc_fail(K_ORACLE, "C08", "%zu bytes for a session that asked for a file only", c->nst);
    if (d && bits_check(c, p, d, s, p->dest != 0, true)) mc_hit("bits compared");
}
static int tx_bytes = 11;
static void run_tx(struct cli *c, const struct txp *p, int want) {
    struct enc *f = tx_frame(p);
    cl_connect(c); if (c->refused) return;
    c->t_req = mc_now();
    cl_send(c, f->b, f->n);
    if (!answered(c, want, "transmit request")) return;
    mc_hit("accepted");
    if (cfg.tx_sdr_type == 1) { const char *w = fi_stream_wrong(true, p->center, p->rate, cfg.tx_plutosdr_gain, 0); if (w) mc_fail(K_ORACLE, "C17", "%s", w); w = fi_fir_wrong(0, fi_dec(p->rate)); if (w) mc_fail(K_ORACLE, "C17", "%s", w); }
    f = txdata_frame(0, tx_bytes); int st; uint32_t de;
    cl_send(c, f->b, f->n);
    if (!rd_frame(c, &st, &de)) mc_fail(K_ORACLE, "C09", "no answer to transmit data");
    else if (st) mc_fail(K_ORACLE, "C09", "transmit data was answered with failure %u", de);
    cl_bye(c); cl_eof(c); cl_close(c);
    static float complex ref[30000];
    if (llabs(p->offset) <= p->rate / 2) {
        if (p->tle && !p->dump && cfg.tx_sdr_type == 1) return;
        struct mc_file *dump = p->dump ? fget(OUTDIR "/tx.mod2sdr.%d.cf32", c->details) : NULL; size_t n = tx_expect(c, p, tx_bytes, cfg.tx_sdr_type == 2 ? mc_file_get(p->file) : dump, ref, 30000);
        if (cfg.tx_sdr_type == 2) cmp_cf("C09", "transmitted samples", mc_file_get(p->file), ref, n);
        else { if (FI.ntx != n) mc_fail(K_ORACLE, "C09", "%zu samples were given to the radio instead of %zu", FI.ntx, n); else for (size_t i = 0; i < n; i++) { double a = FI.tx[2 * i] - crealf(ref[i]) * 32752, b = FI.tx[2 * i + 1] - cimagf(ref[i]) * 32752; if (fabs(a) > 90 || fabs(b) > 90) { mc_fail(K_ORACLE, "C09", "sample %zu given to the radio is wrong", i); break; } } }
        if (p->dump) cmp_cf("C09", "dump of the transmitted samples", fget(OUTDIR "/tx.mod2sdr.%d.cf32", c->details), ref, n);
    }
    if (!p->dump && fget(OUTDIR "/tx.mod2sdr.%d.cf32", c->details)) mc_fail(K_ORACLE, "C09", "a dump that was not asked for");
}
static void sc_rx_battery(int t) {
    conf(t, 0, 64, 8); SDC.nsamples = 100; radio_left = 2;
    if (t == 1) use_radio();
    if (t == 0) start_mock();
    mc_file_put("/sim/in.cf32", sdr_tab[0], 130 * 8);
    struct rxp p; rx_base(&p);
    int i = mc_choose(N(MRX) + 1, 0, "first changed field"), j = 0;
    if (i) { mut_rx(&p, &MRX[i - 1]); j = mc_choose(N(MRX) + 1 - i, 0, "second changed field"); if (j) { if (MRX[i - 1 + j].f == MRX[i - 1].f) return; mut_rx(&p, &MRX[i - 1 + j]); } }
    int want = verdict_rx(&p);
    if (want == V_SKIP) { mc_hit("too many filter taps to run"); return; }
    if (!begin()) return;
    run_rx(&CL[0], &p, want);
    finish();
}
static void sc_tx_battery(int t) {
    conf(2, t, 8, 4);
    if (t == 1) use_radio();
    struct txp p; tx_base(&p);
    int i = mc_choose(N(MTX) + 1, 0, "first changed field"), j = 0;
    if (i) { mut_tx(&p, &MTX[i - 1]); j = mc_choose(N(MTX) + 1 - i, 0, "second changed field"); if (j) { if (MTX[i - 1 + j].f == MTX[i - 1].f) return; mut_tx(&p, &MTX[i - 1 + j]); } }
    int want = verdict_tx(&p);
    if (!begin()) return;
    run_tx(&CL[0], &p, want);
    finish();
}
// the radio in full duplex: what is asked for while the other side is used
// ------------------------------------------------------------------ malformed bodies
// an independent decoder; false: malformed. *unsure: legal protobuf implementations may differ
static bool d_var(const uint8_t *b, size_t n, size_t *i, uint64_t *v) { *v = 0; for (int s = 0; s < 70; s += 7) { if (*i >= n || s >= 70) return false; uint8_t c = b[(*i)++]; if (s < 64) *v |= (uint64_t) (c & 0x7f) << s; if (!(c & 0x80)) return true; } return false; }
struct fld { int f, w; uint64_t v; const uint8_t *p; size_t n; };
static int d_field(const uint8_t *b, size_t n, size_t *i, struct fld *f, bool *unsure) {   // 1 field, 0 end, -1 malformed
    if (*i >= n) return 0;
    size_t at = *i; uint64_t t; if (!d_var(b, n, i, &t)) return -1;
    if (*i - at > 5) *unsure = true;
    f->w = t & 7; uint64_t num = t >> 3; if (num == 0 || num > 536870911) *unsure = true; f->f = num > 1000 ? 1000 : (int) num;
    if (f->w == 0) return d_var(b, n, i, &f->v) ? 1 : -1;
    if (f->w == 1) { if (n - *i < 8) return -1; *i += 8; return 1; }
    if (f->w == 5) { if (n - *i < 4) return -1; *i += 4; return 1; }
    if (f->w == 2) { uint64_t l; at = *i; if (!d_var(b, n, i, &l)) return -1; if (*i - at > 5) *unsure = true; if (l > n - *i) return -1; f->p = b + *i; f->n = l; *i += l; return 1; }
    if (f->w == 3 || f->w == 4) { *unsure = true; return -1; }
    return -1;
}
static char fname[3][300]; static int nfname;
static const char *d_str(const struct fld *f, bool *unsure) { char *o = fname[nfname++ % 3]; size_t n = f->n > 299 ? 299 : f->n; memcpy(o, f->p, n); o[n] = 0; for (size_t i = 0; i < n; i++) if (!o[i] || (o[i] & 0x80)) *unsure = true; return o; }
#define WANTW(x) if (f.w != (x)) { *unsure = true; continue; }
static bool d_file(const struct fld *g, const char **file, uint64_t *start, bool *unsure) { size_t i = 0; struct fld f; int r; *file = ""; int got = 0; while ((r = d_field(g->p, g->n, &i, &f, unsure)) == 1) { if (f.f == 1) { WANTW(2) got |= 1; *file = d_str(&f, unsure); } else if (f.f == 2) { WANTW(0) got |= 2; *start = f.v; } } return r == 0 && got == 3; }
static bool d_rx(const uint8_t *b, size_t n, struct rxp *p, bool *unsure) {
    memset(p, 0, sizeof *p); size_t i = 0; struct fld f, g; int r; int seen = 0; bool ok = true;
    while ((r = d_field(b, n, &i, &f, unsure)) == 1) {
        if (f.f <= 8) { WANTW(0) seen |= 1 << f.f; switch (f.f) { case 1: p->center = f.v; break; case 2: p->rate = f.v; break; case 3: p->dump = f.v != 0; break; case 4: p->offset = f.v; break; case 5: p->demod = (int) f.v; break; case 6: p->baud = (uint32_t) f.v; break; case 7: p->dec = (uint32_t) f.v; break; case 8: p->dest = (int) f.v; break; } }
        else if (f.f <= 11) {
            WANTW(2) if (seen & 1 << f.f) *unsure = true; seen |= 1 << f.f;
            if (f.f == 10) { p->has_fsk = 1; size_t k = 0; int q, got = 0; while ((q = d_field(f.p, f.n, &k, &g, unsure)) == 1) if (g.f <= 3) { got |= 1 << g.f; if (g.w) { *unsure = true; continue; } if (g.f == 1) p->dev = g.v; if (g.f == 2) p->tw = (uint32_t) g.v; if (g.f == 3) p->dc = g.v != 0; } if (q || (got & 14) != 14) ok = false; }
            else if (f.f == 11) { if (!d_file(&f, &p->file, &p->start, unsure)) ok = false; }
            else *unsure = true;
        }
    }
    return ok && r == 0 && (seen & 0x1fe) == 0x1fe;   // every required field
}
static bool d_tx(const uint8_t *b, size_t n, struct txp *p, bool *unsure) {
    memset(p, 0, sizeof *p); size_t i = 0; struct fld f, g; int r; int seen = 0; bool ok = true;
    while ((r = d_field(b, n, &i, &f, unsure)) == 1) {
        if (f.f <= 6) { WANTW(0) seen |= 1 << f.f; switch (f.f) { case 1: p->center = f.v; break; case 2: p->rate = f.v; break; case 3: p->dump = f.v != 0; break; case 4: p->offset = f.v; break; case 5: p->mod = (int) f.v; break; case 6: p->baud = (uint32_t) f.v; break; } }
        else if (f.f <= 9) {
            WANTW(2) if (seen & 1 << f.f) *unsure = true; seen |= 1 << f.f;
            if (f.f == 8) { p->has_fsk = 1; size_t k = 0; int q, got = 0; while ((q = d_field(f.p, f.n, &k, &g, unsure)) == 1) if (g.f == 1) { got = 1; if (g.w) { *unsure = true; continue; } p->dev = g.v; } if (q || !got) ok = false; }
            else if (f.f == 9) { if (!d_file(&f, &p->file, &p->start, unsure)) ok = false; }
            else *unsure = true;
        }
    }
    return ok && r == 0 && (seen & 0x7e) == 0x7e;
}
static bool send_body(struct cli *c, int type, const uint8_t *b, size_t n) { cl_connect(c); if (c->refused) return false; uint8_t h[6] = {0, (uint8_t) type, (uint8_t) (n >> 24), (uint8_t) (n >> 16), (uint8_t) (n >> 8), (uint8_t) n}; cl_send(c, h, 6); if (n) cl_send(c, b, n); return true; }
// p: 0,1 = receive request cut anywhere / one byte changed; 2,3 = transmit request
static void sc_bytes(int p) {
    framing = !(p & 1);
    conf(p < 2 ? 0 : 2, p < 2 ? 0 : 2, p < 2 ? 64 : 8, 8); SDC.nsamples = 64;
    static struct enc e; e.n = 0; struct rxp r = rx_def(), dr; struct txp t = tx_def(), dt; bool unsure = false, good; int want;
    r.offset = -3000; r.file = "/sim/in.cf32"; r.start = 300;
    if (p < 2) e_rx(&e, &r); else e_tx(&e, &t);
    if (p & 1) {
        int at = mc_choose((int) e.n, 0, "byte"), how = mc_choose(7, 0, "change"); uint8_t *x = &e.b[at], o = *x;
        *x = how == 0 ? o ^ 0x80 : how == 1 ? 0 : how == 2 ? 0xff : how == 3 ? o + 1 : how == 4 ? o ^ 8 : how == 5 ? o - 1 : o ^ 1;
        if (*x == o) return;
    } else { e.n = mc_choose((int) e.n + 1, 0, "bytes of the message"); }
    good = p < 2 ? d_rx(e.b, e.n, &dr, &unsure) : d_tx(e.b, e.n, &dt, &unsure);
    want = !good ? V_INVALID : p < 2 ? verdict_rx(&dr) : verdict_tx(&dt);
    if (want == V_SKIP) { mc_hit("too many filter taps to run"); return; }
    if (unsure) { want = V_ANY; mc_hit("decoders may differ"); }
    if (p < 2) start_mock();
    if (!begin()) return;
    struct cli *c = &CL[0];
    if (!send_body(c, p < 2 ? 0 : 5, e.b, e.n)) return;
    if (answered(c, want, p < 2 ? "receive request" : "transmit request")) {
        if (!unsure && p < 2 && nsd == 1 && ((uint64_t) SD[0].center != (uint64_t) dr.center + (uint64_t) dr.offset || (uint64_t) SD[0].band != (uint64_t) dr.center || (uint64_t) SD[0].rate != (uint64_t) dr.rate)) mc_fail(K_ORACLE, "C16", "the SDR server was asked for center %u band %u rate %u", SD[0].center, SD[0].band, SD[0].rate);
        mc_hit("accepted");
        cl_bye(c); cl_eof(c);
    }
    cl_close(c);
    nsd = 0;
    finish();
}
// headers: version, type, announced length against what follows
static void sc_header(int p) {
    framing = p > 0;
    conf(0, 2, 64, 8); SDC.nsamples = 64;
    struct rxp r = rx_def(); struct txp t = tx_def(); static struct enc e; e.n = 0;
    int kind = mc_choose(2, 0, "receive or transmit"), want; if (kind) e_tx(&e, &t); else e_rx(&e, &r);
    struct cli *c = &CL[0]; int ver = 0, type = kind ? 5 : 0; uint32_t len = (uint32_t) e.n; size_t body = e.n; bool hang = false;
    if (p == 0) { ver = mc_choose(256, 0, "version"); want = ver ? V_INVALID : V_OK; }
    else if (p == 1) { type = mc_choose(256, 0, "type"); want = type == 0 ? (kind ? V_ANY : V_OK) : type == 5 ? (kind ? V_OK : V_ANY) : V_INVALID; if (type == 3) want = V_OK; }
    else if (p == 2) {   // unknown fields of the message make it longer: up to the supported size
        static const int total[] = {100, 1000, 32 * 1024 - 1, 32 * 1024 + 1, 32 * 1024 + 100, 36000, 39000};
        int k = mc_choose(7, 0, "size of the message"); static uint8_t pad[40000]; int extra = total[k] - (int) e.n - (total[k] - (int) e.n > 16384 + 4 ? 5 : total[k] - (int) e.n > 128 + 3 ? 4 : 3);
        e_bytes(&e, 100, pad, extra); len = (uint32_t) e.n; body = e.n; want = e.n <= 32 * 1024 - 1 ? V_OK : e.n == 32 * 1024 ? V_ANY : V_INVALID;
    } else {             // announced more than is sent: the server gives up after its timeout, or sees the end
        static const uint32_t add[] = {1, 100, 32 * 1024 - 200, 40000, 0x7fffffff, 0x80000000u, 0xffffff00u};
        len += add[mc_choose(7, 0, "announced length")]; want = V_INVALID; hang = mc_choose(2, 0, "keeps quiet or closes");
    }
    start_mock();
    if (!begin()) return;
    cl_connect(c); if (c->refused) return;
    uint8_t h[6] = {(uint8_t) ver, (uint8_t) type, (uint8_t) (len >> 24), (uint8_t) (len >> 16), (uint8_t) (len >> 8), (uint8_t) len};
    cl_send(c, h, 6); cl_send(c, e.b, body);
    if (p == 3 && !hang) cl_close(c);
    else if (type == 3) { if (!cl_response(c)) mc_fail(K_ORACLE, "C05", "a ping was not answered"); cl_eof(c); cl_close(c); }
    else { if (answered(c, want, "request")) { mc_hit("accepted"); cl_bye(c); cl_eof(c); } cl_close(c); }
    nsd = 0;
    if (p == 3) mc_sleep(6000);
    finish();
}
// ------------------------------------------------------------------ histories of receivers that share SDR connections
static int refuse_next; static bool connecting;
static void *pump_listener(void *a) {   // answers the requests; the driver delivers the samples
    for (;;) {
        mc_conn *c = env_accept(SDRPORT);
        if (!c) return NULL;
        if (nsd == 8) { mc_fail(K_ORACLE, "C07", "too many SDR connections"); return NULL; }
        int i = nsd++; struct sdrconn *s = &SD[i]; uint8_t q[15], r[7] = {0, 2, 0, 0, 0, 0, 3};
        s->c = c;
        if (env_recv_full(c, q, 15) < 15) { s->ended = true; env_close(c); continue; }
        s->center = be32(q + 2); s->rate = be32(q + 6); s->band = be32(q + 10); s->dest = q[14];
        if (q[0] || q[1] || q[14] != 1) mc_fail(K_ORACLE, "C16", "request to the SDR server has version %d type %d destination %d", q[0], q[1], q[14]);
        if (refuse_next) { r[2] = 1; env_send(c, r, 7); s->ended = true; env_close(c); continue; }
        s->ok = true;
        env_send(c, r, 7);
    }
}
struct slot { bool on, tx; int conn, tuning; size_t joined; int sent; int file; size_t radio_from; };
static struct slot SL[4];
static const struct { int64_t dc; uint64_t rate; int64_t off; } TUNE[] = {{0, 9600, 0}, {25000, 9600, 0}, {0, 9600, -1500}, {0, 19200, 0}};
static uint32_t ids[1200]; static int nids;
static void new_id(struct cli *c) { for (int i = 0; i < nids; i++) if (ids[i] == c->details) { mc_fail(K_ORACLE, "C04", "identifier %u was answered twice", c->details); return; } ids[nids++] = c->details; }
static void fresh(int i) { static const char *nm[] = {"A", "B", "C", "D"}; memset(&CL[i], 0, sizeof CL[i]); CL[i].name = nm[i]; }
static int members(int conn) { int n = 0; for (int i = 0; i < 4; i++) n += SL[i].on && !SL[i].tx && SL[i].conn == conn; return n; }
static void pump_all(void) {
    for (int j = 0; j < nsd; j++) {
        struct sdrconn *s = &SD[j];
        if (s->ended) continue;
        if (!members(j)) { if (s->ok && !s->ended) mc_fail(K_ORACLE, "C07", "SDR connection %d is open although no session uses it", j); continue; }
        if (env_peer_closed(s->c) || env_pending(s->c)) { mc_fail(K_ORACLE, "C07", "SDR connection %d was closed although a session uses it", j); return; }
        if (s->sent + 64 > NS) continue;
        env_send(s->c, sdr_tab[j & 3] + s->sent, 64 * 8); s->sent += 64;
    }
    mc_sleep(50);
    for (int i = 0; i < 4; i++) if (SL[i].on && !SL[i].tx && !SD[SL[i].conn].ended) {
        size_t before = CL[i].nst;
        cl_read(&CL[i], before + 1, 1000);
        if (CL[i].nst == before) { mc_fail(K_ORACLE, "C07", "session %s got nothing although its SDR delivered samples", CL[i].name); return; }
        cl_read(&CL[i], sizeof CL[i].st, 10);
    }
}
static void rx_left(int i) {     // the session is over: everything delivered while it was there, and nothing else
    struct slot *s = &SL[i]; int8_t name = 0; (void) name;
    s->on = false;
    struct mc_file *d = fget(OUTDIR "/rx.sdr2demod.%d.cf32", CL[i].details);
    if (cfg.rx_sdr_type == 0) {
        int at = d ? check_run("C07", CL[i].name, d, s->conn, SD[s->conn].sent, true) : -1;
        if (at >= 0 && d->len && at != (int) s->joined) mc_fail(K_ORACLE, "C07", "session %s starts at sample %d of its SDR connection, it joined at %zu", CL[i].name, at, s->joined);
    }
    rx_check(&CL[i], -1, false, true);
}
static void join(int i, int t, int want) {
    fresh(i); RXP[i] = rx_def(); RXP[i].center += TUNE[t].dc; RXP[i].rate = TUNE[t].rate; RXP[i].offset = TUNE[t].off; RXP[i].dest = 1 + (i & 1);
    if (i & 1) RXP[i].baud = 2400, RXP[i].dev = 1500;
    if (want == 3 && !refuse_next) RXP[i].dev = 0;
    int j = -1, before = nsd; struct enc *f = rx_frame(&RXP[i]);
    for (int k = 0; k < nsd; k++) if (!SD[k].ended) for (int m = 0; m < 4; m++) if (SL[m].on && !SL[m].tx && SL[m].conn == k && SL[m].tuning == t) j = k;
    if (refuse_next && j >= 0) want = V_OK;
    cl_connect(&CL[i]); if (CL[i].refused) return;
    cl_send(&CL[i], f->b, f->n);
    bool ok = cl_response(&CL[i]);
    if (ok != (want == V_OK) || (!ok && CL[i].details != want)) { mc_fail(K_ORACLE, "C07", "session %s: the answer is status %d details %u instead of %d", CL[i].name, CL[i].status, CL[i].details, want); return; }
    if (!ok) { if (nsd != before + (refuse_next && j < 0)) mc_fail(K_ORACLE, "C07", "a refused request opened an SDR connection"); cl_eof(&CL[i]); cl_close(&CL[i]); return; }
    new_id(&CL[i]);
    mc_sleep(20);
    if (j >= 0) { if (nsd != before) { mc_fail(K_ORACLE, "C07", "a second SDR connection was opened for a tuning that is already received"); return; } mc_hit("joined a stream"); }
    else {
        if (nsd != before + 1) { mc_fail(K_ORACLE, "C07", "%d SDR connections were opened for a new tuning", nsd - before); return; }
        j = nsd - 1; if (SD[j].center != RXP[i].center + RXP[i].offset || SD[j].band != RXP[i].center || SD[j].rate != RXP[i].rate) mc_fail(K_ORACLE, "C16", "the SDR server was asked for center %u band %u rate %u", SD[j].center, SD[j].band, SD[j].rate);
        mc_hit("new SDR connection");
    }
    SL[i] = (struct slot) {.on = true, .conn = j, .tuning = t, .joined = SD[j].sent};
}
static void leave(int i, bool abrupt) {
    int j = SL[i].conn; bool last = members(j) == 1 && !SD[j].ended;
    if (abrupt) cl_close(&CL[i]); else cl_bye(&CL[i]);
    if (last) {
        uint8_t b[2]; int n = env_recv_timeout(SD[j].c, b, 2, 20000);
        if (n != 2 || b[0] != 0 || b[1] != 1) mc_fail(K_ORACLE, "C07", "SDR connection %d was not told that its last session left (%d)", j, n);
        SD[j].ended = SD[j].bye = true; env_close(SD[j].c); mc_hit("last session left");
    } else mc_hit("another session stays");
    if (abrupt) mc_sleep(200); else { cl_eof(&CL[i]); cl_close(&CL[i]); }
    rx_left(i);
}
static void sdr_gone(int j) {   // the sessions stay until their clients leave; they have everything that was delivered
    SD[j].ended = true; env_close(SD[j].c); mc_hit("SDR ended"); mc_sleep(100);
}
static int free_slot(void) { for (int i = 0; i < 4; i++) if (!SL[i].on) return i; return -1; }
static void sc_share_hist(int depth) {
    conf(0, 0, 64, 8); mc_cfg.max_timeouts = 4000;
    env_listen(SDRPORT); mc_spawn("sdr listener", pump_listener, NULL);
    if (!begin()) return;
    for (int d = 0; d < depth; d++) {
        struct { int k, a; } op[24]; int n = 0, f = free_slot();
        if (f >= 0) for (int t = 0; t < 4; t++) { op[n].k = 0; op[n++].a = t; }
        if (f >= 0) { op[n].k = 1; op[n++].a = 0; op[n].k = 2; op[n++].a = 0; }
        for (int i = 0; i < 4; i++) if (SL[i].on) { op[n].k = 3; op[n++].a = i; op[n].k = 4; op[n++].a = i; }
        for (int j = 0; j < nsd; j++) if (members(j) && !SD[j].ended) { op[n].k = 5; op[n++].a = j; }
        int c = mc_choose(n, 0, "operation");
        mc_outcome("%d.%d ", op[c].k, op[c].a);
        switch (op[c].k) {
            case 0: join(f, op[c].a, V_OK); break;
            case 1: refuse_next = 1; join(f, 0, 3); refuse_next = 0; if (CL[f].got && CL[f].status == 0) ; break;
            case 2: join(f, 0, 3); break;
            case 3: leave(op[c].a, false); break;
            case 4: leave(op[c].a, true); break;
            case 5: sdr_gone(op[c].a); break;
        }
        pump_all();
    }
    for (int i = 0; i < 4; i++) if (SL[i].on) leave(i, false);
    pump_all();
    finish();
}
// ------------------------------------------------------------------ histories of owners of the transmitter (and of the radio's receiver)
static int tx_holder = -1, rx_holder = -1, nfile; static uint64_t RATE;
static void tx_open(int i, int how) {
    fresh(i); tx_base(&TXP[i]); static char fn[16][40]; int k = nfile++ % 16; snprintf(fn[k], 40, "/sim/tx%d.cf32", k);
    TXP[i].dump = 0; if (cfg.tx_sdr_type == 2) TXP[i].file = fn[k];
    int want = tx_holder >= 0 ? 4 : 0; bool either = false;
    if (how == 1) { TXP[i].baud = 0; want = 1; }
    if (how == 2) { TXP[i].dev = (long long) 1 << 40; either = want == 4; want = 3; }
    if (how == 3) { if (cfg.tx_sdr_type == 2) TXP[i].file = "/nowhere/x"; else TXP[i].rate = 520000; either = want == 4; want = 3; }
    struct enc *f = tx_frame(&TXP[i]);
    cl_connect(&CL[i]); if (CL[i].refused) return;
    cl_send(&CL[i], f->b, f->n);
    bool ok = cl_response(&CL[i]);
    if (!CL[i].got) { mc_fail(K_ORACLE, "C04", "no answer to a transmit request"); return; }
    if (ok) new_id(&CL[i]);
    if (ok && tx_holder >= 0) { mc_fail(K_ORACLE, "C06", "client %s was given the transmitter although client %s has it", CL[i].name, CL[tx_holder].name); return; }
    if (!ok && want == 0) { mc_fail(K_ORACLE, "C06", "the transmitter is free, but client %s was refused with details %u", CL[i].name, CL[i].details); return; }
    if (ok != (want == 0) || (!ok && CL[i].details != want && !(either && CL[i].details == 4))) { mc_fail(K_ORACLE, want == 4 ? "C06" : "C05", "client %s: status %d details %u instead of %d", CL[i].name, CL[i].status, CL[i].details, want); return; }
    if (!ok) { cl_eof(&CL[i]); cl_close(&CL[i]); mc_hit(want == 4 ? "refused as busy" : "refused"); return; }
    tx_holder = i; SL[i] = (struct slot) {.on = true, .tx = true, .file = k, .radio_from = FI.ntx}; mc_hit("owner");
}
static void tx_data(int i, int n) {
    struct enc *f = txdata_frame(SL[i].sent, n); int st; uint32_t de;
    cl_send(&CL[i], f->b, f->n);
    if (!rd_frame(&CL[i], &st, &de)) mc_fail(K_ORACLE, "C06", "the owner of the transmitter lost its connection");
    else if (st) mc_fail(K_ORACLE, "C06", "the owner of the transmitter was refused data with details %u", de);
    SL[i].sent += n;
}
static void tx_left(int i) {
    static float complex ref[60000]; struct txp *p = &TXP[i];
    size_t n = 0; { int at = 0; n = ref_mod(p, 0, SL[i].sent, 8, ref, 60000); (void) at; }
    if (cfg.tx_sdr_type == 2) cmp_cf("C06", "what the owner transmitted", mc_file_get(p->file), ref, n);
    else if (FI.ntx - SL[i].radio_from != n) mc_fail(K_ORACLE, "C06", "the radio got %zu samples from the owner instead of %zu", FI.ntx - SL[i].radio_from, n);
    else for (size_t k = 0; k < n; k++) if (fabs(FI.tx[2 * (k + SL[i].radio_from)] - crealf(ref[k]) * 32752) > 120) { mc_fail(K_ORACLE, "C06", "sample %zu of the owner is wrong", k); break; }
    SL[i].on = false; tx_holder = -1;
}
static void rx_open(int i) {
    fresh(i); rx_base(&RXP[i]); RXP[i].dest = 1; SDC.nsamples = 64; radio_left = 1;
    int want = cfg.rx_sdr_type == 1 && rx_holder >= 0 ? 5 : 0; struct enc *f = rx_frame(&RXP[i]);
    cl_connect(&CL[i]); if (CL[i].refused) return;
    cl_send(&CL[i], f->b, f->n);
    bool ok = cl_response(&CL[i]);
    if (!CL[i].got || ok != (want == 0) || (!ok && CL[i].details != want)) { mc_fail(K_ORACLE, "C06", "receive request: status %d details %u instead of %d", CL[i].status, CL[i].details, want); return; }
    if (!ok) { cl_eof(&CL[i]); cl_close(&CL[i]); mc_hit("receiver refused as busy"); return; }
    new_id(&CL[i]);
    rx_holder = i; SL[i] = (struct slot) {.on = true, .conn = nsd}; mc_hit("receiver");
    cl_read(&CL[i], 1, 2000);
    int others = 0; for (int k = 0; k < 4; k++) others += k != i && SL[k].on && !SL[k].tx;
    if (!CL[i].nst && !others) mc_fail(K_ORACLE, "C06", "the receiver got nothing");
}
static void go(int i, bool abrupt) {
    if (abrupt) { cl_close(&CL[i]); mc_sleep(3000); }
    else { cl_bye(&CL[i]); cl_eof(&CL[i]); cl_close(&CL[i]); }
    if (SL[i].tx) tx_left(i);
    else { SL[i].on = false; rx_check(&CL[i], -1, false, true); rx_holder = -1; for (int k = 0; k < 4; k++) if (SL[k].on && !SL[k].tx) rx_holder = k; }
}
static void sc_owner_hist(int p) {
    int depth = p & 15, pluto = p >> 4;
    conf(pluto ? 1 : 0, pluto ? 1 : 2, 8, 4); mc_cfg.max_timeouts = 4000;
    if (pluto) use_radio(); else start_mock();
    if (!begin()) return;
    for (int d = 0; d < depth; d++) {
        struct { int k, a; } op[24]; int n = 0, f = free_slot();
        if (f >= 0 && f < 3) for (int k = 0; k < 5; k++) { op[n].k = k; op[n++].a = f; }
        for (int i = 0; i < 3; i++) if (SL[i].on) { op[n].k = 5; op[n++].a = i; op[n].k = 6; op[n++].a = i; }
        if (tx_holder >= 0) { op[n].k = 7; op[n++].a = 5; op[n].k = 7; op[n++].a = 9; }
        op[n].k = 8; op[n++].a = 0;
        int c = mc_choose(n, 0, "operation"), a = op[c].a;
        mc_outcome("%d.%d ", op[c].k, a);
        if (op[c].k < 4) tx_open(a, op[c].k);
        else if (op[c].k == 4) { if (a < 2) rx_open(a); else rx_open(a); }
        else if (op[c].k == 5) go(a, false);
        else if (op[c].k == 6) go(a, true);
        else if (op[c].k == 7) tx_data(tx_holder, a);
        else ping();
        if (pluto) {
            const char *w = tx_holder >= 0 ? fi_stream_wrong(true, TXP[tx_holder].center, TXP[tx_holder].rate, cfg.tx_plutosdr_gain, 0) : NULL;
            if (w) mc_fail(K_ORACLE, "C06", "the owner of the transmitter was disturbed: %s", w);
            w = rx_holder >= 0 ? fi_stream_wrong(false, RXP[rx_holder].center, RXP[rx_holder].rate, cfg.rx_plutosdr_gain, 0) : NULL;
            if (w) mc_fail(K_ORACLE, "C06", "the owner of the receiver was disturbed: %s", w);
            if (tx_holder < 0 && rx_holder < 0 && fi_held()) mc_fail(K_ORACLE, "C11", "%s of the radio is held although nobody uses it", fi_held());
        }
    }
    if (tx_holder >= 0) tx_data(tx_holder, 3);
    for (int i = 0; i < 3; i++) if (SL[i].on) go(i, false);
    finish();
}
// ------------------------------------------------------------------ much of the same
static void one_request(int kind) {
    struct rxp r; struct txp t; struct enc *f = NULL; static struct enc e; int want = 1; memset(&CL[3], 0, sizeof CL[3]); CL[3].name = "D"; rx_base(&r); tx_base(&t);
    if (kind == 0) { ping(); return; }
    if (kind == 1) { r.baud = 0; f = rx_frame(&r); }
    if (kind == 2) { r.file = "/sim/absent"; f = rx_frame(&r); want = 3; }
    if (kind == 3) { t.baud = 0; f = tx_frame(&t); }
    if (kind == 4) { t.dev = (long long) 1 << 40; f = tx_frame(&t); want = 3; }
    if (kind == 5) { memcpy(e.b, "\0\11\0\0\0\0", 6); e.n = 6; f = &e; }
    cl_connect(&CL[3]); if (CL[3].refused) { mc_fail(K_ORACLE, "C02", "the server does not accept clients any more"); return; }
    cl_send(&CL[3], f->b, f->n); bool ok = cl_response(&CL[3]);
    if (!CL[3].got || ok || (int) CL[3].details != want) mc_fail(K_ORACLE, "C04", "request of kind %d: status %d details %u instead of %d", kind, CL[3].status, CL[3].details, want);
    cl_eof(&CL[3]); if (CL[3].nst) mc_fail(K_ORACLE, "C04", "bytes follow a refusal"); cl_close(&CL[3]);
}
static void sc_many(int p) {         // sessions with hundreds of other requests in between: identifiers stay distinct, resources do not grow
    conf(2, 2, 64, 4); mc_cfg.max_timeouts = 20000; mc_file_put("/sim/in.cf32", sdr_tab[0], 200 * 8); int gap = mc_choose(3, 0, "requests in between"), kinds = mc_choose(3, 0, "kinds of requests"); gap = gap == 0 ? 254 : gap == 1 ? 255 : 256;
    if (!begin()) return;
    for (int i = 0; i < 3; i++) {
        fresh(i); rx_base(&RXP[i]); RXP[i].dest = 2; struct enc *f = rx_frame(&RXP[i]); cl_connect(&CL[i]); if (CL[i].refused) return;
        cl_send(&CL[i], f->b, f->n); if (!cl_response(&CL[i])) { mc_fail(K_ORACLE, "C05", "request %d was refused", i * (gap + 1)); return; }
        new_id(&CL[i]); if (p == 0 || i == 1) { cl_read(&CL[i], 100, 3000); mc_sleep(100); }
        long mem = mc_live_allocs(); int fds = mc_open_fds(), thr = mc_live_server_threads();
        if (i < 2) for (int k = 0; k < gap; k++) one_request(kinds == 0 ? 0 : kinds == 1 ? k % 6 : 1 + k % 4);
        if (i < 2 && (mc_live_allocs() > mem || mc_open_fds() > fds || mc_live_server_threads() > thr)) mc_fail(K_ORACLE, "C11", "after %d requests: %ld memory blocks, %d descriptors, %d threads are held, %ld, %d, %d before", gap, mc_live_allocs(), mc_open_fds(), mc_live_server_threads(), mem, fds, thr);
    }
    for (int i = 0; i < 3; i++) { cl_bye(&CL[i]); cl_eof(&CL[i]); cl_close(&CL[i]); }
    finish();
    for (int i = 0; i < 3; i++) { rx_check(&CL[i], -1, true, true); struct mc_file *d = fget(OUTDIR "/rx.sdr2demod.%d.cf32", CL[i].details); if (d && (d->len != 1600 || memcmp(d->data, sdr_tab[0], 1600))) mc_fail(K_ORACLE, "C08", "the dump of session %u has %zu bytes and is not the file", CL[i].details, d->len); }
}
static void sc_long_tx(int p) {      // hundreds of messages in one session
    conf(2, 2, 8, 4); mc_cfg.max_timeouts = 20000; if (!begin()) return;
    fresh(0); tx_base(&TXP[0]); TXP[0].dump = 1; TXP[0].file = "/sim/tx.cf32"; if (mc_choose(2, 0, "offset")) TXP[0].offset = 1000; int sizes = mc_choose(4, 0, "sizes"); if (sizes == 3) { TXP[0].tle = TLE_OK; TXP[0].ntle = 3; TXP[0].start = 1583840449; TXP[0].lat = 537200000; TXP[0].lon = 475700000; }
    struct enc *f = tx_frame(&TXP[0]); cl_connect(&CL[0]); if (CL[0].refused) return; cl_send(&CL[0], f->b, f->n); if (!cl_response(&CL[0])) { mc_fail(K_ORACLE, "C05", "a valid request was refused"); return; }
    int n = 0, m = TXP[0].offset && !TXP[0].tle ? 150 : p ? 1200 : 300;   // the phase of the oscillator is a float
    for (int k = 0; k < m; k++) { int len = sizes == 0 ? 1 : sizes == 2 ? k % 11 : 8; f = txdata_frame(n, len); int st; uint32_t de; cl_send(&CL[0], f->b, f->n); if (!rd_frame(&CL[0], &st, &de) || st) { mc_fail(K_ORACLE, "C09", "message %d was not answered with success", k); return; } n += len; }
    cl_bye(&CL[0]); cl_eof(&CL[0]); cl_close(&CL[0]); finish();
    static float complex ref[300000]; size_t rn = tx_expect(&CL[0], &TXP[0], n, mc_file_get("/sim/tx.cf32"), ref, 300000);
    cmp_cf("C09", "transmitted samples", mc_file_get("/sim/tx.cf32"), ref, rn); cmp_cf("C09", "dump of the transmitted samples", fget(OUTDIR "/tx.mod2sdr.%d.cf32", CL[0].details), ref, rn);
}
#define NLONG 30000
static void sc_long_rx(int p) {      // thousands of samples through one session
    static float complex sig[NLONG]; { double ph = 0; uint32_t r = 99; for (int k = 0; k < NLONG; k++) { if (k % 2 == 0) r = r * 1664525u + 1013904223u; ph += ((r >> 24) & 1 ? 1 : -1) * 2 * M_PI * 1200 / 9600.0; double a = 0.3 + k * 0.00002; sig[k] = (float) (a * cos(ph)) + I * (float) (a * sin(ph)); } }
    static const int B[] = {64, 7, 1000}; int buf = B[mc_choose(3, 0, "buffer size")], n = buf == 7 ? 8000 : NLONG - 3; conf(2, 0, buf, p ? 1 : 4); mc_cfg.max_timeouts = 20000; mc_file_put("/sim/in.cf32", sig, n * 8); if (!begin()) return;
    fresh(0); rx_base(&RXP[0]); RXP[0].dest = 2; if (mc_choose(2, 0, "Doppler")) { RXP[0].tle = TLE_OK; RXP[0].ntle = 3; RXP[0].start = 1583840449; RXP[0].lat = 537200000; RXP[0].lon = 475700000; }
    struct enc *f = rx_frame(&RXP[0]); cl_connect(&CL[0]); if (CL[0].refused) return; CL[0].t_req = mc_now(); cl_send(&CL[0], f->b, f->n); if (!cl_response(&CL[0])) { mc_fail(K_ORACLE, "C05", "a valid request was refused"); return; }
    cl_read(&CL[0], n / 2 - 40, 6000); mc_sleep(1000); cl_bye(&CL[0]); cl_eof(&CL[0]); cl_close(&CL[0]); finish();
    rx_check(&CL[0], -1, true, true); struct mc_file *d = fget(OUTDIR "/rx.sdr2demod.%d.cf32", CL[0].details); if (d && (d->len != (size_t) n * 8 || memcmp(d->data, sig, n * 8))) mc_fail(K_ORACLE, "C08", "the dump has %zu samples and is not the file of %d", d->len / 8, n);
}
// ------------------------------------------------------------------ what one session transmits into a file, another one receives from it
static void sc_loopback(int p) {
    static const struct { int fs, baud, dev, dec, tw, dc; } C[] = {{48000, 4800, 5000, 2, 2000, 0}, {9600, 4800, 1200, 1, 2000, 0}, {48000, 9600, 5000, 1, 2000, 0}, {19200, 2400, 1200, 2, 1000, 0}, {9600, 1200, 600, 4, 600, 0}, {38400, 9600, 3200, 1, 3000, 0}, {48000, 4800, 5000, 2, 2000, 1}, {48000, 1200, -600, 10, 500, 0}};
    int k = mc_choose(8, 0, "configuration"), blk = mc_choose(p ? 64 : 6, 0, "block of payload patterns"), how = mc_choose(4, 0, "corrections"), sz = mc_choose(3, 0, "sizes"); if (!p) blk = blk * 12 + blk % 4;
    int dc = C[k].dc, pre = dc ? 96 : 48, pay = dc ? 32 : 96, tail = dc ? 24 : 8, tot = pre + pay + tail; double sps = (double) C[k].fs / C[k].baud;
    static uint8_t b[400]; uint32_t r = 1; for (int i = 0; i < 400; i++) { r = r * 1664525u + 1013904223u; b[i] = r >> 24; }
    if (dc) for (int i = 0; i < 16; i++) { b[pre + 2 * i] = (uint8_t) (blk * 4 + i * 16); b[pre + 2 * i + 1] = (uint8_t) ~(blk * 4 + i * 16); }
    else for (int i = 0; i < 64; i++) for (int j = 0; j < 12; j++) { int at = i * 12 + j, v = (blk * 64 + i) >> (11 - j) & 1; uint8_t *q = &b[pre + at / 8]; *q = (uint8_t) ((*q & ~(1 << (7 - at % 8))) | v << (7 - at % 8)); }
    conf(2, 2, (int[]) {64, 1000, 2500}[sz], sz ? 4 : 2); mc_cfg.max_timeouts = 20000; if (!begin()) return;
    fresh(0); tx_base(&TXP[0]); TXP[0].dump = 0; TXP[0].file = "/sim/in.cf32"; TXP[0].rate = C[k].fs; TXP[0].baud = C[k].baud; TXP[0].dev = C[k].dev;
    fresh(1); rx_base(&RXP[1]); RXP[1].dump = 0; RXP[1].dest = 2; RXP[1].rate = C[k].fs; RXP[1].baud = C[k].baud; RXP[1].dev = C[k].dev; RXP[1].dec = C[k].dec; RXP[1].tw = C[k].tw; RXP[1].dc = dc;
    if (how & 1) TXP[0].offset = C[k].fs / 8, RXP[1].offset = -C[k].fs / 8;
    if (how & 2) { TXP[0].tle = RXP[1].tle = TLE_OK; TXP[0].ntle = RXP[1].ntle = 3; TXP[0].start = RXP[1].start = 1583840449; TXP[0].lat = RXP[1].lat = 537200000; TXP[0].lon = RXP[1].lon = 475700000; }
    struct enc *f = tx_frame(&TXP[0]); int st; uint32_t de; cl_connect(&CL[0]); if (CL[0].refused) return; cl_send(&CL[0], f->b, f->n); if (!cl_response(&CL[0])) { mc_fail(K_ORACLE, "C05", "a valid transmit request was refused"); return; }
    for (int i = 0, step = (int[]) {1, 37, 400}[sz]; i < tot; i += step) { struct enc m; m.n = 0; e_bytes(&m, 1, b + i, tot - i < step ? tot - i : step); f = mk(4, &m); cl_send(&CL[0], f->b, f->n); if (!rd_frame(&CL[0], &st, &de) || st) { mc_fail(K_ORACLE, "C09", "transmit data was not answered with success"); return; } }
    cl_bye(&CL[0]); cl_eof(&CL[0]); cl_close(&CL[0]);
    f = rx_frame(&RXP[1]); cl_connect(&CL[1]); if (CL[1].refused) return; cl_send(&CL[1], f->b, f->n); if (!cl_response(&CL[1])) { mc_fail(K_ORACLE, "C05", "a valid receive request was refused"); return; }
    cl_read(&CL[1], sizeof CL[1].st, 3000); cl_bye(&CL[1]); cl_eof(&CL[1]); cl_close(&CL[1]); finish();
    struct mc_file *s = fget(OUTDIR "/rx.demod2client.%d.s8", CL[1].details);
    if (!s || s->len != CL[1].nst || memcmp(s->data, CL[1].st, s->len)) { mc_fail(K_ORACLE, "C08", "the file of bits is not what the client got"); return; }
    const int8_t *x = (const int8_t *) CL[1].st; int n = (int) CL[1].nst, from = (pre - 8) * 8, at = -999;
    double tr = floor((double) 0.1f * (fabs(C[k].dev) + C[k].baud / 2.0)), t1 = rf_lpf_len(C[k].fs, tr) / 2.0, t2 = rf_lpf_len(C[k].fs, C[k].tw) / 2.0;
    double expect = (t1 + t2 + 2.5 * sps + 4 * C[k].dec + (dc ? 2.0 * (ceil(sps / C[k].dec * 32) - 1) * C[k].dec : 0)) / sps;
    for (int off = (int) expect - 14; off <= expect + 14 && at == -999; off++) { if (off + from < 0) continue; int e = 0; for (int i = 0; i < 64 && !e; i++) { int q = from + off + i; e = q >= n || (x[q] > 0) != (b[(from + i) / 8] >> (7 - (from + i) % 8) & 1); } if (!e) at = off; }
    if (at == -999) { mc_fail(K_ORACLE, "C22", "the end of the preamble was not received near the expected delay of %.1f bits (%d bits received)", expect, n); return; }
    for (int i = pre * 8; i < (pre + pay) * 8; i++) { int q = i + at, want = b[i / 8] >> (7 - i % 8) & 1; if (q >= n || (x[q] > 0) != want) { mc_fail(K_ORACLE, "C22", "bit %d of the payload was transmitted as %d and received as %d", i - pre * 8, want, q < n ? x[q] > 0 : -1); return; } }
    char nm[60]; snprintf(nm, sizeof nm, "rate %d baud %d dc %d", C[k].fs, C[k].baud, dc); mc_hit(nm);
}
// ------------------------------------------------------------------ framing
struct expect { int status; uint32_t details; };
static struct enc STREAM; static struct expect EX[16]; static int nex; static int bounds[24], nbounds, txbytes;
static void add_raw(int ver, int type, const void *b, size_t n) { struct enc e; uint8_t h[6] = {(uint8_t) ver, (uint8_t) type, (uint8_t) (n >> 24), (uint8_t) (n >> 16), (uint8_t) (n >> 8), (uint8_t) n}; (void) e; memcpy(STREAM.b + STREAM.n, h, 6); if (n) memcpy(STREAM.b + STREAM.n + 6, b, n); STREAM.n += 6 + n; bounds[nbounds++] = (int) STREAM.n; }
static void add_tx(int n) { struct enc *f = txdata_frame(txbytes, n); memcpy(STREAM.b + STREAM.n, f->b, f->n); STREAM.n += f->n; bounds[nbounds++] = (int) STREAM.n; txbytes += n; EX[nex++] = (struct expect) {0, 0}; }
static int framing_script;
static void script(int kind, struct cli *c) {
    static uint8_t junk[2000]; for (int i = 0; i < 2000; i++) junk[i] = i % 7 ? 0 : 1;   // could be read as headers
    STREAM.n = nex = nbounds = txbytes = 0;
    if (kind == 0) {   // transmit session with messages of unknown kinds, other versions and refused contents in between
        TXP[0] = tx_def(); struct enc *f = tx_frame(&TXP[0]); memcpy(STREAM.b, f->b, f->n); STREAM.n = f->n; bounds[nbounds++] = (int) f->n;
        add_tx(2); add_raw(0, 9, junk, 5); add_tx(9); add_raw(3, 4, junk, 7); add_raw(0, 4, "\xff\xff\xff", 3); EX[nex++] = (struct expect) {1, 1}; add_raw(0, 3, NULL, 0); add_raw(0, 0, junk, 11); add_tx(1); add_raw(0, 1, NULL, 0);
    } else if (kind == 1) {   // receive session
        RXP[0] = rx_def(); struct enc *f = rx_frame(&RXP[0]); memcpy(STREAM.b, f->b, f->n); STREAM.n = f->n; bounds[nbounds++] = (int) f->n;
        add_raw(0, 4, junk, 9); add_raw(0, 5, junk, 3); add_raw(7, 1, junk, 4); add_raw(0, 2, NULL, 0); add_raw(0, 1, NULL, 0);
    } else if (kind == 2) {   // a refused oversize message does not matter for the next
        TXP[0] = tx_def(); struct enc *f = tx_frame(&TXP[0]); memcpy(STREAM.b, f->b, f->n); STREAM.n = f->n; bounds[nbounds++] = (int) f->n;
        static uint8_t big[33000]; memcpy(big, junk, 2000);
        add_raw(0, 4, big, 32 * 1024 + 1); EX[nex++] = (struct expect) {1, 1}; add_tx(3); add_raw(0, 1, NULL, 0);
    } else { TXP[0] = tx_def(); TXP[0].baud = 0; struct enc *f = tx_frame(&TXP[0]); memcpy(STREAM.b, f->b, f->n); STREAM.n = f->n; bounds[nbounds++] = (int) f->n; }
}
static bool inside(int at) { for (int i = 0; i < nbounds; i++) if (bounds[i] == at) return false; return true; }
static void send_cut(struct cli *c, int a, int da, int b, int db) {
    size_t n = STREAM.n;
    cl_send(c, STREAM.b, a); if (da) mc_sleep(da);
    cl_send(c, STREAM.b + a, b - a); if (db) mc_sleep(db);
    cl_send(c, STREAM.b + b, n - b);
}
static void framing_checks(int kind, struct cli *c) {
    int st; uint32_t de;
    bool ok = cl_response(c);
    if (!c->got) { mc_fail(K_ORACLE, "C10", "no answer to the request"); return; }
    if (kind == 3) { if (ok || c->details != 1) mc_fail(K_ORACLE, "C10", "the request was answered with %d/%u", c->status, c->details); cl_eof(c); cl_close(c); return; }
    if (!ok) { mc_fail(K_ORACLE, "C10", "a request was refused with details %u because of the way its bytes arrived", c->details); return; }
    if (kind != 1) {
        for (int i = 0; i < nex; i++) { if (!rd_frame(c, &st, &de)) { mc_fail(K_ORACLE, "C10", "message %d of the session got no answer", i); return; } if (st != EX[i].status || de != EX[i].details) { mc_fail(K_ORACLE, "C10", "answer %d is %d/%u instead of %d/%u", i, st, de, EX[i].status, EX[i].details); return; } }
        cl_eof(c);
        if (c->nst) mc_fail(K_ORACLE, "C10", "%zu more bytes than the answers", c->nst);
        cl_close(c);
        static float complex ref[30000]; size_t n = ref_mod(&TXP[0], 0, txbytes, cfg.buffer_size, ref, 30000);
        cmp_cf("C10", "transmitted samples", mc_file_get("/sim/tx.cf32"), ref, n);
    } else { cl_eof(c); cl_close(c); rx_check(c, -1, false, true); }
}
static void sc_framing(int p) {
    int kind = p & 3, two = p >> 2 & 1, step = p >> 4 & 15, intr = p >> 8;
    conf(0, 2, kind == 1 ? 64 : 8, 4); SDC.nsamples = 64; if (kind == 1) start_mock();
    mc_cfg.sock_cap = 70000; mc_cfg.max_timeouts = 400;
    script(kind, &CL[0]);
    int n = (int) STREAM.n, a, b, da, db = 0; static const int delay[] = {0, 50, 4900, 60000};
    if (kind == 2) { static const int at[] = {1, 5, 6, 7, 40, 75, 80, 81, 82, 1000, 16384, 32767, 32768, 32840, 32850, 32852, 32856, 32858, 32860, 32862, 32866}; a = at[mc_choose(N(at), 0, "first cut")]; b = n; }
    else if (two) { a = mc_choose((n + step - 1) / step, 0, "first cut") * step; b = a + mc_choose(n - a + 1, 0, "second cut"); }
    else { a = mc_choose(n + 1, 0, "cut"); b = n; }
    if (intr) { mc_cfg.eintr = 1; da = 50; }   // a signal while a message is half there
    else da = delay[mc_choose(inside(a) && a != 0 ? 3 : 4, 0, "delay")];
    if (a == 0 && da > 5000) return;    // no request at all for longer than the timeout: refused
    if (two) db = delay[mc_choose(2, 0, "second delay") ? (da >= 50 ? 1 : 2) : 0];
    if (!begin()) return;
    cl_connect(&CL[0]); if (CL[0].refused) return;
    send_cut(&CL[0], a, da, b, db);
    framing_checks(kind, &CL[0]);
    finish();
}
// the same conversation while every system call may transfer less, or be interrupted
static void sc_framing_partial(int p) {
    int kind = p & 3;
    conf(0, 2, kind == 1 ? 64 : 8, 4); SDC.nsamples = 64; if (kind == 1) start_mock();
    mc_cfg.max_timeouts = 400; mc_cfg.short_reads = 1; mc_cfg.short_writes = 1; mc_cfg.eintr = 1;
    script(kind, &CL[0]);
    if (!begin()) return;
    cl_connect(&CL[0]); if (CL[0].refused) return;
    send_cut(&CL[0], 0, 0, (int) STREAM.n, 0);
    framing_checks(kind, &CL[0]);
    finish();
}
// ------------------------------------------------------------------ Doppler corrected sessions: every combination of what a request says about them
static const char *TLE_GEO[3] = {"GEO", "1 12345U 98067A   23123.25000000  .00000000  00000-0  00000-0 0  9990", "2 12345   7.2000  88.0000 0300000  10.0000 277.0000  1.00270000    10"};
static void tle_sum(char *l) { int s = 0; for (int i = 0; i < 68; i++) s += l[i] >= '0' && l[i] <= '9' ? l[i] - '0' : l[i] == '-'; l[68] = (char) ('0' + s % 10); }
static void sc_doppler(int tx) {   // bit 0: transmit, rest: kind of the device
    static const int64_t START[] = {0, 1, 1583840449, 1700000123, 4102444800};
    static const uint32_t LAT[] = {537200000, 0, 899990000}, LON[] = {475700000, 3599000000u, 1}, ALT[] = {0, 90000000, 45000};
    static char g1[80], g2[80]; static const char *geo[3] = {"GEO", g1, g2};
    strcpy(g1, TLE_GEO[1]); strcpy(g2, TLE_GEO[2]); tle_sum(g1); tle_sum(g2);
    int dev = tx >> 1, st = mc_choose(6, 0, "start time"), o = mc_choose(2, 0, "orbit"), ce = mc_choose(3, 0, "center"), of = mc_choose(4, 0, "offset"), s = mc_choose(4, 0, "station"), m = mc_choose(3, 0, "amount");
    static const uint64_t CEN[] = {437525000, 145800000, 4000000000u}; static const int64_t OFF[] = {0, 700, -1200, 4100};
    const char **t = o ? geo : TLE_OK; if (st == 5 && dev == 2) return;
    conf(dev, dev ? dev : 2, tx & 1 ? 8 : 64, 8); SDC.nsamples = 70 + 64 * m; radio_left = 1 + m;
    if (dev == 1) use_radio(); if (dev == 0) start_mock();
    mc_file_put("/sim/in.cf32", sdr_tab[0], (70 + 64 * m) * 8);
    if (!begin()) return;
    if (tx & 1) {
        struct txp p; tx_base(&p); p.tle = t; p.ntle = 3; p.center = CEN[ce]; p.offset = OFF[of]; p.lat = (int) LAT[s % 3]; p.lon = (int) LON[s % 3]; p.alt = (int) ALT[s ? s - 1 : 0]; p.start = st == 5 ? 0 : START[st]; if (st == 5) p.file = NULL; else if (!p.file) p.file = "/sim/other";
        tx_bytes = 5 + 13 * m; run_tx(&CL[0], &p, V_OK); tx_bytes = 11;
    } else {
        struct rxp p; rx_base(&p); p.tle = t; p.ntle = 3; p.center = CEN[ce]; p.offset = OFF[of]; p.lat = (int) LAT[s % 3]; p.lon = (int) LON[s % 3]; p.alt = (int) ALT[s ? s - 1 : 0]; p.start = st == 5 ? 0 : START[st]; if (st == 5) p.file = NULL; else if (!p.file) p.file = "/sim/in.cf32";
        p.dest = 2; run_rx(&CL[0], &p, V_OK);
    }
    finish();
}
#define S(n, props, fn, p, bq, bt, pol, cap) {n, props, fn, p, bq, bt, pol, cap}
struct scenario scenarios[] = {
    S("receive requests, SDR server", "C05 C08 C11 C15 C16 C21", sc_rx_battery, 0, 0, 0, 1, 60),
    S("receive requests, radio", "C05 C08 C11 C15 C17", sc_rx_battery, 1, 0, 0, 1, 60),
    S("receive requests, file", "C05 C08 C11 C15 C18 C21", sc_rx_battery, 2, 0, 0, 1, 60),
    S("transmit requests, no transmitter", "C05 C11", sc_tx_battery, 0, 0, 0, 1, 60),
    S("transmit requests, radio", "C05 C09 C11 C15 C17 C21", sc_tx_battery, 1, 0, 0, 1, 60),
    S("transmit requests, file", "C05 C09 C11 C15 C14 C18", sc_tx_battery, 2, 0, 0, 1, 60),
    S("receive requests cut anywhere", "C05 C10", sc_bytes, 0, 0, 0, 1, 60),
    S("receive requests with one byte changed", "C05", sc_bytes, 1, 0, 0, 1, 60),
    S("transmit requests cut anywhere", "C05 C10", sc_bytes, 2, 0, 0, 1, 60),
    S("transmit requests with one byte changed", "C05", sc_bytes, 3, 0, 0, 1, 60),
    S("versions of the protocol", "C05", sc_header, 0, 0, 0, 1, 60),
    S("kinds of messages", "C05 C10", sc_header, 1, 0, 0, 1, 60),
    S("sizes of messages", "C05 C10 C04", sc_header, 2, 0, 0, 1, 60),
    S("announced sizes", "C05 C10 C11", sc_header, 3, 0, 0, 1, 60),
    S("corrected reception, SDR server", "C15 C08", sc_doppler, 0, 0, 0, 1, 40),
    S("corrected reception, radio", "C15", sc_doppler, 2, 0, 0, 1, 40),
    S("corrected reception, file", "C15 C08", sc_doppler, 4, 0, 0, 1, 40),
    S("corrected transmission, radio", "C15", sc_doppler, 3, 0, 0, 1, 40),
    S("corrected transmission, file", "C15 C09", sc_doppler, 5, 0, 0, 1, 40),
    S("histories of receivers", "C07 C04 C11 C16 C03", sc_share_hist, 4, 0, 0, 1, 60),
    S("longer histories of receivers", "C07 C04 C11 C16 C03", sc_share_hist, 5, -1, 0, 1, 60),
    S("longer histories of owners, file", "C06 C04 C11", sc_owner_hist, 6, -1, 0, 1, 60),
    S("longer histories of owners, radio", "C06 C04 C11 C17", sc_owner_hist, 16 + 6, -1, 0, 1, 60),
    S("histories of owners, file", "C06 C04 C11", sc_owner_hist, 4, 0, 0, 1, 60),
    S("histories of owners, radio", "C06 C04 C11 C17", sc_owner_hist, 16 + 4, 0, 0, 1, 60),
    S("many requests", "C04 C11 C08 C02", sc_many, 0, 0, 0, 1, 60),
    S("many requests, sessions at work", "C04 C11 C08", sc_many, 1, 0, 0, 1, 60),
    S("many messages", "C09 C10 C11 C12 C14", sc_long_tx, 0, 0, 0, 1, 60),
    S("very many messages", "C09 C11", sc_long_tx, 1, -1, 0, 1, 60),
    S("long reception", "C08 C12 C18 C14", sc_long_rx, 0, 0, 0, 1, 60),
    S("long reception, queue of one", "C08", sc_long_rx, 1, 0, 0, 1, 60),
    S("transmitted and received", "C22", sc_loopback, 0, 0, 0, 1, 90),
    S("transmitted and received, all patterns", "C22", sc_loopback, 1, -1, 0, 1, 90),
    S("transmit session, one cut", "C10", sc_framing, 0, 0, 0, 1, 60),
    S("receive session, one cut", "C10", sc_framing, 1, 0, 0, 1, 60),
    S("oversize message, one cut", "C10", sc_framing, 2, 0, 0, 1, 60),
    S("refused request, one cut", "C10", sc_framing, 3, 0, 0, 1, 60),
    S("transmit session, two cuts", "C10", sc_framing, 4 + (5 << 4), 0, 0, 1, 60),
    S("receive session, two cuts", "C10", sc_framing, 5 + (5 << 4), 0, 0, 1, 60),
    S("transmit session, any two cuts", "C10", sc_framing, 4 + (1 << 4), -1, 0, 1, 60),
    S("receive session, any two cuts", "C10", sc_framing, 5 + (1 << 4), -1, 0, 1, 60),
    S("transmit session, one cut and a signal", "C10", sc_framing, 0 + (1 << 8), 1, 1, 1, 60),
    S("receive session, one cut and a signal", "C10", sc_framing, 1 + (1 << 8), 1, 1, 1, 60),
    S("refused request, one cut and a signal", "C10", sc_framing, 3 + (1 << 8), 1, 1, 1, 60),
    S("transmit session, partial calls", "C10", sc_framing_partial, 0, 1, 2, 1, 60),
    S("receive session, partial calls", "C10", sc_framing_partial, 1, 1, 2, 1, 60),
    S("refused request, partial calls", "C10", sc_framing_partial, 3, 1, 2, 1, 60),
};
int n_scenarios = sizeof scenarios / sizeof *scenarios;
