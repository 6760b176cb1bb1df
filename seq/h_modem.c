// h_modem.c: the complete modulator and demodulator: cutting (C12), definition (C13), buffers (C14), loopback (C22).
#include "seqrt.h"
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <complex.h>
#include "refdsp.h"
#include "dsp/gfsk_mod.h"
#include "dsp/fsk_demod.h"
#include "dsp/mmse_fir_interpolator.h"
typedef float complex cf;
#define EXACT(type, src, n) ({ type *_b = malloc((n) * sizeof(type) + ((n) == 0)); memcpy(_b, (src), (n) * sizeof(type)); _b; })
static uint32_t rnd; static float rf(void) { rnd = rnd * 1664525u + 1013904223u; return ((int) (rnd >> 8) - (1 << 23)) / (float) (1 << 23); }
static float mmse(const float *x, float mu, void *a) { static float b[16] __attribute__((aligned(64))); memcpy(b, x, 32); return mmse_fir_interpolator_process(b, mu, a); }
static void *ip(void) { static mmse_fir_interpolator *c; if (!c) mmse_fir_interpolator_create(&c); return c; }

struct dcfg { int fs, baud, dev, dec, tw, dc; };
static const struct dcfg C[] = {
    {48000, 4800, 5000, 2, 2000, 0}, {48000, 4800, 5000, 2, 2000, 1}, {48000, 4800, 5000, 1, 2000, 0}, {48000, 9600, 5000, 1, 2000, 0}, {48000, 9600, 5000, 2, 2000, 0}, {48000, 9600, 2400, 1, 2000, 0},
    {9600, 4800, 1200, 1, 2000, 0}, {19200, 4800, 1200, 1, 2000, 0}, {19200, 2400, 1200, 2, 1000, 0}, {9600, 1200, 600, 4, 600, 0}, {240000, 9600, 5000, 5, 2000, 0}, {48000, 1200, 1200, 8, 500, 0},
    {48000, 1200, -600, 10, 500, 0}, {38400, 9600, 3200, 1, 3000, 0}, {28800, 9600, 3200, 1, 3000, 0}, {200000, 40000, 20000, 1, 10000, 0}, {9600, 2400, 1200, 1, 1000, 0}, {9600, 4800, 2400, 1, 2000, 0},
    {240000, 9600, 5000, 5, 2000, 1}, {9600, 1200, 600, 2, 600, 1}, {240000, 9600, 5000, 1, 2000, 0}};
#define NC 21
// ---------------------------------------------------------------- loopback
#define PRE 48
static void sc_loop(int root) {
    struct dcfg c = C[root % NC]; int PAT = sq_thorough ? 16 : 12, PER = sq_thorough ? 64 : 32; bool two = root >= NC;
    int pre = c.dc ? PRE * 2 : PRE, pay = PAT == 16 ? PER * 2 : PER * 3 / 2, tail = c.dc ? 24 : 8;
    if (c.dc) { pay = 32; }
    uint8_t b[400]; uint32_t r = 1; for (int i = 0; i < 400; i++) { r = r * 1664525u + 1013904223u; b[i] = r >> 24; }
    int nblk = (1 << PAT) / PER, blk;
    if (two) blk = sq_choose(4, "block of payload patterns") * (nblk / 4) + 1; else blk = sq_choose(nblk, "block of payload patterns");
    if (c.dc) {   // the blocker needs balanced data: patterns followed by their complement
        for (int k = 0; k < 16; k++) { b[pre + 2 * k] = (uint8_t) (blk * 16 + k); b[pre + 2 * k + 1] = (uint8_t) ~(blk * 16 + k); }
    } else for (int k = 0; k < PER; k++) { unsigned p = blk * PER + k; for (int j = 0; j < PAT; j++) { int at = k * PAT + j, v = p >> (PAT - 1 - j) & 1; uint8_t *q = &b[pre + at / 8]; *q = (uint8_t) ((*q & ~(1 << (7 - at % 8))) | v << (7 - at % 8)); } }
    int tot = pre + pay + tail, sps = c.fs / c.baud;
    int mstep = two ? (int[]) {1, 3, tot}[sq_choose(3, "modulator buffers")] : tot;
    static const int DS[] = {1, 7, 64, 1000, 0}; int dstep = two ? DS[sq_choose(5, "demodulator buffers")] : 0;
    gfsk_mod *m = NULL; fsk_demod *d = NULL;
    if (gfsk_mod_create((float) ((double) c.fs / c.baud), (float) (2 * M_PI * c.dev / (double) c.fs), 0.5f, mstep, &m)) sq_fail("C22", "the modulator refuses a supported configuration");
    size_t n = 0, cap = (size_t) tot * 8 * sps; cf *x = malloc(cap * sizeof(cf));
    for (int i = 0; i < tot; i += mstep) {
        int k = tot - i < mstep ? tot - i : mstep; cf *o = NULL; size_t on = 0; uint8_t *q = EXACT(uint8_t, b + i, k);
        gfsk_mod_process(q, k, &o, &on, m); sq_step(); free(q);
        if (n + on > cap) sq_fail("C22", "the modulator produced too many samples");
        memcpy(x + n, o, on * sizeof(cf)); n += on;
    }
    if (n != cap) sq_fail("C22", "the modulator produced %zu samples for %d bytes of %d samples per bit", n, tot, sps);
    gfsk_mod_destroy(m);
    if (!dstep) dstep = (int) n;
    if (fsk_demod_create(c.fs, c.baud, c.dev, c.dec, c.tw, c.dc, dstep, &d)) sq_fail("C22", "the demodulator refuses a supported configuration");
    int8_t *s = malloc(n); size_t sn = 0;
    for (size_t i = 0; i < n; i += dstep) {
        size_t k = n - i < (size_t) dstep ? n - i : (size_t) dstep; int8_t *o = NULL; size_t on = 0; cf *q = EXACT(cf, x + i, k);
        fsk_demod_process(q, k, &o, &on, d); sq_step(); free(q);
        if (on) memcpy(s + sn, o, on); sn += on;
    }
    fsk_demod_destroy(d);
    sq_note("fs %d baud %d dev %d dec %d tw %d dc %d: patterns %d.. (%d bits), buffers %d/%d", c.fs, c.baud, c.dev, c.dec, c.tw, c.dc, blk * PER, PAT, mstep, dstep);
    // alignment from the end of the preamble, then every bit
    int from = (pre - 8) * 8, L = 64, at = -1;
    double t1 = rf_lpf_len(c.fs, floor((double) 0.1f * (fabs(c.dev) + c.baud / 2.0))) / 2.0, t2 = rf_lpf_len(c.fs, c.tw) / 2.0;
    double expect = (t1 + t2 + 2.5 * sps + 4 * c.dec + (c.dc ? 2.0 * (ceil((double) c.fs / c.baud / c.dec * 32) - 1) * c.dec : 0)) / sps;
    for (int off = (int) expect - 14; off <= expect + 14 && at < 0; off++) {
        if (off + from < 0) continue;
        int e = 0; for (int k = 0; k < L && !e; k++) { size_t p = from + off + k; e = p >= sn || (s[p] > 0) != (b[(from + k) / 8] >> (7 - (from + k) % 8) & 1); }
        if (!e) at = from + off;
    }
    if (at < 0) sq_fail("C22", "the end of the preamble was not received near the expected delay of %.1f bits", expect);
    int delay = at - from; char nm[60]; snprintf(nm, sizeof nm, "fs %d baud %d dec %d dc %d delay %d", c.fs, c.baud, c.dec, c.dc, delay); if (!two) sq_hit(nm);
    for (int k = pre * 8; k < (pre + pay) * 8; k++) {
        size_t p = k + delay; int want = b[k / 8] >> (7 - k % 8) & 1;
        if (p >= sn) sq_fail("C22", "bit %d of the payload was not received", k - pre * 8);
        if ((s[p] > 0) != want) sq_fail("C22", "bit %d of the payload was sent as %d and received as %d (soft %d)", k - pre * 8, want, s[p] > 0, s[p]);
    }
    sq_outcome(sq_hash(s, sn, root)); sq_state(sq_hash(x, n * 8, root));
    free(s); free(x);
    sq_no_leaks("C22");
}
static void sc_loop_cut(int root) { sc_loop(root + NC); }
// ---------------------------------------------------------------- modulator: all cuttings against the definition
static const float SPS[] = {1, 1.5f, 2, 2.5f, 3, 4, 5, 10, 17, 255};
static void mod_run(int root, int N, bool cuts) {
    float sps = SPS[root % 10], sens = (float[]) {0.3f, -1.1f, 3.14159f}[root / 10]; int L = (int) sps;
    uint8_t b[16]; static rc y[20000]; rnd = root;
    if (cuts) for (int i = 0; i < N; i++) b[i] = (uint8_t) (0x5b * (i + 1) + 0x11 * i * i);
    else { int v = sq_choose(256, "first byte"); b[0] = v; if (N > 1) b[1] = (uint8_t) (v * 77 + 5); if (N > 2) b[2] = (uint8_t) ~v; }
    size_t want = rf_gfsk(sps, sens, 0.5, b, N, y), got = 0;
    int lens[64], nl = 0, big = 1, left = N, zeros = 0;
    if (cuts) while (left) { int z = zeros < 1, k = sq_choose(left + z, "buffer length"); if (k == left) { zeros++; lens[nl++] = 0; continue; } lens[nl++] = k + 1; if (k + 1 > big) big = k + 1; left -= k + 1; }
    else { lens[nl++] = N; big = N; }
    int max = cuts && sq_choose(2, "buffer maximum") ? N + 2 : big;
    gfsk_mod *m = NULL;
    if (gfsk_mod_create(sps, sens, 0.5f, max, &m)) sq_fail(NULL, "modulator refused: sps %g", sps);
    const char *pr = cuts ? "C12" : "C13"; sq_note("modulator sps %g sensitivity %g max %d, buffers", sps, sens, max); int at = 0;
    for (int i = 0; i < nl; i++) {
        cf *o = NULL; size_t on = 999999; uint8_t *q = EXACT(uint8_t, b + at, lens[i]); sq_note(" %d", lens[i]);
        gfsk_mod_process(q, lens[i], &o, &on, m); sq_step(); free(q);
        if (on != (size_t) lens[i] * 8 * L) sq_fail(pr, "modulator: %zu samples for %d bytes at %d samples per symbol", on, lens[i], L);
        for (size_t k = 0; k < on; k++, got++) if (!(hypot(crealf(o[k]) - y[got].re, cimagf(o[k]) - y[got].im) < 2e-3 + 2e-6 * got)) sq_fail(pr, "modulator: sample %zu is %g%+gi, expected %g%+gi", got, crealf(o[k]), cimagf(o[k]), y[got].re, y[got].im);
        at += lens[i]; sq_state(sq_hash(&got, 8, root * 100 + at));
    }
    if (got != want) sq_fail(pr, "modulator: %zu samples, expected %zu", got, want);
    cf *o = (void *) &o; size_t on = 1; uint8_t *q = calloc(max + 1, 1); gfsk_mod_process(q, max + 1, &o, &on, m); free(q);
    if (on) sq_fail("C14", "modulator: a buffer larger than the maximum was not refused");
    gfsk_mod_destroy(m); sq_no_leaks(NULL); sq_outcome(sq_hash(y, want * sizeof(rc), root));
}
static void sc_mod_cut(int root) { mod_run(root, sq_thorough ? 7 : 6, true); }
static void sc_mod_def(int root) { mod_run(root, 3, false); }
// ---------------------------------------------------------------- demodulator against its definition and against itself
static void signal_(struct dcfg *c, cf *x, int n) { double ph = 0.3; int sps = c->fs / c->baud; rnd = 17; double f = 1; for (int i = 0; i < n; i++) { if (i % sps == 0) f = rf() > 0 ? 1 : -1; ph += 2 * M_PI * c->dev * f / c->fs; x[i] = (float) (0.7 * cos(ph) + 0.02 * rf()) + (float) (0.7 * sin(ph) + 0.02 * rf()) * I; } }
static void sc_demod_def(int root) {
    struct dcfg c = C[root]; enum { N = 900 }; static cf x[N]; static rc xc[N]; static float want[N];
    signal_(&c, x, N); int phase = sq_choose(8, "start of the signal"); int n = N - phase; float amp = (float[]) {1, 0.001f, 200}[sq_choose(3, "amplitude")];
    for (int i = 0; i < n; i++) { cf v = x[i + phase] * amp; xc[i].re = crealf(v); xc[i].im = cimagf(v); }
    size_t nw = rf_fsk(c.fs, c.baud, c.dev, c.dec, c.tw, c.dc, xc, n, want, mmse, ip()), got = 0, base = sq_live();
    fsk_demod *d = NULL; if (fsk_demod_create(c.fs, c.baud, c.dev, c.dec, c.tw, c.dc, n, &d)) sq_fail("C13", "demodulator refused");
    sq_note("demodulator fs %d baud %d dev %d dec %d dc %d, start %d amplitude %g", c.fs, c.baud, c.dev, c.dec, c.dc, phase, amp);
    cf *q = malloc(n * 8); for (int i = 0; i < n; i++) q[i] = x[i + phase] * amp;
    int8_t *o = NULL; fsk_demod_process(q, n, &o, &got, d); sq_step();
    if (got != nw) sq_fail("C13", "demodulator: %zu soft bits, expected %zu", got, nw);
    for (size_t k = 0; k < got; k++) { double w = want[k] * 127; if (w > 127) w = 127; if (w < -128) w = -128; if (fabs(o[k] - w) > 4) sq_fail("C13", "demodulator: soft bit %zu is %d, expected %.1f", k, o[k], w); }
    sq_outcome(sq_hash(o, got, root)); sq_state(sq_hash(o, got, phase));
    free(q); fsk_demod_destroy(d); if (sq_live() != base) sq_fail("C13", "leak");
}
static void sc_demod_cut(int root) {
    struct dcfg c = C[root % NC]; int mode = root / NC; enum { MAXN = 700 }; static cf x[MAXN];
    int N = mode == 0 ? (sq_thorough ? 160 : 90) : 600;
    if (mode == 0) { if (c.fs > 48000 || c.dc) return; }   // short stream, all pairs of cuts (a subset of the configurations)
    signal_(&c, x, N);
    static int8_t want[2][MAXN]; static int wfor[2] = {-1, -1}; static size_t nw[2];
    if (wfor[mode] != root) {
        fsk_demod *d = NULL; if (fsk_demod_create(c.fs, c.baud, c.dev, c.dec, c.tw, c.dc, N, &d)) sq_fail("C12", "demodulator refused");
        int8_t *o; fsk_demod_process(x, N, &o, &nw[mode], d); if (nw[mode]) memcpy(want[mode], o, nw[mode]); fsk_demod_destroy(d); wfor[mode] = root;
    }
    int lens[MAXN], nl = 0, big = 1;
    if (mode == 0) {
        int a = sq_choose(N + 1, "first cut"), b = a + sq_choose(N + 1 - a, "second cut");
        lens[nl++] = a; lens[nl++] = b - a; lens[nl++] = N - b;
    } else {
        int step = 1 + sq_choose(sq_thorough ? 130 : 70, "buffer length"), first = sq_choose(sq_thorough ? 5 : 2, "first buffer"); first = (int[]) {0, 1, 13, 37, 101}[first];
        int at = 0; if (first) { lens[nl++] = first; at = first; } while (at < N) { lens[nl++] = N - at < step ? N - at : step; at += step; }
    }
    for (int i = 0; i < nl; i++) if (lens[i] > big) big = lens[i];
    fsk_demod *d = NULL; if (fsk_demod_create(c.fs, c.baud, c.dev, c.dec, c.tw, c.dc, big, &d)) sq_fail("C12", "demodulator refused");
    sq_note("demodulator fs %d baud %d dec %d dc %d, buffers %d %d %d.. (%d)", c.fs, c.baud, c.dec, c.dc, lens[0], nl > 1 ? lens[1] : 0, nl > 2 ? lens[2] : 0, nl);
    size_t got = 0; int at = 0;
    for (int i = 0; i < nl; i++) {
        int8_t *o = NULL; size_t on = 77777; cf *q = EXACT(cf, x + at, lens[i]);
        fsk_demod_process(q, lens[i], &o, &on, d); sq_step(); free(q);
        if (on > (size_t) big) sq_fail("C14", "demodulator: %zu soft bits from %d samples", on, lens[i]);
        for (size_t k = 0; k < on; k++, got++) { if (got >= nw[mode]) sq_fail("C12", "demodulator: more than the %zu soft bits of the uncut stream", nw[mode]); if (abs(o[k] - want[mode][got]) > 2) sq_fail("C12", "demodulator: soft bit %zu is %d, %d when not cut", got, o[k], want[mode][got]); }
        at += lens[i]; sq_state(sq_hash(&got, 8, root * 1000 + at));
    }
    if (got != nw[mode]) sq_fail("C12", "demodulator: %zu soft bits, %zu when not cut", got, nw[mode]);
    fsk_demod_destroy(d); sq_no_leaks(NULL); sq_outcome(sq_hash(&at, 4, got));
}
// ---------------------------------------------------------------- accepted configurations stay in their buffers
static void sc_demod_conf(int root) {
    static const uint64_t FS[] = {1, 100, 4800, 9600, 44100, 48000, 1000000, 4294967296ull, 10000000000ull}; static const uint32_t BD[] = {0, 1, 2, 1200, 4800, 9601, 40000, 4000000000u};
    static const int64_t DV[] = {0, 1, 9, 600, -2400, 5000, 24000, 30000, INT64_MAX, INT64_MIN}; static const int DE[] = {0, 1, 2, 3, 7, 255}; 
    static const int MB[] = {1, 2, 3, 64, 257};
    uint64_t fs = FS[root % 9]; uint32_t baud = BD[root / 9 % 8]; int64_t dev = DV[sq_choose(10, "deviation")]; int dec = DE[sq_choose(6, "decimation")]; 
    uint32_t tw = (uint32_t[]) {0, (uint32_t) (fs / 50 + 1), (uint32_t) (fs / 5 + 1), 4294967295u}[sq_choose(4, "transition")]; bool dc = sq_choose(2, "dc blocker");
    int max = sq_thorough ? MB[sq_choose(5, "buffer maximum")] : MB[2 * sq_choose(3, "buffer maximum")];
    fsk_demod *d = NULL;
    sq_note("fs %lu baud %u dev %ld dec %d tw %u dc %d max %d", fs, baud, dev, dec, tw, dc, max);
    // the two that only cost memory
    double cut = fabs((double) dev) + baud / 2.0; double tw1 = floor((double) 0.1f * cut); 
    if (cut >= 1 && tw1 >= 1 && (rf_lpf_len(fs, tw1) > 40000 || rf_lpf_len(fs, tw1) == 0)) return;
    if (dc && baud && dec && (double) fs / baud / dec > 300) return;
    int code = fsk_demod_create(fs, baud, dev, (uint8_t) dec, tw, dc, max, &d); sq_step();
    bool impossible = dev == 0 || dec == 0 || baud == 0 || tw == 0 || (double) fs < (double) baud * dec || baud / 2 == 0 || floor(cut) > fs / 2.0 || cut < 1 || tw1 < 1 || baud / 2 > fs / 2.0;
    bool possible = !impossible && cut < 4e9;
    if (code == 0 && impossible) sq_fail("C14", "a configuration that cannot be realised was accepted");
    if (code != 0 && possible) sq_fail("C14", "a configuration that can be realised was refused (%d)", code);
    if (code) { sq_hit("refused"); sq_no_leaks("C14"); sq_state(sq_hash(&code, 4, root)); return; }
    sq_hit("accepted");
    const int LN[] = {0, 1, 2, max - 1, max}; rnd = 5; uint64_t h = root;
    int plan = sq_thorough ? sq_choose(25, "buffer lengths") : 6 * sq_choose(5, "buffer lengths") % 25;   // quick: the same length throughout
    for (int i = 0; i < 6; i++) {
        int n = LN[i % 2 ? plan % 5 : plan / 5]; if (i >= 4) n = max; cf *q = malloc(n * 8 + 1); for (int k = 0; k < n; k++) q[k] = i == 1 ? 0 : i == 2 ? 1000.f : (float) (rf() * 1.0 + I * rf());
        int8_t *o = NULL; size_t on = 99999; fsk_demod_process(q, n, &o, &on, d); sq_step(); free(q);
        if (on > (size_t) max) sq_fail("C14", "%zu soft bits from %d samples", on, n);
        volatile int8_t sum = 0; for (size_t k = 0; k < on; k++) sum += o[k];
        h = sq_hash(&on, 8, h); sq_state(h);
    }
    cf *q = calloc(max + 1, 8); int8_t *o = (void *) &o; size_t on = 1; fsk_demod_process(q, max + 1, &o, &on, d); free(q);
    if (on) sq_fail("C14", "a buffer larger than the maximum was not refused");
    fsk_demod_destroy(d); sq_no_leaks("C14"); sq_outcome(h);
}
static void sc_mod_conf(int root) {
    static const float SP[] = {-1, 0, 0.5f, 0.999f, 1, 1.01f, 1.99f, 2, 3.7f, 16, 254.9f, 255, 255.9f, 256, 1e6f, NAN, INFINITY}; static const float SE[] = {0, 1e-4f, 0.5f, -0.5f, 3.14159f, -3.14159f, 3.2f, 7, -100, 1e30f, NAN, INFINITY};
    float sps = SP[root], sens = SE[sq_choose(12, "sensitivity")]; int max = (int[]) {1, 2, 3, 16, 100}[sq_choose(5, "buffer maximum")];
    gfsk_mod *m = NULL; int code = gfsk_mod_create(sps, sens, 0.5f, max, &m); sq_step();
    sq_note("sps %g sensitivity %g max %d", sps, sens, max);
    bool ok = sps >= 1 && sps < 256 && fabsf(sens) <= 3.15f && isfinite(sens);
    if (ok != (code == 0)) sq_fail("C14", "modulator with %g samples per symbol and sensitivity %g: %d", sps, sens, code);
    if (code) { sq_hit("refused"); sq_no_leaks("C14"); return; }
    sq_hit("accepted");
    const int LN[] = {0, 1, 2, max - 1, max}; int plan = sq_choose(25, "buffer lengths"); uint64_t h = root;
    for (int i = 0; i < 5; i++) {
        int n = LN[i % 2 ? plan % 5 : plan / 5]; if (n > max) n = max; if (i >= 3) n = max; uint8_t *q = malloc(n + 1); memset(q, i == 1 ? 0xff : 0x5a + i, n);
        q = realloc(q, n ? n : 1); cf *o = NULL; size_t on = 99999; gfsk_mod_process(q, n, &o, &on, m); sq_step(); free(q);
        if (on > (size_t) max * 8 * (size_t) sps) sq_fail("C14", "%zu samples from %d bytes", on, n);
        for (size_t k = 0; k < on; k++) { float a = cabsf(o[k]); if (!(a > 0.999f && a < 1.001f)) sq_fail("C14", "modulated sample %zu has amplitude %g", k, a); }
        h = sq_hash(&on, 8, h); sq_state(h);
    }
    uint8_t *q = calloc(max + 1, 1); cf *o = (void *) &o; size_t on = 1; gfsk_mod_process(q, max + 1, &o, &on, m); free(q);
    if (on) sq_fail("C14", "a buffer larger than the maximum was not refused");
    gfsk_mod_destroy(m); sq_no_leaks("C14"); sq_outcome(h);
}
struct sq_scen sq_scenarios[] = {
    {"loopback of all patterns", "C22", sc_loop, NC, NC, 120}, {"loopback with cut buffers", "C22", sc_loop_cut, NC, NC, 60},
    {"modulator cuttings", "C12 C14", sc_mod_cut, 30, 30, 60},
    {"modulator definition", "C13", sc_mod_def, 30, 30, 60},
    {"demodulator definition", "C13", sc_demod_def, NC, NC, 60},
    {"demodulator cuttings", "C12 C14", sc_demod_cut, 2 * NC, 2 * NC, 90},
    {"demodulator configurations", "C14", sc_demod_conf, 72, 72, 90},
    {"modulator configurations", "C14", sc_mod_conf, 17, 17, 60},
};
int sq_n_scenarios = sizeof sq_scenarios / sizeof *sq_scenarios;
