// h_dsp.c: the signal processing blocks, one by one: cutting of the stream (C12), definitions (C13), buffers (C14).
#include "seqrt.h"
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <errno.h>
#include <complex.h>
#include "refdsp.h"
#include "dsp/fir_filter.h"
#include "dsp/interp_fir_filter.h"
#include "dsp/lpf.h"
#include "dsp/lpf_taps.h"
#include "dsp/gaussian_taps.h"
#include "dsp/quadrature_demod.h"
#include "dsp/frequency_modulator.h"
#include "dsp/sig_source.h"
#include "dsp/dc_blocker.h"
#include "dsp/clock_recovery_mm.h"
#include "dsp/mmse_fir_interpolator.h"
#include "math/fast_atan2f.h"
extern void *mcw_malloc(size_t); extern void mcw_free(void *);
typedef float complex cf;

static uint32_t rnd; static float rf(void) { rnd = rnd * 1664525u + 1013904223u; return ((int) (rnd >> 8) - (1 << 23)) / (float) (1 << 23); }
// next buffer length of a cutting; at most zmax empty buffers
static int cut(int left, int *zeros, int zmax) {
    int z = *zeros < zmax;
    int c = sq_choose(left + z, "buffer length");
    if (z && c == left) { (*zeros)++; return 0; }
    return c + 1;
}
static void near(const char *prop, const char *what, size_t k, double got, double want, double tol) {
    if (!(fabs(got - want) <= tol)) sq_fail(prop, "%s: output %zu is %.9g, expected %.9g", what, k, got, want);
}
// feeds len samples of elem bytes, each buffer in an allocation of exactly its size
#define EXACT(type, src, n) ({ type *_b = malloc((n) * sizeof(type) + ((n) == 0)); memcpy(_b, (src), (n) * sizeof(type)); _b; })

// ---------------------------------------------------------------- FIR: taps x decimation x type, all cuttings, binary inputs
static const double TAPS[][9] = {{1, 3}, {2, 1, -2}, {3, 1, 2, 4}, {4, 0.5, -1, 2, 3}, {5, 1, 2, 4, 8, 16}, {7, 1, -1, 2, -3, 5, -8, 13}, {8, .1, .2, .3, .4, .5, .6, .7, .8}};
static float *taps_of(int i, int *n) { *n = (int) TAPS[i][0]; float *t = mcw_malloc(*n * 4); for (int k = 0; k < *n; k++) t[k] = (float) TAPS[i][k + 1]; return t; }
static void fir_run(int root, int N, bool cuts) {
    int ti = root % 7, dec = root / 7 % 5 + 1, cx = root / 35; if (dec == 5) dec = 7;
    int nt; float *t = taps_of(ti, &nt);
    rc x[40], y[40]; double xr[40], yr[40]; cf in[40]; float inf_[40];
    // the input: all binary sequences when the cutting is fixed, otherwise one generic sequence
    unsigned bits = 0; if (!cuts) for (int i = 0; i < N; i++) bits |= (unsigned) sq_choose(2, "input bit") << i;
    rnd = 7;
    for (int i = 0; i < N; i++) { double a = cuts ? rf() : bits >> i & 1 ? 1 : -1, b = cuts ? rf() : (i * 5 + 1) % 3 - 1.0; x[i].re = xr[i] = (float) a; x[i].im = (float) b; in[i] = (float) a + (float) b * I; inf_[i] = (float) a; }
    const double *td = &TAPS[ti][1]; double tt[8]; for (int k = 0; k < nt; k++) tt[k] = (float) td[k];
    size_t want = cx ? rf_firc(tt, nt, dec, x, N, y) : rf_fir(tt, nt, dec, xr, N, yr);
    int lens[64], nl = 0, big = 1;
    if (cuts) { int left = N, z = 0; while (left) { int l = cut(left, &z, 1); lens[nl++] = l; if (l > big) big = l; left -= l; } }
    else { int c = sq_choose(3, "cutting"); int step = c == 0 ? N : c == 1 ? 1 : 3; for (int i = 0; i < N; i += step) { lens[nl] = N - i < step ? N - i : step; if (lens[nl] > big) big = lens[nl]; nl++; } }
    size_t max = cuts && sq_choose(2, "buffer maximum") ? N + 3 : big;
    fir_filter *f = NULL;
    int code = fir_filter_create(dec, t, nt, max, cx ? sizeof(cf) : sizeof(float), &f);
    if (code) { sq_fail(NULL, "fir_filter_create failed: %d", code); }
    sq_note("%s fir, %d taps, decimation %d, max %zu, buffers", cx ? "complex" : "real", nt, dec, max);
    size_t got = 0; int at = 0; uint64_t h = root;
    for (int i = 0; i < nl; i++) {
        void *o = NULL; size_t on = 12345; void *b = cx ? (void *) EXACT(cf, in + at, lens[i]) : (void *) EXACT(float, inf_ + at, lens[i]);
        sq_note(" %d", lens[i]);
        fir_filter_process(b, lens[i], &o, &on, f); sq_step();
        free(b);
        if (on > max) sq_fail("C14", "%zu outputs from a buffer of %d", on, lens[i]);
        for (size_t k = 0; k < on; k++, got++) {
            if (got >= want) sq_fail(cuts ? "C12" : "C13", "more than %zu outputs", want);
            if (cx) { cf v = ((cf *) o)[k]; near(cuts ? "C12" : "C13", "fir (re)", got, crealf(v), y[got].re, 1e-4); near(cuts ? "C12" : "C13", "fir (im)", got, cimagf(v), y[got].im, 1e-4); }
            else near(cuts ? "C12" : "C13", "fir", got, ((float *) o)[k], yr[got], 1e-4);
        }
        at += lens[i];
        h = sq_hash(&at, 4, h); sq_state(h);
    }
    if (got != want) sq_fail(cuts ? "C12" : "C13", "%zu outputs for %d inputs at decimation %d, expected %zu", got, N, dec, want);
    void *o = &o; size_t on = 1; void *b = calloc(max + 1, 8);
    fir_filter_process(b, max + 1, &o, &on, f); free(b);
    if (on != 0) sq_fail("C14", "a buffer larger than the maximum was not refused");
    sq_outcome(sq_hash(&got, 8, bits * 31 + root));
    fir_filter_destroy(f);
    sq_no_leaks(NULL);
}
static void sc_fir_cut(int root) { fir_run(root, sq_thorough ? 11 : 9, true); }
static void sc_fir_def(int root) { fir_run(root, sq_thorough ? 11 : 9, false); }

// ---------------------------------------------------------------- interpolating FIR
static void interp_run(int root, int N, bool cuts) {
    int ti = root % 7, L = (int[]) {1, 2, 3, 5, 8}[root / 7];
    int nt; float *t = taps_of(ti, &nt);
    double tt[8], xr[40], yr[400]; float in[40];
    for (int k = 0; k < nt; k++) tt[k] = (float) TAPS[ti][k + 1];
    unsigned bits = 0; if (!cuts) for (int i = 0; i < N; i++) bits |= (unsigned) sq_choose(2, "input bit") << i;
    rnd = 11;
    for (int i = 0; i < N; i++) { in[i] = cuts ? rf() : bits >> i & 1 ? 1 : -1; xr[i] = in[i]; }
    size_t want = rf_interp(tt, nt, L, xr, N, yr);
    int lens[64], nl = 0, big = 1;
    if (cuts) { int left = N, z = 0; while (left) { int l = cut(left, &z, 1); lens[nl++] = l; if (l > big) big = l; left -= l; } }
    else { int c = sq_choose(2, "cutting"); int step = c == 0 ? N : 1; for (int i = 0; i < N; i += step) { lens[nl++] = step; big = step; } }
    size_t max = cuts && sq_choose(2, "buffer maximum") ? N + 3 : big;
    interp_fir_filter *f = NULL;
    if (interp_fir_filter_create(t, nt, L, max, &f)) sq_fail(NULL, "interp_fir_filter_create failed");
    sq_note("interpolating fir, %d taps, factor %d, max %zu, buffers", nt, L, max);
    size_t got = 0; int at = 0; uint64_t h = root;
    for (int i = 0; i < nl; i++) {
        float *o = NULL; size_t on = 12345; float *b = EXACT(float, in + at, lens[i]);
        sq_note(" %d", lens[i]);
        interp_fir_filter_process(b, lens[i], &o, &on, f); sq_step(); free(b);
        if (on != (size_t) lens[i] * L) sq_fail(cuts ? "C12" : "C13", "%zu outputs for %d inputs at interpolation %d", on, lens[i], L);
        for (size_t k = 0; k < on; k++, got++) near(cuts ? "C12" : "C13", "interpolating fir", got, o[k], yr[got], 1e-4);
        at += lens[i]; h = sq_hash(&at, 4, h); sq_state(h);
    }
    if (got != want) sq_fail(cuts ? "C12" : "C13", "%zu outputs, expected %zu", got, want);
    float *o = (void *) &o; size_t on = 1; void *b = calloc(max + 1, 4);
    interp_fir_filter_process(b, max + 1, &o, &on, f); free(b);
    if (on != 0) sq_fail("C14", "a buffer larger than the maximum was not refused");
    sq_outcome(sq_hash(&got, 8, bits * 31 + root));
    interp_fir_filter_destroy(f);
    sq_no_leaks(NULL);
}
static void sc_interp_cut(int root) { interp_run(root, 9, true); }
static void sc_interp_def(int root) { interp_run(root, sq_thorough ? 10 : 8, false); }

// ---------------------------------------------------------------- blocks without rate change
enum { K_QUAD, K_FM, K_DC, K_SIG, K_SIGMUL };
static void block_run(int root, int N, bool cuts) {
    // kind, parameter
    static const struct { int kind; double par; } C[] = {{K_QUAD, 1}, {K_QUAD, -2.5}, {K_FM, 0.3}, {K_FM, -3.1}, {K_FM, 3.14159}, {K_DC, 2}, {K_DC, 3}, {K_DC, 5}, {K_DC, 8}, {K_SIG, 100}, {K_SIG, -333}, {K_SIG, 500}, {K_SIGMUL, 0}, {K_SIGMUL, -120}, {K_SIGMUL, 499}};
    int kind = C[root].kind; double par = C[root].par;
    rc x[64], yc[64]; double xr[64], yr[64]; cf in[64]; float inr[64];
    rnd = 3 + root;
    unsigned m = 0; if (!cuts) for (int i = 0; i < N; i++) m = m * 4 + sq_choose(kind == K_SIG ? 1 : 4, "input symbol");
    for (int i = 0; i < N; i++) {
        int s = m >> 2 * (N - 1 - i) & 3;
        if (cuts) { x[i].re = rf(); x[i].im = rf(); }
        else if (kind == K_QUAD || kind == K_SIGMUL) { x[i].re = (double[]) {1, 0.001, -2, 0}[s]; x[i].im = (double[]) {0, 1, -0.7, 0}[s]; }
        else { x[i].re = (double[]) {1, -1, 0.25, 0}[s]; x[i].im = 0; }
        x[i].re = (float) x[i].re; x[i].im = (float) x[i].im;
        in[i] = (float) x[i].re + (float) x[i].im * I; inr[i] = x[i].re; xr[i] = x[i].re;
    }
    double fs = 1000;
    switch (kind) {
        case K_QUAD: rf_quad(par, x, N, yr); break;
        case K_FM: rf_fm((float) par, xr, N, yc); break;
        case K_DC: rf_dc((int) par, xr, N, yr); break;
        case K_SIG: for (int i = 0; i < N; i++) { yc[i].re = 0.5 * cos(2 * RPI * par * i / fs); yc[i].im = 0.5 * sin(2 * RPI * par * i / fs); } break;
        case K_SIGMUL: for (int i = 0; i < N; i++) { double c = cos(2 * RPI * par * i / fs), s = sin(2 * RPI * par * i / fs); yc[i].re = c * x[i].re - s * x[i].im; yc[i].im = c * x[i].im + s * x[i].re; } break;
    }
    int lens[64], nl = 0, big = 1;
    if (cuts) { int left = N, z = 0; while (left) { int l = cut(left, &z, 1); lens[nl++] = l; if (l > big) big = l; left -= l; } } else { lens[nl++] = N; big = N; }
    size_t max = cuts && sq_choose(2, "buffer maximum") ? N + 3 : big;
    quadrature_demod *q = NULL; frequency_modulator *fm = NULL; dc_blocker *dc = NULL; sig_source *sg = NULL; int code;
    switch (kind) {
        case K_QUAD: code = quadrature_demod_create(par, max, &q); break;
        case K_FM: code = frequency_modulator_create(par, max, &fm); break;
        case K_DC: code = dc_blocker_create((int) par, &dc); break;
        default: code = sig_source_create(kind == K_SIG ? 0.5F : 1.0F, (uint64_t) fs, max, &sg);
    }
    if (code) sq_fail(NULL, "block %d not created: %d", kind, code);
    static const char *names[] = {"quadrature demodulator", "frequency modulator", "dc blocker", "signal source", "frequency shift"};
    sq_note("%s (%g), max %zu, buffers", names[kind], par, max);
    const char *pr = cuts ? "C12" : "C13"; int at = 0; uint64_t h = root;
    for (int i = 0; i < nl; i++) {
        void *o = NULL; size_t on = 12345; int n = lens[i];
        cf *bc = EXACT(cf, in + at, n); float *br = EXACT(float, inr + at, n);
        sq_note(" %d", n);
        switch (kind) {
            case K_QUAD: quadrature_demod_process(bc, n, (float **) &o, &on, q); break;
            case K_FM: frequency_modulator_process(br, n, (cf **) &o, &on, fm); break;
            case K_DC: dc_blocker_process(br, n, (float **) &o, &on, dc); break;
            case K_SIG: sig_source_process((int64_t) par, n, (cf **) &o, &on, sg); break;
            case K_SIGMUL: sig_source_multiply((int64_t) par, bc, n, (cf **) &o, &on, sg); break;
        }
        sq_step();
        if (on != (size_t) n) sq_fail(pr, "%s: %zu outputs for %d inputs", names[kind], on, n);
        for (int k = 0; k < n; k++) {
            if (kind == K_QUAD || kind == K_DC) {
                double d = ((float *) o)[k] - yr[at + k];
                if (kind == K_QUAD && fabs(fabs(d) - 2 * RPI * fabs(par)) < 1e-3) d = 0;   // +pi and -pi are the same angle
                near(pr, names[kind], at + k, yr[at + k] + d, yr[at + k], 2e-5 * (1 + fabs(par)));
            } else { cf v = ((cf *) o)[k]; near(pr, names[kind], at + k, crealf(v), yc[at + k].re, 3e-5); near(pr, names[kind], at + k, cimagf(v), yc[at + k].im, 3e-5); }
        }
        free(bc); free(br);
        at += n; h = sq_hash(&at, 4, h); sq_state(h);
    }
    if (kind != K_DC) {
        void *o = &o; size_t on = 1; void *b = calloc(max + 1, 8);
        switch (kind) {
            case K_QUAD: quadrature_demod_process(b, max + 1, (float **) &o, &on, q); break;
            case K_FM: frequency_modulator_process(b, max + 1, (cf **) &o, &on, fm); break;
            case K_SIG: sig_source_process(1, max + 1, (cf **) &o, &on, sg); break;
            case K_SIGMUL: sig_source_multiply(1, b, max + 1, (cf **) &o, &on, sg); break;
        }
        free(b);
        if (on != 0) sq_fail("C14", "%s: a buffer larger than the maximum was not refused", names[kind]);
    }
    sq_outcome(sq_hash(&m, 4, root));
    quadrature_demod_destroy(q); frequency_modulator_destroy(fm); dc_blocker_destroy(dc); sig_source_destroy(sg);
    sq_no_leaks(NULL);
}
static void sc_block_cut(int root) { block_run(root, sq_thorough ? 13 : 11, true); }
static void sc_block_def(int root) { block_run(root, sq_thorough ? 8 : 7, false); }
// the oscillator keeps its phase when its frequency changes; long runs keep the frequency
static void sc_sig_change(int root) {
    static const int F[] = {0, 1, -1, 250, -250, 499, -500, 37};
    sig_source *sg = NULL; sig_source_create(1.0F, 1000, 64, &sg);
    double ph = 0; int f0 = F[root];
    for (int b = 0; b < 4; b++) {
        int f = b == 0 ? f0 : F[sq_choose(8, "frequency")], n = (int[]) {1, 7, 64}[sq_choose(3, "length")];
        cf *o = NULL; size_t on = 0; sig_source_process(f, n, &o, &on, sg); sq_step();
        sq_note("%d Hz x %d; ", f, n);
        if (on != (size_t) n) sq_fail("C13", "signal source returned %zu of %d samples", on, n);
        for (int k = 0; k < n; k++) { near("C13", "signal source", k, crealf(o[k]), cos(ph), 2e-4); near("C13", "signal source", k, cimagf(o[k]), sin(ph), 2e-4); ph += 2 * RPI * f / 1000; }
        uint64_t h = sq_hash(&ph, 8, b); sq_state(h);
    }
    sig_source_destroy(sg);
}

// streams of hours: the accuracy of a block does not depend on how much it has processed
static void sc_long(int root) {
    static const float S[] = {3.1f, -3.1f, 0.65f, -0.65f}; static const int F[] = {499, -499, 37, -1}, L[] = {8, 33, 160, 640};
    enum { B = 1000 };
    static float in[B]; static cf inc[B];
    int kind = root / 4, total = sq_thorough ? 2000 : 400;
    frequency_modulator *fm = NULL; sig_source *sg = NULL; dc_blocker *dc = NULL; int code = 0;
    switch (kind) {
        case 0: code = frequency_modulator_create(S[root % 4], B, &fm); break;
        case 1: code = sig_source_create(1, 1000, B, &sg); break;
        case 2: code = dc_blocker_create(L[root % 4], &dc); total /= 8; break;
    }
    if (code) sq_fail("C13", "block %d not created: %d", root, code);
    static const char *names[] = {"frequency modulator in a long stream", "signal source in a long stream", "dc blocker in a long stream"};
    sq_note("%s, %d buffers", names[kind], total);
    rnd = 77 + root; cf last = 1; float xs[4 * 640 + B]; int hist = 4 * 640; memset(xs, 0, sizeof xs);
    for (int b = 0; b < total; b++) {
        void *o = NULL; size_t on = 0;
        if (kind == 0) { for (int i = 0; i < B; i++) in[i] = 1; frequency_modulator_process(in, B, (cf **) &o, &on, fm); }
        if (kind == 1) sig_source_process(F[root % 4], B, (cf **) &o, &on, sg);
        if (kind == 2) { for (int i = 0; i < B; i++) in[i] = rf() + 0.5f; memcpy(xs + hist, in, sizeof in); dc_blocker_process(in, B, (float **) &o, &on, dc); }
        if (on != B) sq_fail("C13", "%s: %zu outputs for %d inputs", names[kind], on, B);
        if (kind < 2) {
            double w = kind == 0 ? S[root % 4] : 2 * RPI * F[root % 4] / 1000; cf *v = o;
            for (int i = 0; i < B; i++) {
                if (b || i) { near("C13", names[kind], b * B + i, creal(v[i] * conj((double complex) last)), cos(w), 2e-5); near("C13", names[kind], b * B + i, cimag(v[i] * conj((double complex) last)), sin(w), 2e-5); }
                last = v[i];
            }
        } else {
            if (b % 16 == 15 || b + 1 == total) {
                static double w[4 * 640 + B], y[4 * 640 + B]; for (int i = 0; i < hist + B; i++) w[i] = xs[i];
                rf_dc(L[root % 4], w, hist + B, y);
                for (int i = 0; i < B; i++) near("C13", names[kind], b * B + i, ((float *) o)[i], y[hist + i], 5e-3);
            }
            memmove(xs, xs + B, hist * sizeof(float));
        }
        sq_step();
        if (b % 100 == 99) sq_state(sq_hash(&b, 4, root));
    }
    sq_outcome(root);
    frequency_modulator_destroy(fm); sig_source_destroy(sg); dc_blocker_destroy(dc);
    sq_no_leaks(NULL);
}

// ---------------------------------------------------------------- symbol timing recovery
static float mmse(const float *x, float mu, void *a) { float *b; if (posix_memalign((void **) &b, 64, 64)) return 0; memcpy(b, x, 32); float r = mmse_fir_interpolator_process(b, mu, a); free(b); return r; }
static const struct { float omega, go, mu, gm, lim; int wave; } CK[] = {{2, .0628f, .5f, .0625f, .01f, 0}, {4, .125f, .5f, .0625f, .01f, 0}, {1, .03f, .5f, .0625f, .01f, 1}, {2.5f, .08f, .1f, .0625f, .01f, 2}, {9.6f, .3f, .5f, .0625f, .01f, 3}, {17, .5f, .5f, .0625f, .01f, 1}, {3, 0.5f, .9f, 0.8f, .3f, 4}, {1.3f, .04f, .5f, .0625f, .01f, 4}};
static void clock_run(int root, int N, bool cuts) {
    static float x[64]; float want[64]; rnd = 5 + root;
    for (int i = 0; i < N; i++) switch (CK[root].wave) { case 0: x[i] = rf(); break; case 1: x[i] = 0.7f * sinf(i * 0.9f + 0.2f); break; case 2: x[i] = rf() * 3; break; case 3: x[i] = i / 5 % 2 ? 0.8f : -0.6f; break; case 4: x[i] = rf() * 5; break; }
    mmse_fir_interpolator *ip = NULL; static mmse_fir_interpolator *cache; if (!cache) { cache = NULL; mmse_fir_interpolator_create(&cache); } ip = cache;
    size_t nw = rf_mm(CK[root].omega, CK[root].go, CK[root].mu, CK[root].gm, CK[root].lim, x, N, want, mmse, ip);
    size_t base = sq_live();
    // in which buffers
    int lens[64], nl = 0, big = 1;
    if (cuts) { int left = N, z = 0; while (left) { int l = cut(left, &z, 0); lens[nl++] = l; if (l > big) big = l; left -= l; } } else { lens[nl++] = N; big = N; }
    clock_mm *c = NULL;
    if (clock_mm_create(CK[root].omega, CK[root].go, CK[root].mu, CK[root].gm, CK[root].lim, big, &c)) sq_fail(NULL, "clock_mm_create failed");
    sq_note("timing recovery omega %g, buffers", CK[root].omega);
    size_t got = 0; int at = 0; const char *pr = cuts ? "C12" : "C13"; uint64_t h = root;
    for (int i = 0; i < nl; i++) {
        float *o = NULL; size_t on = 12345; float *b = EXACT(float, x + at, lens[i]);
        sq_note(" %d", lens[i]);
        clock_mm_process(b, lens[i], &o, &on, c); sq_step(); free(b);
        if (on > (size_t) big) sq_fail("C14", "%zu symbols from a buffer of %d samples", on, lens[i]);
        for (size_t k = 0; k < on; k++, got++) { if (got >= nw) sq_fail(pr, "more than the %zu symbols of the uncut stream", nw); near(pr, "symbol", got, o[k], want[got], 0.02 * 5); }
        at += lens[i]; h = sq_hash(&at, 4, h); sq_state(h);
    }
    if (got != nw) sq_fail(pr, "%zu symbols, expected %zu", got, nw);
    float *o = (void *) &o; size_t on = 1; float *b = calloc(big + 1, 4); clock_mm_process(b, big + 1, &o, &on, c); free(b);
    if (on) sq_fail("C14", "a buffer larger than the maximum was not refused");
    clock_mm_destroy(c);
    sq_outcome(h);
    if (sq_live() != base) sq_fail(NULL, "leak in clock_mm: %zu", sq_live() - base);
}
static void sc_clock_cut(int root) { clock_run(root, sq_thorough ? 18 : 14, true); }
static void sc_clock_def(int root) { clock_run(root, 60, false); }
// cutting into equal buffers of a longer stream: positions of the loop relative to the buffer change slowly
static void sc_clock_long(int root) {
    enum { N = 400 }; static float x[N], want[N]; rnd = 99;
    int c = root % 8, len = 1 + sq_choose(sq_thorough ? 64 : 33, "buffer length");
    double ph = 0; for (int i = 0; i < N; i++) { ph += 0.4 + 0.2 * sin(i * 0.013); x[i] = (float) (sin(ph) + 0.1 * rf()); }
    static mmse_fir_interpolator *cache; if (!cache) mmse_fir_interpolator_create(&cache);
    size_t nw = rf_mm(CK[c].omega, CK[c].go, CK[c].mu, CK[c].gm, CK[c].lim, x, N, want, mmse, cache), got = 0;
    clock_mm *k = NULL; clock_mm_create(CK[c].omega, CK[c].go, CK[c].mu, CK[c].gm, CK[c].lim, len, &k);
    sq_note("timing recovery omega %g, %d samples in buffers of %d", CK[c].omega, N, len);
    for (int i = 0; i < N; i += len) {
        int n = N - i < len ? N - i : len; float *o = NULL; size_t on = 0; float *b = EXACT(float, x + i, n);
        clock_mm_process(b, n, &o, &on, k); sq_step(); free(b);
        for (size_t j = 0; j < on; j++, got++) { if (got >= nw) sq_fail("C12", "more symbols than in the uncut stream"); near("C12", "symbol", got, o[j], want[got], 0.03); }
        sq_state(sq_hash(&got, 8, root * 64 + len));
    }
    if (got != nw) sq_fail("C12", "%zu symbols, expected %zu", got, nw);
    clock_mm_destroy(k);
}

// ---------------------------------------------------------------- tables and designs
static void sc_lpf_taps(int root) {
    static const uint64_t FS[] = {1, 2, 9600, 48000, 240000, 3000000}; 
    uint64_t fs = FS[root];
    static const double CR[] = {0, 0.01, 0.1, 0.25, 0.4, 0.5, 0.51}; static const double TR[] = {0, 0.01, 0.03, 0.1, 0.3, 0.9, 2, 3};
    uint64_t fc = (uint64_t) (fs * CR[sq_choose(7, "cutoff")]), tw = (uint64_t) (fs * TR[sq_choose(8, "transition")]); float gain = (float[]) {1, -2.5f}[sq_choose(2, "gain")];
    sq_note("low pass: fs %lu cutoff %lu transition %lu gain %g", fs, fc, tw, gain);
    float *t = NULL; size_t n = 777;
    int code = create_low_pass_filter(gain, fs, fc, (uint32_t) tw, &t, &n); sq_step();
    bool bad = fc == 0 || fc * 2.0 > fs || tw == 0;
    if (bad != (code != 0)) sq_fail("C13", "low pass design returned %d", code);
    if (code) { sq_no_leaks(NULL); return; }
    size_t want = rf_lpf_len(fs, tw);
    if (n != want) sq_fail("C13", "low pass design has %zu taps, expected %zu", n, want);
    static double r[20000]; rf_lpf(gain, fs, fc, n, r);
    for (size_t i = 0; i < n; i++) near("C13", "low pass tap", i, t[i], r[i], 2e-6 * fabs(gain) * 2 + 1e-7);
    sq_outcome(sq_hash(t, n * 4, 0)); sq_state(sq_hash(t, n * 4, 0));
    mcw_free(t); sq_no_leaks(NULL);
}
static void sc_gauss(int root) {
    double sps = (double[]) {1, 2, 3, 4, 5, 10, 2.5, 200}[root], bt = (double[]) {0.1, 0.25, 0.5, 1}[sq_choose(4, "bt")], g = (double[]) {1, 3}[sq_choose(2, "gain")]; size_t n = (size_t[]) {1, 2, 3, 7, 8, 40, 800}[sq_choose(7, "taps")];
    sq_note("gaussian: sps %g bt %g gain %g taps %zu", sps, bt, g, n);
    float *t = NULL; int code = gaussian_taps_create(g, sps, bt, n, &t); sq_step();
    if (code) sq_fail("C13", "gaussian design failed");
    static double r[1000]; rf_gauss(g, sps, bt, n, r);
    for (size_t i = 0; i < n; i++) near("C13", "gaussian tap", i, t[i], r[i], 1e-6 * g + 1e-6 * fabs(r[i]));
    sq_outcome(sq_hash(t, n * 4, 1)); sq_state(sq_hash(t, n * 4, 1));
    mcw_free(t); sq_no_leaks(NULL);
}
static void sc_atan(int root) {   // one root: a slice of the circle; all of it in steps finer than the table
    static const float MAG[] = {1, 1e-12f, 3e10f, 0.37f};
    int n = sq_thorough ? 1 << 14 : 1 << 11; uint64_t h = root;
    for (int m = 0; m < 4; m++) for (int i = 0; i < n; i++) {
        double a = 2 * RPI * (root * n + i) / (16.0 * n) - RPI; float x = (float) (MAG[m] * cos(a)), y = (float) (MAG[m] * sin(a));
        double want = atan2(y, x), got = fast_atan2f(y, x), d = got - want; sq_step();
        if (fabs(fabs(d) - 2 * RPI) < 1e-4) d = 0;
        if (!(fabs(d) < 5e-6)) sq_fail("C13", "fast_atan2f(%g, %g) = %.8g, expected %.8g", y, x, got, want);
        float g = got; h = sq_hash(&g, 4, h);
    }
    static const float E[] = {0, 1, -1, 0.5f, -0.5f, 1e-30f, -1e-30f, 255, 1.0f / 255};
    for (int i = 0; i < 9; i++) for (int j = 0; j < 9; j++) { double d = fast_atan2f(E[i], E[j]) - (E[i] == 0 && E[j] == 0 ? 0 : atan2(E[i], E[j])); if (fabs(fabs(d) - 2 * RPI) < 1e-4) d = 0; if (!(fabs(d) < 5e-6)) sq_fail("C13", "fast_atan2f(%g, %g) is off by %g", E[i], E[j], d); }
    sq_state(h); sq_outcome(h);
}
// the interpolator delays band limited signals by mu: all steps of the table, tones up to a quarter of the rate
static void sc_mmse(int root) {
    mmse_fir_interpolator *ip = NULL; if (mmse_fir_interpolator_create(&ip)) sq_fail("C13", "interpolator not created");
    int taps = mmse_fir_interpolator_taps(ip); if (taps != 8) sq_fail("C13", "%d taps", taps);
    for (int s = 0; s < 16; s++) {
        int st = root * 16 + s; if (st > 128) break; float mu = st / 128.0f; double sum = 0;
        float *b; if (posix_memalign((void **) &b, 64, 64)) return;
        float tap[8];
        for (int k = 0; k < 8; k++) { memset(b, 0, 64); b[k] = 1; tap[k] = mmse_fir_interpolator_process(b, mu, ip); sum += tap[k]; sq_step(); }
        near("C13", "interpolator gain", st, sum, 1, 5e-3);
        for (int k = 0; k < 8; k++) { memset(b, 0, 64); b[7 - k] = 1; float t2 = mmse_fir_interpolator_process(b, 1 - mu, ip); near("C13", "interpolator symmetry", st * 8 + k, t2, tap[k], 2e-3); }
        for (int f = 0; f <= 8; f++) for (int p = 0; p < 4; p++) {
            double w = 2 * RPI * f / 32.0, ph = p * RPI / 4; memset(b, 0, 64);
            for (int k = 0; k < 8; k++) b[k] = (float) cos(w * k + ph);
            near("C13", "interpolated tone", st * 100 + f * 4 + p, mmse_fir_interpolator_process(b, mu, ip), cos(w * (3 + mu) + ph), 5e-3);
        }
        for (int off = 0; off < 8; off++) {   // any address of the input
            float *z; if (posix_memalign((void **) &z, 64, 128)) return; memset(z, 0, 128); for (int k = 0; k < 8; k++) z[off + k] = k + 1;
            double e = 0; for (int k = 0; k < 8; k++) e += tap[k] * (k + 1);
            near("C13", "interpolator at an unaligned address", off, mmse_fir_interpolator_process(z + off, mu, ip), e, 1e-4); free(z);
        }
        sq_state(sq_hash(tap, 32, 0)); sq_outcome(sq_hash(tap, 32, 0));
        free(b);
    }
    sq_note("interpolator steps %d..%d", root * 16, root * 16 + 15);
    mmse_fir_interpolator_destroy(ip); sq_no_leaks(NULL);
}
// lpf block = design + fir
static void sc_lpf(int root) {
    int dec = root % 4 + 1, cx = root / 4 % 2, fi = root / 8; uint64_t fs = (uint64_t[]) {9600, 48000}[fi % 2], fc = fs / (fi < 2 ? 5 : 3); uint32_t tw = fs / (uint32_t[]) {2, 4, 9}[fi % 3]; enum { N = 30 };
    lpf *l = NULL; int len = 1 + sq_choose(N, "buffer length");
    if (lpf_create(dec, fs, fc, tw, len, cx ? 8 : 4, &l)) sq_fail("C13", "lpf not created");
    size_t nt = rf_lpf_len(fs, tw); double t[200], xr[N], yr[N]; rc x[N], y[N]; cf in[N]; float ir[N]; rf_lpf(1, fs, fc, nt, t); rnd = root;
    for (int i = 0; i < N; i++) { x[i].re = xr[i] = ir[i] = rf(); x[i].im = rf(); x[i].im = (float) x[i].im; in[i] = ir[i] + (float) x[i].im * I; }
    size_t want = cx ? rf_firc(t, nt, dec, x, N, y) : rf_fir(t, nt, dec, xr, N, yr), got = 0;
    sq_note("lpf %lu/%lu/%u dec %d, buffers of %d", fs, fc, tw, dec, len);
    for (int i = 0; i < N; i += len) {
        int n = N - i < len ? N - i : len; void *o = NULL; size_t on = 0; void *b = cx ? (void *) EXACT(cf, in + i, n) : (void *) EXACT(float, ir + i, n);
        lpf_process(b, n, &o, &on, l); sq_step(); free(b);
        for (size_t k = 0; k < on; k++, got++) { if (got >= want) sq_fail(NULL, "too many outputs"); if (cx) { near(NULL, "lpf", got, crealf(((cf *) o)[k]), y[got].re, 1e-5); near(NULL, "lpf", got, cimagf(((cf *) o)[k]), y[got].im, 1e-5); } else near(NULL, "lpf", got, ((float *) o)[k], yr[got], 1e-5); }
        sq_state(sq_hash(&got, 8, root * 40 + len));
    }
    if (got != want) sq_fail(NULL, "%zu outputs, expected %zu", got, want);
    lpf_destroy(l); sq_no_leaks(NULL);
}
static void sc_dc_refused(int root) { dc_blocker *d = NULL; int c = dc_blocker_create(root - 3, &d); sq_step(); if (root - 3 < 1 && c == 0) sq_fail("C14", "a dc blocker of length %d was created", root - 3); if (c == 0) { float x[8] = {1, 2, 3, 4, 5, 6, 7, 8}, *o; size_t n; dc_blocker_process(x, 8, &o, &n, d); if (n != 8) sq_fail("C14", "%zu outputs", n); dc_blocker_destroy(d); } sq_no_leaks(NULL); sq_state(root); }

struct sq_scen sq_scenarios[] = {
    {"fir cuttings", "C12 C14", sc_fir_cut, 70, 70, 60},
    {"fir definition", "C13", sc_fir_def, 70, 70, 60},
    {"interpolation cuttings", "C12 C14", sc_interp_cut, 35, 35, 60},
    {"interpolation definition", "C13", sc_interp_def, 35, 35, 60},
    {"block cuttings", "C12 C14", sc_block_cut, 15, 15, 60},
    {"block definition", "C13", sc_block_def, 15, 15, 60},
    {"long streams", "C13", sc_long, 12, 12, 60},
    {"oscillator frequency changes", "C13", sc_sig_change, 8, 8, 60},
    {"timing recovery cuttings", "C12 C14", sc_clock_cut, 8, 8, 60},
    {"timing recovery definition", "C13", sc_clock_def, 8, 8, 60},
    {"timing recovery of a long stream", "C12", sc_clock_long, 8, 8, 60},
    {"low pass design", "C13", sc_lpf_taps, 6, 6, 60},
    {"gaussian design", "C13", sc_gauss, 8, 8, 60},
    {"arc tangent", "C13", sc_atan, 16, 16, 60},
    {"interpolator", "C13", sc_mmse, 9, 9, 60},
    {"low pass block", "C12 C13", sc_lpf, 48, 48, 60},
    {"dc blocker length", "C14", sc_dc_refused, 12, 12, 20},
};
int sq_n_scenarios = sizeof sq_scenarios / sizeof *sq_scenarios;
