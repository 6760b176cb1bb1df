// refdsp.h: independent definitions of the signal processing blocks, in double precision and without any buffering:
// every function maps the complete input sequence to the complete output sequence.
#ifndef REFDSP_H
#define REFDSP_H
#include <math.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
typedef struct { double re, im; } rc;
#define RPI 3.14159265358979323846264338327950288
// FIR with zero history, every dec-th output starting with the first
static size_t rf_fir(const double *t, size_t nt, int dec, const double *x, size_t n, double *y) {
    size_t m = 0;
    for (size_t k = 0; k < n; k += dec) { double s = 0; for (size_t j = 0; j < nt && j <= k; j++) s += t[j] * x[k - j]; y[m++] = s; }
    return m;
}
static size_t rf_firc(const double *t, size_t nt, int dec, const rc *x, size_t n, rc *y) {
    size_t m = 0;
    for (size_t k = 0; k < n; k += dec) { rc s = {0, 0}; for (size_t j = 0; j < nt && j <= k; j++) { s.re += t[j] * x[k - j].re; s.im += t[j] * x[k - j].im; } y[m++] = s; }
    return m;
}
// zero stuffing by L followed by the FIR
static size_t rf_interp(const double *t, size_t nt, int L, const double *x, size_t n, double *y) {
    for (size_t k = 0; k < n * L; k++) { double s = 0; for (size_t j = k % L; j < nt && j <= k; j += L) s += t[j] * x[(k - j) / L]; y[k] = s; }
    return n * L;
}
// windowed sinc (Hamming), length from the 53 dB rule, unit gain at DC
static size_t rf_lpf_len(double fs, double tw) { double e = 53.0 * fs / (22.0 * tw); if (e > 1e8) return 0; size_t n = (size_t) e; return n | 1; }
static void rf_lpf(double gain, double fs, double fc, size_t n, double *t) {
    double sum = 0; long M = (long) (n - 1) / 2;
    for (long k = 0; k < (long) n; k++) {
        double w = n == 1 ? 1 : 0.54 - 0.46 * cos(2 * RPI * k / (n - 1)), x = (double) (k - M);
        t[k] = (k == M ? 2 * fc / fs : sin(2 * RPI * fc / fs * x) / (RPI * x)) * w;
        sum += t[k];
    }
    for (size_t k = 0; k < n; k++) t[k] *= gain / sum;
}
static void rf_gauss(double gain, double sps, double bt, size_t n, double *t) {
    double sum = 0, a = 2 * RPI * bt / sqrt(log(2.0)) / sps;
    for (size_t k = 0; k < n; k++) { double u = a * ((double) k + 1 - 0.5 * (double) n); t[k] = exp(-0.5 * u * u); sum += t[k]; }
    for (size_t k = 0; k < n; k++) t[k] *= gain / sum;
}
static void rf_quad(double gain, const rc *x, size_t n, double *y) {
    for (size_t k = 0; k < n; k++) {
        if (k == 0) { y[0] = 0; continue; }
        double re = x[k].re * x[k - 1].re + x[k].im * x[k - 1].im, im = x[k].im * x[k - 1].re - x[k].re * x[k - 1].im;
        y[k] = re == 0 && im == 0 ? 0 : gain * atan2(im, re);
    }
}
static void rf_fm(double sens, const double *x, size_t n, rc *y) {
    double ph = 0;
    for (size_t k = 0; k < n; k++) { ph += sens * x[k]; ph = remainder(ph, 2 * RPI); y[k].re = cos(ph); y[k].im = sin(ph); }
}
// x delayed by its own group delay minus four cascaded moving averages of length L
static void rf_dc(int L, const double *x, size_t n, double *y) {
    double *a = malloc(sizeof(double) * (n + 1)), *b = malloc(sizeof(double) * (n + 1));
    memcpy(a, x, sizeof(double) * n);
    for (int r = 0; r < 4; r++) {
        for (size_t k = 0; k < n; k++) { double s = 0; for (int j = 0; j < L && (size_t) j <= k; j++) s += a[k - j]; b[k] = s / L; }
        memcpy(a, b, sizeof(double) * n);
    }
    for (size_t k = 0; k < n; k++) y[k] = (k >= (size_t) (2 * (L - 1)) ? x[k - 2 * (L - 1)] : 0) - a[k];
    free(a); free(b);
}
// Mueller & Mueller timing recovery (Danesfahani/Jeans modified form) over an 8 tap interpolator given as a function
static size_t rf_mm(float omega, float gain_omega, float mu, float gain_mu, float lim, const float *x, size_t n, float *y, float (*interp)(const float *, float, void *), void *arg) {
    float last = 0, mid = omega, rng = omega * lim; size_t i = 0, m = 0;
    while (i + 8 <= n) {
        float o = interp(x + i, mu, arg), e;
        if (isnan(o)) { y[m++] = 0; long st = (long) floorf(omega); i += st < 1 ? 1 : st; continue; }
        e = (last < 0 ? -1.f : 1.f) * o - (o < 0 ? -1.f : 1.f) * last;
        last = o; y[m++] = o;
        omega += gain_omega * e;
        if (omega > mid + rng) omega = mid + rng;
        if (omega < mid - rng) omega = mid - rng;
        mu += omega + gain_mu * e;
        long st = (long) floorf(mu); mu -= floorf(mu); i += st < 1 ? 1 : st;
    }
    return m;
}
// complete GFSK modulator
static size_t rf_gfsk(double sps, double sens, double bt, const uint8_t *bits, size_t nbytes, rc *out) {
    int L = (int) sps; size_t ng = (size_t) (4 * sps), nt = ng + L - 1, n = nbytes * 8;
    double *g = malloc(ng * 8), *t = calloc(nt, 8), *x = malloc((n + 1) * 8), *y = malloc((n * L + 1) * 8);
    rf_gauss(1, sps, bt, ng, g);
    for (size_t i = 0; i < ng; i++) for (int j = 0; j < L; j++) t[i + j] += g[i];
    for (size_t i = 0; i < n; i++) x[i] = bits[i / 8] >> (7 - i % 8) & 1 ? 1 : -1;
    rf_interp(t, nt, L, x, n, y);
    rf_fm(sens, y, n * L, out);
    free(g); free(t); free(x); free(y);
    return n * L;
}
// complete FSK demodulator; soft bits in units of 1/127
static size_t rf_fsk(double fs, double baud, double dev, int dec, double tw, bool dc, const rc *x, size_t n, float *out, float (*interp)(const float *, float, void *), void *arg) {
    double cut = floor(fabs(dev) + baud / 2), cutf = fabs(dev) + baud / 2;
    size_t n1 = rf_lpf_len(fs, floor((double) 0.1f * cutf)), n2 = rf_lpf_len(fs, tw);
    double *t1 = malloc(n1 * 8), *t2 = malloc(n2 * 8), *q = malloc((n + 1) * 8), *r = malloc((n + 1) * 8), *d = malloc((n + 1) * 8);
    rc *a = malloc((n + 1) * sizeof(rc)); float *f = malloc((n + 1) * 4);
    rf_lpf(1, fs, cut, n1, t1); rf_lpf(1, fs, floor(baud / 2), n2, t2);
    rf_firc(t1, n1, 1, x, n, a);
    rf_quad(fs / (2 * RPI * dev), a, n, q);
    size_t m = rf_fir(t2, n2, dec, q, n, r);
    float sps = (float) (fs / baud / dec);
    if (dc) { rf_dc((int) ceilf(sps * 32), r, m, d); memcpy(r, d, m * 8); }
    for (size_t k = 0; k < m; k++) f[k] = (float) r[k];
    size_t o = rf_mm(sps, sps * (float) RPI / 100, 0.5f, 0.5f / 8, 0.01f, f, m, out, interp, arg);
    free(t1); free(t2); free(q); free(r); free(d); free(a); free(f);
    return o;
}
#endif
