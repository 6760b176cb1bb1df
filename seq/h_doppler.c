// C15 (C14, C23): Doppler correction against an independent orbit computation (ref/orbit.h)
#include "seqrt.h"
#include "dsp/doppler.h"
#include "../ref/orbit.h"
#include <complex.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
typedef float complex cf;
static char (*tle)[80]; static struct rel E; static struct rorb O, O2;   // O2: the same with rounded constants
static void chk(char *l) { int s = 0; for (int i = 0; i < 68; i++) s += l[i] >= '0' && l[i] <= '9' ? l[i] - '0' : l[i] == '-'; l[68] = '0' + s % 10; l[69] = 0; }
// writes the elements as text and keeps the values the text says
static void orbit(int yy, int day, double frac, double bstar, double incl, double node, double ecc, double argp, double ma, double mm) {
    free(tle); tle = calloc(3, 80); char b[100], bs[12] = " 00000-0"; strcpy(tle[0], "SAT");
    double bv = 0; if (bstar != 0) { int ex = (int) floor(log10(fabs(bstar))) + 1; long m = lround(fabs(bstar) / pow(10, ex) * 1e5); if (m == 100000) { m = 10000; ex++; } snprintf(bs, 12, "%c%05ld%c%d", bstar < 0 ? '-' : ' ', m, ex > 0 ? '+' : '-', abs(ex)); bv = (bstar < 0 ? -1 : 1) * m * pow(10, ex - 5); }
    long f8 = lround(frac * 1e8), n8 = lround(mm * 1e7) * 10, e7 = lround(ecc * 1e7);
    snprintf(b, 100, "1 12345U 98067A   %02d%03d.%08ld  .00000000  00000-0 %s 0  999", yy, day, f8, bs); memcpy(tle[1], b, 68); chk(tle[1]);
    snprintf(b, 100, "2 12345 %8.4f %8.4f %07ld %8.4f %8.4f %2ld.%08ld    1", incl, node, e7, argp, ma, n8 / 100000000, n8 % 100000000); memcpy(tle[2], b, 68); chk(tle[2]);
    double r4[4] = {incl, node, argp, ma}; for (int i = 0; i < 4; i++) { snprintf(b, 100, "%8.4f", r4[i]); r4[i] = atof(b); }
    E = (struct rel) {yy, day + f8 / 1e8, bv, r4[0], r4[1], e7 / 1e7, r4[2], r4[3], n8 / 1e8}; orbit_round(true); r_init(&O2, &E); orbit_round(false); if (!r_init(&O, &E)) sq_fail(NULL, "the reference does not know this orbit");
}
struct orb { const char *n; double bstar, incl, node, ecc, argp, ma, mm; };
static const struct orb OR[] = {
    {"low orbit", 3.289e-5, 97.527, 32.5584, 0.0026284, 107.4758, 252.9348, 15.12089395}, {"station", 3.1e-5, 51.6416, 247.4627, 0.0006703, 130.5360, 325.0288, 15.72125391}, {"equatorial", 1e-4, 0.5, 10, 0.001, 20, 30, 14.5}, {"retrograde", -2e-5, 144.6, 200, 0.01, 300, 10, 14.2},
    {"very low", 6e-4, 28.5, 100, 0.0008, 90, 45, 16.42}, {"low perigee", 2e-4, 63.4, 300, 0.11, 270, 100, 13.9}, {"lowest perigee", 1e-6, 20, 77, 0.17, 200, 200, 12.6}, {"eccentric", 1e-5, 72.8, 0.25, 0.35, 15, 350, 8.75}, {"circular", 0, 98.7, 359.9, 0, 0, 0, 14.12}, {"polar", 1e-5, 90, 123, 0.02, 66, 166, 13.5}, {"nearly deep", 1e-4, 47, 50, 0.2, 60, 70, 6.45},
    {"half day", 1.4e-3, 63.4, 99, 0.7, 270, 12, 2.00612}, {"half day, less eccentric", 1e-4, 64, 299, 0.62, 280, 12, 2.0056}, {"half day, most eccentric", 0, 62.7, 31, 0.72, 250, 112, 2.0061}, {"half day, .66", 0, 6.9, 180, 0.66, 150, 312, 2.01}, {"navigation", 0, 55.1, 44, 0.0123, 210, 21, 2.00562}, {"geostationary", 0, 0.05, 88, 0.0002, 10, 277, 1.0027}, {"geosynchronous", 1e-4, 7.2, 88, 0.03, 10, 277, 1.0027}, {"geosynchronous inclined", 0, 42, 200, 0.075, 270, 100, 1.0026},
    {"transfer", 1.4e-3, 26.5, 10, 0.73, 178, 5, 2.27}, {"transfer, low inclination", 1e-4, 6.5, 300, 0.725, 20, 355, 2.2}, {"very high", 0, 30, 70, 0.6, 90, 10, 0.3}, {"published deep", 1.4311e-2, 46.7916, 230.4354, 0.7318036, 47.4722, 10.4117, 2.28537848}, {"deep, low perigee", 5e-5, 50, 10, 0.515, 20, 30, 6.0}, {"barely deep", 1e-4, 47, 50, 0.2, 60, 70, 6.35}, {"deep retrograde", 0, 120, 10, 0.4, 300, 30, 4.0},
};
#define N_OR ((int) (sizeof OR / sizeof *OR))
static const double ST[][3] = {{53.72, 47.57, 0}, {0, 0, 0}, {-33.9, 151.2, 0.5}, {89.9, 359, 4}, {-75, -60, 2.8}, {19.8, 204.5, 4.2}};
static time_t unix_of(double jd) { return (time_t) floor((jd - 2440587.5) * 86400 + 1e-4); }
static double slack;   // how much the rounding of the constants matters
static bool shift(double center, double off, const double *st, time_t t, int dir, double *s) {
    double rr, r2, jd = 2440587.5 + t / 86400.0; if (!r_range_rate(&O, jd, st[0], st[1], st[2], &rr)) return false; orbit_round(true); bool ok = r_range_rate(&O2, jd, st[0], st[1], st[2], &r2); orbit_round(false); if (!ok) return false;
    *s = dir * center * rr / 299792.458 + off; slack = 1.05 + center * 1e-10 + 2 * fabs(center * (rr - r2) / 299792.458); return true;
}
static void use(int k, int yy, int day, double fr) { const struct orb *o = &OR[k]; orbit(yy, day, fr, o->bstar, o->incl, o->node, o->ecc, o->argp, o->ma, o->mm); }
static int waited;   // seconds between the creation and the first samples
static void measure(double center, int64_t off, const double *st, time_t start, time_t now, int dir, const char *what) {   // the frequency applied at the start time, modulo the sampling rate
    const uint64_t fs = 1000; doppler *d = NULL; double s0, s1; sq_cfg.now = now - waited; time_t at = start ? start : now;
    bool ok = shift(center, off, st, at, dir, &s0) && shift(center, off, st, at + 1, dir, &s1);
    int c = doppler_create(st[0], st[1], st[2], fs, center, off, start, 4, tle, &d); sq_step(); if (!ok) { sq_hit("not computable"); if (c == 0) doppler_destroy(d); return; } if (c) sq_fail("C15", "a valid orbit (%s) is refused", what);
    cf x[3] = {1, 1, 1}, *y = NULL; size_t n = 0; sq_cfg.now = now; (dir > 0 ? doppler_process_rx : doppler_process_tx)(x, 3, &y, &n, d); if (n != 3) sq_fail("C15", "%zu samples of 3", n);
    double f = carg((double complex) y[1] / y[0]) / (2 * M_PI) * fs, tol = slack, lo = fmin(s0, s1) - tol, hi = fmax(s0, s1) + tol, best = f + fs * round((((lo + hi) / 2) - f) / fs);
    if (best < lo || best > hi) sq_fail("C15", "%s, %.2f minutes after the epoch: the shift is %.2f Hz (modulo %d) instead of %.2f (at %.0f Hz, offset %ld)", what, (at - (O.epoch - 2440587.5) * 86400) / 60, best, (int) fs, s0, center, (long) off);
    int64_t r = llround(best); sq_outcome(sq_hash(&r, 8, 1)); uint64_t q[3] = {at, sq_hash(tle, 240, 0), sq_hash(st, 24, dir)}; sq_state(sq_hash(q, 24, 0)); sq_hit(O.deep ? "deep-space" : "near-earth"); doppler_destroy(d); sq_no_leaks("C15");
}
static void orbits(int root) {
    int k = root % N_OR, st = root / N_OR; use(k, 23, 123, 0.25); double worst = orbit_selftest(); if (worst > 0.02) sq_fail("C15", "reference"); int n = sq_thorough ? 2000 : 160, i = sq_choose(n, "start time"); double days = -2.0 + 14.0 * i / n;
    time_t t = unix_of(O.epoch) + (time_t) (days * 86400) + i; static const int64_t OF[] = {0, 4000, -12345}; int o = sq_choose(3, "constant offset"), dir = sq_choose(2, "direction") ? -1 : 1; sq_note("%s from station %d, %.3f days after the epoch, direction %d, offset %ld", OR[k].n, st, days, dir, (long) OF[o]);
    measure(1e10, OF[o], ST[st], t, 12345, dir, OR[k].n);
}
static void far_(int root) {       // long after and before the epoch
    int k = root; use(k, 23, 1, 0.0); int i = sq_choose(sq_thorough ? 1200 : 120, "start time"); double days = (i % 2 ? 1 : -1) * (i / 2) * (sq_thorough ? 0.7 : 7.0) * (E.bstar > 1e-4 ? 0.02 : E.bstar ? 0.2 : 1); time_t t = unix_of(O.epoch) + (time_t) (days * 86400);
    sq_note("%s, %.1f days after the epoch", OR[k].n, days); measure(1e9, 0, ST[0], t, 1, 1, OR[k].n);
}
static void drag(int root) {       // balloons and falling satellites: the high powers of the time since the epoch matter
    static const double BS[] = {1e-3, 4e-3, 0.012, 0.03, 0.09, -0.005}, MM[] = {16.2, 15.7, 15.2, 14.1, 12.5, 7.1}, EC[] = {0.0003, 0.02, 0.12, 0.4}; int a = root % 6, b = root / 6 % 6, c = root / 36;
    double per = pow(0.0743669161 / (MM[b] * 2 * M_PI / 1440), 2 / 3.0) * (1 - EC[c]); if (per < 1.01) return; orbit(23, 123, 0.25, BS[a], 63.4, 300, EC[c], 40, 45, MM[b]); int n = sq_thorough ? 400 : 60, i = sq_choose(n, "start time"); double days = -4.0 + 12.0 * i / n; if (fabs(BS[a] * days) > 0.1) return;   // beyond that nothing is left of the orbit
    sq_note("drag %g, motion %g, eccentricity %g, %.2f days", BS[a], MM[b], EC[c], days); measure(437e6, 0, ST[1], unix_of(O.epoch) + (time_t) (days * 86400), 3, 1, "drag");
}
static void grid(int root) {       // synthetic orbits over a grid of elements
    static const double IN[] = {0.01, 2.9, 11.4, 11.5, 45, 63.43, 90, 116.6, 178}, EC[] = {0, 0.0001, 0.05, 0.2, 0.49, 0.51, 0.65, 0.69, 0.714, 0.72}, MM[] = {16, 14.9, 12, 9, 6.5, 6.3, 4, 2.1, 2.0, 1.92, 1.2, 1.0, 0.5}; int a = root % 9, b = root / 9 % 10, c = root / 90;
    double per = pow(0.0743669161 / (MM[c] * 2 * M_PI / 1440), 2 / 3.0) * (1 - EC[b]); if (per < 1.012) return; double mo = sq_choose(4, "mean anomaly") * 90, w = sq_choose(3, "argument of perigee") * 120, no = sq_choose(3, "node") * 120; orbit(99, 365, 0.9, EC[b] > 0.4 ? 0 : 1e-5, IN[a], no, EC[b], w, mo, MM[c]); int dt = sq_choose(4, "days after the epoch"); static const double D[] = {-0.3, 0.0001, 0.7, 3.3};
    sq_note("inclination %g eccentricity %g motion %g node %g perigee %g anomaly %g, %g days", IN[a], EC[b], MM[c], no, w, mo, D[dt]); measure(1e9, 0, ST[2], unix_of(O.epoch) + (time_t) (D[dt] * 86400), 7, 1, "synthetic");
}
static void stations(int root) {   // a grid of stations
    use(root % 3, 20, 69, 0.5); double lat = -90 + 15 * sq_choose(13, "latitude"), lon = -180 + 30 * sq_choose(19, "longitude"), alt = sq_choose(3, "altitude") * 4.5; double s[3] = {lat == 90 ? 89.999 : lat == -90 ? -89.999 : lat, lon, alt}; sq_note("station %g %g %g", s[0], s[1], s[2]);
    measure(1e10, 0, s, unix_of(O.epoch) + root / 3 * 1777, 5, 1, OR[root % 3].n);
}
static void dates(int root) {      // every day of several years, and every kind of time of day
    static const int Y[] = {57, 72, 99, 0, 1, 19, 20, 21, 24, 38, 56}; int yy = Y[root], y = yy < 57 ? 2000 + yy : 1900 + yy, leap = y % 4 == 0, day = 1 + sq_choose(365 + leap, "day"); use(root % 2, yy, day, 0.37); static const int S[] = {0, 1, 59, 60, 3599, 3600, 43199, 43200, 86399}; int s = S[sq_choose(9, "second of the day")];
    time_t t = (time_t) llround((r_jd_year(y) + day - 2440587.5) * 86400) + s; if (t == 0) return; sq_note("day %d of %d, second %d", day, y, s); measure(1e9, 0, ST[1], t, 1, 1, "dates");
}
static void now_(int root) {       // no start time: the clock
    int k = root % N_OR; use(k, 23, 123, 0.25); time_t t = unix_of(O.epoch) + sq_choose(sq_thorough ? 2000 : 200, "time") * 997 - 50000; int dir = root / N_OR ? -1 : 1; static const int W[] = {0, 1, 2400, 86400}; waited = W[sq_choose(4, "seconds until the first samples")]; sq_note("%s, the clock says %ld, %d seconds after the request", OR[k].n, (long) t, waited); measure(1e10, 100, ST[0], 0, t, dir, OR[k].n);
}
// whole streams cut into buffers
static void stream(double center, int64_t off, uint64_t fs, const double *st, time_t start, bool realtime, int dir, uint32_t max, const int *lens, int nl, size_t total, const char *what) {
    doppler *d = NULL; sq_cfg.now = start; if (doppler_create(st[0], st[1], st[2], fs, center, off, realtime ? 0 : start, max, tle, &d)) sq_fail("C15", "refused"); size_t n = 0; double complex prev = 0; int k = 0; double pf = 0; size_t ns = (total + max) / fs + 3; double *S = malloc(8 * ns); for (size_t i = 0; i < ns; i++) if (!shift(center, off, st, start + i, dir, &S[i])) sq_fail(NULL, "not computable");
    while (n < total) {
        int len = lens[k++ % nl]; if (len == 0 || len > (int) max) { cf *y = (void *) &y; size_t ol = 77; cf *x = calloc(len + 1, sizeof *x); (dir > 0 ? doppler_process_rx : doppler_process_tx)(x, len, &y, &ol, d); if (y != NULL || ol != 0) sq_fail(NULL, "a buffer of %d was processed although the maximum is %u", len, max); free(x); if (k > 40 && n == 0) break; continue; }
        cf *x = malloc(len * sizeof *x), *y = NULL; size_t ol = 0; for (int i = 0; i < len; i++) { int m = (n + i) % 7; x[i] = (0.5f + 0.25f * m) * (m & 1 ? I : 1); }
        cf *keep = malloc(len * sizeof *x); memcpy(keep, x, len * sizeof *x); (dir > 0 ? doppler_process_rx : doppler_process_tx)(x, len, &y, &ol, d); sq_step(); if (ol != (size_t) len) sq_fail(NULL, "%zu samples of %d", ol, len); if (memcmp(keep, x, len * sizeof *x)) sq_fail("C15", "the input was changed");
        for (int i = 0; i < len; i++, n++) {
            double complex o = (double complex) y[i] / x[i]; double m = cabs(o); if (!(fabs(m - 1) < 1e-5)) sq_fail("C15", "the amplitude of sample %zu changes by %g", n, m);
            if (n) { size_t sec = (n - 1) / fs; double f = carg(o / prev) / (2 * M_PI) * fs, lo = fmin(S[sec], S[sec + 1]) - slack, hi = fmax(S[sec], S[sec + 1]) + slack, g = f + fs * round((((lo + hi) / 2) - f) / fs); if (g < lo || g > hi) sq_fail("C15", "%s: at sample %zu (%.3f s) the shift is %.2f Hz instead of %.2f .. %.2f", what, n - 1, (double) (n - 1) / fs, g, lo + slack, hi - slack); pf = g; }
            prev = o;
        }
        free(x); free(keep);
    }
    sq_outcome(sq_hash(&pf, 8, n)); sq_state(sq_hash(lens, nl * sizeof *lens, max + dir)); sq_hit(realtime ? "from now" : "from the start time"); free(S); doppler_destroy(d); sq_no_leaks("C15");
}
static void cuts(int root) {
    const int fs = 11000; static const int A[] = {0, 1, 333, 3667, 5500, 10999, 11000, 11001, 16500, 22000, 27501, 33000}; int na = 12, k = root % 2 ? 1 : 4, dir = root / 2 % 2 ? -1 : 1; int a = root / 4 % na, b = root / 4 / na; use(k, 23, 123, 0.25);
    int lens[3] = {A[a], A[b], 1}, nl = 2; int c = sq_choose(sq_thorough ? na + 1 : 4, "third length"); if (c) { lens[2] = sq_thorough ? A[c - 1] : A[(int[]) {0, 2, 6, 10}[c]]; nl = 3; }
    long sum = 0; for (int i = 0; i < nl; i++) sum += lens[i]; if (sum < 600) return; sq_note("%s, buffers of %d %d %d", OR[k].n, lens[0], lens[1], nl == 3 ? lens[2] : -1); time_t t = unix_of(O.epoch) + 86400 / 4 + 2000; stream(437e6, dir > 0 ? 0 : 50, fs, ST[0], t, c % 2, dir, sq_choose(2, "maximum") ? 16500 : 33000, lens, nl, fs * (sq_thorough ? 7 : 4) + 3, OR[k].n);
}
static void small_cuts(int root) {  // all sequences of four lengths at a very low sampling rate
    const int fs = 8; int max = 1 + root % 19, k = root / 19; use(k ? 15 : 1, 23, 123, 0.25); int lens[4]; for (int i = 0; i < 4; i++) lens[i] = sq_choose(sq_thorough ? 20 : 11, "length") * (sq_thorough ? 1 : 2) - (sq_thorough ? 0 : 1); for (int i = 0; i < 4; i++) if (lens[i] < 0) lens[i] = 8; int sum = 0; for (int i = 0; i < 4; i++) sum += lens[i] <= max ? lens[i] : 0; if (sum == 0) return;
    sq_note("%s, buffers of at most %d: %d %d %d %d", OR[k ? 15 : 1].n, max, lens[0], lens[1], lens[2], lens[3]); stream(250000, 0, fs, ST[0], unix_of(O.epoch) + 600, false, 1, max, lens, 4, 60, "low rate");
}
static void longer(int root) {      // minutes of samples
    const int fs = 11000; use(root % N_OR, 23, 123, 0.25); static const int Q[][3] = {{2000, 2000, 2000}, {11000, 11000, 11000}, {30000, 1, 4097}, {10000, 12000, 0}}; int q = sq_choose(4, "buffers"); const double *st = ST[root % 6]; int dir = root / N_OR ? -1 : 1; sq_note("%s, buffers of %d %d %d", OR[root % N_OR].n, Q[q][0], Q[q][1], Q[q][2]);
    double c = 300e6; stream(c, 0, fs, st, unix_of(O.epoch) + 5000 + root * 60, q == 1, dir, 33000, Q[q], 3, (size_t) fs * (sq_thorough ? 120 : 12), OR[root % N_OR].n);
}
static void day(int root) {         // a day and more of samples at a low rate: the corrected second runs along with the samples, however long the session
    int k = root % 4, fs = 8; static const int Q[] = {1000, 1024, 8, 77}; use((int[]) {0, 4, 11, 14}[k], 23, 123, 0.25); int q = Q[root / 4 % 4], dir = sq_choose(2, "direction") ? -1 : 1; bool rt = sq_choose(2, "from now"); sq_note("%s, buffers of %d", OR[(int[]) {0, 4, 11, 14}[k]].n, q);
    stream(100000, 0, fs, ST[root % 3], unix_of(O.epoch) + 86400 / 3 + root, rt, dir, 2048, &q, 1, (size_t) fs * (sq_thorough ? 200000 : 70000), "a day");
}
static void oom(int root) {
    use(root, 23, 123, 0.25); sq_cfg.oom = 1; doppler *d = NULL; int c = doppler_create(10, 20, 0, 1000, 1000000, 0, unix_of(O.epoch), 4, tle, &d); sq_step(); if ((c != 0) != (sq_oom_hit != 0)) sq_fail("C23", "the answer is %d", c); if (c && d) sq_fail("C23", "a failed correction is returned"); if (!c) doppler_destroy(d); sq_no_leaks("C23"); sq_hit(c ? "failed" : "created"); sq_state(root * 2 + !!c); sq_outcome(c + 100);
}
static void hopeless(int root) {    // elements for which no position exists at the start time
    static const struct orb B[] = {{"no motion", 0, 50, 0, 0.1, 0, 0, 0}, {"inside the earth", 1e-3, 50, 0, 0.1, 0, 0, 99}, {"decayed", 0.5, 50, 0, 0.1, 0, 0, 16}, {"escaping", 0, 50, 0, 0.9999999, 0, 0, 15}, {"equatorial and deep", 0, 0, 10, 0.001, 20, 30, 1.0027}, {"equatorial", 1e-4, 0, 10, 0.001, 20, 30, 15}, {"slow", 0, 30, 0, 0.1, 0, 0, 0.00000001}};
    const struct orb *o = &B[root % 7]; free(tle); tle = NULL; { struct rel k = E; (void) k; } char b[100]; tle = calloc(3, 80); strcpy(tle[0], "X"); snprintf(b, 100, "1 12345U 98067A   23123.25000000  .00000000  00000-0 %s 0  999", o->bstar == 0 ? " 00000-0" : o->bstar > 0.1 ? " 50000+0" : " 10000-3"); memcpy(tle[1], b, 68); chk(tle[1]);
    long n8 = lround(o->mm * 1e8); snprintf(b, 100, "2 12345 %8.4f %8.4f %07ld %8.4f %8.4f %2ld.%08ld    1", o->incl, o->node, lround(o->ecc * 1e7), o->argp, o->ma, n8 / 100000000, n8 % 100000000); memcpy(tle[2], b, 68); chk(tle[2]);
    static const long D[] = {0, 86400, 864000, -864000, 315360000}; long dt = D[sq_choose(5, "time")]; bool rt = sq_choose(2, "from now"); time_t t = 1683093600 + dt; sq_cfg.now = t; doppler *d = NULL; int c = doppler_create(53.72, 47.57, 0, 1000, 437000000, 0, rt ? 0 : t, 10, tle, &d); sq_step(); sq_note("%s, %ld seconds after the epoch", o->n, dt);
    if (c && d) sq_fail("C15", "a refused correction is returned");
    if (!c) for (int k = 0; k < 3; k++) { cf x[4] = {1, 1, 1, 1}, *y; size_t n; doppler_process_rx(x, 4, &y, &n, d); if (n != 4) sq_fail("C15", "%zu samples", n); for (int i = 0; i < 4; i++) if (!(cabsf(y[i]) < 1.1f && cabsf(y[i]) > 0.9f)) sq_fail("C15", "%s: sample %d becomes %g%+gi", o->n, i, crealf(y[i]), cimagf(y[i])); }
    if (c == 0) doppler_destroy(d); sq_no_leaks("C15"); sq_hit(c ? "refused" : "computed"); sq_state(root * 10 + dt / 86400); sq_outcome(c + 100); if (root == 4 && c) sq_fail("C15", "an equatorial orbit is refused");
}
struct sq_scen sq_scenarios[] = {
    {"orbits", "C15", orbits, N_OR * 6, N_OR * 6, 20}, {"far from the epoch", "C15", far_, N_OR, N_OR, 10}, {"much drag", "C15", drag, 144, 144, 10}, {"grid of elements", "C15", grid, 9 * 10 * 13, 9 * 10 * 13, 20}, {"stations", "C15", stations, 9, 60, 10}, {"dates", "C15", dates, 11, 11, 10}, {"from the clock", "C15", now_, 2 * N_OR, 2 * N_OR, 10},
    {"cuttings", "C15", cuts, 4 * 144, 4 * 144, 30}, {"all short cuttings", "C15 C14", small_cuts, 38, 38, 20}, {"longer streams", "C15", longer, 2 * N_OR, 2 * N_OR, 20}, {"a day of samples", "C15", day, 16, 16, 30}, {"allocation failures", "C23", oom, N_OR, N_OR, 5}, {"orbits without a position", "C15 C14", hopeless, 7, 7, 5},
};
int sq_n_scenarios = sizeof sq_scenarios / sizeof *sq_scenarios;
