// Reference orbit computation: SGP4 and SDP4 of Spacetrack Report 3 (with the corrections of its 1999 revision), and
// the range rate seen from a station on the rotating WGS72 earth. Written from the published equations; validated
// against the vectors published with them (orbit_selftest).
#ifndef REF_ORBIT_H
#define REF_ORBIT_H
#include <math.h>
#include <string.h>
#include <stdbool.h>
#include <stdint.h>
struct rel { int yy; double day; double bstar, incl, node, ecc, argp, ma, mm; };   // degrees, revolutions per day
struct rorb {
    double e0, i0, w0, O0, M0, B, epoch;      // radians; epoch as Julian date
    double n, a; bool deep, simple;           // original mean motion (rad/min), semi-major axis (earth radii)
    double s, q, th, eta, xi, C1, C2, C3, C4, C5, D2, D3, D4, Md, wd, Od, Oc, b2;
    // deep space
    double g0, se, si, sl, sg, sh; int res;   // sidereal angle at epoch; secular rates; 0 none, 1 half day, 2 one day
    struct { double e2, e3, i2, i3, l2, l3, l4, g2, g3, g4, h2, h3, m0, n, e; } per[2];
    double D[10], lam0, xfact, del[3];
};
static const double R_KE = 0.0743669161, R_RE = 6378.135, R_K2 = 5.413079e-4, R_K4 = 6.209887e-7, R_A3 = 2.53881e-6;
static double R_TH = 2 / 3.0, R_D2R = M_PI / 180, R_OM = 1.0027379093;   // rounded differently by orbit_round() to see how much that matters
static void orbit_round(bool on) { R_TH = on ? 6.6666667e-1 : 2 / 3.0; R_D2R = on ? 1.74532925e-2 : M_PI / 180; R_OM = on ? 1.0027379 : 1.0027379093; }
static double r_mod(double x) { x = fmod(x, 2 * M_PI); return x < 0 ? x + 2 * M_PI : x; }
static double r_jd_year(int y) { long d = 0; for (int k = 1957; k < y; k++) d += 365 + (k % 4 == 0 && (k % 100 || k % 400 == 0)); return 2435838.5 + d; }
static void r_deep_init(struct rorb *o) {
    double T = o->epoch - 2433281.5, d = T + 18261.5, c_i = cos(o->i0), s_i = sin(o->i0), e2 = o->e0 * o->e0, be = sqrt(1 - e2), cw = cos(o->w0), sw = sin(o->w0);
    o->g0 = r_mod(6.3003880987 * T + 1.72944494);
    double On = 4.5236020 - 9.2422029e-4 * d, sO = sin(On), cO = cos(On), ci = 0.91375164 - 0.03568096 * cO, si = sqrt(1 - ci * ci), sh = 0.089683511 * sO / si, ch = sqrt(1 - sh * sh);
    double lon = 4.7199672 + 0.22997150 * d, gam = 5.8351514 + 0.0019443680 * d, w = atan2(0.39785416 * sO / si, ch * cO + 0.91744867 * sh * sO) + gam - On;
    struct { double cg, sg, ci, si, ch, sh, n, c, e, m; } b[2] = {
        {0.1945905, -0.98088458, 0.91744867, 0.39785416, cos(o->O0), sin(o->O0), 1.19459e-5, 2.9864797e-6, 0.01675, r_mod(6.2565837 + 0.017201977 * d)},
        {cos(w), sin(w), ci, si, ch * cos(o->O0) + sh * sin(o->O0), sin(o->O0) * ch - cos(o->O0) * sh, 1.5835218e-4, 4.7968065e-7, 0.05490, r_mod(lon - gam)}};
    o->se = o->si = o->sl = o->sg = o->sh = 0;
    for (int k = 0; k < 2; k++) {
        double a1 = b[k].cg * b[k].ch + b[k].sg * b[k].ci * b[k].sh, a3 = -b[k].sg * b[k].ch + b[k].cg * b[k].ci * b[k].sh, a7 = -b[k].cg * b[k].sh + b[k].sg * b[k].ci * b[k].ch, a8 = b[k].sg * b[k].si;
        double a9 = b[k].sg * b[k].sh + b[k].cg * b[k].ci * b[k].ch, a10 = b[k].cg * b[k].si, a2 = c_i * a7 + s_i * a8, a4 = c_i * a9 + s_i * a10, a5 = -s_i * a7 + c_i * a8, a6 = -s_i * a9 + c_i * a10;
        double X[9] = {0, a1 * cw + a2 * sw, a3 * cw + a4 * sw, -a1 * sw + a2 * cw, -a3 * sw + a4 * cw, a5 * sw, a6 * sw, a5 * cw, a6 * cw};
        double Z31 = 12 * X[1] * X[1] - 3 * X[3] * X[3], Z32 = 24 * X[1] * X[2] - 6 * X[3] * X[4], Z33 = 12 * X[2] * X[2] - 3 * X[4] * X[4];
        double Z1 = 6 * (a1 * a1 + a2 * a2) + (1 + e2) * Z31, Z2 = 12 * (a1 * a3 + a2 * a4) + (1 + e2) * Z32, Z3 = 6 * (a3 * a3 + a4 * a4) + (1 + e2) * Z33;
        double Z11 = -6 * a1 * a5 + e2 * (-24 * X[1] * X[7] - 6 * X[3] * X[5]), Z13 = -6 * a3 * a6 + e2 * (-24 * X[2] * X[8] - 6 * X[4] * X[6]);
        double Z12 = -6 * (a1 * a6 + a3 * a5) + e2 * (-24 * (X[2] * X[7] + X[1] * X[8]) - 6 * (X[3] * X[6] + X[4] * X[5]));
        double Z21 = 6 * a2 * a5 + e2 * (24 * X[1] * X[5] - 6 * X[3] * X[7]), Z23 = 6 * a4 * a6 + e2 * (24 * X[2] * X[6] - 6 * X[4] * X[8]);
        double Z22 = 6 * (a4 * a5 + a2 * a6) + e2 * (24 * (X[2] * X[5] + X[1] * X[6]) - 6 * (X[4] * X[7] + X[3] * X[8]));
        double S3 = b[k].c / o->n, S2 = -S3 / (2 * be), S4 = S3 * be, S1 = -15 * o->e0 * S4, S5 = X[1] * X[3] + X[2] * X[4], S6 = X[2] * X[3] + X[1] * X[4], S7 = X[2] * X[4] - X[1] * X[3];
        double h = o->i0 < 0.052359877 ? 0 : -b[k].n * S2 * (Z21 + Z23);
        o->se += S1 * b[k].n * S5; o->si += S2 * b[k].n * (Z11 + Z13); o->sl += -b[k].n * S3 * (Z1 + Z3 - 14 - 6 * e2);
        double hs = h == 0 ? 0 : h / s_i; o->sh += hs; o->sg += S4 * b[k].n * (Z31 + Z33 - 6) - c_i * hs;
        o->per[k].e2 = 2 * S1 * S6; o->per[k].e3 = 2 * S1 * S7; o->per[k].i2 = 2 * S2 * Z12; o->per[k].i3 = 2 * S2 * (Z13 - Z11); o->per[k].l2 = -2 * S3 * Z2; o->per[k].l3 = -2 * S3 * (Z3 - Z1); o->per[k].l4 = 2 * S3 * (21 + 9 * e2) * b[k].e;
        o->per[k].g2 = 2 * S4 * Z32; o->per[k].g3 = 2 * S4 * (Z33 - Z31); o->per[k].g4 = -18 * S4 * b[k].e; o->per[k].h2 = -2 * S2 * Z22; o->per[k].h3 = -2 * S2 * (Z23 - Z21); o->per[k].m0 = b[k].m; o->per[k].n = b[k].n; o->per[k].e = b[k].e;
    }
    double n = o->n, ai = 1 / o->a, thd = 4.3752691e-3, e = o->e0, c = c_i, c2 = c * c, s2 = s_i * s_i; o->res = 0;
    if (n > 0.0034906585 && n < 0.0052359877) {
        o->res = 2; double q = 3 * n * n * ai * ai, f3 = 1 + c;
        o->del[0] = q * (0.9375 * s2 * (1 + 3 * c) - 0.75 * (1 + c)) * (1 + 2 * e2) * 2.1460748e-6 * ai; o->del[1] = 2 * q * 0.75 * (1 + c) * (1 + c) * (1 + e2 * (-2.5 + 0.8125 * e2)) * 1.7891679e-6; o->del[2] = 3 * q * 1.875 * f3 * f3 * f3 * (1 + e2 * (-6 + 6.60937 * e2)) * 2.2123015e-7 * ai;
        o->lam0 = o->M0 + o->O0 + o->w0 - o->g0; o->xfact = o->Md + o->wd + o->Od - thd + o->sl + o->sg + o->sh - n;
    } else if (n >= 0.00826 && n <= 0.00924 && e >= 0.5) {
        o->res = 1;
        #define P3(a, b, c_, d) ((a) + (b) * e + (c_) * e2 + (d) * e2 * e)
        double g201 = -0.306 - (e - 0.64) * 0.44, g211, g310, g322, g410, g422, g520, g533, g521, g532;
        if (e <= 0.65) { g211 = P3(3.616, -13.247, 16.29, 0); g310 = P3(-19.302, 117.39, -228.419, 156.591); g322 = P3(-18.9068, 109.7927, -214.6334, 146.5816); g410 = P3(-41.122, 242.694, -471.094, 313.953); g422 = P3(-146.407, 841.88, -1629.014, 1083.435); g520 = P3(-532.114, 3017.977, -5740, 3708.276); }
        else { g211 = P3(-72.099, 331.819, -508.738, 266.724); g310 = P3(-346.844, 1582.851, -2415.925, 1246.113); g322 = P3(-342.585, 1554.908, -2366.899, 1215.972); g410 = P3(-1052.797, 4758.686, -7193.992, 3651.957); g422 = P3(-3581.69, 16178.11, -24462.77, 12422.52); g520 = e <= 0.715 ? P3(1464.74, -4664.75, 3763.64, 0) : P3(-5149.66, 29936.92, -54087.36, 31324.56); }
        if (e < 0.7) { g533 = P3(-919.2277, 4988.61, -9064.77, 5542.21); g521 = P3(-822.71072, 4568.6173, -8491.4146, 5337.524); g532 = P3(-853.666, 4690.25, -8624.77, 5341.4); }
        else { g533 = P3(-37995.78, 161616.52, -229838.2, 109377.94); g521 = P3(-51752.104, 218913.95, -309468.16, 146349.42); g532 = P3(-40023.88, 170470.89, -242699.48, 115605.82); }
        double f220 = 0.75 * (1 + 2 * c + c2), f221 = 1.5 * s2, f321 = 1.875 * s_i * (1 - 2 * c - 3 * c2), f322 = -1.875 * s_i * (1 + 2 * c - 3 * c2), f441 = 35 * s2 * f220, f442 = 39.375 * s2 * s2;
        double f522 = 9.84375 * s_i * (s2 * (1 - 2 * c - 5 * c2) + 0.33333333 * (-2 + 4 * c + 6 * c2)), f523 = s_i * (4.92187512 * s2 * (-2 - 4 * c + 10 * c2) + 6.56250012 * (1 + 2 * c - 3 * c2));
        double f542 = 29.53125 * s_i * (2 - 8 * c + c2 * (-12 + 8 * c + 10 * c2)), f543 = 29.53125 * s_i * (-2 - 8 * c + c2 * (12 + 8 * c - 10 * c2));
        double q2 = 3 * n * n * ai * ai, q3 = q2 * ai, q4 = q3 * ai, q5 = q4 * ai, r22 = 1.7891679e-6, r32 = 3.7393792e-7, r44 = 7.3636953e-9, r52 = 1.1428639e-7, r54 = 2.1765803e-9;
        double D[10] = {q2 * r22 * f220 * g201, q2 * r22 * f221 * g211, q3 * r32 * f321 * g310, q3 * r32 * f322 * g322, 2 * q4 * r44 * f441 * g410, 2 * q4 * r44 * f442 * g422, q5 * r52 * f522 * g520, q5 * r52 * f523 * g532, 2 * q5 * r54 * f542 * g521, 2 * q5 * r54 * f543 * g533}; memcpy(o->D, D, sizeof D);
        o->lam0 = o->M0 + 2 * o->O0 - 2 * o->g0; o->xfact = o->Md + 2 * o->Od - 2 * thd + o->sl + 2 * o->sh - n;
    }
}
static void r_rates(const struct rorb *o, double lam, double n, double t, double *ld, double *nd, double *ndd) {
    double f = n + o->xfact, a = 0, b = 0;
    if (o->res == 2) { static const double ph[3] = {0.13130908, 2.8843198, 0.37448087}; for (int k = 0; k < 3; k++) { a += o->del[k] * sin((k + 1) * (lam - ph[k])); b += (k + 1) * o->del[k] * cos((k + 1) * (lam - ph[k])); } }
    else { static const int W[10] = {2, 0, 1, -1, 2, 0, 1, -1, 1, -1}, Lm[10] = {1, 1, 1, 1, 2, 2, 1, 1, 2, 2}; static const double G[10] = {5.7686396, 5.7686396, 0.95240898, 0.95240898, 1.8014998, 1.8014998, 1.0508330, 1.0508330, 4.4108898, 4.4108898};
        double w = o->w0 + o->wd * t; for (int k = 0; k < 10; k++) { double x = W[k] * w + Lm[k] * lam - G[k]; a += o->D[k] * sin(x); b += Lm[k] * o->D[k] * cos(x); } }
    *ld = f; *nd = a; *ndd = b * f;
}
static bool r_init(struct rorb *o, const struct rel *l) {
    memset(o, 0, sizeof *o); double d2r = R_D2R; o->e0 = l->ecc < 1e-6 ? 1e-6 : l->ecc; o->i0 = l->incl * d2r; o->w0 = l->argp * d2r; o->O0 = l->node * d2r; o->M0 = l->ma * d2r; o->B = l->bstar; o->epoch = r_jd_year(l->yy < 57 ? 2000 + l->yy : 1900 + l->yy) + l->day;
    double n0 = l->mm * 2 * M_PI / 1440, c = cos(o->i0), c2 = c * c, e2 = o->e0 * o->e0, b2 = 1 - e2, b = sqrt(b2), k = 1.5 * R_K2 * (3 * c2 - 1) / (b * b2), a1 = pow(R_KE / n0, R_TH), d1 = k / (a1 * a1), a0 = a1 * (1 - d1 * R_TH / 2 - d1 * d1 - 134 / 81.0 * d1 * d1 * d1), d0 = k / (a0 * a0);
    o->n = n0 / (1 + d0); o->a = a0 / (1 - d0); o->b2 = b2; o->deep = 2 * M_PI / o->n >= 225;
    double per = (o->a * (1 - o->e0) - 1) * R_RE; o->simple = per < 220; o->s = 1.012229; o->q = 1.880279e-9;
    if (per < 156) { double s = per <= 98 ? 20 : per - 78; o->q = pow((120 - s) / R_RE, 4); o->s = s / R_RE + 1; }
    o->th = c; o->xi = 1 / (o->a - o->s); o->eta = o->a * o->e0 * o->xi; double h = o->eta, h2 = h * h, eh = o->e0 * h, ps = fabs(1 - h2), co = o->q * pow(o->xi, 4), co1 = co / pow(ps, 3.5);
    o->C2 = co1 * o->n * (o->a * (1 + 1.5 * h2 + 4 * eh + o->e0 * h * h2) + 1.5 * R_K2 * o->xi / ps * (-0.5 + 1.5 * c2) * (8 + 24 * h2 + 3 * h2 * h2)); o->C1 = o->B * o->C2;
    double A30 = R_A3; o->C3 = co * o->xi * A30 * o->n * sin(o->i0) / (R_K2 * o->e0);
    o->C4 = 2 * o->n * co1 * o->a * b2 * ((2 * h * (1 + eh) + 0.5 * o->e0 + 0.5 * h * h2) - 2 * R_K2 * o->xi / (o->a * ps) * (3 * (1 - 3 * c2) * (1 + 1.5 * h2 - 2 * eh - 0.5 * eh * h2) + 0.75 * (1 - c2) * (2 * h2 - eh - eh * h2) * cos(2 * o->w0)));
    o->C5 = 2 * co1 * o->a * b2 * (1 + 2.75 * h * (h + o->e0) + eh * h2);
    o->D2 = 4 * o->a * o->xi * o->C1 * o->C1; o->D3 = 4 / 3.0 * o->a * o->xi * o->xi * (17 * o->a + o->s) * pow(o->C1, 3); o->D4 = 2 / 3.0 * o->a * o->a * pow(o->xi, 3) * (221 * o->a + 31 * o->s) * pow(o->C1, 4);
    double p2 = o->a * o->a * b2 * b2, p4 = p2 * p2, c4 = c2 * c2;
    o->Md = o->n * (1 + 3 * R_K2 * (-1 + 3 * c2) / (2 * o->a * o->a * b * b2) + 3 * R_K2 * R_K2 * (13 - 78 * c2 + 137 * c4) / (16 * pow(o->a, 4) * pow(b, 7)));
    o->wd = o->n * (-3 * R_K2 * (1 - 5 * c2) / (2 * p2) + 3 * R_K2 * R_K2 * (7 - 114 * c2 + 395 * c4) / (16 * p4) + 5 * R_K4 * (3 - 36 * c2 + 49 * c4) / (4 * p4));
    double O1 = -3 * R_K2 * c * o->n / p2; o->Od = O1 + o->n * c * (3 * R_K2 * R_K2 * (4 - 19 * c2) / (2 * p4) + 5 * R_K4 * (3 - 7 * c2) / (2 * p4)); o->Oc = 3.5 * b2 * O1 * o->C1;
    if (o->deep) r_deep_init(o); return isfinite(o->n) && isfinite(o->C4);
}
static bool r_prop(const struct rorb *o, double t, double r[3], double v[3]) {   // minutes since epoch; km and km/s
    double e0 = o->e0, M = o->M0 + o->Md * t, w = o->w0 + o->wd * t, O = o->O0 + o->Od * t + o->Oc * t * t, i = o->i0, e, a, L, n = o->n, ta = 1 - o->C1 * t, te = o->B * o->C4 * t, tl = 1.5 * o->C1 * t * t;
    if (!o->deep) {
        if (!o->simple) {
            double dw = o->B * o->C3 * cos(o->w0) * t, dM = -R_TH * o->q * o->B * pow(o->xi, 4) / (e0 * o->eta) * (pow(1 + o->eta * cos(M), 3) - pow(1 + o->eta * cos(o->M0), 3)), c1 = o->C1, c12 = c1 * c1;
            M += dw + dM; w -= dw + dM; ta -= o->D2 * t * t + o->D3 * t * t * t + o->D4 * t * t * t * t; te += o->B * o->C5 * (sin(M) - sin(o->M0));
            tl += (o->D2 + 2 * c12) * pow(t, 3) + 0.25 * (3 * o->D3 + 12 * c1 * o->D2 + 10 * c1 * c12) * pow(t, 4) + 0.2 * (3 * o->D4 + 12 * c1 * o->D3 + 6 * o->D2 * o->D2 + 30 * c12 * o->D2 + 15 * c12 * c12) * pow(t, 5);
        }
        a = o->a * ta * ta; e = e0 - te; L = M + w + O + o->n * tl;
    } else {
        M += o->sl * t; w += o->sg * t; O += o->sh * t; e = e0 + o->se * t; i += o->si * t;
        if (i < 0) { i = -i; O += M_PI; w -= M_PI; }
        if (o->res) {
            double lam = o->lam0, nn = o->n, at = 0, st = t < 0 ? -720 : 720, ld, nd, ndd; for (;;) { r_rates(o, lam, nn, at, &ld, &nd, &ndd); if (fabs(t - at) < 720) break; lam += ld * st + nd * st * st / 2; nn += nd * st + ndd * st * st / 2; at += st; }
            double f = t - at; n = nn + nd * f + ndd * f * f / 2; double xl = lam + ld * f + nd * f * f / 2, g = o->g0 + t * 4.3752691e-3; M = o->res == 1 ? xl - 2 * O + 2 * g : xl - O - w + g;
        }
        a = pow(R_KE / n, R_TH) * ta * ta; e -= te; M += o->n * tl;
        double pe = 0, pi_ = 0, pl = 0, pg = 0, ph = 0, si = sin(i), ci = cos(i);
        for (int k = 0; k < 2; k++) { double m = o->per[k].m0 + o->per[k].n * t, f = m + 2 * o->per[k].e * sin(m), s = sin(f), F2 = 0.5 * s * s - 0.25, F3 = -0.5 * s * cos(f); pe += o->per[k].e2 * F2 + o->per[k].e3 * F3; pi_ += o->per[k].i2 * F2 + o->per[k].i3 * F3; pl += o->per[k].l2 * F2 + o->per[k].l3 * F3 + o->per[k].l4 * s; pg += o->per[k].g2 * F2 + o->per[k].g3 * F3 + o->per[k].g4 * s; ph += o->per[k].h2 * F2 + o->per[k].h3 * F3; }
        i += pi_; e += pe;
        if (o->i0 >= 0.2) { double h = ph / sin(o->i0); w += pg - cos(o->i0) * h; O += h; M += pl; }
        else {   // Lyddane
            double al = si * sin(O) + ph * cos(O) + pi_ * ci * sin(O), be = si * cos(O) - ph * sin(O) + pi_ * ci * cos(O), On = r_mod(O), x = M + w + ci * On + pl + pg - pi_ * On * si, Q = r_mod(atan2(al, be));
            if (fabs(On - Q) > M_PI) Q += Q < On ? 2 * M_PI : -2 * M_PI; M += pl; w = x - M - cos(i) * Q; O = Q;
        }
        L = M + w + O;
    }
    if (!(e < 1) || !(a > 0)) return false;
    double c0 = cos(o->i0), s0 = sin(o->i0), axn = e * cos(w), ib = 1 / (a * (1 - e * e)), ll = ib * R_A3 / R_K2 * s0 / 8 * axn * (3 + 5 * c0) / (1 + c0), ayn = e * sin(w) + ib * R_A3 / R_K2 * s0 / 4, U = r_mod(L + ll - O), E = U; n = R_KE / pow(a, 1.5);
    for (int k = 0; k < 30; k++) { double dE = (U - ayn * cos(E) + axn * sin(E) - E) / (1 - axn * cos(E) - ayn * sin(E)); E += dE; if (fabs(dE) < 1e-13) break; }
    double ec = axn * cos(E) + ayn * sin(E), es = axn * sin(E) - ayn * cos(E), e2 = axn * axn + ayn * ayn, pL = a * (1 - e2), rr = a * (1 - ec), rd = R_KE * sqrt(a) * es / rr, rf = R_KE * sqrt(pL) / rr, bt = sqrt(1 - e2);
    double cu = a / rr * (cos(E) - axn + ayn * es / (1 + bt)), su = a / rr * (sin(E) - ayn - axn * es / (1 + bt)), u = atan2(su, cu), s2u = 2 * su * cu, c2u = 2 * cu * cu - 1, k1 = R_K2 / pL, k2 = k1 / pL, th2 = c0 * c0;
    double rk = rr * (1 - 1.5 * k2 * bt * (3 * th2 - 1)) + 0.5 * k1 * (1 - th2) * c2u, uk = u - 0.25 * k2 * (7 * th2 - 1) * s2u, Ok = O + 1.5 * k2 * c0 * s2u, ik = i + 1.5 * k2 * c0 * s0 * c2u, rdk = rd - n * k1 * (1 - th2) * s2u, rfk = rf + n * k1 * ((1 - th2) * c2u + 1.5 * (3 * th2 - 1));
    double Mv[3] = {-sin(Ok) * cos(ik), cos(Ok) * cos(ik), sin(ik)}, Nv[3] = {cos(Ok), sin(Ok), 0};
    for (int k = 0; k < 3; k++) { double ux = Mv[k] * sin(uk) + Nv[k] * cos(uk), vx = Mv[k] * cos(uk) - Nv[k] * sin(uk); r[k] = rk * ux * R_RE; v[k] = (rdk * ux + rfk * vx) * R_RE / 60; }
    return isfinite(r[0]) && isfinite(v[0]);
}
// km/s, positive when the distance grows; station in degrees and km
static bool r_range_rate(const struct rorb *o, double jd, double lat, double lon, double alt, double *rate) {
    double r[3], v[3]; if (!r_prop(o, (jd - o->epoch) * 1440, r, v)) return false;
    double d2r = R_D2R, j0 = floor(jd - 0.5) + 0.5, ut = jd - j0, T = (j0 - 2451545.0) / 36525, gm = 24110.54841 + T * (8640184.812866 + T * (0.093104 - T * 6.2e-6)) + 86400 * R_OM * ut, th = r_mod(gm / 86400 * 2 * M_PI + lon * d2r);
    double f = 1 / 298.26, s = sin(lat * d2r), C = 1 / sqrt(1 + f * (f - 2) * s * s), S = (1 - f) * (1 - f) * C, W = 7.292115e-5, x = (R_RE * C + alt) * cos(lat * d2r);
    double op[3] = {x * cos(th), x * sin(th), (R_RE * S + alt) * s}, ov[3] = {-W * op[1], W * op[0], 0}, dot = 0, m = 0; for (int k = 0; k < 3; k++) { dot += (r[k] - op[k]) * (v[k] - ov[k]); m += (r[k] - op[k]) * (r[k] - op[k]); }
    *rate = dot / sqrt(m); return isfinite(*rate);
}
// the vectors published in Spacetrack Report 3
static double orbit_selftest(void) {   // largest deviation in km (or km/s times 1000)
    static const struct rel T[2] = {{80, 275.98708465, 66816e-9, 72.8435, 115.9689, 0.0086731, 52.6988, 110.5714, 16.05824518}, {80, 230.29629788, 0.014311, 46.7916, 230.4354, 0.7318036, 47.4722, 10.4117, 2.28537848}};
    static const double V[2][5][6] = {
        {{2328.97048951, -5995.22076416, 1719.97067261, 2.91207230, -0.98341546, -7.09081703}, {2456.10705566, -6071.93853760, 1222.89727783, 2.67938992, -0.44829041, -7.22879231}, {2567.56195068, -6112.50384522, 713.96397400, 2.44024599, 0.09810869, -7.31995916}, {2663.09078980, -6115.48229980, 196.39640427, 2.19611958, 0.65241995, -7.36282432}, {2742.55133057, -6079.67144775, -326.38095856, 1.94850229, 1.21106251, -7.35619372}},
        {{7473.37066650, 428.95261765, 5828.74786377, 5.10715413, 6.44468284, -0.18613096}, {-3305.22537232, 32410.86328125, -24697.17675781, -1.30113538, -1.15131518, -0.28333528}, {14271.28759766, 24110.46411133, -4725.76837158, -0.32050445, 2.67984074, -2.08405289}, {-9990.05883789, 22717.35522461, -23616.89062501, -1.01667246, -2.29026759, 0.72892364}, {9787.86975097, 33753.34667969, -15030.81176758, -1.09425966, 0.92358845, -1.52230928}}};
    double worst = 0; for (int k = 0; k < 2; k++) { struct rorb o; r_init(&o, &T[k]); for (int j = 0; j < 5; j++) { double r[3], v[3]; r_prop(&o, 360 * j, r, v); for (int q = 0; q < 3; q++) { worst = fmax(worst, fabs(r[q] - V[k][j][q])); worst = fmax(worst, 1000 * fabs(v[q] - V[k][j][3 + q])); } } }
    return worst;
}
#endif
