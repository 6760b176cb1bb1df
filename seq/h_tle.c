// C21 (C15, C05): decoding of two line element sets, against an independent statement of the format
#include "seqrt.h"
#include "sgpsdp/sgp4sdp4.h"
#include "dsp/doppler.h"
#include "api_utils.h"
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <ctype.h>
#undef pi
#define M_PIl 3.141592653589793238462643383279502884L
#define N_BASE 8
static const char *BASE[N_BASE][3] = {
    {"LUCKY-7", "1 44406U 19038W   20069.88080907  .00000505  00000-0  32890-4 0  9992", "2 44406  97.5270  32.5584 0026284 107.4758 252.9348 15.12089395 37524"},
    {"TEST 4", "1 88888U          80275.98708465  .00073094  13844-3  66816-4 0    8X", "2 88888  72.8435 115.9689 0086731  52.6988 110.5714 16.05824518  105X"},
    {"DEEP [+]", "1 11801U          80230.29629788  .01431103  00000-0  14311-1 0   12X", "2 11801  46.7916 230.4354 7318036  47.4722  10.4117  2.28537848    1X"},
    {"ISS (ZARYA)", "1 25544U 98067A   23123.51041667 -.00002182 -11606-4 -11606-4 0  292X", "2 25544  51.6416 247.4627 0006703 130.5360 325.0288 15.7212539156353X"},
    {"GEO 1", "1 26038U 99071A   56366.99999999 -.00000105  00000-0  00000+0 0  999X", "2 26038   0.0345   9.1234 0002345   0.0000 359.9999  1.0027012399999X"},
    {"OLD", "1 00005U 58002B   57  1.00000001 +.00000023 +00000-0 +28098-4 0  475X", "2 00005  34.2682 348.7242 1859667 331.7664  19.3264 10.8241915741366X"},
    {"A&B", "1 23599U 95029B   00179.12345678  .00000000 +12345-9 -99999+1 0    0X", "2 23599   6.9327   0.2522 7151590   0.0001   0.0000  2.20373270    0X"},
    {"POLAR", "1 99999U 24001ABC 24060.00000000  .99999999  99999+9  00001-9 0 1000X", "2 99999 180.0000 360.0000 9999999 360.0000 360.0000 17.9999999999999X"},
};
static char L[3][81]; static int len[3];
static void fix(int l) { int s = 0; for (int i = 0; i < 68; i++) s += isdigit((unsigned char) L[l][i]) ? L[l][i] - '0' : L[l][i] == '-'; L[l][68] = '0' + s % 10; }
static void load(int b) { for (int l = 0; l < 3; l++) { memset(L[l], 0, 81); strcpy(L[l], BASE[b][l]); len[l] = strlen(L[l]); if (l && b) { if (len[l] != 69) sq_fail(NULL, "base %d line %d has %d characters", b, l, len[l]); fix(l); } } }
// ---------------------------------------------------------------- the format
struct el { bool ok; double epoch, ndot, nddot, bstar, incl, node, ecc, argp, ma, mm; int cat, elset, rev; char name[26], idesg[9]; };
static bool fixp(const char *s, int n, double *v) {   // optional blanks, sign, digits with a decimal point
    int i = 0, sg = 1, frac = -1, nd = 0; double m = 0; while (i < n && s[i] == ' ') i++;
    if (i < n && (s[i] == '-' || s[i] == '+')) sg = s[i++] == '-' ? -1 : 1;
    for (; i < n; i++) { if (s[i] == '.') { if (frac >= 0) return false; frac = 0; } else if (isdigit((unsigned char) s[i])) { m = m * 10 + (s[i] - '0'); nd++; if (frac >= 0) frac++; } else return false; }
    if (!nd || frac < 0) return false; double p = 1; while (frac-- > 0) p *= 10; *v = sg * (m / p); return true;
}
static bool intp(const char *s, int n, int *v) { int i = 0, nd = 0; long m = 0; while (i < n && s[i] == ' ') i++; for (; i < n; i++) { if (!isdigit((unsigned char) s[i])) return false; m = m * 10 + s[i] - '0'; nd++; } *v = m; return nd > 0; }
static bool expp(const char *s, double *v) {          // sign, five digits of an implied fraction, signed exponent
    int sg; if (s[0] == '-') sg = -1; else if (s[0] == ' ' || s[0] == '+') sg = 1; else return false;
    double m = 0; for (int i = 1; i < 6; i++) { if (!isdigit((unsigned char) s[i])) return false; m = m * 10 + s[i] - '0'; }
    if ((s[6] != '-' && s[6] != '+') || !isdigit((unsigned char) s[7])) return false;
    int e = (s[6] == '-' ? -1 : 1) * (s[7] - '0') - 5; double p = 1; for (int i = 0; i < abs(e); i++) p *= 10; *v = sg * (e < 0 ? m / p : m * p); return true;
}
static bool good_line(int l) { if (len[l] < 69) return false; int s = 0; const char *p = L[l]; for (int i = 0; i < 68; i++) s += isdigit((unsigned char) p[i]) ? p[i] - '0' : p[i] == '-'; return p[68] == '0' + s % 10 && p[0] == '0' + l; }
// 0 must be refused, 1 must be accepted with these values, 2 a field is not a number: either, but within memory
static int decode(struct el *e) {
    memset(e, 0, sizeof *e); if (!good_line(1) || !good_line(2)) return 0; const char *a = L[1], *b = L[2];
    if (memcmp(a + 2, b + 2, 5)) return 0;
    if (a[23] != '.' || a[34] != '.' || b[11] != '.' || b[20] != '.' || b[37] != '.' || b[46] != '.' || b[54] != '.' || memcmp(a + 61, " 0 ", 3)) return 0;
    char y[15]; memcpy(y, a + 18, 14); if (y[1] == ' ') return 2; for (int i = 0; i < 4; i++) if (y[i] == ' ') y[i] = '0'; for (int i = 0; i < 14; i++) if (i != 5 && !isdigit((unsigned char) y[i])) return 2; if (!fixp(y, 14, &e->epoch)) return 2;
    char nd[11]; memcpy(nd, a + 33, 10); bool ok = intp(a + 2, 5, &e->cat) && fixp(nd, 10, &e->ndot) && strchr(" +-", nd[0]) && expp(a + 44, &e->nddot) && expp(a + 53, &e->bstar) && intp(a + 64, 4, &e->elset);
    ok = ok && fixp(b + 8, 8, &e->incl) && fixp(b + 17, 8, &e->node) && fixp(b + 34, 8, &e->argp) && fixp(b + 43, 8, &e->ma) && fixp(b + 52, 11, &e->mm) && intp(b + 63, 5, &e->rev);
    if (!ok) return 2; for (int i = 8; i < 16; i++) if (!isdigit((unsigned char) b[i]) && b[i] != ' ' && b[i] != '.') return 2;
    static const int F[4][2] = {{17, 8}, {34, 8}, {43, 8}, {52, 11}}; for (int k = 0; k < 4; k++) for (int i = 0; i < F[k][1]; i++) if (!isdigit((unsigned char) b[F[k][0] + i]) && b[F[k][0] + i] != ' ' && b[F[k][0] + i] != '.') return 2;
    double m = 0; for (int i = 26; i < 33; i++) { if (!isdigit((unsigned char) b[i])) return 2; m = m * 10 + b[i] - '0'; } e->ecc = m / 1e7; if (e->ecc < 1e-6) e->ecc = 1e-6;
    memcpy(e->idesg, a + 9, 8); return 1;
}
static void eq(const char *what, double got, double want) { if (!(fabs(got - want) <= 4e-15 * fabs(want))) sq_fail("C21", "%s is decoded as %.17g instead of %.17g from\n%.69s\n%.69s", what, got, want, L[1], L[2]); }
static bool last_digit_lost;   // of the mean motion: reported by a scenario of its own, so that it hides nothing else
static int run(void) {   // hands the lines to the decoder in a block of exactly their size, and checks the answer
    char (*p)[80] = malloc(240); for (int i = 0; i < 3; i++) { memset(p[i], 0, 80); memcpy(p[i], L[i], len[i] < 80 ? len[i] : 80); }
    char keep[240]; memcpy(keep, p, 240);
    sat_t *s = calloc(1, sizeof *s); struct el e; int want = decode(&e), c = Get_Next_Tle_Set(p, &s->tle); sq_step();
    if (memcmp(keep, p, 240)) sq_fail("C21", "the supplied lines were changed");
    if (strnlen(s->tle.sat_name, 25) == 25) sq_fail("C21", "the satellite name is not terminated");
    if (want == 0 && c == 1) sq_fail("C21", "accepted although it is not a valid element set:\n%.80s\n%.80s", L[1], L[2]);
    if (want == 1 && c != 1) sq_fail("C21", "refused although it is valid:\n%.80s\n%.80s", L[1], L[2]);
    if (want == 1) {
        tle_t *t = &s->tle; eq("the epoch", t->epoch, e.epoch); eq("the first derivative", t->xndt2o, e.ndot); eq("the second derivative", t->xndd6o, e.nddot); eq("the drag term", t->bstar, e.bstar); eq("the inclination", t->xincl, e.incl); eq("the node", t->xnodeo, e.node);
        eq("the eccentricity", t->eo, e.ecc); eq("the argument of perigee", t->omegao, e.argp); eq("the mean anomaly", t->xmo, e.ma); if (t->xno != e.mm) { double cut; if (fixp(L[2] + 52, 10, &cut) && t->xno == cut) last_digit_lost = true; else eq("the mean motion", t->xno, e.mm); }
        eq("the catalogue number", t->catnr, e.cat); eq("the element number", t->elset, e.elset); eq("the revolution number", t->revnum, e.rev); if (memcmp(t->idesg, e.idesg, 9)) sq_fail("C21", "the designator is decoded as %.9s instead of %s", t->idesg, e.idesg);
    }
    sq_outcome(sq_hash(L[1], len[1], want * 2 + (c == 1))); sq_state(sq_hash(L, sizeof L, 0)); sq_hit(c == 1 ? "accepted" : "refused");
    free(s); free(p); return c == 1;
}
static void last_digit(int root) { load(root / 10); L[2][62] = '0' + root % 10; fix(2); last_digit_lost = false; if (!run()) sq_fail("C21", "refused"); if (last_digit_lost) sq_fail("C21", "the last digit of the mean motion is not decoded (%.11s)", L[2] + 52); sq_note("last digit %d", root % 10); }
static const char AL[] = "0123456789 -+.AE\n\r\xff";   // and NUL
static void subst(int root) {   // one changed character, with and without a corrected checksum
    int b = root / 138, l = 1 + root % 138 / 69, col = root % 69; load(b); int k = sq_choose(sizeof AL, "character"); L[l][col] = AL[k]; if (k == sizeof AL - 1 && col < len[l]) len[l] = col;
    if (len[l] == 69 && col != 68 && sq_choose(2, "corrected checksum")) fix(l);
    sq_note("base %d line %d column %d character %d", b, l, col + 1, AL[k]); run();
}
static void subst2(int root) {  // two changed characters at positions that decide about acceptance
    static const int P[] = {0, 1, 2, 6, 23, 34, 61, 62, 63, 68, 0 + 100, 2 + 100, 6 + 100, 11 + 100, 20 + 100, 37 + 100, 46 + 100, 54 + 100, 68 + 100, 33, 44, 50, 53, 59, 133, 25 + 100, 26 + 100}; int n = sizeof P / sizeof *P;
    int i = root % n, j = root / n % n, b = root / n / n; if (i >= j) return; load(b); int A_[] = {i, j};
    for (int k = 0; k < 2; k++) { int q = P[A_[k]], l = 1 + q / 100; static const char B[] = "1204 .-"; int c = sq_choose(8, "character"); if (c == 7) { if (k == 0) L[l][q % 100] = 'x'; else L[l][q % 100]++; } else L[l][q % 100] = B[c]; }
    if (sq_choose(2, "corrected checksums")) { fix(1); fix(2); } sq_note("base %d positions %d %d", b, P[i], P[j]); run();
}
static void lengths(int root) {  // truncated and overlong lines
    int b = root % N_BASE, l = 1 + root / N_BASE % 2; load(b); int n = sq_choose(81, "length"); static const char *T[] = {"", " ", "X", "9", "\r", "\n", "-"}; int k = sq_choose(7, "continued with");
    if (n < 69) { for (int i = n; i < 69; i++) L[l][i] = T[k][0]; len[l] = k ? 80 : n; if (k) for (int i = 69; i < 80; i++) L[l][i] = T[k][0]; if (root / N_BASE / 2 && k) fix(l); }
    else { len[l] = n; for (int i = 69; i < n; i++) L[l][i] = k ? T[k][0] : '0' + i % 10; }
    int m = 3 - l; if (sq_choose(2, "other line overlong")) { for (int i = 69; i < 80; i++) L[m][i] = '7'; len[m] = 80; }
    sq_note("base %d line %d of length %d continued with %s", b, l, n, T[k]); run();
}
static void wrong_lines(int root) {  // lines exchanged, repeated or taken from another set
    int a = root % (N_BASE * 3 + 1), b = root / (N_BASE * 3 + 1), x[2] = {a, b}; char S[2][81]; int n[2];
    for (int i = 0; i < 2; i++) { if (x[i] == N_BASE * 3) { strcpy(S[i], ""); n[i] = 0; continue; } load(x[i] / 3); strcpy(S[i], L[x[i] % 3]); n[i] = len[x[i] % 3]; }
    load(0); for (int i = 0; i < 2; i++) { strcpy(L[1 + i], S[i]); len[1 + i] = n[i]; } if (sq_choose(2, "same satellite")) for (int i = 1; i < 3; i++) if (len[i] == 69) { memcpy(L[i] + 2, "12345", 5); fix(i); }
    sq_note("lines %d and %d", a, b); run();
}
struct fld { int l, col, n; const char *v[14]; };
static const struct fld FL[] = {
    {3, 2, 5, {"00000", "00001", "99999", "12345", "    5"}}, {1, 9, 8, {"        ", "98067A  ", "24001ABC"}},
    {1, 18, 14, {"00001.00000000", "56366.99999999", "57001.00000001", "99365.50000000", "24060.12345678", "20  1.00000000", "20 59.99999999", "00366.00000001"}},
    {1, 33, 10, {" .00000000", "-.00000001", " .99999999", "-.99999999", "+.12345678"}}, {1, 44, 8, {" 00000-0", " 00000+0", "-00001-9", "-99999+9", " 12345-4", "+54321-3"}}, {1, 53, 8, {" 00000-0", " 00000+0", "-00001-9", "-99999+9", " 66816-4", "+12345-1"}},
    {1, 64, 4, {"   0", "   1", "9999", " 999", "0001"}}, {2, 8, 8, {"  0.0000", "180.0000", "  0.0001", " 97.5270", "089.9999"}}, {2, 17, 8, {"  0.0000", "359.9999", "  0.0001", " 32.5584"}},
    {2, 26, 7, {"0000000", "0000001", "0000009", "0000010", "0000011", "9999999", "7318036", "0026284"}}, {2, 34, 8, {"  0.0000", "359.9999", "000.0001", "107.4758"}}, {2, 43, 8, {"  0.0000", "359.9999", " 52.9348", "100.0000"}},
    {2, 52, 11, {" 0.00000001", " 1.00270123", "15.12089395", "16.99999999", "99.99999999", "06.40000009", " 2.28537848"}}, {2, 63, 5, {"    0", "    1", "99999", " 3752", "00010"}},
};
#define NF ((int) (sizeof FL / sizeof *FL))
static void put(const struct fld *f, const char *v) { for (int l = 1; l < 3; l++) if (f->l & l) memcpy(L[l] + f->col, v, f->n); }
static void fields(int root) {  // every pair of field values
    int i = root % NF, j = root / NF % NF, b = root / NF / NF; if (i > j) return; load(b); int n = 0; while (FL[i].v[n]) n++; int a = sq_choose(n, "value"); put(&FL[i], FL[i].v[a]); sq_note("base %d field %d = '%s'", b, i, FL[i].v[a]);
    if (j != i) { for (n = 0; FL[j].v[n]; n++); a = sq_choose(n, "value"); put(&FL[j], FL[j].v[a]); sq_note(" field %d = '%s'", j, FL[j].v[a]); }
    fix(1); fix(2); if (!run()) sq_fail("C21", "refused");
}
static void digits(int root) {  // every digit of every numeric field on its own counts
    static const int F[][3] = {{1, 18, 14}, {1, 33, 10}, {1, 44, 8}, {1, 53, 8}, {2, 8, 8}, {2, 17, 8}, {2, 26, 7}, {2, 34, 8}, {2, 43, 8}, {2, 52, 11}, {2, 63, 5}, {1, 64, 4}, {1, 2, 5}};
    int f = root % 13, b = root / 13; load(b); int k = sq_choose(F[f][2], "column"), d = sq_choose(10, "digit"), l = F[f][0], col = F[f][1] + k; if (!isdigit((unsigned char) L[l][col])) return; L[l][col] = '0' + d; if (f == 12) L[2][col] = '0' + d; fix(1); fix(2); sq_note("base %d line %d column %d digit %d", b, l, col + 1, d); run();
}
static void names(int root) {   // all short names, at the beginning and around the end of the name
    static const char NA[] = {'A', ' ', '[', '+', ']', '&', '\r', '\n', 'X', 0}; int off = root % 5 == 0 ? 0 : 19 + root % 5 + root / 5 % 3; load(0); memset(L[0], 'N', off); int n = 4 + sq_thorough; memset(L[0] + off, 0, 81 - off); for (int i = 0; i < n; i++) L[0][off + i] = NA[sq_choose(10, "character")];
    if (sq_choose(2, "long") ) { for (int i = off + n; i < 80; i++) L[0][i] = i % 3 ? 'M' : ' '; } len[0] = 80;
    char (*p)[80] = malloc(240); for (int i = 0; i < 3; i++) memcpy(p[i], L[i], 80); tle_t *t = calloc(1, sizeof *t); memset(t->idesg, '#', 9); int c = Get_Next_Tle_Set(p, t); sq_step();
    if (c != 1) sq_fail("C21", "refused because of the name"); if (memcmp(t->idesg, "19038W  \0", 9)) sq_fail("C21", "the name overwrote the designator"); if (strnlen(t->sat_name, 25) == 25) sq_fail("C21", "the name is not terminated");
    char w[30] = ""; int m = 0; bool marked = false; for (; m < 25; m++) { char ch = p[0][m]; if (ch == 0 || ch == '\r' || ch == '\n') break; if (m < 23 && ch == '[' && p[0][m + 2] == ']' && p[0][m + 1] && strchr("+-PBSX", p[0][m + 1])) { marked = true; break; } w[m] = ch == '&' ? '/' : ch; }
    if (!(marked && m == 0)) { if (marked) m--; if (m > 24) m = 24; w[m] = 0; while (m > 0 && w[m - 1] == ' ') w[--m] = 0; char g[26]; memcpy(g, t->sat_name, 25); int q = strlen(g); while (q > 0 && g[q - 1] == ' ') g[--q] = 0; if (m > 1 && strcmp(g, w)) sq_fail("C21", "the name is '%s' instead of '%s'", g, w); }
    if ((t->status != OP_STAT_UNKNOWN) != marked) sq_fail("C21", "a status %d was read", t->status);
    sq_outcome(sq_hash(t->sat_name, 25, 0)); sq_state(sq_hash(p[0], 80, 0)); sq_note("name '%.30s'", L[0]); free(t); free(p); sq_hit(marked ? "status" : "plain");
}
static double jd(int y, int doy) { long d = 0; for (int k = 1957; k < y; k++) d += 365 + (k % 4 == 0 && (k % 100 || k % 400 == 0)); return 2435838.5 + d + doy; }   // 1956-12-31 0h is JD 2435838.5
static void century(int root) {  // every year and day
    int yy = root, y = yy < 57 ? 2000 + yy : 1900 + yy, leap = y % 4 == 0; load(0); int d = 1 + sq_choose(365 + leap, "day"), fr = sq_choose(4, "fraction"); static const double FR[] = {0, 0.99999999, 0.5, 0.12345678}; char s[20]; snprintf(s, 20, "%02d%03d.%08d", yy, d, (int) lround(FR[fr] * 1e8)); memcpy(L[1] + 18, s, 14); if (d < 100 && sq_choose(2, "blanks")) { L[1][20] = ' '; if (d < 10) L[1][21] = ' '; } fix(1);
    char (*p)[80] = malloc(240); for (int i = 0; i < 3; i++) memcpy(p[i], L[i], 80); tle_t *t = calloc(1, sizeof *t); if (Get_Next_Tle_Set(p, t) != 1) sq_fail("C21", "refused %s", s); double g = Julian_Date_of_Epoch(t->epoch), w = jd(y, d) + FR[fr]; sq_step();
    if (!(fabs(g - w) < 2e-9)) sq_fail("C21", "the epoch %s is the Julian date %.9f instead of %.9f", s, g, w); sq_state(root * 2000 + d * 4 + fr); sq_outcome(sq_hash(&g, 8, 0)); sq_note("epoch %s", s); free(t); free(p); sq_hit("epoch");
}
static void kind(int root) {    // near-earth or deep-space, and the units
    load(0); int i = sq_choose(19, "inclination") * 10, e = sq_choose(12, "eccentricity"); static const int E[] = {0, 1, 10000, 100000, 1000000, 2000000, 3000000, 4000000, 5000000, 7000000, 9000000, 9900000}; char s[30];
    long lo = root < 40 ? 638000000 + root * 100000L : (root - 40) * 42000000L + 50000000; long mm = lo + (root < 40 ? sq_choose(sq_thorough ? 200 : 20, "mean motion") * (sq_thorough ? 500 : 5000) : 0);
    snprintf(s, 30, "%8.4f", (double) i); memcpy(L[2] + 8, s, 8); snprintf(s, 30, "%07d", E[e]); memcpy(L[2] + 26, s, 7); snprintf(s, 30, "%2ld.%08ld", mm / 100000000, mm % 100000000); memcpy(L[2] + 52, s, 11); fix(2);
    char (*p)[80] = malloc(240); for (int k = 0; k < 3; k++) memcpy(p[k], L[k], 80); sat_t *t = calloc(1, sizeof *t); if (Get_Next_Tle_Set(p, &t->tle) != 1) sq_fail("C21", "refused"); select_ephemeris(t); sq_step();
    long double n0 = mm / 1e8L * 2 * M_PIl / 1440, inc = i * M_PIl / 180, ec = E[e] / 1e7L, a1 = powl(0.0743669161L / n0, 2 / 3.0L), c = cosl(inc); if (ec < 1e-6L) ec = 1e-6L;
    long double k = 1.5L * 5.413079e-4L * (3 * c * c - 1) / powl(1 - ec * ec, 1.5L), d1 = k / (a1 * a1), a0 = a1 * (1 - d1 / 3 - d1 * d1 - 134 / 81.0L * d1 * d1 * d1), d0 = k / (a0 * a0), n = n0 / (1 + d0), period = 2 * M_PIl / n;
    bool deep = t->flags & DEEP_SPACE_EPHEM_FLAG; if (fabsl(period - 225) > 1e-5L && n > 0 && deep != (period > 225)) sq_fail("C21", "an orbit of %.6Lf minutes is treated as %s (%.69s)", period, deep ? "deep-space" : "near-earth", L[2]);
    struct { const char *w; double g, e; } U[] = {{"the mean motion", t->tle.xno, n0}, {"the inclination", t->tle.xincl, inc}, {"the node", t->tle.xnodeo, 32.5584L * M_PIl / 180}, {"the argument of perigee", t->tle.omegao, 107.4758L * M_PIl / 180}, {"the mean anomaly", t->tle.xmo, 252.9348L * M_PIl / 180}};
    for (int q = 0; q < 5; q++) if (!(fabs(U[q].g - U[q].e) <= 3e-9 * fabs(U[q].e))) sq_fail("C21", "%s becomes %.12g instead of %.12g", U[q].w, U[q].g, U[q].e);
    sq_hit(deep ? "deep-space" : "near-earth"); sq_state(mm * 1000 + i * 12 + e); sq_outcome(deep + 1); sq_note("inclination %d eccentricity %d mean motion %ld", i, E[e], mm); free(t); free(p);
}
static void wire(int root) {    // texts of every length, as they arrive in a request, up to the Doppler correction
    int b = root % 3; load(b); int l = root / 3 % 3, n = sq_choose(121, "length"), k = sq_choose(4, "content"); char *t[3]; int ln[3];
    for (int i = 0; i < 3; i++) { ln[i] = i == l ? n : len[i]; t[i] = malloc(ln[i] + 1); for (int j = 0; j < ln[i]; j++) t[i][j] = j < len[i] ? L[i][j] : "X 9\xff"[k]; t[i][ln[i]] = 0; }
    if (k == 3 && n > 2) t[l][n / 2] = '\xff'; char (*o)[80] = malloc(240); api_utils_convert_tle(t, o); sq_step();
    for (int i = 0; i < 3; i++) { int m = ln[i] < 80 ? ln[i] : 80; if (memcmp(o[i], t[i], m) || (m < 80 && o[i][m])) sq_fail("C21", "line %d of %d characters was not handed over", i, ln[i]); memset(L[i], 0, 81); memcpy(L[i], o[i], m); len[i] = m; free(t[i]); }
    struct el e; int want = decode(&e); doppler *d = NULL; int c = doppler_create(53.72, 47.57, 0, 1000, 437525000, 0, (time_t[]) {1583840449, 339292800, 335404800}[b], 10, o, &d);
    if (want == 0 && c == 0) sq_fail(NULL, "an invalid orbit is accepted"); if (want == 1 && c) sq_fail(NULL, "a valid orbit is refused"); if (c && d) sq_fail(NULL, "a refused correction is returned");
    if (!c) { float complex x[3] = {1, 1, 1}, *y; size_t ol; doppler_process_rx(x, 3, &y, &ol, d); if (ol != 3) sq_fail(NULL, "%zu samples of 3", ol); doppler_destroy(d); }
    free(o); sq_no_leaks(NULL); sq_hit(c ? "refused" : "accepted"); sq_state(root * 1000 + n * 4 + k); sq_outcome(c * 3 + want); sq_note("line %d of %d characters, continued %d", l, n, k);
}
struct sq_scen sq_scenarios[] = {
    {"one changed character", "C21", subst, 138 * N_BASE, 138 * N_BASE, 20},
    {"two changed characters", "C21", subst2, 27 * 27, 27 * 27 * N_BASE, 20},
    {"last digit of the mean motion", "C21", last_digit, 10 * N_BASE, 10 * N_BASE, 5},
    {"lengths", "C21", lengths, N_BASE * 4, N_BASE * 4, 15},
    {"lines of other sets", "C21", wrong_lines, 625, 625, 10},
    {"field values", "C21", fields, NF * NF, NF * NF * N_BASE, 20},
    {"every digit", "C21", digits, 13 * N_BASE, 13 * N_BASE, 10},
    {"names", "C21", names, 15, 15, 20},
    {"epochs", "C21", century, 100, 100, 15},
    {"kind of orbit", "C21", kind, 80, 80, 20},
    {"texts of every length", "C21 C15", wire, 9, 9, 10},
};
int sq_n_scenarios = sizeof sq_scenarios / sizeof *sq_scenarios;
