#define _GNU_SOURCE
#include <sys/mman.h>
// C19, C23: the configuration file, against a table of the documented settings and a small reader of its own
#include "seqrt.h"
#include "server_config.h"
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <math.h>
enum { UINT_, STR_, DBL_, RXT, TXT };
struct cs { const char *name; int kind; long lo, hi; const char *dflt; const char *vals[14]; };
// values: text of the setting in the file; "!" marks those that must be refused
static const struct cs S[] = {
    {"bind_address", STR_, 0, 0, "127.0.0.1", {"\"0.0.0.0\"", "\"\"", "\"192.168.100.200 and a long text that goes on and on\"", "!17", "!true", "!1.5", "![1]"}},
    {"port", UINT_, 1, 65535, "8091", {"1", "65535", "8092", "0x1F90", "!0", "!65536", "!-1", "!2147483647", "!\"8091\"", "!80.5", "!true"}},
    {"read_timeout_seconds", UINT_, 1, 2147483647, "5", {"1", "10", "2147483647", "!0", "!-1", "!-2147483648", "!\"10\"", "!1.5", "!(1)"}},
    {"buffer_size", UINT_, 1, 2147483647, "262144", {"1", "2048", "131072", "2147483647", "!0", "!-1", "!-2147483647", "!\"x\"", "!2.5", "!5000000000L"}},
    {"queue_size", UINT_, 1, 65535, "64", {"1", "2", "65535", "!0", "!65536", "!-1", "!65600", "!\"64\"", "!1.0e1"}},
    {"base_path", STR_, 0, 0, "$", {"\"/data\"", "\"/tmp/\"", "\"relative/dir\"", "!5", "!false"}},
    {"rx_sdr_type", RXT, 0, 0, "sdr-server", {"\"sdr-server\"", "\"plutosdr\"", "\"file\"", "!\"none\"", "!\"\"", "!\"sdr\"", "!\"sdr-server2\"", "!\"SDR-SERVER\"", "!\"rtlsdr\"", "!1"}},
    {"tx_sdr_type", TXT, 0, 0, "none", {"\"none\"", "\"plutosdr\"", "\"file\"", "!\"sdr-server\"", "!\"\"", "!\"pluto\"", "!\"plutosdr \"", "!\"NONE\"", "!0"}},
    {"rx_sdr_server_address", STR_, 0, 0, "127.0.0.1", {"\"10.0.0.7\"", "\"\"", "!1"}},
    {"rx_sdr_server_port", UINT_, 1, 65535, "8090", {"1", "65535", "8089", "!0", "!65536", "!-8090", "!\"8090\""}},
    {"rx_file_base_path", STR_, 0, 0, "$", {"\"/rx\"", "!7"}},
    {"tx_file_base_path", STR_, 0, 0, "$", {"\"/tx\"", "!7.5"}},
    {"tx_plutosdr_gain", DBL_, 0, 0, "0.0", {"-10.5", "89.75", "3", "-7", "1e1", "!\"1\"", "!true", "![1.0]"}},
    {"rx_plutosdr_gain", DBL_, 0, 0, "0.0", {"71.0", "-0.25", "12", "!\"12\"", "!false"}},
    {"tx_plutosdr_timeout_millis", UINT_, 0, 2147483647, "10000", {"0", "1", "2147483647", "!-1", "!\"1\"", "!0.5"}},
};
#define N ((int) (sizeof S / sizeof *S))
static int nvals(int i) { int n = 0; while (n < 14 && S[i].vals[n]) n++; return n; }
static int find(const char *n) { for (int i = 0; i < N; i++) if (!strcmp(S[i].name, n)) return i; return -1; }
static int sym, sym_missing;
void *sq_dlsym_hook(const char *name) { static char f[64]; return ++sym == sym_missing ? NULL : f; }
static char path[64]; static size_t heap0; static bool warm;
static void put(const char *text, size_t n) { static int fd = -1; if (fd < 0) fd = memfd_create("conf", 0); snprintf(path, sizeof path, "/proc/self/fd/%d", fd); if (ftruncate(fd, 0) || pwrite(fd, text, n, 0) != (ssize_t) n) { perror(path); _exit(3); } }
static const char *cur[16];     // text of every setting, NULL: absent
static char tmpdir[64];
static void same(const char *n, const char *got, const char *want, bool dfl) {
    char w[200]; size_t k = strlen(want); if (dfl) snprintf(w, sizeof w, "%s", want[0] == '$' ? (tmpdir[0] ? tmpdir : "/tmp") : want); else { snprintf(w, sizeof w, "%.*s", (int) k - 2, want + 1); }
    if (!got || strcmp(got, w)) sq_fail("C19", "%s is '%s' instead of '%s'", n, got ? got : "(null)", w);
}
static const char *val(const char *n, bool *d) { int i = find(n); *d = cur[i] == NULL; return cur[i] ? cur[i] : S[i].dflt; }
static void uint_is(const char *n, long got) { bool d; const char *t = val(n, &d); long w = strtol(t, NULL, 0); if (got != w) sq_fail("C19", "%s is %ld instead of %ld", n, got, w); }
static void dbl_is(const char *n, double got) { bool d; const char *t = val(n, &d); double w = strtod(t, NULL); if (!(fabs(got - w) < 1e-9)) sq_fail("C19", "%s is %g instead of %g", n, got, w); }
static void str_is(const char *n, const char *got) { bool d; const char *t = val(n, &d); same(n, got, t, d); }
static void check(bool good) {
    struct server_config *c = (void *) 8; int code = server_config_create(&c, path); sq_step();
    if (!good) {
        if (code == 0) sq_fail("C19", "an invalid configuration was accepted");
        if (c != (void *) 8 && c != NULL) sq_fail("C19", "a refused configuration was half applied");
        sq_hit("refused");
    } else if (code) {
        if (sq_oom_hit) { if (c != (void *) 8 && c != NULL) sq_fail("C23", "a configuration that failed is returned"); sq_hit("no memory"); }
        else sq_fail("C19", "a valid configuration was refused (%d)", code);
    } else {
        if (sq_oom_hit) sq_fail("C23", "an allocation failed and the configuration was accepted");
        uint_is("port", c->port); uint_is("read_timeout_seconds", c->read_timeout_seconds); uint_is("buffer_size", c->buffer_size); uint_is("queue_size", c->queue_size); uint_is("tx_plutosdr_timeout_millis", c->tx_plutosdr_timeout_millis);
        str_is("bind_address", c->bind_address); str_is("base_path", c->base_path); str_is("rx_file_base_path", c->rx_file_base_path); str_is("tx_file_base_path", c->tx_file_base_path);
        dbl_is("tx_plutosdr_gain", c->tx_plutosdr_gain); dbl_is("rx_plutosdr_gain", c->rx_plutosdr_gain);
        bool d; const char *r = val("rx_sdr_type", &d), *t = val("tx_sdr_type", &d); int wr = strstr(r, "server") ? RX_SDR_TYPE_SDR_SERVER : strstr(r, "pluto") ? RX_SDR_TYPE_PLUTOSDR : RX_SDR_TYPE_FILE, wt = strstr(t, "none") ? TX_SDR_TYPE_NONE : strstr(t, "pluto") ? TX_SDR_TYPE_PLUTOSDR : TX_SDR_TYPE_FILE;
        if (c->rx_sdr_type != wr || c->tx_sdr_type != wt) sq_fail("C19", "radio types are %d and %d instead of %d and %d", c->rx_sdr_type, c->tx_sdr_type, wr, wt);
        if (wr == RX_SDR_TYPE_SDR_SERVER) { str_is("rx_sdr_server_address", c->rx_sdr_server_address); uint_is("rx_sdr_server_port", c->rx_sdr_server_port); }
        bool pl = wr == RX_SDR_TYPE_PLUTOSDR || wt == TX_SDR_TYPE_PLUTOSDR; if (pl && !c->iio) sq_fail("C19", "the plutosdr library was not loaded");
        sq_hit("accepted"); server_config_destroy(c);
    }
     sq_no_leaks("C19"); sq_no_leaks("C23");
    if (warm && sq_heap() != heap0) sq_fail("C19", "%ld bytes were never released", (long) (sq_heap() - heap0));
    warm = true; heap0 = sq_heap(); sq_outcome(code);
}
static char text[4000];
static void env(int k) { static char e[3][40] = {"TMPDIR=/none", "TMPDIR=/var/run/scratch", "TMPDIR=/x"}; putenv(e[k]); strcpy(tmpdir, e[k] + 7); if (k == 0) { unsetenv("TMPDIR"); tmpdir[0] = 0; } }
static bool build(int style) {   // true: all settings are valid
    bool good = true; text[0] = 0; const char *sep = (const char *[]) {"=", " = ", ":", "\t=\t"}[style % 4], *end = (const char *[]) {"\n", ";\n", " // port=1\n", " # c\n"}[style % 4];
    if (style & 4) strcat(text, "/* port=2 */\n\n# rx_sdr_type=\"bad\"\nunknown_setting=7\n");
    for (int k = 0; k < N; k++) { int i = style & 8 ? N - 1 - k : k; if (cur[i]) { const char *v = cur[i]; if (*v == '!') { good = false; v++; } snprintf(text + strlen(text), sizeof text - strlen(text), "%s%s%s%s", S[i].name, sep, v, end); } }
    return good;
}
// a setting that the configured radio does not use may be skipped: then its validity does not matter
static bool relevant(int i) { bool d; const char *r = val("rx_sdr_type", &d); return !(strncmp(S[i].name, "rx_sdr_server", 13) == 0 && !strstr(r, "server")); }
static void pairs(int root) {
    sym_missing = 0;
    env(1 + (root % 2 == 0 ? -1 : 0)); int base = sq_choose(5, "other settings"); 
    memset(cur, 0, sizeof cur);
    if (base) for (int i = 0; i < N; i++) cur[i] = S[i].vals[0];
    if (base >= 2) { cur[find("rx_sdr_type")] = base == 2 ? "\"plutosdr\"" : base == 3 ? "\"file\"" : "\"sdr-server\""; cur[find("tx_sdr_type")] = base == 2 ? "\"plutosdr\"" : "\"file\""; }
    int i = root, j = i + sq_choose(N - i, "second setting"); 
    int v = sq_choose(nvals(i) + 1, "value"); cur[i] = v ? S[i].vals[v - 1] : NULL;
    if (j != i) { int w = sq_choose(nvals(j) + 1, "second value"); cur[j] = w ? S[j].vals[w - 1] : NULL; if (sq_thorough && j < N - 1) { int k = j + 1 + sq_choose(N - 1 - j, "third setting"), x = sq_choose(nvals(k) + 1, "third value"); cur[k] = x ? S[k].vals[x - 1] : NULL; } }
    bool good = build(sq_choose(2, "style") * (1 + (i + j) % 15));
    bool unsure = false, bad = false; for (int k = 0; k < N; k++) if (cur[k] && *cur[k] == '!') { if (relevant(k)) bad = true; else unsure = true; }
    sq_note("%s=%s, %s=%s, others %d", S[i].name, cur[i] ? cur[i] : "-", S[j].name, cur[j] ? cur[j] : "-", base); sq_state(sq_hash(text, strlen(text), root % 2));
    put(text, strlen(text)); if (good && !unsure) check(true); else if (bad) check(false); else { struct server_config *c = NULL; if (server_config_create(&c, path) == 0) server_config_destroy(c);  sq_no_leaks("C19"); warm = true; heap0 = sq_heap(); }
}
static void types(int root) {   // all combinations of the radios with the library present, missing or incomplete
    static const char *R[] = {NULL, "\"sdr-server\"", "\"plutosdr\"", "\"file\""}, *T[] = {NULL, "\"none\"", "\"plutosdr\"", "\"file\""};
    memset(cur, 0, sizeof cur); env(root % 3); cur[find("rx_sdr_type")] = R[root / 3 % 4]; cur[find("tx_sdr_type")] = T[root / 12]; build(0); put(text, strlen(text));
    int lib = sq_choose(3, "library"); sym = 0; sym_missing = lib == 2 ? 1 + sq_choose(40, "missing symbol") : 0; bool pl = root / 3 % 4 == 2 || root / 12 == 2; sq_note("rx %s tx %s library %d", cur[find("rx_sdr_type")], cur[find("tx_sdr_type")], lib); sq_state(root * 2 + lib);
    if (lib) { sq_cfg.dl_fails = lib == 1; struct server_config *c = NULL; int code = server_config_create(&c, path); if (code == 0) { server_config_destroy(c); }  sq_step(); sq_no_leaks("C19"); sq_outcome(code); if (lib == 2 && sym_missing <= sym && code == 0) sq_fail("C19", "an incomplete plutosdr library was accepted"); if (!pl && code) sq_fail("C19", "a configuration without plutosdr needs its library"); sq_heap(); heap0 = sq_heap(); return; }
    check(true);
}
// the file cut at every byte: an own reader decides what is left
static char keep[16][80];
static int reader(const char *t, size_t n) {   // 0: valid, fills cur; 1: not valid
    memset(cur, 0, sizeof cur); size_t i = 0; int nk = 0;
    for (;;) {
        while (i < n && (t[i] == ' ' || t[i] == '\n' || t[i] == '\t')) i++;
        if (i < n && t[i] == '#') { while (i < n && t[i] != '\n') i++; continue; }
        if (i >= n) return 0;
        char name[40]; int k = 0; while (i < n && (t[i] == '_' || (t[i] >= 'a' && t[i] <= 'z')) && k < 39) name[k++] = t[i++]; name[k] = 0; if (!k) return 1;
        while (i < n && t[i] == ' ') i++;
        if (i >= n || t[i] != '=') return 1; i++;
        while (i < n && (t[i] == ' ' || t[i] == '\n')) i++;
        if (i >= n) return 1; char *o = keep[nk]; k = 0;
        if (t[i] == '"') { o[k++] = t[i++]; while (i < n && t[i] != '"') o[k++] = t[i++]; if (i >= n) return 1; o[k++] = t[i++]; }
        else { while (i < n && t[i] != '\n' && t[i] != ' ' && t[i] != ';') o[k++] = t[i++]; if (!strcmp(o, "-") || (k == 1 && o[0] == '-')) return 1; }
        o[k] = 0; if (i < n && t[i] == ';') i++;
        int s = find(name); if (s < 0) continue; cur[s] = o; nk++;
        if (S[s].kind == UINT_) { char *e; long v = strtol(o, &e, 0); if (*e || v < S[s].lo || v > S[s].hi) return 1; }
        if (S[s].kind == RXT && strcmp(o, "\"sdr-server\"") && strcmp(o, "\"plutosdr\"") && strcmp(o, "\"file\"")) return 1;
        if (S[s].kind == TXT && strcmp(o, "\"none\"") && strcmp(o, "\"plutosdr\"") && strcmp(o, "\"file\"")) return 1;
    }
}
static const char FULL[] = "# a comment\nbind_address=\"127.0.0.2\"\nport=8095\nbuffer_size=4096\nbase_path=\"/data/\"\nread_timeout_seconds=12\nrx_sdr_type=\"sdr-server\"\ntx_sdr_type=\"plutosdr\"\n"
    "tx_plutosdr_gain=-12.25\ntx_plutosdr_timeout_millis=20000\nrx_plutosdr_gain=17.5\nrx_sdr_server_address=\"10.1.1.1\"\nrx_sdr_server_port=8098\nrx_file_base_path=\"/rx/\"\ntx_file_base_path=\"/tx/\"\nqueue_size=32\n";
static void cuts(int root) {
    sym_missing = 0;
    env(root % 3); if (root > (int) sizeof FULL - 1 || (root && root <= 11)) return; /* a comment that is not ended is the library's business */ size_t n = root; bool good = reader(FULL, n) == 0; put(FULL, n); sq_note("cut after %zu bytes: %s", n, good ? "valid" : "not valid"); sq_state(n); check(good);
}
static void unreadable(int root) {
    snprintf(path, sizeof path, root == 0 ? "./does-not-exist" : root == 1 ? "." : root == 2 ? "" : "./no/such/dir/file"); sq_note("'%s'", path); sq_state(root);
    if (root == 3 + 1) { put("port=8091 }", 11); } if (root == 5) put("\0\0\0\0", 4); if (root == 6) put("port=\"8091", 10); if (root == 7) put("{", 1);
    if (root == 8) put("port=8091\nport=8092\n", 20);
    check(false);
}
static void oom(int root) {
    sym_missing = 0;
    static const char *R[] = {"\"sdr-server\"", "\"plutosdr\"", "\"file\""}, *T[] = {"\"none\"", "\"plutosdr\"", "\"file\""};
    memset(cur, 0, sizeof cur); env(0); for (int i = 0; i < N; i++) cur[i] = root / 9 ? S[i].vals[0] : NULL; cur[find("rx_sdr_type")] = R[root % 3]; cur[find("tx_sdr_type")] = T[root / 3 % 3]; build(0); put(text, strlen(text)); sq_note("%s %s", R[root % 3], T[root / 3 % 3]); sq_state(root);
    sq_cfg.oom = 1; check(true);
}
struct sq_scen sq_scenarios[] = {
    {"radio types", "C19", types, 48, 48, 30}, {"cut files", "C19", cuts, sizeof FULL, sizeof FULL, 30}, {"unreadable files", "C19", unreadable, 9, 9, 30}, {"pairs of settings", "C19", pairs, 15, 15, 120}, {"loading without memory", "C23", oom, 18, 18, 30},
};
int sq_n_scenarios = sizeof sq_scenarios / sizeof *sq_scenarios;
