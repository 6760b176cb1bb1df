// srv.h: shared pieces of the server harnesses: wire encoding, scripted clients, mock SDR server, oracles.
#include "mcrt.h"
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <errno.h>
#include <math.h>
#include <complex.h>
#include <pthread.h>
#include "tcp_server.h"
#include "server_config.h"
#include "dsp/fsk_demod.h"
#include "dsp/gfsk_mod.h"
#include "dsp/doppler.h"

extern int in_mc;
static int srv_port = 8091, sdr_port = 8090;
#define PORT srv_port
#define SDRPORT sdr_port
#define OUTDIR "/sim/out"

// ------------------------------------------------------------------ independent wire encoding
struct enc { uint8_t b[40000]; size_t n; };
static void e_var(struct enc *e, uint64_t v) { while (v >= 0x80) { e->b[e->n++] = (uint8_t) (v | 0x80); v >>= 7; } e->b[e->n++] = (uint8_t) v; }
static void e_int(struct enc *e, int f, uint64_t v) { e_var(e, (uint64_t) f << 3); e_var(e, v); }
static void e_bytes(struct enc *e, int f, const void *p, size_t n) { e_var(e, (uint64_t) f << 3 | 2); e_var(e, n); if (n) memcpy(e->b + e->n, p, n); e->n += n; }
static void e_frame(struct enc *out, int ver, int type, const struct enc *body) {
    size_t n = body ? body->n : 0;
    uint8_t *p = out->b + out->n;
    p[0] = (uint8_t) ver; p[1] = (uint8_t) type; p[2] = (uint8_t) (n >> 24); p[3] = (uint8_t) (n >> 16); p[4] = (uint8_t) (n >> 8); p[5] = (uint8_t) n;
    if (n) memcpy(p + 6, body->b, n);
    out->n += 6 + n;
}
// one frame; NULL body allowed
static struct enc *mk(int type, const struct enc *body) { struct enc *o = calloc(1, sizeof *o); e_frame(o, 0, type, body); return o; }

struct rxp { uint64_t center, rate; int dump; int64_t offset; int demod; uint64_t baud, dec; int dest; int64_t dev; uint64_t tw; int dc; const char *file; uint64_t start; int has_fsk; const char **tle; int ntle; int lat, lon, alt; };
struct txp { uint64_t center, rate; int dump; int64_t offset; int mod; uint64_t baud; int64_t dev; const char *file; uint64_t start; int has_fsk; const char **tle; int ntle; int lat, lon, alt; };
static struct rxp rx_def(void) { return (struct rxp) {.center = 437525000, .rate = 9600, .dump = 1, .offset = 0, .demod = 1, .baud = 4800, .dec = 1, .dest = 2, .dev = 1200, .tw = 2000, .dc = 0, .file = NULL, .has_fsk = 1}; }
static struct txp tx_def(void) { return (struct txp) {.center = 437525000, .rate = 9600, .dump = 1, .offset = 0, .mod = 1, .baud = 4800, .dev = 1200, .file = "/sim/tx.cf32", .has_fsk = 1, .lat = 537200000, .lon = 475700000}; }
static void e_dopp(struct enc *e, int f, const char **tle, int n, int lat, int lon, int alt) {
    struct enc d = {.n = 0};
    for (int i = 0; i < n; i++) e_bytes(&d, 1, tle[i], strlen(tle[i]));
    e_int(&d, 2, (uint64_t) (int64_t) lat); e_int(&d, 3, (uint64_t) (int64_t) lon); e_int(&d, 4, alt);
    e_bytes(e, f, d.b, d.n);
}
static void e_rx(struct enc *e, const struct rxp *p) {
    e_int(e, 1, p->center); e_int(e, 2, p->rate); e_int(e, 3, p->dump); e_int(e, 4, (uint64_t) p->offset); e_int(e, 5, p->demod);
    e_int(e, 6, p->baud); e_int(e, 7, p->dec); e_int(e, 8, p->dest);
    if (p->tle) e_dopp(e, 9, p->tle, p->ntle, p->lat, p->lon, p->alt);
    if (p->has_fsk) { static struct enc f; f.n = 0; e_int(&f, 1, (uint64_t) p->dev); e_int(&f, 2, p->tw); e_int(&f, 3, p->dc); e_bytes(e, 10, f.b, f.n); }
    if (p->file) { static struct enc f; f.n = 0; e_bytes(&f, 1, p->file, strlen(p->file)); e_int(&f, 2, p->start); e_bytes(e, 11, f.b, f.n); }
}
static void e_tx(struct enc *e, const struct txp *p) {
    e_int(e, 1, p->center); e_int(e, 2, p->rate); e_int(e, 3, p->dump); e_int(e, 4, (uint64_t) p->offset); e_int(e, 5, p->mod); e_int(e, 6, p->baud);
    if (p->tle) e_dopp(e, 7, p->tle, p->ntle, p->lat, p->lon, p->alt);
    if (p->has_fsk) { static struct enc f; f.n = 0; e_int(&f, 1, (uint64_t) p->dev); e_bytes(e, 8, f.b, f.n); }
    if (p->file) { static struct enc f; f.n = 0; e_bytes(&f, 1, p->file, strlen(p->file)); e_int(&f, 2, p->start); e_bytes(e, 9, f.b, f.n); }
}
static struct enc *rx_frame(const struct rxp *p) { static struct enc b; b.n = 0; e_rx(&b, p); return mk(0, &b); }
static struct enc *tx_frame(const struct txp *p) { static struct enc b; b.n = 0; e_tx(&b, p); return mk(5, &b); }
static uint8_t tx_byte(int k) { return (uint8_t) (k * 37 + 11 + (k >> 3)); }
static struct enc *txdata_frame(int from, int n) { static struct enc b; static uint8_t d[33000]; b.n = 0; for (int i = 0; i < n; i++) d[i] = tx_byte(from + i); e_bytes(&b, 1, d, n); return mk(4, &b); }

// ------------------------------------------------------------------ clients
enum { ST_NEW, ST_CONN, ST_SENT, ST_RESP, ST_DATA, ST_BYE, ST_EOF };
struct cli {
    const char *name; mc_conn *c; int stage; bool refused;   // refused: no connection
    bool got; int status; uint32_t details; int64_t t_req;   // the response; when the request was sent
    uint8_t st[20000]; size_t nst; bool eof;                 // stream after the response
    int nfr; int fst[64]; uint32_t fdet[64];                 // further responses (transmit)
    int64_t t_eof;
};
#define NCLI 8
static struct cli CL[NCLI];
static int progress;   // milestones reached by all clients together
static void stage(struct cli *c, int s) { c->stage = s; progress++; mc_event(0xA11CE, 1); }
static bool dec_response(const uint8_t *b, size_t n, int *status, uint32_t *details) {
    size_t i = 0; *status = -1; *details = 0; bool hasd = false;
    while (i < n) {
        uint64_t tag = 0, v = 0; int s = 0;
        do { if (i >= n) return false; tag |= (uint64_t) (b[i] & 0x7f) << s; s += 7; } while (b[i++] & 0x80);
        s = 0;
        if ((tag & 7) != 0) return false;
        do { if (i >= n) return false; v |= (uint64_t) (b[i] & 0x7f) << s; s += 7; } while (b[i++] & 0x80);
        if (tag >> 3 == 1) *status = (int) v; else if (tag >> 3 == 2) { *details = (uint32_t) v; hasd = true; } else return false;
    }
    (void) hasd;
    return *status == 0 || *status == 1;
}
static void cl_connect(struct cli *c) {
    c->c = env_try_connect_wait(PORT);
    if (!c->c) { c->refused = true; return; }
    stage(c, ST_CONN);
}
static int cl_send(struct cli *c, const void *b, size_t n) { return c->c ? env_send(c->c, b, n) : -1; }
// reads one response frame; false at the end of the stream
static bool rd_frame(struct cli *c, int *status, uint32_t *details) {
    uint8_t h[6], b[64];
    if (!c->c) return false;
    int n = env_recv_full(c->c, h, 6);
    if (n == 0) return false;
    if (n < 6) { mc_fail(K_ORACLE, "C04", "client %s: response cut after %d bytes", c->name, n); return false; }
    uint32_t len = (uint32_t) h[2] << 24 | h[3] << 16 | h[4] << 8 | h[5];
    if (h[0] != 0 || h[1] != 2 || len < 2 || len > 20) { mc_fail(K_ORACLE, "C04", "client %s: expected a response frame, got version %d type %d length %u", c->name, h[0], h[1], len); return false; }
    if (env_recv_full(c->c, b, len) != (int) len) { mc_fail(K_ORACLE, "C04", "client %s: response body cut", c->name); return false; }
    if (!dec_response(b, len, status, details)) { mc_fail(K_ORACLE, "C04", "client %s: response body is not a response", c->name); return false; }
    return true;
}
static bool cl_response(struct cli *c) {
    if (!rd_frame(c, &c->status, &c->details)) { c->eof = true; return false; }
    c->got = true;
    stage(c, ST_RESP);
    return c->status == 0;
}
// reads stream bytes until at least want are there, the end, or nothing comes for ms
static void cl_read(struct cli *c, size_t want, int64_t ms) {
    while (c->c && !c->eof && c->nst < want) {
        int r = ms < 0 ? env_recv(c->c, c->st + c->nst, sizeof c->st - c->nst) : env_recv_timeout(c->c, c->st + c->nst, sizeof c->st - c->nst, ms);
        if (r == -2) break;
        if (r == 0) { c->eof = true; c->t_eof = mc_now(); break; }
        if (c->nst == 0) stage(c, ST_DATA);
        c->nst += r;
    }
}
static void cl_bye(struct cli *c) { if (c->c) { static const uint8_t s[6] = {0, 1, 0, 0, 0, 0}; env_send(c->c, s, 6); stage(c, ST_BYE); } }
static void cl_eof(struct cli *c) { cl_read(c, sizeof c->st, -1); if (c->c) stage(c, ST_EOF); }
static void cl_close(struct cli *c) { if (c->c) env_close(c->c); }
// waits until the clients together reached k milestones (free choice of the moment of a stop)
static bool prog_ge(void *a) { return progress >= *(int *) a; }
static void wait_progress(int k) { mc_op(prog_ge, &k, -1, "wait for progress"); mc_event(0xA11CE, 2); }

// ------------------------------------------------------------------ mock SDR server
enum { B_NORMAL, B_REFUSE, B_CLOSE_EARLY, B_SILENT, B_BADVER, B_BADTYPE, B_SHORT, B_ENDLESS, B_MUTE_STOP, B_CLOSE_AFTER, B_SLOW, B_CUT, B_STALL, B_DEAF };
struct sdrconn { mc_conn *c; uint32_t center, rate, band; int dest, ver, type; size_t sent; bool bye, ended, ok; int behaviour; int64_t opened, closed; };
static struct sdrconn SD[8]; static int nsd, sd_open_max, sd_open;
static struct { int behaviour[8]; int buffers; int buflen; int limit; size_t nsamples; } SDC;   // behaviour of the i-th connection
#define NS 2048
static float complex sdr_tab[4][NS];
static void gen_table(void) {   // fsk signals whose samples are all different
    for (int c = 0; c < 4; c++) {
        double ph = c; uint32_t r = 12345 + c * 777;
        for (int k = 0; k < NS; k++) {
            if (k % 2 == 0) r = r * 1664525u + 1013904223u;
            ph += ((r >> 24) & 1 ? 1 : -1) * 2 * M_PI * 1200 / 9600.0;
            double a = 0.5 + k * 0.0002 + c * 0.00003;
            sdr_tab[c][k] = (float) (a * cos(ph)) + I * (float) (a * sin(ph));
        }
    }
}
static uint32_t be32(const uint8_t *p) { return (uint32_t) p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]; }
static void *sdr_conn_thread(void *a) {
    int i = (int) (intptr_t) a; struct sdrconn *s = &SD[i];
    uint8_t q[15];
    int n = env_recv_full(s->c, q, 15);
    if (n == 15) {
        s->ver = q[0]; s->type = q[1]; s->center = be32(q + 2); s->rate = be32(q + 6); s->band = be32(q + 10); s->dest = q[14];
        if (q[0] != 0 || q[1] != 0) mc_fail(K_ORACLE, "C16", "request to the SDR server has version %d type %d", q[0], q[1]);
        uint8_t r[7] = {0, 2, 0, 0, 0, 0, 3};
        int b = s->behaviour;
        if (b == B_REFUSE) { static const uint8_t v[] = {1, 2, 0x7f, 0x80, 0xff}; r[2] = v[mc_choose(5, 0, "status of the refusal")]; env_send(s->c, r, 7); }
        else if (b == B_CLOSE_EARLY) {}
        else if (b == B_SILENT) { char t[16]; while (env_recv(s->c, t, sizeof t) > 0) {} }
        else if (b == B_BADVER) { static const uint8_t v[] = {1, 9, 255}; r[0] = v[mc_choose(3, 0, "version of the answer")]; env_send(s->c, r, 7); }
        else if (b == B_BADTYPE) { static const uint8_t v[] = {0, 1, 3, 255}; r[1] = v[mc_choose(4, 0, "type of the answer")]; env_send(s->c, r, 7); }
        else if (b == B_SHORT) { env_send(s->c, r, 4); }
        else if (b == B_STALL) { env_send(s->c, r, 1 + mc_choose(6, 0, "where the answer stalls")); char t[16]; while (env_recv(s->c, t, sizeof t) > 0) {} }
        else {
            s->ok = true;
            int w = env_send(s->c, r, 7);
            size_t total = SDC.nsamples;
            const uint8_t *src = (const uint8_t *) sdr_tab[i & 3];
            if (b == B_ENDLESS) {
                for (int k = 0; w == 0 && k < 60; k++) { if (env_send(s->c, src, SDC.buflen * 8)) break; s->sent += SDC.buflen; mc_sleep(500); if (env_peer_closed(s->c) || env_pending(s->c) >= 2) break; }
            } else if (b == B_SLOW) {   // a trickle: pieces that are no multiple of a sample, slower than the read timeout
                static const size_t piece[] = {100, 3, 2, 98};   // sometimes less than what completes a sample
                size_t left = total * 8, off = 0;
                for (int pc = 0; left && w == 0; pc++) { size_t k = piece[pc & 3]; if (k > left) k = left; w = env_send(s->c, src + off, k); off += k; left -= k; s->sent = off / 8; mc_sleep(6000); }
            } else if (b == B_CUT) {
                w = env_send(s->c, src, total * 8 - 3); s->sent = total - 1;
            } else if (w == 0 && env_send(s->c, src, total * 8) == 0) s->sent = total;
            if (b == B_NORMAL || b == B_SLOW || b == B_ENDLESS) {   // streaming until asked to stop
                uint8_t h[2]; int k = env_recv_full(s->c, h, 2);
                if (k == 2) { if (h[0] == 0 && h[1] == 1) s->bye = true; else mc_fail(K_ORACLE, "C16", "the SDR server got an unexpected message: version %d type %d", h[0], h[1]); }
                else if (k == 1) mc_fail(K_ORACLE, "C16", "the SDR server got half a message");
            } else if (b == B_DEAF) {   // streams on as if it had not been asked to stop
                for (int k = 0; k < 150 && w == 0; k++) { mc_sleep(700); if (env_peer_closed(s->c)) break; if (env_pending(s->c) < 2000) w = env_send(s->c, src, 16 * 8); }
            } else if (b == B_MUTE_STOP) {   // never answers the shutdown, waits for the other side to close
                uint8_t h[2]; int z; while ((z = env_recv(s->c, h, 2)) > 0) {}
            }
        }
    }
    s->closed = mc_now(); s->ended = true; sd_open--;
    env_close(s->c);
    mc_event(0x5d5d, 2);
    return NULL;
}
static void *sdr_listener(void *a) {
    (void) a;
    for (;;) {
        mc_conn *c = env_accept(SDRPORT);
        if (!c) return NULL;
        int i = nsd++;
        SD[i].c = c; SD[i].opened = mc_now(); SD[i].behaviour = SDC.behaviour[i];
        if (++sd_open > sd_open_max) sd_open_max = sd_open;
        mc_event(0x5d5d, 1);
        if (SDC.limit && nsd > SDC.limit) mc_fail(K_ORACLE, "C07", "%d SDR connections were opened for sessions that can share one", nsd);
        char nm[20]; snprintf(nm, sizeof nm, "sdr%d", i);
        mc_spawn(nm, sdr_conn_thread, (void *) (intptr_t) i);
    }
}

// ------------------------------------------------------------------ server under test
static struct server_config cfg;
static tcp_server *server;
static void conf(int rx_type, int tx_type, int bufsz, int qsz) {
    static char addr[] = "127.0.0.1", base[] = OUTDIR;
    memset(&cfg, 0, sizeof cfg);
    mc_cfg.spurious = 1;
    cfg.bind_address = addr; cfg.port = PORT; cfg.read_timeout_seconds = 5; cfg.buffer_size = bufsz; cfg.queue_size = qsz;
    cfg.rx_sdr_type = rx_type; cfg.tx_sdr_type = tx_type; cfg.rx_sdr_server_address = addr; cfg.rx_sdr_server_port = SDRPORT; cfg.base_path = base;
    cfg.tx_plutosdr_timeout_millis = 1000;
    static const char *names[] = {"A", "B", "C", "D", "E", "F", "G", "H"};
    for (int i = 0; i < NCLI; i++) CL[i].name = names[i];
    gen_table();
    SDC.buflen = bufsz;
}
static void start_mock(void) { env_listen(SDRPORT); mc_spawn("sdr listener", sdr_listener, NULL); }
static bool start_server(void) {
    int code = tcp_server_create(&cfg, &server);
    return code == 0;
}
static void stop_server(void) {
    tcp_server_destroy(server);
    tcp_server_join_thread(server);
    server = NULL;
    env_unlisten(SDRPORT);
}
static void end_checks(void) {
    mc_check_leaks(K_LEAKS);
    for (int i = 0; i < nsd; i++) mc_outcome("s%d:%u/%zu%s ", i, SD[i].center, SD[i].sent, SD[i].bye ? "b" : "");
    for (int i = 0; i < NCLI; i++) if (CL[i].c) mc_outcome("%s:%d%s%d/%u n%zu f%d ", CL[i].name, CL[i].stage, CL[i].got ? "r" : "-", CL[i].status, CL[i].details, CL[i].nst, CL[i].nfr);
}

// ------------------------------------------------------------------ oracles
static struct mc_file *fget(const char *fmt, unsigned id) { char n[200]; snprintf(n, sizeof n, fmt, id); return mc_file_get(n); }
// dump: a gap-free run of what connection ci delivered; returns its start or -1
static int check_run(const char *prop, const char *who, const struct mc_file *f, int ci, size_t delivered, bool to_end) {
    if (f->len % 8) { mc_fail(K_ORACLE, prop, "%s: the dump has %zu bytes, not a whole number of samples", who, f->len); return -1; }
    size_t n = f->len / 8;
    if (n == 0) return 0;
    const float complex *d = (const void *) f->data;
    int at = -1;
    for (int k = 0; k < NS; k++) if (!memcmp(&sdr_tab[ci & 3][k], d, 8)) at = k;
    if (at < 0) {
        for (int c = 0; c < 4; c++) for (int k = 0; k < NS; k++) if (!memcmp(&sdr_tab[c][k], d, 8)) { mc_fail(K_ORACLE, "C07", "%s: received samples of SDR connection %d instead of %d", who, c, ci); return -1; }
        mc_fail(K_ORACLE, prop, "%s: the first sample of the dump was never sent by the SDR", who); return -1;
    }
    if (SD[ci].behaviour == B_ENDLESS || SD[ci].behaviour == B_DEAF) return at;
    for (size_t k = 0; k < n; k++) if (at + k >= NS || memcmp(&sdr_tab[ci & 3][at + k], d + k, 8)) { mc_fail(K_ORACLE, prop, "%s: sample %zu after the start of the dump is not the next one the SDR sent (gap, duplicate or damage)", who, k); return -1; }
    if (at + n > delivered) mc_fail(K_ORACLE, prop, "%s: more samples than were delivered", who);
    if (to_end && at + n != delivered) mc_fail(K_ORACLE, prop, "%s: %zu samples delivered before the end were lost (dump has %d..%zu)", who, delivered - at - n, at, at + n);
    return at;
}
// Doppler correction as the request says, starting at a given second
static doppler *ref_dopp(const char **t, uint32_t lat, uint32_t lon, uint32_t alt, uint64_t fs, uint64_t center, int64_t off, int64_t start, uint32_t max) {
    char l[3][80]; doppler *d = NULL;
    for (int i = 0; i < 3; i++) { memset(l[i], 0, 80); strncpy(l[i], t[i], 79); }
    return doppler_create(lat / 1e7, lon / 1e7, alt / 1e4, fs, center, off, start, max, l, &d) ? NULL : d;
}
static size_t ref_demod_at(const struct rxp *p, const float complex *in, size_t n, uint32_t bufsz, int64_t start, int8_t *out, size_t max) {
    int save = in_mc; in_mc = 0;
    fsk_demod *d = NULL; doppler *dp = NULL; size_t total = 0;
    fsk_demod_create(p->rate, p->baud, p->dev, (uint8_t) p->dec, p->tw, p->dc, bufsz, &d);
    if (p->tle) { dp = ref_dopp(p->tle, p->lat, p->lon, p->alt, p->rate, p->center, 0, start, bufsz); if (!dp) { fsk_demod_destroy(d); in_mc = save; return (size_t) -1; } }
    for (size_t i = 0; i < n; i += bufsz) {
        size_t k = n - i < bufsz ? n - i : bufsz; int8_t *o = NULL; size_t on = 0;
        float complex *copy = mcw_malloc(k * 8), *x = copy; size_t xn = k; memcpy(copy, in + i, k * 8);
        if (dp) doppler_process_rx(copy, k, &x, &xn, dp);
        fsk_demod_process(x, xn, &o, &on, d);
        mcw_free(copy);
        for (size_t j = 0; j < on && total < max; j++) out[total++] = o[j];
    }
    fsk_demod_destroy(d); doppler_destroy(dp);
    in_mc = save;
    return total;
}
// the second at which the correction starts: given by the request, or any of the session
static void starts(const struct cli *c, const char *file, int64_t start, int64_t *lo, int64_t *hi) {
    if (file && start) { *lo = *hi = start; return; }
    *lo = c->t_req / 1000; *hi = mc_now() / 1000; if (*hi > *lo + 100) *hi = *lo + 100;
}
static size_t ref_demod(const struct rxp *p, const float complex *in, size_t n, uint32_t bufsz, int8_t *out, size_t max) { return ref_demod_at(p, in, n, bufsz, p->start ? p->start : mc_now() / 1000, out, max); }
static void cmp_stream(const char *prop, const char *who, const char *what, const int8_t *got, size_t n, const int8_t *ref, size_t nref, bool exact) {
    if (n > nref || (exact && n != nref)) { mc_fail(K_ORACLE, prop, "%s: the %s has %zu bits, the demodulation of the samples %zu", who, what, n, nref); return; }
    for (size_t i = 0; i < n; i++) if (abs(got[i] - ref[i]) > 2) { mc_fail(K_ORACLE, prop, "%s: soft bit %zu of the %s is %d, expected %d", who, i, what, got[i], ref[i]); return; }
}
static bool same_stream(const int8_t *got, size_t n, const int8_t *ref, size_t nref, bool exact) {
    if (n > nref || (exact && n != nref)) return false;
    for (size_t i = 0; i < n; i++) if (abs(got[i] - ref[i]) > 2) return false;
    return true;
}
// file and stream against the demodulation of the dump; either may be NULL
static size_t bits_check(const struct cli *c, const struct rxp *p, const struct mc_file *d, const struct mc_file *s, bool stream, bool exact) {
    static int8_t ref[20000]; int64_t lo = 0, hi = 0; size_t n = 0;
    if (p->tle) starts(c, p->file, p->start, &lo, &hi);
    for (int64_t t = lo; t <= hi; t++) {
        n = ref_demod_at(p, (const void *) d->data, d->len / 8, cfg.buffer_size, t, ref, sizeof ref);
        if (n == (size_t) -1) { mc_fail(K_ORACLE, "C15", "%s: a session with an orbit that has no position", c->name); return 0; }
        if ((!s || same_stream((const int8_t *) s->data, s->len, ref, n, true)) && (!stream || same_stream((const int8_t *) c->st, c->nst, ref, n, exact))) { if (p->tle && n) mc_hit("Doppler corrected bits compared"); return n; }
    }
    if (p->tle) mc_fail(K_ORACLE, "C15", "%s: the bits are no demodulation of the Doppler corrected samples", c->name);
    if (s) cmp_stream("C08", c->name, "demodulated file", (const int8_t *) s->data, s->len, ref, n, true);
    if (stream) cmp_stream("C08", c->name, "stream", (const int8_t *) c->st, c->nst, ref, n, exact);
    return n;
}
static size_t ref_mod_at(const struct txp *p, int from, int nbytes, uint32_t bufsz, int64_t start, float complex *out, size_t max) {
    int save = in_mc; in_mc = 0;
    gfsk_mod *m = NULL; doppler *dp = NULL; size_t total = 0;
    gfsk_mod_create((float) ((double) p->rate / p->baud), (float) (2 * M_PI * (double) p->dev / (double) p->rate), 0.5F, bufsz, &m);
    if (p->tle) { dp = ref_dopp(p->tle, p->lat, p->lon, p->alt, p->rate, p->center, p->offset, start, 8 * (uint32_t) (p->rate / p->baud) * bufsz); if (!dp) { gfsk_mod_destroy(m); in_mc = save; return (size_t) -1; } }
    uint8_t *b = mcw_malloc(bufsz);
    for (int i = 0; i < nbytes; ) {
        int k = nbytes - i < (int) bufsz ? nbytes - i : (int) bufsz;
        for (int j = 0; j < k; j++) b[j] = tx_byte(from + i + j);
        float complex *o = NULL; size_t on = 0;
        gfsk_mod_process(b, k, &o, &on, m);
        if (dp) { float complex *q; doppler_process_tx(o, on, &q, &on, dp); o = q; }
        for (size_t j = 0; j < on && total < max; j++) out[total++] = o[j];
        i += k;
    }
    mcw_free(b);
    gfsk_mod_destroy(m); doppler_destroy(dp);
    in_mc = save;
    if (!p->tle && p->offset) for (size_t j = 0; j < total; j++) { double a = 2 * M_PI * fmod((double) p->offset * j, (double) p->rate) / p->rate; out[j] *= (float) cos(a) + I * (float) sin(a); }
    return total;
}
static size_t ref_mod(const struct txp *p, int from, int nbytes, uint32_t bufsz, float complex *out, size_t max) { return ref_mod_at(p, from, nbytes, bufsz, p->start ? p->start : mc_now() / 1000, out, max); }

// ------------------------------------------------------------------ checks of sessions
static struct rxp RXP[NCLI]; static struct txp TXP[NCLI];
static void run_request(struct cli *c, struct enc *f) { stage(c, ST_SENT); c->t_req = mc_now(); if (cl_send(c, f->b, f->n)) { } }
static struct rxp *P(struct cli *c) { return &RXP[c - CL]; }

// checks the outputs of an accepted and ended receive session
static void rx_check(struct cli *c, int ci, bool to_end, bool stream_complete) {
    if (!c->got || c->status != 0) return;
    struct rxp *p = P(c);
    struct mc_file *d = fget(OUTDIR "/rx.sdr2demod.%d.cf32", c->details), *s = fget(OUTDIR "/rx.demod2client.%d.s8", c->details);
    if (!d) { mc_fail(K_ORACLE, "C04", "client %s: no dump for the session identifier %u that was answered", c->name, c->details); return; }
    if (ci >= 0) {
        if (check_run("C08", c->name, d, ci, SD[ci].ended || SD[ci].sent ? (SD[ci].ended ? SD[ci].sent : SDC.nsamples) : SDC.nsamples, to_end) < 0) return;
    }
    if (p->dest != 1 && !s) { mc_fail(K_ORACLE, "C08", "client %s: no demodulated file", c->name); return; }
    if (p->dest == 1 && s) { mc_fail(K_ORACLE, "C08", "client %s: a demodulated file that was not asked for", c->name); return; }
    if (p->dest == 0 && c->nst) mc_fail(K_ORACLE, "C04", "client %s: %zu bytes after the answer although only a file was asked for", c->name, c->nst);
    bits_check(c, p, d, s, p->dest != 0, stream_complete);
    if (d->len) mc_hit("samples processed");
    if (c->nst) mc_hit("stream received");
}
static bool want_ok(struct cli *c) {
    if (c->refused) return false;
    if (!c->got) { mc_fail(K_ORACLE, "C04", "client %s: the connection ended without an answer", c->name); return false; }
    if (c->status != 0) { mc_fail(K_ORACLE, "C05", "client %s: a valid request was refused with details %u", c->name, c->details); return false; }
    return true;
}
static void ping_alive(void) {   // the server still serves new clients
    struct cli *c = &CL[7];
    cl_connect(c);
    static const uint8_t h[6] = {0, 3, 0, 0, 0, 0};
    if (c->refused) { mc_fail(K_ORACLE, "C02", "the server does not accept clients any more"); return; }
    cl_send(c, h, 6);
    if (!cl_response(c)) mc_fail(K_ORACLE, "C02", "the server does not answer a ping any more");
    cl_eof(c); cl_close(c);
}

static bool flag_set(void *a) { return *(int *) a; }
static void set_flag(int *f) { *f = 1; mc_event((uint64_t) f, 1); }
static void wait_flag(int *f, const char *l) { mc_op(flag_set, f, -1, l); mc_event((uint64_t) f, 2); }
static int tx_sizes[8], tx_n; static int tx_total;
static void cmp_cf(const char *prop, const char *what, const struct mc_file *f, const float complex *ref, size_t n) {
    if (!f) { mc_fail(K_ORACLE, prop, "%s: missing", what); return; }
    if (f->len != n * 8) { mc_fail(K_ORACLE, prop, "%s: %zu samples, expected %zu", what, f->len / 8, n); return; }
    const float complex *d = (const void *) f->data;
    for (size_t i = 0; i < n; i++) if (!(cabsf(d[i] - ref[i]) < 2e-3)) { mc_fail(K_ORACLE, prop, "%s: sample %zu is %g%+gi, expected %g%+gi", what, i, crealf(d[i]), cimagf(d[i]), crealf(ref[i]), cimagf(ref[i])); return; }
}
static bool same_cf(const struct mc_file *f, const float complex *ref, size_t n) {
    if (!f || f->len != n * 8) return false;
    const float complex *d = (const void *) f->data;
    for (size_t i = 0; i < n; i++) if (!(cabsf(d[i] - ref[i]) < 2e-3)) return false;
    return true;
}
// what must have been transmitted for nbytes bytes; f: something it can be compared with (the start of the correction may be any second of the session)
static size_t tx_expect(const struct cli *c, const struct txp *p, int nbytes, const struct mc_file *f, float complex *ref, size_t max) {
    int64_t lo = 0, hi = 0; size_t n = 0;
    if (p->tle) starts(c, p->file, p->start, &lo, &hi);
    for (int64_t t = lo; t <= hi; t++) {
        n = ref_mod_at(p, 0, nbytes, cfg.buffer_size, t, ref, max);
        if (n == (size_t) -1) { mc_fail(K_ORACLE, "C15", "%s: a session with an orbit that has no position", c->name); return 0; }
        if (!p->tle || same_cf(f, ref, n)) { if (p->tle && n) mc_hit("Doppler corrected samples compared"); return n; }
    }
    mc_fail(K_ORACLE, "C15", "%s: the samples are no modulation with Doppler correction", c->name);
    return n;
}
static void tx_check(struct cli *c, const char *file) {
    static float complex ref[300000];
    struct txp *p = &TXP[c - CL]; int acked = 0;
    for (int i = 0; i < c->nfr; i++) { if (c->fst[i] == 0) acked += tx_sizes[i]; else mc_fail(K_ORACLE, "C09", "client %s: message %d was answered with failure %u", c->name, i, c->fdet[i]); }
    struct mc_file *dump = p->dump ? fget(OUTDIR "/tx.mod2sdr.%d.cf32", c->details) : NULL;
    size_t n = tx_expect(c, p, acked, file ? mc_file_get(file) : dump, ref, 300000);
    if (file) cmp_cf("C09", "transmitted samples", mc_file_get(file), ref, n);
    if (p->dump) cmp_cf("C09", "dump of the transmitted samples", dump, ref, n);
    if (acked) mc_hit("data transmitted");
}
