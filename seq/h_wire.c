// C24, C23: the wire encoding of requests and answers, against an encoder and decoder written from api.proto
#include "seqrt.h"
#include "api_utils.h"
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/socket.h>
#include <arpa/inet.h>
#include <errno.h>
#include <signal.h>
typedef uint64_t u64; typedef uint8_t u8;
// ---------------------------------------------------------------- schema
enum { VAR, STR, MSG };
struct fld { int no, kind; bool required, repeated; const struct fld *sub; };
static const struct fld DOP[] = {{1, STR, false, true}, {2, VAR, true}, {3, VAR, true}, {4, VAR, true}, {0}};
static const struct fld FSKD[] = {{1, VAR, true}, {2, VAR, true}, {3, VAR, true}, {0}};
static const struct fld FSKM[] = {{1, VAR, true}, {0}};
static const struct fld FIL[] = {{1, STR, true}, {2, VAR, true}, {0}};
static const struct fld RX[] = {{1, VAR, true}, {2, VAR, true}, {3, VAR, true}, {4, VAR, true}, {5, VAR, true}, {6, VAR, true}, {7, VAR, true}, {8, VAR, true}, {9, MSG, false, false, DOP}, {10, MSG, false, false, FSKD}, {11, MSG, false, false, FIL}, {0}};
static const struct fld TX[] = {{1, VAR, true}, {2, VAR, true}, {3, VAR, true}, {4, VAR, true}, {5, VAR, true}, {6, VAR, true}, {7, MSG, false, false, DOP}, {8, MSG, false, false, FSKM}, {9, MSG, false, false, FIL}, {0}};
// a message: for every field a value; what is not set is absent
struct val { bool set; u64 v; char s[5][400]; int ns; struct val *sub; };
static struct val pool[64]; static int npool;
static struct val *mk(void) { struct val *v = &pool[npool]; npool += 12; memset(v, 0, sizeof(struct val) * 12); return v; }   // indexed by field number
static struct val *dflt(const struct fld *f) {
    struct val *m = mk();
    for (; f->no; f++) {
        struct val *v = &m[f->no]; v->set = true;
        if (f->kind == VAR) v->v = f->no == 5 ? 1 : f->no == 3 ? 1 : 100 + f->no;
        if (f == &RX[7]) v->v = 2;
        if (f->kind == STR) { v->ns = f->repeated ? 3 : 1; for (int i = 0; i < v->ns; i++) snprintf(v->s[i], sizeof v->s[i], "text %d", i); }
        if (f->kind == MSG) v->sub = dflt(f->sub);
    }
    return m;
}
// ---------------------------------------------------------------- encoder
static u8 buf[70000]; static size_t bn;
static int pad;   // extra bytes in a varint
static void vi(u64 v, int p) { int n = 0; do { u8 b = v & 0x7f; v >>= 7; n++; bool more = v || (p > 0 && n < 10); if (!v && more) p--; buf[bn++] = b | (more ? 0x80 : 0); if (!more) break; } while (1); }
struct enc { int order, dup, dupkind, unk, unkkind, padf; };   // how the top level message is written
static void enc_fields(const struct fld *F, struct val *m, const int *ord, int n, const struct enc *e);
static void enc_one(const struct fld *f, struct val *v, int p) {
    if (!v->set) return;
    if (f->kind == VAR) { vi(f->no << 3, 0); vi(v->v, p); }
    if (f->kind == STR) for (int i = 0; i < v->ns; i++) { vi(f->no << 3 | 2, 0); size_t k = strlen(v->s[i]); vi(k, p); memcpy(buf + bn, v->s[i], k); bn += k; }
    if (f->kind == MSG) {
        vi(f->no << 3 | 2, 0); size_t at = bn; 
        int n = 0, ord[12]; for (const struct fld *g = f->sub; g->no; g++) ord[n++] = n;
        enc_fields(f->sub, v->sub, ord, n, NULL);
        static u8 tmp[70000]; size_t k = bn - at; memcpy(tmp, buf + at, k); bn = at; vi(k, p); memcpy(buf + bn, tmp, k); bn += k;
    }
}
static void unknown(int kind) {
    switch (kind) {
        case 0: vi(15 << 3, 0); vi(~0ull, 0); break;
        case 1: vi(15 << 3 | 1, 0); memset(buf + bn, 0x11, 8); bn += 8; break;
        case 2: vi(15 << 3 | 2, 0); vi(200, 0); memset(buf + bn, 0x08, 200); bn += 200; break;
        case 3: vi(15 << 3 | 5, 0); memset(buf + bn, 0x22, 4); bn += 4; break;
        case 4: vi(3000 << 3 | 2, 0); vi(0, 0); break;
        case 5: vi(536870911ull << 3, 0); vi(1, 3); break;
    }
}
static void enc_fields(const struct fld *F, struct val *m, const int *ord, int n, const struct enc *e) {
    for (int i = 0; i < n; i++) {
        const struct fld *f = &F[ord[i]];
        if (e && e->unk == i) unknown(e->unkkind);
        if (e && e->dup == ord[i] && f->kind == VAR) { vi(f->no << 3, 0); vi(e->dupkind ? 0 : 77, 0); }           // the last one counts
        if (e && e->dup == ord[i] && f->kind == MSG) {                                                              // the parts are merged
            struct val save = m[f->no], *sub = mk(); save.sub = sub; save.set = true;
            for (const struct fld *g = f->sub; g->no; g++) if (g->kind == VAR) { sub[g->no].set = true; sub[g->no].v = 9; } else if (!g->repeated) { sub[g->no].set = true; sub[g->no].ns = 1; strcpy(sub[g->no].s[0], "overridden"); }
            enc_one(f, &save, 0);
        }
        enc_one(f, &m[f->no], e && e->padf == ord[i] ? 1 + e->dupkind * 2 : 0);
    }
    if (e && e->unk == n) unknown(e->unkkind);
}
// ---------------------------------------------------------------- decoding by the code under test
static int sv[2];
static void push(int type, const void *b, size_t n) {
    if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) { perror("socketpair"); _exit(3); }
    int big = 1 << 20; setsockopt(sv[0], SOL_SOCKET, SO_SNDBUF, &big, sizeof big); 
    u8 h[6] = {0, type, n >> 24, n >> 16, n >> 8, n};
    if (write(sv[0], h, 6) != 6 || (n && write(sv[0], b, n) != (ssize_t) n)) { perror("write"); _exit(3); }
    shutdown(sv[0], SHUT_WR);
}
static void drained(const char *what) { char c; if (!sq_oom_hit && recv(sv[1], &c, 1, 0) != 0) sq_fail("C24", "%s: the message was not read to its end", what); close(sv[0]); close(sv[1]); }
static void hdr(struct message_header *h, int type, size_t n) {
    memset(h, 0xee, sizeof *h); int c = api_utils_read_header(sv[1], h);
    if (c || h->protocol_version != 0 || h->type != type || h->message_length != n) sq_fail("C24", "header (0, %d, %zu) is read as %d: (%d, %d, %u)", type, n, c, h->protocol_version, h->type, h->message_length);
}
#define EQ(name, a, w) do { u64 a_ = (u64) (a), w_ = (u64) (w); if (a_ != w_) sq_fail("C24", "%s is decoded as %llu instead of %llu", name, (unsigned long long) a_, (unsigned long long) w_); } while (0)
static void eqs(const char *name, const char *a, const char *w) { if (!a || strcmp(a, w)) sq_fail("C24", "%s is decoded as '%.40s' instead of '%.40s'", name, a ? a : "(null)", w); }
static void cmp_dop(DopplerSettings *d, struct val *v) {
    if ((d != NULL) != v->set) sq_fail("C24", "doppler settings are %s", d ? "made up" : "lost");
    if (!d) return;
    EQ("number of tle lines", d->n_tle, v->sub[1].set ? v->sub[1].ns : 0); for (int i = 0; i < (int) d->n_tle; i++) eqs("tle", d->tle[i], v->sub[1].s[i]);
    EQ("latitude", d->latitude, (uint32_t) v->sub[2].v); EQ("longitude", d->longitude, (uint32_t) v->sub[3].v); EQ("altitude", d->altitude, (uint32_t) v->sub[4].v);
}
static void cmp_file(FileSettings *d, struct val *v) {
    if ((d != NULL) != v->set) sq_fail("C24", "file settings are %s", d ? "made up" : "lost");
    if (d) { eqs("filename", d->filename, v->sub[1].s[0]); EQ("start_time", d->start_time_seconds, v->sub[2].v); }
}
static bool tx_;
static int try_decode(struct val *m, bool check) {   // 0 accepted
    struct message_header h; push(tx_ ? 5 : 0, buf, bn); hdr(&h, tx_ ? 5 : 0, bn); int code;
    if (tx_) {
        struct TxRequest *r = NULL; code = api_utils_read_tx_request(sv[1], &h, &r);
        if (code == 0 && check) {
            EQ("tx_center_freq", r->tx_center_freq, m[1].v); EQ("tx_sampling_freq", r->tx_sampling_freq, m[2].v); EQ("tx_dump_file", r->tx_dump_file, m[3].v != 0); EQ("tx_offset", r->tx_offset, m[4].v);
            EQ("mod_type", (uint32_t) r->mod_type, (uint32_t) m[5].v); EQ("mod_baud_rate", r->mod_baud_rate, (uint32_t) m[6].v); cmp_dop(r->doppler, &m[7]); cmp_file(r->file_settings, &m[9]);
            if ((r->fsk_settings != NULL) != m[8].set) sq_fail("C24", "fsk settings are %s", r->fsk_settings ? "made up" : "lost");
            if (r->fsk_settings) EQ("mod_fsk_deviation", r->fsk_settings->mod_fsk_deviation, m[8].sub[1].v);
        }
        if (code == 0) tx_request__free_unpacked(r, NULL); else if (r) sq_fail("C24", "a refused request left an object");
    } else {
        struct RxRequest *r = NULL; code = api_utils_read_rx_request(sv[1], &h, &r);
        if (code == 0 && check) {
            EQ("rx_center_freq", r->rx_center_freq, m[1].v); EQ("rx_sampling_freq", r->rx_sampling_freq, m[2].v); EQ("rx_dump_file", r->rx_dump_file, m[3].v != 0); EQ("rx_offset", r->rx_offset, m[4].v);
            EQ("demod_type", (uint32_t) r->demod_type, (uint32_t) m[5].v); EQ("demod_baud_rate", r->demod_baud_rate, (uint32_t) m[6].v); EQ("demod_decimation", r->demod_decimation, (uint32_t) m[7].v); EQ("demod_destination", (uint32_t) r->demod_destination, (uint32_t) m[8].v);
            cmp_dop(r->doppler, &m[9]); cmp_file(r->file_settings, &m[11]);
            if ((r->fsk_settings != NULL) != m[10].set) sq_fail("C24", "fsk settings are %s", r->fsk_settings ? "made up" : "lost");
            if (r->fsk_settings) { EQ("demod_fsk_deviation", r->fsk_settings->demod_fsk_deviation, m[10].sub[1].v); EQ("demod_fsk_transition_width", r->fsk_settings->demod_fsk_transition_width, (uint32_t) m[10].sub[2].v); EQ("demod_fsk_use_dc_block", r->fsk_settings->demod_fsk_use_dc_block, m[10].sub[3].v != 0); }
        }
        if (code == 0) rx_request__free_unpacked(r, NULL); else if (r) sq_fail("C24", "a refused request left an object");
    }
    sq_step(); drained(tx_ ? "transmit request" : "receive request"); sq_no_leaks("C24"); sq_state(sq_hash(buf, bn, tx_)); sq_outcome(sq_hash(&code, 4, bn)); sq_hit(code ? "refused" : "accepted");
    return code;
}
static int count(const struct fld *F) { int n = 0; while (F[n].no) n++; return n; }
static const struct fld *FL(void) { return tx_ ? TX : RX; }
static void order(int *o, int n, int k) { for (int i = 0; i < n; i++) o[i] = k == 0 ? i : k == 1 ? n - 1 - i : (i + k - 1) % n; }
// every field with every boundary value, in every presence of the optional parts
static const u64 VALS[] = {0, 1, 2, 127, 128, 255, 256, 16383, 16384, 2147483647, 2147483648ull, 4294967295ull, 4294967296ull, 9223372036854775807ull, 9223372036854775808ull, 18446744073709551615ull};
static u64 clip(int no, int sub, u64 v) {   // into the range of the type
    bool w64 = sub ? false : no == 1 || no == 2 || no == 4; if (w64) return v;
    return v;
}
static void sc_values(int root) {
    npool = 0; tx_ = root & 1; const struct fld *F = FL(); int n = count(F); struct val *m = dflt(F);
    int opt = sq_choose(8, "optional parts"); for (int i = 0; i < 3; i++) m[F[n - 3 + i].no].set = opt >> i & 1;
    int which = root >> 1; struct val *t = NULL; const struct fld *tf = NULL; int k = 0; bool w64 = false, isbool = false, isenum = false;
    for (int i = 0; i < n; i++) { if (F[i].kind != MSG) { if (k++ == which) { t = &m[F[i].no]; tf = &F[i]; w64 = F[i].no == 1 || F[i].no == 2 || F[i].no == 4; isbool = F[i].no == 3; isenum = F[i].no == 5 || F[i].no == 8; } } else for (const struct fld *g = F[i].sub; g->no; g++) if (k++ == which) { if (!m[F[i].no].set) return; t = &m[F[i].no].sub[g->no]; tf = g; w64 = (F[i].sub == FIL && g->no == 2) || ((F[i].sub == FSKD || F[i].sub == FSKM) && g->no == 1); isbool = F[i].sub == FSKD && g->no == 3; } }
    if (!t) return;
    if (tf->kind == VAR) {
        u64 v = VALS[sq_choose(16, "value")]; t->v = v;
        if (isbool && v > 1) return;
        if (isenum && v > 2147483647) { if (v < 18446744073709551615ull) return; }
        if (!isenum && !w64 && v > 4294967295ull) return;
        sq_note("%s field %d of part %d = %llu, optional parts %x", tx_ ? "tx" : "rx", tf->no, which, (unsigned long long) v, opt);
    } else {
        static const int LEN[] = {0, 1, 68, 69, 70, 79, 80, 81, 127, 128, 300};
        int len = LEN[sq_choose(11, "text length")]; if (tf->repeated) t->ns = sq_choose(6, "number of texts");
        int what = sq_choose(3, "text content"); for (int i = 0; i < t->ns; i++) { for (int c = 0; c < len; c++) t->s[i][c] = what == 0 ? 'a' + (c + i) % 26 : what == 1 ? ' ' : (char) (1 + (c * 7 + i) % 127); t->s[i][len] = 0; }
        sq_note("%s text field %d: %d texts of %d characters", tx_ ? "tx" : "rx", tf->no, t->ns, len);
    }
    int ord[12]; order(ord, n, 0); bn = 0; enc_fields(F, m, ord, n, NULL);
    if (try_decode(m, true)) sq_fail("C24", "a well formed request was refused");
}
// the same message written in every way
static void sc_forms(int root) {
    npool = 0; tx_ = root & 1; const struct fld *F = FL(); int n = count(F); struct val *m = dflt(F); int ord[12]; order(ord, n, root >> 1);
    if (root >> 1 > n) return;
    struct enc e = {0, sq_choose(n + 1, "repeated field") - 1, 0, -1, 0, -1}; e.dupkind = sq_choose(2, "form");
    e.unk = sq_choose(n + 2, "unknown field at") - 1; if (e.unk >= 0) e.unkkind = sq_choose(6, "unknown field"); e.padf = sq_choose(n + 1, "long form of a number") - 1;
    bn = 0; enc_fields(F, m, ord, n, &e); sq_note("%s order %d, field %d repeated, unknown field at %d, long form of %d", tx_ ? "tx" : "rx", root >> 1, e.dup, e.unk, e.padf);
    if (try_decode(m, true)) sq_fail("C24", "a well formed request was refused");
}
// two messages in which one required part is missing, and everything cut off
static void sc_missing(int root) {
    npool = 0; tx_ = root & 1; const struct fld *F = FL(); int n = count(F); struct val *m = dflt(F); int k = 0, which = root >> 1; bool hit = false, req = false, rep = false;
    for (int i = 0; i < n; i++) { if (k++ == which) { m[F[i].no].set = false; hit = true; req = F[i].required; } if (F[i].kind == MSG) for (const struct fld *g = F[i].sub; g->no; g++) if (k++ == which) { m[F[i].no].sub[g->no].set = false; hit = true; req = g->required; rep = g->repeated; } }
    if (!hit) return; (void) rep;
    int ord[12]; order(ord, n, sq_choose(2, "order")); bn = 0; enc_fields(F, m, ord, n, NULL);
    sq_note("%s without part %d", tx_ ? "tx" : "rx", which);
    int c = try_decode(m, !req);
    if (req && c == 0) sq_fail("C24", "a request without a required part was accepted");
    if (!req && c) sq_fail("C24", "a request without an optional part was refused");
}
static void sc_cut(int root) {
    npool = 0; tx_ = root & 1; const struct fld *F = FL(); int n = count(F); struct val *m = dflt(F); int ord[12]; order(ord, n, root >> 1); if (root >> 1 > n) return;
    bn = 0; enc_fields(F, m, ord, n, NULL); size_t full = bn; size_t ends[13]; bn = 0; size_t lastreq = 0; for (int i = 0; i < n; i++) { enc_one(&F[ord[i]], &m[F[ord[i]].no], 0); ends[i] = bn; if (F[ord[i]].required) lastreq = bn; }
    size_t at = sq_choose(full + 1, "cut"); bool boundary = at == 0; for (int i = 0; i < n; i++) boundary |= ends[i] == at;
    bn = at; sq_note("%s order %d cut at %zu of %zu", tx_ ? "tx" : "rx", root >> 1, at, full);
    bool want = boundary && at >= lastreq;
    int c = try_decode(m, at == full);
    if (want && c) sq_fail("C24", "a complete request was refused"); if (!want && c == 0) sq_fail("C24", "a truncated request was accepted");
}
// every byte replaced by every value: no foreign memory, nothing left behind
static void sc_garble(int root) {
    npool = 0; tx_ = root & 1; const struct fld *F = FL(); int n = count(F); struct val *m = dflt(F); int ord[12]; order(ord, n, 0);
    for (int i = 0; i < n; i++) if (F[i].kind == MSG) for (const struct fld *g = F[i].sub; g->no; g++) if (g->kind == STR) for (int k = 0; k < m[F[i].no].sub[g->no].ns; k++) m[F[i].no].sub[g->no].s[k][2] = 0;
    bn = 0; enc_fields(F, m, ord, n, NULL); size_t at = root >> 1; if (at >= bn) return;
    int kind = sq_choose(3, "replace, insert or delete"); u8 b = kind == 2 ? 0 : sq_choose(256, "byte");
    if (kind == 0) buf[at] = b; else if (kind == 1) { memmove(buf + at + 1, buf + at, bn - at); buf[at] = b; bn++; } else { memmove(buf + at, buf + at + 1, bn - at - 1); bn--; }
    sq_note("%s byte %zu %s %d", tx_ ? "tx" : "rx", at, kind == 0 ? "=" : kind == 1 ? "before it" : "deleted", b);
    try_decode(m, false);
}
// headers: every type and version, all length bytes
static void sc_header(int root) {
    static const u8 LB[] = {0, 1, 0x7f, 0x80, 0xff}; u8 h[6] = {sq_choose(4, "version"), root, LB[sq_choose(5, "length")], LB[sq_choose(5, "length")], LB[sq_choose(5, "length")], LB[sq_choose(5, "length")]}; if (h[0] == 3) h[0] = 255;
    socketpair(AF_UNIX, SOCK_STREAM, 0, sv); int n = 6; if (h[0] == 2) n = sq_choose(7, "bytes of the header"); if (write(sv[0], h, n) != n) _exit(3); shutdown(sv[0], SHUT_WR);
    struct message_header r; memset(&r, 0xee, sizeof r); int c = api_utils_read_header(sv[1], &r); sq_step();
    if (n == 6) { uint32_t len = (uint32_t) h[2] << 24 | h[3] << 16 | h[4] << 8 | h[5]; if (c || r.protocol_version != h[0] || r.type != h[1] || r.message_length != len) sq_fail("C24", "header %02x%02x%02x%02x%02x%02x is read as %d: %d %d %u", h[0], h[1], h[2], h[3], h[4], h[5], c, r.protocol_version, r.type, r.message_length); }
    else if (c == 0) sq_fail("C24", "a header of %d bytes was accepted", n);
    drained("header"); sq_state(sq_hash(h, 6, n)); sq_outcome(c);
}
// answers
static void sc_answer(int root) {
    static const uint32_t DET[] = {0, 1, 2, 3, 4, 5, 6, 127, 128, 300, 16383, 16384, 2097151, 2097152, 268435455, 268435456, 2147483647, 2147483648u, 4294967295u};
    uint32_t det = DET[root]; int st = sq_choose(2, "status"); socketpair(AF_UNIX, SOCK_STREAM, 0, sv); 
    int c = api_utils_write_response(sv[1], st, det); sq_step(); if (c) sq_fail("C24", "an answer was not written"); shutdown(sv[1], SHUT_WR);
    u8 b[100]; ssize_t n = read(sv[0], b, sizeof b); uint32_t len = n < 6 ? 0 : (uint32_t) b[2] << 24 | b[3] << 16 | b[4] << 8 | b[5];
    if (n < 6 || b[0] != 0 || b[1] != 2 || (ssize_t) len != n - 6) sq_fail("C24", "the frame of an answer is wrong (%zd bytes, version %d, type %d, length %u)", n, b[0], b[1], len);
    bool s1 = false, s2 = false; size_t at = 6; while (at < n) { u64 key = 0, v = 0; int sh = 0; do { key |= (u64) (b[at] & 0x7f) << sh; sh += 7; } while (b[at++] & 0x80 && at < n); sh = 0; do { v |= (u64) (b[at] & 0x7f) << sh; sh += 7; } while (b[at++] & 0x80 && at < n); if (key == 8 && !s1) { s1 = true; EQ("status", v, st); } else if (key == 16 && !s2) { s2 = true; EQ("details", v, det); } else sq_fail("C24", "an answer has another field (%llu)", (unsigned long long) key); }
    if (at != n || !s1 || !s2) sq_fail("C24", "an answer lacks a field");
    sq_note("answer %d %u", st, det); close(sv[0]); close(sv[1]); sq_no_leaks("C24"); sq_state(sq_hash(b, n, 0)); sq_outcome(n);
    // the connection is gone
    signal(SIGPIPE, SIG_IGN); socketpair(AF_UNIX, SOCK_STREAM, 0, sv); close(sv[0]); if (api_utils_write_response(sv[1], st, det) == 0) sq_fail("C24", "an answer on a closed connection is reported as written"); close(sv[1]); sq_no_leaks("C24");
}
// transmit data of every size up to the limit
static void sc_data(int root) {
    int n = root <= 260 ? root : root == 261 ? 16380 : root == 262 ? 32764 : root == 263 ? 32765 : root == 264 ? 40000 : 32766 + root - 265; npool = 0; bn = 0;
    int form = sq_choose(3, "form"); if (form == 1) unknown(2); if (form == 2) { vi(1 << 3 | 2, 0); vi(3, 0); memcpy(buf + bn, "xyz", 3); bn += 3; }
    vi(1 << 3 | 2, 0); vi(n, 0); for (int i = 0; i < n; i++) buf[bn++] = i * 7 + n; if (form == 1) unknown(0);
    sq_note("data of %d bytes (form %d)", n, form); struct message_header h; push(4, buf, bn); hdr(&h, 4, bn);
    struct TxData *r = NULL; int c = api_utils_read_tx_data(sv[1], &h, &r); sq_step(); bool fits = bn <= 32768;
    if ((c == 0) != fits) sq_fail("C24", "a data message of %zu bytes was %s", bn, c ? "refused" : "accepted");
    if (c == 0) { if ((int) r->data.len != n) sq_fail("C24", "data of %d bytes is decoded to %zu", n, r->data.len); for (int i = 0; i < n; i++) if (r->data.data[i] != (u8) (i * 7 + n)) sq_fail("C24", "byte %d of the data is changed", i); tx_data__free_unpacked(r, NULL); }
    drained("data"); sq_no_leaks("C24"); sq_state(sq_hash(&n, 4, form)); sq_outcome(c);
}
static void sc_skip(int root) {
    static const int L[] = {0, 1, 2, 1023, 1024, 1025, 2048, 3000, 40000}; int n = L[root], more = sq_choose(3, "following bytes"), miss = n ? sq_choose(2, "one byte missing") : 0;
    socketpair(AF_UNIX, SOCK_STREAM, 0, sv); static u8 b[50000]; if (write(sv[0], b, n - miss + (miss ? 0 : more)) < 0) _exit(3); shutdown(sv[0], SHUT_WR);
    struct message_header h = {0, 9, n}; int c = api_utils_skip_message(sv[1], &h); sq_step(); if ((c == 0) == miss) sq_fail("C24", "skipping %d bytes with %d missing: %d", n, miss, c);
    if (!miss) { u8 t[10]; if (recv(sv[1], t, 10, 0) != more) sq_fail("C24", "skipping %d bytes did not stop at the next message", n); }
    close(sv[0]); close(sv[1]); sq_state(n * 10 + more); sq_outcome(c);
}
static void sc_tle(int root) {
    char *in[3]; char (*out)[80] = malloc(240); memset(out, 0x55, 240); int ln[3]; for (int i = 0; i < 3; i++) { ln[i] = (i == 0 ? root : (int[]) {0, 69, 79, 80, 81, 300}[sq_choose(6, "length")]); in[i] = malloc(ln[i] + 1); memset(in[i], 'a' + i, ln[i]); in[i][ln[i]] = 0; }
    api_utils_convert_tle(in, out); sq_step();
    for (int i = 0; i < 3; i++) { for (int k = 0; k < 80; k++) { if (k < ln[i] && k < 79 && out[i][k] != 'a' + i) sq_fail("C24", "character %d of line %d is lost", k, i); } if (ln[i] < 80 && out[i][ln[i]]) sq_fail("C24", "line %d of %d characters is not ended", i, ln[i]); free(in[i]); }
    free(out); sq_state(ln[0] * 1000 + ln[1]); sq_outcome(ln[2]);
}
static void sc_oom(int root) {
    npool = 0; tx_ = root & 1; const struct fld *F = FL(); int n = count(F); struct val *m = dflt(F); int ord[12]; order(ord, n, 0); bn = 0; sq_cfg.oom = 1;
    if (root < 2) { enc_fields(F, m, ord, n, NULL); int c = try_decode(m, true); if (c && !sq_oom_hit) sq_fail(NULL, "a well formed request was refused"); if (!c && sq_oom_hit) sq_fail("C23", "a request is accepted without memory"); sq_no_leaks("C23"); return; }
    if (root == 2) {
        vi(1 << 3 | 2, 0); vi(100, 0); bn += 100; struct message_header h; push(4, buf, bn); hdr(&h, 4, bn); struct TxData *r = NULL; int c = api_utils_read_tx_data(sv[1], &h, &r);
        if ((c != 0) != (sq_oom_hit != 0)) sq_fail("C23", "data decoded without memory: %d", c); if (!c) tx_data__free_unpacked(r, NULL);
    } else { socketpair(AF_UNIX, SOCK_STREAM, 0, sv); int c = api_utils_write_response(sv[1], 0, 7); if ((c != 0) != (sq_oom_hit != 0)) sq_fail("C23", "an answer written without memory: %d", c); }
    close(sv[0]); close(sv[1]); sq_step(); sq_no_leaks("C23"); sq_state(root); sq_outcome(sq_oom_hit);
}
struct sq_scen sq_scenarios[] = {
    {"values of every field", "C24", sc_values, 44, 44, 60}, {"every form of a request", "C24", sc_forms, 24, 24, 90}, {"missing parts", "C24", sc_missing, 48, 48, 30}, {"cut requests", "C24", sc_cut, 24, 24, 30},
    {"garbled requests", "C24", sc_garble, 400, 400, 90}, {"headers", "C24", sc_header, 256, 256, 60}, {"answers", "C24", sc_answer, 19, 19, 30}, {"data messages", "C24", sc_data, 268, 268, 30}, {"skipped messages", "C24", sc_skip, 9, 9, 30}, {"orbit lines", "C24", sc_tle, 100, 301, 30},
    {"decoding without memory", "C23", sc_oom, 4, 4, 30},
};
int sq_n_scenarios = sizeof sq_scenarios / sizeof *sq_scenarios;
