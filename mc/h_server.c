// h_server.c: the complete server with scripted clients, a mock SDR server and simulated files.
#include "srv.h"
bool mc_fault(int bit, const char *what);
static bool radio_call(const char *c);
static int radio_len(int n);
#define FI_FAULT(c) radio_call(c)
#define FI_BAD(...) (mc_fail(K_ORACLE, "C17", __VA_ARGS__), mc_fail(K_ORACLE, strstr(#__VA_ARGS__, "a second buffer") ? "C06" : "C11", __VA_ARGS__))
#define FI_RX_LEN(n) radio_len(n)
#define FI_POINT(w) do { if (!strcmp(w, "destroy") || !strcmp(w, "disable")) mc_yield("radio"); mc_event(0xF1F1, 1); } while (0)
#include "../ref/fakeiio.h"

// ---------------------------------------------------------------- receive
// files of an earlier run of the server: they are replaced
static void old_file(const char *n) { static char junk[4000]; memset(junk, 0x31, sizeof junk); mc_file_put(n, junk, sizeof junk); }
static int expect_bits = 40;
static void *rx_client(void *a) {      // receives, says good bye, waits for the end
    struct cli *c = a;
    cl_connect(c);
    if (c->refused) return NULL;
    run_request(c, rx_frame(P(c)));
    if (cl_response(c)) { cl_read(c, expect_bits, 20000); if ((mc_faulted & FAULT_THREAD) && !c->nst && !c->eof) mc_fail(K_ORACLE, "C08", "%s: accepted, but its work could not be started and the client is left waiting", c->name); cl_bye(c); }
    cl_eof(c);
    cl_close(c);
    return NULL;
}
static void *rx_client_drain(void *a) {   // receives until nothing comes any more
    struct cli *c = a;
    cl_connect(c);
    if (c->refused) return NULL;
    run_request(c, rx_frame(P(c)));
    if (cl_response(c)) { cl_read(c, sizeof c->st, 60000); cl_bye(c); }
    cl_eof(c);
    cl_close(c);
    return NULL;
}
static bool abort_now(struct cli *c, int k) { static int n; (void) c; return n++ == k; }
static int abort_at;
static void *rx_abort_client(void *a) {   // the same script, cut at any step
    struct cli *c = a; struct enc *f = rx_frame(P(c));
    int k = mc_choose(8, 0, "where the client disconnects");
    abort_at = k;
    cl_connect(c);
    if (c->refused) return NULL;
    if (k > 0) cl_send(c, f->b, 3);
    if (k > 1) cl_send(c, f->b + 3, 3);
    if (k > 2) cl_send(c, f->b + 6, 10);
    if (k > 3) { cl_send(c, f->b + 16, f->n - 16); stage(c, ST_SENT); }
    if (k > 4) { uint8_t h[3]; env_recv_full(c->c, h, 3); }
    if (k > 5) { uint8_t h[30]; env_recv(c->c, h, 30); }
    if (k > 6) { cl_bye(c); }
    cl_close(c);
    return NULL;
}
// 0..5: destination x dump; SDR streams until asked to stop
static void sc_rx(int p) {
    conf(0, 0, 64, 8);
    RXP[0] = rx_def(); RXP[0].dest = p % 3; SDC.nsamples = 150;
    if (p == 2 || p == 3) { old_file(OUTDIR "/rx.sdr2demod.0.cf32"); old_file(OUTDIR "/rx.demod2client.0.s8"); }
    start_mock(); if (!start_server()) return;
    int t = mc_spawn("client A", p >= 3 ? rx_client_drain : rx_client, &CL[0]);
    if (p >= 3) SDC.behaviour[0] = B_CLOSE_AFTER;
    mc_wait_thread(t);
    ping_alive();
    stop_server();
    end_checks();
    if (want_ok(&CL[0])) rx_check(&CL[0], 0, p >= 3, true);
    if (nsd == 1 && SDC.behaviour[0] == B_NORMAL && !SD[0].bye) mc_fail(K_ORACLE, "C16", "the SDR server was not told that the session ended");
    if (nsd == 1 && (SD[0].center != 437525000 || SD[0].band != 437525000 || SD[0].rate != 9600 || SD[0].dest != 1)) mc_fail(K_ORACLE, "C16", "the SDR server was asked for center %u band %u rate %u destination %d", SD[0].center, SD[0].band, SD[0].rate, SD[0].dest);
}
static void sc_rx_abort(int p) {
    conf(0, 0, 64, 4);
    RXP[0] = rx_def(); RXP[0].dest = p % 3; SDC.nsamples = 64;
    start_mock(); if (!start_server()) return;
    int t = mc_spawn("client A", rx_abort_client, &CL[0]);
    mc_wait_thread(t);
    if (p >= 3) ping_alive();
    stop_server();
    end_checks();
}
// the operator stops the server at any milestone of the session
static void sc_rx_stop(int p) {
    conf(0, 0, 64, 4);
    RXP[0] = rx_def(); RXP[0].dest = p; SDC.nsamples = 130;
    start_mock(); if (!start_server()) return;
    int t = mc_spawn("client A", rx_client, &CL[0]);
    wait_progress(mc_choose(6, 0, "milestone at which the server is stopped"));
    stop_server();
    mc_wait_thread(t);
    end_checks();
    if (CL[0].got && CL[0].status == 0) rx_check(&CL[0], 0, false, true);
}
// two receivers with the same tuning; they join and leave independently
static void *rx_leaver(void *a) {   // leaves abruptly after the answer or some data
    struct cli *c = a;
    cl_connect(c);
    if (c->refused) return NULL;
    run_request(c, rx_frame(P(c)));
    if (cl_response(c)) { if (mc_choose(2, 0, "leave before or after data")) cl_read(c, 20, 20000); if (mc_choose(2, 0, "abruptly or not")) { cl_bye(c); cl_eof(c); } }
    cl_close(c);
    return NULL;
}
static void sc_share(int p) {
    conf(0, 0, 64, 8);
    RXP[0] = rx_def(); RXP[1] = rx_def(); SDC.nsamples = 192;
    RXP[1].baud = 2400; RXP[1].dev = 1500;     // another mode from the same data
    if (p == 2) RXP[1].rate = 4800, RXP[1].baud = 1200, RXP[1].dev = 600, RXP[1].tw = 1000;   // a smaller rate can share as well
    expect_bits = 30;
    start_mock(); if (!start_server()) return;
    int a = mc_spawn("client A", p == 0 ? rx_leaver : rx_client, &CL[0]);
    if (p == 1 || p == 2) wait_progress(3);        // B comes while A's session exists
    int b = mc_spawn("client B", rx_client, &CL[1]);
    mc_wait_thread(a); mc_wait_thread(b);
    ping_alive();
    stop_server();
    end_checks();
    if (want_ok(&CL[1]) && nsd == 1) { if (p != 2) rx_check(&CL[1], 0, false, true); }
    if (want_ok(&CL[0]) && p && nsd == 1) rx_check(&CL[0], 0, false, true);
    if (nsd == 1) mc_hit("one SDR connection shared");
    if (nsd > 1) { mc_hit("second SDR connection"); }
    if (nsd > 2) mc_fail(K_ORACLE, "C07", "%d SDR connections for two sessions", nsd);
}
// B joins while A is certainly active: exactly one SDR connection; A leaves, B goes on
static struct { int a_attached, b_done; } SH2;
static void *rx_hold(void *a) {   // holds its session until B has been served
    struct cli *c = a;
    cl_connect(c); if (c->refused) return NULL;
    run_request(c, rx_frame(P(c)));
    bool ok = cl_response(c);
    set_flag(&SH2.a_attached);
    if (ok) { wait_flag(&SH2.b_done, "A holds"); cl_bye(c); }
    cl_eof(c); cl_close(c);
    return NULL;
}
static void *rx_joiner(void *a) {
    struct cli *c = a;
    wait_flag(&SH2.a_attached, "B waits for A");
    rx_client(c);
    set_flag(&SH2.b_done);
    return NULL;
}
static void sc_share_hold(int p) {
    conf(0, 0, 64, 8);
    RXP[0] = rx_def(); RXP[1] = rx_def(); SDC.nsamples = 128; expect_bits = 10;
    if (p == 1) RXP[1].center += 25000;     // another tuning: own connection
    if (p == 2) RXP[1].rate = 19200;        // a higher rate: own connection
    if (p == 3) RXP[1].offset = 1000;       // another offset: own connection
    if (p == 4) RXP[1].center += 25000, RXP[1].offset -= 25000;   // the same channel of another band: own connection
    if (p == 0) SDC.limit = 1;
    SDC.behaviour[0] = SDC.behaviour[1] = p == 0 ? B_ENDLESS : B_NORMAL;
    start_mock(); if (!start_server()) return;
    int a = mc_spawn("client A", rx_hold, &CL[0]), b = mc_spawn("client B", rx_joiner, &CL[1]);
    mc_wait_thread(a); mc_wait_thread(b);
    stop_server();
    end_checks();
    if (want_ok(&CL[1]) && want_ok(&CL[0])) {
        if (p && nsd != 2) mc_fail(K_ORACLE, "C07", "%d SDR connections for two different tunings", nsd);
        if (p == 0 && CL[1].nst == 0) mc_fail(K_ORACLE, "C07", "a session that shares a running stream received nothing");
        if (p) { rx_check(&CL[0], 0, false, true); rx_check(&CL[1], 1, false, true); }
        if (p && nsd == 2) {
            uint32_t wc = RXP[1].center + RXP[1].offset;
            if (SD[1].center != wc || SD[1].rate != RXP[1].rate || SD[1].band != RXP[1].center) mc_fail(K_ORACLE, "C16", "second SDR request: center %u rate %u band %u", SD[1].center, SD[1].rate, SD[1].band);
        }
    }
}
// A's session ends when its client leaves although B stays, the SDR connection only after B left
static void *rx_first_leaves(void *a) {
    struct cli *c = a;
    cl_connect(c); if (c->refused) return NULL;
    run_request(c, rx_frame(P(c)));
    bool ok = cl_response(c);
    set_flag(&SH2.a_attached);
    static int go; (void) go;
    if (ok) { wait_flag(&SH2.b_done, "A waits for B's answer"); cl_bye(c); }
    cl_eof(c); cl_close(c);
    progress += 100; mc_event(0xA11CE, 1);
    return NULL;
}
static void *rx_second_stays(void *a) {
    struct cli *c = a;
    wait_flag(&SH2.a_attached, "B waits for A");
    cl_connect(c); if (c->refused) return NULL;
    run_request(c, rx_frame(P(c)));
    bool ok = cl_response(c);
    set_flag(&SH2.b_done);
    if (ok) {
        wait_progress(100);                     // A's session is gone
        if (SD[0].ended || SD[0].bye) mc_fail(K_ORACLE, "C07", "the SDR connection was closed although a session still uses it");
        size_t n = c->nst;
        cl_read(c, c->nst + 200, 3000);          // whatever was buffered, and more: the stream goes on
        if (c->nst == n || c->eof) mc_fail(K_ORACLE, "C07", "the stream of a session stopped when another session that shares the SDR left");
        cl_bye(c);
    }
    cl_eof(c); cl_close(c);
    return NULL;
}
static void sc_share_leave(int p) {
    (void) p;
    conf(0, 0, 64, 8);
    RXP[0] = rx_def(); RXP[1] = rx_def(); SDC.nsamples = 64;
    SDC.behaviour[0] = SDC.behaviour[1] = B_ENDLESS; SDC.limit = 1;
    start_mock(); if (!start_server()) return;
    int a = mc_spawn("client A", rx_first_leaves, &CL[0]), b = mc_spawn("client B", rx_second_stays, &CL[1]);
    mc_wait_thread(a); mc_wait_thread(b);
    stop_server();
    end_checks();
    if (want_ok(&CL[0]) && want_ok(&CL[1])) {
        if (!SD[0].ended) mc_fail(K_ORACLE, "C07", "the SDR connection is still open after the last session ended");
        rx_check(&CL[1], 0, false, true);
    }
}
// a client that never reads its stream: others, its own end and the stop are not blocked
static int release_stuck;
static void *rx_stuck(void *a) {
    struct cli *c = a;
    cl_connect(c); if (c->refused) return NULL;
    run_request(c, rx_frame(P(c)));
    cl_response(c);
    set_flag(&SH2.a_attached);
    wait_flag(&SH2.b_done, "A does not read");
    if (CL[6].stage == 1) { cl_close(c); return NULL; }
    cl_bye(c);
    wait_flag(&release_stuck, "A still does not read");
    cl_close(c);
    return NULL;
}
static void *rx_other(void *a) {
    struct cli *c = a;
    wait_flag(&SH2.a_attached, "B waits for A");
    int64_t t = mc_now();
    rx_client(c);
    if (c->got && c->status == 0 && c->nst == 0) mc_fail(K_ORACLE, "C03", "a client got nothing because another one does not read");
    if (c->got && c->status == 0 && c->nst < expect_bits) mc_fail(K_ORACLE, "C07", "the stream of a client stopped after %zu bits because another one does not read", c->nst);
    if (mc_now() - t > 60000) mc_fail(K_ORACLE, "C03", "a session took %lld s because another client does not read", (long long) (mc_now() - t) / 1000);
    set_flag(&SH2.b_done);
    return NULL;
}
static void sc_noread(int p) {
    conf(0, 0, 64, 2);
    mc_cfg.sock_cap = 48;
    RXP[0] = rx_def(); RXP[1] = rx_def(); RXP[0].dest = RXP[1].dest = 1;
    if (p == 1) RXP[1].center += 25000;
    SDC.nsamples = 64; expect_bits = p == 0 ? 300 : 10;
    if (p == 0 && mc_choose(2, 0, "settings of a file")) RXP[0].file = RXP[1].file = "/sim/unused.cf32";   // they do not matter here
    SDC.behaviour[0] = SDC.behaviour[1] = B_ENDLESS;
    start_mock(); if (!start_server()) return;
    CL[6].stage = p == 3;
    int a = mc_spawn("client A", rx_stuck, &CL[0]), b = -1;
    if (p != 2 && p != 3) { b = mc_spawn("client B", rx_other, &CL[1]); mc_wait_thread(b); }
    else { wait_flag(&SH2.a_attached, "operator waits"); if (p == 3) set_flag(&SH2.b_done); }
    stop_server();
    if (p == 2) set_flag(&SH2.b_done);
    set_flag(&release_stuck);
    mc_wait_thread(a);
    end_checks();
}
// behaviours of the SDR server
static void run_request2(struct cli *c) { if (!c->c) cl_connect(c); if (!c->refused) run_request(c, rx_frame(&RXP[c - CL])); }
static void sc_sdr(int p) {
    static const int beh[] = {B_REFUSE, B_CLOSE_EARLY, B_SILENT, B_BADVER, B_BADTYPE, B_SHORT, B_MUTE_STOP, B_SLOW, B_CUT, B_CLOSE_AFTER, B_STALL, B_DEAF};
    int b = beh[p];
    conf(0, 0, 64, 8);
    mc_cfg.max_timeouts = 150;
    RXP[0] = rx_def(); RXP[1] = rx_def(); RXP[0].dest = 1; SDC.nsamples = b == B_SLOW ? 100 : 150; SDC.behaviour[0] = b; SDC.behaviour[1] = B_NORMAL; expect_bits = b == B_SLOW ? 200 : 30;
    start_mock(); if (!start_server()) return;
    if ((b == B_SILENT || b == B_STALL) && mc_choose(2, 0, "an earlier client")) ping_alive();
    int t = mc_spawn("client A", b == B_SLOW || b == B_CUT || b == B_CLOSE_AFTER ? rx_client_drain : rx_client, &CL[0]);
    mc_wait_thread(t);
    if (b == B_DEAF && mc_now() - CL[0].t_req > 60000) mc_fail(K_ORACLE, "C16", "the session needed %ld s to end because the SDR server streams on", (long) (mc_now() - CL[0].t_req) / 1000);
    int t2 = mc_spawn("client B", rx_client, &CL[1]);     // the next client gets a fresh connection
    mc_wait_thread(t2);
    stop_server();
    end_checks();
    bool fails = p < 6 || b == B_STALL;
    if (fails) {
        if (!CL[0].got) mc_fail(K_ORACLE, "C04", "no answer when the SDR server fails");
        else if (CL[0].status != 1 || CL[0].details != 3) mc_fail(K_ORACLE, "C16", "the SDR server failed to start the stream, but the answer was status %d details %u", CL[0].status, CL[0].details);
        if (!CL[0].eof) mc_fail(K_ORACLE, "C04", "connection not closed after a refusal");
    } else if (want_ok(&CL[0])) rx_check(&CL[0], 0, b == B_SLOW || b == B_CUT || b == B_CLOSE_AFTER, true);
    if (want_ok(&CL[1])) {
        if (nsd < 2) mc_fail(K_ORACLE, "C07", "the next session got no SDR connection of its own after the first ended");
        else rx_check(&CL[1], 1, false, true);
        if (CL[1].nst < 10) mc_fail(K_ORACLE, "C07", "the next session received only %zu bits", CL[1].nst);
    }
}
static void sc_sdr_down(int p) {   // no SDR server at all
    (void) p;
    conf(0, 0, 64, 4);
    RXP[0] = rx_def();
    if (!start_server()) return;
    int t = mc_spawn("client A", rx_client, &CL[0]);
    mc_wait_thread(t);
    ping_alive();
    stop_server();
    end_checks();
    if (!CL[0].got || CL[0].status != 1 || CL[0].details != 3) mc_fail(K_ORACLE, "C16", "no SDR server, but the answer was %d %u", CL[0].status, CL[0].details);
}
// the host of the SDR server vanishes while A is served; B asks for another band; A leaves, C pings, the operator stops
static void *ask_vanished(void *a) {
    struct cli *c = a;
    wait_flag(&SH2.a_attached, "B waits for A");
    mc_sleep(1000);
    env_silent(SDRPORT);
    int64_t t = mc_now();
    run_request2(c);
    set_flag(&SH2.b_done);
    cl_response(c);
    if (c->got && c->status == 0) mc_fail(K_ORACLE, "C16", "a receiver is served although the SDR server cannot be reached");
    else if (c->got && c->details != 3) mc_fail(K_ORACLE, "C16", "the SDR server cannot be reached, but the answer was details %u", c->details);
    if (mc_now() - t > 30000) mc_fail(K_ORACLE, "C03", "the SDR server cannot be reached: the server needed %ld s to notice, nobody is served meanwhile", (long) (mc_now() - t) / 1000);
    cl_eof(c); cl_close(c);
    return NULL;
}
static void *leave_vanished(void *a) {
    struct cli *c = a;
    cl_connect(c); run_request2(c); cl_response(c);
    cl_read(c, 20, 3000);
    set_flag(&SH2.a_attached);
    wait_flag(&SH2.b_done, "A waits for B");
    mc_sleep(100);
    int64_t t = mc_now();
    cl_bye(c); cl_eof(c); cl_close(c);
    if (mc_now() - t > 30000) mc_fail(K_ORACLE, "C03", "a session needed %ld s to end because the SDR server does not answer another one", (long) (mc_now() - t) / 1000);
    return NULL;
}
static void sc_sdr_vanishes(int p) {
    conf(0, 0, 64, 8);
    mc_cfg.max_timeouts = 150;
    RXP[0] = rx_def(); RXP[1] = rx_def(); RXP[0].dest = RXP[1].dest = 1; RXP[1].center += 25000; SDC.nsamples = 100; expect_bits = 20;
    start_mock(); if (!start_server()) return;
    int a = mc_spawn("client A", leave_vanished, &CL[0]), b = mc_spawn("client B", ask_vanished, &CL[1]);
    wait_flag(&SH2.b_done, "waits for B");
    mc_sleep(500);
    int64_t t = mc_now();
    if (p == 0) {
        ping_alive();
        if (mc_now() - t > 30000) mc_fail(K_ORACLE, "C03", "a ping needed %ld s because the SDR server does not answer", (long) (mc_now() - t) / 1000);
        mc_wait_thread(a); mc_wait_thread(b);
        t = mc_now();
    }
    stop_server();
    if (mc_now() - t > 40000) mc_fail(K_ORACLE, "C03", "the stop needed %ld s because the SDR server does not answer", (long) (mc_now() - t) / 1000);
    mc_wait_thread(a); mc_wait_thread(b);
    end_checks();
    if (p == 0 && !CL[1].got) mc_fail(K_ORACLE, "C04", "no answer when the SDR server cannot be reached");
}
// the SDR server ends the stream while A stays connected; B must not be attached to the dead stream
static void sc_sdr_ended(int p) {
    (void) p;
    conf(0, 0, 64, 8);
    RXP[0] = rx_def(); RXP[1] = rx_def(); SDC.nsamples = 100; SDC.behaviour[0] = B_CLOSE_AFTER; SDC.behaviour[1] = B_NORMAL; expect_bits = 20;
    start_mock(); if (!start_server()) return;
    int a = mc_spawn("client A", rx_hold, &CL[0]);
    wait_flag(&SH2.a_attached, "B waits for A");
    mc_sleep(30000);                                // the stream is long over
    int b = mc_spawn("client B", rx_joiner, &CL[1]);
    mc_wait_thread(b); mc_wait_thread(a);
    stop_server();
    end_checks();
    if (want_ok(&CL[0])) rx_check(&CL[0], 0, true, true);
    if (want_ok(&CL[1])) {
        if (CL[1].nst == 0) mc_fail(K_ORACLE, "C07", "a new session was attached to an SDR connection that had already ended and starves");
        else rx_check(&CL[1], 1, false, true);
    }
}
// ---------------------------------------------------------------- transmit
static void *tx_client(void *a) {
    struct cli *c = a; struct txp *p = &TXP[c - CL];
    cl_connect(c); if (c->refused) return NULL;
    run_request(c, tx_frame(p));
    if (cl_response(c)) {
        int off = 0;
        for (int i = 0; i < tx_n; i++) {
            struct enc *f = txdata_frame(off, tx_sizes[i]);
            if (cl_send(c, f->b, f->n)) break;
            stage(c, ST_DATA);
            int st; uint32_t de;
            if (!rd_frame(c, &st, &de)) { c->eof = true; break; }
            c->fst[c->nfr] = st; c->fdet[c->nfr++] = de;
            off += tx_sizes[i];
            if (st != 0) break;
        }
        if (!c->eof) cl_bye(c);
    }
    cl_eof(c); cl_close(c);
    if (c->nst) mc_fail(K_ORACLE, "C04", "client %s: %zu bytes after the answers to its messages", c->name, c->nst);
    return NULL;
}
static void sc_tx(int p) {
    conf(2, 2, 8, 4);
    TXP[0] = tx_def(); tx_n = 3; tx_sizes[0] = 5; tx_sizes[1] = 19; tx_sizes[2] = 8;
    if (p == 1) { tx_n = 3; tx_sizes[0] = 0; tx_sizes[1] = 1; tx_sizes[2] = 7; old_file("/sim/tx.cf32"); old_file(OUTDIR "/tx.mod2sdr.0.cf32"); }
    if (!start_server()) return;
    int t = mc_spawn("client A", tx_client, &CL[0]);
    mc_wait_thread(t);
    if (want_ok(&CL[0])) {   // everything is on disk once the connection has ended
        if (CL[0].nfr != tx_n) mc_fail(K_ORACLE, "C09", "%d answers to %d transmit messages", CL[0].nfr, tx_n);
        tx_check(&CL[0], "/sim/tx.cf32");
    }
    ping_alive();
    stop_server();
    end_checks();
    if (want_ok(&CL[0])) tx_check(&CL[0], "/sim/tx.cf32");
}
static void sc_tx_big(int p) {     // up to the largest message
    conf(2, 2, 4096, 4);
    TXP[0] = tx_def(); TXP[0].dump = 0; TXP[0].baud = 9600; tx_n = 2; tx_sizes[0] = p ? 32 * 1024 - 4 : 4100; tx_sizes[1] = 3;
    if (!start_server()) return;
    int t = mc_spawn("client A", tx_client, &CL[0]);
    mc_wait_thread(t);
    stop_server();
    end_checks();
    if (want_ok(&CL[0])) { if (CL[0].nfr != tx_n) mc_fail(K_ORACLE, "C09", "%d answers to %d transmit messages", CL[0].nfr, tx_n); tx_check(&CL[0], "/sim/tx.cf32"); }
}
static void *tx_abort_client(void *a) {
    struct cli *c = a; struct txp *p = &TXP[c - CL]; struct enc *f = tx_frame(p), *d = txdata_frame(0, 5);
    int k = mc_choose(9, 0, "where the client disconnects");
    cl_connect(c); if (c->refused) return NULL;
    if (k > 0) cl_send(c, f->b, 6);
    if (k > 1) cl_send(c, f->b + 6, 10);
    if (k > 2) { cl_send(c, f->b + 16, f->n - 16); stage(c, ST_SENT); }
    if (k > 3) { if (!cl_response(c)) k = 0; }
    if (k > 4) cl_send(c, d->b, 4);
    if (k > 5) cl_send(c, d->b + 4, 5);
    if (k > 6) { cl_send(c, d->b + 9, d->n - 9); stage(c, ST_DATA); }
    if (k > 7) { int s; uint32_t e; rd_frame(c, &s, &e); }
    cl_close(c);
    return NULL;
}
// A leaves at any step; then B asks for the transmitter: once A's connection visibly ended it is free
static void sc_tx_abort(int p) {
    (void) p;
    conf(2, 2, 8, 4);
    TXP[0] = tx_def(); TXP[1] = tx_def(); TXP[1].file = "/sim/tx2.cf32"; tx_n = 1; tx_sizes[0] = 5;
    if (!start_server()) return;
    int t = mc_spawn("client A", tx_abort_client, &CL[0]);
    mc_wait_thread(t);
    stop_server();
    end_checks();
}
// A uses the transmitter and leaves; B asks right after A saw the end of its connection
static void sc_tx_again(int p) {
    conf(2, 2, 8, 4);
    TXP[0] = tx_def(); TXP[1] = tx_def(); TXP[1].file = p ? "/sim/tx.cf32" : "/sim/tx2.cf32"; tx_n = 1; tx_sizes[0] = 5;
    if (!start_server()) return;
    int t = mc_spawn("client A", tx_client, &CL[0]);
    mc_wait_thread(t);
    bool okA = CL[0].got && CL[0].status == 0;
    if (okA && !p) tx_check(&CL[0], TXP[0].file);
    t = mc_spawn("client B", tx_client, &CL[1]);
    mc_wait_thread(t);
    stop_server();
    end_checks();
    if (CL[1].got && CL[1].status != 0 && CL[1].details == 4) mc_fail(K_ORACLE, "C06", "the transmitter is still busy after the connection of its owner ended");
    else if (want_ok(&CL[1])) tx_check(&CL[1], TXP[1].file);
}
// two clients compete for the transmitter
static int tx_owners;
static void *tx_compete(void *a) {
    struct cli *c = a; struct txp *p = &TXP[c - CL];
    cl_connect(c); if (c->refused) return NULL;
    run_request(c, tx_frame(p));
    if (cl_response(c)) {
        if (++tx_owners > 1) mc_fail(K_ORACLE, "C06", "two sessions own the transmitter");
        mc_event(0x7077, 1);
        struct enc *f = txdata_frame(0, tx_sizes[0]);
        cl_send(c, f->b, f->n);
        int st; uint32_t de;
        if (rd_frame(c, &st, &de)) { c->fst[c->nfr] = st; c->fdet[c->nfr++] = de; }
        tx_owners--;
        mc_event(0x7077, 2);
        cl_bye(c);
    } else if (c->got && c->details != 4) mc_fail(K_ORACLE, "C06", "a competing transmit request was refused with details %u", c->details);
    cl_eof(c); cl_close(c);
    return NULL;
}
static void sc_tx_two(int p) {
    conf(2, 2, 8, 4);
    TXP[0] = tx_def(); TXP[1] = tx_def(); TXP[1].file = "/sim/tx2.cf32"; tx_n = 1; tx_sizes[0] = 9;
    if (p) TXP[1].file = "/sim/tx.cf32";
    if (!start_server()) return;
    int a = mc_spawn("client A", tx_compete, &CL[0]), b = mc_spawn("client B", tx_compete, &CL[1]);
    mc_wait_thread(a); mc_wait_thread(b);
    stop_server();
    end_checks();
    int ok = 0;
    for (int i = 0; i < 2; i++) if (CL[i].got && CL[i].status == 0) { ok++; if (!p) tx_check(&CL[i], TXP[i].file); if (CL[i].nfr != 1) mc_fail(K_ORACLE, "C09", "no answer to a transmit message"); }
    if (!ok) mc_fail(K_ORACLE, "C06", "nobody got the transmitter");
    if (ok == 2) mc_hit("both in turn"); else mc_hit("one was refused");
    // the refused one did not disturb the owner's file
    if (p && ok == 1) { int o = CL[0].got && CL[0].status == 0 ? 0 : 1; tx_check(&CL[o], TXP[o].file); }
}
// a transmitting client that never reads its answers
static void *tx_stuck(void *a) {
    struct cli *c = a; struct txp *p = &TXP[c - CL];
    cl_connect(c); if (c->refused) return NULL;
    run_request(c, tx_frame(p));
    if (cl_response(c)) {
        struct enc *f = txdata_frame(0, 1);
        for (int i = 0; i < 12; i++) { if (cl_send(c, f->b, f->n)) break; }
        set_flag(&SH2.a_attached);
        wait_flag(&release_stuck, "A does not read");
    } else set_flag(&SH2.a_attached);
    cl_close(c);
    return NULL;
}
static void sc_tx_noread(int p) {
    conf(2, 2, 8, 4);
    mc_cfg.sock_cap = 48;
    TXP[0] = tx_def(); TXP[1] = tx_def(); TXP[1].file = "/sim/tx2.cf32"; tx_n = 1; tx_sizes[0] = 3;
    if (!start_server()) return;
    int a = mc_spawn("client A", tx_stuck, &CL[0]);
    wait_flag(&SH2.a_attached, "operator waits");
    if (p) ping_alive();
    stop_server();
    set_flag(&release_stuck);
    mc_wait_thread(a);
    end_checks();
}
// a transmitting client that reads its answers after the server lost its patience: whole answers, then possibly a cut one at the end
static void *tx_late(void *a) {
    struct cli *c = a; struct txp *p = &TXP[c - CL];
    cl_connect(c); if (c->refused) return NULL;
    run_request(c, tx_frame(p));
    if (cl_response(c)) {
        int sent = 0;
        for (int i = 0; i < 9; i++) { struct enc *f = txdata_frame(sent, i % 2 + 1); if (f->n > mc_cfg.sock_cap || cl_send(c, f->b, f->n)) break; sent += i % 2 + 1; }
        env_delay(5500 + 5000 * mc_choose(3, 0, "when the client reads"));
        cl_bye(c);
        cl_read(c, sizeof c->st, -1);
        size_t i = 0; int n = 0;
        while (c->nst - i >= 6) {
            uint8_t *h = c->st + i; uint32_t len = (uint32_t) h[2] << 24 | h[3] << 16 | h[4] << 8 | h[5]; int st; uint32_t det;
            if (h[0] != 0 || h[1] != 2 || len < 2 || len > 20) { mc_fail(K_ORACLE, "C04", "answer %d is followed by something that is no response: version %d type %d length %u", n, h[0], h[1], len); break; }
            if (c->nst - i - 6 < len) break;
            if (!dec_response(h + 6, len, &st, &det)) { mc_fail(K_ORACLE, "C04", "answer %d has a body that is not a response", n); break; }
            if (st != 0) mc_fail(K_ORACLE, "C09", "message %d was answered with status %d details %u", n, st, det);
            i += 6 + len; n++;
        }
        if (n > 9) mc_fail(K_ORACLE, "C04", "%d answers to 9 messages", n);
        mc_hit(i < c->nst ? "the last answer was cut" : "whole answers");
    }
    cl_close(c);
    return NULL;
}
static void sc_tx_late(int p) {
    (void) p;
    conf(2, 2, 8, 4);
    mc_cfg.sock_cap = 44;
    TXP[0] = tx_def();
    if (!start_server()) return;
    mc_wait_thread(mc_spawn("client A", tx_late, &CL[0]));
    stop_server();
    end_checks();
}
static void sc_tx_stop(int p) {
    (void) p;
    conf(2, 2, 8, 4);
    TXP[0] = tx_def(); tx_n = 2; tx_sizes[0] = 9; tx_sizes[1] = 3;
    if (!start_server()) return;
    int t = mc_spawn("client A", tx_client, &CL[0]);
    wait_progress(mc_choose(6, 0, "milestone at which the server is stopped"));
    stop_server();
    mc_wait_thread(t);
    end_checks();
}
// ---------------------------------------------------------------- file receiver
static void put_rx_file(int n) { mc_file_put("/sim/in.cf32", sdr_tab[0], n * 8); }
static void sc_file_rx(int p) {
    conf(2, 0, 64, 2);
    RXP[0] = rx_def(); RXP[0].file = "/sim/in.cf32"; RXP[0].dest = p;
    put_rx_file(300);
    if (!start_server()) return;
    int t = mc_spawn("client A", rx_client_drain, &CL[0]);
    mc_wait_thread(t);
    stop_server();
    end_checks();
    if (want_ok(&CL[0])) {
        struct mc_file *d = fget(OUTDIR "/rx.sdr2demod.%d.cf32", CL[0].details);
        rx_check(&CL[0], -1, true, true);
        // nothing is lost with a file source after the session was attached
        if (d && d->len) { size_t n = d->len / 8; if (n > 300 || memcmp(d->data, sdr_tab[0] + 300 - n, n * 8)) mc_fail(K_ORACLE, "C08", "file source: the dump is not the end of the file"); if (n != 300) mc_fail(K_ORACLE, "C08", "file source: only %zu of 300 samples were processed", n); }
        else mc_fail(K_ORACLE, "C08", "file source: nothing was processed");
    }
}
static void sc_file_rx_leave(int p) {   // the client leaves about when the end of the file is reached
    conf(2, 0, 64, 2);
    RXP[0] = rx_def(); RXP[0].file = "/sim/in.cf32"; RXP[0].dest = p; expect_bits = p ? 10 : 0;
    put_rx_file(p == 2 ? 0 : 40);
    if (!start_server()) return;
    int t = mc_spawn("client A", rx_client, &CL[0]);
    mc_wait_thread(t);
    stop_server();
    end_checks();
    if (want_ok(&CL[0])) rx_check(&CL[0], -1, false, true);
}
static void sc_file_rx_slow(int p) {   // the producer of the samples goes on while the disk is slow
    conf(2, 0, 64, p + 1);
    mc_cfg.slow_disk = true;
    RXP[0] = rx_def(); RXP[0].file = "/sim/in.cf32"; RXP[0].dest = 2;
    put_rx_file(300);
    if (!start_server()) return;
    int t = mc_spawn("client A", rx_client_drain, &CL[0]);
    mc_wait_thread(t);
    stop_server();
    end_checks();
    if (want_ok(&CL[0])) {
        rx_check(&CL[0], -1, true, true);
        struct mc_file *d = fget(OUTDIR "/rx.sdr2demod.%d.cf32", CL[0].details);
        if (!d || d->len != 300 * 8 || memcmp(d->data, sdr_tab[0], d->len)) mc_fail(K_ORACLE, "C08", "file source, slow disk: the dump is not the file");
    }
}
static void sc_file_rx_stuck(int p) {   // a file source, a client that does not read
    conf(2, 0, 64, 1);
    mc_cfg.sock_cap = 48;
    RXP[0] = rx_def(); RXP[0].file = "/sim/in.cf32"; RXP[0].dest = 1;
    put_rx_file(900);
    if (!start_server()) return;
    CL[6].stage = p == 1;
    int a = mc_spawn("client A", rx_stuck, &CL[0]);
    wait_flag(&SH2.a_attached, "operator waits");
    if (p == 1) { set_flag(&SH2.b_done); mc_wait_thread(a); }
    if (p == 2) { set_flag(&SH2.b_done); ping_alive(); }
    stop_server();
    set_flag(&SH2.b_done); set_flag(&release_stuck);
    mc_wait_thread(a);
    end_checks();
}
static void sc_file_rx_endless(int p) {   // a very large file: the session ends although there is more to read
    conf(2, 0, 64, 2); mc_cfg.max_timeouts = 400;
    RXP[0] = rx_def(); RXP[0].file = "/sim/in.cf32"; RXP[0].dest = p == 3 ? 0 : 1; if (p & 1) RXP[0].offset = 100; RXP[0].dump = 0; expect_bits = p == 2 ? 19000 : p == 3 ? 0 : 10;
    put_rx_file(640); mc_file_get("/sim/in.cf32")->endless = true;
    if (!start_server()) return;
    int t = mc_spawn("client A", p == 1 ? rx_leaver : rx_client, &CL[0]);
    if (p == 2) wait_progress(mc_choose(4, 0, "milestone at which the server is stopped")); else mc_wait_thread(t);
    if (p == 1) ping_alive();
    stop_server();
    mc_wait_thread(t);
    end_checks();
}
// ---------------------------------------------------------------- faults
static void sc_rx_fault(int p) {
    conf(p == 1 ? 2 : 0, 0, 64, 2);
    RXP[0] = rx_def(); RXP[1] = rx_def(); SDC.nsamples = 200; expect_bits = 30;
    if (p == 1) { RXP[0].file = "/sim/in.cf32"; RXP[1].file = "/sim/in.cf32"; put_rx_file(400); } else start_mock();
    if (p == 2) { mc_cfg.faults = FAULT_FWRITE; } else mc_cfg.faults = FAULT_THREAD | FAULT_FOPEN | FAULT_FWRITE | FAULT_SETSOCKOPT | FAULT_SOCK | FAULT_SETUP | FAULT_FREAD;
    if (!start_server()) { end_checks(); return; }
    int t = mc_spawn("client A", rx_client, &CL[0]);
    if (p == 2) { int t2 = mc_spawn("client B", rx_client, &CL[1]); mc_wait_thread(t2); }
    mc_wait_thread(t);
    mc_cfg.faults = 0;
    ping_alive();
    stop_server();
    end_checks();
}
static void sc_accept_fault(int p) {   // accept fails for a moment: the others are served afterwards
    (void) p;
    conf(0, 0, 64, 8);
    mc_cfg.max_faults = 2;
    RXP[0] = rx_def(); RXP[1] = rx_def(); SDC.nsamples = 128; expect_bits = 20;
    start_mock(); mc_cfg.faults = FAULT_ACCEPT;
    if (!start_server()) return;
    int a = mc_spawn("client A", rx_client, &CL[0]), b = mc_spawn("client B", rx_client, &CL[1]);
    mc_wait_thread(a); mc_wait_thread(b);
    mc_cfg.faults = 0;
    ping_alive();
    stop_server();
    end_checks();
    if (CL[0].got && CL[0].status) mc_fail(K_ORACLE, "C02", "the session of client A was refused with %u", CL[0].details);
    if (CL[1].got && CL[1].status) mc_fail(K_ORACLE, "C02", "the session of client B was refused with %u", CL[1].details);
}
// a client that reads its stream slowly, a few bytes at a time and slower than the timeout of the server
static void *rx_slow(void *a) {
    struct cli *c = a;
    cl_connect(c); if (c->refused) return NULL;
    run_request(c, rx_frame(P(c)));
    if (!cl_response(c)) { cl_eof(c); cl_close(c); return NULL; }
    size_t n; 
    do { n = c->nst; mc_sleep(6000 + 5000 * (c->nst % 3)); cl_read(c, n + 7, 20000); } while (c->nst >= n + 7);
    cl_bye(c); cl_eof(c); cl_close(c);
    return NULL;
}
static void sc_slow_reader(int p) {
    conf(p ? 2 : 0, 0, 64, 8);
    mc_cfg.sock_cap = 16; mc_cfg.max_timeouts = 400;
    RXP[0] = rx_def(); RXP[0].dest = p == 2 ? 2 : 1; SDC.nsamples = 256;
    if (p) { RXP[0].file = "/sim/in.cf32"; put_rx_file(256); } else start_mock();
    if (!start_server()) return;
    int t = mc_spawn("client A", rx_slow, &CL[0]);
    mc_wait_thread(t);
    stop_server();
    end_checks();
    if (want_ok(&CL[0])) {
        if (!p) rx_check(&CL[0], 0, false, true);
        static int8_t ref[20000]; static float complex in[NS]; (void) in;
        size_t n = ref_demod(&RXP[0], sdr_tab[0], 256, 64, ref, sizeof ref);
        cmp_stream("C08", "slow reader", "stream", (const int8_t *) CL[0].st, CL[0].nst, ref, n, true);
        mc_hit("slow reader has everything");
    }
}
static void sc_tx_fault(int p) {
    (void) p;
    conf(2, 2, 8, 4);
    TXP[0] = tx_def(); tx_n = 2; tx_sizes[0] = 9; tx_sizes[1] = 3;
    mc_cfg.faults = FAULT_THREAD | FAULT_FOPEN | FAULT_FWRITE | FAULT_SETSOCKOPT | FAULT_SOCK | FAULT_SETUP;
    if (!start_server()) { end_checks(); return; }
    int t = mc_spawn("client A", tx_client, &CL[0]);
    mc_wait_thread(t);
    mc_cfg.faults = 0;
    ping_alive();
    stop_server();
    end_checks();
    // what was acknowledged is in the file although something failed
    struct cli *c = &CL[0]; static float complex ref[4000]; int acked = 0; bool fail = false;
    for (int i = 0; i < c->nfr; i++) { if (c->fst[i] == 0 && !fail) acked += tx_sizes[i]; else fail = true; }
    struct mc_file *f = mc_file_get("/sim/tx.cf32");
    if (c->got && c->status == 0 && !fail) { size_t n = ref_mod(&TXP[0], 0, acked, 8, ref, 4000); cmp_cf("C09", "transmitted samples (after a fault)", f, ref, n); }
}
// a request is followed by another one although the first failed: identifiers stay distinct, nothing leaks
static void *invalid_client(void *a) {
    struct cli *c = a; struct enc *f = NULL; struct rxp r = rx_def(); struct txp t = tx_def();
    int k = mc_choose(6, 0, "kind of invalid request");
    if (k == 0) { r.baud = 0; f = rx_frame(&r); }
    if (k == 1) { t.baud = 0; f = tx_frame(&t); }
    if (k == 2) { f = rx_frame(&r); f->b[0] = 7; }
    if (k == 3) { f = rx_frame(&r); f->b[1] = 9; }
    if (k == 4) { f = rx_frame(&r); f->b[6] = 0xff; }
    if (k == 5) { f = tx_frame(&t); f->b[2] = 1; }
    cl_connect(c); if (c->refused) return NULL;
    run_request(c, f);
    if (cl_response(c)) mc_fail(K_ORACLE, "C05", "an invalid request was accepted");
    else if (!c->got) mc_fail(K_ORACLE, "C04", "an invalid request got no answer");
    else if (c->status != 1 || c->details != 1) mc_fail(K_ORACLE, "C05", "an invalid request was answered with status %d details %u", c->status, c->details);
    cl_eof(c);
    if (c->nst) mc_fail(K_ORACLE, "C04", "data after a refusal");
    cl_close(c);
    return NULL;
}
static void sc_invalid_and_valid(int p) {
    (void) p;
    conf(0, 2, 64, 4);
    RXP[0] = rx_def(); SDC.nsamples = 64; expect_bits = 10;
    start_mock(); if (!start_server()) return;
    int b = mc_spawn("client B", invalid_client, &CL[1]), a = mc_spawn("client A", rx_client, &CL[0]);
    mc_wait_thread(a); mc_wait_thread(b);
    stop_server();
    end_checks();
    if (want_ok(&CL[0])) rx_check(&CL[0], 0, false, true);
}
// ---------------------------------------------------------------- sessions with Doppler correction beside each other
static const char *ORB[2][3] = {
    {"LUCKY-7", "1 44406U 19038W   20069.88080907  .00000505  00000-0  32890-4 0  9992", "2 44406  97.5270  32.5584 0026284 107.4758 252.9348 15.12089395 37524"},
    {"GEO", "1 12345U 98067A   23123.25000000  .00000000  00000-0  00000-0 0  9990", "2 12345   7.2000  88.0000 0300000  10.0000 277.0000  1.00270000    10"}};
static char orb_txt[2][3][80]; static const char *orbp[2][3];
static const char **orb(int i) {   // with the checksum in place
    for (int l = 0; l < 3; l++) {
        strncpy(orb_txt[i][l], ORB[i][l], 79); orbp[i][l] = orb_txt[i][l];
        if (l) { int s = 0; for (int k = 0; k < 68; k++) { char c = orb_txt[i][l][k]; s += c >= '0' && c <= '9' ? c - '0' : c == '-'; } orb_txt[i][l][68] = (char) ('0' + s % 10); orb_txt[i][l][69] = 0; }
    }
    return orbp[i];
}
static void sc_doppler(int p) {
    conf(0, p == 1 ? 2 : 0, 64, 8);
    RXP[0] = rx_def(); RXP[0].tle = orb(0); RXP[0].ntle = 3; RXP[0].lat = 537200000; RXP[0].lon = 475700000; SDC.nsamples = 192; expect_bits = 30;
    RXP[1] = RXP[0]; RXP[1].lat = 101234567; RXP[1].alt = 12000; RXP[1].baud = 2400; RXP[1].dev = 1500;
    if (p == 2) RXP[1].center += 25000, RXP[1].tle = orb(1);
    TXP[1] = tx_def(); TXP[1].tle = orb(1); TXP[1].ntle = 3; TXP[1].offset = 800; TXP[1].dump = 0; TXP[1].center = 145800000; tx_n = 2; tx_sizes[0] = 9; tx_sizes[1] = 4;
    start_mock(); if (!start_server()) return;
    int a = mc_spawn("client A", rx_client, &CL[0]), b = mc_spawn("client B", p == 1 ? tx_client : rx_client, &CL[1]);
    mc_wait_thread(a); mc_wait_thread(b);
    stop_server();
    end_checks();
    if (want_ok(&CL[0])) rx_check(&CL[0], p == 2 ? -1 : nsd == 1 ? 0 : -1, false, true);
    if (want_ok(&CL[1])) { if (p == 1) tx_check(&CL[1], "/sim/tx.cf32"); else rx_check(&CL[1], p == 2 ? -1 : nsd == 1 ? 0 : -1, false, true); }
}
// ---------------------------------------------------------------- out of memory at every allocation
static void sc_oom_rx(int p) {
    conf(p == 1 ? 2 : 0, 0, 64, 1);
    RXP[0] = rx_def(); RXP[0].tw = 8000; RXP[0].rate = 9600; RXP[0].dc = 1; SDC.nsamples = 64; expect_bits = 10;
    if (p == 1) { RXP[0].file = "/sim/in.cf32"; RXP[0].offset = 500; put_rx_file(100); } else start_mock();
    mc_cfg.oom = 1;
    bool up = start_server();
    if (!up) { if (server) mc_fail(K_ORACLE, "C23", "server created although an allocation failed"); end_checks(); return; }
    int t = mc_spawn("client A", rx_client, &CL[0]);
    mc_wait_thread(t);
    mc_cfg.oom = 0;
    ping_alive();
    stop_server();
    end_checks();
}
static void sc_oom_tx(int p) {
    conf(2, 2, 8, 4);
    TXP[0] = tx_def(); tx_n = 2; tx_sizes[0] = 9; tx_sizes[1] = 3; if (p) TXP[0].offset = 1000;
    mc_cfg.oom = 1;
    bool up = start_server();
    if (!up) { end_checks(); return; }
    int t = mc_spawn("client A", tx_client, &CL[0]);
    mc_wait_thread(t);
    mc_cfg.oom = 0;
    ping_alive();
    stop_server();
    end_checks();
    struct cli *c = &CL[0]; static float complex ref[4000]; int acked = 0; bool fail = c->nfr < tx_n;
    for (int i = 0; i < c->nfr; i++) { if (c->fst[i] == 0) acked += tx_sizes[i]; else fail = true; }
    if (!p && c->got && c->status == 0 && !fail) { size_t n = ref_mod(&TXP[0], 0, acked, 8, ref, 4000); cmp_cf("C23", "transmitted samples (after a failed allocation)", mc_file_get("/sim/tx.cf32"), ref, n); }
}
// ---------------------------------------------------------------- the program itself: configuration, start, signals
int sdr_main(int argc, char **argv);
#include <signal.h>
#include <sys/mman.h>
static int main_state;     // 0 running, 1 returned
static bool exit_must_fail;
static void on_exit_call(int code) {
    if (code < 0) { mc_hit("killed by the second signal"); return; }
    if (main_state == 0 && exit_must_fail && code == 0) mc_fail(K_ORACLE, "C03", "the program failed to start and its exit code is 0");
    if (!exit_must_fail) mc_fail(K_ORACLE, "C03", "the program gave up with code %d", code);
    mc_hit("failed start is reported");
}
static int run_main(const char *conf_text) {
    static char path[64]; int save = in_mc; in_mc = 0;
    if (conf_text) { int fd = memfd_create("conf", 0); if (write(fd, conf_text, strlen(conf_text)) < 0) abort(); snprintf(path, sizeof path, "/proc/self/fd/%d", fd); }
    else strcpy(path, "/proc/self/fd/none");
    in_mc = save;
    char *argv[] = {"sdr_modem", path, NULL};
    return sdr_main(2, argv);
}
#define CONF "bind_address=\"127.0.0.1\"\nport=%d\nrx_sdr_type=\"sdr-server\"\ntx_sdr_type=\"none\"\nrx_sdr_server_address=\"127.0.0.1\"\nrx_sdr_server_port=%d\nread_timeout_seconds=5\nbuffer_size=64\nqueue_size=8\nbase_path=\"%s\"\n"
static void *gone_client(void *a) {   // leaves without a word while data comes
    struct cli *c = a;
    while (!(c->c = env_connect(PORT))) mc_sleep(100);
    env_close(c->c); c->c = NULL;
    cl_connect(c); if (c->refused) return NULL;
    run_request(c, rx_frame(P(c)));
    if (cl_response(c)) cl_read(c, 20, 20000);
    cl_close(c);
    set_flag(&SH2.a_attached);
    return NULL;
}
static void *main_client(void *a) {
    struct cli *c = a;
    wait_flag(&SH2.a_attached, "B waits until A has left");
    mc_sleep(7000);
    if (main_state) return NULL;
    ping_alive();
    cl_connect(c); if (c->refused) return NULL;
    run_request(c, rx_frame(P(c)));
    if (cl_response(c)) set_flag(&SH2.b_done);
    cl_eof(c); cl_close(c);
    return NULL;
}
static const int stop_sigs[] = {SIGTERM, SIGINT, SIGHUP};
static bool is_handled(void *a) { return mc_handled(*(int *) a); }
static void *operator_stops(void *a) {
    int when = *(int *) a, first = mc_choose(3, 0, "signal"), more = mc_choose(3, 0, "another signal");
    if (when == 0) { while (!env_listening(PORT)) mc_sleep(100); }
    else if (when == 2) { mc_op(is_handled, (void *) &stop_sigs[first], -1, "the operator waits for the handler"); mc_event(0x516000 + stop_sigs[first], 4); }
    else wait_flag(&SH2.b_done, "the operator waits for a session");
    int r;
    while ((r = mc_raise(stop_sigs[first])) == 0) {
        if (when) mc_fail(K_ORACLE, "C03", "a signal that stops the server kills it");
        mc_sleep(100);   // it would have ended without a server
    }
    if (r == 1) mc_fail(K_ORACLE, "C03", "the signal that stops the server is ignored");
    if (more && !main_state) mc_raise(stop_sigs[(first + more) % 3]);
    return NULL;
}
static void sc_main(int p) {
    static char text[600]; snprintf(text, sizeof text, CONF, PORT, SDRPORT, OUTDIR);
    conf(0, 0, 64, 8); mc_cfg.sigpipe_ignored = 0; mc_exit_hook = on_exit_call; mc_cfg.max_timeouts = 400;
    RXP[0] = rx_def(); RXP[1] = rx_def(); RXP[0].dest = RXP[1].dest = 1; SDC.nsamples = 64;
    SDC.behaviour[0] = SDC.behaviour[1] = B_ENDLESS;
    start_mock();
    static int when; when = p;
    int a = -1, b = -1, o;
    if (p == 1) { a = mc_spawn("client A", gone_client, &CL[0]); b = mc_spawn("client B", main_client, &CL[1]); }
    o = mc_spawn("operator", operator_stops, &when);
    int code = run_main(text);
    main_state = 1; mc_event(0x3a1e, 1);
    if (code) mc_fail(K_ORACLE, "C03", "the stopped server ends with code %d", code);
    if (env_listening(PORT)) mc_fail(K_ORACLE, "C03", "the port is still open after the end");
    mc_wait_thread(o); if (p == 1) { mc_wait_thread(a); mc_wait_thread(b); }
    env_unlisten(SDRPORT);
    end_checks();
    mc_hit(p == 1 ? "stopped with a session" : "stopped right after the start");
}
static void sc_main_fails(int p) {
    static char text[600]; snprintf(text, sizeof text, CONF, PORT, SDRPORT, OUTDIR);
    conf(0, 0, 64, 8); mc_exit_hook = on_exit_call; exit_must_fail = true;
    if (p == 0) { char *argv[] = {"sdr_modem", NULL}; sdr_main(1, argv); }
    else if (p == 1) run_main(NULL);
    else if (p == 2) run_main("port=");
    else if (p == 3) {   // any call of the start fails
        static int now;
        mc_cfg.faults = FAULT_THREAD | FAULT_SETSOCKOPT | FAULT_SOCK | FAULT_SETUP;
        int o = mc_spawn("operator", operator_stops, &now);
        if (run_main(text)) mc_fail(K_ORACLE, "C03", "the stopped server ends with a code");
        main_state = 1; mc_event(0x3a1e, 1); mc_wait_thread(o); end_checks();
        return;
    }
    mc_fail(K_ORACLE, "C03", "the program goes on although it cannot start");
}
// every setting takes effect in the running program: what it binds, whom it asks, how long it waits, what it keeps, where it writes
static struct { const char *bind, *sdr, *base; uint32_t bind_ip, sdr_ip; int port, sport, timeout, queue, buffer, tx; } ST;
static bool within(int64_t t, int64_t s) { return t >= s * 1000 && t <= s * 2000 + 500; }
static void *user(void *a) {
    (void) a;
    for (int i = 0; !env_listening(ST.port); i++) { if (i == 50) { mc_fail(K_ORACLE, "C19", "nothing listens on port %d", ST.port); goto out; } mc_sleep(100); }
    if (!env_bound(ST.port, ST.bind_ip)) { mc_fail(K_ORACLE, "C19", "the server is not bound to %s", ST.bind ? ST.bind : "127.0.0.1"); goto out; }
    struct cli *c = &CL[0];   // a stalled request is given up after the read timeout
    cl_connect(c); static const uint8_t part[3] = {0, 3, 0}; cl_send(c, part, 3); int64_t t0 = mc_now();
    while (!c->eof && !c->got && mc_now() - t0 < 100000) { cl_read(c, 1, 1000); if (c->nst) break; }
    if (!within(mc_now() - t0, ST.timeout)) mc_fail(K_ORACLE, "C19", "a stalled request was given up after %ld ms, the read timeout is %d s", (long) (mc_now() - t0), ST.timeout);
    cl_close(c);
    c = &CL[1]; cl_connect(c); cl_send(c, tx_frame(&TXP[0])->b, tx_frame(&TXP[0])->n); cl_response(c);
    if (!c->got || (c->status == 0) != (ST.tx == 1)) mc_fail(K_ORACLE, "C19", "a transmitter is %s although tx_sdr_type is %s", c->status ? "refused" : "accepted", ST.tx ? "file" : "none");
    if (c->status == 0) { cl_bye(c); cl_eof(c); }
    cl_close(c);
    c = &CL[2]; cl_connect(c); cl_send(c, rx_frame(&RXP[0])->b, rx_frame(&RXP[0])->n); cl_response(c);
    if (!c->got || c->status || !nsd) mc_fail(K_ORACLE, "C19", "the SDR server at %s port %d was not asked", ST.sdr ? ST.sdr : "127.0.0.1", ST.sport);
    else {
        mc_sleep(300); cl_read(c, sizeof c->st, 300); cl_bye(c); cl_eof(c);
        char path[100]; snprintf(path, sizeof path, "%s/rx.sdr2demod.%u.cf32", ST.base, c->details); struct mc_file *f = mc_file_get(path);
        if (!f) mc_fail(K_ORACLE, "C19", "there is no dump in base_path %s", ST.base);
        else {
            int n = (int) (f->len / 8);
            if (n % ST.buffer || n < ST.queue * ST.buffer || n > (ST.queue + 2) * ST.buffer) mc_fail(K_ORACLE, "C19", "%d samples were kept for a stalled receiver: queue_size is %d, buffer_size is %d", n, ST.queue, ST.buffer);
        }
    }
    cl_close(c);
    c = &CL[3]; cl_connect(c); cl_send(c, rx_frame(&RXP[0])->b, rx_frame(&RXP[0])->n); t0 = mc_now(); cl_response(c);   // a silent SDR server
    if (!c->got || !c->status) mc_fail(K_ORACLE, "C19", "a silent SDR server serves a receiver");
    else if (!within(mc_now() - t0, ST.timeout)) mc_fail(K_ORACLE, "C19", "a silent SDR server was given up after %ld ms, the read timeout is %d s", (long) (mc_now() - t0), ST.timeout);
    cl_close(c);
    mc_hit("all settings seen");
out:
    while (mc_raise(SIGTERM) == 0) mc_sleep(100);
    return NULL;
}
static void sc_settings(int p) {
    static char text[700]; int n = 0;
#define PUT(...) n += snprintf(text + n, sizeof text - n, __VA_ARGS__)
    conf(0, 0, 64, 8); mc_exit_hook = on_exit_call; mc_cfg.max_timeouts = 400; mc_cfg.sock_cap = 16;
    static const char *const ADDR[] = {NULL, "127.0.0.1", "0.0.0.0", "10.1.2.3"}; static const uint32_t IP[] = {0x7f000001, 0x7f000001, 0, 0x0a010203};
    int k = p == 0 ? mc_choose(4, 0, "bind_address") : 3; ST.bind = ADDR[k]; ST.bind_ip = IP[k]; if (k) PUT("bind_address=\"%s\"\n", ADDR[k]);
    k = p == 0 ? mc_choose(3, 0, "port") : 1; static const int PO[] = {8091, 9123, 65535}; ST.port = PO[k]; if (k) PUT("port=%d\n", PO[k]);
    k = p == 0 ? mc_choose(3, 0, "SDR server port") : 1; static const int SP[] = {8090, 1234, 40000}; ST.sport = SP[k]; if (k) PUT("rx_sdr_server_port=%d\n", SP[k]);
    k = p == 0 ? mc_choose(2, 0, "SDR server address") : 1; ST.sdr = k ? "10.9.8.7" : NULL; ST.sdr_ip = k ? 0x0a090807 : 0x7f000001; if (k) PUT("rx_sdr_server_address=\"%s\"\n", ST.sdr);
    static const int TO[] = {5, 1, 30}; k = p == 1 ? mc_choose(3, 0, "read timeout") : 1; ST.timeout = TO[k]; if (k) PUT("read_timeout_seconds=%d\n", TO[k]);
    static const int QS[] = {64, 2, 8, 1}; k = p == 1 ? mc_choose(4, 0, "queue size") : 1; ST.queue = QS[k]; if (k) PUT("queue_size=%d\n", QS[k]);
    static const int BS[] = {64, 32, 100}; k = p == 1 ? mc_choose(3, 0, "buffer size") : 0; ST.buffer = BS[k]; PUT("buffer_size=%d\n", BS[k]);
    k = mc_choose(2, 0, "base path"); ST.base = k ? "/sim/two" : OUTDIR; PUT("base_path=\"%s\"\n", ST.base);
    ST.tx = mc_choose(3, 0, "tx_sdr_type"); if (ST.tx) PUT("tx_sdr_type=\"%s\"\n", ST.tx == 1 ? "file" : "none"); ST.tx = ST.tx == 1;
    k = mc_choose(2, 0, "rx_sdr_type"); if (k) PUT("rx_sdr_type=\"sdr-server\"\n");
    srv_port = ST.port; sdr_port = ST.sport;
    RXP[0] = rx_def(); RXP[0].dest = 1; TXP[0] = tx_def(); SDC.nsamples = (ST.queue > 8 ? 100 : 20) * ST.buffer; if (SDC.nsamples > NS) SDC.nsamples = NS / ST.buffer * ST.buffer;
    SDC.behaviour[1] = B_SILENT;
    env_listen(SDRPORT); env_only_at(SDRPORT, ST.sdr_ip); mc_spawn("sdr listener", sdr_listener, NULL);
    if (ST.queue > 8) ST.queue = (int) SDC.nsamples / ST.buffer - 2;   // nothing is dropped
    int u = mc_spawn("user", user, NULL);
    if (run_main(text)) mc_fail(K_ORACLE, "C19", "the program refuses the settings: %s", text);
    main_state = 1; mc_event(0x3a1e, 1);
    mc_wait_thread(u); env_unlisten(SDRPORT); mc_outcome("%s", text);
}
// ---------------------------------------------------------------- the radio, used by sessions at once
static iio_lib IIO; static int radio_left;
static bool radio_failed;
static bool radio_call(const char *c) {
    static const char *const PTS[] = {"push", "refill", "create_buffer", "frequency", "create context", "filter_fir_config"};
    for (int i = 0; i < 6; i++) if (!strcmp(c, PTS[i])) mc_yield("radio");
    mc_event(0xF1F1, 2);
    return mc_fault(FAULT_RADIO, "radio") ? radio_failed = true : false;
}
static int radio_len(int n) { if (radio_left > 0) { radio_left--; mc_sleep(100); return n; } mc_sleep(900); return -ETIMEDOUT; }
static void radio_conf(int left) {
    conf(1, 1, 64, 8); fi_reset(); fi_lib(&IIO); cfg.iio = &IIO; cfg.rx_plutosdr_gain = 11.5; cfg.tx_plutosdr_gain = -7.25; radio_left = left; expect_bits = 20; mc_cfg.max_timeouts = 400;
    for (int i = 0; i < 3; i++) {
        RXP[i] = rx_def(); RXP[i].rate = 600000; RXP[i].baud = 300000; RXP[i].dev = 60000; RXP[i].tw = 30000; RXP[i].center += 1000 * i;
        TXP[i] = tx_def(); TXP[i].rate = 600000; TXP[i].baud = 300000; TXP[i].dev = 60000; TXP[i].file = NULL; TXP[i].center += 1000 * i;
    }
    tx_n = 1; tx_sizes[0] = 9;
}
static int rx_owners, radio_busy[2], radio_ran; static size_t radio_txed; static int radio_order[8];
// a refusal as "in use" is right only while somebody else may hold it
static void refused_right(struct cli *c, int tx, int before) {
    if (c->details == (tx ? 4 : 5)) { if (!before && !radio_busy[tx]) mc_fail(K_ORACLE, "C06", "the %s of the radio is refused as being used although nobody has it", tx ? "transmitter" : "receiver"); else mc_hit("in use"); }
    else if (!radio_failed) mc_fail(K_ORACLE, "C06", "a request to the radio was refused with details %u", c->details);
}
static bool radio_queue;   // B comes while A is leaving
static void *radio_rx(void *a) {
    struct cli *c = a; if (radio_queue && c == &CL[1]) wait_flag(&SH2.a_attached, "B waits until A leaves");
    cl_connect(c); if (c->refused) return NULL;
    int before = radio_busy[0]++;
    run_request(c, rx_frame(P(c)));
    if (cl_response(c)) {
        if (++rx_owners > 1) mc_fail(K_ORACLE, "C06", "two sessions own the receiver of the radio");
        const char *w = fi_stream_wrong(false, P(c)->center, 600000, 11.5, 0); if (w) mc_fail(K_ORACLE, "C17", "%s", w);
        if (fi_fir_wrong(4, FI.fir_tx == 4 ? 4 : 0)) mc_fail(K_ORACLE, "C17", "%s", fi_fir_wrong(4, 4));
        cl_read(c, expect_bits, 20000);
        w = fi_stream_wrong(false, P(c)->center, 600000, 11.5, 0); if (w) mc_fail(K_ORACLE, "C17", "%s", w);
        mc_event(0x7077, 3); rx_owners--;
        int how = mc_choose(2, 0, "how the receiver leaves");
        if (how) cl_bye(c); else cl_close(c);
        set_flag(&SH2.a_attached);
        if (how) { cl_eof(c); cl_close(c); }
        mc_hit("received from the radio");
    } else { if (c->got) refused_right(c, 0, before); cl_eof(c); cl_close(c); }
    radio_busy[0]--; mc_event(0x7077, 4);
    return NULL;
}
static void *radio_tx(void *a) {
    struct cli *c = a; if (radio_queue && c == &CL[1]) wait_flag(&SH2.a_attached, "B waits until A leaves");
    cl_connect(c); if (c->refused) return NULL;
    int before = radio_busy[1]++;
    run_request(c, tx_frame(&TXP[c - CL]));
    if (cl_response(c)) {
        if (++tx_owners > 1) mc_fail(K_ORACLE, "C06", "two sessions own the transmitter of the radio");
        mc_event(0x7077, 1);
        const char *w = fi_stream_wrong(true, TXP[c - CL].center, 600000, -7.25, 0); if (w) mc_fail(K_ORACLE, "C17", "%s", w);
        struct enc *f = txdata_frame(0, tx_sizes[0]); cl_send(c, f->b, f->n);
        int st; uint32_t de; if (rd_frame(c, &st, &de)) { c->fst[c->nfr] = st; c->fdet[c->nfr++] = de; }
        radio_order[radio_ran++] = (int) (c - CL);
        w = fi_stream_wrong(true, TXP[c - CL].center, 600000, -7.25, 0); if (w) mc_fail(K_ORACLE, "C17", "%s", w);
        tx_owners--; mc_event(0x7077, 2);
        cl_bye(c); set_flag(&SH2.a_attached); mc_hit("transmitted by the radio");
    } else if (c->got) refused_right(c, 1, before);
    cl_eof(c); cl_close(c); radio_busy[1]--;
    return NULL;
}
static void radio_check(void) {
    mc_check_leaks(K_LEAKS);
    if (fi_held()) mc_fail(K_ORACLE, "C11", "%s of the radio is still held at the end", fi_held());
    static float complex ref[4000]; static float d[4000]; size_t at = 0; int64_t last = 0;
    for (int k = 0; k < radio_ran; k++) {   // what was acknowledged reached the radio, in order
        struct cli *c = &CL[radio_order[k]]; size_t n = ref_mod(&TXP[radio_order[k]], 0, tx_sizes[0], 64, ref, 4000);
        if (c->nfr != 1) { mc_fail(K_ORACLE, "C09", "client %s: no answer to transmit data", c->name); continue; }
        if (c->fst[0]) { if (!radio_failed) mc_fail(K_ORACLE, "C09", "client %s: transmit data was answered with failure %u", c->name, c->fdet[0]); return; }
        if (FI.ntx < at + n) { mc_fail(K_ORACLE, "C09", "%zu samples were given to the radio, %zu were acknowledged", FI.ntx, at + n); return; }
        for (size_t i = 0; i < n; i++) if (fabs(FI.tx[2 * (at + i)] - crealf(ref[i]) * 32752) > 90 || fabs(FI.tx[2 * (at + i) + 1] - cimagf(ref[i]) * 32752) > 90) { mc_fail(K_ORACLE, "C09", "sample %zu given to the radio by %s is wrong", i, c->name); return; }
        at += n;
    }
    if (radio_ran && FI.ntx != at && !radio_failed) mc_fail(K_ORACLE, "C09", "%zu samples were given to the radio, %zu were acknowledged", FI.ntx, at);
    (void) last;
    for (int i = 0; i < 3; i++) if (CL[i].got && CL[i].status == 0 && RXP[i].rate && !CL[i].nfr) {
        struct mc_file *f = fget(OUTDIR "/rx.sdr2demod.%d.cf32", CL[i].details); if (!f) { if (!fget(OUTDIR "/tx.mod2sdr.%d.cf32", CL[i].details)) mc_fail(K_ORACLE, "C08", "client %s: no dump", CL[i].name); continue; }
        const float *x = (const void *) f->data; size_t n = f->len / 4, s; if (n % 128) { mc_fail(K_ORACLE, "C08", "client %s: a dump of %zu samples", CL[i].name, n / 2); continue; }
        for (s = 0; s + n <= FI.nrx; s += 128) { size_t k = 0; while (k < n && x[k] == fi_rx_val((uint32_t) (s + k)) / 2048.0f) k++; if (k == n) break; }
        if (s + n > FI.nrx) mc_fail(K_ORACLE, "C08", "client %s: the dump is no run of what the radio delivered", CL[i].name);
        bits_check(&CL[i], &RXP[i], f, fget(OUTDIR "/rx.demod2client.%d.s8", CL[i].details), true, false);
    }
    (void) d; (void) radio_txed;
}
static void sc_radio(int p) {
    radio_conf(12);
    if (p == 4) mc_cfg.faults = FAULT_RADIO;
    if (!start_server()) return;
    radio_queue = p >= 6;
    void *(*fa)(void *) = p == 2 || p == 6 || p == 8 ? radio_tx : radio_rx, *(*fb)(void *) = p == 0 || p == 1 || p == 7 || p == 8 ? radio_rx : radio_tx;
    int a = mc_spawn("client A", fa, &CL[0]);
    if (p == 1) mc_wait_thread(a);
    if (p == 5) wait_progress(mc_choose(5, 0, "milestone at which the server is stopped"));
    else {
        int b = mc_spawn("client B", fb, &CL[1]);
        if (p != 1) mc_wait_thread(a);
        mc_wait_thread(b);
        ping_alive();
    }
    stop_server();
    if (p == 5) mc_wait_thread(a);
    radio_check();
    for (int i = 0; i < 2; i++) mc_outcome("%d%d/%u ", CL[i].got, CL[i].status, CL[i].details);
    if (p == 3 && !radio_failed) for (int i = 0; i < 2; i++) want_ok(&CL[i]);
}
#define S(n, props, fn, p, bq, bt, pol, cap) {n, props, fn, p, bq, bt, pol, cap}
struct scenario scenarios[] = {
    S("rx file dump", "C02 C03 C04 C08 C11", sc_rx, 0, 1, 3, 0x09, 20),
    S("rx socket", "C02 C04 C08 C16 C01", sc_rx, 1, 1, 3, 0x29, 20),
    S("rx both", "C02 C03 C04 C08 C11 C16 C01", sc_rx, 2, 2, 3, 0x09, 30),
    S("rx file, SDR ends", "C08", sc_rx, 3, 1, 3, 0x29, 20),
    S("rx both, SDR ends", "C02 C03 C08 C16", sc_rx, 5, 1, 3, 0x29, 20),
    S("rx client disconnects anywhere", "C02 C03 C04 C11", sc_rx_abort, 1, 2, 3, 0x29, 30),
    S("rx client disconnects anywhere, then ping", "C02 C11", sc_rx_abort, 5, 1, 3, 0x49, 30),
    S("rx and stop of the server", "C02 C03 C11 C01", sc_rx_stop, 1, 1, 3, 0x29, 25),
    S("rx to file and stop of the server", "C02 C03 C08", sc_rx_stop, 2, 1, 3, 0x09, 25),
    S("two receivers join and leave", "C02 C03 C07 C11 C01", sc_share, 0, 2, 3, 0x29, 150),
    S("second receiver joins", "C02 C04 C07 C08", sc_share, 1, 1, 3, 0x29, 30),
    S("second receiver with a smaller rate", "C07", sc_share, 2, 1, 2, 0x08, 20),
    S("shared stream", "C07 C03", sc_share_hold, 0, 1, 2, 0x09, 25),
    S("other frequency", "C07 C16", sc_share_hold, 1, 1, 2, 0x08, 20),
    S("higher rate", "C07", sc_share_hold, 2, 1, 2, 0x08, 20),
    S("other offset", "C07 C16", sc_share_hold, 3, 1, 2, 0x08, 20),
    S("same channel of another band", "C07 C16", sc_share_hold, 4, 1, 2, 0x08, 20),
    S("first of two receivers leaves", "C07 C03 C02 C08", sc_share_leave, 0, 1, 2, 0x09, 25),
    S("not reading, other client shares", "C03 C07", sc_noread, 0, 1, 2, 0x09, 30),
    S("not reading, other client elsewhere", "C03", sc_noread, 1, 1, 2, 0x08, 30),
    S("not reading, server stops", "C03 C02 C11", sc_noread, 2, 1, 2, 0x29, 30),
    S("not reading, then gone", "C03 C02 C11 C01", sc_noread, 3, 1, 2, 0x29, 30),
    S("sdr refuses", "C16 C11 C04", sc_sdr, 0, 1, 2, 0x01, 20),
    S("sdr closes early", "C16 C11 C02", sc_sdr, 1, 1, 2, 0x08, 20),
    S("sdr silent", "C16 C11 C03", sc_sdr, 2, 1, 2, 0x08, 20),
    S("sdr bad version", "C16", sc_sdr, 3, 1, 2, 0x08, 20),
    S("sdr bad type", "C16", sc_sdr, 4, 1, 2, 0x08, 20),
    S("sdr short answer", "C16", sc_sdr, 5, 1, 2, 0x08, 20),
    S("sdr stalls within the answer", "C16 C03", sc_sdr, 10, 1, 2, 0x08, 20),
    S("sdr ignores the shutdown", "C16 C03 C11", sc_sdr, 6, 1, 2, 0x09, 20),
    S("sdr streams on after the shutdown", "C16 C03", sc_sdr, 11, 1, 2, 0x09, 20),
    S("sdr slow and unaligned", "C16 C08", sc_sdr, 7, 1, 2, 0x09, 25),
    S("sdr vanishes", "C16 C03 C04", sc_sdr_vanishes, 0, 1, 2, 0x09, 20),
    S("sdr vanishes, stop", "C16 C03", sc_sdr_vanishes, 1, 1, 2, 0x09, 20),
    S("sdr cut in a sample", "C16 C08", sc_sdr, 8, 1, 2, 0x09, 20),
    S("sdr ends, next client", "C16 C07 C02", sc_sdr, 9, 1, 2, 0x09, 20),
    S("no sdr server", "C16 C11", sc_sdr_down, 0, 1, 2, 0x09, 20),
    S("joining an ended stream", "C07 C08", sc_sdr_ended, 0, 1, 2, 0x09, 25),
    S("tx", "C02 C03 C04 C09 C11", sc_tx, 0, 2, 3, 0x09, 25),
    S("tx of little", "C09 C04", sc_tx, 1, 1, 2, 0x09, 20),
    S("tx of much", "C09 C10", sc_tx_big, 0, 0, 1, 0x09, 20),
    S("tx of the largest message", "C09 C10", sc_tx_big, 1, 0, 1, 0x09, 40),
    S("tx client disconnects anywhere", "C02 C03 C11", sc_tx_abort, 0, 2, 3, 0x29, 30),
    S("tx again", "C06 C09 C02", sc_tx_again, 0, 2, 3, 0x39, 40),
    S("tx again into the same file", "C06", sc_tx_again, 1, 1, 3, 0x39, 30),
    S("two transmitters", "C06 C02 C04", sc_tx_two, 0, 2, 3, 0x29, 30),
    S("two transmitters, one file", "C06", sc_tx_two, 1, 1, 3, 0x29, 30),
    S("tx client does not read", "C03 C02 C11", sc_tx_noread, 0, 1, 2, 0x29, 30),
    S("tx client does not read, ping", "C03", sc_tx_noread, 1, 1, 2, 0x09, 30),
    S("tx client reads late", "C04 C10 C09", sc_tx_late, 0, 1, 2, 0x29, 25),
    S("tx and stop of the server", "C02 C03 C11", sc_tx_stop, 0, 1, 3, 0x29, 25),
    S("file rx to file", "C08 C11 C02", sc_file_rx, 0, 1, 2, 0x29, 25),
    S("file rx to socket", "C08 C03", sc_file_rx, 1, 1, 2, 0x09, 25),
    S("file rx, leaves at the end", "C03 C18 C11", sc_file_rx_leave, 0, 2, 3, 0x29, 25),
    S("file rx to socket, leaves at the end", "C03 C08", sc_file_rx_leave, 1, 1, 3, 0x29, 25),
    S("empty file rx, leaves", "C03 C18", sc_file_rx_leave, 2, 1, 3, 0x29, 25),
    S("file rx, slow disk, queue of one", "C08", sc_file_rx_slow, 0, 1, 2, 0x09, 25),
    S("file rx, slow disk", "C08 C01", sc_file_rx_slow, 1, 1, 2, 0x09, 25),
    S("file rx, not reading, stop", "C03 C02", sc_file_rx_stuck, 0, 1, 2, 0x29, 25),
    S("file rx, not reading, gone", "C03", sc_file_rx_stuck, 1, 1, 2, 0x29, 25),
    S("file rx, not reading, bye", "C03 C11", sc_file_rx_stuck, 2, 1, 2, 0x29, 25),
    S("endless file rx, leaves", "C03 C18 C11", sc_file_rx_endless, 0, 1, 2, 0x09, 20),
    S("endless file rx, gone", "C03 C11", sc_file_rx_endless, 1, 1, 2, 0x09, 20),
    S("endless file rx, stop", "C03", sc_file_rx_endless, 2, 1, 2, 0x09, 20),
    S("endless file rx to a file, leaves", "C03", sc_file_rx_endless, 3, 1, 2, 0x09, 20),
    S("rx with faults", "C02 C03 C04 C08 C11", sc_rx_fault, 0, 1, 2, 0x29, 25),
    S("file rx with faults", "C02 C03 C08 C11", sc_rx_fault, 1, 1, 2, 0x29, 25),
    S("disk full with two receivers", "C03 C07", sc_rx_fault, 2, 1, 2, 0x09, 25),
    S("accept with faults", "C02 C03 C11", sc_accept_fault, 0, 1, 2, 0x29, 25),
    S("slow reader", "C08 C10", sc_slow_reader, 0, 1, 2, 0x09, 25),
    S("slow reader of a file", "C08", sc_slow_reader, 1, 1, 2, 0x09, 25),
    S("tx with faults", "C02 C03 C04 C09 C11", sc_tx_fault, 0, 2, 3, 0x29, 25),
    S("invalid request beside a session", "C04 C05 C11 C02", sc_invalid_and_valid, 0, 1, 2, 0x29, 25),
    S("two corrected receivers", "C02 C05 C15 C08 C01", sc_doppler, 0, 1, 2, 0x29, 25),
    S("corrected receiver and transmitter", "C02 C15 C09", sc_doppler, 1, 1, 2, 0x29, 25),
    S("two corrected receivers, two streams", "C02 C15", sc_doppler, 2, 1, 2, 0x09, 25),
    S("program, stopped by signals", "C03 C02 C11", sc_main, 1, 1, 2, 0x29, 120),
    S("program, signals at once", "C03 C02", sc_main, 0, 2, 3, 0x29, 30),
    S("program, signals as soon as possible", "C03 C02", sc_main, 2, 2, 3, 0x29, 30),
    S("program without an argument", "C03", sc_main_fails, 0, 0, 0, 0x01, 10),
    S("program without a configuration", "C03", sc_main_fails, 1, 0, 0, 0x01, 10),
    S("program with a bad configuration", "C03", sc_main_fails, 2, 0, 0, 0x01, 10),
    S("program with faults", "C03 C11", sc_main_fails, 3, 1, 2, 0x29, 20),
    S("settings: addresses", "C19", sc_settings, 0, 0, 1, 0x01, 60),
    S("settings: sizes and times", "C19", sc_settings, 1, 0, 1, 0x01, 60),
    S("radio, two receivers", "C06 C17 C02 C11", sc_radio, 0, 2, 3, 0x29, 60),
    S("radio, receivers in turn", "C06 C17 C08", sc_radio, 1, 2, 3, 0x29, 60),
    S("radio, two transmitters", "C06 C17 C09", sc_radio, 2, 2, 3, 0x29, 60),
    S("radio, receiver and transmitter", "C17 C02 C03 C11", sc_radio, 3, 2, 3, 0x29, 60),
    S("radio with faults", "C17 C11 C03 C09", sc_radio, 4, 1, 3, 0x09, 30),
    S("radio, transmitter leaves, transmitter comes", "C06 C17 C11 C02", sc_radio, 6, 2, 3, 0x29, 60),
    S("radio, receiver leaves, receiver comes", "C06 C17 C11 C02", sc_radio, 7, 2, 3, 0x29, 60),
    S("radio, transmitter leaves, receiver comes", "C17 C11 C02", sc_radio, 8, 2, 3, 0x29, 60),
    S("radio and stop of the server", "C03 C17 C02 C11", sc_radio, 5, 2, 3, 0x29, 60),
    S("rx out of memory", "C23", sc_oom_rx, 0, 1, 2, 0x29, 40),
    S("file rx out of memory", "C23", sc_oom_rx, 1, 1, 2, 0x29, 40),
    S("tx out of memory", "C23", sc_oom_tx, 0, 1, 2, 0x29, 40),
    S("tx with offset out of memory", "C23", sc_oom_tx, 1, 1, 2, 0x29, 40),
};
int n_scenarios = sizeof scenarios / sizeof *scenarios;
