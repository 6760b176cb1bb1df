// C01: the hand-off queue under all interleavings of producer, consumer and interrupter.
#include "mcrt.h"
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <errno.h>
#include <pthread.h>
#include <complex.h>
#include "queue.h"

int mcw_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int mcw_pthread_join(pthread_t, void **);

#define BUF 4
// operations observed, in real time order (cooperative scheduling: recording is atomic)
struct ctx {
    queue *q; bool blocking; int size; int nput; int who_interrupts;
    int put_called, put_ok, put_rejected, interrupted;
    int taken[64], ntaken, ended;   // ended: consumer was told that the stream ended
    int put_seq[64]; int nputseq;   // accepted puts in order of completion
    int max_len;
};
static struct ctx C;
static const size_t lens[] = {2, 4, 1, 3, 4, 2, 1};   // different lengths: a mixed-up length shows

static void fill(float complex *b, int seq) { for (int i = 0; i < BUF; i++) b[i] = seq * 10 + i + I * (seq * 7 + 1); }
static void one_put(int seq) {
    float complex *b = mcw_malloc(sizeof(float complex) * BUF);
    fill(b, seq);
    int intr_before = C.interrupted;
    C.put_called++;
    int code = queue_put(b, lens[seq % 7], C.q);
    // the caller's buffer may be reused immediately
    memset(b, 0x55, sizeof(float complex) * BUF);
    mcw_free(b);
    if (code == 0) { C.put_ok++; C.put_seq[C.nputseq++] = seq; }
    else {
        C.put_rejected++;
        if (!C.blocking && C.size > 1) mc_fail(K_ORACLE, "C01", "a put into a non-blocking queue was refused");
        if (C.blocking && !C.interrupted) mc_fail(K_ORACLE, "C01", "a put was refused although the queue was not interrupted");
    }
    (void) intr_before;
}
static void *producer(void *a) {
    (void) a;
    for (int i = 0; i < C.nput; i++) one_put(i);
    if (C.who_interrupts == 1) { C.interrupted = 1; interrupt_waiting_the_data(C.q); }
    return NULL;
}
static void *interrupter(void *a) {
    (void) a;
    C.interrupted = 1;
    interrupt_waiting_the_data(C.q);
    return NULL;
}
static void *consumer(void *a) {
    int limit = *(int *) a;
    for (;;) {
        float complex *b = NULL; size_t len = 0;
        if (limit >= 0 && C.ntaken >= limit) {
            // the consumer gives up: it must release a producer that waits for it
            C.interrupted = 1;
            interrupt_waiting_the_data(C.q);
            return NULL;
        }
        take_buffer_for_processing(&b, &len, C.q);
        if (b == NULL) {
            if (!C.interrupted) mc_fail(K_ORACLE, "C01", "the consumer was told that the stream ended although nobody interrupted the queue");
            C.ended = 1; return NULL;
        }
        // which buffer is it? the content must be one that was put, complete and with its length
        float complex copy[BUF];
        int seq = (int) (crealf(b[0]) / 10 + 0.5f);
        if (seq < 0 || seq >= C.nput || len != lens[seq % 7]) mc_fail(K_ORACLE, "C01", "taken buffer is not one that was put (len %zu, first %g)", len, crealf(b[0]));
        fill(copy, seq);
        for (int k = 0; k < 3; k++) {
            for (size_t i = 0; i < len; i++) if (b[i] != copy[i]) mc_fail(K_ORACLE, "C01", k ? "buffer %d changed while the consumer was reading it" : "buffer %d was damaged", seq);
            mc_yield("processing");   // a slow consumer: others run while the buffer is detached
            mc_event(0x99, 1);
        }
        if (C.ntaken && C.taken[C.ntaken - 1] >= seq) mc_fail(K_ORACLE, "C01", "buffer %d taken after %d", seq, C.taken[C.ntaken - 1]);
        C.taken[C.ntaken++] = seq;
        complete_buffer_processing(C.q);
    }
}
static void run(bool blocking, int size, int nput, int mode) {
    memset(&C, 0, sizeof C);
    C.blocking = blocking; C.size = size; C.nput = nput; C.who_interrupts = mode == 0;
    int code = create_queue(BUF, size, blocking, &C.q);
    if (code != 0) mc_fail(K_ORACLE, "C01", "queue was not created: %d", code);
    pthread_t p, c, i = 0; int limit = mode == 2 ? 1 : mode == 3 ? 0 : -1;
    mcw_pthread_create(&c, NULL, consumer, &limit);
    mcw_pthread_create(&p, NULL, producer, NULL);
    if (mode == 1) mcw_pthread_create(&i, NULL, interrupter, NULL);
    mcw_pthread_join(p, NULL);
    if (i) mcw_pthread_join(i, NULL);
    mcw_pthread_join(c, NULL);
    // everything accepted before the interruption is delivered, unless overwritten in non-blocking mode
    if (mode == 0 && blocking) {
        if (C.put_ok != nput || C.ntaken != nput) mc_fail(K_ORACLE, "C01", "blocking queue lost buffers: %d put, %d accepted, %d taken", nput, C.put_ok, C.ntaken);
    }
    if (mode <= 1 && blocking && C.ntaken != C.put_ok) {
        // puts accepted after the consumer saw the end are impossible in blocking mode
        mc_fail(K_ORACLE, "C01", "blocking queue delivered %d of %d accepted buffers", C.ntaken, C.put_ok);
    }
    if (mode == 0 && !blocking) {
        // the producer interrupts after its last put: at most one drop for each put into a full queue; at least the
        // buffers that fit were never dropped
        if (C.put_ok != nput && size > 1) mc_fail(K_ORACLE, "C01", "non-blocking queue refused a put");
        int keep = nput < size ? nput : size;
        if (C.ntaken < keep) mc_fail(K_ORACLE, "C01", "non-blocking queue of size %d delivered only %d of %d buffers", size, C.ntaken, nput);
        if (nput <= size && C.ntaken != nput) mc_fail(K_ORACLE, "C01", "a buffer was dropped although the queue was never full");
        if (nput > 0 && (C.ntaken == 0 || C.taken[C.ntaken - 1] != nput - 1) && size > 1) mc_fail(K_ORACLE, "C01", "the newest buffer was dropped instead of an older one");
    }
    if (mode == 0 && !C.ended) mc_fail(K_ORACLE, "C01", "the consumer was never told that the stream ended");
    destroy_queue(C.q);
    mc_check_leaks(K_LEAKS);
    mc_outcome("taken:"); for (int k = 0; k < C.ntaken; k++) mc_outcome(" %d", C.taken[k]); mc_outcome(" rejected %d ended %d", C.put_rejected, C.ended);
    mc_hit(C.put_rejected ? "put refused after interruption" : C.ntaken < C.put_ok ? "overwritten" : "all delivered");
}
static void sc(int p) { mc_cfg.spurious = p >> 10; run(p & 1, (p >> 1) & 7, (p >> 4) & 7, (p >> 7) & 7); }

// sequential semantics: every operation sequence up to a length against a list
static void seq(int p) {
    bool blocking = p & 1; int size = (p >> 1) & 7, depth = p >> 4;
    memset(&C, 0, sizeof C); C.nput = 64;
    queue *q; if (create_queue(BUF, size, blocking, &q)) mc_fail(K_ORACLE, "C01", "queue was not created");
    // reference: the accepted buffers that may still be waiting, and how many of them have been given up. Which one a full
    // non-blocking queue gives up is left open, except that it waits (is not being read) and is not the newest one.
    int ref[64], n = 0, drops = 0, next = 0, det = -1, poisoned = 0, took = 0; float complex *db = NULL;
    for (int d = 0; d < depth; d++) {
        // 0 put, 1 take, 2 complete, 3 interrupt, 4 put of an empty or too large buffer
        int en[5], ne = 0;
        if (!(blocking && n - drops + (det >= 0) == size && !poisoned)) en[ne++] = 0;   // else it would wait: see the concurrent scenarios
        if (det < 0 && (n > drops || poisoned)) en[ne++] = 1;
        if (det >= 0) en[ne++] = 2;
        if (!poisoned) en[ne++] = 3;
        if (d == 2) en[ne++] = 4;
        int op = en[mc_choose(ne, 0, "operation")];
        if (op == 0) {
            int used = n - drops + (det >= 0);
            float complex b[BUF]; fill(b, next);
            int code = queue_put(b, lens[next % 7], q);
            if (blocking && poisoned) { if (code == 0) mc_fail(K_ORACLE, "C01", "put accepted after the interruption"); continue; }
            mc_outcome("p");
            if (used == size && n == drops) { next++; mc_hit("put while the only buffer is being read"); continue; }   // it cannot be stored
            if (code != 0) mc_fail(K_ORACLE, "C01", "put refused: %d", code);
            if (used == size) { drops++; mc_hit("put into a full queue"); }
            ref[n++] = next++;
        } else if (op == 1) {
            size_t len = 0; float complex *b = (void *) 1;
            take_buffer_for_processing(&b, &len, q);
            mc_outcome("t");
            if (n == drops) { if (b != NULL) mc_fail(K_ORACLE, "C01", "a buffer was delivered from an empty interrupted queue"); continue; }
            if (b == NULL) mc_fail(K_ORACLE, "C01", "queued buffer was not delivered");
            int k = 0; float complex c[BUF];
            for (; k < n; k++) {
                bool same = len == lens[ref[k] % 7];
                fill(c, ref[k]);
                for (size_t i = 0; same && i < len; i++) if (b[i] != c[i]) same = false;
                if (same) break;
            }
            if (k == n) mc_fail(K_ORACLE, "C01", "the delivered buffer (%zu samples, first %g) is not one of the waiting ones", len, crealf(b[0]));
            if (k > drops) mc_fail(K_ORACLE, "C01", "buffer %d was delivered before %d, which was not given up", ref[k], ref[0]);
            drops -= k;
            det = ref[k]; db = b; n -= k + 1; memmove(ref, ref + k + 1, sizeof(int) * n); took++;
            if (n && drops >= n) mc_fail(K_ORACLE, "C01", "the newest buffer was given up");
        } else if (op == 2) {
            float complex c[BUF]; fill(c, det);
            for (size_t i = 0; i < lens[det % 7]; i++) if (db[i] != c[i]) mc_fail(K_ORACLE, "C01", "detached buffer %d was overwritten", det);
            complete_buffer_processing(q);
            mc_outcome("c");
            det = -1;
        } else if (op == 3) {
            interrupt_waiting_the_data(q); poisoned = 1; mc_outcome("i");
        } else {
            float complex b[BUF * 4]; fill(b, 1);
            if (queue_put(b, 0, q) == 0) mc_fail(K_ORACLE, "C01", "an empty buffer was accepted");
            if (queue_put(NULL, 1, q) == 0) mc_fail(K_ORACLE, "C01", "a NULL buffer was accepted");
            if (queue_put(b, BUF + 1, q) == 0) mc_fail(K_ORACLE, "C01", "a too large buffer was accepted");
        }
    }
    if (det >= 0 && took & 1) complete_buffer_processing(q);   // destroyed with and without a detached buffer
    destroy_queue(q);
    queue *z = NULL;
    if (create_queue(BUF, 0, blocking, &z) == 0 || create_queue(0, 2, blocking, &z) == 0) mc_fail(K_ORACLE, "C01", "a queue without room was created");
    interrupt_waiting_the_data(NULL);
    mc_check_leaks(K_LEAKS);
}
#define P(bl, size, n, mode) ((bl) | (size) << 1 | (n) << 4 | (mode) << 7)
#define S(bl, size, n, mode) (P(bl, size, n, mode) | 1 << 10)
#define Q(bl, size, depth) ((bl) | (size) << 1 | (depth) << 4)
#define B 14
struct scenario scenarios[] = {
    {"blocking size 1, 3 puts", "C01", sc, P(1, 1, 3, 0), B, B, 1, 60},
    {"blocking size 2, 3 puts", "C01", sc, P(1, 2, 3, 0), B, B, 1, 60},
    {"blocking size 3, 4 puts", "C01", sc, P(1, 3, 4, 0), 4, 14, 1, 60},
    {"overwriting size 1, 2 puts", "C01", sc, P(0, 1, 2, 0), B, B, 1, 60},
    {"overwriting size 1, 3 puts", "C01", sc, P(0, 1, 3, 0), B, B, 1, 60},
    {"overwriting size 2, 4 puts", "C01", sc, P(0, 2, 4, 0), B, B, 1, 60},
    {"overwriting size 3, 5 puts", "C01", sc, P(0, 3, 5, 0), 4, 14, 1, 60},
    {"blocking size 1, interrupted", "C01", sc, P(1, 1, 2, 1), B, B, 1, 60},
    {"blocking size 2, interrupted", "C01", sc, P(1, 2, 3, 1), B, B, 1, 60},
    {"overwriting size 2, interrupted", "C01", sc, P(0, 2, 3, 1), B, B, 1, 60},
    {"blocking size 1, consumer gives up", "C01", sc, P(1, 1, 3, 2), B, B, 1, 60},
    {"blocking size 2, consumer gives up at once", "C01", sc, P(1, 2, 3, 3), B, B, 1, 60},
    {"blocking size 1, 3 puts, spurious wakeups", "C01", sc, S(1, 1, 3, 0), 4, B, 1, 60},
    {"blocking size 2, 3 puts, spurious wakeups", "C01", sc, S(1, 2, 3, 0), 4, B, 1, 60},
    {"overwriting size 1, 3 puts, spurious wakeups", "C01", sc, S(0, 1, 3, 0), 6, B, 1, 60},
    {"overwriting size 2, 4 puts, spurious wakeups", "C01", sc, S(0, 2, 4, 0), 4, B, 1, 60},
    {"blocking size 2, interrupted, spurious wakeups", "C01", sc, S(1, 2, 3, 1), 4, B, 1, 60},
    {"overwriting size 2, interrupted, spurious wakeups", "C01", sc, S(0, 2, 3, 1), 4, B, 1, 60},
    {"sequences overwriting size 1", "C01", seq, Q(0, 1, 10), 0, 0, 1, 60},
    {"sequences overwriting size 2", "C01", seq, Q(0, 2, 10), 0, 0, 1, 60},
    {"sequences overwriting size 3", "C01", seq, Q(0, 3, 10), 0, 0, 1, 60},
    {"sequences blocking size 1", "C01", seq, Q(1, 1, 10), 0, 0, 1, 60},
    {"sequences blocking size 2", "C01", seq, Q(1, 2, 10), 0, 0, 1, 60},
    {"sequences blocking size 3", "C01", seq, Q(1, 3, 10), 0, 0, 1, 60},
};
int n_scenarios = sizeof scenarios / sizeof *scenarios;
