// mcrt: a small stateless model checking runtime for the real sdr-modem code.
#ifndef MCRT_H
#define MCRT_H
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>

enum {
    K_MEM = 1, K_RACE = 2, K_FD = 4, K_CRASH = 8, K_DEADLOCK = 16, K_HANG = 32,
    K_LEAKMEM = 64, K_LEAKFD = 128, K_LEAKTHR = 256, K_DEV = 512, K_ORACLE = 1024, K_JOIN = 2048
};
#define K_LEAKS (K_LEAKMEM | K_LEAKFD | K_LEAKTHR | K_DEV)

// ---- per execution configuration, set by the scenario at its start
struct mc_cfg {
    int dev_timeouts;    // blocked receive with a timeout may expire early, as a deviation
    int short_reads;     // recv/fread may return less than available: 0 no, 1 as deviation, 2 free choice
    int short_writes;    // as above for write
    int eintr;           // recv/write interrupted by a signal, as deviation
    int faults;          // bit set of FAULT_*: calls that may fail, as deviation
    int oom;             // allocations may fail, as deviation
    int max_faults;      // at most so many injected faults per execution (0 = 1)
    int sock_cap;        // capacity of each socket direction
    int max_timeouts;    // horizon: expirations before the execution is called hung
    int spurious;        // at most so many wakeups of condition waits without a signal, as deviations
    int slow_disk;       // other threads run while a write to a file is under way
    int sigpipe_ignored; // 0: writing to a closed connection kills the process
};
extern struct mc_cfg mc_cfg;
extern int mc_faulted;   // the kinds of faults that happened in this execution
enum { FAULT_SOCK = 1, FAULT_THREAD = 2, FAULT_FOPEN = 4, FAULT_FWRITE = 8, FAULT_FREAD = 16, FAULT_SETSOCKOPT = 32, FAULT_SETUP = 64, FAULT_ACCEPT = 128, FAULT_RADIO = 256 };

// ---- choices and verdicts
int mc_choose(int n, int cost, const char *label);
void mc_fail(int kind, const char *prop, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
void mc_outcome(const char *fmt, ...) __attribute__((format(printf, 1, 2)));  // appended to the outcome of the execution
void mc_note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));     // trace only
extern int mc_verbose;

// ---- scheduling
int mc_spawn(const char *name, void *(*fn)(void *), void *arg);   // environment thread
bool mc_op(bool (*pred)(void *), void *arg, int64_t deadline_ms, const char *label);
void mc_event(uint64_t obj, uint64_t op);
void mc_wait_thread(int id);
bool mc_thread_done(int id);
int64_t mc_now(void);
int mc_self(void);
void mc_yield(const char *label);
void mc_sleep(int64_t ms);       // virtual time
const char *mc_thread_name(int id);

// ---- environment side of the sockets
typedef struct mc_conn mc_conn;
int env_listen(int port);                        // register a mock server
void env_unlisten(int port);
bool env_listening(int port);
bool env_bound(int port, uint32_t addr);          // the server listens on this port of exactly this address (0: every one)
void env_silent(int port);                        // from now on the host of this mock server drops every packet
void env_only_at(int port, uint32_t addr);        // a mock server is reachable at this address only
mc_conn *env_accept(int port);                   // blocks
mc_conn *env_accept_any(void);
bool mc_handled(int sig);
int mc_raise(int sig);        // by an environment thread: 0 the process is killed, 1 ignored, 2 delivered to the main thread
extern void (*mc_exit_hook)(int);
mc_conn *env_connect(int port);                  // NULL if refused
mc_conn *env_try_connect_wait(int port);         // waits until the port listens, or refused when the server stopped
int env_send(mc_conn *c, const void *buf, size_t len);   // blocks until accepted, -1 when the peer is gone
int env_recv(mc_conn *c, void *buf, size_t len);         // blocks; returns bytes (<=len), 0 on end of stream
int env_recv_full(mc_conn *c, void *buf, size_t len);    // number of bytes read before the end of stream
void env_delay(int64_t ms);                                             // the thread does nothing for that long
int env_recv_timeout(mc_conn *c, void *buf, size_t len, int64_t ms); // -2 on timeout
void env_close(mc_conn *c);
bool env_peer_closed(mc_conn *c);                 // no blocking
size_t env_pending(mc_conn *c);
int mc_conn_fd(mc_conn *c);                       // descriptor number of the server's side (0 if not accepted)
void env_wait_writable_space(mc_conn *c);

// ---- resources
int mc_open_fds(void);
long mc_live_allocs(void);
void mc_check_leaks(int what);
void mc_ignore_live_allocs(void);                 // everything allocated so far is not the session's
void *mcw_malloc(size_t n);
void mcw_free(void *p);
int mc_live_server_threads(void);

// ---- simulated files
struct mc_file { char name[256]; uint8_t *data; size_t len, cap; bool exists, is_dir, endless; int fail_after; uint8_t *pending; };
struct mc_file *mc_file_get(const char *name);    // NULL if it does not exist
struct mc_file *mc_file_put(const char *name, const void *data, size_t len);
int mc_open_files(void);

// ---- scenarios
struct scenario {
    const char *name;
    const char *props;            // "C02 C03"
    void (*fn)(int param);
    int param;
    int bound_quick, bound_thorough;   // deviation bounds
    int policies;                      // bit mask of default scheduling policies (quick); thorough uses all
    int cap_quick_s;                   // safety cap in seconds for the quick tier
};
extern struct scenario scenarios[];
extern int n_scenarios;
void mc_hit(const char *what);                    // count how often something interesting happened (coverage)

uint64_t mc_rand_free(void);
#endif
