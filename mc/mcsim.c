// mcsim.c: simulated descriptors, sockets, files.
#define _GNU_SOURCE
#include "mcint.h"
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <poll.h>
#include <sys/uio.h>
#include <sys/ioctl.h>

#define RA __builtin_return_address(0)
#define FD0 500
#define MAXFD 1024
#define MAXLS 8

struct pipe_ { uint8_t *buf; size_t len, cap; bool wr_closed, rd_closed; int id; };
enum { F_NONE, F_SOCK, F_LISTEN, F_CONN };
struct mc_conn { struct pipe_ *in, *out; int fd; bool closed; bool accepted; };   // environment side
struct fdesc { int kind, refs; bool open, released, shut_rd, shut_wr; struct pipe_ *in, *out; int64_t rcvto, sndto; int port; uint32_t addr; int lst; char where[48]; int users; bool nonblock; };
static struct fdesc fds[MAXFD]; static int nfds;
struct listener { int port; uint32_t addr; bool open, env, used, silent; mc_conn *q[16]; int fdq[16]; int n, max; };
static struct listener lst[MAXLS]; static int nlst;
static int npipes;
static int server_stopped_ports;

void mc_sim_init(void) {}

static struct pipe_ *new_pipe(void) {
    struct pipe_ *p = calloc(1, sizeof *p);
    p->cap = mc_cfg.sock_cap ? mc_cfg.sock_cap : 65536;
    p->buf = malloc(p->cap + 70000);
    p->id = npipes++;
    return p;
}
#define OBJP(p) (0x100000ull + (uint64_t) (p)->id)
#define OBJFD 0x200000ull
#define OBJL(l) (0x300000ull + (uint64_t) (l))
#define OBJF(f) (0x400000ull + (uint64_t) (f))
static void where(char *o, size_t n) { snprintf(o, n, "%s", cur && cur->sp ? mc_sym(cur->pcs[cur->sp - 1]) : "?"); }
static const char *wh(void) { static char b[4][60]; static int k; k = (k + 1) % 4; where(b[k], 60); if (cur && cur->sp > 1) { size_t l = strlen(b[k]); snprintf(b[k] + l, 60 - l, "<-%s", mc_sym(cur->pcs[cur->sp - 2])); } return b[k]; }

static int new_fd(int kind) {
    if (nfds >= MAXFD) { errno = EMFILE; return -1; }
    struct fdesc *f = &fds[nfds];
    memset(f, 0, sizeof *f);
    f->kind = kind; f->refs = 1; f->open = true; f->rcvto = f->sndto = -1; f->lst = -1;
    where(f->where, sizeof f->where);
    return FD0 + nfds++;
}
static bool ours(int fd) { return fd >= FD0 && fd < FD0 + MAXFD; }
static struct fdesc *get(int fd, const char *op) {
    if (!ours(fd) || fd >= FD0 + nfds) {
        if (fd < 0 || ours(fd)) { errno = EBADF; return NULL; }
        mc_fail(K_FD, NULL, "%s on descriptor %d that was never opened, in %s", op, fd, wh());
        errno = EBADF; return NULL;
    }
    struct fdesc *f = &fds[fd - FD0];
    if (!f->open) {
        mc_fail(K_FD, NULL, "%s on a descriptor that was already closed, in %s (opened in %s)", op, wh(), f->where);
        errno = EBADF; return NULL;
    }
    return f;
}
static void release(struct fdesc *f) {
    if (f->released) return;
    f->released = true;
    if (f->out) { f->out->wr_closed = true; mc_event(OBJP(f->out), 40); }
    if (f->in) { f->in->rd_closed = true; mc_event(OBJP(f->in), 41); }
    if (f->kind == F_LISTEN && f->lst >= 0) {
        struct listener *l = &lst[f->lst];
        l->open = false;
        for (int i = 0; i < l->n; i++) { l->q[i]->in->wr_closed = true; l->q[i]->out->rd_closed = true; }
        l->n = 0;
        mc_event(OBJL(f->lst), 42);
    }
}
static void unref(struct fdesc *f) { if (--f->refs == 0) release(f); }

int mc_open_fds(void) { int n = 0; for (int i = 0; i < nfds; i++) n += fds[i].open; return n; }
// ------------------------------------------------------------------ socket calls of the server
int mcw_socket(int d, int t, int p) {
    (void) d; (void) t; (void) p;
    if (mc_fault(FAULT_SOCK, "socket")) { errno = EMFILE; return -1; }
    mc_yield("socket");
    mc_event(OBJFD, 50);
    return new_fd(F_SOCK);
}
int mcw_setsockopt(int fd, int level, int name, const void *v, socklen_t len) {
    (void) len;
    struct fdesc *f = get(fd, "setsockopt");
    if (!f) return -1;
    if (mc_fault(FAULT_SETSOCKOPT, "setsockopt")) { errno = ENOMEM; return -1; }
    if (level == SOL_SOCKET && (name == SO_RCVTIMEO || name == SO_SNDTIMEO)) {
        const struct timeval *tv = v;
        if (tv->tv_sec < 0) tv = &(struct timeval) {0, 0};
        int64_t ms = tv->tv_sec * 1000 + tv->tv_usec / 1000;
        if (tv->tv_sec == 0 && tv->tv_usec > 0 && ms == 0) ms = 1;
        if (name == SO_RCVTIMEO) f->rcvto = ms ? ms : -1; else f->sndto = ms ? ms : -1;
    }
    return 0;
}
int mcw_getsockopt(int fd, int level, int name, void *v, socklen_t *len) { (void) level; (void) name; if (!get(fd, "getsockopt")) return -1; memset(v, 0, *len); return 0; }
int mcw_bind(int fd, const struct sockaddr *a, socklen_t n) {
    (void) n;
    struct fdesc *f = get(fd, "bind");
    if (!f) return -1;
    if (mc_fault(FAULT_SETUP, "bind")) { errno = EADDRINUSE; return -1; }
    f->port = ntohs(((const struct sockaddr_in *) a)->sin_port); f->addr = ntohl(((const struct sockaddr_in *) a)->sin_addr.s_addr);
    return 0;
}
int mcw_listen(int fd, int backlog) {
    struct fdesc *f = get(fd, "listen");
    if (!f) return -1;
    if (mc_fault(FAULT_SETUP, "listen")) { errno = EADDRINUSE; return -1; }
    mc_yield("listen");
    f->kind = F_LISTEN; f->lst = nlst;
    lst[nlst] = (struct listener) {.port = f->port, .addr = f->addr, .open = true, .used = true, .max = backlog + 1};
    mc_event(OBJL(nlst), 51);
    nlst++;
    return 0;
}
static bool acc_ready(void *a) { struct fdesc *f = a; return lst[f->lst].n > 0 || !lst[f->lst].open || f->shut_rd; }
int mcw_accept4(int fd, struct sockaddr *a, socklen_t *al, int flags) {
    (void) flags;
    struct fdesc *f = get(fd, "accept");
    if (!f) return -1;
    if (f->kind != F_LISTEN) { errno = EINVAL; return -1; }
    f->refs++;
    mc_op(acc_ready, f, f->rcvto < 0 ? -1 : mc_now() + f->rcvto, "accept");
    struct listener *l = &lst[f->lst];
    mc_event(OBJL(f->lst), 52);
    int r = -1;
    if (f->shut_rd || !l->open) errno = EINVAL;
    else if (l->n == 0) errno = EAGAIN;
    else if (mc_fault(FAULT_ACCEPT, "accept")) {
        static const int codes[] = {ECONNABORTED, EINTR, EMFILE, ENFILE, ENOMEM, ENOBUFS};
        errno = codes[mc_choose(6, 0, "how accept fails")];
        if (errno == ECONNABORTED) {   // this client is gone, the others wait
            mc_conn *c = l->q[0];
            memmove(l->q, l->q + 1, sizeof(l->q[0]) * --l->n);
            c->in->wr_closed = c->out->rd_closed = true;
            mc_event(OBJFD, 56);
        }
    } else {
        mc_conn *c = l->q[0];
        memmove(l->q, l->q + 1, sizeof(l->q[0]) * --l->n);
        mc_event(OBJFD, 53);
        r = new_fd(F_CONN);
        if (r < 0) { c->in->wr_closed = c->out->rd_closed = true; }
        else {
            struct fdesc *n = &fds[r - FD0];
            n->in = c->out; n->out = c->in;
            c->fd = r; c->accepted = true;
            if (a) { struct sockaddr_in *s = (void *) a; memset(s, 0, sizeof *s); s->sin_family = AF_INET; s->sin_addr.s_addr = htonl(0x7f000001); s->sin_port = htons(40000 + r); mc_access(a, sizeof *s, 1, RA); }
            if (al) *al = sizeof(struct sockaddr_in);
        }
    }
    unref(f);
    return r;
}
int mcw_accept(int fd, struct sockaddr *a, socklen_t *al) { return mcw_accept4(fd, a, al, 0); }
static bool never_connected(void *a) { struct fdesc *f = a; return f->shut_wr; }
int mcw_connect(int fd, const struct sockaddr *a, socklen_t n) {
    (void) n;
    struct fdesc *f = get(fd, "connect");
    if (!f) return -1;
    if (mc_fault(FAULT_SOCK, "connect")) { errno = ECONNREFUSED; return -1; }
    mc_yield("connect");
    int port = ntohs(((const struct sockaddr_in *) a)->sin_port); uint32_t addr = ntohl(((const struct sockaddr_in *) a)->sin_addr.s_addr);
    for (int i = 0; i < nlst; i++) if (lst[i].env && (!lst[i].addr || lst[i].addr == addr) && lst[i].port == port && lst[i].open && lst[i].n < 16) {
        if (lst[i].silent) {   // the host drops every packet: the kernel gives up after about two minutes
            mc_hit("the host does not answer");
            if (f->nonblock) { errno = EINPROGRESS; return -1; }
            f->refs++;
            mc_op(never_connected, f, mc_now() + (f->sndto < 0 ? 127000 : f->sndto), "connect");
            mc_event(OBJFD, 57);
            errno = f->shut_wr ? ECONNABORTED : f->sndto < 0 ? ETIMEDOUT : EINPROGRESS;
            unref(f);
            return -1;
        }
        mc_conn *c = calloc(1, sizeof *c);
        c->in = new_pipe(); c->out = new_pipe(); c->fd = fd;
        f->kind = F_CONN; f->in = c->out; f->out = c->in;
        lst[i].q[lst[i].n++] = c;
        mc_event(OBJL(i), 54);
        return 0;
    }
    mc_event(OBJFD, 55);
    errno = ECONNREFUSED;
    return -1;
}
struct rw { struct fdesc *f; size_t n; };
static bool can_read(void *a) { struct fdesc *f = a; return f->shut_rd || f->in->len > 0 || f->in->wr_closed; }
static ssize_t do_recv(int fd, void *buf, size_t n, int flags, const char *op) {
    struct fdesc *f = get(fd, op);
    if (!f) return -1;
    if (f->kind != F_CONN) { errno = ENOTCONN; return -1; }
    if (n == 0) return 0;
    if (mc_cfg.eintr && !(cur->env) && mc_choose(2, 1, "eintr")) { mc_hit("EINTR"); errno = EINTR; return -1; }
    f->refs++;
    ssize_t r;
    bool nb = f->nonblock || (flags & MSG_DONTWAIT);
    if (nb) mc_yield(op);
    bool ok = nb ? can_read(f) : mc_op(can_read, f, f->rcvto < 0 ? -1 : mc_now() + f->rcvto, op);
    mc_event(OBJP(f->in), 60);
    if (!ok) { mc_hit("receive timeout"); errno = EAGAIN; r = -1; }
    else if (f->in->len == 0) r = 0;
    else {
        size_t k = f->in->len < n ? f->in->len : n;
        if (mc_cfg.short_reads && k > 1 && !(flags & MSG_WAITALL)) {
            if (mc_cfg.short_reads == 2) k -= mc_choose((int) (k > 200 ? 200 : k), 0, "short read");
            else if (mc_choose(2, 1, "short read")) { k = 1; mc_hit("short read"); }
        }
        memcpy(buf, f->in->buf, k);
        if (!(flags & MSG_PEEK)) { memmove(f->in->buf, f->in->buf + k, f->in->len - k); f->in->len -= k; }
        mc_acquire(OBJP(f->in));
        mc_access(buf, k, 1, cur->sp ? cur->pcs[cur->sp - 1] : NULL);
        r = (ssize_t) k;
        if ((flags & MSG_WAITALL) && k < n) {
            ssize_t more = 0;
            unref(f);
            more = do_recv(fd, (char *) buf + k, n - k, flags, op);
            return more > 0 ? r + more : r;
        }
    }
    unref(f);
    return r;
}
static bool can_write(void *a) { struct fdesc *f = a; return f->shut_wr || f->out->rd_closed || f->out->len < f->out->cap; }
static ssize_t do_send(int fd, const void *buf, size_t n, int flags, const char *op) {
    struct fdesc *f = get(fd, op);
    if (!f) return -1;
    if (f->kind != F_CONN) { errno = ENOTCONN; return -1; }
    if (mc_cfg.eintr && mc_choose(2, 1, "eintr")) { mc_hit("EINTR"); errno = EINTR; return -1; }
    mc_access((void *) buf, n, 0, cur->sp ? cur->pcs[cur->sp - 1] : NULL);
    f->refs++;
    size_t done = 0; ssize_t r = 0;
    while (done < n) {
        bool ok = f->nonblock || (flags & MSG_DONTWAIT) ? (mc_yield(op), can_write(f)) : mc_op(can_write, f, f->sndto < 0 ? -1 : mc_now() + f->sndto, op);
        mc_event(OBJP(f->out), 61);
        if (!ok) { mc_hit(done ? "send timeout within the data" : "send timeout"); if (done == 0) { errno = EAGAIN; r = -1; } break; }
        if (f->shut_wr || f->out->rd_closed) {
            if (done == 0) {
                if (!mc_cfg.sigpipe_ignored && !(flags & MSG_NOSIGNAL)) mc_fail(K_CRASH, NULL, "killed by SIGPIPE in %s", wh());
                errno = EPIPE; r = -1;
            }
            break;
        }
        size_t k = f->out->cap - f->out->len;
        if (k > n - done) k = n - done;
        bool cut = false;
        if (mc_cfg.short_writes && k > 1) {
            if (mc_cfg.short_writes == 2) { int c = mc_choose((int) k, 0, "short write"); cut = c > 0; k -= c; }
            else if (mc_choose(2, 1, "short write")) { k = 1; cut = true; mc_hit("short write"); }
        }
        memcpy(f->out->buf + f->out->len, (const char *) buf + done, k);
        f->out->len += k; done += k;
        mc_release(OBJP(f->out));
        if (cut) break;
    }
    unref(f);
    return done ? (ssize_t) done : (n == 0 ? 0 : r);
}
ssize_t mcw_recv(int fd, void *b, size_t n, int fl) { return do_recv(fd, b, n, fl, "recv"); }
ssize_t mcw_recvfrom(int fd, void *b, size_t n, int fl, void *a, void *l) { (void) a; (void) l; return do_recv(fd, b, n, fl, "recv"); }
ssize_t mcw_read(int fd, void *b, size_t n) { if (fd >= 0 && fd < FD0) return read(fd, b, n); return do_recv(fd, b, n, 0, "read"); }
ssize_t mcw_send(int fd, const void *b, size_t n, int fl) { return do_send(fd, b, n, fl, "send"); }
ssize_t mcw_sendto(int fd, const void *b, size_t n, int fl, void *a, int l) { (void) a; (void) l; return do_send(fd, b, n, fl, "send"); }
ssize_t mcw_write(int fd, const void *b, size_t n) { if (fd >= 0 && fd < FD0) return write(fd, b, n); return do_send(fd, b, n, 0, "write"); }
ssize_t mcw_writev(int fd, const struct iovec *v, int c) { ssize_t t = 0; for (int i = 0; i < c; i++) { ssize_t r = do_send(fd, v[i].iov_base, v[i].iov_len, 0, "write"); if (r < 0) return t ? t : r; t += r; if ((size_t) r < v[i].iov_len) break; } return t; }
int mcw_shutdown(int fd, int how) {
    struct fdesc *f = get(fd, "shutdown");
    if (!f) return -1;
    mc_yield("shutdown");
    if (!f->open) return get(fd, "shutdown") ? 0 : -1;
    if (f->kind == F_LISTEN) {
        if (how != SHUT_WR) {
            f->shut_rd = true; lst[f->lst].open = false;
            for (int i = 0; i < lst[f->lst].n; i++) { lst[f->lst].q[i]->in->wr_closed = true; lst[f->lst].q[i]->out->rd_closed = true; }
            lst[f->lst].n = 0;
        }
        mc_event(OBJL(f->lst), 70);
        return 0;
    }
    if (f->kind != F_CONN) { errno = ENOTCONN; return -1; }
    if (how != SHUT_WR) { f->shut_rd = true; mc_event(OBJP(f->in), 71); }
    if (how != SHUT_RD) { f->shut_wr = true; f->out->wr_closed = true; mc_event(OBJP(f->out), 72); }
    return 0;
}
int mcw_close(int fd) {
    if (fd >= 0 && fd < FD0 && fd > 2) { mc_fail(K_FD, NULL, "close of descriptor %d that was never opened, in %s", fd, wh()); errno = EBADF; return -1; }
    if (fd >= 0 && fd <= 2) { mc_fail(K_FD, NULL, "close of the standard descriptor %d in %s", fd, wh()); return 0; }
    struct fdesc *f = get(fd, "close");
    if (!f) return -1;
    mc_yield("close");
    f = get(fd, "close");
    if (!f) return -1;
    f->open = false;
    mc_release(OBJFD + 1000 + fd);
    mc_event(OBJFD, 56);
    mc_note("close(%d) in %s", fd, wh());
    unref(f);
    return 0;
}
int mcw_fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long v = va_arg(ap, long); va_end(ap); struct fdesc *f = get(fd, "fcntl"); if (!f) return -1; if (cmd == F_SETFL) { f->nonblock = v & O_NONBLOCK; return 0; } if (cmd == F_GETFL) return f->nonblock ? O_NONBLOCK | O_RDWR : O_RDWR; return 0; }
int mcw_ioctl(int fd, unsigned long req, void *arg) { struct fdesc *f = get(fd, "ioctl"); if (!f) return -1; if (req == FIONREAD) *(int *) arg = f->in ? (int) f->in->len : 0; return 0; }
int mcw_getpeername(int fd, struct sockaddr *a, socklen_t *l) { if (!get(fd, "getpeername")) return -1; memset(a, 0, *l); a->sa_family = AF_INET; return 0; }
int mcw_getsockname(int fd, struct sockaddr *a, socklen_t *l) { return mcw_getpeername(fd, a, l); }
struct pollarg { struct pollfd *p; nfds_t n; };
static int poll_eval(struct pollfd *p, nfds_t n) {
    int c = 0;
    for (nfds_t i = 0; i < n; i++) {
        p[i].revents = 0;
        if (!ours(p[i].fd) || p[i].fd >= FD0 + nfds || !fds[p[i].fd - FD0].open) { if (p[i].fd >= 0) p[i].revents = POLLNVAL; }
        else {
            struct fdesc *f = &fds[p[i].fd - FD0];
            if (f->kind == F_LISTEN) { if (acc_ready(f)) p[i].revents |= POLLIN; }
            else if (f->kind == F_CONN) { if (can_read(f)) p[i].revents |= POLLIN; if (can_write(f)) p[i].revents |= POLLOUT; if (f->in->wr_closed && f->shut_wr) p[i].revents |= POLLHUP; p[i].revents &= (p[i].events | POLLHUP); }
        }
        c += p[i].revents != 0;
    }
    return c;
}
static bool poll_ready(void *a) { struct pollarg *x = a; return poll_eval(x->p, x->n) > 0; }
int mcw_poll(struct pollfd *p, nfds_t n, int ms) { struct pollarg x = {p, n}; mc_op(poll_ready, &x, ms < 0 ? -1 : mc_now() + ms, "poll"); mc_event(OBJFD, 57); return poll_eval(p, n); }
int mcw_select(int nf, fd_set *rd, fd_set *wr, fd_set *ex, struct timeval *tv) {
    struct pollfd p[64]; int n = 0;
    for (int i = 0; i < nf && n < 64; i++) {
        short ev = (rd && FD_ISSET(i, rd) ? POLLIN : 0) | (wr && FD_ISSET(i, wr) ? POLLOUT : 0);
        if (ev || (ex && FD_ISSET(i, ex))) p[n++] = (struct pollfd) {.fd = i, .events = ev};
    }
    int r = mcw_poll(p, n, tv ? (int) (tv->tv_sec * 1000 + tv->tv_usec / 1000) : -1), k = 0;
    if (r < 0) return r;
    for (int i = 0; i < n; i++) if (p[i].revents & POLLNVAL) { errno = EBADF; return -1; }
    if (rd) FD_ZERO(rd); if (wr) FD_ZERO(wr); if (ex) FD_ZERO(ex);
    for (int i = 0; i < n; i++) {
        if (rd && (p[i].events & POLLIN) && (p[i].revents & (POLLIN | POLLHUP | POLLERR))) { FD_SET(p[i].fd, rd); k++; }
        if (wr && (p[i].events & POLLOUT) && (p[i].revents & (POLLOUT | POLLERR))) { FD_SET(p[i].fd, wr); k++; }
    }
    return k;
}
int mcw_pthread_sigmask(int how, const sigset_t *n, sigset_t *o) { (void) how; (void) n; if (o) sigemptyset(o); return 0; }
int mcw_sigprocmask(int how, const sigset_t *n, sigset_t *o) { return mcw_pthread_sigmask(how, n, o); }

void mc_check_fd_leaks(void) {
    for (int i = 0; i < nfds; i++) if (fds[i].open) mc_fail(K_LEAKFD, NULL, "descriptor leak: opened in %s and never closed", fds[i].where);
    if (mc_open_files()) mc_fail(K_LEAKFD, NULL, "file leak: %d files never closed", mc_open_files());
}

// ------------------------------------------------------------------ environment side
int env_listen(int port) {
    for (int i = 0; i < nlst; i++) if (lst[i].env && lst[i].port == port) { lst[i].open = true; mc_event(OBJL(i), 80); return i; }
    lst[nlst] = (struct listener) {.port = port, .open = true, .env = true, .used = true, .max = 16};
    mc_event(OBJL(nlst), 80);
    return nlst++;
}
void env_silent(int port) { for (int i = 0; i < nlst; i++) if (lst[i].env && lst[i].port == port) lst[i].silent = true; }
void env_only_at(int port, uint32_t addr) { for (int i = 0; i < nlst; i++) if (lst[i].env && lst[i].port == port) lst[i].addr = addr; }
bool env_bound(int port, uint32_t addr) { for (int i = 0; i < nlst; i++) if (!lst[i].env && lst[i].open && lst[i].port == port && lst[i].addr == addr) return true; return false; }
bool env_listening(int port) { for (int i = 0; i < nlst; i++) if (lst[i].open && lst[i].port == port) return true; return false; }
void env_unlisten(int port) { for (int i = 0; i < nlst; i++) if (lst[i].env && lst[i].port == port) { mc_yield("env unlisten"); lst[i].open = false; mc_event(OBJL(i), 81); } }
static bool env_acc(void *a) { struct listener *l = a; return l->n > 0 || !l->open; }
mc_conn *env_accept(int port) {
    struct listener *l = NULL; int li = 0;
    for (int i = 0; i < nlst; i++) if (lst[i].env && lst[i].port == port) { l = &lst[i]; li = i; }
    if (!l) return NULL;
    mc_op(env_acc, l, -1, "env accept");
    mc_event(OBJL(li), 82);
    if (!l->n) return NULL;
    mc_conn *c = l->q[0];
    memmove(l->q, l->q + 1, sizeof(l->q[0]) * --l->n);
    return c;
}
static struct listener *server_listener(int port) { for (int i = nlst - 1; i >= 0; i--) if (!lst[i].env && lst[i].port == port) return &lst[i]; return NULL; }
static bool env_can_connect(void *a) { struct listener *l = server_listener(*(int *) a); return l && (!l->open || l->n < l->max); }
mc_conn *env_try_connect_wait(int port) {
    mc_op(env_can_connect, &port, -1, "env connect");
    struct listener *l = server_listener(port);
    mc_event(OBJL(l - lst), 83);
    if (!l->open) return NULL;
    mc_conn *c = calloc(1, sizeof *c);
    c->in = new_pipe(); c->out = new_pipe();
    l->q[l->n++] = c;
    return c;
}
mc_conn *env_connect(int port) { return env_try_connect_wait(port); }
static bool env_can_write(void *a) { mc_conn *c = a; return c->out->rd_closed || c->out->len < c->out->cap; }
int env_send(mc_conn *c, const void *buf, size_t len) {
    size_t done = 0;
    while (done < len) {
        mc_op(env_can_write, c, -1, "env send");
        mc_event(OBJP(c->out), 84);
        if (c->out->rd_closed) return -1;
        size_t k = c->out->cap - c->out->len;
        if (k > len - done) k = len - done;
        memcpy(c->out->buf + c->out->len, (const char *) buf + done, k);
        c->out->len += k; done += k;
        mc_release(OBJP(c->out));
    }
    return 0;
}
static bool env_can_read(void *a) { mc_conn *c = a; return c->in->len > 0 || c->in->wr_closed; }
static int env_take(mc_conn *c, void *buf, size_t len) {
    mc_event(OBJP(c->in), 85);
    size_t k = c->in->len < len ? c->in->len : len;
    memcpy(buf, c->in->buf, k);
    memmove(c->in->buf, c->in->buf + k, c->in->len - k);
    c->in->len -= k;
    if (k) mc_acquire(OBJP(c->in));
    return (int) k;
}
int env_recv(mc_conn *c, void *buf, size_t len) { mc_op(env_can_read, c, -1, "env recv"); return env_take(c, buf, len); }
int env_recv_timeout(mc_conn *c, void *buf, size_t len, int64_t ms) {
    cur->env_sleep = true;
    bool ok = mc_op(env_can_read, c, mc_now() + ms, "env recv");
    cur->env_sleep = false;
    if (!ok) return -2;
    return env_take(c, buf, len);
}
static bool never_(void *a) { (void) a; return false; }
void env_delay(int64_t ms) {
    cur->env_sleep = true;
    mc_op(never_, NULL, mc_now() + ms, "env delay");
    cur->env_sleep = false;
}
int env_recv_full(mc_conn *c, void *buf, size_t len) {
    size_t got = 0;
    while (got < len) { int r = env_recv(c, (char *) buf + got, len - got); if (r <= 0) break; got += r; }
    return (int) got;
}
void env_close(mc_conn *c) {
    if (c->closed) return;
    mc_yield("env close");
    c->closed = true;
    c->out->wr_closed = true; c->in->rd_closed = true;
    mc_event(OBJP(c->out), 86); mc_event(OBJP(c->in), 87);
}
bool env_peer_closed(mc_conn *c) { return c->in->wr_closed && c->in->len == 0; }
size_t env_pending(mc_conn *c) { return c->in->len; }
int mc_conn_fd(mc_conn *c) { return c->fd; }

// ------------------------------------------------------------------ files
#define MAXF 1024
#define MAXSF 2048
static struct mc_file files[MAXF]; static int nfiles;
struct simfile { uint32_t magic; struct mc_file *f; size_t pos, flushed; int mode, err, eof, open, nobuf; char where[48]; uint8_t *wbuf; size_t wlen, wcap; size_t wpos; };
#define FMAGIC 0xF17EF17E
static struct simfile sfs[MAXSF]; static int nsf;
struct mc_file *mc_file_get(const char *name) { for (int i = 0; i < nfiles; i++) if (files[i].exists && !strcmp(files[i].name, name)) return &files[i]; return NULL; }
static struct mc_file *file_create(const char *name) {
    for (int i = 0; i < nfiles; i++) if (!strcmp(files[i].name, name)) { files[i].exists = true; return &files[i]; }
    if (nfiles >= MAXF) { fprintf(stderr, "mcsim: too many files\n"); abort(); }
    struct mc_file *f = &files[nfiles++];
    snprintf(f->name, sizeof f->name, "%s", name);
    f->exists = true; f->fail_after = -1;
    return f;
}
struct mc_file *mc_file_put(const char *name, const void *data, size_t len) {
    struct mc_file *f = file_create(name);
    f->data = malloc(len + 1); memcpy(f->data, data, len); f->len = f->cap = len;
    return f;
}
int mc_open_files(void) { int n = 0; for (int i = 0; i < nsf; i++) n += sfs[i].open; return n; }
static bool is_sim(FILE *f) { return (struct simfile *) f >= sfs && (struct simfile *) f < sfs + MAXSF; }
static struct simfile *sf_get(FILE *f, const char *op) {
    struct simfile *s = (void *) f;
    if (f == NULL) { mc_fail(K_CRASH, NULL, "%s on a NULL file in %s", op, wh()); return NULL; }
    if (!is_sim(f)) return NULL;
    if (!s->open) { mc_fail(K_MEM | K_FD, NULL, "%s on a closed file in %s", op, wh()); return NULL; }
    return s;
}
FILE *mcw_fopen(const char *name, const char *mode) {
    if (mc_fault(FAULT_FOPEN, "fopen")) { errno = EACCES; return NULL; }
    mc_access((void *) name, strlen(name) + 1, 0, RA);
    mc_yield("fopen");
    mc_event(OBJF(0), 90);
    struct mc_file *f = NULL;
    if (mode[0] == 'r') { f = mc_file_get(name); if (!f) { errno = ENOENT; return NULL; } }
    else {
        if (strncmp(name, "/sim/", 5)) { errno = ENOENT; return NULL; }
        f = file_create(name);
        if (mode[0] == 'w') f->len = 0;
    }
    if (nsf >= MAXSF) { errno = EMFILE; return NULL; }
    struct simfile *s = &sfs[nsf++];
    memset(s, 0, sizeof *s);
    s->magic = FMAGIC; s->f = f; s->mode = mode[0]; s->open = 1;
    where(s->where, sizeof s->where);
    return (FILE *) s;
}
static void f_append(struct mc_file *f, const void *d, size_t n) {
    if (f->len + n > f->cap) { f->cap = (f->len + n) * 2 + 64; f->data = realloc(f->data, f->cap); }
    memcpy(f->data + f->len, d, n); f->len += n;
}
static int sf_flush(struct simfile *s) {
    if (s->wlen) { f_append(s->f, s->wbuf, s->wlen); s->wlen = 0; }
    return 0;
}
size_t mcw_fwrite(const void *p, size_t sz, size_t n, FILE *fp) {
    if (!is_sim(fp) && fp) return n;
    struct simfile *s = sf_get(fp, "fwrite");
    if (!s) return 0;
    size_t len = sz * n;
    if (mc_cfg.slow_disk) mc_yield("slow fwrite");
    mc_access((void *) p, len, 0, RA);
    mc_event(OBJF(1 + (s->f - files)), 91);
    if (len == 0) return n;
    if (mc_fault(FAULT_FWRITE, "fwrite")) { s->err = 1; errno = ENOSPC; size_t k = len / 2; k -= k % sz; f_append(s->f, p, k); s->f->fail_after = 0; return k / sz; }
    if (s->f->fail_after == 0) { s->err = 1; errno = ENOSPC; return 0; }   // the disk stays full
    if (s->wlen + len > s->wcap) { s->wcap = (s->wlen + len) * 2 + 4096; s->wbuf = realloc(s->wbuf, s->wcap); }
    memcpy(s->wbuf + s->wlen, p, len); s->wlen += len;
    if (s->wlen > 4096 || s->nobuf) sf_flush(s);
    return n;
}
size_t mcw_fread(void *p, size_t sz, size_t n, FILE *fp) {
    struct simfile *s = sf_get(fp, "fread");
    if (!s) return 0;
    size_t len = sz * n;
    mc_event(OBJF(1 + (s->f - files)), 92);
    if (len == 0) return 0;
    if (mc_fault(FAULT_FREAD, "fread")) { s->err = 1; errno = EIO; return 0; }
    if (s->f->endless) { mc_op(never_, NULL, mc_now() + 500, "fread"); if (s->pos + len > s->f->len) s->pos = 0; }   // a device, a pipe or a very large file: it has always more, and reading takes time
    size_t av = s->f->len > s->pos ? s->f->len - s->pos : 0;
    size_t k = av < len ? av : len;
    if (k < len) s->eof = 1;
    mc_access(p, k, 1, RA);
    memcpy(p, s->f->data + s->pos, k); s->pos += k;
    return k / sz;
}
int mcw_fclose(FILE *fp) {
    if (!is_sim(fp) && fp) return 0;
    struct simfile *s = sf_get(fp, "fclose");
    if (!s) return -1;
    mc_event(OBJF(1 + (s->f - files)), 93);
    sf_flush(s);
    s->open = 0;
    return 0;
}
int mcw_fflush(FILE *fp) { if (!fp || !is_sim(fp)) return 0; struct simfile *s = sf_get(fp, "fflush"); if (s) sf_flush(s); return 0; }
int mcw_ferror(FILE *fp) { struct simfile *s = sf_get(fp, "ferror"); return s ? s->err : 0; }
int mcw_feof(FILE *fp) { struct simfile *s = sf_get(fp, "feof"); return s ? s->eof : 0; }
void mcw_clearerr(FILE *fp) { struct simfile *s = sf_get(fp, "clearerr"); if (s) s->err = s->eof = 0; }
int mcw_fseek(FILE *fp, long o, int w) { struct simfile *s = sf_get(fp, "fseek"); if (!s) return -1; s->pos = w == SEEK_SET ? (size_t) o : w == SEEK_CUR ? s->pos + o : s->f->len + o; s->eof = 0; return 0; }
long mcw_ftell(FILE *fp) { struct simfile *s = sf_get(fp, "ftell"); return s ? (s->mode == 'r' ? (long) s->pos : (long) (s->f->len + s->wlen)) : -1; }
void mcw_rewind(FILE *fp) { mcw_fseek(fp, 0, SEEK_SET); }
int mcw_setvbuf(FILE *fp, char *b, int m, size_t n) { (void) b; (void) n; if (is_sim(fp)) ((struct simfile *) fp)->nobuf = m == _IONBF; return 0; }
int mcw_remove(const char *name) { struct mc_file *f = mc_file_get(name); if (!f) { errno = ENOENT; return -1; } f->exists = false; return 0; }
int mcw_unlink(const char *name) { return mcw_remove(name); }
// output of the program is dropped, but formatted (so that the arguments are used)
static int out(const char *fmt, va_list ap) {
    char b[2048]; int n = vsnprintf(b, sizeof b, fmt, ap);
    if (mc_verbose) printf("        | %s%s", b, n && b[n < 2047 ? n - 1 : 2046] == '\n' ? "" : "\n");
    return n;
}
int mcw_printf(const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = out(fmt, ap); va_end(ap); return n; }
int mcw_vprintf(const char *fmt, va_list ap) { return out(fmt, ap); }
int mcw_fprintf(FILE *f, const char *fmt, ...) {
    va_list ap; va_start(ap, fmt); int n;
    if (is_sim(f)) { char b[4096]; n = vsnprintf(b, sizeof b, fmt, ap); mcw_fwrite(b, 1, n, f); } else n = out(fmt, ap);
    va_end(ap); return n;
}
int mcw_vfprintf(FILE *f, const char *fmt, va_list ap) { (void) f; return out(fmt, ap); }
int mcw_puts(const char *s) { if (mc_verbose) printf("        | %s\n", s); return 0; }
int mcw_putchar(int c) { return c; }
int mcw_fputs(const char *s, FILE *f) { if (is_sim(f)) mcw_fwrite(s, 1, strlen(s), f); return 0; }
int mcw_fputc(int c, FILE *f) { (void) f; return c; }
void mcw_perror(const char *s) { if (mc_verbose) printf("        | %s: errno %d\n", s, cur ? cur->err : 0); }

// ------------------------------------------------------------------ calendar: one static object, as in the C library
static struct tm cal_tm; static char cal_txt[64];
struct tm *mcw_gmtime(const time_t *t) { mc_access((void *) t, sizeof *t, 0, RA); mc_access(&cal_tm, sizeof cal_tm, 1, RA); struct tm x; if (!gmtime_r(t, &x)) return NULL; cal_tm = x; return &cal_tm; }
struct tm *mcw_localtime(const time_t *t) { return mcw_gmtime(t); }
char *mcw_ctime(const time_t *t) { mc_access(cal_txt, sizeof cal_txt, 1, RA); return ctime_r(t, cal_txt); }
char *mcw_asctime(const struct tm *t) { mc_access(cal_txt, sizeof cal_txt, 1, RA); return asctime_r(t, cal_txt); }
