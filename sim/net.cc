// Simulated TCP network: sockets shared by all processes of a run.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <algorithm>
#include "internal.h"
#include "net.h"

namespace dst {

enum { S_FREE = 0, S_NEW, S_BOUND, S_LISTEN, S_CONN, S_GONE };
constexpr int MAXSOCK = 140, RING = 160 << 10, MAXSEG = 512, MAXQ = 64;
struct Seg { uint64_t end; int64_t at; };
struct Sock {
    int state, proc, port, rport, peer, rproc;
    uint32_t gen, pgen;
    int rst, rdShut, wrShut, nonblock, eofSent, rstSeen;
    int64_t eofAt;
    int backlog, nq;
    int q[MAXQ];
    uint64_t rd, wr;      // received / sent offsets of the incoming stream
    int nseg, seg0;
    Seg segs[MAXSEG];
    char ring[RING];
};
struct NetState { int nextPort, window; uint32_t nextGen; uint64_t sent, conns; int part[MAXPROC][MAXPROC], refused[MAXPROC]; Sock s[MAXSOCK]; };
static_assert(sizeof(NetState) <= sizeof(((Shared*)nullptr)->net), "net state too large");
static NetState* N() { return reinterpret_cast<NetState*>(G->net); }
constexpr uint64_t KEY_NET = 0x7000000000ull;
static int sk[1024];   // fd -> socket + 1 (process private)

bool netIs(int fd) { return fd >= 0 && fd < 1024 && sk[fd] != 0; }
static Sock* S(int fd) { return &N()->s[sk[fd] - 1]; }
void netInit() { NetState& n = *N(); n.nextPort = 40000; n.window = 1 << 16; n.nextGen = 1; }
void netForget() { memset(sk, 0, sizeof sk); }
void netWindow(int bytes) { N()->window = std::min(bytes, RING); }
int netSockets(int proc) { int c = 0; for (int i = 0; i < MAXSOCK; ++i) if (N()->s[i].state != S_FREE && N()->s[i].proc == proc) ++c; return c; }
int netRefused(int proc) { return N()->refused[proc]; }
uint64_t netBytes() { return N()->sent; }
static Sock* peerOf(Sock* s) {
    if (s->peer < 0) return nullptr;
    Sock* p = &N()->s[s->peer];
    return p->gen == s->pgen && p->state == S_CONN ? p : nullptr;
}
static int64_t avail(Sock* s) {   // deliverable bytes
    uint64_t e = s->rd;
    for (int i = 0; i < s->nseg; ++i) { Seg& g = s->segs[(s->seg0 + i) % MAXSEG]; if (g.at > int64_t(G->clock)) break; e = g.end; }
    return int64_t(e - s->rd);
}
static int64_t nextAt(Sock* s) {
    for (int i = 0; i < s->nseg; ++i) { Seg& g = s->segs[(s->seg0 + i) % MAXSEG]; if (g.at > int64_t(G->clock)) return g.at; }
    if (s->eofSent && s->eofAt > int64_t(G->clock)) return s->eofAt;
    return INT64_MAX;
}
static bool eof(Sock* s) { return s->rdShut || (s->eofSent && s->eofAt <= int64_t(G->clock) && s->rd == s->wr); }
static int64_t lastAt(Sock* s) { return s->nseg ? s->segs[(s->seg0 + s->nseg - 1) % MAXSEG].at : 0; }
static int64_t delay() {
    static const int64_t D[8] = {30000, 1000, 200000, 1000000, 10000000, 100000000, 1000000000, 5000000000ll};
    return D[fireN(F_NETDELAY, 7)];
}
static bool parted(int a, int b) { return N()->part[a][b]; }
static void doReset(Sock* s) {
    if (s->state != S_CONN) return;
    // data still in flight is lost
    uint64_t e = s->rd + uint64_t(avail(s));
    s->wr = e; s->rst = 1;
    while (s->nseg && s->segs[(s->seg0 + s->nseg - 1) % MAXSEG].end > e) s->nseg--;
}
void netAbort() { int me = process(); for (int i = 0; i < MAXSOCK; ++i) { Sock* s = &N()->s[i]; if (s->state == S_CONN && s->proc == me) { Sock* p = peerOf(s); if (p) doReset(p); doReset(s); } } wakeKey(KEY_NET); }
void netReset(int fd) { Sock* s = S(fd); if (s->state != S_CONN) return; Sock* p = peerOf(s); if (p) doReset(p); doReset(s); wakeKey(KEY_NET); }
static void sendEof(Sock* to) {
    if (to->eofSent) return;
    to->eofSent = 1;
    to->eofAt = std::max(lastAt(to), int64_t(G->clock) + delay());
}
static void closeSock(int i) {
    Sock& s = N()->s[i];
    if (s.state == S_CONN) {
        Sock* p = peerOf(&s);
        if (p) {
            if (s.rd != s.wr && !s.rst) doReset(p);     // unread data: reset
            else if (!s.rst) sendEof(p);
        }
    }
    if (s.state == S_LISTEN) for (int k = 0; k < s.nq; ++k) { Sock& c = N()->s[s.q[k]]; Sock* p = peerOf(&c); if (p) doReset(p); c.state = S_FREE; c.gen = 0; }
    s.state = S_FREE; s.gen = 0;
    wakeKey(KEY_NET);
}
void netProcGone(int proc) { for (int i = 0; i < MAXSOCK; ++i) if (N()->s[i].state != S_FREE && N()->s[i].proc == proc) closeSock(i); }
static int newSock(int proc) {
    for (int i = 0; i < MAXSOCK; ++i) if (N()->s[i].state == S_FREE) {
        Sock& s = N()->s[i];
        memset(&s, 0, offsetof(Sock, segs));
        s.state = S_NEW; s.proc = proc; s.peer = -1; s.gen = N()->nextGen++;
        return i;
    }
    return -1;
}
void partition(int a, int b, bool on) {
    NetState& n = *N();
    n.part[a][b] = n.part[b][a] = on;
    for (int i = 0; i < MAXSOCK; ++i) {
        Sock& s = n.s[i];
        if (s.state != S_CONN || !((s.proc == a && s.rproc == b) || (s.proc == b && s.rproc == a))) continue;
        int64_t t = int64_t(G->clock) + 1000000;
        for (int k = 0; k < s.nseg; ++k) {
            Seg& g = s.segs[(s.seg0 + k) % MAXSEG];
            if (on && g.at > int64_t(G->clock)) g.at = INT64_MAX / 2;
            if (!on && g.at > t) g.at = t;
        }
        if (s.eofSent) { if (on && s.eofAt > int64_t(G->clock)) s.eofAt = INT64_MAX / 2; if (!on && s.eofAt > t) s.eofAt = t; }
    }
    wakeKey(KEY_NET);
}
static int fdFor(int idx) {
    long fd = syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR, 0);
    if (fd < 0 || fd >= 1024) fail("harness:fds", "too many descriptors");
    sk[fd] = idx + 1;
    return int(fd);
}
int netClose(int fd) {
    syncPoint(E_NET, 1);
    int i = sk[fd] - 1;
    sk[fd] = 0;
    closeSock(i);
    syscall(SYS_close, fd);
    return 0;
}
static int wait(const char* why, int64_t at) {
    int r = at < INT64_MAX / 4 ? block(KEY_NET, why, 1, at, true) : block(KEY_NET, why, 0, 0, true);
    return r == 2 ? 2 : 0;
}
static bool maybeReset(Sock* s) {
    if (s->state == S_CONN && !s->rst && fire(F_NETRESET)) {
        Sock* p = peerOf(s);
        if (p) doReset(p);
        doReset(s);
        wakeKey(KEY_NET);
        return true;
    }
    return false;
}
ssize_t netRecv(int fd, void* b, size_t n, int flags) {
    syncPoint(E_NET, 2);
    Sock* s = S(fd);
    if (s->state != S_CONN) { errno = ENOTCONN; return -1; }
    if (n > 0 && fire(F_EINTR)) { errno = EINTR; return -1; }
    maybeReset(s);
    if (n == 0) return 0;
    for (;;) {
        int64_t a = avail(s);
        if (a > 0) {
            size_t m = std::min(n, size_t(a));
            if (m > 1) { uint64_t v = fireN(F_NETFRAG, 3); if (v == 1) m = 1; else if (v == 2) m = m / 2; else if (v == 3) m = m - 1; }
            for (size_t i = 0; i < m; ++i) static_cast<char*>(b)[i] = s->ring[(s->rd + i) % RING];
            if (!(flags & MSG_PEEK)) {
                s->rd += m;
                while (s->nseg && s->segs[s->seg0].end <= s->rd) { s->seg0 = (s->seg0 + 1) % MAXSEG; s->nseg--; }
                wakeKey(KEY_NET);
            }
            traceEvent(E_NET, 1000 + m);
            return ssize_t(m);
        }
        if (s->rst) { if (!s->rstSeen) { s->rstSeen = 1; errno = ECONNRESET; return -1; } return 0; }
        if (eof(s)) return 0;
        if (s->nonblock || (flags & MSG_DONTWAIT)) { errno = EAGAIN; return -1; }
        if (wait("socket read", nextAt(s)) == 2) { runAlarm(); errno = EINTR; return -1; }
        s = S(fd);
        if (!netIs(fd)) { errno = EBADF; return -1; }
    }
}
static ssize_t brokenPipe(int flags) {
    struct sigaction sa;
    if (!(flags & MSG_NOSIGNAL) && sigaction(SIGPIPE, nullptr, &sa) == 0 && sa.sa_handler == SIG_DFL) fail("signal:SIGPIPE", "process killed by a broken-pipe signal");
    errno = EPIPE;
    return -1;
}
ssize_t netSend(int fd, const void* b, size_t n, int flags) {
    syncPoint(E_NET, 3);
    Sock* s = S(fd);
    if (s->state != S_CONN || s->wrShut) { if (s->state == S_CONN) return brokenPipe(flags); errno = ENOTCONN; return -1; }
    if (n > 0 && fire(F_EINTR)) { errno = EINTR; return -1; }
    maybeReset(s);
    if (n == 0) return s->rst ? brokenPipe(flags) : 0;
    size_t done = 0;
    size_t want = n;
    if (n > 1) { uint64_t v = fireN(F_NETFRAG, 3); if (v == 1) want = 1; else if (v == 2) want = n / 2; else if (v == 3) want = n - 1; }
    while (done < want) {
        if (s->rst) { if (done) return ssize_t(done); if (s->rstSeen) return brokenPipe(flags); errno = ECONNRESET; s->rstSeen = 1; return -1; }
        Sock* p = peerOf(s);
        if (!p) {   // the peer closed: the data is answered by a reset
            doReset(s);
            return ssize_t(want);
        }
        int64_t room = int64_t(N()->window) - int64_t(p->wr - p->rd);
        if (room <= 0) {
            if (s->nonblock || (flags & MSG_DONTWAIT)) { if (done) return ssize_t(done); errno = EAGAIN; return -1; }
            if (wait("socket write", INT64_MAX) == 2) { runAlarm(); if (done) return ssize_t(done); errno = EINTR; return -1; }
            if (!netIs(fd)) { errno = EBADF; return -1; }
            s = S(fd);
            continue;
        }
        size_t m = std::min(want - done, size_t(room));
        for (size_t i = 0; i < m; ++i) p->ring[(p->wr + i) % RING] = static_cast<const char*>(b)[done + i];
        p->wr += m;
        N()->sent += m;
        int64_t at = std::max(lastAt(p), parted(s->proc, s->rproc) ? INT64_MAX / 2 : int64_t(G->clock) + delay());
        if (p->nseg == MAXSEG) { Seg& g = p->segs[(p->seg0 + p->nseg - 1) % MAXSEG]; g.end = p->wr; g.at = at; }
        else { Seg& g = p->segs[(p->seg0 + p->nseg) % MAXSEG]; g.end = p->wr; g.at = at; p->nseg++; }
        done += m;
        wakeKey(KEY_NET);
    }
    traceEvent(E_NET, 2000 + done);
    return ssize_t(done);
}
int netFcntl(int fd, int cmd, long arg) {
    Sock* s = S(fd);
    if (cmd == F_SETFL) { s->nonblock = (arg & O_NONBLOCK) ? 1 : 0; return 0; }
    if (cmd == F_GETFL) return O_RDWR | (s->nonblock ? O_NONBLOCK : 0);
    return 0;
}
static void setAddr(struct sockaddr* a, socklen_t* l, int port, bool any) {
    struct sockaddr_in in;
    memset(&in, 0, sizeof in);
    in.sin_family = AF_INET;
    in.sin_port = htons(uint16_t(port));
    in.sin_addr.s_addr = htonl(any ? INADDR_ANY : INADDR_LOOPBACK);
    if (a && l) { memcpy(a, &in, std::min(size_t(*l), sizeof in)); *l = sizeof in; }
}
static int findListener(int port) { for (int i = 0; i < MAXSOCK; ++i) if (N()->s[i].state == S_LISTEN && N()->s[i].port == port) return i; return -1; }
static bool portUsed(int port) { for (int i = 0; i < MAXSOCK; ++i) { Sock& s = N()->s[i]; if ((s.state == S_LISTEN || s.state == S_BOUND) && s.port == port) return true; } return false; }
static short events(int fd, short want) {
    Sock* s = S(fd);
    short r = 0;
    if (s->state == S_LISTEN) { if (s->nq > 0) r |= POLLIN; }
    else if (s->state == S_CONN) {
        if (avail(s) > 0 || eof(s) || s->rst) r |= POLLIN;
        Sock* p = peerOf(s);
        if (!p || s->rst || int64_t(N()->window) > int64_t(p->wr - p->rd)) r |= POLLOUT;
        if (s->rst) r |= POLLERR;
    }
    else r |= POLLHUP;
    return r & (want | POLLERR | POLLHUP);
}
}  // namespace dst

using namespace dst;
#define SYSFALL(n, ...) int(syscall(n, __VA_ARGS__))

extern "C" {
int socket(int d, int t, int p) __THROW {
    if (!active()) return SYSFALL(SYS_socket, d, t, p);
    syncPoint(E_NET, 10);
    if (fire(F_OPENERR)) { errno = EMFILE; return -1; }
    int i = newSock(process());
    if (i < 0) { errno = ENFILE; return -1; }
    int fd = fdFor(i);
    if (t & SOCK_NONBLOCK) N()->s[i].nonblock = 1;
    return fd;
}
int bind(int fd, const struct sockaddr* a, socklen_t) __THROW {
    if (!active() || !netIs(fd)) { errno = EBADF; return -1; }
    syncPoint(E_NET, 11);
    int port = ntohs(reinterpret_cast<const struct sockaddr_in*>(a)->sin_port);
    Sock* s = S(fd);
    if (port == 0) { do port = N()->nextPort++; while (portUsed(port)); }
    else if (portUsed(port)) { errno = EADDRINUSE; return -1; }
    s->port = port;
    s->state = S_BOUND;
    return 0;
}
int listen(int fd, int backlog) __THROW {
    if (!active() || !netIs(fd)) { errno = EBADF; return -1; }
    syncPoint(E_NET, 12);
    Sock* s = S(fd);
    if (!s->port) s->port = N()->nextPort++;
    s->state = S_LISTEN;
    s->backlog = std::max(1, std::min(backlog, MAXQ));
    return 0;
}
int accept(int fd, struct sockaddr* a, socklen_t* l) {
    if (!active() || !netIs(fd)) { errno = EBADF; return -1; }
    syncPoint(E_NET, 13);
    if (fire(F_EINTR)) { errno = EINTR; return -1; }
    for (;;) {
        Sock* s = S(fd);
        if (s->state != S_LISTEN) { errno = EINVAL; return -1; }
        if (s->nq > 0) {
            int i = s->q[0];
            for (int k = 1; k < s->nq; ++k) s->q[k - 1] = s->q[k];
            s->nq--;
            Sock& c = N()->s[i];
            c.proc = process();
            wakeKey(KEY_NET);
            setAddr(a, l, c.rport, false);
            return fdFor(i);
        }
        if (s->nonblock) { errno = EAGAIN; return -1; }
        if (wait("accept", INT64_MAX) == 2) { runAlarm(); errno = EINTR; return -1; }
    }
}
int accept4(int fd, struct sockaddr* a, socklen_t* l, int) { return accept(fd, a, l); }
int connect(int fd, const struct sockaddr* a, socklen_t) {
    if (!active() || !netIs(fd)) { errno = ENETUNREACH; return -1; }
    syncPoint(E_NET, 14);
    int port = ntohs(reinterpret_cast<const struct sockaddr_in*>(a)->sin_port);
    Sock* s = S(fd);
    if (fire(F_NETREFUSE)) { N()->refused[process()]++; errno = ECONNREFUSED; return -1; }
    int64_t d = delay();
    int64_t limit = int64_t(G->clock) + 127000000000ll;
    int64_t ready = int64_t(G->clock) + d;
    for (;;) {
        if (int64_t(G->clock) < ready) { if (wait("connect", ready) == 2) { runAlarm(); errno = EINTR; return -1; } continue; }
        int li = findListener(port);
        if (li < 0) { N()->refused[process()]++; errno = ECONNREFUSED; return -1; }
        Sock& L = N()->s[li];
        if (parted(process(), L.proc) || L.nq >= L.backlog) {
            if (int64_t(G->clock) >= limit) { errno = ETIMEDOUT; return -1; }
            if (wait("connect", limit) == 2) { runAlarm(); errno = EINTR; return -1; }
            continue;
        }
        int ci = newSock(L.proc);
        if (ci < 0) { errno = ECONNREFUSED; return -1; }
        Sock& c = N()->s[ci];
        if (!s->port) s->port = N()->nextPort++;
        c.state = S_CONN; c.port = port; c.rport = s->port; c.peer = int(s - N()->s); c.pgen = s->gen; c.rproc = process();
        s->state = S_CONN; s->rport = port; s->peer = ci; s->pgen = c.gen; s->rproc = L.proc;
        L.q[L.nq++] = ci;
        N()->conns++;
        wakeKey(KEY_NET);
        syncPoint(E_NET, 15);
        return 0;
    }
}
ssize_t recv(int fd, void* b, size_t n, int f) { if (active() && netIs(fd)) return netRecv(fd, b, n, f); errno = EBADF; return -1; }
ssize_t send(int fd, const void* b, size_t n, int f) { if (active() && netIs(fd)) return netSend(fd, b, n, f); errno = EBADF; return -1; }
int shutdown(int fd, int how) __THROW {
    if (!active() || !netIs(fd)) { errno = EBADF; return -1; }
    syncPoint(E_NET, 16);
    Sock* s = S(fd);
    if (s->state != S_CONN) { errno = ENOTCONN; return -1; }
    if (how == SHUT_RD || how == SHUT_RDWR) s->rdShut = 1;
    if (how == SHUT_WR || how == SHUT_RDWR) { s->wrShut = 1; Sock* p = peerOf(s); if (p) sendEof(p); }
    wakeKey(KEY_NET);
    return 0;
}
int setsockopt(int fd, int lv, int o, const void* v, socklen_t l) __THROW { if (active() && netIs(fd)) return 0; return SYSFALL(SYS_setsockopt, fd, lv, o, v, l); }
int getsockopt(int fd, int lv, int o, void* v, socklen_t* l) __THROW {
    if (active() && netIs(fd)) { if (v && l && *l >= sizeof(int)) *static_cast<int*>(v) = (o == SO_SNDBUF || o == SO_RCVBUF) ? N()->window : 0; return 0; }
    return SYSFALL(SYS_getsockopt, fd, lv, o, v, l);
}
int getsockname(int fd, struct sockaddr* a, socklen_t* l) __THROW {
    if (!active() || !netIs(fd)) { errno = EBADF; return -1; }
    Sock* s = S(fd);
    setAddr(a, l, s->port, s->state != S_CONN);
    return 0;
}
int getpeername(int fd, struct sockaddr* a, socklen_t* l) __THROW {
    if (!active() || !netIs(fd)) { errno = EBADF; return -1; }
    Sock* s = S(fd);
    if (s->state != S_CONN) { errno = ENOTCONN; return -1; }
    setAddr(a, l, s->rport, false);
    return 0;
}
int ioctl(int fd, unsigned long req, ...) __THROW {
    va_list ap; va_start(ap, req);
    void* arg = va_arg(ap, void*);
    va_end(ap);
    if (active() && netIs(fd)) {
        Sock* s = S(fd);
        if (req == FIONREAD) {
            if (s->state == S_LISTEN) { errno = EINVAL; return -1; }
            *static_cast<int*>(arg) = int(avail(s));
            return 0;
        }
        if (req == FIONBIO) { s->nonblock = *static_cast<int*>(arg); return 0; }
        return 0;
    }
    return SYSFALL(SYS_ioctl, fd, req, arg);
}
static int pollCore(int n, int (*fdAt)(void*, int), short (*wantAt)(void*, int), void (*set)(void*, int, short), void* ctx, int64_t until) {
    for (;;) {
        int c = 0;
        int64_t next = INT64_MAX;
        for (int i = 0; i < n; ++i) {
            int fd = fdAt(ctx, i);
            short w = wantAt(ctx, i);
            if (fd < 0) { set(ctx, i, 0); continue; }
            short r = netIs(fd) ? events(fd, w) : short(w & (POLLIN | POLLOUT));
            if (netIs(fd) && S(fd)->state == S_CONN) next = std::min(next, nextAt(S(fd)));
            set(ctx, i, r);
            if (r) ++c;
        }
        if (c) return c;
        if (int64_t(G->clock) >= until) return 0;
        int64_t at = std::min(next, until);
        if (wait("select", at) == 2) { runAlarm(); errno = EINTR; return -1; }
    }
}
int select(int n, fd_set* r, fd_set* w, fd_set* e, struct timeval* tv) {
    if (!active()) return SYSFALL(SYS_select, n, r, w, e, tv);
    syncPoint(E_NET, 17);
    if (fire(F_EINTR)) { errno = EINTR; return -1; }
    struct Ctx { fd_set R, W, ro, wo; } c;
    FD_ZERO(&c.R); FD_ZERO(&c.W); FD_ZERO(&c.ro); FD_ZERO(&c.wo);
    if (r) c.R = *r;
    if (w) c.W = *w;
    for (int i = 0; i < n; ++i) if ((FD_ISSET(i, &c.R) || FD_ISSET(i, &c.W)) && syscall(SYS_fcntl, i, F_GETFD) < 0) { errno = EBADF; return -1; }
    int64_t until = tv ? int64_t(G->clock) + tv->tv_sec * 1000000000ll + tv->tv_usec * 1000ll : INT64_MAX;
    int k = pollCore(n,
        [](void* x, int i) { Ctx* c = static_cast<Ctx*>(x); return FD_ISSET(i, &c->R) || FD_ISSET(i, &c->W) ? i : -1; },
        [](void* x, int i) -> short { Ctx* c = static_cast<Ctx*>(x); return short((FD_ISSET(i, &c->R) ? POLLIN : 0) | (FD_ISSET(i, &c->W) ? POLLOUT : 0)); },
        [](void* x, int i, short ev) { Ctx* c = static_cast<Ctx*>(x); if (ev & (POLLIN | POLLERR | POLLHUP)) { if (FD_ISSET(i, &c->R)) FD_SET(i, &c->ro); } if (ev & POLLOUT) FD_SET(i, &c->wo); },
        &c, until);
    if (k < 0) return k;
    k = 0;
    for (int i = 0; i < n; ++i) { if (r && FD_ISSET(i, &c.ro)) ++k; if (w && FD_ISSET(i, &c.wo)) ++k; }
    if (r) *r = c.ro;
    if (w) *w = c.wo;
    if (e) FD_ZERO(e);
    if (tv) { int64_t left = until - int64_t(G->clock); if (left < 0) left = 0; tv->tv_sec = left / 1000000000ll; tv->tv_usec = left % 1000000000ll / 1000; }
    return k;
}
int poll(struct pollfd* p, nfds_t n, int ms) {
    if (!active()) return SYSFALL(SYS_poll, p, n, ms);
    syncPoint(E_NET, 18);
    int64_t until = ms >= 0 ? int64_t(G->clock) + int64_t(ms) * 1000000ll : INT64_MAX;
    return pollCore(int(n), [](void* x, int i) { return static_cast<struct pollfd*>(x)[i].fd; }, [](void* x, int i) { return static_cast<struct pollfd*>(x)[i].events; },
        [](void* x, int i, short ev) { static_cast<struct pollfd*>(x)[i].revents = ev; }, p, until);
}

// ---- names
static struct hostent* local(const char* name) {
    static struct hostent h;
    static in_addr a;
    static char* list[2];
    static char* none[1];
    static char nm[128];
    a.s_addr = htonl(INADDR_LOOPBACK);
    list[0] = reinterpret_cast<char*>(&a); list[1] = nullptr; none[0] = nullptr;
    snprintf(nm, sizeof nm, "%s", name);
    h.h_name = nm; h.h_aliases = none; h.h_addrtype = AF_INET; h.h_length = 4; h.h_addr_list = list;
    return &h;
}
struct hostent* gethostbyname(const char* n) {
    if (!strcmp(n, "localhost") || !strcmp(n, "simhost") || !strncmp(n, "node", 4) || !strcmp(n, "127.0.0.1")) return local(n);
    return nullptr;
}
struct hostent* gethostbyaddr(const void*, socklen_t, int) { return local("localhost"); }
}
