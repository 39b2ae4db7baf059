// N02: connecting and accepting retry as asked, time out, and do not give up early.
#include <csignal>
#include "common.h"
#include "eckit/io/Select.h"
#include "eckit/net/NetService.h"
#include "eckit/net/NetUser.h"
#include "eckit/net/TCPClient.h"
#include "eckit/net/TCPServer.h"
#include "eckit/thread/ThreadControler.h"
using namespace scen;
using dst::gen;
namespace net = eckit::net;
namespace {
constexpr uint64_t SEC = 1000000000ull;
double secs(uint64_t ns) { return double(ns) / 1e9; }
void onAlarm(int) {}
struct Sh {
    int up, ended, ok, failed, timedOut, port[8], remote[8], nremote, served, got;
    uint64_t upAt, connectedAt[8], tried[8];
};
// ------------------------------------------------------------------ connecting
void connecting() {
    Sh* s = dst::sharedNew<Sh>();
    const int port = 7100;
    bool timeouts = gen(0, 2) == 0, parted = timeouts ? gen(0, 1) : gen(0, 5) == 0, never = gen(0, 5) == 0;
    uint64_t start = gen(0, 2) ? gen(0, 30) * SEC + gen(0, 9) * 100000000 : 0, healAt = parted ? gen(1, 400) * SEC : 0;
    dst::enableIf(dst::F_NETREFUSE, 0.5, 0.1, 0.9); dst::faultBudget(dst::F_NETREFUSE, 60);
    dst::enableIf(dst::F_NETDELAY, 0.6, 0.05, 0.8);
    int serverProc = dst::spawn([=] {
        if (start) dst::sleepNs(start);
        if (never) return;
        net::TCPServer srv(port);
        s->upAt = dst::now();
        (void)srv.socket();
        s->up = 1;
        for (;;) {
            bool c = false;
            srv.accept("waiting", 5, &c);
            if (c) { net::TCPSocket so(srv); s->got++; char b; so.read(&b, 1); }
            else if (s->ended) return;
        }
    }, "server");
    int clientProc = dst::spawn([=] {
        struct sigaction mine, after;
        memset(&mine, 0, sizeof mine);
        mine.sa_handler = onAlarm;
        sigaction(SIGALRM, &mine, nullptr);
        int rounds = int(gen(1, 3));
        net::TCPClient c;
        for (int k = 0; k < rounds; ++k) {
            int retries = int(gen(0, 7)) - 1, delay = int(gen(0, 3) ? gen(0, 8) : gen(0, 40)), timeout = timeouts ? int(gen(1, 20)) : 0;
            if (never && retries < 0) retries = 3;
            if (retries < 0 && delay == 0) delay = 1;
            int before = dst::netRefused(dst::process());
            uint64_t t0 = dst::now();
            int allowed = std::max(1, retries);
            bool timedOut = false, connected = false, many = false;
            std::string what;
            try { c.connect("localhost", port, retries, timeout, delay); connected = true; }
            catch (eckit::TimeOut& e) { timedOut = true; what = e.what(); }
            catch (eckit::TooManyRetries& e) { many = true; what = e.what(); }
            catch (std::exception& e) { what = e.what(); }
            uint64_t el = dst::now() - t0;
            int refused = dst::netRefused(dst::process()) - before;
            dst::note("connect with %d retries, delay %d, timeout %d: %s after %.3f s and %d refusals", retries, delay, timeout, connected ? "connected" : what.c_str(), secs(el), refused);
            dst::cover(dst::hashMix(uint64_t(retries + 2) * 100 + uint64_t(refused), uint64_t(connected * 2 + timedOut)));
            if (timeout || timeouts) {
                sigaction(SIGALRM, nullptr, &after);
                DST_CHECK(after.sa_handler == mine.sa_handler, "signal-handler", "connecting with a timeout leaves its own handler behind for alarm signals");
            }
            DST_CHECK(connected || timedOut || many, "wrong-error", "connecting failed with: %s", what.c_str());
            DST_CHECK(el + 1000 >= uint64_t(many ? std::max(0, refused - 1) : refused) * uint64_t(delay) * SEC, "too-fast", "%d attempts were refused but only %.3f s passed, with %d s between attempts", refused, secs(el), delay);
            if (!parted) DST_CHECK(secs(el) <= refused * (delay + 6.0) + 10 + (timeouts ? timeout : 0), "too-slow", "connecting took %.3f s for %d refused attempts with %d s between attempts", secs(el), refused, delay);
            if (timeout) DST_CHECK(secs(el) <= refused * (delay + timeout + 1.0) + timeout + 1, "late-timeout", "connecting took %.3f s with a timeout of %d s and %d refused attempts", secs(el), timeout, refused);
            if (timedOut) {
                DST_CHECK(timeout, "wrong-error", "connecting without a timeout timed out");
                DST_CHECK(parted || dst::fired(dst::F_NETDELAY), "early-timeout", "connecting timed out although the network is fine");
                DST_CHECK(el >= uint64_t(timeout) * SEC - 1000, "early-timeout", "connecting timed out after %.3f s instead of %d s", secs(el), timeout);
                DST_CHECK(secs(el) <= refused * (delay + 6.0) + timeout + 1, "late-timeout", "connecting timed out only after %.3f s instead of %d s", secs(el), timeout);
                s->timedOut++;
            }
            if (many) {
                DST_CHECK(retries >= 0, "gave-up", "connecting gave up although it was to be tried for ever");
                DST_CHECK(refused == allowed, "gave-up", "connecting gave up after %d refused attempts instead of %d", refused, allowed);
                s->failed++;
            }
            if (connected) {
                DST_CHECK(retries < 0 || refused < allowed, "too-many-tries", "connected after %d refused attempts although only %d are allowed", refused, allowed);
                DST_CHECK(c.isConnected(), "not-connected", "connected without being connected");
                DST_CHECK(s->upAt, "not-connected", "connected to a server that does not exist");
                DST_CHECK(c.remotePort() == port, "wrong-peer", "connected to port %d instead of %d", c.remotePort(), port);
                s->ok++;
                c.close();
                DST_CHECK(!c.isConnected(), "still-connected", "connected after having been closed");
            }
            DST_CHECK(dst::netSockets(dst::process()) == 0, "leaked-socket", "%d sockets are left open", dst::netSockets(dst::process()));
        }
        // once the server is there and the network is fine the same client connects at its first attempt
        if (never) return;
        while (!s->up || dst::now() < healAt + SEC) dst::sleepNs(SEC);
        dst::disableAll();
        uint64_t t0 = dst::now();
        try { c.connect("localhost", port, 1, timeouts ? 30 : 0, 1); }
        catch (std::exception& e) { dst::fail("gave-up", "connecting to a server that is there fails: %s", e.what()); }
        DST_CHECK(dst::now() - t0 < 5 * SEC, "too-slow", "connecting to a server that is there takes %.3f s", secs(dst::now() - t0));
        s->ok++;
        c.close();
    }, "client");
    if (parted) {
        dst::partition(serverProc, clientProc, true);
        dst::sleepNs(healAt);
        dst::partition(serverProc, clientProc, false);
    }
    dst::join(clientProc);
    s->ended = 1;
    dst::join(serverProc);
    if (dst::netRefused(clientProc) || s->timedOut) dst::nontrivial();
}
// ------------------------------------------------------------------ accepting
void accepting() {
    Sh* s = dst::sharedNew<Sh>();
    const int port = 7200;
    int n = int(gen(0, 5)), timeout = int(gen(1, 20));
    bool flag = gen(0, 1), crashers = gen(0, 3) == 0;
    dst::enableIf(dst::F_EINTR, 0.5, 0.02, 0.5);
    dst::enableIf(dst::F_NETDELAY, 0.5, 0.05, 0.8);
    if (crashers) dst::enableIf(dst::F_CRASH, 0.8, 0.01, 0.3);
    std::vector<int> procs;
    int serverProc = dst::spawn([=] {
        net::TCPServer srv(port);
        (void)srv.socket();
        s->up = 1;
        uint64_t idleFrom = dst::now();
        for (;;) {
            bool last = s->ended;  // everybody connected before this round began
            uint64_t t0 = dst::now();
            int before = 0;
            for (int i = 0; i < n; ++i) if (s->connectedAt[i]) before++;
            bool conn = false, out = false;
            try { if (flag) srv.accept("waiting for work", timeout, &conn); else { srv.accept("waiting for work", timeout); conn = true; } }
            catch (eckit::TimeOut& e) { out = true; dst::note("%s", e.what()); }
            uint64_t el = dst::now() - t0;
            if (flag) DST_CHECK(!out, "wrong-error", "accept was to report a timeout by its flag and not by an exception");
            if (conn) {
                net::TCPSocket so(srv);
                DST_CHECK(so.isConnected(), "not-connected", "accept returned a connection that is not one");
                s->remote[s->nremote++] = so.remotePort();
                DST_CHECK(s->nremote <= n, "made-up", "more connections were accepted than made");
                idleFrom = dst::now();
                continue;
            }
            DST_CHECK(el >= uint64_t(timeout) * SEC - 1000, "early-timeout", "accept timed out after %.3f s instead of %d s", secs(el), timeout);
            DST_CHECK(secs(el) <= timeout + 1.0, "late-timeout", "accept timed out only after %.3f s instead of %d s", secs(el), timeout);
            DST_CHECK(s->nremote >= before, "missed", "accept timed out although %d connections are made and only %d accepted", before, s->nremote);
            s->timedOut++;
            if (last) break;
        }
        (void)idleFrom;
        if (gen(0, 1)) { srv.close(); DST_CHECK(dst::netSockets(dst::process()) == 0, "leaked-socket", "%d sockets are left open after closing", dst::netSockets(dst::process())); }
    }, "server");
    for (int i = 0; i < n; ++i) {
        uint64_t at = gen(0, 40) * SEC;
        procs.push_back(dst::spawn([=] {
            if (crashers) dst::crashable(true);
            dst::sleepNs(at);
            try {
                net::TCPClient c;
                c.connect("localhost", port, -1, 0, 1);
                dst::Quiet q;
                s->port[i] = c.localPort();
                s->connectedAt[i] = dst::now();
                c.close();
            }
            catch (std::exception& e) { dst::fail("gave-up", "client: %s", e.what()); }
        }, "client"));
    }
    for (int p : procs) dst::join(p);
    s->ended = 1;
    dst::join(serverProc);
    std::multiset<int> want, have;
    for (int i = 0; i < n; ++i) if (s->connectedAt[i]) want.insert(s->port[i]);
    for (int i = 0; i < s->nremote; ++i) have.insert(s->remote[i]);
    if (!dst::fired(dst::F_CRASH)) DST_CHECK(want.size() == have.size(), "missed", "%zu connections were made and %zu accepted", want.size(), have.size());
    DST_CHECK(want.size() <= have.size(), "missed", "%zu connections were made and %zu accepted", want.size(), have.size());
    dst::cover(dst::hashMix(uint64_t(n * 10 + s->timedOut), uint64_t(timeout)));
    if (n > 0 && s->timedOut) dst::nontrivial();
}
// ------------------------------------------------------------------ select
void selecting() {
    struct Sel { int sent[8]; uint64_t at[8][8]; int up, done; };
    Sel* s = dst::sharedNew<Sel>();
    const int port = 7300;
    int n = int(gen(1, 5));
    dst::enableIf(dst::F_EINTR, 0.5, 0.02, 0.5);
    dst::enableIf(dst::F_NETDELAY, 0.6, 0.05, 0.8);
    dst::enableIf(dst::F_NETFRAG, 0.4, 0.05, 0.8);
    int serverProc = dst::spawn([=] {
        net::TCPServer srv(port);
        (void)srv.socket();
        std::vector<std::unique_ptr<net::TCPSocket>> so;
        std::vector<int> got(n, 0), who(n, -1);
        std::vector<bool> in(n, false), over(n, false);
        eckit::Select sel(srv);
        int nover = 0;
        while (nover < n) {
            long t = long(gen(0, 6));
            uint64_t t0 = dst::now();
            std::vector<int> sentBefore(n);
            bool ready = sel.ready(t);
            uint64_t el = dst::now() - t0;
            if (!ready) {
                DST_CHECK(el + 1000 >= uint64_t(t) * SEC, "early-timeout", "waiting for input ended after %.3f s instead of %ld s", secs(el), t);
                DST_CHECK(secs(el) <= double(t) + 1, "late-timeout", "waiting for input ended after %.3f s instead of %ld s", secs(el), t);
                continue;
            }
            DST_CHECK(secs(el) <= double(t) + 1, "late-timeout", "waiting for input ended after %.3f s instead of %ld s", secs(el), t);
            bool any = false;
            if (sel.set(srv)) {
                any = true;
                so.emplace_back(new net::TCPSocket(srv.accept()));
                sel.add(*so.back());
                in[so.size() - 1] = true;
            }
            for (size_t i = 0; i < so.size(); ++i) {
                if (over[i] || !sel.set(*so[i])) continue;
                DST_CHECK(in[i], "not-asked", "a connection that was removed is reported as ready");
                any = true;
                char c = '#';
                uint64_t r0 = dst::now();
                long r = so[i]->read(&c, 1);
                DST_CHECK(dst::now() - r0 < SEC / 2 , "not-ready", "a connection reported as ready had nothing to read for %.3f s", secs(dst::now() - r0));
                if (r == 1) { DST_CHECK(c == char('a' + got[i]), "wrong-data", "wrong byte"); got[i]++; }
                else { over[i] = true; nover++; sel.remove(*so[i]); in[i] = false; if (gen(0, 1)) so[i]->close(); }
            }
            if (!any && !dst::fired(dst::F_EINTR)) dst::fail("nothing-ready", "input was announced but no connection is ready");
            dst::cover(dst::hashMix(uint64_t(so.size()), uint64_t(nover)));
        }
        int total = 0, sent = 0;
        for (int g : got) total += g;
        for (int i = 0; i < n; ++i) sent += s->sent[i];
        DST_CHECK(total == sent, "missed", "%d bytes were sent and %d received", sent, total);
        if (total > 2) dst::nontrivial();
    }, "server");
    std::vector<int> procs;
    for (int i = 0; i < n; ++i) {
        int k = int(gen(0, 7));
        procs.push_back(dst::spawn([=] {
            try {
                net::TCPClient c;
                c.connect("localhost", port, -1, 0, 1);
                for (int j = 0; j < k; ++j) {
                    dst::sleepNs(gen(0, 8) * SEC);
                    char b = char('a' + j);
                    if (c.write(&b, 1) != 1) dst::fail("spurious-failure", "write failed");
                    s->sent[i]++;
                }
                c.close();
            }
            catch (std::exception& e) { dst::fail("gave-up", "client: %s", e.what()); }
        }, "client"));
    }
    for (int p : procs) dst::join(p);
    dst::join(serverProc);
}
// ------------------------------------------------------------------ a port that is in use
void busyPort() {
    struct B { int first, closed; uint64_t closedAt, upAt; int port[4]; };
    B* s = dst::sharedNew<B>();
    const int port = 7400;
    uint64_t hold = gen(0, 60) * SEC;
    dst::enableIf(dst::F_NETDELAY, 0.4, 0.05, 0.5);
    int a = dst::spawn([=] {
        { net::TCPServer srv(port); (void)srv.socket(); s->first = 1; dst::sleepNs(hold); }
        s->closedAt = dst::now();
        s->closed = 1;
        net::EphemeralTCPServer e1, e2;
        s->port[0] = e1.localPort(); s->port[1] = e2.localPort();
        DST_CHECK(s->port[0] > 0 && s->port[0] != s->port[1], "same-port", "two servers got port %d", s->port[0]);
    }, "first");
    int b = dst::spawn([=] {
        while (!s->first) dst::sleepNs(SEC / 10);
        net::TCPServer srv(port);
        (void)srv.socket();
        s->upAt = dst::now();
        DST_CHECK(s->closed, "same-port", "two servers listen on the same port");
        DST_CHECK(srv.localPort() == port, "wrong-port", "listening on port %d instead of %d", srv.localPort(), port);
        DST_CHECK(s->upAt - s->closedAt <= 6 * SEC, "too-slow", "the port was free for %.3f s before it was taken", secs(s->upAt - s->closedAt));
        net::TCPSocket so(srv.accept());
        char c;
        DST_CHECK(so.read(&c, 1) == 1 && c == 'x', "wrong-data", "wrong byte");
    }, "second");
    int c = dst::spawn([=] {
        while (!s->upAt) dst::sleepNs(SEC);
        net::TCPClient cl;
        cl.connect("localhost", port, 3, 0, 1);
        char x = 'x';
        if (cl.write(&x, 1) != 1) dst::fail("spurious-failure", "write failed");
    }, "client");
    dst::join(a); dst::join(b); dst::join(c);
    dst::nontrivial();
    dst::cover(hold / SEC);
}
// ------------------------------------------------------------------ a service
struct Answer : net::NetUser {
    Sh* s;
    Answer(net::TCPSocket& so, Sh* x) : NetUser(so), s(x) {}
    void serve(eckit::Stream&, std::istream&, std::ostream&) override {
        unsigned char c = 0;
        if (protocol_.read(&c, 1) != 1) return;
        c++;
        if (protocol_.write(&c, 1) != 1) return;
        dst::Quiet q;
        s->served++;
    }
};
struct Service : net::NetService {
    Sh* s; long t;
    Service(int port, Sh* x, long tm) : NetService(port), s(x), t(tm) {}
    std::string name() const override { return "svc"; }
    net::NetUser* newUser(net::TCPSocket& so) const override { return new Answer(so, s); }
    bool preferToRunAsProcess() const override { return false; }
    long timeout() const override { return t; }
};
void service() {
    Sh* s = dst::sharedNew<Sh>();
    const int port = 7500;
    int n = int(gen(1, 6));
    long t = long(gen(1, 5));
    dst::enableIf(dst::F_EINTR, 0.5, 0.02, 0.5);
    dst::enableIf(dst::F_NETDELAY, 0.5, 0.05, 0.8);
    bool crashers = gen(0, 2) == 0;
    if (crashers) dst::enableIf(dst::F_CRASH, 0.8, 0.01, 0.3);
    int serverProc = dst::spawn([=] {
        Service* svc = new Service(port, s, t);
        eckit::ThreadControler tc(svc, false);
        tc.start();
        while (!s->ended) dst::sleepNs(SEC);
        tc.stop();
        uint64_t t0 = dst::now();
        tc.wait();
        DST_CHECK(dst::now() - t0 <= uint64_t(t + 1) * SEC, "late-stop", "the service stopped only after %.3f s", secs(dst::now() - t0));
        dst::sleepNs(20 * SEC);
        expectAllThreadsEnded("service", 2);
    }, "server");
    std::vector<int> procs;
    for (int i = 0; i < n; ++i) {
        uint64_t at = gen(0, 20) * SEC;
        bool mayCrash = crashers && gen(0, 1);
        procs.push_back(dst::spawn([=] {
            if (mayCrash) dst::crashable(true);
            dst::sleepNs(at);
            try {
                net::TCPClient c;
                c.connect("localhost", port, 20, 0, 1);
                unsigned char b = (unsigned char)(i * 7), r = 0;
                uint64_t t0 = dst::now();
                bool ok = c.write(&b, 1) == 1 && c.read(&r, 1) == 1;
                DST_CHECK(ok, "not-served", "client %d got no answer although the service is running", i);
                DST_CHECK(r == (unsigned char)(b + 1), "wrong-answer", "client %d got the answer of another", i);
                DST_CHECK(dst::now() - t0 <= 60 * SEC, "too-slow", "client %d waited %.3f s for its answer", i, secs(dst::now() - t0));
                dst::Quiet q;
                s->ok++;
            }
            catch (std::exception& e) { dst::fail("gave-up", "client %d: %s", i, e.what()); }
        }, "client"));
    }
    for (int p : procs) dst::join(p);
    s->ended = 1;
    dst::join(serverProc);
    if (!crashers) DST_CHECK(s->ok == n && s->served == n, "not-served", "%d of %d clients were served (%d answers sent)", s->ok, n, s->served);
    dst::cover(dst::hashMix(uint64_t(n), uint64_t(s->served)));
    if (n > 1) dst::nontrivial();
}
void oneRun() {
    switch (gen(0, 5)) {
        case 0: case 1: connecting(); break;
        case 2: accepting(); break;
        case 3: selecting(); break;
        case 4: service(); break;
        default: busyPort(); break;
    }
}
}  // namespace
namespace dst { const ScenarioDef scenario = {"N02", initMain, oneRun}; }
