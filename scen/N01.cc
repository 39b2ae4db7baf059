// N01: a TCP connection delivers the exact byte stream or reports failure.
#include "common.h"
#include "eckit/io/SockBuf.h"
#include "eckit/io/TCPHandle.h"
#include "eckit/io/TCPSocketHandle.h"
#include "eckit/net/MultiSocket.h"
#include "eckit/net/ProxiedTCPClient.h"
#include "eckit/net/ProxiedTCPServer.h"
#include "eckit/net/TCPClient.h"
#include "eckit/net/TCPServer.h"
using namespace scen;
using dst::gen;
namespace net = eckit::net;
namespace {
const char* const KIND[] = {"socket", "striped sockets", "socket handle", "stream buffer", "proxied socket"};
struct Dir {             // one direction of the connection
    uint64_t total;      // planned
    uint64_t tried, sentOk, got, gotAtEof;
    int writeFailed, closing, closedOrderly, readFailed, eofSeen, writerDone, readerDone;
};
struct Sh { Dir d[2]; int accepted, connected, setupFailed[2], crashing; };
bool broken() { return dst::fired(dst::F_NETRESET) || dst::fired(dst::F_CRASH) || dst::fired(dst::F_STOPEARLY); }

struct End {
    std::function<long(const void*, long)> write;
    std::function<long(void*, long)> read;
    std::function<void()> closeOutput;          // may be null
    std::function<bool()> stillConnected;       // may be null
    std::function<bool(uint64_t)> skipTo;       // may be null
};
bool known;       // the receiver knows how much to expect (else it reads up to the end)

void writer(const End& e, Sh* s, int dir) {
    Dir& d = s->d[dir];
    uint64_t off = 0;
    while (off < d.total) {
        uint64_t n = std::min<uint64_t>(d.total - off, gen(0, 3) ? gen(0, 300) : gen(0, 6000));
        std::string data = pattern(77 + dir, off, n);
        d.tried = off + n;
        long r = -1;
        try { r = e.write(data.data(), long(n)); } catch (std::exception& x) { dst::note("write: %s", x.what()); r = -1; }
        DST_CHECK(r <= long(n), "write-count", "a write of %llu bytes returned %ld", (unsigned long long)n, r);
        if (r != long(n)) {
            DST_CHECK(broken(), "spurious-failure", "a write of %llu bytes returned %ld although nothing went wrong with the connection", (unsigned long long)n, r);
            d.writeFailed = 1;
            dst::netAbort();
            break;
        }
        off += n;
        d.sentOk = off;
    }
    if (e.closeOutput && (!known || gen(0, 1))) {
        d.closing = 1;
        try { e.closeOutput(); } catch (std::exception& x) { dst::note("closeOutput: %s", x.what()); }
        if (!d.writeFailed) d.closedOrderly = 1;
    }
    d.writerDone = 1;
}
void reader(const End& e, Sh* s, int dir) {
    Dir& d = s->d[dir];
    uint64_t off = 0;
    std::string buf;
    for (;;) {
        uint64_t n = 1 + (gen(0, 3) ? gen(0, 300) : gen(0, 6000));
        if (known) n = std::min<uint64_t>(d.total - off, n);
        if (known && n == 0) break;
        if (e.skipTo && (known ? d.total - off > 1 : false) && gen(0, 7) == 0) {
            uint64_t to = off + gen(0, n);
            if (!e.skipTo(to)) { DST_CHECK(broken(), "spurious-failure", "skipping forward failed although nothing went wrong with the connection"); d.readFailed = 1; dst::netAbort(); break; }
            off = to;
            d.got = off;
            continue;
        }
        if (e.stillConnected && gen(0, 9) == 0) {
            if (!e.stillConnected()) DST_CHECK(d.closing || s->d[1 - dir].closing || broken(), "still-connected", "a healthy connection is reported as lost");
        }
        buf.assign(n, '#');
        long r = -1;
        bool threw = false;
        try { r = e.read(&buf[0], long(n)); } catch (std::exception& x) { dst::note("read: %s", x.what()); threw = true; }
        DST_CHECK(r <= long(n), "read-count", "a read of %llu bytes returned %ld", (unsigned long long)n, r);
        if (r > 0) {
            std::string want = pattern(77 + dir, off, uint64_t(r));
            std::string have = buf.substr(0, size_t(r));
            DST_CHECK(off + uint64_t(r) <= d.tried, "made-up", "%llu bytes were received but only %llu were ever written", (unsigned long long)(off + uint64_t(r)), (unsigned long long)d.tried);
            DST_CHECK(have == want, "wrong-data", "byte %llu of the stream is wrong: bytes were lost, repeated or moved", (unsigned long long)(off + firstDiff(have, want)));
            off += uint64_t(r);
            d.got = off;
        }
        if (r == long(n)) continue;
        if (r < 0 || threw) { DST_CHECK(broken(), "spurious-failure", "a read of %llu bytes failed although nothing went wrong with the connection", (unsigned long long)n); d.readFailed = 1; dst::netAbort(); break; }
        // an early end: only after everything that was sent
        d.gotAtEof = off;
        d.eofSeen = 1;
        if (gen(0, 1)) {   // the end stays the end
            long again = -1;
            try { again = e.read(&buf[0], 1); } catch (std::exception&) {}
            DST_CHECK(again <= 0, "read-after-end", "reading after the end of the stream returned %ld", again);
        }
        break;
    }
    d.readerDone = 1;
}
void duplex(const End& e, Sh* s, int out, bool twoWay) {
    if (twoWay) {
        Threads t;
        t.go([&] { writer(e, s, out); });
        reader(e, s, 1 - out);
        t.join();
    }
    else if (out == 0) writer(e, s, 0);
    else reader(e, s, 0);
}

void oneRun() {
    int kind = int(gen(0, 4));
    bool twoWay = gen(0, 1);
    known = kind == 1 || (kind == 2 && twoWay) || gen(0, 1);
    int port = 7000;
    size_t streams = gen(1, 4), msg = gen(0, 1) ? gen(1, 40) : gen(41, 3000);
    dst::netWindow(int(gen(0, 1) ? gen(1, 64) : gen(65, 20000)));
    Sh* s = dst::sharedNew<Sh>();
    for (int i = 0; i < 2; ++i) s->d[i].total = i == 1 && !twoWay ? 0 : gen(0, 5) ? gen(0, 2500) : gen(0, 30000);
    if (kind == 1 && msg < 4) for (int i = 0; i < 2; ++i) s->d[i].total = std::min<uint64_t>(s->d[i].total, 1500);
    dst::enableIf(dst::F_NETFRAG, 0.8, 0.05, 0.9);
    dst::enableIf(dst::F_NETDELAY, 0.7, 0.05, 0.7);
    int breaks = int(gen(0, 5));
    if (breaks == 1) { dst::enableIf(dst::F_NETRESET, 0.9, 0.001, 0.1); dst::faultBudget(dst::F_NETRESET, 1); }
    if (breaks == 2) dst::enableIf(dst::F_EINTR, 0.9, 0.001, 0.1);
    if (breaks == 3) { dst::enableIf(dst::F_CRASH, 0.9, 0.001, 0.05); dst::faultBudget(dst::F_CRASH, 1); }
    bool crash = breaks == 3;
    bool pclient = kind == 4 && gen(0, 1);   // the client goes through a proxy, played by the server process
    int eat = kind == 2 ? int(gen(0, 2)) : 0;

    dst::note("%s, %s, %zu streams of %zu, %llu and %llu bytes", KIND[kind], twoWay ? "both ways" : "one way", streams, msg, (unsigned long long)s->d[0].total, (unsigned long long)s->d[1].total);
    // ---- the side that accepts (reads direction 0)
    int server = dst::spawn([=] {
        if (crash) dst::crashable(true);
        try {
            End e;
            if (kind == 1) {
                net::MultiSocket acc(port);
                acc.accept();
                s->accepted = 1;
                net::MultiSocket m(acc);
                e.write = [&](const void* b, long n) { return m.write(b, n); };
                e.read = [&](void* b, long n) { return m.read(b, n); };
                duplex(e, s, 1, twoWay);
                while (!(s->d[0].readerDone && (!twoWay || s->d[1].writerDone))) dst::yield();
                m.close();
                return;
            }
            std::unique_ptr<net::TCPServer> srv(kind == 4 && !pclient ? new eckit::ProxiedTCPServer(port, net::SocketOptions::server()) : new net::TCPServer(port));
            net::TCPSocket so(srv->accept());
            s->accepted = 1;
            if (gen(0, 1)) srv->close();
            if (pclient) {
                std::string h;
                char c;
                while (h.size() < 4 || h.compare(h.size() - 4, 4, "\r\n\r\n")) { if (so.read(&c, 1) != 1) throw eckit::ReadError("header"); h += c; }
                DST_CHECK(h.compare(0, 22, "CONNECT far.host:99 HT") == 0, "wrong-header", "the proxy is asked for: %s", h.c_str());
                std::string r = "HTTP/1.0 200 Connection established\r\nProxy-agent: x\r\n\r\n";
                if (so.write(r.data(), long(r.size())) != long(r.size())) throw eckit::WriteError("header");
            }
            if (kind == 3) {
                eckit::SockBuf sb(so);
                std::istream in(&sb);
                std::ostream out(&sb);
                // lines: the reader of a stream buffer cannot tell an error from the end
                uint64_t off = 0;
                char c;
                while (in.get(c)) {
                    DST_CHECK(off < s->d[0].tried, "made-up", "more bytes come out of the stream than went in");
                    DST_CHECK((unsigned char)c == patByte(77, off), "wrong-data", "byte %llu of the stream is wrong", (unsigned long long)off);
                    off++;
                }
                s->d[0].got = off;
                DST_CHECK(broken() || s->d[0].writeFailed || off == s->d[0].total, "lost-data", "the stream ended after %llu of %llu bytes", (unsigned long long)off, (unsigned long long)s->d[0].total);
                s->d[0].eofSeen = s->d[0].readerDone = 1;
                return;
            }
            std::unique_ptr<eckit::InstantTCPSocketHandle> h;
            if (kind == 2) {
                if (eat == 1) h.reset(new eckit::TCPSocketHandle(so)); else h.reset(new eckit::InstantTCPSocketHandle(so));
                h->openForRead();
                e.read = [&](void* b, long n) { return h->read(b, n); };
                e.write = [&](const void* b, long n) { return h->write(b, n); };
                if (!twoWay) e.skipTo = [&](uint64_t to) { try { return (long long)(h->seek((long long)to)) == (long long)to; } catch (std::exception& x) { dst::note("seek: %s", x.what()); return false; } };
            }
            else {
                e.read = [&](void* b, long n) { return so.read(b, n); };
                e.write = [&](const void* b, long n) { return so.write(b, n); };
                e.closeOutput = [&] { so.closeOutput(); };
                e.stillConnected = [&] { return so.stillConnected(); };
            }
            duplex(e, s, 1, twoWay);
            if (kind == 2) { s->d[1].closing = 1; if (!s->d[1].writeFailed) s->d[1].closedOrderly = 1; h->close(); }
        }
        catch (std::exception& x) { dst::note("server: %s", x.what()); s->setupFailed[0] = 1; DST_CHECK(broken(), "spurious-failure", "the accepting side failed although nothing went wrong: %s", x.what()); }
    }, "server");
    // ---- a proxy in between understands the header
    int cport = port, proxy = -1;
    (void)proxy;
    // ---- the side that connects (writes direction 0)
    int client = dst::spawn([=] {
        if (crash) dst::crashable(true);
        try {
            End e;
            if (kind == 1) {
                net::MultiSocket m(streams, msg);
                m.connect("localhost", cport, 60);
                s->connected = 1;
                e.write = [&](const void* b, long n) { return m.write(b, n); };
                e.read = [&](void* b, long n) { return m.read(b, n); };
                duplex(e, s, 0, twoWay);
                m.close();
                return;
            }
            if (kind == 2 && eat != 1) {
                eckit::TCPHandle h("localhost", cport);
                h.openForWrite(0);
                s->connected = 1;
                e.write = [&](const void* b, long n) { return h.write(b, n); };
                e.read = [&](void* b, long n) { return h.read(b, n); };
                duplex(e, s, 0, twoWay);
                s->d[0].closing = 1;
                if (!s->d[0].writeFailed) s->d[0].closedOrderly = 1;
                h.close();
                return;
            }
            std::unique_ptr<net::TCPClient> c(pclient ? new eckit::ProxiedTCPClient("localhost", cport) : new net::TCPClient());
            net::TCPSocket so(c->connect(pclient ? "far.host" : "localhost", pclient ? 99 : cport, 60, 0, 1));
            s->connected = 1;
            if (kind == 4 && !pclient) { std::string hd = "CONNECT x:1 HTTP/1.0\r\nUser-agent: \xc3\xa9\r\n\r\n"; if (so.write(hd.data(), long(hd.size())) != long(hd.size())) throw eckit::WriteError("header"); }
            if (kind == 3) {
                {
                    eckit::SockBuf sb(so);
                    std::ostream out(&sb);
                    e.write = [&](const void* b, long n) -> long { out.write(static_cast<const char*>(b), n); if (gen(0, 3) == 0) out.flush(); return out ? n : -1; };
                    writer(e, s, 0);
                    out.flush();
                    if (!out) s->d[0].writeFailed = 1;
                }
                s->d[0].closing = 1;
                if (!s->d[0].writeFailed) s->d[0].closedOrderly = 1;
                so.close();
                return;
            }
            e.read = [&](void* b, long n) { return so.read(b, n); };
            e.write = [&](const void* b, long n) { return so.write(b, n); };
            e.closeOutput = [&] { so.closeOutput(); };
            e.stillConnected = [&] { return so.stillConnected(); };
            duplex(e, s, 0, twoWay);
            s->d[0].closing = 1;
            if (!s->d[0].writeFailed) s->d[0].closedOrderly = 1;
        }
        catch (std::exception& x) { dst::note("client: %s", x.what()); s->setupFailed[1] = 1; DST_CHECK(broken(), "spurious-failure", "the connecting side failed although nothing went wrong: %s", x.what()); }
    }, "client");
    dst::join(client);
    if (!s->accepted && dst::procAlive(server)) dst::sleepNs(600000000000ull);
    if (!s->accepted && dst::procAlive(server)) {   // nobody is going to connect any more
        DST_CHECK(broken(), "accept-missed", "the client connected but the server is still waiting for it");
        dst::crash(server);
    }
    dst::join(server);
    // a stream may end early only if somebody was told of a failure
    bool told = s->d[0].writeFailed || s->d[0].readFailed || s->d[1].writeFailed || s->d[1].readFailed || s->setupFailed[0] || s->setupFailed[1] || dst::fired(dst::F_CRASH);
    for (int i = 0; i < 2; ++i) {
        Dir& d = s->d[i];
        if (d.eofSeen && kind != 3 && !told) DST_CHECK(d.closing && d.gotAtEof == d.total, "early-end", "direction %d: the stream ended after %llu of %llu bytes and nobody saw an error", i, (unsigned long long)d.gotAtEof, (unsigned long long)d.total);
        if (i == 1 && (!twoWay || kind == 3)) continue;
        DST_CHECK(d.got <= d.tried, "made-up", "more was received than sent");
        if (!broken()) DST_CHECK(d.got == d.total && d.sentOk == d.total, "lost-data", "direction %d: %llu bytes planned, %llu sent, %llu received", i, (unsigned long long)d.total, (unsigned long long)d.sentOk, (unsigned long long)d.got);
        dst::cover(dst::hashMix(d.got, dst::hashMix(d.sentOk, uint64_t(kind * 16 + d.writeFailed * 8 + d.readFailed * 4 + d.eofSeen))));
    }
    if (s->accepted && s->connected && s->d[0].got > 0) dst::nontrivial();
}
}  // namespace
namespace dst { const ScenarioDef scenario = {"N01", initMain, oneRun}; }
