// N03: a call over a cached connection gets the reply to that call or an error.
#include <csignal>
#include "common.h"
#include <sys/stat.h>
#define private public
#include "eckit/config/ResourceMgr.h"
#undef private
#include "eckit/serialisation/BadTag.h"
#include "eckit/io/cluster/NodeInfo.h"
#include "eckit/net/Connector.h"
#include "eckit/net/TCPServer.h"
#include "eckit/net/TCPStream.h"
#include "eckit/thread/AutoLock.h"
using namespace scen;
using dst::gen;
namespace net = eckit::net;
namespace {
constexpr uint64_t SEC = 1000000000ull;
struct Sh {
    int up[2], healthy, done, calls, okCalls, failures, cut, hits, exceptions;
    uint64_t stamp;          // every answer computed by a server gets its own
    uint64_t askedAt[4096];  // simulated time at which answer n was computed
};
Sh* sh;
int nservers;
bool refuse, gaveUp;
eckit::NodeInfo nodeOf(int i) {
    eckit::NodeInfo n;
    n.name("svc"); n.node(i ? "beta" : "alpha"); n.host("localhost"); n.port(7600 + i);
    return n;
}
bool disturbed() {
    for (dst::Fault f : {dst::F_CRASH, dst::F_NETRESET, dst::F_STOPEARLY, dst::F_BASEFAULT, dst::F_NETREFUSE}) if (dst::fired(f)) return true;
    return false;
}
// ------------------------------------------------------------------ the node
void serveOne(int node, net::TCPSocket& so) {
    net::InstantTCPStream s(so);
    if (dst::fire(dst::F_BASEFAULT)) {
        // the node refuses the login
        eckit::NodeInfo remote;
        s >> remote;
        s << eckit::UserError("login refused");
        dst::note("node %d refused a login", node);
        // it goes on reading what comes
        for (;;) { std::string w; s >> w; dst::fail("not-logged-in", "a call was made over a connection whose login was refused"); }
    }
    eckit::NodeInfo::acceptLogin(s);
    for (;;) {
        std::string what;
        if (!s.next(what)) return;
        if (what != "ask") dst::fail("mixed-request", "node %d was asked for '%s'", node, what.c_str());
        unsigned long long id, key, size;
        std::string in, in2;
        s >> id; s >> key; s >> size; s >> in; s >> in2;
        if (in != pattern(key, 0, in.size()) || in2 != pattern(key + 1, 0, in2.size())) dst::fail("mixed-request", "node %d received an altered request", node);
        uint64_t st;
        { dst::Quiet q; st = ++sh->stamp; if (st < 4096) sh->askedAt[st] = dst::now(); }
        if (gen(0, 5) == 0) dst::sleepNs(gen(0, 8) * SEC);
        if (key % 7 == 6) { s << eckit::UserError("no such thing " + std::to_string(id)); dst::Quiet q; sh->exceptions++; continue; }
        int cut = dst::fire(dst::F_STOPEARLY) ? int(gen(0, 3)) : 9;
        if (cut == 0) break;
        s << id; s << key;
        if (cut == 1) break;
        if (gen(0, 9) == 0) dst::sleepNs(gen(0, 8) * SEC);
        s << (unsigned long long)node; s << (unsigned long long)st;
        if (cut == 2) break;
        s << pattern(key * 2 + 1, 0, size);
        if (cut == 3) break;
    }
    dst::Quiet q;
    sh->cut++;
}
struct Conn { net::TCPSocket so; Conn(net::TCPServer& srv) : so(srv.accept()) {} };
void server(int node) {
    net::TCPServer srv(7600 + node);
    (void)srv.socket();
    sh->up[node]++;
    for (;;) {
        std::shared_ptr<Conn> c(new Conn(srv));
        std::thread([=] {
            try { serveOne(node, c->so); }
            catch (eckit::BadTag& e) { if (!strstr(e.what(), "end of file")) dst::fail("mixed-request", "node %d cannot make sense of a request: %s", node, e.what()); }
            catch (std::exception& e) { dst::note("node %d: %s", node, e.what()); }
            c->so.close();
        }).detach();
    }
}
// ------------------------------------------------------------------ the client
struct Client {
    uint64_t nextId;
    std::map<std::pair<net::Connector*, std::string>, std::pair<uint64_t, uint64_t>> memo;   // (connection, request) -> stamp, time at which it was remembered
    std::map<int, net::Connector*> last;
    struct Res { bool ok = false, exception = false; uint64_t stamp = 0; std::string why; };

    // one call; nested is called at a random place in it
    Res call(net::Connector& c, int node, uint64_t id, uint64_t key, uint64_t size, const std::function<void()>& nested, bool mayStop) {
        Res r;
        int at = nested ? int(gen(1, 6)) : 0, stop = mayStop && gen(0, 9) == 0 ? int(gen(1, 6)) : 0;
        auto place = [&](int k) {
            if (at == k) nested();
            if (stop == k) { dst::note("call %llu is abandoned at %d", (unsigned long long)id, k); throw eckit::UserError("abandoned"); }
        };
        { dst::Quiet q; sh->calls++; }
        try {
            c << "ask"; c << (unsigned long long)id;
            place(1);
            c << (unsigned long long)key; c << (unsigned long long)size;
            place(2);
            c << pattern(key, 0, key * 37 % 1500); c << pattern(key + 1, 0, key * 11 % 700);
            place(3);
            unsigned long long rid, rkey, rnode, rstamp;
            std::string data;
            c >> rid; c >> rkey;
            place(4);
            c >> rnode; c >> rstamp;
            place(5);
            c >> data;
            place(6);
            DST_CHECK(rid == id, "wrong-reply", "call %llu was answered with the reply to %llu", (unsigned long long)id, rid);
            DST_CHECK(rkey == key && int(rnode) == node, "wrong-reply", "the answer is for key %llu of node %llu instead of %llu of %d", rkey, rnode, (unsigned long long)key, node);
            DST_CHECK(data == pattern(key * 2 + 1, 0, size), "wrong-reply", "the answer to %llu is altered: %zu bytes instead of %llu", (unsigned long long)id, data.size(), (unsigned long long)size);
            DST_CHECK(key % 7 != 6, "wrong-reply", "the answer to %llu is not the error the node reported", (unsigned long long)id);
            r.ok = true; r.stamp = rstamp;
            dst::Quiet q;
            sh->okCalls++;
        }
        catch (eckit::BadTag& e) { dst::fail("desynchronised", "the answer to call %llu makes no sense: %s", (unsigned long long)id, e.what()); }
        catch (eckit::RemoteException& e) {
            r.why = e.what(); r.exception = true;
            if (key % 7 != 6) DST_CHECK(r.why.find("no such thing") == std::string::npos, "wrong-reply", "call %llu got the error of another: %s", (unsigned long long)id, e.what());
            if (key % 7 == 6) { DST_CHECK(r.why.find("no such thing " + std::to_string(id)) != std::string::npos, "wrong-reply", "call %llu got the error of another: %s", (unsigned long long)id, e.what()); r.ok = true; }
        }
        catch (std::exception& e) {
            r.why = e.what();
            if (r.why.find("abandoned") != std::string::npos) { gaveUp = true; c.reset(); }
        }
        if (!r.ok) {
            dst::note("call %llu on node %d failed: %s", (unsigned long long)id, node, r.why.c_str());
            dst::Quiet q;
            sh->failures++;
        }
        return r;
    }
    // one or several calls over the connection to a node
    void use(int depth, bool settled) {
        int node = int(gen(0, nservers - 1));
        bool again = !settled && last.count(node) && gen(0, 3) == 0;
        if (again && last[node]->locked()) again = false;
        net::Connector& c = again ? *last[node] : net::Connector::service(nodeOf(node));
        last[node] = &c;
        bool lock = depth || gen(0, 1) || nservers == 1;
        std::unique_ptr<eckit::AutoLock<net::Connector>> al;
        if (lock) al.reset(new eckit::AutoLock<net::Connector>(c));
        bool autoclose = gen(0, 9) == 0;
        if (lock) c.autoclose(autoclose);
        bool memoize = gen(0, 2) == 0;
        int n = int(gen(1, 3));
        unsigned long life = gen(0, 40);
        std::unique_ptr<net::AutoMemoize> am;
        for (int i = 0; i < n; ++i) {
            std::function<void()> nested;
            if (depth == 0 && gen(0, 3) == 0 && (lock || nservers > 1)) nested = [&, node] {
                if (lock) { Client::use(1, settled); return; }
                // not locked: only another node may be called meanwhile
                int other = 1 - node;
                net::Connector& o = net::Connector::service(nodeOf(other));
                call(o, other, ++nextId, gen(0, 20), sizeNear(1024, 5000), nullptr, false);
            };
            uint64_t key = gen(0, 20), size = sizeNear(1024, 5000), id = ++nextId;
            bool was = disturbed() || gaveUp;
            if (memoize) {
                // requests are repeated
                key = gen(0, 7); size = (key * 523) % 3000; id = 5;
                am.reset(new net::AutoMemoize(c, life));
            }
            uint64_t t0 = dst::now(), before = sh->stamp;
            dst::note("call %llu on node %d%s%s%s%s", (unsigned long long)id, node, lock ? " locked" : "", autoclose && lock ? " autoclose" : "", memoize ? " memoized" : "", again ? " (connection used before)" : "");
            Res r = call(c, node, id, key, size, nested, !settled);
            if (memoize) {
                auto remember = [&](const std::string& req, const Res& x, uint64_t t, uint64_t stamps) {
                    auto m = memo.find({&c, req});
                    bool cached = x.stamp <= stamps;
                    if (!cached) return true;
                    { dst::Quiet q; sh->hits++; }
                    DST_CHECK(m != memo.end() && m->second.first == x.stamp, "wrong-memory", "the answer to request %s was computed before it was asked, and is not the one remembered", req.c_str());
                    DST_CHECK(t <= m->second.second + (life + 1) * SEC, "stale", "an answer remembered for %.3f s was used, the limit is %lu s", double(t - m->second.second) / 1e9, life);
                    return false;
                };
                int more = r.ok && gen(0, 3) == 0;
                std::string req = "5:" + std::to_string(key);
                bool fresh = r.ok && !r.exception && remember(req, r, t0, before);
                if (more) {
                    uint64_t b2 = sh->stamp, key2 = gen(0, 5), t2 = dst::now();
                    Res r2 = call(c, node, 77, key2, 100, nullptr, false);
                    if (!r2.ok && !disturbed() && !gaveUp) dst::fail("spurious-failure", "the second of two calls failed: %s", r2.why.c_str());
                    req = "77:" + std::to_string(key2);
                    fresh = r2.ok && remember(req, r2, t2, b2);
                    r.stamp = r2.stamp;
                }
                am.reset();
                // the last exchange is remembered
                if (fresh) memo[{&c, req}] = {r.stamp, dst::now()};
            }
            if (settled) {
                DST_CHECK(r.ok, "not-recovered", "a call to a healthy node fails: %s", r.why.c_str());
            }
            if (!r.ok && !was && !disturbed() && !gaveUp) dst::fail("spurious-failure", "call %llu failed though nothing happened: %s", (unsigned long long)id, r.why.c_str());
            if (!r.ok && gen(0, 1)) break;
            dst::cover(dst::hashMix(uint64_t(r.ok) * 8 + uint64_t(memoize) * 4 + uint64_t(lock) * 2 + (nested ? 1 : 0), uint64_t(sh->failures * 16 + sh->hits)));
        }
    }
};
void oneRun() {
    sh = dst::sharedNew<Sh>();
    nservers = int(gen(1, 2));
    int nclients = int(gen(1, 2)), nthreads = int(gen(1, 2)), rounds = int(gen(1, 6));
    int timeout = gen(0, 3) == 0 ? int(gen(1, 10)) : 0;
    bool offline = gen(0, 3) == 0, crashes = gen(0, 2) == 0;
    dst::enableIf(dst::F_NETDELAY, 0.5, 0.05, 0.6);
    dst::enableIf(dst::F_NETFRAG, 0.5, 0.05, 0.8);
    dst::enableIf(dst::F_EINTR, 0.3, 0.01, 0.2);
    dst::enableIf(dst::F_STOPEARLY, 0.4, 0.05, 0.5);
    dst::enableIf(dst::F_NETRESET, 0.3, 0.001, 0.05);
    dst::enableIf(dst::F_NETREFUSE, 0.2, 0.05, 0.4);
    dst::enableIf(dst::F_BASEFAULT, 0.2, 0.05, 0.4);
    if (crashes) { dst::enable(dst::F_CRASH, 0.002 * double(gen(1, 20))); dst::faultBudget(dst::F_CRASH, 3); }
    if (timeout) eckit::ResourceMgr::instance().set("connectorTimeout", std::to_string(timeout));
    if (offline) eckit::ResourceMgr::instance().set("setNodeOfflineOnError", "true");
    ::mkdir((dst::scratch() + "/cluster").c_str(), 0777);
    std::vector<int> servers(nservers), clients;
    auto startServer = [&](int i) { return dst::spawn([=] { signal(SIGPIPE, SIG_IGN); if (crashes) dst::crashable(true); server(i); }, "node"); };
    for (int i = 0; i < nservers; ++i) servers[i] = startServer(i);
    for (int k = 0; k < nclients; ++k) clients.push_back(dst::spawn([=] {
        Threads t;
        for (int j = 0; j < nthreads; ++j) t.go([=] {
            Client c;
            c.nextId = uint64_t(k * 2 + j + 1) * 1000;
            for (int i = 0; i < rounds; ++i) {
                c.use(0, false);
                if (gen(0, 3) == 0) dst::sleepNs(gen(0, 20) * SEC);
            }
            { dst::Quiet q; sh->done++; }
            while (!sh->healthy) dst::sleepNs(SEC);
            for (int i = 0; i < 2; ++i) c.use(0, true);
        });
        t.join();
    }, "client"));
    for (;;) {
        bool all = sh->done == nclients * nthreads;
        for (int i = 0; i < nservers; ++i) if (!dst::procAlive(servers[i])) { if (!all) dst::sleepNs(gen(0, 10) * SEC); servers[i] = startServer(i); }
        if (all) {
            bool ok = true;
            dst::disableAll();
            dst::sleepNs(30 * SEC);
            for (int i = 0; i < nservers; ++i) ok = ok && dst::procAlive(servers[i]);
            if (ok) break;
        }
        dst::sleepNs(SEC);
    }
    sh->healthy = 1;
    for (int p : clients) dst::join(p);
    for (int p : servers) dst::crash(p);
    if (sh->okCalls > 2) dst::nontrivial();
}
void init() { initMain(); eckit::NodeInfo::thisNode(); }
}  // namespace
namespace dst { const ScenarioDef scenario = {"N03", init, oneRun}; }
