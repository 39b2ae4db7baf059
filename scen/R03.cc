// R03: the cluster registry against a sequential model with time.
#include <sys/stat.h>
#include "common.h"
#define private public
#include "eckit/config/ResourceMgr.h"
#undef private
#include "eckit/io/cluster/ClusterNodes.h"
#include "eckit/io/cluster/NodeInfo.h"
#include "eckit/io/Buffer.h"
#include "eckit/serialisation/MemoryStream.h"
#include "eckit/serialisation/ResizableMemoryStream.h"
using namespace scen;
using dst::gen;
using eckit::ClusterNodes;
using eckit::NodeInfo;
namespace {
constexpr uint64_t SEC = 1000000000ull;
const int NODES = 4, TYPES = 3, CAP = 1024, MAXOPS = 56;
enum Kind { REFRESH, AVAILABLE, LOOKUP, ANY, OFF, OFFADDR, ONADDR, FORGET, CLEANUP, RESET, ALL, SEND, RECEIVE, FORGETFILL, KINDS };
const char* kinds[] = {"refresh", "available", "lookUp", "any", "offLine", "offLine address", "onLine address", "forget", "cleanup", "reset", "all", "send", "receive", "forget filler"};
struct Ent { int active, off, host, attrs; int64_t lo, hi; };
struct Got { int n; int idx[NODES * TYPES + 4]; Ent e[NODES * TYPES + 4]; int fill, dup; };
struct Op {
    int kind, node, type, host, attrs, refused, yes, done, who;
    int64_t tlo, thi;
    uint64_t inv, res;
    Got got;
};
struct Sh { int n, nfill; long maxSeen; Op op[MAXOPS]; };
Sh* sh;
int longNames;   // names of that length are used for node 3
std::string nodeName(int i) { std::string s = "node" + std::to_string(i); if (i == 3 && longNames) s.resize(longNames, 'x'); return s; }
std::string typeName(int i) { static const char* t[] = {"pgen", "mars", "zed"}; return t[i]; }
// hosts and ports are shared: only both together are an address
std::string hostName(int h) { return "host" + std::to_string(h / 2); }
int portOf(int h) { return 7000 + h % 2; }
std::set<std::string> attrSet(int m) {
    std::set<std::string> s;
    if (m == 1 << 10) { for (int i = 0; i < 17; ++i) s.insert("many" + std::to_string(i)); return s; }
    for (int i = 0; i < 4; ++i) if (m >> i & 1) s.insert("attr" + std::to_string(i));
    return s;
}
int attrMask(const std::set<std::string>& s) {
    int m = 0;
    for (auto& a : s) { if (a.size() == 5 && a.compare(0, 4, "attr") == 0) m |= 1 << (a[4] - '0'); else m |= 1 << 20; }
    return m;
}
int indexOf(const std::string& node, const std::string& type) {
    for (int i = 0; i < NODES; ++i) for (int j = 0; j < TYPES; ++j) if (node == nodeName(i) && type == typeName(j)) return i * TYPES + j;
    return -1;
}
NodeInfo info(const Op& o) {
    NodeInfo n;
    n.node(nodeName(o.node)); n.name(typeName(o.type)); n.host(hostName(o.host)); n.port(portOf(o.host)); n.attributes(attrSet(o.attrs));
    return n;
}
Ent entOf(const NodeInfo& n, int h) {
    Ent e;
    memset(&e, 0, sizeof e);
    e.active = 1; e.off = !n.active(); e.attrs = attrMask(n.attributes()); e.host = h;
    return e;
}
int hostOf(const NodeInfo& n) { for (int h = 0; h < 4; ++h) if (n.host() == hostName(h) && n.port() == portOf(h)) return h; return -1; }
void add(Got& g, const std::string& node, const std::string& type, const Ent& e) {
    if (type == "fill") { g.fill++; return; }
    int i = indexOf(node, type);
    if (i < 0 || g.n >= NODES * TYPES + 4) { g.dup = 2; return; }
    for (int k = 0; k < g.n; ++k) if (g.idx[k] == i) g.dup = 1;
    g.idx[g.n] = i; g.e[g.n++] = e;
}
void sendEntry(eckit::Stream& s, uint64_t t, bool off, const std::string& node, const std::string& type, int host, int attrs) {
    s << bool(true); s << (unsigned long long)t; s << off; s << node; s << type; s << hostName(host);
    std::set<std::string> a = attrSet(attrs);
    s << int(a.size());
    for (auto& x : a) s << x;
    s << portOf(host);
}
void fillUp(int n, int64_t t) {
    eckit::Buffer buf(size_t(n) * 120 + 100);
    eckit::ResizableMemoryStream s(buf);
    for (int i = 0; i < n; ++i) { char b[16]; snprintf(b, sizeof b, "f%04d", i); sendEntry(s, uint64_t(t), false, b, "fill", 9, 0); }
    s << bool(false);
    eckit::MemoryStream in(buf);
    ClusterNodes::receive(in);
}
void perform(Op& o) {
    o.tlo = dst::wallNow() / int64_t(SEC);
    o.inv = dst::tick();
    try {
        switch (o.kind) {
            case REFRESH: ClusterNodes::refresh(info(o)); break;
            case AVAILABLE: o.yes = ClusterNodes::available(typeName(o.type), nodeName(o.node)); break;
            case LOOKUP:
                try { NodeInfo n = ClusterNodes::lookUp(typeName(o.type), nodeName(o.node)); o.yes = 1; add(o.got, n.node(), n.name(), entOf(n, hostOf(n))); }
                catch (eckit::SeriousBug&) {}
                break;
            case ANY:
                try { NodeInfo n = ClusterNodes::any(typeName(o.type), attrSet(o.attrs)); o.yes = 1; add(o.got, n.node(), n.name(), entOf(n, hostOf(n))); }
                catch (eckit::Retry&) {}
                break;
            case OFF: ClusterNodes::offLine(info(o)); break;
            case OFFADDR: ClusterNodes::offLine(hostName(o.host), portOf(o.host)); break;
            case ONADDR: ClusterNodes::onLine(hostName(o.host), portOf(o.host)); break;
            case FORGET: ClusterNodes::forget(info(o)); break;
            case FORGETFILL: { NodeInfo n; char b[16]; snprintf(b, sizeof b, "f%04d", o.host); n.node(b); ClusterNodes::forget(n); break; }
            case CLEANUP: ClusterNodes::cleanup(); break;
            case RESET: ClusterNodes::reset(); break;
            case ALL: for (auto& n : ClusterNodes::all()) add(o.got, n.node(), n.name(), entOf(n, hostOf(n))); break;
            case SEND: {
                eckit::Buffer buf(200000);
                eckit::ResizableMemoryStream s(buf);
                ClusterNodes::send(s);
                eckit::MemoryStream in(buf);
                for (;;) {
                    bool more; in >> more;
                    if (!more) break;
                    unsigned long long t; bool off; std::string node, type, host, a; int na, port;
                    in >> t; in >> off; in >> node; in >> type; in >> host; in >> na;
                    std::set<std::string> at;
                    for (int i = 0; i < na; ++i) { in >> a; at.insert(a); }
                    in >> port;
                    NodeInfo n; n.active(!off); n.attributes(at); n.host(host); n.port(port);
                    Ent e = entOf(n, hostOf(n));
                    e.lo = e.hi = int64_t(t);
                    add(o.got, node, type, e);
                }
                break;
            }
            case RECEIVE: {
                eckit::Buffer buf(100000);
                eckit::ResizableMemoryStream s(buf);
                for (int k = 0; k < o.got.n; ++k) { Ent& e = o.got.e[k]; sendEntry(s, uint64_t(e.lo), e.off, nodeName(o.got.idx[k] / TYPES), typeName(o.got.idx[k] % TYPES), e.host, e.attrs); }
                s << bool(false);
                eckit::MemoryStream in(buf);
                ClusterNodes::receive(in);
                break;
            }
        }
    }
    catch (std::exception& e) {
        o.refused = 1;
        dst::note("%s %d/%d is refused: %s", kinds[o.kind], o.node, o.type, e.what());
    }
    dst::Quiet q;
    o.res = dst::tick();
    o.thi = dst::wallNow() / int64_t(SEC);
    o.done = 1;
    dst::note("%s node %d type %d host %d attributes %x -> %d, %d entries %d fillers%s", kinds[o.kind], o.node, o.type, o.host, o.attrs, o.yes, o.got.n, o.got.fill, o.refused ? " refused" : "");
}
// ------------------------------------------------------------------ the model
struct St { Ent e[NODES * TYPES]; int fill; int64_t fillSeen; bool fillOff; uint64_t gone[CAP / 64]; };
bool tooLong(int node) { return node == 3 && longNames > 255; }
bool surely(const Ent& e, const Op& o) { return e.active && !e.off && o.thi - e.lo <= sh->maxSeen; }
bool maybe(const Ent& e, const Op& o) { return e.active && !e.off && o.tlo - e.hi <= sh->maxSeen; }
int total(const St& s) { int n = s.fill; for (auto& e : s.e) n += e.active; return n; }
bool matches(const Ent& have, const Ent& want, bool time) {
    return have.off == want.off && have.host == want.host && have.attrs == want.attrs && (!time || (have.lo >= want.lo && have.lo <= want.hi));
}
bool apply(St& s, const Op& o) {
    int i = o.node * TYPES + o.type;
    if (o.refused) {
        if (o.kind != REFRESH) return false;
        return tooLong(o.node) || o.attrs == 1 << 10 || (!s.e[i].active && total(s) == CAP);
    }
    switch (o.kind) {
        case REFRESH:
            if (tooLong(o.node) || o.attrs == 1 << 10) return false;
            if (!s.e[i].active && total(s) >= CAP) return false;
            s.e[i] = Ent{1, 0, o.host, o.attrs, o.tlo, o.thi};
            return true;
        case AVAILABLE: return o.yes ? maybe(s.e[i], o) : !surely(s.e[i], o);
        case LOOKUP: if (o.yes != s.e[i].active) return false; return !o.yes || (o.got.n == 1 && o.got.idx[0] == i && matches(o.got.e[0], s.e[i], false));
        case ANY:
            if (!o.yes) { for (int n = 0; n < NODES; ++n) { const Ent& e = s.e[n * TYPES + o.type]; if (surely(e, o) && (e.attrs & o.attrs) == o.attrs) return false; } return true; }
            if (o.got.n != 1 || o.got.idx[0] % TYPES != o.type) return false;
            { const Ent& e = s.e[o.got.idx[0]]; return maybe(e, o) && (e.attrs & o.attrs) == o.attrs && matches(o.got.e[0], e, false); }
        case OFF: if (s.e[i].active) s.e[i].off = 1; return true;
        case OFFADDR: for (auto& e : s.e) if (e.active && e.host == o.host) e.off = 1; return true;
        case ONADDR: for (auto& e : s.e) if (e.active && e.host == o.host) e.off = 0; return true;
        case FORGET: for (int t = 0; t < TYPES; ++t) s.e[o.node * TYPES + t].active = 0; return true;
        case FORGETFILL: if (s.fill && o.host < sh->nfill && !(s.gone[o.host / 64] >> (o.host % 64) & 1)) { s.gone[o.host / 64] |= 1ull << (o.host % 64); s.fill--; } return true;
        case CLEANUP:
            for (auto& e : s.e) if (e.active) { if (!maybe(e, o)) e.active = 0; else if (!surely(e, o)) return true; }
            if (s.fill && (s.fillOff || o.tlo - s.fillSeen > sh->maxSeen)) s.fill = 0;
            return true;
        case RESET: for (auto& e : s.e) if (e.active) e.off = 1; s.fillOff = true; return true;
        case ALL: case SEND: {
            int n = 0;
            if (o.got.dup) return false;
            for (auto& e : s.e) n += e.active;
            if (n != o.got.n || o.got.fill != s.fill) return false;
            for (int k = 0; k < n; ++k) { const Ent& e = s.e[o.got.idx[k]]; if (!e.active || !matches(o.got.e[k], e, o.kind == SEND)) return false; }
            return true;
        }
        case RECEIVE:
            for (auto& e : s.e) e.active = 0;
            s.fill = 0;
            for (int k = 0; k < o.got.n; ++k) { s.e[o.got.idx[k]] = o.got.e[k]; }
            return true;
    }
    return false;
}
void oneRun() {
    sh = dst::sharedNew<Sh>();
    sh->maxSeen = long(gen(1, 60));
    longNames = gen(0, 5) == 0 ? int(gen(250, 260)) : 0;
    eckit::ResourceMgr::instance().set("maxNodeLastSeen", std::to_string(sh->maxSeen));
    ::mkdir((dst::scratch() + "/cluster").c_str(), 0777);
    dst::sleepNs(SEC / 2);   // operations are short: they rarely fall on the change of a second
    bool alone = gen(0, 1), nearlyFull = gen(0, 2) == 0;
    dst::enableIf(dst::F_EINTR, 0.3, 0.02, 0.3);
    int procs = alone ? 1 : int(gen(1, 3)), threads = alone ? 1 : int(gen(1, 2)), per = int(gen(1, alone ? 40 : 24 / (procs * threads)));
    int readers = alone ? 0 : int(gen(0, 1));
    int nfill = nearlyFull ? CAP - int(gen(0, 5)) : 0;
    int64_t t = dst::wallNow() / int64_t(SEC);
    St st;
    memset(&st, 0, sizeof st);
    sh->nfill = st.fill = nfill; st.fillSeen = t;
    if (nfill) dst::join(dst::spawn([=] { fillUp(nfill, t); }, "filler"));
    std::vector<int> p;
    for (int a = 0; a < procs; ++a) p.push_back(dst::spawn([=] {
        Threads th;
        for (int b = 0; b < threads; ++b) th.go([=] {
            for (int k = 0; k < per; ++k) {
                Op* o;
                { dst::Quiet q; if (sh->n >= MAXOPS - 2) return; o = &sh->op[sh->n++]; }
                uint64_t r = gen(0, 29);
                o->kind = r < 10 ? REFRESH : r < 13 ? AVAILABLE : r < 15 ? LOOKUP : r < 19 ? ANY : int(gen(OFF, nfill ? FORGETFILL : RECEIVE));
                if ((o->kind == RECEIVE || o->kind == RESET) && gen(0, 2)) o->kind = ALL;
                o->node = int(gen(0, NODES - 1)); o->type = int(gen(0, TYPES - 1)); o->host = int(gen(0, 3)); o->attrs = int(gen(0, 7)) & int(gen(0, 15));
                if (o->kind == REFRESH && gen(0, 15) == 0) o->attrs = 1 << 10;
                if (o->kind == FORGETFILL) o->host = int(gen(0, 1023));
                if (o->kind == RECEIVE) {
                    for (int i = 0; i < NODES * TYPES; ++i) if (!tooLong(i / TYPES) && gen(0, 3) == 0) {
                        Ent e;
                        memset(&e, 0, sizeof e);
                        e.active = 1; e.off = int(gen(0, 1)); e.host = int(gen(0, 3)); e.attrs = int(gen(0, 15));
                        e.lo = e.hi = dst::wallNow() / int64_t(SEC) - int64_t(gen(0, 70));
                        o->got.idx[o->got.n] = i; o->got.e[o->got.n++] = e;
                    }
                }
                o->who = a * 2 + b;
                perform(*o);
                if (o->got.dup) dst::fail("duplicate", o->got.dup == 1 ? "the registry holds two entries for the same node and type" : "the registry holds an entry that was never made");
                if (gen(0, 3) == 0) dst::sleepNs(gen(0, 40) * SEC);
            }
        });
        th.join();
    }, "user"));
    for (int a = 0; a < readers; ++a) p.push_back(dst::spawn([=] {
        // looks things up and may be killed at it
        dst::enable(dst::F_CRASH, 0.02);
        dst::crashable(true);
        for (int k = 0; k < 5; ++k) {
            try {
                switch (gen(0, 2)) {
                    case 0: ClusterNodes::available(typeName(0), nodeName(int(gen(0, 2)))); break;
                    case 1: ClusterNodes::any(typeName(int(gen(0, 2)))); break;
                    default: ClusterNodes::all(); break;
                }
            }
            catch (std::exception&) {}
            if (gen(0, 1)) dst::sleepNs(gen(0, 40) * SEC);
        }
    }, "reader"));
    for (int x : p) dst::join(x);
    // what is there in the end
    Op* o = &sh->op[sh->n++];
    o->kind = SEND;
    int last = dst::spawn([=] { perform(*o); }, "last");
    dst::join(last);
    std::vector<LinOp> lin;
    std::vector<Op*> ops;
    uint64_t h = 1;
    for (int i = 0; i < sh->n; ++i) {
        Op& x = sh->op[i];
        if (!x.done) continue;
        ops.push_back(&x); lin.push_back({x.inv, x.res});
        h = dst::hashMix(h, uint64_t(x.kind) * 64 + uint64_t(x.yes * 2 + x.refused));
    }
    bool ok = linearizable(st, lin, [&](St& s, size_t i) { return apply(s, *ops[i]); }, [](const St& s) {
        uint64_t x = uint64_t(s.fill);
        for (auto& e : s.e) { x = dst::hashMix(x, uint64_t(e.active ? e.off * 64 + e.host * 16 + e.attrs + 1 : 0)); if (e.active) x = dst::hashMix(x, uint64_t(e.lo)); }
        return x;
    }, 200000);
    if (!ok) {
        // where the first operation that does not fit is, for one operation after the other
        St s = st;
        size_t i = 0;
        std::vector<size_t> order(ops.size());
        for (size_t k = 0; k < order.size(); ++k) order[k] = k;
        std::sort(order.begin(), order.end(), [&](size_t a, size_t b) { return lin[a].inv < lin[b].inv; });
        while (i < order.size() && apply(s, *ops[order[i]])) ++i;
        Op& x = *ops[order[std::min(i, order.size() - 1)]];
        dst::fail("registry", "no order of the %zu operations explains what they returned; the first that does not fit: %s of node %d type %d%s", ops.size(), kinds[x.kind], x.node, x.type, x.refused ? " (refused)" : "");
    }
    dst::cover(h);
    if (ops.size() > 4) dst::nontrivial();
}
}  // namespace
namespace dst { const ScenarioDef scenario = {"R03", initMain, oneRun}; }
