// S03: transactions begun and not ended are recovered after a crash, once each and as last updated.
#include "common.h"
#include "eckit/serialisation/Stream.h"
#include "eckit/transaction/TxnEvent.h"
#include "eckit/transaction/TxnLog.h"
using namespace scen;
using dst::gen;
namespace {
class Ev : public eckit::TxnEvent {
public:
    uint64_t key = 0, version = 0;
    std::vector<std::string> parts;
    Ev() = default;
    explicit Ev(eckit::Stream& s) : TxnEvent(s) {
        unsigned long long a, b; unsigned long n;
        s >> a >> b >> n;
        key = a; version = b;
        for (unsigned long i = 0; i < n; ++i) { std::string x; s >> x; parts.push_back(x); }
    }
    void make(uint64_t k, uint64_t v) {
        key = k; version = v;
        parts.clear();
        uint64_t h = dst::hashMix(k, v), n = h % 4;
        for (uint64_t i = 0; i < n; ++i) parts.push_back(pattern(h, i * 100, (h >> (8 + 8 * i)) % (h % 7 == 0 ? 3000 : 40)));
    }
    bool sound() const { Ev e; e.make(key, version); return e.parts == parts; }
    static const eckit::ClassSpec& classSpec() { return spec_; }
protected:
    void encode(eckit::Stream& s) const override {
        TxnEvent::encode(s);
        s << (unsigned long long)key << (unsigned long long)version << (unsigned long)parts.size();
        for (auto& p : parts) s << p;
    }
    const eckit::ReanimatorBase& reanimator() const override { return reanimator_; }
    static eckit::ClassSpec spec_;
    static eckit::Reanimator<Ev> reanimator_;
};
eckit::ClassSpec Ev::spec_ = {&TxnEvent::classSpec(), "DstEv"};
eckit::Reanimator<Ev> Ev::reanimator_;

constexpr int MAXTXN = 400;
enum { NONE, BEGINNING, ACTIVE, ENDING, ENDED };
struct Rec { int state, owner; uint64_t key, done, started, ended; };   // done: last update that completed; started: last update begun; ended: when end returned
struct Sh {
    Rec r[MAXTXN];            // by key, one per attempt to begin
    int byId[4 * MAXTXN];     // id -> key + 1
    int nkeys, errors, begun, ended, recoveries, recovered;
};
using Log = eckit::TxnLog<Ev>;

void bound(Sh* s, uint64_t id, uint64_t key, const char* how) {   // the identifier belongs to this transaction
    DST_CHECK(id > 0 && id < 4 * MAXTXN, "identifier", "transaction has identifier %llu", (unsigned long long)id);
    DST_CHECK(!s->byId[id] || s->byId[id] == int(key) + 1, "identifier-reused", "identifier %llu given to a transaction (%s) that another one has", (unsigned long long)id, how);
    s->byId[id] = int(key) + 1;
}
void seen(Sh* s, const Ev& e, uint64_t t0, const char* how) {   // a transaction was presented by something begun at t0
    dst::Quiet q;
    DST_CHECK(e.sound() && e.key < uint64_t(s->nkeys), "torn", "%s presents a transaction that nobody wrote", how);
    Rec& r = s->r[e.key];
    bound(s, e.transactionID(), e.key, how);
    DST_CHECK(!(r.state == ENDED && r.ended < t0), "ended-presented", "%s presents transaction %llu, which was ended before", how, (unsigned long long)e.transactionID());
    DST_CHECK(e.version <= r.started, "torn", "%s presents version %llu of transaction %llu, updated up to %llu", how, (unsigned long long)e.version, (unsigned long long)e.transactionID(), (unsigned long long)r.started);
}
struct Snap { uint64_t done[MAXTXN]; bool must[MAXTXN]; uint64_t t0; };
void snapshot(Sh* s, Snap& n) { dst::Quiet q; n.t0 = dst::tick(); for (int k = 0; k < s->nkeys; ++k) { n.done[k] = s->r[k].done; n.must[k] = s->r[k].state == ACTIVE; } for (int k = s->nkeys; k < MAXTXN; ++k) { n.must[k] = false; n.done[k] = 0; } }
struct Recover : eckit::TxnRecoverer<Ev> {
    Sh* s; Snap n; const char* how;
    std::vector<std::unique_ptr<Ev>> got;
    std::set<uint64_t> keys;
    Recover(Sh* sh, const char* h) : s(sh), how(h) { snapshot(s, n); }
    void push(Ev* e) override {
        std::unique_ptr<Ev> p(e);
        look(*e);
        if (!got.empty()) DST_CHECK(got.back()->transactionID() < e->transactionID(), "order", "transaction %llu is presented after %llu", (unsigned long long)e->transactionID(), (unsigned long long)got.back()->transactionID());
        got.push_back(std::move(p));
    }
    void look(const Ev& e) {
        seen(s, e, n.t0, how);
        DST_CHECK(keys.insert(e.key).second, "presented-twice", "%s presents transaction %llu twice", how, (unsigned long long)e.transactionID());
        DST_CHECK(e.version >= n.done[e.key], "stale", "%s presents version %llu of transaction %llu, whose update %llu had completed", how, (unsigned long long)e.version, (unsigned long long)e.transactionID(), (unsigned long long)n.done[e.key]);
    }
    void complete() {
        dst::Quiet q;
        for (int k = 0; k < s->nkeys; ++k) if (n.must[k] && (s->r[k].state == ACTIVE)) DST_CHECK(keys.count(uint64_t(k)), "missing", "%s does not present a transaction that was begun (key %d, version %llu) and not ended", how, k, (unsigned long long)s->r[k].done);
    }
};
struct Find : eckit::TxnFinder<Ev> {
    Recover r;
    uint64_t want = 0;
    bool hit = false;
    explicit Find(Sh* s) : r(s, "find") {}
    bool found(Ev& e) override { r.look(e); if (want && e.transactionID() == want) { hit = true; return true; } return false; }
};
void failed(Sh* s, std::exception& e, const char* what) { dst::Quiet q; s->errors++; DST_CHECK(dst::anyIoFault(), "spurious-error", "%s failed although nothing went wrong: %s", what, e.what()); }

void update(Sh* s, Log& log, Ev& e) {
    Rec& r = s->r[e.key];
    { dst::Quiet q; r.started++; e.make(e.key, r.started); }
    try { log.update(e); dst::Quiet q; r.done = r.started; } catch (std::exception& x) { failed(s, x, "update"); }
}
void end(Sh* s, Log& log, Ev& e) {
    Rec& r = s->r[e.key];
    { dst::Quiet q; r.state = ENDING; }
    try { log.end(e, gen(0, 2) == 0); dst::Quiet q; r.state = ENDED; r.ended = dst::tick(); s->ended++; } catch (std::exception& x) { failed(s, x, "end"); }
}
void life(Sh* s, Log& log, std::vector<std::unique_ptr<Ev>>& mine, int ops) {
    for (int i = 0; i < ops; ++i) {
        uint64_t op = gen(0, 7);
        if (mine.empty() || op <= 1) {
            auto e = std::make_unique<Ev>();
            int k;
            { dst::Quiet q; k = s->nkeys++; s->r[k].key = uint64_t(k); s->r[k].state = BEGINNING; s->r[k].owner = dst::process(); }
            if (k >= MAXTXN - 8) return;
            e->make(uint64_t(k), 0);
            try {
                log.begin(*e);
                dst::Quiet q;
                bound(s, e->transactionID(), uint64_t(k), "begin");
                s->r[k].state = ACTIVE; s->begun++;
                mine.push_back(std::move(e));
            }
            catch (std::exception& x) { failed(s, x, "begin"); }
        }
        else if (op <= 4) update(s, log, *mine[gen(0, mine.size() - 1)]);
        else if (op <= 6) {
            size_t k = gen(0, mine.size() - 1);
            end(s, log, *mine[k]);
            { dst::Quiet q; if (s->r[mine[k]->key].state == ENDED) DST_CHECK(!log.exists(*mine[k]), "exists", "an ended transaction is said to exist"); }
            mine.erase(mine.begin() + long(k));
        }
        else {
            Find f(s);
            Ev* w = gen(0, 1) ? mine[gen(0, mine.size() - 1)].get() : nullptr;
            if (w) f.want = w->transactionID();
            try {
                log.find(f);
                if (!dst::anyIoFault()) { if (w) DST_CHECK(f.hit, "missing", "find does not find transaction %llu", f.want); else f.r.complete(); }
            }
            catch (std::exception& x) { failed(s, x, "find"); }
            if (w && s->r[w->key].state == ACTIVE) { dst::Quiet q; DST_CHECK(log.exists(*w), "exists", "an active transaction is said not to exist"); }
        }
    }
}
void worker(Sh* s, int ops, int nthreads) {
    Threads th;
    for (int t = 0; t < nthreads; ++t)
        th.go([=] {
            try { Log log("q"); std::vector<std::unique_ptr<Ev>> mine; life(s, log, mine, ops); } catch (std::exception& x) { failed(s, x, "opening"); }
        });
    th.join();
}
// what a server does when it starts: take over what its predecessor left
void recoverer(Sh* s, int endOf, int ops, bool inThread, bool last) {
    try {
        Log log("q");
        bool clean = !dst::anyIoFault() || last;
        Recover r(s, "recovery");
        int before = dst::liveTasks();
        log.recover(r, inThread, -(1l << 40));
        if (inThread) while (dst::liveTasks() > before) dst::sleepNs(1000000);
        if (clean && (last || !dst::anyIoFault())) r.complete();
        { dst::Quiet q; s->recoveries++; s->recovered += int(r.got.size()); }
        if (last) {   // nothing else runs: exactly what is there
            for (auto& e : r.got) { Rec& x = s->r[e->key]; x.state = ACTIVE; x.done = x.started = e->version; }
            for (int k = 0; k < s->nkeys; ++k) if (!r.keys.count(uint64_t(k))) s->r[k].state = ENDED;
        }
        std::vector<std::unique_ptr<Ev>> mine;
        for (auto& e : r.got) {
            { dst::Quiet q; Rec& x = s->r[e->key]; if (!last && (x.state != ACTIVE || dst::procAlive(x.owner))) continue; x.owner = dst::process(); }
            if (gen(0, 3) == 0) update(s, log, *e);
            if (int(gen(0, 3)) < endOf) end(s, log, *e);
            else mine.push_back(std::move(e));
        }
        life(s, log, mine, ops);
    }
    catch (std::exception& x) { failed(s, x, "recovery"); }
}
void init() { initMain(); { eckit::PathName p("/tmp/x"); (void)p.exists(); } }
void run() {
    dst::enableIf(dst::F_CRASH, 0.7, 0.002, 0.05);
    bool io = gen(0, 2) == 0;
    if (io) {
        dst::enableIf(dst::F_SHORTWRITE, 0.3, 0.1, 0.6);
        dst::enableIf(dst::F_WRITEERR, 0.3, 0.01, 0.2);
        dst::enableIf(dst::F_NOSPACE, 0.3, 0.01, 0.2);
        dst::enableIf(dst::F_OPENERR, 0.2, 0.01, 0.1);
        dst::enableIf(dst::F_RENAMEERR, 0.2, 0.01, 0.2);
        dst::enableIf(dst::F_SYNCERR, 0.2, 0.01, 0.2);
        dst::enableIf(dst::F_CLOSEERR, 0.2, 0.01, 0.2);
        dst::enableIf(dst::F_EINTR, 0.2, 0.01, 0.2);
        dst::enableIf(dst::F_SHORTREAD, 0.2, 0.1, 0.6);
        dst::enableIf(dst::F_READERR, 0.2, 0.01, 0.1);
    }
    Sh* s = dst::sharedNew<Sh>();
    int rounds = int(gen(1, 3)), crashers = 0;
    for (int round = 0; round < rounds; ++round) {
        int nprocs = int(gen(1, 3));
        for (int p = 0; p < nprocs; ++p) {
            int ops = int(gen(1, 6)), nthreads = gen(0, 2) ? 1 : 2;
            bool c = gen(0, 3) > 0, rec = round > 0 && p == 0;
            crashers += c;
            dst::spawn([=] { dst::crashable(c); if (rec) recoverer(s, 2, ops, nprocs == 1 && nthreads == 2, false); else worker(s, ops, nthreads); dst::crashable(false); }, "worker");
        }
        dst::joinAll();
    }
    dst::disableAll();
    bool t = gen(0, 1);
    dst::join(dst::spawn([=] { recoverer(s, 1, 3, t, true); recoverer(s, 3, 3, false, true); recoverer(s, 4, 0, false, true); }, "last"));
    DST_CHECK(s->recoveries >= 3, "not-recovered", "the transactions cannot be recovered after a crash");
    if (s->begun > 2) dst::nontrivial();
    dst::cover(dst::hashMix(uint64_t(rounds) * 100 + crashers * 10 + io, dst::hashMix(s->begun * 64 + s->ended, s->recovered * 64 + s->errors)));
}
}  // namespace
const dst::ScenarioDef dst::scenario = {"S03", init, run};
