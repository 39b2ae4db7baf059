// N04: work messages reach workers whole and at most once; the run of a producer comes to its end.
#include <csignal>
#include "common.h"
#include "eckit/distributed/Consumer.h"
#include "eckit/distributed/Message.h"
#include "eckit/distributed/Producer.h"
#include "eckit/distributed/Transport.h"
#include "eckit/distributed/tcp/TCPTransport.h"
#include "eckit/option/CmdArgs.h"
using namespace scen;
using dst::gen;
namespace dist = eckit::distributed;
namespace {
constexpr uint64_t SEC = 1000000000ull;
constexpr int MAXM = 64, MAXW = 16, PORT = 7777;
struct Worker { int joined, asked, got, ended, shut, failed, reported; uint64_t reportKey; };
struct Sh {
    int sent, producerDone, producerFailed, noMoreWorkers;
    uint64_t key[MAXM], size[MAXM];
    int kind[MAXM], taken[MAXM], handed[MAXM];
    int reports;
    Worker w[MAXW];
    uint64_t doneAt;
};
Sh* sh;
int nmsg, nworkers;
bool big;

bool disturbed() {
    for (dst::Fault f : {dst::F_CRASH, dst::F_NETRESET, dst::F_STOPEARLY, dst::F_BASEFAULT, dst::F_NETREFUSE}) if (dst::fired(f)) return true;
    return false;
}
void usage(const std::string&) {}
std::unique_ptr<dist::Transport> makeTransport(bool producer) {
    eckit::option::CmdArgs args(usage, -1, 0);
    args.set("transport", "tcp");
    args.set("port", long(PORT));
    if (!producer) args.set("host", "localhost");
    return std::unique_ptr<dist::Transport>(dist::TransportFactory::build(args));
}
// ------------------------------------------------------------------ the producer
class P : public dist::Producer {
    mutable std::set<int> seen_;
    bool produce(dist::Message& m) override {
        int i = sh->sent;
        if (i >= nmsg) return false;
        if (gen(0, 5) == 0) dst::sleepNs(gen(0, 90) * SEC);
        sh->key[i] = gen(0, 1000); sh->kind[i] = int(gen(0, 3));
        sh->size[i] = big && sh->kind[i] != 3 && gen(0, 2) == 0 ? gen(1048576 - 200, 2200000) : sizeNear(1024, 6000);
        m << (unsigned long long)i;
        switch (sh->kind[i]) {
            case 0: m << pattern(sh->key[i], 0, sh->size[i]); break;
            case 1: { std::string d = pattern(sh->key[i], 0, sh->size[i]); m.writeBlob(d.data(), d.size()); break; }
            case 2: m << pattern(sh->key[i], 0, sh->size[i] / 2) << long(sh->key[i]) << double(i) * 1.5 << pattern(sh->key[i], sh->size[i] / 2, sh->size[i] - sh->size[i] / 2); break;
            default: { std::vector<long> v(sh->size[i] / 8); for (size_t k = 0; k < v.size(); ++k) v[k] = long(sh->key[i] * 31 + k); m << v; break; }
        }
        dst::note("message %d: kind %d, %zu bytes", i, sh->kind[i], m.messageSize());
        sh->sent++;
        return true;
    }
    void finalise() override {}
    void messageFromWorker(dist::Message& m, int from) const override {
        unsigned long long w, key;
        std::string text;
        m >> w; m >> key; m >> text;
        dst::note("report of worker %llu (%d)", w, from);
        if (w >= MAXW || !sh->w[w].shut) dst::fail("altered-report", "a report of a worker that sent none: %llu", w);
        if (key != sh->w[w].reportKey || text != pattern(key, 0, key * 131 % 5000)) dst::fail("altered-report", "the report of worker %llu is altered", w);
        if (sh->w[w].reported++) dst::fail("duplicated-report", "the report of worker %llu reached the producer twice", w);
        sh->reports++;
    }
public:
    P(dist::Transport& t) : Producer(t) {}
};
void producer() {
    std::string why;
    try {
        auto t = makeTransport(true);
        DST_CHECK(t->producer() && !t->single(), "wrong-role", "the transport without a host is not the producer's");
        P p(*t);
        static_cast<dist::Actor&>(p).run();
        DST_CHECK(sh->sent == nmsg, "wrong-end", "the run ended after %d of %d messages", sh->sent, nmsg);
        sh->producerDone = 1;
    }
    catch (std::exception& e) { why = e.what(); sh->producerFailed = 1; }
    if (sh->producerFailed) {
        dst::note("producer: %s", why.c_str());
        sh->noMoreWorkers = why.find("no more workers") != std::string::npos;
        if (!disturbed()) dst::fail("spurious-failure", "the producer's run failed though nothing happened: %s", why.c_str());
    }
    sh->doneAt = dst::now();
}
// ------------------------------------------------------------------ the workers
struct Quit {};
class W : public dist::Consumer {
    int me_;
    void getNextMessage(dist::Message& m) const override { { dst::Quiet q; sh->w[me_].asked++; } getNextWorkMessage(m); }
    void consume(dist::Message& m) override {
        unsigned long long id;
        m >> id;
        if (id >= unsigned(sh->sent)) dst::fail("altered-message", "worker %d received message %llu, which was not sent", me_, id);
        std::string d;
        size_t n = sh->size[id];
        uint64_t key = sh->key[id];
        switch (sh->kind[id]) {
            case 0: m >> d; break;
            case 1: { size_t len; const void* p = m.getBlob(len); d.assign(static_cast<const char*>(p), len); break; }
            case 2: {
                std::string a, b; long k; double x;
                m >> a >> k >> x >> b;
                if (k != long(key) || x != double(id) * 1.5) dst::fail("altered-message", "a number in message %llu is altered", id);
                d = a + b;
                break;
            }
            default: {
                std::vector<long> v;
                m >> v;
                bool good = v.size() == n / 8;
                for (size_t k = 0; good && k < v.size(); ++k) good = v[k] == long(key * 31 + k);
                if (!good) dst::fail("altered-message", "worker %d received message %llu altered (%zu of %zu values)", me_, id, v.size(), n / 8);
                d = pattern(key, 0, n);
            }
        }
        if (d != pattern(key, 0, n)) dst::fail("altered-message", "worker %d received message %llu altered (%zu bytes of %zu)", me_, id, d.size(), n);
        {
            dst::Quiet q;
            sh->w[me_].got++;
            if (sh->taken[id]++) dst::fail("duplicated-message", "message %llu was received twice", id);
        }
        dst::note("worker %d has message %llu", me_, id);
        dst::cover(dst::hashMix(id * 16 + unsigned(me_), uint64_t(sh->w[me_].got)));
        if (gen(0, 4) == 0) dst::sleepNs(gen(0, 200) * SEC);
        switch (dst::fire(dst::F_STOPEARLY) ? gen(0, 2) : 9) {
            case 0: throw Quit();
            case 1: throw std::runtime_error("the work fails");
            case 2: throw Quit();
            default: break;
        }
        if (gen(0, 9) == 0) throw eckit::UserError("this work cannot be done");
    }
    void shutdown(dist::Message& m) override {
        uint64_t key = gen(0, 1000);
        { dst::Quiet q; sh->w[me_].shut = 1; sh->w[me_].reportKey = key; }
        m << (unsigned long long)me_; m << (unsigned long long)key; m << pattern(key, 0, key * 131 % 5000);
        dst::note("worker %d is told to stop", me_);
    }
    void finalise() override {}
public:
    W(dist::Transport& t, int me) : Consumer(t), me_(me) {}
};
void worker(int me) {
    Worker& s = sh->w[me];
    try {
        auto t = makeTransport(false);
        DST_CHECK(!t->producer(), "wrong-role", "the transport with a host is the producer's");
        s.joined = 1;
        if (gen(0, 5) == 0) dst::sleepNs(gen(0, 100) * SEC);
        if (dst::fire(dst::F_BASEFAULT)) throw Quit();   // leaves before it asks
        W w(*t, me);
        static_cast<dist::Actor&>(w).run();
        DST_CHECK(s.shut, "wrong-end", "worker %d ended without being told", me);
    }
    catch (Quit&) { s.failed = 1; }
    catch (std::exception& e) {
        dst::note("worker %d: %s", me, e.what());
        s.failed = 1;
        // a worker which came too late is not served; the others have no reason to fail
        if (!disturbed() && (s.got || s.shut || (s.joined && !sh->producerDone && sh->sent < nmsg))) dst::fail("spurious-failure", "worker %d failed though nothing happened: %s", me, e.what());
    }
    s.ended = 1;
}
void oneRun() {
    sh = dst::sharedNew<Sh>();
    nworkers = int(gen(1, 4)); nmsg = int(gen(0, 14)); big = gen(0, 15) == 0;
    bool crashes = gen(0, 2) == 0;
    static const int win[] = {1, 300, 4096, 65536};
    dst::netWindow(big ? 65536 : win[gen(0, 3)] + int(gen(0, 200)));
    dst::enableIf(dst::F_NETDELAY, 0.5, 0.05, 0.6);
    if (big) dst::setStepLimit(400000, 1000000000);
    if (!big) dst::enableIf(dst::F_NETFRAG, 0.5, 0.05, 0.8);
    dst::enableIf(dst::F_EINTR, 0.3, 0.01, 0.2);
    dst::enableIf(dst::F_STOPEARLY, 0.3, 0.02, 0.3);
    dst::enableIf(dst::F_NETRESET, 0.3, 0.001, 0.05);
    dst::enableIf(dst::F_NETREFUSE, 0.2, 0.05, 0.4);
    dst::enableIf(dst::F_BASEFAULT, 0.2, 0.05, 0.4);
    if (crashes) { dst::enable(dst::F_CRASH, 0.002 * double(gen(1, 20))); dst::faultBudget(dst::F_CRASH, 4); }
    std::vector<int> ws;
    auto startWorker = [&](bool steady) {
        int me = int(ws.size());
        ws.push_back(dst::spawn([=] { if (crashes && !steady) dst::crashable(true); worker(me); }, "worker"));
    };
    bool late = gen(0, 2) == 0;
    int p = -1;
    if (!late) p = dst::spawn([] { producer(); }, "producer");
    for (int i = 0; i < nworkers; ++i) {
        if (gen(0, 2) == 0) dst::sleepNs(gen(0, 40) * SEC);
        startWorker(false);
    }
    if (late) p = dst::spawn([] { producer(); }, "producer");
    // once all workers are gone the run must end; if none was served, another one comes
    uint64_t goneAt = 0;
    int lost = 0;
    while (dst::procAlive(p)) {
        bool any = false, served = false;
        for (size_t i = 0; i < ws.size(); ++i) { any = any || dst::procAlive(ws[i]); served = served || sh->w[i].got || sh->w[i].shut; }
        if (any) goneAt = 0;
        else if (!goneAt) goneAt = dst::now();
        else if (dst::now() > goneAt + 600 * SEC) {
            if (served) dst::fail("hang:producer", "all workers are gone since %.0f s and the producer goes on", double(dst::now() - goneAt) / 1e9);
            dst::disableAll();
            DST_CHECK(ws.size() < MAXW, "hang:producer", "the producer serves no worker");
            startWorker(true);
            goneAt = 0;
        }
        dst::sleepNs(2 * SEC);
    }
    dst::join(p);
    DST_CHECK(sh->producerDone || sh->producerFailed, "wrong-end", "the producer's run ended in an unknown way");
    for (int w : ws) dst::join(w);
    int taken = 0, shut = 0;
    for (size_t i = 0; i < ws.size(); ++i) {
        bool joined = sh->w[i].asked > 0;
        if (!sh->w[i].ended || sh->w[i].failed) lost += joined;
        else shut++;
    }
    int missing = 0;
    for (int i = 0; i < sh->sent; ++i) { taken += sh->taken[i]; if (!sh->taken[i]) missing++; }
    if (sh->producerDone) {
        DST_CHECK(missing <= lost, "lost-message", "%d of %d messages were received by nobody, %d workers were lost", missing, sh->sent, lost);
        int reported = 0;
        for (size_t i = 0; i < ws.size(); ++i) {
            Worker& w = sh->w[i];
            reported += w.reported;
            if (w.ended && !w.failed && !w.reported && !dst::fired(dst::F_NETRESET)) dst::fail("lost-report", "the final report of worker %zu did not reach the producer", i);
        }
    }
    if (taken > 3) dst::nontrivial();
}
void init() { initMain(); }
}  // namespace
namespace dst { const ScenarioDef scenario = {"N04", init, oneRun}; }
