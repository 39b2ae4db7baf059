// T07: a dispatcher handles each request once and never stalls.
#include "common.h"
#define private public
#include "eckit/config/ResourceMgr.h"
#undef private
#include "poison.h"
#include "eckit/runtime/Dispatcher.h"
using namespace scen;
using dst::gen;
DST_POISON

namespace {
enum State { QUEUED, PICKED, HANDLED, FAILED, DEQUEUED };
struct Rec { State state = QUEUED; int destroyed = 0; };
std::vector<Rec> recs;                    // by request
std::vector<int> nextOf;                  // of each producer: number of the next request picked
int pickMode = 0, inPick = 0, handling = 0, maxHandling = 0, outstanding = 0, allowed = 0, resources = 1;
bool grow = false, failures = false, dequeues = false;
std::set<int> busy;                       // resources in use
struct Req {
    uint64_t magic = 0x600df00d600df00dull;
    int id, producer, seq, resource;
    Req(int i, int p, int s, int r) : id(i), producer(p), seq(s), resource(r) {}
    ~Req() {
        dst::Quiet q;
        Rec& r = recs[size_t(id)];
        DST_CHECK(++r.destroyed == 1, "deleted-twice", "request %d deleted %d times", id, r.destroyed);
        DST_CHECK(r.state != QUEUED && r.state != PICKED, "deleted-early", "request %d deleted before it was handled", id);
        magic = 0;
    }
    void json(eckit::JSON& j) const { dst::Quiet q; DST_CHECK(magic == 0x600df00d600df00dull, "use-after-delete", "a deleted request is listed"); j << id; }
    friend std::ostream& operator<<(std::ostream& s, const Req& r) { dst::Quiet q; DST_CHECK(r.magic == 0x600df00d600df00dull, "use-after-delete", "a deleted request is printed"); return s << r.id; }
};
bool reserve(int resource) { dst::Quiet q; return busy.insert(resource).second; }
void take(Req* r) {
    dst::Quiet q;
    DST_CHECK(r && r->magic == 0x600df00d600df00dull, "use-after-delete", "picked a request that is gone");
    Rec& x = recs[size_t(r->id)];
    DST_CHECK(x.state == QUEUED, "picked-twice", "request %d picked again (state %d)", r->id, int(x.state));
    x.state = PICKED;
    if (pickMode != 2 && !dequeues) { DST_CHECK(r->seq == nextOf[size_t(r->producer)], "order", "request %d of producer %d picked before request %d", r->seq, r->producer, nextOf[size_t(r->producer)]); nextOf[size_t(r->producer)]++; }
}
struct Handler : eckit::DefaultHandler<Req> {
    void pick(std::list<Req*>& queue, std::vector<Req*>& result) {
        { dst::Quiet q; DST_CHECK(++inPick == 1, "pick-exclusion", "two threads pick at once"); }
        dst::yield();
        if (pickMode == 0) { take(queue.front()); eckit::DefaultHandler<Req>::pick(queue, result); }
        else if (pickMode == 1) for (int n = int(gen(1, 3)); n > 0 && !queue.empty(); --n) { take(queue.front()); eckit::DefaultHandler<Req>::pick(queue, result); }
        else for (auto i = queue.begin(); i != queue.end(); ++i) if (reserve((*i)->resource)) { take(*i); result.push_back(*i); queue.erase(i); break; }
        { dst::Quiet q; --inPick; }
    }
    void handle(const std::vector<Req*>& p) {
        {
            dst::Quiet q;
            maxHandling = std::max(maxHandling, ++handling);
            DST_CHECK(!p.empty(), "empty-handle", "handler called without requests");
            DST_CHECK(grow || handling <= allowed, "too-many-threads", "%d threads handle requests, %d were ever allowed", handling, allowed);
            for (auto r : p) DST_CHECK(r && r->magic == 0x600df00d600df00dull && recs[size_t(r->id)].state == PICKED, "handled-twice", "a request is handled that was not picked for it");
        }
        for (uint64_t k = gen(0, 3); k > 0; --k) { if (gen(0, 1)) dst::yield(); else dst::sleepNs(gen(1, 3000000000ull)); }
        bool boom = failures && gen(0, 3) == 0;
        {
            dst::Quiet q;
            --handling;
            for (auto r : p) { recs[size_t(r->id)].state = boom ? FAILED : HANDLED; --outstanding; busy.erase(r->resource); }
        }
        if (boom) throw eckit::SeriousBug("handler failed");
    }
    void idle() { if (gen(0, 1)) dst::sleepNs(gen(1, 4000000000ull)); }
    static void print(std::ostream& s, const Req& r) { eckit::DefaultHandler<Req>::print(s, r); }
    static void json(eckit::JSON& j, const Req& r) { eckit::DefaultHandler<Req>::json(j, r); }
};
struct Traits { using Request = Req; using Handler = ::Handler; static const char* name() { return "disp"; } };
struct Picker : eckit::DequeuePicker<Req> {
    int n = 0;
    void pick(std::list<Req*>& q) override {
        for (auto i = q.begin(); i != q.end();) {
            if (*i && gen(0, 2) == 0) {
                Req* r = *i;
                { dst::Quiet qq; Rec& x = recs[size_t(r->id)]; DST_CHECK(x.state == QUEUED, "picked-twice", "request %d is still queued in state %d", r->id, int(x.state)); x.state = DEQUEUED; --outstanding; ++n; }
                i = q.erase(i);
                delete r;
            } else ++i;
        }
    }
};
void run() {
    poisonOn = true;
    int producers = int(gen(1, 3)), threads = int(gen(0, 3)), each = int(gen(1, 4)), reconfs = gen(0, 1) ? int(gen(1, 3)) : 0;
    pickMode = int(gen(0, 2)); grow = threads == 0; failures = gen(0, 2) == 0; dequeues = gen(0, 3) == 0;
    bool watch = !grow && !reconfs && gen(0, 2) == 0;   // listing everything while threads come up is not safe
    resources = int(gen(1, 2));
    if (gen(0, 3) == 0) { pickMode = 2; resources = 1; producers = 1; each = int(gen(2, 3)); threads = int(gen(2, 3)); grow = false; reconfs = 1; watch = dequeues = false; }   // waiting for each other while stopping
    allowed = threads;
    dst::note("%d producers of %d requests, %d threads%s, pick mode %d, %d reconfigurations%s%s", producers, each, threads, grow ? " (growing)" : "", pickMode, reconfs, failures ? ", handlers fail" : "", dequeues ? ", some dequeued" : "");
    recs.resize(size_t(producers * each)); nextOf.resize(size_t(producers)); outstanding = producers * each;
    dst::enableIf(dst::F_SPURIOUS, 0.3, 0.02, 0.2); dst::enableIf(dst::F_WAKEORDER, 0.4, 0.1, 0.6); dst::enableIf(dst::F_STALL, 0.3, 0.005, 0.05);
    auto* d = new eckit::Dispatcher<Traits>("disp", threads);   // dispatchers live as long as the program
    int dequeued = 0;
    {
        Threads t;
        for (int p = 0; p < producers; ++p) t.go([=]() {
            for (int i = 0; i < each; ++i) {
                d->push(new Req(p * each + i, p, i, int(gen(0, uint64_t(resources - 1)))));
                if (gen(0, 2) == 0) dst::sleepNs(gen(1, 4000000000ull)); else if (gen(0, 1)) dst::yield();
            }
        });
        if (reconfs) t.go([=]() {
            for (int i = 0; i < reconfs; ++i) {
                if (gen(0, 1)) dst::sleepNs(gen(1, 3000000000ull)); else dst::yield();
                int n = grow ? 0 : int(gen(1, 4));
                { dst::Quiet q; allowed = std::max(allowed, n); }
                eckit::ResourceMgr::instance().set("Dispatcher.disp.numberOfThreads", std::to_string(n));
                eckit::Configurable::reconfigureAll();
            }
        });
        if (watch) t.go([=]() {
            for (uint64_t k = gen(1, 3); k > 0; --k) {
                std::ostringstream o;
                o << *d; eckit::Monitorable::allStatuses(o);
                { eckit::JSON j(o); eckit::Monitorable::allJSON(j); }
                { eckit::JSON j(o); d->json(j); }
                (void)d->size();
                if (gen(0, 1)) dst::sleepNs(gen(1, 2000000000ull));
            }
        });
        if (dequeues) t.go([&]() { for (uint64_t k = gen(1, 3); k > 0; --k) { Picker p; d->dequeue(p); dequeued += p.n; if (gen(0, 1)) dst::sleepNs(gen(1, 2000000000ull)); } });
    }
    dst::disableAll();
    for (int i = 0; i < 1000 && outstanding; ++i) dst::sleepNs(1000000000ull);
    if (outstanding) dst::fail("stalled", "%d of %zu requests were never handled; %d in the queue", outstanding, recs.size(), d->size());
    for (int i = 0; i < 60 && dst::liveTasks() > 1; ++i) {   // what was handled is deleted
        size_t n = 0; for (auto& r : recs) n += size_t(r.destroyed);
        if (n == recs.size() && d->size() == 0) break;
        dst::sleepNs(1000000000ull);
    }
    size_t failed = 0;
    for (size_t i = 0; i < recs.size(); ++i) { DST_CHECK(recs[i].destroyed == 1, "leak", "request %zu (state %d) deleted %d times", i, int(recs[i].state), recs[i].destroyed); failed += recs[i].state == FAILED; }
    DST_CHECK(d->size() == 0, "queue", "%d requests are left in the queue", d->size());
    if (recs.size() > 1) dst::nontrivial();
    dst::cover(dst::hashMix(dst::hashMix(uint64_t(producers * 64 + threads * 16 + pickMode * 4 + maxHandling), uint64_t(each * 100 + reconfs)), failed * 100 + uint64_t(dequeued)));
}
}  // namespace
const dst::ScenarioDef dst::scenario = {"T07", initMain, run};
