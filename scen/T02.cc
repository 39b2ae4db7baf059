// T02: thread pool.
#include "common.h"
#include "eckit/thread/AutoLock.h"
#include "eckit/thread/MutexCond.h"
#include "eckit/thread/ThreadPool.h"
using namespace scen;
using dst::gen;

namespace {
struct Rec { int executed = 0, destroyed = 0, queued = 0, running = 0; bool fails = false; };
std::vector<Rec>* recs;
eckit::ThreadPool* thePool;
int executing, maxPar;
bool deepRuns;

struct Task : eckit::ThreadPoolTask {
    size_t id; int work; int child;
    Task(size_t i, int w, int c) : id(i), work(w), child(c) {}
    void execute() override {
        { dst::Quiet q; Rec& r = (*recs)[id]; DST_CHECK(r.destroyed == 0, "after-destroy", "task %zu run after its destruction", id); r.executed++; executing++; maxPar = std::max(maxPar, executing);
          DST_CHECK(r.executed == 1, "twice", "task %zu run %d times", id, r.executed); DST_CHECK(&pool() == thePool, "pool", "task sees a wrong pool"); (*recs)[id].running = 1; }
        for (int i = 0; i < work; ++i) dst::yield();
        if (child >= 0) {
            { dst::Quiet q; (*recs)[size_t(child)].queued = 1; }
            thePool->push(new Task(size_t(child), 1, -1));
        }
        bool f;
        { dst::Quiet q; executing--; (*recs)[id].running = 0; f = (*recs)[id].fails; }
        if (f) throw eckit::SeriousBug("task <" + std::to_string(id) + "> failed on purpose");
    }
    ~Task() override { dst::Quiet q; Rec& r = (*recs)[id]; r.destroyed++; DST_CHECK(r.destroyed == 1, "destroyed-twice", "task %zu destroyed %d times", id, r.destroyed); DST_CHECK(!r.running, "destroyed-running", "task %zu destroyed while running", id); }
};
// as many tasks as there are workers: they wait for each other
struct Party { eckit::MutexCond cond; int here = 0, need = 0; };
struct Meeting : Task {
    Party* p;
    Meeting(size_t i, Party* q) : Task(i, 0, -1), p(q) {}
    void execute() override {
        Task::execute();
        eckit::AutoLock<eckit::MutexCond> lock(p->cond);
        p->here++;
        p->cond.broadcast();
        while (p->here < p->need) p->cond.wait();
    }
};
std::vector<Party*>* parties;
size_t newTask(bool fail) { dst::Quiet q; recs->push_back(Rec()); recs->back().fails = fail; return recs->size() - 1; }
std::vector<size_t> queuedNow() { dst::Quiet q; std::vector<size_t> v; for (size_t i = 0; i < recs->size(); ++i) if ((*recs)[i].queued == 2) v.push_back(i); return v; }

void submit(int n, bool list, bool failing, bool children) {
    std::list<eckit::ThreadPoolTask*> l;
    std::vector<size_t> ids;
    for (int i = 0; i < n; ++i) {
        size_t id = newTask(failing && gen(0, 3) == 0);
        int child = -1;
        if (children && gen(0, 2) == 0) child = int(newTask(false));
        Task* t = new Task(id, int(gen(0, 4)), child);
        ids.push_back(id);
        if (list) l.push_back(t);
        else { thePool->push(t); dst::Quiet q; (*recs)[id].queued = 2; }
    }
    if (list) { thePool->push(l); dst::Quiet q; DST_CHECK(l.empty(), "list", "list not taken"); for (size_t i : ids) (*recs)[i].queued = 2; }
}
void meet(int n, bool list) {
    Party* p = new Party(); p->need = n;
    { dst::Quiet q; parties->push_back(p); }
    std::list<eckit::ThreadPoolTask*> l;
    std::vector<size_t> ids;
    for (int i = 0; i < n; ++i) {
        size_t id = newTask(false);
        ids.push_back(id);
        Task* t = new Meeting(id, p);
        if (list) l.push_back(t); else thePool->push(t);
    }
    if (list) thePool->push(l);
    dst::Quiet q;
    for (size_t i : ids) (*recs)[i].queued = 2;
}
void checkedWait(const char* who) {
    std::vector<size_t> before = queuedNow();
    thePool->wait();
    dst::Quiet q;
    for (size_t i : before) DST_CHECK((*recs)[i].executed == 1 && (*recs)[i].destroyed == 1, "wait-early", "%s: wait returned although task %zu, pushed before, has not finished (executed %d, destroyed %d)", who, i, (*recs)[i].executed, (*recs)[i].destroyed);
}
void run() {
    recs = new std::vector<Rec>();
    recs->reserve(4096);
    dst::enableIf(dst::F_SPURIOUS, 0.4, 0.02, 0.3);
    dst::enableIf(dst::F_WAKEORDER, 0.5, 0.1, 0.6);
    size_t size = gen(1, 4);
    int submitters = int(gen(0, 2)), rounds = int(gen(1, 3));
    bool failing = gen(0, 3) == 0, children = gen(0, 2) == 0;
    bool empty = gen(0, 9) == 0;
    dst::note("size %zu, %d extra submitters, %d rounds, failing %d, children %d", size, submitters, rounds, failing, children);
    parties = new std::vector<Party*>();
    thePool = new eckit::ThreadPool("pool", size);
    {
        Threads t;
        for (int s = 0; s < submitters; ++s) {
            int k = int(gen(1, 3));
            bool l = gen(0, 1), w = gen(0, 1);
            auto job = [=]() { submit(k, l, failing, children); if (w) checkedWait("submitter"); };
            t.go(job);
        }
        for (int r = 0; r < rounds && !empty; ++r) {
            switch (gen(0, 5)) {
                case 0: submit(int(gen(1, 4)), true, failing, children); break;
                case 1: {
                    size_t to = gen(1, 4);
                    thePool->resize(to); size = to;
                    submit(1, false, failing, children);
                    break;
                }
                case 3: meet(int(gen(1, size)), gen(0, 1)); break;
                case 2: checkedWait("owner"); break;
                default: submit(int(gen(1, 4)), false, failing, children); break;
            }
        }
        if (gen(0, 1)) checkedWait("owner");
        t.join();
    }
    bool anyFail = false;
    bool explicitWait = gen(0, 1), twice = false;
    if (explicitWait) {
        bool threw = false;
        std::string msg;
        if (gen(0, 3) == 0) {
            twice = true;
            Threads t;
            std::atomic<int> n{0};
            for (int i = 0; i < 2; ++i) t.go([&]() { try { thePool->waitForThreads(); } catch (eckit::Exception& e) { dst::Quiet q; n++; msg = e.what(); } });
            t.join();
            dst::Quiet q;
            DST_CHECK(n <= 1, "error-report", "the same errors reported to two callers of waitForThreads");
            threw = n > 0;
        }
        else {
            try { thePool->waitForThreads(); } catch (eckit::Exception& e) { threw = true; msg = e.what(); }
            if (gen(0, 1)) {
                twice = true;
                bool again = false;
                try { thePool->waitForThreads(); } catch (eckit::Exception&) { again = true; }
                dst::Quiet q;
                DST_CHECK(!again, "error-report", "waitForThreads reported an error twice");
            }
        }
        dst::Quiet q;
        for (size_t i = 0; i < recs->size(); ++i) if ((*recs)[i].queued == 2 || (*recs)[i].executed) {
            if ((*recs)[i].fails) {
                anyFail = true;
                DST_CHECK(!threw || msg.find("<" + std::to_string(i) + ">") != std::string::npos, "error-report", "the failure of task %zu is not in the report '%s'", i, msg.c_str());
            }
            DST_CHECK((*recs)[i].queued == 1 || ((*recs)[i].executed == 1 && (*recs)[i].destroyed == 1), "threads-early", "waitForThreads returned although task %zu has not finished", i);
        }
        DST_CHECK(threw == anyFail, "error-report", "waitForThreads %s although %s task failed", threw ? "reported an error" : "reported no error", anyFail ? "a" : "no");
    }
    if (!children && explicitWait && !twice) {
        DST_CHECK( thePool->done(), "done", "not done after the end");
    }
    delete thePool;
    {
        dst::Quiet q;
        DST_CHECK(executing == 0, "still-running", "%d tasks still running after the pool was destroyed", executing);
        for (size_t i = 0; i < recs->size(); ++i) if ((*recs)[i].queued == 2)
            DST_CHECK((*recs)[i].executed == 1 && (*recs)[i].destroyed == 1, "not-run", "task %zu: executed %d times, destroyed %d times after the pool was destroyed", i, (*recs)[i].executed, (*recs)[i].destroyed);
    }
    expectAllThreadsEnded("pool workers after destruction");
    dst::cover(dst::hashMix(recs->size() * 8 + size_t(maxPar), size));
    if (recs->size() >= 2) dst::nontrivial();
}
}  // namespace
const dst::ScenarioDef dst::scenario = {"T02", initMain, run};
