// R02: tasks of threads and processes in the shared monitor own distinct slots; slots of dead tasks are reused.
#include "common.h"
#define private public
#include "eckit/config/ResourceMgr.h"
#undef private
#include "eckit/log/JSON.h"
#include "eckit/runtime/Monitor.h"
using namespace scen;
using dst::gen;
using eckit::Monitor;
namespace {
constexpr uint64_t SEC = 1000000000ull;
struct Owner { int task, proc, busy, abort; char name[80], status[256], message[80], log[64]; };   // what the owner published
struct Reg { int begin, end, proc; unsigned alive; };
struct Sh {
    int size, step, nregs, nuid, panics, crashes, aborts;
    Owner own[8];           // current owner of each slot (task 0: none)
    int freedAt[8];         // when the slot was last given up
    int ownedBy[8];         // process of the last owner
    int given[8];           // when the slot was last given to somebody
    Reg reg[400];
};
Sh* S;
thread_local int myReg = -1;
unsigned aliveMask() { unsigned m = 0; for (int p = 0; p < 16; ++p) if (dst::procAlive(p)) m |= 1u << p; return m; }
void beginRegister() {
    dst::Quiet q;
    if (S->nregs >= 400) dst::fail("harness:regs", "too many registrations");
    myReg = S->nregs++;
    S->reg[myReg] = {++S->step, 0, dst::process(), aliveMask()};
}
// registration is refused: legitimate only if every slot may have been somebody's while it was being attempted
void refused() {
    dst::Quiet q;
    if (myReg < 0) dst::fail("panic", "the program gives up while no task registers");
    Reg& r = S->reg[myReg];
    int freeSlots = 0, others = 0;
    for (int i = 0; i < S->size; ++i) {
        bool mayBeHeld = S->given[i] > r.begin || S->freedAt[i] > r.begin || (S->given[i] && S->given[i] > S->freedAt[i] && (r.alive >> S->ownedBy[i] & 1));
        if (!mayBeHeld) ++freeSlots;
    }
    for (int i = 0; i < S->nregs; ++i) if (i != myReg && !S->reg[i].end && (S->reg[i].begin > r.begin || (r.alive >> S->reg[i].proc & 1))) ++others;
    DST_CHECK(freeSlots <= others, "refused", "process %d cannot register although %d of %d slots belong to no live task and only %d others are registering", dst::process(), freeSlots, S->size, others);
    S->panics++;
    r.end = ++S->step;
    dst::note("process %d: no free slot", dst::process());
}
void onExit(int) { refused(); }
// every slot shows what its owner published
void checkSlots(const char* who) {
    dst::Quiet q;
    auto& a = Monitor::instance().tasks();
    for (int i = 0; i < S->size; ++i) {
        Owner& o = S->own[i];
        if (!o.task || o.busy || !dst::procAlive(o.proc)) continue;
        eckit::TaskInfo& t = a[i];
        DST_CHECK(t.pid() == dst::pidOf(o.proc), "slot-lost", "%s: slot %d is owned by process %d (pid %d) but shows pid %d", who, i, o.proc, dst::pidOf(o.proc), int(t.pid()));
        DST_CHECK(*(volatile bool*)&t, "slot-freed", "%s: slot %d is owned by a live task of process %d but is marked as free", who, i, o.proc);
        DST_CHECK(!o.name[0] || !strcmp(t.name(), o.name), "other-content", "%s: slot %d shows name '%s', its owner published '%s'", who, i, t.name(), o.name);
        DST_CHECK(!o.status[0] || !strcmp(t.status(), o.status), "other-content", "%s: slot %d shows status '%s', its owner published '%s'", who, i, t.status(), o.status);
        DST_CHECK(!strcmp(t.message(), o.message), "other-content", "%s: slot %d shows message '%s', its owner published '%s'", who, i, t.message(), o.message);
        char buf[128] = {};
        unsigned long pos = 0, n = t.text(buf, 100, pos);
        DST_CHECK(std::string(buf, n) == o.log, "other-content", "%s: slot %d shows log '%s', its owner wrote '%s'", who, i, buf, o.log);
    }
}
std::string text(const char* kind, int uid, int i, size_t longest) {
    std::string s = std::string(kind) + "-" + std::to_string(uid) + "-" + std::to_string(i) + "-";
    size_t n = gen(0, 4) == 0 ? longest + gen(0, 10) : gen(0, 30);
    while (s.size() < n) s += char('a' + s.size() % 26);
    return s;
}
Owner* take(const char* how) {   // this task is registered now
    dst::Quiet q;
    long slot = Monitor::instance().self();
    S->reg[myReg].end = ++S->step;
    DST_CHECK(slot >= 0 && slot < S->size, "bad-slot", "%s: a registered task has slot %ld of %d", how, slot, S->size);
    dst::note("%s: process %d gets slot %ld", how, dst::process(), slot);
    Owner& o = S->own[slot];
    DST_CHECK(!o.task || !dst::procAlive(o.proc), "two-owners", "%s: slot %ld is given to a task of process %d while a live task of process %d owns it", how, slot, dst::process(), o.proc);
    memset(&o, 0, sizeof o);
    o.task = ++S->nuid; o.proc = dst::process();
    S->given[slot] = S->step; S->ownedBy[slot] = dst::process();
    dst::cover(dst::hashMix(uint64_t(slot), dst::hashMix(uint64_t(S->panics), aliveMask())));
    return &o;
}
int give(Owner* o) { dst::Quiet q; int slot = int(o - S->own); o->task = 0; dst::note("process %d gives up slot %d", dst::process(), slot); return slot; }
void freed(int slot, int proc) { dst::Quiet q; if (S->given[slot] && S->ownedBy[slot] == proc && !S->own[slot].task) S->freedAt[slot] = ++S->step; }
bool registerTask(bool reset) {
    beginRegister();
    try {
        if (reset) Monitor::instance().reset();
        else if (gen(0, 1)) Monitor::instance().startup();
        if (Monitor::instance().self() >= 0) return true;
        dst::Quiet q;
        DST_CHECK(dst::anyIoFault(), "not-registered", "a task uses the monitor and has no slot");
    }
    catch (std::exception& e) {
        dst::Quiet q;
        DST_CHECK(dst::anyIoFault(), "spurious-error", "registering fails: %s", e.what());
    }
    S->reg[myReg].end = ++S->step;
    return false;   // the monitor could not be opened: the task goes on without
}
void work(Owner* o, int ops) {
    Monitor& m = Monitor::instance();
    int uid = o->task;
    for (int i = 0; i < ops; ++i) {
        DST_CHECK(&Monitor::instance() == &m && m.self() == o - S->own, "moved", "the slot of a task changed from %d to %ld", int(o - S->own), m.self());
        bool mustAbort = o->abort, aborted = false;
        try {
            switch (gen(0, 11)) {
                case 0: { std::string s = text("name", uid, i, 79); o->busy = 1; m.name(s); snprintf(o->name, 80, "%s", s.c_str()); o->busy = 0; break; }
                case 1: { std::string s = text("status", uid, i, 255); o->busy = 1; m.status(s); snprintf(o->status, 256, "%s", s.c_str()); o->busy = 0; DST_CHECK(m.status() == o->status, "other-content", "the status reads '%s' after '%s' was set", m.status().c_str(), o->status); break; }
                case 2: { std::string s = text("message", uid, i, 79); o->busy = 1; m.message(s); snprintf(o->message, 80, "%s", s.c_str()); o->busy = 0; DST_CHECK(m.message() == o->message, "other-content", "the message reads '%s' after '%s' was set", m.message().c_str(), o->message); break; }
                case 3: { if (strlen(o->log) > 50) break; std::string s = "l" + std::to_string(uid) + ";"; o->busy = 1; m.out(&s[0], &s[0] + s.size()); strcat(o->log, s.c_str()); o->busy = 0; break; }
                case 4: {
                    std::string s = m.statusTree();
                    if (o->status[0]) DST_CHECK(s.compare(0, strlen(o->status), o->status) == 0, "other-content", "the status tree of '%s' starts with '%s'", o->status, s.c_str());
                    mustAbort = false;
                    break;
                }
                case 5: m.kill("nobody", 0); mustAbort = false; break;
                case 6: { std::ostringstream os; { eckit::JSON j(os); j << m.task(gen(0, S->size - 1)); } mustAbort = false; break; }
                case 7: m.progress("p", 0, 10); m.progress(gen(0, 10)); m.progress(); break;
                case 8: { long p = long(gen(0, S->size)) - 1; m.parent(p); mustAbort = false; break; }
                case 9: { o->busy = 1; { eckit::AutoState st('x'); dst::yield(); } o->busy = 0; break; }   // an abort request here would end the process: the destructor throws
                case 10: dst::sleepNs(gen(0, 1) ? gen(1, 200) * SEC : gen(1, 1000000)); mustAbort = false; break;
                case 11: {   // somebody asks a task to abort
                    dst::Quiet q;
                    int slot = int(gen(0, S->size - 1));
                    Owner& v = S->own[slot];
                    mustAbort = false;
                    if (v.task && !v.busy && !v.abort && dst::procAlive(v.proc)) { m.task(slot).abort(); v.abort = 1; S->aborts++; }
                    break;
                }
            }
            DST_CHECK(!mustAbort, "abort-lost", "a task that was asked to abort goes on");
        }
        catch (eckit::Abort&) {
            dst::Quiet q;
            DST_CHECK(o->abort, "spurious-abort", "a task aborts that nobody asked to");
            aborted = true;
        }
        if (aborted) { dst::Quiet q; o->abort = 0; o->busy = 0; }
        checkSlots("while working");
    }
}
void procMain(int waves, int nthreads, bool inherited, bool mainRegisters) {
    if (inherited) { if (registerTask(true)) work(take("after a fork"), int(gen(0, 3))); }
    else if (mainRegisters) { if (registerTask(false)) work(take("main task"), int(gen(0, 3))); }
    bool alone = !inherited && !mainRegisters && nthreads == 1;
    for (int w = 0; w < waves; ++w) {
        std::vector<int> slots(nthreads, -1);
        {
            Threads ts;
            for (int t = 0; t < nthreads; ++t)
                ts.go([&, t] {
                    if (gen(0, 2) == 0) dst::sleepNs(gen(0, 100) * 1000);
                    if (!registerTask(false)) return;
                    Owner* o = take("thread");
                    work(o, int(gen(0, 5)));
                    slots[t] = give(o);
                    if (alone && gen(0, 1)) { Monitor::instance().shutdown(); freed(slots[t], dst::process()); if (gen(0, 1)) dst::sleepNs(gen(0, 1000000)); }   // an application ends, then its static objects
                });
            ts.join();
        }
        for (int s : slots) if (s >= 0) freed(s, dst::process());
        if (gen(0, 3) == 0) dst::sleepNs(gen(0, 130) * SEC);
    }
}
void oneRun() {
    eckit::ResourceMgr& r = eckit::ResourceMgr::instance();
    S = dst::sharedNew<Sh>();
    S->size = int(gen(1, 6));
    r.set("monitorSize", std::to_string(S->size));
    r.set("monitorPath", dst::scratch() + "/monitor");
    r.set("monitorArrayType", gen(0, 2) ? "MemoryMapped" : "SharedMemory");
    dst::onExit(onExit);
    dst::setStepLimit(60000, 2000000);
    Monitor::active(true);
    bool rootTask = gen(0, 2) == 0, faults = gen(0, 4) == 0, crashes = gen(0, 1);
    int nprocs = int(gen(1, 5));
    if (rootTask) { registerTask(false); take("root"); }
    if (faults) { dst::enableIf(dst::F_OPENERR, 0.6, 0.01, 0.3); dst::enableIf(dst::F_WRITEERR, 0.3, 0.01, 0.2); dst::enableIf(dst::F_EINTR, 0.5, 0.01, 0.3); }
    if (crashes) { dst::enableIf(dst::F_CRASH, 1, 0.0005, 0.02); dst::faultBudget(dst::F_CRASH, int(gen(1, nprocs))); }
    for (int p = 0; p < nprocs; ++p) {
        int waves = int(gen(1, 3)), nthreads = int(gen(1, 3)); bool mr = gen(0, 1);
        dst::spawn([=] { dst::crashable(crashes); procMain(waves, nthreads, rootTask, mr); dst::crashable(false); }, "member");
        if (gen(0, 1)) dst::sleepNs(gen(0, 2) ? gen(0, 1000) * 1000 : gen(0, 150) * SEC);
    }
    dst::joinAll();
    // all the others are gone: as many tasks as there are slots must be able to register
    dst::disableAll();
    int n = S->size - (rootTask ? 1 : 0);
    if (rootTask) checkSlots("at the end");
    if (n) {
        int* there = dst::sharedNew<int>();
        Threads ts;
        for (int t = 0; t < n; ++t) ts.go([&] {
            registerTask(false);
            Owner* o = take("at the end");
            { dst::Quiet q; ++*there; }
            while (*there < n) dst::sleepNs(1000000);
            checkSlots("at the end");
            give(o);
        });
        ts.join();
    }
    if (S->nuid > S->size) dst::nontrivial();
}
}  // namespace
namespace dst { const ScenarioDef scenario = {"R02", initMain, oneRun}; }
