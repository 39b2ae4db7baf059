// T03: controlled threads.
#include "common.h"
#include "eckit/thread/Thread.h"
#include "eckit/thread/ThreadControler.h"
using namespace scen;
using dst::gen;

namespace {
struct Rec { int started = 0, runs = 0, ended = 0, destroyed = 0, stopSeen = 0, stopAsked = 0; uint64_t stopAt = 0; };
struct Body : eckit::Thread {
    Rec* r; int kind, work;   // kind 0: finite, 1: until stopped, 2: throws
    Body(Rec* rec, int k, int w, bool autodel) : eckit::Thread(autodel), r(rec), kind(k), work(w) {}
    void run() override {
        { dst::Quiet q; DST_CHECK(r->destroyed == 0, "after-destroy", "body run after its destruction"); r->runs++; r->started = 1; DST_CHECK(r->runs == 1, "twice", "body run %d times", r->runs); }
        for (int i = 0; i < work; ++i) dst::yield();
        if (kind == 1) {
            for (;;) {
                bool asked;
                { dst::Quiet q; asked = r->stopAsked == 2; }
                bool s = stopped();
                if (s) { dst::Quiet q; DST_CHECK(r->stopAsked, "phantom-stop", "stop observed but never requested"); r->stopSeen = 1; break; }
                if (asked) dst::fail("stop-ignored", "a stop requested (and returned) before is not observed");
                dst::sleepNs(100000);
            }
        }
        { dst::Quiet q; r->ended = 1; }
        if (kind == 2) throw eckit::SeriousBug("body fails on purpose");
    }
    ~Body() override { dst::Quiet q; r->destroyed++; DST_CHECK(r->destroyed == 1, "destroyed-twice", "thread object destroyed %d times", r->destroyed); DST_CHECK(!r->runs || r->ended, "destroyed-running", "thread object destroyed while its body runs"); }
};
void one(int detached, int kind, int work, bool autodel, int pre, bool never, std::vector<Rec*>& all) {
    Rec* r = new Rec();
    { dst::Quiet q; all.push_back(r); }
    Body* b = new Body(r, kind, work, autodel);
    {
        eckit::ThreadControler c(b, detached);
        if (never) { /* never started: the controller owns it */ }
        else {
            bool failed = false;
            try { c.start(); } catch (eckit::Exception&) { failed = true; }
            if (failed) { dst::Quiet q; DST_CHECK(dst::fired(dst::F_THREADFAIL), "start", "start failed without a cause"); r->runs = -1; }
            else {
                for (int i = 0; i < pre; ++i) dst::yield();
                if (!detached) {
                    bool gone;
                    { dst::Quiet q; gone = r->destroyed != 0; }
                    if (kind == 1) {
                        { dst::Quiet q; r->stopAsked = 1; }
                        c.stop();
                        { dst::Quiet q; r->stopAsked = 2; }
                    }
                    else if (!autodel || !work) { if (!gone && !autodel) { dst::Quiet q; r->stopAsked = 2; } if (!autodel) c.stop(); }
                    c.wait();
                    dst::Quiet q;
                    DST_CHECK(r->ended, "wait-early", "wait returned although the body has not ended");
                    if (autodel) DST_CHECK(r->destroyed == 1, "wait-early", "wait returned although the body's object was not destroyed");
                }
                else if (kind == 1) { dst::Quiet q; DST_CHECK(false, "harness:kind", "detached until-stop"); }
            }
        }
    }
    if (!autodel && !never && r->runs >= 0) { if (!detached) delete b; }
}
void run() {
    dst::enableIf(dst::F_SPURIOUS, 0.4, 0.02, 0.3);
    int n = int(gen(1, 3));
    std::vector<Rec*> all;
    bool par = gen(0, 1);
    {
        Threads t;
        for (int i = 0; i < n; ++i) {
            int det = int(gen(0, 1)), kind = int(gen(0, 2)), work = int(gen(0, 4)), pre = int(gen(0, 4));
            bool autodel = det ? true : gen(0, 1);
            bool never = gen(0, 9) == 0;
            if (det && kind == 1) kind = 0;
            dst::note("controller %d: detached %d kind %d work %d autodel %d never %d", i, det, kind, work, autodel, never);
            if (par) {
                if (dst::gen(0, 1)) { try { t.go([=, &all]() { one(det, kind, work, autodel, pre, never, all); }); } catch (std::system_error&) {} }
                else one(det, kind, work, autodel, pre, never, all);
            }
            else one(det, kind, work, autodel, pre, never, all);
        }
    }
    expectAllThreadsEnded("controlled threads");
    dst::Quiet q;
    uint64_t h = 0;
    for (auto* r : all) {
        if (r->runs > 0) DST_CHECK(r->runs == 1 && r->ended, "lost", "body run %d times, ended %d", r->runs, r->ended);
        DST_CHECK(r->destroyed == 1, "leak", "thread object destroyed %d times", r->destroyed);
        h = dst::hashMix(h, uint64_t(r->runs + 1) * 4 + uint64_t(r->stopSeen));
    }
    dst::cover(h);
    dst::nontrivial();
}
}  // namespace
const dst::ScenarioDef dst::scenario = {"T03", initMain, run};
