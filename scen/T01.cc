// T01: locks, conditions, once-objects.
#include "common.h"
#include "eckit/thread/AutoLock.h"
#include "eckit/thread/Mutex.h"
#include "eckit/thread/MutexCond.h"
#include "eckit/thread/Once.h"
#include "eckit/thread/StaticMutex.h"
#include "eckit/thread/ThreadSingleton.h"
using namespace scen;
using dst::gen;

namespace {
eckit::StaticMutex staticMutex;
// reference view of one lock
struct View { int holder = -1, depth = 0; uint64_t acquisitions = 0; int protectedValue = 0; };
void acquired(View& v, int me) {
    dst::Quiet q;
    DST_CHECK(v.depth == 0 || v.holder == me, "exclusion", "thread %d got the lock held by thread %d", me, v.holder);
    v.holder = me; v.depth++; v.acquisitions++;
}
void releasing(View& v, int me) {
    dst::Quiet q;
    DST_CHECK(v.holder == me && v.depth > 0, "exclusion", "lock lost while held");
    if (--v.depth == 0) v.holder = -1;
}
void work(View& v) {
    int x = v.protectedValue;
    for (uint64_t i = gen(0, 2); i > 0; --i) dst::yield();
    DST_CHECK(v.protectedValue == x, "exclusion", "value protected by the lock changed while holding it");
    v.protectedValue = x + 1;
}
template <class L> void nested(L& m, View& v, int me, int depth, int& incs) {
    if (depth && gen(0, 2) == 0) {
        try {
            eckit::AutoLock<L> lock(m);
            acquired(v, me);
            work(v); incs++;
            if (gen(0, 1)) nested(m, v, me, depth - 1, incs);
            releasing(v, me);
            if (gen(0, 3) == 0) throw eckit::SeriousBug("on purpose");
        } catch (eckit::SeriousBug&) {}
        return;
    }
    m.lock(); acquired(v, me);
    work(v); incs++;
    if (depth && gen(0, 1)) nested(m, v, me, depth - 1, incs);
    releasing(v, me); m.unlock();
}
void locks() {
    bool stat = gen(0, 1);
    auto* m = new eckit::Mutex();
    auto* v = new View();
    int nt = int(gen(2, 4));
    dst::note("locks: %d threads, static %d", nt, stat);
    std::vector<int> incs(size_t(nt) + 1, 0);
    std::vector<int>* counts = new std::vector<int>(size_t(nt), 0);
    {
        Threads t;
        for (int i = 0; i < nt; ++i) t.go([=]() {
            int me = i, rounds = int(gen(1, 3)), mine = 0;
            for (int r = 0; r < rounds; ++r) {
                if (!stat && gen(0, 2) == 0) {
                    bool own;
                    { dst::Quiet q; own = v->depth > 0 && v->holder == me; }
                    bool nest = gen(0, 2) == 0 && !own;
                    if (nest) { m->lock(); acquired(*v, me); }
                    bool ok = m->tryLock();
                    if (ok) { acquired(*v, me); work(*v); mine++; releasing(*v, me); m->unlock(); }
                    else {
                        dst::Quiet q;
                        DST_CHECK(!nest, "trylock", "try-lock by the owner refused");
                    }
                    if (nest) { releasing(*v, me); m->unlock(); }
                }
                else if (stat) nested(staticMutex, *v, me, 2, mine);
                else nested(*m, *v, me, 2, mine);
                for (uint64_t k = gen(0, 2); k > 0; --k) dst::yield();
            }
            dst::Quiet q; (*counts)[size_t(me)] = mine;
        });
        t.join();
    }
    // free now: must be available at once
    if (!stat) { DST_CHECK(m->tryLock(), "trylock", "try-lock of a free lock refused"); DST_CHECK(m->tryLock(), "trylock", "nested try-lock refused");
        std::thread o([=]() { DST_CHECK(!m->tryLock(), "exclusion", "try-lock succeeded on a lock held by another thread"); }); o.join();
        m->unlock();
        std::thread o2([=]() { DST_CHECK(!m->tryLock(), "exclusion", "a nested lock was released by its first release"); }); o2.join();
        m->unlock();
        std::thread o3([=]() { DST_CHECK(m->tryLock(), "trylock", "a fully released lock is refused to another thread"); m->unlock(); }); o3.join(); }
    int sum = 0; for (int c : *counts) sum += c;
    DST_CHECK(sum == v->protectedValue, "lost-update", "%d updates under the lock, value %d", sum, v->protectedValue);
    dst::cover(dst::hashMix(1, v->acquisitions));
    delete m;
}
void conditions() {
    auto* mc = new eckit::MutexCond();
    auto* v = new View();
    struct S { int waiting = 0, woken = 0, granted = 0; };
    auto* s = new S();
    bool spurious = gen(0, 2) == 0;
    if (spurious) dst::enable(dst::F_SPURIOUS, 0.1);
    dst::enableIf(dst::F_WAKEORDER, 0.5, 0.1, 0.6);
    int n = int(gen(1, 4));
    dst::note("conditions: %d waiters, spurious %d", n, spurious);
    Threads t;
    for (int i = 0; i < n; ++i) t.go([=]() {
        mc->lock(); acquired(*v, i);
        { dst::Quiet q; s->waiting++; }
        if (spurious) { while (s->granted == 0) { releasing(*v, i); mc->wait(); acquired(*v, i); } s->granted--; }
        else { releasing(*v, i); mc->wait(); acquired(*v, i); DST_CHECK(s->granted > 0, "phantom", "resumed without a signal"); s->granted--; }
        { dst::Quiet q; s->waiting--; s->woken++; }
        dst::yield();
        releasing(*v, i); mc->unlock();
    });
    // the signaller: waits until all wait (they hold the lock until they really wait), then signals
    for (;;) { mc->lock(); int w = s->waiting; mc->unlock(); if (w == n) break; dst::sleepNs(1000); }
    int left = n, woken = 0;
    while (left) {
        bool bc = gen(0, 2) == 0, unlockedSignal = gen(0, 1) && !spurious;
        mc->lock(); acquired(*v, 100);
        int k = bc ? left : 1;
        s->granted += k;
        if (!unlockedSignal) { if (bc) mc->broadcast(); else mc->signal(); }
        releasing(*v, 100); mc->unlock();
        if (unlockedSignal) { if (bc) mc->broadcast(); else mc->signal(); }
        left -= k; woken += k;
        bool ok = false;
        for (int i = 0; i < 400 && !ok; ++i) { dst::sleepNs(1000000); dst::Quiet q; ok = s->woken == woken; }
        DST_CHECK(ok, "lost-wakeup", "%s sent while %d waited: %d resumed instead of %d", bc ? "broadcast" : "signal", left + k, s->woken, woken);
    }
    t.join();
    dst::cover(dst::hashMix(2, uint64_t(n)));
    delete mc;
}
void timed() {
    auto* mc = new eckit::MutexCond();
    bool jumps = gen(0, 2) == 0;
    int n = int(gen(1, 3));
    auto* v = new View();
    auto* signals = new int(0);
    dst::note("timed waits: %d, clock jumps %d", n, jumps);
    Threads t;
    for (int i = 0; i < n; ++i) t.go([=]() {
        int sec = int(gen(0, 5));
        mc->lock(); acquired(*v, i);
        int64_t before = dst::wallNow() / 1000000000;
        int s0 = *signals;
        releasing(*v, i);
        bool timeout = mc->wait(sec);
        acquired(*v, i);
        int64_t after = dst::wallNow();
        if (timeout) DST_CHECK(after / 1000000000 >= before + sec, "early-timeout", "timed wait of %d s timed out at %lld ns, called in second %lld", sec, (long long)after, (long long)before);
        else DST_CHECK(*signals != s0 || dst::fired(dst::F_SPURIOUS), "phantom", "timed wait resumed without signal nor timeout");
        if (!jumps && !timeout) DST_CHECK(after / 1000000000 <= before + sec + 1, "late", "timed wait of %d s ended much later", sec);
        releasing(*v, i); mc->unlock();
    });
    int k = int(gen(0, 3));
    for (int i = 0; i < k; ++i) {
        dst::sleepNs(gen(0, 2000) * 1000000);
        if (jumps && gen(0, 1)) dst::jumpWall(int64_t(gen(0, 6000)) * 1000000 - 3000000000ll);
        mc->lock(); ++*signals; if (gen(0, 1)) mc->signal(); else mc->broadcast(); mc->unlock();
    }
    t.join();
    dst::cover(dst::hashMix(3, uint64_t(n * 8 + k)));
}
int made[4], unmade[4];
template <int N> struct Obj {
    int magic = 0;
    Obj() { { dst::Quiet q; made[N]++; } dst::yield(); dst::yield(); magic = 4711; }
    ~Obj() { dst::Quiet q; unmade[N]++; DST_CHECK(magic == 4711, "destroyed", "object destroyed twice"); magic = 0; }
};
eckit::Once<Obj<0>> onceA;
eckit::Once<Obj<1>> onceB;
eckit::ThreadSingleton<Obj<2>> perThread;
void onces() {
    int n = int(gen(2, 4));
    std::vector<Obj<0>*>* as = new std::vector<Obj<0>*>(); std::vector<Obj<2>*>* ps = new std::vector<Obj<2>*>();
    dst::note("once objects: %d threads", n);
    {
        Threads t;
        for (int i = 0; i < n; ++i) t.go([=]() {
            for (uint64_t k = gen(0, 3); k > 0; --k) dst::yield();
            bool useB = gen(0, 1);
            Obj<0>& a = onceA;
            DST_CHECK(a.magic == 4711, "half-made", "once object used before its construction ended");
            Obj<2>& p = perThread.instance();
            DST_CHECK(p.magic == 4711, "half-made", "per-thread object half made");
            if (useB) { Obj<1>& b = onceB; DST_CHECK(b.magic == 4711, "half-made", "once object used before its construction ended"); }
            dst::yield();
            DST_CHECK(&p == &perThread.instance(), "not-once", "two per-thread objects in one thread");
            Obj<0>& a2 = onceA;
            DST_CHECK(&a == &a2, "not-once", "two once objects");
            dst::Quiet q; for (auto* o : *ps) DST_CHECK(o != &p || unmade[2], "shared", "per-thread object shared between threads");
            as->push_back(&a); ps->push_back(&p);
        });
    }
    for (auto* x : *as) DST_CHECK(x == (*as)[0], "not-once", "threads see different once objects");
    DST_CHECK(made[0] == 1 && made[1] <= 1, "not-once", "once objects made %d and %d times", made[0], made[1]);
    DST_CHECK(unmade[0] == 0, "destroyed", "once object destroyed");
    DST_CHECK(made[2] == n, "not-once", "%d per-thread objects for %d threads", made[2], n);
    DST_CHECK(unmade[2] == n, "leak", "%d of %d per-thread objects destroyed at the end of their thread", unmade[2], n);
    dst::cover(dst::hashMix(4, uint64_t(n)));
}
void run() {
    switch (gen(0, 4)) {
        case 0: conditions(); break;
        case 1: timed(); break;
        case 2: onces(); break;
        default: locks(); break;
    }
    expectAllThreadsEnded("lock users");
    dst::nontrivial();
}
}  // namespace
const dst::ScenarioDef dst::scenario = {"T01", initMain, run};
