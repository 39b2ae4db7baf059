// S02: arrays and counters shared by processes are initialised once and lose no update.
#include <sys/mman.h>
#include "common.h"
#include "eckit/container/MappedArray.h"
#include "eckit/container/SharedMemArray.h"
#include "eckit/filesystem/PathName.h"
#include "eckit/os/SharedInt.h"
#include "eckit/thread/AutoLock.h"
using namespace scen;
using dst::gen;
namespace {
enum { MAPPED, SHMEM, COUNTER, KINDS };
const char* NAME[] = {"mapped array", "shared memory array", "shared counter"};
template <int N> struct Rec { uint64_t v, w[N]; };
struct Sh {
    uint64_t model[512];      // committed value of each element
    uint64_t pending[512];    // value being written under the lock, 0: none
    int pendingBy[512];
    int used[16], busy[16];   // counter: taken by each process; taking or giving back now
    int opens, updates, errors, torn;
};
uint64_t wOf(uint64_t v, int i) { return v ? v * 0x9e3779b97f4a7c15ull + uint64_t(i) : 0; }

// under the lock: the element is as last committed, or as a process left it that died in the middle
template <class R> void check(Sh* s, R& r, unsigned long i, const char* what) {
    constexpr int n = int(sizeof(r.w) / 8);
    uint64_t v = r.v, m = s->model[i], p = s->pending[i];
    if (p) {
        DST_CHECK(!dst::procAlive(s->pendingBy[i]), "lock-shared", "%s: processes %d and %d are both inside its lock", what, s->pendingBy[i], dst::process());
        s->torn++;
        DST_CHECK(v == m || v == p, "lost-update", "%s: element %lu is %llu, neither %llu nor %llu", what, i, (unsigned long long)v, (unsigned long long)m, (unsigned long long)p);
        for (int k = 0; k < n; ++k) DST_CHECK(r.w[k] == wOf(m, k) || r.w[k] == wOf(p, k), "lost-update", "%s: element %lu has contents that nobody wrote", what, i);
        r.v = m;
        for (int k = 0; k < n; ++k) r.w[k] = wOf(m, k);
        s->pending[i] = 0;
        return;
    }
    DST_CHECK(v == m, v == 0 ? "reset" : "lost-update", "%s: element %lu is %llu instead of %llu", what, i, (unsigned long long)v, (unsigned long long)m);
    for (int k = 0; k < n; ++k) DST_CHECK(r.w[k] == wOf(m, k), "lost-update", "%s: element %lu is %llu but not all of it", what, i, (unsigned long long)v);
}
template <class A, class R> void updates(Sh* s, A& a, int kind, unsigned long size, int n) {
    DST_CHECK(a.size() == size, "size", "%s: opened with %lu elements, has %lu", NAME[kind], size, (unsigned long)a.size());
    for (int k = 0; k < n; ++k) {
        eckit::AutoLock<A> lock(a);
        unsigned long i = gen(0, 3) ? gen(0, std::min<unsigned long>(size, 4) - 1) : gen(0, size - 1);
        R& r = a[i];
        { dst::Quiet q; check(s, r, i, NAME[kind]); if (&a[i] != a.begin() + i || a.begin() + size != a.end()) dst::fail("size", "%s: inconsistent iterators", NAME[kind]); }
        uint64_t v = s->model[i] + 1;
        { dst::Quiet q; s->pendingBy[i] = dst::process(); s->pending[i] = v; }
        r.v = v;
        if (gen(0, 1)) dst::yield();
        for (size_t k2 = 0; k2 < sizeof(r.w) / 8; ++k2) r.w[k2] = wOf(v, int(k2));
        if (gen(0, 2) == 0) dst::yield();
        { dst::Quiet q; s->model[i] = v; s->pending[i] = 0; s->updates++; }
        if (gen(0, 5) == 0) a.sync();
    }
}
template <class A, class R, class... Args> void arrays(Sh* s, int kind, unsigned long size, int opens, int n, Args... args) {
    for (int o = 0; o < opens; ++o) {
        try {
            A a(args..., size);
            { dst::Quiet q; s->opens++; }
            updates<A, R>(s, a, kind, size, n);
        }
        catch (std::exception& e) {
            dst::Quiet q;
            s->errors++;
            DST_CHECK(dst::anyIoFault(), "spurious-error", "%s: cannot be used although nothing failed: %s", NAME[kind], e.what());
        }
    }
}
template <class R> void allOfIt(Sh* s, int kind, const std::string& path, const std::string& shm, unsigned long size, int opens, int n) {
    eckit::PathName p(path);
    if (kind == MAPPED) arrays<eckit::MappedArray<R>, R>(s, kind, size, opens, n, p);
    else arrays<eckit::SharedMemArray<R>, R>(s, kind, size, opens, n, p, shm);
}
void counter(Sh* s, const std::string& path, int limit, int n) {
    int me = dst::process();
    try {
        eckit::SharedInt c((eckit::PathName(path)), 2);
        { dst::Quiet q; s->opens++; }
        for (int i = 0; i < n; ++i) {
            int v = int(gen(1, uint64_t(limit)));
            { dst::Quiet q; s->busy[me] = v; }
            try { if (v == 1) c.use(1); else c.use(1, short(v)); } catch (std::exception& e) { dst::Quiet q; s->busy[me] = 0; DST_CHECK(dst::fired(dst::F_EINTR), "spurious-error", "cannot use the counter: %s", e.what()); continue; }
            {
                dst::Quiet q;
                s->busy[me] = 0; s->used[me] = v; s->updates++;
                int sum = 0;
                for (int p = 0; p < 16; ++p) if (s->used[p] && dst::procAlive(p)) sum += s->used[p];
                DST_CHECK(sum <= limit, "over-limit", "%d units used, of %d", sum, limit);
            }
            int f = c.free(1), l = c.limit(1);
            DST_CHECK(l == limit && f >= 0 && f <= limit - v, "counter", "free %d and limit %d reported while %d of %d are used", f, l, v, limit);
            for (uint64_t k = gen(0, 2); k > 0; --k) dst::yield();
            { dst::Quiet q; s->used[me] = 0; }
            for (;;) try { if (v == 1) c.release(1); else c.release(1, short(v)); break; } catch (std::exception& e) { DST_CHECK(dst::fired(dst::F_EINTR), "spurious-error", "cannot release the counter: %s", e.what()); }
        }
    }
    catch (std::exception& e) { dst::Quiet q; s->errors++; DST_CHECK(dst::anyIoFault(), "spurious-error", "cannot open the counter: %s", e.what()); }
}
void init() { initMain(); { eckit::PathName p("/tmp/x"); (void)p.exists(); } }
void run() {
    dst::enableIf(dst::F_CRASH, 0.6, 0.005, 0.1);
    dst::enableIf(dst::F_EINTR, 0.2, 0.02, 0.3);
    dst::enableIf(dst::F_OPENERR, 0.1, 0.02, 0.2);
    dst::enableIf(dst::F_SHORTWRITE, 0.2, 0.1, 0.6);
    dst::enableIf(dst::F_WRITEERR, 0.15, 0.02, 0.3);
    dst::enableIf(dst::F_NOSPACE, 0.15, 0.02, 0.3);
    int kind = int(gen(0, KINDS - 1)), nprocs = int(gen(1, 5));
    bool big = gen(0, 2) == 0, sizes = gen(0, 3) == 0;
    unsigned long size = gen(0, 2) ? gen(1, 6) : gen(7, 200);
    std::string path = dst::scratch() + "/shared", shm = "/array";
    if (gen(0, 1)) dst::writeFileRaw(path, "");
    Sh* s = dst::sharedNew<Sh>();
    int limit = int(gen(1, 6)), crashers = 0;
    if (kind == COUNTER) {
        dst::writeFileRaw(path, "");
        eckit::SharedInt c((eckit::PathName(path)), 2);
        for (;;) try { c.newLimit(short(limit), 1); break; } catch (eckit::FailedSystemCall&) {}
        DST_CHECK(c.limit(1) == limit && c.free(1) == limit && c.limit(0) == 0 && c.free(0) == 0, "counter", "limit %d set: limit %d free %d", limit, c.limit(1), c.free(1));
    }
    for (int p = 0; p < nprocs; ++p) {
        int opens = int(gen(1, 3)), n = int(gen(0, 4));
        unsigned long sz = sizes ? size + gen(0, 3) * gen(1, 40) : size;
        bool c = gen(0, 2) > 0;
        crashers += c;
        dst::spawn([=] {
            dst::crashable(c);
            if (kind == COUNTER) counter(s, path, limit, n);
            else if (big) allOfIt<Rec<7>>(s, kind, path, shm, sz, opens, n);
            else allOfIt<Rec<1>>(s, kind, path, shm, sz, opens, n);
            dst::crashable(false);
        }, "user");
    }
    dst::joinAll();
    dst::disableAll();
    int last = dst::spawn([=] {
        if (kind == COUNTER) {
            eckit::SharedInt c((eckit::PathName(path)), 2);
            DST_CHECK(c.free(1) == limit && c.limit(1) == limit, "counter", "all %d units given back or their users dead, but %d of %d are free", limit, c.free(1), c.limit(1));
            c.newLimit(short(limit + 2), 1);
            DST_CHECK(c.free(1) == limit + 2 && c.limit(1) == limit + 2, "counter", "limit not changed");
            counter(s, path, limit + 2, 2);
            return;
        }
        for (int o = 0; o < 2; ++o) {
            unsigned long sz = size + (o && sizes ? 60 : 0);
            try {
                auto all = [&](auto& a) { eckit::AutoLock<std::remove_reference_t<decltype(a)>> l(a); for (unsigned long i = 0; i < sz; ++i) check(s, a[i], i, NAME[kind]); };
                eckit::PathName p(path);
                if (kind == MAPPED) { if (big) { eckit::MappedArray<Rec<7>> a(p, sz); all(a); } else { eckit::MappedArray<Rec<1>> a(p, sz); all(a); } }
                else { if (big) { eckit::SharedMemArray<Rec<7>> a(p, shm, sz); all(a); } else { eckit::SharedMemArray<Rec<1>> a(p, shm, sz); all(a); } }
                s->opens++;
            }
            catch (std::exception& e) { dst::fail("not-recovered", "%s: cannot be opened after a crash: %s", NAME[kind], e.what()); }
            if (big) allOfIt<Rec<7>>(s, kind, path, shm, sz, 1, 3); else allOfIt<Rec<1>>(s, kind, path, shm, sz, 1, 3);
        }
    }, "last");
    dst::join(last);
    if (nprocs > 1 && s->updates > 1) dst::nontrivial();
    dst::cover(dst::hashMix(uint64_t(kind) * 1000 + uint64_t(nprocs) * 100 + crashers * 10 + sizes, dst::hashMix(s->updates, s->errors * 64 + s->torn)));
}
}  // namespace
const dst::ScenarioDef dst::scenario = {"S02", init, run};
