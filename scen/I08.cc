// I08: the pool of files opened for appending: one user per file, bounded number of idle files, nobody waits forever.
#include <unistd.h>
#include "common.h"
#include "eckit/io/FileHandle.h"
#include "eckit/io/FilePool.h"
#include "eckit/filesystem/PathName.h"
using namespace scen;
using dst::gen;
namespace {
struct PathState {
    std::string path;
    int users = 0;
    uint64_t lends = 0;
    std::string expect;       // bytes appended by users, in the order they had the file
    bool damaged = false;     // an append failed: what reaches the file is not determined
    eckit::DataHandle* held = nullptr;
};
void init() { initMain(); { eckit::FileHandle h("/tmp/none"); eckit::PathName p("/tmp/x"); (void)p.exists(); } eckit::FilePool f(1); }
void run() {
    dst::enableIf(dst::F_SHORTWRITE, 0.2, 0.02, 0.4);
    dst::enableIf(dst::F_WRITEERR, 0.15, 0.01, 0.15);
    dst::enableIf(dst::F_NOSPACE, 0.1, 0.01, 0.1);
    dst::enableIf(dst::F_CLOSEERR, 0.2, 0.02, 0.4);
    dst::enableIf(dst::F_SYNCERR, 0.15, 0.02, 0.3);
    dst::enableIf(dst::F_OPENERR, 0.2, 0.02, 0.3);
    dst::enableIf(dst::F_EINTR, 0.2, 0.02, 0.3);
    size_t cap = gen(0, 3), npaths = gen(1, 4), nthreads = gen(1, 5), rounds = gen(1, 3);
    std::vector<PathState> paths(npaths);
    for (size_t i = 0; i < npaths; ++i) {
        paths[i].path = dst::scratch() + "/f" + std::to_string(i);
        if (gen(0, 1)) { paths[i].expect = pattern(900 + i, 0, gen(0, 50)); dst::writeFileRaw(paths[i].path, paths[i].expect); }
    }
    size_t largest = cap;     // largest capacity that was ever allowed
    std::atomic<bool> error{false}, over{false};   // over: lowering the limit failed part of the way
    uint64_t lends = 0, contended = 0, serial = 0;
    {
        eckit::FilePool pool(cap);
        auto checkIdle = [&](const char* when) {
            size_t n = pool.size(), c = pool.capacity();
            DST_CHECK(over || n <= c || n <= largest, "too-many-idle", "%s: %zu idle files kept open, limit %zu", when, n, c);
        };
        auto use = [&](size_t i, auto&& self, int depth) -> void {
            PathState& p = paths[i];
            eckit::DataHandle* h = nullptr;
            if (p.users) contended++;
            try { h = pool.checkout(p.path); }
            catch (eckit::Exception& e) { DST_CHECK(dst::anyIoFault(), "spurious-error", "checkout failed without any fault: %s", e.what()); error = true; return; }
            {
                dst::Quiet q;
                lends++; p.lends++; dst::note("thread %d has %s", dst::self(), p.path.c_str());
                DST_CHECK(++p.users == 1, "two-users", "%s lent to %d users at once", p.path.c_str(), p.users);
                for (auto& o : paths) DST_CHECK(o.held != h, "same-handle", "one handle lent to two users");
                p.held = h;
                DST_CHECK(pool.usage() >= 1, "usage", "a file is lent and the usage is 0");
            }
            for (uint64_t k = gen(0, 3); k > 0; --k) {
                uint64_t n = gen(0, 40);
                std::string s = pattern(++serial, 0, n);
                bool ok = true;
                try { ok = h->write(s.data(), long(n)) == long(n); } catch (eckit::Exception&) { ok = false; }
                dst::Quiet q;
                p.expect += s;
                if (!ok) { DST_CHECK(dst::anyIoFault(), "spurious-error", "write of %lu bytes failed without any fault", (unsigned long)n); p.damaged = true; }
            }
            if (depth > 0 && i + 1 < paths.size() && gen(0, 1)) self(gen(i + 1, paths.size() - 1), self, depth - 1);
            for (uint64_t k = gen(0, 2); k > 0; --k) dst::yield();
            bool flushed = false;
            if (gen(0, 3) == 0) { try { h->flush(); flushed = !p.damaged; } catch (eckit::Exception&) { p.damaged = true; DST_CHECK(dst::anyIoFault(), "spurious-error", "flush failed without any fault"); } }
            if (flushed) {
                dst::Quiet q;
                std::string s = dst::readFileRaw(p.path);
                if (!dst::fired(dst::F_CLOSEERR) && !dst::fired(dst::F_WRITEERR) && !dst::fired(dst::F_NOSPACE))
                    DST_CHECK(s == p.expect, "flushed-content", "after flush %s holds %zu bytes, %zu were written, first difference at %zu", p.path.c_str(), s.size(), p.expect.size(), firstDiff(s, p.expect));
            }
            { dst::Quiet q; p.held = nullptr; p.users--; dst::note("thread %d gives back %s", dst::self(), p.path.c_str()); }
            try { pool.checkin(h); }
            catch (eckit::Exception& e) { DST_CHECK(dst::anyIoFault(), "spurious-error", "checkin failed without any fault: %s", e.what()); error = true; dst::note("error: %s", e.what()); }
            checkIdle("after checkin");
        };
        for (size_t r = 0; r < rounds; ++r) {
            {
                Threads th;
                size_t users = 0;
                for (size_t t = 0; t < nthreads; ++t)
                    th.go([&, t] {
                        { dst::Quiet q; users++; }
                        for (uint64_t ops = gen(1, 4); ops > 0; --ops) {
                            uint64_t what = gen(0, 11);
                            size_t i = gen(0, paths.size() - 1);
                            if (what < 9) use(i, use, 1);
                            else if (what == 9) {
                                try { pool.remove(paths[i].path); }
                                catch (eckit::Exception& e) { DST_CHECK(dst::anyIoFault(), "spurious-error", "remove failed without any fault: %s", e.what()); error = true; dst::note("error: %s", e.what()); }
                            }
                            else if (what == 10) {
                                size_t c = gen(0, 3);
                                { dst::Quiet q; largest = std::max(largest, c); }
                                try { pool.capacity(c); }
                                catch (eckit::Exception& e) { DST_CHECK(dst::anyIoFault(), "spurious-error", "capacity() failed without any fault: %s", e.what()); error = over = true; dst::note("error: %s", e.what()); }
                            }
                            else { std::ostringstream os; os << pool; (void)pool.usage(); }
                        }
                    });
                th.join();
            }
            DST_CHECK(pool.usage() == 0, "usage", "%zu files still marked as lent although all were given back", pool.usage());
            DST_CHECK(over || pool.size() <= pool.capacity(), "too-many-idle", "%zu idle files kept open, limit %zu", pool.size(), pool.capacity());
            DST_CHECK(size_t(dst::openFds()) <= pool.size(), "open-files", "%d files are open although the pool keeps %zu", dst::openFds(), pool.size());
            if (gen(0, 2) == 0) {     // a file is removed behind the pool's back while it is idle: the next user gets a new one
                size_t i = gen(0, paths.size() - 1);
                if (dst::existsRaw(paths[i].path)) { unlink(paths[i].path.c_str()); if (!dst::existsRaw(paths[i].path)) { paths[i].expect.clear(); paths[i].damaged = dst::anyIoFault(); } }
            }
            if (gen(0, 2) == 0) {
                bool ok = true;
                try { pool.capacity(0); } catch (eckit::Exception& e) { DST_CHECK(dst::anyIoFault(), "spurious-error", "capacity(0) failed without any fault: %s", e.what()); ok = false; error = over = true; dst::note("error: %s", e.what()); }
                if (ok) DST_CHECK(pool.size() == 0, "too-many-idle", "%zu idle files kept open, limit 0", pool.size());
                try { pool.capacity(cap); } catch (eckit::Exception&) { error = over = true; }
            }
        }
    }
    DST_CHECK(dst::openFds() == 0, "open-files", "%d files are open after the pool is gone", dst::openFds());
    for (auto& p : paths) {
        if (p.damaged || error || dst::fired(dst::F_WRITEERR) || dst::fired(dst::F_NOSPACE) || dst::fired(dst::F_CLOSEERR)) continue;
        std::string s = dst::readFileRaw(p.path);
        DST_CHECK(s == p.expect, "content", "%s holds %zu bytes, %zu were written, first difference at %zu", p.path.c_str(), s.size(), p.expect.size(), firstDiff(s, p.expect));
    }
    if (lends > 2) dst::nontrivial();
    uint64_t st = dst::hashMix(cap, npaths * 16 + nthreads);
    for (auto& p : paths) st = dst::hashMix(st, p.lends);
    dst::cover(dst::hashMix(st, contended * 2 + error));
}
}  // namespace
const dst::ScenarioDef dst::scenario = {"I08", init, run};
