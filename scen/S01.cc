// S01: lock files and named semaphores admit one process, and are released when their holder dies.
#include <fcntl.h>
#include <sys/sem.h>
#include <sys/ipc.h>
#include <unistd.h>
#include "common.h"
#include "eckit/filesystem/PathName.h"
#include "eckit/io/FileLock.h"
#include "eckit/io/FileLocker.h"
#include "eckit/os/Semaphore.h"
#include "eckit/os/SemLocker.h"
#include "eckit/thread/AutoLock.h"
using namespace scen;
using dst::gen;
namespace {
enum { FILELOCK, FILELOCK_UNLINK, RANGE, SEM, SEMLOCKER, KINDS };
const char* NAME[] = {"lock file", "lock file that is removed", "locked range", "semaphore", "semaphore locker"};
struct Sh {
    int holder;               // process + 1 of the exclusive holder
    int readers, readersOf[16];
    int nest, acquired, errors, done;
    long counter, expect;     // counter: only touched under the lock, never torn
};
void enter(Sh* s, int kind, bool shared) {
    dst::Quiet q;
    int me = dst::process();
    DST_CHECK(s->holder == 0 || (s->holder != me + 1 && !dst::procAlive(s->holder - 1)), "two-holders", "%s: process %d got it while process %d holds it", NAME[kind], me, s->holder - 1);
    if (!shared) for (int p = 0; p < 16; ++p) DST_CHECK(!s->readersOf[p] || p == me || !dst::procAlive(p), "two-holders", "%s: process %d got it exclusively while process %d shares it", NAME[kind], me, p);
    if (shared) { s->holder = 0; s->readersOf[me]++; }
    else s->holder = me + 1;
    s->acquired++;
}
void leave(Sh* s, int kind, bool shared) {
    dst::Quiet q;
    int me = dst::process();
    if (shared) { s->readersOf[me]--; return; }
    DST_CHECK(s->holder == me + 1, "two-holders", "%s: process %d was joined by process %d", NAME[kind], me, s->holder - 1);
    s->holder = 0;
}
void critical(Sh* s, int kind, bool shared = false) {
    enter(s, kind, shared);
    for (uint64_t n = gen(0, 3); n > 0; --n) dst::yield();
    if (gen(0, 6) == 0) dst::sleepNs(gen(1, 2000000));
    leave(s, kind, shared);
}
void worker(Sh* s, int kind, const std::string& path, uint64_t loops, int nthreads) {
    auto failed = [&](std::exception& e) { dst::Quiet q; s->errors++; DST_CHECK(dst::fired(dst::F_EINTR) || dst::fired(dst::F_OPENERR), "spurious-error", "%s: failed without any fault: %s", NAME[kind], e.what()); };
    switch (kind) {
        case FILELOCK: case FILELOCK_UNLINK: {
            std::unique_ptr<eckit::FileLock> l;
            for (uint64_t i = 0; i < loops; ++i) {
                try {
                    if (!l || gen(0, 1)) { l.reset(); l.reset(new eckit::FileLock(path, kind == FILELOCK_UNLINK && gen(0, 3))); }
                    if (gen(0, 3) == 0) { l->lock(); critical(s, kind); l->unlock(); }
                    else { eckit::AutoLock<eckit::FileLock> a(*l); critical(s, kind); }
                }
                catch (std::exception& e) { failed(e); }
                if (gen(0, 3) == 0) dst::yield();
            }
            break;
        }
        case RANGE: {
            int fd = ::open(path.c_str(), O_RDWR | O_CREAT, 0644);
            if (fd < 0) break;
            eckit::FileLocker l(fd);
            for (uint64_t i = 0; i < loops; ++i) {
                bool shared = gen(0, 1);
                try { if (shared) l.lockShared(8, 8); else l.lockExclusive(8, 8); }
                catch (std::exception& e) { failed(e); continue; }
                if (gen(0, 3) == 0) { try { l.lockShared(64 + 8 * dst::process(), 8); l.unlock(64 + 8 * dst::process(), 8); } catch (std::exception& e) { failed(e); } }
                critical(s, kind, shared);
                try { l.unlock(8, 8); } catch (std::exception& e) { failed(e); }
            }
            ::close(fd);
            break;
        }
        case SEM: {
            std::unique_ptr<eckit::Semaphore> sem;
            try { sem.reset(new eckit::Semaphore(path)); } catch (std::exception& e) { failed(e); return; }
            {
                Threads th;
                for (int t = 0; t < nthreads; ++t)
                    th.go([&] {
                        for (uint64_t i = 0; i < loops; ++i) {
                            if (gen(0, 2) == 0) { if (!sem->tryLock()) { dst::yield(); continue; } }
                            else sem->lock();
                            enter(s, kind, false);
                            if (gen(0, 1)) { sem->lock(); dst::yield(); sem->unlock(); }
                            if (gen(0, 3) == 0) { bool b = sem->tryLock(); DST_CHECK(b, "nesting", "the holder is refused its own semaphore"); sem->unlock(); }
                            if (gen(0, 3) == 0) DST_CHECK(sem->test(), "nesting", "a held semaphore is reported as free");
                            for (uint64_t n = gen(0, 3); n > 0; --n) dst::yield();
                            leave(s, kind, false);
                            sem->unlock();
                        }
                    });
                th.join();
            }
            break;
        }
        case SEMLOCKER: {
            key_t key = ftok(path.c_str(), 1);
            int id = semget(key, 1, 0666 | IPC_CREAT);
            for (uint64_t i = 0; i < loops; ++i) {
                try { eckit::SemLocker l(id, path, int(gen(1, 4))); critical(s, kind); }
                catch (std::exception& e) { failed(e); }
            }
            break;
        }
    }
}
void init() { initMain(); { eckit::PathName p("/tmp/x"); (void)p.exists(); (void)p.dirName(); } }
void run() {
    dst::enableIf(dst::F_CRASH, 0.4, 0.002, 0.08);
    dst::enableIf(dst::F_EINTR, 0.3, 0.02, 0.4);
    dst::enableIf(dst::F_OPENERR, 0.1, 0.02, 0.2);
    int kind = int(gen(0, KINDS - 1)), nprocs = int(gen(1, 4)), nthreads = kind == SEM ? int(gen(1, 2)) : 1;
    std::string path = dst::scratch() + (gen(0, 1) ? "/lock" : "/a/b/lock");
    if (kind == RANGE || kind == SEMLOCKER || gen(0, 2) == 0) { path = dst::scratch() + "/lock"; dst::writeFileRaw(path, ""); }
    Sh* s = dst::sharedNew<Sh>();
    int crashers = 0;
    for (int p = 0; p < nprocs; ++p) {
        uint64_t loops = gen(1, 4);
        bool c = gen(0, 1);
        crashers += c;
        dst::spawn([=] { dst::crashable(c); worker(s, kind, path, loops, nthreads); dst::crashable(false); }, "locker");
    }
    dst::joinAll();
    // whoever died, the next one gets it
    dst::disableAll();
    int before = s->acquired;
    int last = dst::spawn([=] { for (int i = 0; i < 3; ++i) worker(s, kind, path, 2, 1); }, "last");
    dst::join(last);
    DST_CHECK(s->acquired > before, "not-released", "%s: not available any more after its holders ended", NAME[kind]);
    if (nprocs * nthreads > 1 && s->acquired > 2) dst::nontrivial();
    dst::cover(dst::hashMix(uint64_t(kind) * 1000 + nprocs * 100 + nthreads * 10 + crashers, dst::hashMix(s->acquired, s->errors)));
}
}  // namespace
const dst::ScenarioDef dst::scenario = {"S01", init, run};
