// I01: asynchronous write handle.
#include "handles.h"
#include "poison.h"
#include "eckit/io/AsyncHandle.h"
using namespace scen;
using dst::gen;
DST_POISON
namespace {
void run() {
    poisonOn = true;
    dst::enableIf(dst::F_SPURIOUS, 0.3, 0.02, 0.3);
    dst::enableIf(dst::F_WRITEERR, 0.15, 0.02, 0.3);
    dst::enableIf(dst::F_SHORTWRITE, 0.15, 0.02, 0.3);
    dst::enableIf(dst::F_SYNCERR, 0.08, 0.1, 0.6);
    dst::enableIf(dst::F_CLOSEERR, 0.08, 0.1, 0.6);
    auto st = newStore();
    size_t rounding = size_t(1) << gen(0, 6), maxSize = gen(1, 300);
    bool owned = gen(0, 1);
    int cycles = int(gen(1, 3));
    dst::note("buffer limit %zu, rounding %zu, %d cycles", maxSize, rounding, cycles);
    auto* base = new SimHandle(st);
    std::unique_ptr<eckit::AsyncHandle> h(owned ? new eckit::AsyncHandle(static_cast<eckit::DataHandle*>(base), maxSize, rounding) : new eckit::AsyncHandle(*base, maxSize, rounding));
    uint64_t state = 0;
    std::string expect;
    bool dead = false;
    int total = 0;
    auto prefixOk = [&](const char* when, bool all) {
        dst::Quiet q;
        if (st->writeFailed || st->shortWrite) return;
        size_t d = firstDiff(st->bytes, expect);
        DST_CHECK(d == st->bytes.size(), "content", "%s: byte %zu of the underlying data differs from what was written", when, d);
        if (all) DST_CHECK(st->bytes.size() == expect.size(), "missing", "%s returned with %zu of %zu bytes underneath", when, st->bytes.size(), expect.size());
    };
    for (int c = 0; c < cycles && !dead; ++c) {
        bool append = gen(0, 1);
        if (append) h->openForAppend(0); else { h->openForWrite(0); expect.clear(); }
        int ops = int(gen(0, 8));
        bool threw = false;
        const char* at = "";
        bool closed = false;
        try {
            for (int i = 0; i < ops; ++i) {
                if (gen(0, 5) == 0) { at = "flush"; h->flush(); prefixOk("flush", true); DST_CHECK(!st->anyWriteFault(), "unreported", "flush returned although the underlying handle failed"); }
                else {
                    long n = long(sizeNear(maxSize, 400));
                    std::string s = pattern(7, expect.size(), uint64_t(n));
                    at = "write";
                    long r = h->write(s.data(), n);
                    std::fill(s.begin(), s.end(), '?');   // the caller may reuse its buffer
                    DST_CHECK(r == n, "accepted", "write of %ld bytes returned %ld", n, r);
                    expect += pattern(7, expect.size(), uint64_t(n));
                    prefixOk("write", false);
                    total++;
                }
            }
            if (c + 1 < cycles || gen(0, 3)) { at = "close"; h->close(); closed = true; }
        }
        catch (eckit::Exception&) { threw = true; }
        if (threw) {
            DST_CHECK(st->anyWriteFault(), "phantom-error", "%s raised an error although the underlying handle never failed", at);
            dead = true;
            if (gen(0, 1)) { bool again = false; try { h->close(); } catch (eckit::Exception&) { again = true; } if (st->writeFailed || st->shortWrite) DST_CHECK(again, "forgotten", "after a failed write, close reports success"); }
        }
        else if (closed) {
            DST_CHECK(!st->anyWriteFault(), "unreported", "close returned normally although the underlying handle failed (write %d short %d flush %d close %d)", st->writeFailed, st->shortWrite, st->flushFailed, st->closeFailed);
            prefixOk("close", true);
            DST_CHECK(st->closes == st->opens, "closed", "underlying handle opened %d times, closed %d times", st->opens, st->closes);
        }
        else dead = true;   // destroyed without closing
        state = dst::hashMix(state, uint64_t(ops) * 8 + uint64_t(threw) * 2 + uint64_t(closed));
    }
    h.reset();
    prefixOk("destruction", false);
    if (!owned) delete base;
    DST_CHECK(st->live == 0, "leak", "underlying handle not destroyed");
    expectAllThreadsEnded("writer thread");
    dst::cover(state);
    if (total > 1) dst::nontrivial();
}
}  // namespace
const dst::ScenarioDef dst::scenario = {"I01", initMain, run};
