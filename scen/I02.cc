// I02: kernel asynchronous I/O handle.
#include "common.h"
#include "poison.h"
#include "eckit/io/AIOHandle.h"
using namespace scen;
using dst::gen;
DST_POISON
namespace {
void run() {
    poisonOn = true;
    dst::enableIf(dst::F_AIO, 0.3, 0.01, 0.15);
    dst::enableIf(dst::F_WRITEERR, 0.1, 0.01, 0.1);
    dst::enableIf(dst::F_SHORTWRITE, 0.1, 0.01, 0.2);
    dst::enableIf(dst::F_NOSPACE, 0.1, 0.01, 0.1);
    dst::enableIf(dst::F_SYNCERR, 0.1, 0.1, 0.5);
    dst::enableIf(dst::F_CLOSEERR, 0.1, 0.1, 0.5);
    dst::enableIf(dst::F_EINTR, 0.4, 0.05, 0.4);
    dst::enableIf(dst::F_OPENERR, 0.05, 0.1, 0.3);
    std::string path = dst::scratch() + "/data";
    std::string expect;
    bool exists = gen(0, 1);
    if (exists) { expect = pattern(3, 0, gen(0, 200)); dst::writeFileRaw(path, expect); }
    size_t count = gen(1, 4);
    bool sync = gen(0, 1);
    int cycles = int(gen(1, 3));
    bool useFlush = gen(0, 2) == 0;
    dst::note("%zu requests in flight, sync %d, %d cycles, file exists %d", count, sync, cycles, exists);
    uint64_t state = 0;
    int total = 0;
    {
        eckit::AIOHandle h(path, count, 4096, sync);
        for (int c = 0; c < cycles; ++c) {
            bool append = gen(0, 1), threw = false;
            std::string bit;
            try {
                if (append) h.openForAppend(0); else { h.openForWrite(0); expect.clear(); }
                DST_CHECK((long long)(h.position()) == (long long)(expect.size()), "position", "position %lld after opening for %s a file of %zu bytes", (long long)(h.position()), append ? "append" : "writing", expect.size());
                for (int i = int(gen(0, 9)); i > 0; --i) {
                    if (useFlush && gen(0, 4) == 0) {
                        h.flush();
                        bool ok; std::string now = dst::readFileRaw(path, &ok);
                        DST_CHECK(ok && now == expect, "flush", "after flush the file has %zu bytes, %zu were written, first difference at %zu", now.size(), expect.size(), firstDiff(now, expect));
                        continue;
                    }
                    uint64_t n = sizeNear(4096, 9000);
                    std::string s = pattern(uint64_t(c) + 9, expect.size(), n);
                    std::string copy = s;
                    long r = h.write(s.data(), long(n));
                    std::fill(s.begin(), s.end(), '?');
                    DST_CHECK(r == long(n), "accepted", "write of %lu bytes returned %ld", (unsigned long)n, r);
                    expect += copy;
                    total++;
                    DST_CHECK((long long)(h.position()) == (long long)(expect.size()), "position", "position %lld after %zu bytes", (long long)(h.position()), expect.size());
                    for (uint64_t k = gen(0, 2); k > 0; --k) dst::sleepNs(gen(0, 300) * 1000);
                }
                int syncs = dst::firings(dst::F_SYNCERR);
                h.close();
                DST_CHECK(!sync || dst::firings(dst::F_SYNCERR) == syncs, "sync", "close returned normally although the synchronisation failed");
            }
            catch (eckit::Exception&) { threw = true; }
            if (threw) { DST_CHECK(dst::anyIoFault(), "phantom-error", "an error although no request failed"); state = dst::hashMix(state, 77); break; }
            bool ok; std::string now = dst::readFileRaw(path, &ok);
            DST_CHECK(ok && now == expect, "content", "after close the file has %zu bytes, %zu were written, first difference at %zu", now.size(), expect.size(), firstDiff(now, expect));
            state = dst::hashMix(state, uint64_t(total) * 2 + append);
        }
    }
    dst::cover(dst::hashMix(state, count));
    if (total > 1) dst::nontrivial();
}
}  // namespace
const dst::ScenarioDef dst::scenario = {"I02", initMain, run};
