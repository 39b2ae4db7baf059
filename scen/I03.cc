// I03: double-buffered copy.
#include "handles.h"
#include "poison.h"
#include "eckit/io/DblBuffer.h"
using namespace scen;
using dst::gen;
DST_POISON
namespace {
struct Dest : SimHandle {
    using SimHandle::SimHandle;
    std::vector<uint64_t> asked;
    int restartedTo = 0;
    bool confirm = true;
    void onRestart() override { uint64_t o = dst::gen(0, pos); { dst::Quiet q; asked.push_back(o); } dst::note("destination asks to restart from %lu", (unsigned long)o); throw eckit::RestartTransfer(int64_t(o)); }
    void restartWriteFrom(const eckit::Offset& o) override { dst::Quiet q; DST_CHECK(!asked.empty() && uint64_t((long long)(o)) == asked.back(), "restart", "restarted from %lld, asked for %lu", (long long)(o), asked.empty() ? 0ul : (unsigned long)asked.back()); pos = uint64_t((long long)(o)); st->bytes.resize(std::min<size_t>(st->bytes.size(), pos)); restartedTo++; }
};
struct Src : SimHandle {
    using SimHandle::SimHandle;
    Dest* d = nullptr;
    void restartReadFrom(const eckit::Offset& o) override { dst::Quiet q; DST_CHECK(!d->asked.empty() && uint64_t((long long)(o)) == d->asked.back(), "restart", "source restarted from %lld", (long long)(o)); pos = uint64_t((long long)(o)); }
};
void run() {
    poisonOn = true;
    dst::enableIf(dst::F_SPURIOUS, 0.3, 0.02, 0.3);
    dst::enableIf(dst::F_READERR, 0.15, 0.02, 0.2);
    dst::enableIf(dst::F_WRITEERR, 0.15, 0.02, 0.2);
    dst::enableIf(dst::F_SHORTWRITE, 0.12, 0.02, 0.2);
    dst::enableIf(dst::F_SHORTREAD, 0.5, 0.1, 0.7);
    dst::enableIf(dst::F_CLOSEERR, 0.08, 0.1, 0.6);
    dst::enableIf(dst::F_OPENERR, 0.05, 0.1, 0.3);
    dst::enableIf(dst::F_RESTART, 0.4, 0.05, 0.5);
    long count = long(gen(1, 4)), size = long(gen(1, 60));
    int copies = int(gen(1, 2));
    eckit::DblBuffer buf(count, size);
    uint64_t state = 0;
    for (int c = 0; c < copies; ++c) {
        uint64_t n = gen(0, 7) ? gen(0, 8 * uint64_t(size)) : gen(0, 3);
        auto src = newStore(pattern(uint64_t(c) + 1, 0, n)), dst_ = newStore("old content of the destination");
        auto* in = new Src(src); auto* out = new Dest(dst_);
        in->d = out;
        out->restarts = int(gen(0, 3));
        int kind = int(gen(0, 9));    // announced length
        if (kind == 0) in->announce = 0;
        if (kind == 1) in->announce = int64_t(n + 1 + gen(0, 5));
        if (kind == 2 && n > 1) in->announce = int64_t(gen(1, n - 1));
        int64_t ann = in->announce >= 0 ? in->announce : int64_t(n);
        dst::note("copy %d: %lu bytes, announced %ld, %ld buffers of %ld", c, (unsigned long)n, (long)ann, count, size);
        bool threw = false; long long got = -1;
        bool faultsBefore = src->readFailed;
        (void)faultsBefore;
        int before = dst::liveTasks();
        try { got = (long long)(buf.copy(*in, *out)); } catch (eckit::Exception&) { threw = true; } catch (eckit::RestartTransfer&) { dst::fail("restart", "the restart request reached the caller"); }
        { dst::Quiet q; DST_CHECK(dst_->inUse == 0 && src->inUse == 0, "still-running", "a handle is still in use after the copy ended"); }
        expectAllThreadsEnded("writer thread of a copy", before);
        bool wrong = ann != 0 && ann != int64_t(n);
        bool fault = src->readFailed || src->openFailed || src->closeFailed || dst_->anyWriteFault();
        if (!threw) {
            DST_CHECK(!wrong, "length", "copied %lld bytes without error although %lld were announced and the source has %lu", got, (long long)ann, (unsigned long)n);
            size_t d = firstDiff(dst_->bytes, src->bytes);
            DST_CHECK(dst_->bytes == src->bytes, "content", "copy without error, but the destination has %zu bytes, the source %zu, first difference at %zu", dst_->bytes.size(), src->bytes.size(), d);
            DST_CHECK(got == (long long)n, "count", "copy of %lu bytes reports %lld", (unsigned long)n, got);
            DST_CHECK(!dst_->closeFailed, "unreported", "a failed close of the destination is not reported");
            DST_CHECK(src->closes == src->opens && dst_->closes == dst_->opens, "closed", "handles left open");
        }
        else {
            DST_CHECK(fault || wrong || out->asked.size() > 5, "phantom-error", "copy raised an error although nothing failed");
            DST_CHECK(!src->isOpen && !dst_->isOpen, "closed", "handles left open after a failed copy");
        }
        state = dst::hashMix(state, uint64_t(threw) + 2 * uint64_t(out->asked.size()) + 16 * uint64_t(src->reads) + 4096 * uint64_t(dst_->writes));
        if (n > uint64_t(size)) dst::nontrivial();
        delete in; delete out;
    }
    dst::cover(dst::hashMix(state, uint64_t(count)));
}
}  // namespace
const dst::ScenarioDef dst::scenario = {"I03", initMain, run};
