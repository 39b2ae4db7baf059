// I04: copying and comparing handles.
#include "handles.h"
#include "eckit/io/FileHandle.h"
using namespace scen;
using dst::gen;
namespace {
struct Dest : SimHandle {
    using SimHandle::SimHandle;
    uint64_t asked = 0; int restarted = 0;
    void onRestart() override { asked = dst::gen(0, pos); throw eckit::RestartTransfer(int64_t(asked)); }
    void restartWriteFrom(const eckit::Offset& o) override { DST_CHECK(uint64_t((long long)(o)) == asked, "restart", "destination restarted from %lld instead of %lu", (long long)(o), (unsigned long)asked); pos = asked; st->bytes.resize(std::min<size_t>(st->bytes.size(), pos)); restarted++; }
};
struct Watch : eckit::TransferWatcher {
    long long bytes = 0; int from = 0, to = 0; bool restarted = false;
    void watch(const void* b, long n) override { if (b) bytes += n; }
    void fromHandleOpened() override { from++; }
    void toHandleOpened() override { to++; }
    void restartFrom(const eckit::Offset&) override { restarted = true; }
};
void faults(bool fileSrc) {
    dst::enableIf(dst::F_READERR, 0.2, 0.02, 0.2);
    dst::enableIf(dst::F_WRITEERR, 0.2, 0.02, 0.2);
    dst::enableIf(dst::F_SHORTWRITE, 0.2, 0.02, 0.2);
    dst::enableIf(dst::F_SHORTREAD, 0.6, 0.1, 0.8);
    dst::enableIf(dst::F_CLOSEERR, 0.15, 0.1, 0.6);
    dst::enableIf(dst::F_OPENERR, 0.05, 0.1, 0.3);
    if (!fileSrc) dst::enableIf(dst::F_RESTART, 0.3, 0.05, 0.4);
    dst::enableIf(dst::F_NOSPACE, 0.1, 0.02, 0.2);
    dst::enableIf(dst::F_EINTR, 0.2, 0.02, 0.2);
}
void copy(bool nested) {
    uint64_t n = gen(0, 7) ? gen(0, 1200) : gen(0, 3);
    bool fileSrc = gen(0, 3) == 0, fileDst = gen(0, 3) == 0;
    std::string ref = pattern(2, 0, n), srcPath = dst::scratch() + "/src", dstPath = dst::scratch() + "/dst";
    if (fileSrc) dst::writeFileRaw(srcPath, ref);
    bool over = false;   // overwriting wants a preallocated file of the announced length
    if (fileDst && gen(0, 1)) { over = gen(0, 1); dst::writeFileRaw(dstPath, over ? std::string(n, '#') : "something older, and rather long, that must go away"); }
    auto src = newStore(ref), dst_ = newStore("old");
    std::unique_ptr<eckit::DataHandle> in, out;
    SimHandle* sin = nullptr; Dest* sout = nullptr;
    if (fileSrc) in.reset(new eckit::FileHandle(srcPath)); else in.reset(sin = new SimHandle(src));
    if (fileDst) out.reset(new eckit::FileHandle(dstPath, over)); else out.reset(sout = new Dest(dst_));
    int64_t ann = int64_t(n);
    if (sin && !over) {
        int kind = int(gen(0, 8));
        if (kind == 0) ann = 0;
        if (kind == 1) ann = int64_t(n + 1 + gen(0, 5));
        if (kind == 2 && n > 1) ann = int64_t(gen(1, n - 1));
        sin->announce = ann;
    }
    int op = over ? 0 : int(gen(0, 2));
    if (sout && op != 1) sout->restarts = int(gen(0, 3));
    bool toPath = fileDst && op == 2;
    int64_t maxsize = -1, bufsize = long(gen(1, 200));
    if (op == 1 && gen(0, 2) == 0) maxsize = int64_t(gen(1, n + 10));
    dst::note("%s of %lu bytes (announced %ld, limit %ld) from %s into %s, %s", op == 1 ? "copyTo" : "saveInto", (unsigned long)n, (long)ann, (long)maxsize, fileSrc ? "file" : "handle", fileDst ? "file" : "handle", nested ? "while handling an exception" : "plain");
    faults(fileSrc);
    Watch w;
    bool threw = false; long long got = -1;
    try {
        if (op == 1) got = (long long)(in->copyTo(*out, bufsize, maxsize, w));
        else if (toPath) got = (long long)(in->saveInto(eckit::PathName(dstPath), w));
        else got = (long long)(in->saveInto(*out, w));
    }
    catch (eckit::Exception&) { threw = true; }
    catch (eckit::RestartTransfer&) { dst::fail("restart", "restart request escaped"); }
    bool faulted = dst::anyIoFault();
    int64_t wanted = int64_t(n);
    bool wrong = ann != 0 && ann != int64_t(n);
    if (op == 1 && ann != 0) {   // copyTo copies the announced length at most, or less if limited
        wanted = std::min(int64_t(n), ann);
        if (maxsize >= 0) wanted = std::min(wanted, maxsize);
        int64_t toRead = maxsize >= 0 ? std::min(ann, maxsize) : ann;
        wrong = toRead > int64_t(n);
    }
    if (!threw) {
        std::string now = fileDst ? dst::readFileRaw(dstPath) : dst_->bytes;
        DST_CHECK(!wrong, "length", "copied %lld bytes without error although %ld were announced and the source has %lu", got, (long)ann, (unsigned long)n);
        DST_CHECK(now == ref.substr(0, size_t(wanted)), "content", "success, but the destination has %zu bytes instead of %ld, first difference at %zu", now.size(), (long)wanted, firstDiff(now, ref));
        DST_CHECK(got == wanted, "count", "copied %ld bytes, reported %lld", (long)wanted, got);
        DST_CHECK(!src->readFailed && !dst_->anyWriteFault() && !src->closeFailed && !src->openFailed, "unreported", "success although a handle failed (read %d write %d short %d close %d)", src->readFailed, dst_->writeFailed, dst_->shortWrite, dst_->closeFailed);
        if (!w.restarted) DST_CHECK(w.bytes == got, "watcher", "watcher saw %lld of %lld bytes", w.bytes, got);
        DST_CHECK(w.from == 1 && w.to == 1, "watcher", "watcher saw %d and %d openings", w.from, w.to);
    }
    else DST_CHECK(faulted || wrong, "phantom-error", "error although nothing failed");
    DST_CHECK(src->opens == src->closes && (dst_->opens == dst_->closes), "left-open", "handles left open (source %d/%d, destination %d/%d)", src->opens, src->closes, dst_->opens, dst_->closes);
    dst::cover(dst::hashMix(dst::hashMix(uint64_t(op * 8 + fileSrc * 4 + fileDst * 2 + threw), uint64_t(src->reads)), uint64_t(dst_->writes)));
    if (n > 64) dst::nontrivial();
}
void compare(bool) {
    uint64_t n = gen(0, 5) ? gen(1, 600) : gen(0, 3);
    std::string a = pattern(4, 0, n), b = a;
    int kind = int(gen(0, 4));
    if (kind == 1 && n) b[gen(0, n - 1)] ^= char(1 << gen(0, 7));
    if (kind == 2) b += pattern(4, n, 1 + gen(0, 3));
    if (kind == 3 && n) b.resize(gen(0, n - 1));
    bool fa = gen(0, 3) == 0, fb = gen(0, 3) == 0;
    auto sa = newStore(a), sb = newStore(b);
    std::string pa = dst::scratch() + "/a", pb = dst::scratch() + "/b";
    if (fa) dst::writeFileRaw(pa, a);
    if (fb) dst::writeFileRaw(pb, b);
    SimHandle *ha = nullptr, *hb = nullptr;
    std::unique_ptr<eckit::DataHandle> x(fa ? static_cast<eckit::DataHandle*>(new eckit::FileHandle(pa)) : (ha = new SimHandle(sa)));
    std::unique_ptr<eckit::DataHandle> y(fb ? static_cast<eckit::DataHandle*>(new eckit::FileHandle(pb)) : (hb = new SimHandle(sb)));
    if (ha && hb && gen(0, 1)) { ha->announce = hb->announce = 0; }   // lengths not known beforehand
    dst::note("compare %zu and %zu bytes, kind %d", a.size(), b.size(), kind);
    dst::enableIf(dst::F_READERR, 0.3, 0.02, 0.3);
    dst::enableIf(dst::F_SHORTREAD, 0.6, 0.1, 0.8);
    dst::enableIf(dst::F_OPENERR, 0.05, 0.1, 0.3);
    bool threw = false, eq = false;
    try { eq = x->compare(*y); } catch (eckit::Exception&) { threw = true; }
    if (threw) DST_CHECK(dst::anyIoFault(), "phantom-error", "compare raised an error although nothing failed");
    else if (eq) DST_CHECK(a == b, "compare", "different contents compare equal");
    else DST_CHECK(a != b || dst::fired(dst::F_READERR), "compare", "equal contents compare different");
    if (!threw && eq && (sa->readFailed || sb->readFailed)) dst::fail("compare", "equal although reading failed");
    dst::cover(dst::hashMix(uint64_t(kind * 8 + eq * 4 + threw * 2), uint64_t(sa->reads * 100 + sb->reads)));
    if (n > 64) dst::nontrivial();
}
void run() {
    bool nested = gen(0, 4) == 0;
    auto body = gen(0, 3) == 0 ? compare : copy;
    if (nested) { try { throw eckit::SeriousBug("being handled"); } catch (eckit::Exception&) { body(true); } }
    else body(false);
}
void init() {
    setenv("ECKIT_DATAHANDLE_SAVEINTO_BUFFER_SIZE", "100", 1);
    setenv("ECKIT_DATAHANDLE_COPYTO_BUFFER_SIZE", "100", 1);
    initMain();
}
}  // namespace
const dst::ScenarioDef dst::scenario = {"I04", init, run};
