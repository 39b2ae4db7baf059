// I07: what flush or close acknowledged survives a crash, and failing to store it is reported.
#include "handles.h"
#include "eckit/io/AutoCloser.h"
#include "eckit/io/BufferedHandle.h"
#include "eckit/io/FileHandle.h"
#include "eckit/io/StdFile.h"
#include "eckit/serialisation/FileStream.h"
using namespace scen;
using dst::gen;
namespace {
enum { K_HANDLE, K_BUFFERED, K_STREAM, K_STD, K_KINDS };
struct RefStream : eckit::Stream {
    std::string s;
    long write(const void* b, long n) override { s.append(static_cast<const char*>(b), size_t(n)); return n; }
    long read(void*, long) override { return 0; }
    std::string name() const override { return "reference"; }
};
struct Job {       // filled in by the parent, and by the worker process as it goes
    int kind, append, over;
    uint64_t tag, nops;
    uint64_t acked;        // bytes written before the last flush or close that returned
    bool exact;            // closed without error: nothing more, nothing less
    bool any;              // something was acknowledged
    bool errored, finished, faulted, cleanEnd;
    uint64_t attempted;
};
std::string item(uint64_t tag, uint64_t i) {   // the i-th thing written by job "tag"
    uint64_t h = dst::hashMix(tag, i), k = dst::hashMix(tag, i + 7);
    uint64_t n = h % 5 == 0 ? h % 3 : h % 11 == 1 ? k % 20000 : k % 90;   // sometimes more than the buffer of the file
    return pattern(tag, i * 1000, n);
}
void work(const std::string& path, Job* j, uint64_t len) {
    bool threw = false;
    uint64_t written = 0;
    auto errors = [] { return dst::fired(dst::F_WRITEERR) + dst::fired(dst::F_SYNCERR) + dst::fired(dst::F_CLOSEERR); };
    uint64_t before = errors();
    auto ack = [&] { dst::Quiet q; j->acked = written; j->any = true; };
    try {
        switch (j->kind) {
            case K_HANDLE: case K_BUFFERED: {
                eckit::FileHandle f(path, j->over);
                std::unique_ptr<eckit::BufferedHandle> b;
                eckit::DataHandle* d = &f;
                if (j->kind == K_BUFFERED) { b.reset(new eckit::BufferedHandle(f, 1 + j->tag % 60)); d = b.get(); }
                if (j->append) d->openForAppend(0); else d->openForWrite((long long)len);
                for (uint64_t i = 0; i < j->nops; ++i) {
                    std::string s = item(j->tag, i);
                    j->attempted += s.size();
                    long n = d->write(s.data(), long(s.size()));
                    if (n != long(s.size())) { threw = true; break; }
                    written += s.size();
                    if (dst::hashMix(j->tag, i) % 4 == 0) { d->flush(); ack(); }
                }
                d->close();
                if (!threw) { ack(); j->exact = true; }
                break;
            }
            case K_STREAM: {
                eckit::FileStream s(path, j->append ? "a" : "w");
                {
                    auto c = eckit::closer(s);
                    for (uint64_t i = 0; i < j->nops; ++i) { std::string x = item(j->tag, i); s << x; written += 1 + 4 + x.size(); j->attempted = written; }
                }
                ack(); j->exact = true;
                break;
            }
            case K_STD: {
                {
                    eckit::AutoStdFile f(path, j->append ? "a" : "w");
                    for (uint64_t i = 0; i < j->nops; ++i) {
                        std::string x = item(j->tag, i); j->attempted += x.size();
                        if (::fwrite(x.data(), 1, x.size(), f) != x.size()) { threw = true; break; }
                        written += x.size();
                    }
                }
                if (!threw) j->exact = true;   // in the file, though perhaps not yet on the medium
                j->acked = written;
                break;
            }
        }
    }
    catch (eckit::Exception& e) { threw = true; dst::note("error: %s", e.what()); }
    dst::Quiet q;
    DST_CHECK(threw || errors() == before, "unreported", "%s closed without an error although writing, synchronising or closing it failed", j->kind == K_STREAM ? "stream" : j->kind == K_STD ? "stdfile" : j->kind == K_HANDLE ? "handle" : "buffered handle");
    j->errored = threw; j->faulted = dst::anyIoFault(); j->finished = true;
}
std::string everything(const Job& j) {
    std::string r;
    if (j.kind == K_STREAM) { RefStream s; for (uint64_t i = 0; i < j.nops; ++i) s << item(j.tag, i); return s.s; }
    for (uint64_t i = 0; i < j.nops; ++i) r += item(j.tag, i);
    return r;
}
void init() { initMain(); { eckit::FileHandle h("/tmp/none"); eckit::PathName p("/tmp/x"); (void)p.exists(); (void)p.dirName(); } }
void run() {
    dst::trackDurability();
    dst::enableIf(dst::F_CRASH, 0.5, 0.005, 0.1);
    dst::enableIf(dst::F_SHORTWRITE, 0.3, 0.02, 0.4);
    dst::enableIf(dst::F_WRITEERR, 0.25, 0.01, 0.2);
    dst::enableIf(dst::F_NOSPACE, 0.25, 0.01, 0.3);
    dst::enableIf(dst::F_SYNCERR, 0.25, 0.05, 0.5);
    dst::enableIf(dst::F_CLOSEERR, 0.15, 0.05, 0.5);
    dst::enableIf(dst::F_OPENERR, 0.05, 0.05, 0.3);
    dst::enableIf(dst::F_EINTR, 0.3, 0.02, 0.4);
    dst::enable(dst::F_POWER, 0.5);
    Job* job = dst::sharedNew<Job>();
    int files = 0;
    std::string path, base;     // base: what the file holds, for good
    bool present = false, done = false;
    uint64_t shape = 0;
    for (uint64_t round = gen(1, 3); round > 0 && !done; --round) {
        if (path.empty()) {
            path = dst::scratch() + "/f" + std::to_string(files++);
            base.clear(); present = false;
            if (gen(0, 1)) { base = pattern(77, 0, gen(0, 200)); dst::writeFileRaw(path, base); present = true; }
        }
        Job j{};
        j.kind = int(gen(0, K_KINDS - 1)); j.tag = gen(1, 1000000); j.nops = gen(0, 8);
        j.append = gen(0, 1);
        if (j.kind == K_BUFFERED) j.append = 0;
        std::string all = everything(j);
        j.over = (j.kind == K_HANDLE || j.kind == K_BUFFERED) && !j.append && gen(0, 3) == 0;
        if (j.over && present) { base = pattern(78, 0, all.size()); dst::writeFileRaw(path, base); }
        *job = j;
        bool crashes = gen(0, 1);
        dst::note("%s %s of %lu items, %zu bytes, file %s", j.append ? "append" : j.over ? "overwrite" : "write", j.kind == K_STREAM ? "stream" : j.kind == K_STD ? "stdfile" : j.kind == K_HANDLE ? "handle" : "buffered handle", (unsigned long)j.nops, all.size(), present ? "present" : "absent");
        int p = dst::spawn([&] { dst::crashable(crashes); work(path, job, all.size()); dst::crashable(false); }, "writer");
        dst::join(p);
        Job r = *job;
        if (r.finished && r.errored) DST_CHECK(r.faulted, "spurious-error", "error without any fault");
        bool power = r.kind != K_STD && dst::fire(dst::F_POWER);
        if (power) dst::powerFail();
        bool there = dst::existsRaw(path);
        std::string now = there ? dst::readFileRaw(path) : "";
        const char* when = power ? "after a power failure" : r.finished ? "" : "after a crash";
        if (r.append && present) DST_CHECK(now.compare(0, base.size(), base) == 0 && now.size() >= base.size(), "append-damage", "%s: appending damaged the %zu bytes that were there, now %zu, first difference at %zu", when, base.size(), now.size(), firstDiff(now, base));
        std::string keep = r.append ? base : "";
        if (r.any || r.exact) {
            DST_CHECK(there, "lost-file", "%s: the file is gone although %lu bytes were acknowledged", when, (unsigned long)r.acked);
            std::string want = keep + all.substr(0, r.acked);
            DST_CHECK(now.compare(0, want.size(), want) == 0 && now.size() >= want.size(), "lost-bytes", "%s: %lu bytes acknowledged, file has %zu, first difference at %zu", when, (unsigned long)r.acked, now.size(), firstDiff(now, want));
            if (r.exact) DST_CHECK(now == want, "extra-bytes", "%s: closed after %zu bytes, the file has %zu", when, want.size(), now.size());
        }
        if (r.acked > 40) dst::nontrivial();
        shape = dst::hashMix(shape, uint64_t(r.kind) * 64 + uint64_t(r.append * 32 + r.over * 16 + r.exact * 8 + r.errored * 4 + power * 2 + r.finished));
        if (power || (r.exact && r.kind != K_STD)) { base = now; present = there; if (!gen(0, 2)) path.clear(); }
        else path.clear();
    }
    dst::cover(shape);
}
}  // namespace
const dst::ScenarioDef dst::scenario = {"I07", init, run};
