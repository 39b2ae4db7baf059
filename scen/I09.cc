// I09: readers sharing pooled files, descriptors and handles see the file's bytes at their own positions.
#include <unistd.h>
#include "common.h"
#include "poison.h"
#include "eckit/filesystem/PathName.h"
#include "eckit/io/PooledFile.h"
#include "eckit/io/PooledFileDescriptor.h"
#include "eckit/io/PooledHandle.h"
#include "eckit/io/FileHandle.h"
DST_POISON
using namespace scen;
using dst::gen;
namespace {
struct Reader {
    int kind = 0;
    size_t file = 0;
    bool open = false;
    uint64_t pos = 0;
    std::unique_ptr<eckit::PooledFile> f;
    std::unique_ptr<eckit::PooledFileDescriptor> d;
    std::unique_ptr<eckit::PooledHandle> h;
};
struct Content { std::string path, bytes; };
const char* KIND[] = {"file", "descriptor", "handle"};
bool isError(std::exception& e) { DST_CHECK(dst::anyIoFault(), "spurious-error", "failed without any fault: %s", e.what()); return true; }
void makeReader(Reader& r, const std::vector<Content>& files) {
    r.open = false; r.pos = 0;
    const std::string& p = files[r.file].path;
    if (r.kind == 0) r.f.reset(new eckit::PooledFile(p));
    else if (r.kind == 1) r.d.reset(new eckit::PooledFileDescriptor(p, true));
    else r.h.reset(new eckit::PooledHandle(p));
}
void dropReader(Reader& r) {
    if (r.open) { if (r.f) r.f->close(); if (r.d) r.d->close(); if (r.h) r.h->close(); }
    r.open = false;
    r.f.reset(); r.d.reset(); r.h.reset();
}
void step(Reader& r, const std::vector<Content>& files, uint64_t& shape) {
    const std::string& want = files[r.file].bytes;
    if (!r.f && !r.d && !r.h) makeReader(r, files);
    if (!r.open) {
        try {
            if (r.f) r.f->open();
            if (r.d) r.d->open();
            if (r.h) { auto n = r.h->openForRead(); DST_CHECK((long long)n == (long long)want.size(), "length", "pooled handle announces %lld bytes of %zu", (long long)n, want.size()); }
            r.open = true; r.pos = 0;
        }
        catch (std::exception& e) { isError(e); if (r.kind == 1) { r.d.reset(); } }
        return;
    }
    uint64_t op = gen(0, 9);
    shape = dst::hashMix(shape, op * 8 + uint64_t(r.kind));
    try {
        if (op <= 4) {
            uint64_t n = sizeNear(16, 60);
            std::string b(n + 1, '?');
            long k = r.f ? r.f->read(&b[0], long(n)) : r.d ? long(r.d->read(&b[0], n)) : r.h->read(&b[0], long(n));
            uint64_t avail = r.pos < want.size() ? want.size() - r.pos : 0;
            DST_CHECK(uint64_t(k) == std::min(n, avail), "count", "pooled %s: read of %lu at %lu returned %ld, %lu bytes remain", KIND[r.kind], (unsigned long)n, (unsigned long)r.pos, k, (unsigned long)avail);
            DST_CHECK(b.substr(0, k) == want.substr(std::min<uint64_t>(r.pos, want.size()), k), "bytes", "pooled %s: read of %lu at %lu of file %zu returned wrong bytes, first wrong at %zu", KIND[r.kind], (unsigned long)n, (unsigned long)r.pos, r.file, firstDiff(b.substr(0, k), want.substr(r.pos, k)));
            r.pos += uint64_t(k);
        }
        else if (op <= 6) {
            uint64_t to = gen(0, want.size() + 3);
            long long k = r.f ? (long long)r.f->seek(off_t(to)) : r.d ? (long long)r.d->seek(off_t(to)) : (long long)r.h->seek((long long)to);
            DST_CHECK(k == (long long)to, "seek", "pooled %s: seek to %lu returned %lld", KIND[r.kind], (unsigned long)to, k);
            r.pos = to;
        }
        else if (op == 7 && !r.h) {
            long long k = r.f ? (long long)r.f->seekEnd() : (long long)r.d->seekEnd();
            DST_CHECK(k == (long long)want.size(), "seek-end", "pooled %s: end at %lld of %zu", KIND[r.kind], k, want.size());
            r.pos = want.size();
        }
        else if (op == 7) {
            auto k = r.h->position();
            DST_CHECK((long long)k == (long long)r.pos, "position", "pooled handle: position %lld, should be %lu", (long long)k, (unsigned long)r.pos);
        }
        else if (op == 8) {
            if (r.f) { r.f->rewind(); r.pos = 0; }
           
        }
        else {
            if (r.f) r.f->close();
            if (r.d) r.d->close();
            if (r.h) r.h->close();
            r.open = false;
            if (r.kind == 1 || gen(0, 1)) { r.f.reset(); r.d.reset(); r.h.reset(); }
        }
    }
    catch (std::exception& e) { isError(e); dst::note("error: %s", e.what()); }
}
void init() { setenv("ECKIT_MAX_POOLED_HANDLES", "2", 1); initMain(); { eckit::FileHandle h("/tmp/none"); eckit::PathName p("/tmp/x"); (void)p.exists(); } }
void run() {
    poisonOn = true;
    dst::enableIf(dst::F_SHORTREAD, 0.3, 0.05, 0.5);
    dst::enableIf(dst::F_READERR, 0.25, 0.01, 0.2);
    dst::enableIf(dst::F_OPENERR, 0.2, 0.02, 0.3);
    dst::enableIf(dst::F_EINTR, 0.2, 0.02, 0.3);
    std::vector<Content> files(gen(1, 4));
    for (size_t i = 0; i < files.size(); ++i) {
        files[i].path = dst::scratch() + "/f" + std::to_string(i);
        files[i].bytes = pattern(50 + i, 0, gen(0, 1) ? gen(0, 60) : gen(4000, 9000));
        dst::writeFileRaw(files[i].path, files[i].bytes);
    }
    size_t nthreads = gen(1, 4);
    uint64_t shape = files.size() * 8 + nthreads, steps = 0;
    {
        Threads th;
        for (size_t t = 0; t < nthreads; ++t)
            th.go([&, t] {
                bool many = gen(0, 2) == 0;     // more handles than may be open
                std::vector<Reader> rs(many ? gen(3, 6) : gen(1, 3));
                uint64_t my = 0;
                for (size_t i = 0; i < rs.size(); ++i) { rs[i].kind = many ? 2 : int(gen(0, 2)); rs[i].file = many && i < files.size() ? i : gen(0, files.size() - 1); }
                for (uint64_t n = gen(2, 20); n > 0; --n) { step(rs[gen(0, rs.size() - 1)], files, my); dst::Quiet q; steps++; }
                for (auto& r : rs) { try { dropReader(r); } catch (std::exception& e) { isError(e); } }
                dst::Quiet q;
                shape += my;
            });
        th.join();
    }
    DST_CHECK(dst::openFds() == 0, "left-open", "%d files are still open although every reader is gone", dst::openFds());
    // nothing is remembered of the readers that are gone: a changed file is seen as it is now
    dst::disableAll();
    {
        size_t i = gen(0, files.size() - 1);
        files[i].bytes = pattern(99, 0, gen(0, 50));
        dst::writeFileRaw(files[i].path, files[i].bytes);
        eckit::PooledFile a(files[i].path), b(files[i].path);
        a.open(); b.open();
        unlink(files[i].path.c_str());     // stays readable while somebody has it open
        std::string x(60, '?'), y(60, '?');
        long n = a.read(&x[0], 60);
        a.close();
        DST_CHECK(n == long(files[i].bytes.size()) && x.substr(0, n) == files[i].bytes, "reopened", "the file's new content is not seen");
        n = b.read(&y[0], 60);
        DST_CHECK(n == long(files[i].bytes.size()) && y.substr(0, n) == files[i].bytes, "closed-early", "the file is not readable any more although a reader has it open");
        b.close();
    }
    if (steps > 4) dst::nontrivial();
    dst::cover(dst::hashMix(shape, steps));
}
}  // namespace
const dst::ScenarioDef dst::scenario = {"I09", init, run};
