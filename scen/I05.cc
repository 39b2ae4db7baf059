// I05: reading through any stack of handles equals reading the plain bytes it denotes.
#include "handles.h"
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include "eckit/io/BufferedHandle.h"
#include "eckit/io/EmptyHandle.h"
#include "eckit/io/FileDescHandle.h"
#include "eckit/io/FileHandle.h"
#include "eckit/io/MMappedFileHandle.h"
#include "eckit/io/MemoryHandle.h"
#include "eckit/io/MultiHandle.h"
#include "eckit/io/PartFileHandle.h"
#include "eckit/io/PartHandle.h"
#include "eckit/io/PeekHandle.h"
#include "eckit/io/PooledHandle.h"
#include "eckit/io/RawFileHandle.h"
#include "eckit/io/SeekableHandle.h"
#include "eckit/io/SharedHandle.h"
#include "eckit/io/StatsHandle.h"
using namespace scen;
using dst::gen;
namespace {
using eckit::DataHandle;
struct Node {
    DataHandle* h = nullptr;
    std::string bytes, what;
    bool seek = false, rew = false, pos = false, skip = false, size = false, est = true, restart = false, clone = false;
    bool ownsSkip = false;
    eckit::PeekHandle* peek = nullptr;
    bool merges = false;
};
struct World {
    ~World() { while (!keep.empty()) keep.pop_back(); }
    std::vector<std::shared_ptr<void>> keep;   // buffers and un-owned handles
    int files = 0;
    int inMulti = 0;                           // raw and mapped files know their length only while open
    std::string shared, sharedPath;            // one file that several parts may refer to
};
struct Restartable : SimHandle {
    using SimHandle::SimHandle;
};
Node leaf(World& w, bool wantSeek) {
    Node n;
    int kind = int(gen(0, 9));
    if (w.inMulti && (kind == 5 || kind == 6)) kind = 2;
    uint64_t len = gen(0, 6) ? gen(0, 300) : gen(0, 3);
    n.bytes = pattern(100 + uint64_t(w.files++), 0, len);
    auto path = [&] { std::string p = dst::scratch() + "/f" + std::to_string(w.files); dst::writeFileRaw(p, n.bytes); return p; };
    switch (kind) {
        default: {
            auto* s = new SimHandle(newStore(n.bytes));
            s->seekable = wantSeek || gen(0, 2);
            n.h = s; n.what = "sim"; n.pos = n.size = n.restart = true;
            n.seek = n.rew = n.skip = s->seekable;
            break;
        }
        case 1: {
            auto b = std::make_shared<std::string>(n.bytes);
            w.keep.push_back(b);
            n.h = new eckit::MemoryHandle(static_cast<const void*>(b->data()), b->size()); n.what = "mem";
            n.seek = n.rew = n.pos = n.skip = n.size = n.clone = true;
            break;
        }
        case 2: n.h = new eckit::FileHandle(path()); n.what = "file"; n.seek = n.rew = n.pos = n.skip = n.size = n.restart = n.clone = true; break;
        case 3: {
            // parts of a file, the same one as other parts or another one
            std::string p, data;
            if (gen(0, 1)) { p = w.sharedPath; data = w.shared; } else { data = n.bytes; p = path(); }
            eckit::OffsetList off; eckit::LengthList ln; n.bytes.clear();
            bool sorted = true; long long last = 0;
            for (uint64_t i = gen(0, 4); i > 0; --i) {
                long long o = gen(0, 2) && last <= (long long)data.size() ? last : (long long)gen(0, data.size()), l = (long long)gen(0, data.size() - uint64_t(o));
                if (gen(0, 4) == 0) l = 0;
                off.push_back(o); ln.push_back(l); last = o + l;
                n.bytes += data.substr(size_t(o), size_t(l));
            }
            (void)sorted;
            n.h = new eckit::PartFileHandle(p, off, ln); n.what = "partfile" + std::to_string(off.size());
            n.seek = n.rew = n.pos = n.size = n.skip = n.restart = n.clone = n.merges = true;
            break;
        }
        case 4: n.h = new eckit::PooledHandle(path()); n.what = "pooled"; n.seek = n.pos = n.skip = true; n.est = !w.inMulti; break;
        case 5: if (!n.bytes.empty()) { n.h = new eckit::MMappedFileHandle(path()); n.what = "mmap"; n.seek = n.rew = n.pos = n.size = n.skip = true; n.clone = true; n.est = true; }
                else { n.h = new eckit::EmptyHandle(); n.what = "empty"; n.size = false; n.seek = false; n.pos = true; }
                break;
        case 6: n.h = new eckit::RawFileHandle(path()); n.what = "raw"; n.seek = n.pos = n.skip = true; break;
    }
    return n;
}
Node build(World& w, int depth, bool wantSeek = false);
Node multi(World& w, int depth, bool wantSeek) {
    Node n;
    std::vector<DataHandle*> parts; bool plain = gen(0, 2) == 0;
    n.what = "multi(";
    n.seek = n.size = n.pos = n.restart = n.clone = true;
    w.inMulti++;
    for (uint64_t i = gen(0, 4); i > 0; --i) {
        Node c = build(w, depth - 1, wantSeek);
        n.bytes += c.bytes; n.what += c.what + ",";
        n.seek = n.seek && c.seek && c.size; n.pos = n.pos && c.pos && c.size; n.size = n.size && c.size; n.restart = n.restart && c.restart; n.clone = n.clone && c.clone;
        n.est = n.est && c.est;
        parts.push_back(c.h);
    }
    w.inMulti--;
    n.rew = true; n.skip = n.seek && n.pos;
    n.what += ")";
    if (plain) n.h = new eckit::MultiHandle(parts);
    else { auto* m = new eckit::MultiHandle(); n.h = m; for (auto* p : parts) *m += p; }
    return n;
}
Node build(World& w, int depth, bool wantSeek) {
    int kind = depth <= 0 ? 0 : int(gen(0, 7));
    if (kind == 6 && w.inMulti) kind = 3;   // counting handles refuse to be merged
    if (kind == 0) return leaf(w, wantSeek);
    if (kind <= 2) return multi(w, depth, wantSeek);
    Node c = build(w, depth - 1, wantSeek || kind == 4), n;
    if (kind == 4 && !c.seek) kind = 3;
    n.bytes = c.bytes;
    switch (kind) {
        case 3: default: {
            size_t sz = gen(1, 40);
            n.what = "buffered" + std::to_string(sz) + "(" + c.what + ")";
            if (gen(0, 3) == 0) { w.keep.push_back(std::shared_ptr<DataHandle>(c.h)); n.h = new eckit::BufferedHandle(*c.h, sz); }
            else n.h = new eckit::BufferedHandle(c.h, sz);
            n.seek = c.seek; n.rew = c.rew; n.pos = true; n.skip = c.seek; n.clone = c.clone && false; n.est = c.est;
            break;
        }
        case 4: {
            eckit::OffsetList off; eckit::LengthList ln; n.bytes.clear();
            for (uint64_t i = gen(0, 4); i > 0; --i) {
                uint64_t o = gen(0, c.bytes.size()), l = gen(0, c.bytes.size() - o);
                off.push_back((long long)o); ln.push_back((long long)l);
                n.bytes += c.bytes.substr(o, l);
            }
            n.h = new eckit::PartHandle(c.h, off, ln); n.what = "part" + std::to_string(off.size()) + "(" + c.what + ")";
            n.rew = n.restart = true;
            break;
        }
        case 5: {
            auto* p = new eckit::PeekHandle(c.h);
            n.h = p; n.what = "peek(" + c.what + ")"; n.peek = p;
            n.seek = c.seek; n.rew = c.rew; n.pos = c.pos; n.size = c.size; n.est = c.est;
            break;
        }
        case 6: n.h = new eckit::StatsHandle(c.h); n.what = "stats(" + c.what + ")"; n.seek = c.seek; n.rew = c.rew; n.pos = c.pos; n.skip = c.skip; n.restart = c.restart; n.est = c.est; break;
    }
    return n;
}
bool excused() { return dst::fired(dst::F_READERR) || dst::fired(dst::F_EINTR); }   // short reads are legal

void seekable(World& w) {   // a window of peeked bytes over a stream
    Node c = build(w, 2);
    auto* p = new eckit::PeekHandle(c.h);
    eckit::SeekableHandle s(p);
    std::string ref = c.bytes;
    dst::note("seekable(peek(%s)), %zu bytes", c.what.c_str(), ref.size());
    uint64_t pos = 0, start = 0, high = 0;
    try {
        s.openForRead();
        for (uint64_t k = gen(3, 25); k > 0; --k) {
            switch (gen(0, 5)) {
                case 0: case 1: case 2: {
                    long n = long(gen(0, 60)); std::string b(size_t(n), '?');
                    long r = s.read(&b[0], n);
                    DST_CHECK(r >= 0 && r <= n, "count", "read of %ld returned %ld", n, r);
                    DST_CHECK(uint64_t(r) <= ref.size() - pos && b.compare(0, size_t(r), ref, pos, size_t(r)) == 0, "content", "read of %ld at %lu returned other bytes", n, (unsigned long)pos);
                    DST_CHECK(r > 0 || n == 0 || pos == ref.size(), "lost", "end of data at %lu of %zu", (unsigned long)pos, ref.size());
                    pos += uint64_t(r); high = std::max(high, pos);
                    break;
                }
                case 3: { uint64_t t = gen(start, high); s.seek((long long)t); pos = t; break; }
                case 4: if (start == 0) { s.rewind(); pos = 0; } break;
                case 5: if (gen(0, 1)) { s.clear(); start = high = pos = start + (high - start); } break;
            }
            // peeked data may reach further than what was read, but never less
            DST_CHECK((long long)(s.position()) == (long long)pos, "position", "position %lld instead of %lu", (long long)(s.position()), (unsigned long)pos);
        }
        s.close();
    }
    catch (eckit::Exception& e) { DST_CHECK(excused(), "spurious-error", "error without any fault: %s", e.what()); dst::cover(dst::hashMix(99, hashStr(c.what))); return; }
    if (ref.size() > 32) dst::nontrivial();
    dst::cover(dst::hashMix(98, hashStr(c.what)));
}

void stack(World& w) {
    Node n = build(w, 3);
    std::unique_ptr<DataHandle> h(n.h);
    if (n.clone && gen(0, 4) == 0) { DataHandle* c = h->clone(); h.reset(c); n.peek = nullptr; n.what += "'"; }
    bool shared = gen(0, 7) == 0 && n.rew;
    dst::note("%s, %zu bytes%s", n.what.c_str(), n.bytes.size(), shared ? ", shared" : "");
    const std::string& ref = n.bytes;
    uint64_t pos = 0, ops = 0;
    DataHandle* d = h.get();
    std::unique_ptr<eckit::SharedHandle> sh;
    try {
        for (uint64_t round = gen(1, 2); round > 0; --round) {
            long long len = (long long)(h->openForRead());
            if (shared) { sh.reset(new eckit::SharedHandle(*h)); d = sh.get(); if (gen(0, 1)) d->openForRead(); }
            pos = 0;
            if (n.est) DST_CHECK(len == (long long)ref.size(), "length", "opening returned %lld for %zu bytes", len, ref.size());
            auto readSome = [&](long k) {
                std::string b(size_t(k) + 1, '?');
                long r = d->read(&b[0], k);
                if (r < 0) { DST_CHECK(excused(), "spurious-error", "read returned %ld without any fault", r); throw eckit::ReadError("negative"); }
                DST_CHECK(r <= k && b[size_t(k)] == '?', "count", "read of %ld returned %ld", k, r);
                DST_CHECK(uint64_t(r) <= ref.size() - pos && b.compare(0, size_t(r), ref, pos, size_t(r)) == 0, "content", "read of %ld at %lu returned other bytes than those of the data", k, (unsigned long)pos);
                DST_CHECK(r > 0 || k == 0 || pos == ref.size(), "lost", "end of data reported at %lu of %zu", (unsigned long)pos, ref.size());
                pos += uint64_t(r);
                return r;
            };
            for (uint64_t k = gen(1, 20); k > 0; --k) {
                ops++;
                switch (gen(0, 9)) {
                    case 0: case 1: case 2: case 3: readSome(long(gen(0, 3) ? gen(0, 80) : gen(0, 2))); break;
                    case 4: if (n.seek) { uint64_t t = gen(0, ref.size()); dst::note("seek %lu", (unsigned long)t); long long r = (long long)(d->seek((long long)t)); DST_CHECK(r == (long long)t, "position", "seek to %lu returned %lld", (unsigned long)t, r); pos = t; } break;
                    case 5: if (n.rew) { dst::note("rewind"); d->rewind(); pos = 0; } break;
                    case 6: if (n.skip) { uint64_t t = gen(0, ref.size() - pos); dst::note("skip %lu", (unsigned long)t); d->skip((long long)t); pos += t; } break;
                    case 7: if (n.restart && pos < ref.size() && !shared) { uint64_t t = gen(0, ref.size() - 1); dst::note("restart %lu", (unsigned long)t); d->restartReadFrom((long long)t); pos = t; } break;
                    case 8:
                        if (n.peek) {
                            uint64_t left = ref.size() - pos;
                            uint64_t a = gen(0, 30);
                            if (gen(0, 1)) { if (a < left) { unsigned char c = n.peek->peek(size_t(a)); DST_CHECK(c == (unsigned char)ref[pos + a], "content", "peek at %lu+%lu is wrong", (unsigned long)pos, (unsigned long)a); } }
                            else {
                                uint64_t from = std::min(left, a), k2 = gen(0, 40); std::string b(k2 + 1, '?');
                                if (from > n.peek->peeked()) from = n.peek->peeked();
                                long r = n.peek->peek(&b[0], k2, from);
                                DST_CHECK(r == long(std::min(k2, left - from)), "count", "peek of %lu at +%lu returned %ld with %lu left", (unsigned long)k2, (unsigned long)from, r, (unsigned long)left);
                                DST_CHECK(b.compare(0, size_t(r), ref, pos + from, size_t(r)) == 0, "content", "peek returned other bytes");
                            }
                            if (gen(0, 2) == 0) { uint64_t t = gen(0, n.peek->peeked()); n.peek->skip((long long)t); pos += t; }
                        }
                        break;
                    case 9: if (n.size) DST_CHECK((long long)(d->size()) == (long long)ref.size(), "length", "size() is %lld for %zu bytes", (long long)(d->size()), ref.size()); break;
                }
                if (n.pos) DST_CHECK((long long)(d->position()) == (long long)pos, "position", "position() is %lld instead of %lu", (long long)(d->position()), (unsigned long)pos);
            }
            if (gen(0, 1)) while (readSome(long(gen(1, 64))) > 0) {}
            h->close();
        }
    }
    catch (eckit::Exception& e) { DST_CHECK(excused(), "spurious-error", "error without any fault at %lu of %zu: %s", (unsigned long)pos, ref.size(), e.what()); dst::cover(dst::hashMix(2, hashStr(n.what))); return; }
    if (ref.size() > 32 && ops > 3) dst::nontrivial();
    dst::cover(dst::hashMix(1, hashStr(n.what)));
}
void init() { initMain(); { eckit::FileHandle h("/nonexistent"); eckit::PooledHandle p("/nonexistent2"); eckit::PartFileHandle q("/nonexistent", eckit::Offset(0), eckit::Length(1)); (void)q.title(); } std::cout.setstate(std::ios::badbit); }
void run() {
    dst::enableIf(dst::F_SHORTREAD, 0.7, 0.1, 0.8);
    dst::enableIf(dst::F_READERR, 0.3, 0.01, 0.2);
    dst::enableIf(dst::F_EINTR, 0.1, 0.02, 0.2);
    World w;
    w.shared = pattern(7, 0, gen(0, 200));
    w.sharedPath = dst::scratch() + "/shared";
    dst::writeFileRaw(w.sharedPath, w.shared);
    if (gen(0, 5) == 0) seekable(w); else stack(w);
}
}  // namespace
const dst::ScenarioDef dst::scenario = {"I05", init, run};
