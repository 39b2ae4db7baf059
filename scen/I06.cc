// I06: writing through any stack of handles stores exactly the written bytes, or the writer learns otherwise.
#include "handles.h"
#include <iostream>
#include "eckit/io/Buffer.h"
#include "eckit/io/BufferedHandle.h"
#include "eckit/io/FileHandle.h"
#include "eckit/io/HandleBuf.h"
#include "eckit/io/MemoryHandle.h"
#include "eckit/io/MultiHandle.h"
#include "eckit/io/SharedHandle.h"
#include "eckit/io/StatsHandle.h"
#include "eckit/io/TeeHandle.h"
using namespace scen;
using dst::gen;
namespace {
using eckit::DataHandle;
struct Leaf { std::function<std::string()> content; uint64_t off, len; std::string what, old; };
struct Node { DataHandle* h = nullptr; std::string what; bool seek = false, pos = false, buffers = false; };
struct World {
    std::vector<std::shared_ptr<void>> keep;
    std::vector<Leaf> leaves;
    int files = 0, inMulti = 0;
    bool grows = true;   // no leaf has a fixed size
    ~World() { while (!keep.empty()) keep.pop_back(); }
};
Node build(World& w, int depth, uint64_t off, uint64_t len) {
    Node n;
    int kind = depth <= 0 ? 0 : int(gen(0, 7));
    switch (kind) {
        default: {
            n.pos = n.seek = true;
            switch (gen(0, 4)) {
                default: { auto st = newStore("what was there before"); n.h = new SimHandle(st); n.what = "sim"; w.leaves.push_back({[st] { return st->bytes; }, off, len, "sim", ""}); break; }
                case 1: { std::string p = dst::scratch() + "/f" + std::to_string(w.files++); if (gen(0, 1)) dst::writeFileRaw(p, "what was there before, much longer than most"); n.h = new eckit::FileHandle(p); n.what = "file"; w.leaves.push_back({[p] { return dst::readFileRaw(p); }, off, len, "file", ""}); break; }
                case 2: { uint64_t cap = gen(1, 60); auto* m = new eckit::MemoryHandle(size_t(cap), true); n.h = m; n.what = "mem"; w.leaves.push_back({[m] { return std::string(static_cast<const char*>(m->data()), size_t((long long)(m->size()))); }, off, len, "mem", ""}); break; }
                case 3: { auto b = std::make_shared<std::vector<char>>(size_t(len)); w.keep.push_back(b); n.h = new eckit::MemoryHandle(static_cast<void*>(b->data()), size_t(len)); n.what = "fixed"; n.seek = false; w.grows = false;
                          w.leaves.push_back({[b] { return std::string(b->data(), b->size()); }, off, len, "fixed", ""}); break; }
            }
            return n;
        }
        case 1: case 2: {
            size_t sz = gen(1, 40);
            Node c = build(w, depth - 1, off, len);
            n.what = "buffered" + std::to_string(sz) + "(" + c.what + ")"; n.seek = c.seek; n.pos = true; n.buffers = true;
            if (gen(0, 3) == 0) { w.keep.push_back(std::shared_ptr<DataHandle>(c.h)); n.h = new eckit::BufferedHandle(*c.h, sz); } else n.h = new eckit::BufferedHandle(c.h, sz);
            return n;
        }
        case 3: {
            n.what = "tee(";
            auto* t = new eckit::TeeHandle();
            for (uint64_t i = gen(1, 3); i > 0; --i) { Node c = build(w, depth - 1, off, len); n.what += c.what + ","; *t += c.h; n.buffers |= c.buffers; }
            n.h = t; n.what += ")";
            return n;
        }
        case 4: case 5: {
            n.what = "multi(";
            std::vector<DataHandle*> parts; std::vector<uint64_t> lens; w.inMulti++;
            uint64_t k = gen(1, 4), at = 0;
            for (uint64_t i = 0; i < k; ++i) {
                uint64_t l = i + 1 == k ? len - at : gen(0, 3) ? gen(0, len - at) : 0;
                Node c = build(w, depth - 1, off + at, l);
                parts.push_back(c.h); lens.push_back(l);
                n.what += std::to_string(l) + ":" + c.what + ","; n.buffers = true;
                at += l;
            }
            auto* m = new eckit::MultiHandle(parts);   // (adding one by one would merge nested lists)
            for (auto l : lens) *m += eckit::Length((long long)l);
            n.h = m; n.what += ")"; w.inMulti--;
            return n;
        }
        case 6: if (w.inMulti) return build(w, depth - 1, off, len); else { Node c = build(w, depth - 1, off, len); n = c; n.h = new eckit::StatsHandle(c.h); n.what = "stats(" + c.what + ")"; return n; }
    }
}
void init() { initMain(); { eckit::FileHandle h("/tmp/none"); eckit::PathName p("/tmp/x"); (void)p.exists(); } std::cout.setstate(std::ios::badbit); }
void run() {
    dst::enableIf(dst::F_SHORTWRITE, 0.35, 0.02, 0.3);
    dst::enableIf(dst::F_WRITEERR, 0.25, 0.02, 0.2);
    dst::enableIf(dst::F_NOSPACE, 0.1, 0.02, 0.2);
    dst::enableIf(dst::F_CLOSEERR, 0.15, 0.1, 0.6);
    dst::enableIf(dst::F_SYNCERR, 0.15, 0.1, 0.6);
    dst::enableIf(dst::F_EINTR, 0.15, 0.02, 0.2);
    dst::enableIf(dst::F_OPENERR, 0.05, 0.05, 0.3);
    World w;
    uint64_t len = gen(0, 7) ? gen(0, 300) : gen(0, 3);
    Node n = build(w, 3, 0, len);
    std::unique_ptr<DataHandle> h(n.h);
    std::string data = pattern(5, 0, len), model;
    bool overwrites = n.seek && gen(0, 2) == 0;
    dst::note("%s, %lu bytes", n.what.c_str(), (unsigned long)len);
    bool threw = false, told = false, asStream = gen(0, 5) == 0, shared = gen(0, 7) == 0;
    uint64_t pos = 0, next = 0, writes = 0;
    auto put = [&](uint64_t k) { if (model.size() < pos + k) model.resize(pos + k); model.replace(pos, k, data, next, k); pos += k; next += k; };
    auto compare = [&](const char* when) {
        for (auto& l : w.leaves) {
            std::string now = l.content();
            uint64_t want = model.size() < l.off ? 0 : std::min<uint64_t>(l.len, model.size() - l.off);
            if (l.what == "fixed") { DST_CHECK(now.compare(0, want, model, std::min<size_t>(l.off, model.size()), want) == 0, "content", "%s: fixed buffer differs in its first %lu bytes", when, (unsigned long)want); continue; }
            if (want == 0 && !std::string(when).compare("flush")) continue;   // perhaps not opened yet
            std::string exp = want ? model.substr(l.off, want) : "";
            if (exp.empty() && next < len) continue;   // a later part, never reached
            DST_CHECK(now == exp, "content", "%s returned without error, but %s has %zu bytes instead of %zu, first difference at %zu", when, l.what.c_str(), now.size(), exp.size(), firstDiff(now, exp));
        }
    };
    try {
        h->openForWrite((long long)len);
        DataHandle* d = h.get();
        std::unique_ptr<eckit::SharedHandle> sh;
        if (shared) { sh.reset(new eckit::SharedHandle(*h)); d = sh.get(); }
        if (asStream) {
            eckit::HandleBuf buf(*d);
            std::ostream os(&buf);
            while (next < len && !told) {
                uint64_t k = gen(0, std::min<uint64_t>(len - next, 120));
                os.write(data.data() + next, long(k)); put(k); writes++;
                if (gen(0, 5) == 0) os.flush();
                told = !os.good();
            }
            os.flush();
            told = told || !os.good();
        }
        else {
            bool stopEarly = gen(0, 9) == 0 && w.grows;
            while (next < len && !told) {
                if (stopEarly && gen(0, 4) == 0) break;
                uint64_t k = gen(0, 3) ? gen(0, std::min<uint64_t>(len - next, 90)) : gen(0, std::min<uint64_t>(len - next, 2));
                long r = d->write(data.data() + next, long(k)); writes++;
                if (r < 0) { told = true; break; }
                DST_CHECK(uint64_t(r) <= k, "count", "write of %lu returned %ld", (unsigned long)k, r);
                if (uint64_t(r) < k) {
                    DST_CHECK(dst::anyIoFault(), "short", "write of %lu returned %ld without any fault", (unsigned long)k, r);
                    if (gen(0, 2) == 0 || dst::fired(dst::F_WRITEERR) || dst::fired(dst::F_NOSPACE)) told = true;   // else go on with the rest
                }
                put(uint64_t(r));
                if (n.pos && !told) DST_CHECK((long long)(d->position()) == (long long)pos, "position", "position() is %lld instead of %lu", (long long)(d->position()), (unsigned long)pos);
                if (overwrites && gen(0, 3) == 0) {
                    if (gen(0, 3)) { pos = gen(0, model.size()); dst::note("seek %lu", (unsigned long)pos); d->seek((long long)pos); } else { dst::note("rewind"); d->rewind(); pos = 0; }
                }
                if (gen(0, 6) == 0) { d->flush(); if (!told) compare("flush"); }
            }
        }
        h->close();
        if (shared) sh->close();
    }
    catch (eckit::Exception& e) { threw = true; dst::note("error: %s", e.what()); }
    if (threw || told) {
        DST_CHECK(dst::anyIoFault(), "spurious-error", "error without any fault after %lu of %lu bytes", (unsigned long)next, (unsigned long)len);
        dst::cover(dst::hashMix(2, hashStr(n.what)));
        return;
    }
    bool lost = dst::fired(dst::F_WRITEERR) || dst::fired(dst::F_CLOSEERR) || dst::fired(dst::F_SYNCERR) || dst::fired(dst::F_OPENERR);
    DST_CHECK(!lost, "silent", "a write, synchronisation or close failed underneath, but nothing was reported");
    compare("close");
    if (writes > 2 && len > 16) dst::nontrivial();
    dst::cover(dst::hashMix(1, hashStr(n.what)));
}
}  // namespace
const dst::ScenarioDef dst::scenario = {"I06", init, run};
