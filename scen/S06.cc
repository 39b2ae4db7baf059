// S06: a record that was torn, truncated or corrupted is never read as something else.
#include "handles.h"
#include "eckit/codec/RecordItemReader.h"
#include "eckit/codec/codec.h"
#include "eckit/io/BufferedHandle.h"
#include "eckit/io/FileHandle.h"
#include "eckit/io/MemoryHandle.h"
#include "eckit/io/MultiHandle.h"
#include "eckit/io/PartFileHandle.h"
#include "eckit/utils/Compressor.h"
using namespace scen;
using dst::gen;
namespace codec = eckit::codec;
namespace {
const char* const ZIP[] = {"none", "lz4", "snappy", "bzip2"};
struct Item { int kind; uint64_t seed, n; int zip; };
struct Rec { std::vector<Item> items; uint64_t offset = 0, length = 0; bool acked = false; };
std::string key(size_t i) { return (i % 3 == 2 ? "group.k" : "k") + std::to_string(i); }
template <class T> std::vector<T> vec(const Item& it) {
    std::vector<T> v;
    for (uint64_t i = 0; i < it.n; ++i) { uint64_t h = dst::hashMix(it.seed, it.zip ? i / 16 : i); v.push_back(T(int64_t(h >> 40) - 4000)); }
    return v;
}
std::string str(const Item& it) { std::string s; for (uint64_t i = 0; i < it.n % 50; ++i) s += char(' ' + dst::hashMix(it.seed, i) % 95); return s; }
Rec makeRec() {
    Rec r;
    uint64_t n = gen(0, 5);
    bool zip = gen(0, 2) == 0;
    for (uint64_t i = 0; i < n; ++i) { Item it; it.kind = int(gen(0, 5)); it.seed = gen(0, 1u << 30); it.n = gen(0, 3) ? gen(0, 40) : gen(0, 700); it.zip = zip ? int(gen(0, 3)) : 0; if (it.zip && it.n == 0) it.n = 3; if (it.kind > 3) it.zip = 0; r.items.push_back(it); }
    return r;
}
void fill(codec::RecordWriter& w, const Rec& r) {
    for (size_t i = 0; i < r.items.size(); ++i) {
        const Item& it = r.items[i];
        eckit::LocalConfiguration c;
        c.set("compression", std::string(ZIP[it.zip]));
        switch (it.kind) {
            case 0: case 1: w.set(key(i), codec::copy(vec<double>(it)), c); break;
            case 2: w.set(key(i), codec::copy(vec<int>(it)), c); break;
            case 3: w.set(key(i), codec::copy(vec<float>(it)), c); break;
            case 4: w.set(key(i), str(it)); break;
            default: { double d = double(it.seed) / 3.0; w.set(key(i), codec::copy(d)); } break;
        }
    }
}
// reads one item through an existing reader; throws what the reader throws
void readItem(codec::RecordReader& rd, size_t i, const Item& it, const char* when) {
    bool same = true;
    switch (it.kind) {
        case 0: case 1: { std::vector<double> v; rd.read(key(i), v).wait(); same = v == vec<double>(it); break; }
        case 2: { std::vector<int> v; rd.read(key(i), v).wait(); same = v == vec<int>(it); break; }
        case 3: { std::vector<float> v; rd.read(key(i), v).wait(); same = v == vec<float>(it); break; }
        case 4: { std::string v; rd.read(key(i), v).wait(); same = v == str(it); break; }
        default: { double v = 0; rd.read(key(i), v).wait(); same = v == double(it.seed) / 3.0; break; }
    }
    DST_CHECK(same, "wrong-data", "%s: item %zu of kind %d is read without an error but is not what was written", when, i, it.kind);
}
struct Outcome { int ok = 0, errors = 0; };
template <class MakeReader> Outcome readAll(const Rec& r, MakeReader make, const char* when, int rounds) {
    Outcome o;
    for (int k = 0; k < rounds; ++k)
        for (size_t i = 0; i < r.items.size(); ++i) {
            try { auto rd = make(); readItem(*rd, i, r.items[i], when); o.ok++; }
            catch (std::exception& e) { o.errors++; if (o.errors < 3) dst::note("%s: item %zu: %s", when, i, e.what()); }
        }
    return o;
}
Outcome readPath(const std::string& path, const Rec& r, const char* when) {
    std::unique_ptr<codec::Session> s;
    if (gen(0, 1)) s.reset(new codec::Session());   // what was parsed is kept, and may have failed half-way
    int rounds = s ? 2 : 1;
    switch (gen(0, 2)) {
        case 0: return readAll(r, [&] { return std::unique_ptr<codec::RecordReader>(new codec::RecordReader(path, r.offset)); }, when, rounds);
        case 1: return readAll(r, [&] { return std::unique_ptr<codec::RecordReader>(new codec::RecordReader(codec::Record::URI(path, r.offset))); }, when, rounds);
        default: {   // a whole reader, then the record itself
            Outcome o;
            try {
                codec::Record rec;
                codec::InputFileStream in(path);
                in.seek(r.offset);
                rec.read(in, gen(0, 1));
                for (size_t i = 0; i < r.items.size(); ++i) DST_CHECK(rec.has(key(i)), "wrong-data", "%s: item %zu is missing from a record read without an error", when, i);
                DST_CHECK(rec.keys().size() == r.items.size(), "wrong-data", "%s: the record has %zu items instead of %zu", when, rec.keys().size(), r.items.size());
                o.ok++;
            }
            catch (std::exception& e) { o.errors++; dst::note("%s: %s", when, e.what()); }
            Outcome p = readAll(r, [&] { return std::unique_ptr<codec::RecordReader>(new codec::RecordReader(path, r.offset)); }, when, rounds);
            o.ok += p.ok; o.errors += p.errors;
            return o;
        }
    }
}
// reading through streams over other handles
Outcome readStream(const std::string& path, const std::string& bytes, const Rec& r, const char* when) {
    std::unique_ptr<codec::Session> s;
    if (gen(0, 2) == 0) s.reset(new codec::Session());
    std::shared_ptr<eckit::DataHandle> h;
    switch (gen(0, 3)) {
        case 0: { auto* m = new SimHandle(newStore(bytes)); m->yields = false; h.reset(m); break; }
        case 1: h.reset(new eckit::MemoryHandle(bytes.data(), bytes.size())); break;
        case 2: h.reset(new eckit::FileHandle(path)); break;
        default: h.reset(new eckit::PartFileHandle(path, 0, (long long)bytes.size())); break;
    }
    Outcome o;
    try { h->openForRead(); } catch (std::exception&) { o.errors++; return o; }
    bool own = gen(0, 1);
    o = readAll(r, [&] { return std::unique_ptr<codec::RecordReader>(new codec::RecordReader(own ? codec::Stream(h) : codec::Stream(*h), r.offset)); }, when, s ? 2 : 1);
    try { h->close(); } catch (std::exception&) { o.errors++; }
    return o;
}
uint64_t writeRec(const std::string& path, const Rec& r, bool append, bool sum) {
    codec::RecordWriter w;
    if (!sum) w.checksum(false);
    fill(w, r);
    switch (gen(0, 2)) {
        case 0: return w.write(path, append ? codec::Mode::append : codec::Mode::write);
        case 1: { codec::OutputFileStream out(path, append ? 'a' : 'w'); uint64_t n = w.write(out); out.close(); return n; }
        default: {
            if (append) return w.write(path, codec::Mode::append);
            eckit::FileHandle f(path, true);
            f.openForWrite(0);
            eckit::AutoClose c(f);
            return w.write(f);
        }
    }
}
struct Sh { uint64_t acked[4]; int nacked, errored, cur; };
void oneRun() {
    std::string path = dst::scratch() + "/records";
    std::vector<Rec> recs;
    uint64_t n = gen(1, 3);
    for (uint64_t i = 0; i < n; ++i) recs.push_back(makeRec());
    bool power = gen(0, 2) == 0, crash = gen(0, 1), sum = gen(0, 7) != 0, wfaults = gen(0, 1), rfaults = gen(0, 2) == 0;
    uint64_t together = gen(0, 3) ? 0 : gen(1, 2);
    if (power) dst::trackDurability();
    if (wfaults) {
        dst::enableIf(dst::F_SHORTWRITE, 0.4, 0.05, 0.5);
        dst::enableIf(dst::F_WRITEERR, 0.3, 0.01, 0.3);
        dst::enableIf(dst::F_NOSPACE, 0.3, 0.01, 0.3);
        dst::enableIf(dst::F_CLOSEERR, 0.3, 0.05, 0.5);
        dst::enableIf(dst::F_SYNCERR, 0.3, 0.05, 0.5);
        dst::enableIf(dst::F_OPENERR, 0.2, 0.01, 0.3);
        dst::enableIf(dst::F_EINTR, 0.1, 0.01, 0.2);
    }
    if (crash) dst::enableIf(dst::F_CRASH, 0.9, 0.005, 0.2);
    Sh* s = dst::sharedNew<Sh>();
    int p = dst::spawn([=] {
        if (crash) dst::crashable(true);
        if (together) {   // one record after the other through the same stream
            try {
                std::vector<uint64_t> len;
                if (together == 1) {
                    codec::OutputFileStream out(path, 'w');
                    for (auto& r : recs) { codec::RecordWriter w; if (!sum) w.checksum(false); fill(w, r); len.push_back(w.write(out)); }
                    out.close();
                }
                else {
                    eckit::FileHandle f(path, true);
                    f.openForWrite(0);
                    eckit::AutoClose c(f);
                    for (auto& r : recs) { codec::RecordWriter w; if (!sum) w.checksum(false); fill(w, r); len.push_back(w.write(f)); }
                }
                dst::Quiet q;
                for (size_t i = 0; i < len.size(); ++i) { s->acked[i] = len[i]; s->nacked++; }
            }
            catch (std::exception& e) { dst::Quiet q; s->errored++; dst::note("writer: %s", e.what()); DST_CHECK(dst::anyIoFault(), "spurious-error", "writing fails although nothing went wrong: %s", e.what()); }
            return;
        }
        for (size_t i = 0; i < recs.size(); ++i) {
            try { uint64_t len = writeRec(path, recs[i], i > 0, sum); dst::Quiet q; s->acked[i] = len; s->nacked++; }
            catch (std::exception& e) { dst::Quiet q; s->errored++; dst::note("writer: %s", e.what()); DST_CHECK(dst::anyIoFault(), "spurious-error", "writing fails although nothing went wrong: %s", e.what()); return; }
        }
    }, "writer");
    dst::join(p);
    bool crashed = dst::procStatus(p) == 1;
    dst::disableAll();
    if (power) dst::powerFail();
    bool ok;
    std::string bytes = dst::readFileRaw(path, &ok);
    bool complete = !crashed && !power && !s->errored;
    uint64_t off = 0;
    for (int i = 0; i < s->nacked; ++i) { recs[size_t(i)].offset = off; recs[size_t(i)].length = s->acked[i]; recs[size_t(i)].acked = true; off += s->acked[i]; }
    if (size_t(s->nacked) < recs.size()) { recs.resize(size_t(s->nacked) + 1); recs.back().offset = off; }
    if (complete) DST_CHECK(bytes.size() == off, "wrong-length", "%zu bytes were stored, the writer says %llu", bytes.size(), (unsigned long long)off);
    // damage: one contiguous alteration, or a lost tail
    enum { NONE, FLIP, RUN, ZERO, CUT } damage = NONE;
    size_t d0 = 0, d1 = 0;
    if (sum && ok && !bytes.empty() && gen(0, 1)) {
        std::string before = bytes;
        switch (gen(0, 4)) {
            case 0: damage = CUT; d0 = gen(0, bytes.size() - 1); d1 = bytes.size(); bytes.resize(d0); break;
            case 1: damage = ZERO; d0 = gen(0, bytes.size() - 1); d1 = std::min<size_t>(bytes.size(), d0 + gen(1, 600)); for (size_t i = d0; i < d1; ++i) bytes[i] = 0; break;
            case 2: damage = RUN; d0 = gen(0, bytes.size() - 1); d1 = std::min<size_t>(bytes.size(), d0 + gen(1, 60)); for (size_t i = d0; i < d1; ++i) bytes[i] = char(gen(0, 255)); break;
            default: {
                damage = FLIP;
                size_t rec = gen(0, recs.size() - 1);
                d0 = gen(0, 1) ? gen(0, bytes.size() - 1) : std::min<size_t>(bytes.size() - 1, recs[rec].offset + (gen(0, 1) ? gen(40, 200) : gen(0, 900)));
                d1 = d0 + 1;
                bytes[d0] = char(bytes[d0] ^ (1 << gen(0, 7)));
                break;
            }
        }
        if (bytes == before) damage = NONE;
        else { dst::enable(dst::F_BITFLIP, 1); dst::fire(dst::F_BITFLIP); dst::disableAll(); }
        dst::writeFileRaw(path, bytes);
    }
    if (rfaults) {
        dst::enableIf(dst::F_SHORTREAD, 0.5, 0.05, 0.6);
        dst::enableIf(dst::F_READERR, 0.2, 0.01, 0.2);
        dst::enableIf(dst::F_EINTR, 0.1, 0.01, 0.2);
        dst::enableIf(dst::F_OPENERR, 0.1, 0.01, 0.2);
    }
    int e0 = dst::firings(dst::F_READERR) + dst::firings(dst::F_EINTR) + dst::firings(dst::F_OPENERR);
    if (!ok) dst::writeFileRaw(path, "");
    int good = 0, bad = 0;
    std::unique_ptr<codec::Session> whole;
    if (gen(0, 2) == 0) whole.reset(new codec::Session());   // all the records of the file are read in one session
    for (size_t i = 0; i < recs.size(); ++i) {
        const Rec& r = recs[i];
        if (!sum && !(complete || (r.acked && !power))) continue;     // nothing protects it
        bool touched = damage != NONE && d1 > r.offset && (!r.acked || d0 < r.offset + r.length);
        if (touched && !r.acked) continue;      // torn and then altered as well
        int before = dst::firings(dst::F_READERR) + dst::firings(dst::F_EINTR) + dst::firings(dst::F_OPENERR);
        Outcome o = gen(0, 2) ? readPath(path, r, "path") : readStream(path, bytes, r, "stream");
        int after = dst::firings(dst::F_READERR) + dst::firings(dst::F_EINTR) + dst::firings(dst::F_OPENERR);
        good += o.ok; bad += o.errors;
        // an acknowledged record of a process that may have crashed later is complete
        if (r.acked && !power && !touched && after == before) DST_CHECK(o.errors == 0, "unreadable", "record %zu was written and not damaged, but reading it fails", i);
    }
    (void)e0;
    if (recs.size() && bytes.size() > 600) dst::nontrivial();
    dst::cover(dst::hashMix(uint64_t(damage * 8 + crashed * 4 + power * 2 + complete), dst::hashMix(recs.size() * 64 + std::min(good, 7) * 8 + std::min(bad, 7), recs.empty() ? 0 : recs[0].items.size())));
}
// several threads read the same records while sessions come and go
void threads() {
    struct Of { std::string path; Rec r; };
    std::vector<Of> recs;
    uint64_t nf = gen(1, 2);
    for (uint64_t f = 0; f < nf; ++f) {
        uint64_t n = gen(1, 3), off = 0;
        std::string path = dst::scratch() + "/records" + std::to_string(f);
        for (uint64_t i = 0; i < n; ++i) {
            recs.push_back({path, makeRec()});
            Rec& r = recs.back().r;
            r.offset = off;
            off += r.length = writeRec(path, r, i > 0, true);
        }
    }
    int nt = int(gen(2, 3));
    bool outer = gen(0, 1);
    std::unique_ptr<codec::Session> s;
    if (outer) s.reset(new codec::Session());
    std::atomic<int> reads{0};
    {
        Threads t;
        for (int k = 0; k < nt; ++k) {
            uint64_t ops = gen(1, 4);
            t.go([&, ops] {
                for (uint64_t o = 0; o < ops; ++o) {
                    size_t ri, how;
                    { dst::Quiet q; ri = gen(0, recs.size() - 1); how = gen(0, 3); }
                    const Rec& r = recs[ri].r;
                    const std::string& path = recs[ri].path;
                    try {
                        if (how <= 1) { codec::RecordReader rd(path, r.offset); for (size_t i = 0; i < r.items.size(); ++i) readItem(rd, i, r.items[i], "thread"); }
                        else for (size_t i = 0; i < r.items.size(); ++i) {
                            if (how == 2) { codec::RecordReader rd(path, r.offset); readItem(rd, i, r.items[i], "thread"); }
                            else { codec::RecordItem it; codec::RecordItem::URI u{path, r.offset, key(i)}; codec::RecordItemReader(u.str()).read(it); }   // without a session of its own
                        }
                    }
                    catch (std::exception& e) { dst::fail("unreadable", "reading an undamaged record in several threads fails: %s", e.what()); }
                    reads++;
                }
            });
        }
    }
    dst::nontrivial();
    dst::cover(dst::hashMix(7000 + uint64_t(nt * 10 + outer), dst::hashMix(recs.size(), uint64_t(reads.load()))));
}
// one session, several streams one after the other
void streams() {
    codec::Session s;
    uint64_t n = gen(2, 4);
    for (uint64_t k = 0; k < n; ++k) {
        Rec r = makeRec();
        codec::RecordWriter w;
        fill(w, r);
        bool heap = gen(0, 1);
        auto use = [&](eckit::MemoryHandle& m) {
            m.openForWrite(0);
            w.write(m);
            m.close();
            m.openForRead();
            bool owned = false; (void)owned;
            for (size_t i = 0; i < r.items.size(); ++i) {
                try { codec::RecordReader rd(codec::Stream(m), 0); readItem(rd, i, r.items[i], "another stream in the session"); }
                catch (std::exception& e) { dst::fail("unreadable", "a record in memory cannot be read: %s", e.what()); }
            }
            m.close();
        };
        if (heap) { std::unique_ptr<eckit::MemoryHandle> m(new eckit::MemoryHandle(size_t(1 + gen(0, 3000)), true)); use(*m); }
        else { eckit::MemoryHandle m(size_t(1 + gen(0, 3000)), true); use(m); }
    }
    dst::nontrivial();
    dst::cover(dst::hashMix(8000, n));
}
void init() {
    initMain();
    { eckit::PathName p("/tmp/x"); (void)p.exists(); }
    for (const char* z : ZIP) if (!eckit::CompressorFactory::instance().has(z)) { fprintf(stderr, "no compressor %s\n", z); exit(3); }
}
void run() {
    switch (gen(0, 7)) {
        case 0: threads(); break;
        case 1: streams(); break;
        default: oneRun(); break;
    }
}
}  // namespace
const dst::ScenarioDef dst::scenario = {"S06", init, run};
