// I10: the circular buffer returns the bytes put in, in order, whatever threads use it.
#include "common.h"
#include "eckit/io/CircularBuffer.h"
using namespace scen;
using dst::gen;
namespace {
enum { WRITE, READ, LENGTH, CLEAR };
struct Op { int kind; std::string data; uint64_t n; bool ok; uint64_t inv, res; };
void init() { initMain(); { eckit::CircularBuffer b(1, 2); } }
void run() {
    uint64_t size = gen(1, 20), cap = size + gen(0, 60);
    eckit::CircularBuffer buf(size, cap);
    uint64_t shape = size * 100 + cap, serial = 0;
    std::string ref;
    auto put = [&](const std::string& s) {
        try { size_t k = buf.write(s.data(), s.size()); DST_CHECK(k == s.size(), "count", "write of %zu returned %zu", s.size(), k); return true; }
        catch (eckit::Exception&) { return false; }
    };
    // one thread: exact
    for (uint64_t n = gen(0, 40); n > 0; --n) {
        uint64_t op = gen(0, 9);
        if (op < 4) {
            std::string s = pattern(++serial, 0, sizeNear(size, cap + 5));
            size_t room = buf.size() - ref.size();
            bool ok = put(s);
            if (ref.size() + s.size() > cap) DST_CHECK(!ok, "not-refused", "%zu bytes accepted on top of %zu, capacity %lu", s.size(), ref.size(), (unsigned long)cap);
            if (s.size() <= room) DST_CHECK(ok, "refused", "%zu bytes refused although there is room for %zu", s.size(), room);
            if (ok) ref += s;
            shape = dst::hashMix(shape, ok * 64 + std::min<size_t>(s.size(), 63));
        }
        else if (op < 8) {
            uint64_t n = sizeNear(size, cap + 5);
            std::string b(n + 1, '?');
            size_t k = buf.read(&b[0], n);
            size_t want = std::min<size_t>(n, ref.size());
            DST_CHECK(k == want, "count", "read of %lu returned %zu, %zu bytes are held", (unsigned long)n, k, ref.size());
            DST_CHECK(b.substr(0, k) == ref.substr(0, k), "bytes", "read of %lu: wrong byte at %zu", (unsigned long)n, firstDiff(b.substr(0, k), ref));
            DST_CHECK(b[k] == '?', "overrun", "read of %lu wrote past its end", (unsigned long)n);
            ref.erase(0, k);
            shape = dst::hashMix(shape, 1000 + k);
        }
        else if (op == 8) { buf.clear(); ref.clear(); }
        DST_CHECK(buf.length() == ref.size(), "length", "length %zu, %zu bytes are held", buf.length(), ref.size());
        DST_CHECK(buf.size() <= cap && buf.size() >= ref.size() && buf.capacity() == cap, "size", "size %zu, capacity %zu of %lu, %zu bytes held", buf.size(), buf.capacity(), (unsigned long)cap, ref.size());
    }
    // several threads: the history must have a sequential order
    std::vector<Op> ops;
    size_t nthreads = gen(0, 4);
    if (nthreads) {
        Threads th;
        for (size_t t = 0; t < nthreads; ++t)
            th.go([&] {
                for (uint64_t n = gen(1, 5); n > 0; --n) {
                    Op o{};
                    uint64_t k = gen(0, 9);
                    o.kind = k < 5 ? WRITE : k < 8 ? READ : k == 8 ? LENGTH : CLEAR;
                    if (o.kind == CLEAR && gen(0, 2)) o.kind = READ;
                    o.n = gen(0, 12); o.ok = true;
                    { dst::Quiet q; if (o.kind == WRITE) o.data = pattern(++serial, 0, o.n); o.inv = dst::tick(); }
                    if (o.kind == WRITE) o.ok = put(o.data);
                    else if (o.kind == READ) { std::string b(o.n, '?'); size_t c = buf.read(&b[0], o.n); DST_CHECK(c <= o.n, "count", "read of %lu returned %zu", (unsigned long)o.n, c); o.data = b.substr(0, c); }
                    else if (o.kind == LENGTH) o.n = buf.length();
                    else buf.clear();
                    dst::Quiet q;
                    o.res = dst::tick();
                    ops.push_back(o);
                }
            });
        th.join();
        Op o{}; o.kind = READ; o.n = 1000; o.ok = true; o.inv = dst::tick();   // what is left at the end
        std::string b(1000, '?');
        size_t c = buf.read(&b[0], 1000); o.data = b.substr(0, c); o.res = dst::tick();
        ops.push_back(o);
        std::vector<LinOp> iv;
        for (auto& x : ops) { iv.push_back({x.inv, x.res}); shape = dst::hashMix(shape, uint64_t(x.kind) * 100 + x.data.size()); }
        bool ok = linearizable(ref, iv, [&](std::string& s, size_t i) {
            const Op& x = ops[i];
            switch (x.kind) {
                case WRITE: if (!x.ok) return true; if (s.size() + x.data.size() > cap) return false; s += x.data; return true;
                case READ: { size_t k = std::min<size_t>(x.n, s.size()); if (x.data != s.substr(0, k)) return false; s.erase(0, k); return true; }
                case LENGTH: return x.n == s.size();
                default: s.clear(); return true;
            }
        }, [](const std::string& s) { return hashStr(s); });
        if (!ok) for (auto& x : ops) dst::note("%lu-%lu kind %d n %lu data %zu bytes ok %d", (unsigned long)x.inv, (unsigned long)x.res, x.kind, (unsigned long)x.n, x.data.size(), x.ok);
        DST_CHECK(ok, "order", "no sequential order of the %zu operations explains what they returned", ops.size());
    }
    if (serial > 2) dst::nontrivial();
    dst::cover(shape);
}
}  // namespace
const dst::ScenarioDef dst::scenario = {"I10", init, run};
