// Shared helpers of the scenarios.
#pragma once
#include <algorithm>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <thread>
#include <unordered_set>
#include <vector>
#include "dst.h"
#include "eckit/exception/Exceptions.h"
#include "eckit/log/Log.h"
#include "eckit/runtime/Main.h"

namespace scen {

inline void initMain() {
    setenv("ECKIT_EXCEPTION_IS_SILENT", "1", 1);
    setenv("ECKIT_ASSERT_FAILED_IS_SILENT", "1", 1);
    setenv("ECKIT_SERIOUS_BUG_IS_SILENT", "1", 1);
    setenv("ECKIT_EXCEPTION_DUMPS_BACKTRACE", "0", 1);
    static char a0[] = "dstsim";
    static char* av[] = {a0, nullptr};
    eckit::Main::initialise(1, av, "DST_HOME");   // "~" is the scratch directory
    // the log channels are created lazily: make them now
    eckit::Log::info() << "";
    eckit::Log::warning() << "";
    eckit::Log::error() << "";
    eckit::Log::debug() << "";
    eckit::Log::status() << "";
}

// byte i of the reference stream "tag"
inline unsigned char patByte(uint64_t tag, uint64_t i) {
    uint64_t x = (i + 1) * 0x9e3779b97f4a7c15ull ^ (tag * 0xd1342543de82ef95ull);
    x ^= x >> 29; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 32;
    return static_cast<unsigned char>(x);
}
inline std::string pattern(uint64_t tag, uint64_t off, uint64_t n) {
    std::string s(n, '\0');
    for (uint64_t i = 0; i < n; ++i) s[i] = char(patByte(tag, off + i));
    return s;
}
inline size_t firstDiff(const std::string& a, const std::string& b) {
    size_t n = std::min(a.size(), b.size());
    for (size_t i = 0; i < n; ++i) if (a[i] != b[i]) return i;
    return n;
}
inline uint64_t hashStr(const std::string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }

// threads under test
struct Threads {
    std::vector<std::thread> t;
    template <class F> void go(F f) { t.emplace_back(f); }
    void join() { for (auto& x : t) x.join(); t.clear(); }
    ~Threads() { join(); }
};

// sizes: mostly small, sometimes around interesting boundaries
inline uint64_t sizeNear(uint64_t boundary, uint64_t maxv) {
    switch (dst::gen(0, 5)) {
        case 0: return dst::gen(0, 3);
        case 1: return std::min<uint64_t>(maxv, boundary);
        case 2: return std::min<uint64_t>(maxv, boundary + dst::gen(0, 2));
        case 3: return std::min<uint64_t>(maxv, boundary > 2 ? boundary - dst::gen(0, 2) : boundary);
        case 4: return dst::gen(0, std::min<uint64_t>(maxv, 3 * boundary));
        default: return dst::gen(0, maxv);
    }
}

// ---------------------------------------------------------------- linearizability (complete histories, small)
struct LinOp { uint64_t inv, res; };
// apply(state, i) returns false if operation i cannot take effect with its recorded result in this state
template <class State, class Apply, class Hash>
bool linearizable(const State& init, const std::vector<LinOp>& ops, Apply apply, Hash hash, size_t maxNodes = 300000) {
    size_t n = ops.size();
    if (n > 63) return true;
    std::unordered_set<uint64_t> seen;
    size_t nodes = 0;
    std::function<bool(uint64_t, const State&)> rec = [&](uint64_t done, const State& s) -> bool {
        if (done == (n == 64 ? ~0ull : (1ull << n) - 1)) return true;
        if (++nodes > maxNodes) return true;   // undecided counts as fine
        uint64_t minRes = ~0ull;
        for (size_t i = 0; i < n; ++i) if (!(done >> i & 1) && ops[i].res < minRes) minRes = ops[i].res;
        for (size_t i = 0; i < n; ++i) {
            if (done >> i & 1 || ops[i].inv > minRes) continue;
            State t = s;
            if (!apply(t, i)) continue;
            uint64_t d = done | (1ull << i);
            if (!seen.insert(dst::hashMix(hash(t), d)).second) continue;
            if (rec(d, t)) return true;
        }
        return false;
    };
    return rec(0, init);
}

}  // namespace scen

namespace scen {
// after everything was released, all other threads must come to their end
inline void expectAllThreadsEnded(const char* what, int base = 1) {
    for (int i = 0; i < 2000; ++i) { if (dst::liveTasks() <= base) return; dst::sleepNs(10000000); }
    dst::fail("hang:thread", "%s: %d threads are still alive", what, dst::liveTasks() - base);
}
}
