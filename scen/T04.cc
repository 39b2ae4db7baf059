// T04: bounded blocking queue.
#include "common.h"
#include "eckit/container/Queue.h"
#include <list>
using namespace scen;

namespace {
struct Interrupt { int n; };
enum Kind { PUSH, EMPLACE, POP, POPN, RESIZE, CLOSE, INTERRUPT, EMPTY, CLOSED };
struct Op { Kind k; int arg; long ret; int what; std::vector<int> vals; uint64_t inv, res; };   // what: 0 ok, 1 end, 2 interrupted, 3 assertion
struct St { std::deque<int> q; size_t max; bool closed, intr; };
std::vector<Op>* hist;
struct Pending { Kind k; int arg; };
std::list<Pending>* pend;

template <class F> void record(Kind k, int arg, F f) {
    Op o{k, arg, 0, 0, {}, 0, 0};
    std::list<Pending>::iterator me;
    { dst::Quiet z; o.inv = dst::tick(); me = pend->insert(pend->end(), {k, arg}); }
    try { f(o); }
    catch (Interrupt&) { o.what = 2; }
    catch (eckit::AssertionFailed&) { o.what = 3; }
    { dst::Quiet z; o.res = dst::tick(); hist->push_back(o); pend->erase(me); }
}
bool apply(St& s, const Op& o) {
    auto push = [&]() {
        if (s.intr) return o.what == 2;
        if (s.q.size() >= s.max) return false;
        if (s.closed) return o.what == 3;
        if (o.what) return false;
        s.q.push_back(o.arg);
        return long(s.q.size()) == o.ret;
    };
    switch (o.k) {
        case PUSH: case EMPLACE: return push();
        case POP:
            if (s.intr) return o.what == 2;
            if (s.q.empty()) return s.closed && o.what == 1;
            if (o.what || o.vals.size() != 1 || s.q.front() != o.vals[0]) return false;
            s.q.pop_front();
            return long(s.q.size()) == o.ret;
        case POPN: {
            if (s.intr) return o.what == 2;
            if (s.q.empty()) return s.closed && o.what == 1;
            if (o.what) return false;
            size_t c = std::min(size_t(o.arg), s.q.size());
            if (long(c) != o.ret) return false;
            for (size_t i = 0; i < c; ++i) { if (s.q.front() != o.vals[i]) return false; s.q.pop_front(); }
            return true;
        }
        case RESIZE:
            if (s.intr) return o.what == 2;
            if (s.q.size() > size_t(o.arg)) return false;
            if (s.closed) return o.what == 3;
            if (o.what) return false;
            s.max = size_t(o.arg);
            return true;
        case CLOSE: s.closed = true; return true;
        case INTERRUPT: s.intr = true; return true;
        case EMPTY: return (o.ret != 0) == s.q.empty();
        case CLOSED: return (o.ret != 0) == (s.closed || s.intr);
    }
    return false;
}
uint64_t hashSt(const St& s) { uint64_t h = s.max * 4 + s.closed * 2 + s.intr; for (int v : s.q) h = dst::hashMix(h, uint64_t(v)); return h; }

void run() {
    using dst::gen;
    hist = new std::vector<Op>();
    pend = new std::list<Pending>();
    dst::enableIf(dst::F_SPURIOUS, 0.5, 0.02, 0.3);
    dst::enableIf(dst::F_WAKEORDER, 0.5, 0.1, 0.6);
    size_t cap = gen(1, 3);
    int np = int(gen(1, 3)), nc = int(gen(1, 3));
    bool big = gen(0, 3) == 0;
    int per = int(big ? gen(3, 25) : gen(1, 4));
    int ending = int(gen(0, 5));     // 0..3 close, 4 close early, 5 interrupt
    int resizer = int(gen(0, 2));    // 0 none
    bool quota = gen(0, 2) == 0;     // consumers stop by themselves: whoever can proceed then has to
    if (quota) ending = 0;
    eckit::Queue<int> q(cap);
    dst::note("capacity %zu, %d producers x %d, %d consumers, ending %d, resizer %d", cap, np, per, nc, ending, resizer);
    std::vector<std::thread> prods;
    Threads rest;
    for (int p = 0; p < np; ++p) {
        std::vector<int> em;
        for (int i = 0; i < per; ++i) em.push_back(int(gen(0, 1)));
        prods.emplace_back([&q, p, per, em]() {
            for (int i = 0; i < per; ++i) {
                int v = p * 1000 + i + 1;
                record(em[size_t(i)] ? EMPLACE : PUSH, v, [&](Op& o) { o.ret = long(em[size_t(i)] ? q.emplace(v) : q.push(v)); });
                if (hist->size() && hist->back().what >= 2) { /* the queue is closed or interrupted */ }
            }
        });
    }
    for (int c = 0; c < nc; ++c) {
        size_t batch = gen(0, 2) ? 0 : gen(1, 4);
        int most = quota ? int(gen(0, 3)) : 400;
        rest.go([&q, batch, most]() {
            for (int n = 0; n < most; ++n) {
                int what = 0;
                if (!batch) record(POP, 0, [&](Op& o) { int v = 0; o.ret = q.pop(v); if (o.ret < 0) o.what = 1; else o.vals = {v}; what = o.what; });
                else record(POPN, int(batch), [&](Op& o) { std::vector<int> v(batch); o.ret = q.pop(v); if (o.ret < 0) o.what = 1; else { v.resize(size_t(o.ret)); o.vals = v; } what = o.what; });
                Op* last = nullptr;
                { dst::Quiet z; for (auto& o : *hist) last = &o; }
                (void)last;
                if (what == 1) break;
                bool intr = false;
                { dst::Quiet z; for (auto& o : *hist) if (o.k == INTERRUPT) intr = true; }
                if (intr) { record(POP, 0, [&](Op& o) { int v = 0; o.ret = q.pop(v); if (o.ret < 0) o.what = 1; else o.vals = {v}; }); break; }
            }
        });
    }
    if (resizer) {
        size_t a = gen(1, 4), b = gen(1, 4);
        rest.go([&q, a, b, resizer]() {
            record(RESIZE, int(a), [&](Op&) { q.resize(a); });
            if (resizer == 2) record(RESIZE, int(b), [&](Op&) { q.resize(b); });
            record(EMPTY, 0, [&](Op& o) { o.ret = q.empty(); });
            record(CLOSED, 0, [&](Op& o) { o.ret = q.closed(); });
        });
    }
    if (quota) {
        dst::sleepNs(3600ull * 1000000000);   // everybody has ended or waits for somebody else
        {
            dst::Quiet z;
            size_t in = 0, out = 0, max = cap;
            for (auto& o : *hist) { if ((o.k == PUSH || o.k == EMPLACE) && o.what == 0) ++in; out += o.vals.size(); if (o.k == RESIZE && o.what == 0) max = size_t(o.arg); }
            size_t size = in - out;
            for (auto& w : *pend) {
                if (w.k == PUSH || w.k == EMPLACE) DST_CHECK(size >= max, "stuck", "a producer waits although the queue holds %zu of %zu elements", size, max);
                else if (w.k == POP || w.k == POPN) DST_CHECK(size == 0, "stuck", "a consumer waits although the queue holds %zu elements", size);
                else if (w.k == RESIZE) DST_CHECK(size > size_t(w.arg), "stuck", "a resize to %d waits although the queue holds %zu elements", w.arg, size);
                else DST_CHECK(false, "stuck", "call of kind %d waits", w.k);
            }
        }
        rest.go([&q]() {   // drain
            for (int n = 0; n < 400; ++n) {
                int what = 0;
                record(POP, 0, [&](Op& o) { int v = 0; o.ret = q.pop(v); if (o.ret < 0) o.what = 1; else o.vals = {v}; what = o.what; });
                if (what) break;
            }
        });
    }
    if (ending <= 3) { for (auto& t : prods) t.join(); record(CLOSE, 0, [&](Op&) { q.close(); }); }
    else {
        uint64_t w = gen(0, 12);
        for (uint64_t i = 0; i < w; ++i) dst::yield();
        if (ending == 4) record(CLOSE, 0, [&](Op&) { q.close(); });
        else record(INTERRUPT, 0, [&](Op&) { q.interrupt(std::make_exception_ptr(Interrupt{1})); });
        for (auto& t : prods) t.join();
    }
    rest.join();

    dst::Quiet z;
    // element-wise: each accepted element at most once out; all of them once after a close
    std::map<int, int> in, out;
    bool intr = false;
    std::vector<LinOp> lo;
    for (auto& o : *hist) {
        if ((o.k == PUSH || o.k == EMPLACE) && o.what == 0) { in[o.arg]++; DST_CHECK(o.ret >= 1 && o.ret <= 4, "capacity", "push returned size %ld", o.ret); }
        for (int v : o.vals) out[v]++;
        if (o.k == INTERRUPT) intr = true;
        lo.push_back({o.inv, o.res});
    }
    for (auto& e : out) DST_CHECK(in.count(e.first) && e.second == 1, "element", "element %d delivered %d times, accepted %d", e.first, e.second, in.count(e.first) ? 1 : 0);
    if (!intr) for (auto& e : in) DST_CHECK(out.count(e.first), "lost", "element %d accepted but never delivered before the end indication", e.first);
    // per producer, one consumer: order
    if (nc == 1) {
        std::map<int, int> last;
        for (auto& o : *hist) for (int v : o.vals) { int p = v / 1000; DST_CHECK(last[p] < v % 1000, "order", "element %d delivered after %d", v, last[p]); last[p] = v % 1000; }
    }
    // after an interrupt has returned every later call reports it
    uint64_t intrDone = ~0ull;
    for (auto& o : *hist) if (o.k == INTERRUPT) intrDone = o.res;
    for (auto& o : *hist) if ((o.k <= RESIZE) && o.inv > intrDone) DST_CHECK(o.what == 2, "interrupt", "call of kind %d after the interrupt did not report it", o.k);
    if (hist->size() <= 26) {
        St s{{}, cap, false, false};
        bool ok = linearizable(s, lo, [&](St& t, size_t i) { return apply(t, (*hist)[i]); }, hashSt, 100000);
        if (!ok) {
            for (auto& o : *hist) { std::string v; for (int x : o.vals) v += " " + std::to_string(x); dst::note("op kind %d arg %d ret %ld what %d vals%s [%llu,%llu]", o.k, o.arg, o.ret, o.what, v.c_str(), (unsigned long long)o.inv, (unsigned long long)o.res); }
            dst::fail("linearizability", "no sequential order of the %zu calls explains their results", hist->size());
        }
    }
    uint64_t h = 0;
    for (auto& o : *hist) h = dst::hashMix(h, uint64_t(o.k) * 31 + uint64_t(o.what) * 7 + uint64_t(o.ret));
    dst::cover(h);
    if (hist->size() > 4) dst::nontrivial();
}
}  // namespace

const dst::ScenarioDef dst::scenario = {"T04", initMain, run};
