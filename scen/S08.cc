// S08: values pushed on a recycler are popped whole, at most once, by one of its users, across threads, processes and crashes.
#include <unistd.h>
#include "common.h"
#include "eckit/container/Recycler.h"
#include "eckit/filesystem/PathName.h"
using namespace scen;
using dst::gen;
namespace {
constexpr int MAXOPS = 24, MAXV = 6;
enum { PUSH, POP };
template <int N> struct Val {
    uint64_t id; unsigned char fill[N];
    Val() {}
    explicit Val(uint64_t i) : id(i) { for (int k = 0; k < N; ++k) fill[k] = patByte(i, uint64_t(k)); }
    bool sound() const { for (int k = 0; k < N; ++k) if (fill[k] != patByte(id, uint64_t(k))) return false; return id > 0 && id < 1000; }
};
struct Op { int used, kind, n, got, proc, state; uint64_t v[MAXV], inv, res; };   // state: 0 pending, 1 returned, 2 threw
struct Sh { Op op[MAXOPS]; int nops; uint64_t next; };
Sh* S = nullptr;
bool faulty = false;

template <class T> int use(eckit::Recycler<T>& r, int kind, int n, int how) {
    Op* o = nullptr;
    std::vector<T> vals;
    {
        dst::Quiet q;
        if (S->nops >= MAXOPS) return -1;
        o = &S->op[S->nops++];
        o->kind = kind; o->n = n; o->proc = dst::process();
        if (kind == PUSH) for (int i = 0; i < n; ++i) { o->v[i] = ++S->next; vals.emplace_back(o->v[i]); }
        o->inv = dst::tick();
        o->used = 1;
    }
    int state = 1;
    eckit::Ordinal got = 0;
    std::string what;
    std::vector<T> out;
    try {
        if (kind == PUSH) { if (n == 1 && how) r.push(vals[0]); else r.push(vals.begin(), vals.end()); }
        else if (n == 1 && how == 1) { T v; got = r.pop(v) ? 1 : 0; if (got) out.push_back(v); }
        else if (how == 2) { out.resize(size_t(n)); got = r.pop(out.begin(), eckit::Ordinal(n)); out.resize(size_t(got)); }
        else got = r.pop(std::back_inserter(out), eckit::Ordinal(n));
    }
    catch (std::exception& e) { state = 2; what = e.what(); }
    dst::Quiet q;
    if (state == 2) DST_CHECK(faulty && dst::anyIoFault(), "spurious-error", "a recycler fails although nothing went wrong: %s", what.c_str());
    if (state == 1 && kind == POP) {
        DST_CHECK(got <= eckit::Ordinal(n) && size_t(got) == out.size(), "count", "%d values were asked, %d reported and %zu delivered", n, int(got), out.size());
        for (auto& v : out) DST_CHECK(v.sound(), "torn-value", "a popped value is not one that was pushed");
    }
    o->got = int(got);
    if (kind == POP && state == 1) for (size_t i = 0; i < out.size(); ++i) o->v[i] = out[i].id;
    o->res = dst::tick();
    o->state = state;
    return int(o - S->op);
}
template <class T> void process(const std::string& path, int nthreads, int nops, bool own, bool locks) {
    using R = eckit::Recycler<T>;
    std::unique_ptr<R> shared;
    if (!own) try { shared.reset(new R(path)); } catch (std::exception&) { dst::Quiet q; DST_CHECK(faulty && dst::anyIoFault(), "spurious-error", "a recycler cannot be opened although nothing went wrong"); return; }
    auto body = [&] {
        std::unique_ptr<R> mine;
        for (int i = 0; i < nops; ++i) {
            if (own && (!mine || gen(0, 2) == 0)) { mine.reset(); try { mine.reset(new R(path)); } catch (std::exception&) { dst::Quiet q; DST_CHECK(faulty && dst::anyIoFault(), "spurious-error", "a recycler cannot be opened although nothing went wrong"); continue; } }
            R& r = own ? *mine : *shared;
            if (locks && gen(0, 3) == 0) {   // a user's own lock around several calls: nothing comes between
                try { r.lock(); } catch (std::exception&) { dst::Quiet q; DST_CHECK(faulty && dst::anyIoFault(), "spurious-error", "a recycler cannot be locked although nothing went wrong"); continue; }
                // a batch of its own: what it pushed is on top
                uint64_t id = 0;
                bool ok = false;
                int at;
                { dst::Quiet q; at = S->nops; }
                if (at + 4 < MAXOPS) {
                    int p = use(r, PUSH, 1, 1);
                    dst::yield();
                    int g = use(r, POP, 1, int(gen(0, 2)));
                    dst::Quiet q;
                    if (p >= 0 && g >= 0 && S->op[p].state == 1 && S->op[g].state == 1) {
                        id = S->op[p].v[0]; ok = S->op[g].got == 1 && S->op[g].v[0] == id;
                        DST_CHECK(ok, "lock-broken", "while a user holds the recycler another one uses it");
                    }
                }
                r.unlock();
            }
            else use(r, gen(0, 1) ? POP : PUSH, int(gen(1, MAXV / (gen(0, 1) + 1))), int(gen(0, 2)));
        }
    };
    if (nthreads == 1) body();
    else { Threads th; for (int t = 0; t < nthreads; ++t) th.go(body); }
}
using St = std::vector<uint64_t>;
// variants of what a call may have done: -1 ends the list
bool apply(St& s, const Op& o, int variant) {
    if (o.kind == PUSH) {
        int k = o.n;   // how many of its values got in
        if (o.state == 1) { if (variant) return false; }
        else k = variant;   // died: any whole prefix; refused: nothing, or what could not be withdrawn
        for (int i = 0; i < k; ++i) s.push_back(o.v[i]);
        return true;
    }
    size_t k = std::min(s.size(), size_t(o.n));
    if (o.state == 1) {
        if (variant || size_t(o.got) != k) return false;
        if (k && memcmp(&s[s.size() - k], o.v, k * sizeof(uint64_t))) return false;
        s.resize(s.size() - k);
        return true;
    }
    if (variant == 1) s.resize(s.size() - k);   // died after taking them
    return true;
}
int variants(const Op& o) {
    if (o.state == 1) return 1;
    if (o.state == 2) return o.kind == PUSH && dst::fired(dst::F_NOSPACE) ? o.n + 1 : 1;   // the withdrawal itself may be refused
    return o.kind == PUSH ? o.n + 1 : 2;
}
bool undecided = false;
bool explained(const std::vector<Op>& ops) {
    size_t n = ops.size(), nodes = 0;
    std::unordered_set<uint64_t> seen;
    std::function<bool(uint64_t, const St&)> rec = [&](uint64_t done, const St& s) -> bool {
        if (done == (1ull << n) - 1) return true;
        if (++nodes > 40000) { undecided = true; return true; }   // undecided counts as fine
        uint64_t minRes = ~0ull;
        for (size_t i = 0; i < n; ++i) if (!(done >> i & 1) && ops[i].res < minRes) minRes = ops[i].res;
        for (size_t i = 0; i < n; ++i) {
            if (done >> i & 1 || ops[i].inv > minRes) continue;
            for (int v = 0; v < variants(ops[i]); ++v) {
                St t = s;
                if (!apply(t, ops[i], v)) continue;
                uint64_t h = done | 1ull << i;
                for (auto x : t) h = dst::hashMix(h, x);
                if (!seen.insert(h).second) continue;
                if (rec(done | 1ull << i, t)) return true;
            }
        }
        return false;
    };
    return rec(0, {});
}
template <class T> void scenario() {
    S = dst::sharedNew<Sh>();
    int nprocs = int(gen(1, 4)), nthreads = int(gen(1, 3));
    bool crashes = gen(0, 1), locks = gen(0, 1);
    faulty = gen(0, 1);
    std::string path = dst::scratch() + (gen(0, 1) ? "/bin" : "/a/b/bin");
    if (faulty) {
        dst::enableIf(dst::F_SHORTREAD, 0.3, 0.05, 0.5);
        dst::enableIf(dst::F_SHORTWRITE, 0.4, 0.05, 0.5);
        dst::enableIf(dst::F_READERR, 0.2, 0.01, 0.2);
        dst::enableIf(dst::F_WRITEERR, 0.3, 0.01, 0.2);
        dst::enableIf(dst::F_NOSPACE, 0.2, 0.01, 0.2);
        dst::enableIf(dst::F_OPENERR, 0.1, 0.01, 0.2);
        dst::enableIf(dst::F_EINTR, 0.3, 0.02, 0.4);
    }
    if (crashes) { dst::enableIf(dst::F_CRASH, 0.9, 0.002, 0.05); dst::enableIf(dst::F_SHORTWRITE, 0.3, 0.05, 0.5); faulty = true; }
    for (int p = 0; p < nprocs; ++p) {
        bool own = gen(0, 1), c = crashes && gen(0, 1);
        int t = int(gen(1, uint64_t(nthreads))), n = int(gen(1, 3));
        dst::spawn([=] { dst::crashable(c); process<T>(path, t, n, own, locks); dst::crashable(false); }, "user");
    }
    dst::joinAll();
    dst::disableAll();
    faulty = false;
    // a last user takes everything that is left
    dst::spawn([=] {
        eckit::Recycler<T> r(path);
        if (gen(0, 1)) use(r, PUSH, 1, 1);
        for (int i = 0; i < MAXOPS * MAXV; ++i) { int at = S->nops; use(r, POP, MAXV, int(gen(0, 2))); if (at >= MAXOPS || S->op[at].got == 0) break; }
    }, "last");
    dst::joinAll();
    std::vector<Op> ops;
    int popped = 0, died = 0, threw = 0;
    std::set<uint64_t> seen;
    for (int i = 0; i < S->nops; ++i) {
        Op o = S->op[i];
        if (!o.used) continue;
        if (o.state == 0) { o.res = ~0ull; ++died; }
        if (o.state == 2) ++threw;
        if (o.kind == POP && o.state == 1) for (int k = 0; k < o.got; ++k) { ++popped; DST_CHECK(seen.insert(o.v[k]).second, "popped-twice", "value %d was popped twice", int(o.v[k])); }
        ops.push_back(o);
    }
    dst::Quiet q;
    if (!explained(ops)) {
        for (auto& o : ops) {
            std::string t;
            for (int k = 0; k < (o.kind == PUSH ? o.n : o.got); ++k) t += " " + std::to_string(o.v[k]);
            dst::note("%llu-%llu process %d %s %d: state %d,%s", (unsigned long long)o.inv, (unsigned long long)o.res, o.proc, o.kind == PUSH ? "push" : "pop", o.n, o.state, t.c_str());
        }
        dst::fail("history", "no order of the %zu calls explains what was popped", ops.size());
    }
    if (ops.size() > 3 && popped > 1 && !undecided) dst::nontrivial();
    dst::cover(dst::hashMix(uint64_t(nprocs * 10 + nthreads), dst::hashMix(uint64_t(ops.size() * 100 + popped), uint64_t(died * 10 + threw))));
}
void init() { initMain(); { eckit::PathName p("/tmp/x"); (void)p.exists(); (void)p.dirName(); } }
void run() {
    switch (gen(0, 2)) {
        case 0: scenario<Val<1>>(); break;
        case 1: scenario<Val<24>>(); break;
        default: scenario<Val<5000>>(); break;
    }
}
}  // namespace
const dst::ScenarioDef dst::scenario = {"S08", init, run};
