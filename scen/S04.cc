// S04: the on-disk tree answers like a sorted map, across processes and reopens.
#include "common.h"
#include "eckit/container/BTree.h"
#include "eckit/filesystem/PathName.h"
#include "eckit/types/FixedString.h"
using namespace scen;
using dst::gen;
namespace {
struct Big { uint64_t a, b[4]; };
template <class V> struct Val;
template <> struct Val<uint64_t> { static uint64_t make(uint64_t x) { return x; } static uint64_t id(const uint64_t& v) { return v; } };
template <> struct Val<Big> {
    static Big make(uint64_t x) { Big b; b.a = x; for (int i = 0; i < 4; ++i) b.b[i] = x * uint64_t(i + 3); return b; }
    static uint64_t id(const Big& v) { for (int i = 0; i < 4; ++i) if (v.b[i] != v.a * uint64_t(i + 3)) dst::fail("torn-value", "a value was read that nobody wrote"); return v.a; }
};
std::ostream& operator<<(std::ostream& s, const Big& b) { return s << b.a; }
template <class K> struct Key;
template <> struct Key<uint32_t> { static uint32_t make(uint64_t x) { return uint32_t(x * 3); } static uint64_t id(const uint32_t& k) { return k / 3; } };
template <> struct Key<eckit::FixedString<12>> {
    static eckit::FixedString<12> make(uint64_t x) { char b[16]; snprintf(b, sizeof b, "key%08d", int(x)); return eckit::FixedString<12>(std::string(b)); }
    static uint64_t id(const eckit::FixedString<12>& k) { return strtoull(k.asString().c_str() + 3, nullptr, 10); }
};
using Map = std::map<uint64_t, uint64_t>;
using Pairs = std::vector<std::pair<uint64_t, uint64_t>>;

template <class K, class V, int S, class L> struct Tree {
    using B = eckit::BTree<K, V, S, L>;
    std::unique_ptr<B> t;
    std::string path; off_t off; bool ro = false, careful = false;
    Tree(const std::string& p, off_t o) : path(p), off(o) {}
    void open(bool readOnly) { ro = readOnly; t.reset(new B(eckit::PathName(path), readOnly, off)); }
    void close() { if (t && !ro && (careful || gen(0, 1))) t->flush(); t.reset(); }
    bool set(uint64_t k, uint64_t v) { return t->set(Key<K>::make(k), Val<V>::make(v)); }
    bool get(uint64_t k, uint64_t& v) { V r = Val<V>::make(0); if (!t->get(Key<K>::make(k), r)) return false; v = Val<V>::id(r); return true; }
    Pairs range(uint64_t a, uint64_t b) {
        std::vector<typename B::result_type> r;
        r.push_back({Key<K>::make(1), Val<V>::make(1)});
        t->range(Key<K>::make(a), Key<K>::make(b), r);
        Pairs p;
        for (auto& e : r) p.push_back({Key<K>::id(e.first), Val<V>::id(e.second)});
        return p;
    }
};
Pairs ref(const Map& m, uint64_t a, uint64_t b) { Pairs p; for (auto i = m.lower_bound(a); i != m.end() && i->first <= b; ++i) p.push_back({i->first, i->second}); return p; }
std::string text(const Pairs& p) { std::string s; for (size_t i = 0; i < p.size() && i < 12; ++i) s += " " + std::to_string(p[i].first) + ":" + std::to_string(p[i].second); return s + " (" + std::to_string(p.size()) + ")"; }

uint64_t pickKey(uint64_t style, uint64_t i, uint64_t space) {
    switch (style) { case 0: return gen(1, space); case 1: return i + 1; case 2: return space - (i % space); default: return gen(0, 1) ? gen(1, 8) : gen(1, space); }
}
template <class T> void compare(T& t, const Map& m, uint64_t space, int n, const char* who) {
    for (int i = 0; i < n; ++i) {
        uint64_t what = gen(0, 5);
        if (what <= 2) {
            uint64_t k = gen(0, space + 1), v = 0;
            bool f = t.get(k, v);
            auto it = m.find(k);
            DST_CHECK(f == (it != m.end()), f ? "phantom" : "lost", "%s: key %llu is %s", who, (unsigned long long)k, f ? "found but was never inserted" : "not found");
            if (f) DST_CHECK(v == it->second, "wrong-value", "%s: key %llu has value %llu instead of %llu", who, (unsigned long long)k, (unsigned long long)v, (unsigned long long)it->second);
        }
        else if (what <= 4) {
            uint64_t a = gen(0, space + 1), b = gen(0, 3) ? a + gen(0, 20) : gen(0, space + 1);
            Pairs p = t.range(a, b), q = ref(m, a, b);
            if (p != q) dst::fail("wrong-range", "%s: range %llu to %llu gives%s instead of%s", who, (unsigned long long)a, (unsigned long long)b, text(p).c_str(), text(q).c_str());
        }
        else {
            size_t c = t.t->count();
            DST_CHECK(c == m.size(), "wrong-count", "%s: %zu entries counted, %zu inserted", who, c, m.size());
        }
    }
}
template <class T> void alone(T& t, T& second, uint64_t space) {
    Map m;
    t.careful = true;
    uint64_t style = gen(0, 3), ops = gen(1, 60), n = 0, reopens = 0;
    bool dirty = false;
    try {
        t.open(false);
        for (uint64_t o = 0; o < ops; ++o) {
            uint64_t op = gen(0, 9);
            if (op <= 5) {
                for (uint64_t burst = gen(0, 3) ? 1 : gen(2, 40); burst > 0; --burst) {
                    uint64_t k = pickKey(style, n, space), v = ++n * 7;
                    bool r = t.set(k, v);
                    DST_CHECK(r == (m.count(k) > 0), "replaced", "set says that key %llu was %s", (unsigned long long)k, r ? "there" : "not there");
                    m[k] = v; dirty = true;
                }
            }
            else if (op == 6) { t.t->flush(); if (gen(0, 1)) t.t->sync(); dirty = false; }
            else if (op == 7) {
                t.close(); dirty = false; ++reopens;
                bool ro = gen(0, 2) == 0;
                t.open(ro);
                if (gen(0, 3) == 0) t.t->preload();
                if (ro) { compare(t, m, space, 4, "reader"); t.close(); t.open(false); }
            }
            else if (op == 8) {
                if (dirty) { t.t->flush(); dirty = false; }
                if (!second.t || gen(0, 1)) { second.close(); second.open(true); compare(second, m, space, 3, "second opener"); if (gen(0, 1)) second.close(); }
            }
            compare(t, m, space, int(gen(0, 3)), "tree");
        }
        { Pairs p = t.range(0, space + 50), q = ref(m, 0, space + 50); if (p != q) dst::fail("wrong-range", "the whole tree gives%s instead of%s", text(p).c_str(), text(q).c_str()); }
        DST_CHECK(t.t->count() == m.size(), "wrong-count", "wrong count");
        second.close();
        t.close();
    }
    catch (std::exception& e) {
        DST_CHECK(dst::anyIoFault(), "spurious-error", "the tree fails although nothing went wrong: %s", e.what());
        dst::disableAll();
        try { second.close(); } catch (std::exception&) {}
        try { t.close(); } catch (std::exception&) {}
        return;
    }
    dst::disableAll();
    t.open(true);
    Pairs p = t.range(0, space + 50), q = ref(m, 0, space + 50);
    if (p != q) dst::fail("wrong-range", "reopened, the tree gives%s instead of%s", text(p).c_str(), text(q).c_str());
    t.close();
    if (m.size() > 8) dst::nontrivial();
    dst::cover(dst::hashMix(style * 100 + std::min<uint64_t>(9, m.size() / 8) * 10 + reopens, dst::hashMix(m.size(), n)));
}
struct Op { uint64_t inv, res, k, v, kind, n; int found; uint64_t out[40]; };
struct Sh { Op op[64]; int nops, errors; uint64_t val, space; uint64_t keys[512], vals[512]; int nkeys; int inside, ex; };
// several processes, every operation locked by the tree itself: linearizable
template <class T> void shared(const std::string& path, off_t off) {
    Sh* s = dst::sharedNew<Sh>();
    uint64_t init = gen(0, 1) ? gen(0, 12) : gen(0, 40);
    s->space = init + 8;
    Map m;
    if (init || gen(0, 1)) { T t(path, off); t.open(false); for (uint64_t i = 0; i < init; ++i) { t.set(2 * i, i + 1); m[2 * i] = i + 1; } }
    s->val = 1000;
    int nprocs = int(gen(2, 3));
    for (int p = 0; p < nprocs; ++p) {
        int n = int(gen(1, 5));
        bool ro = p > 0 && init && gen(0, 3) == 0;
        dst::spawn([=] {
            T t(path, off);
            bool opened = false;
            for (int i = 0; i < n; ++i) {
                Op* o = nullptr;
                try {
                    if (!opened || gen(0, 5) == 0) { t.close(); t.open(ro); opened = true; }
                    { dst::Quiet q; o = &s->op[s->nops++]; o->res = ~0ull; o->kind = ro ? gen(1, 3) : gen(0, 4); if (o->kind == 4) o->kind = 0; o->k = gen(0, 2 * s->space); o->v = ++s->val; o->inv = dst::tick(); }
                    uint64_t v = 0;
                    if (o->kind == 0) o->found = t.set(o->k, o->v);
                    else if (o->kind == 1) { o->found = t.get(o->k, v); o->v = v; }
                    else if (o->kind == 2) { Pairs r = t.range(o->k, o->k + 9); o->n = std::min<uint64_t>(r.size(), 20); for (uint64_t j = 0; j < o->n; ++j) { o->out[2 * j] = r[j].first; o->out[2 * j + 1] = r[j].second; } }
                    else o->n = t.t->count();
                    { dst::Quiet q; o->res = dst::tick(); }
                }
                catch (std::exception& e) { dst::Quiet q; s->errors++; dst::note("user: %s", e.what()); DST_CHECK(dst::anyIoFault(), "spurious-error", "the tree fails although nothing went wrong: %s", e.what()); return; }
                if (gen(0, 2) == 0) dst::yield();
            }
            try { t.close(); } catch (std::exception& e) { dst::Quiet q; s->errors++; }
        }, "user");
    }
    dst::joinAll();
    dst::disableAll();
    if (s->errors) return;   // interrupted operations leave the tree undefined
    T t(path, off);
    t.open(true);
    Op& last = s->op[s->nops++];
    last.inv = dst::tick(); last.kind = 5; last.res = dst::tick();
    Pairs all = t.range(0, 1000);
    size_t c = t.t->count();
    DST_CHECK(c == all.size(), "wrong-count", "%zu entries counted, %zu in range", c, all.size());
    t.close();
    std::vector<LinOp> ops;
    for (int i = 0; i < s->nops; ++i) ops.push_back({s->op[i].inv, s->op[i].res});
    bool ok = linearizable(m, ops, [&](Map& st, size_t i) {
        Op& o = s->op[i];
        auto it = st.find(o.k);
        if (o.kind == 0) { if (bool(o.found) != (it != st.end())) return false; st[o.k] = o.v; return true; }
        if (o.kind == 1) return bool(o.found) == (it != st.end()) && (!o.found || it->second == o.v);
        if (o.kind == 2) { Pairs q = ref(st, o.k, o.k + 9); if (q.size() != o.n) return false; for (uint64_t j = 0; j < o.n; ++j) if (q[j].first != o.out[2 * j] || q[j].second != o.out[2 * j + 1]) return false; return true; }
        if (o.kind == 3) return st.size() == o.n;
        return ref(st, 0, 1000) == all;
    }, [](const Map& st) { uint64_t h = st.size(); for (auto& e : st) h = dst::hashMix(h, e.first * 100003 + e.second); return h; });
    if (!ok) {
        for (int i = 0; i < s->nops; ++i) { Op& o = s->op[i]; dst::note("op %d: [%llu,%llu] kind %llu key %llu value %llu found %d n %llu", i, (unsigned long long)o.inv, (unsigned long long)o.res, (unsigned long long)o.kind, (unsigned long long)o.k, (unsigned long long)o.v, o.found, (unsigned long long)o.n); }
        dst::fail("not-a-map", "the answers that %d processes got from a locked tree are those of no sorted map", nprocs);
    }
    if (s->nops > 4) dst::nontrivial();
    dst::cover(dst::hashMix(500 + uint64_t(nprocs), dst::hashMix(init, s->nops)));
}
// sessions: whoever has locked the whole tree sees what earlier sessions left
template <class T> void sessions(const std::string& path, off_t off) {
    Sh* s = dst::sharedNew<Sh>();
    { T t(path, off); t.open(false); }
    int nprocs = int(gen(2, 4)), total = 0;
    for (int p = 0; p < nprocs; ++p) {
        int n = int(gen(1, 3));
        bool ro = p > 0 && gen(0, 2) == 0;
        total += n;
        dst::spawn([=] {
            for (int i = 0; i < n; ++i) {
                try {
                    T t(path, off);
                    t.open(ro);
                    t.t->flock();
                    Map m;
                    { dst::Quiet q; DST_CHECK(!s->ex && (ro || !s->inside), "lock-shared", "a tree that is being %s is locked for %s", s->ex ? "modified" : "read", ro ? "reading" : "modification"); s->inside++; s->ex = !ro; for (int k = 0; k < s->nkeys; ++k) m[s->keys[k]] = s->vals[k]; }
                    compare(t, m, 60, 2, "locked tree");
                    if (!ro) for (uint64_t k = gen(0, 12); k > 0; --k) {
                        uint64_t key = gen(1, 60), v; { dst::Quiet q; v = ++s->val; }
                        bool r = t.set(key, v);
                        DST_CHECK(r == (m.count(key) > 0), "replaced", "set says that key %llu was %s", (unsigned long long)key, r ? "there" : "not there");
                        m[key] = v;
                    }
                    compare(t, m, 60, 2, "locked tree");
                    if (!ro) t.t->flush();
                    { dst::Quiet q; s->inside--; s->ex = 0; if (!ro) { s->nkeys = 0; for (auto& e : m) { s->keys[s->nkeys] = e.first; s->vals[s->nkeys++] = e.second; } } }
                    t.t->funlock();
                }
                catch (std::exception& e) { dst::fail("spurious-error", "the tree fails although nothing went wrong: %s", e.what()); }
            }
        }, "session");
    }
    dst::joinAll();
    Map m;
    for (int k = 0; k < s->nkeys; ++k) m[s->keys[k]] = s->vals[k];
    T t(path, off);
    t.open(true);
    Pairs p1 = t.range(0, 1000), q1 = ref(m, 0, 1000);
    if (p1 != q1) dst::fail("wrong-range", "in the end the tree gives%s instead of%s", text(p1).c_str(), text(q1).c_str());
    if (m.size() > 3) dst::nontrivial();
    dst::cover(dst::hashMix(700 + uint64_t(nprocs), dst::hashMix(m.size(), total)));
}
template <class K, class V, int S> void kinds() {
    std::string path = dst::scratch() + "/tree";
    off_t off = 0;
    if (gen(0, 3) == 0) { off = off_t(gen(1, 300)); dst::writeFileRaw(path, std::string(size_t(off), 'h')); }
    uint64_t mode = gen(0, 4);
    if (mode <= 2) {
        dst::enableIf(dst::F_SHORTREAD, 0.1, 0.05, 0.5);
        dst::enableIf(dst::F_SHORTWRITE, 0.1, 0.05, 0.5);
        dst::enableIf(dst::F_READERR, 0.1, 0.01, 0.1);
        dst::enableIf(dst::F_WRITEERR, 0.1, 0.01, 0.1);
        dst::enableIf(dst::F_NOSPACE, 0.1, 0.01, 0.1);
        dst::enableIf(dst::F_EINTR, 0.1, 0.01, 0.2);
        dst::enableIf(dst::F_OPENERR, 0.1, 0.01, 0.2);
        uint64_t space = gen(0, 2) ? gen(5, 60) : gen(61, 400);
        if (gen(0, 1)) { using T = Tree<K, V, S, eckit::BTreeNoLock>; T a(path, off), b(path, off); alone(a, b, space); }
        else { using T = Tree<K, V, S, eckit::BTreeLock>; T a(path, off), b(path, off); alone(a, b, space); }
        if (off) { bool ok; std::string h = dst::readFileRaw(path, &ok); if (h.size() >= size_t(off)) DST_CHECK(h.compare(0, size_t(off), std::string(size_t(off), 'h')) == 0, "header", "the bytes before the tree were changed"); }
    }
    else if (mode == 3) { shared<Tree<K, V, S, eckit::BTreeLock>>(path, off); }
    else sessions<Tree<K, V, S, eckit::BTreeNoLock>>(path, off);
}
void init() { initMain(); { eckit::PathName p("/tmp/x"); (void)p.exists(); } }
void run() {
    dst::setStepLimit(2000000, 200000000);
    switch (gen(0, 4)) {
        case 0: kinds<uint32_t, uint64_t, 128>(); break;
        case 1: kinds<uint32_t, Big, 256>(); break;
        case 2: kinds<eckit::FixedString<12>, uint64_t, 192>(); break;
        case 3: kinds<uint32_t, uint64_t, 168>(); break;
        default: kinds<eckit::FixedString<12>, Big, 1024>(); break;
    }
}
}  // namespace
const dst::ScenarioDef dst::scenario = {"S04", init, run};
