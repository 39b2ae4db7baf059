// F02: the fabric-memory map under concurrent use of different keys.
#include "fam.h"
#include "eckit/io/fam/FamMap.h"
using namespace scen;
using dst::gen;
using eckit::FamRegion;
namespace {
using Map = eckit::FamMap32;
using Key = Map::key_type;
constexpr int MAXK = 24, MAXV = 400;
// a value of a key: one entry
struct Ver { int key, len; uint64_t insBegin, insEnd, delBegin, delEnd, there, leaving; int st; };   // surely there from 'there' to 'leaving', and for a look-up of the key from insEnd to delBegin; st: 0 begun, 1 there, 2 refused
struct Sh { int nkeys, n; char name[MAXK][12]; Ver v[MAXV]; int dead[MAXK]; uint64_t tick; int ncrashed; char free[MAXK]; long put[MAXK], taken[MAXK]; int inside, insidePid, jumps, insideJumps; };   // dead: an owner of the key crashed
Sh* S;
uint64_t now() { return ++S->tick; }
std::string payload(int ver) {
    char b[32]; snprintf(b, sizeof b, "%06d:", ver);
    return b + pattern(uint64_t(ver) * 13 + 5, 0, uint64_t(S->v[ver].len));
}
// the version an entry holds
int identify(int key, const eckit::Buffer& b, const char* who) {
    dst::Quiet q;
    std::string s(static_cast<const char*>(b.data()), b.size());
    int id = -1;
    if (s.size() < 7 || sscanf(s.c_str(), "%06d:", &id) != 1 || id < 0 || id >= S->n || S->v[id].key != key || s != payload(id))
        dst::fail("made-up", "%s: key %d has a value of %zu bytes that nobody inserted for it (%s)", who, key, s.size(), s.substr(0, 7).c_str());
    if (S->v[id].st == 2) dst::fail("failed-insert", "%s: key %d has value %d although inserting it failed", who, key, id);
    return id;
}
int keyOf(const Key& k) {
    dst::Quiet q;
    std::string s = k;
    for (int i = 0; i < S->nkeys; ++i) if (s == S->name[i]) return i;
    dst::fail("made-up", "an entry with key '%s', which nobody inserted", s.c_str());
    return -1;
}
int newVer(int key) {
    dst::Quiet q;
    int id = S->n++;
    S->v[id] = Ver{key, int(gen(0, 3) ? gen(0, 40) : gen(0, 900)), now(), UINT64_MAX, UINT64_MAX, UINT64_MAX, UINT64_MAX, UINT64_MAX, 0};
    return id;
}
// a reader's findings between two moments
void seen(int key, int ver, uint64_t from, uint64_t to, const char* who) {
    dst::Quiet q;
    const Ver& v = S->v[ver];
    DST_CHECK(v.insBegin < to, "made-up", "%s: value %d of key %d is met before it was inserted", who, ver, key);
    DST_CHECK(v.delEnd > from, "back-again", "%s: value %d of key %d is met after it was erased", who, ver, key);
}
bool stable(const Ver& v, uint64_t from, uint64_t to) { return v.there < from && v.leaving > to; }
void absent(int key, uint64_t from, uint64_t to, const char* who) {
    dst::Quiet q;
    // some value was there at every moment, also while one replaced another?
    uint64_t covered = from;
    for (bool more = true; more && covered < to;) {
        more = false;
        for (int i = 0; i < S->n; ++i) {
            const Ver& v = S->v[i];
            if (v.key == key && v.st == 1 && v.insEnd <= covered && v.delBegin > covered) { covered = v.delBegin; more = true; }
        }
    }
    DST_CHECK(covered < to, "lost", "%s: key %d is not found although it was there all the time", who, key);
}
struct Mine { int key; std::vector<int> vers; bool unsure = false; };   // the entries of a key, the newest first
void lookup(const Map& m, int key, const char* who) {
    Key k(S->name[key]);
    uint64_t from; { dst::Quiet q; from = now(); }
    if (gen(0, 2)) {
        auto it = m.find(k);
        if (it == m.end()) { uint64_t to; { dst::Quiet q; to = now(); } absent(key, from, to, who); }
        else {
            auto e = *it;
            uint64_t to; { dst::Quiet q; to = now(); }
            DST_CHECK(keyOf(e.key) == key, "wrong-key", "%s: find(key %d) returns an entry of key %d", who, key, keyOf(e.key));
            seen(key, identify(key, e.value, who), from, to, who);
        }
    }
    else {
        bool c = m.contains(k);
        dst::Quiet q;
        uint64_t to = now();
        if (!c) absent(key, from, to, who);
        else {
            bool may = false;
            for (int i = 0; i < S->n; ++i) if (S->v[i].key == key && S->v[i].st != 2 && S->v[i].insBegin < to && S->v[i].delEnd > from) may = true;
            DST_CHECK(may, "back-again", "%s: key %d is contained although it was erased or never inserted", who, key);
        }
    }
}
void iterate(const Map& m, const char* who) {
    std::vector<char> met(MAXV, 0);
    uint64_t from; { dst::Quiet q; from = now(); }
    for (auto it = m.begin(); it != m.end(); ++it) {
        auto e = *it;
        dst::Quiet q;
        int k = keyOf(e.key), id = identify(k, e.value, who);
        seen(k, id, from, now(), who);
        DST_CHECK(!met[id], "twice", "%s: value %d of key %d is met twice in one iteration", who, id, k);
        met[id] = 1;
    }
    dst::Quiet q;
    uint64_t to = now();
    for (int i = 0; i < S->n; ++i) if (S->v[i].st == 1 && stable(S->v[i], from, to)) DST_CHECK(met[i], "lost", "%s: an iteration does not meet value %d of key %d", who, i, S->v[i].key);
}
void checkOwn(const Map& m, const Mine& k, const char* when) {
    if (k.unsure) return;
    Key key(S->name[k.key]);
    auto it = m.find(key);
    if (k.vers.empty()) DST_CHECK(it == m.end(), "back-again", "%s: key %d is found after it was erased", when, k.key);
    else {
        DST_CHECK(it != m.end(), "lost", "%s: key %d is not found", when, k.key);
        auto e = *it;
        int id = identify(k.key, e.value, when);
        DST_CHECK(id == k.vers.front(), "wrong-value", "%s: key %d has value %d instead of %d", when, k.key, id, k.vers.front());
    }
    uint64_t c = m.count(key);
    DST_CHECK(c == k.vers.size(), "count", "%s: key %d has %llu entries instead of %zu", when, k.key, (unsigned long long)c, k.vers.size());
}
// the owner of a key uses it
void use(Map& m, Mine& k) {
    Key key(S->name[k.key]);
    int what = int(gen(0, 9));
    if (S->n > MAXV - 40) what = 9;
    if (what <= 5) {
        int id = newVer(k.key);
        Ver& v = S->v[id];
        std::string p = payload(id);
        try {
            if (what <= 2) {
                auto r = m.insert(key, p.data(), p.size());
                DST_CHECK(r.second == k.vers.empty(), "insert", "insert of key %d, which %s, returns %d", k.key, k.vers.empty() ? "is not there" : "is there", int(r.second));
                auto e = *r.first;
                int got = identify(k.key, e.value, "insert");
                DST_CHECK(got == (r.second ? id : k.vers.front()), "wrong-value", "insert of key %d returns an iterator to value %d", k.key, got);
                dst::Quiet q;
                if (r.second) { v.st = 1; v.insEnd = v.there = now(); k.vers.insert(k.vers.begin(), id); } else v.st = 2;
            }
            else if (what <= 4) {
                if (k.vers.size() <= 1) {   // with several entries only the newest is replaced
                    if (!k.vers.empty()) { dst::Quiet q; S->v[k.vers.front()].leaving = now(); }
                    auto r = m.insertOrAssign(key, p.data(), p.size());
                    DST_CHECK(r.second == k.vers.empty(), "insert", "insertOrAssign of key %d, which %s, returns %d", k.key, k.vers.empty() ? "is not there" : "is there", int(r.second));
                    auto e = *r.first;
                    int got = identify(k.key, e.value, "insertOrAssign");
                    DST_CHECK(got == id, "wrong-value", "insertOrAssign of key %d returns an iterator to value %d", k.key, got);
                    dst::Quiet q;
                    v.st = 1; v.insEnd = v.insBegin;   // readers see the old value or the new one, never neither
                    uint64_t t = v.there = now();
                    if (!k.vers.empty()) { S->v[k.vers.front()].delEnd = t; S->v[k.vers.front()].delBegin = v.insBegin; }
                    else v.insEnd = t;
                    k.vers.assign(1, id);
                }
                else { dst::Quiet q; v.st = 2; }
            }
            else {
                auto it = m.forceInsert(key, p.data(), p.size());
                auto e = *it;
                int got = identify(k.key, e.value, "forceInsert");
                DST_CHECK(got == id, "wrong-value", "forceInsert of key %d returns an iterator to value %d", k.key, got);
                dst::Quiet q;
                v.st = 1; v.insEnd = v.there = now(); k.vers.insert(k.vers.begin(), id);
            }
        }
        catch (eckit::OutOfStorage&) {
            dst::Quiet q;
            v.st = 2;
            if (!k.vers.empty()) S->v[k.vers.front()].leaving = UINT64_MAX;
        }
    }
    else if (what <= 7) {
        { dst::Quiet q; uint64_t t = now(); for (int i : k.vers) S->v[i].delBegin = S->v[i].leaving = t; }
        uint64_t n = m.erase(key);
        DST_CHECK(n == k.vers.size(), "erase", "erasing key %d removes %llu entries instead of %zu", k.key, (unsigned long long)n, k.vers.size());
        dst::Quiet q;
        uint64_t t = now();
        for (int i : k.vers) S->v[i].delEnd = t;
        k.vers.clear();
    }
    else checkOwn(m, k, "the owner");
}
std::vector<Mine> model;   // of the root: all keys
// a key everybody uses: entries are only counted
void useFree(Map& m, int key) {
    Key k(S->name[key]);
    int what = int(gen(0, 5));
    if (S->n > MAXV - 40) what = 5;
    if (what == 5 || what == 4) {
        long n = long(m.erase(k));
        dst::Quiet q;
        S->taken[key] += n;
        return;
    }
    if (what == 3) {
        auto it = m.find(k);
        if (it != m.end()) identify(key, (*it).value, "a reader of a shared key");
        return;
    }
    int id = newVer(key);
    std::string p = payload(id);
    try {
        bool put, took = false;
        if (what == 0) put = m.insert(k, p.data(), p.size()).second;
        else if (what == 1) { took = !m.insertOrAssign(k, p.data(), p.size()).second; put = true; }
        else { m.forceInsert(k, p.data(), p.size()); put = true; }
        dst::Quiet q;
        if (put) ++S->put[key];
        if (took) ++S->taken[key];
        if (!put) S->v[id].st = 2;
    }
    catch (eckit::OutOfStorage&) { dst::Quiet q; S->v[id].st = 2; }
}
struct Back { int st; int nv; int v[30]; };   // what an owner left: 0 never used, 1 sure, 2 in use
Back* B;
void owner(const FamRegion& region, Map* shared, std::vector<int> keys, int ops, bool keep) {
    std::unique_ptr<Map> own;
    try { if (!shared) own.reset(new Map("map", region)); } catch (eckit::OutOfStorage&) { return; }
    (void)keep;
    Map& m = shared ? *shared : *own;
    std::vector<Mine> mine;
    for (int k : keys) { dst::Quiet q; Mine x; x.key = k; x.vers.assign(B[k].v, B[k].v + B[k].nv); mine.push_back(x); }
    for (int i = 0; i < ops; ++i) {
        if ((mine.empty() && gen(0, 1)) || gen(0, 7) == 0) {
            if (gen(0, 3) == 0) iterate(m, "an iteration"); else lookup(m, int(gen(0, uint64_t(S->nkeys) - 1)), "a reader");
            continue;
        }
        if (gen(0, 1)) {
            int k = int(gen(0, uint64_t(S->nkeys) - 1));
            if (S->free[k]) { { dst::Quiet q; B[k].st++; } useFree(m, k); dst::Quiet q; B[k].st--; continue; }
        }
        if (mine.empty()) continue;
        Mine& k = mine[gen(0, mine.size() - 1)];
        if (k.vers.size() > 25) continue;
        { dst::Quiet q; B[k.key].st = 2; }
        use(m, k);
        dst::Quiet q;
        B[k.key].nv = int(k.vers.size());
        std::copy(k.vers.begin(), k.vers.end(), B[k.key].v);
        B[k.key].st = 1;
    }
}
void settle(const Map& m, const char* when) {   // nobody else is at work
    std::vector<char> met(MAXV, 0);
    int total = 0, uncertain = 0;
    for (auto it = m.begin(); it != m.end(); ++it) {
        auto e = *it;
        dst::Quiet q;
        int k = keyOf(e.key), id = identify(k, e.value, when);
        DST_CHECK(!met[id], "twice", "%s: value %d of key %d is met twice", when, id, k);
        met[id] = 1;
        ++total;
    }
    for (int k = 0; k < S->nkeys; ++k) {
        Back& b = B[k];
        if (S->free[k]) {
            dst::Quiet q;
            long left = 0;
            for (int i = 0; i < S->n; ++i) if (S->v[i].key == k) { left += met[i]; if (!met[i]) S->v[i].st = 2; }
            if (b.st) { S->ncrashed += b.st; }
            else if (!S->dead[k]) DST_CHECK(left == S->put[k] - S->taken[k], "conservation", "%s: %ld entries of key %d were inserted and %ld removed by several tasks, %ld are there", when, S->put[k], k, S->taken[k], left);
            if (b.st) S->dead[k] = 1;
            b.st = 0;
            uint64_t c = m.count(Key(S->name[k]));
            DST_CHECK(long(c) == left, "count", "%s: key %d has %llu entries in an iteration and %ld are counted", when, k, (unsigned long long)left, long(c));
            DST_CHECK(m.contains(Key(S->name[k])) == (left > 0), "count", "%s: key %d has %ld entries and contains() disagrees", when, k, left);
            continue;
        }
        if (b.st == 2) {   // its owner died while using it: what is there now counts
            dst::Quiet q;
            std::vector<int> was(b.v, b.v + b.nv), is;
            for (int i = S->n - 1; i >= 0; --i) if (S->v[i].key == k && met[i]) is.push_back(i);
            for (int i : is) {
                bool had = std::count(was.begin(), was.end(), i);
                DST_CHECK(had || (S->v[i].st != 2 && S->v[i].delEnd == UINT64_MAX), "back-again", "%s: value %d of key %d is there, which was removed", when, i, k);
            }
            for (int i = 0; i < S->n; ++i) if (S->v[i].key == k) {
                if (met[i]) { S->v[i].st = 1; S->v[i].insEnd = std::min(S->v[i].insEnd, S->tick); S->v[i].there = S->tick; S->v[i].delBegin = S->v[i].leaving = UINT64_MAX; }
                else if (S->v[i].st != 2) { S->v[i].st = 2; }
            }
            b.nv = 0;
            for (int i : is) b.v[b.nv++] = i;
            b.st = 1;
            ++uncertain;
            S->ncrashed++;
        }
        Mine x; x.key = k; x.vers.assign(b.v, b.v + b.nv);
        checkOwn(m, x, when);
        dst::Quiet q;
        for (int i = 0; i < S->n; ++i) if (S->v[i].key == k) {
            bool has = std::count(x.vers.begin(), x.vers.end(), i);
            DST_CHECK(has == !!met[i], has ? "lost" : "back-again", "%s: value %d of key %d is %s", when, i, k, has ? "not met in an iteration" : "met in an iteration");
        }
    }
    long size = long(m.size());
    DST_CHECK(size >= total - 2 * S->ncrashed && size <= total + 2 * S->ncrashed, "size", "%s: the size is %ld and there are %d entries", when, size, total);
    if (!S->ncrashed) DST_CHECK(m.empty() == (total == 0), "size", "%s: empty() is %d and there are %d entries", when, int(m.empty()), total);
    dst::cover(dst::hashMix(uint64_t(total), uint64_t(size)));
}
void oneRun() {
    S = dst::sharedNew<Sh>();
    B = reinterpret_cast<Back*>(dst::sharedNew<std::array<Back, MAXK>>());
    bool small = gen(0, 7) == 0, crashes = gen(0, 3) == 0;
    famSize(small ? gen(33000, 38000) : 131072);
    dst::setStepLimit(400000, 8000000);
    {   // keys of a few buckets
        dst::Quiet q;
        bool sharedKeys = gen(0, 2) == 0;
        int nb = int(gen(1, 4)), first = int(gen(0, 1023));
        S->nkeys = int(gen(1, MAXK));
        for (int i = 0, c = 0; i < S->nkeys; ++c) {
            char b[12]; snprintf(b, sizeof b, "k%d", c);
            if (int((Map::hash_type{}(Key(b)) + 1024 - uint64_t(first)) % 1024) < nb) { S->free[i] = sharedKeys && gen(0, 2) == 0; strcpy(S->name[i++], b); }
        }
    }
    // the processes under test open their own sessions, unless the region is made here
    bool late = gen(0, 1);
    std::unique_ptr<FamRegion> region;
    if (late) { dst::spawn([] { famCreate(1 << 20); }, "creator"); dst::joinAll(); }
    else region.reset(new FamRegion(famCreate(1 << 20)));
    if (crashes) { dst::enableIf(dst::F_CRASH, 1, 0.0005, 0.01); dst::faultBudget(dst::F_CRASH, 2); }
    int phases = int(gen(1, 3));
    std::unique_ptr<Map> mine;
    for (int ph = 0; ph < phases; ++ph) {
        int nprocs = int(gen(1, 3)), tasks = 0;
        std::vector<std::vector<int>> nthreads;
        std::vector<int> per;
        for (int p = 0; p < nprocs; ++p) { per.push_back(int(gen(1, 3))); tasks += per.back(); }
        std::vector<std::vector<int>> keys(tasks);
        for (int k = 0; k < S->nkeys; ++k) if (!S->free[k]) keys[gen(0, uint64_t(tasks) - 1)].push_back(k);
        for (int p = 0, t = 0; p < nprocs; t += per[p], ++p) {
            std::vector<std::vector<int>> mk(keys.begin() + t, keys.begin() + t + per[p]);
            bool shared = gen(0, 1), own = late || gen(0, 1), each = own && gen(0, 1);
            int ops = int(gen(1, 12));
            dst::spawn([=, &region] {
                dst::crashable(crashes);
                try {
                    std::unique_ptr<FamRegion> r;
                    if (!each) r.reset(new FamRegion(own ? famOpen() : *region));
                    std::unique_ptr<Map> m;
                    if (shared && !each) m.reset(new Map("map", *r));
                    Threads ts;
                    for (auto& ks : mk) ts.go([&, ks] { try { owner(each ? famOpen() : *r, m.get(), ks, ops, false); } catch (eckit::OutOfStorage&) {} });
                }
                catch (eckit::OutOfStorage&) {}
                dst::crashable(false);
            }, "user");
        }
        dst::joinAll();
        if (!region) region.reset(new FamRegion(famOpen()));
        if (!mine) { try { mine.reset(new Map("map", *region)); } catch (eckit::OutOfStorage&) { return; } }
        settle(*mine, "after concurrent use");
        if (S->n > 3) dst::nontrivial();
        if (gen(0, 4) == 0) {   // the lock of the map
            int nt = int(gen(2, 4)), rounds = int(gen(1, 3));
            bool jumps = gen(0, 1), expire = gen(0, 3) == 0, dies = crashes && gen(0, 1);
            S->inside = 0;
            std::vector<int> procs;
            for (int t = 0; t < nt; ++t)
                procs.push_back(dst::spawn([=, &region, &mine] {
                    dst::crashable(dies);
                    Map m("map", *region);
                    for (int i = 0; i < rounds; ++i) {
                        int before; { dst::Quiet q; before = S->jumps; }
                        m.lock();
                        { dst::Quiet q; DST_CHECK(!S->inside || !dst::procAlive(S->insidePid) || S->insideJumps != S->jumps || before != S->jumps, "lock", "two tasks hold the lock of the map at the same time"); S->inside = 1; S->insidePid = dst::process(); S->insideJumps = before; }
                        for (int k = int(gen(0, 2) ? gen(0, 3) : gen(0, 60)); k > 0; --k) dst::yield();
                        { dst::Quiet q; if (S->insidePid == dst::process()) S->inside = 0; }
                        m.unlock();
                    }
                    dst::crashable(false);
                }, "locker"));
            // clocks may go back, and forward when somebody has died, or anyway: that ends the lease of a living holder
            for (int i = 0, c = 0;; ++c) {
                bool any = false;
                for (int p : procs) any = any || dst::procAlive(p);
                if (!any) break;
                bool dead = dst::fired(dst::F_CRASH) > 0;   // perhaps in an earlier phase
                if ((dead || expire) && c % 40 == 39) { { dst::Quiet q; ++S->jumps; } dst::jumpWall(40000000000ll); }
                else if (jumps && i < 5 && gen(0, 3) == 0) { ++i; dst::jumpWall(-int64_t(gen(1, 5)) * 1000000000ll); }
                dst::yield();
            }
            dst::joinAll();
        }
        if (gen(0, 3) == 0) {   // alone: copy into another map, clear
            if (gen(0, 1)) {
                try {
                    Map other("other", *region);
                    other.merge(*mine);
                    std::set<int> ks;
                    for (auto it = other.begin(); it != other.end(); ++it) { auto e = *it; int k = keyOf(e.key); int id = identify(k, e.value, "merge"); bool fresh = ks.insert(k).second; DST_CHECK(fresh && (S->free[k] ? id >= 0 : B[k].nv && std::count(B[k].v, B[k].v + B[k].nv, id)), "merge", "the merged map has an entry it should not have"); }
                    int n = 0;
                    for (int k = 0; k < S->nkeys; ++k) n += S->free[k] ? mine->contains(Key(S->name[k])) : B[k].nv > 0;
                    DST_CHECK(int(ks.size()) == n && int(other.size()) == n, "merge", "the merged map has %zu entries and the size %d instead of %d", ks.size(), int(other.size()), n);
                    other.clear();
                    DST_CHECK(other.size() == 0 && other.begin() == other.end(), "clear", "a cleared map is not empty");
                }
                catch (eckit::OutOfStorage&) {}
            }
            if (gen(0, 1)) {
                if (dst::fired(dst::F_CRASH)) dst::jumpWall(70000000000ll);   // nobody holds the lock any more
                mine->clear();
                for (int k = 0; k < S->nkeys; ++k) B[k].nv = 0, S->put[k] = S->taken[k] = 0, S->dead[k] = 0;
                { dst::Quiet q; for (int i = 0; i < S->n; ++i) { S->v[i].st = 2; } S->ncrashed = 0; }
                settle(*mine, "after clear");
            }
        }
    }
}
}  // namespace
namespace dst { const ScenarioDef scenario = {"F02", initMain, oneRun}; }
