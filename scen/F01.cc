// F01: concurrent insertions into a fabric-memory list.
#include "fam.h"
#include "eckit/io/fam/FamList.h"
using namespace scen;
using dst::gen;
using eckit::FamList;
using eckit::FamRegion;
namespace {
constexpr int MAXE = 200, MAXU = 24;
enum St { NONE, STARTED, DONE, FAILED };
struct Elem { int uid, seq, front, len, st, crashedIn; };
struct Sh { int nuid, n; Elem e[MAXE]; int popsDone, popsBegun; char erased[MAXE]; };   // erased: 1 begun, 2 done
Sh* S;
// an element: its number, then a pattern
std::string payload(int id) {
    uint64_t h = dst::hashMix(uint64_t(id) * 31 + 7, 1);
    char b[32]; snprintf(b, sizeof b, "%06d:", id);
    return b + pattern(h, 0, uint64_t(S->e[id].len));
}
int identify(const eckit::Buffer& b, const char* who) {
    std::string s(static_cast<const char*>(b.data()), b.size());
    int id = -1;
    if (s.size() < 7 || sscanf(s.c_str(), "%06d:", &id) != 1 || id < 0 || id >= S->n || s != payload(id)) {
        dst::Quiet q;
        dst::fail("made-up", "%s: an element of %zu bytes that nobody inserted (%s)", who, s.size(), s.substr(0, 7).c_str());
    }
    return id;
}
// walk the list; the elements met
std::vector<int> walk(const FamList& l, bool forward, const char* who) {
    std::vector<int> v;
    if (forward)
        for (auto it = l.begin(); it != l.end(); ++it) {
            v.push_back(identify(*it, who));
            if (v.size() > MAXE) { dst::Quiet q; dst::fail("endless", "%s: a traversal does not end", who); }
        }
    else {
        auto head = l.descriptor().head;
        auto it = l.end();
        for (--it; it->offset() != head; --it) {
            v.push_back(identify(*it, who));
            if (v.size() > MAXE) { dst::Quiet q; dst::fail("endless", "%s: a backward traversal does not end", who); }
        }
    }
    return v;
}
void checkOrder(const std::vector<int>& v, const char* who, bool backward = false) {
    dst::Quiet q;
    std::vector<int> pos(S->n, -1);
    for (size_t i = 0; i < v.size(); ++i) {
        DST_CHECK(pos[v[i]] < 0, "twice", "%s: element %d is met twice", who, v[i]);
        DST_CHECK(S->e[v[i]].st != FAILED, "failed-insert", "%s: element %d is there although inserting it failed", who, v[i]);
        pos[v[i]] = backward ? int(v.size() - 1 - i) : int(i);
    }
    for (int a = 0; a < S->n; ++a)
        for (int b = a + 1; b < S->n; ++b) {
            if (pos[a] < 0 || pos[b] < 0 || S->e[a].uid != S->e[b].uid) continue;
            if (S->e[a].front && S->e[b].front) DST_CHECK(pos[b] < pos[a], "order", "%s: element %d was inserted at the front after %d by the same inserter and comes behind it", who, b, a);
            if (!S->e[a].front && !S->e[b].front) DST_CHECK(pos[a] < pos[b], "order", "%s: element %d was inserted at the back after %d by the same inserter and comes before it", who, b, a);
            if (S->e[a].front != S->e[b].front) { int f = S->e[a].front ? a : b, k = f == a ? b : a; DST_CHECK(pos[f] < pos[k], "order", "%s: element %d, inserted at the front, comes behind %d, inserted at the back", who, f, k); }
        }
}
void push(FamList& l, int uid, int seq, int end = -1) {
    int id;
    {
        dst::Quiet q;
        if (S->n >= MAXE) return;
        id = S->n++;
        Elem& e = S->e[id];
        e.uid = uid; e.seq = seq; e.front = end >= 0 ? end : int(gen(0, 1)); e.len = int(gen(0, 3) ? gen(0, 40) : gen(0, 1000)); e.st = STARTED;
    }
    Elem& e = S->e[id];
    try {
        std::string p = payload(id);
        switch (gen(0, 2)) {
            case 0: e.front ? l.pushFront(p) : l.pushBack(p); break;
            case 1: e.front ? l.pushFront(p.data(), p.size()) : l.pushBack(p.data(), p.size()); break;
            default: { eckit::Buffer b(p.data(), p.size()); e.front ? l.pushFront(b) : l.pushBack(b); }
        }
        e.st = DONE;
    }
    catch (eckit::OutOfStorage&) { e.st = FAILED; }
}
void reader(const FamList& l, int times) {
    for (int i = 0; i < times; ++i) {
        std::vector<char> must(MAXE, 0);
        bool forward = gen(0, 2) != 0;
        checkOrder(walk(l, forward, "a reader"), "a reader", !forward);
        if (gen(0, 1)) dst::sleepNs(gen(0, 3000) * 1000);
    }
}
std::vector<int> model;      // of the root
int sizeLo = 0, sizeHi = 0;
bool crashed = false, used = false;   // used: elements were removed
void settle(const FamList& l, const char* when) {   // nobody else is at work
    std::vector<int> v = walk(l, true, when);
    checkOrder(v, when);
    std::set<int> there(v.begin(), v.end());
    int crashedPushes = 0;
    for (int i = 0; i < S->n; ++i) {
        if (S->e[i].st == STARTED) { ++crashedPushes; crashed = true; S->e[i].st = there.count(i) ? DONE : FAILED; }
        bool was = std::count(model.begin(), model.end(), i);
        bool fresh = S->e[i].seq >= 0;
        if (S->e[i].st == DONE && (was || fresh)) DST_CHECK(there.count(i), "lost", "%s: element %d was inserted and is not met", when, i);
        else DST_CHECK(!there.count(i), "back-again", "%s: element %d is met, which was not inserted or was removed", when, i);
        S->e[i].seq = -1;
    }
    // elements that were there before keep their order
    std::vector<int> old;
    for (int x : v) if (std::count(model.begin(), model.end(), x)) old.push_back(x);
    DST_CHECK(old == model, "order", "%s: the elements that were there before changed their order", when);
    model = v;
    uint64_t size = l.size();
    sizeHi = int(v.size());
    sizeLo = crashed ? std::max(0, sizeHi - 8) : sizeHi;
    if (!crashed || !used) DST_CHECK(int(size) >= sizeLo && int(size) <= sizeHi, "size", "%s: the size is %llu and there are %zu elements", when, (unsigned long long)size, v.size());
    DST_CHECK(l.empty() == v.empty(), "size", "%s: empty() is %d and there are %zu elements", when, int(l.empty()), v.size());
    if (!crashed) {
        std::vector<int> b = walk(l, false, when);
        std::reverse(b.begin(), b.end());
        DST_CHECK(b == v, "backward", "%s: a backward traversal meets %zu elements, a forward one %zu", when, b.size(), v.size());
        if (!v.empty()) DST_CHECK(identify(l.back(), when) == v.back(), "back", "%s: back() is not the last element", when);
    }
    if (!v.empty()) DST_CHECK(identify(l.front(), when) == v.front(), "front", "%s: front() is not the first element", when);
    dst::cover(dst::hashMix(v.size(), uint64_t(size)));
}
FamList openList(const FamRegion& region, const FamList::Descriptor* d) { return d ? FamList(region, *d) : FamList(region, "list"); }
void oneRun() {
    S = dst::sharedNew<Sh>();
    bool small = gen(0, 7) == 0, crashes = gen(0, 3) == 0;
    famSize(small ? gen(300, 3000) : 65536);
    dst::setStepLimit(200000, 8000000);
    FamRegion region = famCreate(1 << 20);
    std::unique_ptr<FamList> mine;
    FamList::Descriptor desc{};
    bool late = gen(0, 2) == 0;   // the list is made by whoever comes first
    if (!late) { mine.reset(new FamList(region, "list")); desc = mine->descriptor(); }
    if (crashes) { dst::enableIf(dst::F_CRASH, 1, 0.0005, 0.01); dst::faultBudget(dst::F_CRASH, 2); }
    int phases = int(gen(1, 4));
    for (int ph = 0; ph < phases; ++ph) {
        int kind = ph == 0 ? 0 : int(gen(0, 7));
        if (kind <= 1) {   // insertions at both ends, with readers
            int nprocs = int(gen(1, 3)), first = 1;
            auto body = [&](int nthreads, bool shared, bool byName, bool own) {
                std::unique_ptr<FamList> common;
                FamRegion r = own ? famOpen() : region;
                if (shared) common.reset(new FamList(openList(r, byName ? nullptr : &desc)));
                Threads ts;
                for (int t = 0; t < nthreads; ++t) {
                    int uid; { dst::Quiet q; uid = ++S->nuid; }
                    ts.go([&, uid] {
                        std::unique_ptr<FamList> l;
                        if (!shared) { try { l.reset(new FamList(openList(own && gen(0, 1) ? famOpen() : r, byName ? nullptr : &desc))); } catch (eckit::OutOfStorage&) { return; } }
                        FamList& list = shared ? *common : *l;
                        if (gen(0, 3) == 0) reader(list, int(gen(1, 3)));
                        else for (int i = 0, n = int(gen(1, 6)); i < n; ++i) { push(list, uid, i); if (gen(0, 7) == 0) reader(list, 1); }
                    });
                }
                ts.join();
            };
            for (int p = 0; p < nprocs; ++p) {
                int nthreads = int(gen(1, 3)); bool sh = gen(0, 1), bn = late || gen(0, 1), own = gen(0, 1);
                dst::spawn([=] { dst::crashable(crashes); try { body(nthreads, sh, bn, own); } catch (eckit::OutOfStorage&) {} dst::crashable(false); }, "inserter");
            }
            (void)first;
            if (!late && gen(0, 2) == 0) { try { body(1, true, gen(0, 1), false); } catch (eckit::OutOfStorage&) {} }
            dst::joinAll();
            if (!mine) { try { mine.reset(new FamList(region, "list")); } catch (eckit::OutOfStorage&) { return; } desc = mine->descriptor(); late = false; }
            settle(*mine, "after insertions");
        }
        else if (kind == 2) {   // one task uses the list alone
            used = true;
            FamList l = openList(region, gen(0, 1) ? &desc : nullptr);
            for (int i = 0, n = int(gen(1, 8)); i < n; ++i) {
                int what = int(gen(0, 5));
                if (what <= 1) {
                    int id = S->n;
                    push(l, ++S->nuid, 0);
                    if (id < S->n && S->e[id].st == DONE) model.insert(S->e[id].front ? model.begin() : model.end(), id);
                }
                else if (model.empty()) {
                    bool thrown = false;
                    try { if (what == 2) l.popFront(); else if (what == 3) l.popBack(); else if (what == 4) l.front(); else l.back(); } catch (eckit::AssertionFailed&) { thrown = true; }
                    DST_CHECK(thrown, "empty", "removing from an empty list is no error");
                }
                else if (what == 2) { l.popFront(); model.erase(model.begin()); }
                else if (what == 3 && !crashed) { l.popBack(); model.pop_back(); }
                else if (what == 4) {
                    size_t k = gen(0, model.size() - 1);
                    auto it = l.begin();
                    for (size_t j = 0; j < k; ++j) ++it;
                    auto after = l.erase(std::move(it));
                    model.erase(model.begin() + long(k));
                    if (k == model.size()) DST_CHECK(after == l.end(), "erase", "erasing the last element does not return the end");
                    else DST_CHECK(identify(*after, "erase") == model[k], "erase", "erase returns an iterator to another element than the next one");
                }
                else if (gen(0, 3) == 0) { l.clear(); model.clear(); }
                settle(*mine, "used by one task");
            }
        }
        else if (kind >= 5 && model.size() >= 2) {   // removals while elements are inserted
            // 0: a queue; 1: a queue the other way; 2: pops and pushes at both ends; 3: elements erased, some by several tasks
            int mode = int(gen(0, 3));
            used = true;
            int npop = int(gen(1, 3)), left = mode == 3 ? 0 : int(gen(1, model.size()));
            S->popsDone = S->popsBegun = 0;
            memset(S->erased, 0, sizeof S->erased);
            std::vector<int> before = model;
            auto remover = [&desc, mode, before](const FamRegion& r, int pops) {
                FamList l = openList(r, &desc);
                for (int i = 0; i < pops; ++i) {
                    { dst::Quiet q; ++S->popsBegun; }
                    mode == 0 || (mode == 2 && gen(0, 1)) ? l.popFront() : l.popBack();
                    { dst::Quiet q; ++S->popsDone; }
                }
                if (mode == 3)
                    for (int i = 0, n = int(gen(1, 4)); i < n; ++i) {
                        int id = before[gen(0, before.size() - 1)], met = -1;
                        for (auto it = l.begin(); it != l.end(); ++it)
                            if ((met = identify(*it, "a remover")) == id) {
                                { dst::Quiet q; if (!S->erased[id]) S->erased[id] = 1; }
                                auto after = l.erase(std::move(it));
                                { dst::Quiet q; S->erased[id] = 2; }
                                if (after != l.end()) { int k = identify(*after, "erase"); DST_CHECK(k != id, "erase", "erasing element %d returns an iterator to it", id); }
                                break;
                            }
                        dst::Quiet q;
                        if (met != id) DST_CHECK(S->erased[id], "missed", "a traversal misses element %d, which nobody has erased", id);
                    }
            };
            int nt = npop + int(gen(1, 3));
            for (int t = 0; t < nt; ++t) {
                int k = t < npop ? (t == npop - 1 ? left : int(gen(0, left))) : 0;
                if (t < npop) left -= k;
                bool rm = t < npop, own = gen(0, 1);
                int uid = ++S->nuid;
                auto f = [&, k, rm, own, uid, mode] {
                    FamRegion r = own ? famOpen() : region;
                    if (rm) return remover(r, k);
                    FamList l = openList(r, &desc);
                    for (int i = 0, n = int(gen(1, 6)); i < n; ++i) push(l, uid, i, mode == 0 ? 0 : mode == 1 ? 1 : -1);
                };
                dst::spawn([=] { dst::crashable(crashes); try { if (t == 0 && gen(0, 1)) { Threads ts; ts.go(f); ts.join(); } else f(); } catch (eckit::OutOfStorage&) {} dst::crashable(false); }, rm ? "remover" : "inserter");
            }
            if (gen(0, 1)) reader(*mine, 1);
            dst::joinAll();
            // what was there before and is not any more
            std::vector<int> v = walk(*mine, true, "after removals and insertions");
            std::set<int> there(v.begin(), v.end());
            int gone = 0, unsure = 0;   // unsure: the inserter died, and the element may have been inserted and removed
            for (int i = 0; i < S->n; ++i) {
                if (S->e[i].seq >= 0 && S->e[i].st == STARTED && !there.count(i)) ++unsure;
                if (S->e[i].seq < 0 ? !std::count(before.begin(), before.end(), i) : S->e[i].st != DONE) continue;
                bool is = there.count(i);
                if (mode == 3) {
                    if (S->erased[i] == 2) DST_CHECK(!is, "back-again", "element %d is met, which was erased", i);
                    if (!S->erased[i]) DST_CHECK(is, "lost", "element %d was inserted, is not erased and is not met", i);
                }
                if (!is) { ++gone; S->e[i].st = FAILED; S->e[i].seq = -1; model.erase(std::remove(model.begin(), model.end(), i), model.end()); }
            }
            if (mode < 3) DST_CHECK(gone + unsure >= S->popsDone && gone <= S->popsBegun, "conservation", "%d elements were removed at the ends while others were inserted, %d are gone", S->popsDone, gone);
            if (mode == 0) for (int i = 0; i < gone; ++i) DST_CHECK(!there.count(before[i]), "fifo", "%d elements were removed at the front of a queue, and element %d, which was number %d, is still there", gone, before[i], i);
            if (mode == 1) for (int i = 0; i < gone; ++i) DST_CHECK(!there.count(before[before.size() - 1 - i]), "fifo", "%d elements were removed at the back of a queue, and element %d, which was number %d from there, is still there", gone, before[before.size() - 1 - i], i);
            if (S->popsBegun != S->popsDone) crashed = true;
            for (int i = 0; i < S->n; ++i) if (S->erased[i] == 1) crashed = true;
            settle(*mine, "after removals and insertions");
        }
        else if (!crashed && !model.empty()) {   // removals at one end
            bool front = kind == 3;
            int nt = int(gen(1, 4));
            int total = int(gen(1, model.size())), left = total;
            std::vector<int> share(nt, 0);
            for (int t = 0; t < nt; ++t) { int k = t == nt - 1 ? left : int(gen(0, left)); share[t] = k; left -= k; }
            bool procs = gen(0, 1);
            Threads ts;
            for (int t = 0; t < nt; ++t) {
                auto f = [=] { FamList l = openList(procs ? famOpen() : region, &desc); for (int i = 0; i < share[t]; ++i) front ? l.popFront() : l.popBack(); };
                if (procs) dst::spawn(f, "remover"); else ts.go(f);
            }
            if (gen(0, 1)) reader(*mine, 1);
            ts.join(); dst::joinAll();
            if (front) model.erase(model.begin(), model.begin() + total); else model.resize(model.size() - size_t(total));
            settle(*mine, front ? "after removals at the front" : "after removals at the back");
        }
    }
    if (S->n > 3) dst::nontrivial();
}
}  // namespace
namespace dst { const ScenarioDef scenario = {"F01", initMain, oneRun}; }
