// S05: a shared file cache never exposes a partial file, survives crashes, and keeps within its size.
#include "common.h"
#include "eckit/config/LibEcKit.h"
#include "eckit/container/BTree.h"
#include "eckit/container/CacheManager.h"
#include "eckit/filesystem/PathName.h"
#include "eckit/io/AutoCloser.h"
#include "eckit/io/FileHandle.h"
using namespace scen;
using dst::gen;
namespace {
struct NoLock { explicit NoLock(const std::string&) {} void lock() {} void unlock() {} };   // CacheManagerNoLock cannot be constructed from a path
struct Content { uint64_t key = 0, run = 0; std::string data; };
struct Sh {
    int runs, creating[8], created[8], errors, served, failedCreators, crashes;
    uint64_t fileRun[8];
};
Sh* S = nullptr;
bool evicts = false, locked = false;
std::string render(uint64_t key, uint64_t run) {
    uint64_t h = dst::hashMix(key * 77 + 5, run), n = 1 + h % 60;
    char b[64]; snprintf(b, sizeof b, "%04llu %06llu %06llu ", (unsigned long long)key, (unsigned long long)run, (unsigned long long)n);
    return b + pattern(h, 0, n) + "END";
}
// the content of an entry must be all of what one run of the creator wrote for that key
bool sound(uint64_t key, const std::string& c, uint64_t* run = nullptr) {
    unsigned long long k, r, n;
    if (c.size() < 19 || sscanf(c.c_str(), "%llu %llu %llu", &k, &r, &n) != 3 || k != key) return false;
    if (run) *run = r;
    return c == render(k, r);
}
std::string keyName(uint64_t k) { return "key" + std::to_string(k); }
const char* const DIR = "dstcache";
std::string entryPath(const std::string& root, uint64_t k) { return root + "/" + DIR + "/7/" + keyName(k) + ".ext"; }
void inspect(const std::vector<std::string>& roots, int keys, const char* who) {   // whatever is visible is complete
    dst::Quiet q;
    for (auto& r : roots)
        for (int k = 0; k < keys; ++k) {
            bool ok;
            std::string c = dst::readFileRaw(entryPath(r, k), &ok);
            if (ok && !sound(k, c)) dst::fail("partial-file", "%s: entry %d is visible with %zu bytes that are not a complete content", who, k, c.size());
        }
}
template <class L> struct Traits {
    using value_type = Content;
    using Locker     = L;
    static const char* name() { return DIR; }
    static const char* extension() { return ".ext"; }
    static int version() { return 7; }
    static void write(const eckit::PathName& path, const Content& v, uint64_t pieces) {
        eckit::FileHandle f(path);
        f.openForWrite(0);
        eckit::AutoClose c(f);
        size_t step = std::max<size_t>(1, v.data.size() / pieces);
        for (size_t i = 0; i < v.data.size(); i += step) {
            size_t n = std::min(step, v.data.size() - i);
            if (f.write(v.data.data() + i, long(n)) != long(n)) throw eckit::WriteError(path);
            if (pieces > 1) f.flush();
        }
    }
    static void save(const eckit::CacheManagerBase&, const value_type& v, const eckit::PathName& path) { write(path, v, 1); }
    static void load(const eckit::CacheManagerBase&, value_type& v, const eckit::PathName& path) {
        eckit::FileHandle f(path);
        f.openForRead();
        eckit::AutoClose c(f);
        char b[512];
        long n;
        v.data.clear();
        while ((n = f.read(b, sizeof b)) > 0) v.data.append(b, size_t(n));
    }
};
struct Boom : std::runtime_error { Boom() : std::runtime_error("creator failed") {} };
template <class L> struct Creator : eckit::CacheManager<Traits<L>>::CacheContentCreator {
    uint64_t key; int calls = 0; bool mayFail;
    Creator(uint64_t k, bool m) : key(k), mayFail(m) {}
    void create(const eckit::PathName& path, Content& v, bool& saved) override {
        uint64_t how, run, where;
        {
            dst::Quiet q;
            ++calls;
            how = gen(0, 9); where = gen(0, 3);
            run = uint64_t(++S->runs);
            if (locked && !evicts && S->created[key]) dst::fail("created-again", "the creator runs for entry %d, which exists", int(key));
            for (int p = 1; p < 16; ++p) if (locked && !evicts && (S->creating[key] >> p & 1) && dst::procAlive(p)) dst::fail("created-twice", "two creators run for the same entry");
            S->creating[key] |= 1 << dst::process();
        }
        struct Out { uint64_t k; ~Out() { S->creating[k] &= ~(1 << dst::process()); } } out{key};
        v.key = key; v.run = run; v.data = render(key, run);
        if (mayFail && how == 0) { S->failedCreators++; if (where & 1) { std::string h = v.data.substr(0, v.data.size() / 2); Traits<L>::write(path, Content{0, 0, h}, 1); } if (where & 2) throw eckit::FailedSystemCall("creator"); throw Boom(); }
        if (how & 1) { Traits<L>::write(path, v, where + 1); saved = true; }
        else dst::yield();
    }
};
template <class L> struct Cache : eckit::CacheManager<Traits<L>> {
    Cache(const std::string& roots, bool miss, size_t max) : eckit::CacheManager<Traits<L>>("loader", roots, miss, max) {}
};
std::vector<std::string> splitRoots(const std::string& r) { std::vector<std::string> v; size_t p = 0; while (p <= r.size()) { size_t q = r.find(':', p); if (q == std::string::npos) q = r.size(); v.push_back(r.substr(p, q - p)); p = q + 1; } return v; }

template <class L> void request(Cache<L>& c, uint64_t k, bool mayFail, const std::vector<std::string>& roots, bool final = false) {
    Creator<L> cr(k, mayFail);
    Content v;
    std::string path;
    try { path = c.getOrCreate(keyName(k), cr, v); }
    catch (std::exception& e) {
        dst::Quiet q;
        S->errors++;
        if (evicts && !final) return;   // what was found may be discarded before it is loaded
        DST_CHECK((dst::anyIoFault() || S->failedCreators) && !final, "spurious-error", "a request fails although nothing went wrong: %s", e.what());
        return;
    }
    dst::Quiet q;
    S->served++;
    bool ours = false;
    for (auto& r : roots) ours = ours || path == entryPath(r, k);
    DST_CHECK(ours, "wrong-path", "the request for entry %d returns %s", int(k), path.c_str());
    if (!sound(k, v.data) && !dst::fired(dst::F_READERR) && !dst::fired(dst::F_EINTR)) dst::fail("wrong-content", "the value loaded for entry %d (%zu bytes) is not what a creator made", int(k), v.data.size());
    bool ok;
    std::string d = dst::readFileRaw(path, &ok);
    DST_CHECK(ok || evicts, "not-there", "entry %d was returned but does not exist", int(k));
    if (ok && !sound(k, d)) dst::fail("partial-file", "entry %d was returned with incomplete content", int(k));
    if (ok) S->created[k] = 1;
}
template <class L> void together() {
    std::string base = dst::scratch() + "/c";
    std::string rootList = base + "0";
    if (gen(0, 2) == 0) rootList += ":" + base + "1";
    if (gen(0, 4) == 0) rootList = dst::scratch() + "/none/none:" + rootList;
    std::vector<std::string> roots = splitRoots(rootList);
    int nprocs = int(gen(1, 4)), keys = int(gen(1, 4));
    size_t max = gen(0, 2) == 0 ? gen(60, 300) : 0;
    evicts = max != 0;
    locked = !std::is_same<L, NoLock>::value && roots.size() == 1;   // a lock per root
    bool faults = gen(0, 1), crashes = gen(0, 1);
    if (faults) {
        dst::enableIf(dst::F_SHORTREAD, 0.2, 0.05, 0.5);
        dst::enableIf(dst::F_SHORTWRITE, 0.2, 0.05, 0.5);
        dst::enableIf(dst::F_READERR, 0.1, 0.01, 0.1);
        dst::enableIf(dst::F_WRITEERR, 0.3, 0.01, 0.2);
        dst::enableIf(dst::F_NOSPACE, 0.3, 0.01, 0.2);
        dst::enableIf(dst::F_OPENERR, 0.2, 0.01, 0.1);
        dst::enableIf(dst::F_RENAMEERR, 0.3, 0.01, 0.2);
        dst::enableIf(dst::F_CLOSEERR, 0.2, 0.01, 0.2);
        dst::enableIf(dst::F_SYNCERR, 0.2, 0.01, 0.3);
        dst::enableIf(dst::F_EINTR, 0.1, 0.01, 0.1);
    }
    if (crashes) dst::enableIf(dst::F_CRASH, 0.8, 0.0005, 0.02);
    bool mayFail = gen(0, 2) == 0;
    bool forked = gen(0, 3) == 0;
    std::unique_ptr<Cache<L>> inherited;
    if (forked) { dst::Quiet q; inherited.reset(new Cache<L>(rootList, false, 0)); }
    for (int p = 0; p < nprocs; ++p) {
        int n = int(gen(1, 4));
        bool own = !forked || gen(0, 1), slow = gen(0, 2) == 0;
        dst::spawn([=, &inherited] {
            if (crashes) dst::crashable(true);
            std::unique_ptr<Cache<L>> mine;
            for (int i = 0; i < n; ++i) {
                if (own && !mine) {
                    try { mine.reset(new Cache<L>(rootList, false, max)); }
                    catch (std::exception& e) { dst::Quiet q; S->errors++; DST_CHECK(dst::anyIoFault(), "spurious-error", "the cache cannot be used although nothing went wrong: %s", e.what()); continue; }
                }
                request(own ? *mine : *inherited, gen(0, uint64_t(keys) - 1), mayFail, roots);
                if (slow) dst::sleepNs(gen(0, 2) * 1000000000ull);
                if (own && gen(0, 3) == 0) mine.reset();
            }
            if (crashes) dst::crashable(false);
        }, "user");
    }
    dst::spawn([=] { int left = 200; while (left-- > 0 && dst::liveTasks() > 2) { inspect(roots, keys, "a watcher"); dst::yield(); } }, "watcher");
    for (int p = 1; p <= nprocs; ++p) { dst::join(p); if (dst::procStatus(p) == 1) { dst::Quiet q; S->crashes++; } }
    dst::joinAll();
    dst::disableAll();
    inspect(roots, keys, "in the end");
    // afterwards every entry can be had, and is then there for a cache that must not miss
    S->failedCreators = 0;
    for (int k = 0; k < 8; ++k) { S->creating[k] = S->created[k] = 0; for (auto& r : roots) if (dst::existsRaw(entryPath(r, k))) S->created[k] = 1; }
    evicts = false;
    int served = S->served;
    dst::spawn([=] {
        Cache<L> c(rootList, false, 0), strict(rootList, true, 0);
        for (int k = 0; k < keys; ++k) request(c, uint64_t(k), false, roots, true);
        for (int k = 0; k < keys; ++k) request(strict, uint64_t(k), false, roots, true);
        dst::Quiet q;
        Creator<L> cr(7, false);
        Content v;
        bool missed = false;
        try { strict.getOrCreate(keyName(7), cr, v); } catch (eckit::UserError&) { missed = true; }
        DST_CHECK(missed && !cr.calls, "no-miss", "a cache that must not create creates an entry");
    }, "later");
    dst::joinAll();
    DST_CHECK(S->served == served + 2 * keys, "not-served", "after the faults only %d of %d requests were served", S->served - served, 2 * keys);
    inspect(roots, keys, "after everything");
    if (nprocs > 1 && S->runs) dst::nontrivial();
    dst::cover(dst::hashMix(uint64_t(nprocs * 1000 + keys * 100 + S->crashes * 10 + std::min(9, S->errors)), dst::hashMix(S->runs, S->served * 2 + (max != 0))));
}
// one request at a time, from any process: the size limit, and the least recently used go first
template <class L> void limited() {
    std::string root = dst::scratch() + "/c";
    int keys = int(gen(2, 7)), n = int(gen(3, 25)), procs = int(gen(1, 3));
    size_t max = gen(50, 400);
    evicts = true; locked = false;
    std::vector<int> who;
    struct Turn { int next, done; bool present[8]; uint64_t last[8], size[8]; };
    Turn* t = dst::sharedNew<Turn>();
    for (int i = 0; i < n; ++i) who.push_back(int(gen(0, uint64_t(procs) - 1)));
    for (int p = 0; p < procs; ++p)
        dst::spawn([=] {
            std::unique_ptr<Cache<L>> c;
            for (int i = 0; i < n; ++i) {
                if (who[size_t(i)] != p) continue;
                while (t->next != i) dst::sleepNs(1000000);
                if (!c || gen(0, 4) == 0) { c.reset(); c.reset(new Cache<L>(root, false, max)); }
                uint64_t k = gen(0, uint64_t(keys) - 1);
                bool had = t->present[k];
                Creator<L> cr(k, false);
                Content v;
                std::string path = c->getOrCreate(keyName(k), cr, v);
                DST_CHECK(path == entryPath(root, k) && sound(k, v.data), "wrong-content", "the value loaded for entry %d is not what a creator made", int(k));
                DST_CHECK((cr.calls == 0) == had, "lru", "entry %d was %s and its creator was%s called", int(k), had ? "there" : "not there", cr.calls ? "" : " not");
                // the reference
                t->present[k] = true; t->last[k] = uint64_t(i) + 1;
                if (!had) {
                    t->size[k] = v.data.size();
                    size_t total = 0, removed = 0;
                    for (int j = 0; j < keys; ++j) if (t->present[j]) total += t->size[j];
                    while (total > max && removed < total - max) {
                        int old = -1;
                        for (int j = 0; j < keys; ++j) if (t->present[j] && j != int(k) && (old < 0 || t->last[j] < t->last[old])) old = j;
                        if (old < 0) break;
                        t->present[old] = false; removed += t->size[old];
                    }
                }
                for (int j = 0; j < keys; ++j) {
                    bool e = dst::existsRaw(entryPath(root, j));
                    DST_CHECK(e == t->present[j], "lru", "after request %d, for entry %d, entry %d (last asked for in request %d, %llu bytes) is %s; the limit is %zu", i, int(k), j, int(t->last[j]) - 1, (unsigned long long)t->size[j], e ? "kept" : "not kept", max);
                }
                dst::sleepNs(1000000000ull + gen(0, 3) * 700000000ull);
                t->next = i + 1;
            }
        }, "user");
    dst::joinAll();
    int live = 0;
    for (int j = 0; j < keys; ++j) live += t->present[j];
    if (S->runs > 2) dst::nontrivial();
    dst::cover(dst::hashMix(9000 + uint64_t(keys * 100 + procs * 10 + live), dst::hashMix(S->runs, n)));
}
void init() { initMain(); { eckit::PathName p("/tmp/x"); (void)p.exists(); } }
void run() {
    dst::setStepLimit(3000000, 400000000);
    S = dst::sharedNew<Sh>();
    switch (gen(0, 7)) {
        case 0: case 1: case 2: together<eckit::CacheManagerFileFlock>(); break;
        case 3: case 4: together<eckit::CacheManagerFileSemaphoreLock>(); break;
        case 5: case 6: together<NoLock>(); break;
        default: if (gen(0, 1)) limited<eckit::CacheManagerFileFlock>(); else limited<NoLock>(); break;
    }
}
}  // namespace
const dst::ScenarioDef dst::scenario = {"S05", init, run};
