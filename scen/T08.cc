// T08: the exceptions known of a thread are those that were created in it and still exist.
#include <exception>
#include "common.h"
#include "poison.h"
#include "eckit/exception/Exceptions.h"
using namespace scen;
using dst::gen;
DST_POISON

namespace {
struct Entry { std::string text; int home; int state; };   // state: 1 exists, 2 being destroyed, 0 gone
std::vector<Entry> all;
struct Held { std::exception_ptr p; std::vector<size_t> entries; };
std::vector<Held> pool;                                    // handed over between threads
int serial = 0;
struct Special : eckit::Exception { int v; Special(const std::string& w, int x) : Exception(w), v(x) {} };
size_t born(const std::string& text, int home) { dst::Quiet q; all.push_back({text, home, 1}); return all.size() - 1; }
void dying(const std::vector<size_t>& es) { dst::Quiet q; for (auto e : es) all[e].state = 2; }
void gone(const std::vector<size_t>& es) { dst::Quiet q; for (auto e : es) all[e].state = 0; }
std::string fresh() { dst::Quiet q; return "trouble " + std::to_string(++serial) + (gen(0, 1) ? " that takes some more words to be described" : ""); }
void check(int me) {
    std::multiset<std::string> must0, may0, may, listed;
    { dst::Quiet q; for (auto& e : all) if (e.home == me && e.state) { may0.insert(e.text); if (e.state == 1) must0.insert(e.text); } }
    bool thr = eckit::Exception::throwing();
    std::ostringstream o;
    eckit::Exception::exceptionStack(o, false);
    dst::Quiet q;
    std::istringstream in(o.str());
    std::string l;
    while (std::getline(in, l)) if (l.find("trouble") != std::string::npos) listed.insert(l.substr(l.find("trouble")));
    std::multiset<std::string> must1; for (auto& e : all) if (e.home == me) { if (e.state == 1) must1.insert(e.text); }
    bool certain = false;
    for (auto& t : must1) if (must0.count(t)) { certain = true; DST_CHECK(listed.count(t) >= std::min(must0.count(t), must1.count(t)), "missing", "thread %d: '%s' exists but is not listed (%zu are)", me, t.c_str(), listed.size()); }
    for (auto& t : listed) DST_CHECK(listed.count(t) <= may0.count(t), "stale", "thread %d: '%s' is listed but does not exist any more or is of another thread", me, t.c_str());
    DST_CHECK(thr || !certain, "throwing", "thread %d has exceptions but is not said to be throwing", me);
    DST_CHECK(!thr || !may0.empty(), "throwing", "thread %d has no exceptions but is said to be throwing", me);
}
Held raise(int me, int depth);
Held make(int me, int depth) {
    std::string t = fresh();
    Held h;
    try {
        switch (gen(0, 3)) {
            case 0: throw eckit::UserError(t);
            case 1: throw Special(t, 42);
            case 2: throw eckit::Exception(t);
            default: { std::exception_ptr p = std::make_exception_ptr(Special(t, 42)); std::rethrow_exception(p); }
        }
    }
    catch (eckit::Exception& e) {
        DST_CHECK(std::string(e.what()).find(t) != std::string::npos, "text", "the exception '%s' says '%s'", t.c_str(), e.what());
        h.p = std::current_exception();
        h.entries.push_back(born(t, me));
        check(me);
        if (depth < 2 && gen(0, 2) == 0) {   // an exception while handling this one
            Held in = raise(me, depth + 1);
            check(me);
            dying(in.entries); in.p = nullptr; gone(in.entries);
        }
        check(me);
    }
    return h;
}
Held raise(int me, int depth) { return make(me, depth); }
void again(int me, Held& h) {   // rethrow what is held, wherever it comes from
    std::string t;
    { dst::Quiet q; t = all[h.entries[0]].text; }
    try { std::rethrow_exception(h.p); }
    catch (Special& e) { DST_CHECK(e.v == 42, "content", "the exception changed"); }
    catch (eckit::Exception& e) {
        DST_CHECK(std::string(e.what()).find(t) != std::string::npos, "text", "the exception '%s' says '%s'", t.c_str(), e.what());
        if (gen(0, 1)) {                     // a copy of it is of this thread
            std::vector<size_t> c;
            {
                eckit::Exception copy(e);
                c.push_back(born(t, me));
                check(me);
                DST_CHECK(std::string(copy.what()) == e.what(), "text", "the copy says '%s'", copy.what());
                if (gen(0, 1)) { copy = e; check(me); }
                dying(c);
            }
            gone(c);
        }
    }
    check(me);
}
void run() {
    poisonOn = true;
    int n = int(gen(1, 4));
    dst::note("%d threads", n);
    std::atomic<int> handed{0};
    {
        Threads t;
        for (int i = 0; i < n; ++i) t.go([&, i]() {
            std::vector<Held> mine;
            for (uint64_t k = gen(2, 7); k > 0; --k) {
                switch (gen(0, 5)) {
                    case 0: case 1: mine.push_back(make(i, 0)); break;
                    case 2: if (!mine.empty()) { size_t x = gen(0, mine.size() - 1); again(i, mine[x]); } break;
                    case 3: if (!mine.empty()) { size_t x = gen(0, mine.size() - 1); dst::Quiet q; pool.push_back(std::move(mine[x])); mine.erase(mine.begin() + long(x)); } break;
                    case 4: { dst::Quiet q; if (!pool.empty()) { size_t x = gen(0, pool.size() - 1); mine.push_back(std::move(pool[x])); pool.erase(pool.begin() + long(x)); ++handed; } break; }
                    default: if (!mine.empty()) { size_t x = gen(0, mine.size() - 1); dying(mine[x].entries); mine[x].p = nullptr; gone(mine[x].entries); mine.erase(mine.begin() + long(x)); } break;
                }
                check(i);
                if (gen(0, 2) == 0) dst::yield();
            }
            while (!mine.empty()) {
                size_t x = gen(0, mine.size() - 1);
                if (gen(0, 1)) { dst::Quiet q; pool.push_back(std::move(mine[x])); }    // survives the thread
                else { dying(mine[x].entries); mine[x].p = nullptr; gone(mine[x].entries); }
                mine.erase(mine.begin() + long(x));
                check(i);
            }
        });
    }
    check(-1);
    while (!pool.empty()) { size_t x = gen(0, pool.size() - 1); again(-1, pool[x]); dying(pool[x].entries); pool[x].p = nullptr; gone(pool[x].entries); pool.erase(pool.begin() + long(x)); check(-1); }
    if (serial > 2) dst::nontrivial();
    dst::cover(dst::hashMix(uint64_t(n), uint64_t(serial * 100 + handed)));
}
}  // namespace
const dst::ScenarioDef dst::scenario = {"T08", initMain, run};
