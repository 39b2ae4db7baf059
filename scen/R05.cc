// R05: file spaces and the registry of the cluster's disks against the configurations that were in effect.
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <cmath>
#include <iostream>
#include "common.h"
#include "poison.h"
#define private public
#include "eckit/config/ResourceMgr.h"
#undef private
#include "eckit/filesystem/BasePathName.h"
#include "eckit/filesystem/FileSpace.h"
#include "eckit/filesystem/FileSystemSize.h"
#include "eckit/filesystem/PathName.h"
#include "eckit/filesystem/PathNameFactory.h"
#include "eckit/io/Buffer.h"
#include "eckit/io/cluster/ClusterDisks.h"
#include "eckit/io/cluster/NodeInfo.h"
#include "eckit/io/Length.h"
#include "eckit/serialisation/MemoryStream.h"
#include "eckit/serialisation/ResizableMemoryStream.h"
using namespace scen;
using dst::gen;
using eckit::ClusterDisks;
using eckit::FileSpace;
using eckit::PathName;
DST_POISON
namespace {
constexpr uint64_t SEC = 1000000000ull;
const int LOCAL = 3, PATHS = 8, NODES = 3, SPACES = 2, MAXV = 40, MAXC = 8;
const char* space[] = {"alpha", "beta"};
std::string nodeName(int n) { return n ? "n" + std::to_string(n) : "here"; }
// names of which one begins another
std::string pathName(int p) {
    static const char* c[] = {"/disk1", "/disk10", "/disk2", "/disk", "/a/disk1"};
    return p < LOCAL ? dst::scratch() + (p == 1 ? "/d" : p ? "/d10" : "/d1") : c[p - LOCAL];
}
int pathIndex(const std::string& s) { for (int p = 0; p < PATHS; ++p) if (s == pathName(p)) return p; return -1; }
// a file system is: the path on this node, or node and path
int code(int node, int p) { return 10 + node * 16 + p; }
std::string fsName(int c) { return c < 10 ? pathName(c) : "marsfs://" + nodeName((c - 10) / 16) + pathName((c - 10) % 16); }
int pathOf(int c) { return c < 10 ? c : (c - 10) % 16; }
int codeOf(const std::string& s) {
    for (int p = 0; p < LOCAL; ++p) if (s == pathName(p)) return p;
    for (int n = 0; n < NODES; ++n) for (int p = 0; p < PATHS; ++p) if (s == fsName(code(n, p))) return code(n, p);
    return -1;
}
struct Disk { bool known, active, off; int node, type; };
struct Fs { bool avail, statFails; uint64_t total, free; };
struct Version {
    uint64_t inv, res;
    bool hasConfig[SPACES];
    int n[SPACES], cfg[SPACES][MAXC];
    Disk d[PATHS];
    Fs fs[PATHS];
};
struct Sh { int n; Version v[MAXV]; bool nomkdir[PATHS]; int maxUsed, bins; double attenuation; int reads, checks, moved, errors; bool df; };
Sh* sh;
Version& cur() { return sh->v[sh->n - 1]; }
// ------------------------------------------------------------------ file systems of other nodes
struct Far : eckit::BasePathName {
    std::string node_, path_;
    Far(const std::string& n, const std::string& p) : node_(n), path_(p) {}
    int index() const { int p = pathIndex(path_); DST_CHECK(p >= 0, "file-system", "a file system %s is made up", path_.c_str()); return p; }
    BasePathName* clone() const override { return new Far(node_, path_); }
    const char* localPath() const override { return path_.c_str(); }
    eckit::Length size() const override { NOTIMP; }
    time_t lastAccess() const override { NOTIMP; }
    time_t lastModified() const override { NOTIMP; }
    time_t created() const override { NOTIMP; }
    bool isDir() const override { return true; }
    bool isLink() const override { return false; }
    void rename(const BasePathName&) const override { NOTIMP; }
    void link(const BasePathName&) const override { NOTIMP; }
    bool sameAs(const BasePathName&) const override { NOTIMP; }
    BasePathName* mountPoint() const override { for (int p = LOCAL; p < PATHS; ++p) if (path_ == pathName(p) || path_.compare(0, pathName(p).size() + 1, pathName(p) + "/") == 0) return new Far(node_, pathName(p)); return clone(); }
    BasePathName* realName() const override { return clone(); }
    bool exists() const override { return true; }
    bool available() const override { dst::yield(); dst::Quiet q; return cur().fs[index()].avail; }
    bool offsite() const override { return false; }
    void mkdir(short) const override { dst::yield(); if (sh->nomkdir[index()]) throw eckit::CantOpenFile(asString()); }
    void chmod(const eckit::FileMode&) const override { NOTIMP; }
    void unlink(bool) const override { NOTIMP; }
    void rmdir(bool) const override { NOTIMP; }
    void touch() const override { NOTIMP; }
    void children(std::vector<BasePathName*>&, std::vector<BasePathName*>&) const override { NOTIMP; }
    void match(std::vector<BasePathName*>&, bool) const override { NOTIMP; }
    void reserve(const eckit::Length&) const override { NOTIMP; }
    BasePathName* unique() const override { NOTIMP; }
    const char* type() const override { return "marsfs"; }
    BasePathName* dirName() const override { NOTIMP; }
    BasePathName* fullName() const override { return clone(); }
    BasePathName* orphanName() const override { NOTIMP; }
    BasePathName* checkClusterNode() const override { return clone(); }
    BasePathName* baseName(bool) const override { NOTIMP; }
    std::string extension() const override { NOTIMP; }
    std::string hash(const std::string&) const override { NOTIMP; }
    std::string clusterName() const override { return asString(); }
    void syncParentDirectory() const override {}
    std::string asString() const override { return "marsfs://" + node_ + path_; }
    void fileSystemSize(eckit::FileSystemSize& s) const override {
        dst::yield();
        dst::Quiet q;
        Fs& f = cur().fs[index()];
        if (f.statFails) throw eckit::CantOpenFile(asString());
        s.total = f.total; s.available = f.free;
    }
    eckit::DataHandle* fileHandle(bool) const override { NOTIMP; }
    eckit::DataHandle* partHandle(const eckit::OffsetList&, const eckit::LengthList&) const override { NOTIMP; }
    eckit::DataHandle* partHandle(const eckit::Offset&, const eckit::Length&) const override { NOTIMP; }
    const std::string& node() const override { return node_; }
    const std::string& path() const override { return path_; }
    void print(std::ostream& s) const override { s << asString(); }
};
struct FarBuilder : eckit::PathNameBuilderBase {
    using PathNameBuilderBase::PathNameBuilderBase;
    eckit::BasePathName* make(const std::string& s, bool) const override {
        size_t p = s.find('/', 9);
        if (p == std::string::npos) dst::fail("file-system", "a file system %s is made up", s.c_str());
        return new Far(s.substr(9, p - 9), s.substr(p));
    }
};
// ------------------------------------------------------------------ what the file spaces must be
int others(const Version& v, const char*) { int n = 0; for (auto& d : v.d) n += d.known && d.active; return n; }
// the disks the registry offers for a type, in the order of their paths
std::vector<int> offered(const Version& v, int type) {
    std::vector<std::pair<std::string, int>> r;
    for (int p = 0; p < PATHS; ++p) if (v.d[p].known && v.d[p].active && v.d[p].type == type) r.push_back({pathName(p), code(v.d[p].node, p)});
    std::sort(r.begin(), r.end());
    std::vector<int> c;
    for (auto& x : r) c.push_back(x.second);
    return c;
}
std::vector<int> listOf(const Version& v, int type) {
    std::vector<int> l(v.cfg[type], v.cfg[type] + v.n[type]);
    size_t n = l.size();
    for (int c : offered(v, type)) {
        bool twice = false;
        // what is local and in the list of this node is not taken again by its name in the cluster
        if ((c - 10) / 16 == 0) for (size_t i = 0; i < n; ++i) twice = twice || fsName(l[i]) == pathName(pathOf(c));
        if (!twice) l.push_back(c);
    }
    std::vector<int> r;
    for (int c : l) if (c < 10 || !sh->nomkdir[pathOf(c)] || !v.fs[pathOf(c)].avail) r.push_back(c);
    return r;
}
bool availableIn(const Version& v, int c) { return c < 10 || v.fs[pathOf(c)].avail; }
long pct(uint64_t part, uint64_t total) { return long(100. * (double(part) / double(total))); }
// the probability of each file system to be taken, empty: a place is chosen among "best"
struct Choice { std::vector<int> may; std::vector<double> p; bool random = false; };
Choice expected(const Version& v, const std::vector<int>& l, const std::string& s) {
    Choice c;
    std::vector<int> ok, cand;
    for (int f : l) { const Fs& x = v.fs[pathOf(f)]; if (availableIn(v, f) && !x.statFails) { ok.push_back(f); if (x.total && pct(x.total - x.free, x.total) <= sh->maxUsed) cand.push_back(f); } }
    auto fs = [&](int f) -> const Fs& { return v.fs[pathOf(f)]; };
    if (s == "leastUsedPercent") {
        long best = -1;
        for (int f : ok) if (fs(f).total) best = std::max(best, pct(fs(f).free, fs(f).total));
        for (int f : ok) if (fs(f).total && pct(fs(f).free, fs(f).total) == best) c.may.push_back(f);
        return c;
    }
    bool known = s == "roundRobin" || s == "pureRandom" || s == "weightedRandom" || s == "weightedRandomPercent" || s == "binnedLeastUsed";
    if (!known || cand.empty()) {
        uint64_t best = 0;
        for (int f : ok) best = std::max(best, fs(f).free);
        for (int f : ok) if (fs(f).free == best) c.may.push_back(f);
        return c;
    }
    c.may = cand;
    if (s == "roundRobin") return c;
    c.random = true;
    std::vector<double> w;
    uint64_t lo = ~0ull, hi = 0;
    for (int f : cand) { lo = std::min(lo, fs(f).free); hi = std::max(hi, fs(f).free); }
    for (int f : cand) w.push_back(s == "pureRandom" ? 1 : s == "weightedRandom" ? double(fs(f).free) : s == "weightedRandomPercent" ? double(pct(fs(f).free, fs(f).total)) : fs(f).free >= hi - (hi - lo) / uint64_t(sh->bins) ? 1 : 0);
    double sum = 0;
    for (double x : w) sum += x;
    if (s != "binnedLeastUsed") { double mean = sum / double(w.size()); sum = 0; for (double& x : w) { x = sh->attenuation * mean + (1 - sh->attenuation) * x; sum += x; } }
    if (sum == 0) { c.may = {cand[0]}; c.random = false; return c; }
    for (double x : w) c.p.push_back(x / sum);
    c.may.clear();
    std::vector<double> p;
    for (size_t i = 0; i < cand.size(); ++i) if (c.p[i] > 0) { c.may.push_back(cand[i]); p.push_back(c.p[i]); }
    c.p = p;
    return c;
}
std::string names(const std::vector<int>& l) { std::string s; for (int c : l) s += (s.empty() ? "" : " ") + (c < 0 ? std::string("?") : fsName(c)); return s.empty() ? "none" : s; }
// the versions that may have been seen between two moments
std::vector<const Version*> during(uint64_t from, uint64_t to) {
    std::vector<const Version*> r;
    for (int k = 0; k < sh->n; ++k) if (sh->v[k].inv <= to && (k + 1 == sh->n || sh->v[k + 1].res >= from)) r.push_back(&sh->v[k]);
    return r;
}
template <class F> bool any(const std::vector<const Version*>& vs, F f) { for (auto* v : vs) if (f(*v)) return true; return false; }
bool listed(const std::vector<const Version*>& vs, int type, int c) {
    return any(vs, [&](const Version& v) { for (int i = 0; i < v.n[type]; ++i) if (v.cfg[type][i] == c) return true; for (int x : offered(v, type)) if (x == c) return true; return false; });
}
bool faulty() { return dst::fired(dst::F_OPENERR) || dst::fired(dst::F_READERR); }
const char* strategies[] = {"leastUsed", "leastUsedPercent", "roundRobin", "pureRandom", "weightedRandom", "weightedRandomPercent", "binnedLeastUsed", "whatever"};
void selectOne(int type, const std::string& s, bool exact) {
    uint64_t a = dst::tick();
    std::string got;
    bool retry = false;
    try { got = s == "default" ? FileSpace::lookUp(space[type]).selectFileSystem().asString() : FileSpace::lookUp(space[type]).selectFileSystem(s).asString(); }
    catch (eckit::Retry&) { retry = true; }
    catch (std::exception& e) {
        dst::Quiet q;
        sh->errors++;
        DST_CHECK(!exact && faulty(), "spurious-error", "selecting in %s by %s: %s", space[type], s.c_str(), e.what());
        return;
    }
    dst::Quiet q;
    sh->reads++;
    auto vs = during(a, dst::tick());
    if (vs.size() == 1) {
        sh->checks++;
        auto l = listOf(*vs[0], type);
        Choice c = expected(*vs[0], l, s == "default" ? "leastUsed" : s);
        if (retry) { DST_CHECK(c.may.empty(), "selection", "nothing is selected in %s by %s, of %s one of %s should be", space[type], s.c_str(), names(l).c_str(), names(c.may).c_str()); return; }
        int k = codeOf(got);
        DST_CHECK(std::find(c.may.begin(), c.may.end(), k) != c.may.end(), "selection", "%s is selected in %s by %s, of %s one of %s should be", got.c_str(), space[type], s.c_str(), names(l).c_str(), names(c.may).c_str());
    }
    else if (!retry) {
        int k = codeOf(got);
        DST_CHECK(k >= 0, "file-system", "a file system %s is made up", got.c_str());
        DST_CHECK(listed(vs, type, k), "stale", "%s, selected in %s by %s, was not in it during the call", got.c_str(), space[type], s.c_str());
        DST_CHECK(any(vs, [&](const Version& v) { return availableIn(v, k); }), "unavailable", "%s, selected in %s by %s, was not available during the call", got.c_str(), space[type], s.c_str());
    }
}
void look(bool exact) {
    int type = int(gen(0, SPACES - 1));
    switch (gen(0, exact ? 8 : 9)) {
        case 0: case 1: case 2: case 3: selectOne(type, gen(0, 5) ? strategies[gen(0, 7)] : "default", exact); break;
        case 4: {
            int n = int(gen(0, NODES - 1)), p = int(gen(LOCAL, PATHS - 1));
            PathName path("marsfs://" + nodeName(n) + pathName(p) + (gen(0, 1) ? "/file" : ""));
            uint64_t a = dst::tick();
            bool yes;
            try { yes = FileSpace::lookUp(space[type]).owns(path); }
            catch (std::exception& e) { dst::Quiet q; DST_CHECK(!exact && faulty(), "spurious-error", "asking %s for %s: %s", space[type], fsName(code(n, p)).c_str(), e.what()); break; }
            dst::Quiet q;
            auto vs = during(a, dst::tick());
            int c = code(n, p);
            auto owns = [&](const Version& v) { auto l = listOf(v, type); return std::find(l.begin(), l.end(), c) != l.end() && availableIn(v, c); };
            if (vs.size() == 1) DST_CHECK(yes == owns(*vs[0]), "owns", "%s is said %sto be in %s, which has %s", fsName(c).c_str(), yes ? "" : "not ", space[type], names(listOf(*vs[0], type)).c_str());
            else if (yes) DST_CHECK(listed(vs, type, c), "owns", "%s is said to be in %s and was not", fsName(c).c_str(), space[type]);
            break;
        }
        case 5: {   // the same file system as that of a file, or else any
            int n = int(gen(0, NODES - 1)), p = int(gen(LOCAL, PATHS - 1)), c = code(n, p);
            uint64_t a = dst::tick();
            std::string got;
            bool retry = false;
            try { got = FileSpace::lookUp(space[type]).sameFileSystem(PathName(fsName(c) + "/file")).asString(); }
            catch (eckit::Retry&) { retry = true; }
            catch (std::exception& e) { dst::Quiet q; DST_CHECK(!exact && faulty(), "spurious-error", "asking %s for the file system of %s: %s", space[type], fsName(c).c_str(), e.what()); break; }
            dst::Quiet q;
            auto vs = during(a, dst::tick());
            if (vs.size() == 1) {
                auto l = listOf(*vs[0], type);
                bool in = std::find(l.begin(), l.end(), c) != l.end() && availableIn(*vs[0], c);
                if (in) DST_CHECK(got == fsName(c), "same", "%s is given for a file on %s, which is in %s", retry ? "nothing" : got.c_str(), fsName(c).c_str(), space[type]);
                else { auto may = expected(*vs[0], l, "leastUsed").may; DST_CHECK(retry ? may.empty() : std::find(may.begin(), may.end(), codeOf(got)) != may.end(), "same", "%s is given for a file on %s, which is not in %s, instead of one of %s", retry ? "nothing" : got.c_str(), fsName(c).c_str(), space[type], names(may).c_str()); }
            }
            else if (!retry) DST_CHECK(listed(vs, type, codeOf(got)), "stale", "%s is given for a file on %s and was not in %s during the call", got.c_str(), fsName(c).c_str(), space[type]);
            break;
        }
        case 6: {
            uint64_t a = dst::tick();
            std::vector<std::string> l;
            ClusterDisks::load(space[type], l);
            dst::Quiet q;
            auto vs = during(a, dst::tick());
            std::vector<int> c;
            for (auto& s : l) c.push_back(codeOf(s));
            DST_CHECK(any(vs, [&](const Version& v) { return offered(v, type) == c; }), "registry", "the registry offers %s for %s and has %s", names(c).c_str(), space[type], names(offered(*vs.back(), type)).c_str());
            break;
        }
        case 7: {   // everything there is in the registry
            uint64_t a = dst::tick();
            eckit::Buffer buf(20000);
            eckit::ResizableMemoryStream out(buf);
            ClusterDisks::send(out);
            eckit::MemoryStream in(buf);
            std::map<std::string, std::string> m;
            for (;;) {
                bool more; in >> more;
                if (!more) break;
                unsigned long long t; bool off; std::string node, type2, path;
                in >> t; in >> off; in >> node; in >> type2; in >> path;
                DST_CHECK(!m.count(path), "registry", "the registry has the disk %s twice", path.c_str());
                m[path] = node + " " + type2 + (off ? " off" : "");
            }
            dst::Quiet q;
            auto vs = during(a, dst::tick());
            DST_CHECK(any(vs, [&](const Version& v) {
                std::map<std::string, std::string> w;
                for (int p = 0; p < PATHS; ++p) if (v.d[p].known && v.d[p].active) w[pathName(p)] = nodeName(v.d[p].node) + " " + space[v.d[p].type] + (v.d[p].off ? " off" : "");
                return w == m;
            }), "registry", "the registry sends %zu disks that are not those it has", m.size());
            break;
        }
        default: {   // the node of a file
            int p = int(gen(sh->df ? 0 : LOCAL, PATHS - 1));
            std::string file = pathName(p) + (gen(0, 3) ? "/file" : "");
            if (p < LOCAL) file = pathName(p) + "/file";
            uint64_t a = dst::tick();
            std::string got;
            bool none = false;
            try { got = ClusterDisks::node(file); } catch (eckit::SeriousBug& e) { none = true; got = e.what(); }
            catch (std::exception& e) { dst::Quiet q; DST_CHECK(!exact && faulty(), "spurious-error", "the node of %s: %s", file.c_str(), e.what()); break; }
            dst::Quiet q;
            auto vs = during(a, dst::tick());
            bool has = any(vs, [&](const Version& v) { return v.d[p].known && v.d[p].active; });
            bool hasNot = any(vs, [&](const Version& v) { return !(v.d[p].known && v.d[p].active); });
            if (got == "local" && p < LOCAL) break;
            if (none) DST_CHECK(hasNot, "node", "no node for %s: %s", file.c_str(), got.c_str());
            else DST_CHECK(has && any(vs, [&](const Version& v) { return v.d[p].known && v.d[p].active && nodeName(v.d[p].node) == got; }), "node", "%s is said to be on %s", file.c_str(), got.c_str());
            break;
        }
    }
}
// ------------------------------------------------------------------ the administrator
void writeConfig(const Version& v, int type) {
    std::string s = gen(0, 1) ? "# file systems of " + std::string(space[type]) + " and nothing else\n" : "";
    for (int i = 0; i < v.n[type]; ++i) {
        if (gen(0, 3) == 0) s += gen(0, 1) ? "\n" : "#" + pathName(0) + " was here " + pathName(2) + "\n";
        s += (gen(0, 3) == 0 ? "  " : "") + fsName(v.cfg[type][i]) + "\n";
    }
    if (gen(0, 4) == 0) s += "# " + std::string(gen(0, 1) ? 30 : 2000, 'x') + "\n";
    if (gen(0, 3) == 0 && s.size()) s.pop_back();
    std::string f = dst::scratch() + "/etc/disks/" + space[type];
    dst::Quiet q;
    dst::writeFileRaw(f + ".new", s);
    timespec t[2];
    t[0].tv_sec = t[1].tv_sec = time_t(dst::wallNow() / int64_t(SEC)); t[0].tv_nsec = t[1].tv_nsec = 0;
    ::syscall(SYS_utimensat, AT_FDCWD, (f + ".new").c_str(), t, 0);
    ::syscall(SYS_rename, (f + ".new").c_str(), f.c_str());
}
int someFs() { int p = int(gen(0, PATHS - 1)); return p < LOCAL ? p : code(int(gen(0, NODES - 1)), p); }
void makeSizes(Fs& f) {
    static const uint64_t tot[] = {1000, 1000000, 50000000000ull, 1ull << 50};
    f.total = gen(0, 9) ? tot[gen(0, 3)] : 0;
    uint64_t part = gen(0, 4) ? gen(0, 100) : gen(0, 1) * 100;
    f.free = f.total / 100 * part;
}
void change(bool first) {
    Version* o; Version* v;
    {
        dst::Quiet q;
        o = &sh->v[sh->n - 1];
        v = &sh->v[sh->n];
        *v = *o;
    }
    int cap = 0;
    (void)first; (void)cap;
    enum { CONFIG, UPDATE, FORGET, OFF, RESET, FS, RECEIVE } what;
    uint64_t r = gen(0, 15);
    what = r < 4 ? CONFIG : r < 9 ? UPDATE : r < 11 ? FORGET : r < 12 ? OFF : r < 13 ? (gen(0, 3) ? FS : RESET) : r < 14 ? RECEIVE : FS;
    int type = int(gen(0, SPACES - 1)), node = int(gen(0, NODES - 1));
    std::vector<int> ps;
    auto begin = [&] { dst::Quiet q; v->inv = dst::tick(); v->res = ~0ull; sh->n++; };
    auto end = [&] { dst::Quiet q; v->res = dst::tick(); };
    eckit::NodeInfo info;
    info.name("marsfs"); info.node(nodeName(node));
    switch (what) {
        case CONFIG:
            v->n[type] = int(gen(0, 4));
            for (int i = 0; i < v->n[type]; ++i) for (bool again = true; again;) { again = false; v->cfg[type][i] = someFs(); for (int k = 0; k < i; ++k) if (v->cfg[type][k] == v->cfg[type][i]) again = true; if (again) { v->n[type] = i; break; } }
            v->hasConfig[type] = true;
            dst::note("the file of %s lists %s", space[type], names(std::vector<int>(v->cfg[type], v->cfg[type] + v->n[type])).c_str());
            begin(); writeConfig(*v, type); end();
            break;
        case UPDATE: {
            for (uint64_t k = gen(0, 3); k > 0; --k) ps.push_back(int(gen(node ? LOCAL : 0, PATHS - 1)));
            for (auto& d : v->d) if (d.known && d.node == node && d.type == type) d.active = false;
            std::vector<std::string> names2;
            for (int p : ps) { if (v->d[p].known && v->d[p].active && v->d[p].node != node) sh->moved++; v->d[p] = Disk{true, true, false, node, type}; names2.push_back(pathName(p)); }
            std::string s;
            for (auto& x : names2) s += " " + x;
            dst::note("node %s has the disks%s for %s", nodeName(node).c_str(), s.c_str(), space[type]);
            begin(); ClusterDisks::update(nodeName(node), space[type], names2); end();
            break;
        }
        case FORGET:
            for (auto& d : v->d) if (d.known && d.node == node) d.active = false;
            dst::note("node %s is forgotten", nodeName(node).c_str());
            begin(); ClusterDisks::forget(info); end();
            break;
        case OFF:
            for (auto& d : v->d) if (d.known && d.node == node) d.off = true;
            dst::note("node %s is off line", nodeName(node).c_str());
            begin(); ClusterDisks::offLine(info); end();
            break;
        case RESET:
            for (auto& d : v->d) d.active = false;
            dst::note("the registry is reset");
            begin(); if (gen(0, 1)) ClusterDisks::reset(); else ClusterDisks::cleanup(); end();
            break;
        case RECEIVE: {
            eckit::Buffer buf(20000);
            eckit::ResizableMemoryStream out(buf);
            for (auto& d : v->d) d.active = false;
            std::vector<int> order;
            for (int p = 0; p < PATHS; ++p) if (gen(0, 2) == 0) { v->d[p] = Disk{true, true, bool(gen(0, 1)), int(gen(0, p < LOCAL ? 0 : NODES - 1)), int(gen(0, SPACES - 1))}; order.push_back(p); }
            std::sort(order.begin(), order.end(), [](int a, int b) { return pathName(a) < pathName(b); });
            for (int p : order) { Disk& d = v->d[p]; out << true; out << (unsigned long long)(dst::wallNow() / int64_t(SEC)); out << d.off; out << nodeName(d.node); out << std::string(space[d.type]); out << pathName(p); }
            out << false;
            dst::note("the registry is received: %zu disks", order.size());
            eckit::MemoryStream in(buf);
            begin(); ClusterDisks::receive(in); end();
            break;
        }
        case FS: {
            dst::note("file systems change");
            begin();
            {
                dst::Quiet q;
                for (int p = 0; p < PATHS; ++p) {
                    if (gen(0, 1)) continue;
                    Fs f = v->fs[p];
                    makeSizes(f);
                    if (!sh->nomkdir[p]) f.avail = gen(0, 3) != 0;
                    f.statFails = gen(0, 7) == 0;
                    v->fs[p] = f;
                }
            }
            end();
            break;
        }
    }
}
bool hasCandidates(const Version& v, const std::vector<int>& l) {
    for (int f : l) { const Fs& x = v.fs[pathOf(f)]; if (availableIn(v, f) && !x.statFails && x.total && pct(x.total - x.free, x.total) <= sh->maxUsed) return true; }
    return false;
}
// several threads take turns
void rounds() {
    bool mixed = gen(0, 1);
    int type = int(gen(0, SPACES - 1)), nt = int(gen(2, 3)), per = int(gen(2, 4));
    static std::map<int, int> n;
    static int failed;
    { dst::Quiet q; n.clear(); failed = 0; }
    uint64_t a = dst::tick();
    {
        Threads ts;
        for (int b = 0; b < nt; ++b) ts.go([=] {
            for (int i = 0; i < per; ++i) {
                int t = mixed ? (b + i) % SPACES : type;
                if (mixed) { selectOne(t, "roundRobin", false); continue; }
                try { int c = codeOf(FileSpace::lookUp(space[t]).selectFileSystem("roundRobin").asString()); dst::Quiet q; n[c]++; }
                catch (std::exception&) { dst::Quiet q; failed++; }
            }
        });
        ts.join();
    }
    dst::Quiet q;
    auto vs = during(a, dst::tick());
    if (mixed || failed || vs.size() > 1) return;
    auto l = listOf(*vs[0], type);
    Choice c = expected(*vs[0], l, "roundRobin");
    if (!hasCandidates(*vs[0], l) || std::set<int>(c.may.begin(), c.may.end()).size() < c.may.size()) return;
    int lo = 1 << 20, hi = 0;
    for (int f : c.may) { lo = std::min(lo, n[f]); hi = std::max(hi, n[f]); }
    std::string s;
    for (auto& x : n) s += " " + (x.first < 0 ? "?" : fsName(x.first)) + " " + std::to_string(x.second);
    DST_CHECK(hi - lo <= 1 && n.size() == c.may.size(), "round-robin", "%d threads take their turns so:%s", nt, s.c_str());
}
void finalLook() {
    for (int i = 0; i < 12; ++i) look(true);
    const Version& v = cur();
    for (int type = 0; type < SPACES; ++type) {
        const FileSpace& s = FileSpace::lookUp(space[type]);
        selectOne(type, "leastUsed", true);
        std::vector<int> l = listOf(v, type), got;
        for (auto& p : s.fileSystems()) got.push_back(codeOf(p.asString()));
        DST_CHECK(got == l, "list", "%s has %s and should have %s", space[type], names(got).c_str(), names(l).c_str());
        Choice rr = expected(v, l, "roundRobin");
        if (rr.may.size() > 1) {
            std::vector<int> seen;
            bool ours = l.size() > 0;
            (void)ours;
            for (size_t i = 0; i < rr.may.size(); ++i) seen.push_back(codeOf(s.selectFileSystem("roundRobin").asString()));
            std::sort(seen.begin(), seen.end());
            std::vector<int> all = rr.may;
            std::sort(all.begin(), all.end());
            if (hasCandidates(v, l)) DST_CHECK(seen == all, "round-robin", "one round over %s takes %s", names(all).c_str(), names(seen).c_str());
        }
        if (gen(0, 5) == 0) {
            const char* st = strategies[gen(3, 6)];
            Choice c = expected(v, l, st);
            if (c.random) {
                const int N = 200;
                std::map<int, int> n;
                std::map<int, double> share;   // one may be listed here and announced too
                for (size_t i = 0; i < c.may.size(); ++i) share[c.may[i]] += c.p[i];
                for (int i = 0; i < N; ++i) n[codeOf(s.selectFileSystem(st).asString())]++;
                for (auto& x : share) {
                    double e = N * x.second, sd = std::sqrt(std::max(0., e * (1 - x.second)));
                    DST_CHECK(std::fabs(n[x.first] - e) <= 7 * sd + 3, "distribution", "%s is taken %d times of %d by %s, its share is %.3f", fsName(x.first).c_str(), n[x.first], N, st, x.second);
                    n.erase(x.first);
                }
                for (auto& x : n) DST_CHECK(x.second == 0, "distribution", "%s is taken by %s", x.first < 0 ? "?" : fsName(x.first).c_str(), st);
            }
        }
    }
}
void run() {
    sh = dst::sharedNew<Sh>();
    poisonOn = fillOn = true;
    auto& res = eckit::ResourceMgr::instance();
    res.reset();
    res.set("node", "here");
    sh->maxUsed = gen(0, 1) ? 99 : int(gen(30, 100));
    sh->bins = gen(0, 1) ? 20 : int(gen(1, 5));
    sh->attenuation = gen(0, 2) ? 0 : double(gen(1, 4)) / 4;
    sh->df = gen(0, 2) == 0;
    if (sh->maxUsed != 99) res.set("candidateFileSystem", std::to_string(sh->maxUsed));
    if (sh->bins != 20) res.set("binnedLeastUsedNumBins", std::to_string(sh->bins));
    if (sh->attenuation > 0) res.set("attenuateFileSpacePeakProbability", std::to_string(sh->attenuation));
    int cap = gen(0, 1) ? PATHS : 12;   // the disks just fit
    res.set("disksArraySize", std::to_string(cap));
    ::mkdir((dst::scratch() + "/cluster").c_str(), 0777);
    ::mkdir((dst::scratch() + "/etc").c_str(), 0777);
    ::mkdir((dst::scratch() + "/etc/disks").c_str(), 0777);
    if (sh->df) dst::writeFileRaw(dst::scratch() + "/etc/disks/df", "# types\nalpha 1\nbeta, 2\n");
    if (::chdir(dst::scratch().c_str())) dst::fail("setup", "chdir");   // names that are made up stay here
    dst::sleepNs(SEC / 2);
    Version& v0 = sh->v[0];
    v0.inv = v0.res = dst::tick();
    for (int p = 0; p < PATHS; ++p) {
        v0.fs[p].avail = gen(0, 4) != 0; makeSizes(v0.fs[p]); v0.fs[p].statFails = gen(0, 9) == 0;
        if (p >= LOCAL && gen(0, 7) == 0) { sh->nomkdir[p] = true; v0.fs[p].avail = true; }
    }
    sh->n = 1;
    ClusterDisks::lastModified("alpha");   // the registry is open
    for (uint64_t k = gen(0, 4); k > 0; --k) { change(true); dst::sleepNs(SEC + SEC / 10); }
    dst::enableIf(dst::F_PREEMPT, 0.8, 0.05, 0.4);
    dst::enableIf(dst::F_MEMPREEMPT, 0.5, 0.001, 0.02);
    dst::enableIf(dst::F_OPENERR, 0.2, 0.02, 0.2);
    dst::enableIf(dst::F_READERR, 0.2, 0.02, 0.3);
    dst::enableIf(dst::F_SHORTREAD, 0.3, 0.1, 0.8);
    int procs = int(gen(1, 2)), changes = int(gen(0, MAXV - 12)), left = procs;
    if (gen(0, 2)) changes = std::min(changes, 6);
    (void)left;
    std::vector<int> ps;
    for (int a = 0; a < procs; ++a) ps.push_back(dst::spawn([=] {
        if (gen(0, 2) == 0) rounds();
        int nt = int(gen(1, 3)), per = int(gen(1, 8));
        Threads ts;
        for (int b = 0; b < nt; ++b) ts.go([=] {
            for (int i = 0; i < per; ++i) { look(false); if (gen(0, 2) == 0) dst::sleepNs(gen(0, 20) * SEC / 10); }
        });
        ts.join();
        // nothing changes any more
        while (true) { bool over; { dst::Quiet q; over = sh->v[MAXV - 1].res == 1; } if (over) break; dst::sleepNs(SEC); }
        finalLook();
    }, "user"));
    for (int k = 0; k < changes; ++k) { dst::sleepNs(SEC + gen(1, 9) * SEC / 10); change(false); }
    dst::sleepNs(2 * SEC);
    dst::disableAll();
    { dst::Quiet q; sh->v[MAXV - 1].res = 1; }
    for (int p : ps) dst::join(p);
    if (sh->checks > 3 && sh->n > 3) dst::nontrivial();
    dst::cover(dst::hashMix(dst::hashMix(uint64_t(sh->n), uint64_t(sh->reads)), dst::hashMix(uint64_t(sh->checks), uint64_t(sh->errors * 8 + sh->moved))));
}
void init() {
    initMain();
    static FarBuilder far("marsfs");
    std::cout.setstate(std::ios::badbit);
    std::cerr.setstate(std::ios::badbit);
}
}  // namespace
// the sizes of local file systems
extern "C" int statvfs(const char* path, struct statvfs* s) {
    memset(s, 0, sizeof *s);
    s->f_bsize = s->f_frsize = 1;
    if (!sh) return 0;
    dst::yield();
    dst::Quiet q;
    int p = pathIndex(path);
    if (p < 0) return 0;
    Fs& f = cur().fs[p];
    if (f.statFails) { errno = EIO; return -1; }
    s->f_blocks = f.total; s->f_bfree = s->f_bavail = f.free;
    return 0;
}
const dst::ScenarioDef dst::scenario = {"R05", init, run};
