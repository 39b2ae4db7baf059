// R04: configuration: resources and tables asked for by several threads at once.
#include <fcntl.h>
#include <sys/stat.h>
#include <fstream>
#include "common.h"
#include "poison.h"
#define private public
#include "eckit/config/ResourceMgr.h"
#undef private
#include "eckit/config/Configurable.h"
#include "eckit/config/EtcTable.h"
#include "eckit/config/Resource.h"
#include "eckit/config/YAMLConfiguration.h"
#include "eckit/system/Library.h"
using namespace scen;
using dst::gen;
DST_POISON

namespace {
// a value whose assignment takes time
struct Val {
    int64_t a = -1, b = -1;
    int wr = 0;
    Val() {}
    explicit Val(int64_t x) : a(x), b(x) {}
    Val(const Val& o) : a(o.a), b(o.b) {}
    Val& operator=(const Val& o);
};
bool settled(const Val* v);
std::map<const Val*, int>* finished;   // how many callers obtained this value
Val& Val::operator=(const Val& o) {
    { dst::Quiet q; wr++; DST_CHECK(wr == 1, "torn", "two threads give a resource its value at the same time");
      DST_CHECK(!settled(this), "changed", "a resource is given its value again after it was handed out"); }
    a = o.a;
    dst::yield();
    b = o.b;
    { dst::Quiet q; wr--; }
    return *this;
}
bool settled(const Val* v) { return finished && finished->count(v) && (*finished)[v]; }
}  // namespace
namespace eckit {
template <> struct Translator<std::string, Val> { Val operator()(const std::string& s) { return Val(atoll(s.c_str())); } };
template <> struct Translator<Val, std::string> { std::string operator()(const Val& v) { return std::to_string(v.a); } };
}
namespace {
constexpr int ARGS = 9;
char* argvs[ARGS + 1];
std::string* argText;
void init() {
    static char none[] = "none";
    for (int i = 0; i < ARGS; ++i) argvs[i] = none;
    static char a0[] = "dstsim";
    argvs[0] = a0;
    argvs[ARGS] = nullptr;
    setenv("ECKIT_EXCEPTION_IS_SILENT", "1", 1);
    setenv("ECKIT_ASSERT_FAILED_IS_SILENT", "1", 1);
    setenv("ECKIT_SERIOUS_BUG_IS_SILENT", "1", 1);
    setenv("ECKIT_EXCEPTION_DUMPS_BACKTRACE", "0", 1);
    eckit::Main::initialise(ARGS, argvs, "DST_HOME");
    eckit::Log::info() << ""; eckit::Log::warning() << ""; eckit::Log::error() << ""; eckit::Log::debug() << ""; eckit::Log::status() << "";
}

struct Owner : eckit::Configurable {
    std::string k, n;
    Owner(const std::string& a, const std::string& b) : k(a), n(b) {}
    std::string kind() const override { return k; }
    std::string name() const override { return n; }
    void reconfigure() override {}
};
using Key = std::array<std::string, 3>;   // kind, owner, name
std::map<Key, std::string>* conf;
int nKinds, nOwners, nNames, longName;
std::string nameOf(int i) { std::string s = "res" + std::to_string(i); if (longName && i < 2) { s = std::string(size_t(longName), 'n') + s; } return s; }
std::string kindOf(int i) { return i < 0 ? "" : "Kind" + std::to_string(i); }
std::string ownerOf(int i) { return i < 0 ? "" : "owner" + std::to_string(i); }
std::string spaces() { return std::string(gen(0, 2), gen(0, 3) ? ' ' : '\t'); }

std::string value(bool number) {
    std::string v = std::to_string(gen(1, 1000000));
    if (number) return v;
    switch (gen(0, 5)) {
        case 0: return "text with spaces: and. marks " + v;
        case 1: return v + std::string(gen(900, 1200), 'x') + v;
        case 2: return v + std::string(gen(1, 5000), 'y') + v;
        default: return "v" + v;
    }
}
// one configuration file
void writeConf(const std::string& path) {
    std::string s;
    for (uint64_t n = gen(0, 6); n > 0; --n) {
        switch (gen(0, 9)) {
            case 0: s += spaces() + "# comment res0: 5\n"; break;
            case 1: s += "not a valid line\n"; break;
            case 2: s += spaces() + "\n"; break;
            default: {
                int nm = int(gen(0, uint64_t(nNames) - 1)), ow = -1, kd = -1;
                if (gen(0, 1)) { ow = int(gen(0, uint64_t(nOwners) - 1)); if (gen(0, 1)) kd = int(gen(0, uint64_t(nKinds) - 1)); }
                std::string v = value(nm % 2 == 0);
                Key k{kindOf(kd), ownerOf(ow), nameOf(nm)};
                std::string line = spaces();
                if (kd >= 0) line += k[0] + spaces() + "." + spaces();
                if (ow >= 0) line += k[1] + spaces() + "." + spaces();
                line += k[2] + spaces() + ":" + spaces() + v + spaces();
                (*conf)[k] = v;
                dst::note("entry %.30s|%.30s|%.20s...(%zu) = %.30s (%zu)", k[0].c_str(), k[1].c_str(), k[2].c_str(), k[2].size(), v.c_str(), v.size());
                s += line + "\n";
            }
        }
    }
    if (!s.empty() && gen(0, 4) == 0) s.pop_back();   // no newline at the end
    std::ofstream f(path, std::ios::binary);
    f << s;
}
std::string lookup(const std::string& kind, const std::string& owner, const std::string& name, const std::string& dflt) {
    for (const Key& k : {Key{kind, owner, name}, Key{"", owner, name}, Key{"", "", name}}) {
        auto i = conf->find(k);
        if (i != conf->end()) return i->second;
    }
    return dflt;
}
struct Spec { std::string text, expected, dflt; int owner, name; bool number; };
std::vector<Owner*>* owners;
std::vector<Spec>* specs;

void plan() {
    // arguments: "-oI value" pairs, "-oI" alone, others
    argText = new std::string[ARGS];
    int used = 1;
    std::map<int, std::string> opt;
    while (used < ARGS) {
        int o = int(gen(0, 5));
        int i = used;
        switch (gen(0, 3)) {
            case 0: argText[used++] = "-o" + std::to_string(o); if (!opt.count(o)) opt[o] = "true"; break;   // set below
            case 1: if (used + 1 < ARGS) { argText[used++] = "-o" + std::to_string(o); argText[used++] = std::to_string(gen(1, 1000)); } break;
            default: argText[used++] = "other"; break;
        }
        (void)i;
    }
    opt.clear();
    for (int i = 1; i < ARGS; ++i) {
        argvs[i] = &argText[i][0];
        if (argText[i].compare(0, 2, "-o") == 0) {
            int o = atoi(argText[i].c_str() + 2);
            if (!opt.count(o)) opt[o] = (i + 1 == ARGS || argText[i + 1][0] == '-') ? "true" : argText[i + 1];
        }
    }
    std::map<int, std::string> env;
    for (int e = 0; e < 3; ++e) if (gen(0, 1)) { env[e] = gen(0, 4) ? value(true) : ""; setenv(("DST_R04_" + std::to_string(e)).c_str(), env[e].c_str(), 1); } else unsetenv(("DST_R04_" + std::to_string(e)).c_str());
    owners = new std::vector<Owner*>();
    for (uint64_t n = gen(1, 3); n > 0; --n) owners->push_back(new Owner(kindOf(int(gen(0, uint64_t(nKinds) - 1))), ownerOf(int(gen(0, uint64_t(nOwners) - 1)))));
    specs = new std::vector<Spec>();
    for (uint64_t n = gen(1, 4); n > 0; --n) {
        Spec s;
        s.name = int(gen(0, uint64_t(nNames) - 1));
        s.number = s.name % 2 == 0;
        s.owner = gen(0, 1) ? -1 : int(gen(0, owners->size() - 1));
        s.dflt = value(s.number);
        int o = gen(0, 2) == 0 ? int(gen(0, 5)) : -1, e = gen(0, 2) == 0 ? int(gen(0, 2)) : -1;
        std::vector<std::string> parts{nameOf(s.name)};
        if (o >= 0 && (!s.number || !opt.count(o) || isdigit(opt[o][0]))) parts.push_back("-o" + std::to_string(o)); else o = -1;
        if (e >= 0 && s.number && env.count(e) && env[e].empty()) e = -1;   // no number
        if (e >= 0) parts.push_back("$DST_R04_" + std::to_string(e));
        while (parts.size()) { size_t k = gen(0, parts.size() - 1); s.text += (s.text.empty() ? "" : ";") + parts[k]; parts.erase(parts.begin() + long(k)); }
        if (o >= 0 && opt.count(o)) s.expected = opt[o];
        else if (e >= 0 && env.count(e)) s.expected = env[e];
        else s.expected = s.owner < 0 ? lookup("", "", nameOf(s.name), s.dflt) : lookup((*owners)[size_t(s.owner)]->k, (*owners)[size_t(s.owner)]->n, nameOf(s.name), s.dflt);
        dst::note("resource %d of owner %d, default %.30s, expected %.30s", s.name, s.owner, s.dflt.c_str(), s.expected.c_str());
        specs->push_back(s);
    }
}
void checkText(const Spec& s, const std::string& got, const char* how) {
    dst::Quiet q;
    DST_CHECK(got == s.expected, "value", "%s: resource '%.80s' is '%.60s' (%zu characters) instead of '%.60s' (%zu)", how, s.text.c_str(), got.c_str(), got.size(), s.expected.c_str(), s.expected.size());
}
void checkVal(const Spec& s, const Val& v, const char* how) {
    int64_t a = v.a, b = v.b;
    dst::Quiet q;
    DST_CHECK(a == b, "torn", "%s: resource '%.80s' handed out half-written (%lld and %lld)", how, s.text.c_str(), (long long)a, (long long)b);
    DST_CHECK(std::to_string(a) == s.expected, "value", "%s: resource '%.80s' is %lld instead of %.60s", how, s.text.c_str(), (long long)a, s.expected.c_str());
    (*finished)[&v]++;
}
eckit::Configurable* own(const Spec& s) { return s.owner < 0 ? nullptr : (*owners)[size_t(s.owner)]; }

void resources() {
    std::string d = dst::scratch();
    conf = new std::map<Key, std::string>();
    finished = new std::map<const Val*, int>();
    nKinds = 2; nOwners = 2; nNames = 4;
    longName = gen(0, 4) == 0 ? int(gen(1000, 1030)) : 0;
    {
        dst::Quiet q;
        mkdir((d + "/etc").c_str(), 0777); mkdir((d + "/etc/config").c_str(), 0777);
    }
    for (const char* f : {"general", "local", "dstsim", "dstsim.local"}) if (gen(0, 2)) { dst::Quiet q; writeConf(d + "/etc/config/" + f); }
    std::string setName = "setres", setVal = value(false), setDflt = "default";
    if (gen(0, 1)) {   // the file has a value, too
        setDflt = value(false);
        dst::Quiet q;
        std::ofstream f(d + "/etc/config/general", std::ios::binary | std::ios::app);
        f << "\n" << setName << ": " << setDflt << "\n" << (gen(0, 1) ? "an invalid line\n" : "");
    }
    eckit::ResourceMgr::instance().reset();   // something may have been looked up before
    plan();
    dst::enableIf(dst::F_SHORTREAD, 0.3, 0.1, 0.9);
    std::vector<eckit::Resource<Val>*> vals;
    std::vector<eckit::Resource<std::string>*> texts;
    for (auto& s : *specs) {
        vals.push_back(s.number ? new eckit::Resource<Val>(own(s), s.text, Val(atoll(s.dflt.c_str()))) : nullptr);
        texts.push_back(new eckit::Resource<std::string>(own(s), s.text, s.dflt));
    }
    int n = int(gen(1, 3));
    bool twice = gen(0, 3) == 0;
    int setDone = 0;
    bool setting = gen(0, 1);
    dst::note("%zu resources, %zu entries, %d threads", specs->size(), conf->size(), n);
    Threads t;
    for (int i = 0; i < n; ++i) t.go([&, i]() {
        for (uint64_t k = gen(1, 6); k > 0; --k) {
            size_t w = gen(0, specs->size() - 1);
            const Spec& s = (*specs)[w];
            switch (gen(0, 4)) {
                case 0: if (vals[w]) { const Val& v = *vals[w]; checkVal(s, v, "shared"); } break;
                case 1: { std::string v = static_cast<const std::string&>(*texts[w]); checkText(s, v, "shared"); break; }
                case 2: { eckit::Resource<std::string> r(own(s), s.text, s.dflt); checkText(s, static_cast<const std::string&>(r), "own"); break; }
                case 3: if (s.number) { eckit::Resource<long> r(own(s), s.text, atol(s.dflt.c_str())); checkText(s, std::to_string(static_cast<const long&>(r)), "own"); } break;
                case 4: if (setting) {
                    int before; { dst::Quiet q; before = setDone; }
                    eckit::Resource<std::string> r(setName, "default");
                    std::string v = r;
                    dst::Quiet q;
                    DST_CHECK(v == setVal || (!before && v == setDflt), "set", "a resource first used %s its value was set is '%.60s'", before ? "after" : "while", v.c_str());
                } break;
            }
        }
    });
    if (setting) {
        { eckit::Resource<std::string> r("whatever", ""); std::string v = r; }
        eckit::ResourceMgr::instance().set(setName, setVal);
        { dst::Quiet q; setDone = 1; }
    }
    t.join();
    if (twice) {   // everything is read again
        { dst::Quiet q; finished->clear(); }
        eckit::Configurable::reconfigureAll();
        for (size_t w = 0; w < specs->size(); ++w) {
            const Spec& s = (*specs)[w];
            checkText(s, static_cast<const std::string&>(*texts[w]), "again");
            if (vals[w]) { const Val& v = *vals[w]; checkVal(s, v, "again"); }
        }
    }
    dst::cover(dst::hashMix(specs->size() * 64 + conf->size(), uint64_t(n)));
    if (n > 1 && !conf->empty()) dst::nontrivial();
}

// ---------------------------------------------------------------- tables
struct Version { std::map<std::string, std::vector<std::string>> lines; std::vector<std::string> keys; };
void tables() {
    std::string d = dst::scratch();
    { dst::Quiet q; mkdir((d + "/etc").c_str(), 0777); }
    auto* vs = new std::vector<Version>();
    auto write = [&]() {
        dst::Quiet q;
        Version v;
        std::string s;
        for (uint64_t n = gen(0, 5); n > 0; --n) {
            if (gen(0, 5) == 0) { s += gen(0, 1) ? "# key0 comment\n" : "  \n"; continue; }
            std::string k = "key" + std::to_string(gen(0, 3));
            std::vector<std::string> line{k};
            for (uint64_t m = gen(0, 3); m > 0; --m) line.push_back("w" + std::to_string(vs->size()) + "_" + std::to_string(m));
            if (gen(0, 4) == 0) line.push_back(std::string(gen(1000, 1100), 'z'));
            std::string l = line[0];
            for (size_t i = 1; i < line.size(); ++i) l += std::string(gen(1, 3), ' ') + line[i];
            s += l + "\n";
            v.lines.emplace(k, line);
            v.keys.push_back(k);
        }
        vs->push_back(v);
        { std::ofstream f(d + "/etc/table.new", std::ios::binary); f << s; }
        struct timespec ts[2];   // the times of files are those of the simulation
        ts[0].tv_sec = ts[1].tv_sec = dst::wallNow() / 1000000000; ts[0].tv_nsec = ts[1].tv_nsec = dst::wallNow() % 1000000000;
        utimensat(AT_FDCWD, (d + "/etc/table.new").c_str(), ts, 0);
        rename((d + "/etc/table.new").c_str(), (d + "/etc/table").c_str());
    };
    write();
    dst::enableIf(dst::F_SHORTREAD, 0.3, 0.1, 0.9);
    eckit::EtcKeyTable table("table");
    int lo = 0;   // the versions before are not to be seen any more
    int n = int(gen(1, 3));
    dst::note("table, %d threads", n);
    Threads t;
    for (int i = 0; i < n; ++i) t.go([&]() {
        for (uint64_t k = gen(1, 6); k > 0; --k) {
            int from; { dst::Quiet q; from = lo; }
            bool keys = gen(0, 3) == 0;
            std::string key = "key" + std::to_string(gen(0, 3));
            std::vector<std::string> got;
            if (keys) got = table.keys(); else got = table.lookUp(key);
            dst::Quiet q;
            bool ok = false;
            for (size_t v = size_t(from); v < vs->size() && !ok; ++v) {
                if (keys) ok = got == (*vs)[v].keys;
                else { auto j = (*vs)[v].lines.find(key); ok = j == (*vs)[v].lines.end() ? got.empty() : got == j->second; }
            }
            std::string text; for (auto& g : got) text += g.substr(0, 20) + " ";
            DST_CHECK(ok, "table", "%s gives '%s', which no version from %d to %zu of the table contains", keys ? "keys" : key.c_str(), text.c_str(), from, vs->size() - 1);
        }
    });
    for (uint64_t k = gen(0, 3); k > 0; --k) {
        dst::sleepNs(1000000000ull * gen(2, 5));
        int mine = -1;
        if (gen(0, 2)) { write(); mine = int(vs->size()) - 1; }
        table.reload();
        dst::Quiet q;
        if (mine >= 0) lo = mine;
    }
    t.join();
    dst::cover(dst::hashMix(1000 + vs->size(), uint64_t(n)));
    if (vs->size() > 1) dst::nontrivial();
}

// ---------------------------------------------------------------- the configuration of a library
struct Lib : eckit::system::Library {
    Lib() : Library("dstlib") {}
    static Lib& instance() { static Lib l; return l; }
    std::string version() const override { return "1"; }
    std::string gitsha1(unsigned int) const override { return "0"; }
};
void libraries() {
    std::string d = dst::scratch();
    Lib& lib = Lib::instance();
    std::map<std::string, std::string> in;
    bool byEnv = gen(0, 1), file = gen(0, 4) != 0;
    std::string home = d + "/lib";
    {
        dst::Quiet q;
        std::string y;
        for (int i = 0; i < 4; ++i) if (gen(0, 1)) { in["res" + std::to_string(i)] = value(true); y += "res" + std::to_string(i) + ": " + in["res" + std::to_string(i)] + "\n"; }
        for (const char* x : {"/lib", "/lib/etc", "/lib/etc/dstlib"}) mkdir((d + x).c_str(), 0777);
        std::string p = byEnv ? d + "/lib/other.yaml" : d + "/lib/etc/dstlib/config.yaml";
        if (file) { std::ofstream f(p); f << y; } else in.clear();
        if (byEnv) setenv("DSTLIB_CONFIG_PATH", p.c_str(), 1); else unsetenv("DSTLIB_CONFIG_PATH");
    }
    lib.libraryHome(home);
    dst::enableIf(dst::F_SHORTREAD, 0.3, 0.1, 0.9);
    finished = new std::map<const Val*, int>();
    std::vector<eckit::LibResource<Val, Lib>*> rs;
    std::vector<Spec> sp;
    for (int i = 0; i < 4; ++i) {
        Spec s; s.text = "res" + std::to_string(i); s.dflt = value(true); s.expected = in.count(s.text) ? in[s.text] : s.dflt;
        sp.push_back(s);
        rs.push_back(new eckit::LibResource<Val, Lib>(s.text, Val(atoll(s.dflt.c_str()))));
    }
    int n = int(gen(1, 3));
    dst::note("library configuration, %zu entries, %d threads", in.size(), n);
    Threads t;
    for (int i = 0; i < n; ++i) t.go([&]() {
        for (uint64_t k = gen(1, 4); k > 0; --k) {
            size_t w = gen(0, 3);
            switch (gen(0, 2)) {
                case 0: { const Val& v = *rs[w]; checkVal(sp[w], v, "library"); break; }
                case 1: {
                    long got = -1;
                    bool has = lib.configuration().get(sp[w].text, got);
                    dst::Quiet q;
                    DST_CHECK(has == (in.count(sp[w].text) != 0) && (!has || std::to_string(got) == sp[w].expected), "value", "library entry %s: %d %ld", sp[w].text.c_str(), has, got);
                    break;
                }
                default: {
                    std::string p = eckit::PathName("~dstlib/etc/x").asString();
                    dst::Quiet q;
                    DST_CHECK(p == home + "/etc/x" || p == home + "//etc/x", "path", "~dstlib/etc/x is %s", p.c_str());
                }
            }
        }
    });
    t.join();
    dst::cover(dst::hashMix(2000 + in.size(), uint64_t(n)));
    if (n > 1 && !in.empty()) dst::nontrivial();
}
void run() {
    poisonOn = true;
    switch (gen(0, 4)) { case 0: tables(); break; case 1: libraries(); break; default: resources(); break; }
}
}  // namespace
const dst::ScenarioDef dst::scenario = {"R04", init, run};
