// S07: unique names are unique, temporary files and directories are nobody else's, directories are created whoever else creates them.
#include "common.h"
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include "eckit/filesystem/PathName.h"
#include "eckit/filesystem/TmpDir.h"
#include "eckit/filesystem/TmpFile.h"
using namespace scen;
using dst::gen;
namespace {
constexpr int MAXN = 300;
struct Name { char path[400]; int proc; bool gone; };
struct Sh { Name n[MAXN]; int count, errors; };

bool isDir(const std::string& p) { struct stat st; return ::stat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode); }

// proc has obtained this name
void obtained(Sh* s, const std::string& p, const char* how, bool mayExist) {
    dst::Quiet q;
    for (int i = 0; i < s->count; ++i)
        if (p == s->n[i].path && !s->n[i].gone) {
            bool alive = dst::procAlive(s->n[i].proc);
            DST_CHECK(!alive, "twice", "%s %s is given to process %d and to process %d", how, p.substr(dst::scratch().size()).c_str(), s->n[i].proc, dst::process());
        }
    if (!mayExist) DST_CHECK(!dst::existsRaw(p), "exists", "%s %s exists already", how, p.substr(dst::scratch().size()).c_str());
    if (s->count >= MAXN || p.size() >= sizeof(Name::path)) dst::fail("harness:names", "too many names");
    strcpy(s->n[s->count].path, p.c_str());
    s->n[s->count].proc = dst::process();
    s->n[s->count++].gone = false;
}
void gone(Sh* s, const std::string& p) { dst::Quiet q; for (int i = 0; i < s->count; ++i) if (p == s->n[i].path && s->n[i].proc == dst::process()) s->n[i].gone = true; }
void failed(Sh* s, std::exception& e) {
    dst::Quiet q;
    s->errors++;
    DST_CHECK(dst::firings(dst::F_RENAMEERR) + dst::firings(dst::F_OPENERR) + dst::firings(dst::F_CLOSEERR) + dst::firings(dst::F_EINTR) + dst::firings(dst::F_READERR) > 0, "refused", "an operation fails although nothing failed: %s", e.what());
}
void jump() { if (dst::fire(dst::F_CLOCKJUMP)) dst::jumpWall((int64_t(gen(0, 4)) - 2) * 1000000000ll); }

// ---------------------------------------------------------------- unique names
void askUnique(Sh* s, const std::string& base) {
    jump();
    try {
        eckit::PathName p = eckit::PathName::unique(base);
        obtained(s, p, "the unique name", false);
        DST_CHECK(isDir(p.dirName()), "directory", "the directory of a unique name does not exist");
        switch (gen(0, 2)) {
            case 0: { int fd = ::open(std::string(p).c_str(), O_WRONLY | O_CREAT | O_EXCL, 0644); DST_CHECK(fd >= 0 || dst::fired(dst::F_OPENERR) || dst::fired(dst::F_EINTR), "exists", "a unique name cannot be created"); if (fd >= 0) ::close(fd); break; }
            case 1: dst::yield(); break;
            default: break;
        }
    }
    catch (std::exception& e) { failed(s, e); }
}
void uniqueNames(Sh* s) {
    std::string base[2] = {dst::scratch() + "/u", dst::scratch() + "/some/where/u"};
    uint64_t before = gen(0, 2), waves = gen(1, 2);
    bool clock = gen(0, 1);
    if (clock) dst::enable(dst::F_CLOCKJUMP, 0.3);
    for (uint64_t i = 0; i < before; ++i) askUnique(s, base[gen(0, 1)]);   // what was asked before a fork counts, too
    for (uint64_t w = 0; w < waves; ++w) {
        int np = int(gen(1, 3));
        for (int p = 0; p < np; ++p) {
            uint64_t nt = gen(1, 2), k = gen(1, 3), which = gen(0, 2);
            bool c = gen(0, 3) == 0;
            int pid = 0;
            if (w && gen(0, 1)) for (int o = 1; o <= int(gen(1, 3)); ++o) if (!dst::procAlive(o) && dst::procStatus(o) >= 0) { bool used = false; for (int z = 1; z < 12; ++z) if (z != o && dst::pidOf(z) == dst::pidOf(o)) used = true; if (!used && dst::pidOf(o) > 0) pid = dst::pidOf(o); }
            dst::spawn([=] {
                dst::crashable(c);
                Threads t;
                for (uint64_t i = 1; i < nt; ++i) t.go([=] { for (uint64_t j = 0; j < k; ++j) askUnique(s, base[which & 1]); });
                for (uint64_t j = 0; j < k; ++j) askUnique(s, base[which > 0]);
                t.join();
                dst::crashable(false);
            }, "asker", pid);
        }
        if (gen(0, 1)) askUnique(s, base[gen(0, 1)]);
        dst::joinAll();
    }
    if (s->count > 2) dst::nontrivial();
}
// ---------------------------------------------------------------- temporary files and directories
void temporaries(Sh* s) {
    setenv("TMPDIR", dst::scratch().c_str(), 1);
    int np = int(gen(1, 3));
    auto work = [=](uint64_t k) {
        for (uint64_t j = 0; j < k; ++j) {
            std::string path;
            int e0 = dst::firings(dst::F_RENAMEERR);
            bool there = false;
            try {
                if (gen(0, 1)) {
                    eckit::TmpFile f(gen(0, 1));
                    path = std::string(f);
                    obtained(s, path, "the temporary file", true);
                    there = true;
                    DST_CHECK(dst::existsRaw(path), "missing", "a temporary file does not exist");
                    DST_CHECK(dst::readFileRaw(path).empty(), "exists", "a new temporary file has contents");
                    dst::writeFileRaw(path, "mine " + std::to_string(dst::process()));
                    for (uint64_t n = gen(0, 3); n > 0; --n) dst::yield();
                    DST_CHECK(dst::readFileRaw(path) == "mine " + std::to_string(dst::process()), "shared", "somebody else wrote to a temporary file");
                }
                else {
                    eckit::TmpDir d(dst::scratch().c_str());
                    path = std::string(d);
                    obtained(s, path, "the temporary directory", true);
                    there = true;
                    DST_CHECK(isDir(path), "missing", "a temporary directory does not exist");
                    DST_CHECK(dst::listRaw(path).empty(), "exists", "a new temporary directory has contents");
                    for (uint64_t n = gen(0, 3); n > 0; --n) {
                        std::string sub = path + "/" + std::to_string(n);
                        if (gen(0, 1)) { if (::mkdir(sub.c_str(), 0755) == 0 && gen(0, 1)) dst::writeFileRaw(sub + "/x", "y"); }
                        else dst::writeFileRaw(sub, "z");
                    }
                    dst::yield();
                    if (gen(0, 3) == 0) { eckit::TmpDir moved(std::move(d)); DST_CHECK(std::string(moved) == path, "moved", "a moved temporary directory has another path"); }
                }
            }
            catch (std::exception& e) { failed(s, e); }
            if (there && dst::firings(dst::F_RENAMEERR) == e0 && !dst::fired(dst::F_OPENERR) && !dst::fired(dst::F_EINTR) && !dst::fired(dst::F_READERR)) DST_CHECK(!dst::existsRaw(path), "left", "a temporary file or directory is still there after its end");
            if (there) gone(s, path);
        }
    };
    for (int p = 0; p < np; ++p) {
        uint64_t nt = gen(1, 2), k = gen(1, 3);
        dst::spawn([=] { Threads t; for (uint64_t i = 1; i < nt; ++i) t.go([=] { work(k); }); work(k); t.join(); }, "user");
    }
    dst::joinAll();
    if (s->count > 2) dst::nontrivial();
}
// ---------------------------------------------------------------- directories
void directories(Sh* s) {
    std::vector<std::string> paths;
    std::string root = dst::scratch() + "/d";
    static const char* C[] = {"a", "b", "longer-name", "c c"};
    uint64_t n = gen(1, 4);
    for (uint64_t i = 0; i < n; ++i) {
        std::string p = root;
        for (uint64_t d = gen(1, 5); d > 0; --d) p += std::string("/") + (gen(0, 7) ? "" : "/") + C[gen(0, 3) * gen(0, 1)];
        if (gen(0, 5) == 0) p += "/";
        paths.push_back(p);
    }
    std::string obstacle;
    if (gen(0, 3) == 0) {   // something else is in the way
        obstacle = root + "/a";
        if (::mkdir(root.c_str(), 0755)) obstacle.clear();
        else if (gen(0, 1)) dst::writeFileRaw(obstacle, gen(0, 1) ? "file" : "");
        else { int r = ::symlink((dst::scratch() + "/nowhere").c_str(), obstacle.c_str()); (void)r; }
        dst::note("obstacle at /d/a");
    }
    int np = int(gen(1, 3)), made = 0;
    int* ok = dst::sharedNew<int>();
    auto work = [=](uint64_t k) {
        for (uint64_t j = 0; j < k; ++j) {
            const std::string& p = paths[gen(0, paths.size() - 1)];
            bool blocked = false;
            if (!obstacle.empty()) { std::string norm; for (char c : p) if (!(c == '/' && !norm.empty() && norm.back() == '/')) norm += c; norm += "/"; blocked = norm.compare(0, obstacle.size() + 1, obstacle + "/") == 0; }
            int e0 = dst::firings(dst::F_RENAMEERR);
            try {
                eckit::PathName(p).mkdir();
                dst::Quiet q;
                for (size_t i = dst::scratch().size() + 1; i <= p.size(); ++i)
                    if (i == p.size() || p[i] == '/') DST_CHECK(isDir(p.substr(0, i)), "missing", "mkdir(%s) returned but %s is not a directory", p.substr(dst::scratch().size()).c_str(), p.substr(dst::scratch().size(), i - dst::scratch().size()).c_str());
                ++*ok;
            }
            catch (std::exception& e) {
                dst::Quiet q;
                s->errors++;
                DST_CHECK(blocked || dst::firings(dst::F_RENAMEERR) > e0, "refused", "mkdir(%s) fails although nothing failed: %s", p.substr(dst::scratch().size()).c_str(), e.what());
            }
        }
    };
    for (int p = 0; p < np; ++p) {
        uint64_t nt = gen(1, 2), k = gen(1, 3);
        dst::spawn([=] { Threads t; for (uint64_t i = 1; i < nt; ++i) t.go([=] { work(k); }); work(k); t.join(); }, "maker");
    }
    dst::joinAll();
    made = *ok;
    if (made > 1 && np > 1) dst::nontrivial();
    dst::cover(dst::hashMix(9000 + np * 10 + paths.size(), dst::hashMix(made, s->errors * 2 + !obstacle.empty())));
}
void init() { initMain(); { eckit::PathName p("/tmp/x"); (void)p.exists(); (void)p.dirName(); } }
void run() {
    Sh* s = dst::sharedNew<Sh>();
    dst::enableIf(dst::F_CRASH, 0.3, 0.002, 0.08);
    dst::enableIf(dst::F_RENAMEERR, 0.25, 0.01, 0.2);
    int kind = int(gen(0, 2));
    if (kind == 1) { dst::enableIf(dst::F_OPENERR, 0.2, 0.02, 0.2); dst::enableIf(dst::F_EINTR, 0.1, 0.02, 0.2); dst::enableIf(dst::F_CLOSEERR, 0.1, 0.02, 0.2); }
    switch (kind) {
        case 0: uniqueNames(s); break;
        case 1: temporaries(s); break;
        default: directories(s); return;
    }
    dst::cover(dst::hashMix(uint64_t(kind), dst::hashMix(uint64_t(s->count), uint64_t(s->errors))));
}
}  // namespace
const dst::ScenarioDef dst::scenario = {"S07", init, run};
