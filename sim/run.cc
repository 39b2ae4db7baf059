// Runner: seeds, replay, minimisation, statistics.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <errno.h>
#include <execinfo.h>
#include <unwind.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
#include "internal.h"

namespace dst {
void wipeTree(const char*);
void netForget();

struct Plan {
    uint64_t seed = 0;
    bool replay = false;
    std::vector<Dev> devs;   // all types
};
struct Result {
    int failed = 0, known = 0;
    std::string cls, msg;
    uint64_t hash = 0, sched = 0;
};

static std::string workDir;
static char scratchPath[128];
static bool verbose = false;
static double wallLimit = 40.0;

static double wallSec() { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts); return double(ts.tv_sec) + double(ts.tv_nsec) * 1e-9; }

struct BtBuf { void* p[40]; int n; };
static _Unwind_Reason_Code btStep(struct _Unwind_Context* c, void* a) { BtBuf* b = static_cast<BtBuf*>(a); if (b->n < 40) b->p[b->n++] = reinterpret_cast<void*>(_Unwind_GetIP(c)); return _URC_NO_REASON; }
static void onSignal(int sig, siginfo_t* si, void*) {
    if (G && active() && !G->failed && !G->knownHit) {
        G->failed = 1;
        snprintf(G->cls, sizeof G->cls, "signal:%d", sig);
        snprintf(G->msg, sizeof G->msg, "process %d task %d received signal %d (address %p)", G->tasks[tl.task].proc, tl.task, sig, si ? si->si_addr : nullptr);
    }
    static int once;
    if (verbose && !once++) { ++tl.quiet; BtBuf b{{}, 0}; _Unwind_Backtrace(btStep, &b); int n = b.n; dprintf(2, "signal %d, %d frames\n", sig, n); backtrace_symbols_fd(b.p, n, 2); }
    finishRun();
}

static uint64_t splitmix(uint64_t& x) { uint64_t z = (x += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }

static void mapShared() {
    void* at = reinterpret_cast<void*>(0x100000000000ull);
    void* p = mmap(at, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(3); }
    G = static_cast<Shared*>(p);
}

static Result runOne(const Plan& plan) {
    if (madvise(G, sizeof(Shared), MADV_REMOVE)) memset(G, 0, sizeof(Shared));
    wipeTree(scratchPath);
    syscall(SYS_mkdir, scratchPath, 0777);
    snprintf(G->scratch, sizeof G->scratch, "%s", scratchPath);
    G->seed = plan.seed;
    uint64_t x = plan.seed;
    G->rs[0] = splitmix(x); G->rs[1] = splitmix(x) | 1;
    G->rg[0] = splitmix(x); G->rg[1] = splitmix(x) | 1;
    G->clock = 1000000000ull;
    G->wallOff = 1700000000000000000ll + int64_t(splitmix(x) % 1000000) * 1000000000ll;
    G->nextPid = 1000 + splitmix(x) % 1000;
    G->stepLimitSync = 400000; G->stepLimitMem = 60000000;
    G->hash = plan.seed; G->schedHash = 0;
    G->replay = plan.replay;
    // schedule policy (swarm)
    double u = rnd01(G->rs);
    G->mode = u < 0.70 ? 0 : (u < 0.88 ? 1 : 2);
    static const double PS[6] = {0.02, 0.05, 0.1, 0.2, 0.35, 0.6};
    G->pSync = PS[rnd(G->rs) % 6];
    static const double MM[10] = {0, 0, 0, 5, 30, 100, 400, 1500, 6000, 30000};
    G->memMean = MM[rnd(G->rs) % 10];
    if (G->mode) G->memMean = 0;
    G->pctLeft = int(1 + rnd(G->rs) % 4);
    G->pctNext = 1 + rnd(G->rs) % 2000;
    G->memNext = 1;
    uint64_t aim = splitmix(x);
    if (G->mode != 1 && aim % 2 == 0 && !plan.replay) {
        G->memMean = 0;
        G->aim = 1 + int((aim >> 4) % 2);
        G->siteSalt = splitmix(x);
        G->siteMask = (1ull << (2 + (aim >> 8) % 9)) - 1;
        G->aimRare = (1ull << ((aim >> 12) % 7)) - 1;
        G->aimLeft = int(5 + (aim >> 16) % 150);
    }
    if (plan.replay) {
        for (int t = 0; t < 3; ++t) {
            std::vector<Dev> v;
            for (auto& d : plan.devs) if (int(d.type) == t) v.push_back(d);
            std::stable_sort(v.begin(), v.end(), [](const Dev& a, const Dev& b) { return a.idx < b.idx; });
            for (size_t i = 0; i < v.size() && i < size_t(MAXDEV); ++i) G->rep[t][i] = v[i];
            G->nrep[t] = uint32_t(v.size());
        }
    }
    fsInit(); netInit();
    pid_t pid = pid_t(syscall(SYS_fork));
    if (pid == 0) {
        setpgid(0, 0);
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        int nul = int(syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR, 0));
        if (!verbose) { dup2(nul, 1); dup2(nul, 2); }
        dup2(nul, 0);
        if (nul > 2) syscall(SYS_close, nul);
        if (chdir(scratchPath)) _exit(3);
        struct sigaction sa;
        memset(&sa, 0, sizeof sa);
        sa.sa_sigaction = onSignal;
        sa.sa_flags = SA_SIGINFO | SA_NODEFER;
        for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL}) sigaction(s, &sa, nullptr);
        signal(SIGPIPE, SIG_DFL);
        signal(SIGCHLD, SIG_IGN);
        netForget();
        Proc& p = G->procs[0];
        p.used = p.alive = 1; p.status = -1; p.pid = int(G->nextPid++);
        p.ospid = pid_t(syscall(SYS_getpid));
        G->nprocs = 1;
        int t = newTask(0, "root");
        tl.task = t; tl.uid = G->tasks[t].uid;
        G->current = t;
        errno = 0;
        allocRegion = 2;
        scenario.run();
        finishRun();
    }
    if (pid < 0) { perror("fork"); _exit(3); }
    setpgid(pid, pid);
    double t0 = wallSec();
    Result r;
    for (;;) {
        if (__atomic_load_n(&G->finished, __ATOMIC_SEQ_CST)) break;
        struct timespec ts = {0, 200000000};
        syscall(SYS_futex, &G->finished, FUTEX_WAIT, 0, &ts, nullptr, 0);
        if (__atomic_load_n(&G->finished, __ATOMIC_SEQ_CST)) break;
        int st;
        pid_t w = waitpid(pid, &st, WNOHANG);
        if (w == pid && !__atomic_load_n(&G->finished, __ATOMIC_SEQ_CST)) {
            G->failed = 1;
            if (WIFSIGNALED(st)) snprintf(G->cls, sizeof G->cls, "signal:%d", WTERMSIG(st));
            else snprintf(G->cls, sizeof G->cls, "exit:%d", WEXITSTATUS(st));
            snprintf(G->msg, sizeof G->msg, "the process under test ended by itself");
            break;
        }
        if (wallSec() - t0 > wallLimit) {
            G->failed = 1;
            snprintf(G->cls, sizeof G->cls, "hang:wall");
            snprintf(G->msg, sizeof G->msg, "no end after %.0f s of real time (simulated %.3f s, %llu scheduling points)", wallLimit, double(G->clock) / 1e9, (unsigned long long)G->syncs);
            break;
        }
    }
    kill(-pid, SIGKILL);
    kill(pid, SIGKILL);
    for (;;) { int st; pid_t w = waitpid(-1, &st, 0); if (w < 0 && errno == ECHILD) break; }
    r.failed = G->failed; r.known = G->knownHit;
    r.cls = G->cls; r.msg = G->msg;
    r.hash = G->hash; r.sched = G->schedHash;
    return r;
}

// ------------------------------------------------------------------ replay files
static std::string esc(const std::string& s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += char(c);
    }
    return r;
}
static void saveReplay(const std::string& path, const Plan& p, const Result& r, uint64_t full) {
    std::string tmp = path + ".tmp";
    FILE* f = fopen(tmp.c_str(), "w");
    if (!f) { perror(path.c_str()); _exit(3); }
    fprintf(f, "{\"property\": \"%s\", \"seed\": %llu, \"mode\": \"%s\", \"class\": \"%s\", \"hash\": \"%016llx\",\n \"message\": \"%s\",\n \"original_choices\": %llu,\n \"choices\": [", scenario.id,
            (unsigned long long)p.seed, p.replay ? "explicit" : "seed", esc(r.cls).c_str(), (unsigned long long)r.hash, esc(r.msg).c_str(), (unsigned long long)full);
    for (size_t i = 0; i < p.devs.size(); ++i) fprintf(f, "%s\n[%u, %llu, %u]", i ? "," : "", p.devs[i].type, (unsigned long long)p.devs[i].idx, p.devs[i].val);
    fprintf(f, "],\n \"meaning\": \"choices are [kind, index, value]; kind 0: the index-th decision (which task runs, which fault happens) takes the value instead of the default 0; kind 1: preemption at the index-th memory access; kind 2: the index-th workload draw is value-1\"}\n");
    fclose(f);
    syscall(SYS_rename, tmp.c_str(), path.c_str());
}
static bool loadReplay(const std::string& path, Plan& p, std::string& cls, uint64_t& hash) {
    bool ok;
    std::string s = readFileRaw(path, &ok);
    if (!ok) return false;
    auto num = [&](const char* k) -> uint64_t { size_t i = s.find(std::string("\"") + k + "\":"); return i == std::string::npos ? 0 : strtoull(s.c_str() + i + strlen(k) + 3, nullptr, 10); };
    auto str = [&](const char* k) -> std::string { size_t i = s.find(std::string("\"") + k + "\": \""); if (i == std::string::npos) return ""; i += strlen(k) + 5; size_t e = s.find('"', i); return s.substr(i, e - i); };
    p.seed = num("seed");
    p.replay = str("mode") == "explicit";
    cls = str("class");
    hash = strtoull(str("hash").c_str(), nullptr, 16);
    size_t i = s.find("\"choices\": [");
    if (i == std::string::npos) return false;
    const char* c = s.c_str() + i + 12;
    while (*c) {
        while (*c == ' ' || *c == ',' || *c == '\n') ++c;
        if (*c != '[') break;
        ++c;
        Dev d;
        char* e;
        d.type = uint32_t(strtoul(c, &e, 10)); c = e + 1;
        d.idx = strtoull(c, &e, 10); c = e + 1;
        d.val = uint32_t(strtoul(c, &e, 10)); c = e;
        while (*c && *c != ']') ++c;
        ++c;
        p.devs.push_back(d);
    }
    return true;
}
static Plan explicitPlan(const Plan& from) {
    Plan p;
    p.seed = from.seed; p.replay = true;
    for (uint32_t i = 0; i < G->ndev; ++i) p.devs.push_back(G->dev[i]);
    for (auto& d : from.devs) if (d.type == 2) p.devs.push_back(d);
    return p;
}

static int minimise(const std::string& in, const std::string& out, double seconds) {
    Plan p; std::string cls; uint64_t h;
    if (!loadReplay(in, p, cls, h)) { fprintf(stderr, "cannot read %s\n", in.c_str()); return 3; }
    double t0 = wallSec();
    Result r = runOne(p);
    if (!r.failed || r.cls != cls) { printf("NOT-REPRODUCED class=%s got=%s\n", cls.c_str(), r.cls.c_str()); return 2; }
    uint64_t full = p.devs.size();
    Plan best = p;
    if (!p.replay) {
        if (G->ndev >= MAXDEV) { saveReplay(out, p, r, 0); return 0; }
        Plan e = explicitPlan(p);
        full = e.devs.size();
        Result r2 = runOne(e);
        if (!r2.failed || r2.cls != cls) { saveReplay(out, p, r, full); return 0; }   // keep the seed form
        best = explicitPlan(e); 
    }
    auto attempt = [&](const Plan& c) {
        if (wallSec() - t0 > seconds) return false;
        Result x = runOne(c);
        if (x.failed && x.cls == cls) { best = explicitPlan(c); return true; }
        return false;
    };
    for (int round = 0; round < 3 && wallSec() - t0 < seconds; ++round) {
        bool any = false;
        // workload draws towards their lower bound
        runOne(best);
        std::vector<GenRec> g(G->gens, G->gens + std::min<uint32_t>(G->ngen, MAXGEN));
        for (size_t i = 0; i < g.size() && i < 400 && wallSec() - t0 < seconds * 0.5 * (round + 1); ++i) {
            if (g[i].val == g[i].lo) continue;
            bool has = false;
            for (auto& d : best.devs) if (d.type == 2 && d.idx == i) has = true;
            uint64_t cands[2] = {g[i].lo, g[i].lo + (g[i].val - g[i].lo) / 2};
            for (uint64_t cv : cands) {
                if (cv == g[i].val || cv + 1 > 0xffffffffull) continue;
                Plan c = best;
                if (has) c.devs.erase(std::remove_if(c.devs.begin(), c.devs.end(), [&](const Dev& d) { return d.type == 2 && d.idx == i; }), c.devs.end());
                c.devs.push_back(Dev{i, uint32_t(cv + 1), 2});
                if (attempt(c)) { any = true; break; }
            }
        }
        // schedule and fault choices
        for (size_t chunk = std::max<size_t>(1, best.devs.size() / 2); chunk >= 1; chunk /= 2) {
            size_t i = 0;
            while (i < best.devs.size() && wallSec() - t0 < seconds) {
                Plan c; c.seed = best.seed; c.replay = true;
                size_t before = best.devs.size();
                bool onlyGen = true;
                for (size_t k = 0; k < best.devs.size(); ++k) { bool in2 = k >= i && k < i + chunk && best.devs[k].type != 2; if (in2) onlyGen = false; else c.devs.push_back(best.devs[k]); }
                if (onlyGen) { i += chunk; continue; }
                if (attempt(c) && best.devs.size() < before) any = true;
                else i += chunk;
            }
            if (chunk == 1 || wallSec() - t0 > seconds) break;
        }
        if (!any) break;
    }
    Result fin = runOne(best);
    if (!fin.failed || fin.cls != cls) { fprintf(stderr, "minimised run lost the failure\n"); saveReplay(out, p, r, full); return 0; }
    saveReplay(out, best, fin, full);
    return 0;
}

static int replayFile(const std::string& path, const std::vector<std::string>& known) {
    (void)known;
    Plan p; std::string cls; uint64_t h;
    if (!loadReplay(path, p, cls, h)) { fprintf(stderr, "cannot read %s\n", path.c_str()); return 3; }
    Result r = runOne(p);
    printf("%s", G->notes);
    if (r.known) printf("KNOWN id=%s %s\n", r.cls.c_str(), r.msg.c_str());
    printf("REPLAY failed=%d class=%s hash=%016llx expected_class=%s expected_hash=%016llx same=%d\n%s\n", r.failed, r.cls.c_str(), (unsigned long long)r.hash, cls.c_str(), (unsigned long long)h,
           r.failed && r.cls == cls && r.hash == h, r.msg.c_str());
    return r.failed ? 1 : 0;
}

static int worker(int k, uint64_t base, double seconds, uint64_t maxRuns, const std::vector<std::string>& known) {
    double t0 = wallSec();
    uint64_t runs = 0, nontriv = 0, syncs = 0, switches = 0, preempts = 0, mem = 0, simNs = 0, redo = 0, mismatch = 0, harness = 0, walls = 0, procs = 0, tasks = 0, slow = 0;
    uint64_t faults[F_COUNT] = {0}, faultRuns[F_COUNT] = {0};
    std::unordered_set<uint64_t> scheds, states;
    std::map<std::string, std::pair<uint64_t, std::string>> knownHits;
    std::map<std::string, std::pair<uint64_t, uint64_t>> harnessHits;
    std::string stop = workDir + "/stop";
    std::string sample;
    int rc = 0;
    for (uint64_t i = 0; i < maxRuns; ++i) {
        if (wallSec() - t0 > seconds || existsRaw(stop)) break;
        uint64_t x = base * 0x9e3779b97f4a7c15ull + uint64_t(k) * 0xd1342543de82ef95ull + i;
        Plan p;
        p.seed = splitmix(x) >> 1;
        double r0 = wallSec();
        Result r = runOne(p);
        if (wallSec() - r0 > 5) slow++;
        runs++;
        if (r.failed && r.cls.compare(0, 8, "harness:") == 0) { harness++; auto& e = harnessHits[r.cls + " " + r.msg]; e.first++; e.second = p.seed; continue; }
        if (r.known && std::find(known.begin(), known.end(), r.cls) == known.end()) { r.failed = 1; r.cls = "unlisted:" + r.cls; }
        else if (r.known) { auto& e = knownHits[r.cls]; if (!e.first++) e.second = r.msg; }
        nontriv += G->nontriv ? 1 : 0;
        syncs += G->syncs; switches += G->switches; preempts += G->preempts; mem += G->memTotal; simNs += G->clock - 1000000000ull; procs += uint64_t(G->nprocs); tasks += uint64_t(G->ntasks);
        for (int f = 0; f < F_COUNT; ++f) { faults[f] += uint64_t(G->faults[f].count); faultRuns[f] += G->faults[f].count ? 1 : 0; }
        if (G->nontriv && scheds.size() < 2000000) scheds.insert(hashMix(r.sched, G->gens[0].val ^ (G->ngen << 8)));
        for (uint32_t c = 0; c < G->ncover && states.size() < 2000000; ++c) states.insert(G->cover[c]);
        if (sample.empty() && G->nontriv && i >= 3) {
            char b[400];
            snprintf(b, sizeof b, "seed %llu: mode %d, %llu scheduling points, %llu switches, %d processes, %d tasks, simulated %.6f s", (unsigned long long)p.seed, G->mode, (unsigned long long)G->syncs,
                     (unsigned long long)G->switches, G->nprocs, G->ntasks, double(G->clock - 1000000000ull) / 1e9);
            sample = b;
        }
        if (r.failed) {
            // confirm: same seed, same failure
            Result r2 = runOne(p);
            redo++;
            std::string c2 = r2.known ? "unlisted:" + r2.cls : r2.cls;
            if (!(r2.failed || r2.known) || c2 != r.cls || r2.hash != r.hash) {
                mismatch++;
                auto& e = harnessHits["nondeterministic " + r.cls + " / " + c2 + " " + r.msg]; e.first++; e.second = p.seed;
                if (r.cls == "hang:wall") walls++;
                continue;
            }
            saveReplay(workDir + "/fail." + std::to_string(k) + ".json", p, r, 0);
            int fd = int(syscall(SYS_openat, AT_FDCWD, stop.c_str(), O_CREAT | O_WRONLY, 0644));
            syscall(SYS_close, fd);
            rc = 1;
            break;
        }
        if (i % 64 == 5) {   // determinism spot check, by seed and by explicit choices
            Plan e = explicitPlan(p);
            bool full = G->ndev < MAXDEV;
            Result r2 = runOne(p);
            redo++;
            if (r2.hash != r.hash) { mismatch++; auto& q = harnessHits["nondeterministic run"]; q.first++; q.second = p.seed; }
            if (full && i % 256 == 5) { Result r3 = runOne(e); redo++; if (r3.hash != r.hash) { mismatch++; auto& q = harnessHits["explicit replay differs"]; q.first++; q.second = p.seed; } }
        }
    }
    wipeTree(scratchPath);
    std::string js = workDir + "/stats." + std::to_string(k) + ".json";
    FILE* f = fopen(js.c_str(), "w");
    fprintf(f, "{\"runs\": %llu, \"nontrivial\": %llu, \"syncs\": %llu, \"switches\": %llu, \"preempts\": %llu, \"mem\": %llu, \"sim_ns\": %llu, \"redo\": %llu, \"mismatch\": %llu, \"harness\": %llu, \"procs\": %llu, \"tasks\": %llu, \"slow\": %llu, \"wall_s\": %.3f,\n",
            (unsigned long long)runs, (unsigned long long)nontriv, (unsigned long long)syncs, (unsigned long long)switches, (unsigned long long)preempts, (unsigned long long)mem, (unsigned long long)simNs,
            (unsigned long long)redo, (unsigned long long)mismatch, (unsigned long long)harness, (unsigned long long)procs, (unsigned long long)tasks, (unsigned long long)slow, wallSec() - t0);
    fprintf(f, " \"sample\": \"%s\",\n \"faults\": {", esc(sample).c_str());
    bool first = true;
    for (int q = 0; q < F_COUNT; ++q) if (faults[q]) { fprintf(f, "%s\"%s\": [%llu, %llu]", first ? "" : ", ", faultName(q), (unsigned long long)faults[q], (unsigned long long)faultRuns[q]); first = false; }
    fprintf(f, "},\n \"known\": {");
    first = true;
    for (auto& e : knownHits) { fprintf(f, "%s\"%s\": [%llu, \"%s\"]", first ? "" : ", ", esc(e.first).c_str(), (unsigned long long)e.second.first, esc(e.second.second).c_str()); first = false; }
    fprintf(f, "},\n \"harness_errors\": {");
    first = true;
    int cnt = 0;
    for (auto& e : harnessHits) { if (++cnt > 20) break; fprintf(f, "%s\"%s\": [%llu, %llu]", first ? "" : ", ", esc(e.first).c_str(), (unsigned long long)e.second.first, (unsigned long long)e.second.second); first = false; }
    fprintf(f, "}}\n");
    fclose(f);
    f = fopen((workDir + "/sched." + std::to_string(k) + ".bin").c_str(), "w");
    for (uint64_t h : scheds) fwrite(&h, 8, 1, f);
    fclose(f);
    f = fopen((workDir + "/states." + std::to_string(k) + ".bin").c_str(), "w");
    for (uint64_t h : states) fwrite(&h, 8, 1, f);
    fclose(f);
    return rc;
}
}  // namespace dst

using namespace dst;
int main(int argc, char** argv) {
    // fixed addresses and environment: one seed is one execution
    if (!getenv("DST_CHILD")) {
        personality(ADDR_NO_RANDOMIZE);
        std::vector<char*> env;
        static char e0[] = "DST_CHILD=1", e1[] = "PATH=/usr/bin:/bin", e2[] = "HOME=/dev/shm", e3[] = "TZ=UTC", e4[] = "LC_ALL=C", e5[] = "USER=sim", e6[] = "OPENBLAS_NUM_THREADS=1", e7[] = "OMP_NUM_THREADS=1";   // the threads that a library starts when it is loaded would spin
        for (char* e : {e0, e1, e2, e3, e4, e5, e6, e7}) env.push_back(e);
        env.push_back(nullptr);
        execve("/proc/self/exe", argv, env.data());
        perror("execve");
        return 3;
    }
    prctl(PR_SET_CHILD_SUBREAPER, 1);
    allocRegion = 0;
    std::string mode, file, out;
    int k = 0;
    uint64_t seed = 1, maxRuns = ~0ull;
    double seconds = 10;
    std::vector<std::string> known;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto next = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--work") { mode = "work"; k = atoi(next().c_str()); }
        else if (a == "--dir") workDir = next();
        else if (a == "--seed") seed = strtoull(next().c_str(), nullptr, 10);
        else if (a == "--seconds") seconds = atof(next().c_str());
        else if (a == "--runs") maxRuns = strtoull(next().c_str(), nullptr, 10);
        else if (a == "--replay") { mode = "replay"; file = next(); }
        else if (a == "--min") { mode = "min"; file = next(); }
        else if (a == "--one") { mode = "one"; seed = strtoull(next().c_str(), nullptr, 10); }
        else if (a == "--out") out = next();
        else if (a == "-v") verbose = true;
        else if (a == "--known") known.push_back(next());
        else if (a == "--trace") { dst::traceFd = int(syscall(SYS_openat, AT_FDCWD, next().c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644)); syscall(SYS_dup2, traceFd, 900); traceFd = 900; }
        else if (a == "--wall") wallLimit = atof(next().c_str());
    }
    snprintf(scratchPath, sizeof scratchPath, "/dev/shm/dst.%08d", int(syscall(SYS_getpid)));
    setenv("DST_HOME", scratchPath, 1);
    mapShared();
    { BtBuf b{{}, 0}; _Unwind_Backtrace(btStep, &b); }
    allocRegion = 1;
    if (scenario.init) scenario.init();
    allocRegion = 0;
    int rc = 0;
    if (mode == "work") rc = worker(k, seed, seconds, maxRuns, known);
    else if (mode == "replay") rc = replayFile(file, known);
    else if (mode == "min") rc = minimise(file, out, seconds);
    else if (mode == "one") {
        Plan p; p.seed = seed;
        Result r = runOne(p);
        printf("%s", G->notes);
        printf("failed=%d known=%d class=%s msg=%s hash=%016llx syncs=%llu switches=%llu mem=%llu sim=%.6f mode=%d devs=%u\n", r.failed, r.known, r.cls.c_str(), r.msg.c_str(), (unsigned long long)r.hash,
               (unsigned long long)G->syncs, (unsigned long long)G->switches, (unsigned long long)G->memTotal, double(G->clock - 1000000000ull) / 1e9, G->mode, G->ndev);
        for (int f = 0; f < F_COUNT; ++f) if (G->faults[f].count) printf("  %s x%d\n", faultName(f), G->faults[f].count);
        if (!out.empty()) { r.failed |= r.known; saveReplay(out, p, r, 0); }
        rc = r.failed;
    }
    wipeTree(scratchPath);
    fflush(stdout);
    _exit(rc);
}
