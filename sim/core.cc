// Scheduler, clock, threads, processes.
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/times.h>
#include <time.h>
#include <unistd.h>
#include "internal.h"

namespace dst {

Shared* G = nullptr;
__thread Tls tl __attribute__((tls_model("initial-exec"))) = {-1, 0, 0, 0};

void* realSym(const char* name) {
    void* p = dlsym(RTLD_NEXT, name);
    if (!p) { fprintf(stderr, "dst: no symbol %s\n", name); _exit(3); }
    return p;
}

// ------------------------------------------------------------------ prng
static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
uint64_t rnd(uint64_t* s) {   // xoroshiro128+
    uint64_t s0 = s[0], s1 = s[1], r = s0 + s1;
    s1 ^= s0; s[0] = rotl(s0, 24) ^ s1 ^ (s1 << 16); s[1] = rotl(s1, 37);
    return r;
}
double rnd01(uint64_t* s) { return double(rnd(s) >> 11) * (1.0 / 9007199254740992.0); }
uint64_t hashMix(uint64_t h, uint64_t v) { v *= 0x9e3779b97f4a7c15ull; v ^= v >> 32; v *= 0xbf58476d1ce4e5b9ull; v ^= v >> 29; h = (h ^ v) * 0xff51afd7ed558ccdull; h ^= h >> 31; return h + 0x2545f4914f6cdd1dull; }

int traceFd = -1;     // development: --trace FILE
void traceEvent(int kind, uint64_t arg) {
    if (traceFd >= 0) { char b[160]; int n = snprintf(b, sizeof b, "%d kind %d arg %llu mem %llu\n", tl.task, kind, (unsigned long long)arg, (unsigned long long)G->memTotal); syscall(SYS_write, traceFd, b, n); }
    G->hash = hashMix(G->hash, (uint64_t(tl.task) << 32) ^ (uint64_t(kind) << 48) ^ arg);
}

static void record(int type, uint64_t idx, uint64_t val) {
    if (G->ndev < MAXDEV) G->dev[G->ndev++] = Dev{idx, uint32_t(val), uint32_t(type)};
}

static uint64_t replayed(int type, uint64_t idx) {
    uint32_t& c = G->repCur[type];
    while (c < G->nrep[type] && G->rep[type][c].idx < idx) ++c;
    if (c < G->nrep[type] && G->rep[type][c].idx == idx) return G->rep[type][c++].val;
    return 0;
}

uint64_t decide(double p, uint64_t n) {
    uint64_t idx = G->decIdx++;
    if (n == 0 || p <= 0) return 0;
    if (G->replay) {
        uint64_t v = replayed(0, idx);
        if (v > n) v = 1 + (v - 1) % n;
        if (v) record(0, idx, v);
        return v;
    }
    if (rnd01(G->rs) >= p) return 0;
    uint64_t v = 1 + (n > 1 ? rnd(G->rs) % n : 0);
    record(0, idx, v);
    return v;
}

uint64_t choose(uint64_t n) {
    if (n <= 1) return 0;
    return decide(1.0 - 1.0 / double(n), n - 1);
}

uint64_t gen(uint64_t lo, uint64_t hi) {
    uint64_t idx = G->genIdx++;
    uint64_t v = (hi > lo) ? lo + rnd(G->rg) % (hi - lo + 1) : lo;
    if (G->replay && G->nrep[2]) {
        // overrides are stored as value+1
        uint64_t o = 0;
        for (uint32_t i = 0; i < G->nrep[2]; ++i) if (G->rep[2][i].idx == idx) { o = G->rep[2][i].val; break; }
        if (o) { v = o - 1; if (v < lo) v = lo; if (v > hi) v = hi; }
    }
    if (G->ngen < MAXGEN) G->gens[G->ngen++] = GenRec{lo, hi, v};
    traceEvent(E_CHOICE, v);
    return v;
}
bool genChance(double p) { return gen(0, 9999) >= uint64_t((1.0 - p) * 10000.0); }

// ------------------------------------------------------------------ faults
static const char* fnames[F_COUNT] = {"preempt", "mem-preempt", "spurious-wakeup", "wake-order", "stall", "clock-jump", "thread-create-fail",
    "short-read", "short-write", "read-error", "write-error", "no-space", "sync-error", "close-error", "open-error", "metadata-error", "eintr",
    "process-crash", "power-failure", "net-fragment", "net-delay", "net-reset", "net-refuse", "aio-fault", "late-start", "pid-reuse", "bit-flip",
    "component-fault", "restart-request", "peer-stops", "alloc-fail"};
const char* faultName(int i) { return fnames[i]; }
void enable(Fault f, double p) { G->faults[f].p = p; G->faults[f].everOn |= p > 0; if (G->faults[f].budget == 0) G->faults[f].budget = 1 << 30; }
void enableIf(Fault f, double pOn, double lo, double hi) {
    bool on = genChance(pOn);
    double x = double(gen(0, 1000)) / 1000.0;
    if (on) enable(f, lo * __builtin_pow(hi / lo, x));
}
void faultBudget(Fault f, int n) { G->faults[f].budget = n; }
void disableAll() { for (auto& f : G->faults) f.p = 0; }
bool fire(Fault f) { return fireN(f, 1) != 0; }
uint64_t fireN(Fault f, uint64_t n) {
    FaultState& s = G->faults[f];
    if (!s.everOn) return 0;
    double p = s.count >= s.budget ? 0 : s.p;
    uint64_t v = decide(p, n);
    if (v) { s.count++; traceEvent(E_CHOICE, 1000 + f); G->schedHash = hashMix(G->schedHash, 77 + f); }
    return v;
}
bool fired(Fault f) { return G->faults[f].count > 0; }
int firings(Fault f) { return G->faults[f].count; }
bool anyIoFault() { for (int i = F_THREADFAIL; i < F_COUNT; ++i) if (G->faults[i].count && i != F_NETFRAG && i != F_NETDELAY) return true; return false; }

// ------------------------------------------------------------------ reporting
[[noreturn]] static void endAll(int) {
    __atomic_store_n(&G->finished, 1u, __ATOMIC_SEQ_CST);
    syscall(SYS_futex, &G->finished, FUTEX_WAKE, 1000, nullptr, nullptr, 0);
    for (;;) syscall(SYS_exit_group, 0);
}
void finishRun() { endAll(0); }
void failv(const char* cls, const char* fmt, va_list ap) {
    if (!G->failed && !G->knownHit) {
        G->failed = 1;
        snprintf(G->cls, sizeof G->cls, "%s", cls);
        vsnprintf(G->msg, sizeof G->msg, fmt, ap);
    }
    endAll(1);
}
void fail(const char* cls, const char* fmt, ...) { va_list ap; va_start(ap, fmt); failv(cls, fmt, ap); }
void known(const char* id, const char* fmt, ...) {
    if (!G->failed && !G->knownHit) {
        G->knownHit = 1;
        snprintf(G->cls, sizeof G->cls, "%s", id);
        va_list ap; va_start(ap, fmt); vsnprintf(G->msg, sizeof G->msg, fmt, ap); va_end(ap);
    }
    endAll(1);
}
void note(const char* fmt, ...) {
    int left = int(NOTEBYTES - 1 - G->noteLen);
    if (left < 256) return;
    int n = snprintf(G->notes + G->noteLen, left, "%llu.%09llu p%d t%d ", (unsigned long long)(G->clock / 1000000000ull), (unsigned long long)(G->clock % 1000000000ull),
                     active() ? G->tasks[tl.task].proc : -1, tl.task);
    va_list ap; va_start(ap, fmt);
    int m = vsnprintf(G->notes + G->noteLen + n, left - n, fmt, ap);
    va_end(ap);
    if (m > left - n - 2) m = left - n - 2;
    G->noteLen += n + m;
    G->notes[G->noteLen++] = '\n';
    G->notes[G->noteLen] = 0;
}
void cover(uint64_t h) {
    uint32_t n = G->ncover < MAXCOVER ? G->ncover : MAXCOVER;
    for (uint32_t i = n > 64 ? n - 64 : 0; i < n; ++i) if (G->cover[i] == h) return;
    if (G->ncover < MAXCOVER) G->cover[G->ncover++] = h;
}
void nontrivial() { G->nontriv = 1; }
Quiet::Quiet() { ++tl.quiet; }
Quiet::~Quiet() { --tl.quiet; }

// ------------------------------------------------------------------ scheduler
static void futexWait(uint32_t* a, uint32_t v) { int e = errno; syscall(SYS_futex, a, FUTEX_WAIT, v, nullptr, nullptr, 0); errno = e; }
static void futexWake(uint32_t* a) { int e = errno; syscall(SYS_futex, a, FUTEX_WAKE, 1, nullptr, nullptr, 0); errno = e; }

void becomeTask(int t) {
    Task& me = G->tasks[t];
    while (__atomic_load_n(&me.go, __ATOMIC_SEQ_CST) == 0) futexWait(&me.go, 0);
    me.go = 0;
    if (G->exitTid) {   // the real thread of a task that ended still uses the allocator on its way out: let it finish
        int e = errno;
        for (int i = 0; i < 2000000 && syscall(SYS_tgkill, G->exitPid, G->exitTid, 0) == 0; ++i) syscall(SYS_sched_yield);
        G->exitTid = 0;
        errno = e;
    }
}
static void handTo(int t) {
    G->current = t;
    __atomic_store_n(&G->tasks[t].go, 1u, __ATOMIC_SEQ_CST);
    futexWake(&G->tasks[t].go);
}

static void setState(Task& t, int s) {
    if (t.state == T_RUN) G->nrun--;
    t.state = s;
    if (s == T_RUN) { G->nrun++; t.since = G->syncs; }
}

int newTask(int proc, const char* why) {
    int t = -1;
    for (int i = 0; i < G->ntasks; ++i) if (G->tasks[i].state == T_DONE && (G->tasks[i].joined || G->tasks[i].detached)) { t = i; break; }
    if (t < 0) {
        if (G->ntasks >= MAXTASK) fail("harness:tasks", "too many simulated tasks");
        t = G->ntasks++;
    }
    Task& k = G->tasks[t];
    memset(&k, 0, sizeof k);
    k.proc = proc; k.uid = ++G->nextUid; k.why = why;
    k.prio = int64_t(rnd(G->rs) >> 20);
    setState(k, T_RUN);
    return t;
}

static int64_t dlMono(const Task& t) { return t.dlKind == 2 ? t.deadline - G->wallOff : t.deadline; }

static void wakeTask(Task& t) { t.key = 0; t.dlKind = 0; setState(t, T_RUN); }

static bool expire() {
    bool any = false;
    for (int i = 0; i < G->ntasks; ++i) {
        Task& t = G->tasks[i];
        if (t.state == T_BLOCK && t.dlKind && dlMono(t) <= int64_t(G->clock)) { t.timedout = 1; wakeTask(t); any = true; }
    }
    return any;
}

static int64_t nextDeadline() {
    int64_t m = INT64_MAX;
    for (int i = 0; i < G->ntasks; ++i) {
        Task& t = G->tasks[i];
        if (t.state == T_BLOCK && t.dlKind) { int64_t d = dlMono(t); if (d < m) m = d; }
    }
    return m;
}

static void describe(char* buf, size_t n) {
    size_t k = 0;
    for (int i = 0; i < G->ntasks && k + 128 < n; ++i) {
        Task& t = G->tasks[i];
        if (t.state == T_BLOCK && !t.daemon) k += snprintf(buf + k, n - k, " [task %d proc %d waits: %s]", i, t.proc, t.why ? t.why : "?");
    }
}

static void planMem() {
    uint64_t next = G->lastSwitchMem + 400000;   // fairness: nobody runs longer than this without a switch
    if (next <= G->memIdx) next = G->memIdx + 400000;
    if (G->replay) {
        uint32_t c = G->repCur[1];
        while (c < G->nrep[1] && G->rep[1][c].idx <= G->memIdx) ++c;
        G->repCur[1] = c;
        if (c < G->nrep[1] && G->rep[1][c].idx < next) next = G->rep[1][c].idx;
    }
    else {
        if (G->memMean > 0) {
            double u = rnd01(G->rs);
            double g = -__builtin_log(1.0 - u) * G->memMean;
            uint64_t x = G->memIdx + 1 + (g > 1e12 ? uint64_t(1e12) : uint64_t(g));
            if (x < next) next = x;
        }
        if (G->mode == 1 && G->pctLeft > 0 && G->pctNext > G->memIdx && G->pctNext < next) next = G->pctNext;
    }
    G->memNext = next;
}

// candidates: runnable tasks, the current one first if runnable, then cyclically
static int candidates(int* c) {
    int n = 0, cur = tl.task;
    if (G->tasks[cur].state == T_RUN) c[n++] = cur;
    for (int k = 1; k <= G->ntasks; ++k) {
        int i = (cur + k) % G->ntasks;
        if (i != cur && G->tasks[i].state == T_RUN) c[n++] = i;
    }
    return n;
}

static void limits() {
    if (G->syncs > G->stepLimitSync || G->memTotal > G->stepLimitMem) {
        char b[1024]; b[0] = 0; describe(b, sizeof b);
        fail("hang:livelock", "no end after %llu scheduling points and %llu memory events (simulated time %.3f s);%s", (unsigned long long)G->syncs,
             (unsigned long long)G->memTotal, double(G->clock) / 1e9, b);
    }
    if (G->settleLimit && G->syncs > G->settleLimit) {
        char b[1024]; b[0] = 0; describe(b, sizeof b);
        fail("hang:no-progress", "%s not reached within the step bound after faults stopped;%s", G->settleWhat ? G->settleWhat : "progress", b);
    }
}

static void switchTo(int next) {
    int cur = tl.task;
    if (next == cur) return;
    G->switches++;
    G->lastSwitchMem = G->memIdx;
    G->schedHash = hashMix(G->schedHash, (uint64_t(cur) << 20) ^ uint64_t(next) ^ (G->syncs << 40));
    traceEvent(E_YIELD + 100, next);
    planMem();
    bool wait = G->tasks[cur].state != T_DONE;
    G->tasks[cur].since = G->syncs;
    G->tasks[next].since = G->syncs;
    handTo(next);
    if (wait) becomeTask(cur);
}

// choose and switch; the current task's state is already set
void dispatch() {
    expire();
    limits();
    int c[MAXTASK];
    int n = candidates(c);
    while (n == 0) {
        // every remaining task blocked: let time pass
        bool alive = false;
        for (int i = 0; i < G->ntasks; ++i) if (G->tasks[i].state == T_BLOCK && !G->tasks[i].daemon) alive = true;
        int64_t d = nextDeadline();
        if (d == INT64_MAX || !alive) {
            char b[1500]; b[0] = 0; describe(b, sizeof b);
            fail("hang:deadlock", "all tasks blocked for ever:%s", b);
        }
        if (d > int64_t(G->clock)) G->clock = d;
        expire();
        n = candidates(c);
    }
    if (n == 1) { switchTo(c[0]); return; }
    bool curRun = c[0] == tl.task;
    uint64_t pick = 0;
    // fairness: no runnable task is passed over for ever
    int starved = -1;
    for (int i = 0; i < n; ++i) if (c[i] != tl.task && G->syncs - G->tasks[c[i]].since > 3000 && (starved < 0 || G->tasks[c[i]].since < G->tasks[starved].since)) starved = c[i];
    if (starved >= 0) {
        if (G->mode == 1) G->tasks[tl.task].prio = --G->pctLow;
        G->tasks[tl.task].since = G->syncs;
        switchTo(starved);
        return;
    }
    if (G->replay) pick = decide(1, n - 1);
    else if (G->mode == 1) {
        int best = 0;
        for (int i = 1; i < n; ++i) if (G->tasks[c[i]].prio > G->tasks[c[best]].prio) best = i;
        pick = best;
        uint64_t idx = G->decIdx++;
        if (pick) record(0, idx, pick);
    }
    else if (G->mode == 2) pick = curRun ? decide(0, n - 1) : decide(1.0 - 1.0 / n, n - 1);
    else pick = curRun ? decide(G->pSync, n - 1) : decide(1.0 - 1.0 / n, n - 1);
    if (curRun && pick) { G->preempts++; G->faults[F_PREEMPT].count++; }
    switchTo(c[pick]);
}

void advance(uint64_t ns) { G->clock += ns; }

void syncPoint(int kind, uint64_t arg) {
    if (!active()) return;
    traceEvent(kind, arg);
    if (tl.quiet) return;
    G->syncs++;
    G->tasks[tl.task].syncs++;
    G->clock += 1000;
    if ((G->syncs & 15) == 0) limits();
    Proc& p = G->procs[G->tasks[tl.task].proc];
    if (p.crashable && G->faults[F_CRASH].everOn && fire(F_CRASH)) { crashProc(G->tasks[tl.task].proc); }
    if (G->faults[F_CLOCKJUMP].everOn) {
        uint64_t v = fireN(F_CLOCKJUMP, 6);
        static const int64_t J[7] = {0, 1000000000ll, -1000000000ll, 3600000000000ll, -3600000000000ll, 86400000000000ll, -86400000000000ll};
        if (v) G->wallOff += J[v];
    }
    if (!tl.nopre && G->faults[F_STALL].everOn && nextDeadline() != INT64_MAX && fire(F_STALL)) {
        int64_t d = nextDeadline();
        if (d > int64_t(G->clock)) G->clock = d;
        expire();
        // run one of the tasks released by the timer
        for (int i = 0; i < G->ntasks; ++i)
            if (G->tasks[i].state == T_RUN && G->tasks[i].timedout && i != tl.task) { switchTo(i); return; }
    }
    if (tl.nopre) return;
    bool due = false;
    if (G->nrun < 2) {   // anything becoming runnable?
        for (int i = 0; i < G->ntasks; ++i) if (G->tasks[i].state == T_BLOCK && G->tasks[i].dlKind && dlMono(G->tasks[i]) <= int64_t(G->clock)) due = true;
        if (!due) return;
    }
    if (G->mode == 1 && !G->replay && G->pctLeft > 0 && G->syncs >= G->pctNext) {
        G->pctLeft--;
        G->tasks[tl.task].prio = --G->pctLow;
        G->pctNext = G->syncs + 1 + rnd(G->rs) % 400;
    }
    dispatch();
}
static bool alarmMasked() { sigset_t m; sigprocmask(SIG_BLOCK, nullptr, &m); return sigismember(&m, SIGALRM) == 1; }

int block(uint64_t key, const char* why, int dlKind, int64_t deadline, bool interruptible, bool spur) {
    Task& me = G->tasks[tl.task];
    Proc& p = G->procs[me.proc];
    me.key = key; me.why = why; me.timedout = 0; me.interrupted = 0; me.spurious = spur ? 1 : 0;
    me.dlKind = dlKind; me.deadline = deadline; me.ticket = ++G->ticket;
    bool alarmed = false;
    if (interruptible && p.alarmAt && !alarmMasked()) {
        int64_t a = p.alarmAt;
        if (!dlKind || (dlKind == 2 ? deadline - G->wallOff : deadline) > a) { me.dlKind = 1; me.deadline = a; alarmed = true; }
    }
    G->syncs++;
    G->clock += 1000;
    if (p.crashable && G->faults[F_CRASH].everOn && fire(F_CRASH)) crashProc(me.proc);
    setState(me, T_BLOCK);
    dispatch();
    // running again
    if (me.timedout && alarmed) { me.timedout = 0; me.interrupted = 1; return 2; }
    return me.timedout ? 1 : 0;
}

int wakeKey(uint64_t key, int n) {
    int k = 0;
    for (int i = 0; i < G->ntasks && k < n; ++i) {
        Task& t = G->tasks[i];
        if (t.state == T_BLOCK && t.key == key) { t.timedout = 0; wakeTask(t); ++k; }
    }
    return k;
}

int wakeOne(uint64_t key) {
    int w[MAXTASK], n = 0;
    for (int i = 0; i < G->ntasks; ++i) if (G->tasks[i].state == T_BLOCK && G->tasks[i].key == key) w[n++] = i;
    if (!n) return 0;
    for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) if (G->tasks[w[j]].ticket < G->tasks[w[i]].ticket) { int x = w[i]; w[i] = w[j]; w[j] = x; }
    uint64_t v = 0;
    if (n > 1 && G->faults[F_WAKEORDER].everOn) v = fireN(F_WAKEORDER, n - 1);
    Task& t = G->tasks[w[v]];
    t.timedout = 0; wakeTask(t);
    return 1;
}

static void __attribute__((noinline)) memSlow() {
    // preemption at a memory access
    uint64_t idx = G->memIdx;
    int c[MAXTASK];
    int n = candidates(c);
    uint64_t v = 0;
    bool fair = G->memIdx >= G->lastSwitchMem + 400000;
    limits();
    if (n > 1) {
        if (fair) v = 1;
        else if (G->replay) { v = replayed(1, idx); if (v >= uint64_t(n)) v = 1 + (v - 1) % (n - 1); if (v) record(1, idx, v); }
        else if (G->mode == 1) {
            if (G->pctLeft > 0) {
                G->pctLeft--;
                G->tasks[tl.task].prio = --G->pctLow;
                G->pctNext = G->memIdx + 1 + rnd(G->rs) % 4000;
                int best = 1;
                for (int i = 2; i < n; ++i) if (G->tasks[c[i]].prio > G->tasks[c[best]].prio) best = i;
                v = best; record(1, idx, v);
            }
        }
        else { v = 1 + rnd(G->rs) % (n - 1); record(1, idx, v); }
    }
    if (v) { G->faults[F_MEMPREEMPT].count++; G->preempts++; G->schedHash = hashMix(G->schedHash, idx); switchTo(c[v]); }
    else planMem();
}

// some runs preempt at accesses made by a few places in the code, which are drawn for the run, or at accesses to
// memory that several tasks use and one of them changes, rather than at any access
static void __attribute__((noinline)) aimedSlow() {
    if (rnd(G->rs) & G->aimRare) return;
    G->aimLeft--;
    uint64_t idx = G->memIdx;
    int c[MAXTASK];
    int n = candidates(c);
    if (n < 2) return;
    uint64_t v = 1 + rnd(G->rs) % (n - 1);
    record(1, idx, v);
    G->faults[F_MEMPREEMPT].count++; G->preempts++; G->schedHash = hashMix(G->schedHash, idx);
    switchTo(c[v]);
}
static inline bool contended(const void* a, bool write) {
    uint64_t h = ((uint64_t(a) >> 3) + (uint64_t(G->tasks[tl.task].proc) << 50)) * 0x9e3779b97f4a7c15ull;
    Used& u = G->used[h >> (64 - USEDBITS)];
    uint32_t tag = uint32_t(h >> 8) | 1;
    uint16_t t = uint16_t(tl.task + 1);
    if (u.tag != tag) { if (!(u.several && u.wrote)) u = {tag, t, 0, write}; return false; }
    if (write) u.wrote = 1;
    if (u.task != t) u.several = 1;
    return u.several && u.wrote;
}
static void memEventAt(void* pc, const void* a, bool write) {
    if (tl.task < 0 || tl.quiet) return;
    Shared* g = G;
    ++g->memTotal;
    if (g->nrun < 2) { if ((g->memTotal & 0xfffff) == 0) limits(); if (g->aim == 2) contended(a, write); return; }
    if (++g->memIdx >= g->memNext) { memSlow(); return; }
    if (g->aimLeft > 0) {
        if (g->aim == 1 ? !((((uint64_t(pc) - uint64_t(&memEventAt)) ^ g->siteSalt) * 0x9e3779b97f4a7c15ull >> 40) & g->siteMask) : contended(a, write)) aimedSlow();
    }
}
#define memEvent(a, w) memEventAt(__builtin_return_address(0), (const void*)(a), w)

void yield() { if (active()) { syncPoint(E_USER); } }
int self() { return tl.task; }
int process() { return G->tasks[tl.task].proc; }
uint64_t now() { return G->clock; }
int64_t wallNow() { return int64_t(G->clock) + G->wallOff; }
void jumpWall(int64_t ns) { G->wallOff += ns; }
void sleepNs(uint64_t ns) { block(privKey(&tl), "sleep", 1, int64_t(G->clock + ns)); }
void setStepLimit(uint64_t s, uint64_t m) { G->stepLimitSync = s; G->stepLimitMem = m; }
void beginSettle(uint64_t n, const char* what) { G->settleLimit = G->syncs + n; G->settleWhat = what; }
void endSettle() { G->settleLimit = 0; }
int liveTasks() { int n = 0; for (int i = 0; i < G->ntasks; ++i) if (G->tasks[i].state == T_RUN || G->tasks[i].state == T_BLOCK) ++n; return n; }
void markDaemon() { G->tasks[tl.task].daemon = 1; }
uint64_t tick() { return ++G->ticks; }
bool runnableOthers() { return G->nrun > 1; }

void* sharedAlloc(size_t n) {
    n = (n + 63) & ~size_t(63);
    if (G->allocUsed + n > sizeof G->user) fail("harness:shared", "shared user memory exhausted");
    void* p = G->user + G->allocUsed;
    G->allocUsed += n;
    return p;
}

// ------------------------------------------------------------------ processes
constexpr uint64_t KEY_PROC = 0x1000000000ull;
void netForget();
int spawn(const ProcFn& fn, const char* name, int pid) {
    if (process() != 0) fail("harness:spawn", "spawn outside of the root process");
    int p = G->nprocs++;
    if (p >= MAXPROC) fail("harness:procs", "too many processes");
    Proc& q = G->procs[p];
    memset(&q, 0, sizeof q);
    q.used = q.alive = 1; q.status = -1;
    q.pid = pid ? pid : int(G->nextPid++);
    snprintf(q.name, sizeof q.name, "%s", name);
    int t = newTask(p, name);
    q.startTask = t;
    traceEvent(E_PROC, p);
    pid_t os = _Fork();
    if (os < 0) fail("harness:fork", "fork failed");
    if (os == 0) {
        tl.task = t; tl.quiet = 0; tl.nopre = 0; tl.uid = G->tasks[t].uid;
        netForget();
        becomeTask(t);
        fn();
        // normal end
        Proc& me = G->procs[p];
        traceEvent(E_PROC, 100 + p);
        me.alive = 0; me.status = 0;
        fsProcGone(p); netProcGone(p); semProcGone(p);
        for (int i = 0; i < G->ntasks; ++i) if (G->tasks[i].proc == p && i != t && (G->tasks[i].state == T_RUN || G->tasks[i].state == T_BLOCK)) { setState(G->tasks[i], T_DONE); G->tasks[i].joined = G->tasks[i].detached = 0; }
        wakeKey(KEY_PROC + p);
        G->tasks[t].joined = 1;
        setState(G->tasks[t], T_DONE);
        dispatch();
        for (;;) syscall(SYS_exit_group, 0);
    }
    q.ospid = os;
    syncPoint(E_PROC, p);
    return p;
}
void crashProc(int p) {
    Proc& q = G->procs[p];
    if (!q.alive) return;
    traceEvent(E_PROC, 200 + p);
    q.alive = 0; q.status = 1;
    for (int i = 0; i < G->ntasks; ++i)
        if (G->tasks[i].proc == p && (G->tasks[i].state == T_RUN || G->tasks[i].state == T_BLOCK)) {
            // the real thread of another task may still wait at its slot until it is killed: the slot is not used again
            setState(G->tasks[i], T_DONE); G->tasks[i].joined = i == tl.task; G->tasks[i].detached = 0;
        }
    fsProcGone(p); netProcGone(p); semProcGone(p);
    wakeKey(KEY_PROC + p);
    wakeKey(0x2000000000ull);   // process-shared objects: owners may have died
    if (G->tasks[tl.task].proc == p) {
        dispatch();
        for (;;) syscall(SYS_exit_group, 0);
    }
    if (q.ospid > 0) syscall(SYS_kill, q.ospid, SIGKILL);
}
void (*exitHook)(int) = nullptr;
void onExit(void (*h)(int)) { exitHook = h; }
void crash(int p) { crashProc(p); syncPoint(E_PROC, 300 + p); }
void crashable(bool on) { G->procs[process()].crashable = on; }
void maybeCrash() { if (G->procs[process()].crashable && fire(F_CRASH)) crashProc(process()); }
int pidOf(int p) { return G->procs[p].pid; }
bool procAlive(int p) { return G->procs[p].alive; }
int procStatus(int p) { return G->procs[p].status; }
void join(int p) { while (G->procs[p].alive) block(KEY_PROC + p, "end of a process"); }
void joinAll() { for (int p = 1; p < G->nprocs; ++p) join(p); }

void taskDone() {
    Task& me = G->tasks[tl.task];
    traceEvent(E_JOIN + 100, tl.task);
    setState(me, T_DONE);
    wakeKey(0x3000000000ull + uint64_t(me.uid));
    if (me.thread) { G->exitPid = int(syscall(SYS_getpid)); G->exitTid = int(syscall(SYS_gettid)); }
    dispatch();
}

bool alarmDue() { Proc& p = G->procs[process()]; return p.alarmAt && !alarmMasked() && p.alarmAt <= int64_t(G->clock); }
void runAlarm() {
    Proc& p = G->procs[process()];
    p.alarmAt = 0;
    struct sigaction sa;
    sigaction(SIGALRM, nullptr, &sa);
    if (sa.sa_handler == SIG_DFL) fail("signal:SIGALRM", "process killed by an alarm signal");
    if (sa.sa_handler != SIG_IGN) {
        // the signal is blocked while its handler runs, and stays so if the handler leaves by a plain longjmp
        sigset_t set, old;
        sigemptyset(&set);
        if (!(sa.sa_flags & SA_NODEFER)) sigaddset(&set, SIGALRM);
        sigprocmask(SIG_BLOCK, &set, &old);
        if (sa.sa_flags & SA_SIGINFO) sa.sa_sigaction(SIGALRM, nullptr, nullptr); else sa.sa_handler(SIGALRM);
        sigprocmask(SIG_SETMASK, &old, nullptr);
    }
}

}  // namespace dst

using namespace dst;

// =================================================================== tsan run-time stubs (preemption points)
extern "C" {
#define NS __attribute__((no_sanitize("thread")))
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void*) {}
void __tsan_vptr_update(void** a, void*) { memEvent(a, true); }
void __tsan_vptr_read(void** a) { memEvent(a, false); }
void __tsan_read_range(void* a, unsigned long) { memEvent(a, false); }
void __tsan_write_range(void* a, unsigned long) { memEvent(a, true); }
#define RW(n) \
    void __tsan_read##n(void* a) { memEvent(a, false); } \
    void __tsan_write##n(void* a) { memEvent(a, true); } \
    void __tsan_unaligned_read##n(void* a) { memEvent(a, false); } \
    void __tsan_unaligned_write##n(void* a) { memEvent(a, true); } \
    void __tsan_volatile_read##n(void* a) { memEvent(a, false); } \
    void __tsan_volatile_write##n(void* a) { memEvent(a, true); } \
    void __tsan_read##n##_pc(void* a, void*) { memEvent(a, false); } \
    void __tsan_write##n##_pc(void* a, void*) { memEvent(a, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void* __tsan_memcpy(void* d, const void* s, size_t n) { memEvent(d, true); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { memEvent(d, true); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { memEvent(d, true); return memset(d, c, n); }
#define ATOMIC(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T* a, int) { memEvent(a, false); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##bits##_store(volatile T* a, T v, int) { memEvent(a, true); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { memEvent(a, true); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { memEvent(a, true); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { memEvent(a, true); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { memEvent(a, true); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { memEvent(a, true); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { memEvent(a, true); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int) { memEvent(a, true); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { memEvent(a, true); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { memEvent(a, true); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int, int) { memEvent(a, true); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
ATOMIC(8, unsigned char) ATOMIC(16, unsigned short) ATOMIC(32, unsigned int) ATOMIC(64, unsigned long)
void __tsan_atomic_thread_fence(int) { memEvent(nullptr, false); }
void __tsan_atomic_signal_fence(int) {}
}

// =================================================================== pthread
namespace {
struct M { int lock; unsigned count; uint32_t owner; unsigned nusers; int kind; };   // glibc layout of the used fields
constexpr uint32_t ZYG = 0x7fffffff;
inline uint32_t me() { return active() ? G->tasks[tl.task].uid : ZYG; }
inline int mtype(const M* m) { return m->kind & 3; }
inline bool robust(const M* m) { return m->kind & 16; }
inline bool pshared(const M* m) { return m->kind & 128; }
inline uint64_t mkey(const M* m) { return pshared(m) ? 0x2000000000ull : privKey(m); }
bool ownerDead(uint32_t uid) {
    for (int i = 0; i < G->ntasks; ++i) if (G->tasks[i].uid == uid && (G->tasks[i].state == T_RUN || G->tasks[i].state == T_BLOCK)) return false;
    return true;
}
int mlock(M* m, int dlKind, int64_t dl, bool point) {
    if (!active()) {
        if (m->owner == ZYG) { if (mtype(m) == 1) { m->count++; return 0; } return EDEADLK; }
        m->owner = ZYG; m->count = 1; return 0;
    }
    if (point) syncPoint(E_MUTEX);
    uint32_t u = me();
    if (m->owner == u) {
        if (mtype(m) == 1) { m->count++; return 0; }
        if (mtype(m) == 2) return EDEADLK;
    }
    while (m->owner) {
        if (robust(m) && ownerDead(m->owner)) { m->owner = u; m->count = 1; return EOWNERDEAD; }
        if (block(mkey(m), "mutex", dlKind, dl) == 1 && m->owner) return ETIMEDOUT;
    }
    m->owner = u; m->count = 1;
    return 0;
}
int munlock(M* m, bool point) {
    if (!active()) { if (--m->count == 0 || mtype(m) != 1) { m->owner = 0; m->count = 0; } return 0; }
    if (m->owner != me()) { if (mtype(m) != 0 || robust(m)) return EPERM; }
    if (mtype(m) == 1 && m->count > 1) { m->count--; return 0; }
    m->owner = 0; m->count = 0;
    wakeKey(mkey(m));
    if (point) syncPoint(E_UNLOCK);
    return 0;
}
int64_t tsNs(const struct timespec* t) { return int64_t(t->tv_sec) * 1000000000ll + t->tv_nsec; }
int condWait(pthread_cond_t* c, M* m, int dlKind, int64_t dl) {
    if (!active()) return 0;
    traceEvent(E_COND, 0);
    if (m->owner != me() && !tl.quiet) fail("misuse:cond-wait", "waiting on a condition without holding its mutex");
    unsigned cnt = m->count;
    bool spur = false;
    int k = dlKind; int64_t d = dl;
    if (G->faults[F_SPURIOUS].everOn && fire(F_SPURIOUS)) {
        int64_t s = int64_t(G->clock) + 1 + int64_t(decide(0.5, 3)) * 50000;
        if (!k || (k == 2 ? d - G->wallOff : d) > s) { k = 1; d = s; spur = true; }
    }
    // a preemption between the test of the predicate and the wait
    syncPoint(E_COND, 1);
    m->owner = 0; m->count = 0;
    wakeKey(mkey(m));
    int r = block(privKey(c), "condition", k, d, false, spur);
    if (r == 1 && spur) r = 0;
    mlock(m, 0, 0, false);
    m->count = cnt ? cnt : 1;
    return r == 1 ? ETIMEDOUT : 0;
}
struct Start { void* (*fn)(void*); void* arg; int task; };
__thread void* tsd[512];
struct KeyInfo { int used; void (*dtor)(void*); uint32_t gen; };
KeyInfo keys[512];
struct TDtor { void (*f)(void*); void* o; TDtor* next; };
__thread TDtor* tdtors;

void runTlsDtors() {
    while (tdtors) { TDtor* d = tdtors; tdtors = d->next; d->f(d->o); free(d); }
    for (int round = 0; round < 4; ++round) {
        bool any = false;
        for (int k = 1; k < 512; ++k) if (keys[k].used && keys[k].dtor && tsd[k]) { void* v = tsd[k]; tsd[k] = nullptr; keys[k].dtor(v); any = true; }
        if (!any) break;
    }
}
void* trampoline(void* a) {
    Start s = *static_cast<Start*>(a);
    tl.task = s.task; tl.quiet = 0; tl.nopre = 0; tl.uid = G->tasks[s.task].uid;
    becomeTask(s.task);
    free(a);
    void* r = s.fn(s.arg);
    runTlsDtors();
    G->tasks[s.task].ret = r;
    taskDone();
    // never scheduled again; leave the real thread without touching shared state
    tl.task = -1;
    return nullptr;
}
inline pthread_t handleOf(int t) { return (pthread_t(G->tasks[t].uid) << 8) | pthread_t(t + 1) ; }
inline int taskOf(pthread_t h) { int t = int(h & 0xff) - 1; if (t < 0 || t >= G->ntasks || G->tasks[t].uid != uint32_t(h >> 8)) return -1; return t; }
}  // namespace

extern "C" {
typedef int (*create_t)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);

int pthread_create(pthread_t* th, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
    static create_t real = (create_t)realSym("pthread_create");
    if (!active()) return real(th, attr, fn, arg);
    syncPoint(E_CREATE);
    if (fire(F_THREADFAIL)) return EAGAIN;
    int det = PTHREAD_CREATE_JOINABLE;
    if (attr) pthread_attr_getdetachstate(attr, &det);
    int t = newTask(process(), "thread");
    G->tasks[t].detached = det == PTHREAD_CREATE_DETACHED;
    G->tasks[t].thread = 1;
    Start* s = static_cast<Start*>(malloc(sizeof(Start)));
    *s = Start{fn, arg, t};
    pthread_t h;
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setstacksize(&a, 1 << 20);
    pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED);
    // the handle is stored before the new thread can run (it cannot run before we yield)
    *th = handleOf(t);
    int r = real(&h, &a, trampoline, s);
    pthread_attr_destroy(&a);
    if (r) fail("harness:thread", "real pthread_create failed: %d", r);
    syncPoint(E_CREATE, t);
    return 0;
}
int pthread_join(pthread_t h, void** ret) {
    static auto real = (int (*)(pthread_t, void**))realSym("pthread_join");
    if (!active()) return real(h, ret);
    syncPoint(E_JOIN);
    int t = taskOf(h);
    if (t < 0) return ESRCH;
    if (G->tasks[t].detached) return EINVAL;
    if (t == tl.task) return EDEADLK;
    uint32_t uid = G->tasks[t].uid;
    while (G->tasks[t].uid == uid && G->tasks[t].state != T_DONE) block(0x3000000000ull + uint64_t(uid), "thread join");
    if (G->tasks[t].joined) return ESRCH;
    if (ret) *ret = G->tasks[t].ret;
    G->tasks[t].joined = 1;
    return 0;
}
int pthread_detach(pthread_t h) {
    static auto real = (int (*)(pthread_t))realSym("pthread_detach");
    if (!active()) return real(h);
    int t = taskOf(h);
    if (t < 0) return ESRCH;
    G->tasks[t].detached = 1;
    return 0;
}
pthread_t pthread_self(void) {
    static auto real = (pthread_t(*)(void))realSym("pthread_self");
    if (!active()) return real();
    return handleOf(tl.task);
}
int pthread_equal(pthread_t a, pthread_t b) { return a == b; }
int pthread_kill(pthread_t h, int) { if (!active()) return 0; int t = taskOf(h); return t < 0 || G->tasks[t].state == T_DONE ? ESRCH : 0; }
int pthread_cancel(pthread_t) { return 0; }
int pthread_setname_np(pthread_t, const char*) { return 0; }

int pthread_mutex_lock(pthread_mutex_t* m) { return mlock(reinterpret_cast<M*>(m), 0, 0, true); }
int pthread_mutex_trylock(pthread_mutex_t* p) {
    M* m = reinterpret_cast<M*>(p);
    if (!active()) { if (m->owner == ZYG) { if (mtype(m) == 1) { m->count++; return 0; } return EBUSY; } m->owner = ZYG; m->count = 1; return 0; }
    syncPoint(E_TRY);
    if (m->owner == me() && mtype(m) == 1) { m->count++; return 0; }
    if (m->owner) {
        if (robust(m) && ownerDead(m->owner)) { m->owner = me(); m->count = 1; return EOWNERDEAD; }
        return EBUSY;
    }
    m->owner = me(); m->count = 1;
    return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) { return mlock(reinterpret_cast<M*>(m), 2, tsNs(ts), true); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts) { return mlock(reinterpret_cast<M*>(m), c == CLOCK_REALTIME ? 2 : 1, tsNs(ts), true); }
int pthread_mutex_unlock(pthread_mutex_t* m) { return munlock(reinterpret_cast<M*>(m), true); }
int pthread_mutex_consistent(pthread_mutex_t*) { return 0; }
int pthread_mutex_init(pthread_mutex_t* p, const pthread_mutexattr_t* a) {
    static auto real = (int (*)(pthread_mutex_t*, const pthread_mutexattr_t*))realSym("pthread_mutex_init");
    int r = real(p, a);
    M* m = reinterpret_cast<M*>(p);
    m->lock = 0; m->count = 0; m->owner = 0; m->nusers = 0;
    return r;
}
int pthread_mutex_destroy(pthread_mutex_t* p) {
    M* m = reinterpret_cast<M*>(p);
    if (active()) { if (m->owner) return EBUSY; }
    return 0;
}

int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t*) { return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return condWait(c, reinterpret_cast<M*>(m), 0, 0); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { return condWait(c, reinterpret_cast<M*>(m), 2, tsNs(ts)); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) { return condWait(c, reinterpret_cast<M*>(m), k == CLOCK_REALTIME ? 2 : 1, tsNs(ts)); }
int pthread_cond_signal(pthread_cond_t* c) { if (!active()) return 0; syncPoint(E_SIGNAL); wakeOne(privKey(c)); syncPoint(E_SIGNAL, 1); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { if (!active()) return 0; syncPoint(E_BCAST); wakeKey(privKey(c)); syncPoint(E_BCAST, 1); return 0; }

struct RW { int readers; uint32_t writer; };
int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) { memset(l, 0, sizeof *l); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* p) { RW* l = (RW*)p; if (!active()) { l->readers++; return 0; } syncPoint(E_RW); while (l->writer) block(privKey(l), "rwlock"); l->readers++; return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* p) { RW* l = (RW*)p; if (!active()) { l->writer = ZYG; return 0; } syncPoint(E_RW); while (l->writer || l->readers) block(privKey(l), "rwlock"); l->writer = me(); return 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* p) { RW* l = (RW*)p; if (active()) syncPoint(E_RW); if (l->writer) return EBUSY; l->readers++; return 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t* p) { RW* l = (RW*)p; if (active()) syncPoint(E_RW); if (l->writer || l->readers) return EBUSY; l->writer = me(); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* p) { RW* l = (RW*)p; if (l->writer == me()) l->writer = 0; else if (l->readers) l->readers--; if (active()) { wakeKey(privKey(l)); syncPoint(E_RW, 1); } return 0; }

int pthread_once(pthread_once_t* o, void (*fn)(void)) {
    if (!active()) {
        if (*o == 2) return 0;
        *o = 1;
        try { fn(); } catch (...) { *o = 0; throw; }
        *o = 2;
        return 0;
    }
    if (*o == 2) return 0;
    syncPoint(E_ONCE);
    while (*o == 1) block(privKey(o), "once");
    if (*o == 2) return 0;
    *o = 1;
    try { fn(); } catch (...) { *o = 0; wakeKey(privKey(o)); throw; }
    *o = 2;
    wakeKey(privKey(o));
    syncPoint(E_ONCE, 1);
    return 0;
}

int pthread_key_create(pthread_key_t* k, void (*d)(void*)) {
    for (int i = 1; i < 512; ++i) if (!keys[i].used) { keys[i].used = 1; keys[i].dtor = d; keys[i].gen++; tsd[i] = nullptr; *k = i; return 0; }
    return EAGAIN;
}
int pthread_key_delete(pthread_key_t k) { if (k < 512) { keys[k].used = 0; tsd[k] = nullptr; } return 0; }
void* pthread_getspecific(pthread_key_t k) { return k < 512 ? tsd[k] : nullptr; }
int pthread_setspecific(pthread_key_t k, const void* v) { if (k >= 512) return EINVAL; tsd[k] = const_cast<void*>(v); return 0; }

int __cxa_thread_atexit(void (*f)(void*), void* o, void*) {
    TDtor* d = static_cast<TDtor*>(malloc(sizeof(TDtor)));
    d->f = f; d->o = o; d->next = tdtors; tdtors = d;
    return 0;
}

// function-local statics
int __cxa_guard_acquire(long long* g) {
    char* b = reinterpret_cast<char*>(g);
    if (b[0]) return 0;
    if (!active()) { if (b[1]) abort(); b[1] = 1; return 1; }
    while (b[1]) block(privKey(g), "static initialisation");
    if (b[0]) return 0;
    b[1] = 1;
    return 1;
}
void __cxa_guard_release(long long* g) { char* b = reinterpret_cast<char*>(g); b[0] = 1; b[1] = 0; if (active()) { wakeKey(privKey(g)); syncPoint(E_GUARD); } }
void __cxa_guard_abort(long long* g) { char* b = reinterpret_cast<char*>(g); b[1] = 0; if (active()) wakeKey(privKey(g)); }

int sched_yield(void) {
    if (!active()) return 0;
    G->clock += 20000;
    if (G->mode == 1 && !G->replay) G->tasks[tl.task].prio = --G->pctLow;
    traceEvent(E_YIELD, 0);
    if (tl.quiet) return 0;
    G->syncs++;
    Task& t = G->tasks[tl.task];
    if (G->procs[t.proc].crashable && G->faults[F_CRASH].everOn && fire(F_CRASH)) crashProc(t.proc);
    // give way: blocked for an instant
    block(privKey(&tl), "yield", 1, int64_t(G->clock + 1));
    return 0;
}

// POSIX semaphores
int sem_init(sem_t* s, int, unsigned v) { *(int*)s = int(v); return 0; }
int sem_destroy(sem_t*) { return 0; }
int sem_wait(sem_t* s) { if (!active()) { --*(int*)s; return 0; } syncPoint(E_SEM); while (*(int*)s <= 0) block(privKey(s), "semaphore"); --*(int*)s; return 0; }
int sem_trywait(sem_t* s) { if (active()) syncPoint(E_SEM); if (*(int*)s <= 0) { errno = EAGAIN; return -1; } --*(int*)s; return 0; }
int sem_post(sem_t* s) { ++*(int*)s; if (active()) { wakeKey(privKey(s)); syncPoint(E_SEM, 1); } return 0; }

// =================================================================== clocks
static int64_t clockOf(clockid_t c) { return (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? int64_t(G->clock) + G->wallOff : int64_t(G->clock); }
int clock_gettime(clockid_t c, struct timespec* ts) __THROW {
    if (!active()) return int(syscall(SYS_clock_gettime, c, ts));
    if (!tl.quiet) G->clock += 500;
    int64_t t = clockOf(c);
    ts->tv_sec = t / 1000000000ll; ts->tv_nsec = t % 1000000000ll;
    return 0;
}
int gettimeofday(struct timeval* tv, void*) __THROW {
    if (!active()) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
    if (!tl.quiet) G->clock += 500;
    int64_t t = clockOf(CLOCK_REALTIME);
    tv->tv_sec = t / 1000000000ll; tv->tv_usec = (t % 1000000000ll) / 1000;
    return 0;
}
time_t time(time_t* p) __THROW {
    time_t r;
    if (!active()) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); r = ts.tv_sec; }
    else { if (!tl.quiet) G->clock += 500; r = clockOf(CLOCK_REALTIME) / 1000000000ll; }
    if (p) *p = r;
    return r;
}
clock_t clock(void) __THROW { return active() ? clock_t(G->clock / 1000) : 0; }
clock_t times(struct tms* t) __THROW { memset(t, 0, sizeof *t); return active() ? clock_t(G->clock / 10000000) : 0; }
static int simSleep(int64_t ns, const char* why) {
    traceEvent(E_SLEEP, uint64_t(ns));
    if (tl.quiet) { G->clock += ns; return 0; }
    if (ns < 1000) ns = 1000;
    int64_t until = int64_t(G->clock) + ns;
    int r = block(privKey(&tl), why, 1, until, true);
    if (r == 2) { runAlarm(); return -1; }
    return 0;
}
int nanosleep(const struct timespec* a, struct timespec* b) {
    if (!active()) return int(syscall(SYS_nanosleep, a, b));
    if (simSleep(tsNs(a), "nanosleep")) { if (b) b->tv_sec = b->tv_nsec = 0; errno = EINTR; return -1; }
    return 0;
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec* a, struct timespec*) {
    if (!active()) return 0;
    int64_t t = tsNs(a);
    if (flags & TIMER_ABSTIME) t -= clockOf(c);
    return simSleep(t, "nanosleep") ? EINTR : 0;
}
unsigned sleep(unsigned s) { if (!active()) return 0; simSleep(int64_t(s) * 1000000000ll, "sleep"); return 0; }
int usleep(useconds_t u) { if (!active()) return 0; simSleep(int64_t(u) * 1000ll, "usleep"); return 0; }
unsigned alarm(unsigned s) __THROW {
    if (!active()) return 0;
    Proc& p = G->procs[process()];
    unsigned left = p.alarmAt ? unsigned((p.alarmAt - int64_t(G->clock)) / 1000000000ll) + 1 : 0;
    p.alarmAt = s ? int64_t(G->clock) + int64_t(s) * 1000000000ll : 0;
    return left;
}

// =================================================================== identity and randomness
pid_t getpid(void) __THROW { return active() ? G->procs[process()].pid : pid_t(syscall(SYS_getpid)); }
// the program ends itself: the other tasks of the process end with it
void _exit(int rc) {
    if (active()) {
        if (dst::exitHook) dst::exitHook(rc);
        if (process() == 0) fail("exit", "the program ended itself with status %d", rc);
        crashProc(process());
    }
    for (;;) syscall(SYS_exit_group, rc);
}
pid_t getppid(void) __THROW { return active() ? 1 : pid_t(syscall(SYS_getppid)); }
int kill(pid_t pid, int sig) __THROW {
    if (!active()) return int(syscall(SYS_kill, pid, sig));
    for (int i = 0; i < G->nprocs; ++i) if (G->procs[i].used && G->procs[i].alive && G->procs[i].pid == pid) {
        if (sig == 9) crashProc(i);
        return 0;
    }
    errno = ESRCH;
    return -1;
}
long random(void) __THROW { if (!active()) return 4; return long(rnd(G->rg) >> 33); }
int rand(void) __THROW { return int(random() & 0x7fffffff); }
void srandom(unsigned) __THROW {}
void srand(unsigned) __THROW {}
int gethostname(char* b, size_t n) __THROW { snprintf(b, n, "simhost"); return 0; }
ssize_t getrandom(void* b, size_t n, unsigned) { for (size_t i = 0; i < n; ++i) ((char*)b)[i] = char(active() ? rnd(G->rg) >> 20 : i * 7); return ssize_t(n); }
int backtrace(void**, int) { return 0; }
}

// std::random_device without hardware randomness
#include <random>
namespace std {
void random_device::_M_init(const std::string&) {}
void random_device::_M_init(const char*, size_t) {}
void random_device::_M_init_pretr1(const std::string&) {}
void random_device::_M_fini() {}
random_device::result_type random_device::_M_getval() { return active() ? result_type(rnd(G->rg) >> 32) : 12345u; }
random_device::result_type random_device::_M_getval_pretr1() { return _M_getval(); }
double random_device::_M_getentropy() const noexcept { return 32.0; }
}
