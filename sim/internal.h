// Simulator internals: state shared (MAP_SHARED) by all processes of one simulated run.
#pragma once
#include <pthread.h>
#include <sys/types.h>
#include <cstdint>
#include <cstring>
#include "dst.h"

namespace dst {

constexpr int MAXTASK = 192, MAXPROC = 64;
constexpr int MAXDEV = 1 << 18, MAXGEN = 1 << 14, NOTEBYTES = 1 << 18, MAXCOVER = 1 << 14;

enum TState : int { T_FREE = 0, T_RUN, T_BLOCK, T_DONE };

struct Task {
    uint64_t since;      // scheduling point since when it is runnable or running
    int state, proc;
    uint32_t uid;
    uint32_t go;          // futex
    uint64_t key;         // what it waits for
    uint64_t ticket;      // wait order
    int dlKind;           // 0 none, 1 monotonic, 2 wall clock
    int64_t deadline;
    int timedout, interrupted;
    int spurious;         // the deadline is a spurious wake-up, not a timeout
    int daemon, detached, joined, thread;
    int64_t prio;
    void* ret;
    const char* why;
    uint64_t lastMem;
    uint64_t syncs;
};

struct Proc {
    int used, alive, status, pid, crashable, startTask;
    int ospid;
    int64_t alarmAt;      // 0: none (monotonic ns)
    char name[24];
};

struct Dev { uint64_t idx; uint32_t val; uint32_t type; };   // type 0: decision, 1: memory preemption, 2: gen override
struct GenRec { uint64_t lo, hi, val; };

struct FaultState { double p; int budget; int count; int everOn; };

struct FsOp;   // fs.cc
struct FsState;
struct NetState;

constexpr int USEDBITS = 12;
struct Used { uint32_t tag; uint16_t task; uint8_t several, wrote; };
struct Shared {
    // control
    uint32_t finished;    // futex for the worker
    int failed, knownHit;
    char cls[96];
    char msg[2048];
    uint64_t seed;
    int replay;           // explicit choices instead of random ones
    // prng
    uint64_t rs[2], rg[2];
    // scheduler
    int current, ntasks, nrun, nprocs;
    int exitPid, exitTid;
    uint32_t nextUid;
    uint64_t ticket;
    uint64_t clock;       // ns
    int64_t wallOff;
    uint64_t syncs, switches, preempts, memIdx, memNext, memTotal, lastSwitchMem;
    uint64_t decIdx, genIdx;
    uint64_t hash, schedHash;
    uint64_t stepLimitSync, stepLimitMem;
    uint64_t settleLimit; const char* settleWhat;
    int mode;             // 0 random, 1 pct, 2 run-to-block
    double pSync; double memMean;
    int pctLeft; uint64_t pctNext; int64_t pctLow;
    int aim, aimLeft; uint64_t aimRare, siteMask, siteSalt;   // aim: 1 at drawn places, 2 at contended memory
    Used used[1 << USEDBITS];
    int yieldsOff;
    FaultState faults[F_COUNT];
    int nontriv;
    // recorded choices
    uint32_t ndev, ngen, ncover, noteLen;
    uint32_t nrep[3];     // replay entries per type
    uint32_t repCur[3];
    Task tasks[MAXTASK];
    Proc procs[MAXPROC];
    Dev dev[MAXDEV];
    Dev rep[3][MAXDEV];
    GenRec gens[MAXGEN];
    uint64_t cover[MAXCOVER];
    char notes[NOTEBYTES];
    // components
    char scratch[256];
    int64_t space;
    int track;
    uint64_t nextPid, nextRand, ticks;
    size_t allocUsed;
    char fs[48 << 20];
    char net[24 << 20];
    char user[8 << 20];
};

extern Shared* G;

struct Tls { int task; int quiet; int nopre; uint32_t uid; };
extern __thread Tls tl __attribute__((tls_model("initial-exec")));
inline bool active() { return tl.task >= 0; }

uint64_t rnd(uint64_t* s);
double rnd01(uint64_t* s);
uint64_t decide(double p, uint64_t n);   // 0 default, 1..n
void traceEvent(int kind, uint64_t arg);
void syncPoint(int kind, uint64_t arg = 0);   // scheduling point
int block(uint64_t key, const char* why, int dlKind = 0, int64_t deadline = 0, bool interruptible = false, bool spur = false);
int wakeKey(uint64_t key, int n = 1 << 30);   // returns number woken
int wakeOne(uint64_t key);                    // choice among waiters
inline uint64_t privKey(const void* p) { return (uint64_t(G->tasks[tl.task].proc + 1) << 48) ^ uint64_t(uintptr_t(p)); }
void advance(uint64_t ns);
void dispatch();
void crashProc(int proc);
void fsProcGone(int proc);
void netProcGone(int proc);
void semProcGone(int proc);
void fsInit();
void netInit();
void finishRun();
int newTask(int proc, const char* why);
extern int traceFd, allocRegion;
void becomeTask(int t);       // wait for the baton
void taskDone();
[[noreturn]] void failv(const char* cls, const char* fmt, va_list ap);
void runAlarm();              // deliver a pending SIGALRM to the current process
bool alarmDue();

enum Ev : int { E_MUTEX = 1, E_UNLOCK, E_TRY, E_COND, E_SIGNAL, E_BCAST, E_ONCE, E_CREATE, E_JOIN, E_YIELD, E_SLEEP, E_CLOCK,
    E_OPEN, E_CLOSE, E_READ, E_WRITE, E_FSYNC, E_FSOP, E_LOCKF, E_SEM, E_AIO, E_NET, E_RW, E_PROC, E_USER, E_GUARD, E_CHOICE };

// real functions
void* realSym(const char* name);
}  // namespace dst
