// Deterministic simulator: public interface used by the scenarios.
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace dst {

// ---------------------------------------------------------------- provided by each scenario
struct ScenarioDef {
    const char* id;          // property id
    void (*init)();          // run once in the zygote, before any simulated run
    void (*run)();           // one simulated run (called in the root task)
};
extern const ScenarioDef scenario;

// ---------------------------------------------------------------- fault kinds
enum Fault : int {
    F_PREEMPT = 0,   // preemption at a synchronisation point or system call
    F_MEMPREEMPT,    // preemption at a plain memory access
    F_SPURIOUS,      // spurious condition wake-up
    F_WAKEORDER,     // signal wakes a waiter other than the first
    F_STALL,         // runnable tasks stalled until a timer fires
    F_CLOCKJUMP,     // wall clock jumps
    F_THREADFAIL,    // pthread_create fails
    F_SHORTREAD,     // read returns less than asked
    F_SHORTWRITE,    // write accepts less than asked
    F_READERR,       // read fails
    F_WRITEERR,      // write fails (EIO)
    F_NOSPACE,       // write fails (ENOSPC), temporarily or for good
    F_SYNCERR,       // fsync/fdatasync fails
    F_CLOSEERR,      // close fails
    F_OPENERR,       // open fails
    F_RENAMEERR,     // rename/unlink/mkdir fails
    F_EINTR,         // interrupted system call
    F_CRASH,         // process crash
    F_POWER,         // machine crash (unsynchronised effects lost)
    F_NETFRAG,       // network fragmentation / partial transfer
    F_NETDELAY,      // network delay
    F_NETRESET,      // connection reset
    F_NETREFUSE,     // connection refused
    F_AIO,           // asynchronous request fails / short
    F_LATESTART,     // peer starts late
    F_PIDREUSE,      // process id reused
    F_BITFLIP,       // stored byte altered
    F_BASEFAULT,     // scenario-level faulty component misbehaves
    F_RESTART,       // restart requested by a component
    F_STOPEARLY,     // peer stops early
    F_ALLOCFAIL,     // allocation fails
    F_COUNT
};
const char* faultName(int);
void enable(Fault, double probability);  // for this run
void enableIf(Fault, double pOn, double pLo, double pHi); // swarm: on with probability pOn, rate in [pLo,pHi]
void disableAll();                       // end of the fault phase
bool fire(Fault);                        // ask whether the fault happens here (recorded)
uint64_t fireN(Fault, uint64_t n);       // 0: no fault, 1..n: fault variant
void faultBudget(Fault, int n);          // at most n firings
bool fired(Fault);
int firings(Fault);
bool anyIoFault();                       // any fault except scheduling ones fired

// ---------------------------------------------------------------- randomness (workload)
uint64_t gen(uint64_t lo, uint64_t hi);  // inclusive; recorded, shrinks towards lo
bool genChance(double p);
uint64_t choose(uint64_t n);             // schedule-like decision 0..n-1 (recorded, default 0)
uint64_t hashMix(uint64_t h, uint64_t v);

// ---------------------------------------------------------------- oracle
[[noreturn]] void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
#define DST_CHECK(cond, cls, ...) do { if (!(cond)) ::dst::fail(cls, __VA_ARGS__); } while (0)
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void cover(uint64_t stateHash);          // abstract state reached
void nontrivial();                       // mark the run non trivial by the scenario's own rule
void known(const char* id, const char* fmt, ...) __attribute__((format(printf, 2, 3)));  // known-finding hit; run ends quietly

struct Quiet {                            // no preemption inside
    Quiet(); ~Quiet();
    Quiet(const Quiet&) = delete;
};

// ---------------------------------------------------------------- tasks and processes
void yield();                            // explicit scheduling point
int self();                              // task id
int process();                           // process index (0 is the root)
using ProcFn = std::function<void()>;
int spawn(const ProcFn&, const char* name, int pid = 0);  // from the root process only
int pidOf(int proc);
bool procAlive(int proc);
int procStatus(int proc);                // 0 normal end, 1 crashed, -1 alive
void join(int proc);                     // wait for the end of a process
void joinAll();
void crash(int proc);                    // kill a process now
void crashable(bool on);                 // this process may crash at any scheduling point (F_CRASH)
void maybeCrash();                       // explicit crash point
void onExit(void (*hook)(int));           // called when the program calls _exit
int liveTasks();
void markDaemon();                       // the current task does not keep the run alive
bool runnableOthers();
uint64_t tick();                         // global event order of this run

// ---------------------------------------------------------------- time (simulated nanoseconds)
uint64_t now();
int64_t wallNow();
void sleepNs(uint64_t ns);
void jumpWall(int64_t ns);
void setStepLimit(uint64_t sync, uint64_t mem);
void beginSettle(uint64_t syncSteps, const char* what);  // liveness: must call endSettle within so many steps
void endSettle();

// ---------------------------------------------------------------- files
const std::string& scratch();            // directory of this run (faulted and tracked file system)
void trackDurability();                  // call first to be able to use powerFail
bool durableName(const std::string& path);
void powerFail();                        // root only: all processes must be dead; replaces the tree by a crash image
void spaceBudget(int64_t bytes);         // ENOSPC once that many bytes were written (<0: unlimited)
std::string readFileRaw(const std::string& path, bool* ok = nullptr);  // without faults
void writeFileRaw(const std::string& path, const std::string& data);
bool existsRaw(const std::string& path);
std::vector<std::string> listRaw(const std::string& dir);
int openFds();                           // open tracked descriptors of this process

// ---------------------------------------------------------------- network
void partition(int procA, int procB, bool on);
void netWindow(int bytes);               // socket buffer size of this run
uint64_t netBytes();
int netRefused(int proc);                // connection attempts of a process that were refused
int netSockets(int proc);                // sockets a process holds
void netAbort();                         // reset all connections of this process
void netReset(int fd);                   // reset a connection now

// ---------------------------------------------------------------- shared scratch memory between processes of a run
void* sharedAlloc(size_t);               // zeroed, same address in all processes (call from root before spawn)
template <class T> T* sharedNew() { return static_cast<T*>(sharedAlloc(sizeof(T))); }

}  // namespace dst
