// Files: system-call interposition with faults, record locks, semaphores, asynchronous I/O, and a durability model.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <aio.h>
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdio_ext.h>
#include <stdlib.h>
#include <sys/file.h>
#include <sys/ipc.h>
#include <sys/mman.h>
#include <sys/sem.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <dlfcn.h>
#include <unistd.h>
#include <algorithm>
#include <map>
#include <string>
#include "internal.h"
#include "net.h"

namespace dst {

struct LockRec { uint64_t ino; int proc; short type; int64_t s, e; };           // e exclusive
struct FlockRec { uint64_t ino, ofd; int proc; int ex; };
struct Sem { int used; int key; int n; int val[8]; };
struct Undo { int sem, num, proc, adj; };
enum { NS_CREATE = 1, NS_MKDIR, NS_RENAME, NS_UNLINK, NS_RMDIR, NS_LINK };
struct NsOp { int type, ino; char a[200], b[200]; };
struct Wr { int ino; int trunc; int64_t off, len; uint64_t blob; };
struct Ino { int64_t size; uint64_t blob; uint64_t real; };                     // durable content
struct Name { char path[200]; int ino; int dir; };

struct FsState {
    uint64_t nextOfd;
    int nlocks, nflocks, nsems, nundo;
    LockRec locks[512];
    FlockRec flocks[256];
    Sem sems[64];
    Undo undo[256];
    int track, nns, nsDurable, nino, nwr, nnames;
    uint64_t blobUsed;
    NsOp ns[4096];
    Wr wr[40000];
    Ino ino[2048];
    Name names[2048];
    char blob[1];
};
static FsState* F() { return reinterpret_cast<FsState*>(G->fs); }
constexpr uint64_t KEY_LOCK = 0x4000000000ull, KEY_SEM = 0x5000000000ull, KEY_AIO = 0x6000000000ull;

struct Fd { int kind; int lino; uint64_t ofd, ino; int flags; std::string path; };
static Fd fds[1024];

static long sys(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0) {
    for (;;) {
        long r = syscall(n, a, b, c, d, e);
        if (r < 0 && errno == EINTR) continue;
        return r;
    }
}
#define P(x) long(x)

static std::string norm(const char* p) {
    std::string r;
    if (p[0] != '/') r = G->scratch;
    const char* q = p;
    while (*q) {
        while (*q == '/') ++q;
        const char* e = q;
        while (*e && *e != '/') ++e;
        size_t n = e - q;
        if (n == 0) break;
        if (n == 1 && q[0] == '.') {}
        else if (n == 2 && q[0] == '.' && q[1] == '.') { size_t k = r.rfind('/'); r.resize(k == std::string::npos ? 0 : k); }
        else { r += '/'; r.append(q, n); }
        q = e;
    }
    return r;
}
static bool tracked(const std::string& n) { size_t l = strlen(G->scratch); return l && n.compare(0, l, G->scratch) == 0 && (n.size() == l || n[l] == '/'); }
static bool trackedPath(const char* p, std::string& n) { if (!active() || !p) return false; n = norm(p); return tracked(n); }
static Fd* fdOf(int fd) { return (fd >= 0 && fd < 1024 && fds[fd].kind) ? &fds[fd] : nullptr; }
int openFds() { int n = 0; for (auto& f : fds) if (f.kind) ++n; return n; }

// ------------------------------------------------------------------ durability model
static uint64_t blobPut(const void* d, uint64_t n) {
    FsState& f = *F();
    if (sizeof(FsState) + f.blobUsed + n > sizeof G->fs) fail("harness:blob", "durability log exhausted");
    memcpy(f.blob + f.blobUsed, d, n);
    uint64_t r = f.blobUsed;
    f.blobUsed += n;
    return r;
}
static int nameFind(const std::string& p) { FsState& f = *F(); for (int i = 0; i < f.nnames; ++i) if (p == f.names[i].path) return i; return -1; }
static void nameSet(const std::string& p, int ino, int dir) {
    FsState& f = *F();
    int i = nameFind(p);
    if (i < 0) { if (f.nnames >= 2048) fail("harness:names", "too many files"); i = f.nnames++; }
    snprintf(f.names[i].path, sizeof f.names[i].path, "%s", p.c_str());
    f.names[i].ino = ino; f.names[i].dir = dir;
}
static void nameDel(const std::string& p) { FsState& f = *F(); int i = nameFind(p); if (i >= 0) f.names[i] = f.names[--f.nnames]; }
static void nsLog(int type, int ino, const std::string& a, const std::string& b = "") {
    FsState& f = *F();
    if (f.nns >= 4096) fail("harness:nsops", "too many directory operations");
    NsOp& o = f.ns[f.nns++];
    o.type = type; o.ino = ino;
    snprintf(o.a, sizeof o.a, "%s", a.c_str());
    snprintf(o.b, sizeof o.b, "%s", b.c_str());
}
static int newIno() { FsState& f = *F(); if (f.nino >= 2047) fail("harness:inodes", "too many inodes"); int i = ++f.nino; f.ino[i].size = 0; f.ino[i].blob = 0; return i; }
static void logWrite(int ino, int64_t off, const void* d, int64_t n) {
    FsState& f = *F();
    if (!f.track || ino <= 0 || n <= 0) return;
    if (f.nwr >= 40000) fail("harness:writes", "too many writes");
    uint64_t b = blobPut(d, n);
    f.wr[f.nwr++] = Wr{ino, 0, off, n, b};
}
static void logTrunc(int ino, int64_t size) {
    FsState& f = *F();
    if (!f.track || ino <= 0) return;
    if (f.nwr >= 40000) fail("harness:writes", "too many writes");
    f.wr[f.nwr++] = Wr{ino, 1, size, 0, 0};
}
static std::string slurpFd(int fd) {
    std::string s;
    char buf[65536];
    int64_t off = 0;
    for (;;) {
        long n = sys(SYS_pread64, fd, P(buf), sizeof buf, off);
        if (n <= 0) break;
        s.append(buf, n);
        off += n;
    }
    return s;
}
static void syncIno(int fd, int ino) {
    FsState& f = *F();
    if (!f.track || ino <= 0) return;
    // the descriptor may be write only: read through /proc
    char p[64];
    snprintf(p, sizeof p, "/proc/self/fd/%d", fd);
    long r = sys(SYS_openat, AT_FDCWD, P(p), O_RDONLY, 0);
    if (r < 0) fail("harness:sync", "cannot read back file");
    std::string s = slurpFd(int(r));
    sys(SYS_close, r);
    f.ino[ino].size = int64_t(s.size());
    f.ino[ino].blob = blobPut(s.data(), s.size());
    int k = 0;
    for (int i = 0; i < f.nwr; ++i) if (f.wr[i].ino != ino) f.wr[k++] = f.wr[i];
    f.nwr = k;
}
void trackDurability() {
    FsState& f = *F();
    f.track = 1;
}
static DIR* rawOpendir(const char* p) { int fd = int(sys(SYS_openat, AT_FDCWD, P(p), O_RDONLY | O_DIRECTORY | O_CLOEXEC, 0)); return fd < 0 ? nullptr : fdopendir(fd); }
static void rmTree(const std::string& d, bool self) {
    DIR* dir = rawOpendir(d.c_str());
    if (dir) {
        while (struct dirent* e = readdir(dir)) {
            std::string n = e->d_name;
            if (n == "." || n == "..") continue;
            std::string p = d + "/" + n;
            if (e->d_type == DT_DIR) rmTree(p, true); else sys(SYS_unlink, P(p.c_str()));
        }
        closedir(dir);
    }
    if (self) sys(SYS_rmdir, P(d.c_str()));
}
void wipeTree(const char* d) { rmTree(d, true); }

void powerFail() {
    FsState& f = *F();
    Quiet q;
    for (int p = 1; p < G->nprocs; ++p) if (G->procs[p].alive) fail("harness:power", "power failure with live processes");
    if (!f.track) fail("harness:power", "durability not tracked");
    G->faults[F_POWER].count++;
    traceEvent(E_PROC, 999);
    // namespace: a prefix of the directory operations, at least the synchronised ones
    int pend = f.nns - f.nsDurable;
    int lost = 0;
    if (pend > 0) lost = int(decide(0.6, pend));
    int keep = f.nns - lost;
    struct Ent { int ino, dir; };
    std::map<std::string, Ent> m;
    for (int i = 0; i < keep; ++i) {
        NsOp& o = f.ns[i];
        switch (o.type) {
            case NS_CREATE: m[o.a] = Ent{o.ino, 0}; break;
            case NS_MKDIR: m[o.a] = Ent{0, 1}; break;
            case NS_UNLINK: case NS_RMDIR: m.erase(o.a); break;
            case NS_LINK: m[o.b] = m[o.a]; break;
            case NS_RENAME: {
                std::map<std::string, Ent> mv;
                std::string a = o.a, b = o.b;
                for (auto it = m.begin(); it != m.end();) {
                    if (it->first == a || it->first.compare(0, a.size() + 1, a + "/") == 0) { mv[b + it->first.substr(a.size())] = it->second; it = m.erase(it); }
                    else ++it;
                }
                for (auto& e : mv) m[e.first] = e.second;
                break;
            }
        }
    }
    std::map<int, std::string> content;
    for (auto& e : m) if (!e.second.dir) {
        int in = e.second.ino;
        if (content.count(in)) continue;
        std::string c(f.blob + f.ino[in].blob, size_t(f.ino[in].size));
        // writes since the last synchronisation: kept, dropped or torn
        uint64_t modeAll = decide(0.5, 3);   // 0 keep all, 1 drop all, 2 independent, 3 prefix
        bool stop = false;
        for (int i = 0; i < f.nwr; ++i) {
            Wr& w = f.wr[i];
            if (w.ino != in) continue;
            int what = 0;
            if (modeAll == 1 || stop) what = 1;
            else if (modeAll >= 2) { what = int(decide(0.5, 2)); if (modeAll == 3 && what) stop = true; }
            if (what == 1) continue;
            if (w.trunc) { if (what == 0) c.resize(size_t(w.off), '\0'); continue; }
            int64_t n = w.len;
            if (what == 2) { n = int64_t(w.len * (1 + choose(8)) / 9); }
            if (n <= 0) continue;
            if (int64_t(c.size()) < w.off + n) c.resize(size_t(w.off + n), '\0');
            memcpy(&c[size_t(w.off)], f.blob + w.blob, size_t(n));
        }
        content[in] = c;
    }
    rmTree(G->scratch, false);
    f.nns = f.nsDurable = 0;
    f.nnames = 0;
    f.nwr = 0;
    std::map<int, std::string> first;
    for (auto& e : m) {
        if (e.second.dir) { sys(SYS_mkdir, P(e.first.c_str()), 0777); nameSet(e.first, 0, 1); nsLog(NS_MKDIR, 0, e.first); continue; }
        int in = e.second.ino;
        if (first.count(in)) { sys(SYS_link, P(first[in].c_str()), P(e.first.c_str())); }
        else {
            long fd = sys(SYS_openat, AT_FDCWD, P(e.first.c_str()), O_CREAT | O_WRONLY | O_TRUNC, 0644);
            if (fd < 0) continue;   // its directory did not survive
            const std::string& c = content[in];
            size_t done = 0;
            while (done < c.size()) { long n = sys(SYS_write, fd, P(c.data() + done), c.size() - done); if (n <= 0) break; done += size_t(n); }
            sys(SYS_close, fd);
            first[in] = e.first;
            f.ino[in].size = int64_t(c.size());
            f.ino[in].blob = blobPut(c.data(), c.size());
        }
        nameSet(e.first, in, 0);
        nsLog(NS_CREATE, in, e.first);
    }
    f.nsDurable = f.nns;
    note("power failure: %d of %d unsynchronised directory operations lost", lost, pend);
}

// ------------------------------------------------------------------ raw access for oracles
const std::string& scratch() { static std::string s; s = G->scratch; return s; }
std::string readFileRaw(const std::string& p, bool* ok) {
    long fd = sys(SYS_openat, AT_FDCWD, P(p.c_str()), O_RDONLY, 0);
    if (ok) *ok = fd >= 0;
    if (fd < 0) return "";
    std::string s = slurpFd(int(fd));
    sys(SYS_close, fd);
    return s;
}
void writeFileRaw(const std::string& p, const std::string& d) {
    bool existed = existsRaw(p);
    long fd = sys(SYS_openat, AT_FDCWD, P(p.c_str()), O_CREAT | O_WRONLY | O_TRUNC, 0644);
    if (fd < 0) fail("harness:write", "cannot write %s", p.c_str());
    size_t done = 0;
    while (done < d.size()) { long n = sys(SYS_write, fd, P(d.data() + done), d.size() - done); if (n <= 0) break; done += size_t(n); }
    if (F()->track) {   // counts as durable
        int i = nameFind(p);
        int ino = existed && i >= 0 ? F()->names[i].ino : newIno();
        if (!existed || i < 0) { nameSet(p, ino, 0); nsLog(NS_CREATE, ino, p); F()->nsDurable = F()->nns; }
        syncIno(int(fd), ino);
    }
    sys(SYS_close, fd);
}
bool existsRaw(const std::string& p) { return sys(SYS_access, P(p.c_str()), F_OK) == 0; }
std::vector<std::string> listRaw(const std::string& d) {
    std::vector<std::string> r;
    DIR* dir = rawOpendir(d.c_str());
    if (!dir) return r;
    while (struct dirent* e = readdir(dir)) { std::string n = e->d_name; if (n != "." && n != "..") r.push_back(n); }
    closedir(dir);
    std::sort(r.begin(), r.end());
    return r;
}
void spaceBudget(int64_t n) { G->space = n; }

// ------------------------------------------------------------------ locks and semaphores
static void dropLocks(uint64_t ino, int proc) {
    FsState& f = *F();
    bool any = false;
    for (int i = 0; i < f.nlocks;) {
        if (f.locks[i].proc == proc && (!ino || f.locks[i].ino == ino)) { f.locks[i] = f.locks[--f.nlocks]; any = true; }
        else ++i;
    }
    if (any) wakeKey(KEY_LOCK);
}
static void dropFlocks(uint64_t ofd, int proc) {
    FsState& f = *F();
    bool any = false;
    for (int i = 0; i < f.nflocks;) {
        if (f.flocks[i].proc == proc && (!ofd || f.flocks[i].ofd == ofd)) { f.flocks[i] = f.flocks[--f.nflocks]; any = true; }
        else ++i;
    }
    if (any) wakeKey(KEY_LOCK);
}
void fsProcGone(int proc) { dropLocks(0, proc); dropFlocks(0, proc); }
void semProcGone(int proc) {
    FsState& f = *F();
    for (int i = 0; i < f.nundo;) {
        Undo& u = f.undo[i];
        if (u.proc == proc) {
            if (u.sem >= 0 && f.sems[u.sem].used) { int& v = f.sems[u.sem].val[u.num]; v += u.adj; if (v < 0) v = 0; }
            f.undo[i] = f.undo[--f.nundo];
        }
        else ++i;
    }
    wakeKey(KEY_SEM);
}
void fsInit() { FsState& f = *F(); f.nextOfd = 1; G->space = -1; }

static void lockRange(const struct flock* l, int fd, int64_t& s, int64_t& e) {
    int64_t base = 0;
    if (l->l_whence == SEEK_CUR) base = sys(SYS_lseek, fd, 0, SEEK_CUR);
    else if (l->l_whence == SEEK_END) { struct stat st; fstat(fd, &st); base = st.st_size; }
    s = base + l->l_start;
    e = l->l_len == 0 ? INT64_MAX : s + l->l_len;
    if (l->l_len < 0) { e = s; s = s + l->l_len; }
}
static LockRec* conflict(uint64_t ino, int proc, int type, int64_t s, int64_t e) {
    FsState& f = *F();
    for (int i = 0; i < f.nlocks; ++i) {
        LockRec& r = f.locks[i];
        if (r.ino == ino && r.proc != proc && r.s < e && s < r.e && (type == F_WRLCK || r.type == F_WRLCK)) return &r;
    }
    return nullptr;
}
static void setRange(uint64_t ino, int proc, int type, int64_t s, int64_t e) {
    FsState& f = *F();
    int n = f.nlocks;
    for (int i = 0; i < n; ++i) {
        LockRec r = f.locks[i];
        if (r.ino != ino || r.proc != proc || r.s >= e || s >= r.e) continue;
        f.locks[i].proc = -1;
        if (r.s < s) { if (f.nlocks >= 512) fail("harness:locks", "too many locks"); LockRec k = r; k.e = s; f.locks[f.nlocks++] = k; }
        if (r.e > e) { if (f.nlocks >= 512) fail("harness:locks", "too many locks"); LockRec k = r; k.s = e; f.locks[f.nlocks++] = k; }
    }
    for (int i = 0; i < f.nlocks;) if (f.locks[i].proc == -1) f.locks[i] = f.locks[--f.nlocks]; else ++i;
    if (type != F_UNLCK) { if (f.nlocks >= 512) fail("harness:locks", "too many locks"); f.locks[f.nlocks++] = LockRec{ino, proc, short(type), s, e}; }
    wakeKey(KEY_LOCK);
}

// ------------------------------------------------------------------ basic calls on tracked files
static int fdEnter(long fd, const std::string& n, int flags, bool created) {
    if (fd < 0) return int(fd);
    if (fd >= 1024) fail("harness:fds", "too many descriptors");
    Fd& k = fds[fd];
    struct stat st;
    fstat(int(fd), &st);
    k.kind = S_ISDIR(st.st_mode) ? 2 : 1;
    k.ino = st.st_ino; k.flags = flags; k.path = n; k.ofd = F()->nextOfd++;
    k.lino = 0;
    FsState& f = *F();
    if (f.track && k.kind == 1) {
        if (created) { k.lino = newIno(); nameSet(n, k.lino, 0); nsLog(NS_CREATE, k.lino, n); }
        else { int i = nameFind(n); k.lino = i >= 0 ? f.names[i].ino : 0; }
    }
    return int(fd);
}
static int tOpen(const std::string& n, int flags, int mode) {
    syncPoint(E_OPEN, n.size());
    if (fire(F_OPENERR)) { errno = EMFILE; return -1; }
    bool existed = existsRaw(n);
    if (!existed && (flags & O_CREAT) && G->space == 0) { errno = ENOSPC; return -1; }
    long fd = sys(SYS_openat, AT_FDCWD, P(n.c_str()), flags, mode);
    if (fd < 0) return -1;
    int r = fdEnter(fd, n, flags, !existed);
    if (existed && (flags & O_TRUNC)) logTrunc(fds[r].lino, 0);
    return r;
}
static ssize_t tRead(int fd, void* b, size_t n, int64_t off, bool pos) {
    syncPoint(E_READ, n);
    if (fire(F_EINTR)) { errno = EINTR; return -1; }
    if (fire(F_READERR)) { errno = EIO; return -1; }
    size_t m = n;
    if (n > 1) { uint64_t v = fireN(F_SHORTREAD, 4); if (v == 1) m = 1; else if (v == 2) m = n / 2; else if (v == 3) m = n - 1; else if (v == 4) m = 1 + n / 7; }
    ssize_t r = pos ? sys(SYS_pread64, fd, P(b), m, off) : sys(SYS_read, fd, P(b), m);
    traceEvent(E_READ, uint64_t(r));
    return r;
}
static ssize_t tWrite(int fd, const void* b, size_t n, int64_t off, bool pos) {
    syncPoint(E_WRITE, n);
    Fd& k = fds[fd];
    if (fire(F_EINTR)) { errno = EINTR; return -1; }
    if (fire(F_WRITEERR)) { errno = EIO; return -1; }
    if (fire(F_NOSPACE)) { errno = ENOSPC; return -1; }
    size_t m = n;
    if (n > 1) { uint64_t v = fireN(F_SHORTWRITE, 4); if (v == 1) m = 1; else if (v == 2) m = n / 2; else if (v == 3) m = n - 1; else if (v == 4) m = 1 + n / 7; }
    if (G->space >= 0) {
        if (G->space == 0 && m > 0) { G->faults[F_NOSPACE].count++; errno = ENOSPC; return -1; }
        if (int64_t(m) > G->space) { m = size_t(G->space); G->faults[F_NOSPACE].count++; }
        G->space -= int64_t(m);
    }
    int64_t at = off;
    if (!pos) {
        if (k.flags & O_APPEND) { struct stat st; fstat(fd, &st); at = st.st_size; }
        else at = sys(SYS_lseek, fd, 0, SEEK_CUR);
    }
    ssize_t r = pos ? sys(SYS_pwrite64, fd, P(b), m, off) : sys(SYS_write, fd, P(b), m);
    if (r > 0) logWrite(k.lino, at, b, r);
    traceEvent(E_WRITE, uint64_t(r));
    return r;
}
static int tClose(int fd, bool point) {
    Fd& k = fds[fd];
    if (point) syncPoint(E_CLOSE);
    dropLocks(k.ino, process());
    dropFlocks(k.ofd, process());
    k.kind = 0;
    bool bad = (k.flags & O_ACCMODE) != O_RDONLY && fire(F_CLOSEERR);
    k.path.clear();
    sys(SYS_close, fd);
    if (bad) { errno = EIO; return -1; }
    return 0;
}
static int tSync(int fd) {
    syncPoint(E_FSYNC);
    Fd& k = fds[fd];
    uint64_t v = fireN(F_SYNCERR, 2);
    if (v) { errno = v == 1 ? EIO : ENOSPC; return -1; }
    if (fire(F_EINTR)) { errno = EINTR; return -1; }
    FsState& f = *F();
    if (f.track) {
        if (k.kind == 2) f.nsDurable = f.nns;
        else syncIno(fd, k.lino);
    }
    traceEvent(E_FSYNC, 1);
    return 0;
}
bool durableName(const std::string& p) {   // does the namespace prefix that is guaranteed contain p?
    FsState& f = *F();
    bool r = false;
    for (int i = 0; i < f.nsDurable; ++i) {
        NsOp& o = f.ns[i];
        if (o.type == NS_CREATE && p == o.a) r = true;
        else if ((o.type == NS_UNLINK || o.type == NS_RENAME) && p == o.a) r = false;
        if ((o.type == NS_RENAME || o.type == NS_LINK) && p == o.b) r = true;
    }
    return r;
}

// ------------------------------------------------------------------ stdio on tracked files
struct Cookie { int fd; FILE* f; };
static std::map<FILE*, int>& files() { static std::map<FILE*, int>* m = new std::map<FILE*, int>(); return *m; }
struct NoPre { NoPre() { ++tl.nopre; } ~NoPre() { --tl.nopre; } };
static ssize_t ckRead(void* c, char* b, size_t n) { NoPre q; return tRead(static_cast<Cookie*>(c)->fd, b, n, 0, false); }
static ssize_t ckWrite(void* c, const char* b, size_t n) {
    NoPre q;
    // glibc's own file streams retry short writes; so does the cookie
    size_t done = 0;
    while (done < n) {
        ssize_t r = tWrite(static_cast<Cookie*>(c)->fd, b + done, n - done, 0, false);
        if (r <= 0) return done ? ssize_t(done) : 0;
        done += size_t(r);
    }
    return ssize_t(done);
}
static int ckSeek(void* c, off64_t* o, int w) { long r = sys(SYS_lseek, static_cast<Cookie*>(c)->fd, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int ckClose(void* c) { Cookie* k = static_cast<Cookie*>(c); NoPre q; int r = tClose(k->fd, true); delete k; return r; }
static FILE* mkFile(int fd, const char* mode) {
    Cookie* c = new Cookie{fd, nullptr};
    cookie_io_functions_t io = {ckRead, ckWrite, ckSeek, ckClose};
    FILE* f = fopencookie(c, mode, io);
    if (!f) { delete c; return nullptr; }
    c->f = f;
    files()[f] = fd;
    return f;
}
static FILE* tFopen(const std::string& n, const char* mode) {
    int fl = 0;
    bool plus = strchr(mode, '+');
    switch (mode[0]) {
        case 'r': fl = plus ? O_RDWR : O_RDONLY; break;
        case 'w': fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; break;
        default: fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; break;
    }
    if (strchr(mode, 'x')) fl |= O_EXCL;
    int fd = tOpen(n, fl, 0666);
    if (fd < 0) return nullptr;
    FILE* f = mkFile(fd, mode);
    if (!f) { tClose(fd, false); return nullptr; }
    if (mode[0] == 'a') { sys(SYS_lseek, fd, 0, SEEK_END); }
    return f;
}

// ------------------------------------------------------------------ asynchronous I/O
struct Aio { struct aiocb* cb; int op; int64_t doneAt; int state; int err; ssize_t ret; };   // state 1 in flight, 2 complete
static std::vector<Aio>& aios() { static std::vector<Aio>* v = new std::vector<Aio>(); return *v; }
static void aioRun(Aio& a) {
    a.state = 2; a.err = 0;
    struct aiocb* c = a.cb;
    int fd = c->aio_fildes;
    size_t n = c->aio_nbytes;
    if (a.op == 2) { a.ret = 0; NoPre q; if (fdOf(fd)) { a.ret = tSync(fd); if (a.ret < 0) a.err = errno; } return; }
    uint64_t v = fireN(F_AIO, 3);
    if (v == 1) { a.err = EIO; a.ret = -1; return; }
    if (v == 2) { a.err = a.op ? ENOSPC : EIO; a.ret = -1; return; }
    if (v == 3 && n > 1) n = n / 2;
    NoPre q;
    ssize_t r;
    if (!fdOf(fd)) { a.err = EBADF; a.ret = -1; return; }
    if (a.op == 1) {
        // POSIX: with O_APPEND writes append in the order of the calls
        r = (fds[fd].flags & O_APPEND) ? tWrite(fd, const_cast<void*>(c->aio_buf), n, 0, false) : tWrite(fd, const_cast<void*>(c->aio_buf), n, c->aio_offset, true);
    }
    else r = tRead(fd, const_cast<void*>(c->aio_buf), n, c->aio_offset, true);
    a.ret = r;
    if (r < 0) a.err = errno;
}
static void aioProgress() {
    auto& v = aios();
    for (;;) {
        int best = -1;
        for (size_t i = 0; i < v.size(); ++i) if (v[i].state == 1 && v[i].doneAt <= int64_t(G->clock) && (best < 0 || v[i].doneAt < v[size_t(best)].doneAt)) best = int(i);
        if (best < 0) return;
        // an fsync request completes after all earlier requests on the descriptor
        aioRun(v[size_t(best)]);
    }
}
static int aioSubmit(struct aiocb* cb, int op) {
    syncPoint(E_AIO, op);
    if (fire(F_AIO)) { errno = EAGAIN; return -1; }
    auto& v = aios();
    for (size_t i = 0; i < v.size(); ++i) if (v[i].cb == cb) { v.erase(v.begin() + long(i)); break; }
    static const int64_t D[6] = {20000, 1000, 200000, 2000000, 50000, 500000};
    int64_t at = int64_t(G->clock) + D[decide(0.7, 5)];
    if (op == 2) for (auto& a : v) if (a.state == 1 && a.cb->aio_fildes == cb->aio_fildes && a.doneAt >= at) at = a.doneAt + 1;
    if (op == 1 && fdOf(cb->aio_fildes) && (fds[cb->aio_fildes].flags & O_APPEND))
        for (auto& a : v) if (a.state == 1 && a.cb->aio_fildes == cb->aio_fildes && a.doneAt >= at) at = a.doneAt + 1;
    v.push_back(Aio{cb, op, at, 1, EINPROGRESS, 0});
    return 0;
}
static Aio* aioFind(const struct aiocb* cb) { for (auto& a : aios()) if (a.cb == cb) return &a; return nullptr; }

}  // namespace dst

using namespace dst;

// =================================================================== the C library's file functions
#define REAL(ret, name, ...) static auto real = (ret(*)(__VA_ARGS__))realSym(#name)

extern "C" {

static int openImpl(const char* p, int fl, int mode) {
    std::string n;
    if (!trackedPath(p, n)) return int(sys(SYS_openat, AT_FDCWD, P(p), fl, mode));
    return tOpen(n, fl, mode);
}
int open(const char* p, int fl, ...) { int mode = 0; if (fl & O_CREAT) { va_list ap; va_start(ap, fl); mode = va_arg(ap, int); va_end(ap); } return openImpl(p, fl, mode); }
int open64(const char* p, int fl, ...) { int mode = 0; if (fl & O_CREAT) { va_list ap; va_start(ap, fl); mode = va_arg(ap, int); va_end(ap); } return openImpl(p, fl, mode); }
int creat(const char* p, mode_t m) { return openImpl(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char* p, mode_t m) { return openImpl(p, O_CREAT | O_WRONLY | O_TRUNC, m); }

int close(int fd) {
    if (active()) {
        if (netIs(fd)) return netClose(fd);
        if (fdOf(fd)) return tClose(fd, true);
    }
    return int(sys(SYS_close, fd));
}
ssize_t read(int fd, void* b, size_t n) {
    if (active()) { if (netIs(fd)) return netRecv(fd, b, n, 0); if (fdOf(fd)) return tRead(fd, b, n, 0, false); }
    return sys(SYS_read, fd, P(b), n);
}
ssize_t write(int fd, const void* b, size_t n) {
    if (active()) { if (netIs(fd)) return netSend(fd, b, n, 0); if (fdOf(fd)) return tWrite(fd, b, n, 0, false); }
    return sys(SYS_write, fd, P(b), n);
}
ssize_t pread(int fd, void* b, size_t n, off_t o) { if (active() && fdOf(fd)) return tRead(fd, b, n, o, true); return sys(SYS_pread64, fd, P(b), n, o); }
ssize_t pread64(int fd, void* b, size_t n, off64_t o) { return pread(fd, b, n, o); }
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) { if (active() && fdOf(fd)) return tWrite(fd, b, n, o, true); return sys(SYS_pwrite64, fd, P(b), n, o); }
ssize_t pwrite64(int fd, const void* b, size_t n, off64_t o) { return pwrite(fd, b, n, o); }
ssize_t readv(int fd, const struct iovec* v, int c) {
    if (active() && (netIs(fd) || fdOf(fd))) {
        ssize_t t = 0;
        for (int i = 0; i < c; ++i) { if (!v[i].iov_len) continue; ssize_t r = read(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : r; t += r; if (size_t(r) < v[i].iov_len) break; }
        return t;
    }
    return sys(SYS_readv, fd, P(v), c);
}
ssize_t writev(int fd, const struct iovec* v, int c) {
    if (active() && (netIs(fd) || fdOf(fd))) {
        // one atomic call in reality: gather first
        std::string s;
        for (int i = 0; i < c; ++i) s.append(static_cast<const char*>(v[i].iov_base), v[i].iov_len);
        return write(fd, s.data(), s.size());
    }
    return sys(SYS_writev, fd, P(v), c);
}
DIR* opendir(const char* p) {
    std::string n;
    if (!trackedPath(p, n)) { int fd = int(sys(SYS_openat, AT_FDCWD, P(p), O_RDONLY | O_DIRECTORY | O_CLOEXEC, 0)); return fd < 0 ? nullptr : fdopendir(fd); }
    int fd = tOpen(n, O_RDONLY | O_DIRECTORY | O_CLOEXEC, 0);
    if (fd < 0) return nullptr;
    DIR* d = fdopendir(fd);
    if (!d) tClose(fd, false);
    return d;
}
int closedir(DIR* d) {
    static int (*real)(DIR*) = reinterpret_cast<int (*)(DIR*)>(dlsym(RTLD_NEXT, "closedir"));
    int fd = dirfd(d);
    if (active() && fdOf(fd)) { syncPoint(E_CLOSE); dropLocks(fds[fd].ino, process()); dropFlocks(fds[fd].ofd, process()); fds[fd].kind = 0; fds[fd].path.clear(); }
    return real(d);
}
int fsync(int fd) { if (active() && fdOf(fd)) return tSync(fd); return int(sys(SYS_fsync, fd)); }
int fdatasync(int fd) { if (active() && fdOf(fd)) return tSync(fd); return int(sys(SYS_fdatasync, fd)); }
int ftruncate(int fd, off_t n) __THROW {
    if (active() && fdOf(fd)) {
        syncPoint(E_FSOP, 1);
        if (fire(F_NOSPACE)) { errno = ENOSPC; return -1; }
        int r = int(sys(SYS_ftruncate, fd, n));
        if (r == 0) logTrunc(fds[fd].lino, n);
        return r;
    }
    return int(sys(SYS_ftruncate, fd, n));
}
int ftruncate64(int fd, off64_t n) __THROW { return ftruncate(fd, n); }
int truncate(const char* p, off_t n) __THROW {
    std::string s;
    if (trackedPath(p, s)) {
        syncPoint(E_FSOP, 2);
        int r = int(sys(SYS_truncate, P(p), n));
        if (r == 0 && F()->track) { int i = nameFind(s); if (i >= 0) logTrunc(F()->names[i].ino, n); }
        return r;
    }
    return int(sys(SYS_truncate, P(p), n));
}
int truncate64(const char* p, off64_t n) __THROW { return truncate(p, n); }

int rename(const char* a, const char* b) __THROW {
    std::string x, y;
    bool t = trackedPath(a, x), u = trackedPath(b, y);
    if (!t && !u) return int(sys(SYS_rename, P(a), P(b)));
    syncPoint(E_FSOP, 3);
    if (fire(F_RENAMEERR)) { errno = EIO; return -1; }
    int r = int(sys(SYS_rename, P(x.c_str()), P(y.c_str())));
    if (r == 0 && F()->track) {
        FsState& f = *F();
        int i = nameFind(x);
        if (i >= 0 && !f.names[i].dir) { int ino = f.names[i].ino; nameDel(x); nameSet(y, ino, 0); nsLog(NS_RENAME, ino, x, y); }
        else {
            for (int k = 0; k < f.nnames; ++k) {
                std::string p = f.names[k].path;
                if (p == x || p.compare(0, x.size() + 1, x + "/") == 0) { p = y + p.substr(x.size()); snprintf(f.names[k].path, sizeof f.names[k].path, "%s", p.c_str()); }
            }
            nsLog(NS_RENAME, 0, x, y);
        }
    }
    if (r == 0) traceEvent(E_FSOP, 33);
    return r;
}
int unlink(const char* a) __THROW {
    std::string x;
    if (!trackedPath(a, x)) return int(sys(SYS_unlink, P(a)));
    syncPoint(E_FSOP, 4);
    if (fire(F_RENAMEERR)) { errno = EIO; return -1; }
    int r = int(sys(SYS_unlink, P(a)));
    if (r == 0 && F()->track) { nameDel(x); nsLog(NS_UNLINK, 0, x); }
    return r;
}
int rmdir(const char* a) __THROW {
    std::string x;
    if (!trackedPath(a, x)) return int(sys(SYS_rmdir, P(a)));
    syncPoint(E_FSOP, 5);
    if (fire(F_RENAMEERR)) { errno = EIO; return -1; }
    int r = int(sys(SYS_rmdir, P(a)));
    if (r == 0 && F()->track) { nameDel(x); nsLog(NS_RMDIR, 0, x); }
    return r;
}
int remove(const char* a) __THROW {
    struct stat st;
    if (lstat(a, &st)) return -1;
    return S_ISDIR(st.st_mode) ? rmdir(a) : unlink(a);
}
int mkdir(const char* a, mode_t m) __THROW {
    std::string x;
    if (!trackedPath(a, x)) return int(sys(SYS_mkdir, P(a), m));
    syncPoint(E_FSOP, 6);
    if (fire(F_RENAMEERR)) { errno = ENOSPC; return -1; }
    int r = int(sys(SYS_mkdir, P(a), m));
    if (r == 0 && F()->track) { nameSet(x, 0, 1); nsLog(NS_MKDIR, 0, x); }
    int e = errno;
    syncPoint(E_FSOP, 66);
    errno = e;
    return r;
}
int link(const char* a, const char* b) __THROW {
    std::string x, y;
    bool t = trackedPath(a, x), u = trackedPath(b, y);
    if (!t && !u) return int(sys(SYS_link, P(a), P(b)));
    syncPoint(E_FSOP, 7);
    int r = int(sys(SYS_link, P(a), P(b)));
    if (r == 0 && F()->track) { int i = nameFind(x); if (i >= 0) { nameSet(y, F()->names[i].ino, 0); nsLog(NS_LINK, F()->names[i].ino, x, y); } }
    return r;
}
int access(const char* a, int m) __THROW {
    std::string x;
    int proc = 0, used = 0;
    if (active() && a && sscanf(a, "/proc/%d%n", &proc, &used) == 1 && !a[used]) {   // is that process running?
        syncPoint(E_FSOP, 8);
        for (int i = 0; i < G->nprocs; ++i) if (G->procs[i].used && G->procs[i].alive && G->procs[i].pid == proc) return 0;
        errno = ENOENT;
        return -1;
    }
    if (trackedPath(a, x)) syncPoint(E_FSOP, 8);
    return int(sys(SYS_access, P(a), m));
}
int fcntl(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd);
    void* arg = va_arg(ap, void*);
    va_end(ap);
    if (active()) {
        if (netIs(fd)) return netFcntl(fd, cmd, long(arg));
        if (fdOf(fd) && (cmd == F_SETLK || cmd == F_SETLKW || cmd == F_GETLK)) {
            struct flock* l = static_cast<struct flock*>(arg);
            int64_t s, e;
            lockRange(l, fd, s, e);
            syncPoint(E_LOCKF, uint64_t(cmd * 10 + l->l_type));
            int acc = fds[fd].flags & O_ACCMODE;
            if (cmd != F_GETLK && ((l->l_type == F_RDLCK && acc == O_WRONLY) || (l->l_type == F_WRLCK && acc == O_RDONLY))) { errno = EBADF; return -1; }
            if (cmd == F_GETLK) {
                LockRec* c = conflict(fds[fd].ino, process(), l->l_type, s, e);
                if (!c) l->l_type = F_UNLCK;
                else { l->l_type = c->type; l->l_pid = G->procs[c->proc].pid; l->l_start = c->s; l->l_len = c->e == INT64_MAX ? 0 : c->e - c->s; l->l_whence = SEEK_SET; }
                return 0;
            }
            if (l->l_type != F_UNLCK) {
                while (conflict(fds[fd].ino, process(), l->l_type, s, e)) {
                    if (cmd == F_SETLK) { errno = EAGAIN; return -1; }
                    if (fire(F_EINTR)) { errno = EINTR; return -1; }
                    if (block(KEY_LOCK, "file lock", 0, 0, true) == 2) { runAlarm(); errno = EINTR; return -1; }
                }
            }
            setRange(fds[fd].ino, process(), l->l_type, s, e);
            if (l->l_type == F_UNLCK) syncPoint(E_LOCKF, 1);
            return 0;
        }
    }
    if (active() && fdOf(fd) && (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC)) {
        long r = sys(SYS_fcntl, fd, cmd, P(arg));
        if (r >= 0 && r < 1024) { fds[r] = fds[fd]; }
        return int(r);
    }
    return int(sys(SYS_fcntl, fd, cmd, P(arg)));
}
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void* arg = va_arg(ap, void*); va_end(ap); return fcntl(fd, cmd, arg); }
int dup(int fd) __THROW { long r = sys(SYS_dup, fd); if (active() && r >= 0 && r < 1024 && fdOf(fd)) fds[r] = fds[fd]; return int(r); }
int dup2(int a, int b) __THROW {
    if (active() && a != b && (fdOf(b) || fdOf(a))) {
        syncPoint(E_CLOSE, 2);
        if (fdOf(b)) { dropLocks(fds[b].ino, process()); dropFlocks(fds[b].ofd, process()); fds[b].kind = 0; fds[b].path.clear(); }
        long r = sys(SYS_dup2, a, b);
        if (r >= 0 && r < 1024 && fdOf(a)) fds[r] = fds[a];
        return int(r);
    }
    return int(sys(SYS_dup2, a, b));
}
int flock(int fd, int op) __THROW {
    if (!active() || !fdOf(fd)) return int(sys(SYS_flock, fd, op));
    FsState& f = *F();
    Fd& k = fds[fd];
    syncPoint(E_LOCKF, 100 + uint64_t(op));
    if (op & LOCK_UN) { dropFlocks(k.ofd, process()); syncPoint(E_LOCKF, 2); return 0; }
    int ex = (op & LOCK_EX) ? 1 : 0;
    for (;;) {
        bool c = false;
        for (int i = 0; i < f.nflocks; ++i) if (f.flocks[i].ino == k.ino && f.flocks[i].ofd != k.ofd && (ex || f.flocks[i].ex)) c = true;
        if (!c) break;
        if (op & LOCK_NB) { errno = EWOULDBLOCK; return -1; }
        // converting drops the old lock first
        dropFlocks(k.ofd, process());
        if (block(KEY_LOCK, "file lock", 0, 0, true) == 2) { runAlarm(); errno = EINTR; return -1; }
    }
    dropFlocks(k.ofd, process());
    if (f.nflocks >= 256) fail("harness:locks", "too many locks");
    f.flocks[f.nflocks++] = FlockRec{k.ino, k.ofd, process(), ex};
    return 0;
}

// ---- stdio
FILE* fopen(const char* p, const char* m) {
    REAL(FILE*, fopen64, const char*, const char*);
    std::string n;
    if (!trackedPath(p, n)) return real(p, m);
    return tFopen(n, m);
}
FILE* fopen64(const char* p, const char* m) { return fopen(p, m); }
FILE* fdopen(int fd, const char* m) __THROW {
    REAL(FILE*, fdopen, int, const char*);
    if (!active() || !fdOf(fd)) return real(fd, m);
    return mkFile(fd, m);
}
int fileno(FILE* f) __THROW {
    REAL(int, fileno, FILE*);
    if (active()) { auto it = files().find(f); if (it != files().end()) return it->second; }
    return real(f);
}
int fileno_unlocked(FILE* f) __THROW { return fileno(f); }
int fclose(FILE* f) {
    REAL(int, fclose, FILE*);
    if (active()) files().erase(f);
    return real(f);
}
static unsigned long tmpCounter = 0;
static void tmpName(char* t) {
    size_t n = strlen(t);
    static const char A[] = "abcdefghijklmnopqrstuvwxyz0123456789";
    uint64_t v = active() ? ++G->nextRand : ++tmpCounter;
    for (size_t i = 0; i < 6 && i < n; ++i) { t[n - 1 - i] = A[v % 36]; v /= 36; }
}
int mkstemp(char* t) {
    for (int i = 0; i < 100; ++i) {
        tmpName(t);
        int fd = openImpl(t, O_RDWR | O_CREAT | O_EXCL, 0600);
        if (fd >= 0 || errno != EEXIST) return fd;
    }
    errno = EEXIST;
    return -1;
}
int mkstemp64(char* t) { return mkstemp(t); }
char* mkdtemp(char* t) __THROW {
    for (int i = 0; i < 100; ++i) {
        tmpName(t);
        if (mkdir(t, 0700) == 0) return t;
        if (errno != EEXIST) return nullptr;
    }
    return nullptr;
}
char* tempnam(const char*, const char*) __THROW { return nullptr; }

int shm_open(const char* name, int fl, mode_t m) {
    if (!active()) { errno = ENOSYS; return -1; }
    std::string n = std::string(G->scratch) + "/shm_" + (name[0] == '/' ? name + 1 : name);
    syncPoint(E_OPEN, 77);
    long fd = sys(SYS_openat, AT_FDCWD, P(n.c_str()), fl | O_CLOEXEC, m);
    return int(fd);
}
int shm_unlink(const char* name) {
    if (!active()) { errno = ENOSYS; return -1; }
    std::string n = std::string(G->scratch) + "/shm_" + (name[0] == '/' ? name + 1 : name);
    syncPoint(E_FSOP, 77);
    return int(sys(SYS_unlink, P(n.c_str())));
}

// ---- System V semaphores
key_t ftok(const char* p, int id) __THROW {
    struct stat st;
    if (stat(p, &st)) return -1;
    return key_t((st.st_ino ^ (uint64_t(id) << 20)) & 0x7fffffff);   // injective enough: collisions of the real ftok are not modelled
}
int semget(key_t key, int n, int fl) __THROW {
    if (!active()) { errno = ENOSYS; return -1; }
    FsState& f = *F();
    syncPoint(E_SEM, 10);
    if (key != IPC_PRIVATE) for (int i = 0; i < f.nsems; ++i) if (f.sems[i].used && f.sems[i].key == key) {
        if ((fl & IPC_CREAT) && (fl & IPC_EXCL)) { errno = EEXIST; return -1; }
        if (n > f.sems[i].n) { errno = EINVAL; return -1; }
        return i + 1;
    }
    if (!(fl & IPC_CREAT) && key != IPC_PRIVATE) { errno = ENOENT; return -1; }
    if (f.nsems >= 64) { errno = ENOSPC; return -1; }
    Sem& s = f.sems[f.nsems++];
    memset(&s, 0, sizeof s);
    s.used = 1; s.key = key; s.n = n;
    return f.nsems;
}
int semop(int id, struct sembuf* ops, size_t n) __THROW {
    if (!active()) { errno = ENOSYS; return -1; }
    FsState& f = *F();
    syncPoint(E_SEM, 20);
    for (;;) {
        if (id < 1 || id > f.nsems || !f.sems[id - 1].used) { errno = EINVAL; return -1; }
        Sem& s = f.sems[id - 1];
        int v[8];
        memcpy(v, s.val, sizeof v);
        bool wait = false, nb = false;
        for (size_t i = 0; i < n && !wait; ++i) {
            if (ops[i].sem_num >= s.n) { errno = EFBIG; return -1; }
            int& x = v[ops[i].sem_num];
            nb = ops[i].sem_flg & IPC_NOWAIT;
            if (ops[i].sem_op == 0) { if (x != 0) wait = true; }
            else { if (x + ops[i].sem_op < 0) wait = true; else x += ops[i].sem_op; }
        }
        if (!wait) {
            memcpy(s.val, v, sizeof v);
            for (size_t i = 0; i < n; ++i) if (ops[i].sem_flg & SEM_UNDO) {
                int k = -1;
                for (int j = 0; j < f.nundo; ++j) if (f.undo[j].sem == id - 1 && f.undo[j].num == ops[i].sem_num && f.undo[j].proc == process()) k = j;
                if (k < 0) { if (f.nundo >= 256) fail("harness:undo", "too many undo records"); k = f.nundo++; f.undo[k] = Undo{id - 1, ops[i].sem_num, process(), 0}; }
                f.undo[k].adj -= ops[i].sem_op;
            }
            wakeKey(KEY_SEM);
            syncPoint(E_SEM, 21);
            return 0;
        }
        if (nb) { errno = EAGAIN; return -1; }
        if (fire(F_EINTR)) { errno = EINTR; return -1; }     // a call that does not wait is not interrupted
        if (block(KEY_SEM, "System V semaphore", 0, 0, true) == 2) { runAlarm(); errno = EINTR; return -1; }
    }
}
int semctl(int id, int num, int cmd, ...) __THROW {
    if (!active()) { errno = ENOSYS; return -1; }
    FsState& f = *F();
    va_list ap; va_start(ap, cmd);
    long arg = va_arg(ap, long);
    va_end(ap);
    syncPoint(E_SEM, 30);
    if (id < 1 || id > f.nsems || !f.sems[id - 1].used) { errno = EINVAL; return -1; }
    Sem& s = f.sems[id - 1];
    switch (cmd) {
        case GETVAL: return s.val[num];
        case SETVAL:
            s.val[num] = int(arg);
            for (int j = 0; j < f.nundo; ++j) if (f.undo[j].sem == id - 1 && f.undo[j].num == num) f.undo[j].adj = 0;
            wakeKey(KEY_SEM);
            return 0;
        case GETPID: return 0;
        case IPC_RMID: s.used = 0; wakeKey(KEY_SEM); return 0;
        case IPC_STAT: return 0;
        case GETNCNT: case GETZCNT: return 0;
    }
    errno = EINVAL;
    return -1;
}

// ---- asynchronous I/O
int aio_write(struct aiocb* c) __THROW { return aioSubmit(c, 1); }
int aio_read(struct aiocb* c) __THROW { return aioSubmit(c, 0); }
int aio_fsync(int, struct aiocb* c) __THROW { return aioSubmit(c, 2); }
int aio_error(const struct aiocb* c) __THROW {
    syncPoint(E_AIO, 10);
    aioProgress();
    Aio* a = aioFind(c);
    if (!a) return EINVAL;
    return a->state == 1 ? EINPROGRESS : a->err;
}
ssize_t aio_return(struct aiocb* c) __THROW {
    syncPoint(E_AIO, 11);
    aioProgress();
    auto& v = aios();
    for (size_t i = 0; i < v.size(); ++i) if (v[i].cb == c) {
        if (v[i].state == 1) { errno = EINPROGRESS; return -1; }
        ssize_t r = v[i].ret;
        if (r < 0) errno = v[i].err;
        return r;   // as in glibc, the result stays readable until the control block is used again
    }
    errno = EINVAL;
    return -1;
}
int aio_suspend(const struct aiocb* const list[], int n, const struct timespec* ts) {
    syncPoint(E_AIO, 12);
    if (fire(F_EINTR)) { errno = EINTR; return -1; }
    int64_t until = ts ? int64_t(G->clock) + ts->tv_sec * 1000000000ll + ts->tv_nsec : INT64_MAX;
    for (;;) {
        aioProgress();
        int64_t first = INT64_MAX;
        bool any = false;
        for (int i = 0; i < n; ++i) if (list[i]) {
            any = true;
            Aio* a = aioFind(list[i]);
            if (!a || a->state == 2) return 0;
            if (a->doneAt < first) first = a->doneAt;
        }
        if (!any) return 0;
        if (int64_t(G->clock) >= until) { errno = EAGAIN; return -1; }
        block(KEY_AIO + uint64_t(process()), "aio_suspend", 1, std::min(first, until), true);
    }
}
int aio_cancel(int, struct aiocb*) __THROW { return AIO_NOTCANCELED; }
int aio_write64(struct aiocb64* c) __THROW { return aioSubmit(reinterpret_cast<struct aiocb*>(c), 1); }
int aio_read64(struct aiocb64* c) __THROW { return aioSubmit(reinterpret_cast<struct aiocb*>(c), 0); }
int aio_fsync64(int o, struct aiocb64* c) __THROW { return aio_fsync(o, reinterpret_cast<struct aiocb*>(c)); }
int aio_error64(const struct aiocb64* c) __THROW { return aio_error(reinterpret_cast<const struct aiocb*>(c)); }
ssize_t aio_return64(struct aiocb64* c) __THROW { return aio_return(reinterpret_cast<struct aiocb*>(c)); }
int aio_suspend64(const struct aiocb64* const l[], int n, const struct timespec* ts) { return aio_suspend(reinterpret_cast<const struct aiocb* const*>(l), n, ts); }
int aio_cancel64(int, struct aiocb64*) __THROW { return AIO_NOTCANCELED; }
}
