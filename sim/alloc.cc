// The allocator of the simulated program: deterministic addresses whatever the harness allocated before, freed memory
// filled and reused late, overruns and double frees detected.
#include <errno.h>
#include <stdint.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <new>
#include "internal.h"

namespace dst {
int allocRegion = 1;      // 0: the harness' own, 1: program start and scenario.init(), 2: one simulated run
}
namespace {
constexpr uint64_t BASE = 0x200000000000ull, SPAN = 64ull << 30;
constexpr uint32_t LIVE = 0xA110C8EDu, FREE = 0xF7EEF7EEu, INNER = 0x1A11C4EDu;
constexpr uint64_t CANARY = 0xC0DEFACEC0DEFACEull;
struct Head { uint32_t magic, cls; uint64_t size; };   // cls: class of the block; INNER: distance back to the real block
struct Node { Node* next; };
constexpr int NCLS = 64 + 4 * 26;
struct Region { uint64_t top, mapped; Node *head[NCLS], *tail[NCLS]; uint32_t count[NCLS]; };
Region R[3];
int lockWord;
struct Lock {
    Lock() { while (__atomic_exchange_n(&lockWord, 1, __ATOMIC_ACQUIRE)) syscall(SYS_sched_yield); }
    ~Lock() { __atomic_store_n(&lockWord, 0, __ATOMIC_RELEASE); }
};
inline int clsOf(uint64_t n) {        // n: bytes including header and canary
    if (n <= 1024) return int((n + 15) / 16) - 1;
    int e = 63 - __builtin_clzll(n - 1);           // 2^e < n <= 2^(e+1), e >= 10
    uint64_t q = ((n - 1) >> (e - 2)) & 3;
    return 64 + (e - 10) * 4 + int(q);
}
inline uint64_t clsSize(int c) {
    if (c < 64) return uint64_t(c + 1) * 16;
    int e = 10 + (c - 64) / 4, q = (c - 64) % 4;
    return (1ull << e) + uint64_t(q + 1) * (1ull << (e - 2));
}
constexpr uint64_t FILL = 1 << 16;
bool corrupt(const char* cls, const char* what) {
    if (dst::allocRegion == 2 && dst::tl.task >= 0) { lockWord = 0; dst::fail(cls, "%s", what); }
    return false;
}
void* get(uint64_t n) {
    if (n > (dst::allocRegion == 2 ? 256ull << 20 : 32ull << 30)) { errno = ENOMEM; return nullptr; }
    int c = clsOf(n + sizeof(Head) + 8);
    uint64_t sz = clsSize(c);
    int reg = dst::allocRegion;
    Region& r = R[reg];
    char* b;
    if (r.head[c] && r.count[c] > (sz > 65536 ? 0u : 12u)) {
        Node* x = r.head[c];
        r.head[c] = x->next;
        if (!r.head[c]) r.tail[c] = nullptr;
        r.count[c]--;
        b = reinterpret_cast<char*>(x) - sizeof(Head);
        if (sz <= 256) {
            const unsigned char* q = reinterpret_cast<unsigned char*>(b) + sizeof(Head) + sizeof(Node);
            uint64_t m = sz - sizeof(Head) - sizeof(Node);
            for (uint64_t i = 0; i < m; ++i) if (q[i] != 0xA5) corrupt("write-after-free", "released memory was written to");
        }
    }
    else {
        if (!r.top) r.top = r.mapped = BASE + uint64_t(reg) * SPAN;
        if (r.top + sz > r.mapped) {
            uint64_t need = ((r.top + sz - r.mapped) + (16 << 20) - 1) & ~uint64_t((16 << 20) - 1);
            void* m = reinterpret_cast<void*>(syscall(SYS_mmap, r.mapped, need, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0));
            if (m != reinterpret_cast<void*>(r.mapped)) { errno = ENOMEM; return nullptr; }
            r.mapped += need;
        }
        b = reinterpret_cast<char*>(r.top);
        r.top += sz;
    }
    Head* h = reinterpret_cast<Head*>(b);
    h->magic = LIVE; h->cls = uint32_t(c); h->size = n;
    char* p = b + sizeof(Head);
    memset(p, 0x5A, n < FILL ? n : FILL);
    memcpy(p + n, &CANARY, 8);
    return p;
}
Head* headOf(void* p) {
    Head* h = reinterpret_cast<Head*>(static_cast<char*>(p) - sizeof(Head));
    if (h->magic == INNER) h = reinterpret_cast<Head*>(reinterpret_cast<char*>(h) - h->size);
    return h;
}
inline int regionOf(void* p) { return int((reinterpret_cast<uint64_t>(p) - BASE) / SPAN); }
void put(void* p) {
    uint64_t a = reinterpret_cast<uint64_t>(p);
    if (a < BASE || a >= BASE + 3 * SPAN) { corrupt("bad-free", "something that was never allocated is released"); return; }
    Head* h = headOf(p);
    if (h->magic == FREE) { corrupt("double-free", "memory released twice"); return; }
    if (h->magic != LIVE) { corrupt("bad-free", "memory overwritten, or something released that was never allocated"); return; }
    char* b = reinterpret_cast<char*>(h) + sizeof(Head);
    uint64_t can;
    memcpy(&can, b + h->size, 8);
    if (can != CANARY) corrupt("overrun", "written past the end of allocated memory");
    int reg = regionOf(h);
    if (dst::allocRegion == 2 && reg != 2) return;       // from before the run: kept, so that addresses do not depend on it
    Region& r = R[reg];
    int c = int(h->cls);
    uint64_t sz = clsSize(c) - sizeof(Head);
    memset(b, 0xA5, sz < FILL ? sz : FILL);
    if (sz >= (4u << 20)) syscall(SYS_madvise, (reinterpret_cast<uint64_t>(b) + 4096 + 4095) & ~4095ull, (sz - 12288) & ~4095ull, MADV_DONTNEED);
    h->magic = FREE;
    Node* x = reinterpret_cast<Node*>(b);
    x->next = nullptr;
    if (r.tail[c]) r.tail[c]->next = x; else r.head[c] = x;
    r.tail[c] = x;
    r.count[c]++;
}
}  // namespace

extern "C" {
void* malloc(size_t n) { Lock l; return get(n); }
void free(void* p) { if (!p) return; int e = errno; { Lock l; put(p); } errno = e; }
void* calloc(size_t a, size_t b) {
    uint64_t n;
    if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
    void* p = malloc(n);
    if (p) memset(p, 0, n);
    return p;
}
size_t malloc_usable_size(void* p) {
    if (!p) return 0;
    Head* h = headOf(p);
    return size_t(reinterpret_cast<char*>(h) + sizeof(Head) + h->size - static_cast<char*>(p));
}
void* realloc(void* p, size_t n) {
    if (!p) return malloc(n);
    if (n == 0) { free(p); return nullptr; }
    size_t o = malloc_usable_size(p);
    void* q = malloc(n);
    if (!q) return nullptr;
    memcpy(q, p, o < n ? o : n);
    free(p);
    return q;
}
void* reallocarray(void* p, size_t a, size_t b) {
    uint64_t n;
    if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
    return realloc(p, n);
}
void* memalign(size_t al, size_t n) {
    if (al <= 16) return malloc(n);
    char* p = static_cast<char*>(malloc(n + al + 16));
    if (!p) return nullptr;
    uint64_t a = (reinterpret_cast<uint64_t>(p) + 16 + al - 1) & ~uint64_t(al - 1);
    Head* real = reinterpret_cast<Head*>(p - sizeof(Head));
    Head* h = reinterpret_cast<Head*>(a - sizeof(Head));
    h->magic = INNER; h->cls = 0; h->size = uint64_t(reinterpret_cast<char*>(h) - reinterpret_cast<char*>(real));
    return reinterpret_cast<void*>(a);
}
void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void** out, size_t al, size_t n) { int e = errno; void* p = memalign(al, n); errno = e; if (!p) return ENOMEM; *out = p; return 0; }
void* valloc(size_t n) { return memalign(4096, n); }
void* pvalloc(size_t n) { return memalign(4096, (n + 4095) & ~size_t(4095)); }
void cfree(void* p) { free(p); }
}
