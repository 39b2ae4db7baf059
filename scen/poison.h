// Freed memory is never reused and is overwritten, so that a use after free shows.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <new>
#include "dst.h"
namespace scen {
constexpr uint64_t LIVE = 0xA11CA7EDA11CA7EDull, DEAD = 0xDEADDEADDEADDEADull;
extern bool poisonOn;
extern bool fillOn;   // new memory is filled with what no pointer is
inline void* pAlloc(size_t n) {
    char* p = static_cast<char*>(malloc(n + 16));
    if (!p) throw std::bad_alloc();
    uint64_t* h = reinterpret_cast<uint64_t*>(p);
    h[0] = LIVE; h[1] = n;
    if (fillOn) memset(p + 16, 0xA5, n);
    return p + 16;
}
inline void pFree(void* q) {
    if (!q) return;
    uint64_t* h = reinterpret_cast<uint64_t*>(static_cast<char*>(q) - 16);
    if (h[0] == DEAD) dst::fail("double-free", "memory released twice");
    if (h[0] != LIVE) { return; }
    if (!poisonOn) { free(h); return; }
    h[0] = DEAD;
    memset(q, 0xDD, h[1]);
}
}  // namespace scen
#define DST_POISON \
    bool scen::poisonOn = false; \
    bool scen::fillOn = false; \
    void* operator new(size_t n) { return scen::pAlloc(n); } \
    void* operator new[](size_t n) { return scen::pAlloc(n); } \
    void operator delete(void* p) noexcept { scen::pFree(p); } \
    void operator delete[](void* p) noexcept { scen::pFree(p); } \
    void operator delete(void* p, size_t) noexcept { scen::pFree(p); } \
    void operator delete[](void* p, size_t) noexcept { scen::pFree(p); }
