/* Counts outstanding operator new allocations (not in sanitizer builds, which check new/delete themselves). */
#pragma once
#include <atomic>
#include <cstdlib>
#include <new>
inline std::atomic<long>& heapBalance() { static std::atomic<long> x(0); return x; }
#if !defined(__SANITIZE_ADDRESS__) && !defined(PBT_NO_MAIN)
static void* countedNew(size_t n) {
    void* p = std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    ++heapBalance();
    return p;
}
static void countedDelete(void* p) { if (p) { --heapBalance(); std::free(p); } }
void* operator new(size_t n) { return countedNew(n); }
void* operator new[](size_t n) { return countedNew(n); }
void operator delete(void* p) noexcept { countedDelete(p); }
void operator delete[](void* p) noexcept { countedDelete(p); }
void operator delete(void* p, size_t) noexcept { countedDelete(p); }
void operator delete[](void* p, size_t) noexcept { countedDelete(p); }
#endif
/** Runs f; if it leaves allocations behind, runs it again to exclude one-time initialisation. */
template<typename F> long leaked(F f) {
    long d = 0;
    for (int i = 0; i < 3; ++i) {
        long before = heapBalance();
        f();
        d = heapBalance() - before;
        if (d == 0) return 0;
    }
    return d;
}
