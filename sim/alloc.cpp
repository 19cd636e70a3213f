#include "alloc.hpp"
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace sim
{
AllocSim mem;
namespace
{
struct Slot { void* p; int64_t size, nr; void* at[10]; };
extern "C" char __executable_start;
const size_t CAP = 1 << 20;
Slot* tab = nullptr;
size_t filled = 0;
void* const GONE = (void*)1;
size_t home(void* p) { return ((uintptr_t)p >> 4) * 0x9e3779b97f4a7c15ULL >> 44; }
void note(void* p, size_t n)
{
    if (!p) return;
    if (!tab) tab = (Slot*)syscall(SYS_mmap, nullptr, CAP * sizeof(Slot), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    size_t i = home(p);
    while (tab[i].p && tab[i].p != GONE) i = (i + 1) & (CAP - 1);
    if (!tab[i].p && ++filled > CAP / 2) { fprintf(stderr, "allocation table full\n"); _exit(3); }
    tab[i] = Slot{p, (int64_t)n, mem.count, {}};
    // callers, from the frame pointers (the library and the worlds keep them)
    void** fp = (void**)__builtin_frame_address(0);
    for (int k = 0; k < 10; ++k) {
        void** up = (void**)fp[0];
        tab[i].at[k] = fp[1];
        if (up <= fp || (char*)up - (char*)fp > (1 << 20)) break;
        fp = up;
    }
    ++mem.live_blocks; mem.live_bytes += n;
}
void forget(void* p)
{
    if (!p || !tab || !mem.live_blocks) return;
    size_t i = home(p);
    while (tab[i].p && tab[i].p != p) i = (i + 1) & (CAP - 1);
    if (!tab[i].p) return;
    tab[i].p = GONE;
    --mem.live_blocks; mem.live_bytes -= tab[i].size;
}
bool ours() { return mem.on && g_sim_depth == 0; }
bool fails()
{
    ++mem.count;
    if (mem.fail_at && (mem.sticky ? mem.count >= mem.fail_at : mem.count == mem.fail_at)) { ++mem.fired; return true; }
    return false;
}
}
void AllocSim::reset()
{
    *this = AllocSim();
    if (tab) { syscall(SYS_munmap, tab, CAP * sizeof(Slot)); tab = nullptr; filled = 0; }
}
std::string AllocSim::describe(int64_t since)
{
    std::string s;
    int k = 0;
    for (size_t i = 0; tab && i < CAP && k < 6; ++i) if (tab[i].p && tab[i].p != GONE && tab[i].nr > since) { s += " #" + std::to_string(tab[i].nr) + ":" + std::to_string(tab[i].size); if (!k++) for (auto a : tab[i].at) if (a) { char b[40]; snprintf(b, sizeof b, " (+0x%zx)", (size_t)((char*)a - &__executable_start - 1)); s += b; } }
    return s;
}
}
using namespace sim;
extern "C" {
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); void __real_free(void*);
void* __wrap_malloc(size_t n)
{
    if (!ours()) return __real_malloc(n);
    if (fails()) { errno = ENOMEM; return nullptr; }
    void* p = __real_malloc(n); note(p, n); return p;
}
void* __wrap_calloc(size_t a, size_t b)
{
    if (!ours()) return __real_calloc(a, b);
    if (fails()) { errno = ENOMEM; return nullptr; }
    void* p = __real_calloc(a, b); note(p, a * b); return p;
}
void* __wrap_realloc(void* o, size_t n)
{
    if (!ours()) {
        void* p = __real_realloc(o, n);
        if (p || n == 0) forget(o);
        return p;
    }
    if (fails()) { errno = ENOMEM; return nullptr; }
    void* p = __real_realloc(o, n);
    forget(o);
    note(p, n);
    return p;
}
void __wrap_free(void* p) { forget(p); __real_free(p); }
int __real_divsufsort(const unsigned char*, int*, int);
int __wrap_divsufsort(const unsigned char* t, int* sa, int n)
{
    if (ours() && n > 1 && fails()) { ++mem.divsufsort_fail; return -2; }   // it allocates its buckets first
    return __real_divsufsort(t, sa, n);
}
}
static void* get(size_t n)
{
    if (!ours()) return __real_malloc(n ? n : 1);
    if (fails()) return nullptr;
    void* p = __real_malloc(n ? n : 1);
    note(p, n);
    return p;
}
void* operator new(size_t n) { void* p = get(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = get(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return get(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return get(n); }
void operator delete(void* p) noexcept { __wrap_free(p); }
void operator delete[](void* p) noexcept { __wrap_free(p); }
void operator delete(void* p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void* p, size_t) noexcept { __wrap_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { __wrap_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { __wrap_free(p); }
