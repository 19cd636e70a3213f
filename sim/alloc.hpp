// Simulated allocator behaviour: every allocation the library makes (operator new, malloc, calloc, realloc)
// can be counted, made to fail, and is accounted until it is freed.
#pragma once
#include "core.hpp"
#include <cstdint>
#include <cstddef>
#include <string>

namespace sim
{
struct AllocSim {
    bool on = false;            // inside a library call
    int64_t count = 0;          // library allocations so far
    int64_t fail_at = 0;        // this one fails (0: none)
    bool sticky = false;        // ... and all later ones
    int64_t fired = 0;
    int64_t live_blocks = 0, live_bytes = 0;   // library allocations not freed yet
    int64_t divsufsort_fail = 0;               // calls of divsufsort that run out of memory
    void reset();
    std::string describe(int64_t since);       // live blocks handed out after allocation number `since`
};
extern AllocSim mem;
struct Lib {                    // a library call is in progress
    bool save;
    Lib() : save(mem.on) { mem.on = true; }
    ~Lib() { mem.on = save; }
};
}
