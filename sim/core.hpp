// Core of the simulator: seeds, plans, runs, worlds.
// A Plan is the complete description of one execution: configuration, operations, faults and
// preemptions.  Executing a plan is a pure function of the plan and the code under test.
#pragma once
#include <cstdint>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace sim
{

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 0) : s(seed) {}
    static uint64_t mix(uint64_t z)
    {
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    uint64_t next() { s += 0x9e3779b97f4a7c15ULL; return mix(s); }
    uint64_t operator()(uint64_t n) { return n ? next() % n : 0; }          // [0,n)
    int64_t range(int64_t a, int64_t b) { return a + (int64_t)(next() % (uint64_t)(b - a + 1)); } // [a,b]
    bool chance(unsigned num, unsigned den) { return next() % den < num; }
    template<class T> const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
};
inline uint64_t mix2(uint64_t a, uint64_t b) { return Rng::mix(a * 0x9e3779b97f4a7c15ULL + b + 0x1234567ULL); }

struct Op {
    std::string name;
    std::vector<int64_t> a;
    int64_t arg(size_t i) const { return i < a.size() ? a[i] : 0; }
};
struct Fault { std::string kind; int64_t at; int64_t arg; };
struct Switch { int64_t step; int64_t to; };     // at scheduler step `step` hand over to thread `to`

struct Plan {
    std::string world;
    std::map<std::string, int64_t> cfg;
    std::vector<Op> ops;
    std::vector<Fault> faults;
    std::vector<Switch> sched;
    bool sched_fixed = false;                    // schedule given explicitly (replay)
    int64_t get(const std::string& k, int64_t d = 0) const { auto it = cfg.find(k); return it == cfg.end() ? d : it->second; }
    void op(const std::string& n, std::vector<int64_t> a = {}) { ops.push_back(Op{n, std::move(a)}); }
    std::string text() const;
    static Plan parse(const std::string& text);
};

struct Violation { std::string cls, msg; };      // thrown by worlds
struct Discard { std::string why; };             // run is not meaningful (harness limit); counted, never a pass

struct Run {
    uint64_t hash = 1469598103934665603ULL;
    uint64_t events = 0;
    bool verbose = false;
    bool nontrivial = false;
    std::map<std::string, int64_t> counters;     // fault kinds fired, probes hit
    std::set<uint64_t> cover;                    // states / interleavings reached (features)
    std::string log;                             // only if verbose
    void ev(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    void hit(const std::string& what, int64_t n = 1) { counters[what] += n; }
    void state(uint64_t h) { if (cover.size() < 4096) cover.insert(h); }
};
[[noreturn]] void fail(const std::string& cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
extern Run* cur;                                 // current run
extern uint64_t g_bufcap;                            // largest buffer of disk-backed vectors (bytes), 0: no limit
extern uint64_t g_defbuf;                            // default buffer size of disk-backed vectors (bytes)
extern int g_sim_depth;                          // > 0: the simulator itself is running (alloc.hpp)
struct SimScope {
    SimScope() { ++g_sim_depth; }
    ~SimScope() { --g_sim_depth; }
};
extern int g_tier;                               // 0 quick, 1 thorough

struct World {
    std::string name;
    virtual ~World() {}
    virtual Plan gen(Rng& rng) = 0;              // configuration and operations
    virtual bool wants_dry() { return false; }   // execute once without faults before placing them
    virtual void place(Plan&, Rng&, const Run& /*dry*/) {}
    virtual void exec(const Plan&, Run&) = 0;
};
void add_world(World*);
template<class W> struct AddWorld { AddWorld() { add_world(new W); } };

// hooks set by optional parts (scheduler) to reset themselves and export what they did
extern bool g_fresh_thread;                            // execute each run in a thread (and heap arena) of its own
extern void (*g_io_point)();                     // a scheduling point at each file call
std::string outcome_extra();                     // explicit schedule of the last run (plan lines)
extern std::function<std::string()> g_export_sched;

int sim_main(int argc, char** argv);
}
