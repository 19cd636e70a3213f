#include "sched.hpp"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <climits>
#include <cstdlib>
#include <linux/futex.h>
#include <malloc.h>
#include <map>
#include <new>
#include <pthread.h>
#include <sstream>
#include <sys/syscall.h>
#include <unistd.h>

namespace sim
{
Sched sched;
namespace
{
enum St { RUN, BLOCKED, DONE };
struct Th {
    std::atomic<int> go{0}, ready{0}, leave{0};
    St st = RUN;
    const void* wait = nullptr;
    int64_t step = 0;                // local steps taken
    int64_t next = INT64_MAX;        // local step of the next preemption
    pthread_t id;
    std::function<void()> fn;
    // spinning
    const void* spin_addr = nullptr; uint64_t spin_val = 0; int spin_n = 0; int64_t spin_step = 0;
};
struct Access { const void* g; int32_t th; int32_t write; int64_t step; };
struct State {
    std::vector<Th*> th;
    bool on = false;
    bool rec = false;
    int64_t total = 0, limit = 400000000;
    std::atomic<int> finished{0};
    Rng rng{1};
    int64_t rate = 0;                // mean steps between random preemptions of a thread, 0 = none
    bool fixed = false;
    std::map<std::pair<int, int64_t>, int> plan;      // (thread, local step) -> successor
    std::vector<Switch> done;        // what was decided
    std::vector<Access> log;
    uint64_t inter = 1469598103934665603ULL;
    std::map<const void*, std::pair<int, int>> mutexes;   // owner, depth
    Violation viol; bool has_viol = false;
    std::string exc; bool has_exc = false;
    int64_t preempts = 0;
} S;
thread_local int g_me = -1;

void fwait(std::atomic<int>& a) { while (a.load(std::memory_order_acquire) == 0) syscall(SYS_futex, &a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); a.store(0); }
void fwake(std::atomic<int>& a) { a.store(1, std::memory_order_release); syscall(SYS_futex, &a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

int64_t key(int t, int64_t step) { return ((int64_t)t << 40) | step; }
void draw_next(int t)
{
    Th& x = *S.th[t];
    x.next = INT64_MAX;
    if (S.fixed || S.rate == 0) {
        auto it = S.plan.upper_bound({t, x.step});
        if (it != S.plan.end() && it->first.first == t) x.next = it->first.second;
        if (S.fixed) return;
    }
    if (S.rate) x.next = x.step + 1 + (int64_t)S.rng(2 * S.rate);
}
std::vector<int> runnable(int but)
{
    std::vector<int> r;
    for (int i = 0; i < (int)S.th.size(); ++i) if (i != but && S.th[i]->st == RUN) r.push_back(i);
    return r;
}
void note(int t, int64_t step, int to)
{
    S.done.push_back({key(t, step), to});
    for (uint64_t v : {(uint64_t)key(t, step), (uint64_t)to}) S.inter = (S.inter ^ v) * 1099511628211ULL;
}
void hand(int from, int to, bool wait)
{
    Th* f = S.th[from];
    fwake(S.th[to]->go);
    if (wait) fwait(f->go);
}
// the running thread cannot go on (blocked, ended, or spinning): choose a successor
int successor(int t)
{
    auto r = runnable(t);
    if (r.empty()) return -1;
    int to = r[0];
    for (int x : r) if (x > t) { to = x; break; }        // in turn, so that threads waiting for each other's progress get on
    auto it = S.plan.find({t, S.th[t]->step});
    if (it != S.plan.end() && std::find(r.begin(), r.end(), it->second) != r.end()) to = it->second;
    else if (!S.fixed && S.rate) to = r[S.rng(r.size())];
    note(t, S.th[t]->step, to);
    return to;
}
[[noreturn]] void die(int code, const char* m) { (void)!syscall(SYS_write, 2, m, strlen(m)); _exit(code); }
void slow(int t)
{
    Th& x = *S.th[t];
    // preemption due at this step
    auto r = runnable(t);
    int to = -1;
    auto it = S.plan.find({t, x.step});
    if (it != S.plan.end()) { if (std::find(r.begin(), r.end(), it->second) != r.end()) to = it->second; }
    else if (!S.fixed && S.rate && !r.empty()) to = r[S.rng(r.size())];
    draw_next(t);
    if (to >= 0) { ++S.preempts; note(t, x.step, to); hand(t, to, true); }
}
inline void step(const void* a, int write)
{
    int t = g_me;
    if (t < 0) return;
    Th& x = *S.th[t];
    ++x.step;
    if (++S.total > S.limit) die(77, "SIM-STEP-LIMIT\n");
    if (S.rec && a && S.log.size() < 3000000) S.log.push_back({(const void*)((uintptr_t)a >> 3), t, write, x.step});
    if (x.step >= x.next) slow(t);
}
void yield_forced(int t)
{
    Th& x = *S.th[t];
    ++x.step; ++S.total;
    int to = successor(t);
    draw_next(t);
    if (to >= 0) hand(t, to, true);
}
void block_on(int t, const void* what)
{
    Th& x = *S.th[t];
    ++x.step; ++S.total;
    x.st = BLOCKED; x.wait = what;
    int to = successor(t);
    if (to < 0) die(79, "SIM-DEADLOCK: every thread waits for a lock\n");
    draw_next(t);
    hand(t, to, true);
}
void wake_all(const void* what) { for (auto x : S.th) if (x->st == BLOCKED && x->wait == what) { x->st = RUN; x->wait = nullptr; } }

void spin_check(const void* a, uint64_t v)
{
    int t = g_me;
    if (t < 0) return;
    Th& x = *S.th[t];
    if (x.spin_addr == a && x.spin_val == v && x.step - x.spin_step <= 3) {
        x.spin_step = x.step;
        if (++x.spin_n >= 4) { x.spin_n = 0; yield_forced(t); }
    } else { x.spin_addr = a; x.spin_val = v; x.spin_n = 0; x.spin_step = x.step; }
}

void* body(void* p)
{
    int t = (int)(intptr_t)p;
    Th& x = *S.th[t];
    void* volatile m = malloc(1); free(m);   // binds the thread to a heap arena in a fixed order
    fwake(x.ready);
    fwait(x.go);
    g_me = t;
    try { x.fn(); }
    catch (Violation& v) { if (!S.has_viol) { S.viol = v; S.has_viol = true; } }
    catch (std::exception& e) { if (!S.has_exc) { S.exc = e.what(); S.has_exc = true; } }
    g_me = -1;
    x.st = DONE;
    ++x.step;
    auto r = runnable(t);
    if (r.empty()) {
        for (auto y : S.th) if (y->st == BLOCKED) die(79, "SIM-DEADLOCK: a thread waits for a lock nobody will release\n");
        fwake(S.finished);
        fwait(x.leave);
        return nullptr;
    }
    int to = successor(t);
    fwake(S.th[to]->go);
    fwait(x.leave);             // threads leave (and give back their arenas) in a fixed order
    return nullptr;
}
std::string export_sched()
{
    std::ostringstream o;
    for (auto& s : S.done) o << "sw " << s.step << " " << s.to << "\n";
    return o.str();
}
struct Init { Init() { g_export_sched = export_sched; g_io_point = sched_point; g_fresh_thread = true; } } init_export;
}

void Sched::gen(Plan& p, Rng& g)
{
    // strategy 0: uniformly random preemptions; 1: race-directed (placed from a dry run), 2: few preemptions
    int s = (int)g(4);
    p.cfg["strategy"] = s == 0 ? 0 : s == 1 ? 2 : 1;
    static const std::vector<int64_t> rates = {3, 8, 20, 60, 200, 700, 2500};
    p.cfg["rate"] = s == 0 ? g.pick(rates) : s == 1 ? 5000 + g(60000) : 0;
    p.cfg["schedseed"] = g(1 << 30);
}
void Sched::place(Plan& p, Rng& g)
{
    if (p.get("strategy") != 1) return;
    struct Gr { int first; unsigned thr = 0, wr = 0; std::vector<int> acc; };
    std::map<const void*, Gr> gr;
    for (int i = 0; i < (int)S.log.size(); ++i) {
        auto& a = S.log[i];
        auto& x = gr[a.g];
        if (x.acc.empty()) x.first = i;
        x.thr |= 1u << a.th;
        if (a.write) x.wr |= 1u << a.th;
        if (x.acc.size() < 64) x.acc.push_back(i);
    }
    std::vector<Gr*> c;
    for (auto& k : gr) { Gr& x = k.second; if ((x.thr & (x.thr - 1)) && x.wr) c.push_back(&x); }
    std::sort(c.begin(), c.end(), [](Gr* a, Gr* b) { return a->first < b->first; });
    int nt = (int)S.th.size();
    if (nt < 2) return;
    if (c.empty()) {       // nothing is shared and written: every schedule gives the same, run one in four under a random one
        p.cfg["rate"] = 1 + g(400);
        if (g(4)) p.cfg["skip"] = 1;
        return;
    }
    int n = 1 + (int)g(4);
    std::map<int64_t, int> sw;
    size_t focus = g(c.size());
    if (g(2)) {
        // many switches around the accesses to one neighbourhood of memory
        uint64_t f = (uint64_t)(uintptr_t)S.log[c[focus]->first].g;
        std::vector<int> acc;
        for (auto x : c) { uint64_t y = (uint64_t)(uintptr_t)S.log[x->first].g; if (y + 64 > f && y < f + 64) acc.insert(acc.end(), x->acc.begin(), x->acc.end()); }
        int m = 2 + (int)g(30);
        for (int i = 0; i < m; ++i) {
            auto& a = S.log[acc[g(acc.size())]];
            int to = (int)g(nt - 1); if (to >= a.th) ++to;
            sw[key(a.th, a.step + (int64_t)g(2))] = to;
        }
    } else
    for (int i = 0; i < n; ++i) {
        Gr* x = c[g(3) ? focus : g(c.size())];
        auto& a = S.log[x->acc[g(x->acc.size())]];
        int to = (int)g(nt - 1); if (to >= a.th) ++to;
        sw[key(a.th, a.step + (int64_t)g(3))] = to;
    }
    for (auto& s : sw) p.sched.push_back({s.first, s.second});
}
void Sched::run(const Plan& p, const std::vector<std::function<void()>>& fns)
{
    for (auto t : S.th) delete t;
    S.th.clear(); S.done.clear(); S.log.clear(); S.plan.clear(); S.mutexes.clear();
    S.total = 0; S.finished = 0; S.has_viol = S.has_exc = false; S.preempts = 0; S.inter = 1469598103934665603ULL;
    S.fixed = p.sched_fixed;
    S.rng = Rng(p.get("schedseed"));
    S.rate = S.fixed ? 0 : p.get("rate");
    S.rec = !S.fixed && p.get("strategy") == 1 && p.sched.empty() && S.rate == 0;
    for (auto& s : p.sched) S.plan[{(int)(s.step >> 40), s.step & ((1LL << 40) - 1)}] = (int)s.to;
    for (auto& f : fns) { Th* t = new Th; t->fn = f; S.th.push_back(t); }
    for (int i = 0; i < (int)fns.size(); ++i) draw_next(i);
    for (int i = 0; i < (int)fns.size(); ++i) {
        if (pthread_create(&S.th[i]->id, nullptr, body, (void*)(intptr_t)i)) { fprintf(stderr, "no thread\n"); _exit(3); }
        fwait(S.th[i]->ready);
    }
    int first = 0;
    auto it = S.plan.find({-1 & 0xff, 0});
    if (it != S.plan.end() && it->second < (int)fns.size()) first = it->second;
    else if (!S.fixed) first = (int)(p.get("schedseed") % (int64_t)fns.size());
    S.done.push_back({key(-1 & 0xff, 0), first});
    S.on = true;
    fwake(S.th[first]->go);
    fwait(S.finished);
    for (auto t : S.th) { fwake(t->leave); pthread_join(t->id, nullptr); }
    S.on = false;
    cur->hit("preemptions", S.preempts);
    cur->hit("sched_steps", S.total);
    cur->state(S.inter);
    cur->ev("schedule %llx %lld", (unsigned long long)S.inter, (long long)S.total);
    if (S.has_viol) throw S.viol;
    if (S.has_exc) fail("uncaught-exception", "an exception escaped from a thread: %s", S.exc.c_str());
}
int64_t Sched::now() const { return S.total; }
int Sched::me() const { return g_me; }
void sched_point() { step(nullptr, 0); }
bool sched_recording() { return S.rec && g_me >= 0; }

static int mtx_lock(pthread_mutex_t* m, bool tr)
{
    int t = g_me;
    step(m, 1);
    for (;;) {
        auto it = S.mutexes.find(m);
        if (it == S.mutexes.end()) { S.mutexes[m] = {t, 1}; return 0; }
        if (it->second.first == t) {
            if ((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { ++it->second.second; return 0; }
            if (tr) return EBUSY;
            die(79, "SIM-DEADLOCK: a thread locks a mutex it holds\n");
        }
        if (tr) return EBUSY;
        block_on(t, m);
    }
}
static int mtx_unlock(pthread_mutex_t* m)
{
    int t = g_me;
    auto it = S.mutexes.find(m);
    if (it == S.mutexes.end() || it->second.first != t) return EPERM;
    if (--it->second.second == 0) { S.mutexes.erase(it); wake_all(m); }
    step(m, 1);
    return 0;
}
}

using namespace sim;
// memory freed by a running thread is overwritten and not handed out again for a while, so that a stale
// reference is noticed
extern "C" void __real_free(void*);
namespace
{
struct Quarantine { void* q[8192]; size_t n = 0, bytes = 0; } Q;
void q_free(void* p)
{
    if (!p) return;
    if (g_me < 0) { __real_free(p); return; }
    size_t z = malloc_usable_size(p);
    if (z > (1u << 20)) { __real_free(p); return; }
    memset(p, 0xDD, z);
    size_t i = Q.n++ % 8192;
    if (Q.n > 8192) __real_free(Q.q[i]);
    Q.q[i] = p;
}
}
void operator delete(void* p) noexcept { q_free(p); }
void operator delete[](void* p) noexcept { q_free(p); }
void operator delete(void* p, size_t) noexcept { q_free(p); }
void operator delete[](void* p, size_t) noexcept { q_free(p); }
extern "C" void __real_free(void*);
extern "C" void __wrap_free(void* p) { q_free(p); }
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) { return g_me < 0 ? 0 : mtx_lock(m, false); }
int pthread_mutex_trylock(pthread_mutex_t* m) { return g_me < 0 ? 0 : mtx_lock(m, true); }
int pthread_mutex_unlock(pthread_mutex_t* m) { return g_me < 0 ? 0 : mtx_unlock(m); }
int sched_yield() { if (g_me >= 0) yield_forced(g_me); return 0; }

// initialisation of function-local statics
int __cxa_guard_acquire(uint64_t* g)
{
    auto b = (volatile unsigned char*)g;
    step(g, 1);
    for (;;) {
        if (b[0]) return 0;
        if (!b[1]) { b[1] = 1; return 1; }
        if (g_me < 0) die(79, "SIM-DEADLOCK: recursive initialisation\n");
        block_on(g_me, g);
    }
}
void __cxa_guard_release(uint64_t* g) { auto b = (volatile unsigned char*)g; b[1] = 0; b[0] = 1; wake_all(g); step(g, 1); }
void __cxa_guard_abort(uint64_t* g) { auto b = (volatile unsigned char*)g; b[1] = 0; wake_all(g); }

void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void __tsan_vptr_update(void** p, void*) { step(p, 1); }
void __tsan_vptr_read(void** p) { step(p, 0); }
#define RW(n) \
    void __tsan_read##n(void* p) { step(p, 0); } \
    void __tsan_write##n(void* p) { step(p, 1); } \
    void __tsan_read_write##n(void* p) { step(p, 1); } \
    void __tsan_volatile_read##n(void* p) { step(p, 0); } \
    void __tsan_volatile_write##n(void* p) { step(p, 1); } \
    void __tsan_unaligned_read##n(void* p) { step(p, 0); } \
    void __tsan_unaligned_write##n(void* p) { step(p, 1); } \
    void __tsan_unaligned_read_write##n(void* p) { step(p, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long) { step(p, 0); }
void __tsan_write_range(void* p, unsigned long) { step(p, 1); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { step(s, 0); step(d, 1); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { step(s, 0); step(d, 1); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { step(d, 1); return memset(d, c, n); }

#define AT(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T* a, int) { step((const void*)a, 0); T v = *a; spin_check((const void*)a, (uint64_t)v); return v; } \
    void __tsan_atomic##bits##_store(volatile T* a, T v, int) { step((const void*)a, 1); *a = v; } \
    T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { step((const void*)a, 1); T o = *a; *a = v; if (o == v) spin_check((const void*)a, (uint64_t)o); return o; } \
    T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { step((const void*)a, 1); T o = *a; *a = o + v; return o; } \
    T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { step((const void*)a, 1); T o = *a; *a = o - v; return o; } \
    T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { step((const void*)a, 1); T o = *a; *a = o & v; return o; } \
    T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { step((const void*)a, 1); T o = *a; *a = o | v; if (*a == o) spin_check((const void*)a, (uint64_t)o); return o; } \
    T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { step((const void*)a, 1); T o = *a; *a = o ^ v; return o; } \
    T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int) { step((const void*)a, 1); T o = *a; *a = ~(o & v); return o; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { step((const void*)a, 1); if (*a == *c) { *a = v; return 1; } *c = *a; spin_check((const void*)a, (uint64_t)*c); return 0; } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { step((const void*)a, 1); if (*a == *c) { *a = v; return 1; } *c = *a; spin_check((const void*)a, (uint64_t)*c); return 0; } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int, int) { step((const void*)a, 1); T o = *a; if (o == c) *a = v; else spin_check((const void*)a, (uint64_t)o); return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { step(nullptr, 0); }
void __tsan_atomic_signal_fence(int) {}
}
