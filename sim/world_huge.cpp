// C14: histories of the huge-page allocator, used directly and underneath integer vectors.
#include "simos.hpp"
#include <sdsl/memory_management.hpp>
#include <sdsl/int_vector.hpp>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace sim { }
extern int (*sim_mmap_hook)(void* addr, size_t len, int prot, int flags, void** out);
using namespace sim;
using namespace sdsl;

namespace
{
uint8_t* area = nullptr;
size_t area_len = 0;
bool refuse = false;
// huge pages come from a plain area between inaccessible pages
int huge_hook(void*, size_t len, int prot, int flags, void** out)
{
    if (!(flags & MAP_HUGETLB)) return 0;
    if (refuse || len == 0) { *out = MAP_FAILED; errno = ENOMEM; return 1; }
    size_t pages = (len + 4095) / 4096 * 4096;
    uint8_t* a = (uint8_t*)syscall(SYS_mmap, nullptr, pages + 2 * 65536, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (a == (uint8_t*)MAP_FAILED) { *out = MAP_FAILED; return 1; }
    syscall(SYS_mprotect, a + 65536, pages, prot);
    area = a + 65536; area_len = len;
    *out = area;
    return 1;
}

struct Exec {
    const Plan& p; Run& r;
    hugepage_allocator& A;
    struct Blk { uint8_t* p; size_t n; uint64_t seed; bool grown; };
    std::vector<Blk> live;
    Exec(const Plan& p_, Run& r_) : p(p_), r(r_), A(hugepage_allocator::the_allocator()) {}
    static uint8_t pat(uint64_t seed, size_t i) { return (uint8_t)(mix2(seed, i >> 3) >> ((i & 7) * 8)); }
    void fill(Blk& b, size_t from = 0) { for (size_t i = from; i < b.n; ++i) b.p[i] = pat(b.seed, i); }
    void verify(const Blk& b, size_t n, const char* what)
    {
        for (size_t i = 0; i < n; ++i) if (b.p[i] != pat(b.seed, i)) fail("content", "after %s byte %zu of a live block of %zu bytes changed", what, i, b.n);
    }
    void verify_all(const char* what) { for (auto& b : live) verify(b, b.n, what); }
    void place_ok(uint8_t* q, size_t n, const Blk* self, const char* what)
    {
        if ((uintptr_t)q % 8) fail("alignment", "%s returned %p", what, (void*)q);
        if (q < area || q + n > area + area_len) fail("outside", "%s of %zu bytes returned a block at offset %lld of an area of %zu bytes", what, n, (long long)(q - area), area_len);
        for (auto& b : live) if (&b != self && q < b.p + b.n && b.p < q + n) fail("overlap", "%s of %zu bytes at offset %lld overlaps a live block of %zu bytes at offset %lld", what, n, (long long)(q - area), b.n, (long long)(b.p - area));
    }
    // a gap in which a request of n bytes fits with certainty: blocks that grew in place may have absorbed the gap behind them
    bool fits(size_t n)
    {
        std::vector<Blk> s(live);
        std::sort(s.begin(), s.end(), [](const Blk& a, const Blk& b) { return a.p < b.p; });
        uint8_t* at = area; size_t best = 0; bool absorbed = false;
        for (auto& b : s) {
            uint8_t* h = b.p - 8;
            if (!absorbed && h > at) best = std::max<size_t>(best, h - at);
            at = b.p + (b.n + 7) / 8 * 8 + 8; absorbed = b.grown;
        }
        // the space behind the last block never belongs to it
        if (area + area_len > at && !absorbed) best = std::max<size_t>(best, area + area_len - at);
        return n + 160 <= best;
    }
    size_t live_bytes() { size_t t = 0; for (auto& b : live) t += b.n; return t; }
    void run_blocks()
    {
        for (auto& o : p.ops) {
            r.ev("op %s %lld %lld", o.name.c_str(), (long long)o.arg(0), (long long)o.arg(1));
            size_t n = (uint64_t)o.arg(1);
            r.state(mix2(std::hash<std::string>()(o.name), mix2(live.size(), live_bytes() / 256)));
            if (o.name == "alloc") {
                if (live.size() > 60) continue;
                void* q = nullptr;
                try { q = A.mm_alloc(n); }
                catch (std::exception& e) {
                    r.ev("refused"); r.hit("fault_area_exhausted");
                    if (fits(n)) fail("refused", "an allocation of %zu bytes was refused though there is room for it (%zu live blocks with %zu bytes in an area of %zu)", n, live.size(), live_bytes(), area_len);
                    verify_all("refused allocation");
                    continue;
                }
                if (!q) fail("null", "an allocation of %zu bytes returned a null pointer", n);
                place_ok((uint8_t*)q, n, nullptr, "allocation");
                Blk b{(uint8_t*)q, n, (uint64_t)o.arg(2) * 977 + live.size(), false};
                r.ev("at %lld", (long long)(b.p - area));
                fill(b);
                live.push_back(b);
            } else if (o.name == "free") {
                if (live.empty()) continue;
                size_t i = (uint64_t)o.arg(0) % live.size();
                verify(live[i], live[i].n, "history");
                A.mm_free(live[i].p);
                live.erase(live.begin() + i);
            } else if (o.name == "realloc") {
                if (live.empty()) continue;
                size_t i = (uint64_t)o.arg(0) % live.size();
                Blk& b = live[i];
                size_t old = b.n;
                if (o.arg(3) & 1) n = std::max<int64_t>(0, (int64_t)old + (int64_t)n % 65 - 32);
                void* q = nullptr;
                try { q = A.mm_realloc(b.p, n); }
                catch (std::exception& e) {
                    r.ev("refused"); r.hit("fault_area_exhausted");
                    if (n <= old || fits(n)) fail("refused", "a reallocation from %zu to %zu bytes was refused though there is room for it", old, n);
                    verify_all("refused reallocation");
                    continue;
                }
                if (n == 0) { if (q) fail("null", "reallocation to 0 bytes returned a block"); live.erase(live.begin() + i); verify_all("reallocation"); continue; }
                if (!q) fail("null", "a reallocation to %zu bytes returned a null pointer", n);
                place_ok((uint8_t*)q, n, &b, "reallocation");
                r.ev("at %lld", (long long)((uint8_t*)q - area));
                if (n > old) b.grown = true;
                b.p = (uint8_t*)q; b.n = n;
                verify(b, std::min(old, n), "reallocation");
                if (n > old) fill(b, old);
            }
            verify_all(o.name.c_str());
        }
        // everything that was freed is available again
        while (!live.empty()) { size_t i = live.size() > 2 ? live.size() / 2 : 0; verify(live[i], live[i].n, "history"); A.mm_free(live[i].p); live.erase(live.begin() + i); verify_all("free"); }
        if (area_len > 256) {
            size_t n = area_len - 128;
            void* q = nullptr;
            try { q = A.mm_alloc(n); } catch (std::exception&) { fail("not-reusable", "after everything was freed a block of %zu bytes can not be allocated in an area of %zu bytes", n, area_len); }
            place_ok((uint8_t*)q, n, nullptr, "allocation of everything");
            memset(q, 1, n);
            A.mm_free(q);
        }
    }
    void run_vectors(std::vector<int_vector<>>& v, std::vector<std::vector<uint64_t>>& m)
    {
        auto check = [&](const char* what) {
            for (size_t i = 0; i < v.size(); ++i) {
                if (v[i].size() != m[i].size()) fail("vector-size", "after %s a vector has size %llu, should be %zu", what, (unsigned long long)v[i].size(), m[i].size());
                for (size_t k = 0; k < m[i].size(); ++k) if (v[i][k] != m[i][k]) fail("vector-value", "after %s element %zu of a vector of %zu elements of width %u is wrong", what, k, m[i].size(), v[i].width());
            }
        };
        for (auto& o : p.ops) {
            r.ev("op %s %lld %lld", o.name.c_str(), (long long)o.arg(0), (long long)o.arg(1));
            size_t i = (uint64_t)o.arg(0) % v.size(), n = (uint64_t)o.arg(1) % 3000;
            uint64_t ma = v[i].width() < 64 ? (1ULL << v[i].width()) - 1 : ~0ULL;
            try {
                if (o.name == "alloc") {
                    int_vector<> t(n, (uint64_t)o.arg(2) & ma, v[i].width());
                    std::vector<uint64_t> tm(n, (uint64_t)o.arg(2) & ma);
                    v[i] = std::move(t); m[i] = tm;
                } else if (o.name == "free") {
                    int_vector<> t(0, 0, v[i].width()); v[i] = std::move(t); m[i].clear();
                } else if (o.name == "realloc") {
                    size_t old = m[i].size();
                    if (o.arg(3) & 1) { size_t j = (i + 1) % v.size(); v[j] = v[i]; m[j] = m[i]; }
                    else { v[i].resize(n); m[i].resize(n, 0); for (size_t k = old; k < n; ++k) { m[i][k] = (k * 31 + (uint64_t)o.arg(2)) & ma; v[i][k] = m[i][k]; } }
                }
            } catch (std::exception& e) { r.ev("refused"); r.hit("fault_area_exhausted"); }
            r.state(mix2(std::hash<std::string>()(o.name), mix2(i, m[i].size() / 16)));
            check(o.name.c_str());
        }
    }
};

struct HugeWorld : World {
    HugeWorld() { name = "C14"; }
    Plan gen(Rng& g) override
    {
        Plan p;
        p.cfg["pages"] = 1 + g(g(3) ? 4 : 30);
        p.cfg["auto"] = g(8) == 0;
        p.cfg["vectors"] = g(4) == 0;
        p.cfg["refuse"] = g(40) == 0;
        static const std::vector<int64_t> small = {0, 1, 7, 8, 9, 15, 16, 17, 23, 24, 25, 31, 32, 33, 40, 48, 56, 64};
        int profile = g(4);
        auto size = [&]() -> int64_t {
            switch (profile) {
                case 0: return g.pick(small);
                case 1: return g(4) ? g(200) : g(4000);
                case 2: return g(3) ? g.pick(small) : g(3000);
                default: return g(8) == 0 ? (int64_t)(g(2) ? g(1 << 20) : (g.next() >> (g(40)))) : (int64_t)g(600);
            }
        };
        int n = g.range(10, g_tier ? 250 : 120);
        int phase = 0;
        for (int i = 0; i < n; ++i) {
            if (g(15) == 0) phase = g(3);
            unsigned k = g(10);
            if (phase == 1) k = g(12); else if (phase == 2) k = 3 + g(7);
            if (k < 4 || k > 9) p.op("alloc", {(int64_t)g(1000), size(), (int64_t)g(1 << 20)});
            else if (k < 7) p.op("free", {(int64_t)g(1000)});
            else p.op("realloc", {(int64_t)g(1000), size(), (int64_t)g(1 << 20), (int64_t)g(4)});
        }
        return p;
    }
    void exec(const Plan& p, Run& r) override
    {
        os.reset(p);
        sim_mmap_hook = huge_hook;
        area = nullptr;
        refuse = p.get("refuse");
        size_t len = (size_t)p.get("pages") * 4096;
        if (p.get("auto")) os.put("/proc/meminfo", "MemTotal:       65 kB\nHugePages_Total:      90\nHugePages_Free:       " + std::to_string(p.get("pages")) + "\nHugePages_Rsvd:        0\nHugepagesize:       4 kB\n");
        std::vector<int_vector<>> v(4);
        std::vector<std::vector<uint64_t>> m(4);
        for (int i = 0; i < 4; ++i) { v[i] = int_vector<>(i * 5, i, 7 + 13 * i); m[i].assign(i * 5, i & ((1ULL << (7 + 13 * i)) - 1)); }
        bool threw = false;
        try { memory_manager::use_hugepages(p.get("auto") ? 0 : len); } catch (std::exception&) { threw = true; }
        if (threw != refuse) fail("init", threw ? "initialisation failed without reason" : "initialisation succeeded without memory");
        r.nontrivial = true;
        if (refuse) { r.hit("fault_mmap_refused"); int_vector<> t(100, 5, 8); for (auto x : t) if (x != 5) fail("content", "vector wrong after failed initialisation"); return; }
        if (area_len != len) fail("init", "the area has %zu bytes, should have %zu", area_len, len);
        Exec e(p, r);
        if (p.get("vectors")) e.run_vectors(v, m); else e.run_blocks();
        os.shutdown();
    }
};
AddWorld<HugeWorld> reg;
}
