// C13: plain vectors, disk-backed vectors and file streams through histories while memory runs out.
#include "alloc.hpp"
#include "simos.hpp"
#include "zoo_util.hpp"
#include <sdsl/int_vector.hpp>
#include <sdsl/int_vector_buffer.hpp>
#include <sdsl/int_vector_mapper.hpp>
#include <sdsl/io.hpp>
#include <sdsl/sfstream.hpp>
#include <sdsl/util.hpp>

using namespace sim;
using namespace sdsl;

namespace
{
struct C13V : World {
    C13V() { name = "C13V"; }
    Plan gen(Rng& g) override
    {
        Plan p;
        p.cfg["width"] = g(5);
        p.cfg["bufcap"] = 64 + g(1ULL << g(12));
        p.cfg["defbuf"] = 1 + g(1ULL << g(12));
        int n = 2 + g(14);
        static const std::vector<std::string> vops = {"make", "make", "resize", "resize", "copy", "copy", "assign", "assign", "massign", "swap", "load", "compress", "expand", "list", "set", "drop"};
        static const std::vector<std::string> bops = {"bopen", "bopen", "bpush", "bpush", "bset", "bget", "bsize", "breset", "bmove", "bmassign", "bswap", "bclose", "bdrop"};
        static const std::vector<std::string> sops = {"sopen", "sopen", "sread", "wopen", "wwrite", "mopen", "mpush", "mdrop"};
        int mix = g(4);
        for (int i = 0; i < n; ++i) {
            const auto& ops = mix == 0 ? vops : mix == 1 ? bops : mix == 2 ? sops : g(3) == 0 ? sops : g(2) ? vops : bops;
            p.op(g.pick(ops), {(int64_t)g(3), (int64_t)g(3), (int64_t)g(1ULL << (1 + g(9))), (int64_t)g(1 << 20)});
        }
        int m = 3 + g(10);
        for (int i = 0; i < m; ++i) p.op("fail", {(int64_t)(g(3) == 0 ? -1 - (int64_t)g(6) : g(1 << 20)), (int64_t)(g(3) == 0)});
        return p;
    }
    template<uint8_t W> struct Hist {
        typedef int_vector<W> IV;
        typedef int_vector_buffer<W> BU;
        typedef int_vector_mapper<W> MA;
        typedef std::vector<uint64_t> M;
        struct V { std::unique_ptr<IV> v; M m; bool known = true; } v[3];
        struct B { std::unique_ptr<BU> b; M m; bool known = true; std::string file; } b[3];
        struct MM { std::unique_ptr<MA> a; M m; bool known = true; } mm[3];
        std::unique_ptr<isfstream> is; size_t ispos = 0; int isfile = 0; bool isknown = false;
        std::unique_ptr<osfstream> ws;
        bool fired_before = false;
        static uint64_t val(uint64_t s, uint64_t i, unsigned w) { uint64_t x = (s + 1) * 0x9e3779b97f4a7c15ULL + i * 0xbf58476d1ce4e5b9ULL; x ^= x >> 29; return w < 64 ? x & ((1ULL << w) - 1) : x; }
        void check(const V& x, const char* op) const
        {
            if (!x.v || !x.known) return;
            bool s = mem.on; mem.on = false;
            if (x.v->size() != x.m.size()) fail("vector", "out of memory: after %s a vector has %llu elements instead of %zu", op, (unsigned long long)x.v->size(), x.m.size());
            for (size_t i = 0; i < x.m.size(); ++i) if ((uint64_t)(*x.v)[i] != x.m[i]) fail("vector", "out of memory: after %s element %zu of a vector (width %d) is wrong", op, i, (int)x.v->width());
            mem.on = s;
        }
        void run(const Plan& p)
        {
            static const std::vector<uint64_t> NO;
            size_t no = 0;
            for (auto& o : p.ops) {
                if (o.name == "fail") continue;
                ++no;
                const std::string& n = o.name; const char* nm = n.c_str();
                const int di = (uint64_t)o.arg(0) % 3, si = (uint64_t)o.arg(1) % 3;
                const size_t k = (uint64_t)o.arg(2) % 4096; const uint64_t s = o.arg(3);
                const unsigned w = W ? W : 1 + s % 64;
                V& d = v[di]; V& t = v[si]; B& q = b[di]; B& u = b[si]; MM& a = mm[di];
                const int64_t f0 = mem.fired;
                bool threw = false, dmod = false, tmod = false, qmod = false, umod = false, amod = false, smod = false;
                try {
                    Inject z;
                    if (n == "make") { dmod = true; d.known = true; d.v.reset(); d.v.reset(new IV(k, val(s, 0, w), w)); d.m.assign(k, val(s, 0, w)); }
                    else if (n == "list") { dmod = true; d.v.reset(); d.v.reset(new IV({(uint64_t)1, (uint64_t)0, (uint64_t)1})); d.known = true; d.m = {1, 0, 1}; }
                    else if (n == "resize") {
                        if (!d.v || !d.known) continue;
                        dmod = true;
                        size_t old = d.m.size();
                        d.v->resize(k);
                        d.m.resize(k);
                        for (size_t i = old; i < k; ++i) (*d.v)[i] = d.m[i] = val(s, i, d.v->width());
                    }
                    else if (n == "copy") { if (!t.v || !t.known || di == si) continue; dmod = true; d.v.reset(); d.v.reset(new IV(*t.v)); d.m = t.m; d.known = true; }
                    else if (n == "assign") { if (!t.v || !t.known || !d.v || di == si) continue; dmod = true; *d.v = *t.v; d.m = t.m; d.known = true; }
                    else if (n == "massign") { if (!t.v || !t.known || !d.v || di == si) continue; dmod = tmod = true; *d.v = std::move(*t.v); d.m = t.m; d.known = true; t.known = false; }
                    else if (n == "swap") { if (!t.v || !d.v || di == si) continue; dmod = tmod = true; d.v->swap(*t.v); d.m.swap(t.m); std::swap(d.known, t.known); }
                    else if (n == "load") {
                        if (!t.v || !t.known || !d.v || di == si) continue;
                        dmod = true;
                        std::string by;
                        { bool on = mem.on; mem.on = false; std::ostringstream os_; t.v->serialize(os_); by = os_.str(); mem.on = on; }
                        std::istringstream in(by);
                        d.v->load(in); d.m = t.m; d.known = true;
                    }
                    else if (n == "compress") { if (!d.v || !d.known || d.m.empty() || W) continue; dmod = true; util::bit_compress(*d.v); }
                    else if (n == "expand") { if (!d.v || !d.known || W) continue; dmod = true; util::expand_width(*d.v, std::max<unsigned>(d.v->width(), w)); }
                    else if (n == "set") { if (!d.v || !d.known || d.m.empty()) continue; (*d.v)[k % d.m.size()] = val(s, 7, d.v->width()); d.m[k % d.m.size()] = val(s, 7, d.v->width()); }
                    else if (n == "drop") { d.v.reset(); d.known = true; d.m.clear(); }
                    // ---- disk-backed vectors
                    else if (n == "bopen") {
                        qmod = true; q.b.reset(); q.m.clear(); q.known = true;
                        q.file = (s & 1 ? "@b" : "/d/b") + std::to_string(no);
                        q.b.reset(new BU(q.file, std::ios::out, 8 + k, w));
                    }
                    else if (n == "bpush") { if (!q.b || !q.known || !q.b->is_open()) continue; qmod = true; for (size_t i = 0; i < k % 40; ++i) { uint64_t x = val(s, i, q.b->width()); q.b->push_back(x); q.m.push_back(x); } }
                    else if (n == "bset") { if (!q.b || !q.known || q.m.empty() || !q.b->is_open()) continue; qmod = true; for (int i = 0; i < 3; ++i) { size_t j = (k * 7 + i * 31) % q.m.size(); uint64_t x = val(s, i, q.b->width()); (*q.b)[j] = x; q.m[j] = x; } }
                    else if (n == "bget") {
                        if (!q.b || !q.known || !q.b->is_open()) continue;
                        qmod = true;
                        for (size_t i = 0; i < q.m.size(); ++i) { uint64_t x = (*q.b)[i]; if (q.b->good() && x != q.m[i]) fail("buffer", "out of memory: element %zu of a disk-backed vector is wrong, and it is good()", i); }
                    }
                    else if (n == "bsize") { if (!q.b || !q.known || !q.b->is_open()) continue; qmod = true; q.b->buffersize(8 + k); }
                    else if (n == "breset") { if (!q.b || !q.known || !q.b->is_open()) continue; qmod = true; q.b->reset(); q.m.clear(); }
                    else if (n == "bmove") { if (!u.b || !u.known || di == si || !u.b->is_open()) continue; qmod = umod = true; q.b.reset(); q.b.reset(new BU(std::move(*u.b))); q.m = u.m; q.known = true; q.file = u.file; u.b.reset(); u.m.clear(); }
                    else if (n == "bmassign") { if (!u.b || !u.known || !q.b || di == si || !u.b->is_open()) continue; qmod = umod = true; *q.b = std::move(*u.b); q.m = u.m; q.known = true; q.file = u.file; u.b.reset(); u.m.clear(); }
                    else if (n == "bswap") { if (!u.b || !u.known || !q.b || !q.known || di == si || !u.b->is_open() || !q.b->is_open()) continue; qmod = umod = true; q.b->swap(*u.b); q.m.swap(u.m); q.file.swap(u.file); }
                    else if (n == "bclose" || n == "bdrop") {
                        if (!q.b) continue;
                        qmod = true;
                        bool kn = q.known && q.b->is_open(), good = q.b->good();
                        uint8_t bw = q.b->width();
                        if (n == "bclose") q.b->close();
                        q.b.reset();
                        if (kn && good && !mem.fired && q.file != "") {
                            bool on = mem.on; mem.on = false;
                            IV x; load_from_file(x, q.file);
                            if (x.size() != q.m.size() || !std::equal(q.m.begin(), q.m.end(), x.begin())) fail("buffer-file", "the file of a disk-backed vector (width %d) is wrong", (int)bw);
                            mem.on = on;
                        }
                        q.m.clear();
                    }
                    // ---- streams and mapped vectors
                    else if (n == "sopen") { smod = true; isfile = s % 3; ispos = 0; if (!is) is.reset(new isfstream(FILES[isfile], std::ios::in | std::ios::binary)); else is->open(FILES[isfile], std::ios::in | std::ios::binary); isknown = true; }
                    else if (n == "sread") {
                        if (!is || !isknown) continue;
                        smod = true;
                        char c[64];
                        size_t left = DATA.size() - ispos, m = std::min<size_t>(left, k % 60);
                        if (m && is->read(c, m)) { if (DATA.compare(ispos, m, c, m) != 0) fail("stream", "out of memory: a file stream read other data"); ispos += m; }
                        else if (m && !(mem.fired > f0 || fired_before)) fail("stream", "reading failed although no allocation failed");
                        else if (m) isknown = false;
                    }
                    else if (n == "wopen") { ws.reset(); ws.reset(new osfstream((s & 1 ? "@w" : "/d/w") + std::to_string(no), std::ios::out | std::ios::binary)); }
                    else if (n == "wwrite") { if (!ws) continue; ws->write(DATA.data(), k % DATA.size()); }
                    else if (n == "mopen") {
                        amod = true; a.a.reset(); a.m.clear(); a.known = true;
                        std::string f = "/d/m" + std::to_string(di);
                        { IV x(k % 50 + 1, val(s, 3, w), w); if (!store_to_file(x, f) && mem.fired == f0) fail("store", "storing failed"); if (mem.fired > f0) { a.known = false; continue; } a.m.assign(k % 50 + 1, val(s, 3, w)); }
                        a.a.reset(new MA(f));
                    }
                    else if (n == "mpush") { if (!a.a || !a.known) continue; amod = true; for (size_t i = 0; i < k % 150; ++i) { uint64_t x = val(s, i, a.a->width()); a.a->push_back(x); a.m.push_back(x); } }
                    else if (n == "mdrop") { a.a.reset(); a.m.clear(); a.known = true; }
                } catch (const std::bad_alloc&) {
                    threw = true;
                } catch (const std::exception& e) {
                    mem.fail_at = 0; mem.on = false;
                    if (mem.fired > f0) fail("wrong-exception", "out of memory in %s surfaces as '%s'", nm, e.what());
                    throw;
                }
                const bool fired = mem.fired > f0;
                if (threw && !fired) fail("bad_alloc", "std::bad_alloc in %s although no allocation failed", nm);
                if (fired) fired_before = true;
                if (threw) {
                    if (dmod) d.known = d.v ? false : true;
                    if (tmod) t.known = false;
                    if (qmod) { if (n == "bopen" || n == "bmove" || n == "bdrop") q.b.reset(); q.known = false; }
                    if (umod) u.known = false;
                    if (amod) { if (n == "mopen") a.a.reset(); a.known = false; }
                    if (smod) { isknown = false; }
                } else if (fired) {
                    if (qmod && q.b && !q.b->good()) q.known = false;
                    if (umod && u.b && !u.b->good()) u.known = false;
                }
                for (auto& x : v) check(x, nm);
                for (auto& x : mm) if (x.a && x.known) {
                    bool on = mem.on; mem.on = false;
                    if (x.a->size() != x.m.size() || !std::equal(x.m.begin(), x.m.end(), x.a->begin())) fail("mapper", "out of memory: after %s a mapped vector is wrong", nm);
                    mem.on = on;
                }
            }
        }
        static std::string FILES[3], DATA;
    };
    template<uint8_t W> void go(const Plan& p, Run& r)
    {
        for (auto& f : Hist<W>::FILES) put_file(f, Hist<W>::DATA);
        mem.reset();
        int64_t N = 0, fds = os.open_fds(), maps = os.open_maps(), hitn = 0;
        auto once = [&](int64_t at, bool sticky) {
            Lib lib;
            mem.fired = 0; mem.sticky = sticky;
            const int64_t c0 = mem.count;
            {
                std::unique_ptr<Hist<W>> h(new Hist<W>);
                mem.fail_at = at ? mem.count + at : 0;
                h->run(p);
                mem.fail_at = 0;
                h.reset();
            }
            bool on = mem.on; mem.on = false;
            for (size_t i = 0; i <= p.ops.size(); ++i) for (const char* s : {"@b", "@w"}) ram_fs::remove(s + std::to_string(i));
            mem.on = on;
            return mem.count - c0;
        };
        once(0, false);
        N = once(0, false);
        r.ev("%lld allocations", (long long)N);
        if (N > 1) --N;
        for (auto& o : p.ops) {
            if (o.name != "fail" || N < 1) continue;
            int64_t at = o.arg(0) >= 0 ? 1 + o.arg(0) % N : N - (-1 - o.arg(0)) % N;
            int64_t live = mem.live_blocks, since = mem.count;
            once(at, o.arg(1) & 1);
            if (mem.fired) { ++hitn; r.hit(o.arg(1) & 1 ? "fault_alloc_sticky" : "fault_alloc"); r.state(mix2(p.ops[0].arg(3), mix2(p.ops.size(), at))); }
            r.ev("at %lld: %lld failed, %lld live", (long long)at, (long long)mem.fired, (long long)(mem.live_blocks - live));
            if (mem.live_blocks != live) fail("leak", "out of memory at allocation %lld of the history leaks memory:%s", (long long)at, mem.describe(since).c_str());
            if ((int64_t)os.open_fds() != fds) fail("leak-fd", "out of memory at allocation %lld of the history leaves a file open", (long long)at);
            if ((int64_t)os.open_maps() != maps) fail("leak-map", "out of memory at allocation %lld of the history leaves a mapping", (long long)at);
        }
        r.nontrivial = hitn > 0;
        r.ev("done %lld", (long long)hitn);
    }
    void exec(const Plan& p, Run& r) override
    {
        Quiet q;
        os.reset(p);
        switch ((uint64_t)p.get("width") % 5) {
            case 0: go<0>(p, r); break;
            case 1: go<1>(p, r); break;
            case 2: go<7>(p, r); break;
            case 3: go<8>(p, r); break;
            default: go<64>(p, r);
        }
    }
};
template<uint8_t W> std::string C13V::Hist<W>::FILES[3] = {"/d/s0", "@s1", "/d/s2"};
template<uint8_t W> std::string C13V::Hist<W>::DATA = []() { std::string s; for (int i = 0; i < 5000; ++i) s.push_back((char)(i * 7 + i / 256)); return s; }();
AddWorld<C13V> w13v;
}
