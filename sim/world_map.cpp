// C06: memory-mapped integer vector against a plain vector, with failing open/stat/truncate/mmap/read calls.
#include "simos.hpp"
#include "filecmp.hpp"
#include <sdsl/int_vector_mapper.hpp>

using namespace sim;
using namespace sdsl;

namespace
{
struct Closed { std::vector<uint64_t> m; unsigned width; bool plain; };

template<uint8_t W>
struct Exec {
    typedef int_vector_mapper<W, std::ios_base::in | std::ios_base::out> rw_t;
    typedef int_vector_mapper<W, std::ios_base::in> ro_t;
    const Plan& p; Run& r;
    static const int S = 3;
    struct Slot {
        std::unique_ptr<rw_t> b;
        std::unique_ptr<const ro_t> c;
        bool tmp = false, plain = false;
        unsigned width = 64;
        std::string file;
        std::vector<uint64_t> m;
        bool open() const { return b || c; }
    } s[S];
    std::map<std::string, Closed> closed;
    Exec(const Plan& p_, Run& r_) : p(p_), r(r_) {}
    bool is_plain() { return p.get("plain") && W >= 8 && (W & (W - 1)) == 0; }
    uint64_t mask(const Slot& x, uint64_t v) { return W == 1 ? v != 0 : x.width < 64 ? v & ((1ULL << x.width) - 1) : v; }
    static size_t header(bool plain) { return plain ? 0 : W ? 8 : 9; }

    void check_file(const std::string& f, const Closed& c, const char* what)
    {
        if (!os.content(f)) fail("file-lost", "after %s the file is gone", what);
        std::string got = *os.content(f), want = vec_file(c.m, c.width, W != 0, c.plain);
        int64_t d = vec_file_diff(got, want, (uint64_t)c.m.size() * c.width, header(c.plain));
        if (d >= 0) fail("wrong-file", "after %s the file has %zu bytes, should have %zu; first difference at byte %lld (%zu elements of width %u, %s)", what, got.size(), want.size(), (long long)d, c.m.size(), c.width, c.plain ? "plain" : "serialised");
    }
    void check_all(Slot& x, const char* what)
    {
        if (!x.open()) return;
        uint64_t sz = x.b ? x.b->size() : x.c->size();
        if (sz != x.m.size()) fail("wrong-size", "after %s size() is %llu, should be %zu", what, (unsigned long long)sz, x.m.size());
        unsigned w = x.b ? x.b->width() : x.c->width();
        if (w != x.width) fail("wrong-width", "after %s width() is %u, should be %u", what, w, x.width);
        if ((x.b ? x.b->empty() : x.c->empty()) != x.m.empty()) fail("wrong-empty", "after %s empty() is wrong", what);
        for (size_t i = 0; i < x.m.size(); ++i) {
            uint64_t v = x.b ? (uint64_t)(*x.b)[i] : (uint64_t)(*x.c)[i];
            if (v != x.m[i]) fail("wrong-value", "after %s element %zu of %zu is %llu, should be %llu (width %u)", what, i, x.m.size(), (unsigned long long)v, (unsigned long long)x.m[i], x.width);
        }
    }
    void account(const char* what)
    {
        int live = 0;
        for (auto& x : s) live += x.open();
        if (os.open_fds() != live) fail("fd-leak", "after %s %d descriptors are open for %d mapped vectors", what, os.open_fds(), live);
        if (os.open_maps() != live) fail("map-leak", "after %s %d mappings exist for %d mapped vectors", what, os.open_maps(), live);
        if (os.bad_unmap) fail("bad-unmap", "after %s a mapping was unmapped with the wrong length", what);
    }
    void do_close(Slot& x, const char* what)
    {
        if (!x.open()) return;
        bool wr = (bool)x.b;
        x.b.reset(); x.c.reset();
        r.ev("closed");
        if (x.tmp) {
            if (os.exists(x.file)) fail("temp-left", "the file of a temporary mapped vector is still there after %s", what);
        } else {
            closed[x.file] = Closed{x.m, x.width, x.plain};
            check_file(x.file, closed[x.file], what);
        }
        (void)wr;
        x.m.clear(); x.tmp = false;
        account(what);
    }
    bool in_use(const std::string& f, bool ro)
    {
        for (auto& y : s) if (y.open() && y.file == f && !(ro && y.c)) return true;
        return false;
    }
    // runs an operation that may be hit by faults; true if it threw
    template<class F> bool risky(const char* what, F f)
    {
        int e0 = os.errors_fired;
        try { Inject z; f(); return false; }
        catch (std::exception& e) {
            r.ev("%s threw", what);
            if (os.errors_fired == e0) fail("unexpected-exception", "%s threw though no file operation failed: %s", what, e.what());
            r.hit("probe_reported");
            return true;
        }
    }
    std::string fname(int64_t i) { return "/d/m" + std::to_string((uint64_t)i % 4); }
    void run()
    {
        for (auto& o : p.ops) {
            Slot& x = s[(uint64_t)o.arg(0) % S];
            r.ev("op %s %lld %lld %lld", o.name.c_str(), (long long)o.arg(0), (long long)o.arg(1), (long long)o.arg(2));
            r.state(mix2(std::hash<std::string>()(o.name), x.m.size() * 4 + x.open() * 2 + (bool)x.c));
            one(o, x);
            account(o.name.c_str());
        }
        for (auto& x : s) { check_all(x, "end"); do_close(x, "final close"); }
        for (auto& c : closed) check_file(c.first, c.second, "end");
        for (auto& f : os.files) if (!closed.count(f.first) && f.first.find("tmp_mapper") == std::string::npos) { auto it = created.find(f.first); if (it == created.end()) fail("stray-file", "file %s was left behind", f.first.c_str()); }
    }
    std::set<std::string> created;
    void one(const Op& o, Slot& x)
    {
        const std::string& n = o.name;
        if (n == "put") {            // a file written by someone else
            std::string f = fname(o.arg(1));
            if (in_use(f, false)) return;
            Closed c;
            c.plain = is_plain();
            c.width = W ? W : 1 + (uint64_t)o.arg(3) % 64;
            Rng g(o.arg(4));
            for (int64_t i = 0, k = std::max<int64_t>(c.plain, (uint64_t)o.arg(2) % 300); i < k; ++i) c.m.push_back(c.width < 64 ? g.next() & ((1ULL << c.width) - 1) : g.next());
            os.put(f, vec_file(c.m, c.width, W != 0, c.plain));
            closed[f] = c;
            return;
        }
        if (n == "open" || n == "openro") {
            bool ro = n == "openro";
            std::string f = fname(o.arg(1));
            auto c = closed.find(f);
            if (c == closed.end() || in_use(f, ro)) return;
            if (c->second.plain && c->second.m.empty()) return;
            do_close(x, "close before open");
            Closed cl = c->second;
            bool threw = risky("opening", [&]() {
                if (ro) x.c.reset(new ro_t(f, cl.plain)); else x.b.reset(new rw_t(f, cl.plain));
            });
            if (threw) { check_file(f, cl, "failed opening"); return; }
            x.m = cl.m; x.width = cl.width; x.plain = cl.plain; x.file = f; x.tmp = false;
            check_all(x, "opening");
            return;
        }
        if (n == "create") {
            if (is_plain()) return;
            bool tmp = o.arg(2) & 1;
            std::string f = fname(o.arg(1));
            if (!tmp && in_use(f, false)) return;
            do_close(x, "close before create");
            if (!tmp) { closed.erase(f); created.insert(f); }
            std::set<std::string> before;
            for (auto& k : os.files) before.insert(k.first);
            bool threw = risky("creating", [&]() {
                if (tmp) { cache_config cfg(true, "/d", "x"); x.b.reset(new rw_t(temp_file_buffer<W>::create(cfg))); }
                else x.b.reset(new rw_t(write_out_buffer<W>::create(f)));
            });
            if (threw) return;
            x.m.clear(); x.width = W ? W : 64; x.plain = false; x.tmp = tmp; x.file = f;
            if (tmp) { x.file = x.b->file_name(); if (!os.exists(x.file) || before.count(x.file)) fail("temp-name", "temporary vector uses %s, which is not a new file", x.file.c_str()); }
            check_all(x, "creation");
            return;
        }
        if (n == "move") {
            Slot& d = s[(uint64_t)o.arg(1) % S];
            if (&d == &x || !x.b) return;
            if ((o.arg(2) & 1) && d.b) {
                Closed c{d.m, d.width, d.plain}; std::string df = d.file; bool dt = d.tmp;
                *d.b = std::move(*x.b);
                if (!dt) { closed[df] = c; }
                x.b.reset();
                if (!dt) check_file(df, c, "move assignment onto a mapped vector");
                else if (os.exists(df)) fail("temp-left", "the file of a temporary mapped vector is still there after it was assigned to");
            } else {
                do_close(d, "close before move");
                d.b.reset(new rw_t(std::move(*x.b)));
                x.b.reset();
            }
            d.m = x.m; d.width = x.width; d.plain = x.plain; d.file = x.file; d.tmp = x.tmp;
            x.m.clear(); x.tmp = false;
            check_all(d, "move");
            if (d.b->file_name() != d.file) fail("file-name", "file_name() of a moved vector is wrong");
            return;
        }
        if (!x.open()) return;
        if (n == "close") { do_close(x, "close"); return; }
        uint64_t sz = x.m.size();
        uint64_t val = mask(x, (uint64_t)o.arg(2));
        if (n == "check") { check_all(x, "history"); return; }
        if (x.c) {
            if (sz) { uint64_t i = (uint64_t)o.arg(1) % sz; uint64_t v = *(x.c->begin() + i); if (v != x.m[i]) fail("wrong-value", "iterator of a read-only mapped vector gives %llu at %llu", (unsigned long long)v, (unsigned long long)i); }
            return;
        }
        rw_t& b = *x.b;
        if (n == "set") {
            if (!sz) return;
            uint64_t i = (uint64_t)o.arg(1) % sz;
            if (o.arg(3) & 1) b[i] = val; else *(b.begin() + i) = val;
            x.m[i] = val;
        } else if (n == "push") {
            for (int64_t k = 0; k < 1 + o.arg(1) % 20; ++k) {
                uint64_t v = mask(x, val + k * 7919);
                if (risky("push_back", [&]() { b.push_back(v); })) { check_all(x, "failed push_back"); return; }
                x.m.push_back(v);
            }
            check_all(x, "push_back");
        } else if (n == "resize") {
            uint64_t ns = (uint64_t)o.arg(1) % (o.arg(3) % 4 == 0 ? 3000 : 200);
            if (x.plain && ns == 0) ns = 1;
            if (risky("resize", [&]() { b.resize(ns); })) { check_all(x, "failed resize"); return; }
            if (b.size() != ns) fail("wrong-size", "after resize(%llu) size() is %llu", (unsigned long long)ns, (unsigned long long)b.size());
            x.m.resize(ns, 0);
            for (uint64_t i = sz; i < ns; ++i) { uint64_t v = mask(x, val ^ i * 31); b[i] = v; x.m[i] = v; }
            check_all(x, "resize");
        } else if (n == "width") {
            if (W || sz) return;
            x.width = 1 + (uint64_t)o.arg(1) % 64;
            b.width(x.width);
        } else if (n == "scan") {
            uint64_t i = 0;
            for (auto it = b.begin(); it != b.end(); ++it, ++i) if ((uint64_t)*it != x.m[i]) fail("wrong-value", "iterator gives a wrong value at %llu", (unsigned long long)i);
            if (i != sz) fail("wrong-size", "iterating visits %llu of %llu elements", (unsigned long long)i, (unsigned long long)sz);
        } else if (n == "cmp") {
            int_vector<W> iv(sz, 0, x.width);
            for (uint64_t i = 0; i < sz; ++i) iv[i] = x.m[i];
            bool eq = b == iv;
            if (!eq) fail("compare", "the vector differs from an equal int_vector");
        }
    }
};

struct MapWorld : World {
    MapWorld() { name = "C06"; }
    Plan gen(Rng& g) override
    {
        Plan p;
        static const std::vector<int> widths = {0, 0, 0, 1, 8, 16, 32, 64, 13};
        p.cfg["tw"] = g.pick(widths);
        p.cfg["plain"] = g(2);
        p.cfg["faults"] = g(5) ? g(4) : 0;
        if (g(2)) p.cfg["short"] = 50 + g(700);
        if (g(3) == 0) p.cfg["eintr"] = 20 + g(100);
        p.cfg["noiseseed"] = g(1 << 30);
        if (g(6) == 0) p.cfg["capacity"] = g(9000);
        int nops = (int)g.range(5, g_tier ? 70 : 30);
        for (int i = 0; i < 3; ++i) p.op("put", {0, i, (int64_t)g(300), (int64_t)g(64), (int64_t)g(1 << 30)});
        p.op("open", {0, 0}); p.op("open", {1, 1});
        std::vector<std::string> mix = {"set", "set", "set", "resize", "resize", "resize", "open", "open", "openro", "create", "create", "move", "move", "close", "close", "check", "scan", "cmp", "width", "push", "put"};
        std::vector<std::string> m2;
        for (auto& x : mix) if (g(6)) m2.push_back(x);
        if (m2.empty()) m2 = mix;
        int pushes = 0;
        for (int i = 0; i < nops; ++i) {
            std::string n = g.pick(m2);
            if (n == "push" && ++pushes > 2) n = "set";
            int64_t sl = (int64_t)g(3);
            if (n == "put") p.op(n, {sl, (int64_t)g(4), (int64_t)g(300), (int64_t)g(64), (int64_t)g(1 << 30)});
            else p.op(n, {sl, (int64_t)g(5000), (int64_t)(g.next() >> 1), (int64_t)g(64)});
        }
        return p;
    }
    bool wants_dry() override { return true; }
    void place(Plan& p, Rng& g, const Run&) override
    {
        std::string tr = os.trace;
        for (int64_t i = 0; i < p.get("faults") && !tr.empty(); ++i) {
            // prefer the calls of the mapping itself
            int64_t at = g(tr.size());
            for (int t = 0; t < 6 && (tr[at] == 'r' || tr[at] == 'x' || tr[at] == 's'); ++t) at = g(tr.size());
            std::string k; int64_t arg = 0;
            switch (tr[at]) {
                case 'r': k = "read_eio"; break;
                case 'w': k = "write_enospc"; break;
                case 'o': case 'i': k = "open_fail"; arg = 24; break;
                case 'f': k = "stat_fail"; break;
                case 't': k = "truncate_fail"; break;
                case 'm': k = "mmap_fail"; break;
                default: continue;
            }
            p.faults.push_back({k, at, arg});
        }
    }
    template<uint8_t W> void go(const Plan& p, Run& r) { Exec<W> e(p, r); e.run(); }
    void exec(const Plan& p, Run& r) override
    {
        os.reset(p);
        switch (p.get("tw")) {
            case 0: go<0>(p, r); break;
            case 1: go<1>(p, r); break;
            case 8: go<8>(p, r); break;
            case 13: go<13>(p, r); break;
            case 16: go<16>(p, r); break;
            case 32: go<32>(p, r); break;
            default: go<64>(p, r);
        }
        r.nontrivial = r.nontrivial || os.errors_fired;
        r.hit("sim_ns", os.clock_ns - 1000000000ULL * 1000);
        r.hit("io_calls", os.total_calls);
        std::string tr = os.trace;
        os.shutdown();
        os.trace = tr;
    }
};
AddWorld<MapWorld> reg;
}
