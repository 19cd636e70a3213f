// C04/C05: disk-backed integer vector against a plain vector, over operation histories, under legal
// transfer splitting (C04) and under failing file operations (C05).
#include "simos.hpp"
#include <sdsl/int_vector_buffer.hpp>

using namespace sim;
using namespace sdsl;

namespace
{
// what the file of a closed vector has to contain: independent of the library's own writer
std::string expect_file(const std::vector<uint64_t>& v, unsigned w, bool fixed, bool plain)
{
    std::string o;
    uint64_t bits = (uint64_t)v.size() * w;
    if (!plain) {
        for (int i = 0; i < 8; ++i) o.push_back((char)(bits >> (8 * i)));
        if (!fixed) o.push_back((char)w);
    }
    size_t base = o.size();
    size_t nb = plain ? (bits + 7) / 8 : (bits + 63) / 64 * 8;
    o.resize(base + nb, '\0');
    for (size_t i = 0; i < v.size(); ++i) {
        uint64_t x = w < 64 ? v[i] & ((1ULL << w) - 1) : v[i];
        uint64_t b = (uint64_t)i * w;
        for (unsigned k = 0; k < w; ++k) if ((x >> k) & 1) o[base + (b + k) / 8] |= (char)(1u << ((b + k) % 8));
    }
    return o;
}

template<uint8_t W>
struct Exec {
    typedef int_vector_buffer<W> buf;
    const Plan& p;
    Run& r;
    bool faulty;
    static const int S = 3;
    struct Slot {
        std::unique_ptr<buf> b;
        bool open = false, tainted = false, plain = false, touched = true;   // touched: not only read since it was opened
        unsigned width = 8;
        std::string file;
        std::vector<uint64_t> m;
    } s[S];
    // files that were closed properly: their model content
    struct Closed { std::vector<uint64_t> m; unsigned width; bool plain; };
    std::map<std::string, Closed> closed;

    Exec(const Plan& p_, Run& r_, bool f) : p(p_), r(r_), faulty(f) {}

    // a vector of bits stores (value != 0), like int_vector<1>; the other widths store the low bits
    uint64_t mask(const Slot& x, uint64_t v) { return W == 1 ? v != 0 : x.width < 64 ? v & ((1ULL << x.width) - 1) : v; }
    // the vector tells us that something failed
    bool reported(Slot& x, const char* when)
    {
        if (x.tainted) return true;
        if (x.b->good() && x.b->is_open()) return false;
        if (os.errors_fired == 0) fail("good-lost", "%s: vector says it is not good (good=%d open=%d) though no file operation failed", when, (int)x.b->good(), (int)x.b->is_open());
        x.tainted = true;
        r.hit("probe_reported_not_good");
        return true;
    }
    void check_val(Slot& x, const char* what, uint64_t idx, uint64_t got, uint64_t want)
    {
        r.ev("%s[%llu]=%llu", what, (unsigned long long)idx, (unsigned long long)got);
        if (got == want) return;
        if (reported(x, what)) return;
        fail(os.errors_fired ? "silent-wrong-value" : "wrong-value", "%s at index %llu of %zu (width %u, buffer of %llu bytes) gives %llu, should be %llu%s%s",
             what, (unsigned long long)idx, x.m.size(), x.width, (unsigned long long)x.b->buffersize(), (unsigned long long)got, (unsigned long long)want,
             os.errors_fired ? "; a file operation failed but the vector says it is good: " : "", os.last_fault.c_str());
    }
    void check_meta(Slot& x, const char* what)
    {
        if (reported(x, what)) return;
        if (x.b->size() != x.m.size()) fail(os.errors_fired ? "silent-wrong-size" : "wrong-size", "after %s size() is %llu, should be %zu", what, (unsigned long long)x.b->size(), x.m.size());
        if (x.b->width() != x.width) fail(os.errors_fired ? "silent-wrong-width" : "wrong-width", "after %s width() is %u, should be %u", what, x.b->width(), x.width);
    }
    void check_file(const std::string& file, const Closed& c, const char* what)
    {
        std::string want = expect_file(c.m, c.width, W != 0, c.plain), got;
        if (is_ram_file(file)) {
            if (ram_fs::exists(file)) { auto& v = ram_fs::content(file); got.assign(v.begin(), v.end()); }
        } else if (os.content(file)) got = *os.content(file);
        if (got != want) {
            size_t i = 0;
            while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
            fail(os.errors_fired ? "silent-wrong-file" : "wrong-file", "after %s the file has %zu bytes, should have %zu; first difference at byte %zu%s%s", what, got.size(), want.size(), i,
                 os.errors_fired ? "; a file operation failed but the vector stayed good: " : "", os.last_fault.c_str());
        }
    }
    void do_close(Slot& x, bool remove, const char* what)
    {
        if (!x.open) return;
        const size_t w0 = writes();
        { Inject z; x.b->close(remove); }
        if (!x.touched && !remove) {
            if (writes() != w0) fail("reader-writes", "close() of a vector that was only read writes to its file");
            check_file(x.file, Closed{x.m, x.width, x.plain}, "close of a vector that was only read");
            r.hit("only_read");
        }
        bool bad = x.tainted;
        // after close() the streams are closed: only good() says whether closing worked
        if (!bad && !x.b->good()) {
            if (os.errors_fired == 0) fail("good-lost", "close() of a healthy vector leaves it not good");
            bad = true;
            r.hit("probe_reported_not_good");
        }
        if (x.b->is_open()) fail("still-open", "is_open() is true after close()");
        x.open = false;
        closed.erase(x.file);
        if (remove) {
            bool there = is_ram_file(x.file) ? ram_fs::exists(x.file) : os.exists(x.file);
            if (there && os.errors_fired == 0) fail("not-removed", "close(true) leaves the file in place");
        } else if (!bad) {
            closed[x.file] = Closed{x.m, x.width, x.plain};
            check_file(x.file, closed[x.file], what);
        }
        x.tainted = false;
        x.m.clear();
        x.b.reset();
    }
    static size_t writes() { return (size_t)std::count(os.trace.begin(), os.trace.end(), 'w'); }
    std::string fname(int64_t i)
    {
        bool ram = p.get("ram") == 2 ? (i & 1) : p.get("ram") == 1;
        return (ram ? "@f" : "/d/f") + std::to_string(i);
    }
    void run()
    {
        for (auto& o : p.ops) {
            if (o.name == "step_limit") continue;
            Slot& x = s[(uint64_t)o.arg(0) % S];
            r.ev("op %s %lld %lld %lld", o.name.c_str(), (long long)o.arg(0), (long long)o.arg(1), (long long)o.arg(2));
            if (x.open) r.state(mix2(std::hash<std::string>()(o.name), mix2(x.m.size() ? x.m.size() * x.width / 64 : 0, x.b->buffersize())));
            one(o, x);
        }
        for (int i = 0; i < S; ++i) {
            if (s[i].open && (i & 1) == 0) verify_all(s[i]);
            do_close(s[i], false, "final close");
        }
        // reopen every closed file with the library and compare everything
        for (auto& c : closed) {
            check_file(c.first, c.second, "end");
            if (os.errors_fired) continue;
            buf b(c.first, std::ios::in, 64, c.second.width, c.second.plain);
            if (b.size() != c.second.m.size()) fail("reopen-size", "reopened vector has size %llu, should be %zu", (unsigned long long)b.size(), c.second.m.size());
            for (size_t i = 0; i < c.second.m.size(); ++i)
                if ((uint64_t)b[i] != c.second.m[i]) fail("reopen-value", "reopened vector differs at %zu", i);
        }
        if (os.open_fds()) fail("fd-leak", "%d descriptors still open after all vectors are closed", os.open_fds());
    }
    void verify_all(Slot& x)
    {
        for (size_t i = 0; i < x.m.size() && x.open && !x.tainted; ++i) {
            uint64_t v; { Inject z; v = (*x.b)[i]; }
            check_val(x, "scan", i, v, x.m[i]);
        }
    }
    void one(const Op& o, Slot& x)
    {
        const std::string& n = o.name;
        if (n == "open") {           // slot, file, mode, buffer size, width
            std::string f = fname(o.arg(1) % 4);
            for (auto& y : s) if (y.open && y.file == f) return;   // one vector per file at a time
            do_close(x, false, "close before open");
            bool in = o.arg(2) & 1;
            auto c = closed.find(f);
            if (in && c == closed.end()) in = false;
            unsigned w = W ? W : 1 + (uint64_t)o.arg(4) % 64;
            bool plain = p.get("plain") && W >= 8 && (W & (W - 1)) == 0;
            if (in) { w = c->second.width; plain = c->second.plain; }
            { Inject z; x.b.reset(new buf(f, in ? std::ios::in : std::ios::out, (uint64_t)o.arg(3), in && W == 0 && (o.arg(2) & 2) ? 64 : w, plain)); }
            x.open = true; x.tainted = false; x.plain = plain; x.width = w; x.file = f;
            x.m.clear();
            if (in) x.m = c->second.m;
            x.touched = !in;
            closed.erase(f);
            check_meta(x, "open");
            if (x.tainted) { x.b.reset(); x.open = false; x.tainted = false; x.m.clear(); }
            return;
        }
        if (n == "move") {           // dst = std::move(src)
            Slot& d = s[(uint64_t)o.arg(1) % S];
            if (!x.open || &d == &x) return;
            if (o.arg(2) & 1) {      // move construction
                do_close(d, false, "close before move");
                { Inject z; d.b.reset(new buf(std::move(*x.b))); }
            } else {
                if (d.open) { // move assignment closes the target
                    std::string df = d.file; Closed c{d.m, d.width, d.plain}; bool dt = d.tainted || reported(d, "move assignment"); int e0 = os.errors_fired;
                    { Inject z; *d.b = std::move(*x.b); }
                    closed.erase(df);
                    if (!dt && os.errors_fired == e0) { closed[df] = c; check_file(df, c, "move assignment onto an open vector"); }
                } else {
                    if (!d.b) d.b.reset(new buf());
                    Inject z; *d.b = std::move(*x.b);
                }
            }
            d.open = true; d.tainted = x.tainted; d.plain = x.plain; d.width = x.width; d.file = x.file; d.m = x.m; d.touched = x.touched;
            if (x.b->is_open()) fail("moved-from-open", "a moved-from vector is still open");
            if (x.b->size() != 0) fail("moved-from-size", "a moved-from vector has size %llu", (unsigned long long)x.b->size());
            x.b.reset(); x.open = false; x.tainted = false; x.m.clear();
            check_meta(d, "move");
            return;
        }
        if (n == "swap") {
            Slot& d = s[(uint64_t)o.arg(1) % S];
            if (!d.b || !x.b || !x.open || !d.open) return;
            { Inject z; x.b->swap(*d.b); }
            if (&d != &x) { std::swap(x.open, d.open); std::swap(x.tainted, d.tainted); std::swap(x.plain, d.plain); std::swap(x.width, d.width); std::swap(x.file, d.file); std::swap(x.m, d.m); std::swap(x.touched, d.touched); }
            check_meta(x, "swap"); check_meta(d, "swap");
            return;
        }
        if (!x.open) return;
        buf& b = *x.b;
        uint64_t sz = x.m.size();
        uint64_t val = mask(x, (uint64_t)o.arg(2));
        if (n == "close") { do_close(x, false, "close"); return; }
        if (n == "remove") { do_close(x, true, "close(true)"); return; }
        const bool reads = n == "get" || n == "scan" || n == "bufsize" || (n == "upd" && (uint64_t)o.arg(3) % 8 == 7);
        if (!reads) x.touched = true;
        struct Check {
            const bool on; const size_t w0;
            ~Check() noexcept(false) { if (on && writes() != w0 && !std::uncaught_exception()) fail("reader-writes", "reading a vector writes to its file"); }
        } readonly{reads && !x.touched, writes()};
        if (x.tainted) {             // must only not crash
            Inject z;
            if (n == "push") b.push_back(val);
            else if (n == "get" && b.size() && b.is_open()) (void)(uint64_t)b[(uint64_t)o.arg(1) % std::min<uint64_t>(b.size(), 64)];
            return;
        }
        if (n == "push") {
            for (int64_t k = 0; k <= o.arg(1) % 40; ++k) {
                uint64_t v = mask(x, val + k * 7919);
                { Inject z; b.push_back(v); }
                x.m.push_back(v);
            }
            check_meta(x, "push_back");
        } else if (n == "set") {
            if (!sz) return;
            uint64_t i = (uint64_t)o.arg(1) % sz;
            { Inject z; b[i] = val; }
            x.m[i] = val;
            check_meta(x, "assignment");
        } else if (n == "setfar") {  // beyond the end: elements in between are 0
            uint64_t i = sz + (uint64_t)o.arg(1) % 300;
            { Inject z; b[i] = val; }
            x.m.resize(i + 1, 0);
            x.m[i] = val;
            check_meta(x, "assignment beyond the end");
        } else if (n == "get") {
            if (!sz) return;
            uint64_t i = (uint64_t)o.arg(1) % sz, v;
            { Inject z; v = b[i]; }
            check_val(x, "get", i, v, x.m[i]);
        } else if (n == "upd") {
            if (!sz) return;
            uint64_t i = (uint64_t)o.arg(1) % sz, old = x.m[i], v = 0;
            Inject z;
            switch ((uint64_t)o.arg(3) % 8) {
                case 0: ++b[i]; x.m[i] = mask(x, old + 1); break;
                case 1: v = b[i]++; check_val(x, "post-increment", i, v, old); x.m[i] = mask(x, old + 1); break;
                case 2: --b[i]; x.m[i] = mask(x, old - 1); break;
                case 3: v = b[i]--; check_val(x, "post-decrement", i, v, old); x.m[i] = mask(x, old - 1); break;
                case 4: b[i] += val; x.m[i] = mask(x, old + val); break;
                case 5: b[i] -= val; x.m[i] = mask(x, old - val); break;
                case 6: {            // copy one element onto another
                    uint64_t j = (uint64_t)o.arg(2) % sz;
                    auto rj = b[j]; b[i] = rj; x.m[i] = x.m[j]; break;
                }
                default: {
                    uint64_t j = (uint64_t)o.arg(2) % sz;
                    bool lt = b[i] < b[j], eq = b[i] == b[j];
                    if ((lt != (x.m[i] < x.m[j]) || eq != (x.m[i] == x.m[j])) && !reported(x, "compare")) fail("compare", "comparison of elements %llu and %llu is wrong", (unsigned long long)i, (unsigned long long)j);
                }
            }
            check_meta(x, "compound update");
        } else if (n == "scan") {
            if (!sz) return;
            uint64_t a = (uint64_t)o.arg(1) % sz, k = (uint64_t)o.arg(2) % 60;
            Inject z;
            auto it = o.arg(3) & 2 ? b.end() - (int64_t)(sz - a) : b.begin() + (int64_t)a;
            if (o.arg(3) & 1) {
                auto e = b.end();
                if ((uint64_t)(e - it) != sz - a) fail("iterator-distance", "end() - iterator is wrong");
                for (; it != e && k; ++it, ++a, --k) { uint64_t v = *it; check_val(x, "iterator", a, v, x.m[a]); if (x.tainted) return; }
            } else {
                for (uint64_t q = 0; q <= k; ++q) {
                    uint64_t v = *it; check_val(x, "backward iterator", a, v, x.m[a]); if (x.tainted) return;
                    if (a == 0) break;
                    --it; --a;
                }
            }
        } else if (n == "fill") {    // write through iterators
            if (!sz) return;
            uint64_t a = (uint64_t)o.arg(1) % sz, k = (uint64_t)o.arg(3) % 50;
            Inject z;
            auto it = b.begin();
            it += a;
            for (; k && a < sz; --k, ++a) { uint64_t v = mask(x, val + a * 31); *it++ = v; x.m[a] = v; }
            check_meta(x, "iterator writes");
        } else if (n == "bufsize") {
            { Inject z; b.buffersize((uint64_t)o.arg(1)); }
            check_meta(x, "buffersize");
            if (!x.tainted && b.buffersize() < (uint64_t)o.arg(1)) fail("buffersize", "buffersize() is %llu after setting %lld", (unsigned long long)b.buffersize(), (long long)o.arg(1));
        } else if (n == "reset") {
            { Inject z; b.reset(); }
            x.m.clear();
            check_meta(x, "reset");
        }
    }
};

struct IvbWorld : World {
    bool faulty;
    IvbWorld(const char* n, bool f) : faulty(f) { name = n; }
    Plan gen(Rng& g) override
    {
        Plan p;
        static const std::vector<int> widths = {0, 0, 0, 1, 8, 16, 32, 64, 13};
        p.cfg["tw"] = g.pick(widths);
        p.cfg["ram"] = faulty ? 0 : (int64_t)g(3);
        p.cfg["plain"] = g(2);
        if (g(3)) { p.cfg["short"] = g(2) ? 50 + g(300) : 800; }
        if (g(3) == 0) p.cfg["eintr"] = 20 + g(200);
        p.cfg["noiseseed"] = g(1 << 30);
        if (faulty && g(4) == 0) p.cfg["capacity"] = g(6000);
        int nops = (int)g.range(4, g_tier ? 90 : 45);
        std::vector<int64_t> bufs = {0, 1, 8, 9, 16, 24, 40, 64, 100, 128, 1000, 4096};
        for (int i = 0; i < 2; ++i) p.op("open", {i, i, 0, g.pick(bufs), (int64_t)g(64)});
        std::vector<std::string> mix = {"push", "push", "push", "set", "set", "set", "get", "get", "upd", "upd", "scan", "fill", "setfar", "bufsize", "move", "swap", "close", "open", "open", "reset", "remove"};
        // swarm: leave out some operations in this run
        std::vector<std::string> m2;
        for (auto& x : mix) if (g(5)) m2.push_back(x);
        if (m2.empty()) m2 = mix;
        for (int i = 0; i < nops; ++i) {
            std::string n = g.pick(m2);
            int64_t sl = (int64_t)g(3) ? (int64_t)g(2) : (int64_t)g(3);
            if (n == "open") p.op(n, {sl, (int64_t)g(4), (int64_t)g(4), g.pick(bufs), (int64_t)g(64)});
            else if (n == "bufsize") p.op(n, {sl, g.pick(bufs)});
            else if (n == "move") p.op(n, {sl, (int64_t)g(3), (int64_t)g(2)});
            else if (n == "swap") p.op(n, {sl, (int64_t)g(3)});
            else if (n == "close" || n == "reset" || n == "remove") { if (g(3) == 0) p.op(n, {sl}); }
            else p.op(n, {sl, (int64_t)g(1000), (int64_t)(g.next() >> 1), (int64_t)g(64)});
        }
        return p;
    }
    bool wants_dry() override { return faulty; }
    void place(Plan& p, Rng& g, const Run&) override
    {
        int n = 1 + (int)g(3);
        std::string tr = os.trace;
        for (int i = 0; i < n && !tr.empty(); ++i) {
            int64_t at = g(tr.size());
            std::string k;
            switch (tr[at]) {
                case 'r': k = g(3) ? "read_eio" : "read_eio_sticky"; break;
                case 'w': k = g.pick(std::vector<std::string>{"write_eio", "write_enospc", "write_enospc_sticky", "write_torn"}); break;
                case 's': k = "seek_fail"; break;
                case 'o': case 'i': k = "open_fail"; break;
                case 'x': k = "close_fail"; break;
                default: continue;
            }
            p.faults.push_back({k, at, k == "open_fail" ? 24 : (int64_t)g(1 << 20)});
        }
    }
    template<uint8_t W> void go(const Plan& p, Run& r) { Exec<W> e(p, r, faulty); e.run(); }
    void exec(const Plan& p, Run& r) override
    {
        os.reset(p);
        for (auto i : {1, 3}) ram_fs::remove("@f" + std::to_string(i));
        switch (p.get("tw")) {
            case 0: go<0>(p, r); break;
            case 1: go<1>(p, r); break;
            case 8: go<8>(p, r); break;
            case 13: go<13>(p, r); break;
            case 16: go<16>(p, r); break;
            case 32: go<32>(p, r); break;
            default: go<64>(p, r);
        }
        if (!faulty && p.get("ram")) r.nontrivial = true;
        r.hit("sim_ns", os.clock_ns - 1000000000ULL * 1000);
        r.hit("io_calls", os.total_calls);
        std::string tr = os.trace;
        os.shutdown();
        os.trace = tr;
    }
};
struct Reg { Reg() { add_world(new IvbWorld("C04", false)); add_world(new IvbWorld("C05", true)); } } reg;
}
