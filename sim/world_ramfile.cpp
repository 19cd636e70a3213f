// C07: the same history of stream and file operations on RAM files and on disk files, in lockstep.
#include "simos.hpp"
#include <sdsl/sfstream.hpp>
#include <sdsl/util.hpp>
#include <sdsl/int_vector.hpp>
#include <sdsl/io.hpp>

using namespace sim;
using namespace sdsl;

namespace
{
struct Exec {
    const Plan& p; Run& r;
    static const int S = 3, F = 4;
    struct Slot {
        std::unique_ptr<isfstream> in[2];
        std::unique_ptr<osfstream> out[2];
        int file = -1;            // file it is open on, -1 none
        bool app = false;         // append mode: the position between writes is implementation-defined on disk
    } s[S];
    Exec(const Plan& p_, Run& r_) : p(p_), r(r_) {}
    static std::string nm(int k, int f) { return std::string(k ? "@" : "/d/") + "f" + std::to_string(f); }
    bool used(int f, bool by_writer_only = false)
    {
        for (auto& x : s) if (x.file == f && (!by_writer_only || x.out[0])) return true;
        return false;
    }
    template<class A> void same(const char* what, const A& d, const A& m)
    {
        r.ev("%s", what);
        if (d == m) return;
        std::ostringstream a, b; a << d; b << m;
        fail(std::string("differs:") + what, "%s: the disk file gives %.300s, the RAM file gives %.300s", what, a.str().c_str(), b.str().c_str());
    }
    static std::ios_base::openmode mode(int64_t m)
    {
        std::ios_base::openmode o = std::ios_base::openmode(0);
        if (m & 1) o |= std::ios_base::in;
        if (m & 2) o |= std::ios_base::out;
        if (m & 4) o |= std::ios_base::trunc;
        if (m & 8) o |= std::ios_base::app;
        if (m & 16) o |= std::ios_base::ate;
        if (m & 32) o |= std::ios_base::binary;
        return o;
    }
    std::string content(int k, int f)
    {
        if (k) { auto& c = ram_fs::content(nm(1, f)); return std::string(c.begin(), c.end()); }
        auto* c = os.content(nm(0, f)); return c ? *c : std::string();
    }
    void check_files(const char* when)
    {
        for (int f = 0; f < F; ++f) {
            if (used(f)) continue;
            bool d = os.exists(nm(0, f)), m = ram_fs::exists(nm(1, f));
            if (d != m) fail("differs:existence", "after %s file %d exists on disk: %d, in RAM: %d", when, f, d, m);
            if (!d) continue;
            std::string a = content(0, f), b = content(1, f);
            if (a != b) {
                size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
                fail("differs:content", "after %s file %d has %zu bytes on disk and %zu in RAM, first difference at %zu", when, f, a.size(), b.size(), i);
            }
        }
    }
    static std::ios_base::seekdir way(int64_t w) { return w == 0 ? std::ios_base::beg : w == 1 ? std::ios_base::cur : std::ios_base::end; }
    static std::string data(int64_t seed, size_t n) { std::string o(n, 0); Rng g(seed); for (auto& c : o) c = g(4) ? 'a' + g(6) : g(2) ? '\n' : (char)g(256); return o; }

    void run()
    {
        for (auto& o : p.ops) {
            r.ev("op %s %lld %lld %lld", o.name.c_str(), (long long)o.arg(0), (long long)o.arg(1), (long long)o.arg(2));
            Slot& x = s[(uint64_t)o.arg(0) % S];
            one(o, x);
            int st = x.in[0] ? (int)x.in[0]->rdstate() : x.out[0] ? (int)x.out[0]->rdstate() : 99;
            r.state(mix2(std::hash<std::string>()(o.name), mix2(st, x.file >= 0 ? content(1, x.file).size() : 77)));
        }
        for (auto& x : s) close(x);
        check_files("end");
        for (int f = 0; f < F; ++f) {
            same("file_size", util::file_size(nm(0, f)), util::file_size(nm(1, f)));
            bool q[2]; for (int k = 0; k < 2; ++k) { isfstream i(nm(k, f)); q[k] = i.is_open(); }
            same("openable", q[0], q[1]);
        }
    }
    void state(Slot& x, const char* what)
    {
        if (x.in[0]) { same((std::string(what) + ":state").c_str(), (int)x.in[0]->rdstate(), (int)x.in[1]->rdstate()); same("is_open", x.in[0]->is_open(), x.in[1]->is_open()); same("valid", (void*)*x.in[0] != nullptr, (void*)*x.in[1] != nullptr); }
        if (x.out[0]) { same((std::string(what) + ":state").c_str(), (int)x.out[0]->rdstate(), (int)x.out[1]->rdstate()); same("is_open", x.out[0]->is_open(), x.out[1]->is_open()); same("valid", (void*)*x.out[0] != nullptr, (void*)*x.out[1] != nullptr); }
    }
    void close(Slot& x)
    {
        if (!x.in[0] && !x.out[0]) return;
        for (int k = 0; k < 2; ++k) { Inject z; if (x.in[k]) x.in[k]->close(); if (x.out[k]) x.out[k]->close(); }
        state(x, "close");
        x.file = -1;
        check_files("close");
    }
    void drop(Slot& x)
    {
        for (int k = 0; k < 2; ++k) { Inject z; x.in[k].reset(); x.out[k].reset(); }
        x.file = -1;
        check_files("destruction");
    }
    void one(const Op& o, Slot& x)
    {
        const std::string& n = o.name;
        int64_t a1 = o.arg(1), a2 = o.arg(2);
        if (n == "openw" || n == "openr") {      // slot, file, mode, reuse stream object
            bool w = n == "openw";
            int f = (uint64_t)a1 % F;
            // an open file is only opened again by further readers
            if (w || (a2 & 14) ? used(f) : used(f, true)) return;
            auto m = mode(a2);
            bool reuse = (o.arg(3) & 1) && x.file < 0 && (w ? (bool)x.out[0] : (bool)x.in[0]);
            if (!reuse) { close(x); drop(x); }
            bool ok[2];
            for (int k = 0; k < 2; ++k) {
                Inject z;
                if (w) {
                    if (reuse) ok[k] = x.out[k]->open(nm(k, f), m) != nullptr;
                    else { x.out[k].reset(new osfstream(nm(k, f), m)); ok[k] = (void*)*x.out[k] != nullptr; }
                } else {
                    if (reuse) ok[k] = x.in[k]->open(nm(k, f), m) != nullptr;
                    else { x.in[k].reset(new isfstream(nm(k, f), m)); ok[k] = (void*)*x.in[k] != nullptr; }
                }
            }
            same("open", ok[0], ok[1]);
            state(x, "open");
            x.file = ok[0] ? f : -1;
            x.app = a2 & 8;
            // a stream that lacks the flag of its own direction is only opened
            if (ok[0] && !(w ? a2 & 10 : a2 & 1)) { close(x); drop(x); }
            return;
        }
        if (n == "rename") {
            int f = (uint64_t)a1 % F, g = (uint64_t)a2 % F;
            if (used(f) || used(g)) return;
            int rc[2]; for (int k = 0; k < 2; ++k) { Inject z; rc[k] = sdsl::rename(nm(k, f), nm(k, g)); }
            same("rename", rc[0] == 0, rc[1] == 0);
            check_files("rename");
            return;
        }
        if (n == "remove") {
            int f = (uint64_t)a1 % F;
            if (used(f)) return;
            int rc[2]; for (int k = 0; k < 2; ++k) { Inject z; rc[k] = sdsl::remove(nm(k, f)); }
            same("remove", rc[0] == 0, rc[1] == 0);
            check_files("remove");
            return;
        }
        if (n == "size") {
            int f = (uint64_t)a1 % F;
            if (used(f, true)) return;
            same("file_size", util::file_size(nm(0, f)), util::file_size(nm(1, f)));
            return;
        }
        if (n == "objio") {          // the library's own store and load
            int f = (uint64_t)a1 % F;
            if (used(f)) return;
            bit_vector bv((uint64_t)a2 % 700); { Rng g(a2); for (size_t i = 0; i < bv.size(); ++i) bv[i] = g(2); }
            bool ok[2]; bit_vector b[2];
            for (int k = 0; k < 2; ++k) { Inject z; ok[k] = store_to_file(bv, nm(k, f)) && load_from_file(b[k], nm(k, f)); }
            same("store and load", ok[0], ok[1]);
            same("loaded object", b[0] == bv, b[1] == bv);
            check_files("store_to_file");
            return;
        }
        if (n == "close") { close(x); return; }
        if (n == "drop") { drop(x); return; }
        if (n == "clear") { for (int k = 0; k < 2; ++k) { if (x.in[k] && x.file >= 0) x.in[k]->clear(); if (x.out[k] && x.file >= 0) x.out[k]->clear(); } state(x, "clear"); return; }
        if (x.app && (n == "tell" || n == "seekrel")) return;
        if (x.out[0]) {
            if (x.file < 0) return;      // closed stream
            for (int k = 0; k < 2; ++k) {
                auto& st = *x.out[k];
                Inject z;
                if (n == "write") { std::string d = data(a2, (uint64_t)a1 % 3 ? a1 % 60 : a1 % 9000); st.write(d.data(), d.size()); }
                else if (n == "put") st.put((char)a1);
                else if (n == "flush") st.flush();
                else if (n == "seek") st.seekp(std::streamoff(a1 % 400));
                else if (n == "seekrel") st.seekp(std::streamoff(a1 % 300 - 150), way(a2 % 3));
            }
            if (n == "tell") {
                int64_t t[2]; for (int k = 0; k < 2; ++k) { Inject z; t[k] = (int64_t)static_cast<std::ostream&>(*x.out[k]).tellp(); }
                same("tellp", t[0], t[1]);
            }
            state(x, n.c_str());
            return;
        }
        if (x.in[0]) {
            if (x.file < 0) return;
            std::string got[2]; int64_t ret[2] = {0, 0};
            for (int k = 0; k < 2; ++k) {
                auto& st = *x.in[k];
                Inject z;
                if (n == "read") { got[k].resize((uint64_t)a1 % 3 ? a1 % 60 : a1 % 9000); st.read(&got[k][0], got[k].size()); ret[k] = st.gcount(); got[k].resize(ret[k]); }
                else if (n == "get") ret[k] = st.get();
                else if (n == "peek") ret[k] = st.peek();
                else if (n == "getline") { std::getline(st, got[k]); }
                else if (n == "ignore") { st.ignore(a1 % 200, a2 % 3 ? EOF : '\n'); ret[k] = st.gcount(); }
                else if (n == "seek") st.seekg(std::streampos(a1 % 400));
                else if (n == "seekrel") st.seekg(std::streamoff(a1 % 300 - 150), way(a2 % 3));
                else if (n == "tell") ret[k] = (int64_t)st.tellg();
                else if (n == "rewind") { st.clear(); st.seekg(0); }
            }
            same(n.c_str(), ret[0], ret[1]);
            same((n + ":data").c_str(), got[0], got[1]);
            state(x, n.c_str());
        }
    }
};

struct RamWorld : World {
    RamWorld() { name = "C07"; }
    Plan gen(Rng& g) override
    {
        Plan p;
        if (g(3)) p.cfg["short"] = 50 + g(700);
        if (g(3) == 0) p.cfg["eintr"] = 20 + g(100);
        p.cfg["noiseseed"] = g(1 << 30);
        int nops = (int)g.range(8, g_tier ? 100 : 50);
        static const std::vector<std::string> mix = {"write", "write", "write", "read", "read", "read", "openw", "openw", "openr", "openr", "openr", "close", "close", "seek", "seek", "seekrel", "seekrel", "tell", "tell", "get", "peek", "getline", "ignore", "put", "flush", "clear", "rewind", "rename", "remove", "size", "objio", "drop"};
        std::vector<std::string> m2;
        for (auto& x : mix) if (g(7)) m2.push_back(x);
        // usual modes often, every combination sometimes
        static const std::vector<int64_t> wm = {2, 2, 2, 34, 6, 10, 8, 18, 3, 3, 19, 7, 35, 11, 9};
        static const std::vector<int64_t> rm = {1, 1, 1, 33, 33, 17, 3, 19, 49};
        auto openw = [&](int64_t sl, int64_t f) { p.op("openw", {sl, f, g(8) ? g.pick(wm) : (int64_t)g(64), (int64_t)g(2)}); };
        auto openr = [&](int64_t sl, int64_t f) { p.op("openr", {sl, f, g(8) ? g.pick(rm) : (int64_t)g(64), (int64_t)g(2)}); };
        for (int f = 0; f < 2; ++f) { p.op("openw", {f, f, 2, 0}); p.op("write", {f, (int64_t)g(9000), (int64_t)g(1 << 30)}); if (g(4)) p.op("close", {f}); }
        for (int i = 0; i < nops; ++i) {
            std::string n = g.pick(m2);
            int64_t sl = g(3);
            if (n == "openw") openw(sl, g(4));
            else if (n == "openr") openr(sl, g(4));
            else p.op(n, {sl, (int64_t)g(100000), (int64_t)g(1 << 30)});
        }
        return p;
    }
    void exec(const Plan& p, Run& r) override
    {
        os.reset(p);
        for (int f = 0; f < Exec::F; ++f) ram_fs::remove(Exec::nm(1, f));
        { Exec e(p, r); e.run(); }
        if (os.open_fds()) fail("fd-leak", "%d descriptors left open", os.open_fds());
        r.nontrivial = true;
        r.hit("sim_ns", os.clock_ns - 1000000000ULL * 1000);
        r.hit("io_calls", os.total_calls);
        os.shutdown();
    }
};
AddWorld<RamWorld> reg;
}
