// C18: construct() under hard faults of the file system: an exception or the index of the text.
#include "simos.hpp"
#include "alloc.hpp"
#include "zoo.hpp"
#include "zoo_util.hpp"
#include "naive.hpp"
#include <sdsl/config.hpp>
#include <sdsl/construct_config.hpp>
#include <sdsl/int_vector.hpp>
#include <sdsl/io.hpp>
#include <sdsl/util.hpp>

using namespace sim;
using zoo::Val;
using zoo::Kind;

namespace
{
struct C18 : World {
    C18() { name = "C18"; }
    int64_t allocs = 0;                            // library allocations of the dry run's construction
    bool wants_dry() override { return true; }
    Plan gen(Rng& g) override
    {
        Plan p;
        const bool bytes = g(4) != 0;
        int64_t k;
        for (;;) {
            k = g(1000000);
            Kind* x = kind_of(k);
            if (!x->cons || (x->name == "k2_treap" ? g(3) : x->bytetext != bytes)) continue;
            break;
        }
        p.cfg["kind"] = k;
        p.cfg["seed"] = g(1 << 20);
        p.cfg["size"] = g(120) == 0 ? g(3000) : g(8) == 0 ? g(6) : 1 + g(1ULL << (2 + g(6)));
        p.cfg["bufcap"] = g(2) ? 0 : 16 + g(1 << 10);
        p.cfg["defbuf"] = g(2) ? 1 << 14 : 8 + g(1 << 9);
        p.cfg["noiseseed"] = g(1 << 30);
        p.cfg["rep"] = g(4);
        p.cfg["del"] = g(2);
        p.cfg["sorter"] = g(2);
        p.cfg["where"] = g(30) ? g(3) : 3;     // ".", "/d", RAM (only the input is on the disk), a directory that does not exist
        p.cfg["again"] = g(3);
        if (g(8) == 0) { p.cfg["input"] = 1 + g(3); p.cfg["cut"] = g(1 << 12); }
        if (g(4) == 0) p.cfg["short"] = g(500);
        return p;
    }
    void place(Plan& p, Rng& g, const Run&) override
    {
        std::string tr = os.trace;
        if (allocs && g(5) == 0) {
            p.cfg["oom_at"] = 1 + (g(2) ? g(allocs) : allocs - 1 - g(std::min<int64_t>(allocs, 40)));
            p.cfg["oom_sticky"] = g(2);
            return;
        }
        if (tr.empty()) return;
        if (p.get("input") && g(2)) return;
        if (g(8) == 0) { p.cfg["capacity"] = g(1ULL << (2 + g(15))); return; }
        const size_t n = g(4) ? 1 : 2 + g(2);
        for (int tries = 0; tries < 20 && p.faults.size() < n; ++tries) {
            int64_t at = (int64_t)g(tr.size());
            if (g(2)) {
                std::string kinds = "wixor";
                char c = kinds[g(kinds.size())];
                size_t f = tr.find(c, at);
                if (f == std::string::npos) f = tr.find(c);
                if (f == std::string::npos) continue;
                at = f;
            }
            std::string k;
            switch (tr[at]) {
                case 'w': k = g.pick(std::vector<std::string>{"write_eio", "write_enospc", "write_enospc_sticky", "write_torn"}); break;
                case 's': k = "seek_fail"; break;
                case 'o': case 'i': k = "open_fail"; break;
                case 'x': k = "close_fail"; break;
                case 'r': k = g(2) ? "read_eio" : "read_eio_sticky"; break;
                case 'f': k = "stat_fail"; break;
                default: continue;
            }
            p.faults.push_back({k, at, k == "open_fail" ? (g(2) ? 13 : 28) : (int64_t)g(1 << 20)});
        }
    }
    static int rep_of(Kind* k, int64_t a)
    {
        static const int reps[] = {1, 0, 4, 'd'};
        int rep = k->bytetext ? reps[a % 2] : reps[1 + a % 3];
        if (k->name == "lcp_vlc(int)") rep = 0;
        else if (k->name.compare(0, 4, "lcp_") == 0) rep = 1;
        return rep;
    }
    void exec(const Plan& p, Run& r) override
    {
        Quiet q;
        os.reset(p);
        mem.reset();
        allocs = 0;
        Kind* k = kind_of(p.get("kind"));
        const char* kn = k->name.c_str();
        const bool treap = k->name == "k2_treap";
        r.hit("kind_" + k->name);
        VP good(k->build(p.get("seed"), (unsigned)p.get("size")));
        const uint64_t dig = good->digest(k->nq);
        const std::string bytes = ser(*good);
        good.reset();
        static const char* dirs[] = {".", "/d", "@", "/nodir"};
        const std::string dir = dirs[p.get("where") % 4];
        std::unique_ptr<sdsl::cache_config> cfg(new sdsl::cache_config(p.get("del"), dir, "my"));
        const int input = (int)p.get("input");       // 1 missing, 2 cut, 3 cannot be written
        zoo::How h;
        h.file = "/d/input"; h.rep = rep_of(k, p.get("rep")); h.cfg = cfg.get();
        bool damaged = false;
        std::map<std::string, std::string> ins;
        h.put = [&](const std::string& f, const std::string& b) {
            if (input == 1 && !damaged) { damaged = true; return; }
            put_file(f, b);
            if (input == 2 && !damaged && h.rep == 0 && b.size()) { damaged = true; os.files[f]->data.resize(p.get("cut") % b.size()); }
            if (input == 3) os.files[f]->unwritable = true;
            ins[f] = os.files[f]->data;
        };
        auto inputs = [&](const char* when) {
            for (auto& x : ins) {
                if (!there(x.first)) fail("input-gone", "%s: %s the input %s is gone", kn, when, x.first.c_str());
                if (os.files[norm_path(x.first.c_str())]->data != x.second) fail("input", "%s: %s the input %s has changed", kn, when, x.first.c_str());
            }
            ins.clear();
        };
        bool inject = true;
        h.run = [&](const std::function<void()>& f) {
            sdsl::construct_config::byte_algo_sa = p.get("sorter") ? sdsl::SE_SAIS : sdsl::LIBDIVSUFSORT;
            struct Back { ~Back() { sdsl::construct_config::byte_algo_sa = sdsl::LIBDIVSUFSORT; } } back;
            if (!inject) { f(); return; }
            Inject i;
            mem.count = 0; mem.fired = 0;
            mem.fail_at = p.get("oom_at");
            mem.sticky = p.get("oom_sticky");
            struct Stop { ~Stop() { mem.fail_at = 0; mem.sticky = false; } } stop;
            Lib l;
            f();
        };
        auto con = [&](std::string& what) {
            VP v;
            what.clear();
            zoo::how = &h;
            try { v.reset(k->build(p.get("seed"), (unsigned)p.get("size"))); }
            catch (const std::exception& e) { what = e.what(); if (what.empty()) what = "?"; }
            zoo::how = nullptr;
            return v;
        };
        auto right = [&](const VP& v, const char* which, const std::string& because) {
            if (v->digest(k->nq) != dig) fail("wrong", "%s: %s returns an index that is not the one of the text%s", kn, which, because.c_str());
            if (ser(*v) != bytes) fail("bytes", "%s: %s returns an index with other bytes than a quiet construction%s", kn, which, because.c_str());
        };
        std::string what;
        VP v = con(what);
        allocs = mem.count;
        inputs("after a construction");
        const bool oom = mem.fired > 0;
        const std::string because = oom ? " after a failed allocation" : os.errors_fired || !os.last_fault.empty() ? " after " + os.last_fault : "";
        if (oom) r.hit(p.get("oom_sticky") ? "fault_alloc_sticky" : "fault_alloc");
        const bool nodir = dir == "/nodir";
        r.ev(v ? "built" : "throws");
        r.hit(v ? "built" : "throws");
        if (os.errors_fired || damaged || oom) r.hit(v ? "built_despite_fault" : "reported");
        r.state(mix2(p.get("kind") % 1000, mix2(p.faults.empty() ? 0 : p.faults[0].at, v ? 1 : 0)));
        if (v) {
            if (damaged && input == 1) fail("missing", "%s: a construction without an input returns an index", kn);
            right(v, "construction", because);
        } else if (!os.errors_fired && !damaged && !nodir && !oom) fail("throws", "%s: no file operation failed, but construction throws: %s", kn, what.c_str());
        v.reset();
        r.nontrivial = os.errors_fired || damaged || nodir || oom;
        // the cause is gone: the same program or another one constructs again in the same cache
        const int again = (int)p.get("again");
        if (!again || nodir) return;
        inject = false;
        for (auto& f : os.files) f.second->unwritable = f.second->unreadable = false;
        if (again == 2) { cfg.reset(new sdsl::cache_config(p.get("del"), dir, "my")); h.cfg = cfg.get(); }
        if (!treap && there(h.file)) os.files.erase(norm_path(h.file.c_str()));
        v = con(what);
        if (!v) fail("again-throws", "%s: repeated construction throws: %s", kn, what.c_str());
        right(v, "repeated construction", because);
        inputs("after a repeated construction");
        r.hit("repeated");
    }
};
AddWorld<C18> a18;
}
