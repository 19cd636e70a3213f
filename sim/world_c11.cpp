// C11: threads that construct, store and load different structures at the same time with default settings.
#include "sched.hpp"
#include "simos.hpp"
#include "zoo.hpp"
#include "zoo_util.hpp"
#include <sdsl/config.hpp>
#include <sdsl/int_vector_buffer.hpp>
#include <sdsl/int_vector_mapper.hpp>
#include <sdsl/io.hpp>
#include <sdsl/memory_management.hpp>
#include <sdsl/ram_fs.hpp>
#include <algorithm>
#include <sstream>

using namespace sim;
using zoo::Val;
using zoo::Kind;

namespace
{

struct C11 : World {
    C11() { name = "C11"; }
    bool wants_dry() override { return true; }
    void place(Plan& p, Rng& g, const Run&) override { Sched::place(p, g); p.cfg.erase("skip"); }
    Plan gen(Rng& g) override
    {
        Plan p;
        Sched::gen(p, g);
        if (p.get("strategy") == 0) p.cfg["rate"] = p.get("rate") * 20;
        int nt = 2 + (int)(g(4) == 0);
        p.cfg["threads"] = nt;
        p.cfg["monitor"] = g(4) == 0;
        p.cfg["bufcap"] = g(3) ? 4096 : 128 + g(1 << 12);
        p.cfg["defbuf"] = 64 + g(1 << 11);
        bool same = g(2);
        int64_t kind = 0, via = g(8), rep = g(4), size0 = -1;
        const bool samesize = same && g(2);       // nothing but the contents tells the texts apart
        for (int t = 0, n; t < nt; ++t) {
            n = 1 + (int)(g(3) == 0) + (int)(g(4) == 0);
            for (int i = 0; i < n; ++i) {
                int w = (int)g(10);
                if (w < 7) {
                    if (!(same && (t || i))) for (;;) { kind = g(1000000); Kind* k = kind_of(kind); if (k->cons || g(4) == 0) break; }
                    Kind* k = kind_of(kind);
                    int64_t size = g(5) == 0 ? g(4) : k->cat == 2 ? 4 + g(60) : 4 + g(100);
                    if (samesize) { if (size0 < 0) size0 = size; else size = size0; }
                    // thread, kind, seed, size, via, representation
                    p.op("con", {t, kind, (int64_t)g(1 << 16), size, same ? via : (int64_t)g(8), same && g(8) ? rep : (int64_t)g(4)});
                    if (g(3) == 0) p.op("id", {t, 1 + (int64_t)g(4)});
                }
                else if (w == 7) p.op("id", {t, 1 + (int64_t)g(6)});
                else if (w == 8) p.op("buf", {t, (int64_t)g(60), (int64_t)g(2), (int64_t)(8 + g(64))});
                else p.op("tmp", {t, 1 + (int64_t)g(3)});
            }
        }
        return p;
    }
    void exec(const Plan& p, Run& r) override
    {
        Quiet q;
        os.reset(p);
        const int nt = (int)p.get("threads");
        struct Out { const Op* o; std::string bytes; uint64_t dig; };
        std::vector<std::vector<Out>> out(nt);
        std::vector<std::vector<uint64_t>> ids(nt);
        std::vector<std::set<std::string>> keep(nt);            // files the threads leave on purpose
        std::vector<std::function<void()>> fns;
        if (p.get("monitor")) sdsl::memory_monitor::start();
        for (int t = 0; t < nt; ++t) fns.push_back([&, t]() {
            int no = 0;
            for (auto& o : p.ops) {
                ++no;
                if (o.arg(0) != t) continue;
                const std::string mine = "t" + std::to_string(t) + "_" + std::to_string(no);
                if (o.name == "id") { for (int64_t i = 0; i < o.arg(1); ++i) ids[t].push_back(sdsl::util::id()); }
                else if (o.name == "con") {
                    Kind* k = kind_of(o.arg(1));
                    const int via = (int)(o.arg(4) % 8);
                    zoo::How h;
                    std::unique_ptr<sdsl::cache_config> cfg;
                    VP v;
                    static const int reps[] = {1, 0, 4, 'd'};
                    h.rep = k->bytetext ? reps[o.arg(5) % 2] : reps[1 + o.arg(5) % 3];
                    if (k->name == "lcp_vlc(int)") h.rep = 0;
                    else if (k->name.compare(0, 4, "lcp_") == 0) h.rep = 1;
                    if (via == 7) h.file = "@in" + mine;
                    else if (via >= 2) h.file = "/d/in" + mine;
                    if (via == 3 || via == 4) cfg.reset(new sdsl::cache_config(true, via == 3 ? "/d" : "@"));
                    if (via == 5) cfg.reset(new sdsl::cache_config(true, "."));
                    h.cfg = cfg.get();
                    h.put = [&](const std::string& f, const std::string& b) { keep[t].insert(f); sdsl::osfstream s(f, std::ios::binary | std::ios::trunc | std::ios::out); s.write(b.data(), b.size()); };
                    h.run = [](const std::function<void()>& f) { f(); };
                    zoo::how = k->cons ? &h : nullptr;
                    struct Off { ~Off() { zoo::how = nullptr; } } off;
                    v.reset(k->build(o.arg(2), (unsigned)o.arg(3)));
                    zoo::how = nullptr;
                    // keep it in a file of its own and read it back
                    std::string f = (o.arg(2) & 1 ? "@st" : "/d/st") + mine;
                    if (o.arg(2) & 2) {
                        keep[t].insert(f);
                        if (!v->store_file(f)) fail("store", "%s: thread %d: storing failed", k->name.c_str(), t);
                        v.reset(k->fresh());
                        if (!v->load_file(f)) fail("load", "%s: thread %d: loading its own file failed", k->name.c_str(), t);
                    }
                    out[t].push_back({&o, ser(*v), v->digest(k->nq)});
                } else if (o.name == "buf") {
                    std::string f = (o.arg(2) ? "@b" : "/d/b") + mine;
                    keep[t].insert(f);
                    sdsl::int_vector_buffer<> b(f, std::ios::out, o.arg(3), 17);
                    for (int64_t i = 0; i < o.arg(1); ++i) b.push_back(i * 31 + t);
                    for (int64_t i = 0; i < o.arg(1); ++i) if (b[i] != (uint64_t)(i * 31 + t)) fail("buffer", "thread %d: element %lld of its own disk-backed vector is wrong", t, (long long)i);
                } else {
                    std::vector<std::unique_ptr<sdsl::int_vector_mapper<64, std::ios_base::out | std::ios_base::in>>> m;
                    for (int64_t i = 0; i < o.arg(1); ++i) {
                        auto x = sdsl::temp_file_buffer<64>::create();
                        for (int k = 0; k < 5; ++k) x.push_back(t * 1000 + i * 10 + k);
                        for (int k = 0; k < 5; ++k) if (x[k] != (uint64_t)(t * 1000 + i * 10 + k)) fail("mapped", "thread %d: element of its own temporary mapped vector is wrong", t);
                    }
                }
            }
        });
        sched.run(p, fns);
        if (p.get("monitor")) sdsl::memory_monitor::stop();
        std::set<uint64_t> all;
        for (auto& v : ids) for (auto x : v) if (!all.insert(x).second) fail("duplicate-id", "util::id() handed out %llu twice", (unsigned long long)x);
        for (int t = 0; t < nt; ++t) for (auto& x : out[t]) {
            Kind* k = kind_of(x.o->arg(1));
            r.hit("kind_" + k->name);
            VP ref(k->build(x.o->arg(2), (unsigned)x.o->arg(3)));
            r.ev("t%d %s %llx", t, k->name.c_str(), (unsigned long long)x.dig);
            if (ref->digest(k->nq) != x.dig) fail("answers", "%s: thread %d (way %lld) obtained an index that answers differently from the one it obtains alone", k->name.c_str(), t, (long long)x.o->arg(4));
            if (ser(*ref) != x.bytes) fail("bytes", "%s: thread %d (way %lld) obtained an index with other bytes than alone", k->name.c_str(), t, (long long)x.o->arg(4));
        }
        std::set<std::string> ok;
        for (auto& s : keep) for (auto& f : s) ok.insert(f);
        for (auto& f : os.files) { std::string n = f.first; if (!ok.count(n)) fail("left-file", "file %s was left behind", n.c_str()); }
        for (auto& n : ok) if (n[0] != '@' && !os.files.count(n)) fail("lost-file", "file %s of another thread disappeared", n.c_str());
        for (auto& n : ok) if (n[0] == '@' && !sdsl::ram_fs::exists(n)) fail("lost-file", "RAM file %s of another thread disappeared", n.c_str());
        if (os.open_fds()) fail("fd-leak", "%d descriptors left", os.open_fds());
        if (os.open_maps()) fail("map-leak", "%d mappings left", os.open_maps());
        r.nontrivial = r.counters.count("preemptions") && r.counters["preemptions"] > 0;
    }
};
AddWorld<C11> a11;
}
