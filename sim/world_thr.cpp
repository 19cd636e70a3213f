// C08, C12: threads of one process on the RAM file store and on shared structures.
#include "sched.hpp"
#include "simos.hpp"
#include "zoo.hpp"
#include <sdsl/io.hpp>
#include <sdsl/ram_fs.hpp>
#include <sdsl/sfstream.hpp>
#include <algorithm>
#include <array>
#include <sstream>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace sim;
using zoo::Val;
using zoo::Kind;
typedef std::unique_ptr<Val> VP;

namespace
{
std::vector<Kind*> sorted_kinds()
{
    std::vector<Kind*> k = zoo::kinds();
    std::sort(k.begin(), k.end(), [](Kind* a, Kind* b) { return a->name < b->name; });
    return k;
}
Kind* kind_of(int64_t i) { static std::vector<Kind*> k = sorted_kinds(); return k[(uint64_t)i % k.size()]; }
struct Null : std::streambuf {
    int overflow(int c) override { return c == EOF ? 0 : c; }
    std::streamsize xsputn(const char*, std::streamsize n) override { return n; }
};
struct Quiet { Quiet() { static Null sink; std::cerr.rdbuf(&sink); std::cout.rdbuf(&sink); } };

// ------------------------------------------------------------------ C08
struct C08 : World {
    C08() { name = "C08"; }
    bool wants_dry() override { return true; }
    void place(Plan& p, Rng& g, const Run&) override { Sched::place(p, g); }
    Plan gen(Rng& g) override
    {
        Plan p;
        Sched::gen(p, g);
        int nt = 2 + (int)(g(3) == 0);
        p.cfg["threads"] = nt;
        p.cfg["init"] = g(8);
        int n = 2 + g(nt == 2 ? 9 : 8);
        for (int i = 0; i < n; ++i) {
            // thread, kind, name, other name, size
            int k = (int)g(11);
            p.op("op", {(int64_t)(i < nt ? i : g(nt)), k, (int64_t)g(3), (int64_t)g(3), (int64_t)(1 + g(4) * 37 + g(3))});
        }
        return p;
    }
    struct Ev { int th, kind, a, b; int64_t arg, res, inv, ret; };
    typedef std::array<int64_t, 3> State;       // size of each shared file, -1 missing
    static bool apply(State& s, const Ev& e)
    {
        switch (e.kind) {
            case 0: s[e.a] = e.arg; return true;
            case 1: return e.res == (s[e.a] >= 0);
            case 2: return e.res == std::max<int64_t>(s[e.a], 0);
            case 3: { bool was = s[e.a] >= 0; s[e.a] = -1; return e.res == (was ? 0 : -1); }
            default: { if (s[e.a] < 0) return e.res == -1; if (e.a != e.b) { s[e.b] = s[e.a]; s[e.a] = -1; } return e.res == 0; }
        }
    }
    static bool lin(const std::vector<Ev>& ev, uint64_t mask, State s, std::set<std::pair<uint64_t, State>>& seen, const State& fin)
    {
        if (mask == (1ULL << ev.size()) - 1) return s == fin;
        if (!seen.insert({mask, s}).second) return false;
        int64_t first_ret = INT64_MAX;
        for (size_t i = 0; i < ev.size(); ++i) if (!((mask >> i) & 1)) first_ret = std::min(first_ret, ev[i].ret);
        for (size_t i = 0; i < ev.size(); ++i) {
            if ((mask >> i) & 1) continue;
            if (ev[i].inv > first_ret) continue;
            State t = s;
            if (apply(t, ev[i]) && lin(ev, mask | 1ULL << i, t, seen, fin)) return true;
        }
        return false;
    }
    static std::string pat(int64_t n, char c) { std::string s; for (int64_t i = 0; i < n; ++i) s.push_back((char)(c + i % 23)); return s; }
    void exec(const Plan& p, Run& r) override
    {
        Quiet q;
        os.reset(p);
        static const std::string nm[] = {"@a", "@b", "@c"};
        const int nt = (int)p.get("threads");
        State init;
        for (int i = 0; i < 3; ++i) {
            init[i] = -1;
            sdsl::ram_fs::remove(nm[i]);
            if ((p.get("init") >> i) & 1) { std::string d = pat(11 + i, 'a'); sdsl::ram_fs::store(nm[i], {d.begin(), d.end()}); init[i] = 11 + i; }
        }
        std::vector<std::vector<Ev>> h(nt);
        std::vector<std::function<void()>> fns;
        for (int t = 0; t < nt; ++t) fns.push_back([&, t]() {
            std::string priv = "@priv" + std::to_string(t), model;
            bool have = false;
            int salt = 0;
            for (auto& o : p.ops) {
                if (o.arg(0) != t) continue;
                int k = (int)o.arg(1), a = (int)(o.arg(2) % 3), b = (int)(o.arg(3) % 3);
                if (k < 7) {
                    Ev e{t, k < 2 ? 0 : k == 2 ? 1 : k == 3 ? 2 : k == 4 ? 3 : 4, a, b, o.arg(4), 0, 0, 0};
                    std::string d = pat(o.arg(4), 'A');
                    sched_point();
                    e.inv = sched.now();
                    switch (e.kind) {
                        case 0: sdsl::ram_fs::store(nm[a], sdsl::ram_fs::content_type(d.begin(), d.end())); break;
                        case 1: e.res = sdsl::ram_fs::exists(nm[a]); break;
                        case 2: e.res = sdsl::util::file_size(nm[a]); break;
                        case 3: e.res = sdsl::remove(nm[a]); break;
                        default: e.res = sdsl::rename(nm[a], nm[b]);
                    }
                    e.ret = sched.now();
                    sched_point();
                    h[t].push_back(e);
                } else {
                    // a file of its own
                    ++salt;
                    if (k == 7) { sdsl::osfstream out(priv, std::ios::binary | std::ios::trunc | std::ios::out); model = pat(o.arg(4) + salt, (char)('a' + t)); have = true; out.write(model.data(), model.size()); out.close(); if (out.fail()) fail("private-file", "thread %d: writing its own RAM file failed", t); }
                    else if (k == 8) {
                        sdsl::isfstream in(priv, std::ios::binary | std::ios::in);
                        if ((bool)in != have) fail("private-file", "thread %d: its own RAM file is %s", t, have ? "missing" : "there although it was not created");
                        std::string got(model.size() + 10, 0);
                        if (have) { in.read(&got[0], got.size()); got.resize(in.gcount()); if (got != model) fail("private-file", "thread %d: its own RAM file has other content (%zu bytes, expected %zu)", t, got.size(), model.size()); }
                    }
                    else if (k == 9) { int x = sdsl::remove(priv); if (x != (have ? 0 : -1)) fail("private-file", "thread %d: removing its own RAM file returned %d", t, x); have = false; model.clear(); }
                    else { std::string other = priv + "x"; int x = sdsl::rename(priv, other); if (x != (have ? 0 : -1)) fail("private-file", "thread %d: renaming its own RAM file returned %d", t, x); if (have) { if (sdsl::util::file_size(other) != model.size()) fail("private-file", "thread %d: its renamed RAM file has another size", t); x = sdsl::rename(other, priv); if (x) fail("private-file", "thread %d: renaming back returned %d", t, x); } }
                    if (have && sdsl::util::file_size(priv) != model.size()) fail("private-file", "thread %d: size of its own RAM file is %zu, expected %zu", t, sdsl::util::file_size(priv), model.size());
                }
            }
        });
        sched.run(p, fns);
        std::vector<Ev> ev;
        for (auto& v : h) ev.insert(ev.end(), v.begin(), v.end());
        State fin;
        for (int i = 0; i < 3; ++i) fin[i] = sdsl::ram_fs::exists(nm[i]) ? (int64_t)sdsl::ram_fs::file_size(nm[i]) : -1;
        for (auto& e : ev) r.ev("t%d op%d %d %d -> %lld [%lld,%lld]", e.th, e.kind, e.a, e.b, (long long)e.res, (long long)e.inv, (long long)e.ret);
        std::set<std::pair<uint64_t, State>> seen;
        if (!lin(ev, 0, init, seen, fin)) fail("not-linearizable", "no order of the %zu operations consistent with real time explains their results and the final content", ev.size());
        bool overlap = false;
        for (auto& x : ev) for (auto& y : ev) if (x.th != y.th && x.inv < y.ret && y.inv < x.ret) overlap = true;
        for (auto& c : r.counters) if (c.first == "preemptions" && c.second > 0) overlap = true;
        r.nontrivial = overlap;
        if (os.open_fds()) fail("fd-leak", "descriptors left");
    }
};

// ------------------------------------------------------------------ C12
struct C12 : World {
    C12() { name = "C12"; }
    bool wants_dry() override { return true; }
    void place(Plan& p, Rng& g, const Run&) override { Sched::place(p, g); }
    Plan gen(Rng& g) override
    {
        Plan p;
        Sched::gen(p, g);
        for (;;) { p.cfg["kind"] = g(1000000); Kind* k = kind_of(p.cfg["kind"]); if (k->cat != 2 || g(3)) break; }
        Kind* k = kind_of(p.cfg["kind"]);
        p.cfg["seed"] = g(1 << 20);
        p.cfg["bufcap"] = 1024;
        p.cfg["size"] = g(4) == 0 ? g(40) : k->cat == 2 ? 100 + g(g(3) ? 300 : 1500) : 100 + g(g(2) ? 500 : 5000);
        p.cfg["how"] = g(3);            // built, loaded from another process's file, copied
        int nt = 2 + (int)(g(3) == 0);
        p.cfg["threads"] = nt;
        int n = g(3) == 0 ? 2 + g(14) : p.get("strategy") == 1 ? 60 + g(240) : 20 + g(60);
        uint64_t dom = g(2) ? 4 : 500;
        uint64_t base = g(1000);
        for (int i = 0; i < n; ++i) {
            int w = (int)g(n > 50 ? 120 : 12);
            p.op("q", {(int64_t)(i < nt ? i : g(nt)), w > 3 || w == 0 ? 0 : w, (int64_t)(base + g(dom))});
        }
        return p;
    }
    static uint64_t answer(const Val& v, const Op& o)
    {
        switch (o.arg(1)) {
            case 0: return v.query(o.arg(2));
            case 1: { std::ostringstream s; v.serialize(s); return std::hash<std::string>()(s.str()); }
            case 2: { VP c(v.copy()); return c->query(o.arg(2)); }
            default: return v.bytes();
        }
    }
    void exec(const Plan& p, Run& r) override
    {
        Quiet q;
        os.reset(p);
        Kind* k = kind_of(p.get("kind"));
        r.hit("kind_" + k->name);
        if (p.get("skip")) { r.hit("no_shared_write_in_dry_run"); return; }
        const int nt = (int)p.get("threads");
        VP v;
        if (p.get("how") == 1) {
            int fd[2];
            std::string bytes;
            if (pipe(fd)) throw Discard{"pipe"};
            pid_t c = fork();
            if (c < 0) throw Discard{"fork"};
            if (c == 0) {
                VP b(k->build(p.get("seed"), p.get("size")));
                std::ostringstream s;
                b->serialize(s);
                std::string t = s.str();
                for (size_t o = 0; o < t.size();) { ssize_t n = syscall(SYS_write, fd[1], t.data() + o, t.size() - o); if (n <= 0) break; o += n; }
                syscall(SYS_exit_group, 0);
            }
            syscall(SYS_close, fd[1]);
            char buf[4096];
            for (;;) { ssize_t n = syscall(SYS_read, fd[0], buf, sizeof buf); if (n <= 0) break; bytes.append(buf, n); }
            syscall(SYS_close, fd[0]);
            int st; waitpid(c, &st, 0);
            v.reset(k->fresh());
            std::istringstream in(bytes);
            v->load(in);
        } else v.reset(k->build(p.get("seed"), p.get("size")));
        if (p.get("how") == 2) { VP c(v->copy()); v = std::move(c); }
        const Val& shared = *v;
        std::vector<std::vector<std::pair<const Op*, uint64_t>>> got(nt);
        std::vector<std::function<void()>> fns;
        for (int t = 0; t < nt; ++t) fns.push_back([&, t]() {
            for (auto& o : p.ops) if (o.arg(0) == t) { uint64_t a = answer(shared, o); got[t].push_back({&o, a}); }
        });
        sched.run(p, fns);
        // the same queries one after the other on another object of the same value
        VP ref(k->build(p.get("seed"), p.get("size")));
        for (int t = 0; t < nt; ++t) for (auto& g : got[t]) {
            uint64_t want = answer(*ref, *g.first);
            r.ev("t%d q%lld %lld %llx", t, (long long)g.first->arg(1), (long long)g.first->arg(2), (unsigned long long)g.second);
            if (want != g.second) fail("answer", "%s: thread %d got another answer to query %lld/%lld than a single-threaded program", k->name.c_str(), t, (long long)g.first->arg(1), (long long)g.first->arg(2));
        }
        if (shared.digest(k->nq) != ref->digest(k->nq)) fail("value", "%s: after concurrent queries the structure answers differently", k->name.c_str());
        r.nontrivial = r.counters.count("preemptions") && r.counters["preemptions"] > 0;
    }
};
AddWorld<C08> a08; AddWorld<C12> a12;
}
