// C13: every class of the library while memory runs out at an arbitrary allocation.
#include "alloc.hpp"
#include "simos.hpp"
#include "zoo.hpp"
#include "zoo_util.hpp"
#include <sdsl/io.hpp>

using namespace sim;
using zoo::Kind;
using zoo::Val;

namespace
{
const std::vector<std::string> ACTIONS = {"build", "build", "copy", "assign", "assign", "take", "massign", "swap", "stdswap", "load", "loadover", "loadfile", "loadram", "loadchecked", "loadcache", "fresh"};

struct C13 : World {
    C13() { name = "C13"; }
    Plan gen(Rng& g) override
    {
        Plan p;
        p.cfg["kind"] = gen_kind(g);
        Kind* k = kind_of(p.cfg["kind"]);
        p.cfg["seedA"] = g(1 << 20); p.cfg["sizeA"] = gen_size(g, k);
        p.cfg["seedB"] = g(1 << 20); p.cfg["sizeB"] = gen_size(g, k);
        p.cfg["defbuf"] = 1 + g(1ULL << g(13));
        p.cfg["bufcap"] = 128 + g(1ULL << g(14));
        int n = 1 + g(4);
        for (int i = 0; i < n; ++i) {
            int64_t a;
            do a = g(ACTIONS.size()); while ((k->cons && ACTIONS[a] == "build") || (k->name == "louds_tree" && (ACTIONS[a] == "build" || ACTIONS[a] == "fresh")));  // construct() goes through files, see DESIGN.md
            int m = 1 + g(5);
            for (int j = 0; j < m; ++j) {
                int64_t at = g(3) == 0 ? g(12) : g(3) == 0 ? -1 - (int64_t)g(12) : (int64_t)g(1 << 24);
                p.op(ACTIONS[a], {at, (int64_t)(g(3) == 0), (int64_t)g(4)});
            }
        }
        return p;
    }
    struct Ref { uint64_t dig; std::string bytes; };
    Kind* k;
    Ref A, B, F;
    int64_t seedA, seedB; unsigned sizeA, sizeB;
    void is(const Val& v, const Ref& x, const char* act, const char* what) const
    {
        bool s = mem.on; mem.on = false;
        if (v.digest(k->nq) != x.dig) fail("value", "%s: out of memory in %s: %s answers differently", k->name.c_str(), act, what);
        if (ser(v) != x.bytes) fail("value", "%s: out of memory in %s: %s serialises to other bytes", k->name.c_str(), act, what);
        mem.on = s;
    }
    VP from(const std::string& bytes) const
    {
        VP v(k->fresh());
        std::istringstream in(bytes);
        v->load(in);
        return v;
    }
    // performs one action; the (at)-th allocation made by it fails. Returns the number of allocations of the action.
    int64_t cycle(const std::string& n, int64_t at, bool sticky, int aft, bool& failed)
    {
        const char* nm = n.c_str();
        failed = false;
        int64_t c0 = 0, c1 = 0;
        bool threw = false;
        auto action = [&](const std::function<void()>& f) {
            mem.fired = 0; mem.sticky = sticky;
            c0 = mem.count;
            mem.fail_at = at ? c0 + at : 0;
            try { Inject z; f(); }
            catch (const std::bad_alloc&) { threw = true; }
            catch (const std::exception& e) {
                mem.fail_at = 0; mem.on = false;
                if (mem.fired) fail("wrong-exception", "%s: out of memory in %s surfaces as '%s'", k->name.c_str(), nm, e.what());
                throw;
            }
            c1 = mem.count;
            mem.fail_at = 0;
            failed = mem.fired > 0;
            if (threw && !failed) fail("bad_alloc", "%s: std::bad_alloc in %s although no allocation failed", k->name.c_str(), nm);
        };
        Lib lib;
        {
            VP a, b, c;
            // an object that was being modified: usable again after it got a new value
            auto recover = [&](Val& x, const char* what) {
                if (aft == 1) { a->swap(x); is(x, A, nm, what); a->assign(x); is(*a, A, nm, "an object assigned from the one that was modified"); }
                else if (aft == 2) { x.assign(*a); is(x, A, nm, what); is(*a, A, nm, "the source of a later assignment"); }
                else if (aft == 3) { std::istringstream in(A.bytes); x.load(in); is(x, A, nm, what); }
                // 0: only destroyed
            };
            const char* REC = "the object that was being modified, given a new value afterwards,";
            if (n == "build") {
                action([&]() { c.reset(k->build(seedB, sizeB)); });
                if (!threw) is(*c, B, nm, "the object built without an error");
            } else if (n == "fresh") {
                action([&]() { c.reset(k->fresh()); });
                if (!threw) is(*c, F, nm, "the default constructed object");
            } else if (n == "copy") {
                a = from(A.bytes);
                action([&]() { c.reset(a->copy()); });
                if (!threw) is(*c, A, nm, "the copy");
                is(*a, A, nm, "the source");
            } else if (n == "assign") {
                a = from(A.bytes); b = from(B.bytes);
                action([&]() { b->assign(*a); });
                is(*a, A, nm, "the source");
                if (!threw) is(*b, A, nm, "the target, assigned without an error,");
                else recover(*b, REC);
            } else if (n == "take") {
                b = from(B.bytes);
                a = from(A.bytes);
                action([&]() { c.reset(b->take()); });
                if (!threw) is(*c, B, nm, "the object moved to without an error");
                recover(*b, REC);
            } else if (n == "massign" || n == "swap" || n == "stdswap") {
                a = from(A.bytes); b = from(B.bytes);
                action([&]() { if (n == "massign") b->move_assign(*a); else if (n == "swap") b->swap(*a); else b->stdswap(*a); });
                if (!threw) {
                    is(*b, A, nm, "the target");
                    if (n != "massign") is(*a, B, nm, "the other object");
                }
                a = from(A.bytes);
                recover(*b, REC);
            } else {
                bool over = aft & 1, ok = true;
                if (n == "load") b.reset(k->fresh());
                else if (n == "loadover") b = from(B.bytes);
                else b = over ? from(B.bytes) : VP(k->fresh());
                a = from(A.bytes);
                std::istringstream in(A.bytes);
                action([&]() {
                    if (n == "load" || n == "loadover") { b->load(in); ok = !in.fail(); }
                    else if (n == "loadfile") ok = b->load_file("/d/A");
                    else if (n == "loadram") ok = b->load_file("@A");
                    else if (n == "loadchecked") ok = b->load_checked("/d/Ac");
                    else ok = b->load_cache("/d", "key", false);
                });
                if (!threw && !ok && !failed) fail("load-failed", "%s: %s failed without a fault", k->name.c_str(), nm);
                if (!threw && ok) is(*b, A, nm, "the object loaded without an error");
                else recover(*b, REC);
            }
        }
        return c1 - c0;
    }
    void exec(const Plan& p, Run& r) override
    {
        Quiet q;
        os.reset(p);
        k = kind_of(p.get("kind"));
        seedA = p.get("seedA"); seedB = p.get("seedB"); sizeA = p.get("sizeA"); sizeB = p.get("sizeB");
        r.hit("kind_" + k->name);
        {
            VP a(k->build(seedA, sizeA)), b(k->build(seedB, sizeB)), f(k->fresh());
            A = Ref{a->digest(k->nq), ser(*a)}; B = Ref{b->digest(k->nq), ser(*b)}; F = Ref{f->digest(k->nq), ser(*f)};
            std::string file;
            if (!a->store_file("/d/A") || !a->store_file("@A") || !a->store_checked("/d/Ac") || !a->store_cache("/d", "key", file, false)) fail("store-failed", "%s: storing failed without a fault", k->name.c_str());
        }
        mem.reset();
        std::map<std::string, int64_t> total;
        int hitn = 0;
        for (auto& o : p.ops) {
            const std::string& n = o.name;
            const int aft = (uint64_t)o.arg(2) % 4;
            bool failed;
            std::string key = n + std::to_string(n.compare(0, 4, "load") == 0 ? aft & 1 : 0);
            if (!total.count(key)) {
                cycle(n, 0, false, aft, failed);              // function-local statics and the like
                total[key] = cycle(n, 0, false, aft, failed);
                r.ev("%s makes %lld allocations", n.c_str(), (long long)total[key]);
            }
            const int64_t N = total[key];
            if (!N) continue;
            const int64_t at = o.arg(0) >= 0 ? 1 + o.arg(0) % N : N - (-1 - o.arg(0)) % N;
            const int64_t live = mem.live_blocks, since = mem.count;
            const size_t fds = os.open_fds(), maps = os.open_maps();
            int64_t c = cycle(n, at, o.arg(1) & 1, aft, failed);
            r.ev("%s at %lld of %lld: %s, %lld live", n.c_str(), (long long)at, (long long)N, failed ? "failed" : "-", (long long)(mem.live_blocks - live));
            (void)c;
            r.state(mix2(mix2(std::hash<std::string>()(n), std::hash<std::string>()(k->name)), (at < 24 ? at : 24 + at * 16 / (N + 1)) * 4 + aft));
            if (failed) { ++hitn; r.hit(o.arg(1) & 1 ? "fault_alloc_sticky" : "fault_alloc"); r.hit("act_" + n); }
            if (mem.live_blocks != live) fail("leak", "%s: out of memory in %s leaks memory: %lld blocks (%lld before), still live:%s", k->name.c_str(), n.c_str(), (long long)mem.live_blocks, (long long)live, mem.describe(since).c_str());
            if (os.open_fds() != fds) fail("leak-fd", "%s: out of memory in %s leaves a file open", k->name.c_str(), n.c_str());
            if (os.open_maps() != maps) fail("leak-map", "%s: out of memory in %s leaves a mapping", k->name.c_str(), n.c_str());
        }
        r.nontrivial = hitn > 0;
        r.ev("done %d", hitn);
    }
};
AddWorld<C13> w13;
}
