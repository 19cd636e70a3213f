// C15: the memory monitor under threads, clock jumps and monitor control calls.
#include "sched.hpp"
#include "simos.hpp"
#include <sdsl/int_vector.hpp>
#include <sdsl/memory_management.hpp>
#include <algorithm>
#include <map>
#include <set>
#include <sstream>

using namespace sim;
using sdsl::memory_monitor;

namespace
{
enum { REC, CLOCK, START, STOP, BEGIN, END };
struct Ev { int th, kind; int64_t arg; int64_t inv, ret; };
struct Event { int64_t name, lo, hi; bool operator<(const Event& o) const { return std::tie(name, lo, hi) < std::tie(o.name, o.lo, o.hi); } };
// the monitor as a sequential object
struct Model {
    bool tracking = false;
    int64_t epoch = 0, cur = 0;
    std::vector<Event> stack, done;
    std::vector<int64_t> handles;            // of the controlling thread: epoch the event belongs to, -1 none
    bool operator<(const Model& o) const { return std::tie(tracking, epoch, cur, stack, done, handles) < std::tie(o.tracking, o.epoch, o.cur, o.stack, o.done, o.handles); }
    void stop()
    {
        while (!stack.empty()) { done.push_back(stack.back()); stack.pop_back(); }
        tracking = false;
    }
    void apply(const Ev& e)
    {
        switch (e.kind) {
            case REC: if (tracking) { cur += e.arg; auto& t = stack.back(); t.lo = std::max(t.lo, cur); t.hi = std::max(t.hi, cur); } break;
            case START: ++epoch; cur = 0; stack.assign(1, Event{-1, 0, 0}); done.clear(); tracking = true; break;
            case STOP: stop(); break;
            case BEGIN: if (tracking) { stack.push_back({e.arg, cur, cur}); handles.push_back(epoch); } else handles.push_back(-1); break;
            case END: {
                if (handles.empty()) break;
                int64_t h = handles.back(); handles.pop_back();
                if (tracking && h == epoch) { done.push_back(stack.back()); stack.pop_back(); if (!stack.empty()) { auto& t = stack.back(); t.lo = std::max(t.lo, cur); t.hi = std::max(t.hi, cur); } }
            } break;
        }
    }
};
struct C15 : World {
    C15() { name = "C15"; }
    bool wants_dry() override { return true; }
    void place(Plan& p, Rng& g, const Run&) override { Sched::place(p, g); }
    Plan gen(Rng& g) override
    {
        Plan p;
        Sched::gen(p, g);
        int nt = g(6) == 0 ? 1 : 2 + (int)(g(3) == 0);
        p.cfg["threads"] = nt;
        p.cfg["gran"] = g(3) ? 20 : g(3);            // milliseconds
        p.cfg["prestart"] = g(4) != 0;
        int n = 2 + g(10);
        for (int i = 0; i < n; ++i) {
            int t = (int)(i < nt ? i : g(nt));
            int k = (int)g(t == 0 ? 14 : 7);
            if (k < 6) p.op("rec", {t, (int64_t)g(3), (int64_t)(g(4) ? g(40) : g(4000))});
            else if (k == 6) p.op("clock", {t, (int64_t)(g(3) ? g(60) : g(2) ? -(int64_t)g(100000) : (int64_t)g(1000000))});   // ms
            else if (k < 10) p.op("begin", {t});
            else if (k < 12) p.op("end", {t});
            else p.op(k == 12 ? "start" : "stop", {t});
        }
        return p;
    }
    static bool lin(const std::vector<Ev>& ev, uint64_t mask, const Model& m, std::set<std::pair<uint64_t, Model>>& seen, const std::map<int64_t, int64_t>& got, int64_t peak)
    {
        if (mask == (1ULL << ev.size()) - 1) {
            Model f = m;
            int64_t mx = 0;
            if (f.tracking) f.stop();
            if (f.done.size() != got.size()) return false;
            for (auto& e : f.done) {
                auto it = got.find(e.name);
                if (it == got.end() || it->second < e.lo || it->second > e.hi) return false;
                mx = std::max(mx, e.lo);
            }
            return peak == mx;
        }
        if (!seen.insert({mask, m}).second) return false;
        int64_t first_ret = INT64_MAX;
        for (size_t i = 0; i < ev.size(); ++i) if (!((mask >> i) & 1)) first_ret = std::min(first_ret, ev[i].ret);
        for (size_t i = 0; i < ev.size(); ++i) {
            if ((mask >> i) & 1 || ev[i].inv > first_ret) continue;
            Model t = m;
            t.apply(ev[i]);
            if (lin(ev, mask | 1ULL << i, t, seen, got, peak)) return true;
        }
        return false;
    }
    void exec(const Plan& p, Run& r) override
    {
        os.reset(p);
        const int nt = (int)p.get("threads");
        memory_monitor::granularity(std::chrono::milliseconds(p.get("gran")));
        Model start;
        if (p.get("prestart")) { memory_monitor::start(); start.apply({0, START, 0, 0, 0}); }
        else { memory_monitor::start(); memory_monitor::stop(); start.apply({0, START, 0, 0, 0}); start.stop(); }
        std::vector<std::vector<Ev>> h(nt);
        std::vector<std::vector<sdsl::int_vector<64>>> vec(nt, std::vector<sdsl::int_vector<64>>(3));
        std::vector<std::unique_ptr<memory_monitor::mm_event_proxy>> open;
        std::vector<std::function<void()>> fns;
        for (int t = 0; t < nt; ++t) fns.push_back([&, t]() {
            int no = 0;
            for (auto& o : p.ops) {
                ++no;
                if (o.arg(0) != t) continue;
                Ev e{t, -1, 0, 0, 0};
                if (o.name == "clock") { os.clock_ns += o.arg(1) * 1000000; continue; }
                sched_point();
                if (o.name == "rec") {
                    auto& v = vec[t][o.arg(1) % 3];
                    int64_t old = v.size();
                    uint64_t keep = std::min<uint64_t>(old, o.arg(2));
                    e.kind = REC; e.arg = (o.arg(2) - old) * 8;
                    e.inv = sched.now();
                    v.resize(o.arg(2));
                    e.ret = sched.now();
                    if (v.size() != (uint64_t)o.arg(2)) fail("result", "a resized vector has the wrong size");
                    for (uint64_t i = 0; i < keep; ++i) if (v[i] != i * 77 + t) fail("result", "a vector lost element %llu while it was resized", (unsigned long long)i);
                    for (uint64_t i = keep; i < v.size(); ++i) v[i] = i * 77 + t;
                } else if (t == 0) {
                    e.inv = sched.now();
                    if (o.name == "start") { e.kind = START; memory_monitor::start(); }
                    else if (o.name == "stop") { e.kind = STOP; memory_monitor::stop(); }
                    else if (o.name == "begin") { e.kind = BEGIN; e.arg = no; open.emplace_back(new memory_monitor::mm_event_proxy(memory_monitor::event("e" + std::to_string(no)))); }
                    else { e.kind = END; if (!open.empty()) open.pop_back(); }
                    e.ret = sched.now();
                }
                sched_point();
                if (e.kind >= 0 && !(e.kind == REC && e.arg == 0)) h[t].push_back(e);
            }
        });
        sched.run(p, fns);
        memory_monitor::stop();
        open.clear();
        std::vector<Ev> ev;
        for (auto& v : h) ev.insert(ev.end(), v.begin(), v.end());
        std::ostringstream js;
        memory_monitor::write_memory_log<sdsl::JSON_FORMAT>(js);
        std::map<int64_t, int64_t> got;
        std::istringstream in(js.str());
        std::string line;
        int64_t name = -2;
        bool samples = false;
        while (std::getline(in, line)) {
            size_t a;
            if ((a = line.find("\"name\" : \"")) != std::string::npos) { std::string n = line.substr(a + 10); n = n.substr(0, n.find('"')); name = n == "unknown" ? -1 : atoi(n.c_str() + 1); if (got.count(name)) fail("events", "event %s appears twice in the log", n.c_str()); got[name] = INT64_MIN; }
            else if ((a = line.find("\t\t\t[")) != std::string::npos) { int64_t u = atoll(line.c_str() + line.find(',') + 1); got[name] = std::max(got[name], u); samples = true; }
        }
        (void)samples;
        int64_t peak = memory_monitor::peak();
        for (auto& e : ev) r.ev("t%d k%d %lld [%lld,%lld]", e.th, e.kind, (long long)e.arg, (long long)e.inv, (long long)e.ret);
        for (auto& e : got) r.ev("event %lld max %lld", (long long)e.first, (long long)e.second);
        r.ev("peak %lld", (long long)peak);
        std::set<std::pair<uint64_t, Model>> seen;
        if (!lin(ev, 0, start, seen, got, peak)) fail("accounting", "no order of the %zu operations explains the recorded events and the peak of %lld bytes", ev.size(), (long long)peak);
        bool overlap = false;
        for (auto& x : ev) for (auto& y : ev) if (x.th != y.th && x.inv < y.ret && y.inv < x.ret) overlap = true;
        for (auto& o : p.ops) if (o.name == "clock") overlap = true;
        r.nontrivial = overlap;
    }
};
AddWorld<C15> a15;
}
