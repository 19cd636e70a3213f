// C01, C02, C03, C17: values of every class of the library through store/load and object histories on a simulated disk.
#include "simos.hpp"
#include "zoo.hpp"
#include "zoo_util.hpp"
#include <sdsl/int_vector.hpp>
#include <sdsl/int_vector_buffer.hpp>
#include <sdsl/int_vector_mapper.hpp>
#include <sdsl/io.hpp>
#include <sdsl/sfstream.hpp>
#include <sdsl/ram_fs.hpp>
#include <algorithm>
#include <sstream>

using namespace sim;
using zoo::Val;
using zoo::Kind;

namespace
{
// ------------------------------------------------------------------ C17
struct C17 : World {
    C17() { name = "C17"; }
    Plan gen(Rng& g) override
    {
        Plan p;
        p.cfg["kind"] = gen_kind(g);
        p.cfg["defbuf"] = 1 + g(1ULL << g(13));
        p.cfg["bufcap"] = 128 + g(1ULL << g(14));
        Kind* k = kind_of(p.cfg["kind"]);
        p.cfg["noiseseed"] = g(1 << 30);
        p.cfg["short"] = g(3) ? 0 : g(500);
        int n = 4 + g(20);
        p.op("build", {(int64_t)g(4), (int64_t)g(1 << 20), gen_size(g, k)});
        for (int i = 0; i < n; ++i) {
            static const std::vector<std::string> ops = {"build", "copy", "copy", "take", "take", "assign", "assign", "massign", "massign", "swap", "swap", "stdswap", "self", "selfswap", "store", "load", "load", "fresh", "drop", "check"};
            p.op(g.pick(ops), {(int64_t)g(4), (int64_t)g(1 << 20), gen_size(g, k), (int64_t)g(2)});
        }
        return p;
    }
    void exec(const Plan& p, Run& r) override
    {
        Quiet q;
        os.reset(p);
        Kind* k = kind_of(p.get("kind"));
        r.hit("kind_" + k->name);
        struct Slot { VP v; bool known = false; uint64_t dig = 0; std::string bytes; } s[4];
        struct File { bool ok = false; uint64_t dig = 0; std::string bytes; } f[2];
        auto check = [&](Slot& x, const char* what, int i) {
            if (!x.v || !x.known) return;
            uint64_t d = x.v->digest(k->nq);
            if (d != x.dig) fail("value-changed", "%s: after %s object %d answers differently", k->name.c_str(), what, i);
            if (ser(*x.v) != x.bytes) fail("bytes-changed", "%s: after %s object %d serialises differently", k->name.c_str(), what, i);
        };
        int moved = 0;
        for (auto& o : p.ops) {
            int di = (uint64_t)o.arg(0) % 4, si = (uint64_t)(o.arg(1)) % 4;
            Slot& d = s[di]; Slot& t = s[si];
            const std::string& n = o.name;
            const char* nm = n.c_str();
            std::string file = (o.arg(3) & 1) ? "@f" : "/d/f";
            File& fl = f[o.arg(3) & 1];
            r.ev("%s %d %d", nm, di, si);
            r.state(mix2(mix2(std::hash<std::string>()(n), std::hash<std::string>()(k->name)), (d.v ? 1 : 0) + (d.known ? 2 : 0) + (t.v ? 4 : 0) + (t.known ? 8 : 0) + (di == si ? 16 : 0)));
            if (n == "build") { d.v.reset(k->build(o.arg(1), o.arg(2))); d.known = true; d.dig = d.v->digest(k->nq); d.bytes = ser(*d.v); }
            else if (n == "fresh") { d.v.reset(k->fresh()); d.known = true; d.dig = d.v->digest(k->nq); d.bytes = ser(*d.v); }
            else if (n == "drop") { d.v.reset(); d.known = false; }
            else if (n == "copy") { if (!t.v || !t.known || di == si) continue; d.v.reset(t.v->copy()); d.known = true; d.dig = t.dig; d.bytes = t.bytes; ++moved; }
            else if (n == "take") { if (!t.v || !t.known || di == si) continue; d.v.reset(t.v->take()); d.known = true; d.dig = t.dig; d.bytes = t.bytes; t.known = false; ++moved; }
            else if (n == "assign") { if (!t.v || !t.known || !d.v) continue; d.v->assign(*t.v); d.known = true; d.dig = t.dig; d.bytes = t.bytes; ++moved; }
            else if (n == "massign") { if (!t.v || !t.known || !d.v || di == si) continue; d.v->move_assign(*t.v); d.known = true; d.dig = t.dig; d.bytes = t.bytes; t.known = false; ++moved; }
            else if (n == "self") { if (!d.v || !d.known) continue; d.v->assign(*d.v); }
            else if (n == "selfswap") { if (!d.v || !d.known) continue; if (o.arg(3)) d.v->swap(*d.v); else d.v->stdswap(*d.v); }
            else if (n == "swap" || n == "stdswap") {
                if (!t.v || !d.v || !t.known || !d.known) continue;
                if (n == "swap") d.v->swap(*t.v); else d.v->stdswap(*t.v);
                if (di != si) { std::swap(d.known, t.known); std::swap(d.dig, t.dig); std::swap(d.bytes, t.bytes); ++moved; }
            }
            else if (n == "store") {
                if (!d.v || !d.known) continue;
                Inject z;
                if (!d.v->store_file(file)) fail("store-failed", "%s: storing to %s failed without a fault", k->name.c_str(), file.c_str());
                fl.ok = true; fl.dig = d.dig; fl.bytes = d.bytes;
            }
            else if (n == "load") {
                if (!fl.ok) continue;
                if (!d.v) d.v.reset(k->fresh());
                { Inject z; if (!d.v->load_file(file)) fail("load-failed", "%s: loading %s failed without a fault", k->name.c_str(), file.c_str()); }
                d.known = true; d.dig = fl.dig; d.bytes = fl.bytes; ++moved;
            }
            else if (n == "check") { for (int i = 0; i < 4; ++i) check(s[i], "check", i); }
            check(d, nm, di);
            if (di != si) check(t, nm, si);
        }
        for (int i = 0; i < 4; ++i) check(s[i], "the history", i);
        // destroy in varying order, the rest must stay intact
        for (int i = 0; i < 4; ++i) { s[(i + p.get("noiseseed")) % 4].v.reset(); for (int j = 0; j < 4; ++j) check(s[j], "destruction of another object", j); }
        r.nontrivial = moved > 0;
        r.ev("done %d", moved);
    }
};

// ------------------------------------------------------------------ C01
struct C01 : World {
    C01() { name = "C01"; }
    Plan gen(Rng& g) override
    {
        Plan p;
        p.cfg["noiseseed"] = g(1 << 30);
        if (g(4)) { p.cfg["short"] = g(700); p.cfg["eintr"] = g(3) ? 0 : g(300); }
        p.cfg["ram"] = g(4) == 0;
        p.cfg["pad"] = g(3) ? 0 : g(70);
        p.cfg["defbuf"] = 1 + g(1ULL << g(13));
        p.cfg["bufcap"] = 128 + g(1ULL << g(14));
        int n = 1 + g(4);
        int64_t kk = gen_kind(g);
        for (int i = 0; i < n; ++i) {
            if (g(3)) kk = gen_kind(g);
            Kind* k = kind_of(kk);
            p.op("item", {kk, (int64_t)g(1 << 20), gen_size(g, k), (int64_t)g(16), (int64_t)g(1 << 20), gen_size(g, k)});
        }
        return p;
    }
    static void same(const Val& v, const Kind* k, uint64_t dig, const std::string& bytes, const char* how)
    {
        if (v.digest(k->nq) != dig) fail("answers", "%s: after %s the loaded object answers differently", k->name.c_str(), how);
        if (ser(v) != bytes) fail("bytes", "%s: after %s the loaded object serialises to other bytes", k->name.c_str(), how);
    }
    void exec(const Plan& p, Run& r) override
    {
        Quiet q;
        os.reset(p);
        const bool ram = p.get("ram");
        const std::string base = ram ? "@" : "/d/";
        struct Item { Kind* k; VP v; uint64_t dig; std::string bytes; const Op* o; };
        std::vector<Item> it;
        for (auto& o : p.ops) {
            Item x{kind_of(o.arg(0)), nullptr, 0, "", &o};
            r.hit("kind_" + x.k->name);
            x.v.reset(x.k->build(o.arg(1), o.arg(2)));
            x.dig = x.v->digest(x.k->nq);
            std::ostringstream s;
            uint64_t w = x.v->serialize(s);
            x.bytes = s.str();
            if (w != x.bytes.size()) fail("reported", "%s: serialize reported %llu bytes and wrote %zu", x.k->name.c_str(), (unsigned long long)w, x.bytes.size());
            if (x.v->bytes() != w) fail("size_in_bytes", "%s: size_in_bytes says %llu, serialize wrote %llu", x.k->name.c_str(), (unsigned long long)x.v->bytes(), (unsigned long long)w);
            std::ostringstream s2;
            uint64_t w2 = x.v->serialize_tree(s2);
            if (w2 != w || s2.str() != x.bytes) fail("structure-tree", "%s: serialising with a structure tree wrote other bytes (%llu/%zu against %zu)", x.k->name.c_str(), (unsigned long long)w2, s2.str().size(), x.bytes.size());
            if (x.v->digest(x.k->nq) != x.dig) fail("source-changed", "%s: serialising changed the object", x.k->name.c_str());
            r.ev("%s %zu", x.k->name.c_str(), x.bytes.size());
            r.state(mix2(std::hash<std::string>()(x.k->name), o.arg(3) * 64 + x.bytes.size() % 64));
            it.push_back(std::move(x));
        }
        // one after the other in one stream
        const std::string file = base + "stream", pad(p.get("pad"), 'P');
        {
            Inject z;
            sdsl::osfstream out(file, std::ios::binary | std::ios::trunc | std::ios::out);
            out.write(pad.data(), pad.size());
            for (auto& x : it) { uint64_t w = x.v->serialize(out); if (w != x.bytes.size()) fail("reported", "%s: serialize to a file reported %llu bytes instead of %zu", x.k->name.c_str(), (unsigned long long)w, x.bytes.size()); }
            out.close();
            if (out.fail()) fail("stream-failed", "writing the stream failed without a fault");
        }
        std::string want = pad;
        for (auto& x : it) want += x.bytes;
        if (file_bytes(file) != want) fail("file-bytes", "the file has %zu bytes, or other bytes than the %zu the structures serialise to", file_bytes(file).size(), want.size());
        {
            Inject z;
            sdsl::isfstream in(file, std::ios::binary | std::ios::in);
            std::string pd(pad.size(), 0);
            in.read(&pd[0], pd.size());
            uint64_t at = pad.size();
            std::vector<VP> old;
            for (auto& x : it) {
                VP v;
                int how = x.o->arg(3) & 3;
                if (how == 0) v.reset(x.k->fresh());
                else if (how == 1) v.reset(x.k->build(x.o->arg(4), x.o->arg(5)));
                else if (how == 2) v.reset(x.v->copy());
                else { VP t(x.k->build(x.o->arg(4), x.o->arg(5))); VP u(t->take()); v = std::move(t); old.push_back(std::move(u)); }
                v->load(in);
                at += x.bytes.size();
                if (in.fail()) fail("load-stream", "%s: stream failed while loading", x.k->name.c_str());
                uint64_t pos = in.tellg();
                if (pos != at) fail("consumed", "%s: load consumed up to byte %llu, serialize wrote up to %llu", x.k->name.c_str(), (unsigned long long)pos, (unsigned long long)at);
                same(*v, x.k, x.dig, x.bytes, how == 0 ? "loading into a fresh object" : how == 1 ? "loading over another value" : how == 2 ? "loading over an equal value" : "loading into a moved-from object");
            }
        }
        // whole files through the four file interfaces
        for (auto& x : it) {
            int api = (x.o->arg(3) >> 2) & 3;
            std::string f = base + "x", got;
            const char* an = api == 0 ? "store_to_file" : api == 1 ? "store_to_checked_file" : api == 2 ? "store_to_cache" : "store_to_cache with type hash";
            bool st, ld;
            VP v(x.o->arg(4) & 1 ? x.k->fresh() : x.k->build(x.o->arg(4), x.o->arg(5)));
            {
                Inject z;
                std::string dir = ram ? "@" : "/d";
                if (api == 0) st = x.v->store_file(f);
                else if (api == 1) st = x.v->store_checked(f);
                else st = x.v->store_cache(dir, "key", f, api == 3);
                if (!st) fail("store-failed", "%s: %s reported failure without a fault", x.k->name.c_str(), an);
                if (api == 0) ld = v->load_file(f);
                else if (api == 1) ld = v->load_checked(f);
                else ld = v->load_cache(dir, "key", api == 3);
            }
            if (file_bytes(f) != x.bytes) fail("file-bytes", "%s: the file written by %s is not the serialised object", x.k->name.c_str(), an);
            if (!ld) fail("load-failed", "%s: loading after %s reported failure without a fault", x.k->name.c_str(), an);
            same(*v, x.k, x.dig, x.bytes, an);
            // and once more from what was loaded
            { Inject z; if (!v->store_file(f)) fail("store-failed", "%s: storing the loaded object failed", x.k->name.c_str()); if (!x.v->load_file(f)) fail("load-failed", "%s: loading back failed", x.k->name.c_str()); }
            v.reset();
            same(*x.v, x.k, x.dig, x.bytes, "loading into the original");
        }
        if (os.open_fds()) fail("fd-leak", "%d descriptors left open", os.open_fds());
        r.nontrivial = !ram ? r.counters.count("noise_short_read") + r.counters.count("noise_short_write") + r.counters.count("noise_eintr") > 0 || it.size() > 1 : true;
        r.ev("done");
    }
};
// ------------------------------------------------------------------ C02
// stores of every kind and of plain data; hard errors on a simulated disk
template<class F> bool reported_false(F&& f, std::string& why)
{
    try { Inject z; if (f()) return false; why = "false"; return true; }
    catch (Violation&) { throw; }
    catch (std::exception& e) { why = "exception"; return true; }
}
std::string le(uint64_t x, int n) { std::string s; for (int i = 0; i < n; ++i) s.push_back((char)(x >> (8 * i))); return s; }
struct C02 : World {
    C02() { name = "C02"; }
    Plan gen(Rng& g) override
    {
        Plan p;
        p.cfg["noiseseed"] = g(1 << 30);
        p.cfg["defbuf"] = 1 + g(1ULL << g(13));
        p.cfg["bufcap"] = 128 + g(1ULL << g(14));
        if (g(3) == 0) { p.cfg["short"] = g(500); p.cfg["eintr"] = g(3) ? 0 : g(200); }
        p.cfg["faulty"] = g(8) != 0;
        int n = 1 + g(3);
        for (int i = 0; i < n; ++i) {
            int api = g(10);
            int64_t kk = gen_kind(g);
            unsigned sz = api < 4 ? gen_size(g, kind_of(kk)) : (unsigned)g(1ULL << (1 + g(13)));
            p.op("store", {api, kk, (int64_t)g(1 << 20), sz, (int64_t)g(64), (int64_t)g(3)});
        }
        return p;
    }
    bool wants_dry() override { return true; }
    void place(Plan& p, Rng& g, const Run&) override
    {
        if (!p.get("faulty")) return;
        std::string tr = os.trace;
        if (tr.empty()) return;
        if (g(4) == 0) { p.cfg["capacity"] = g(1ULL << (2 + g(15))); if (g(2)) return; }
        int n = 1 + (int)g(2);
        for (int i = 0; i < n; ++i) {
            int64_t at = g(4) ? (int64_t)g(tr.size()) : (int64_t)(tr.size() - 1 - g(std::min<size_t>(tr.size(), 4)));
            std::string k;
            switch (tr[at]) {
                case 'w': k = g.pick(std::vector<std::string>{"write_eio", "write_enospc", "write_enospc_sticky", "write_torn"}); break;
                case 's': k = "seek_fail"; break;
                case 'o': case 'i': k = "open_fail"; break;
                case 'x': k = "close_fail"; break;
                case 'r': k = "read_eio"; break;
                case 'f': k = "stat_fail"; break;
                default: continue;
            }
            p.faults.push_back({k, at, k == "open_fail" ? (g(2) ? 13 : 28) : (int64_t)g(1 << 20)});
        }
    }
    template<class IV> static IV ints(uint64_t seed, unsigned n, unsigned w)
    {
        IV v(n, 0, w);
        Rng g(seed);
        for (unsigned i = 0; i < n; ++i) { uint64_t x = g.next(); v[i] = v.width() < 64 ? x & ((1ULL << v.width()) - 1) : x; }
        return v;
    }
    template<class T> static std::string plain(const sdsl::int_vector<>& v) { std::string s; for (uint64_t i = 0; i < v.size(); ++i) { T t = v[i]; s.append((const char*)&t, sizeof t); } return s; }
    // the documented layout: bit size (8 bytes), for variable width the width (1 byte), data words
    template<class IV> static std::string vec_bytes(const IV& v, int fixed, bool as_var)
    {
        std::string s = le(v.bit_size(), 8);
        if (fixed == 0 || as_var) s += le(v.width(), 1);
        for (uint64_t i = 0; i < (v.bit_size() + 63) / 64; ++i) s += le(v.data()[i], 8);
        return s;
    }
    template<uint8_t W> bool vec(const Op& o, const std::string& f, bool checked, std::string& want, bool& rep, std::string& why)
    {
        bool as_var = o.arg(4) & 1;
        auto v = ints<sdsl::int_vector<W>>(o.arg(2), o.arg(3), W ? W : 1 + (o.arg(4) >> 1) % 64);
        want = vec_bytes(v, W, as_var);
        auto copy = v;
        rep = reported_false([&]() { return checked ? sdsl::store_to_checked_file(v, f, as_var) : sdsl::store_to_file(v, f, as_var); }, why);
        if (!(v == copy)) fail("source-changed", "storing changed the vector");
        return true;
    }
    void exec(const Plan& p, Run& r) override
    {
        Quiet q;
        os.reset(p);
        std::string bystander(100, 'b');
        os.put("/d/bystander", bystander);
        os.put("/d/f1", std::string(300, 'o'));
        int failed = 0, stored = 0;
        for (auto& o : p.ops) {
            int api = o.arg(0);
            std::string f = "/d/f" + std::to_string(o.arg(5) % 3), want, why, nm;
            bool rep = false;
            VP v;
            Kind* k = kind_of(o.arg(1));
            int before = os.errors_fired;
            if (api < 4) {
                nm = k->name;
                r.hit("kind_" + nm);
                v.reset(k->build(o.arg(2), o.arg(3)));
                want = ser(*v);
                uint64_t dig = v->digest(k->nq);
                rep = reported_false([&]() { return api == 0 ? v->store_file(f) : api == 1 ? v->store_checked(f) : v->store_cache("/d", "key", f, api == 3); }, why);
                if (v->digest(k->nq) != dig || ser(*v) != want) fail("source-changed", "%s: storing changed the object", nm.c_str());
            } else if (api == 4) {
                nm = "store_to_plain_array";
                auto iv = ints<sdsl::int_vector<>>(o.arg(2), o.arg(3), 1 + o.arg(4));
                switch (o.arg(2) & 3) {
                    case 0: want = plain<uint8_t>(iv); rep = reported_false([&]() { return sdsl::store_to_plain_array<uint8_t>(iv, f); }, why); break;
                    case 1: want = plain<uint16_t>(iv); rep = reported_false([&]() { return sdsl::store_to_plain_array<uint16_t>(iv, f); }, why); break;
                    case 2: want = plain<uint32_t>(iv); rep = reported_false([&]() { return sdsl::store_to_plain_array<uint32_t>(iv, f); }, why); break;
                    default: want = plain<uint64_t>(iv); rep = reported_false([&]() { return sdsl::store_to_plain_array<uint64_t>(iv, f); }, why);
                }
            } else if (api == 5 || api == 6) {
                nm = api == 5 ? "store_to_file(int_vector)" : "store_to_checked_file(int_vector)";
                switch (o.arg(2) % 5) {
                    case 0: vec<0>(o, f, api == 6, want, rep, why); break;
                    case 1: vec<8>(o, f, api == 6, want, rep, why); break;
                    case 2: vec<16>(o, f, api == 6, want, rep, why); break;
                    case 3: vec<64>(o, f, api == 6, want, rep, why); break;
                    default: vec<1>(o, f, api == 6, want, rep, why);
                }
            } else if (api == 7 || api == 8) {
                nm = api == 7 ? "store_to_file(const char*)" : "store_to_file(string)";
                Rng g(o.arg(2));
                for (int64_t i = 0; i < o.arg(3); ++i) want.push_back((char)(api == 7 ? 1 + g(255) : g(256)));
                rep = reported_false([&]() { return api == 7 ? sdsl::store_to_file(want.c_str(), f) : sdsl::store_to_file(want, f); }, why);
            } else {
                nm = "store_to_cache(int_vector)";
                auto iv = ints<sdsl::int_vector<>>(o.arg(2), o.arg(3), 1 + o.arg(4));
                want = vec_bytes(iv, 0, false);
                sdsl::cache_config c(false, "/d", "v");
                f = sdsl::cache_file_name("vec", c);
                rep = reported_false([&]() { return sdsl::store_to_cache(iv, "vec", c); }, why);
                if (rep && c.file_map.count("vec")) fail("registered", "store_to_cache reported failure and registered the file");
                if (!rep && !c.file_map.count("vec")) fail("registered", "store_to_cache reported success and did not register the file");
            }
            r.ev("%s %d %zu %s", nm.c_str(), api, want.size(), rep ? why.c_str() : "true");
            r.state(mix2(mix2(std::hash<std::string>()(nm), api * 2 + rep), std::hash<std::string>()(os.last_fault)));
            if (rep) {
                ++failed;
                if (os.errors_fired == before && before == 0) fail("false-failure", "%s: reported failure (%s) without any failing call", nm.c_str(), why.c_str());
            } else {
                ++stored;
                std::string got = os.exists(f) ? file_bytes(f) : "";
                if (!os.exists(f)) fail("silent-loss", "%s: reported success and left no file (last fault: %s)", nm.c_str(), os.last_fault.c_str());
                if (got != want) fail("silent-loss", "%s: reported success, the file has %zu bytes and differs from the %zu that had to be written (last fault: %s)", nm.c_str(), got.size(), want.size(), os.last_fault.c_str());
                if (api == 1 || api == 6) {
                    if (!os.exists(f + "_check") || file_bytes(f + "_check").size() != 8) fail("silent-loss", "%s: reported success, the check file is not complete", nm.c_str());
                }
                if (api < 4) {
                    VP w(k->fresh());
                    bool ok = api == 1 ? w->load_checked(f) : w->load_file(f);
                    if (!ok || ser(*w) != want) fail("silent-loss", "%s: reported success and can not be loaded back", nm.c_str());
                }
            }
            if (file_bytes("/d/bystander") != bystander) fail("bystander", "%s: changed another file", nm.c_str());
            if (os.open_fds() && os.last_fault.find("close") == std::string::npos) fail("fd-leak", "%s: %d descriptors left open", nm.c_str(), os.open_fds());
        }
        r.nontrivial = os.errors_fired > 0;
        r.ev("done %d %d", stored, failed);
    }
};

// ------------------------------------------------------------------ C03
struct C03 : World {
    C03() { name = "C03"; }
    Plan gen(Rng& g) override
    {
        Plan p;
        p.cfg["kind"] = gen_kind(g);
        Kind* k = kind_of(p.cfg["kind"]);
        p.cfg["defbuf"] = 1 + g(1ULL << g(13));
        p.cfg["bufcap"] = 128 + g(1ULL << g(14));
        p.cfg["noiseseed"] = g(1 << 30);
        if (g(3) == 0) { p.cfg["short"] = g(500); p.cfg["eintr"] = g(3) ? 0 : g(200); }
        p.cfg["other"] = gen_kind(g);
        p.cfg["seed"] = g(1 << 20); p.cfg["size"] = gen_size(g, k);
        p.cfg["ram"] = g(5) == 0;
        int n = 2 + g(12);
        for (int i = 0; i < n; ++i) {
            int dmg = (int)g(10); dmg = dmg < 6 ? 0 : dmg - 5;      // 0 cut, 1 missing, 2 unreadable, 3 failing read, 4 other type
            int64_t cut = g(4) == 0 ? g(40) : g(3) == 0 ? -(int64_t)(1 + g(20)) : g(1 << 24);
            p.op("load", {(int64_t)g(6), dmg, cut, (int64_t)g(4), (int64_t)g(1 << 20), gen_size(g, k), (int64_t)g(4)});
        }
        return p;
    }
    bool wants_dry() override { return true; }
    void place(Plan& p, Rng& g, const Run&) override
    {
        bool want = false;
        for (auto& o : p.ops) if (o.arg(1) == 3) want = true;
        std::string tr = os.trace;
        if (!want || tr.empty()) return;
        int n = 1 + (int)g(4);
        for (int i = 0; i < n; ++i) {
            int64_t at = g(tr.size());
            std::string k;
            switch (tr[at]) {
                case 'r': k = g(4) ? "read_eio" : "read_eio_sticky"; break;
                case 'i': k = "open_fail"; break;
                case 's': k = "seek_fail"; break;
                case 'f': k = "stat_fail"; break;
                case 'x': k = "close_fail"; break;
                default: continue;
            }
            p.faults.push_back({k, at, k == "open_fail" ? 13 : (int64_t)g(1 << 20)});
        }
    }
    void exec(const Plan& p, Run& r) override
    {
        Quiet q;
        os.reset(p);
        Kind* k = kind_of(p.get("kind"));
        Kind* ok = kind_of(p.get("other"));
        const std::string dir = p.get("ram") ? "@" : "/d", base = p.get("ram") ? "@" : "/d/";
        r.hit("kind_" + k->name);
        VP good(k->build(p.get("seed"), p.get("size")));
        const uint64_t dig = good->digest(k->nq);
        const std::string bytes = ser(*good);
        std::string chk_good, chk_other;
        { VP o(ok->build(3, 5)); o->store_checked(base + "o"); chk_other = file_bytes(base + "o_check"); }
        good->store_checked(base + "g");
        chk_good = file_bytes(base + "g_check");
        const bool differs = ok->name != k->name;
        int rep_n = 0;
        for (auto& o : p.ops) {
            int api = o.arg(0) % 6, dmg = o.arg(1);
            // 0 file, 1 checked, 2 cache, 3 cache with type hash, 4 stream, 5 checked with a damaged check file
            std::string f = base + "x", fc = f + "_check", content = bytes, check = chk_good;
            if (p.get("ram") && dmg == 2) dmg = 1;
            if (dmg == 4) { if (!differs) dmg = 1; else api = 1; }
            if (api == 2 || api == 3) { std::string t; VP c(good->copy()); c->store_cache(dir, "k", t, api == 3); f = t; fc = ""; }
            bool must_fail = dmg == 1 || dmg == 2 || dmg == 4;
            std::string& target = api == 5 ? check : content;
            if (dmg == 0) {
                uint64_t len = target.size();
                if (len == 0) continue;
                uint64_t cut = o.arg(2) < 0 ? (len >= (uint64_t)-o.arg(2) ? len + o.arg(2) : 0) : (uint64_t)o.arg(2) % len;
                target.resize(cut);
                must_fail = true;
                r.state(mix2(std::hash<std::string>()(k->name), cut < 256 ? cut : 256 + cut % 64));
            }
            if (dmg == 4) check = chk_other;
            put_file(f, content);
            if (!fc.empty()) put_file(fc, check);
            const std::string& hurt = api == 5 ? fc : f;
            if (dmg == 1) { sdsl::ram_fs::remove(hurt); os.files.erase(hurt); }
            if (dmg == 2) os.files[hurt]->unreadable = true;
            VP t;
            switch (o.arg(3) & 3) {
                case 0: t.reset(k->fresh()); break;
                case 1: t.reset(k->build(o.arg(4), o.arg(5))); break;
                case 2: t.reset(good->copy()); break;
                default: { t.reset(k->build(o.arg(4), o.arg(5))); VP u(t->take()); }
            }
            std::string why;
            int before = os.errors_fired;
            bool rep = reported_false([&]() -> bool {
                switch (api) {
                    case 0: return t->load_file(f);
                    case 1: case 5: return t->load_checked(f);
                    case 2: return t->load_cache(dir, "k", false);
                    case 3: return t->load_cache(dir, "k", true);
                    default: { sdsl::isfstream in(f, std::ios::binary | std::ios::in); if (!in) return false; t->load(in); return !in.fail(); }
                }
            }, why);
            r.ev("load %s api %d dmg %d: %s", k->name.c_str(), api, dmg, rep ? why.c_str() : "true");
            r.hit(std::string("damage_") + (dmg == 0 ? "cut" : dmg == 1 ? "missing" : dmg == 2 ? "unreadable" : dmg == 3 ? "none" : "type"));
            if (must_fail && !rep) fail("accepted", "%s: api %d reported success loading a file that was %s (%zu of %zu bytes)", k->name.c_str(), api, dmg == 0 ? "cut short" : dmg == 1 ? "missing" : dmg == 2 ? "unreadable" : "written for another type", target.size(), api == 5 ? chk_good.size() : bytes.size());
            if (!must_fail && rep && os.errors_fired == before && before == 0) fail("rejected", "%s: api %d refused an intact file without a failing call", k->name.c_str(), api);
            if (!rep && (t->digest(k->nq) != dig || ser(*t) != bytes)) fail("silent-wrong", "%s: api %d reported success and loaded another value (last fault: %s)", k->name.c_str(), api, os.last_fault.c_str());
            if (rep) ++rep_n;
            // afterwards the object is usable
            switch (o.arg(6) & 3) {
                case 0: t.reset(); break;
                case 1: t->assign(*good); break;
                case 2: { VP c(good->copy()); t->move_assign(*c); break; }
                default: put_file(base + "y", bytes); if (!t->load_file(base + "y")) fail("after-load", "%s: after a failed load, loading an intact file failed", k->name.c_str());
            }
            if (t && (t->digest(k->nq) != dig || ser(*t) != bytes)) fail("after-value", "%s: after a failed load the object does not take a new value", k->name.c_str());
            t.reset();
            if (good->digest(k->nq) != dig) fail("good-changed", "%s: another object changed", k->name.c_str());
            if (os.open_fds() && os.last_fault.find("close") == std::string::npos) fail("fd-leak", "%s: %d descriptors left open", k->name.c_str(), os.open_fds());
            if (!fc.empty()) { sdsl::ram_fs::remove(fc); os.files.erase(fc); }
            sdsl::ram_fs::remove(f); os.files.erase(f);
        }
        r.nontrivial = rep_n > 0;
        r.ev("done %d", rep_n);
    }
};
// plain and serialised vectors through load_vector_from_file, disk-backed vectors and mapped vectors
struct C03v : World {
    C03v() { name = "C03v"; }
    Plan gen(Rng& g) override
    {
        Plan p;
        p.cfg["noiseseed"] = g(1 << 30);
        if (g(3) == 0) { p.cfg["short"] = g(500); p.cfg["eintr"] = g(3) ? 0 : g(200); }
        int n = 1 + g(5);
        for (int i = 0; i < n; ++i) {
            int dmg = (int)g(9); dmg = dmg < 5 ? 0 : dmg - 5;       // 0 cut, 1 missing, 2 unreadable, 3 failing calls
            // reader, damage, cut, elements, seed, target state, buffer size, RAM
            p.op("load", {(int64_t)g(9), dmg, g(3) == 0 ? (int64_t)g(20) : (int64_t)g(1 << 24), (int64_t)g(1ULL << (1 + g(12))), (int64_t)g(1 << 20), (int64_t)g(4), (int64_t)(1 + g(1ULL << g(12))), (int64_t)(g(5) == 0)});
        }
        return p;
    }
    bool wants_dry() override { return true; }
    void place(Plan& p, Rng& g, const Run& d) override { C03 c; c.place(p, g, d); }
    template<class IV> static void fill(IV& v, Rng& g) { for (uint64_t i = 0; i < v.size(); ++i) { uint64_t x = g.next(); v[i] = v.width() < 64 ? x & ((1ULL << v.width()) - 1) : x; } }
    template<uint8_t W> void one(const Op& o, Run& r, int reader, int64_t idx)
    {
        Rng g(o.arg(4));
        const bool ram = o.arg(7) && reader != 8;
        std::string f = ram ? "@v" : "/d/v", content;
        int dmg = o.arg(1);
        if (ram && dmg == 2) dmg = 1;
        if (dmg == 3 && ram) dmg = 0;
        sdsl::int_vector<W> v(o.arg(3), 0, W ? W : 1 + g(64));
        fill(v, g);
        static const int nbs[] = {1, 2, 4, 8};
        int nb = 0;
        const char* nm;
        // 0-3: plain of nb bytes; 4: serialised; 5: decimal; 6,7: disk-backed; 8: mapped
        if (reader < 4) {
            nm = "load_vector_from_file";
            nb = nbs[reader];
            v = sdsl::int_vector<W>(o.arg(3), 0, W ? W : 8 * nb);
            fill(v, g);
            unsigned bits = std::min<unsigned>(8 * nb, v.width());
            for (uint64_t i = 0; i < v.size(); ++i) { uint64_t x = v[i]; if (bits < 64) x &= (1ULL << bits) - 1; v[i] = x; content += le(x, nb); }
        } else if (reader == 5) {
            nm = "load_vector_from_file(decimal)";
            for (uint64_t i = 0; i < v.size(); ++i) { content += std::to_string((uint64_t)v[i]); content += g(3) ? " " : "\n"; }
        } else { nm = reader == 4 ? "load_vector_from_file(serialised)" : reader < 8 ? "int_vector_buffer" : "int_vector_mapper"; content = C02::vec_bytes(v, W, false); }
        uint64_t len = content.size();
        bool must = dmg == 1 || dmg == 2;
        uint64_t cut = len;
        if (dmg == 0) {
            cut = len ? (uint64_t)o.arg(2) % len : 0;
            content.resize(cut);
            if (reader == 4 || reader == 8) must = true;     // of a disk-backed vector only the elements count
            if (reader < 4) must = cut % nb != 0;
            if (!len) must = false;
        }
        put_file(f, content);
        if (dmg == 1) { sdsl::ram_fs::remove(f); os.files.erase(f); }
        if (dmg == 2) os.files[f]->unreadable = true;
        std::string why;
        int before = os.errors_fired;
        bool rep;
        sdsl::int_vector<W> t(o.arg(5) & 1 ? 10 + o.arg(5) * 50 : 0, 1, W ? W : 17);
        bool wrong = false;
        uint64_t seen = 0;
        const uint64_t want_n = reader < 4 && dmg == 0 ? cut / nb : v.size();
        if (reader <= 5) {
            rep = reported_false([&]() { return sdsl::load_vector_from_file(t, f, reader < 4 ? nb : reader == 4 ? 0 : 'd'); }, why);
            if (!rep && !(reader == 5 && dmg == 0)) { wrong = t.size() != want_n; for (uint64_t i = 0; !wrong && i < want_n; ++i) wrong = (uint64_t)t[i] != (uint64_t)v[i]; }
        } else if (reader < 8) {
            rep = reported_false([&]() {
                sdsl::int_vector_buffer<W> b(f, std::ios::in, o.arg(6));
                if (!b.good()) return false;
                if (b.size() != v.size()) { wrong = true; return true; }
                for (uint64_t i = 0; i < b.size(); ++i) { uint64_t x = b[i]; if (!b.good()) return false; ++seen; if (x != (uint64_t)v[i]) { wrong = true; break; } }
                return true;
            }, why);
        } else {
            rep = reported_false([&]() {
                const sdsl::int_vector_mapper<W, std::ios_base::in> m(f);
                if (m.size() != v.size()) { wrong = true; return true; }
                for (uint64_t i = 0; i < m.size(); ++i) { ++seen; if ((uint64_t)m[i] != (uint64_t)v[i]) { wrong = true; break; } }
                return true;
            }, why);
        }
        r.ev("%s<%d> dmg %d cut %llu of %llu: %s", nm, W, dmg, (unsigned long long)cut, (unsigned long long)len, rep ? why.c_str() : "true");
        r.state(mix2(mix2(reader * 8 + dmg, W), cut < 64 ? cut : 64 + cut % 8));
        if (wrong) fail("silent-wrong", "%s<%d>: element %llu wrong without a report (damage %d, last fault %s)", nm, W, (unsigned long long)seen, dmg, os.last_fault.c_str());
        if (must && !rep) fail("accepted", "%s<%d>: accepted a file that was %s (%llu of %llu bytes)", nm, W, dmg == 0 ? "cut short" : dmg == 1 ? "missing" : "unreadable", (unsigned long long)cut, (unsigned long long)len);
        if (!must && rep && !(dmg == 0 && reader >= 6) && before == 0 && os.errors_fired == 0) fail("rejected", "%s<%d>: refused an intact file (%s)", nm, W, why.c_str());
        if (rep) r.nontrivial = true;
        // the vector stays usable
        if (reader <= 5) {
            t = v;
            if (!(t == v)) fail("after-value", "%s<%d>: assignment after a failed load", nm, W);
            t.resize(v.size() + 5);
        }
        if (os.open_maps()) fail("map-leak", "%s: %d mappings left", nm, os.open_maps());
        if (os.open_fds() && os.last_fault.find("close") == std::string::npos) fail("fd-leak", "%s: %d descriptors left open", nm, os.open_fds());
        sdsl::ram_fs::remove(f); os.files.erase(f);
    }
    void exec(const Plan& p, Run& r) override
    {
        Quiet q;
        os.reset(p);
        int64_t idx = 0;
        for (auto& o : p.ops) {
            int reader = o.arg(0);
            switch (o.arg(4) % 3) {
                case 0: one<0>(o, r, reader, idx); break;
                case 1: if (reader == 1 || reader == 2 || reader == 3 || reader == 5) one<64>(o, r, reader, idx); else one<8>(o, r, reader, idx); break;
                default: one<64>(o, r, reader, idx);
            }
            ++idx;
        }
        r.ev("done");
    }
};
// development aid: build and query only
struct Z0 : World {
    Z0() { name = "Z0"; }
    int64_t n = 0;
    Plan gen(Rng& g) override
    {
        Plan p;
        int64_t k = getenv("ZK") ? atoi(getenv("ZK")) : (int64_t)g(1000000);
        for (int i = 0; i < 4; ++i) p.op("b", {k, (int64_t)g(1 << 20), gen_size(g, kind_of(k))});
        return p;
    }
    void exec(const Plan& p, Run& r) override
    {
        Quiet q;
        os.reset(p);
        r.nontrivial = true;
        r.hit("kind_" + kind_of(p.ops[0].arg(0))->name);
        for (auto& o : p.ops) { Kind* k = kind_of(o.arg(0)); r.ev("kind %s %lld", k->name.c_str(), (long long)o.arg(2)); VP a(k->build(o.arg(1), o.arg(2))); uint64_t d = a->digest(k->nq); VP b(k->build(o.arg(1), o.arg(2))); if (d != b->digest(k->nq)) fail("nondet", "%s: two builds differ", k->name.c_str()); r.ev("ok"); VP c(k->fresh()); c->digest(k->nq); r.ev("freshok"); }
    }
};
AddWorld<Z0> a00; AddWorld<C17> a17; AddWorld<C01> a01; AddWorld<C02> a02; AddWorld<C03> a03; AddWorld<C03v> a03v;
}
