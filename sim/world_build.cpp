// C16: the builders of suffix array, inverse suffix array, BWT and LCP array work through files; each has to
// leave exactly the array of the text, however reads and writes are split and however small the buffers are.
#include "simos.hpp"
#include "naive.hpp"
#include <sdsl/config.hpp>
#include <sdsl/construct.hpp>
#include <sdsl/csa_sada.hpp>
#include <sdsl/construct_isa.hpp>
#include <sdsl/construct_lcp.hpp>
#include <sdsl/ram_fs.hpp>
#include <iostream>

using namespace sim;
using namespace sdsl;

namespace
{
struct C16 : World {
    C16() { name = "C16"; }
    Plan gen(Rng& g) override
    {
        Plan p;
        const bool bytes = g(4) != 0;
        p.cfg["bytes"] = bytes;
        p.cfg["seed"] = g(1 << 30);
        p.cfg["size"] = g(8) == 0 ? g(4) : g(8) ? 1 + g(1ULL << (2 + g(8))) : g(6) ? 1000 + g(3000) : 10000 + g(6000);
        const bool big = p.cfg["size"] > 900;
        p.cfg["style"] = g(8);
        p.cfg["sigma"] = g(8);
        p.cfg["storage"] = g(4);
        p.cfg["bufcap"] = big ? (g(2) ? 0 : 512 + g(1 << 12)) : g(4) ? 8 + g(1ULL << (3 + g(7))) : 0;
        p.cfg["defbuf"] = big ? 1 << 12 : 8 + g(1ULL << (3 + g(8)));
        p.cfg["noiseseed"] = g(1 << 30);
        if (g(2)) { p.cfg["short"] = g(2) ? g(100) : g(900); p.cfg["eintr"] = g(2) ? 0 : g(100); }
        int n = big ? 2 : 2 + (int)g(4);
        p.op("sa", {(int64_t)g(2)});
        for (int i = 0; i < n; ++i) {
            int w = (int)g(13);
            if (w == 0) p.op("sa", {(int64_t)g(2)});
            else if (w == 1) p.op("isa");
            else if (w == 2) p.op("bwt");
            else if (w == 4) p.op("psi");
            else if (w == 3) p.op("forget", {(int64_t)g(5)});          // the cache loses a file
            else p.op("lcp", {(int64_t)g(bytes ? 7 : 2)});
        }
        return p;
    }
    static naive::Vec text(const Plan& p)
    {
        Rng g(p.get("seed"));
        const bool bytes = p.get("bytes");
        const int64_t n = p.get("size");
        static const uint64_t bs[] = {1, 2, 4, 20, 97, 255, 2, 3};
        static const uint64_t is[] = {1, 2, 5, 300, 100000, 1ULL << 33, 3, 1ULL << 47};
        uint64_t sigma = (bytes ? bs : is)[p.get("sigma") & 7], low = bytes ? 1 + g(256 - sigma) : 1 + (g(2) ? 0 : g(1000));
        int style = (int)(p.get("style") & 7);
        uint64_t period = 1 + g(1ULL << (1 + g(9)));
        naive::Vec t;
        uint64_t fa = 1, fb = 1;
        for (int64_t i = 0; i < n; ++i) {
            if (style == 0 && i >= (int64_t)period && g(40)) t.push_back(t[i - period]);                   // nearly periodic
            else if (style == 1 && i >= (int64_t)period) t.push_back(t[i - period]);                       // periodic
            else if (style == 2 && i && g(30)) t.push_back(t.back());                                       // runs
            else if (style == 3 && i > 4) { if (g(25) == 0) fa = g(i); else ++fa; fa %= i; t.push_back(t[fa]); }  // copied pieces
            else if (style == 4) { if ((uint64_t)i == fa + fb) { uint64_t s = fa + fb; fa = fb; fb = s; } t.push_back(i < 2 ? low + i % sigma : t[i - std::min<uint64_t>(i, fb)]); }
            else t.push_back(low + g(sigma));
        }
        t.push_back(0);
        return t;
    }
    template<uint8_t W> static void put_text(const naive::Vec& t, cache_config& c)
    {
        int_vector<W> v(t.size(), 0, 64);
        for (size_t i = 0; i < t.size(); ++i) v[i] = t[i];
        if (W == 0) util::bit_compress(*(int_vector<>*)&v);
        store_to_cache(v, key_text_trait<W>::KEY_TEXT, c);
    }
    template<uint8_t W> static void compare(Run& r, const char* what, const std::string& key, cache_config& c, const naive::Vec& want)
    {
        int_vector<W> v;
        std::string f = cache_file_name(key, c);
        if (!cache_file_exists(key, c)) fail(std::string("missing:") + what, "%s: no output file", what);
        if (!load_from_file(v, f)) fail(std::string("unloadable:") + what, "%s: the output cannot be loaded", what);
        if (v.size() != want.size()) fail(std::string("size:") + what, "%s: %zu elements instead of %zu", what, (size_t)v.size(), want.size());
        for (size_t i = 0; i < want.size(); ++i) if (v[i] != want[i]) fail(std::string("wrong:") + what, "%s: element %zu of %zu is %llu instead of %llu", what, i, want.size(), (unsigned long long)v[i], (unsigned long long)want[i]);
        if (!c.file_map.count(key)) fail(std::string("unregistered:") + what, "%s: the output is not registered", what);
        r.hit(std::string("built_") + what);
    }
    static void erase(const std::string& f) { if (f[0] == '@') ram_fs::remove(f); else os.files.erase(norm_path(f.c_str())); }
    static void drop(const char* key, cache_config& c)
    {
        std::string f = cache_file_name(key, c);
        if (cache_file_exists(key, c)) erase(f);
        c.file_map.erase(key);
    }
    template<uint8_t W> void go(const Plan& p, Run& r)
    {
        static const char* dirs[] = {".", "/d", "/d/sub", "@"};
        const naive::Vec t = text(p);
        const naive::Arrays a(t);
        cache_config c(false, dirs[p.get("storage") & 3], "b");
        const char* KBWT = key_bwt_trait<W>::KEY_BWT;
        { put_text<W>(t, c); }
        bool has_sa = false, has_bwt = false;
        auto sa = [&](int64_t se) {
            drop(conf::KEY_SA, c);
            construct_config::byte_algo_sa = se ? SE_SAIS : LIBDIVSUFSORT;
            { Inject i; construct_sa<W>(c); }
            construct_config::byte_algo_sa = LIBDIVSUFSORT;
            compare<0>(r, W == 0 ? "sa_qsufsort" : se ? "sa_se_sais" : "sa_divsufsort", conf::KEY_SA, c, a.sa);
            has_sa = true;
        };
        auto bwt = [&]() {
            drop(KBWT, c);
            { Inject i; construct_bwt<W>(c); }
            compare<W>(r, "bwt", KBWT, c, a.bwt);
            has_bwt = true;
        };
        for (auto& o : p.ops) {
            r.ev("%s %lld", o.name.c_str(), (long long)o.arg(0));
            r.state(mix2(mix2(o.arg(0), o.name[0] * 256 + o.name[1]), mix2(t.size() < 3 ? t.size() : t.size() < 300 ? 3 : t.size() < 5000 ? 4 : 5, p.get("style") * 8 + p.get("sigma"))));
            if (o.name == "sa") sa(o.arg(0));
            else if (o.name == "isa") {
                if (!has_sa) sa(0);
                drop(conf::KEY_ISA, c);
                { Inject i; construct_isa(c); }
                compare<0>(r, "isa", conf::KEY_ISA, c, a.isa);
            }
            else if (o.name == "bwt") { if (!has_sa) sa(0); bwt(); }
            else if (o.name == "forget") {
                if (o.arg(0) == 0) { drop(conf::KEY_ISA, c); }
                else if (o.arg(0) == 1) { drop(conf::KEY_LCP, c); }
                else if (o.arg(0) == 2) { drop(conf::KEY_SA, c); has_sa = false; }
                else if (o.arg(0) == 3) { drop(KBWT, c); has_bwt = false; }
                else drop(conf::KEY_PSI, c);
            } else if (o.name == "psi") {          // built by the constructor of csa_sada
                // int_alphabet takes one bit per value up to the largest symbol: no room for those of 2^33 and 2^47
                if (!p.get("bytes") && ((p.get("sigma") & 7) == 5 || (p.get("sigma") & 7) == 7)) continue;
                if (!has_sa) sa(0);
                if (!has_bwt) bwt();
                drop(conf::KEY_PSI, c);
                typedef typename std::conditional<W == 8, csa_sada<>, csa_sada<enc_vector<>, 32, 64, sa_order_sa_sampling<>, isa_sampling<>, int_alphabet<>>>::type T;
                { Inject i; T x(c); }
                compare<0>(r, "psi", conf::KEY_PSI, c, a.psi);
            } else {
                if (!has_sa) sa(0);
                if (!has_bwt) bwt();
                drop(conf::KEY_LCP, c);
                static const char* names[] = {"lcp_kasai", "lcp_PHI", "lcp_semi_extern_PHI", "lcp_go", "lcp_goPHI", "lcp_bwt_based", "lcp_bwt_based2"};
                int k = (int)(o.arg(0) % (W ? 7 : 2));
                {
                    Inject i;
                    if (k == 0) construct_lcp_kasai<W>(c);
                    else if (k == 1) construct_lcp_PHI<W>(c);
                    else if (k == 2) construct_lcp_semi_extern_PHI(c);
                    else if (k == 3) construct_lcp_go(c);
                    else if (k == 4) construct_lcp_goPHI(c);
                    else if (k == 5) construct_lcp_bwt_based(c);
                    else construct_lcp_bwt_based2(c);
                }
                compare<0>(r, names[k], conf::KEY_LCP, c, a.lcp);
            }
            // nothing that was there has changed
            compare<W>(r, "text", key_text_trait<W>::KEY_TEXT, c, a.text);
            if (has_sa) compare<0>(r, "sa_after", conf::KEY_SA, c, a.sa);
            if (has_bwt) compare<W>(r, "bwt_after", KBWT, c, a.bwt);
            if (os.open_fds()) fail("fd-leak", "%s: %d descriptors left", o.name.c_str(), os.open_fds());
        }
        r.nontrivial = true;
    }
    void exec(const Plan& p, Run& r) override
    {
        struct Null : std::streambuf { int overflow(int c) override { return c == EOF ? 0 : c; } };
        static Null sink;
        std::cerr.rdbuf(&sink); std::cout.rdbuf(&sink);
        os.reset(p);
        if (p.get("bytes")) go<8>(p, r); else go<0>(p, r);
    }
};
AddWorld<C16> a16;
}
