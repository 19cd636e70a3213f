// Helpers shared by the worlds that use the zoo.
#pragma once
#include "simos.hpp"
#include "zoo.hpp"
#include <sdsl/ram_fs.hpp>
#include <algorithm>
#include <iostream>
#include <sstream>

namespace
{
typedef std::unique_ptr<zoo::Val> VP;
inline std::vector<zoo::Kind*> sorted_kinds()
{
    std::vector<zoo::Kind*> k = zoo::kinds();
    std::sort(k.begin(), k.end(), [](zoo::Kind* a, zoo::Kind* b) { return a->name < b->name; });
    return k;
}
inline zoo::Kind* kind_of(int64_t i) { static std::vector<zoo::Kind*> k = sorted_kinds(); return k[(uint64_t)i % k.size()]; }
// kinds are drawn by category: text indexes are slow to build
inline int64_t gen_kind(sim::Rng& g)
{
    for (;;) {
        int64_t k = g(1000000);
        int c = kind_of(k)->cat;
        if (c == 2 ? g(4) == 0 : kind_of(k)->name == "louds_tree" ? g(4) == 0 : true) return k;
    }
}
inline unsigned gen_size(sim::Rng& g, const zoo::Kind* k)
{
    unsigned top = k->cat == 0 ? 12 : k->cat == 2 ? 8 : 10;
    if (k->cat == 2 && g(48) == 0) return 300 + (unsigned)g(2200);       // long repetitions, several blocks
    return (unsigned)g(1ULL << (1 + g(top)));
}
inline std::string ser(const zoo::Val& v) { std::ostringstream o; v.serialize(o); return o.str(); }
inline bool ram_exists(const std::string& f) { return sdsl::ram_fs::exists(f); }
inline std::string file_bytes(const std::string& f)
{
    if (f[0] == '@') { auto& c = sdsl::ram_fs::content(f); return std::string(c.data(), c.size()); }
    std::string* c = sim::os.content(f);
    return c ? *c : "";
}
inline bool there(const std::string& f) { return f[0] == '@' ? ram_exists(f) : sim::os.exists(f); }
inline void put_file(const std::string& f, const std::string& d)
{
    if (f[0] == '@') sdsl::ram_fs::store(f, sdsl::ram_fs::content_type(d.begin(), d.end()));
    else sim::os.put(f, d);
}
// the library reports on std::cerr and std::cout; nothing of that may reach the results (or grow)
struct Null : std::streambuf {
    int overflow(int c) override { return c == EOF ? 0 : c; }
    std::streamsize xsputn(const char*, std::streamsize n) override { return n; }
};
struct Quiet { Quiet() { static Null sink; std::cerr.rdbuf(&sink); std::cout.rdbuf(&sink); } };
}
