// The structures of the library behind one interface: build, query, copy, move, assign, swap, store, load.
#pragma once
#include "core.hpp"
#include <functional>
#include <iosfwd>
#include <memory>
#include <string>
#include <vector>

namespace sdsl { struct cache_config; }
namespace zoo
{
struct Val {
    virtual ~Val() {}
    virtual uint64_t query(uint64_t q) const = 0;             // one query, chosen by q
    virtual uint64_t serialize(std::ostream& out) const = 0;  // returns what the structure reports
    virtual uint64_t serialize_tree(std::ostream& out) const = 0; // the same with a size statistic
    virtual uint64_t bytes() const = 0;                       // size_in_bytes
    virtual void load(std::istream& in) = 0;
    virtual bool store_file(const std::string& f) const = 0;
    virtual bool load_file(const std::string& f) = 0;
    virtual bool store_checked(const std::string& f) const = 0;
    virtual bool load_checked(const std::string& f) = 0;
    virtual bool store_cache(const std::string& dir, const std::string& key, std::string& file, bool hash) const = 0;
    virtual bool load_cache(const std::string& dir, const std::string& key, bool hash) = 0;
    virtual Val* copy() const = 0;                            // copy construction
    virtual Val* take() = 0;                                  // move construction from this
    virtual void assign(const Val&) = 0;
    virtual void move_assign(Val&) = 0;
    virtual void swap(Val&) = 0;
    virtual void stdswap(Val&) = 0;
    // compares the structure with the text it was built for (without terminating zero); "" or what is wrong
    virtual std::string agrees(const std::vector<uint64_t>& text) const { (void)text; return ""; }
    uint64_t digest(unsigned n) const
    {
        uint64_t h = 88172645463325252ULL;
        for (unsigned q = 0; q < n; ++q) h = sim::mix2(h, query(q));
        return h;
    }
};
// how build() obtains structures that are built by construct(): from a file, with a given configuration
struct How {
    std::string file;                       // input file; empty: construct_im
    int rep = 0;                            // representation of the text: 0 serialised, 1/4/8 plain, 'd' decimal
    sdsl::cache_config* cfg = nullptr;      // null: the default configuration
    std::function<void(const std::string& file, const std::string& bytes)> put;    // writes the input
    std::function<void(const std::function<void()>&)> run;                         // performs the construction
};
extern thread_local How* how;
struct Kind {
    bool cons = false;          // built by construct()
    bool bytetext = false;
    std::string name;
    int cat;                    // 0 vectors/bits, 1 sequences, 2 text indexes, 3 other
    bool def;                   // has a default constructor
    unsigned nq;                // queries that make up a digest
    virtual ~Kind() {}
    virtual Val* fresh() const = 0;                           // default constructed (or smallest)
    virtual Val* build(uint64_t seed, unsigned size) const = 0;
};
std::vector<Kind*>& kinds();
}
