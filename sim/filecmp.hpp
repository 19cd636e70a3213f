// The file format of integer vectors, written down independently of the library.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
namespace sim
{
// content of a closed vector's file; padding of the last word is 0
inline std::string vec_file(const std::vector<uint64_t>& v, unsigned w, bool fixed, bool plain)
{
    std::string o;
    uint64_t bits = (uint64_t)v.size() * w;
    if (!plain) {
        for (int i = 0; i < 8; ++i) o.push_back((char)(bits >> (8 * i)));
        if (!fixed) o.push_back((char)w);
    }
    size_t base = o.size();
    size_t nb = plain ? (bits + 7) / 8 : (bits + 63) / 64 * 8;
    o.resize(base + nb, '\0');
    for (size_t i = 0; i < v.size(); ++i) {
        uint64_t x = w < 64 ? v[i] & ((1ULL << w) - 1) : v[i];
        uint64_t b = (uint64_t)i * w;
        for (unsigned k = 0; k < w; ++k) if ((x >> k) & 1) o[base + (b + k) / 8] |= (char)(1u << ((b + k) % 8));
    }
    return o;
}
// first difference of two files, ignoring the padding bits behind the elements; -1 if equal
inline int64_t vec_file_diff(const std::string& got, const std::string& want, uint64_t elem_bits, size_t header)
{
    if (got.size() != want.size()) return (int64_t)std::min(got.size(), want.size());
    size_t whole = header + elem_bits / 8;
    for (size_t i = 0; i < got.size() && i < whole; ++i) if (got[i] != want[i]) return i;
    if (elem_bits % 8 && whole < got.size()) {
        unsigned char m = (unsigned char)((1u << (elem_bits % 8)) - 1);
        if ((got[whole] ^ want[whole]) & m) return whole;
    }
    return -1;
}
}
