// The arrays a text defines, computed directly (the oracle of the construction worlds).
#pragma once
#include <algorithm>
#include <cstdint>
#include <string>
#include <vector>

namespace naive
{
typedef std::vector<uint64_t> Vec;
struct Arrays {
    Vec text, sa, isa, bwt, psi, lcp;             // text includes the terminating zero
    explicit Arrays(const Vec& t)
    {
        text = t;
        const size_t n = text.size();
        sa.resize(n); isa.resize(n); bwt.resize(n); psi.resize(n); lcp.resize(n);
        for (size_t i = 0; i < n; ++i) sa[i] = i;
        const uint64_t* T = text.data();
        if (n < 200) std::sort(sa.begin(), sa.end(), [&](uint64_t a, uint64_t b) { return std::lexicographical_compare(T + a, T + n, T + b, T + n); });
        else {                                     // prefix doubling
            Vec rank(text), next(n);
            for (size_t k = 0;; k = k ? 2 * k : 1) {
                auto second = [&](uint64_t i) { return k && i + k < n ? rank[i + k] + 1 : 0; };
                auto less = [&](uint64_t a, uint64_t b) { return rank[a] != rank[b] ? rank[a] < rank[b] : second(a) < second(b); };
                std::sort(sa.begin(), sa.end(), less);
                for (size_t i = 0; i < n; ++i) next[sa[i]] = i && !less(sa[i - 1], sa[i]) ? next[sa[i - 1]] : i;
                rank = next;
                bool distinct = true;
                for (size_t i = 0; distinct && i < n; ++i) distinct = rank[sa[i]] == i;
                if (distinct) break;
            }
        }
        for (size_t i = 0; i < n; ++i) isa[sa[i]] = i;
        for (size_t i = 0; i < n; ++i) {
            bwt[i] = T[sa[i] ? sa[i] - 1 : n - 1];
            psi[i] = isa[sa[i] + 1 < n ? sa[i] + 1 : 0];
        }
        for (size_t p = 0, l = 0; p < n; ++p) {    // a suffix shares at most one symbol less with its neighbour than the one before it
            size_t i = isa[p];
            if (!i) { l = 0; continue; }
            while (std::max(sa[i - 1], sa[i]) + l < n && T[sa[i - 1] + l] == T[sa[i] + l]) ++l;
            lcp[i] = l;
            if (l) --l;
        }
    }
};
}
