// Instantiations of the zoo; compiled once per PART.
#include "zoo.hpp"
#include "naive.hpp"
#include <sdsl/vectors.hpp>
#include <sdsl/bit_vectors.hpp>
#include <sdsl/hyb_vector.hpp>
#include <sdsl/io.hpp>
#include <array>
#include <map>
#include <set>
#if PART >= 3
#include <sdsl/wavelet_trees.hpp>
#include <sdsl/suffix_arrays.hpp>
#endif
#if PART >= 7
#include <sdsl/suffix_trees.hpp>
#endif
#if PART == 6
#include <sdsl/rmq_support.hpp>
#include <sdsl/bp_support.hpp>
#include <sdsl/k2_treap.hpp>
#include <sdsl/k2_tree.hpp>
#include <sdsl/louds_tree.hpp>
#include <sdsl/inv_perm_support.hpp>
#include <sdsl/nn_dict_dynamic.hpp>
#include <sdsl/sorted_int_stack.hpp>
#include <sdsl/sorted_stack_support.hpp>
#include <sdsl/sorted_multi_stack_support.hpp>
#include <sdsl/bp_support_gg.hpp>
#include <sdsl/bp_support_g.hpp>
#include <sdsl/nearest_neighbour_dictionary.hpp>
#include <sdsl/suffix_trees.hpp>
#endif

using namespace sdsl;
using sim::Rng;
using sim::mix2;

namespace
{
template<class T> using HasDefault = std::is_default_constructible<T>;
template<class X> auto do_swap(X& a, X& b, int) -> decltype(a.swap(b)) { a.swap(b); }
template<class X> void do_swap(X& a, X& b, ...) { std::swap(a, b); }
template<class A, class B> std::string differ(const char* what, size_t i, A got, B want)
{
    return (uint64_t)got == (uint64_t)want ? std::string() : std::string(what) + "[" + std::to_string(i) + "] is " + std::to_string((uint64_t)got) + " instead of " + std::to_string((uint64_t)want);
}
#define DIFF(what, i, got, want) do { std::string d_ = differ(what, i, got, want); if (!d_.empty()) return d_; } while (0)
template<class T> auto agree(const T&, const naive::Vec&, ...) -> std::string { return ""; }
#if PART >= 3
template<class C> std::string agree_csa(const C& c, const naive::Arrays& a)
{
    const size_t n = a.text.size();
    DIFF("size", 0, c.size(), n);
    for (size_t i = 0; i < n; ++i) {
        DIFF("sa", i, c[i], a.sa[i]); DIFF("isa", i, c.isa[i], a.isa[i]); DIFF("bwt", i, c.bwt[i], a.bwt[i]);
        DIFF("psi", i, c.psi[i], a.psi[i]); DIFF("lf", a.psi[i], c.lf[a.psi[i]], i); DIFF("text", i, c.text[i], a.text[i]);
        DIFF("F", i, c.F[i], a.text[a.sa[i]]);
    }
    std::map<uint64_t, uint64_t> cnt, before;
    for (uint64_t x : a.text) ++cnt[x];
    DIFF("sigma", 0, c.sigma, cnt.size());
    uint64_t sum = 0, comp = 0;
    for (auto& x : cnt) { before[x.first] = sum; DIFF("char2comp", x.first, c.char2comp[x.first], comp); DIFF("comp2char", comp, c.comp2char[comp], x.first); DIFF("C", comp, c.C[comp], sum); sum += x.second; ++comp; }
    DIFF("C", comp, c.C[comp], sum);
    Rng g(n * 31 + cnt.size());
    // patterns of the text, some of them changed
    for (int k = 0; k < 10 && n > 2; ++k) {
        size_t b = g(n - 1), m = 1 + g(std::min<size_t>(n - 1 - b, g(3) ? 4 : 40));
        typename C::string_type pat(m, 0);
        for (size_t i = 0; i < m; ++i) pat[i] = a.text[b + i];
        if (g(3) == 0) pat[g(m)] = a.text[g(n - 1)];
        std::vector<uint64_t> occ;
        uint64_t l = 0, r = 0;
        for (size_t i = 0; i < n; ++i) {
            size_t q = a.sa[i];
            bool same = q + m < n;
            for (size_t j = 0; same && j < m; ++j) same = a.text[q + j] == (uint64_t)(typename C::char_type)pat[j];
            if (same) { if (occ.empty()) l = i; r = i; occ.push_back(q); }
        }
        DIFF("count", b, count(c, pat.begin(), pat.end()), occ.size());
        auto got = locate(c, pat.begin(), pat.end());
        std::vector<uint64_t> gs(got.begin(), got.end());
        std::sort(gs.begin(), gs.end()); std::sort(occ.begin(), occ.end());
        DIFF("locate", b, gs != occ, 0);
        typename C::size_type lr = 0, rr = 0, num = backward_search(c, 0, n - 1, pat.begin(), pat.end(), lr, rr);
        DIFF("backward_search", b, num, occ.size());
        if (num) { DIFF("backward_search left", b, lr, l); DIFF("backward_search right", b, rr, r); }
        num = forward_search(c, (typename C::size_type)0, n - 1, pat.begin(), pat.end(), lr, rr);
        DIFF("forward_search", b, num, occ.size());
        if (num) { DIFF("forward_search left", b, lr, l); DIFF("forward_search right", b, rr, r); }
        auto t = extract(c, b, b + m - 1);
        DIFF("extract", b, t.size(), m);
        for (size_t i = 0; i < m; ++i) DIFF("extract", b + i, (typename C::char_type)t[i], a.text[b + i]);
        uint64_t ch = a.text[g(n)], i = g(n + 1), w = 0;
        std::vector<uint64_t> at;
        for (size_t j = 0; j < n; ++j) { if (a.bwt[j] == ch) { if (j < i) ++w; at.push_back(j); } }
        DIFF("bwt rank", i, c.bwt.rank(i, ch), w);
        w = g(at.size());
        DIFF("bwt select", w, c.bwt.select(w + 1, ch), at[w]);
    }
    return "";
}
template<class L> std::string agree_lcp(const L& l, const naive::Arrays& a)
{
    DIFF("size", 0, l.size(), a.lcp.size());
    for (size_t i = 0; i < a.lcp.size(); ++i) DIFF("lcp", i, l[i], a.lcp[i]);
    return "";
}
inline naive::Vec with_zero(naive::Vec t) { t.push_back(0); return t; }
template<class T> std::string agree_tag(const T& c, const naive::Vec& t, csa_tag) { return agree_csa(c, naive::Arrays(with_zero(t))); }
template<class T> std::string agree_tag(const T& c, const naive::Vec& t, lcp_tag) { return agree_lcp(c, naive::Arrays(with_zero(t))); }
template<class T> std::string agree_tag(const T& c, const naive::Vec& t, cst_tag)
{
    naive::Arrays a(with_zero(t));
    std::string d = agree_csa(c.csa, a);
    if (d.empty()) d = agree_lcp(c.lcp, a);
    if (!d.empty()) return d;
    // the nodes are the distinct lcp intervals
    const size_t n = a.lcp.size();
    std::set<std::pair<size_t, size_t>> iv;
    for (size_t i = 0; i < n; ++i) {
        iv.insert({i, i});
        if (i == 0) continue;
        size_t l = i - 1, r = i;
        while (l > 0 && a.lcp[l] >= a.lcp[i]) --l;
        while (r + 1 < n && a.lcp[r + 1] >= a.lcp[i]) ++r;
        iv.insert({l, r});
    }
    DIFF("nodes", 0, c.nodes(), iv.size());
    // some nodes and their neighbourhood
    typedef std::pair<size_t, size_t> I;
    auto grow = [&](size_t l, size_t r, uint64_t m) { while (l > 0 && a.lcp[l] >= m) --l; while (r + 1 < n && a.lcp[r + 1] >= m) ++r; return I(l, r); };
    auto depth = [&](I x) { if (x.first == x.second) return (uint64_t)n - a.sa[x.first]; uint64_t m = n; for (size_t i = x.first + 1; i <= x.second; ++i) m = std::min(m, a.lcp[i]); return m; };
    auto hull = [&](size_t l, size_t r) { if (l > r) std::swap(l, r); return l == r ? I(l, l) : grow(l, r, depth(I(l, r))); };
    auto up = [&](I x) { uint64_t m = std::max(x.first ? a.lcp[x.first] : 0, x.second + 1 < n ? a.lcp[x.second + 1] : 0); return x == I(0, n - 1) ? x : grow(x.first, x.second, m); };
    auto kids = [&](I x) { std::vector<I> r; if (x.first == x.second) return r; uint64_t m = depth(x); size_t l = x.first; for (size_t i = x.first + 1; i <= x.second; ++i) if (a.lcp[i] == m) { r.push_back(I(l, i - 1)); l = i; } r.push_back(I(l, x.second)); return r; };
    typedef typename T::node_type N;
#define NODE(what, v, want) do { N v_ = (v); I w_ = (want); DIFF(what " lb", x.first, c.lb(v_), w_.first); DIFF(what " rb", x.first, c.rb(v_), w_.second); } while (0)
    Rng g(n * 31 + iv.size());
    for (int k = 0; k < 12 && n > 1; ++k) {
        size_t i = g(n), j = g(3) ? std::min<size_t>(n - 1, i + g(4)) : g(n);
        const I x = hull(i, j), root(0, n - 1);
        const N v = c.lca(c.select_leaf(i + 1), c.select_leaf(j + 1));
        NODE("lca", v, x);
        DIFF("size", x.first, c.size(v), x.second - x.first + 1);
        const uint64_t d = depth(x);
        DIFF("depth", x.first, c.depth(v), d);
        DIFF("is_leaf", x.first, c.is_leaf(v), x.first == x.second);
        DIFF("root", x.first, v == c.root(), x == root);
        uint64_t nd = 0;
        for (I y = x; y != root; y = up(y)) ++nd;
        DIFF("node_depth", x.first, c.node_depth(v), nd);
        NODE("parent", c.parent(v), up(x));
        NODE("leftmost_leaf", c.leftmost_leaf(v), I(x.first, x.first));
        NODE("rightmost_leaf", c.rightmost_leaf(v), I(x.second, x.second));
        const auto ch = kids(x);
        DIFF("degree", x.first, c.degree(v), ch.size());
        size_t q = 0;
        for (auto y : c.children(v)) { if (q >= ch.size()) return "too many children"; NODE("children", y, ch[q]); ++q; }
        DIFF("children", x.first, q, ch.size());
        if (q) {
            q = g(q);
            NODE("select_child", c.select_child(v, q + 1), ch[q]);
            const N y = c.select_child(v, q + 1);
            if (q + 1 < ch.size()) NODE("sibling", c.sibling(y), ch[q + 1]);
            const uint64_t f = a.text[a.sa[ch[q].first] + d];
            NODE("child", c.child(v, f), ch[q]);
            typename T::size_type pos = d;   // the depth of v for some trees, a result for others
            NODE("child", c.child(v, f, pos), ch[q]);
            uint64_t absent = a.text[g(n)];
            bool found = false;
            for (auto& z : ch) found |= a.text[a.sa[z.first] + d] == absent;
            if (!found) DIFF("absent child", absent, c.child(v, absent) == c.root(), 1);
        }
        if (d) { uint64_t e = g(d); DIFF("edge", x.first, c.edge(v, e + 1), a.text[a.sa[x.first] + e]); }
        if (d > 1) NODE("sl", c.sl(v), hull(a.isa[a.sa[x.first] + 1], a.isa[a.sa[x.second] + 1]));
        if (x.first == x.second) DIFF("sn", x.first, c.sn(v), a.sa[x.first]);
        else {
            const uint64_t f = a.bwt[x.first + g(x.second - x.first + 1)];
            size_t l = n, r = 0;
            for (size_t z = x.first; z <= x.second; ++z) if (a.bwt[z] == f) { size_t w = a.isa[(a.sa[z] + n - 1) % n]; l = std::min(l, w); r = std::max(r, w); }
            if (f) NODE("wl", c.wl(v, f), I(l, r));
        }
    }
#undef NODE
    return "";
}
inline uint64_t range_size(const range_type& r) { return r[1] + 1 - r[0]; }
template<class T> auto agree_lex(const T& w, const naive::Vec& t, Rng& g, int) -> decltype(w.lex_count(0, 0, 0), std::string())
{
    for (int k = 0; k < 6; ++k) {
        uint64_t i = g(t.size()), j = i + g(t.size() - i + 1), c = t[g(t.size())], rk = 0, sm = 0, gr = 0, s0 = 0;
        for (uint64_t q = 0; q < j; ++q) { if (q < i) rk += t[q] == c, s0 += t[q] < c; else sm += t[q] < c, gr += t[q] > c; }
        auto x = w.lex_count(i, j, c);
        DIFF("lex_count rank", i, std::get<0>(x), rk); DIFF("lex_count smaller", i, std::get<1>(x), sm); DIFF("lex_count greater", i, std::get<2>(x), gr);
        auto y = w.lex_smaller_count(i, c);
        DIFF("lex_smaller_count rank", i, std::get<0>(y), rk); DIFF("lex_smaller_count", i, std::get<1>(y), s0);
    }
    return "";
}
template<class T> std::string agree_lex(const T&, const naive::Vec&, Rng&, long) { return ""; }
template<class T> auto agree_2d(const T& w, const naive::Vec& t, Rng& g, int) -> decltype(w.range_search_2d(0, 0, 0, 0), std::string())
{
    for (int k = 0; k < 4; ++k) {
        uint64_t i = g(t.size()), j = i + g(t.size() - i), lo = t[g(t.size())], hi = t[g(t.size())];
        if (lo > hi) std::swap(lo, hi);
        std::vector<std::pair<uint64_t, uint64_t>> want, got;
        for (uint64_t q = i; q <= j; ++q) if (lo <= t[q] && t[q] <= hi) want.push_back({t[q], q});
        auto x = w.range_search_2d(i, j, lo, hi);
        for (auto& p : x.second) got.push_back({p.second, p.first});
        std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
        DIFF("range_search_2d count", i, x.first, want.size());
        DIFF("range_search_2d points", i, got != want, 0);
        DIFF("range_search_2d count only", i, w.range_search_2d(i, j, lo, hi, false).first, want.size());
    }
    return "";
}
template<class T> std::string agree_2d(const T&, const naive::Vec&, Rng&, long) { return ""; }
template<class T> std::string agree_quantile(const T& w, const naive::Vec& t, Rng& g, std::true_type)
{
    for (int k = 0; k < 6; ++k) {
        uint64_t i = g(t.size()), j = i + g(t.size() - i), q = g(j - i + 1);
        std::vector<uint64_t> s(t.begin() + i, t.begin() + j + 1);
        std::sort(s.begin(), s.end());
        auto x = quantile_freq(w, i, j, q);
        DIFF("quantile", i, x.first, s[q]); DIFF("quantile freq", i, x.second, std::count(s.begin(), s.end(), s[q]));
        std::vector<uint64_t> all(t);
        std::sort(all.begin(), all.end());
        uint64_t lo = all[g(all.size())], hi = all[g(all.size())];
        if (lo > hi) std::swap(lo, hi);
        std::vector<uint64_t> u;
        for (uint64_t v : s) if (lo <= v && v <= hi && (u.empty() || u.back() != v)) u.push_back(v);
        auto r = restricted_unique_range_values(w, i, j, lo, hi);
        DIFF("unique values", i, std::vector<uint64_t>(r.begin(), r.end()) != u, 0);
        uint64_t c = g(3) ? lo + g(3) : g(all.back() + 2);
        if ((uint64_t)(typename T::value_type)c != c) continue;
        auto le = symbol_lte(w, c), ge = symbol_gte(w, c);
        auto it = std::upper_bound(all.begin(), all.end(), c);
        DIFF("symbol_lte found", c, le.first, it != all.begin());
        if (le.first) DIFF("symbol_lte", c, le.second, *(it - 1));
        it = std::lower_bound(all.begin(), all.end(), c);
        DIFF("symbol_gte found", c, ge.first, it != all.end());
        if (ge.first) DIFF("symbol_gte", c, ge.second, *it);
    }
    return "";
}
template<class T> std::string agree_quantile(const T&, const naive::Vec&, Rng&, std::false_type) { return ""; }
template<class T> auto agree_nodes(const T& w, const naive::Vec& t, Rng& g, int) -> decltype(w.expand(w.root()), w.path(0), std::string())
{
    uint64_t n = t.size();
    std::map<uint64_t, std::array<uint64_t, 2>> m;
    for (int k = 0; k < 3; ++k) {
        uint64_t i = g(n), j = i + g(n - i + 1), num = 0;
        m.clear();
        for (uint64_t q = 0; q < j; ++q) { auto& e = m[t[q]]; e[0] += q < i; ++e[1]; }
        for (auto it = m.begin(); it != m.end();) if (it->second[0] == it->second[1]) it = m.erase(it); else ++it;
        std::vector<typename T::value_type> cs(w.sigma); std::vector<typename T::size_type> ri(w.sigma), rj(w.sigma);
        typename T::size_type got = 0;
        sdsl::interval_symbols(w, i, j, got, cs, ri, rj);
        DIFF("interval_symbols", i, got, m.size());
        std::map<uint64_t, std::array<uint64_t, 2>> x;
        for (uint64_t q = 0; q < got; ++q) { x[cs[q]] = {{ri[q], rj[q]}}; if (T::lex_ordered && q && !(cs[q - 1] < cs[q])) return "interval_symbols are not sorted"; }
        DIFF("interval_symbols ranges", i, x != m, 0);
        // values that are in both ranges
        uint64_t a = g(n), b = a + g(n - a), c = g(n), d = c + g(n - c);
        std::map<uint64_t, uint64_t> p, q, both;
        for (num = a; num <= b; ++num) ++p[t[num]];
        for (num = c; num <= d; ++num) ++q[t[num]];
        for (auto& y : p) if (q.count(y.first)) both[y.first] = y.second + q[y.first];
        auto is = intersect(w, {{{a, b}}, {{c, d}}});
        std::map<uint64_t, uint64_t> im(is.begin(), is.end());
        DIFF("intersect", a, im != both || is.size() != both.size(), 0);
    }
    // the sequence of a node, and of the leaf below a symbol
    auto v = w.root();
    naive::Vec s(t);
    while (!w.is_leaf(v)) {
        DIFF("node size", 0, w.size(v), s.size());
        DIFF("node empty", 0, w.empty(v), s.empty());
        if (s.empty()) return "";
        auto sq = w.seq(v);
        auto bv = w.bit_vec(v);
        DIFF("bit_vec size", 0, bv.size(), s.size());
        for (int k = 0; k < 4; ++k) { uint64_t i = g(s.size()); DIFF("seq", i, sq[i], s[i]); }
        auto ch = w.expand(v);
        uint64_t side = g(2);
        naive::Vec z[2];
        for (uint64_t i = 0; i < s.size(); ++i) z[(bool)bv[i]].push_back(s[i]);
        uint64_t a = g(s.size()), b = a + g(s.size() - a), k0 = 0, z0 = 0;
        for (uint64_t i = 0; i <= b; ++i) { k0 += !bv[i]; if (i < a) z0 += !bv[i]; }
        auto cr = w.expand(v, range_type{{a, b}});
        DIFF("expand range", a, range_size(cr[0]), k0 - z0); DIFF("expand range", a, range_size(cr[1]), b + 1 - a - (k0 - z0));
        if (k0 > z0) DIFF("expand left", a, cr[0][0], z0);
        if (z[side].empty()) side = 1 - side;
        s = z[side]; v = ch[side];
    }
    DIFF("leaf size", 0, w.size(v), s.size());
    for (uint64_t i = 0; i < s.size(); ++i) DIFF("sym", i, w.sym(v), s[i]);
    return agree_quantile(w, t, g, std::integral_constant<bool, T::lex_ordered != 0>());
}
template<class T> std::string agree_nodes(const T&, const naive::Vec&, Rng&, long) { return ""; }
template<class T> std::string agree_tag(const T& w, const naive::Vec& t, wt_tag)
{
    DIFF("size", 0, w.size(), t.size());
    std::map<uint64_t, uint64_t> cnt;
    for (size_t i = 0; i < t.size(); ++i) {
        DIFF("wt", i, w[i], t[i]);
        DIFF("rank", i, w.rank(i, t[i]), cnt[t[i]]);
        ++cnt[t[i]];
        DIFF("select", i, w.select(cnt[t[i]], t[i]), i);
        auto p = w.inverse_select(i);
        DIFF("inverse_select symbol", i, p.second, t[i]); DIFF("inverse_select rank", i, p.first, cnt[t[i]] - 1);
    }
    if (t.empty()) return "";
    DIFF("sigma", 0, w.sigma, cnt.size());
    Rng g(t.size() * 31 + cnt.size());
    for (int k = 0; k < 8; ++k) {
        uint64_t i = g(t.size() + 1), c = t[g(t.size())], r = 0;
        for (uint64_t q = 0; q < i; ++q) r += t[q] == c;
        DIFF("rank", i, w.rank(i, c), r);
    }
    std::string d = agree_lex(w, t, g, 0);
    if (d.empty()) d = agree_2d(w, t, g, 0);
    if (d.empty()) d = agree_nodes(w, t, g, 0);
    return d;
}
template<class T> auto agree(const T& x, const naive::Vec& t, int) -> decltype(typename T::index_category(), typename T::alphabet_category(), std::string()) { return agree_tag(x, t, typename T::index_category()); }
template<class T> auto agree(const T& x, const naive::Vec& t, int) -> typename std::enable_if<std::is_same<typename T::index_category, lcp_tag>::value, std::string>::type { return agree_tag(x, t, lcp_tag()); }
#endif
template<class T, class Mk, class Qu>
struct KindT : zoo::Kind {
    Mk mk; Qu qu; std::function<T()> fr;
    KindT(Mk m, Qu q, std::function<T()> f) : mk(m), qu(q), fr(f) {}
    struct V : zoo::Val {
        T x; const KindT* k;
        V(T&& t, const KindT* kk) : x(std::move(t)), k(kk) {}
        V(const KindT* kk, const T& t) : x(t), k(kk) {}
        static V& of(zoo::Val& v) { return static_cast<V&>(v); }
        static const V& of(const zoo::Val& v) { return static_cast<const V&>(v); }
        uint64_t query(uint64_t q) const override { Rng g(q * 0x9e3779b97f4a7c15ULL + 7); return k->qu(x, g); }
        uint64_t serialize(std::ostream& out) const override { return x.serialize(out); }
        uint64_t serialize_tree(std::ostream& out) const override
        {
            std::unique_ptr<structure_tree_node> st(new structure_tree_node("name", "type"));
            return x.serialize(out, st.get(), "zoo");
        }
        uint64_t bytes() const override { return size_in_bytes(x); }
        void load(std::istream& in) override { x.load(in); }
        bool store_file(const std::string& f) const override { return store_to_file(x, f); }
        bool load_file(const std::string& f) override { return load_from_file(x, f); }
        bool store_checked(const std::string& f) const override { return store_to_checked_file(x, f); }
        bool load_checked(const std::string& f) override { return load_from_checked_file(x, f); }
        bool store_cache(const std::string& dir, const std::string& key, std::string& file, bool hash) const override { return s_cache(x, dir, key, file, hash, HasDefault<T>()); }
        bool load_cache(const std::string& dir, const std::string& key, bool hash) override { return l_cache(x, dir, key, hash, HasDefault<T>()); }
        template<class X> static bool s_cache(const X& x, const std::string& dir, const std::string& key, std::string& file, bool hash, std::true_type)
        {
            cache_config c(false, dir, "z");
            bool r = store_to_cache(x, key, c, hash);
            file = hash ? cache_file_name<X>(key, c) : cache_file_name(key, c);
            return r;
        }
        template<class X> static bool l_cache(X& x, const std::string& dir, const std::string& key, bool hash, std::true_type) { cache_config c(false, dir, "z"); return load_from_cache(x, key, c, hash); }
        template<class X> static bool s_cache(const X& x, const std::string& dir, const std::string& key, std::string& file, bool, std::false_type) { file = dir + "/" + key + ".z"; return store_to_file(x, file); }
        template<class X> static bool l_cache(X& x, const std::string& dir, const std::string& key, bool, std::false_type) { return load_from_file(x, dir + "/" + key + ".z"); }
        zoo::Val* copy() const override { return new V(k, x); }
        zoo::Val* take() override { return new V(std::move(x), k); }
        void assign(const zoo::Val& o) override { x = of(o).x; }
        void move_assign(zoo::Val& o) override { x = std::move(of(o).x); }
        void swap(zoo::Val& o) override { do_swap(x, of(o).x, 0); }
        std::string agrees(const naive::Vec& t) const override { return k->cons ? agree(x, t, 0) : std::string(); }
        void stdswap(zoo::Val& o) override { std::swap(x, of(o).x); }
    };
    zoo::Val* fresh() const override { return new V(fr(), this); }
    zoo::Val* build(uint64_t seed, unsigned size) const override { Rng g(seed); return new V(mk(g, size), this); }
};

template<class Mk, class Qu>
void add(const char* name, int cat, Mk mk, Qu qu, unsigned nq = 60)
{
    typedef decltype(mk(std::declval<Rng&>(), 0u)) T;
    auto k = new KindT<T, Mk, Qu>(mk, qu, []() { return T(); });
    k->name = name; k->cat = cat; k->def = true; k->nq = nq;
    zoo::kinds().push_back(k);
}
template<class T, class Mk, class Qu>
void add_nodef(const char* name, int cat, Mk mk, Qu qu, std::function<T()> fr, unsigned nq = 60)
{
    auto k = new KindT<T, Mk, Qu>(mk, qu, fr);
    k->name = name; k->cat = cat; k->def = false; k->nq = nq;
    zoo::kinds().push_back(k);
}

// ------------------------------------------------------------ sources
bit_vector mk_bits(Rng& g, unsigned n)
{
    bool large = n > 64 && g(16) == 0;        // long blocks and several superblocks in select structures
    n = large ? 84000 + g(60000) : n * 10 + g(65);
    switch (g(6)) { case 0: n = n / 64 * 64; break; case 1: n = n / 512 * 512; break; default:; }
    bit_vector b(n, 0);
    unsigned style = g(6);
    uint64_t dens = style == 0 ? 2 : style == 1 ? 40 : style == 2 ? (large && g(2) ? 9000 : 900) : 8;
    if (style == 3) { for (unsigned i = 0; i < n;) { unsigned run = 1 + g(200); bool v = g(2); for (; run && i < n; --run, ++i) b[i] = v; } }
    else if (style == 4) { for (unsigned i = 0; i < n; ++i) b[i] = g(dens) != 0; }
    else for (unsigned i = 0; i < n; ++i) b[i] = g(dens) == 0;
    return b;
}
template<class IV> IV mk_ints(Rng& g, unsigned n, bool small = false)
{
    IV v(n, 0);
    unsigned w = v.width();
    unsigned style = g(5);
    if (small) style = 2;
    uint64_t x = 0;
    for (unsigned i = 0; i < n; ++i) {
        if (style == 0) x = g.next();
        else if (style == 1) x = g.next() >> (g(64));
        else if (style == 2) x = g(1 + n / 4);
        else if (style == 3) x += g(50);
        else x = i % 7;
        v[i] = w < 64 ? x & ((1ULL << w) - 1) : x;
    }
    return v;
}
std::string mk_text(Rng& g, unsigned n)
{
    std::string t;
    unsigned sigma = g(3) == 0 ? 2 : g(2) ? 4 : 1 + g(90);
    unsigned style = g(4), period = 1 + g(30), error = g(3) ? 2000 : 200, low = g(4) ? 33 : 256 - sigma;
    for (unsigned i = 0; i < n; ++i) {
        if (n > 260 && style < 2) t.push_back(i >= period && g(error) ? t[i - period] : (char)(low + g(sigma)));   // long repetitions
        else if (style == 0 && i > 3 && g(3)) t.push_back(t[i - 1 - g(3)]);
        else if (style == 1 && i > 20) t.push_back(t[i - 20 + (g(15) == 0)]);
        else t.push_back((char)(low + g(sigma)));
    }
    return t;
}
int_vector<> mk_itext(Rng& g, unsigned n, uint64_t top = 1000000)
{
    int_vector<> v(n, 0, 32);
    uint64_t sigma = g(2) ? 5 : g(2) ? 100 : top;
    for (unsigned i = 0; i < n; ++i) v[i] = 1 + g(sigma);
    return v;
}
inline uint64_t h2(uint64_t a, uint64_t b) { return mix2(a, b); }

// ------------------------------------------------------------ queries
struct QSeq {
    template<class T> uint64_t operator()(const T& x, Rng& g) const
    {
        uint64_t n = x.size();
        switch (g(4)) {
            case 0: return n;
            case 1: { uint64_t h = 1, i = 0; for (auto it = x.begin(); it != x.end() && i < 40; ++it, ++i) h = h2(h, (uint64_t)*it); return h; }
            default: return n ? (uint64_t)x[g(n)] : 5;
        }
    }
};
// a bit vector with its supports, as a user would bundle them
template<class B, class R1, class R0, class S1, class S0>
struct BV {
    typedef uint64_t size_type;
    B b; R1 r1; R0 r0; S1 s1; S0 s0;
    BV() { sup(); }
    explicit BV(const bit_vector& v) : b(v), r1(&b), r0(&b), s1(&b), s0(&b) {}
    void sup() { r1.set_vector(&b); r0.set_vector(&b); s1.set_vector(&b); s0.set_vector(&b); }
    BV(const BV& o) : b(o.b), r1(o.r1), r0(o.r0), s1(o.s1), s0(o.s0) { sup(); }
    BV(BV&& o) : b(std::move(o.b)), r1(std::move(o.r1)), r0(std::move(o.r0)), s1(std::move(o.s1)), s0(std::move(o.s0)) { sup(); }
    BV& operator=(const BV& o) { b = o.b; r1 = o.r1; r0 = o.r0; s1 = o.s1; s0 = o.s0; sup(); return *this; }
    BV& operator=(BV&& o) { b = std::move(o.b); r1 = std::move(o.r1); r0 = std::move(o.r0); s1 = std::move(o.s1); s0 = std::move(o.s0); sup(); return *this; }
    void swap(BV& o)
    {
        b.swap(o.b);
        util::swap_support(r1, o.r1, &b, &o.b); util::swap_support(r0, o.r0, &b, &o.b);
        util::swap_support(s1, o.s1, &b, &o.b); util::swap_support(s0, o.s0, &b, &o.b);
    }
    uint64_t serialize(std::ostream& out, structure_tree_node* v = nullptr, std::string name = "") const
    {
        auto c = structure_tree::add_child(v, name, "BV");
        uint64_t w = b.serialize(out, c, "b");
        w += r1.serialize(out, c, "r1"); w += r0.serialize(out, c, "r0"); w += s1.serialize(out, c, "s1"); w += s0.serialize(out, c, "s0");
        structure_tree::add_size(c, w);
        return w;
    }
    void load(std::istream& in) { b.load(in); r1.load(in, &b); r0.load(in, &b); s1.load(in, &b); s0.load(in, &b); }
};
template<class T> auto refs(const T& x, Rng& g, int) -> decltype(x.bt.size(), x.btnr.size(), uint64_t()) { return x.btnr.size() ? h2(x.bt.size() ? (uint64_t)x.bt[g(x.bt.size())] : 1, x.btnr[g(x.btnr.size())]) : 2; }
template<class T> auto refs(const T& x, Rng& g, int) -> decltype(x.low.size(), x.high_1_select, uint64_t()) { uint64_t m = x.low.size(); return h2(x.wl, m ? h2(x.low[g(m)], x.high_1_select(1 + g(m))) : 1); }
template<class T> uint64_t refs(const T&, Rng&, ...) { return 7; }
struct QBits {
    template<class B, class R1, class R0, class S1, class S0> uint64_t operator()(const BV<B, R1, R0, S1, S0>& x, Rng& g) const
    {
        uint64_t n = x.b.size();
        if (n == 0) return 3;
        uint64_t i = g(4) ? g(n) : g(2) ? n - 1 - g(std::min<uint64_t>(n, 3)) : g(std::min<uint64_t>(n, 3));
        switch (g(7)) {
            case 6: return refs(x.b, g, 0);
            case 0: return x.b[i];
            case 1: return x.r1.rank(g(3) ? i : n);
            case 2: return x.r0.rank(g(3) ? i : n);
            case 3: { uint64_t o = x.r1.rank(n); return o ? (uint64_t)x.s1.select(1 + g(o)) : 9; }
            case 4: { uint64_t o = x.r0.rank(n); return o ? (uint64_t)x.s0.select(1 + g(o)) : 9; }
            default: { unsigned len = 1 + g(std::min<uint64_t>(64, n)); return x.b.get_int(g(n - len + 1), len); }
        }
    }
};
struct NoSel {                     // for representations without select
    template<class V> NoSel(const V*) {}
    NoSel() {}
    template<class V> void set_vector(const V*) {}
    void swap(NoSel&) {}
    uint64_t select(uint64_t) const { return 0; }
    uint64_t serialize(std::ostream&, structure_tree_node* = nullptr, std::string = "") const { return 0; }
    template<class V> void load(std::istream&, const V*) {}
};
template<class B> using BVof = BV<B, typename B::rank_1_type, typename B::rank_0_type, typename B::select_1_type, typename B::select_0_type>;
template<class T> void add_bits(const char* name) { add(name, 0, [](Rng& g, unsigned n) { return T(mk_bits(g, n)); }, QBits()); }

#if PART >= 3
template<class T> auto walk(const T& w, unsigned m, int) -> decltype(w.begin(), uint64_t()) { uint64_t h = 1, k = 0; for (auto it = w.begin(); it != w.end() && k < m; ++it, ++k) h = h2(h, (uint64_t)*it); return h; }
template<class T> uint64_t walk(const T& w, unsigned m, ...) { uint64_t h = 1; for (unsigned k = 0; k < m && k < w.size(); ++k) h = h2(h, (uint64_t)w[k]); return h; }
// algorithms on the nodes of a wavelet tree
template<class T> auto nodeq(const T& w, Rng& g, int) -> decltype(w.expand(w.root()), w.path(0), uint64_t())
{
    const uint64_t n = w.size(), a = g(n), b = a + g(n - a), c = g(n), d = c + g(n - c);
    switch (g(3)) {
        case 0: {
            typename T::size_type k = 0;
            std::vector<typename T::value_type> cs(w.sigma); std::vector<typename T::size_type> ri(w.sigma), rj(w.sigma);
            sdsl::interval_symbols(w, a, b + 1, k, cs, ri, rj);
            uint64_t h = k;
            for (uint64_t q = 0; q < k; ++q) h = h2(h, h2(cs[q], h2(ri[q], rj[q])));
            return h;
        }
        case 1: { uint64_t h = 5; for (auto& p : intersect(w, {{{a, b}}, {{c, d}}})) h = h2(h, h2(p.first, p.second)); return h; }
        default: {
            uint64_t h = 7;
            auto v = w.root();
            for (unsigned k = 0; k < 40 && !w.is_leaf(v) && !w.empty(v); ++k) {
                uint64_t i = g(w.size(v));
                h = h2(h, h2(w.size(v), h2(w.seq(v)[i], w.bit_vec(v)[i])));
                auto ch = w.expand(v);
                auto r = w.expand(v, range_type{{0, i}});
                unsigned s = r[1][1] + 1 > r[1][0];
                v = ch[s];
            }
            return h2(h, w.is_leaf(v) ? h2(w.size(v), w.sym(v)) : 1);
        }
    }
}
template<class T> uint64_t nodeq(const T& w, Rng&, long) { return w.size(); }
struct QWt {
    template<class T> uint64_t operator()(const T& w, Rng& g) const
    {
        uint64_t n = w.size();
        if (n == 0) return 3;
        uint64_t i = g(n);
        auto c = w[i];
        switch (g(8)) {
            case 6: return nodeq(w, g, 0);
            case 0: return c;
            case 1: return w.rank(g(3) ? g(n + 1) : n, c);
            case 2: { uint64_t r = w.rank(n, c); return r ? (uint64_t)w.select(1 + g(r), c) : 1; }
            case 3: { auto p = w.inverse_select(i); return h2(p.first, p.second); }
            case 4: return walk(w, 20, 0);
            default: return w.rank(g(n + 1), (typename T::value_type)(c + 1) < c ? c : c);
        }
    }
};
struct QWtLex : QWt {
    template<class T> uint64_t operator()(const T& w, Rng& g) const
    {
        uint64_t n = w.size();
        if (n == 0) return 3;
        if (g(2)) return QWt::operator()(w, g);
        uint64_t l = g(n), r = l + g(n - l + 1);
        auto c = w[g(n)];
        switch (g(3)) {
            case 0: { auto t = w.lex_count(l, r, c); return h2(std::get<0>(t), h2(std::get<1>(t), std::get<2>(t))); }
            case 1: { auto t = w.lex_smaller_count(l, c); return h2(std::get<0>(t), std::get<1>(t)); }
            default: {
                uint64_t k = 0;
                std::vector<typename T::value_type> cs(w.sigma); std::vector<uint64_t> ri(w.sigma), rj(w.sigma);
                w.interval_symbols(l, r, k, cs, ri, rj);
                uint64_t h = k;
                for (uint64_t q = 0; q < k; ++q) h = h2(h, h2(cs[q], h2(ri[q], rj[q])));
                return h;
            }
        }
    }
};
struct QWtInt : QWt {
    template<class T> uint64_t operator()(const T& w, Rng& g) const
    {
        uint64_t n = w.size();
        if (n == 0) return 3;
        if (g(2)) return QWt::operator()(w, g);
        uint64_t l = g(n), r = l + g(n - l);
        switch (g(3)) {
            case 0: { auto p = quantile_freq(w, l, r, g(r - l + 1)); return h2(p.first, p.second); }
            case 1: { auto a = w[g(n)]; auto b = w[g(n)]; if (a > b) std::swap(a, b); auto p = w.range_search_2d(l, r, a, b); uint64_t h = p.first; for (auto& q : p.second) h = h2(h, h2(q.first, q.second)); return h; }
            default: { auto t = w.lex_count(l, r, w[g(n)]); return h2(std::get<0>(t), h2(std::get<1>(t), std::get<2>(t))); }
        }
    }
};
struct QCsa {
    template<class T> uint64_t operator()(const T& c, Rng& g) const
    {
        uint64_t n = c.size();
        if (n == 0) return 3;
        uint64_t i = g(n);
        switch (g(14)) {
            case 12: { if (n < 3) return 1; uint64_t b = g(n - 1), e = std::min(n - 2, b + g(5)); auto t = extract(c, b, e); typename T::size_type l = 0, r = 0; uint64_t k = forward_search(c, (typename T::size_type)0, n - 1, t.begin(), t.end(), l, r); return h2(k, k ? h2(l, r) : 1); }
            case 13: { auto ch = c.bwt[i]; uint64_t r = c.bwt.rank(g(n + 1), ch); return h2(r, c.bwt.select(1 + g(r + 1), ch)); }
            case 0: return c[i];
            case 1: return c.isa[i];
            case 2: return c.psi[i];
            case 3: return c.lf[i];
            case 4: return c.bwt[i];
            case 5: return c.text[i];
            case 6: return c.F[i];
            case 7: { uint64_t e = std::min(n - 1, i + g(12)); auto t = extract(c, i, e); uint64_t h = 1; for (auto x : t) h = h2(h, x); return h; }
            case 8: { if (n < 3) return 1; uint64_t b = g(n - 1), e = std::min(n - 2, b + g(5)); auto t = extract(c, b, e); return count(c, t.begin(), t.end()); }
            case 9: { if (n < 3) return 1; uint64_t b = g(n - 1), e = std::min(n - 2, b + g(5)); auto t = extract(c, b, e); auto l = locate(c, t.begin(), t.end()); uint64_t h = 0; for (auto x : l) h += mix2(x, 3); return h; }
            case 10: return (c.sa_sample.size() ? (uint64_t)c.sa_sample[g(c.sa_sample.size())] : 1);
            default: return h2(h2(c.sigma, c.C[g(c.sigma)]), h2(c.char2comp[c.F[i]], c.comp2char[g(c.sigma)]));
        }
    }
};
inline void le_bytes(std::string& o, uint64_t x, int nb) { for (int i = 0; i < nb; ++i) o.push_back((char)(x >> (8 * i))); }
template<class IV> std::string ser_iv(const IV& v) { std::ostringstream o; v.serialize(o); return o.str(); }
std::string text_rep(const std::string& d, int& rep)
{
    if (rep == 0) { int_vector<8> v(d.size()); for (size_t i = 0; i < d.size(); ++i) v[i] = (uint8_t)d[i]; return ser_iv(v); }
    rep = 1;
    return d;
}
std::string text_rep(const int_vector<>& d, int& rep)
{
    if (rep == 0) return ser_iv(d);
    std::string o;
    if (rep == 'd') { for (size_t i = 0; i < d.size(); ++i) o += std::to_string((uint64_t)d[i]) + " "; return o; }
    rep = rep == 8 ? 8 : 4;
    for (size_t i = 0; i < d.size(); ++i) le_bytes(o, d[i], rep);
    return o;
}
// construct_im, or construct() as zoo::how says
template<class T, class D> void cons(T& t, const D& data, int nb)
{
    zoo::How* h = zoo::how;
    if (!h) { construct_im(t, data, nb); return; }
    if (h->file.empty()) { h->run([&]() { construct_im(t, data, nb); }); return; }
    int rep = h->rep;
    std::string bytes = text_rep(data, rep);
    h->put(h->file, bytes);
    h->run([&]() { if (h->cfg) construct(t, h->file, *h->cfg, rep); else construct(t, h->file, rep); });
}
inline void flag(bool b) { zoo::kinds().back()->cons = true; zoo::kinds().back()->bytetext = b; }
template<class T> void add_wtb(const char* name) { add(name, 1, [](Rng& g, unsigned n) { T w; cons(w, mk_text(g, n), 1); return w; }, QWt()); flag(true); }
template<class T> void add_wtblex(const char* name) { add(name, 1, [](Rng& g, unsigned n) { T w; cons(w, mk_text(g, n), 1); return w; }, QWtLex()); flag(true); }
template<class T, class Q = QWt> void add_wti(const char* name, uint64_t top = 1000000) { add(name, 1, [top](Rng& g, unsigned n) { T w; cons(w, mk_itext(g, n, top), 0); return w; }, Q()); flag(false); }
template<class T> void add_csab(const char* name) { add(name, 2, [](Rng& g, unsigned n) { T c; cons(c, mk_text(g, n), 1); return c; }, QCsa()); flag(true); }
template<class T> void add_csai(const char* name) { add(name, 2, [](Rng& g, unsigned n) { T c; cons(c, mk_itext(g, n), 0); return c; }, QCsa()); flag(false); }
#endif

#if PART >= 6
template<class T> auto crefs(const T& t, Rng& g, int) -> decltype(t.first_child_bv.size(), uint64_t()) { return t.first_child_bv.size() ? h2(t.first_child_rank(g(t.first_child_bv.size())), t.bp_support.excess(g(t.bp.size()))) : 1; }
template<class T> auto crefs(const T& t, Rng& g, int) -> decltype(t.bp_rank_10(1), uint64_t()) { return h2(t.bp_rank_10(g(t.bp.size())), h2(t.bp_support.excess(g(t.bp.size())), t.bp_select_10(1))); }
template<class T> auto crefs(const T& t, Rng& g, int) -> decltype(t.depth_sampling.size(), uint64_t()) { return h2(t.delta, h2(t.s[g(t.s.size())], t.b[g(t.b.size())])); }
struct QLcp { template<class T> uint64_t operator()(const T& x, Rng& g) const { uint64_t n = x.size(); return n && g(4) ? (uint64_t)x[g(n)] : n; } };
struct QCst {
    template<class T, class N> static uint64_t nd(const T& t, const N& v) { return h2(t.lb(v), t.rb(v)); }
    template<class T> uint64_t operator()(const T& t, Rng& g) const
    {
        uint64_t n = t.size();
        if (n < 2) return 3;
        auto v = t.select_leaf(1 + g(n));
        for (uint64_t k = g(4); k && v != t.root(); --k) v = t.parent(v);
        switch (g(19)) {
            case 15: return crefs(t, g, 0);
            case 0: return nd(t, t.parent(v == t.root() ? t.select_leaf(1) : v));
            case 1: return t.depth(v);
            case 2: return nd(t, t.lca(v, t.select_leaf(1 + g(n))));
            case 3: return v == t.root() || t.depth(v) == 0 ? 1 : nd(t, t.sl(v));
            case 4: return t.node_depth(v);
            case 5: return t.degree(v);
            case 6: { if (t.is_leaf(v)) return 2; uint64_t h = 0; for (auto c : t.children(v)) h = h2(h, nd(t, c)); return h; }
            case 7: return v == t.root() ? 1 : nd(t, t.sibling(v));
            case 8: { uint64_t d = t.depth(v); return d ? (uint64_t)t.edge(v, 1 + g(d)) : 1; }
            case 9: { if (t.is_leaf(v)) return 2; auto c = t.csa.bwt[g(n)]; return nd(t, t.child(v, c)); }
            case 10: return nd(t, t.wl(v, t.csa.bwt[g(n)]));
            case 17: { if (t.is_leaf(v)) return 2; auto c = t.csa.bwt[g(n)]; typename T::size_type pos = t.depth(v); uint64_t h = nd(t, t.child(v, c, pos)); return h; }
            case 11: return t.lcp[g(n)];
            case 12: return t.is_leaf(v) ? t.sn(v) : t.size(v);
            case 13: return h2(t.nodes(), t.csa[g(n)]);
            case 14: return copies(t, g);
            case 16: return bottom_up(t, g, 0);
            default: { uint64_t h = 0, k = 0; for (auto it = t.begin(); it != t.end() && k < 15; ++it, ++k) h = h2(h, h2(it.visit(), nd(t, *it))); return h; }
        }
    }
    // bottom up, through copies of the iterator
    template<class T> static auto bottom_up(const T& t, Rng& g, int) -> decltype(t.begin_bottom_up(), uint64_t())
    {
        uint64_t h = 0, k = g(30), from = k;
        auto it = t.begin_bottom_up();
        while (k && it != t.end_bottom_up()) { ++it; --k; }
        auto c = it;
        for (k = 0; k < 8 && c != t.end_bottom_up(); ++k) { h = h2(h, nd(t, *c)); if (k == 3) it = c; if (k & 1) c++; else ++c; }
        for (; k < 12 && it != t.end_bottom_up(); ++k, ++it) h = h2(h, nd(t, *it));
        return h2(h, from);
    }
    template<class T> static uint64_t bottom_up(const T& t, Rng&, long) { return t.size(); }
    // a depth first walk continued by a copy, which outlives its source or not, visits what the source would visit
    template<class T> static uint64_t copies(const T& t, Rng& g)
    {
        uint64_t h = 0, k = g(40), mode = g(3);
        auto it = t.begin();
        for (; k && it != t.end(); --k, ++it) h = h2(h, h2(it.visit(), nd(t, *it)));
        auto go = [&](decltype(it) c, unsigned m) { uint64_t r = 0; for (; m && c != t.end(); --m, ++c) r = h2(r, h2(c.visit(), nd(t, *c))); return r; };
        uint64_t a = go(it, 20), b;
        if (mode == 0) { auto c = it; auto d = c; b = go(d, 20); }
        else if (mode == 1) { auto c = t.begin(); c = it; b = go(c, 20); }
        else { auto c = t.end(); c = it; it = t.begin(); b = go(c, 20); }
        if (a != b) throw std::logic_error("a copied suffix tree iterator walks differently");
        return h2(h, a);
    }
};
struct QCstId : QCst {
    template<class T> uint64_t operator()(const T& t, Rng& g) const
    {
        uint64_t n = t.size();
        if (n < 2) return 3;
        switch (g(5)) {
            case 0: { auto v = t.select_leaf(1 + g(n)); if (g(2)) v = t.parent(v); return h2(t.id(v), nd(t, const_cast<T&>(t).inv_id(t.id(v)))); }
            case 1: { auto v = t.select_leaf(1 + g(n)); v = t.parent(v); return nd(t, t.select_child(v, 1 + g(t.degree(v)))); }
            default: return QCst::operator()(t, g);
        }
    }
};
template<class T, class Q = QCstId> void add_cstb(const char* name) { add(name, 2, [](Rng& g, unsigned n) { T c; cons(c, mk_text(g, n), 1); return c; }, Q(), 50); flag(true); }
#endif

// a support that points to its vector
template<class B, class S> struct Sup {
    typedef uint64_t size_type;
    B b; S s;
    Sup() { s.set_vector(&b); }
    explicit Sup(B&& v) : b(std::move(v)), s(&b) {}
    Sup(const Sup& o) : b(o.b), s(o.s) { s.set_vector(&b); }
    Sup(Sup&& o) : b(std::move(o.b)), s(std::move(o.s)) { s.set_vector(&b); }
    Sup& operator=(const Sup& o) { b = o.b; s = o.s; s.set_vector(&b); return *this; }
    Sup& operator=(Sup&& o) { b = std::move(o.b); s = std::move(o.s); s.set_vector(&b); return *this; }
    void swap(Sup& o) { b.swap(o.b); util::swap_support(s, o.s, &b, &o.b); }
    uint64_t serialize(std::ostream& out, structure_tree_node* v = nullptr, std::string name = "") const
    {
        auto c = structure_tree::add_child(v, name, "Sup");
        uint64_t w = b.serialize(out, c, "b");
        w += s.serialize(out, c, "s");
        structure_tree::add_size(c, w);
        return w;
    }
    template<class X> static auto ld(X& x, std::istream& in, const B* b, int) -> decltype(x.load(in, b)) { return x.load(in, b); }
    template<class X> static void ld(X& x, std::istream& in, const B* b, ...) { x.load(in); x.set_vector(b); }
    void load(std::istream& in) { b.load(in); ld(s, in, &b, 0); }
};

template<class T> auto bprefs(const T& s, uint64_t i, uint64_t n, Rng& g, int) -> decltype(s.bp_rank(1), uint64_t()) { return h2(s.bp_rank(i), s.bp_select(1 + g(n / 2))); }
template<class T> uint64_t bprefs(const T&, uint64_t, uint64_t, Rng&, ...) { return 7; }

template<class T> auto rmqrefs(const T& x, Rng& g, int) -> decltype(x.sct_bp.size(), uint64_t()) { return x.sct_bp_support.excess(g(x.sct_bp.size())); }
template<class T> auto rmqrefs(const T& x, Rng& g, int) -> decltype(x.ect_bp.size(), uint64_t()) { return h2(x.ect_bp_rank10(g(x.ect_bp.size())), h2(x.ect_bp_select10(1), x.ect_bp_support.excess(g(x.ect_bp.size())))); }
template<class T> uint64_t rmqrefs(const T&, Rng&, ...) { return 7; }

struct Reg {
    Reg()
    {
#if PART == 1
        add("int_vector<0>", 0, [](Rng& g, unsigned n) { auto v = mk_ints<int_vector<>>(g, n); if (g(2)) util::bit_compress(v); return v; }, QSeq());
        add("bit_vector", 0, [](Rng& g, unsigned n) { return mk_bits(g, n); }, QSeq());
        add("int_vector<8>", 0, [](Rng& g, unsigned n) { return mk_ints<int_vector<8>>(g, n); }, QSeq());
        add("int_vector<13>", 0, [](Rng& g, unsigned n) { return mk_ints<int_vector<13>>(g, n); }, QSeq());
        add("int_vector<64>", 0, [](Rng& g, unsigned n) { return mk_ints<int_vector<64>>(g, n); }, QSeq());
        add("enc_vector<delta>", 0, [](Rng& g, unsigned n) { return enc_vector<>(mk_ints<int_vector<>>(g, n)); }, QSeq());
        add("enc_vector<fib,31>", 0, [](Rng& g, unsigned n) { return enc_vector<coder::fibonacci, 31>(mk_ints<int_vector<>>(g, n, true)); }, QSeq());
        add("vlc_vector<delta>", 0, [](Rng& g, unsigned n) { return vlc_vector<>(mk_ints<int_vector<>>(g, n, true)); }, QSeq());
        add("vlc_vector<gamma,7>", 0, [](Rng& g, unsigned n) { return vlc_vector<coder::elias_gamma, 7>(mk_ints<int_vector<>>(g, n, true)); }, QSeq());
        add("vlc_vector<comma>", 0, [](Rng& g, unsigned n) { return vlc_vector<coder::comma<2>>(mk_ints<int_vector<>>(g, n, true)); }, QSeq());
        add("dac_vector<>", 0, [](Rng& g, unsigned n) { return dac_vector<>(mk_ints<int_vector<>>(g, n)); }, QSeq());
        add("dac_vector<8,v>", 0, [](Rng& g, unsigned n) { return dac_vector<8, rank_support_v<>>(mk_ints<int_vector<>>(g, n)); }, QSeq());
#elif PART == 2
        add_bits<BV<bit_vector, rank_support_v<1>, rank_support_v<0>, select_support_mcl<1>, select_support_mcl<0>>>("bits+v+mcl");
        add_bits<BV<bit_vector, rank_support_v5<1>, rank_support_v5<0>, select_support_scan<1>, select_support_scan<0>>>("bits+v5+scan");
        add_bits<BV<bit_vector, rank_support_scan<1>, rank_support_v<0>, select_support_mcl<1>, select_support_scan<0>>>("bits+scan+mcl");
        add_bits<BV<bit_vector, rank_support_v<10, 2>, rank_support_v5<11, 2>, select_support_mcl<10, 2>, select_support_mcl<11, 2>>>("bits+patterns");
        add_bits<BVof<bit_vector_il<>>>("bit_vector_il<512>");
        add_bits<BVof<bit_vector_il<64>>>("bit_vector_il<64>");
        add_bits<BVof<rrr_vector<63>>>("rrr_vector<63>");
        add_bits<BVof<rrr_vector<15>>>("rrr_vector<15>");
        add_bits<BVof<rrr_vector<20, int_vector<>, 8>>>("rrr_vector<20,8>");
        add_bits<BVof<sd_vector<>>>("sd_vector<>");
        add_bits<BV<hyb_vector<>, hyb_vector<>::rank_1_type, hyb_vector<>::rank_0_type, NoSel, NoSel>>("hyb_vector<>");
#elif PART == 3
        add_wtb<wt_huff<>>("wt_huff<>");
        add_wtb<wt_huff<rrr_vector<63>>>("wt_huff<rrr>");
        add_wtblex<wt_hutu<>>("wt_hutu<>");
        add_wtblex<wt_blcd<bit_vector_il<>>>("wt_blcd<il>");
        add_wtb<wt_rlmn<>>("wt_rlmn<>");
        add_wti<wt_huff_int<>>("wt_huff_int<>", 2000);
        add_wti<wt_hutu_int<sd_vector<>>>("wt_hutu_int<sd>", 2000);
#elif PART == 4
        add_wti<wt_int<>, QWtInt>("wt_int<>");
        add_wti<wt_int<rrr_vector<>>, QWtInt>("wt_int<rrr>");
        add_wti<wm_int<>>("wm_int<>");
        add_wti<wt_gmr<>>("wt_gmr<>", 500);
        add_wti<wt_gmr_rs<>>("wt_gmr_rs<>", 500);
        add_wti<wt_ap<>>("wt_ap<>", 500);
        add_wti<wt_rlmn<bit_vector, rank_support_v5<>, select_support_mcl<1>, wt_int<>>>("wt_rlmn<wt_int>", 5000);
#elif PART == 5
        add_csab<csa_wt<>>("csa_wt<>");
        add_csab<csa_wt<wt_huff<rrr_vector<63>>, 8, 8, text_order_sa_sampling<>, text_order_isa_sampling_support<>>>("csa_wt<text_order>");
        add_csab<csa_wt<wt_blcd<>, 4, 8, sa_order_sa_sampling<>, isa_sampling<>, succinct_byte_alphabet<>>>("csa_wt<succinct>");
        add_csab<csa_sada<>>("csa_sada<>");
        add_csab<csa_sada<enc_vector<coder::elias_gamma, 8>, 4, 8>>("csa_sada<g8>");
        add_csab<csa_bitcompressed<>>("csa_bitcompressed<>");
        add_csai<csa_wt<wt_int<>, 8, 8, sa_order_sa_sampling<>, isa_sampling<>, int_alphabet<>>>("csa_wt_int");
        add_csai<csa_sada<enc_vector<>, 8, 8, sa_order_sa_sampling<>, isa_sampling<>, int_alphabet<>>>("csa_sada_int");
        add_csai<csa_bitcompressed<int_alphabet<>>>("csa_bitcompressed_int");
        add_csab<csa_wt<wt_huff<>, 8, 8, fuzzy_sa_sampling<>, fuzzy_isa_sampling_support<>>>("csa_wt<fuzzy>");
        add_csab<csa_wt<wt_huff<>, 8, 8, sa_bwt_sampling<>>>("csa_wt<bwt>");
#elif PART == 6
        // trees of parentheses
        {
            auto mkp = [](Rng& g, unsigned n) { if (n > 100 && g(10) == 0) n *= 8 + g(60); bit_vector b(2 * (n + 1), 0); unsigned e = 0, left = n + 1, i = 0; unsigned bias = 1 + g(4); b[i++] = 1; e = 1; --left; while (i < b.size()) { if (left && (e == 1 || g(5) < bias)) { b[i++] = 1; ++e; --left; } else { b[i++] = 0; --e; } if (!left) while (i < b.size()) b[i++] = 0; } return b; };
            auto q = [](const auto& x, Rng& g) -> uint64_t {
                uint64_t n = x.b.size();
                if (n < 4) return 3;
                uint64_t i = g(n);
                switch (g(9)) {
                    case 8: return bprefs(x.s, i, n, g, 0);
                    case 0: return x.s.excess(i);
                    case 1: return x.s.rank(i);
                    case 2: return x.s.select(1 + g(n / 2));
                    case 3: return x.b[i] ? x.s.find_close(i) : x.s.find_open(i);
                    case 4: return x.b[i] ? x.s.enclose(i) : x.s.enclose(x.s.find_open(i));
                    case 5: { uint64_t a = i, b = g(n); if (!x.b[a]) a = x.s.find_open(a); if (!x.b[b]) b = x.s.find_open(b); if (a > b) std::swap(a, b); if (a == b || x.s.find_close(a) > b) return 4; return x.s.double_enclose(a, b); }
                    case 6: { uint64_t a = i, b = g(n); if (a > b) std::swap(a, b); return x.s.rmq(a, b); }
                    default: { uint64_t a = i, b = g(n); if (!x.b[a]) a = x.s.find_open(a); if (!x.b[b]) b = x.s.find_open(b); if (a > b) std::swap(a, b); if (a == b || x.s.find_close(a) > b) return 4; return x.s.rr_enclose(a, b); }
                }
            };
            add("bp_support_sada", 3, [mkp](Rng& g, unsigned n) { return Sup<bit_vector, bp_support_sada<>>(mkp(g, n)); }, q);
            add("bp_support_sada<64,8>", 3, [mkp](Rng& g, unsigned n) { return Sup<bit_vector, bp_support_sada<64, 8>>(mkp(g, n)); }, q);
            add("bp_support_g", 3, [mkp](Rng& g, unsigned n) { return Sup<bit_vector, bp_support_g<>>(mkp(g, n)); }, q);
            add("bp_support_gg", 3, [mkp](Rng& g, unsigned n) { return Sup<bit_vector, bp_support_gg<>>(mkp(g, n)); }, q);
        }
        // range minima
        {
            auto q = [](const auto& x, Rng& g) -> uint64_t { uint64_t n = x.size(); if (!n) return 3; uint64_t a = g(n), b = g(n); if (a > b) std::swap(a, b); return g(8) ? x(a, b) : rmqrefs(x, g, 0); };
            add("rmq_sct", 3, [](Rng& g, unsigned n) { auto v = mk_ints<int_vector<>>(g, n); return rmq_succinct_sct<>(&v); }, q);
            add("rmq_sct<max>", 3, [](Rng& g, unsigned n) { auto v = mk_ints<int_vector<>>(g, n); return rmq_succinct_sct<false>(&v); }, q);
            add("rmq_sada", 3, [](Rng& g, unsigned n) { auto v = mk_ints<int_vector<>>(g, n); return rmq_succinct_sada<>(&v); }, q);
            add("rmq_sparse", 3, [](Rng& g, unsigned n) { return Sup<int_vector<>, rmq_support_sparse_table<int_vector<>>>(mk_ints<int_vector<>>(g, n + 1)); },
                [q](const Sup<int_vector<>, rmq_support_sparse_table<int_vector<>>>& x, Rng& g) -> uint64_t { return q(x.s, g); });
        }
        add("k2_treap", 3, [](Rng& g, unsigned n) {
            std::set<std::pair<uint64_t, uint64_t>> s; std::vector<std::array<uint64_t, 3>> d;
            uint64_t m = 2 + g(2 + n);
            for (unsigned i = 0; i < n; ++i) { uint64_t x = g(m), y = g(m); if (s.insert({x, y}).second) d.push_back({{x, y, g(100)}}); }
            if (s.insert({1, 1}).second) d.push_back({{1, 1, 1}});
            k2_treap<2, bit_vector> t;
            zoo::How* h = zoo::how;
            if (!h) construct_im(t, d);
            else if (h->file.empty()) h->run([&]() { construct_im(t, d); });
            else {
                int_vector<> v[3];
                for (int k = 0; k < 3; ++k) { v[k] = int_vector<>(d.size(), 0, 32); for (size_t i = 0; i < d.size(); ++i) v[k][i] = d[i][k]; h->put(h->file + "." + "xyw"[k], ser_iv(v[k])); }
                h->run([&]() { construct(t, h->file); });
            }
            return t;
        }, [](const k2_treap<2, bit_vector>& t, Rng& g) -> uint64_t {
            uint64_t n = t.size(); if (!n) return 3;
            uint64_t a = g(n + 2), b = g(n + 2), c = a + g(n), d = b + g(n), h = 0, k = 0;
            switch (g(3)) {
                case 0: return count(t, {a, b}, {c, d});
                case 1: for (auto it = top_k(t, {a, b}, {c, d}); it && k < 6; ++it, ++k) h = h2(h, (*it).second); return h;
                default: for (auto it = range_3d(t, {a, b}, {c, d}, {g(50), 50 + g(60)}); it && k < 30; ++it, ++k) h = h2(h, h2((*it).second, h2(real((*it).first), imag((*it).first)))); return h;
            }
        });
        flag(false);
        {
            auto q = [](const auto& ct, Rng& g) -> uint64_t {
                auto& t = const_cast<typename std::remove_const<typename std::remove_reference<decltype(ct)>::type>::type&>(ct);
                uint64_t n = t.get_t().size() + t.get_l().size(); if (!n) return 3;
                uint64_t h = 0, m = 2;      // at least one row and column
                switch (g(3)) {
                    case 0: return t.adj(g(m), g(m));
                    case 1: for (auto x : t.neigh(g(m))) h = h2(h, x); return h;
                    default: for (auto x : t.reverse_neigh(g(m))) h = h2(h, x); return h;
                }
            };
            add("k2_tree<2>", 3, [](Rng& g, unsigned n) { unsigned s = 2 + g(1 + std::min(n, 30u)); std::vector<std::vector<int>> m(s, std::vector<int>(s, 0)); for (auto& r : m) for (auto& x : r) x = g(4) == 0; m[g(s)][g(s)] = 1; return k2_tree<2>(m); }, q);
            add("k2_tree<4,il>", 3, [](Rng& g, unsigned n) { typedef k2_tree<4, bit_vector_il<>> T; std::vector<std::tuple<T::idx_type, T::idx_type>> e; unsigned s = 2 + g(1 + n); std::set<std::pair<unsigned, unsigned>> seen; for (unsigned i = 0; i < 1 + n / 4; ++i) { unsigned a = g(s), b = g(s); if (seen.insert({a, b}).second) e.push_back(std::make_tuple(a, b)); } return T(e, s); }, q);
        }
        auto mkl = [](Rng& g, unsigned n) {
            cst_sct3<> c; construct_im(c, mk_text(g, n), 1);
            typedef cst_bfs_iterator<cst_sct3<>> it_t;
            it_t b(&c, c.root()), e(&c, c.root(), true, true);
            return louds_tree<>(c, b, e);
        };
        add_nodef<louds_tree<>>("louds_tree", 3, mkl, [](const louds_tree<>& t, Rng& g) -> uint64_t {
            if (t.bv.size() == 0) return 3;
            auto v = t.root();
            for (uint64_t k = g(5); k && !t.is_leaf(v); --k) v = t.child(v, 1 + g(t.degree(v)));
            return h2(t.nodes(), h2(t.degree(v), h2(t.id(v), t.id(v) ? t.id(t.parent(v)) : 0)));
        }, [mkl]() { Rng g(1); return mkl(g, 1); });
        add("nearest_neighbour_dictionary", 3, [](Rng& g, unsigned n) { return nearest_neighbour_dictionary<16>(mk_bits(g, n)); },
            [](const nearest_neighbour_dictionary<16>& d, Rng& g) -> uint64_t { uint64_t n = d.size(), o = d.ones(); if (!n || !o) return h2(n, o); switch (g(4)) { case 0: return d.rank(g(n)); case 1: return d.select(1 + g(o)); case 2: { uint64_t f = d.select(1); return d.prev(f + g(n - f)); } default: { uint64_t l = d.select(o); return d.next(g(l + 1)); } } });
        add("inv_perm", 3, [](Rng& g, unsigned n) { int_vector<> p(n, 0, 32); for (unsigned i = 0; i < n; ++i) p[i] = i; for (unsigned i = n; i > 1; --i) { unsigned j = g(i); auto t = p[i - 1]; uint64_t a = p[j]; p[j] = (uint64_t)t; p[i - 1] = a; } return Sup<int_vector<>, inv_perm_support<8>>(std::move(p)); },
            [](const Sup<int_vector<>, inv_perm_support<8>>& x, Rng& g) -> uint64_t { return x.b.size() ? x.s[g(x.b.size())] : 3; });
        add("nn_dict", 3, [](Rng& g, unsigned n) { nn_dict_dynamic d(n + 1); for (unsigned i = 0; i < n / 3; ++i) { d[g(n + 1)] = 1; if (g(4) == 0) d[g(n + 1)] = 0; } return d; },
            [](const nn_dict_dynamic& d, Rng& g) -> uint64_t { uint64_t n = d.size(); if (!n) return 3; uint64_t i = g(n); switch (g(3)) { case 0: return d[i]; case 1: return d.next(i); default: return d.prev(i); } });
        {
            auto q = [](const auto& s, Rng& g) -> uint64_t { if (s.empty()) return s.size(); auto t = s; uint64_t h = t.size(); for (unsigned k = g(20); k && !t.empty(); --k) { h = h2(h, t.top()); t.pop(); } return h2(h, t.size()); };
            add_nodef<sorted_int_stack>("sorted_int_stack", 3, [](Rng& g, unsigned n) { sorted_int_stack s(n * 3 + 2); unsigned x = 0; for (unsigned i = 0; i < n; ++i) { x += 1 + g(3); if (x > n * 3) break; s.push(x); if (g(5) == 0) { s.pop(); x = s.empty() ? 0 : s.top(); } } return s; }, q, []() { return sorted_int_stack(1); });
            add_nodef<sorted_stack_support>("sorted_stack_support", 3, [](Rng& g, unsigned n) { sorted_stack_support s(n * 3 + 2); unsigned x = 0; for (unsigned i = 0; i < n; ++i) { x += 1 + g(3); if (x > n * 3) break; s.push(x); if (g(5) == 0) { s.pop(); x = s.empty() ? 0 : s.top(); } } return s; }, q, []() { return sorted_stack_support(1); });
            add_nodef<sorted_multi_stack_support>("sorted_multi_stack_support", 3, [](Rng& g, unsigned n) { sorted_multi_stack_support s(n * 3 + 2); unsigned x = 0; for (unsigned i = 0; i < n; ++i) { x += g(3); if (x > n * 3) break; s.push(x); if (g(5) == 0) { s.pop(); x = s.empty() ? 0 : s.top(); } } return s; }, q, []() { return sorted_multi_stack_support(1); });
        }
#elif PART == 7
        add_cstb<cst_sct3<>>("cst_sct3<>");
        add_cstb<cst_sct3<csa_wt<>, lcp_support_tree2<>>>("cst_sct3<tree2>");
#elif PART == 8
        add_cstb<cst_sct3<csa_sada<>, lcp_support_sada<>>>("cst_sct3<sada,lcp_sada>");
        add_cstb<cst_sct3<csa_bitcompressed<>, lcp_byte<>>>("cst_sct3<bitc,lcp_byte>");
#elif PART == 9
        add_cstb<cst_sada<>, QCst>("cst_sada<>");
        add_cstb<cst_sada<csa_wt<>, lcp_support_tree<>>, QCst>("cst_sada<lcp_tree>");
#elif PART == 10
        add_cstb<cst_sct3<csa_wt<>, lcp_bitcompressed<>>>("cst_sct3<lcp_bitcompressed>");
        add("cst_sct3_int<lcp_vlc>", 2, [](Rng& g, unsigned n) { cst_sct3<csa_wt<wt_int<>, 8, 8, sa_order_sa_sampling<>, isa_sampling<>, int_alphabet<>>, lcp_vlc<>> c; cons(c, mk_itext(g, n), 0); return c; }, QCstId(), 50); flag(false);
#elif PART == 11
        add_cstb<cst_sct3<csa_wt<>, lcp_wt<>>>("cst_sct3<lcp_wt>");
        add_cstb<cst_fully<>, QCst>("cst_fully<>");
        add("lcp_bitcompressed", 2, [](Rng& g, unsigned n) { lcp_bitcompressed<> c; cons(c, mk_text(g, n), 1); return c; }, QLcp()); flag(true);
        add("lcp_vlc", 2, [](Rng& g, unsigned n) { lcp_vlc<> c; cons(c, mk_text(g, n), 1); return c; }, QLcp()); flag(true);
        add("lcp_wt", 2, [](Rng& g, unsigned n) { lcp_wt<> c; cons(c, mk_text(g, n), 1); return c; }, QLcp()); flag(true);
        add("lcp_vlc(int)", 2, [](Rng& g, unsigned n) { lcp_vlc<> c; cons(c, mk_itext(g, n), 0); return c; }, QLcp()); flag(false);
#endif
    }
} reg;
}
