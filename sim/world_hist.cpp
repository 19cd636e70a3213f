// C19: the changing structures against small models, through long histories.  A vector's value is its width and
// its bits; nothing else of its history (earlier lengths, unused bits of its last word, where its bytes came from)
// may be seen by any operation or by a structure built from it.
#include "alloc.hpp"
#include "simos.hpp"
#include "zoo_util.hpp"
#include <sdsl/bit_vectors.hpp>
#include <sdsl/dac_vector.hpp>
#include <sdsl/enc_vector.hpp>
#include <sdsl/int_vector.hpp>
#include <sdsl/int_vector_buffer.hpp>
#include <sdsl/inv_perm_support.hpp>
#include <sdsl/io.hpp>
#include <sdsl/nn_dict_dynamic.hpp>
#include <sdsl/rank_support.hpp>
#include <sdsl/rmq_support.hpp>
#include <sdsl/select_support.hpp>
#include <sdsl/sorted_int_stack.hpp>
#include <sdsl/sorted_multi_stack_support.hpp>
#include <sdsl/sorted_stack_support.hpp>
#include <sdsl/util.hpp>
#include <sdsl/vlc_vector.hpp>

#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

extern int (*sim_mmap_hook)(void* addr, size_t len, int prot, int flags, void** out);

using namespace sim;
using namespace sdsl;
typedef uint64_t u64;

namespace
{
const int SLOTS = 3;

// ---- the model of an integer vector: bits that are 0, 1 or unspecified (2)
struct Bits {
    unsigned w = 64;
    std::vector<unsigned char> b;
    bool dead = false;                           // nothing is known but that it can be assigned
    size_t n() const { return w ? b.size() / w : 0; }
    bool known(size_t i) const { for (size_t j = i * w; j < (i + 1) * w; ++j) if (b[j] == 2) return false; return true; }
    bool all() const { for (size_t j = 0; j < b.size(); ++j) if (b[j] == 2) return false; return true; }
    bool elems() const { for (size_t j = 0; j < n() * w; ++j) if (b[j] == 2) return false; return true; }
    u64 word(size_t pos, unsigned len) const { u64 x = 0; for (unsigned j = 0; j < len; ++j) if (b[pos + j] == 1) x |= 1ULL << j; return x; }
    void put(size_t pos, unsigned len, u64 x) { for (unsigned j = 0; j < len; ++j) b[pos + j] = x >> j & 1; }
    u64 get(size_t i) const { return word(i * w, w); }
    void set(size_t i, u64 x) { put(i * w, w, x); }
    u64 mask() const { return w == 64 ? ~0ULL : (1ULL << w) - 1; }
    void fill(u64 x) { for (size_t i = 0; i < n(); ++i) set(i, x); for (size_t j = n() * w; j < b.size(); ++j) b[j] = 2; }
    std::vector<u64> vals() const { std::vector<u64> v(n()); for (size_t i = 0; i < v.size(); ++i) v[i] = get(i); return v; }
};

template<uint8_t W> struct VecHist {
    typedef int_vector<W> V;
    V v[SLOTS];
    Bits m[SLOTS];
    Run& r;
    explicit VecHist(Run& run) : r(run) { for (auto& x : m) x.w = W ? W : 64; }

    template<class F> bool lib(int64_t oom, F f)   // false: the operation ran out of memory
    {
        if (!oom) { f(); return true; }
        mem.count = 0; mem.fired = 0; mem.fail_at = oom;
        try { Lib l; f(); } catch (const std::bad_alloc&) { mem.fail_at = 0; if (!mem.fired) throw; r.hit("fault_alloc"); return false; }
        mem.fail_at = 0;
        if (mem.fired) r.hit("fault_alloc_survived");
        return true;
    }
    void same(int a, const char* op)
    {
        if (m[a].dead) return;
        const V& c = v[a];
        if (c.width() != m[a].w) fail("width", "int_vector<%d>: after %s the width is %d, not %u", W, op, (int)c.width(), m[a].w);
        if (c.bit_size() != m[a].b.size()) fail("size", "int_vector<%d>: after %s it has %llu bits, not %zu", W, op, (unsigned long long)c.bit_size(), m[a].b.size());
        if (c.size() != m[a].n()) fail("size", "int_vector<%d>: after %s the size is %llu, not %zu", W, op, (unsigned long long)c.size(), m[a].n());
        if (c.empty() != m[a].b.empty()) fail("size", "int_vector<%d>: after %s empty() is wrong", W, op);
        for (size_t i = 0; i < m[a].n(); ++i)
            if (m[a].known(i) && (u64)c[i] != m[a].get(i)) fail("element", "int_vector<%d>(width %u, size %zu): after %s element %zu is %llu, not %llu", W, m[a].w, m[a].n(), op, i, (unsigned long long)(u64)c[i], (unsigned long long)m[a].get(i));
        for (size_t j = m[a].n() * m[a].w; j < m[a].b.size(); ++j)
            if (m[a].b[j] != 2 && c.get_int(j, 1) != m[a].b[j]) fail("element", "int_vector<%d>: after %s bit %zu changed", W, op, j);
    }
    void expect(bool ok, const char* op, u64 got, u64 want)
    {
        if (!ok) fail("value", "int_vector<%d>: %s gives %llu, not %llu", W, op, (unsigned long long)got, (unsigned long long)want);
    }
    void eq(const char* op, u64 got, u64 want) { expect(got == want, op, got, want); }

    // --- operations some widths lack
    template<uint8_t X> typename std::enable_if<X == 1>::type only_bits(int_vector<X>& x, Bits& y, const std::string& o, u64 arg)
    {
        if (o == "flip") { x.flip(); for (auto& c : y.b) if (c != 2) c ^= 1; }
        if (o == "derive" && y.all()) bit_derive(x, y, arg);
    }
    template<uint8_t X> typename std::enable_if<X != 1>::type only_bits(int_vector<X>& x, Bits& y, const std::string& o, u64 arg)
    {
        if (o == "derive" && y.elems()) int_derive(x, y, arg);
        if (o != "flip" || !y.n()) return;
        // arithmetic on references
        size_t i = arg % y.n();
        if (!y.known(i)) return;
        const u64 mk = y.mask(), old = y.get(i);
        u64 d = Rng::mix(arg), got = old, want = old;
        switch (arg / 7 % 6) {
            case 0: got = (u64)(typename int_vector<X>::value_type)(++x[i]) & mk; want = (old + 1) & mk; y.set(i, old + 1); break;
            case 1: got = (u64)(typename int_vector<X>::value_type)(x[i]++) & mk; y.set(i, old + 1); break;
            case 2: got = (u64)(typename int_vector<X>::value_type)(--x[i]) & mk; want = (old - 1) & mk; y.set(i, old - 1); break;
            case 3: got = (u64)(typename int_vector<X>::value_type)(x[i]--) & mk; y.set(i, old - 1); break;
            case 4: x[i] += d; y.set(i, old + d); break;
            default: x[i] -= d; y.set(i, old - d); break;
        }
        eq("an arithmetic operation on an element", got, want);
    }
    template<uint8_t X> typename std::enable_if<X == 0>::type only_var(int_vector<X>& x, Bits& y, const std::string& o, u64 arg)
    {
        if (o == "width") { unsigned w = arg % 66; x.width(w); y.w = w >= 1 && w <= 64 ? w : 64; }
        if (o == "expand") {
            unsigned w = 1 + arg % 64;
            if (!y.elems() || y.n() > 4096) return;
            std::vector<u64> e = y.vals();
            const unsigned ow = y.w;
            util::expand_width(x, w);
            if (w <= ow) return;
            if (e.size()) y.b.assign(e.size() * w, 0);
            y.w = w;
            for (size_t i = 0; i < e.size(); ++i) y.set(i, e[i]);
        }
        if (o == "compress") {
            if (!y.elems()) return;
            std::vector<u64> e = y.vals();
            u64 mx = 0;
            for (u64 z : e) mx = std::max(mx, z);
            unsigned w = 1;
            while (w < 64 && mx >> w) ++w;
            util::bit_compress(x);
            if (w >= y.w) return;
            y.w = w; y.b.assign(e.size() * w, 0);
            for (size_t i = 0; i < e.size(); ++i) y.set(i, e[i]);
        }
    }
    template<uint8_t X> typename std::enable_if<X != 0>::type only_var(int_vector<X>& x, Bits& y, const std::string& o, u64 arg)
    {
        if (o == "width") x.width(arg % 66);     // ignored
    }

    // --- structures built from the vector
    template<class RS> void rank_is(const char* name, const bit_vector& x, const Bits& y, int pat, int len)
    {
        RS rs(&x);
        u64 cnt = 0;
        for (size_t i = 0; i <= y.b.size(); ++i) {
            // number of patterns that end before i
            if (i >= (size_t)len) { int p = 0; for (int j = 0; j < len; ++j) p = p * 2 + y.b[i - len + j]; cnt += p == pat; }
            if (rs(i) != cnt) fail("derived", "%s(%zu) over a bit vector of %zu bits gives %llu, not %llu", name, i, y.b.size(), (unsigned long long)rs(i), (unsigned long long)cnt);
        }
    }
    template<class SS> void select_is(const char* name, const bit_vector& x, const Bits& y, int pat, int len)
    {
        SS ss(&x);
        u64 k = 0;
        for (size_t i = len - 1; i < y.b.size(); ++i) {
            int p = 0;
            for (int j = 0; j < len; ++j) p = p * 2 + y.b[i - len + 1 + j];
            if (p != pat) continue;
            if (ss(++k) != i) fail("derived", "%s(%llu) over a bit vector of %zu bits gives %llu, not %zu", name, (unsigned long long)k, y.b.size(), (unsigned long long)ss(k), i);
        }
    }
    template<class T> void comp_is(const char* name, const bit_vector& x, const Bits& y)
    {
        T t(x);
        typename T::rank_1_type r1(&t); typename T::rank_0_type r0(&t);
        typename T::select_1_type s1(&t); typename T::select_0_type s0(&t);
        if (t.size() != y.b.size()) fail("derived", "%s of a bit vector of %zu bits has size %llu", name, y.b.size(), (unsigned long long)t.size());
        u64 c[2] = {0, 0};
        for (size_t i = 0; i <= y.b.size(); ++i) {
            if (r1(i) != c[1] || r0(i) != c[0]) fail("derived", "%s of a bit vector of %zu bits: rank(%zu) is wrong", name, y.b.size(), i);
            if (i == y.b.size()) break;
            if (t[i] != y.b[i]) fail("derived", "%s of a bit vector of %zu bits: bit %zu is wrong", name, y.b.size(), i);
            u64 k = ++c[y.b[i]];
            if ((y.b[i] ? s1(k) : s0(k)) != i) fail("derived", "%s of a bit vector of %zu bits: select_%d(%llu) is wrong", name, y.b.size(), y.b[i], (unsigned long long)k);
        }
    }
    void bit_derive(const bit_vector& x, const Bits& y, u64 k)
    {
        switch (k % 24) {
            case 0: rank_is<rank_support_v<1>>("rank_support_v<1>", x, y, 1, 1); break;
            case 1: rank_is<rank_support_v<0>>("rank_support_v<0>", x, y, 0, 1); break;
            case 2: rank_is<rank_support_v<10, 2>>("rank_support_v<10,2>", x, y, 2, 2); break;
            case 3: rank_is<rank_support_v<1, 2>>("rank_support_v<01,2>", x, y, 1, 2); break;
            case 4: rank_is<rank_support_v<00, 2>>("rank_support_v<00,2>", x, y, 0, 2); break;
            case 5: rank_is<rank_support_v<11, 2>>("rank_support_v<11,2>", x, y, 3, 2); break;
            case 6: rank_is<rank_support_v5<1>>("rank_support_v5<1>", x, y, 1, 1); break;
            case 7: rank_is<rank_support_v5<0>>("rank_support_v5<0>", x, y, 0, 1); break;
            case 8: rank_is<rank_support_v5<10, 2>>("rank_support_v5<10,2>", x, y, 2, 2); break;
            case 9: rank_is<rank_support_scan<1>>("rank_support_scan<1>", x, y, 1, 1); break;
            case 10: rank_is<rank_support_scan<1, 2>>("rank_support_scan<01,2>", x, y, 1, 2); break;
            case 11: select_is<select_support_mcl<1>>("select_support_mcl<1>", x, y, 1, 1); break;
            case 12: select_is<select_support_mcl<0>>("select_support_mcl<0>", x, y, 0, 1); break;
            case 13: select_is<select_support_mcl<10, 2>>("select_support_mcl<10,2>", x, y, 2, 2); break;
            case 14: select_is<select_support_mcl<1, 2>>("select_support_mcl<01,2>", x, y, 1, 2); break;
            case 15: select_is<select_support_scan<1>>("select_support_scan<1>", x, y, 1, 1); break;
            case 16: select_is<select_support_scan<0>>("select_support_scan<0>", x, y, 0, 1); break;
            case 17: comp_is<bit_vector_il<64>>("bit_vector_il<64>", x, y); break;
            case 18: comp_is<bit_vector_il<512>>("bit_vector_il<512>", x, y); break;
            case 19: comp_is<rrr_vector<15>>("rrr_vector<15>", x, y); break;
            case 20: comp_is<rrr_vector<63>>("rrr_vector<63>", x, y); break;
            case 21: comp_is<rrr_vector<20>>("rrr_vector<20>", x, y); break;
            case 22: comp_is<sd_vector<>>("sd_vector", x, y); break;
            default: {
                hyb_vector<> h(x);
                hyb_vector<>::rank_1_type r1(&h);
                u64 c = 0;
                for (size_t i = 0; i <= y.b.size(); ++i) {
                    if (r1(i) != c) fail("derived", "hyb_vector of a bit vector of %zu bits: rank(%zu) is wrong", y.b.size(), i);
                    if (i == y.b.size()) break;
                    if (h[i] != y.b[i]) fail("derived", "hyb_vector of a bit vector of %zu bits: bit %zu is wrong", y.b.size(), i);
                    c += y.b[i];
                }
            }
        }
        r.hit("derived_bits");
    }
    template<class T> void list_is(const char* name, const T& t, const std::vector<u64>& e)
    {
        if (t.size() != e.size()) fail("derived", "%s of a vector of size %zu has size %llu", name, e.size(), (unsigned long long)t.size());
        for (size_t i = 0; i < e.size(); ++i) if (t[i] != e[i]) fail("derived", "%s of a vector of size %zu: element %zu is wrong", name, e.size(), i);
    }
    template<uint8_t X> void int_derive(int_vector<X>& x, Bits& y, u64 k)
    {
        std::vector<u64> e = y.vals();
        switch (k % 5) {
            case 0: list_is("dac_vector", dac_vector<>(x), e); break;
            case 1: for (u64 z : e) if (z == ~0ULL) return; list_is("vlc_vector", vlc_vector<>(x), e); break;
            case 2: {
                if (e.empty() || e.size() > 600) return;
                rmq_succinct_sct<> q(&x);
                rmq_support_sparse_table<int_vector<X>> s(&x);
                for (int t = 0; t < 20; ++t) {
                    u64 z = Rng::mix(k + t);
                    size_t l = z % e.size(), h = l + (z >> 32) % (e.size() - l);
                    size_t want = std::min_element(e.begin() + l, e.begin() + h + 1) - e.begin();
                    if (e[q(l, h)] != e[want] || e[s(l, h)] != e[want] || q(l, h) < l || q(l, h) > h) fail("derived", "range minimum of [%zu,%zu] in a vector of size %zu is wrong", l, h, e.size());
                }
                break;
            }
            case 3: {
                if (!std::is_sorted(e.begin(), e.end())) return;
                for (u64 z : e) if (z >> 62) return;
                list_is("enc_vector", enc_vector<>(x), e);
                break;
            }
            default: {
                std::ostringstream o;
                o << x;                         // elements separated by blanks
                std::istringstream in(o.str());
                u64 z; size_t i = 0;
                if (X == 8) return;             // characters
                while (in >> z) { if (i >= e.size() || z != e[i]) fail("derived", "operator<< of a vector of size %zu writes another element %zu", e.size(), i); ++i; }
                if (i != e.size()) fail("derived", "operator<< of a vector of size %zu writes %zu elements", e.size(), i);
            }
        }
        r.hit("derived_ints");
    }

    void step(const Op& op)
    {
        const std::string& o = op.name;
        const int a = op.arg(0) % SLOTS, b = op.arg(1) % SLOTS;
        const u64 x = op.arg(2), y = op.arg(3), oom = op.arg(4);
        Bits& A = m[a]; Bits& B = m[b];
        V& va = v[a]; V& vb = v[b];
        if (A.dead && o != "new" && o != "list" && o != "assign" && o != "from" && o != "load") return;
        auto lost = [&](Bits& z) { z.dead = true; };
        if (o == "new") {
            const unsigned w = W ? W : 1 + y / 3 % 64;
            const u64 val = y % 3 == 0 ? 0 : y % 3 == 1 ? ~0ULL : Rng::mix(y);
            if (!lib(oom, [&] { va = V(x, (typename V::value_type)val, w); })) return lost(A);
            A = Bits(); A.w = w; A.b.assign(x * w, 0); A.fill(val);
        } else if (o == "list") {
            const u64 q = Rng::mix(x);
            if (!lib(oom, [&] { va = V({q & 1, x & 1, (u64)1, (u64)0, y & 1}); })) return lost(A);
            A = Bits(); A.w = W ? W : 64; A.b.assign(5 * A.w, 0);
            A.set(0, q & 1); A.set(1, x & 1); A.set(2, 1); A.set(4, y & 1);
        } else if (o == "resize" || o == "bitresize") {
            const u64 bits = o == "resize" ? x * A.w : x * (1 + y % 8);
            if (!lib(oom, [&] { if (o == "resize") va.resize(x); else va.bit_resize(bits); })) return lost(A);
            A.b.resize(bits, 2);
        } else if (o == "set") {
            if (!A.n()) return;
            const u64 z = Rng::mix(y) >> (y % 70 < 64 ? y % 70 : 0);
            va[x % A.n()] = (typename V::value_type)z;
            A.set(x % A.n(), W == 1 ? z != 0 : z);
        } else if (o == "fillrun") {
            for (size_t i = 0; i < A.n(); ++i) {
                const u64 z = Rng::mix(x + i) >> (y % 66 < 64 ? y % 66 : 0) & (y & 64 ? Rng::mix(x * 3 + i) & Rng::mix(x * 5 + i) : ~0ULL);
                va[i] = (typename V::value_type)z;
                A.set(i, W == 1 ? z != 0 : z);
            }
        } else if (o == "setint") {
            const unsigned len = 1 + y % (8 * sizeof(typename V::value_type));
            if (A.b.size() < len) return;
            const size_t pos = x % (A.b.size() - len + 1);
            va.set_int(pos, Rng::mix(y), len);
            A.put(pos, len, Rng::mix(y));
        } else if (o == "getint") {
            const unsigned len = 1 + y % (8 * sizeof(typename V::value_type));
            if (A.b.size() < len) return;
            const size_t pos = x % (A.b.size() - len + 1);
            for (unsigned j = 0; j < len; ++j) if (A.b[pos + j] == 2) return;
            eq("get_int", va.get_int(pos, len), A.word(pos, len));
        } else if (o == "swapref") {
            if (!A.n() || !B.n() || B.dead || A.w != B.w) return;
            const size_t i = x % A.n(), j = y % B.n();
            using std::swap;
            if (A.known(i) && B.known(j)) { swap(va[i], vb[j]); u64 z = A.get(i); A.set(i, B.get(j)); B.set(j, z); }
        } else if (o == "setref") {
            if (!A.n() || !B.n() || B.dead || A.w != B.w) return;
            const size_t i = x % A.n(), j = y % B.n();
            if (!B.known(j)) return;
            if (A.known(i)) { eq("comparing two elements (==)", va[i] == vb[j], A.get(i) == B.get(j)); eq("comparing two elements (<)", va[i] < vb[j], A.get(i) < B.get(j)); }
            va[i] = vb[j]; A.set(i, B.get(j));
        } else if (o == "assign") {
            if (B.dead) return;
            if (!lib(oom, [&] { va = vb; })) return lost(A);
            A = B;
        } else if (o == "from") {
            if (B.dead) return;
            if (a == b) return;
            if (!lib(oom, [&] { if (y & 1) { V t(vb); va.swap(t); } else util::assign(va, (const V&)vb); })) return lost(A);
            A = B;
        } else if (o == "move") {
            if (B.dead || a == b) return;
            if (y & 1) va = std::move(vb); else { V t(std::move(vb)); va = std::move(t); }
            A = B; B.dead = true;
        } else if (o == "swap") {
            if (B.dead) return;
            va.swap(vb);
            if (a != b) std::swap(A, B);
        } else if (o == "clear") {
            util::clear(va);
            A = Bits(); A.w = W ? W : 64;
        } else if (o == "flip" || o == "derive") only_bits<W>(va, A, o, y);
        else if (o == "width" || o == "expand" || o == "compress") {
            if (oom) return;
            only_var<W>(va, A, o, y);
        } else if (o == "and" || o == "or" || o == "xor") {
            if (B.dead) return;
            if (A.b.size() != B.b.size()) return;
            if (o == "and") va &= vb; else if (o == "or") va |= vb; else va ^= vb;
            for (size_t j = 0; j < A.b.size(); ++j)
                A.b[j] = A.b[j] == 2 || B.b[j] == 2 ? 2 : o == "and" ? A.b[j] & B.b[j] : o == "or" ? A.b[j] | B.b[j] : A.b[j] ^ B.b[j];
        } else if (o == "mod") {
            if (!A.elems()) return;
            const u64 q = 1 + y % 1000;
            util::mod(va, q);
            for (size_t i = 0; i < A.n(); ++i) A.set(i, A.get(i) % q);
        } else if (o == "value") {
            const u64 val = y % 3 == 0 ? 0 : y % 3 == 1 ? A.mask() : Rng::mix(y) & A.mask();
            util::set_to_value(va, val);
            A.fill(val);
        } else if (o == "id") {
            if (W == 1) return;
            util::set_to_id(va);
            for (size_t i = 0; i < A.n(); ++i) A.set(i, i);
        } else if (o == "zeros" || o == "ones") {
            if (o == "zeros") util::_set_zero_bits(va); else util::_set_one_bits(va);
            for (auto& c : A.b) c = o == "ones";
        } else if (o == "random") {
            util::set_random_bits(va, 1 + y % 1000);
            for (size_t j = 0; j < A.b.size(); ++j) A.b[j] = va.get_int(j, 1);
        } else if (o == "count") {
            if (!A.all()) return;
            u64 c1 = 0, c10 = 0, c01 = 0;
            for (size_t j = 0; j < A.b.size(); ++j) {
                c1 += A.b[j];
                if (j) { c10 += A.b[j - 1] && !A.b[j]; c01 += !A.b[j - 1] && A.b[j]; }
            }
            eq("cnt_one_bits", util::cnt_one_bits(va), c1);
            eq("cnt_onezero_bits", util::cnt_onezero_bits(va), c10);
            eq("cnt_zeroone_bits", util::cnt_zeroone_bits(va), c01);
        } else if (o == "next" || o == "prev") {
            if (!A.all() || A.b.empty()) return;
            const size_t i = x % A.b.size();
            size_t j = i;
            if (o == "next") { while (j < A.b.size() && !A.b[j]) ++j; eq("next_bit", util::next_bit(va, i), j); }
            else { while (j != (size_t)-1 && !A.b[j]) --j; eq("prev_bit", util::prev_bit(va, i), j == (size_t)-1 ? A.b.size() : j); }
        } else if (o == "compare") {
            if (B.dead || !A.all() || !B.all() || A.w != B.w || A.b.size() % A.w || B.b.size() % B.w) return;
            const std::vector<u64> e = A.vals(), f = B.vals();
            eq("operator==", va == vb, e == f); eq("operator!=", va != vb, e != f);
            eq("operator<", va < vb, e < f); eq("operator>", va > vb, e > f);
            eq("operator<=", va <= vb, e <= f); eq("operator>=", va >= vb, e >= f);
            if (e.size() == f.size()) r.hit(e == f ? "compared_equal" : "compared_same_size");
        } else if (o == "sort" || o == "reverse" || o == "rotate") {
            if (!A.elems()) return;
            std::vector<u64> e = A.vals();
            const size_t k = e.empty() ? 0 : x % (e.size() + 1);
            if (o == "sort") { std::sort(va.begin(), va.end()); std::sort(e.begin(), e.end()); }
            else if (o == "reverse") { std::reverse(va.begin(), va.end()); std::reverse(e.begin(), e.end()); }
            else { std::rotate(va.begin(), va.begin() + k, va.end()); std::rotate(e.begin(), e.begin() + k, e.end()); }
            for (size_t i = 0; i < e.size(); ++i) A.set(i, e[i]);
        } else if (o == "copyrange") {
            if (B.dead || a == b || !A.n() || !B.n()) return;
            const size_t len = std::min(A.n(), B.n()), k = x % len + 1;
            for (size_t i = 0; i < k; ++i) if (!B.known(i)) return;
            const V& cb = vb;
            std::copy(cb.begin(), cb.begin() + k, va.begin() + (A.n() - k));
            for (size_t i = 0; i < k; ++i) A.set(A.n() - k + i, B.get(i) & A.mask());
        } else if (o == "walk") {
            const std::vector<u64> e = A.vals();
            if (e.empty() || !A.elems()) return;
            const V& c = va;
            auto it = va.begin(); auto ct = c.begin();
            size_t i = 0;
            for (int t = 0; t < 12; ++t) {
                const u64 z = Rng::mix(x * 31 + t);
                const size_t j = z % e.size();
                const int64_t d = (int64_t)j - (int64_t)i;
                switch (z >> 40 & 7) {
                    case 0: it += d; ct += d; i = j; break;
                    case 1: it -= -d; ct -= -d; i = j; break;
                    case 2: it = it + d; ct = ct + d; i = j; break;
                    case 3: it = it - -d; ct = ct - -d; i = j; break;
                    case 4: if (i + 1 < e.size()) { ++it; ++ct; ++i; } break;
                    case 5: if (i + 1 < e.size()) { eq("*it++", (u64)*it++, e[i]); eq("*it++", (u64)*ct++, e[i]); ++i; } break;
                    case 6: if (i) { --it; --ct; --i; } break;
                    default: if (i) { eq("*it--", (u64)*it--, e[i]); eq("*it--", (u64)*ct--, e[i]); --i; } break;
                }
                eq("*it", (u64)*it, e[i]); eq("*const it", (u64)*ct, e[i]);
                eq("it[d]", (u64)it[(int64_t)j - (int64_t)i], e[j]); eq("const it[d]", (u64)ct[(int64_t)j - (int64_t)i], e[j]);
                { auto be = va.begin(); eq("it - begin", it - be, i); auto cb = c.begin(); eq("const it - begin", ct - cb, i); } { auto en = va.end(); eq("end - it", en - it, e.size() - i); }
                auto jt = va.begin() + j; auto cj = c.begin() + j;
                eq("it == it", it == jt, i == j); eq("it < it", it < jt, i < j); eq("it > it", it > jt, i > j); eq("it <= it", it <= jt, i <= j);
                eq("const it == it", ct == cj, i == j); eq("const it < it", ct < cj, i < j); eq("const it > it", ct > cj, i > j); eq("const it >= it", ct >= cj, i >= j);
            }
            u64 s1 = 0, s2 = 0;
            for (u64 z : c) s1 += z;
            for (u64 z : e) s2 += z;
            eq("the sum of all elements", s1, s2);
            eq("max_element", std::max_element(c.begin(), c.end()) - c.begin(), std::max_element(e.begin(), e.end()) - e.begin());
        } else if (o == "load") {
            if (B.dead) return;
            std::ostringstream out;
            const u64 n = vb.serialize(out);
            eq("the result of serialize", n, out.str().size());
            std::istringstream in(out.str() + "tail");
            if (!lib(oom, [&] { va.load(in); })) return lost(A);
            if (!in || (size_t)in.tellg() != out.str().size()) fail("load", "int_vector<%d>: load read %lld of %zu bytes", W, (long long)in.tellg(), out.str().size());
            if (a != b) A = B;
        } else if (o == "file") {
            if (B.dead || B.b.size() % B.w) return;
            if (!(y & 1 ? store_to_file(vb, "/d/v") : store_to_file(vb, "@v")) || !load_from_file(va, y & 1 ? "/d/v" : "@v")) fail("file", "int_vector<%d>: storing to a file and loading fails", W);
            A = B;
            int_vector_buffer<W> bu(y & 1 ? "/d/v" : "@v", std::ios::in, 8 + x % 64);
            if (bu.size() != A.n() || (A.b.size() && bu.width() != A.w)) fail("file", "int_vector<%d>: a buffer of the stored vector has another size or width", W);
            for (size_t i = 0; i < A.n(); ++i) if (A.known(i) && (u64)bu[i] != A.get(i)) fail("file", "int_vector<%d>: a buffer of the stored vector has another element %zu", W, i);
        } else fail("harness", "unknown operation %s", o.c_str());
        same(a, o.c_str());
        if (b != a) same(b, o.c_str());
    }
    void finish() { for (int i = 0; i < SLOTS; ++i) { same(i, "everything"); if (m[i].dead) { V t(5); v[i] = t; if (v[i].size() != 5) fail("size", "int_vector<%d>: an assigned object has size %llu", W, (unsigned long long)v[i].size()); } } }
};

// ---- the dynamic nearest neighbour dictionary and the sorted stacks
struct DictHist {
    nn_dict_dynamic v[SLOTS];
    std::vector<bool> m[SLOTS];
    bool dead[SLOTS] = {};
    Run& r;
    explicit DictHist(Run& run) : r(run) {}
    void check(int a, size_t i, const char* op)
    {
        const nn_dict_dynamic& c = v[a];
        const size_t n = m[a].size();
        if (c.size() != n) fail("size", "nn_dict_dynamic: after %s the size is %llu, not %zu", op, (unsigned long long)c.size(), n);
        if (!n) return;
        i %= n;
        if (c[i] != m[a][i]) fail("element", "nn_dict_dynamic of size %zu: after %s bit %zu is wrong", n, op, i);
        size_t x = i, p = i;
        while (x < n && !m[a][x]) ++x;
        while (p != (size_t)-1 && !m[a][p]) --p;
        if (p == (size_t)-1) p = n;
        if (c.next(i) != x) fail("next", "nn_dict_dynamic of size %zu: after %s next(%zu) is %llu, not %zu", n, op, i, (unsigned long long)c.next(i), x);
        if (c.prev(i) != p) fail("prev", "nn_dict_dynamic of size %zu: after %s prev(%zu) is %llu, not %zu", n, op, i, (unsigned long long)c.prev(i), p);
    }
    void step(const Op& op)
    {
        const std::string& o = op.name;
        const int a = op.arg(0) % SLOTS, b = op.arg(1) % SLOTS;
        const u64 x = op.arg(2), y = op.arg(3);
        if (dead[a] && o != "new" && o != "assign" && o != "load") return;
        const size_t n = m[a].size();
        const char* s = o.c_str();
        if (o == "new") {
            static const u64 sz[] = {1, 63, 64, 65, 4095, 4096, 4097, 128, 4160, 0};
            const u64 k = y % 3 ? x : sz[x % 10];
            v[a] = nn_dict_dynamic(k); m[a].assign(k, false); dead[a] = false;
        } else if (o == "set" || o == "unset") { if (n) { v[a][x % n] = o == "set"; m[a][x % n] = o == "set"; check(a, x, s); } }
        else if (o == "many") for (u64 i = 0; n && i < y % 40; ++i) { const u64 z = Rng::mix(x + i); const size_t k = y & 64 ? z % n : z % std::min<size_t>(n, 200); const bool on = z >> 40 & 1; v[a][k] = on; m[a][k] = on; }
        else if (o == "setref") { if (n && !dead[b] && m[b].size()) { v[a][x % n] = v[b][y % m[b].size()]; m[a][x % n] = (bool)m[b][y % m[b].size()]; } }
        else if (o == "clear") { if (n) util::set_zero_bits(v[a]); m[a].assign(n, false); }
        else if (dead[b]) return;
        else if (o == "assign") { if (y & 1) v[a] = v[b]; else { nn_dict_dynamic t(v[b]); v[a].swap(t); } m[a] = m[b]; dead[a] = false; }
        else if (o == "compare") {
            if (!n || m[b].empty()) return;
            const size_t i = x % n, j = y % m[b].size();
            const bool p = m[a][i], q = m[b][j];
            if ((v[a][i] == v[b][j]) != (p == q) || (v[a][i] < v[b][j]) != (p < q)) fail("value", "nn_dict_dynamic: comparing two elements is wrong");
        }
        else if (o == "move") { if (a == b) return; if (y & 1) v[a] = std::move(v[b]); else { nn_dict_dynamic t(std::move(v[b])); v[a] = t; } m[a] = m[b]; dead[b] = true; }
        else if (o == "swap") { v[a].swap(v[b]); m[a].swap(m[b]); if (a != b && (y & 1)) { nn_dict_dynamic t; t.swap(v[a]); v[a].swap(t); } }
        else if (o == "load") { std::ostringstream out; v[b].serialize(out); std::istringstream in(out.str()); v[a].load(in); m[a] = m[b]; dead[a] = false; }
        else if (o != "ask") fail("harness", "unknown operation %s", s);
        for (int t = 0; t < 4; ++t) { check(a, Rng::mix(y + t), s); if (!dead[b]) check(b, Rng::mix(y * 3 + t), s); }
        if (m[a].size()) { check(a, 0, s); check(a, m[a].size() - 1, s); }
    }
    void finish() { for (int i = 0; i < SLOTS; ++i) if (!dead[i]) for (size_t k = 0; k < m[i].size(); k += m[i].size() > 800 ? 37 : 1) check(i, k, "everything"); }
};

template<class S> struct StackHist {
    std::vector<S> v;
    std::vector<u64> m[SLOTS];
    u64 lim[SLOTS];
    Run& r;
    const char* name; const int kind;            // 0 any value, 1 below n, 2 with repetitions
    StackHist(Run& run, const char* nm, int k) : r(run), name(nm), kind(k) { for (int i = 0; i < SLOTS; ++i) { v.push_back(S(10)); lim[i] = 10; } }
    static bool push(sorted_multi_stack_support& s, u64 x) { return s.push(x); }
    template<class T> static bool push(T& s, u64 x) { s.push(x); return true; }
    static bool pop(sorted_multi_stack_support& s) { return s.pop(); }
    template<class T> static bool pop(T& s) { s.pop(); return true; }
    void same(int a, const char* op)
    {
        const S& c = v[a];
        if (c.size() != m[a].size() || c.empty() != m[a].empty()) fail("size", "%s: after %s the size is %llu, not %zu", name, op, (unsigned long long)c.size(), m[a].size());
        if (m[a].size() && c.top() != m[a].back()) fail("top", "%s for values up to %llu: after %s top is %llu, not %llu", name, (unsigned long long)lim[a], op, (unsigned long long)c.top(), (unsigned long long)m[a].back());
    }
    void step(const Op& op)
    {
        const std::string& o = op.name;
        const int a = op.arg(0) % SLOTS, b = op.arg(1) % SLOTS;
        const u64 x = op.arg(2), y = op.arg(3);
        auto up = [&](u64 z) {
            if (m[a].size() > lim[a]) return;
            u64 k = m[a].empty() ? z % 70 : m[a].back() + (kind == 2 ? 0 : 1) + (z % 5 ? z % 4 : z % 200);
            if (m[a].empty() && z % 3 == 0) k = z % (lim[a] + 1);
            if (kind && k > lim[a]) return;
            const bool dup = m[a].size() && m[a].back() == k;
            if (push(v[a], k) != !dup) fail("result", "%s: push returns the wrong answer", name);
            m[a].push_back(k);
            same(a, "push");
        };
        auto down = [&] {
            const bool dup = m[a].size() > 1 && m[a][m[a].size() - 2] == m[a].back(), any = m[a].size();
            if (pop(v[a]) != (any ? !dup : kind != 2)) fail("result", "%s: pop returns the wrong answer", name);
            if (any) m[a].pop_back();
            same(a, "pop");
        };
        if (o == "new") { lim[a] = y % 3 ? x : x % 130; v[a] = S(lim[a]); m[a].clear(); }
        else if (o == "push") up(y);
        else if (o == "pop") down();
        else if (o == "many") for (u64 i = 0; i < x % 60; ++i) { const u64 z = Rng::mix(y + i); if (z >> 50 & 1 || y % 3 == 0) up(z); else down(); }
        else if (o == "drain") while (m[a].size()) down();
        else if (o == "assign") { if (y & 1) v[a] = v[b]; else { S t(v[b]); v[a] = std::move(t); } m[a] = m[b]; lim[a] = lim[b]; }
        else if (o == "move") { if (a == b) return; v[a] = std::move(v[b]); m[a] = m[b]; lim[a] = lim[b]; v[b] = S(20); lim[b] = 20; m[b].clear(); }
        else if (o == "swap") { std::swap(v[a], v[b]); if (a != b) { m[a].swap(m[b]); std::swap(lim[a], lim[b]); } }
        else if (o == "load") { std::ostringstream out; v[b].serialize(out); std::istringstream in(out.str()); v[a].load(in); m[a] = m[b]; lim[a] = lim[b]; }
        else fail("harness", "unknown operation %s", o.c_str());
        same(a, o.c_str());
        same(b, o.c_str());
    }
    void finish() { for (int i = 0; i < SLOTS; ++i) while (m[i].size()) { pop(v[i]); m[i].pop_back(); same(i, "everything"); } }
};

int plain_pages(void*, size_t len, int, int flags, void** out)
{
    if (!(flags & MAP_HUGETLB)) return 0;
    *out = (void*)syscall(SYS_mmap, nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    return 1;
}

struct C19 : World {
    C19() { name = "C19"; }
    Plan gen(Rng& g) override
    {
        Plan p;
        static const int fam[] = {0, 0, 0, 1, 1, 1, 5, 8, 16, 32, 64, 100, 101, 102, 103};
        const int f = fam[g(sizeof fam / sizeof *fam)];
        p.cfg["family"] = f;
        const unsigned top = 2 + g(f == 1 ? 11 : f == 100 ? 14 : 9);
        const int n = 3 + g(g(4) ? 25 : 70);
        static const std::vector<std::string> vo = {"new", "new", "list", "resize", "resize", "resize", "bitresize", "set", "set", "fillrun", "fillrun", "setint", "getint", "swapref", "setref", "assign", "from", "move", "swap", "clear",
            "flip", "flip", "derive", "derive", "derive", "width", "expand", "compress", "and", "or", "xor", "mod", "value", "id", "zeros", "ones", "random", "count", "next", "next", "prev", "compare", "compare", "sort", "reverse", "rotate", "copyrange", "walk", "load", "file"};
        static const std::vector<std::string> dop = {"new", "set", "set", "unset", "many", "many", "setref", "clear", "assign", "move", "swap", "load", "ask", "compare"};
        static const std::vector<std::string> so = {"new", "push", "push", "pop", "many", "many", "many", "drain", "assign", "move", "swap", "load"};
        const auto& ops = f < 100 ? vo : f == 100 ? dop : so;
        // some runs use few kinds of operations, some few objects
        std::vector<std::string> some;
        if (g(3)) for (int i = 0; i < 9; ++i) some.push_back(g.pick(ops)); else some = ops;
        some.push_back(f < 100 ? "fillrun" : "many");
        const int slots = 1 + g(SLOTS);
        const bool oom = f < 100 && g(4) == 0;
        if (!oom && g(8) == 0) p.cfg["huge"] = 1;
        for (int i = 0; i < slots; ++i) p.op("new", {i, i, (int64_t)g(1ULL << g(top + 1)), (int64_t)g(1 << 20), 0});
        for (int i = 0; i < n; ++i)
            p.op(g.pick(some), {(int64_t)g(slots), (int64_t)g(slots), (int64_t)g(1ULL << g(top + 1)), (int64_t)g(1 << 20), oom && g(3) == 0 ? 1 + (int64_t)g(2) : 0});
        return p;
    }
    template<class H> void go(H& h, const Plan& p, Run& r)
    {
        u64 st = p.get("family");
        for (auto& o : p.ops) {
            h.step(o);
            r.ev("%s", o.name.c_str());
            r.hit("op_" + o.name);
            u64 k = 0;
            for (char c : o.name) k = k * 31 + c;
            st = mix2(st, k);
            r.state(mix2(st % 1000003, o.arg(2)));
        }
        h.finish();
        r.nontrivial = p.ops.size() > 1;
    }
    void exec(const Plan& p, Run& r) override
    {
        Quiet q;
        os.reset(p);
        mem.reset();
        const int f = (int)p.get("family");
        r.hit("family_" + std::to_string(f));
        Inject i;
        if (p.get("huge")) { sim_mmap_hook = plain_pages; memory_manager::use_hugepages(1 << 24); r.hit("hugepages"); }
        switch (f) {
            case 0: { VecHist<0> h(r); go(h, p, r); break; }
            case 1: { VecHist<1> h(r); go(h, p, r); break; }
            case 5: { VecHist<5> h(r); go(h, p, r); break; }
            case 8: { VecHist<8> h(r); go(h, p, r); break; }
            case 16: { VecHist<16> h(r); go(h, p, r); break; }
            case 32: { VecHist<32> h(r); go(h, p, r); break; }
            case 64: { VecHist<64> h(r); go(h, p, r); break; }
            case 100: { DictHist h(r); go(h, p, r); break; }
            case 101: { StackHist<sorted_int_stack> h(r, "sorted_int_stack", 0); go(h, p, r); break; }
            case 102: { StackHist<sorted_stack_support> h(r, "sorted_stack_support", 1); go(h, p, r); break; }
            default: { StackHist<sorted_multi_stack_support> h(r, "sorted_multi_stack_support", 2); go(h, p, r); }
        }
    }
};
AddWorld<C19> a19;
}
