// Instrumented: bit references, pointers and iterators under test.
#include "mk.hpp"
#include <algorithm>

namespace {
template <class W, int K> struct Prx {
    using M = Make<W, K>;
    static constexpr int64_t D = bit::binary_digits<W>::value;
    using BI = typename M::BI;
    using Ref = bit::bit_reference<W>;
    using Ptr = bit::bit_pointer<W>;
    static BI mk(AlgArgs& a, int64_t b) { return M::mk(a, b); }
    static Ref ref(AlgArgs& a, int64_t b) { return M::ref(a, b); }
    static int64_t off(AlgArgs& a, const BI& i) { return M::off(a, i); }
    static int64_t off(AlgArgs& a, const Ref& r) { return (r.address() - static_cast<W*>(a.base)) * D + static_cast<int64_t>(r.position()); }
    static int64_t off(AlgArgs& a, const Ptr& p) { return off(a, *p); }
    template <class T> static int64_t laws(AlgArgs& b, T i, int64_t d, int64_t n) {
        T j = i + n;
        if (off(b, j) != d + n) return 1;
        if (j - i != n) return 2;
        if (i - j != -n) return 3;
        T k = j - n;
        if (!(k == i) || (k != i)) return 4;
        if ((i < j) != (n > 0) || (i > j) != (n < 0) || (i <= j) != (n >= 0) || (i >= j) != (n <= 0) || (i == j) != (n == 0) || (i != j) != (n != 0)) return 5;
        k = i; k += n;
        if (off(b, k) != d + n) return 6;
        k -= n;
        if (off(b, k) != d) return 7;
        if (off(b, n + i) != d + n) return 8;
        if (off(b, j + (-n)) != d || off(b, i - (-n)) != d + n) return 14;
        k = j; k += -n; if (off(b, k) != d) return 15;
        k = i; k -= -n; if (off(b, k) != d + n) return 16;
        int64_t m = n < 0 ? -n : n; if (m > 140) m = 140;
        k = i;
        for (int64_t q = 0; q < m; q++) {
            if (n > 0) { if (q & 1) { T o = k++; if (off(b, o) != d + q) return 9; } else { T& o = ++k; if (&o != &k) return 10; } }
            else { if (q & 1) { T o = k--; if (off(b, o) != d - q) return 11; } else { T& o = --k; if (&o != &k) return 12; } }
        }
        if (off(b, k) != d + (n < 0 ? -m : m)) return 13;
        return 0;
    }
    static void run(AlgArgs& a) {
        AlgArgs& b = a;
        bit::bit_value v = a.val ? bit::bit1 : bit::bit0;
        switch (a.code) {
        case P_SET: { Ref r = ref(b, a.d); if (a.fn & 1) r.set(static_cast<bool>(a.val)); else r.set(); a.ret = static_cast<bool>(r); break; }
        case P_RESET: { Ref r = ref(b, a.d); r.reset(); a.ret = static_cast<bool>(r); break; }
        case P_FLIP: { BI i = mk(b, a.d); (*i).flip(); a.ret = static_cast<bool>(*i); break; }
        case P_ASSIGN: { BI i = mk(b, a.d); *i = v; a.ret = *i == bit::bit1; break; }
        case P_ASSIGNREF: { BI i = mk(b, a.d), j = mk(b, a.s); *i = *j; a.ret = *i == bit::bit1; break; }
        case P_AND: { Ref r = ref(b, a.d); r &= v; a.ret = r == bit::bit1; break; }
        case P_OR: { Ref r = ref(b, a.d); r |= v; a.ret = r == bit::bit1; break; }
        case P_XOR: { Ref r = ref(b, a.d); r ^= v; a.ret = r == bit::bit1; break; }
        case P_GET: { BI i = mk(b, a.d); bit::bit_value x = *i; a.ret = static_cast<bool>(x); break; }
        case P_SWAP: { using std::swap; if (a.fn & 1) ref(b, a.d).swap(ref(b, a.s)); else swap(ref(b, a.d), ref(b, a.s)); break; }
        case P_SWAPVAL: { bit::bit_value x = v; using std::swap; if (a.fn % 3 == 0) ref(b, a.d).swap(x); else if (a.fn % 3 == 1) swap(ref(b, a.d), x); else swap(x, ref(b, a.d)); a.ret = static_cast<bool>(x); break; }
        case P_PTR: { Ptr p = &ref(b, a.d); int64_t n = a.s - a.d; if (a.fn & 1) p += n; else p = p + n; if (a.fn & 2) p[0].flip(); else p->flip(); a.ret = off(b, p); break; }
        case P_PTRDIFF: case P_ITER: {
            // target clipped into the array words owned by the caller (out[0], out[1])
            int64_t t = a.d + a.n; if (t < a.out[0]) t = a.out[0]; if (t > a.out[1]) t = a.out[1];
            int64_t n = t - a.d;
            if (a.code == P_ITER) {
                BI i = mk(b, a.d); a.ret = laws(b, i, a.d, n);
                if (!a.ret && n >= 0) { if (bit::distance(i, i + n) != n) a.ret = 20; BI e = i; bit::advance(e, n); if (off(b, e) != t) a.ret = 21; if (off(b, bit::next(i, n)) != t) a.ret = 22; if (off(b, std::next(i, n)) != t) a.ret = 23; }
                if (!a.ret && off(b, i[n]) != t) a.ret = 24;
            } else { Ptr p = &ref(b, a.d); a.ret = laws(b, p, a.d, n); if (!a.ret && off(b, p[n]) != t) a.ret = 25; }
            break; }
        case P_ASSIGNW: { Ref r = ref(b, a.d); if ((a.n & 3) == 0) r.assign(static_cast<W>(a.n >> 6)); else r.assign(static_cast<W>(a.n >> 6), static_cast<std::size_t>(a.n & 3)); a.ret = static_cast<bool>(r); break; }
        case P_STDCOPY: a.ret = off(b, std::copy(mk(b, a.s), mk(b, a.s) + a.len, mk(b, a.d))); break;
        case P_STDCOUNT: a.ret = std::count(mk(b, a.d), mk(b, a.d) + a.len, v); break;
        case P_STDFIND: a.ret = off(b, std::find(mk(b, a.d), mk(b, a.d) + a.len, v)); break;
        case P_STDFILL: std::fill(mk(b, a.d), mk(b, a.d) + a.len, v); break;
        case P_STDREV: std::reverse(mk(b, a.d), mk(b, a.d) + a.len); break;
        default: break;
        }
    }
};
template <class W> void pick(int it, AlgArgs& a) {
    switch (it) {   // SIM_SKIP: kinds that do not compile on the tree under test
    case K_RAW: case K_MIX: if constexpr (!(SIM_SKIP >> K_RAW & 1)) Prx<W, K_RAW>::run(a); break;
    case K_OBJ: if constexpr (!(SIM_SKIP >> K_OBJ & 1)) Prx<W, K_OBJ>::run(a); break;
    case K_REV: if constexpr (!(SIM_SKIP >> K_REV & 1)) Prx<W, K_REV>::run(a); break;
    default: Prx<W, K_VEC>::run(a); break;
    }
}
}
void lib_prx(int wt, int it, AlgArgs& a) {
    switch (wt & 3) {
    case 0: pick<std::uint8_t>(it, a); break;
    case 1: pick<std::uint16_t>(it, a); break;
    case 2: pick<std::uint32_t>(it, a); break;
    default: pick<std::uint64_t>(it, a); break;
    }
}
int lib_prx_skip() { return (SIM_SKIP) | (SIM_SKIP >> K_RAW & 1) << K_MIX; }
