// Instrumented: calls of the bit algorithms under test.
#include "mk.hpp"
#include <functional>

namespace {
template <class W, int K> struct Alg {
    using M = Make<W, K>;
    static constexpr int64_t D = bit::binary_digits<W>::value;
    using BI = typename M::BI; using CBI = typename M::CBI; using Vec = typename M::Vec;
    static BI mk(AlgArgs& a, int64_t b) { return M::mk(a, b); }
    static CBI cmk(AlgArgs& a, int64_t b) { return M::cmk(a, b); }
    static int64_t off(AlgArgs& a, const BI& i) { return M::off(a, i); }
    // a user's function may use the library itself, on other bits
    static void nested(AlgArgs& a) {
        using NB = bit::bit_iterator<typename std::conditional<K == K_RAW, W*, typename std::vector<W>::iterator>::type>;
        using NI = typename std::conditional<K == K_RAW, W*, typename std::vector<W>::iterator>::type;
        NB s = NB(NI(static_cast<W*>(a.scratch)), 0);
        switch (a.reent) {
        case 1: bit::rotate(s, s + 3, s + 3 * D); break;
        case 2: bit::reverse(s + 1, s + (3 * D - 1)); break;
        case 3: bit::copy(s + (D + 3), s + (2 * D + 4), s); break;
        case 4: bit::transform(s, s + (2 * D + 1), s, std::bit_not<W>()); break;
        case 5: bit::swap_ranges(s, s + (D + 2), s + (2 * D - 2)); break;
        case 6: bit::fill(s + 1, s + (2 * D + 1), bit::count(s, s + 3 * D, bit::bit1) & 1 ? bit::bit1 : bit::bit0); break;
        case 7: bit::copy_backward(s, s + (D + 1), s + (2 * D + 4)); break;
        case 8: bit::transform(s, s + (D + 3), s + (2 * D - 3), s, std::bit_xor<W>()); break;
        default: break;
        }
    }
    struct Not { W operator()(W w) const { return static_cast<W>(~w); } };
    struct Fn1 {
        AlgArgs* a; int fn; bool thr;
        W operator()(W w) const {
            ++a->calls; if (a->reent) nested(*a);
            if (thr && a->calls == a->throw_at) sim_throw(a->thk, a->throw_at * 1000 + fn);
            switch (fn) { case 0: return static_cast<W>(~w); case 1: return w; case 2: return W(0); default: return static_cast<W>(-1); }
        }
    };
    struct Fn2 {
        AlgArgs* a; int fn; bool thr;
        W operator()(W x, W y) const {
            ++a->calls; if (a->reent) nested(*a);
            if (thr && a->calls == a->throw_at) sim_throw(a->thk, a->throw_at * 1000 + fn);
            switch (fn) { case 0: return static_cast<W>(x & y); case 1: return static_cast<W>(x | y); case 2: return static_cast<W>(x ^ y);
                case 3: return static_cast<W>(x & ~y); case 4: return static_cast<W>(~(x | y)); default: return x; }
        }
    };
    static void run(AlgArgs& a) {
        AlgArgs& b = a;
        switch (a.code) {
        case A_COPY: if constexpr (K == K_OBJ) a.ret = off(b, bit::copy(cmk(b, a.s), cmk(b, a.s + a.len), mk(b, a.d))); else a.ret = off(b, bit::copy(mk(b, a.s), mk(b, a.s + a.len), mk(b, a.d))); break;
        case A_MOVE: a.ret = off(b, bit::move(mk(b, a.s), mk(b, a.s + a.len), mk(b, a.d))); break;
        case A_COPYB: if constexpr (K == K_OBJ) a.ret = off(b, bit::copy_backward(cmk(b, a.s), cmk(b, a.s + a.len), mk(b, a.d + a.len))); else a.ret = off(b, bit::copy_backward(mk(b, a.s), mk(b, a.s + a.len), mk(b, a.d + a.len))); break;
        case A_SWAP: a.ret = off(b, bit::swap_ranges(mk(b, a.s), mk(b, a.s + a.len), mk(b, a.d))); break;
        case A_REVERSE: bit::reverse(mk(b, a.d), mk(b, a.d + a.len)); break;
        case A_ROTATE: a.ret = off(b, bit::rotate(mk(b, a.d), mk(b, a.d + a.n), mk(b, a.d + a.len))); break;
        case A_SHL: a.ret = off(b, bit::shift_left(mk(b, a.d), mk(b, a.d + a.len), static_cast<std::ptrdiff_t>(a.n))); break;
        case A_SHR: a.ret = off(b, bit::shift_right(mk(b, a.d), mk(b, a.d + a.len), static_cast<std::ptrdiff_t>(a.n))); break;
        case A_FILL: bit::fill(mk(b, a.d), mk(b, a.d + a.len), a.val ? bit::bit1 : bit::bit0); break;
        case A_TR1:
            switch (a.fn) {
            case 0: a.ret = off(b, bit::transform(mk(b, a.s), mk(b, a.s + a.len), mk(b, a.d), std::bit_not<W>())); break;
            case 1: a.ret = off(b, bit::transform(mk(b, a.s), mk(b, a.s + a.len), mk(b, a.d), Not())); break;
            default: a.ret = off(b, bit::transform(mk(b, a.s), mk(b, a.s + a.len), mk(b, a.d), Fn1{&a, a.fn - 1, false})); break;
            }
            break;
        case A_TR2:
            switch (a.fn) {
            case 0: a.ret = off(b, bit::transform(mk(b, a.s), mk(b, a.s + a.len), mk(b, a.s2), mk(b, a.d), std::bit_and<W>())); break;
            case 1: a.ret = off(b, bit::transform(mk(b, a.s), mk(b, a.s + a.len), mk(b, a.s2), mk(b, a.d), std::bit_or<W>())); break;
            case 2: a.ret = off(b, bit::transform(mk(b, a.s), mk(b, a.s + a.len), mk(b, a.s2), mk(b, a.d), std::bit_xor<W>())); break;
            default: a.ret = off(b, bit::transform(mk(b, a.s), mk(b, a.s + a.len), mk(b, a.s2), mk(b, a.d), Fn2{&a, a.fn, false})); break;
            }
            break;
        case A_COUNT: if constexpr (K == K_OBJ) a.ret = bit::count(cmk(b, a.s), cmk(b, a.s + a.len), a.val ? bit::bit1 : bit::bit0);
            else a.ret = bit::count(mk(b, a.s), mk(b, a.s + a.len), a.val ? bit::bit1 : bit::bit0);
            break;
        case A_FIND: if constexpr (K == K_OBJ) a.ret = M::coff(b, bit::find(cmk(b, a.s), cmk(b, a.s + a.len), a.val ? bit::bit1 : bit::bit0));
            else a.ret = off(b, bit::find(mk(b, a.s), mk(b, a.s + a.len), a.val ? bit::bit1 : bit::bit0));
            break;
        case A_EQUAL: if constexpr (K == K_OBJ) a.ret = bit::equal(cmk(b, a.s), cmk(b, a.s + a.len), cmk(b, a.s2)); else a.ret = bit::equal(mk(b, a.s), mk(b, a.s + a.len), mk(b, a.s2)); break;
        case A_READ: {
            int64_t h = 0;
            if constexpr (K == K_OBJ) {
                const Vec& c = *static_cast<const Vec*>(a.obj);
                if (static_cast<int64_t>(c.size()) != a.words * D || c.empty() != (a.words == 0) || c.capacity() < c.size()) { a.ret = -1; break; }
                for (int64_t i = a.s; i < a.s + a.len; i++) h = h * 3 + 1 + (i % 3 == 0 ? c.at(static_cast<std::size_t>(i)) == bit::bit1 : i % 3 == 1 ? c[static_cast<std::size_t>(i)] == bit::bit1 : c.begin()[i] == bit::bit1);
            } else {
                BI e = mk(b, a.s + a.len);
                for (BI i = mk(b, a.s); i != e; ++i) h = h * 3 + 1 + (*i == bit::bit1 ? 1 : 0);
            }
            a.ret = h; break;
        }
        case O_COPY:
            if constexpr (K == K_OBJ) {
                const Vec& c = *static_cast<const Vec*>(a.obj);
                Vec w(c);
                a.ret = w.size() == c.size() && bit::equal(c.begin(), c.end(), w.begin()) ? bit::count(w.begin(), w.end(), bit::bit1) : -1;
            }
            break;
        case A_TR1X: a.ret = off(b, bit::transform(mk(b, a.s), mk(b, a.s + a.len), mk(b, a.d), Fn1{&a, a.fn, true})); break;
        case A_TR2X: a.ret = off(b, bit::transform(mk(b, a.s), mk(b, a.s + a.len), mk(b, a.s2), mk(b, a.d), Fn2{&a, a.fn, true})); break;
        default: break;
        }
    }
};
template <class W, int KX, int KY> struct Mix { // source and destination over different kinds
    using X = Alg<W, KX>; using Y = Alg<W, KY>;
    static void run(AlgArgs& a) {
        AlgArgs& b = a;
        switch (a.code) {
        case A_COPY: a.ret = Y::off(b, bit::copy(X::mk(b, a.s), X::mk(b, a.s + a.len), Y::mk(b, a.d))); break;
        case A_MOVE: a.ret = Y::off(b, bit::move(X::mk(b, a.s), X::mk(b, a.s + a.len), Y::mk(b, a.d))); break;
        case A_COPYB: a.ret = Y::off(b, bit::copy_backward(X::mk(b, a.s), X::mk(b, a.s + a.len), Y::mk(b, a.d + a.len))); break;
        case A_SWAP: a.ret = Y::off(b, bit::swap_ranges(X::mk(b, a.s), X::mk(b, a.s + a.len), Y::mk(b, a.d))); break;
        case A_EQUAL: a.ret = bit::equal(X::mk(b, a.s), X::mk(b, a.s + a.len), Y::mk(b, a.s2)); break;
        default: X::run(a); break;
        }
    }
};
template <class W> void pick(int it, AlgArgs& a) {
    switch (it) {   // SIM_SKIP: kinds that do not compile on the tree under test
    case K_RAW: if constexpr (!(SIM_SKIP >> K_RAW & 1)) Alg<W, K_RAW>::run(a); break;
    case K_OBJ: if constexpr (!(SIM_SKIP >> K_OBJ & 1)) Alg<W, K_OBJ>::run(a); break;
    case K_MIX: if constexpr (!(SIM_SKIP >> K_MIX & 1)) Mix<W, K_RAW, K_VEC>::run(a); break;
    case K_MIX2: if constexpr (!(SIM_SKIP >> K_MIX2 & 1)) Mix<W, K_VEC, K_RAW>::run(a); break;
    case K_REV: if constexpr (!(SIM_SKIP >> K_REV & 1)) Alg<W, K_REV>::run(a); break;
    default: Alg<W, K_VEC>::run(a); break;
    }
}
template <class F> auto widths(int wt, F f) {
    switch (wt & 3) {
    case 0: return f(std::uint8_t());
    case 1: return f(std::uint16_t());
    case 2: return f(std::uint32_t());
    default: return f(std::uint64_t());
    }
}
}
void lib_alg(int wt, int it, AlgArgs& a) { widths(wt, [&](auto w) { pick<decltype(w)>(it, a); }); }
std::size_t lib_obj_size(int wt) { return widths(wt, [](auto w) { return sizeof(bit::bit_vector<decltype(w)>); }); }
void* lib_obj_make(int wt, void* at, int64_t bits) {
    return widths(wt, [&](auto w) -> void* {
        auto* v = new (at) bit::bit_vector<decltype(w)>(static_cast<std::size_t>(bits), bit::bit0);
        return bits ? static_cast<void*>(&*v->begin().base()) : nullptr;
    });
}
int lib_alg_skip() { return SIM_SKIP; }
