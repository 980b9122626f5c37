// Instrumented: how the bit iterators and references of a run are made.
#pragma once
#include "bitlib/bitlib.hpp"
#include "alg.hpp"
#include <iterator>
#include <vector>

namespace {
template <class W, int K> struct Mk;
template <class W> struct MkBase { static constexpr int64_t D = bit::binary_digits<W>::value; };
template <class W> struct Mk<W, K_RAW> : MkBase<W> {
    using It = W*; using CIt = const W*;
    static It word(AlgArgs& a, int64_t w) { return static_cast<W*>(a.base) + w; }
    static int64_t index(AlgArgs& a, It i) { return i - static_cast<W*>(a.base); }
    static CIt cword(AlgArgs& a, int64_t w) { return word(a, w); }
    static int64_t cindex(AlgArgs& a, CIt i) { return i - static_cast<W*>(a.base); }
};
template <class W> struct Mk<W, K_VEC> : MkBase<W> {
    using It = typename std::vector<W>::iterator; using CIt = typename std::vector<W>::const_iterator;
    static It word(AlgArgs& a, int64_t w) { return It(static_cast<W*>(a.base) + w); }
    static int64_t index(AlgArgs& a, It i) { return &*i - static_cast<W*>(a.base); }
    static CIt cword(AlgArgs& a, int64_t w) { return CIt(static_cast<W*>(a.base) + w); }
    static int64_t cindex(AlgArgs& a, CIt i) { return &*i - static_cast<W*>(a.base); }
};
template <class W> struct Mk<W, K_OBJ> : Mk<W, K_VEC> {};
template <class W> struct Mk<W, K_REV> : MkBase<W> { // words in the opposite order: not contiguous
    using It = std::reverse_iterator<W*>; using CIt = std::reverse_iterator<const W*>;
    static It word(AlgArgs& a, int64_t w) { return It(static_cast<W*>(a.base) + (a.words - w)); }
    static int64_t index(AlgArgs& a, It i) { return a.words - (i.base() - static_cast<W*>(a.base)); }
    static CIt cword(AlgArgs& a, int64_t w) { return CIt(static_cast<W*>(a.base) + (a.words - w)); }
    static int64_t cindex(AlgArgs& a, CIt i) { return a.words - (i.base() - static_cast<W*>(a.base)); }
};
template <class W, int K> struct Make : Mk<W, K> {
    using B = Mk<W, K>; using B::D;
    using BI = bit::bit_iterator<typename B::It>;
    using CBI = bit::bit_iterator<typename B::CIt>;
    using Vec = bit::bit_vector<W>;
    static BI mk(AlgArgs& a, int64_t b) {
        if constexpr (K == K_OBJ) return static_cast<Vec*>(a.obj)->begin() + b;
        else return BI(B::word(a, b / D), static_cast<std::size_t>(b % D));
    }
    static CBI cmk(AlgArgs& a, int64_t b) {
        if constexpr (K == K_OBJ) return static_cast<const Vec*>(a.obj)->begin() + b;
        else return CBI(B::cword(a, b / D), static_cast<std::size_t>(b % D));
    }
    static bit::bit_reference<W> ref(AlgArgs& a, int64_t b) {
        if constexpr (K == K_OBJ) return a.fn & 4 ? static_cast<Vec*>(a.obj)->at(static_cast<std::size_t>(b)) : (*static_cast<Vec*>(a.obj))[static_cast<std::size_t>(b)];
        else return bit::bit_reference<W>(*B::word(a, b / D), static_cast<std::size_t>(b % D));
    }
    // position as word index and bit, without using the library's own distance
    static int64_t off(AlgArgs& a, const BI& i) { return B::index(a, i.base()) * D + static_cast<int64_t>(i.position()); }
    static int64_t coff(AlgArgs& a, const CBI& i) { return B::cindex(a, i.base()) * D + static_cast<int64_t>(i.position()); }
};
}
