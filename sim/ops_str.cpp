// Instrumented: stream insertion and extraction of bits under test.
#include "bitlib/bitlib.hpp"
#include "str.hpp"
#include <vector>

namespace {
template <class W> struct Str {
    static constexpr int64_t D = bit::binary_digits<W>::value;
#if SIM_SKIP & 1
    using WI = typename std::vector<W>::iterator;
#else
    using WI = W*;
#endif
    using BI = bit::bit_iterator<WI>;
    using Ref = bit::bit_reference<W>;
    template <class S> static void rd(S& is, StrArgs& a) {
        W* w = static_cast<W*>(a.base) + a.bit / D; std::size_t p = static_cast<std::size_t>(a.bit % D);
        if (a.mode == 0) {
            bit::bit_value v = a.val ? bit::bit1 : bit::bit0;
            struct Back { bit::bit_value& v; StrArgs& a; ~Back() { a.val = v == bit::bit1; } } back{v, a};
            is >> v;
        } else if (a.mode == 1) { Ref r(*w, p); is >> r; }
        else { auto r = *BI(WI(w), p); is >> r; }
    }
    template <class S> static void wr(S& os, StrArgs& a) {
        W* w = static_cast<W*>(a.base) + a.bit / D; std::size_t p = static_cast<std::size_t>(a.bit % D);
        if (a.mode == 0) os << (a.val ? bit::bit1 : bit::bit0);
        else if (a.mode == 1) os << Ref(*w, p);
        else os << *BI(WI(w), p);
    }
};
template <class W> void r(StrArgs& a) { if (a.wide) Str<W>::rd(*a.wis, a); else Str<W>::rd(*a.is, a); }
template <class W> void w(StrArgs& a) { if (a.wide) Str<W>::wr(*a.wos, a); else Str<W>::wr(*a.os, a); }
}
void lib_read_bit(int wt, StrArgs& a) {
    switch (wt & 3) {
    case 0: r<std::uint8_t>(a); break;
    case 1: r<std::uint16_t>(a); break;
    case 2: r<std::uint32_t>(a); break;
    default: r<std::uint64_t>(a); break;
    }
}
void lib_write_bit(int wt, StrArgs& a) {
    switch (wt & 3) {
    case 0: w<std::uint8_t>(a); break;
    case 1: w<std::uint16_t>(a); break;
    case 2: w<std::uint32_t>(a); break;
    default: w<std::uint64_t>(a); break;
    }
}
