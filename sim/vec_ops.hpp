// Instrumented: the operations on the bit vector under test.
#pragma once
#include "bitlib/bitlib.hpp"
#include "vec.hpp"
#include <functional>
#include <memory>
#include <new>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>

template <class A> A mk(int id) { if constexpr (std::is_constructible<A, int>::value) return A(id); else { (void)id; return A(); } }
namespace {
// a random access iterator of the user's; operations of one kind may throw: 1 dereference, 2 step, 3 jump, 4 distance, 5 comparison, 0 any
template <class T> struct UserIt {
    using iterator_category = std::random_access_iterator_tag; using value_type = T; using difference_type = std::ptrdiff_t; using pointer = const T*; using reference = const T&;
    const T* p = nullptr; VecArgs* a = nullptr;
    void at(int k) const { if (a->throw_at && (a->kind == 0 || a->kind == k) && ++a->calls == a->throw_at) sim_throw(a->thk, a->throw_at * 100 + a->kind); }
    reference operator*() const { at(1); return *p; }
    pointer operator->() const { at(1); return p; }
    reference operator[](difference_type n) const { at(1); return p[n]; }
    UserIt& operator++() { at(2); ++p; return *this; }
    UserIt& operator--() { at(2); --p; return *this; }
    UserIt operator++(int) { at(2); UserIt o = *this; ++p; return o; }
    UserIt operator--(int) { at(2); UserIt o = *this; --p; return o; }
    UserIt& operator+=(difference_type n) { at(3); p += n; return *this; }
    UserIt& operator-=(difference_type n) { at(3); p -= n; return *this; }
    friend UserIt operator+(UserIt i, difference_type n) { i += n; return i; }
    friend UserIt operator+(difference_type n, UserIt i) { i += n; return i; }
    friend UserIt operator-(UserIt i, difference_type n) { i -= n; return i; }
    friend difference_type operator-(const UserIt& x, const UserIt& y) { x.at(4); return x.p - y.p; }
    friend bool operator==(const UserIt& x, const UserIt& y) { x.at(5); return x.p == y.p; }
    friend bool operator!=(const UserIt& x, const UserIt& y) { x.at(5); return x.p != y.p; }
    friend bool operator<(const UserIt& x, const UserIt& y) { x.at(5); return x.p < y.p; }
    friend bool operator>(const UserIt& x, const UserIt& y) { x.at(5); return x.p > y.p; }
    friend bool operator<=(const UserIt& x, const UserIt& y) { x.at(5); return x.p <= y.p; }
    friend bool operator>=(const UserIt& x, const UserIt& y) { x.at(5); return x.p >= y.p; }
};
template <class W, class A> struct Vec {
    using BV = bit::bit_vector<W, A>;
    using CIt = typename BV::const_iterator;
    using It = typename BV::iterator;
    static constexpr int64_t D = bit::binary_digits<W>::value;
    static int64_t off(BV& b, const It& i) { return i - b.begin(); }
    static void run(VecArgs& a) {
        BV& s = *static_cast<BV*>(a.s);
        BV& t = *static_cast<BV*>(a.t);
        const bit::bit_value v = a.v ? bit::bit1 : bit::bit0;
        W* words = const_cast<W*>(static_cast<const W*>(a.words));
        const A al = mk<A>(a.aid);
        const BV& ct = t;
#if SIM_SKIP & 1
        using WI = typename std::vector<W>::iterator;
#else
        using WI = W*;
#endif
        using BI = bit::bit_iterator<WI>;
        switch (a.code) {
        case V_NEW: ::new (a.s) BV(); break;
        case V_NEWALLOC: ::new (a.s) BV(al); break;
        case V_NEWN: if (a.deflt) ::new (a.s) BV(static_cast<std::size_t>(a.size)); else ::new (a.s) BV(static_cast<std::size_t>(a.size), al); break;
        case V_NEWNV: if (a.deflt) ::new (a.s) BV(static_cast<std::size_t>(a.size), v); else ::new (a.s) BV(static_cast<std::size_t>(a.size), v, al); break;
        case V_NEWBITS: {
            BI f(WI(words + a.p / D), static_cast<std::size_t>(a.p % D)), l(WI(words + (a.p + a.n) / D), static_cast<std::size_t>((a.p + a.n) % D));
            if (a.deflt) ::new (a.s) BV(f, l); else ::new (a.s) BV(f, l, al);
            break; }
        case V_NEWFROM: if (a.deflt) ::new (a.s) BV(t.begin() + a.p, t.begin() + (a.p + a.n)); else ::new (a.s) BV(t.begin() + a.p, t.begin() + (a.p + a.n), al); break;
        case V_NEWBOOL: if (a.deflt) ::new (a.s) BV(a.bools, a.bools + a.nbools); else ::new (a.s) BV(a.bools, a.bools + a.nbools, al); break;
        case V_NEWWORDS: if (a.deflt) ::new (a.s) BV(words + a.p, words + a.p + a.n); else ::new (a.s) BV(words + a.p, words + a.p + a.n, al); break;
        case V_UBOOL: { UserIt<bool> f{a.bools, &a}, l{a.bools + a.nbools, &a}; if (a.deflt) ::new (a.s) BV(f, l); else ::new (a.s) BV(f, l, al); break; }
        case V_UWORDS: { UserIt<W> f{words + a.p, &a}, l{words + (a.p + a.n), &a}; if (a.deflt) ::new (a.s) BV(f, l); else ::new (a.s) BV(f, l, al); break; }
        case V_NEWILB:
            switch (a.x % 4) {
            case 0: if (a.deflt) ::new (a.s) BV({true}); else ::new (a.s) BV({true}, al); break;
            case 1: if (a.deflt) ::new (a.s) BV({false, true, true}); else ::new (a.s) BV({false, true, true}, al); break;
            case 2: if (a.deflt) ::new (a.s) BV({true, false, false, true, false, true, true, true}); else ::new (a.s) BV({true, false, false, true, false, true, true, true}, al); break;
            default: if (a.deflt) ::new (a.s) BV({false, true, false, false, true, false, true, true, true, true, false}); else ::new (a.s) BV({false, true, false, false, true, false, true, true, true, true, false}, al); break;
            }
            break;
        case V_NEWILW:
            switch (a.x % 3) {
            case 0: if (a.deflt) ::new (a.s) BV({static_cast<W>(0x5a)}); else ::new (a.s) BV({static_cast<W>(0x5a)}, al); break;
            case 1: if (a.deflt) ::new (a.s) BV({static_cast<W>(0x13), static_cast<W>(-1), static_cast<W>(0)}); else ::new (a.s) BV({static_cast<W>(0x13), static_cast<W>(-1), static_cast<W>(0)}, al); break;
            default: if (a.deflt) ::new (a.s) BV({static_cast<W>(7), static_cast<W>(0x80), static_cast<W>(-2), static_cast<W>(1), static_cast<W>(0x3c)}); else ::new (a.s) BV({static_cast<W>(7), static_cast<W>(0x80), static_cast<W>(-2), static_cast<W>(1), static_cast<W>(0x3c)}, al); break;
            }
            break;
        case V_NEWILV:
            switch (a.x % 3) {
            case 0: ::new (a.s) BV({bit::bit0}, al); break;
            case 1: if (a.deflt) ::new (a.s) BV({bit::bit1, bit::bit0, bit::bit1}); else ::new (a.s) BV({bit::bit1, bit::bit0, bit::bit1}, al); break;
            default: ::new (a.s) BV({bit::bit1, bit::bit1, bit::bit0, bit::bit1, bit::bit0, bit::bit0, bit::bit1, bit::bit0, bit::bit1, bit::bit1}, al); break;
            }
            break;
        case V_NEWTEXT: ::new (a.s) BV(std::string_view(a.text, static_cast<std::size_t>(a.ntext))); break;
        case V_COPY: ::new (a.s) BV(ct); break;
        case V_COPYALLOC: ::new (a.s) BV(ct, al); break;
        case V_MOVE: ::new (a.s) BV(std::move(t)); break;
        case V_MOVEALLOC: ::new (a.s) BV(std::move(t), al); break;
        case V_DESTROY: s.~BV(); break;
        case V_ASSIGN: s = ct; break;
        case V_MASSIGN: s = std::move(t); break;
        case V_SWAP: { using std::swap; swap(s, t); break; }
        case V_PUSH: for (; a.done < a.n; a.done++) s.push_back(((a.x >> (a.done & 15)) & 1) ? bit::bit1 : bit::bit0); break;
        case V_INS1: a.ret = off(s, s.insert(s.begin() + a.p, v)); break;
        case V_INSN: a.ret = off(s, s.insert(s.begin() + a.p, static_cast<std::size_t>(a.size), v)); break;
        case V_INSR: a.ret = off(s, s.insert(s.begin() + a.p, t.begin() + a.q, t.begin() + (a.q + a.n))); break;
        case V_RESIZE: s.resize(static_cast<std::size_t>(a.size)); break;
        case V_RESIZEV: s.resize(static_cast<std::size_t>(a.size), v); break;
        case V_RESERVE: s.reserve(static_cast<std::size_t>(a.size)); break;
        case V_SHRINK: s.shrink_to_fit(); break;
        case V_ERASE1: a.ret = off(s, s.erase(s.begin() + a.p)); break;
        case V_ERASER: a.ret = off(s, s.erase(s.begin() + a.p, s.begin() + (a.p + a.n))); break;
        case V_POP: for (int64_t i = 0; i < a.n; i++) s.pop_back(); break;
        case V_CLEAR: s.clear(); break;
        case V_GET: a.ret = static_cast<bool>(s[static_cast<std::size_t>(a.p)]); break;
        case V_PUT: { auto r = s[static_cast<std::size_t>(a.p)]; if (a.x & 1) r.flip(); else r = v; a.ret = static_cast<bool>(r); break; }
        case V_AT: if (a.x & 2) { const BV& c = s; a.ret = c.at(static_cast<std::size_t>(a.size)) == bit::bit1; break; } { auto r = s.at(static_cast<std::size_t>(a.size)); if (a.x & 1) r = v; a.ret = static_cast<bool>(r); break; }
        case V_FRONT: { auto r = s.front(); if (a.x & 1) r = v; a.ret = static_cast<bool>(r); break; }
        case V_BACK: { auto r = s.back(); if (a.x & 1) r = v; a.ret = static_cast<bool>(r); break; }
        case V_ITER: {
            int64_t h = 0, k = 0;
            if (a.x & 1) { It i = s.end(); while (i != s.begin() && k < a.n) { --i; h = h * 3 + 1 + (*i == bit::bit1 ? 1 : 0); k++; } }
            else for (It i = s.begin(); i != s.end() && k < a.n; ++i, k++) h = h * 3 + 1 + (*i == bit::bit1 ? 1 : 0);
            a.ret = h; break; }
        case V_CGET: {
            const BV& c = s;
#if SIM_SKIP & 4 // algorithms over const words do not compile on the tree under test
            BV& ca = s;
#else
            const BV& ca = s;
#endif
            switch (a.x % 8) {
            case 0: a.ret = c[static_cast<std::size_t>(a.p)] == bit::bit1; break;
            case 1: a.ret = c.at(static_cast<std::size_t>(a.p)) == bit::bit1; break;
            case 2: a.ret = c.front() == bit::bit1; break;
            case 3: a.ret = c.back() == bit::bit1; break;
            case 4: a.ret = *(c.cbegin() + a.p) == bit::bit1; break;
            case 5: a.ret = bit::count(ca.begin() + a.p, ca.begin() + (a.p + a.n), v); break;
            case 6: a.ret = bit::find(ca.begin() + a.p, ca.begin() + (a.p + a.n), v) - ca.begin(); break;
            default: {
                int64_t h = 0, k = 0;
                CIt e = c.end();
                for (CIt i = c.begin(); i != e && k < a.n; ++i, k++) h = h * 3 + 1 + (*i == bit::bit1 ? 1 : 0);
                a.ret = h; break; }
            }
            break; }
        case V_DEBUG: {
            std::string r = (a.x & 1) ? s.debug_string() : s.debug_string(s.cbegin() + a.p, s.cbegin() + (a.p + a.n));
            sim_take_text(r.data(), r.size());
            break; }
        case V_REVERSE: bit::reverse(s.begin() + a.p, s.begin() + (a.p + a.n)); break;
        case V_ROTATE: a.ret = off(s, bit::rotate(s.begin() + a.p, s.begin() + (a.p + a.q), s.begin() + (a.p + a.n))); break;
        case V_SHL: a.ret = off(s, bit::shift_left(s.begin() + a.p, s.begin() + (a.p + a.n), static_cast<std::ptrdiff_t>(a.q))); break;
        case V_SHR: a.ret = off(s, bit::shift_right(s.begin() + a.p, s.begin() + (a.p + a.n), static_cast<std::ptrdiff_t>(a.q))); break;
        case V_FILL: bit::fill(s.begin() + a.p, s.begin() + (a.p + a.n), v); break;
        case V_NOT: a.ret = off(s, bit::transform(s.begin() + a.p, s.begin() + (a.p + a.n), s.begin() + a.p, std::bit_not<W>())); break;
        case V_COUNT: a.ret = bit::count(s.begin() + a.p, s.begin() + (a.p + a.n), v); break;
        case V_FIND: a.ret = off(s, bit::find(s.begin() + a.p, s.begin() + (a.p + a.n), v)); break;
        case V_EQUAL: a.ret = bit::equal(s.begin() + a.p, s.begin() + (a.p + a.n), t.begin() + a.q); break;
        case V_COPYR: a.ret = off(s, bit::copy(t.begin() + a.q, t.begin() + (a.q + a.n), s.begin() + a.p)); break;
        case V_SWAPR: a.ret = off(t, bit::swap_ranges(s.begin() + a.p, s.begin() + (a.p + a.n), t.begin() + a.q)); break;
        default: break;
        }
    }
    static void view(void* o, VecView& v) {
        BV& s = *static_cast<BV*>(o); const BV& c = s;
        v.size = c.size(); v.capacity = c.capacity(); v.max_size = c.max_size(); v.data = s.data(); v.empty = c.empty();
        v.span = s.end() - s.begin();
    }
};
}
template <template <class> class A> void vec_run(int wt, VecArgs& a) {
    switch (wt & 3) {
    case 0: Vec<std::uint8_t, A<std::uint8_t>>::run(a); break;
    case 1: Vec<std::uint16_t, A<std::uint16_t>>::run(a); break;
    case 2: Vec<std::uint32_t, A<std::uint32_t>>::run(a); break;
    default: Vec<std::uint64_t, A<std::uint64_t>>::run(a); break;
    }
}
template <template <class> class A> void vec_view(int wt, void* s, VecView& v) {
    switch (wt & 3) {
    case 0: Vec<std::uint8_t, A<std::uint8_t>>::view(s, v); break;
    case 1: Vec<std::uint16_t, A<std::uint16_t>>::view(s, v); break;
    case 2: Vec<std::uint32_t, A<std::uint32_t>>::view(s, v); break;
    default: Vec<std::uint64_t, A<std::uint64_t>>::view(s, v); break;
    }
}
