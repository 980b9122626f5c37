// Scenario "alg": clients run bit algorithms and proxies on adjacent,
// word-disjoint parts of one storage array.  (C05 C06 C07 C08 C09 C12 C13)
#include "core.hpp"
#include "alg.hpp"
#include <algorithm>
#include <functional>

namespace sim {
static const OpInfo OPS[] = {{"copy"}, {"move"}, {"copy_backward"}, {"swap_ranges"}, {"reverse"}, {"rotate"}, {"shift_left"}, {"shift_right"},
    {"fill"}, {"transform1"}, {"transform2"}, {"count"}, {"find"}, {"equal"}, {"read"}, {"transform1_throw"}, {"transform2_throw"},
    {"p_set"}, {"p_reset"}, {"p_flip"}, {"p_assign"}, {"p_assignref"}, {"p_and"}, {"p_or"}, {"p_xor"}, {"p_get"}, {"p_swap"}, {"p_swapval"},
    {"p_ptr"}, {"p_ptrdiff"}, {"p_iter"}, {"p_stdcopy"}, {"p_stdcount"}, {"p_stdfind"}, {"p_stdfill"}, {"p_stdreverse"}, {"p_assignw"}, {"o_copy"}};
static const char* const ARGN[NARGS] = {"d", "len", "src", "s", "src2", "s2", "n", "val", "fn", "thr"};
enum { a_d, a_len, a_src, a_s, a_src2, a_s2, a_n, a_val, a_fn, a_thr };

static int op_prop(int code) {
    if (code <= A_SWAP) return 5;
    if (code <= A_SHR) return 6;
    if (code <= A_TR2) return 7;
    if (code == A_COUNT && R.prop == 13) return 13;
    if (code <= A_READ) return 8;
    if (code <= A_TR2X) return 9;
    return code == O_COPY ? 8 : 12;
}
struct G {
    int wt, it, ws, nc; int64_t D;
    int64_t segw[MAXC], segb[MAXC];   // size in words, first bit
    int64_t row, rob;
    int64_t words; uint8_t* mem;
    void* obj; size_t obj_sz; bool rdonly;
    uint8_t* scratch[MAXC]; std::vector<uint8_t> smodel[MAXC];
    std::vector<uint8_t> rev;         // K_REV: words in logical order
    std::vector<uint8_t> model;       // one byte per bit
};
static G g;

// position in memory of a bit of the range (little endian words)
static inline int64_t at(int64_t bit) { return g.it == K_REV ? (g.words - 1 - bit / g.D) * g.D + bit % g.D : bit; }
static inline int rd(int64_t bit) { bit = at(bit); return (g.mem[bit >> 3] >> (bit & 7)) & 1; }
static int64_t diff(int64_t b0, const uint8_t* model, int64_t n) {
    if (g.it != K_REV || n <= 0) return diff_bits(g.mem, b0, model, n);
    g.rev.resize((size_t)(g.words * g.ws));
    for (int64_t w = b0 / g.D; w <= (b0 + n - 1) / g.D; w++) memcpy(&g.rev[(size_t)(w * g.ws)], g.mem + (g.words - 1 - w) * g.ws, (size_t)g.ws);
    return diff_bits(g.rev.data(), b0, model, n);
}
static void setup(const Plan& p) {
    g.wt = (int)(p.get("wt") & 3); g.it = (int)(p.get("it") & 7); if (g.it >= K_NUM || ((lib_alg_skip() | lib_prx_skip()) >> g.it & 1)) g.it = K_VEC;
    g.rdonly = p.get("rdonly") != 0; g.ws = 1 << g.wt; g.D = 8 * g.ws; g.nc = R.nclients;
    auto w = [&](const char* k) { int64_t v = p.get(k, 1); if (v < 0) v = -v; return v > 200000 ? v % 200000 : v; };
    const char* names[MAXC] = {"sw0", "sw1", "sw2", "sw3"};
    int64_t pos = 0;
    for (int i = 0; i < g.nc; i++) {
        g.segw[i] = w(names[i]); g.segb[i] = pos * g.D; pos += g.segw[i];
        if (i == 0) { g.row = w("ro"); g.rob = pos * g.D; pos += g.row; }
    }
    g.words = pos;
    size_t mis = (size_t)((p.get("mis") & 63) * g.ws % 64);
    g.obj = nullptr;
    if (g.it == K_OBJ) {
        g.obj_sz = lib_obj_size(g.wt); g.obj = alloc_array(g.obj_sz, 0);
        g_setup_alloc = true; g_setup_mis = mis & 48;
        g.mem = (uint8_t*)lib_obj_make(g.wt, g.obj, pos * g.D);
        g_setup_alloc = false;
    } else g.mem = alloc_array((size_t)(pos * g.ws), mis);
    for (int i = 0; i < g.nc; i++) {
        g.scratch[i] = alloc_array((size_t)(SCRATCH_BITS * g.ws), 0); g.smodel[i].resize((size_t)(SCRATCH_BITS * g.D));
        for (int64_t k = 0; k < SCRATCH_BITS * g.ws; k++) g.scratch[i][k] = (uint8_t)mix64((uint64_t)(p.get("pseed", 1) + k * 7 + i));
        load_bits(g.scratch[i], 0, g.smodel[i].data(), SCRATCH_BITS * g.D);
    }
    int64_t nb = pos * g.D; g.model.assign((size_t)nb, 0);
    uint64_t seed = (uint64_t)p.get("pseed", 1); int pat = (int)(p.get("pat") % 6);
    uint64_t x = 0; int cur = 0;
    for (int64_t i = 0; i < nb; i++) {
        if (!(i & 63)) x = mix64(seed + (uint64_t)i);
        int v;
        switch (pat) {
        case 0: v = (x >> (i & 63)) & 1; break;
        case 1: v = 0; break;
        case 2: v = 1; break;
        case 3: v = mix64(seed ^ (uint64_t)i * 77) % 61 == 0; break;
        case 4: v = mix64(seed ^ (uint64_t)i * 77) % 61 != 0; break;
        default: if (mix64(seed ^ (uint64_t)i * 131) % 37 == 0) cur ^= 1; v = cur; break;
        }
        g.model[(size_t)i] = (uint8_t)v;
        int64_t m = at(i); if (v) g.mem[m >> 3] |= (uint8_t)(1 << (m & 7)); else g.mem[m >> 3] &= (uint8_t)~(1 << (m & 7));
    }
}
static inline int64_t md(int64_t v, int64_t m) { if (m <= 0) return 0; v %= m; return v < 0 ? v + m : v; }
static void grant_bits(Client& c, int64_t b, int64_t len, bool w) {
    if (len <= 0) return;
    int64_t w0 = b / g.D, w1 = (b + len - 1) / g.D;
    grant(c, g.mem + (g.it == K_REV ? g.words - 1 - w1 : w0) * g.ws, (size_t)((w1 - w0 + 1) * g.ws), w);
}
// read-only source range of at most len bits, in the shared area or in the client's own segment
static void source(int cl, int64_t sel, int64_t s, int64_t& len, int64_t& abs, bool& own) {
    own = (sel & 1) || g.row == 0;
    int64_t base = own ? g.segb[cl] : g.rob, bits = (own ? g.segw[cl] : g.row) * g.D;
    s = md(s, bits + 1);
    if (s + len > bits) len = bits - s;
    abs = base + s;
}
static bool overlap(int64_t a, int64_t b, int64_t len) { return a < b + len && b < a + len; }

// what the user's function does to its own bits (ops_alg.cpp, nested)
static void nested_model(std::vector<uint8_t>& m, int code, int64_t D) {
    auto b = m.begin();
    switch (code) {
    case 1: std::rotate(b, b + 3, b + 3 * D); break;
    case 2: std::reverse(b + 1, b + 3 * D - 1); break;
    case 3: std::copy(b + D + 3, b + 2 * D + 4, b); break;
    case 4: for (int64_t i = 0; i < 2 * D + 1; i++) m[(size_t)i] ^= 1; break;
    case 5: std::swap_ranges(b, b + D + 2, b + 2 * D - 2); break;
    case 6: std::fill(b + 1, b + 2 * D + 1, (uint8_t)(std::count(b, b + 3 * D, 1) & 1)); break;
    case 7: std::copy_backward(b, b + D + 1, b + 2 * D + 4); break;
    case 8: for (int64_t i = 0; i < D + 3; i++) m[(size_t)i] ^= m[(size_t)(2 * D - 3 + i)]; break;
    default: break;
    }
}
static void count_shape(const AlgArgs& a) {
    int64_t f = (a.d % g.D), l = (a.d + a.len) % g.D;
    static const char* nm[4] = {"reach.dst_unaligned_both", "reach.dst_aligned_end", "reach.dst_aligned_start", "reach.dst_aligned_both"};
    probe(nm[(f == 0 ? 2 : 0) + (l == 0 ? 1 : 0)]);
    if (a.len == 0) probe("reach.empty_range");
    else if ((a.d / g.D) == ((a.d + a.len - 1) / g.D)) probe("reach.single_word");
    if (a.len >= 64 * 64) probe("reach.long_range");
}
static void allowed_width(Client& c, int prop) {
    // wide loads only where CPU and OS support was reported
    int f = R.feat < 0 ? host_features() : R.feat;
    bool avx2 = feat_avx2(f), avx512 = feat_avx512(f);
    if (c.max_width_r >= 64 && c.max_width_r % 64 == 0 && !avx512) check_fail(prop, "unsupported-isa", "64-byte vector load without AVX-512 support reported (features %d)", f);
    if (c.max_width_r == 32 && !avx2) check_fail(prop, "unsupported-isa", "32-byte vector load without AVX2 support reported (features %d)", f);
    if (c.max_width_r >= 64) probe("reach.avx512_count"); else if (c.max_width_r == 32) probe("reach.avx2_count");
}

static void step(const Plan&, int cl, const Op& op) {
    Client& c = C[cl];
    int code = op.code; int prop = op_prop(code);
    int64_t segbits = g.segw[cl] * g.D, segbase = g.segb[cl];
    AlgArgs a; a.code = code; a.base = g.mem; a.words = g.words; a.obj = g.obj;
    int64_t d = md(op.a[a_d], segbits + 1), len = md(op.a[a_len], segbits - d + 1);
    a.d = segbase + d; a.len = len; a.fn = (int)md(op.a[a_fn], 6); a.val = (int)(op.a[a_val] & 1);
    int64_t sabs = 0, s2abs = 0; bool own = false, own2 = false;
    std::vector<uint8_t>& M = g.model;
    std::vector<uint8_t> want(M.begin() + segbase, M.begin() + segbase + segbits); // own segment after the op
    auto W = [&](int64_t bit) -> uint8_t& { return want[(size_t)(bit - segbase)]; };
    int64_t want_ret = 0; bool check_ret = true;
    int64_t unspec_lo = 0, unspec_hi = 0;
    if (g.it == K_REV && (code == P_PTR || code == P_PTRDIFF || code == P_ITER)) return;   // pointers go by memory order
    if (code == O_COPY ? !g.rdonly || !g.obj : g.rdonly && !(code >= A_COUNT && code <= A_READ) && code != P_GET) return;
    op_begin(c, OPS[code].name, prop);
    if (g.obj) grant(c, g.obj, g.obj_sz, false);
    switch (code) {
    case A_COPY: case A_MOVE: case A_COPYB: case A_SWAP: {
        source(cl, op.a[a_src], op.a[a_s], a.len, sabs, own);
        if (code == A_SWAP && !own) { own = true; a.len = len; source(cl, 1, op.a[a_s], a.len, sabs, own); }
        len = a.len;
        if (own && overlap(a.d, sabs, len)) {
            if (code == A_SWAP) len = std::min(len, std::max<int64_t>(a.d, sabs) - std::min<int64_t>(a.d, sabs));
            else if (code == A_COPYB ? a.d < sabs : a.d > sabs) std::swap(a.d, sabs);
            if (code != A_SWAP && a.d == sabs) len = 0;
            probe("reach.overlap");
        }
        a.len = len; a.s = sabs;
        grant_bits(c, a.d, len, true); grant_bits(c, a.s, len, code == A_SWAP);
        std::vector<uint8_t> tmp(M.begin() + sabs, M.begin() + sabs + len);
        if (code == A_SWAP) for (int64_t i = 0; i < len; i++) W(sabs + i) = M[(size_t)(a.d + i)];
        for (int64_t i = 0; i < len; i++) W(a.d + i) = tmp[(size_t)i];
        want_ret = code == A_COPYB ? a.d : a.d + len;
        break; }
    case A_REVERSE: grant_bits(c, a.d, len, true); std::reverse(want.begin() + d, want.begin() + d + len); want_ret = 0; break;
    case A_ROTATE: a.n = md(op.a[a_n], len + 1); grant_bits(c, a.d, len, true);
        want_ret = segbase + (std::rotate(want.begin() + d, want.begin() + d + a.n, want.begin() + d + len) - want.begin());
        if (a.n == 0) probe("reach.rotate_none");
        if (a.n == len) probe("reach.rotate_all");
        break;
    case A_SHL: case A_SHR: {
        int64_t n = a.n = md(op.a[a_n], 2 * len + 4); grant_bits(c, a.d, len, true);
        if (n > 0 && n < len) {
            if (code == A_SHL) { std::move(want.begin() + d + n, want.begin() + d + len, want.begin() + d); unspec_lo = a.d + len - n; unspec_hi = a.d + len; want_ret = a.d + len - n; }
            else { std::move_backward(want.begin() + d, want.begin() + d + len - n, want.begin() + d + len); unspec_lo = a.d; unspec_hi = a.d + n; want_ret = a.d + n; }
        } else if (n == 0) want_ret = code == A_SHL ? a.d + len : a.d;
        else { want_ret = code == A_SHL ? a.d : a.d + len; probe("reach.shift_all"); }
        break; }
    case A_FILL: grant_bits(c, a.d, len, true); std::fill(want.begin() + d, want.begin() + d + len, (uint8_t)a.val); break;
    case A_TR1: case A_TR1X: case A_TR2: case A_TR2X: {
        bool bin = code == A_TR2 || code == A_TR2X;
        source(cl, op.a[a_src], op.a[a_s], a.len, sabs, own);
        if (bin) source(cl, op.a[a_src2], op.a[a_s2], a.len, s2abs, own2);
        len = a.len;
        // destination equal to a source, or disjoint from it
        if (own && sabs != a.d && overlap(a.d, sabs, len)) sabs = a.d;
        if (bin && own2 && s2abs != a.d && overlap(a.d, s2abs, len)) s2abs = a.d;
        if (sabs == a.d || (bin && s2abs == a.d)) probe("reach.in_place");
        a.s = sabs; a.s2 = s2abs; a.len = len;
        grant_bits(c, a.d, len, true); grant_bits(c, a.s, len, false); if (bin) grant_bits(c, a.s2, len, false);
        a.reent = (int)md(op.a[a_val] >> 1, 9);
        if (a.reent) {
            if (len / g.D > 60) a.reent = 0;
            else { if (code == A_TR1) a.fn = 2 + a.fn % 3; if (code == A_TR2) a.fn = 3 + a.fn % 3; }
        }
        if (a.reent) { a.scratch = g.scratch[cl]; grant(c, a.scratch, (size_t)(SCRATCH_BITS * g.ws), true); probe("reach.function_uses_library"); }
        int fn = a.fn; if (!bin) { fn = code == A_TR1 ? (a.fn <= 1 ? 0 : a.fn - 1) : a.fn; }
        std::vector<uint8_t> res((size_t)len);
        for (int64_t i = 0; i < len; i++) {
            int x = M[(size_t)(sabs + i)], y = bin ? M[(size_t)(s2abs + i)] : 0, r;
            if (!bin) r = fn == 0 ? !x : fn == 1 ? x : fn == 2 ? 0 : 1;
            else r = fn == 0 ? (x & y) : fn == 1 ? (x | y) : fn == 2 ? (x ^ y) : fn == 3 ? (x & !y) : fn == 4 ? !(x | y) : x;
            res[(size_t)i] = (uint8_t)r;
        }
        for (int64_t i = 0; i < len; i++) W(a.d + i) = res[(size_t)i];
        want_ret = a.d + len;
        if (code == A_TR1X || code == A_TR2X) { int64_t cap = len / g.D + 3; a.throw_at = 1 + md(op.a[a_thr], cap); if (op.a[a_thr] < 0) a.throw_at = 0; a.thk = (int)md(op.a[a_n], THROW_KINDS); }
        break; }
    case A_COUNT: case A_FIND: case A_EQUAL: case A_READ: {
        source(cl, op.a[a_src], op.a[a_s], a.len, sabs, own);
        if (code == A_EQUAL) source(cl, op.a[a_src2], op.a[a_s2], a.len, s2abs, own2);
        if (code == A_READ && a.len > 200) a.len = 200;
        len = a.len; a.s = sabs; a.s2 = s2abs;
        grant_bits(c, a.s, len, false); if (code == A_EQUAL) grant_bits(c, a.s2, len, false);
        auto f = M.begin() + sabs, l = f + len;
        if (code == A_COUNT) want_ret = std::count(f, l, (uint8_t)a.val);
        else if (code == A_FIND) want_ret = sabs + (std::find(f, l, (uint8_t)a.val) - f);
        else if (code == A_EQUAL) want_ret = std::equal(f, l, M.begin() + s2abs);
        else { int64_t h = 0; for (int64_t i = 0; i < len; i++) h = h * 3 + 1 + f[i]; want_ret = h; }
        a.d = sabs;
        break; }
    case O_COPY: grant(c, g.mem, (size_t)(g.words * g.ws), false); a.len = 0; want_ret = std::count(M.begin(), M.end(), 1); probe("reach.shared_copy"); break;
    default: { // proxies: one bit at d, another at s, both in the own segment
        if (segbits == 0) { op_end(c); return; }
        d = md(op.a[a_d], segbits); int64_t s = md(op.a[a_s], segbits);
        a.d = segbase + d; a.s = segbase + s; a.n = op.a[a_n]; sabs = a.s;
        uint8_t& wd = W(a.d); uint8_t& wsrc = W(a.s);
        int v = a.val; want_ret = 0;
        switch (code) {
        case P_SET: grant_bits(c, a.d, 1, true); if (a.fn & 1) wd = (uint8_t)v; else wd = 1; want_ret = wd; break;
        case P_RESET: grant_bits(c, a.d, 1, true); wd = 0; want_ret = 0; break;
        case P_FLIP: grant_bits(c, a.d, 1, true); wd ^= 1; want_ret = wd; break;
        case P_ASSIGN: grant_bits(c, a.d, 1, true); wd = (uint8_t)v; want_ret = v; break;
        case P_ASSIGNREF: grant_bits(c, a.d, 1, true); grant_bits(c, a.s, 1, false); wd = wsrc; want_ret = wd; break;
        case P_AND: grant_bits(c, a.d, 1, true); wd &= (uint8_t)v; want_ret = wd; break;
        case P_OR: grant_bits(c, a.d, 1, true); wd |= (uint8_t)v; want_ret = wd; break;
        case P_XOR: grant_bits(c, a.d, 1, true); wd ^= (uint8_t)v; want_ret = wd; break;
        case P_GET: grant_bits(c, a.d, 1, false); want_ret = wd; break;
        case P_SWAP: grant_bits(c, a.d, 1, true); grant_bits(c, a.s, 1, true); std::swap(wd, wsrc); want_ret = 0; break;
        case P_SWAPVAL: grant_bits(c, a.d, 1, true); want_ret = wd; wd = (uint8_t)v; break;
        case P_PTR: // walk a pointer from d to s, then flip there
            grant_bits(c, a.s, 1, true); wsrc ^= 1; want_ret = a.s; break;
        case P_PTRDIFF: case P_ITER:
            if (op.a[a_val] & 4) { // as far as memory goes; nothing is accessed there
                a.out[0] = -(int64_t)(((uintptr_t)g.mem - ARENA) / (size_t)g.ws) * g.D; a.out[1] = (int64_t)((ARENA + ARENA_SZ - (uintptr_t)g.mem) / (size_t)g.ws) * g.D;
                if (a.n > INT64_MAX / 4 || a.n < INT64_MIN / 4) a.n = 0;
                if (a.n >= INT32_MAX || a.n <= INT32_MIN) probe("reach.step_beyond_2_31");
            } else { a.n = md(a.n, 2 * segbits + 1) - segbits; a.out[0] = segbase; a.out[1] = segbase + segbits; }
            want_ret = 0; check_ret = false; break;
        case P_ASSIGNW: a.n = md(a.n, 64 * 16); grant_bits(c, a.d, 1, true); wd = (uint8_t)((uint64_t)(a.n >> 6) >> (a.n & 3) & 1); want_ret = wd; break;
        case P_STDCOPY: { // std::copy over bit iterators, disjoint or forward
            len = std::min(md(op.a[a_len], 90), segbits - std::max(d, s));
            if (d > s && d < s + len) len = d - s;
            a.len = len; grant_bits(c, a.d, len, true); grant_bits(c, a.s, len, false);
            std::vector<uint8_t> t(want.begin() + s, want.begin() + s + len);
            if (d != s) std::copy(t.begin(), t.end(), want.begin() + d);
            want_ret = a.d + len; break; }
        case P_STDCOUNT: len = std::min(md(op.a[a_len], 90), segbits - d); a.len = len; grant_bits(c, a.d, len, false);
            want_ret = std::count(want.begin() + d, want.begin() + d + len, (uint8_t)v); break;
        case P_STDFIND: len = std::min(md(op.a[a_len], 90), segbits - d); a.len = len; grant_bits(c, a.d, len, false);
            want_ret = segbase + (std::find(want.begin() + d, want.begin() + d + len, (uint8_t)v) - want.begin()); break;
        case P_STDFILL: len = std::min(md(op.a[a_len], 90), segbits - d); a.len = len; grant_bits(c, a.d, len, true);
            std::fill(want.begin() + d, want.begin() + d + len, (uint8_t)v); break;
        case P_STDREV: len = std::min(md(op.a[a_len], 90), segbits - d); a.len = len; grant_bits(c, a.d, len, true);
            std::reverse(want.begin() + d, want.begin() + d + len); break;
        default: break;
        }
        break; }
    }
    if (code <= A_TR2X) count_shape(a);
    hash_val((uint64_t)code * 131 + (uint64_t)a.len);
    bool threw = false; int64_t payload = 0; int thk = 0;
    c.in_op = true;
    try { if (code <= A_TR2X || code == O_COPY) lib_alg(g.wt, g.it, a); else lib_prx(g.wt, g.it, a); }
    catch (...) {
        c.in_op = false;
        if (thrown(thk, payload)) threw = true;
        else try { throw; }
        catch (std::exception& e) { check_fail(prop, "exception", "unexpected exception %s", e.what()); }
        catch (...) { check_fail(prop, "exception", "unexpected exception"); }
    }
    op_end(c);
    if (R.prop == 18 && code <= A_TR2X && !a.reent && g.wt >= 2) { // accesses per word; one access per bit would be 32 or 64, two where bits are written
        const int64_t per = code == A_SWAP || code == A_ROTATE ? 64 : code == A_COUNT || code == A_FIND || code == A_EQUAL ? 16 : 48, limit = (code == A_READ ? 16 * len : per * (len / g.D)) + 384;
        if ((int64_t)c.acc_op > limit) check_fail(18, "too-many-steps", "%s of %lld bits (word %lld bits) took %llu accesses, more than %lld", OPS[code].name, (long long)len, (long long)g.D, (unsigned long long)c.acc_op, (long long)limit);
        if (len >= 100 * g.D) probe("reach.cost_of_a_long_range");
    }
    hash_val((uint64_t)a.ret);
    bool ok = true;
    if (code == A_TR1X || code == A_TR2X) {
        bool should = a.throw_at > 0 && a.calls >= a.throw_at;
        if (should) probe("fault.function_threw");
        if (should != threw) { check_fail(9, "exception-lost", "function threw at call %lld but the caller %s", (long long)a.throw_at, threw ? "got an exception it should not get" : "got no exception"); ok = false; }
        if (threw && (payload != a.throw_at * 1000 + a.fn || thk != a.thk)) { check_fail(9, "exception-changed", "caller got another exception"); ok = false; }
        if (threw && a.calls != a.throw_at) { check_fail(9, "called-again", "function called %lld times after throwing at call %lld", (long long)a.calls, (long long)a.throw_at); ok = false; }
        if (threw) {
            // destination: a completed prefix, the rest untouched
            int64_t i = 0;
            while (i < a.len && rd(a.d + i) == W(a.d + i)) i++;
            for (int64_t j = i; j < a.len; j++)
                if (rd(a.d + j) != M[(size_t)(a.d + j)]) { check_fail(9, "partial-result", "after the exception bit %lld of %lld is neither completed prefix nor untouched", (long long)j, (long long)a.len); ok = false; break; }
            for (int64_t j = i; j < a.len; j++) W(a.d + j) = M[(size_t)(a.d + j)];
            check_ret = false;
            if (i > 0) probe("reach.partial_transform");
        }
    }
    if (a.reent) {
        for (int64_t i = 0; i < a.calls; i++) nested_model(g.smodel[cl], a.reent, g.D);
        if (int64_t i = diff_bits(g.scratch[cl], 0, g.smodel[cl].data(), SCRATCH_BITS * g.D); i >= 0) {
            check_fail(prop, "nested-call", "the function called the library %lld times itself (kind %d): its own bit %lld is wrong afterwards", (long long)a.calls, a.reent, (long long)i);
            load_bits(g.scratch[cl], 0, g.smodel[cl].data(), SCRATCH_BITS * g.D);
        }
    }
    if (code == P_PTRDIFF || code == P_ITER) {
        if (a.ret != 0) { check_fail(12, "wrong-result", "pointer/iterator law %lld broken at bit %lld step %lld", (long long)a.ret, (long long)a.d, (long long)a.n); }
        check_ret = false;
    }
    if (code == A_REVERSE || code == A_FILL || code == P_STDFILL || code == P_STDREV || code == P_SWAP) check_ret = false;
    if (check_ret && a.ret != want_ret) {
        check_fail(prop, "wrong-result", "returned %lld, expected %lld (d=%lld s=%lld s2=%lld len=%lld n=%lld val=%d fn=%d, word %lld bits)", (long long)a.ret, (long long)want_ret,
            (long long)a.d, (long long)a.s, (long long)a.s2, (long long)a.len, (long long)a.n, a.val, a.fn, (long long)g.D);
        ok = false;
    }
    if (R.prop == 13 && code == A_COUNT) allowed_width(c, 13);
    for (int64_t i = unspec_lo; i < unspec_hi; i++) W(i) = (uint8_t)rd(i);
    if (int64_t i = diff(segbase, want.data(), segbits); i >= 0) {
            int64_t b = segbase + i; bool in = b >= a.d && b < a.d + a.len;
            check_fail(prop, in ? "wrong-bits" : "stray-bits", "bit %lld is %d, expected %d (d=%lld s=%lld s2=%lld len=%lld n=%lld val=%d fn=%d, word %lld bits)", (long long)b, rd(b), want[(size_t)i],
                (long long)a.d, (long long)a.s, (long long)a.s2, (long long)a.len, (long long)a.n, a.val, a.fn, (long long)g.D);
            ok = false;
        }
    if (!ok) for (int64_t i = 0; i < segbits; i++) want[(size_t)i] = (uint8_t)rd(segbase + i);
    std::copy(want.begin(), want.end(), M.begin() + segbase);
}
static void client_end(const Plan&, int) {}
static void finish(const Plan&) {
    int64_t nb = g.words * g.D;
    if (int64_t i = diff(0, g.model.data(), nb); i >= 0)
        check_fail(R.prop, "lost-update", "after all clients finished bit %lld is %d, expected %d", (long long)i, rd(i), g.model[(size_t)i]);
    for (int64_t i = 0; i < g.words * g.ws; i++) hash_val(g.mem[i]);
}

// ---------------------------------------------------------------- generator
static int64_t pick_bit(Rng& r, int64_t bits, int64_t D) {
    if (bits <= 0) return 0;
    switch (r.below(8)) {
    case 0: return 0;
    case 1: case 2: return (int64_t)r.below((uint64_t)(bits / D + 1)) * D;
    case 3: { int64_t v = (int64_t)r.below((uint64_t)(bits / D + 1)) * D + r.range(-2, 2); return v < 0 ? 0 : v > bits ? bits : v; }
    case 4: return std::min<int64_t>((int64_t)r.below((uint64_t)D), bits);
    default: return (int64_t)r.below((uint64_t)bits + 1);
    }
}
static int64_t pick_len(Rng& r, int64_t d, int64_t bits, int64_t D) {
    int64_t m = bits - d; if (m <= 0) return 0;
    switch (r.below(10)) {
    case 0: return r.chance(1, 3) ? 0 : std::min<int64_t>(m, 1);
    case 1: return std::min<int64_t>(m, (int64_t)r.below((uint64_t)D + 1));
    case 2: return m;
    case 3: { int64_t e = (d + m) / D * D - d; return e > 0 ? e : m; }                       // aligned end
    case 4: { int64_t e = (d / D + 1 + (int64_t)r.below((uint64_t)(m / D + 1))) * D - d; return std::min(e, m); }
    case 5: { int64_t e = (int64_t)r.below((uint64_t)(m / D + 1)) * D + r.range(-2, 2); return e < 0 ? 0 : std::min(e, m); }
    case 6: return std::min<int64_t>(m, (int64_t)r.below((uint64_t)(4 * D)));
    default: return (int64_t)r.below((uint64_t)m + 1);
    }
}
static int64_t pick_n(Rng& r, int64_t len, int64_t D, bool shift) {
    if (len <= 0) return shift ? (int64_t)r.below(4) : 0;
    switch (r.below(10)) {
    case 0: return shift ? (r.chance(1, 2) ? len : len + (int64_t)r.below((uint64_t)len + 2)) : (r.chance(1, 2) ? len : 0);
    case 1: return r.chance(1, 4) ? 0 : 1;
    case 2: return std::min(len, (int64_t)r.below((uint64_t)(len / D + 1)) * D);
    case 3: return std::max<int64_t>(0, std::min(len, (int64_t)r.below((uint64_t)(len / D + 1)) * D + r.range(-2, 2)));
    case 4: return std::min<int64_t>(len, (int64_t)r.below((uint64_t)D + 1));
    case 5: return std::max<int64_t>(0, len - (int64_t)r.below((uint64_t)D + 1));
    case 6: return std::max<int64_t>(0, std::min(len, len / 2 + r.range(-2, 2)));
    case 7: return std::min<int64_t>(len, D * 3 + r.range(-3, 3));
    default: return (int64_t)r.below((uint64_t)len + 1);
    }
}
static int64_t pick_words(Rng& r, int wt, int tier, int prop) {
    int64_t ws = 1 << wt;
    if (prop == 13) { // around the dispatch thresholds of 512 and 1024 bytes
        switch (r.below(8)) {
        case 0: return r.range(1, 12);
        case 1: return (64 + r.range(0, 200)) / ws + 1;
        case 2: case 3: return (512 + r.range(-20, 60)) / ws + 1;
        case 4: case 5: return (1024 + r.range(-20, 150)) / ws + 1;
        default: return (300 + (int64_t)r.below(tier ? 9000 : 4500)) / ws + 1;
        }
    }
    int x = (int)r.below(1000);
    if (x < 520) return r.range(1, 5);
    if (x < 780) return r.range(3, 24);
    if (x < 930) return r.range(16, 90);
    if (x < 985) return r.range(60, 320);
    return r.range(200, tier ? 3000 : 1400);
}
static void gen(Plan& p, Rng& r, int prop, int tier) {
    static const int ncw5[] = {3, 4, 3, 0}, ncw8[] = {1, 4, 3, 2};
    int nc = 1 + (prop == 8 || prop == 13 ? r.pick(ncw8) : r.pick(ncw5));
    static const int kinds[] = {4, 3, 4, 1, 1, 2}, kinds5[] = {3, 2, 3, 2, 2, 2}, kinds12[] = {2, 2, 2, 0, 0, 1};
    int wt = (int)r.below(4), it = prop == 5 ? r.pick(kinds5) : prop == 12 || prop == 13 ? r.pick(kinds12) : r.pick(kinds);
    if (prop == 18) wt |= 2;
    int64_t D = 8 << wt;
    p.set("clients", nc); p.set("wt", wt); p.set("it", it); p.set("mis", r.chance(1, 3) ? 0 : (int64_t)r.below(64));
    p.set("pat", (int64_t)(r.chance(1, 2) ? 0 : r.below(6))); p.set("pseed", (int64_t)r.below(1 << 30));
    int64_t sw[MAXC] = {0}; static const char* nm[MAXC] = {"sw0", "sw1", "sw2", "sw3"};
    int64_t w0 = pick_words(r, wt, tier, prop);
    // now and then one client with a range of more than 2^16 words or 2^20 bits
    bool huge = prop != 12 && r.chance(1, tier ? 1500 : 3000);
    if (huge) { nc = 1; p.set("clients", nc); w0 = r.chance(1, 4) ? r.range(20000, 66000) : r.range(65537, 140000); }
    for (int i = 0; i < nc; i++) { sw[i] = r.chance(2, 3) ? w0 + r.range(0, 2) : huge ? w0 - r.range(0, 9) : pick_words(r, wt, tier, prop == 13 ? 0 : prop); p.set(nm[i], sw[i]); }
    int64_t ro = r.chance(1, 12) ? 0 : huge && r.chance(1, 2) ? r.range(1, 9) : r.chance(3, 4) ? w0 + r.range(0, 3) : pick_words(r, wt, tier, prop);
    p.set("ro", ro);
    if (prop == 13) {
        int h = host_features(), f = 0;
        for (int b = 1; b <= 16; b <<= 1) if ((h & b) && r.chance(5, 6)) f |= b;
        if (!(f & FEAT_AVX512F)) f &= ~FEAT_AVX512BW;          // the foundation comes first
        // registers the operating system has enabled: all, or any subset
        int x = 0xe6;
        if (r.chance(1, 2)) { static const int sets[] = {0, 2, 6, 0xe6, 0xe2, 0xe4, 0x26, 0x46, 0x86, 0x66, 0xa6, 0xc6}; x = sets[r.below(12)]; }
        f |= h & (x << FEAT_XCR0);
        p.set("feat", f);
    }
    // operation mix of this run (swarm): a few kinds only
    int w[P_NUM]; memset(w, 0, sizeof w);
    auto some = [&](int lo, int hi, int wt2) { for (int k = lo; k <= hi; k++) if (r.chance(2, 3)) w[k] = wt2 * (1 + (int)r.below(3)); };
    switch (prop) {
    case 5: some(A_COPY, A_SWAP, 6); w[A_COPY + (int)r.below(4)] += 6; if (r.chance(1, 3)) some(A_REVERSE, A_FILL, 1); break;
    case 6: some(A_REVERSE, A_SHR, 6); w[A_REVERSE + (int)r.below(4)] += 6; if (r.chance(1, 3)) some(A_COPY, A_SWAP, 1); break;
    case 7: some(A_FILL, A_TR2, 6); w[A_FILL + (int)r.below(3)] += 6; if (r.chance(1, 4)) some(A_COPY, A_SHR, 1); break;
    case 8: some(A_COUNT, A_READ, 6); w[A_COUNT + (int)r.below(4)] += 6; if (r.chance(2, 3)) { w[A_FILL] += 3; w[A_COPY] += 2; w[A_TR1] += 2; w[P_FLIP] += 3; } break;
    case 18: some(A_COPY, A_TR2, 3); some(A_COUNT, A_EQUAL, 3); w[A_COPY + (int)r.below(A_TR1X - A_COPY)] += 6; break;
    case 9: w[A_TR1X] = 6; w[A_TR2X] = 6; if (r.chance(1, 3)) some(A_FILL, A_TR2, 1); break;
    case 12: some(P_SET, P_ASSIGNW, 4); w[P_SET + (int)r.below(O_COPY - P_SET)] += 8; if (r.chance(1, 4)) some(A_COPY, A_FILL, 1); break;
    default: w[A_COUNT] = 10; if (r.chance(1, 3)) w[A_FILL] = 1; break;
    }
    if (prop == 8 && it == K_OBJ && r.chance(1, 3)) { // nobody writes: the whole object may be read
        p.set("rdonly", 1); memset(w, 0, sizeof w); some(A_COUNT, A_READ, 4); w[P_GET] = 2; w[O_COPY] = 6;
    }
    int nops = 1 + (int)r.below(prop == 12 ? 8 : 4);
    bool big = w0 * D > 20000; if (big) nops = huge ? 2 : 1 + (int)r.below(2);
    for (int cidx = 0; cidx < nc; cidx++) for (int k = 0; k < nops; k++) {
        Op o; o.client = cidx; o.code = r.pickw(w, P_NUM);
        int64_t bits = sw[cidx] * D, rbits = ro * D;
        o.a[a_d] = pick_bit(r, bits, D);
        o.a[a_src] = r.chance(1, 2);
        int64_t sbits = o.a[a_src] || !ro ? bits : rbits;
        bool reader = o.code >= A_COUNT && o.code <= A_READ;
        if (reader) {
            o.a[a_d] = 0; o.a[a_s] = pick_bit(r, sbits, D); o.a[a_len] = pick_len(r, o.a[a_s], sbits, D);
            if (r.chance(1, 3)) { o.a[a_s] = 0; o.a[a_len] = pick_len(r, 0, std::min(bits, sbits), D); }
            // len is taken modulo the own segment: make room
            o.a[a_len] = std::min(o.a[a_len], bits);
        } else {
            o.a[a_len] = pick_len(r, o.a[a_d], bits, D);
            if (r.chance(1, 3)) { // same alignment as the destination
                int64_t q = (int64_t)r.below((uint64_t)(sbits / D + 1)) * D + o.a[a_d] % D; o.a[a_s] = std::min(q, sbits);
            } else if (r.chance(1, 3)) { // close to the destination, overlapping when in the own segment
                o.a[a_s] = std::max<int64_t>(0, std::min(sbits, o.a[a_d] + r.range(-2 * D, 2 * D)));
            } else o.a[a_s] = pick_bit(r, sbits, D);
            // usually leave room for the whole length
            if (r.chance(3, 4) && o.a[a_s] + o.a[a_len] > sbits) o.a[a_s] = std::max<int64_t>(0, sbits - o.a[a_len] - (r.chance(1, 2) ? 0 : (int64_t)r.below((uint64_t)D)));
        }
        o.a[a_src2] = r.chance(1, 2);
        int64_t s2bits = o.a[a_src2] || !ro ? bits : rbits;
        o.a[a_s2] = r.chance(1, 3) ? std::min(s2bits, o.a[a_s]) : pick_bit(r, s2bits, D);
        if (r.chance(1, 2)) o.a[a_s2] = std::min(s2bits, (o.a[a_s2] / D) * D + (reader ? o.a[a_s] : o.a[a_d]) % D);
        if (r.chance(3, 4) && o.a[a_s2] + o.a[a_len] > s2bits) o.a[a_s2] = std::max<int64_t>(0, s2bits - o.a[a_len]);
        if (o.code == A_EQUAL && r.chance(1, 2)) { o.a[a_src2] = o.a[a_src]; o.a[a_s2] = o.a[a_s]; }
        bool sh = o.code == A_SHL || o.code == A_SHR;
        o.a[a_n] = o.code >= P_SET ? r.range(-3 * D, 3 * D) : pick_n(r, o.a[a_len], D, sh);
        if (o.code == P_ASSIGNW) o.a[a_n] = (int64_t)r.below(1024);
        if (o.code >= P_STDCOPY) o.a[a_len] = (int64_t)r.below(90);
        o.a[a_val] = r.chance(1, 2); o.a[a_fn] = (int64_t)r.below(6);
        if ((o.code == P_PTRDIFF || o.code == P_ITER) && r.chance(1, 3)) {
            o.a[a_val] |= 4; int64_t n = r.chance(1, 2) ? (int64_t)r.logu(1ull << 33) : ((int64_t)r.range(1, 4) << 31) + r.range(-2 * D, 2 * D);
            o.a[a_n] = r.chance(1, 4) ? -n : n;
        }
        if (((o.code >= A_TR1 && o.code <= A_TR2) || o.code >= A_TR1X) && o.code <= A_TR2X && r.chance(1, 4)) o.a[a_val] |= 2 * r.range(1, 8);
        if (o.code == A_TR1X || o.code == A_TR2X) o.a[a_thr] = r.chance(1, 8) ? -1 : r.chance(1, 3) ? (int64_t)r.below(3) : (int64_t)r.below((uint64_t)(o.a[a_len] / D + 3));
        p.ops.push_back(o);
    }
    // interleave the clients' operations in program order
    std::stable_sort(p.ops.begin(), p.ops.end(), [](const Op& x, const Op& y) { return x.client < y.client; });
}
Scenario the_scenario = {"alg", OPS, (int)(sizeof OPS / sizeof *OPS), ARGN, gen, setup, step, client_end, finish};
} // namespace sim
