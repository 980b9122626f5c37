// Scenario "big": one client works on ranges or a vector of more than 2^31 or
// 2^32 bits while another works on the words next to them.  (C16; C01 C05 C06 C07 C08)
// The initial contents are a function of the position, so no copy is kept: every
// bit is compared with what the operation has to put there.
#include "core.hpp"
#include "alg.hpp"
#include "vec.hpp"
#include <algorithm>
#include <functional>

namespace sim {
enum { L_COPY, L_MOVE, L_COPYB, L_SWAP, L_REVERSE, L_ROTATE, L_SHL, L_SHR, L_FILL, L_TR1, L_TR2, L_COUNT, L_FIND, L_EQUAL,
    N_FILL, N_REVERSE, N_ROTATE, N_COUNT,
    B_NEW, B_PUSH, B_INS1, B_INSN, B_ERASE1, B_ERASER, B_RESIZE, B_POP, B_PUT, B_GET, B_AT, B_COPY, B_COUNT, B_FIND, B_REVERSE, B_ROTATE, B_FILL, B_ITER, B_SHRINK, B_NUM };
static const OpInfo OPS[] = {{"copy"}, {"move"}, {"copy_backward"}, {"swap_ranges"}, {"reverse"}, {"rotate"}, {"shift_left"}, {"shift_right"}, {"fill"}, {"transform1"}, {"transform2"},
    {"count"}, {"find"}, {"equal"}, {"n_fill"}, {"n_reverse"}, {"n_rotate"}, {"n_count"},
    {"v_new"}, {"v_push_back"}, {"v_insert"}, {"v_insert_n"}, {"v_erase"}, {"v_erase_range"}, {"v_resize"}, {"v_pop_back"}, {"v_put"}, {"v_get"}, {"v_at"}, {"v_copy"}, {"v_count"}, {"v_find"},
    {"v_reverse"}, {"v_rotate"}, {"v_fill"}, {"v_iterate"}, {"v_shrink_to_fit"}};
static const char* const ARGN[NARGS] = {"d", "len", "src", "s", "s2", "n", "val", "fn", "fail", "x"};
enum { a_d, a_len, a_src, a_s, a_s2, a_n, a_val, a_fn, a_fail, a_x };
constexpr int64_t NB = 256;                          // bits of each neighbouring block
constexpr int64_t MAXBITS = 5LL << 30, MAXRANGE = 8LL << 30;

struct SV { alignas(16) unsigned char raw[128]; bool exists = false; int64_t n = 0; int base = 0; std::vector<int64_t> ex; };  // all bits are base, but those in ex
struct G {
    int wt, it, ws; int64_t D;
    int64_t a0, abits, b0, bbits, nb[2], end;         // in bits from the start of long memory
    int pat; uint64_t pc, seed; int64_t patch[3];
    uint8_t nbm[2][NB]; bool done, dead;
    SV v;
};
static G g;
static uint64_t* const mem = (uint64_t*)BIG;

static inline int64_t md(int64_t v, int64_t m) { if (m <= 0) return 0; v %= m; return v < 0 ? v + m : v; }
static inline uint64_t Q64(int64_t k) {          // without the patches
    if (g.pat) return g.pc;
    uint64_t x = (g.seed + (uint64_t)k) * 0x9e3779b97f4a7c15ULL; return x ^ (x >> 29);
}
static inline uint64_t P64(int64_t k) {
    uint64_t v = Q64(k);
    for (int64_t b : g.patch) if (b >= 0 && (b >> 6) == k) v ^= 1ULL << (b & 63);
    return v;
}
static inline uint64_t bitsP(int64_t pos) { int s = (int)(pos & 63); uint64_t v = P64(pos >> 6) >> s; if (s) v |= P64((pos >> 6) + 1) << (64 - s); return v; }
static inline uint64_t bitsM(int64_t pos) { int s = (int)(pos & 63); uint64_t v = mem[pos >> 6] >> s; if (s) v |= mem[(pos >> 6) + 1] << (64 - s); return v; }
static inline uint64_t rev64(uint64_t x) {
    x = ((x >> 1) & 0x5555555555555555ULL) | ((x & 0x5555555555555555ULL) << 1);
    x = ((x >> 2) & 0x3333333333333333ULL) | ((x & 0x3333333333333333ULL) << 2);
    x = ((x >> 4) & 0x0f0f0f0f0f0f0f0fULL) | ((x & 0x0f0f0f0f0f0f0f0fULL) << 4);
    return __builtin_bswap64(x);
}
enum Kind_ { SRC, REV, CONST, ANY, TR };
struct Seg { int64_t lo, hi; int kind; int64_t x, y; int fn; };   // bits lo..hi come from position + x, x - position, ...
static uint64_t want64(const Seg& s, int64_t pos) {
    switch (s.kind) {
    case SRC: return bitsP(pos + s.x);
    case REV: return rev64(bitsP(s.x - pos - 63));
    case CONST: return s.x ? ~0ULL : 0;
    default: {
        uint64_t x = bitsP(pos + s.x), y = bitsP(pos + s.y);
        switch (s.fn) { case 0: return x & y; case 1: return x | y; case 2: return x ^ y; case 3: return x & ~y; case 4: return ~(x | y); case 5: return x; case 6: return ~x; case 7: return 0; default: return ~0ULL; }
    } }
}
static int64_t exact(const Seg& s, int64_t p) {
    uint64_t d = want64(s, p) ^ bitsM(p);
    if (s.hi - p < 64) d &= (1ULL << (s.hi - p)) - 1;
    return d ? p + __builtin_ctzll(d) : -1;
}
static int64_t bad_bit(const Seg& s) {
    if (s.kind == ANY || s.lo >= s.hi) return -1;
    auto near = [&](int64_t at) -> int64_t {      // where a patched bit has to turn up
        for (int64_t p = std::max(s.lo, at - 70); p < std::min(s.hi, at + 70); p += 64) if (int64_t b = exact(s, p); b >= 0) return b;
        return -1;
    };
    if (s.kind != CONST) for (int64_t b : g.patch) if (b >= 0) {
        if (int64_t r = near(s.kind == REV ? s.x - b : b - s.x); r >= 0) return r;
        if (s.kind == TR) if (int64_t r = near(b - s.y); r >= 0) return r;
    }
    int64_t p = s.lo;
    // most of the range, whole words of memory, with the contents before the patches; what differs is looked at again
    auto fast = [&](auto want) -> int64_t {
        for (; p + 192 <= s.hi; p += 64) if (want(p) != mem[p >> 6]) if (int64_t b = exact(s, p); b >= 0) return b;
        return -1;
    };
    if (p & 63) { if (int64_t b = exact(s, p); b >= 0) return b; p = (p | 63) + 1; if (p >= s.hi) return -1; }
    const int64_t x = s.x; const int sh = (int)((s.kind == REV ? s.x - p - 63 : s.x) & 63); int64_t b = -1;
    if (s.kind == SRC && !sh) b = fast([&](int64_t q) { return Q64((q + x) >> 6); });
    else if (s.kind == SRC) b = fast([&](int64_t q) { int64_t k = (q + x) >> 6; return Q64(k) >> sh | Q64(k + 1) << (64 - sh); });
    else if (s.kind == REV && !sh) b = fast([&](int64_t q) { return rev64(Q64((x - q - 63) >> 6)); });
    else if (s.kind == REV) b = fast([&](int64_t q) { int64_t k = (x - q - 63) >> 6; return rev64(Q64(k) >> sh | Q64(k + 1) << (64 - sh)); });
    else if (s.kind == CONST) { const uint64_t c = x ? ~0ULL : 0; b = fast([&](int64_t) { return c; }); }
    else {
        auto q64 = [](int64_t q) { int64_t k = q >> 6; int h = (int)(q & 63); uint64_t v = Q64(k) >> h; return h ? v | Q64(k + 1) << (64 - h) : v; };
        auto tr = [&](auto f) { b = fast([&](int64_t q) { return f(q64(q + s.x), q64(q + s.y)); }); };
        switch (s.fn) { case 0: tr([](uint64_t u, uint64_t v) { return u & v; }); break; case 1: tr([](uint64_t u, uint64_t v) { return u | v; }); break; case 2: tr([](uint64_t u, uint64_t v) { return u ^ v; }); break;
            case 3: tr([](uint64_t u, uint64_t v) { return u & ~v; }); break; case 4: tr([](uint64_t u, uint64_t v) { return ~(u | v); }); break; case 5: tr([](uint64_t u, uint64_t) { return u; }); break;
            case 6: tr([](uint64_t u, uint64_t) { return ~u; }); break; default: break; }
    }
    if (b >= 0) return b;
    for (; p < s.hi; p += 64) if (int64_t e = exact(s, p); e >= 0) return e;
    return -1;
}
static int prop_of(int code) {
    if (R.prop == 16) return 16;
    if (code <= L_SWAP) return 5;
    if (code <= L_SHR) return 6;
    if (code <= L_TR2) return 7;
    if (code <= L_EQUAL || code == N_COUNT) return 8;
    if (code <= N_ROTATE) return 6;
    return 1;
}
static void setup(const Plan& p) {
    g.wt = (int)(p.get("wt", 3) & 3); g.it = (int)(p.get("it") & 3); if (g.it == K_OBJ) g.it = K_MIX; if (lib_alg_skip() >> g.it & 1) g.it = K_VEC;
    g.ws = 1 << g.wt; g.D = 8 * g.ws; g.done = g.dead = false;
    auto cap = [&](const char* k) { int64_t v = p.get(k, 0); return v < 0 || v > MAXRANGE ? md(v, MAXRANGE) : v; };
    auto up = [&](int64_t v) { return (v + g.D - 1) / g.D * g.D; };
    g.abits = cap("abits"); g.bbits = cap("bbits");
    g.nb[0] = 64 * 64 + md(p.get("mis"), 64 / g.D) * g.D; g.a0 = g.nb[0] + NB; g.nb[1] = g.a0 + up(g.abits); g.b0 = g.nb[1] + NB; g.end = g.b0 + up(g.bbits) + 256;
    g.pat = (int)(p.get("pat") & 1); g.seed = (uint64_t)p.get("pseed", 1);
    static const uint64_t cs[] = {0, ~0ULL, 0x5555555555555555ULL, 0x3333333333333333ULL, 0xf0f0f0f0f0f0f0f0ULL, 0x9e3779b97f4a7c15ULL}; g.pc = cs[md(p.get("pc"), 6)];
    static const char* nm[3] = {"p0", "p1", "p2"};
    for (int i = 0; i < 3; i++) { int64_t b = p.get(nm[i], -1); g.patch[i] = b < 0 || b >= g.end - 256 ? -1 : b; }
    int64_t words = (g.end + 63) / 64 + 2;
    if (g.abits) { for (int64_t k = 0; k < words; k++) mem[k] = Q64(k); for (int64_t b : g.patch) if (b >= 0) mem[b >> 6] = P64(b >> 6); }
    for (int i = 0; i < 2; i++) { if (!g.abits) for (int64_t b = g.nb[i] >> 6; b <= (g.nb[i] + NB) >> 6; b++) mem[b] = P64(b); load_bits((const uint8_t*)mem, g.nb[i], g.nbm[i], NB); }
    if (!g.abits) g.end = g.b0;
    g.v.exists = false; g.v.n = 0; g.v.ex.clear(); memset(g.v.raw, 0xa5, sizeof g.v.raw);
}
static void grant_bits(Client& c, int64_t b, int64_t len, bool w) {
    if (len <= 0) return;
    int64_t w0 = b / g.D, w1 = (b + len - 1) / g.D;
    grant(c, (uint8_t*)mem + w0 * g.ws, (size_t)((w1 - w0 + 1) * g.ws), w);
}
static void reach(int64_t len) { if (len > 1LL << 32) probe("reach.range_beyond_2_32"); else if (len > 1LL << 31) probe("reach.range_beyond_2_31"); }
static bool overlap(int64_t a, int64_t b, int64_t len) { return a < b + len && b < a + len; }

static bool call_alg(Client& c, AlgArgs& a, int prop) {
    c.in_op = true;
    try { lib_alg(g.wt, g.it, a); }
    catch (...) { c.in_op = false; check_fail(prop, "exception", "unexpected exception"); op_end(c); return false; }
    op_end(c); hash_val((uint64_t)a.ret); return true;
}
static void neighbour(Client& c, const Op& op, int prop) {
    static const int code[] = {A_FILL, A_REVERSE, A_ROTATE, A_COUNT};
    AlgArgs a; a.code = code[op.code - N_FILL]; a.base = mem; a.words = g.end / g.D;
    int which = (int)(op.a[a_src] & 1); int64_t d = md(op.a[a_d], NB), len = md(op.a[a_len], NB - d + 1);
    a.d = a.s = g.nb[which] + d; a.len = len; a.val = (int)(op.a[a_val] & 1); a.n = md(op.a[a_n], len + 1);
    uint8_t* m = g.nbm[which] + d; int64_t want = 0;
    op_begin(c, OPS[op.code].name, prop); grant_bits(c, a.d, len, op.code != N_COUNT);
    switch (op.code) {
    case N_FILL: std::fill(m, m + len, (uint8_t)a.val); break;
    case N_REVERSE: std::reverse(m, m + len); break;
    case N_ROTATE: want = a.d + (std::rotate(m, m + a.n, m + len) - m); break;
    default: want = std::count(m, m + len, (uint8_t)a.val); break;
    }
    if (!call_alg(c, a, prop)) return;
    if ((op.code == N_ROTATE || op.code == N_COUNT) && a.ret != want) check_fail(prop, "wrong-result", "neighbour: returned %lld, expected %lld", (long long)a.ret, (long long)want);
    if (int64_t i = diff_bits((const uint8_t*)mem, g.nb[which], g.nbm[which], NB); i >= 0) {
        check_fail(prop, "wrong-bits", "neighbour block %d bit %lld is wrong", which, (long long)i); load_bits((const uint8_t*)mem, g.nb[which], g.nbm[which], NB); }
}
// the long operation; one per run, because contents are described by what it does to the initial ones
static void longop(Client& c, const Op& op, int prop) {
    if (g.done || !g.abits) return;
    g.done = true;
    static const int code[] = {A_COPY, A_MOVE, A_COPYB, A_SWAP, A_REVERSE, A_ROTATE, A_SHL, A_SHR, A_FILL, A_TR1, A_TR2, A_COUNT, A_FIND, A_EQUAL};
    AlgArgs a; a.code = code[op.code]; a.base = mem; a.words = g.end / g.D;
    int64_t d = md(op.a[a_d], g.abits + 1), len = md(op.a[a_len], g.abits - d + 1);
    a.d = g.a0 + d; a.val = (int)(op.a[a_val] & 1); a.fn = (int)md(op.a[a_fn], 6);
    auto place = [&](int64_t sel, int64_t s) { bool own = (sel & 1) || !g.bbits; int64_t bits = own ? g.abits : g.bbits; s = md(s, bits + 1); if (s + len > bits) s = std::max<int64_t>(0, bits - len); if (len > bits - s) len = bits - s; return (own ? g.a0 : g.b0) + s; };
    std::vector<Seg> segs; int64_t want = 0; bool check_ret = true;
    op_begin(c, OPS[op.code].name, prop);
    switch (op.code) {
    case L_COPY: case L_MOVE: case L_COPYB: case L_SWAP: {
        a.s = place(op.a[a_src], op.a[a_s]);
        if (overlap(a.d, a.s, len)) {
            if (op.code == L_SWAP) len = std::abs(a.d - a.s);
            else if (op.code == L_COPYB ? a.d < a.s : a.d > a.s) std::swap(a.d, a.s);
            if (op.code != L_SWAP && a.d == a.s) len = 0;
            probe("reach.overlap");
        }
        grant_bits(c, a.d, len, true); grant_bits(c, a.s, len, op.code == L_SWAP);
        segs.push_back({a.d, a.d + len, SRC, a.s - a.d, 0, 0});
        if (op.code == L_SWAP) segs.push_back({a.s, a.s + len, SRC, a.d - a.s, 0, 0});
        want = op.code == L_COPYB ? a.d : a.d + len; break; }
    case L_REVERSE: grant_bits(c, a.d, len, true); segs.push_back({a.d, a.d + len, REV, 2 * a.d + len - 1, 0, 0}); check_ret = false; break;
    case L_ROTATE: { int64_t n = a.n = md(op.a[a_n], len + 1); grant_bits(c, a.d, len, true);
        segs.push_back({a.d, a.d + len - n, SRC, n, 0, 0}); segs.push_back({a.d + len - n, a.d + len, SRC, n - len, 0, 0}); want = a.d + len - n; break; }
    case L_SHL: case L_SHR: { int64_t n = a.n = md(op.a[a_n], len + 4); grant_bits(c, a.d, len, true);
        if (n > 0 && n < len) {
            if (op.code == L_SHL) { segs.push_back({a.d, a.d + len - n, SRC, n, 0, 0}); segs.push_back({a.d + len - n, a.d + len, ANY, 0, 0, 0}); want = a.d + len - n; }
            else { segs.push_back({a.d + n, a.d + len, SRC, -n, 0, 0}); segs.push_back({a.d, a.d + n, ANY, 0, 0, 0}); want = a.d + n; }
        } else if (n == 0) want = op.code == L_SHL ? a.d + len : a.d; else want = op.code == L_SHL ? a.d : a.d + len;
        break; }
    case L_FILL: grant_bits(c, a.d, len, true); segs.push_back({a.d, a.d + len, CONST, a.val, 0, 0}); check_ret = false; break;
    case L_TR1: case L_TR2: {
        bool bin = op.code == L_TR2;
        a.s = place(op.a[a_src], op.a[a_s]); if (bin) { a.s2 = place(op.a[a_src] >> 1, op.a[a_s2]); } else a.s2 = a.s;
        if (overlap(a.d, a.s, len)) a.s = a.d;
        if (overlap(a.d, a.s2, len)) a.s2 = a.d;
        grant_bits(c, a.d, len, true); grant_bits(c, a.s, len, false); if (bin) grant_bits(c, a.s2, len, false);
        static const int un[] = {6, 6, 5, 7, 8, 8}; int fn = bin ? a.fn : un[a.fn];
        segs.push_back({a.d, a.d + len, TR, a.s - a.d, a.s2 - a.d, fn}); want = a.d + len; break; }
    default: { // readers: a range of A (or B), and one to compare with
        a.s = place(op.a[a_src], op.a[a_d]); if (op.code == L_EQUAL) { a.s2 = place(op.a[a_src] >> 1, op.a[a_s2]); }
        grant_bits(c, a.s, len, false); if (op.code == L_EQUAL) grant_bits(c, a.s2, len, false);
        uint64_t inv = a.val ? 0 : ~0ULL; want = op.code == L_FIND ? a.s + len : op.code == L_EQUAL ? 1 : 0;
        for (int64_t i = 0; i < len; i += 64) {
            uint64_t x = bitsP(a.s + i), mask = len - i < 64 ? (1ULL << (len - i)) - 1 : ~0ULL;
            if (op.code == L_COUNT) want += __builtin_popcountll((x ^ inv) & mask);
            else if (op.code == L_FIND) { if ((x ^ inv) & mask) { want = a.s + i + __builtin_ctzll((x ^ inv) & mask); break; } }
            else if ((x ^ bitsP(a.s2 + i)) & mask) { want = 0; break; }
        }
        a.d = a.s; break; }
    }
    a.len = len; reach(len);
    if (!call_alg(c, a, prop)) return;
    if (check_ret && a.ret != want)
        check_fail(prop, "wrong-result", "returned %lld, expected %lld (d=%lld s=%lld s2=%lld len=%lld n=%lld val=%d fn=%d, word %lld bits)", (long long)a.ret, (long long)want,
            (long long)a.d, (long long)a.s, (long long)a.s2, (long long)len, (long long)a.n, a.val, a.fn, (long long)g.D);
    // everything outside the destination and the neighbours' blocks is as it was
    for (int i = 0; i < 2; i++) segs.push_back({g.nb[i], g.nb[i] + NB, ANY, 0, 0, 0});
    std::sort(segs.begin(), segs.end(), [](const Seg& x, const Seg& y) { return x.lo < y.lo; });
    int64_t pos = 0; std::vector<Seg> all;
    for (auto& s : segs) { if (s.lo >= s.hi) continue; if (s.lo > pos) all.push_back({pos, s.lo, SRC, 0, 0, 0}); all.push_back(s); pos = s.hi; }
    if (pos < g.end) all.push_back({pos, g.end, SRC, 0, 0, 0});
    for (auto& s : all) if (int64_t b = bad_bit(s); b >= 0)
        check_fail(prop, b >= a.d && b < a.d + len ? "wrong-bits" : "stray-bits", "bit %lld is %d and should not be (d=%lld s=%lld s2=%lld len=%lld n=%lld val=%d fn=%d, word %lld bits)", (long long)b, (int)(mem[b >> 6] >> (b & 63) & 1),
            (long long)a.d, (long long)a.s, (long long)a.s2, (long long)len, (long long)a.n, a.val, a.fn, (long long)g.D);
}

// ------------------------------------------------------------------ vectors
enum Outcome { OK_, NOMEM, RANGE, OTHER };
static Outcome vcall(Client& c, VecArgs& a) {
    Outcome o = OK_; c.in_op = true;
    try { lib_vec(g.wt, 0, a); }
    catch (std::bad_alloc&) { c.in_op = false; o = NOMEM; }
    catch (std::out_of_range&) { c.in_op = false; o = RANGE; }
    catch (...) { c.in_op = false; o = OTHER; }
    c.in_op = false; return o;
}
static void compare(int prop, unsigned char* raw, const SV& m, const char* what) {
    VecView v; { Quiet q; lib_vec_view(g.wt, 0, raw, v); }
    size_t bytes = 0;
    if (v.size > v.capacity || (v.size && (!v.data || !is_live_block(v.data, &bytes))) || v.size > 8 * (uint64_t)bytes) { check_fail(prop, "invalid-object", "%s: size %llu, capacity %llu, storage of %zu bytes", what, (unsigned long long)v.size, (unsigned long long)v.capacity, bytes); g.dead = true; return; }
    if ((int64_t)v.size != m.n || v.span != m.n || v.empty != (m.n == 0)) { check_fail(prop, "wrong-size", "%s: size %llu, end()-begin() %lld, expected %lld", what, (unsigned long long)v.size, (long long)v.span, (long long)m.n); g.dead = true; return; }
    const uint64_t b = m.base ? ~0ULL : 0; size_t e = 0;
    const uint8_t* p = (const uint8_t*)v.data;
    for (int64_t i = 0; i < m.n; i += 64) {
        uint64_t x = 0, w = b; int64_t k = std::min<int64_t>(64, m.n - i); memcpy(&x, p + i / 8, k == 64 ? 8 : (size_t)((k + 7) / 8));
        for (; e < m.ex.size() && m.ex[e] < i + 64; e++) w ^= 1ULL << (m.ex[e] - i);
        uint64_t d = x ^ w; if (k < 64) d &= (1ULL << k) - 1;
        if (d) { int64_t at = i + __builtin_ctzll(d); check_fail(prop, "wrong-contents", "%s: size %lld (word %lld bits): bit %lld is %d and should not be", what, (long long)m.n, (long long)g.D, (long long)at, (int)(x >> (at - i) & 1)); g.dead = true; return; }
    }
}
static int bit_of(const SV& m, int64_t p) { return m.base ^ (int)std::binary_search(m.ex.begin(), m.ex.end(), p); }
static void set_bit(SV& m, int64_t p, int v) {
    auto i = std::lower_bound(m.ex.begin(), m.ex.end(), p); bool is = i != m.ex.end() && *i == p;
    if (v != m.base && !is) m.ex.insert(i, p); else if (v == m.base && is) m.ex.erase(i);
}
static void vecop(Client& c, const Op& op, int prop) {
    if (g.dead) return;
    SV& m = g.v; SV want = m; VecArgs a; a.s = a.t = m.raw; a.x = (int)md(op.a[a_x], 1 << 12); a.v = op.a[a_val] & 1; a.deflt = true;
    const int64_t n = m.n; int v = a.v; int64_t ret = 0; bool check_ret = false, want_range = false, ctor = false; int64_t fail = op.a[a_fail] > 0 ? op.a[a_fail] : 0;
    auto sub = [&] { a.p = md(op.a[a_d], n + 1); a.n = md(op.a[a_len], n - a.p + 1); };
    auto keep = [&](auto f) { std::vector<int64_t> e; for (int64_t x : m.ex) { int64_t y = f(x); if (y >= 0) e.push_back(y); } std::sort(e.begin(), e.end()); want.ex = e; };
    auto lo = [&](int64_t x) { return std::lower_bound(m.ex.begin(), m.ex.end(), x) - m.ex.begin(); };
    if (op.code != B_NEW && !m.exists) return;
    if ((op.code == B_ERASE1 || op.code == B_POP || op.code == B_PUT || op.code == B_GET || op.code == B_ITER) && !n) return;
    if ((op.code == B_PUSH || op.code == B_INS1 || op.code == B_INSN) && n >= MAXBITS) return;
    op_begin(c, OPS[op.code].name, prop);
    switch (op.code) {
    case B_NEW:
        if (m.exists) { a.code = V_DESTROY; vcall(c, a); m.exists = false; }
        a.size = (uint64_t)md(op.a[a_len], MAXBITS); a.code = V_NEWNV; want.n = (int64_t)a.size; want.base = v; want.ex.clear(); ctor = true; break;
    case B_PUSH: a.code = V_PUSH; a.n = 1; a.x = v; want.n = n + 1; set_bit(want, n, v); break;
    case B_INS1: a.code = V_INS1; a.p = md(op.a[a_d], n + 1); keep([&](int64_t x) { return x < a.p ? x : x + 1; }); want.n = n + 1; set_bit(want, a.p, v); ret = a.p; check_ret = true; break;
    case B_INSN: { a.code = V_INSN; a.p = md(op.a[a_d], n + 1); int64_t k = md(op.a[a_len], MAXBITS - n + 1); a.v = m.base; a.size = (uint64_t)k; keep([&](int64_t x) { return x < a.p ? x : x + k; }); want.n = n + k; ret = a.p; check_ret = true; break; }
    case B_ERASE1: a.code = V_ERASE1; a.p = md(op.a[a_d], n); keep([&](int64_t x) { return x < a.p ? x : x == a.p ? -1 : x - 1; }); want.n = n - 1; ret = a.p; check_ret = true; break;
    case B_ERASER: a.code = V_ERASER; sub(); keep([&](int64_t x) { return x < a.p ? x : x < a.p + a.n ? -1 : x - a.n; }); want.n = n - a.n; ret = a.p; check_ret = true; break;
    case B_RESIZE: a.code = V_RESIZEV; a.size = (uint64_t)md(op.a[a_len], MAXBITS); a.v = m.base; keep([&](int64_t x) { return x < (int64_t)a.size ? x : -1; }); want.n = (int64_t)a.size; break;
    case B_POP: a.code = V_POP; a.n = 1; keep([&](int64_t x) { return x < n - 1 ? x : -1; }); want.n = n - 1; break;
    case B_PUT: a.code = V_PUT; a.p = md(op.a[a_d], n); a.x &= 1; if (a.x) v = !bit_of(m, a.p); set_bit(want, a.p, v); ret = v; check_ret = true; break;
    case B_GET: a.code = a.x & 1 ? V_CGET : V_GET; a.p = md(op.a[a_d], n); if (a.code == V_CGET) { a.x = a.x & 2 ? 4 : 0; } ret = bit_of(m, a.p); check_ret = true; break;
    case B_AT: a.code = V_AT; a.x &= 3; a.size = (uint64_t)(op.a[a_d] < 0 ? -op.a[a_d] : op.a[a_d]);
        if (a.size >= (uint64_t)n) want_range = true; else { int64_t p = (int64_t)a.size; if ((a.x & 3) == 1) set_bit(want, p, v); else v = bit_of(m, p); ret = v; check_ret = true; } break;
    case B_COPY: a.code = V_COPY; break;
    case B_COUNT: a.code = V_COUNT; sub(); { int64_t e = lo(a.p + a.n) - lo(a.p); ret = v == m.base ? a.n - e : e; } check_ret = true; reach(a.n); break;
    case B_FIND: a.code = V_FIND; sub(); check_ret = true; reach(a.n);
        if (v != m.base) { size_t i = (size_t)lo(a.p); ret = i < m.ex.size() && m.ex[i] < a.p + a.n ? m.ex[i] : a.p + a.n; }
        else { ret = a.p; size_t i = (size_t)lo(a.p); while (ret < a.p + a.n && i < m.ex.size() && m.ex[i] == ret) { ret++; i++; } }
        break;
    case B_REVERSE: a.code = V_REVERSE; sub(); reach(a.n); keep([&](int64_t x) { return x < a.p || x >= a.p + a.n ? x : 2 * a.p + a.n - 1 - x; }); break;
    case B_ROTATE: a.code = V_ROTATE; sub(); reach(a.n); a.q = md(op.a[a_n], a.n + 1); keep([&](int64_t x) { return x < a.p || x >= a.p + a.n ? x : x >= a.p + a.q ? x - a.q : x + a.n - a.q; }); ret = a.p + a.n - a.q; check_ret = true; break;
    case B_FILL: a.code = V_FILL; sub(); reach(a.n); a.v = m.base; keep([&](int64_t x) { return x < a.p || x >= a.p + a.n ? x : -1; }); break;
    case B_ITER: { a.code = V_ITER; a.x = 1; a.n = std::min<int64_t>(n, 100); int64_t h = 0; for (int64_t i = 0; i < a.n; i++) h = (int64_t)((uint64_t)h * 3 + 1 + (uint64_t)bit_of(m, n - 1 - i)); ret = h; check_ret = true; break; }
    default: a.code = V_SHRINK; break;
    }
    if (want.n > 1LL << 32) probe("reach.vector_beyond_2_32"); else if (want.n > 1LL << 31) probe("reach.vector_beyond_2_31");
    alignas(16) static unsigned char second[128];
    if (op.code == B_COPY) { memset(second, 0xa5, sizeof second); a.s = second; }
    size_t blocks = live_blocks(c.id);
    c.fail_at = fail; c.fail_len = 1;
    Outcome o = vcall(c, a);
    bool failed = c.fails_op > 0;
    op_end(c);
    if (o == NOMEM && failed) {   // memory ran out: the vector is as it was
        probe("reach.failed_operation");
        if (ctor || op.code == B_COPY) { if (live_blocks(c.id) != blocks) check_fail(prop, "leak", "failed construction left blocks behind"); if (ctor) return; }
        compare(prop, m.raw, m, "after a failed operation"); return;
    }
    if (want_range ? o != RANGE : o != OK_) { check_fail(prop, "exception", "%s of a vector of %lld bits ended with %s", OPS[op.code].name, (long long)n, o == OK_ ? "success" : o == NOMEM ? "std::bad_alloc" : o == RANGE ? "std::out_of_range" : "another exception"); g.dead = true; return; }
    if (ctor) want.exists = true;
    hash_val((uint64_t)a.ret);
    if (check_ret && !want_range && a.ret != ret) check_fail(prop, "wrong-result", "%s returned %lld, expected %lld (size %lld p=%lld q=%lld n=%lld, word %lld bits)", OPS[op.code].name, (long long)a.ret, (long long)ret, (long long)n, (long long)a.p, (long long)a.q, (long long)a.n, (long long)g.D);
    m.exists = want.exists; m.n = want.n; m.base = want.base; m.ex = want.ex;
    compare(prop, m.raw, m, OPS[op.code].name);
    if (op.code == B_COPY) {
        compare(prop, second, m, "the copy");
        VecArgs x; x.s = x.t = second; x.code = V_DESTROY; op_begin(c, "destroy", prop); vcall(c, x); op_end(c);
    }
}
static void step(const Plan&, int cl, const Op& op) {
    Client& c = C[cl]; int prop = prop_of(op.code);
    hash_val((uint64_t)op.code); for (int i = 0; i < NARGS; i++) hash_val((uint64_t)op.a[i]);
    if (op.code >= B_NEW) vecop(c, op, prop);
    else if (op.code >= N_FILL) { if (cl == 1 || R.nclients == 1) neighbour(c, op, prop); }
    else if (cl == 0) longop(c, op, prop);
}
static void client_end(const Plan&, int cl) {
    if (cl != 0 || !g.v.exists || g.dead) return;
    VecArgs x; x.s = x.t = g.v.raw; x.code = V_DESTROY; op_begin(C[cl], "destroy", R.prop == 16 ? 16 : 1); vcall(C[cl], x); op_end(C[cl]); g.v.exists = false;
    if (live_blocks(0)) check_fail(R.prop, "leak", "blocks are left behind");
}
static void finish(const Plan&) {
    for (int i = 0; i < 2; i++) if (int64_t b = diff_bits((const uint8_t*)mem, g.nb[i], g.nbm[i], NB); b >= 0) check_fail(R.prop, "lost-update", "after all clients finished neighbour block %d bit %lld is wrong", i, (long long)b);
}

// ---------------------------------------------------------------- generator
static int64_t big_len(Rng& r, int wt, int tier) {
    if (wt < 2 && !tier && r.chance(1, 2)) return (1LL << 31) + r.range(-200, 2000);
    switch (r.below(6)) {
    case 0: return (1LL << 31) + r.range(-200, 3000);
    case 1: case 2: return (1LL << 32) + r.range(-200, 3000);
    case 3: return (1LL << 31) + (int64_t)r.logu(1u << 30);
    case 4: return (1LL << 32) + (int64_t)r.logu(1u << 28);
    default: return (1LL << 32) + (int64_t)r.below(1u << 26);
    }
}
static int64_t near_(Rng& r, int64_t n) {       // a position or amount in 0..n, mostly close to something
    int64_t v;
    switch (r.below(7)) {
    case 0: v = (int64_t)r.below(200); break;
    case 1: v = n - (int64_t)r.below(200); break;
    case 2: v = (1LL << 31) + r.range(-130, 130); break;
    case 3: v = (1LL << 32) + r.range(-130, 130); break;
    case 4: v = n / 2 + r.range(-130, 130); break;
    case 5: v = (int64_t)r.logu((uint64_t)n + 1); break;
    default: v = (int64_t)r.below((uint64_t)n + 1); break;
    }
    return v < 0 ? 0 : v > n ? n : v;
}
static void gen(Plan& p, Rng& r, int prop, int tier) {
    static const int wts[] = {1, 1, 5, 13}; int wt = r.pick(wts);
    p.set("clients", 2); p.set("wt", wt); p.set("it", (int64_t)r.below(4)); p.set("mis", (int64_t)r.below(8));
    p.set("pseed", (int64_t)r.below(1 << 30)); p.set("pat", 0);
    int w[B_NUM] = {0}; auto set = [&](int lo, int hi) { for (int i = lo; i <= hi; i++) w[i] = 4; };
    switch (prop) { case 5: set(L_COPY, L_SWAP); break; case 6: set(L_REVERSE, L_SHR); break; case 7: set(L_FILL, L_TR2); break; case 8: set(L_COUNT, L_EQUAL); break; case 1: w[B_NEW] = 1; break;
        default: set(L_COPY, L_EQUAL); w[B_NEW] = 28; break; }
    int code = r.pickw(w, B_NUM); auto add = [&](int cl, int cd) -> Op& { Op o; o.client = cl; o.code = cd; p.ops.push_back(o); return p.ops.back(); };
    if (code == B_NEW) {
        int64_t n = big_len(r, wt, tier); if (!tier && n > (1LL << 32) && r.chance(1, 2)) n = (1LL << 31) + r.range(-200, 3000);
        { Op& o = add(0, B_NEW); o.a[a_len] = n; o.a[a_val] = r.chance(1, 2); }
        for (int i = 0; i < 2; i++) { Op& o = add(0, B_PUT); o.a[a_d] = near_(r, n - 1); o.a[a_x] = 1; }
        int k = 1 + (int)r.below(3);
        for (int i = 0; i < k; i++) {
            Op& o = add(0, B_PUSH + (int)r.below(B_NUM - B_PUSH)); o.a[a_d] = near_(r, n - 1); o.a[a_val] = r.chance(1, 2); o.a[a_x] = (int64_t)r.below(8);
            o.a[a_len] = r.chance(1, 2) ? n - o.a[a_d] - (int64_t)r.below(100) : near_(r, n - o.a[a_d]); o.a[a_n] = near_(r, o.a[a_len]);
            if (o.code == B_INSN) o.a[a_len] = r.chance(1, 2) ? (int64_t)r.below(200) : (int64_t)r.logu(1u << 29);
            if (o.code == B_RESIZE) o.a[a_len] = r.chance(1, 2) ? near_(r, n) : n + (int64_t)r.logu(1u << 29);
            if (o.code == B_AT && r.chance(1, 2)) o.a[a_d] = n + (r.chance(1, 2) ? (int64_t)r.below(3) : ((int64_t)r.below(4) << 32) - (int64_t)r.below((uint64_t)n));
            if ((o.code == B_PUSH || o.code == B_INS1 || o.code == B_INSN || o.code == B_RESIZE || o.code == B_COPY) && r.chance(1, 4)) o.a[a_fail] = 1;
        }
    } else {
        bool two = code <= L_SWAP || code == L_TR1 || code == L_TR2 || code == L_EQUAL;
        int64_t L = big_len(r, wt, tier), d = r.chance(3, 4) ? (int64_t)r.below(140) : near_(r, L / 2);
        bool inA = two && code != L_SWAP && code != L_EQUAL && r.chance(1, 3);
        int64_t shift = inA ? (int64_t)r.logu(1u << 20) : 0;
        p.set("abits", L + d + shift + (int64_t)r.below(140));
        int64_t s = (int64_t)r.below(140); if (r.chance(1, 3)) s = d % (8 << wt);
        if (two && (!inA || code == L_TR2)) p.set("bbits", L + s + (int64_t)r.below(140));
        Op& o = add(0, code); o.a[a_d] = d; o.a[a_len] = L; o.a[a_src] = (inA ? 1 : 0) | (r.chance(1, 4) ? 2 : 0); o.a[a_s] = inA ? d + shift : s; o.a[a_s2] = s; o.a[a_n] = near_(r, L); o.a[a_val] = r.chance(1, 2); o.a[a_fn] = (int64_t)r.below(6);
        if (code == L_EQUAL) o.a[a_src] = r.chance(3, 4) ? 1 : (int64_t)r.below(4);
        if (code == L_COUNT && r.chance(1, 2)) { p.set("pat", 1); p.set("pc", (int64_t)r.below(2)); o.a[a_val] = p.get("pc"); }
        else if (code == L_FIND || code == L_EQUAL || r.chance(1, 4)) {
            p.set("pat", 1); p.set("pc", (int64_t)r.below(code == L_FIND ? 2 : 6)); if (code == L_FIND && r.chance(4, 5)) o.a[a_val] = !p.get("pc");
            if (code == L_FIND && r.chance(1, 2)) { p.set("p0", 64 * 64 + NB + d + L - 1 - (int64_t)r.below(150)); if (r.chance(1, 3)) p.set("p1", 64 * 64 + NB + d - 1 - (int64_t)r.below(3)); }   // far away
            else { if (r.chance(3, 4)) p.set("p0", 64 * 64 + NB + d + near_(r, L)); if (r.chance(1, 3)) p.set("p1", 64 * 64 + NB + d + L - (int64_t)r.below(100)); }
        }
    }
    int k = (int)r.below(4);
    for (int i = 0; i < k; i++) { Op& o = add(1, N_FILL + (int)r.below(4)); o.a[a_src] = r.chance(1, 2); o.a[a_d] = (int64_t)r.below(NB); o.a[a_len] = (int64_t)r.below(NB); o.a[a_n] = (int64_t)r.below(NB); o.a[a_val] = r.chance(1, 2); }
    // preemptions anywhere in the long operation
    int q = (int)r.below(6); for (int i = 0; i < q; i++) p.sw.push_back(Sw{(int64_t)r.logu(1u << 27), (int)r.below(3)});
}
static void init() { g_big = true; g_event_cap = 20ull * 1000 * 1000 * 1000; g_tick_cap = 60; }
Scenario the_scenario = {"big", OPS, (int)(sizeof OPS / sizeof *OPS), ARGN, gen, setup, step, client_end, finish, init};
} // namespace sim
void sim_take_text(const char*, std::size_t) {}
