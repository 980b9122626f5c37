// Scenario "vec": clients own bit vectors and run histories of container
// operations on them while allocations fail.  (C01 C02 C03 C04)
#include "core.hpp"
#include "vec.hpp"
#include <algorithm>
#include <memory>
#include <new>
#include <stdexcept>

namespace sim {
static const OpInfo OPS[] = {{"new"}, {"new_alloc"}, {"new_n"}, {"new_nv"}, {"new_bits"}, {"new_from"}, {"new_bools"}, {"new_words"}, {"new_il_bool"}, {"new_il_word"}, {"new_il_bit"}, {"new_text"},
    {"copy_construct"}, {"copy_construct_alloc"}, {"move_construct"}, {"move_construct_alloc"}, {"destroy"}, {"assign"}, {"move_assign"}, {"swap"},
    {"push_back"}, {"insert"}, {"insert_n"}, {"insert_range"}, {"resize"}, {"resize_v"}, {"reserve"}, {"shrink_to_fit"},
    {"erase"}, {"erase_range"}, {"pop_back"}, {"clear"}, {"get"}, {"put"}, {"at"}, {"front"}, {"back"}, {"iterate"}, {"const_access"}, {"debug_string"},
    {"reverse"}, {"rotate"}, {"shift_left"}, {"shift_right"}, {"fill"}, {"not"}, {"count"}, {"find"}, {"equal"}, {"copy_range"}, {"swap_ranges"}, {"huge"}, {"new_user_bools"}, {"new_user_words"}};
static const char* const ARGN[NARGS] = {"s", "t", "p", "q", "n", "v", "x", "fail", "flen", "mem"};
enum { a_s, a_t, a_p, a_q, a_n, a_v, a_x, a_fail, a_flen, a_mem };
constexpr int NS = 3;
struct Slot { alignas(16) unsigned char raw[128]; bool exists = false; int id = 0; std::vector<uint8_t> m; };   // id: allocator it must use, -1 unknown
struct G { int wt, ws, al, fp; bool travels; int64_t D, maxbits, row; uint8_t* ro; std::vector<uint8_t> rom; Slot s[MAXC][NS]; bool dead[MAXC]; bool started[MAXC]; };
static G g;
static std::string g_taken[MAXC];

static void setup(const Plan& p) {
    g.al = (int)p.get("al", 0); if (g.al < 0 || g.al > 2) g.al = 0; g.travels = g.al == 1; g.fp = R.prop == 17 || R.prop >= 19 ? R.prop : 3;
    g.wt = (int)(p.get("wt") & 3); g.ws = 1 << g.wt; g.D = 8 * g.ws;
    g.maxbits = p.get("maxbits", 4000); if (g.maxbits < 1) g.maxbits = 1; if (g.maxbits > (1 << 26)) g.maxbits = 1 << 26;
    g.row = p.get("ro", 8); if (g.row < 1) g.row = 1; if (g.row > 20000) g.row = 20000;
    g.ro = alloc_array((size_t)(g.row * g.ws), 0);
    uint64_t seed = (uint64_t)p.get("pseed", 1);
    for (int64_t i = 0; i < g.row * g.ws; i++) g.ro[i] = (uint8_t)mix64(seed + (uint64_t)i);
    g.rom.resize((size_t)(g.row * g.D)); load_bits(g.ro, 0, g.rom.data(), g.row * g.D);
    for (int c = 0; c < MAXC; c++) { g.dead[c] = false; g.started[c] = false; for (auto& s : g.s[c]) { s.exists = false; s.id = 0; s.m.clear(); if (s.m.capacity() > (1 << 20)) s.m.shrink_to_fit(); memset(s.raw, 0xa5, sizeof s.raw); } }
}
static inline int64_t md(int64_t v, int64_t m) { if (m <= 0) return 0; v %= m; return v < 0 ? v + m : v; }
static inline int64_t fold(int64_t h, int64_t bit) { return (int64_t)((uint64_t)h * 3 + 1 + (uint64_t)bit); }

static VecView view(Slot& s) { Quiet q; VecView v; lib_vec_view(g.wt, g.al, s.raw, v); return v; }
// is the object's own report consistent with the storage it holds?
static bool sane(const VecView& v, const char** why) {
    if (v.size == 0) { if (v.data) { *why = "empty vector with data"; return false; } return true; }
    size_t bytes = 0;
    if (v.size > v.capacity) { *why = "size exceeds capacity"; return false; }
    if (!v.data || !is_live_block(v.data, &bytes)) { *why = "data() is not a live block"; return false; }
    if (v.size > 8 * (uint64_t)bytes) { *why = "size exceeds the storage"; return false; }
    return true;
}
// compares one vector with its model; returns false on a mismatch that was not reported
static bool compare(int prop, int cl, int k, const char* when) {
    Slot& s = g.s[cl][k];
    VecView v = view(s); const char* why = "";
    if (!sane(v, &why)) {
        check_fail(prop, "invalid-object", "%s: vector %d: %s (size %llu, capacity %llu)", when, k, why, (unsigned long long)v.size, (unsigned long long)v.capacity);
        check_fail(3, "invalid-object", "%s: vector %d: %s (size %llu, capacity %llu)", when, k, why, (unsigned long long)v.size, (unsigned long long)v.capacity);
        g.dead[cl] = true; return false;
    }
    if (v.size && s.id >= 0) {
        int tag = -1; is_live_block(v.data, nullptr, &tag); int want = g.al ? s.id : -1;
        if (tag != want) { check_fail(19, "wrong-allocator", "%s: the storage of vector %d comes from allocator %d, expected %d", when, k, tag, want); s.id = -1; }
    }
    if (v.size != s.m.size()) { check_fail(prop, "wrong-size", "%s: vector %d has size %llu, expected %zu", when, k, (unsigned long long)v.size, s.m.size()); return false; }
    if (v.empty != (v.size == 0)) { check_fail(prop, "wrong-size", "%s: vector %d of size %llu reports empty()=%d", when, k, (unsigned long long)v.size, (int)v.empty); return false; }
    if (v.span != (int64_t)v.size) { check_fail(prop, "wrong-size", "%s: vector %d of size %llu has end()-begin()=%lld", when, k, (unsigned long long)v.size, (long long)v.span); return false; }
    if (v.size > v.max_size) { check_fail(prop, "wrong-size", "%s: vector %d is larger than max_size()", when, k); return false; }
    int64_t d = v.size ? diff_bits((const uint8_t*)v.data, 0, s.m.data(), (int64_t)v.size) : -1;
    if (d >= 0) { check_fail(prop, "wrong-contents", "%s: vector %d of size %llu (word %lld bits): bit %lld is %d, expected %d", when, k, (unsigned long long)v.size, (long long)g.D, (long long)d, !s.m[(size_t)d], s.m[(size_t)d]); return false; }
    return true;
}
static void resync(int cl, int k) {
    Slot& s = g.s[cl][k]; VecView v = view(s); const char* why;
    if (!sane(v, &why)) { g.dead[cl] = true; return; }
    s.m.resize((size_t)v.size); if (v.size) load_bits((const uint8_t*)v.data, 0, s.m.data(), (int64_t)v.size);
}
enum Outcome { OK_, NOMEM, TOOLONG, RANGE, OTHER, THREW };
static int64_t g_payload; static int g_thk;
static Outcome call(Client& c, VecArgs& a) {
    Outcome o = OK_;
    c.in_op = true;
    try { lib_vec(g.wt, g.al, a); }
    catch (...) {
        c.in_op = false;
        if (thrown(g_thk, g_payload)) o = THREW;
        else try { throw; }
        catch (std::bad_alloc&) { o = NOMEM; }
        catch (std::length_error&) { o = TOOLONG; }
        catch (std::out_of_range&) { o = RANGE; }
        catch (...) { o = OTHER; }
    }
    c.in_op = false;
    return o;
}
static const char* oname(Outcome o) { static const char* n[] = {"success", "std::bad_alloc", "std::length_error", "std::out_of_range", "another exception", "the exception of the user's iterator"}; return n[o]; }

static void construct_default(Client& c, int cl, int k) {
    Slot& s = g.s[cl][k]; VecArgs a; a.code = V_NEW; a.s = a.t = s.raw;
    op_begin(c, "new", g.fp); call(c, a); op_end(c); s.exists = true; s.id = 0; s.m.clear();
}
static void destroy(Client& c, int cl, int k) {
    Slot& s = g.s[cl][k]; if (!s.exists) return;
    VecArgs a; a.code = V_DESTROY; a.s = a.t = s.raw;
    op_begin(c, "destroy", g.fp); c.forbid_alloc = true; call(c, a); op_end(c);
    s.exists = false; s.m.clear(); memset(s.raw, 0xa5, sizeof s.raw);
}

// accesses and allocations an operation on len -> n bits may take (words of 32 and 64 bits: one access per bit would show, and two where bits are written)
static void cost(Client& c, int code, const VecArgs& a, int64_t len, int64_t n, int64_t tlen, bool cheap) {
    const int64_t W = (std::max(len, n) + tlen) / g.D, bits = std::max<int64_t>({a.n, a.nbools, a.ntext, 0});
    int64_t limit = (code == V_COUNT || code == V_FIND || code == V_EQUAL ? 16 : 48) * W + 384;
    switch (code) {
    case V_NEWBOOL: case V_UBOOL: case V_NEWTEXT: case V_DEBUG: case V_ITER: case V_CGET: limit = 16 * bits + 48 * W + 384; break;
    case V_NEWILB: case V_NEWILW: case V_NEWILV: limit = 16 * n + 384; break;
    case V_PUSH: limit = 8 * bits + (c.allocs_op ? 48 * W : 0) + 384;
        { double k = 4; for (int64_t v = std::max(len, g.D); v < len + bits; v += v / 2) k += 1;
          if ((double)c.allocs_op > k) check_fail(18, "too-many-allocations", "appending %lld bits one by one to %lld bits (word %lld bits) allocated %llu times", (long long)bits, (long long)len, (long long)g.D, (unsigned long long)c.allocs_op); }
        break;
    case V_POP: limit = 8 * bits + 384; break;
    case V_GET: case V_PUT: case V_FRONT: case V_BACK: case V_AT: limit = 384; break;
    case V_MOVE: case V_MOVEALLOC: case V_MASSIGN: case V_SWAP: if (cheap) limit = 384; break;
    case V_ROTATE: case V_SWAPR: limit = 64 * W + 384; break;
    default: break;
    }
    if (g.wt >= 2 && (int64_t)c.acc_op > limit) check_fail(18, "too-many-steps", "%s, %lld bits before and %lld after (word %lld bits), took %llu accesses, more than %lld", OPS[code].name, (long long)len, (long long)n, (long long)g.D, (unsigned long long)c.acc_op, (long long)limit);
    if (W >= 100) probe("reach.cost_of_a_long_vector");
}
static void cost_memory(int code, const VecArgs& a, uint64_t before, uint64_t after, int64_t len, int64_t n) {
    uint64_t m = (uint64_t)std::max(len, n), limit = 4 * m + 1024;
    switch (code) {
    case V_COPY: case V_COPYALLOC: case V_NEWN: case V_NEWNV: case V_NEWBITS: case V_NEWFROM: case V_NEWBOOL: case V_NEWWORDS: case V_NEWTEXT: case V_UBOOL: case V_UWORDS: limit = 2 * (uint64_t)n + 1024; break;
    case V_PUSH: case V_INS1: case V_INSN: case V_INSR: case V_RESIZE: case V_RESIZEV: case V_ASSIGN: limit = std::max(before, limit); break;
    case V_RESERVE: limit = std::max({before, limit, 2 * a.size + 1024}); break;
    default: return;
    }
    if (after > limit) check_fail(18, "too-much-memory", "%s, %lld bits before and %lld after (word %lld bits), holds memory for %llu bits", OPS[code].name, (long long)len, (long long)n, (long long)g.D, (unsigned long long)after);
}
static void step(const Plan&, int cl, const Op& op) {
    if (g.dead[cl]) return;
    Client& c = C[cl];
    int code = op.code; int si = (int)md(op.a[a_s], NS), ti = (int)md(op.a[a_t], NS);
    Slot& S = g.s[cl][si];
    bool ctor = code <= V_MOVEALLOC || code > V_HUGE;
    int hk = -1;                                   // kind of oversized request
    uint64_t huge = 0;
    if (code == V_HUGE) {
        hk = (int)md(op.a[a_x], 6);
        int e = 30 + (int)md(op.a[a_q], 35);
        huge = (e >= 64 ? 0 : 1ULL << e) + (uint64_t)op.a[a_n];
        if (huge < (1ULL << 30)) huge = (1ULL << 40) + huge;
        probe("fault.oversized_size"); if (e >= 60) probe("fault.oversized_size_near_max");
        ctor = hk <= 1;
        static const int map[6] = {V_NEWN, V_NEWNV, V_RESERVE, V_RESIZE, V_RESIZEV, V_INSN}; code = map[hk];
    }
    bool need_t = code == V_NEWFROM || code == V_COPY || code == V_COPYALLOC || code == V_MOVE || code == V_MOVEALLOC || code == V_ASSIGN || code == V_MASSIGN || code == V_SWAP || code == V_INSR || code == V_COPYR || code == V_SWAPR || code == V_EQUAL;
    if (need_t) {
        bool self_ok = code == V_ASSIGN || code == V_EQUAL;
        for (int i = 0; i < NS && ((!self_ok && ti == si) || !g.s[cl][ti].exists); i++) ti = (ti + 1) % NS;
        if ((!self_ok && ti == si) || !g.s[cl][ti].exists) return;
    } else ti = si;
    Slot& T = g.s[cl][ti];
    if (ctor) destroy(c, cl, si);
    else if (!S.exists) construct_default(c, cl, si);
    if (code == V_DESTROY) { destroy(c, cl, si); return; }

    // which allocator each side has to use afterwards, and whether contents can change hands without memory
    const int aid = g.al ? (int)md(op.a[a_x] >> 8, 3) : 0; bool deflt = (op.a[a_x] >> 11) & 1;
    if (code == V_NEWILV && md(op.a[a_x], 1 << 20) % 3 != 1) deflt = false;
    bool cheap = true; int id_after = S.id, id_t_after = T.id;
    switch (code) {
    case V_NEW: case V_NEWTEXT: id_after = 0; break;
    case V_NEWALLOC: case V_COPYALLOC: id_after = aid; break;
    case V_COPY: id_after = !g.al || !g.travels ? 0 : T.id; break;
    case V_MOVE: id_after = T.id; break;
    case V_MOVEALLOC: id_after = aid; cheap = !g.al || T.id == aid; break;
    case V_ASSIGN: if (g.travels) id_after = T.id; break;
    case V_MASSIGN: if (g.travels) id_after = T.id; else cheap = !g.al || S.id == T.id; break;
    case V_SWAP: if (g.travels) { id_after = T.id; id_t_after = S.id; } else if (g.al && S.id != T.id) return; break;
    default: if (ctor) id_after = deflt ? 0 : aid; break;
    }
    const bool replaces_alloc = code == V_ASSIGN && g.travels && S.id != T.id;
    const std::vector<uint8_t>& sm = S.m; const std::vector<uint8_t>& tm = T.m;
    const int64_t len = (int64_t)sm.size(), tlen = (int64_t)tm.size();
    VecView before{}; if (!ctor) before = view(S);
    VecView tbefore{}; if (need_t) tbefore = view(T);
    VecArgs a; a.code = code; a.s = S.raw; a.t = T.raw; a.v = op.a[a_v] & 1; a.x = (int)md(op.a[a_x], 1 << 20); a.aid = aid; a.deflt = deflt;
    std::vector<uint8_t> want, want_t; bool t_changes = false, t_unspecified = false;
    int64_t want_ret = 0; bool check_ret = false; bool want_range = false, noalloc = false, stable = false;
    int64_t unlo = 0, unhi = 0;
    std::unique_ptr<bool[]> bools; std::string text;
    const int64_t listlim = g.maxbits > 13000 ? g.maxbits * 5 / 4 : 256;      // long texts and boolean arrays in the larger runs only
    const int64_t room = std::max<int64_t>(0, g.maxbits - len);
    auto val = (uint8_t)a.v;
    auto sub = [&](int64_t lim) { a.p = md(op.a[a_p], lim + 1); a.n = md(op.a[a_n], lim - a.p + 1); };
    op_begin(c, OPS[op.code].name, g.fp);
    switch (code) {
    case V_NEW: case V_NEWALLOC: break;
    case V_NEWN: a.size = hk >= 0 ? huge : (uint64_t)md(op.a[a_n], g.maxbits + 1); if (hk < 0) want.assign(a.size, 0); break;
    case V_NEWNV: a.size = hk >= 0 ? huge : (uint64_t)md(op.a[a_n], g.maxbits + 1); if (hk < 0) want.assign(a.size, val); break;
    case V_NEWBITS: { int64_t lim = std::min(g.row * g.D, g.maxbits); sub(lim); a.words = g.ro; want.assign(g.rom.begin() + a.p, g.rom.begin() + a.p + a.n);
        if (a.n) { int64_t w0 = a.p / g.D, w1 = (a.p + a.n - 1) / g.D; grant(c, g.ro + w0 * g.ws, (size_t)((w1 - w0 + 1) * g.ws), false); } break; }
    case V_NEWFROM: sub(tlen); want.assign(tm.begin() + a.p, tm.begin() + a.p + a.n); break;
    case V_UBOOL: case V_NEWBOOL: a.nbools = std::min(g.maxbits, md(op.a[a_n], listlim + 1)); bools.reset(new bool[(size_t)a.nbools + 1]); a.bools = bools.get(); for (int64_t i = 0; i < a.nbools; i++) { bools[i] = mix64((uint64_t)op.a[a_x] + (uint64_t)i) & 1; want.push_back(bools[i]); } break;
    case V_UWORDS: case V_NEWWORDS: a.p = md(op.a[a_p], g.row + 1); a.n = md(op.a[a_n], std::min(g.row - a.p, g.maxbits / g.D) + 1); a.words = g.ro; grant(c, g.ro + a.p * g.ws, (size_t)(a.n * g.ws), false);
        want.assign(g.rom.begin() + a.p * g.D, g.rom.begin() + (a.p + a.n) * g.D); break;
    case V_NEWILB: { static const std::vector<uint8_t> L[4] = {{1}, {0, 1, 1}, {1, 0, 0, 1, 0, 1, 1, 1}, {0, 1, 0, 0, 1, 0, 1, 1, 1, 1, 0}}; want = L[a.x % 4]; break; }
    case V_NEWILW: { static const std::vector<uint64_t> L[3] = {{0x5a}, {0x13, ~0ULL, 0}, {7, 0x80, ~1ULL, 1, 0x3c}}; for (uint64_t w : L[a.x % 3]) for (int64_t b = 0; b < g.D; b++) want.push_back(w >> b & 1); break; }
    case V_NEWILV: { static const std::vector<uint8_t> L[3] = {{0}, {1, 0, 1}, {1, 1, 0, 1, 0, 0, 1, 0, 1, 1}}; want = L[a.x % 3]; break; }
    case V_NEWTEXT: { static const char other[] = {'_', '.', ',', '2', '/', 'x', 'X', '\n', '\0', (char)0xb0, (char)0xb1, (char)0xff, 'O', 'l', '\x10', '\x11', 'p', 'q'};
        int64_t n = md(op.a[a_n], listlim + 1); for (int64_t i = 0; i < n && (int64_t)want.size() < g.maxbits; i++) { uint64_t r = mix64((uint64_t)op.a[a_x] * 31 + (uint64_t)i) % 10; char ch = r < 4 ? '0' : r < 8 ? '1' : r == 8 ? ' ' : other[mix64((uint64_t)op.a[a_x] * 17 + (uint64_t)i) % sizeof other]; text += ch; if (ch == '0' || ch == '1') want.push_back(ch == '1'); }
        a.ntext = (int64_t)text.size(); uint8_t* tp = alloc_array(text.size() + 1, (size_t)(op.a[a_x] & 7)); memcpy(tp, text.data(), text.size()); a.text = (const char*)tp; grant(c, tp, text.size(), false); break; }
    case V_COPY: case V_COPYALLOC: case V_ASSIGN: want = tm; break;
    case V_MOVE: case V_MOVEALLOC: case V_MASSIGN: want = tm; t_unspecified = true; noalloc = cheap; break;
    case V_SWAP: want = tm; want_t = sm; t_changes = true; noalloc = true; break;
    case V_PUSH: { a.n = std::min<int64_t>(md(op.a[a_n], 300), room); want = sm; for (int64_t i = 0; i < a.n; i++) want.push_back((a.x >> (i & 15)) & 1); stable = (uint64_t)(len + a.n) <= before.capacity; break; }
    case V_INS1: { if (!room) { op_end(c); return; } a.p = md(op.a[a_p], len + 1); want = sm; want.insert(want.begin() + a.p, val); want_ret = a.p; check_ret = true; stable = (uint64_t)(len + 1) <= before.capacity; break; }
    case V_INSN: { a.p = md(op.a[a_p], len + 1);
        if (hk >= 0) { a.size = huge; break; }
        a.size = (uint64_t)md(op.a[a_n], room + 1); want = sm; want.insert(want.begin() + a.p, (size_t)a.size, val); want_ret = a.p; check_ret = true; stable = (uint64_t)len + a.size <= before.capacity; break; }
    case V_INSR: { a.p = md(op.a[a_p], len + 1); a.q = md(op.a[a_q], tlen + 1); a.n = md(op.a[a_n], std::min(tlen - a.q, room) + 1); want = sm; want.insert(want.begin() + a.p, tm.begin() + a.q, tm.begin() + a.q + a.n);
        want_ret = a.p; check_ret = true; stable = (uint64_t)(len + a.n) <= before.capacity; break; }
    case V_RESIZE: case V_RESIZEV: { if (hk >= 0) { a.size = huge; break; }
        a.size = (uint64_t)md(op.a[a_n], g.maxbits + 1); want = sm; want.resize((size_t)a.size, code == V_RESIZEV ? val : (uint8_t)0); stable = a.size <= before.capacity; break; }
    case V_RESERVE: if (hk >= 0) { a.size = huge; break; } a.size = (uint64_t)md(op.a[a_n], g.maxbits + 1); want = sm; stable = a.size <= before.capacity; break;
    case V_SHRINK: want = sm; break;
    case V_ERASE1: if (!len) { op_end(c); return; } a.p = md(op.a[a_p], len); want = sm; want.erase(want.begin() + a.p); want_ret = a.p; check_ret = true; noalloc = true; break;
    case V_ERASER: sub(len); want = sm; want.erase(want.begin() + a.p, want.begin() + a.p + a.n); want_ret = a.p; check_ret = true; noalloc = true; break;
    case V_POP: a.n = std::min<int64_t>(len, md(op.a[a_n], 300)); want.assign(sm.begin(), sm.end() - a.n); noalloc = true; break;
    case V_CLEAR: noalloc = true; break;
    case V_GET: case V_PUT: case V_FRONT: case V_BACK: {
        if (!len) { op_end(c); return; }
        a.p = code == V_FRONT ? 0 : code == V_BACK ? len - 1 : md(op.a[a_p], len); want = sm; uint8_t& b = want[(size_t)a.p];
        if (code == V_PUT) { if (a.x & 1) b ^= 1; else b = val; } else if (code != V_GET && (a.x & 1)) b = val;
        want_ret = b; check_ret = true; noalloc = true; break; }
    case V_AT: { want = sm; int k = (int)md(op.a[a_q], 4);
        a.size = k == 0 ? (uint64_t)len + (uint64_t)md(op.a[a_p], 140) : k == 1 ? ~(uint64_t)md(op.a[a_p], 1000) : (uint64_t)md(op.a[a_p], len + 1);
        if (a.size >= (uint64_t)len) { want_range = true; probe("reach.at_out_of_range"); } else { uint8_t& b = want[(size_t)a.size]; if ((a.x & 3) == 1) b = val; want_ret = b; check_ret = true; noalloc = true; }
        break; }
    case V_ITER: { a.n = std::min<int64_t>(len, 300); want = sm; int64_t h = 0; for (int64_t i = 0; i < a.n; i++) h = fold(h, (a.x & 1) ? sm[(size_t)(len - 1 - i)] : sm[(size_t)i]); want_ret = h; check_ret = true; noalloc = true; break; }
    case V_CGET: { int k = a.x % 8; if (k < 5 && !len) { op_end(c); return; } want = sm; check_ret = noalloc = true;
        if (k < 5) { a.p = k == 2 ? 0 : k == 3 ? len - 1 : md(op.a[a_p], len); want_ret = sm[(size_t)a.p]; }
        else if (k == 7) { a.n = std::min<int64_t>(len, 300); for (int64_t i = 0; i < a.n; i++) want_ret = fold(want_ret, sm[(size_t)i]); }
        else { sub(len); want_ret = k == 5 ? (int64_t)std::count(sm.begin() + a.p, sm.begin() + a.p + a.n, val) : (int64_t)(std::find(sm.begin() + a.p, sm.begin() + a.p + a.n, val) - sm.begin()); }
        break; }
    case V_DEBUG: { if (a.x & 1) { a.p = 0; a.n = len; } else sub(len);
        if (a.n > 100000) { op_end(c); return; }
        want = sm; text.clear(); g_taken[cl] = "?";
        for (int64_t i = 0; i < a.n; i++) { if (i && i % g.D == 0) text += ' '; else if (i && i % 8 == 0) text += '.'; text += sm[(size_t)(a.p + i)] ? '1' : '0'; }
        break; }
    case V_REVERSE: sub(len); want = sm; std::reverse(want.begin() + a.p, want.begin() + a.p + a.n); noalloc = true; break;
    case V_ROTATE: sub(len); a.q = md(op.a[a_q], a.n + 1); want = sm; want_ret = std::rotate(want.begin() + a.p, want.begin() + a.p + a.q, want.begin() + a.p + a.n) - want.begin(); check_ret = true; noalloc = true; break;
    case V_SHL: case V_SHR: { sub(len); a.q = md(op.a[a_q], a.n + 3); want = sm; int64_t n = a.q, d = a.p, l = a.n; noalloc = true; check_ret = true;
        if (n > 0 && n < l) {
            if (code == V_SHL) { std::move(want.begin() + d + n, want.begin() + d + l, want.begin() + d); unlo = d + l - n; unhi = d + l; want_ret = d + l - n; }
            else { std::move_backward(want.begin() + d, want.begin() + d + l - n, want.begin() + d + l); unlo = d; unhi = d + n; want_ret = d + n; }
        } else if (n == 0) want_ret = code == V_SHL ? d + l : d; else want_ret = code == V_SHL ? d : d + l;
        break; }
    case V_FILL: sub(len); want = sm; std::fill(want.begin() + a.p, want.begin() + a.p + a.n, val); noalloc = true; break;
    case V_NOT: sub(len); want = sm; for (int64_t i = 0; i < a.n; i++) want[(size_t)(a.p + i)] ^= 1; want_ret = a.p + a.n; check_ret = true; noalloc = true; break;
    case V_COUNT: sub(len); want = sm; want_ret = std::count(sm.begin() + a.p, sm.begin() + a.p + a.n, val); check_ret = true; noalloc = true; break;
    case V_FIND: sub(len); want = sm; want_ret = std::find(sm.begin() + a.p, sm.begin() + a.p + a.n, val) - sm.begin(); check_ret = true; noalloc = true; break;
    case V_EQUAL: a.p = md(op.a[a_p], len + 1); a.q = md(op.a[a_q], tlen + 1); a.n = md(op.a[a_n], std::min(len - a.p, tlen - a.q) + 1); want = sm; want_ret = std::equal(sm.begin() + a.p, sm.begin() + a.p + a.n, tm.begin() + a.q); check_ret = true; noalloc = true; break;
    case V_COPYR: a.p = md(op.a[a_p], len + 1); a.q = md(op.a[a_q], tlen + 1); a.n = md(op.a[a_n], std::min(len - a.p, tlen - a.q) + 1); want = sm; std::copy(tm.begin() + a.q, tm.begin() + a.q + a.n, want.begin() + a.p); want_ret = a.p + a.n; check_ret = true; noalloc = true; break;
    case V_SWAPR: a.p = md(op.a[a_p], len + 1); a.q = md(op.a[a_q], tlen + 1); a.n = md(op.a[a_n], std::min(len - a.p, tlen - a.q) + 1); want = sm; want_t = tm; t_changes = true; std::swap_ranges(want.begin() + a.p, want.begin() + a.p + a.n, want_t.begin() + a.q); want_ret = a.q + a.n; check_ret = true; noalloc = true; break;
    default: op_end(c); return;
    }
    if (code > V_HUGE) { int64_t t = op.a[a_v] >> 1; a.throw_at = t > 0 ? t : 0; a.kind = (int)md(op.a[a_q], 6); a.thk = (int)md(op.a[a_p], THROW_KINDS); }
    if (stable) noalloc = true;
    if (stable && code >= V_PUSH && code <= V_RESIZEV) probe("reach.growth_within_capacity");
    if (want.size() > (1u << 24)) probe("reach.beyond_2_24_bits");
    // memory faults
    c.fail_at = op.a[a_fail] > 0 ? op.a[a_fail] : 0; c.fail_len = op.a[a_flen] > 0 ? op.a[a_flen] : 1;
    c.exhausted = op.a[a_mem] & 1;
    c.forbid_alloc = noalloc;
    if (noalloc && c.exhausted) probe("reach.no_memory_op_with_memory_gone");
    size_t blocks0 = live_blocks(cl);
    hash_val((uint64_t)op.code * 1009 + (uint64_t)len);
    Outcome o = call(c, a);
    uint64_t fails = c.fails_op;
    op_end(c);
    hash_val((uint64_t)o); hash_val((uint64_t)a.ret);
    bool after_failure = false;
    for (int attempt = 0; ; attempt++) {
        if (o == NOMEM || o == TOOLONG) {
            bool legit = (hk >= 0) || (o == NOMEM && fails > 0);
            if (!legit) {
                for (int pr : {1, 2, 3, 4, 17, 19, 20}) check_fail(pr, "unexpected-failure", "%s threw %s although memory was available", OPS[op.code].name, oname(o));
                g.dead[cl] = true; return;
            }
            if (noalloc) { check_fail(4, "failed-without-memory", "operation that needs no memory failed with %s", oname(o)); }
            probe(o == NOMEM ? "reach.bad_alloc_reported" : "reach.length_error_reported");
            after_failure = true;
            if (code == V_PUSH) S.m.assign(want.begin(), want.begin() + (ptrdiff_t)S.m.size() + a.done);
            if (ctor) {
                size_t b1 = live_blocks(cl);
                if (b1 != blocks0) { for (int pr : {2, 3, 17, 19, 20}) check_fail(pr, "leak", "failed construction left %zd blocks behind", (ssize_t)(b1 - blocks0)); }
            }
            if (replaces_alloc && view(S).size == 0) { S.m.clear(); S.id = -1; probe("reach.failed_while_replacing_allocator"); }
            for (int k = 0; k < NS; k++) if (g.s[cl][k].exists && !compare(R.prop >= 19 ? R.prop : 2, cl, k, "after the failed operation")) {
                if (R.prop == 1) check_fail(1, "wrong-contents", "vector %d changed by an operation that failed", k);
                resync(cl, k);
            }
            if (g.dead[cl]) return;
            if (hk >= 0) return;                   // an oversized request can only fail
            if (attempt || (op.a[a_mem] & 2)) return;
            if (code == V_PUSH) { a.n -= a.done; a.x = 0; for (int64_t i = 0; i < a.n; i++) if (i < 16 && want[S.m.size() + (size_t)i]) a.x |= 1 << i;
                want = S.m; for (int64_t i = 0; i < a.n; i++) want.push_back((a.x >> (i & 15)) & 1); a.done = 0; }
            a.s = S.raw; a.t = T.raw;
            op_begin(c, OPS[op.code].name, g.fp);
            if (code == V_NEWBITS && a.n) { int64_t w0 = a.p / g.D, w1 = (a.p + a.n - 1) / g.D; grant(c, g.ro + w0 * g.ws, (size_t)((w1 - w0 + 1) * g.ws), false); }
            if (code == V_NEWTEXT) grant(c, a.text, (size_t)a.ntext, false);
            a.calls = 0; if (code == V_UWORDS || code == V_NEWWORDS) grant(c, g.ro + a.p * g.ws, (size_t)(a.n * g.ws), false);
            probe("reach.retry_after_failure");
            o = call(c, a); fails = c.fails_op; op_end(c);
            hash_val((uint64_t)o);
            continue;
        }
        break;
    }
    if (code > V_HUGE && a.throw_at) {
        bool should = a.calls >= a.throw_at;
        if (should) probe("fault.iterator_threw");
        if (should != (o == THREW)) { check_fail(20, "exception-lost", "the user's iterator %s but the caller got %s", should ? "threw" : "did not throw", oname(o)); if (o == OK_) S.exists = true; g.dead[cl] = true; return; }
        if (should) {
            if (g_payload != a.throw_at * 100 + a.kind || g_thk != a.thk) check_fail(20, "exception-changed", "the caller got another exception");
            if (a.calls > a.throw_at) check_fail(20, "used-again", "the iterator was used %lld times after it threw", (long long)(a.calls - a.throw_at));
            size_t b1 = live_blocks(cl);
            if (b1 != blocks0) for (int pr : {3, 20}) check_fail(pr, "leak", "failed construction left %zd blocks behind", (ssize_t)(b1 - blocks0));
            for (int k = 0; k < NS; k++) if (g.s[cl][k].exists && !compare(20, cl, k, "after the failed construction")) resync(cl, k);
            return;
        }
    }
    if (o == RANGE || o == OTHER || o == THREW) {
        if (!(want_range && o == RANGE)) {
            check_fail(1, "wrong-exception", "%s threw %s", OPS[op.code].name, oname(o));
            check_fail(2, "wrong-exception", "%s threw %s", OPS[op.code].name, oname(o));
            for (int pr : {4, 17, 19, 20}) check_fail(pr, "wrong-exception", "%s threw %s", OPS[op.code].name, oname(o));
            if (ctor) return;
        }
    } else if (want_range) check_fail(1, "no-exception", "at(%llu) of a vector of size %lld reported no error", (unsigned long long)a.size, (long long)len);
    if (hk >= 0 && o == OK_) {
        // reported success for a size that cannot be had; reserve may satisfy what fits the limit
        check_fail(2, "oversized-accepted", "%s of %llu bits succeeded", OPS[code].name, (unsigned long long)huge);
        check_fail(1, "oversized-accepted", "%s of %llu bits succeeded", OPS[code].name, (unsigned long long)huge);
        if (ctor) S.exists = true;
        check_fail(3, "oversized-accepted", "%s of %llu bits succeeded without the storage", OPS[code].name, (unsigned long long)huge);
        g.dead[cl] = true; return;
    }
    if (R.prop == 18 && o == OK_) cost(c, op.code, a, len, (int64_t)want.size(), need_t ? tlen : 0, cheap);
    if (ctor) S.exists = true;
    if (o == OK_) { S.id = id_after; if (need_t && ti != si) T.id = id_t_after; }
    if (code == V_DEBUG && o == OK_ && g_taken[cl] != text) {
        size_t d = 0; while (d < text.size() && d < g_taken[cl].size() && text[d] == g_taken[cl][d]) d++;
        check_fail(17, "wrong-text", "debug text of %zu characters differs from the expected %zu at %zu (bits %lld..%lld, word %lld bits)", g_taken[cl].size(), text.size(), d, (long long)a.p, (long long)(a.p + a.n), (long long)g.D);
    }
    int eff = R.prop == 19 ? 19 : R.prop == 20 && code > V_HUGE ? 20 : R.prop == 17 && (code == V_NEWTEXT || code == V_DEBUG) ? 17 : after_failure ? 2 : (noalloc && (op.a[a_mem] & 1)) ? 4 : 1;
    auto both = [&](const char* cls, const char* what) { check_fail(1, cls, "%s", what); if (eff != 1) check_fail(eff, cls, "%s", what); };
    if (check_ret && o == OK_ && a.ret != want_ret) {
        char m[200]; snprintf(m, sizeof m, "%s returned %lld, expected %lld (size %lld, p=%lld q=%lld n=%lld, word %lld bits)", OPS[op.code].name, (long long)a.ret, (long long)want_ret, (long long)len, (long long)a.p, (long long)a.q, (long long)(code == V_INSN ? (int64_t)a.size : a.n), (long long)g.D);
        both("wrong-return", m);
    }
    const void* old_t_data = tbefore.data; uint64_t old_t_size = tbefore.size;
    S.m.swap(want); if (t_changes) T.m.swap(want_t);
    VecView after = view(S);
    if (R.prop == 18 && o == OK_) cost_memory(op.code, a, before.capacity, after.capacity, ctor ? 0 : len, (int64_t)S.m.size());
    if (unhi > unlo) { const char* why; if (sane(after, &why) && after.size == S.m.size()) load_bits((const uint8_t*)after.data, unlo, S.m.data() + unlo, unhi - unlo); }
    if (!compare(1, cl, si, OPS[op.code].name)) { if (eff != 1) compare(eff, cl, si, OPS[op.code].name); if (!g.dead[cl]) resync(cl, si); }
    if (t_unspecified) {
        VecView v = view(T); const char* why;
        if (!sane(v, &why)) { for (int pr : {1, 3, 19}) check_fail(pr, "invalid-object", "moved-from vector: %s (size %llu, capacity %llu)", why, (unsigned long long)v.size, (unsigned long long)v.capacity); g.dead[cl] = true; return; }
        resync(cl, ti);
        if (cheap && old_t_size && after.data != old_t_data) check_fail(4, "copied", "the contents were copied instead of moved");
    } else if (need_t && ti != si) {
        if (!compare(1, cl, ti, OPS[op.code].name)) { if (eff != 1) compare(eff, cl, ti, OPS[op.code].name); if (!g.dead[cl]) resync(cl, ti); }
    }
    if (g.dead[cl]) return;
    if (code == V_RESERVE && o == OK_ && after.capacity < a.size) check_fail(1, "wrong-capacity", "capacity %llu after reserve(%llu)", (unsigned long long)after.capacity, (unsigned long long)a.size);
    if (stable && o == OK_ && before.size && after.size && after.data != before.data) check_fail(4, "storage-moved", "%s within the reported capacity of %llu bits moved the storage", OPS[op.code].name, (unsigned long long)before.capacity);
    if (stable && o == OK_ && after.capacity < before.capacity && code != V_RESIZE && code != V_RESIZEV) check_fail(4, "storage-moved", "%s within the reported capacity reduced the capacity", OPS[op.code].name);
}
static void client_end(const Plan&, int cl) {
    Client& c = C[cl];
    if (g.dead[cl]) return;
    for (int k = 0; k < NS; k++) if (g.s[cl][k].exists) { if (!compare(1, cl, k, "at the end of the history")) { if (g.dead[cl]) return; } for (size_t i = 0; i < g.s[cl][k].m.size() && i < 64; i++) hash_val(g.s[cl][k].m[i]); }
    for (int k = 0; k < NS; k++) destroy(c, cl, k);
    size_t n = live_blocks(cl);
    if (n) for (int pr : {3, 17, 19, 20}) check_fail(pr, "leak", "%zu blocks still allocated after the last vector was destroyed", n);
}
static void finish(const Plan&) {
    std::vector<uint8_t> now(g.rom.size()); load_bits(g.ro, 0, now.data(), (int64_t)now.size());
    if (now != g.rom) check_fail(R.prop, "source-changed", "a read-only source range changed");
}

// ---------------------------------------------------------------- generator
static int64_t pick_size(Rng& r, int64_t D, int64_t maxb) {
    int64_t v;
    switch (r.below(9)) {
    case 0: v = r.range(0, 3); break;
    case 1: v = r.range(0, 6) * D; break;
    case 2: v = r.range(1, 6) * D + r.range(-2, 2); break;
    case 3: v = (int64_t)r.below((uint64_t)(2 * D)); break;
    case 4: v = (int64_t)r.below((uint64_t)(8 * D)); break;
    case 5: v = (int64_t)r.below((uint64_t)(24 * D)); break;
    case 6: v = (int64_t)r.below((uint64_t)maxb + 1); break;
    case 7: v = (1LL << r.below(13)) + r.range(-2, 2); break;
    default: v = r.range(0, 12) * D + (int64_t)r.below((uint64_t)D); break;
    }
    return v < 0 ? 0 : v > maxb ? maxb : v;
}
static void gen(Plan& p, Rng& r, int prop, int tier) {
    static const int ncw[] = {5, 3, 1, 0};
    int wt = (int)r.below(4); int64_t D = 8 << wt;
    int nc = 1 + r.pick(ncw);
    int64_t maxb = r.chance(1, 3) ? 40 * D : r.chance(1, 2) ? 8 * D : 200 * D;
    if (prop == 18 && r.chance(3, 4)) { wt |= 2; D = 8 << wt; }
    bool big = prop < 17 && r.chance(1, tier ? 900 : 1500), mid = !big && r.chance(1, prop == 18 ? 4 : 80);
    if (big) { static const int bw[] = {1, 2, 4, 6}; wt = r.pick(bw); D = 8 << wt; maxb = (1 << 24) + (1 << 21); nc = 1; }
    if (mid) { maxb = 1 << (14 + r.below(5)); nc = 1 + (int)r.below(2); }
    const bool user = prop == 19 || (prop == 20 && r.chance(1, 2)) || (prop <= 3 && r.chance(1, 6));          // an allocator of the user's
    if (user && !big) p.set("al", 1 + (int64_t)r.below(2));
    p.set("clients", nc); p.set("wt", wt); p.set("maxbits", maxb);
    p.set("ro", 1 + (int64_t)r.below((uint64_t)std::min<int64_t>(60, maxb / D + 1))); p.set("pseed", (int64_t)r.below(1 << 30));
    bool faults = prop == 2 ? r.chance(7, 8) : prop == 4 || prop == 19 ? r.chance(3, 4) : r.chance(1, 3);
    if (faults && prop != 4 && !big && r.chance(1, 6)) p.set("quota", (int64_t)r.logu((uint64_t)(nc * maxb / 4 + 64)));
    int w[V_NUM]; memset(w, 0, sizeof w);
    auto some = [&](int lo, int hi, int k) { for (int i = lo; i <= hi; i++) if (r.chance(3, 5)) w[i] = k * (1 + (int)r.below(3)); };
    // size 6 mixes
    some(V_NEW, V_NEWTEXT, 1); some(V_COPY, V_DESTROY, 1); some(V_ASSIGN, V_SWAP, 1);
    some(V_PUSH, V_SHRINK, 3); some(V_ERASE1, V_CLEAR, 3); some(V_GET, V_ITER, 1); some(V_REVERSE, V_SWAPR, 1);
    w[V_CLEAR] = std::min(w[V_CLEAR], 1); w[V_DESTROY] = std::min(w[V_DESTROY], 1);
    if (prop == 2) { some(V_NEW, V_COPY, 3); some(V_PUSH, V_RESERVE, 6); if (r.chance(1, 2)) w[V_HUGE] = 8; memset(w + V_REVERSE, 0, sizeof(int) * (V_SWAPR - V_REVERSE + 1)); }
    else if (prop == 4) { some(V_MOVE, V_MOVEALLOC, 4); some(V_MASSIGN, V_SWAP, 4); some(V_ERASE1, V_SWAPR, 3); some(V_PUSH, V_RESERVE, 4); w[V_RESERVE] += 4; }
    else if (prop == 17) { some(V_PUSH, V_SHRINK, 2); w[V_NEWTEXT] = 12; w[V_DEBUG] = 14; }
    else if (prop == 19) { some(V_NEWALLOC, V_DESTROY, 2); some(V_COPY, V_SWAP, 6); some(V_PUSH, V_SHRINK, 2); memset(w + V_REVERSE, 0, sizeof(int) * (V_SWAPR - V_REVERSE + 1)); if (r.chance(1, 12)) w[V_HUGE] = 2; }
    else if (prop == 20) { some(V_PUSH, V_SHRINK, 1); some(V_COPY, V_SWAP, 1); w[V_UBOOL] = 14; w[V_UWORDS] = 12; memset(w + V_REVERSE, 0, sizeof(int) * (V_SWAPR - V_REVERSE + 1)); }
    else if (r.chance(1, 12)) w[V_HUGE] = 2;
    if (prop <= 4) some(V_UBOOL, V_UWORDS, 1);
    int fav = (int)r.below(V_HUGE); if (fav > V_NEWTEXT || r.chance(1, 4)) w[fav] += 6;
    int nops = 3 + (int)r.below(r.chance(1, 6) ? 40 : 12);
    if (big) nops = 2 + (int)r.below(3);
    if (mid) nops = 3 + (int)r.below(6);
    for (int cidx = 0; cidx < nc; cidx++) for (int k = 0; k < nops; k++) {
        Op o; o.client = cidx; o.code = r.pickw(w, V_NUM);
        if (k == 0 && !big && r.chance(2, 3)) { static const int st[] = {V_NEWN, V_NEWNV, V_NEWBITS, V_NEWWORDS, V_NEWBOOL, V_NEWTEXT}; o.code = st[r.below(6)]; }
        if (big) {
            if (k == 0) { o.code = r.chance(1, 2) ? V_NEWNV : V_RESIZEV; }
            else { static const int st[] = {V_INSN, V_INSN, V_INSR, V_INS1, V_PUSH, V_RESIZE, V_RESIZEV, V_ERASER, V_POP, V_COPY, V_SHR, V_COUNT, V_NEWBITS}; o.code = st[r.below(13)]; }
        }
        int64_t size = pick_size(r, D, maxb), pos = pick_size(r, D, maxb);
        if (mid && k == 0 && r.chance(1, 2)) size = maxb - (int64_t)r.below((uint64_t)(r.chance(1, 2) ? 100 : maxb / 2));
        o.a[a_s] = r.chance(2, 3) ? 0 : (int64_t)r.below(NS); o.a[a_t] = (int64_t)r.below(NS);
        o.a[a_p] = pos; o.a[a_q] = pick_size(r, D, maxb); o.a[a_n] = size; o.a[a_v] = r.chance(1, 2); o.a[a_x] = (int64_t)r.below(1 << 16);
        if (big) {
            o.a[a_s] = r.chance(5, 6) ? 0 : 1; o.a[a_t] = 0;
            if (k == 0) o.a[a_n] = (1 << 24) + r.range(-3 * D, (1 << 20)); else { o.a[a_n] = r.chance(1, 3) ? (int64_t)r.below(1 << 20) : pick_size(r, D, 4096); if (o.code == V_RESIZE || o.code == V_RESIZEV) o.a[a_n] = (1 << 24) + r.range(-70, 1 << 20); o.a[a_p] = r.chance(1, 2) ? (1 << 24) - (int64_t)r.below(200) : (int64_t)r.below(1 << 24); }
        }
        if (o.code == V_HUGE) {
            o.a[a_x] = (int64_t)r.below(6); o.a[a_q] = r.chance(1, 3) ? 34 : r.chance(1, 3) ? 2 + (int64_t)r.below(3) : (int64_t)r.below(35);
            o.a[a_n] = r.chance(1, 2) ? -(int64_t)r.below(300) : r.chance(1, 2) ? (int64_t)r.below(300) : -(int64_t)r.logu(1 << 20);
            if (o.a[a_q] == 34 && o.a[a_n] >= 0) o.a[a_n] = -1 - o.a[a_n];
        }
        if (o.code > V_HUGE && r.chance(3, 4)) {
            int64_t n = o.code == V_UBOOL ? o.a[a_n] % 257 : o.a[a_n] % (maxb / D + 1);
            o.a[a_v] |= 2 * (r.chance(1, 3) ? r.range(1, 6) : 1 + (int64_t)r.below((uint64_t)n * 2 + 4));
        }
        if (o.code == V_AT && r.chance(1, 2)) o.a[a_q] = 2;
        if (faults && prop == 4 && r.chance(1, 2)) o.a[a_mem] = 1;
        else if (faults && r.chance(1, 3)) {
            switch (r.below(5)) {
            case 0: o.a[a_mem] = 1; break;
            case 1: o.a[a_fail] = 1 + (int64_t)r.below(3); o.a[a_flen] = 1 + (int64_t)r.below(3); break;
            default: o.a[a_fail] = 1; o.a[a_flen] = 1; break;
            }
            if (r.chance(1, 4)) o.a[a_mem] |= 2;
        }
        p.ops.push_back(o);
    }
}
Scenario the_scenario = {"vec", OPS, (int)(sizeof OPS / sizeof *OPS), ARGN, gen, setup, step, client_end, finish};
} // namespace sim
void sim_take_text(const char* p, size_t n) { sim::Quiet q; sim::g_taken[sim::tl->id].assign(p, n); }
