// Simulator core. See core.hpp.
#include "core.hpp"
#include "thrown.hpp"
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <exception>
#include <new>
#include <stdexcept>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>

// library globals: the instrumented object's .data/.bss are merged into this
// section by the build (ld -r), so a run can start from the fresh image.
extern "C" char __start_simlib_data[] __attribute__((weak));
extern "C" char __stop_simlib_data[] __attribute__((weak));

namespace sim {

thread_local Client* tl = nullptr;
Run R;
Client C[MAXC];
ProbeCount g_probes[MAX_PROBES]; int g_nprobes = 0;
const Scenario* g_scn = nullptr;

// ------------------------------------------------------------------ reports
static void out(const char* b, size_t n) { while (n) { ssize_t k = write(1, b, n); if (k <= 0) break; b += k; n -= (size_t)k; } }

static void emit_violation(int prop, const char* cls, const char* msg) {
    char line[2048];
    int n = snprintf(line, sizeof line, "SIMVIOL\t%llu\tC%02d\t%s\t%016llx\t[client %d op %d %s event %llu] %s\n",
        (unsigned long long)R.index, prop, cls, (unsigned long long)R.hash,
        tl ? tl->id : -1, tl ? tl->op_index : -1, tl ? tl->opname : "-",
        (unsigned long long)R.events, msg);
    if (n > (int)sizeof line) n = sizeof line;
    out(line, (size_t)n);
    _exit(10);
}
void violation(int prop, const char* cls, const char* fmt, ...) {
    if (tl) tl->in_op = false;
    char msg[1024]; va_list ap; va_start(ap, fmt); vsnprintf(msg, sizeof msg, fmt, ap); va_end(ap);
    emit_violation(prop, cls, msg);
    abort();
}
void check_fail(int prop, const char* cls, const char* fmt, ...) {
    if (prop != R.prop) return;
    if (tl) tl->in_op = false;
    char msg[1024]; va_list ap; va_start(ap, fmt); vsnprintf(msg, sizeof msg, fmt, ap); va_end(ap);
    emit_violation(prop, cls, msg);
}
void harness_error(const char* fmt, ...) {
    if (tl) tl->in_op = false;
    char msg[1024]; va_list ap; va_start(ap, fmt); vsnprintf(msg, sizeof msg, fmt, ap); va_end(ap);
    char line[1200]; int n = snprintf(line, sizeof line, "SIMERROR\t%llu\t%s\n", (unsigned long long)R.index, msg);
    out(line, (size_t)n);
    _exit(30);
}
void probe(const char* name, uint64_t n) {
    for (int i = 0; i < g_nprobes; i++) if (g_probes[i].name == name) { g_probes[i].n += n; return; }
    if (g_nprobes < MAX_PROBES) g_probes[g_nprobes++] = ProbeCount{name, n};
}

static inline void hmix(uint64_t v) { R.hash = (R.hash ^ v) * 0x9e3779b97f4a7c15ULL; R.hash ^= R.hash >> 29; }
void hash_val(uint64_t v) { hmix(v ^ 0xabcdef); }

Quiet::Quiet() : old(tl ? tl->in_op : false) { if (tl) tl->in_op = false; }
Quiet::~Quiet() { if (tl) tl->in_op = old; }

// ---------------------------------------------------------------- scheduler
uint64_t g_event_cap = 40u * 1000 * 1000; int g_tick_cap = 5; bool g_big = false;
static sem_t g_main_sem, g_sem[MAXC];
bool g_setup_alloc = false; size_t g_setup_mis = 0;
bool g_fresh_threads = false;       // the library has thread-local state: new threads for every run

static void semwait(sem_t* s) { while (sem_wait(s) != 0 && errno == EINTR) {} }

static bool runnable(const Client& c) {
    return c.started && !c.done && !c.blocked && c.stalled_until <= R.events;
}
// chooses who runs next when `self` gives up the processor; self may be chosen
// only if nobody else can run.
static Client* choose(Client* self, int tgt) {
    for (int round = 0; round < 2; round++) {
        Client* cand[MAXC]; int n = 0;
        for (int i = 0; i < R.nclients; i++)
            if (&C[i] != self && runnable(C[i])) cand[n++] = &C[i];
        if (n) return cand[(unsigned)tgt % (unsigned)n];
        if (self && runnable(*self)) return self;
        // only stalled clients are left: the stall that ends first ends now
        Client* best = nullptr;
        for (int i = 0; i < R.nclients; i++)
            if (!C[i].done && !C[i].blocked && C[i].started && (!best || C[i].stalled_until < best->stalled_until)) best = &C[i];
        if (!best) return nullptr;
        best->stalled_until = 0;
        if (best == self) return self;
    }
    return nullptr;
}
static void transfer(Client* self, Client* to) {
    if (to == self) return;
    R.switches++;
    if (self->in_op && self->ev_op > 1) R.midop_switches++;
    R.sched_hash = mix64(R.sched_hash ^ ((uint64_t)self->id << 60) ^ ((uint64_t)to->id << 56) ^ ((uint64_t)(self->op_index + 1) << 40) ^ self->ev_op);
    sem_post(&g_sem[to->id]);
    semwait(&g_sem[self->id]);
}
static void next_gap() {
    const auto& sw = R.plan->sw;
    R.gap = R.sw_i < sw.size() ? (sw[R.sw_i].gap < 1 ? 1 : sw[R.sw_i].gap) : -1;
}
static void preempt(Client* c) {
    int tgt = R.plan->sw[R.sw_i].tgt; R.sw_i++; next_gap();
    Client* to = choose(c, tgt);
    if (to && to != c) { bool o = c->in_op; transfer(c, to); c->in_op = o; }
}
static void arm_stall(Client* c) {
    c->next_stall = -1;
    const auto& st = R.plan->stalls;
    for (; c->stall_i < st.size(); c->stall_i++)
        if (st[c->stall_i].client == c->id) { c->next_stall = st[c->stall_i].at < 1 ? 1 : st[c->stall_i].at; break; }
}
// every observable step of a client passes here before it takes effect
static inline void event(Client* c, uint64_t what) {
    R.events++; c->events++; c->ev_op++;
    hmix(what ^ ((uint64_t)(c->id + 1) << 58));
    if (__builtin_expect(c->ev_op > g_event_cap, 0))
        violation(R.prop, "no-progress", "operation did not finish within %llu steps", (unsigned long long)g_event_cap);
    if (c->next_stall > 0 && --c->next_stall == 0) {
        const Stall& s = R.plan->stalls[c->stall_i]; c->stall_i++; arm_stall(c);
        c->stalled_until = R.events + (uint64_t)(s.dur < 1 ? 1 : s.dur);
        R.stalls_fired++;
        Client* to = choose(c, 0);
        if (to && to != c) { bool o = c->in_op; transfer(c, to); c->in_op = o; }
        c->stalled_until = 0;
    }
    if (R.gap > 0 && --R.gap == 0) preempt(c);
}
void sched_point(Client& c) { event(&c, 0x5eed); }
void block_until(Client& c, bool (*pred)(void*), void* arg) {
    while (!pred(arg)) {
        c.blocked = true;
        Client* to = choose(&c, 0);
        if (!to) violation(R.prop, "deadlock", "no client can make progress");
        bool o = c.in_op; transfer(&c, to); c.in_op = o;
    }
    c.blocked = false;
}
void notify_all() { for (int i = 0; i < R.nclients; i++) C[i].blocked = false; }

// ------------------------------------------------------------ bits and bytes
static const uint64_t* spread() {
    static uint64_t t[256]; static bool init = false;
    if (!init) { for (int i = 0; i < 256; i++) { t[i] = 0; for (int b = 0; b < 8; b++) if (i >> b & 1) t[i] |= 1ULL << (8 * b); } init = true; }
    return t;
}
int64_t diff_bits(const uint8_t* mem, int64_t b0, const uint8_t* model, int64_t n) {
    const uint64_t* t = spread(); int64_t i = 0;
    for (; i < n && ((b0 + i) & 7); i++) if (((mem[(b0 + i) >> 3] >> ((b0 + i) & 7)) & 1) != model[i]) return i;
    for (; i + 8 <= n; i += 8) { uint64_t m; memcpy(&m, model + i, 8); if (t[mem[(b0 + i) >> 3]] != m) break; }
    for (; i < n; i++) if (((mem[(b0 + i) >> 3] >> ((b0 + i) & 7)) & 1) != model[i]) return i;
    return -1;
}
void load_bits(const uint8_t* mem, int64_t b0, uint8_t* model, int64_t n) {
    const uint64_t* t = spread(); int64_t i = 0;
    for (; i < n && ((b0 + i) & 7); i++) model[i] = (mem[(b0 + i) >> 3] >> ((b0 + i) & 7)) & 1;
    for (; i + 8 <= n; i += 8) memcpy(model + i, &t[mem[(b0 + i) >> 3]], 8);
    for (; i < n; i++) model[i] = (mem[(b0 + i) >> 3] >> ((b0 + i) & 7)) & 1;
}

// ------------------------------------------------------------------- shadow
enum : uint8_t { ST_NONE = 0, ST_UNINIT = 1, ST_INIT = 2, ST_FREED = 3, ST_MASK = 3, F_ARRAY = 4 };
static uint8_t* const shadow = (uint8_t*)SHADOW;
static uintptr_t g_bump = ARENA;
static std::unordered_map<uintptr_t, Blk> g_blocks;
static std::unordered_map<size_t, std::vector<uintptr_t>> g_free;
static uint64_t g_live_bytes = 0, g_alloc_count = 0;

static void bad_access(Client* c, uintptr_t a, size_t n, bool w, uint8_t sh) {
    const char* st = (sh & ST_MASK) == ST_NONE ? "memory outside every block" : (sh & ST_MASK) == ST_FREED ? "released memory" : "memory of another owner";
    check_fail(c->op_prop, w ? "stray-write" : "stray-read", "%s of %zu bytes at arena+0x%zx: %s", w ? "write" : "read", n, (size_t)(a - ARENA), st);
}
static void arena_check(Client* c, uintptr_t a, size_t n, bool w, bool block) {
    c->acc_op++;
    if (block) ;
    else if (w) { if (n > c->max_width_w) c->max_width_w = n; } else if (n > c->max_width_r) c->max_width_r = n;
    uint8_t* s = shadow + (a - ARENA);
    uint8_t own = (uint8_t)(c->id << 4);
    for (size_t i = 0; i < n; i++) {
        uint8_t sh = s[i];
        if (sh & F_ARRAY) {
            uintptr_t b = a + i; bool ok = false;
            for (int k = 0; k < c->nperm; k++)
                if (b >= c->perm[k].lo && b < c->perm[k].hi && (!w || c->perm[k].w)) {
                    ok = true;
                    // skip to the end of the permitted interval
                    size_t skip = c->perm[k].hi - b; if (skip > n - i) skip = n - i;
                    i += skip - 1; break;
                }
            if (!ok) {
                check_fail(c->op_prop, w ? "stray-write" : "stray-read",
                    "%s of %zu bytes at arena+0x%zx touches a storage word that holds none of the operation's %sbits",
                    w ? "write" : "read", n, (size_t)(a - ARENA), w ? "destination " : "");
                return;
            }
            continue;
        }
        if ((sh & ST_MASK) == ST_NONE || (sh & ST_MASK) == ST_FREED || (sh & 0xf0) != own) { bad_access(c, a + i, n, w, sh); return; }
        if (w) s[i] = (uint8_t)((sh & ~ST_MASK) | ST_INIT);
        else if ((sh & ST_MASK) == ST_UNINIT) {
            check_fail(c->op_prop, "uninit-read", "read of %zu bytes at arena+0x%zx: storage never initialised", n, (size_t)(a - ARENA));
            return;
        }
    }
}
void grant(Client& c, const void* lo, size_t n, bool w) {
    if (!n) return;
    if (c.nperm >= 8) harness_error("too many permissions");
    c.perm[c.nperm++] = Perm{(uintptr_t)lo, (uintptr_t)lo + n, w};
}

// ------------------------------------------------- races on library globals
struct SyncObj { uint32_t vc[MAXC]; };
static std::unordered_map<uintptr_t, SyncObj> g_sync;
struct GByte { uint64_t stamp; uint32_t wep; uint32_t rep[MAXC]; int8_t wcl; bool atomic; };
static GByte* g_gb = nullptr; static uintptr_t g_glo = 0; static size_t g_gsz = 0;
static std::vector<char> g_img;
static uint64_t g_stamp = 0;

static void acquire(Client* c, uintptr_t a) {
    bool o = c->in_op; c->in_op = false;
    auto it = g_sync.find(a);
    if (it != g_sync.end()) for (int i = 0; i < MAXC; i++) c->vc[i] = std::max(c->vc[i], it->second.vc[i]);
    c->in_op = o;
}
static void release(Client* c, uintptr_t a) {
    bool o = c->in_op; c->in_op = false;
    SyncObj& s = g_sync[a];
    for (int i = 0; i < MAXC; i++) s.vc[i] = std::max(s.vc[i], c->vc[i]);
    c->vc[c->id]++;
    c->in_op = o;
}
static void global_access(Client* c, uintptr_t a, size_t n, bool w, bool atomic) {
    size_t off = a - g_glo;
    for (size_t i = 0; i < n && off + i < g_gsz; i++) {
        GByte& g = g_gb[off + i];
        if (g.stamp != g_stamp) { memset(&g, 0, sizeof g); g.stamp = g_stamp; g.wcl = -1; }
        bool race = false;
        if (g.wcl >= 0 && g.wcl != c->id && g.wep > c->vc[g.wcl] && !(atomic && g.atomic)) race = true;
        if (w) for (int k = 0; k < R.nclients; k++)
            if (k != c->id && g.rep[k] > c->vc[k] && !atomic) race = true;
        if (race)
            check_fail(c->op_prop, "data-race", "unsynchronised %s of %zu bytes of shared static state (library data+0x%zx) conflicting with another client", w ? "write" : "read", n, off + i);
        if (w) { g.wcl = (int8_t)c->id; g.wep = c->vc[c->id]; g.atomic = atomic; }
        else g.rep[c->id] = c->vc[c->id];
    }
}

// long blocks
static struct { uintptr_t lo, hi; int owner; } g_bb[16]; static int g_nbb = 0; static uintptr_t g_big_bump = BIG + BIG_SZ / 2;
uint8_t* big_array() { return (uint8_t*)BIG; }
static uintptr_t big_carve(size_t n, int owner) {
    if (g_nbb >= 16 || g_big_bump + n + (2u << 20) > BIG + BIG_SZ) return 0;
    uintptr_t b = g_big_bump + 16; g_big_bump = (b + n + 8191) & ~(uintptr_t)4095;
    g_bb[g_nbb].lo = b; g_bb[g_nbb].hi = b + n; g_bb[g_nbb++].owner = owner;
    if (R.dirty) memset((void*)b, R.dirty == 1 ? 0xff : 0xa5, n);
    return b;
}
static void big_release(uintptr_t b, size_t n) {
    for (int i = 0; i < g_nbb; i++) if (g_bb[i].lo == b) { g_bb[i] = g_bb[--g_nbb]; break; }
    uintptr_t lo = (b + 4095) & ~(uintptr_t)4095, hi = (b + n) & ~(uintptr_t)4095;
    if (lo < hi) madvise((void*)lo, hi - lo, MADV_DONTNEED);
}
static void big_reset() {
    for (int i = 0; i < g_nbb; i++) madvise((void*)(g_bb[i].lo & ~(uintptr_t)4095), g_bb[i].hi - (g_bb[i].lo & ~(uintptr_t)4095), MADV_DONTNEED);
    g_nbb = 0; g_big_bump = BIG + BIG_SZ / 2;
}
static void big_access(Client* c, uintptr_t a, size_t n, bool w, bool block) {
    c->acc_op++;
    if (block) ; else if (w) { if (n > c->max_width_w) c->max_width_w = n; } else if (n > c->max_width_r) c->max_width_r = n;
    for (int k = 0; k < c->nperm; k++) if (a >= c->perm[k].lo && a + n <= c->perm[k].hi && (!w || c->perm[k].w)) return;
    for (int k = 0; k < g_nbb; k++) if (a >= g_bb[k].lo && a + n <= g_bb[k].hi && g_bb[k].owner == c->id) return;
    for (size_t i = 0; i < n; i++) { // an access that spans two permitted intervals
        bool ok = false; uintptr_t b = a + i;
        for (int k = 0; k < c->nperm; k++) if (b >= c->perm[k].lo && b < c->perm[k].hi && (!w || c->perm[k].w)) { size_t skip = c->perm[k].hi - b; if (skip > n - i) skip = n - i; i += skip - 1; ok = true; break; }
        if (!ok) { check_fail(c->op_prop, w ? "stray-write" : "stray-read", "%s of %zu bytes at long memory+0x%zx touches a storage word that holds none of the operation's %sbits", w ? "write" : "read", n, (size_t)(a - BIG), w ? "destination " : ""); return; }
    }
}

static inline void acc(const void* p, size_t n, bool w, bool atomic = false, bool block = false) {
    Client* c = tl;
    if (!c || !c->in_op) return;
    uintptr_t a = (uintptr_t)p;
    if (a - ARENA < ARENA_SZ) {
        event(c, ((a - ARENA) << 8) ^ (n << 1) ^ (uint64_t)w);
        arena_check(c, a, n, w, block);
    } else if (a - g_glo < g_gsz) {
        event(c, ((a - g_glo) << 8) ^ (n << 1) ^ (uint64_t)w ^ (1ULL << 50));
        c->acc_op++;
        global_access(c, a, n, w, atomic);
    } else if (a - BIG < BIG_SZ) {
        event(c, ((a - BIG) << 8) ^ (n << 1) ^ (uint64_t)w);
        big_access(c, a, n, w, block);
    }
}

// ---------------------------------------------------------------- allocator
static void fill_dirty(uintptr_t a, size_t n) {
    uint8_t* p = (uint8_t*)a;
    switch (R.dirty) {
    case 0: memset(p, 0, n); break;
    case 1: memset(p, 0xff, n); break;
    default: {
        uint64_t x = R.dseed ^ (a * 0x9e3779b97f4a7c15ULL);
        for (size_t i = 0; i < n; i++) { if (!(i & 7)) x = mix64(x); p[i] = (uint8_t)(x >> (8 * (i & 7))); }
    } }
}
static void set_shadow(uintptr_t a, size_t n, uint8_t v) { memset(shadow + (a - ARENA), v, n); }

static uintptr_t carve(size_t n, size_t misalign) {
    uintptr_t b = (g_bump + 64 + 63) & ~(uintptr_t)63;
    b += misalign;
    if (b + n + 128 > ARENA + ARENA_SZ) return 0;
    g_bump = b + n;
    return b;
}
uint8_t* alloc_array(size_t bytes, size_t misalign) {
    uintptr_t b = carve(bytes, misalign);
    if (!b) harness_error("arena exhausted");
    g_blocks[b] = Blk{bytes, -1, true, true, -1};
    set_shadow(b, bytes, ST_INIT | F_ARRAY);
    return (uint8_t*)b;
}
static void* sim_alloc(Client* c, size_t n, size_t al, int tag = -1) {
    c->allocs_op++; c->alloc_attempts_total++;
    event(c, (n << 8) ^ (2ULL << 50));
    bool o = c->in_op; c->in_op = false;
    if (c->forbid_alloc)
        check_fail(4, "allocation", "operation that needs no memory requested %zu bytes", n);
    const bool big = g_big && n >= BIG_BLOCK; const size_t limit = g_big ? BIG_MAX : MAX_ALLOC;
    bool fail = c->exhausted || n > limit;
    if (n > limit) probe("fault.oversize_request");
    else if (c->exhausted) probe("fault.memory_exhausted");
    if (!fail && c->fail_at > 0 && (int64_t)c->allocs_op >= c->fail_at && (int64_t)c->allocs_op < c->fail_at + c->fail_len) { fail = true; probe("fault.alloc_failed"); }
    if (!fail && R.quota >= 0 && g_live_bytes + n > (uint64_t)R.quota) { fail = true; probe("fault.memory_limit"); }
    uintptr_t b = 0;
    if (!fail && big) {
        b = big_carve(n, c->id);
        if (!b) fail = true;
        else { g_blocks[b] = Blk{n, c->id, true, false, tag}; g_live_bytes += n; }
    } else if (!fail) {
        size_t key = (n + 15) & ~(size_t)15; if (!key) key = 16;
        uint64_t r = mix64(R.dseed ^ ++g_alloc_count);
        auto it = g_free.find(key);
        bool reused = false;
        if (it != g_free.end() && !it->second.empty() && (r & 3) != 0 && al <= 16) {
            b = it->second.back(); it->second.pop_back(); reused = true; probe("alloc.reused_block");
        } else b = carve(key, al > 16 ? 0 : 16 * ((r >> 8) & 3));
        if (!b) fail = true;
        else {
            if (!(reused && R.dirty == 3)) fill_dirty(b, key);
            g_blocks[b] = Blk{n, c->id, true, false, tag};
            set_shadow(b, key, ST_NONE);
            set_shadow(b, n, (uint8_t)(ST_UNINIT | (c->id << 4)));
            g_live_bytes += n;
        }
    }
    if (fail) { c->fails_op++; hmix(0xfa11); c->in_op = o; return nullptr; }
    c->in_op = o;
    return (void*)b;
}
static void sim_free(void* p, size_t n, bool sized, int tag = -1) {
    Client* c = tl;
    bool o = c ? c->in_op : false;
    if (c && c->in_op) { event(c, (((uintptr_t)p - ARENA) << 8) ^ (3ULL << 50)); c->frees_op++; c->in_op = false; }
    int prop = R.prop == 19 ? 19 : 3;
    auto it = g_blocks.find((uintptr_t)p);
    if (it == g_blocks.end() || it->second.array) check_fail(prop, "bad-free", "release of an address that is not the start of a block");
    else if (!it->second.live) check_fail(prop, "double-free", "block of %zu bytes released twice", it->second.size);
    else {
        Blk& b = it->second;
        if (tag != b.tag) for (int pr : {3, 19}) check_fail(pr, "wrong-allocator", "block of %zu bytes from allocator %d released to allocator %d", b.size, b.tag, tag);
        if (sized && n != b.size) check_fail(prop, "size-mismatch", "block of %zu bytes released as %zu bytes", b.size, n);
        b.live = false; g_live_bytes -= b.size;
        if ((uintptr_t)p - BIG < BIG_SZ) { big_release((uintptr_t)p, b.size); if (c) c->in_op = o; return; }
        size_t key = (b.size + 15) & ~(size_t)15; if (!key) key = 16;
        set_shadow((uintptr_t)p, b.size, ST_FREED);
        g_free[key].push_back((uintptr_t)p);
    }
    if (c) c->in_op = o;
}
size_t live_blocks(int owner) {
    size_t n = 0;
    for (auto& b : g_blocks) if (b.second.live && !b.second.array && (owner < 0 || b.second.owner == owner)) n++;
    return n;
}
size_t live_bytes() { return g_live_bytes; }
bool is_live_block(const void* p, size_t* size, int* tag) {
    auto it = g_blocks.find((uintptr_t)p);
    if (it == g_blocks.end() || !it->second.live) return false;
    if (size) *size = it->second.size;
    if (tag) *tag = it->second.tag;
    return true;
}

// -------------------------------------------------------------------- runs
void op_begin(Client& c, const char* name, int prop) {
    c.opname = name; c.op_prop = prop; c.nperm = 0; c.ev_op = 0; c.allocs_op = 0; c.fails_op = 0; c.frees_op = 0;
    c.max_width_r = c.max_width_w = 0; c.acc_op = 0;
    event(&c, (4ULL << 50));          // a client may be preempted between operations
    c.ev_op = 0;
}
void op_end(Client& c) {
    c.in_op = false; c.fail_at = 0; c.fail_len = 0; c.exhausted = false; c.forbid_alloc = false;
}

static void client_body(Client* c) {
    const Plan& p = *R.plan;
    for (size_t i = 0; i < p.ops.size(); i++)
        if (p.ops[i].client % R.nclients == c->id) { c->op_index = (int)i; g_scn->step(p, c->id, p.ops[i]); c->in_op = false; }
    c->op_index = -1; c->opname = "end";
    g_scn->client_end(p, c->id);
    c->in_op = false;
}
static void* client_main(void* v) {
    // one thread per client for the whole process; it sleeps between runs
    Client* c = (Client*)v; const int id = c->id;
    stack_t ss{}; ss.ss_sp = malloc(64 << 10); ss.ss_size = 64 << 10; sigaltstack(&ss, nullptr);
    for (;;) {
        semwait(&g_sem[id]);
        tl = c;
        client_body(c);
        c->done = true;
        tl = nullptr;
        Client* to = choose(c, 0);
        if (!to) {
            for (int i = 0; i < R.nclients; i++) if (!C[i].done) { tl = c; violation(R.prop, "deadlock", "client %d can never continue", i); }
            sem_post(&g_main_sem);
        } else { R.sched_hash = mix64(R.sched_hash ^ 0xe4d ^ (uint64_t)to->id); sem_post(&g_sem[to->id]); }
        if (g_fresh_threads) { ss.ss_flags = SS_DISABLE; void* m = ss.ss_sp; sigaltstack(&ss, nullptr); free(m); return nullptr; }
    }
}

volatile uint64_t g_run_counter = 0;
static size_t g_arena_high = 0;
static pthread_t g_thread[MAXC];

void run_plan(const Plan& p, int prop, uint64_t index) {
    g_run_counter = g_run_counter + 1;
    // fresh image of library state
    if (g_gsz) memcpy((void*)g_glo, g_img.data(), g_gsz);
    g_stamp++; g_sync.clear();
    // fresh memory
    size_t used = g_bump - ARENA + 4096;
    if (used > g_arena_high) g_arena_high = used;
    if (used > (8u << 20)) { madvise((void*)ARENA, used, MADV_DONTNEED); madvise((void*)SHADOW, used, MADV_DONTNEED); }
    else memset(shadow, 0, used);
    big_reset(); g_bump = ARENA + 4096; g_blocks.clear(); g_free.clear(); g_live_bytes = 0; g_alloc_count = 0;
    Run r; r.plan = &p; r.prop = prop; r.index = index; r.replay = R.replay;
    int nc = (int)p.get("clients", 1); if (nc < 1) nc = 1; if (nc > MAXC) nc = MAXC;
    r.nclients = nc;
    r.dirty = (int)p.get("dirty", 2); r.dseed = (uint64_t)p.get("dseed", 1);
    r.quota = p.get("quota", -1); r.feat = (int)p.get("feat", -1);
    r.hash = 0x1234567; r.sched_hash = 0x777;
    R = r;
    for (int i = 0; i < MAXC; i++) {
        bool th = C[i].has_thread; C[i] = Client(); C[i].has_thread = th;
        C[i].id = i;
        for (int k = 0; k < MAXC; k++) C[i].vc[k] = (k == i) ? 1 : 0;
        if (i < nc) { C[i].started = true; arm_stall(&C[i]); }
    }
    next_gap();
    g_scn->setup(p);
    static pthread_attr_t attr; static bool attr_init = false;
    if (!attr_init) { pthread_attr_init(&attr); pthread_attr_setstacksize(&attr, 1 << 20); attr_init = true; }
    for (int i = 0; i < nc; i++)
        if (!C[i].has_thread) { if (pthread_create(&g_thread[i], &attr, client_main, &C[i])) harness_error("pthread_create failed"); C[i].has_thread = true; }
    int first = (int)p.get("first", 0) % nc;
    sem_post(&g_sem[first]);
    semwait(&g_main_sem);
    if (g_fresh_threads) for (int i = 0; i < nc; i++) { pthread_join(g_thread[i], nullptr); C[i].has_thread = false; }
    tl = nullptr;
    g_scn->finish(p);
    for (int i = 0; i < nc; i++) hmix(C[i].events);
}

// ----------------------------------------------------------- process set-up
static void on_crash(int sig, siginfo_t* si, void*) {
    if (tl) tl->in_op = false;
    char m[128]; snprintf(m, sizeof m, "signal %d%s", sig, sig == SIGSEGV && (uintptr_t)si->si_addr < 4096 ? " (null address)" : "");
    const char* cls = sig == SIGABRT ? "crash-abort" : sig == SIGFPE ? "crash-fpe" : sig == SIGILL ? "crash-ill" : "crash-segv";
    if (!tl || !R.plan) { char l[200]; int n = snprintf(l, sizeof l, "SIMERROR\t%llu\tcrash outside the library: %s\n", (unsigned long long)R.index, m); out(l, (size_t)n); _exit(30); }
    emit_violation(R.prop, cls, m);
}
static void on_terminate() {
    if (tl) tl->in_op = false;
    const char* what = "std::terminate: no active exception";
    static char buf[256];
    if (auto e = std::current_exception()) {
        try { std::rethrow_exception(e); }
        catch (std::exception& x) { snprintf(buf, sizeof buf, "std::terminate: uncaught %s", x.what()); what = buf; }
        catch (...) { what = "std::terminate: uncaught exception"; }
    }
    emit_violation(R.prop, "terminate", what);
    _exit(10);
}
static void on_tick(int) {
    static uint64_t last = 0; static int same = 0;
    if (g_run_counter != last) { last = g_run_counter; same = 0; return; }
    if (++same >= g_tick_cap) {
        char line[300];
        int n = snprintf(line, sizeof line, "SIMVIOL\t%llu\tC%02d\tno-progress\t%016llx\t[-] no progress in %d s of processor time\n",
            (unsigned long long)R.index, R.prop, 0ULL, 5 * g_tick_cap);
        out(line, (size_t)n); _exit(10);
    }
}
void process_init() {
    void* a = mmap((void*)ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    void* s = mmap((void*)SHADOW, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    sem_init(&g_main_sem, 0, 0); for (auto& x : g_sem) sem_init(&x, 0, 0);
    if (a != (void*)ARENA || s != (void*)SHADOW) harness_error("cannot map the arena");
    if (g_big && mmap((void*)BIG, BIG_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != (void*)BIG) harness_error("cannot map long memory");
    if (__start_simlib_data) {
        g_glo = (uintptr_t)__start_simlib_data; g_gsz = (size_t)(__stop_simlib_data - __start_simlib_data);
        g_img.assign((char*)g_glo, (char*)g_glo + g_gsz);
        g_gb = (GByte*)calloc(g_gsz + 1, sizeof(GByte));
    }
    static char alt[64 << 10]; stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
    struct sigaction sa{}; sa.sa_sigaction = on_crash; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for (int sg : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(sg, &sa, nullptr);
    struct sigaction st{}; st.sa_handler = on_tick; st.sa_flags = SA_RESTART | SA_ONSTACK; sigaction(SIGPROF, &st, nullptr);
    itimerval it{}; it.it_interval.tv_sec = 5; it.it_value.tv_sec = 5; setitimer(ITIMER_PROF, &it, nullptr);
    std::set_terminate(on_terminate);
}
size_t library_data_bytes() { return g_gsz; }

// ------------------------------------------------------------- cpu features
static void real_cpuid(int leaf, int sub, int* abcd) {
    unsigned a = (unsigned)leaf, b = 0, c = (unsigned)sub, d = 0;
    __asm__ volatile("cpuid" : "+a"(a), "=b"(b), "+c"(c), "=d"(d));
    abcd[0] = (int)a; abcd[1] = (int)b; abcd[2] = (int)c; abcd[3] = (int)d;
}
static int real_xcr0() { unsigned a, d; __asm__ volatile("xgetbv" : "=a"(a), "=d"(d) : "c"(0)); return (int)a; }
int host_features() {
    static int cached = -1;
    if (cached >= 0) return cached;
    int f = 0, r[4]; real_cpuid(1, 0, r);
    if (r[2] & (1 << 23)) f |= FEAT_POPCNT;
    if (r[2] & (1 << 27)) {
        f |= FEAT_OSXSAVE | ((real_xcr0() & 0xe6) << FEAT_XCR0);
    }
    real_cpuid(7, 0, r);
    if (r[1] & (1 << 5)) f |= FEAT_AVX2;
    if (r[1] & (1 << 16)) f |= FEAT_AVX512F;
    if (r[1] & (1 << 30)) f |= FEAT_AVX512BW;
    return cached = f;
}
bool thrown(int& kind, int64_t& payload) {
    try { throw; }
    catch (ThrowPlain& t) { kind = 0; payload = t.payload; }
    catch (ThrowStd& t) { kind = 1; payload = t.payload; }
    catch (ThrowRun& t) { kind = 2; payload = t.payload; }
    catch (ThrowMem& t) { kind = 3; payload = t.payload; }
    catch (ThrowLen& t) { kind = 4; payload = t.payload; }
    catch (int64_t t) { kind = 5; payload = t; }
    catch (...) { return false; }
    return true;
}
} // namespace sim

using namespace sim;

void sim_throw(int kind, int64_t payload) {
    Quiet q;                            // the exception's own memory is not the library's
    switch (kind) {
    case 1: throw ThrowStd(payload);
    case 2: throw ThrowRun(payload);
    case 3: throw ThrowMem(payload);
    case 4: throw ThrowLen(payload);
    case 5: throw payload;
    default: throw ThrowPlain{payload};
    }
}

// seams of libpopcnt.h (guard BITLIB_SIM)
extern "C" void bitlib_sim_cpuid(int leaf, int sub, int* abcd) {
    Client* c = tl;
    if (c && c->in_op) { event(c, (5ULL << 50) ^ (uint64_t)leaf); }
    real_cpuid(leaf, sub, abcd);
    if (R.feat < 0 || !R.plan) return;
    if (leaf == 1) {
        if (!(R.feat & FEAT_POPCNT)) abcd[2] &= ~(1 << 23);
        if (!(R.feat & FEAT_OSXSAVE)) abcd[2] &= ~(1 << 27);
    }
    if (leaf == 7) {
        if (!(R.feat & FEAT_AVX2)) abcd[1] &= ~(1 << 5);
        if (!(R.feat & FEAT_AVX512F)) abcd[1] &= ~(1 << 16);
        if (!(R.feat & FEAT_AVX512BW)) abcd[1] &= ~(1 << 30);
    }
}
extern "C" void bitlib_sim_popcnt_used(void) {
    if (R.plan && R.prop == 13 && R.feat >= 0 && !(R.feat & FEAT_POPCNT) && tl && tl->in_op)
        violation(13, "unsupported-isa", "popcnt instruction used although the CPU does not report it");
}
extern "C" int bitlib_sim_xcr0(void) {
    Client* c = tl;
    if (c && c->in_op) event(c, (6ULL << 50));
    if (R.plan && R.feat >= 0 && !(R.feat & FEAT_OSXSAVE))
        violation(R.prop, "xgetbv-unavailable", "xgetbv executed although the operating system does not enable it");
    int x = real_xcr0();
    if (R.feat < 0 || !R.plan) return x;
    return x & ((R.feat >> FEAT_XCR0) | 1);
}

// ------------------------------------------------- global allocation operators
static void* gnew(size_t n, size_t al, bool nothrow) {
    Client* c = tl;
    if (!c && g_setup_alloc) { g_setup_alloc = false; void* p = alloc_array(n ? n : 1, g_setup_mis); g_setup_alloc = true; return p; }
    if (c && c->in_op) {
        void* p = sim_alloc(c, n, al);
        if (!p && !nothrow) { throw std::bad_alloc(); }
        return p;
    }
    void* p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
    if (!p && !nothrow) throw std::bad_alloc();
    return p;
}
static void gdel(void* p, size_t n, bool sized) {
    if (!p) return;
    if (!tl && g_setup_alloc && (uintptr_t)p - ARENA < ARENA_SZ) return;
    if ((uintptr_t)p - ARENA < ARENA_SZ || (uintptr_t)p - BIG < BIG_SZ) sim_free(p, n, sized); else free(p);
}
void* operator new(size_t n) { return gnew(n, 16, false); }
void* operator new[](size_t n) { return gnew(n, 16, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return gnew(n, 16, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return gnew(n, 16, true); }
void* operator new(size_t n, std::align_val_t a) { return gnew(n, (size_t)a, false); }
void* operator new[](size_t n, std::align_val_t a) { return gnew(n, (size_t)a, false); }
void operator delete(void* p) noexcept { gdel(p, 0, false); }
void operator delete[](void* p) noexcept { gdel(p, 0, false); }
void operator delete(void* p, size_t n) noexcept { gdel(p, n, true); }
void operator delete[](void* p, size_t n) noexcept { gdel(p, n, true); }
void operator delete(void* p, const std::nothrow_t&) noexcept { gdel(p, 0, false); }
void operator delete(void* p, std::align_val_t) noexcept { gdel(p, 0, false); }
void operator delete[](void* p, std::align_val_t) noexcept { gdel(p, 0, false); }
void operator delete(void* p, size_t n, std::align_val_t) noexcept { gdel(p, n, true); }
void operator delete[](void* p, size_t n, std::align_val_t) noexcept { gdel(p, n, true); }

// allocators of the user's (identity: id)
extern "C" void* sim_user_alloc(int id, size_t n) {
    Client* c = tl;
    if (!c || !c->in_op) harness_error("allocator used outside an operation");
    void* p = sim_alloc(c, n, 16, id);
    if (!p) throw std::bad_alloc();
    probe("alloc.user_allocator");
    return p;
}
extern "C" void sim_user_free(int id, void* p, size_t n) noexcept { sim_free(p, n, true, id); }

// C-level allocation from the instrumented object (objcopy renames the calls)
extern "C" void* sim_malloc(size_t n) { return gnew(n, 16, true); }
extern "C" void* sim_calloc(size_t a, size_t b) { size_t n = a * b; void* p = gnew(n, 16, true); if (p) { memset(p, 0, n); if ((uintptr_t)p - ARENA < ARENA_SZ) for (size_t i = 0; i < n; i++) shadow[(uintptr_t)p - ARENA + i] = (uint8_t)((shadow[(uintptr_t)p - ARENA + i] & ~ST_MASK) | ST_INIT); } return p; }
extern "C" void sim_cfree(void* p) { gdel(p, 0, false); }

// ----------------------------------- memory functions of the instrumented object
extern "C" void* sim_memmove(void* d, const void* s, size_t n) { if (n) { acc(s, n, false, false, true); acc(d, n, true, false, true); } return memmove(d, s, n); }
// copying overlapping memory with memcpy is undefined: the simulated one copies in the order that destroys the source
extern "C" void* sim_memcpy(void* d, const void* s, size_t n) {
    if (n) { acc(s, n, false, false, true); acc(d, n, true, false, true); }
    uint8_t* a = (uint8_t*)d; const uint8_t* b = (const uint8_t*)s;
    if (a < b && b < a + n) { for (size_t i = n; i-- > 0;) { a[i] = b[i]; __asm__ volatile("" ::: "memory"); } return d; }
    if (b < a && a < b + n) { for (size_t i = 0; i < n; i++) { a[i] = b[i]; __asm__ volatile("" ::: "memory"); } return d; }
    return memmove(d, s, n);
}
extern "C" void* sim_memset(void* d, int v, size_t n) { if (n) acc(d, n, true, false, true); return memset(d, v, n); }
extern "C" int sim_memcmp(const void* a, const void* b, size_t n) { if (n) { acc(a, n, false, false, true); acc(b, n, false, false, true); } return memcmp(a, b, n); }
extern "C" int sim_bcmp(const void* a, const void* b, size_t n) { return sim_memcmp(a, b, n); }
extern "C" void* sim_memchr(const void* a, int ch, size_t n) { if (n) acc(a, n, false, false, true); return (void*)memchr(a, ch, n); }

// ---------------------------------------- synchronisation of the instrumented object
extern "C" int sim_cxa_guard_acquire(uint64_t* g) {
    Client* c = tl; uint8_t* b = (uint8_t*)g;
    if (!c || !c->in_op) { if (b[0]) return 0; b[1] = 1; return 1; }
    event(c, (7ULL << 50));
    if (b[0]) { acquire(c, (uintptr_t)g); return 0; }
    if (b[1]) {
        probe("reach.guard_waited");
        struct W { uint8_t* b; } w{b};
        block_until(*c, [](void* v) { uint8_t* x = ((W*)v)->b; return !x[1]; }, &w);
        if (b[0]) { acquire(c, (uintptr_t)g); return 0; }
    }
    b[1] = 1; return 1;
}
extern "C" void sim_cxa_guard_release(uint64_t* g) {
    Client* c = tl; uint8_t* b = (uint8_t*)g;
    if (c && c->in_op) { event(c, (8ULL << 50)); release(c, (uintptr_t)g); }
    b[0] = 1; b[1] = 0; if (R.plan) notify_all();
}
extern "C" void sim_cxa_guard_abort(uint64_t* g) { ((uint8_t*)g)[1] = 0; if (R.plan) notify_all(); }
extern "C" int sim_cxa_atexit(void (*)(void*), void*, void*) { return 0; }
struct SimMutex { uint32_t locked; };
extern "C" int sim_mutex_lock(SimMutex* m) {
    Client* c = tl; if (!c || !c->in_op) { m->locked = 1; return 0; }
    event(c, (9ULL << 50));
    if (m->locked && R.prop == 18) check_fail(18, "waits", "waits for a lock for as long as its holder is stalled");
    block_until(*c, [](void* v) { return !((SimMutex*)v)->locked; }, m);
    m->locked = 1; acquire(c, (uintptr_t)m); return 0;
}
extern "C" int sim_mutex_trylock(SimMutex* m) {
    Client* c = tl; if (m->locked) return EBUSY;
    if (c && c->in_op) { event(c, (9ULL << 50)); if (m->locked) return EBUSY; acquire(c, (uintptr_t)m); }
    m->locked = 1; return 0;
}
extern "C" int sim_mutex_unlock(SimMutex* m) {
    Client* c = tl; if (c && c->in_op) { event(c, (10ULL << 50)); release(c, (uintptr_t)m); }
    m->locked = 0; if (R.plan) notify_all(); return 0;
}
extern "C" int sim_once(int* ctl, void (*fn)()) {
    Client* c = tl;
    if (c && c->in_op) {
        event(c, (11ULL << 50));
        block_until(*c, [](void* v) { return *(int*)v != 1; }, ctl);
        if (*ctl == 2) { acquire(c, (uintptr_t)ctl); return 0; }
    } else if (*ctl == 2) return 0;
    *ctl = 1; fn(); *ctl = 2;
    if (c && c->in_op) release(c, (uintptr_t)ctl);
    if (R.plan) notify_all();
    return 0;
}

// ------------------------------------------------------------- tsan interface
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(N) \
    void __tsan_read##N(void* p) { acc(p, N, false); } \
    void __tsan_write##N(void* p) { acc(p, N, true); } \
    void __tsan_volatile_read##N(void* p) { acc(p, N, false); } \
    void __tsan_volatile_write##N(void* p) { acc(p, N, true); } \
    void __tsan_unaligned_volatile_read##N(void* p) { acc(p, N, false); } \
    void __tsan_unaligned_volatile_write##N(void* p) { acc(p, N, true); } \
    void __tsan_read_write##N(void* p) { acc(p, N, false); acc(p, N, true); } \
    void __tsan_unaligned_read_write##N(void* p) { acc(p, N, false); acc(p, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
#define URW(N) \
    void __tsan_unaligned_read##N(void* p) { acc(p, N, false); } \
    void __tsan_unaligned_write##N(void* p) { acc(p, N, true); }
URW(2) URW(4) URW(8) URW(16)
void __tsan_read_range(void* p, unsigned long n) { if (n) acc(p, n, false); }
void __tsan_write_range(void* p, unsigned long n) { if (n) acc(p, n, true); }
void __tsan_vptr_update(void** p, void*) { acc(p, 8, true); }
void __tsan_vptr_read(void** p) { acc(p, 8, false); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { return sim_memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { return sim_memmove(d, s, n); }
void* __tsan_memset(void* d, int v, size_t n) { return sim_memset(d, v, n); }

static inline bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline void a_pre(const volatile void* p, size_t n, bool w) { acc((const void*)p, n, w, true); }
static inline void a_post(const volatile void* p, int mo, bool r, bool w) {
    Client* c = tl; if (!c || !c->in_op) return;
    if (r && acq(mo)) acquire(c, (uintptr_t)p);
    if (w && rel(mo)) release(c, (uintptr_t)p);
}
#define ATOM(B, T) \
    T __tsan_atomic##B##_load(const volatile T* a, int mo) { a_pre(a, sizeof(T), false); T v = *a; a_post(a, mo, true, false); return v; } \
    void __tsan_atomic##B##_store(volatile T* a, T v, int mo) { a_pre(a, sizeof(T), true); *a = v; a_post(a, mo, false, true); } \
    T __tsan_atomic##B##_exchange(volatile T* a, T v, int mo) { a_pre(a, sizeof(T), true); T o = *a; *a = v; a_post(a, mo, true, true); return o; } \
    T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int mo) { a_pre(a, sizeof(T), true); T o = *a; *a = (T)(o + v); a_post(a, mo, true, true); return o; } \
    T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int mo) { a_pre(a, sizeof(T), true); T o = *a; *a = (T)(o - v); a_post(a, mo, true, true); return o; } \
    T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int mo) { a_pre(a, sizeof(T), true); T o = *a; *a = (T)(o & v); a_post(a, mo, true, true); return o; } \
    T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int mo) { a_pre(a, sizeof(T), true); T o = *a; *a = (T)(o | v); a_post(a, mo, true, true); return o; } \
    T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int mo) { a_pre(a, sizeof(T), true); T o = *a; *a = (T)(o ^ v); a_post(a, mo, true, true); return o; } \
    T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int mo) { a_pre(a, sizeof(T), true); T o = *a; *a = (T)~(o & v); a_post(a, mo, true, true); return o; } \
    int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* e, T v, int mo, int) { a_pre(a, sizeof(T), true); bool ok = *a == *e; if (ok) *a = v; else *e = *a; a_post(a, mo, true, ok); return ok; } \
    int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* e, T v, int mo, int) { a_pre(a, sizeof(T), true); bool ok = *a == *e; if (ok) *a = v; else *e = *a; a_post(a, mo, true, ok); return ok; } \
    T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T e, T v, int mo, int) { a_pre(a, sizeof(T), true); T o = *a; if (o == e) *a = v; a_post(a, mo, true, o == e); return o; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
