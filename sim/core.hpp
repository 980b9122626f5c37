// Deterministic simulator core: scheduler, memory, allocator, fault injection.
// Nothing in this file or core.cpp is instrumented; library code runs in the
// ops_*.cpp objects, whose every memory access calls into core.cpp.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include <semaphore.h>
#include <pthread.h>

namespace sim {

// ---------------------------------------------------------------- randomness
static inline uint64_t mix64(uint64_t x) {
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(mix64(seed ^ 0x51a7e5ULL)) {}
    uint64_t next() { s += 0x9e3779b97f4a7c15ULL; return mix64(s); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo + 1)); }
    bool chance(int num, int den) { return (int64_t)below(den) < num; }
    template <size_t N> int pick(const int (&w)[N]) { return pickw(w, N); }
    int pickw(const int* w, size_t n) {
        int64_t t = 0; for (size_t i = 0; i < n; i++) t += w[i];
        int64_t r = (int64_t)below((uint64_t)t);
        for (size_t i = 0; i < n; i++) { if (r < w[i]) return (int)i; r -= w[i]; }
        return 0;
    }
    // log-uniform in [1, hi]
    uint64_t logu(uint64_t hi) {
        int b = 0; while ((hi >> b) > 1) b++;
        uint64_t top = 1ULL << below(b + 1);
        uint64_t v = top + below(top);
        return v > hi ? hi : v;
    }
};

// ---------------------------------------------------------------------- plan
constexpr int NARGS = 10;
struct Op { int client = 0; int code = 0; int64_t a[NARGS] = {0}; };
struct Sw { int64_t gap; int tgt; };
struct Stall { int client; int64_t at; int64_t dur; };
struct Plan {
    std::vector<std::pair<std::string, int64_t>> cfg;
    std::vector<Op> ops;
    std::vector<Sw> sw;
    std::vector<Stall> stalls;
    int64_t get(const char* k, int64_t dflt = 0) const {
        for (auto& c : cfg) if (c.first == k) return c.second;
        return dflt;
    }
    void set(const char* k, int64_t v) {
        for (auto& c : cfg) if (c.first == k) { c.second = v; return; }
        cfg.emplace_back(k, v);
    }
};
struct OpInfo { const char* name; };
// One scenario: generator + executor.
struct Scenario {
    const char* name;
    const OpInfo* ops; int nops;
    const char* const* argn;                     // NARGS argument names
    void (*gen)(Plan&, Rng&, int prop, int tier);
    void (*setup)(const Plan&);                  // before clients start
    void (*step)(const Plan&, int client, const Op&);
    void (*client_end)(const Plan&, int client);
    void (*finish)(const Plan&);                 // after all clients ended
    void (*init)() = nullptr;                    // once, before anything else
};
extern const Scenario* g_scn;

// ------------------------------------------------------------------- memory
constexpr uintptr_t ARENA = 0x100000000000ULL;
constexpr size_t ARENA_SZ = 1ULL << 30;
constexpr uintptr_t SHADOW = 0x200000000000ULL;
constexpr size_t MAX_ALLOC = 96u << 20;
// very long ranges: no shadow bytes, only the operation's permissions and the bounds of live blocks
constexpr uintptr_t BIG = 0x300000000000ULL;
constexpr size_t BIG_SZ = 12ULL << 30, BIG_BLOCK = 16u << 20, BIG_MAX = 2ULL << 30;
uint8_t* big_array();                        // start of that memory, all of it
extern bool g_big;                           // this scenario uses it: long blocks come from its upper half
extern uint64_t g_event_cap; extern int g_tick_cap;
constexpr int MAXC = 4;

struct Perm { uintptr_t lo, hi; bool w; };

struct Client {
    int id = 0;
    bool has_thread = false;
    bool started = false, done = false, blocked = false;
    bool in_op = false;
    uint64_t stalled_until = 0;     // event number
    int64_t next_stall = -1;        // countdown in own events
    size_t stall_i = 0;
    uint64_t events = 0, ev_op = 0;
    // current op
    int op_prop = 0;                // property that owns the current op's footprint
    Perm perm[8]; int nperm = 0;
    bool free_heap = true;          // heap access unrestricted (own blocks)
    // allocation faults of the current op
    int64_t fail_at = 0, fail_len = 0;
    bool exhausted = false;
    bool forbid_alloc = false;
    uint64_t allocs_op = 0, fails_op = 0, alloc_attempts_total = 0, frees_op = 0;
    size_t max_width_r = 0, max_width_w = 0;
    uint64_t acc_op = 0;
    uint32_t vc[MAXC] = {0};
    const char* opname = "";
    int op_index = -1;
};
extern thread_local Client* tl;

// set by main for the run
struct Run {
    const Plan* plan = nullptr;
    int prop = 0;                   // property under check (number)
    int nclients = 0;
    uint64_t events = 0;
    uint64_t hash = 0, sched_hash = 0;
    uint64_t switches = 0, midop_switches = 0, stalls_fired = 0;
    uint64_t index = 0;
    size_t sw_i = 0; int64_t gap = -1;
    int64_t quota = -1;             // live byte limit
    int dirty = 0; uint64_t dseed = 0;
    int feat = -1;
    bool replay = false;
};
extern Run R;
extern Client C[MAXC];

[[noreturn]] void violation(int prop, const char* cls, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
// reports if `prop` is the property under check, otherwise returns
void check_fail(int prop, const char* cls, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
[[noreturn]] void harness_error(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

// ops: everything the library does happens between op_begin and op_end
void op_begin(Client& c, const char* name, int prop);
void op_end(Client& c);
void grant(Client& c, const void* lo, size_t n, bool w);
void hash_val(uint64_t v);
void sched_point(Client& c);                 // explicit scheduling point (harness seam)
void block_until(Client& c, bool (*pred)(void*), void* arg);
void notify_all();

// array storage with per-op permissions, adjacent to inaccessible memory
uint8_t* alloc_array(size_t bytes, size_t misalign);
// while set, allocations outside any client are such arrays, at this offset from a cache line
extern bool g_setup_alloc; extern size_t g_setup_mis;
struct Blk { size_t size; int owner; bool live; bool array; int tag; };   // tag: allocator it came from, -1 operator new
size_t live_blocks(int owner);
size_t live_bytes();
bool is_live_block(const void* p, size_t* size, int* tag = nullptr);
void free_client_blocks(int owner);

// suspends the simulation for harness work that runs instrumented code
struct Quiet { bool old; Quiet(); ~Quiet(); };

// first of n bits (little-endian words at mem, starting at bit b0) that differs from the 0/1 bytes of model, or -1
int64_t diff_bits(const uint8_t* mem, int64_t b0, const uint8_t* model, int64_t n);
void load_bits(const uint8_t* mem, int64_t b0, uint8_t* model, int64_t n);

// statistics
void probe(const char* name, uint64_t n = 1);
struct ProbeCount { const char* name; uint64_t n; };
constexpr int MAX_PROBES = 256;
extern ProbeCount g_probes[MAX_PROBES]; extern int g_nprobes;

// what CPU and operating system report in a run: CPU features in the low bits, the register sets enabled in XCR0 above
enum { FEAT_POPCNT = 1, FEAT_OSXSAVE = 2, FEAT_AVX2 = 4, FEAT_AVX512F = 8, FEAT_AVX512BW = 16, FEAT_XCR0 = 8 /* shift */,
       FEAT_YMM = 6 << FEAT_XCR0, FEAT_ZMM = 0xe6 << FEAT_XCR0 };
inline bool feat_avx2(int f) { return (f & FEAT_OSXSAVE) && (f & FEAT_YMM) == FEAT_YMM && (f & FEAT_AVX2); }
inline bool feat_avx512(int f) { return (f & FEAT_OSXSAVE) && (f & FEAT_ZMM) == FEAT_ZMM && (f & FEAT_AVX512F) && (f & FEAT_AVX512BW); }
int host_features();

// inside a catch block: is it what sim_throw(kind, payload) threw?
bool thrown(int& kind, int64_t& payload);

} // namespace sim
