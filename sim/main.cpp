// Simulator driver: batch / gen / run.
#include "core.hpp"
#include <algorithm>
#include <cinttypes>
#include <fstream>
#include <iostream>
#include <sstream>
#include <unordered_set>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

namespace sim {
void run_plan(const Plan& p, int prop, uint64_t index);
void process_init();
size_t library_data_bytes();
extern Scenario the_scenario;
extern bool g_fresh_threads;
}
using namespace sim;

static std::string to_text(const Plan& p) {
    std::ostringstream o;
    o << "scenario " << g_scn->name << "\n";
    for (auto& c : p.cfg) o << "cfg " << c.first << " " << c.second << "\n";
    for (auto& op : p.ops) {
        o << "op " << op.client << " " << g_scn->ops[op.code % g_scn->nops].name;
        for (int i = 0; i < NARGS; i++) if (op.a[i]) o << " " << g_scn->argn[i] << "=" << op.a[i];
        o << "\n";
    }
    for (auto& s : p.sw) o << "sw " << s.gap << " " << s.tgt << "\n";
    for (auto& s : p.stalls) o << "stall " << s.client << " " << s.at << " " << s.dur << "\n";
    return o.str();
}
static bool from_text(std::istream& in, Plan& p) {
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream s(line); std::string k; if (!(s >> k) || k[0] == '#') continue;
        if (k == "scenario") { std::string n; s >> n; if (n != g_scn->name) { std::cerr << "wrong scenario " << n << "\n"; return false; } }
        else if (k == "cfg") { std::string n; int64_t v; s >> n >> v; p.set(n.c_str(), v); }
        else if (k == "op") {
            Op op; std::string n, kv; s >> op.client >> n; bool f = false;
            for (int i = 0; i < g_scn->nops; i++) if (n == g_scn->ops[i].name) { op.code = i; f = true; }
            if (!f) { std::cerr << "unknown op " << n << "\n"; return false; }
            while (s >> kv) { auto e = kv.find('='); std::string an = kv.substr(0, e); bool g = false;
                for (int i = 0; i < NARGS; i++) if (an == g_scn->argn[i]) { op.a[i] = std::stoll(kv.substr(e + 1)); g = true; }
                if (!g) { std::cerr << "unknown arg " << an << "\n"; return false; } }
            p.ops.push_back(op);
        }
        else if (k == "sw") { Sw w; s >> w.gap >> w.tgt; p.sw.push_back(w); }
        else if (k == "stall") { Stall w; s >> w.client >> w.at >> w.dur; p.stalls.push_back(w); }
        else if (k == "variant" || k == "build" || k == "property" || k == "class" || k == "hash" || k == "message" || k == "seed") continue;
        else { std::cerr << "bad line: " << line << "\n"; return false; }
    }
    return true;
}
// preemptions: sparse, clustered or dense, chosen per run
static void gen_schedule(Plan& p, Rng& r) {
    int nc = (int)p.get("clients", 1);
    if (nc < 2) return;
    p.set("first", (int64_t)r.below((uint64_t)nc));
    int mode = (int)r.below(8);
    int n; uint64_t hi;
    switch (mode) {
    case 0: n = 1 + (int)r.below(3); hi = 40; break;
    case 1: n = 1 + (int)r.below(4); hi = 400; break;
    case 2: n = 2 + (int)r.below(10); hi = 30; break;
    case 3: n = 2 + (int)r.below(10); hi = 120; break;
    case 4: n = 10 + (int)r.below(40); hi = 8; break;
    case 5: n = 60 + (int)r.below(140); hi = 2; break;
    case 6: n = 4 + (int)r.below(20); hi = 1000; break;
    default: n = 3 + (int)r.below(8); hi = 12; break;
    }
    for (int i = 0; i < n; i++) p.sw.push_back(Sw{(int64_t)r.logu(hi), (int)r.below(3)});
    if (r.chance(1, 3)) {
        int k = 1 + (int)r.below(2);
        for (int i = 0; i < k; i++) p.stalls.push_back(Stall{(int)r.below((uint64_t)nc), (int64_t)r.logu(120), r.chance(1, 4) ? (int64_t)1000000000 : (int64_t)r.logu(3000)});
    }
}
static Plan generate(int prop, uint64_t seed, uint64_t index, int tier) {
    Plan p; Rng r(mix64(seed * 1000003ULL + index) ^ mix64((uint64_t)prop * 7919));
    p.set("dirty", (int64_t)r.below(4)); p.set("dseed", (int64_t)(r.next() >> 34));
    g_scn->gen(p, r, prop, tier);
    gen_schedule(p, r);
    return p;
}
static std::string jesc(const std::string& s) {
    std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else o += c; } return o;
}
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; }

int main(int argc, char** argv) {
    g_scn = &the_scenario; if (g_scn->init) g_scn->init();
    std::map<std::string, std::string> a; std::string mode = argc > 1 ? argv[1] : "";
    std::vector<std::string> pos;
    for (int i = 2; i < argc; i++) { std::string s = argv[i]; if (s.rfind("--", 0) == 0 && i + 1 < argc) a[s.substr(2)] = argv[++i]; else pos.push_back(s); }
    auto num = [&](const char* k, uint64_t d) -> uint64_t { return a.count(k) ? std::stoull(a[k]) : d; };
    int prop = (int)num("prop", 1), tier = (int)num("tier", 0); uint64_t seed = num("seed", 1);
    if (mode == "merge") { // number of distinct 8-byte values in the given files
        std::vector<uint64_t> v;
        for (auto& f : pos) { std::ifstream i(f, std::ios::binary); uint64_t x; while (i.read((char*)&x, 8)) v.push_back(x); }
        std::sort(v.begin(), v.end()); std::cout << (std::unique(v.begin(), v.end()) - v.begin()) << "\n"; return 0;
    }
    // same addresses in every process, so that one seed is one execution even if the code under test reads garbage
    int pers = personality(0xffffffff);
    if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("BITLIB_SIM_NOASLR") && personality((unsigned long)pers | ADDR_NO_RANDOMIZE) >= 0) { setenv("BITLIB_SIM_NOASLR", "1", 1); execv("/proc/self/exe", argv); }
    g_fresh_threads = num("fresh", 0) != 0;
    if (mode == "info") { std::cout << "{\"host_features\":" << host_features() << "}\n"; return 0; }
    if (mode == "gen") { std::cout << to_text(generate(prop, seed, num("index", 0), tier)); return 0; }
    if (mode == "run") {
        Plan p; std::ifstream f(pos.at(0)); if (!f || !from_text(f, p)) return 31;
        process_init(); R.replay = true;
        int reps = (int)num("reps", 1); uint64_t h = 0;
        for (int i = 0; i < reps; i++) { run_plan(p, prop, 0); if (i && h != R.hash) { std::cout << "NONDET\n"; return 20; } h = R.hash; }
        printf("SIMOK\t%016" PRIx64 "\t%016" PRIx64 "\tevents=%" PRIu64 "\n", R.hash, R.sched_hash, R.events);
        fflush(stdout); _exit(0);
    }
    if (mode != "batch") { std::cerr << "usage: batch|gen|run|info\n"; return 2; }
    uint64_t start = num("start", 0), stride = num("stride", 1), count = num("count", 100), recheck = num("recheck", 64);
    double budget = (double)num("budget", 100000);
    process_init();
    std::ofstream hlog; if (a.count("log")) hlog.open(a["log"]);
    FILE* cur = a.count("cur") ? fopen(a["cur"].c_str(), "w") : nullptr;
    std::unordered_set<uint64_t> inter, traces;
    uint64_t runs = 0, ops = 0, events = 0, sw = 0, midsw = 0, stalls = 0, rechecked = 0, multi = 0, sw_conf = 0, st_conf = 0, nontrivial = 0;
    double t0 = now();
    std::string sample;
    for (uint64_t k = 0; k < count; k++) {
        uint64_t idx = start + k * stride;
        if (cur) { rewind(cur); fprintf(cur, "%-20" PRIu64, idx); fflush(cur); }
        Plan p = generate(prop, seed, idx, tier);
        run_plan(p, prop, idx);
        uint64_t h = R.hash;
        runs++; ops += p.ops.size(); events += R.events; sw += R.switches; midsw += R.midop_switches; stalls += R.stalls_fired;
        sw_conf += p.sw.size(); st_conf += p.stalls.size();
        if (R.nclients > 1) multi++;
        bool nt = R.midop_switches > 0 || R.events > 4;
        if (nt) { nontrivial++; if (traces.size() < 3000000) traces.insert(h); }
        if (R.midop_switches > 0 && inter.size() < 3000000) inter.insert(R.sched_hash);
        if (hlog.is_open()) hlog << idx << " " << std::hex << h << std::dec << "\n";
        if (k == 0 || (sample.empty() && k > count / 2)) if (sample.size() < 3000) sample += (sample.empty() ? "" : "\n") + to_text(p);
        if (recheck && k % recheck == recheck - 1) {
            std::vector<ProbeCount> save(g_probes, g_probes + MAX_PROBES); int nsave = g_nprobes;
            run_plan(p, prop, idx); rechecked++;
            std::copy(save.begin(), save.end(), g_probes); g_nprobes = nsave;
            if (R.hash != h) { printf("NONDET\t%" PRIu64 "\n", idx); fflush(stdout); _exit(20); }
        }
        if (((k & 63) == 0 || g_big) && now() - t0 > budget) break;
    }
    double wall = now() - t0;
    std::ostringstream o;
    o << "SIMSTATS\t{\"runs\":" << runs << ",\"ops\":" << ops << ",\"events\":" << events << ",\"switches\":" << sw
      << ",\"midop_switches\":" << midsw << ",\"stalls_fired\":" << stalls << ",\"sw_configured\":" << sw_conf << ",\"stalls_configured\":" << st_conf
      << ",\"multi_client_runs\":" << multi << ",\"rechecked\":" << rechecked << ",\"nontrivial\":" << nontrivial
      << ",\"wall\":" << wall << ",\"libdata\":" << library_data_bytes() << ",\"probes\":{";
    std::map<std::string, uint64_t> probes; for (int i = 0; i < g_nprobes; i++) probes[g_probes[i].name] += g_probes[i].n;
    bool f = true; for (auto& q : probes) { o << (f ? "" : ",") << "\"" << q.first << "\":" << q.second; f = false; }
    o << "},\"sample\":\"" << jesc(sample) << "\"}\n";
    std::string s = o.str(); fwrite(s.data(), 1, s.size(), stdout); fflush(stdout);
    auto dump = [&](const char* key, std::unordered_set<uint64_t>& set) {
        if (!a.count(key)) return;
        std::ofstream f(a[key], std::ios::binary);
        for (uint64_t v : set) f.write((char*)&v, 8);
    };
    dump("inter", inter); dump("traces", traces);
    _exit(0);
}
