#!/usr/bin/env python3
"""check.py C05 [quick|thorough]     decide one property by seeded simulation
   check.py --replay FILE            reproduce a recorded violation
   check.py --setup                  build everything once (optional)

Exit 0: held on every simulated run. Exit 1: VIOLATION line. Exit 2: the check
itself could not give an answer."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("BITLIB_REPO", "/repo")
SIM = os.path.join(V, "sim")
BUILD = os.path.join(V, "build")

SCN = {"alg": ["ops_alg", "ops_prx"], "vec": ["ops_vec", "ops_veca"], "str": ["ops_str"], "big": ["ops_alg", "ops_vec", "ops_veca"]}
PROPS = {"C01": "vec", "C02": "vec", "C03": "vec", "C04": "vec", "C05": "alg", "C06": "alg", "C07": "alg",
         "C08": "alg", "C09": "alg", "C10": "str", "C11": "str", "C12": "alg", "C13": "alg", "C16": "big", "C17": "vec", "C18": "vec", "C19": "vec", "C20": "vec"}
INSTR = ["-O1", "-g0", "-w", "-DBITLIB_SIM", "-U_FORTIFY_SOURCE", "-fno-stack-protector", "-fsanitize=thread"]
# kinds of iterators left out when something does not compile (bits: words, vector, const object, mixed, mixed, reverse); fewest first
SKIPS = [1 << 2, 1 << 5, 3 << 3, 1 | 3 << 3, 1 << 2 | 1 << 5, 1 << 2 | 3 << 3, 1 << 5 | 3 << 3, 1 << 2 | 1 << 5 | 3 << 3, 1 | 1 << 2 | 1 << 5 | 3 << 3]
NOB = ["-fno-builtin-memcpy", "-fno-builtin-memmove", "-fno-builtin-memset", "-fno-builtin-memcmp"]
FAST = ["-O2", "-fno-sanitize=thread"]
VARIANTS = {  # compiler, flags, CPU flags needed
    "s17": ("g++", ["-std=c++17"], ""),
    "s20": ("g++", ["-std=c++20"], ""),
    "h17": ("g++", ["-std=c++17", "-DBITLIB_HWY"], ""),
    "h17v3": ("g++", ["-std=c++17", "-DBITLIB_HWY", "-march=haswell", "-DNDEBUG"], "avx2 bmi1 bmi2 fma movbe"),
    "h20x": ("g++", ["-std=c++20", "-DBITLIB_HWY", "-march=skylake-avx512", "-DNDEBUG"], "avx512f avx512bw avx512vl avx512dq avx512cd adx bmi2"),
    "s17n": ("g++", ["-std=c++17", "-DNDEBUG", "-march=haswell"], "avx2 bmi1 bmi2 fma movbe"),
    # optimised and without instrumentation, for many long ranges: clients switch between operations only
    "f17": ("g++", ["-std=c++17"] + FAST, ""),
    "fh17": ("g++", ["-std=c++17", "-DBITLIB_HWY"] + FAST, ""),
    "f20": ("g++", ["-std=c++20", "-DNDEBUG", "-march=haswell"] + FAST, "avx2 bmi1 bmi2 fma movbe"),
    "fh17v3": ("g++", ["-std=c++17", "-DBITLIB_HWY", "-march=haswell", "-DNDEBUG"] + FAST, "avx2 bmi1 bmi2 fma movbe"),
}
# which builds the workers of one wave use, per scenario
WAVES = {
    "alg": (["s17", "s17", "s17", "h17", "h17", "s20", "h17v3", "h17v3"],
            [["s17"] * 4 + ["h17"] * 4, ["s20"] * 2 + ["h17v3"] * 3 + ["h20x"] * 2 + ["s17n"]]),
    "vec": (["s17", "s17", "s17", "s17", "h17", "s20", "h17v3", "h17v3"],
            [["s17"] * 5 + ["h17"] * 3, ["s20"] * 2 + ["h17v3"] * 3 + ["h20x"] * 2 + ["s17n"]]),
    "str": (["s17", "s17", "s17", "s17", "s20", "s20", "s20", "s17"],
            [["s17"] * 5 + ["s20"] * 3]),
}
WAVES["big"] = (["s17", "h17v3", "f17", "f17", "fh17", "fh17", "f20", "fh17v3"],
                [["s17"] * 2 + ["h17"] * 2 + ["f17"] * 2 + ["fh17"] * 2, ["s20"] * 2 + ["h17v3"] * 2 + ["f20"] * 2 + ["fh17v3"] * 2])
# properties that are also decided on very long ranges: runs per worker, quick and thorough
LONG = {"C01": (1, 40), "C05": (1, 40), "C06": (1, 40), "C07": (1, 40), "C08": (1, 40)}
FASTER = 10   # times as many by workers whose build is not instrumented
# runs per worker, quick and (per wave) thorough
RUNS = {"C01": (170000, 3000000), "C02": (220000, 4000000), "C03": (170000, 3000000), "C04": (170000, 3000000),
        "C05": (260000, 5000000), "C06": (260000, 5000000), "C07": (260000, 5000000), "C08": (220000, 4000000), "C09": (260000, 5000000),
        "C10": (500000, 10000000), "C11": (120000, 2500000), "C12": (400000, 6000000), "C13": (120000, 2500000),
        "C16": (9, 250), "C17": (200000, 3000000), "C18": (60000, 1000000), "C19": (200000, 3500000), "C20": (200000, 3500000)}
CAP = {"quick": 240, "thorough": 1500}


class Trouble(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def cpu_flags():
    try:
        for l in open("/proc/cpuinfo"):
            if l.startswith("flags"):
                return set(l.split(":")[1].split())
    except OSError:
        pass
    return set()


CPU = cpu_flags()


def usable(variant, prop):
    need = VARIANTS[variant][2].split()
    if any(f not in CPU for f in need):
        return False
    # C13 decides run-time dispatch; these builds fix the instruction set at compile time
    if prop == "C13" and "-march" in " ".join(VARIANTS[variant][1]):
        return False
    return True


def base_of(variant):
    return "f17" if variant[0] == "f" else "s17"


def runs_of(variant, n):
    return n * FASTER if variant[0] == "f" else n


def digest(scn, variant):
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "include"), SIM):
        for d, _, fs in sorted(os.walk(root)):
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
    h.update(repr((scn, VARIANTS[variant], INSTR, NOB)).encode())
    h.update(sh([VARIANTS[variant][0], "--version"]).stdout.encode())
    return h.hexdigest()[:20]


def build(scn, variants):
    """Builds the simulator of one scenario from /repo's working tree; returns {variant: (binary, notes)}."""
    os.makedirs(BUILD, exist_ok=True)
    out, todo = {}, []
    for v in variants:
        d = os.path.join(BUILD, "%s-%s-%s" % (scn, v, digest(scn, v)))
        exe = os.path.join(d, "sim" + scn)
        if os.path.exists(exe):
            out[v] = (exe, json.load(open(os.path.join(d, "notes.json"))))
        else:
            todo.append((v, d, exe))
    if not todo:
        return out
    tmp = tempfile.mkdtemp(prefix="tmp-", dir=BUILD)
    try:
        def compile_(job):
            src, obj, cc, flags = job
            return job, sh([cc] + flags + ["-c", src, "-o", obj])
        jobs = []
        for f in ("core", "main", "scn_" + scn):
            jobs.append((os.path.join(SIM, f + ".cpp"), os.path.join(tmp, f + ".o"), "g++", ["-std=c++17", "-O2", "-g0"]))
        for v, _, _ in todo:
            cc, fl, _ = VARIANTS[v]
            for f in SCN[scn]:
                jobs.append((os.path.join(SIM, f + ".cpp"), os.path.join(tmp, v + "." + f + ".o"), cc,
                             INSTR + NOB + fl + ["-include", os.path.join(SIM, "seam.hpp"), "-I", os.path.join(REPO, "include"), "-I", SIM]))
        failed = {}
        with ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
            for job, r in ex.map(compile_, jobs):
                if r.returncode:
                    failed[job[1]] = (job, r.stdout)
        notes = {v: [] for v, _, _ in todo}
        def skip_(o, m):
            (src, _, cc, flags), _ = failed[o]
            return o, m, sh([cc] + flags + ["-DSIM_SKIP=%d" % m, "-c", src, "-o", "%s.%d" % (o, m)])
        left = [o for o, (job, _) in failed.items() if "-DBITLIB_SIM" in job[3]]
        masks = list(SKIPS)
        while left and masks:   # the tree may no longer compile for every kind of iterator: leave out as few as possible
            with ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
                for _, m, r in list(ex.map(lambda m: skip_(left[0], m), masks)):
                    if not r.returncode:
                        break
                else:
                    break
                done = [(o, k) for o, k, r in ex.map(lambda o: skip_(o, m), left) if not r.returncode]   # most likely the same for the others
            masks = masks[masks.index(m) + 1:]
            for o, k in done:
                os.replace("%s.%d" % (o, k), o)
                left.remove(o)
                del failed[o]
                notes[os.path.basename(o).split(".")[0]].append("not covered because they do not compile: iterator kinds of mask %d" % k)
        for obj, (job, text) in failed.items():   # a build that does not compile any more is left out while another one is there
            v = os.path.basename(obj).split(".")[0]
            if "-DBITLIB_SIM" not in job[3] or len(todo) + len(out) < 2:
                raise Trouble("cannot compile %s:\n%s" % (job[0], text[-3000:]))
            todo = [t for t in todo if t[0] != v]
        for v, d, exe in todo:
            objs = [os.path.join(tmp, v + "." + f + ".o") for f in SCN[scn]]
            l0, l1 = os.path.join(tmp, v + ".lib0.o"), os.path.join(tmp, v + ".lib.o")
            steps = [["ld", "-r", "--force-group-allocation", "-T", os.path.join(SIM, "merge.ld")] + objs + ["-o", l0],
                     ["objcopy", "--redefine-syms=" + os.path.join(SIM, "syms.txt"), l0, l1],
                     ["g++", "-no-pie", l1] + [os.path.join(tmp, f + ".o") for f in ("core", "main", "scn_" + scn)] + ["-o", os.path.join(tmp, v + ".exe"), "-lpthread"]]
            for s in steps:
                r = sh(s)
                if r.returncode:
                    raise Trouble("link: %s\n%s" % (" ".join(s), r.stdout[-3000:]))
            tls = bool(re.search(r"\s\.t(data|bss)", sh(["objdump", "-h", l1]).stdout))
            n = {"fresh": tls, "notes": sorted(set(notes[v]))}
            os.makedirs(d, exist_ok=True)
            json.dump(n, open(os.path.join(d, "notes.json"), "w"))
            os.replace(os.path.join(tmp, v + ".exe"), exe)
            out[v] = (exe, n)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


def fresh(b):
    return ["--fresh", "1"] if b[1]["fresh"] else []


def parse_viol(text):
    for l in text.splitlines():
        if l.startswith("SIMVIOL\t"):
            _, idx, p, cls, h, msg = l.split("\t", 5)
            return {"index": int(idx), "prop": p, "class": cls, "hash": h, "msg": msg}
    return None


def run_plan(b, prop, text, work, timeout=120):
    f = os.path.join(work, "plan.txt")
    with open(f, "w") as fh:
        fh.write(text)
    try:
        r = sh([b[0], "run", f, "--prop", str(int(prop[1:]))] + fresh(b), timeout=timeout)
    except subprocess.TimeoutExpired:
        return None, "timeout"
    return parse_viol(r.stdout), r.stdout


def minimise(b, prop, text, viol, work, budget):
    """Delta-debugs the plan: schedule, faults, operations, arguments. Same property and class must remain."""
    t0 = time.time()
    lines = [l for l in text.splitlines() if l.strip()]

    def bad(ls):
        if time.time() - t0 > budget:
            return False
        v, _ = run_plan(b, prop, "\n".join(ls) + "\n", work, 40)
        return v is not None and v["prop"] == viol["prop"] and v["class"] == viol["class"]

    def ddmin(kinds):
        nonlocal lines
        n = 1
        while True:
            idx = [i for i, l in enumerate(lines) if l.split()[0] in kinds]
            if not idx or n > len(idx):
                break
            size, done = max(1, len(idx) // n), False
            for k in range(0, len(idx), size):
                drop = set(idx[k:k + size])
                cand = [l for i, l in enumerate(lines) if i not in drop]
                if bad(cand):
                    lines, done = cand, True
                    break
            if not done:
                if size == 1:
                    break
                n = min(len(idx), n * 2) if n * 2 <= len(idx) else len(idx)
            if time.time() - t0 > budget:
                break

    ddmin({"sw", "stall"})
    ddmin({"op"})
    ddmin({"sw", "stall"})

    def try_line(i, new):
        nonlocal lines
        if new == lines[i]:
            return False
        cand = lines[:i] + [new] + lines[i + 1:]
        if bad(cand):
            lines = cand
            return True
        return False
    for _ in range(2):
        for i in range(len(lines)):
            t = lines[i].split()
            if t[0] == "cfg" and t[1] not in ("wt", "it", "pipe", "feat", "wide"):
                v = int(t[2])
                lo = 1 if t[1] in ("clients", "ro", "cap", "chunk") or t[1].startswith("sw") else 0
                while v > lo and time.time() - t0 < budget:
                    if try_line(i, "cfg %s %d" % (t[1], lo)):
                        break
                    nv = v // 2 if v // 2 > lo else v - 1
                    if not (try_line(i, "cfg %s %d" % (t[1], nv)) or try_line(i, "cfg %s %d" % (t[1], v - 1))):
                        break
                    v = int(lines[i].split()[2])
            elif t[0] == "op":
                for a in [x for x in t[3:] if "=" in x]:
                    k = a.split("=")[0]
                    while time.time() - t0 < budget:
                        cur = lines[i].split()
                        m = [x for x in cur if x.startswith(k + "=")]
                        if not m:
                            break
                        v = int(m[0].split("=")[1])
                        if try_line(i, " ".join(x for x in cur if x != m[0])):
                            break
                        if v in (0, 1, -1):
                            break
                        if not any(try_line(i, " ".join("%s=%d" % (k, n) if x == m[0] else x for x in cur)) for n in (int(v / 2), v - (1 if v > 0 else -1))):
                            break
            elif t[0] == "sw":
                v = int(t[1])
                while v > 1 and time.time() - t0 < budget and try_line(i, "sw %d %s" % (v // 2, t[2])):
                    v //= 2
    ddmin({"op"})
    return "\n".join(lines) + "\n"


def report(prop, scn, variant, b, v, seed, tier, spec, work):
    """Confirms a violation in fresh processes, minimises it and writes the replay file."""
    os.makedirs(os.path.join(V, "replays"), exist_ok=True)
    g = sh([b[0], "gen", "--prop", str(int(prop[1:])), "--seed", str(seed), "--index", str(v["index"]), "--tier", str(tier)])
    plan = g.stdout
    v1, o1 = run_plan(b, prop, plan, work)
    v2, _ = run_plan(b, prop, plan, work)
    path = os.path.join(V, "replays", "%s-%s%s-%d.replay" % (prop, "" if scn == PROPS[prop] else scn + "-", variant, v["index"]))
    head = "# bitlib simulation replay; reproduce with: python3 check.py --replay <this file>\nproperty %s\nbuild %s\nvariant %s\nseed %d index %d tier %d\n" % (prop, scn, variant, seed, v["index"], tier)
    if v1 and v2 and v1["class"] == v2["class"] and v1["hash"] == v2["hash"] and v1["prop"] == prop:
        small = minimise(b, prop, plan, v1, work, 45 if scn != "big" else 90)
        m1, _ = run_plan(b, prop, small, work)
        m2, _ = run_plan(b, prop, small, work)
        if not (m1 and m2 and m1["hash"] == m2["hash"] and m1["class"] == v1["class"]):
            small, m1 = plan, v1
        with open(path, "w") as f:
            f.write(head + "class %s\nhash %s\nmessage %s\n" % (m1["class"], m1["hash"], m1["msg"]) + small)
        with open(path + ".full", "w") as f:
            f.write(head + "class %s\nhash %s\nmessage %s\n" % (v1["class"], v1["hash"], v1["msg"]) + plan)
        return path, m1
    # the run depends on the runs before it in the same process: replay the batch up to it
    cmd = [b[0]] + spec + fresh(b)
    res = []
    for _ in range(2):
        try:
            res.append(parse_viol(sh(cmd, timeout=400).stdout))
        except subprocess.TimeoutExpired:
            res.append(None)
    if res[0] and res[1] and res[0] == res[1] and res[0]["prop"] == prop:
        with open(path, "w") as f:
            f.write(head + "class %s\nhash %s\nmessage %s\nbatch %s\n" % (res[0]["class"], res[0]["hash"], res[0]["msg"], " ".join(spec)))
        return path, res[0]
    raise Trouble("violation could not be reproduced: %s\nfirst replay: %s\nbatch replay: %s" % (v, o1[-500:], res))


def replay(path):
    head, prop, variant, batch = {}, None, None, None
    for l in open(path):
        t = l.split(None, 1)
        if len(t) == 2 and t[0] in ("property", "build", "variant", "class", "hash", "message", "batch"):
            head[t[0]] = t[1].strip()
    prop, variant = head["property"], head["variant"]
    b = build(head.get("build", PROPS[prop]), [variant])[variant]
    with tempfile.TemporaryDirectory(dir=BUILD) as work:
        if "batch" in head:
            v = parse_viol(sh([b[0]] + head["batch"].split() + fresh(b)).stdout)
        else:
            v, _ = run_plan(b, prop, open(path).read(), work)
    if not v:
        print("the recorded violation does not occur on this tree")
        return 0
    same = v["class"] == head["class"] and v["hash"] == head["hash"]
    print("%s %s: %s" % (v["prop"], v["class"], v["msg"]))
    print("execution %s the recorded one (hash %s)" % ("is identical to" if same else "differs from", v["hash"]))
    print("VIOLATION property=%s replay=%s" % (v["prop"], path))
    return 1


REAL = ["all library headers under /repo/include/bitlib that the scenario uses (compiled from the working tree, every memory access, allocation, release, guard, atomic and block copy intercepted)"]
STUB = {"big": ["thread scheduling (seeded scheduler)", "storage arrays and long blocks (simulated, contents a function of the position)", "operator new/delete (simulated allocator with injected failures)"],
        "vec": ["operator new/delete and malloc (simulated allocator with injected failures)", "thread scheduling (seeded scheduler)", "std::allocator memory contents (seeded garbage)"],
        "alg": ["thread scheduling (seeded scheduler)", "storage arrays (simulated arena with per-operation permissions)", "cpuid/xgetbv (seeded answers, a subset of the host's features)", "user functions (throw at a seeded call)"],
        "str": ["stream buffers on both sides (seeded faults)", "thread scheduling (seeded scheduler)", "storage arrays (simulated arena)"]}


def check(prop, tiername):
    t0 = time.time()
    scn = PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = 1 if tiername == "thorough" else 0
    plan = [(scn, w, RUNS[prop][tier]) for w in ([WAVES[scn][0]] if not tier else WAVES[scn][1])]
    if prop == "C18":     # the algorithms as well
        plan += [("alg", w, 2 * RUNS[prop][tier]) for w in ([WAVES["alg"][0]] if not tier else WAVES["alg"][1])]
    if prop in LONG:
        plan.append(("big", WAVES["big"][0] if not tier else WAVES["big"][1][1], LONG[prop][tier]))
    plan = [(s, [v if usable(v, prop) else base_of(v) for v in w], n) for s, w, n in plan]
    bins = {}
    lost = set()
    for s in sorted(set(p[0] for p in plan)):
        want = sorted(set(v for p in plan for v in p[1] if p[0] == s))
        got = build(s, want)
        bins.update({(s, v): b for v, b in got.items()})
        lost.update(set(want) - set(got))
        instead = {v: v if v in got else next((x for x in (base_of(v), "s17") if x in got), sorted(got)[0]) for v in want}
        plan = [(t, [instead[v] for v in w] if t == s else w, n) for t, w, n in plan]
    variants = sorted(set(v for _, v in bins))
    t_build = time.time() - t0
    nums = {}
    perv, samples, probes, rates = {}, [], {}, 0.0
    files_t, files_i = [], []
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    work = tempfile.mkdtemp(prefix="run-", dir=BUILD)
    violation, trouble, capped = None, None, False
    sim_t0 = time.time()
    try:
        for wi, (wscn, wave, n) in enumerate(plan):
            procs = []
            ncpu = os.cpu_count() or 8
            for k, v in enumerate(wave):
                base = wi * 1000000000
                spec = ["batch", "--prop", str(int(prop[1:])), "--seed", str(seed), "--start", str(base + k), "--stride", str(len(wave)),
                        "--count", str(runs_of(v, n)), "--tier", str(tier), "--recheck", "64" if wscn != "big" else "16" if runs_of(v, n) > 20 else "4"]
                o = os.path.join(work, "o.%d.%d" % (wi, k))
                ft, fi = o + ".t", o + ".i"
                cmd = [bins[wscn, v][0]] + spec + ["--budget", str(CAP[tiername] / len(plan)), "--cur", o + ".cur", "--traces", ft, "--inter", fi] + fresh(bins[wscn, v])
                procs.append((k, v, spec, o, ft, fi, subprocess.Popen(cmd, stdout=open(o, "w"), stderr=subprocess.STDOUT)))
            deadline = time.time() + CAP[tiername] / len(plan) + 90
            left = list(procs)
            while left:
                for p in list(left):
                    if p[6].poll() is None:
                        continue
                    left.remove(p)
                    text = open(p[3], errors="replace").read()
                    if p[6].returncode == 10 and not violation:
                        vi = parse_viol(text)
                        if vi:
                            violation = (p, vi, wscn)
                    elif p[6].returncode != 0 and not trouble:
                        trouble = "worker %d (%s) ended with %s: %s" % (p[0], p[1], p[6].returncode, text[-1500:])
                if violation or (left and time.time() > deadline):
                    if not violation:
                        trouble = "workers did not finish: " + ", ".join(open(p[3] + ".cur").read().strip() for p in left if os.path.exists(p[3] + ".cur"))
                    for p in left:
                        p[6].kill()
                        p[6].wait()
                    break
                time.sleep(0.02)
            for k, v, spec, o, ft, fi, pr in procs:
                for l in open(o, errors="replace"):
                    if l.startswith("SIMSTATS\t"):
                        s = json.loads(l.split("\t", 1)[1])
                        for key, val in s.items():
                            if isinstance(val, (int, float)) and key not in ("wall", "libdata"):
                                nums[key] = nums.get(key, 0) + val
                        for key, val in s["probes"].items():
                            probes[key] = probes.get(key, 0) + val
                        key = v if wscn == scn else wscn + "." + v
                        perv[key] = perv.get(key, 0) + s["runs"]
                        if s["runs"] < runs_of(v, n):
                            capped = True
                        if len(samples) < 3 and k < 3:
                            samples.append(s["sample"][:2500])
                        files_t.append(ft)
                        files_i.append(fi)
            if violation or trouble:
                break
        sim_wall = time.time() - sim_t0
        merge = lambda fs: int(sh([next(iter(bins.values()))[0], "merge"] + [f for f in fs if os.path.exists(f)]).stdout.strip() or 0)
        distinct, inter = merge(files_t), merge(files_i)
        rep = None
        if violation:
            p, vi, vscn = violation
            rep = report(prop, vscn, p[1], bins[vscn, p[1]], vi, seed, tier, p[2], work)
            samples.append(open(rep[0]).read()[:2500])
    finally:
        shutil.rmtree(work, ignore_errors=True)
    runs = int(nums.get("runs", 0))
    if violation:   # workers that were stopped report no totals; count what is certain
        runs = max(runs, 1)
    ev = {
        "property": prop, "tier": tiername, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": distinct,
            "rule": "a case is one simulated run, generated from (seed, property, run index): operations with arguments, schedule (preemption points, stalls), memory contents and faults. "
                    "It is non-trivial if a client was preempted inside an operation or it took more than 4 observable steps; two cases differ if the hashes of their full event traces (every memory access, allocation, result and switch) differ.",
            "samples": samples or ["(a violation was found before any worker finished)"],
            "runs_per_hour": int(runs / max(sim_wall, 1e-6) * 3600),
            "seeds_per_hour": int(runs / max(sim_wall, 1e-6) * 3600),
            "runs_per_build": perv,
            "simulated_operations": int(nums.get("ops", 0)),
            "simulated_time_steps": int(nums.get("events", 0)),
            "simulated_time_note": "time in the simulator is the number of observable steps (memory accesses, allocations, releases, synchronisation, buffer calls); stalls last a number of these steps",
            "faults_injected": {k[6:]: v for k, v in sorted(probes.items()) if k.startswith("fault.")},
            "stalls_injected": int(nums.get("stalls_fired", 0)),
            "preemptions": int(nums.get("switches", 0)),
            "preemptions_inside_operations": int(nums.get("midop_switches", 0)),
            "distinct_interleavings": inter,
            "distinct_interleavings_measure": "distinct sequences of (client switched from, client switched to, operation, step within the operation)",
            "multi_client_runs": int(nums.get("multi_client_runs", 0)),
            "situations_reached": {k: v for k, v in sorted(probes.items()) if not k.startswith("fault.")},
            "reexecuted_for_determinism": int(nums.get("rechecked", 0)),
            "wall_cap_reached": capped,
            "builds": {v: " ".join([VARIANTS[v][0]] + VARIANTS[v][1]) + "".join(sorted(set(" [" + x + "]" for k, b in bins.items() if k[1] == v for x in b[1]["notes"]))) for v in variants},
            "builds_left_out": sorted("%s does not compile" % v for v in lost),
            "build_s": round(t_build, 1),
            "components_real": REAL, "components_stubbed": sorted(set(x for p in plan for x in STUB[p[0]])),
            "host_features": sh([next(iter(bins.values()))[0], "info"]).stdout.strip(),
        },
        "assumptions": ["single memory model: clients are interleaved at observable steps with sequential consistency",
                        "GCC's -fsanitize=thread instrumentation reports every access to memory that is not provably local",
                        "results hold for the explored seeds, not for all inputs"],
        "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0,
    }
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if violation:
        path, m = rep
        print("%s %s: %s" % (prop, m["class"], m["msg"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if trouble:
        print("check error: " + trouble)
        return 2
    print("%s held on %d simulated runs (%d distinct, %d interleavings), %.0f s" % (prop, runs, distinct, inter, time.time() - t0))
    return 0


def main(a):
    try:
        if a[:1] == ["--replay"]:
            return replay(os.path.abspath(a[1]))
        if a[:1] == ["--setup"]:
            for s in SCN:
                build(s, sorted(set(v if usable(v, "") else base_of(v) for v in WAVES[s][0])))
            print("built")
            return 0
        if not a or a[0] not in PROPS:
            print(__doc__)
            return 2
        return check(a[0], a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick"))
    except Trouble as e:
        print("check error: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
