#!/usr/bin/env python3
"""Decide one property by seeded simulation of the current /repo tree.

usage: check.py PROPERTY        (VERIF_SEED, VERIF_TIER from the environment)
       check.py --build         build everything
       check.py --replay FILE   re-execute a replay file
"""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(V, "sim")
NW = 8

# classes of violations by oracle
MEM = "use-after-free,double-free,bad-free,layout-mismatch,out-of-bounds,wild-access,data-race,segfault,trap,abort,panic,deref-,destructor-garbage,double-destroy,trace-"
SAFE = MEM + ",destroyed-reachable,lost-edge"
LEAK = "leak-,garbage-"
LIVE = "deadlock,livelock,hang,arena-exhausted"
HAND = "live-handle-dead-target,dead-handle-"
COND = "collected-uninvited,condition-ignored,wrong-condition,default-never-collects,default-too-often"
# property: (builds, classes, runs); run i uses build i mod the number of builds
PROPS = {
    "C01": ("base", SAFE + "," + HAND, 250000),
    "C02": ("base", SAFE, 250000),
    "C03": ("base", LEAK + "," + LIVE + ",panic,abort", 250000),
    "C04": ("base", LIVE + ",panic,abort", 200000),
    "C05": ("base", SAFE + "," + HAND, 300000),
    "C06": ("base", SAFE + "," + LEAK + "," + HAND + ",late-destroy", 300000),
    "C07": ("base", SAFE + "," + LEAK + "," + HAND + "," + LIVE, 250000),
    "C08": ("base", SAFE + "," + LEAK + "," + LIVE, 250000),
    "C09": ("base", "counter-,panic,abort", 250000),
    "C10": ("base", COND + "," + LIVE + ",panic,abort", 250000),
    "C11": ("base", SAFE + "," + LEAK + "," + LIVE + "," + HAND, 250000),
    "C12": ("base", SAFE + "," + LEAK + "," + LIVE, 250000),
    "C13": ("base", SAFE + "," + LEAK + "," + LIVE, 250000),
    "C14": ("base", SAFE + "," + LEAK + "," + LIVE + "," + HAND, 200000),
    "C15": ("base", SAFE + ",identity,lost-write", 250000),
    "C16": ("unsized swap", SAFE + "," + LEAK + "," + HAND, 250000),
    "C17": ("base", SAFE + "," + LEAK + ",late-destroy", 250000),
}
THOROUGH = 12  # times the quick number of runs
FAULTS = ["preemption", "thread stall", None, "spurious futex wake-up", "stale (reordered) atomic load", "clock jump",
          "futex wakes another waiter", "hash seed", "panic in destructor", "panic in trace method", "panic in condition",
          "condition returns true at random", None, "lock poisoned by panic", "lock guard held by stalled user code"]
RULE = ("One evaluation is one simulated run: a generated program (operations per thread, object shapes, containers, destructor "
        "behaviour, collection condition) executed under one seeded schedule and fault sequence. Non-trivial: more context switches than "
        "starting and ending the threads takes, or an automatic collection ran, or a sweep destroyed something. Distinct: by hash of the program together with the sequence of "
        "(thread, operation, step, next thread) at every context switch.")
REAL = ["dumpster (sync, unsync, derive output)", "parking_lot, parking_lot_core, lock_api, once_cell, smallvec, hashbrown", "std (precompiled; its futex, entropy, clock and yield calls are simulated)", "real OS threads, run one at a time"]
STUB = ["memory allocator (fixed addresses, no reuse, shadow state)", "futex, getrandom, clock_gettime, sched_yield, nanosleep", "thread scheduler"]


def binary(variant):
    return os.path.join(SIM, "target-" + variant, "x86_64-unknown-linux-gnu", "debug", "work")


def build(variant):
    with open(os.path.join(SIM, ".lock-" + variant), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run([os.path.join(SIM, "build.sh"), variant], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            sys.stdout.write(r.stdout[-6000:])
            print("ERROR: build failed")
            sys.exit(2)


def known(prop):
    """Entries 'known: property=<id> class=<class> site=<regex>' of known-findings.txt."""
    out = []
    p = os.path.join(V, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) class=(\S+) site=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out.append((m.group(2), re.compile(m.group(3)), m.group(4).strip()))
    return out


def describe(b, replay):
    """Re-execute a replay file in a fresh process; (class, symbolised stack, output)."""
    r = subprocess.run([b, "replay", replay], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    cls, stack = None, []
    for line in r.stdout.splitlines():
        m = re.match(r"status (\d) class (\S+) msg (.*)", line)
        if m and m.group(1) == "2":
            cls = m.group(2)
        if line.startswith("bt "):
            a = subprocess.run(["addr2line", "-Cfe", b] + line.split()[1:], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True).stdout.splitlines()
            for f, l in zip(a[::2], a[1::2]):
                if f != "??":
                    stack.append(f + " " + re.sub(r" \(discriminator.*", "", l))
    return cls, stack, r.stdout


def main():
    if sys.argv[1:] == ["--build"]:
        for v in sorted({v for p in PROPS.values() for v in p[0].split()}):
            build(v)
        return 0
    if sys.argv[1] == "--replay":
        m = re.search(r"^# build (\S+)", open(sys.argv[2]).read(), re.M)
        v = m.group(1) if m else "base"
        build(v)
        cls, stack, out = describe(binary(v), sys.argv[2])
        print(out)
        print("\n".join(stack))
        return 1 if cls else 0
    prop = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED") or 1)
    tier = os.environ.get("VERIF_TIER") or "quick"
    variants, classes, runs = PROPS[prop]
    variants = variants.split()
    if os.environ.get("VERIF_RUNS"):
        runs = int(os.environ["VERIF_RUNS"])
    elif tier == "thorough":
        runs *= THOROUGH
    t0 = time.time()
    for v in variants:
        build(v)
    tb = time.time() - t0
    out = os.path.join(SIM, "out", prop)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    # a private copy, so that a concurrent rebuild cannot change it under us
    for v in variants:
        shutil.copy2(binary(v), os.path.join(out, "work-" + v))
    build_of = lambda i: variants[i % len(variants)]
    exe_of = lambda i: os.path.join(out, "work-" + build_of(i))
    wall = 420 if tier == "quick" else 7200
    per = (runs + NW - 1) // NW
    t1 = time.time()
    ws = [subprocess.Popen([exe_of(w), "worker", "--prop", prop, "--seed", str(seed), "--tier", tier, "--from", str(w), "--step", str(NW),
                            "--count", str(per), "--wall", str(wall), "--max-viol", "3", "--classes", classes, "--out", out, "--core", str(w)],
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL) for w in range(NW)]
    rc = [w.wait() for w in ws]
    dt = time.time() - t1
    if any(rc):
        print(f"ERROR: worker exit codes {rc}")
        return 2
    R = [json.load(open(os.path.join(out, f"w{w}.json"))) for w in range(NW)]
    errors = [e for r in R for e in r["errors"]]
    tot = lambda k: sum(r[k] for r in R)
    vec = lambda k: [sum(x) for x in zip(*(r[k] for r in R))]
    import array
    inter, states = set(), set()
    for w in range(NW):
        a = array.array("Q")
        with open(os.path.join(out, f"w{w}.hashes"), "rb") as f:
            a.frombytes(f.read())
        inter.update(a[::2])
        states.update(a[1::2])
    inter.discard(0)
    faults, fruns = vec("faults"), vec("fault_runs")
    names = R[0]["probe_names"]
    probes, pruns = vec("probes"), vec("probe_runs")
    viol = sorted((v for r in R for v in r["violations"]), key=lambda v: v["index"])
    other, eg = {}, {}
    for r in R:
        for k, v in r["other"].items():
            other[k] = other.get(k, 0) + v
            eg.setdefault(k, r["other_eg"][k])
    n = tot("runs")
    # determinism: repeat the first runs of worker 0 in a fresh process and compare the hashes
    sub = min(200, n // NW)
    rep = os.path.join(out, "again")
    os.makedirs(rep)
    if sub:
        subprocess.run([exe_of(0), "worker", "--prop", prop, "--seed", str(seed), "--tier", tier, "--from", "0", "--step", str(NW), "--count", str(sub),
                        "--max-viol", "1000000", "--out", rep, "--core", "3"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, check=True)
        h1 = open(os.path.join(out, "w0.hashes"), "rb").read()[:16 * sub]
        h2 = open(os.path.join(rep, "w0.hashes"), "rb").read()[:len(h1)]
        if h1 != h2:
            errors.append("repeating the first runs in a fresh process gave different executions")
    sample = subprocess.run([exe_of(0), "gen", "--prop", prop, "--seed", str(seed), "--index", "1", "--tier", tier], stdout=subprocess.PIPE, text=True).stdout
    # report violations, one per class, minimised
    reports, kf, seen = [], [], set()
    rdir = os.path.join(V, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)
    kn = known(prop)
    for v in viol:
        if (v["class"] in seen and not kn) or len(reports) >= 3:
            continue
        seen.add(v["class"])
        exe = exe_of(v["index"])
        dst = os.path.join(rdir, f"{prop}-{v['class']}-{v['index']}.replay")
        src = v["file"]
        m = subprocess.run([exe, "minimise", src, dst, "--time", "30"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        ok = False
        for f in ([dst] if m.returncode == 0 else []) + [src]:
            d = [describe(exe, f) for _ in range(2)]
            if d[0][0] == v["class"] and d[0] == d[1]:
                if f != dst:
                    shutil.copy(f, dst)
                ok = True
                break
        if not ok:
            errors.append(f"violation at index {v['index']} ({v['class']}: {v['msg']}) did not replay: {m.stdout.strip()} {d[0][0]}")
            continue
        stack = d[0][1]
        hit = next((k for k in kn if k[0] == v["class"] and any(k[1].search(s) for s in stack)), None)
        if hit:
            if hit[2] not in kf:
                kf.append(hit[2])
            continue
        txt = open(dst).read()
        mm = re.search(r"^# (.*)", txt, re.M)
        with open(dst, "a") as f:
            f.write(f"# build {build_of(v['index'])}\n")
            f.write("".join(f"# at {s}\n" for s in stack[:30]))
        reports.append({"class": v["class"], "message": mm.group(1) if mm else v["msg"], "replay": os.path.relpath(dst, V), "run_index": v["index"], "seed": seed})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": n, "distinct_nontrivial": len(inter), "rule": RULE, "samples": [sample],
            "nontrivial_runs": tot("nontrivial"), "distinct_final_states": len(states),
            "planned_runs": per * NW, "all_planned_runs_done": all(r["complete"] for r in R),
            "simulated_runs_per_hour": int(n / max(dt, 1e-3) * 3600), "seeds_per_hour": int(n / max(dt, 1e-3) * 3600),
            "simulated_time_s": tot("simtime") / 1e9, "scheduling_points": tot("steps"), "context_switches": tot("switches"), "operations": tot("ops"),
            "decisions_recorded": tot("decisions"),
            "faults_injected": {FAULTS[i]: {"times": faults[i], "runs": fruns[i]} for i in range(len(FAULTS)) if FAULTS[i] and faults[i]},
            "faults_never_injected_here": [FAULTS[i] for i in range(len(FAULTS)) if FAULTS[i] and not faults[i]],
            "rare_conditions_reached": {names[i]: {"times": probes[i], "runs": pruns[i]} for i in range(len(names)) if probes[i]},
            "policies": dict(zip(["random walk", "priorities (PCT)", "bursts with stalls", "hot call sites", "stops inside collections", "few long stops"], vec("policies"))),
            "determinism_recheck_runs": sub, "real_code": REAL, "stubs": STUB,
            "observations_belonging_to_other_properties": {k: {"runs": v, "example": eg[k]} for k, v in other.items()},
            "violating_runs": tot("nviol"), "known_findings_seen": kf, "build_s": round(tb, 1),
        },
        "wall_s": round(time.time() - t0, 2),
        "assumptions": ["one seed of the search, a finite number of runs: absence of a violation is evidence, not proof",
                        "std is precompiled and not instrumented: its internal atomics are not scheduling points and order conservatively"],
        "violations": reports,
    }
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(out, ignore_errors=True)
    for k in kf:
        print(f"KNOWN-FINDING: property={prop} {k}")
    print(f"{prop}: {n} runs in {dt:.1f} s ({n/dt:.0f}/s), {len(inter)} interleavings, {tot('nviol')} violating runs; other: {other}")
    for r in reports:
        print(f"  {r['class']}: {r['message']}")
        print(f"VIOLATION property={prop} replay={r['replay']}")
    if reports:
        return 1
    if errors:
        print("ERROR: " + "; ".join(errors[:5]))
        return 2
    return 0


sys.exit(main())
