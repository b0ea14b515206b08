#!/usr/bin/env python3
"""Builds the harness of one property from /repo's working tree and searches seeds for a violation.

usage: check.py --prop C01 [--tier quick|thorough] [--replay FILE] [--build-only]
exit 0: property held on everything explored; 1: VIOLATION line printed; anything else: error of the check.
"""
import argparse, array, hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
sys.path.insert(0, VERIF)
from props import PROPS, BUILD_MODES  # noqa: E402

CXX = "clang++"
NW = int(os.environ.get("SIM_WORKERS", "8"))


# allocation functions of the C library that the code under test may call
WRAP = ["-Wl," + ",".join("--wrap=" + f for f in ("malloc", "calloc", "realloc", "aligned_alloc", "posix_memalign", "free"))]


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:20]


def tree_digest(root, exts=None):
    h = hashlib.sha256()
    for d, ds, fs in sorted(os.walk(root)):
        ds.sort()
        for f in sorted(fs):
            if exts and not f.endswith(exts):
                continue
            p = os.path.join(d, f)
            h.update(os.path.relpath(p, root).encode())
            with open(p, "rb") as s:
                h.update(s.read())
    return h.hexdigest()


def march():
    # -march=native is resolved by the compiler of the machine the check runs on, as the test suite does
    return ["-march=native"]


def compile_one(cmd, out):
    if os.path.exists(out):
        return None
    tmp = out + ".tmp%d" % os.getpid()
    r = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        return "$ %s\n%s" % (" ".join(cmd), r.stdout[-6000:])
    os.rename(tmp, out)
    return None


def build(props, jobs=8):
    """compiles what the given properties need; returns {prop: binary}"""
    bdir = os.path.join(VERIF, ".build")
    os.makedirs(bdir, exist_ok=True)
    seqd = tree_digest(os.path.join(REPO, "seq"))
    hd = tree_digest(os.path.join(VERIF, "harness"), (".hpp",)) + tree_digest(os.path.join(VERIF, "sim"))
    todo = {}  # out -> cmd
    rt = ["-std=c++17", "-O2", "-g1"] + march()

    def obj(src, flags, key):
        with open(os.path.join(VERIF, src), "rb") as f:
            k = sha(f.read(), " ".join(flags), key)
        out = os.path.join(bdir, os.path.basename(src).rsplit(".", 1)[0] + "-" + k + ".o")
        todo[out] = [CXX] + flags + ["-c", os.path.join(VERIF, src)]
        return out

    base = [obj("sim/simrt.cpp", rt, hd), obj("sim/driver.cpp", rt + ["-Wno-invalid-offsetof"], hd)]
    links = {}
    for p in props:
        objs = list(base)
        for ent in PROPS[p]["sources"]:
            src, mode, defs = ent if isinstance(ent, tuple) else (ent, "sim", [])
            flags = ["-std=c++17"] + BUILD_MODES[mode.split("+")[0]] + ([] if mode.endswith("+base") else march()) + ["-I" + REPO, "-I" + VERIF] + defs
            objs.append(obj(src, flags, hd + seqd))
        exe = os.path.join(bdir, p + "-" + sha(*objs, *WRAP))
        links[p] = (exe, objs)
    # long ones first
    order = sorted(todo.items(), key=lambda kv: ("simrt" in kv[0] or "driver" in kv[0]))
    with ThreadPoolExecutor(jobs) as ex:
        errs = [e for e in ex.map(lambda kv: compile_one(kv[1], kv[0]), order) if e]
    if errs:
        print("BUILD FAILED\n" + "\n".join(errs), file=sys.stderr)
        sys.exit(2)
    res = {}
    for p, (exe, objs) in links.items():
        e = compile_one([CXX, "-no-pie", "-rdynamic"] + WRAP + objs + PROPS[p].get("libs", []), exe)
        if e:
            print("LINK FAILED\n" + e, file=sys.stderr)
            sys.exit(2)
        res[p] = exe
    return res


def symbolise(exe, text):
    addrs = sorted(set(re.findall(r"@(0x[0-9a-f]+)", text)))
    if not addrs:
        return text
    for tool in ("llvm-symbolizer-18", "llvm-symbolizer", "addr2line"):
        t = shutil.which(tool)
        if t:
            break
    else:
        return text
    try:
        if "symbolizer" in t:
            out = subprocess.run([t, "--obj=" + exe, "-f=none", "--no-inlines"] + addrs, capture_output=True, text=True, timeout=60).stdout
            locs = [b.strip().split("\n")[0] for b in out.strip().split("\n\n")]
        else:
            out = subprocess.run([t, "-e", exe] + addrs, capture_output=True, text=True, timeout=60).stdout
            locs = out.strip().split("\n")
        m = dict(zip(addrs, locs))
        return re.sub(r"@(0x[0-9a-f]+)", lambda x: "@" + x.group(1) + "(" + m.get(x.group(1), "?").replace(REPO + "/", "") + ")", text)
    except Exception:
        return text


def load_known():
    """known-findings.json: findings (recorded, not repaired) and fixed (repaired; suppress nothing)"""
    p = os.path.join(VERIF, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.rstrip("\n")
            if line.startswith("finding: "):
                # finding: property=C01 class=X needle="..." text
                m = re.match(r'finding: property=(\S+) class=(\S+) needle="([^"]*)" (.*)', line)
                if m:
                    out.append(m.groups())
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--time", type=float)
    ap.add_argument("--scenarios")
    ap.add_argument("--replay")
    ap.add_argument("--build-only", action="store_true")
    ap.add_argument("--all", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    if a.build_only:
        build(list(PROPS) if a.all or not a.prop else a.prop.split(","))
        return 0
    prop = a.prop
    P = PROPS[prop]
    exe = build([prop])[prop]
    tbuild = time.time() - t0
    if a.replay:
        r = subprocess.run([exe, "--replay", a.replay], text=True, stdout=subprocess.PIPE)
        print(symbolise(exe, r.stdout), end="")
        return r.returncode
    tsec = a.time or (P.get("quick_s", 35) if a.tier == "quick" else P.get("thorough_s", 600))
    work = os.path.join(VERIF, ".build", "run-%s-%d" % (prop, os.getpid()))
    os.makedirs(work, exist_ok=True)
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    known = [k for k in load_known() if k[0] == prop]
    with open(os.path.join(work, "known"), "w") as f:
        for k in known:
            f.write("\t".join(k[:3]) + "\n")
    stop = os.path.join(work, "stop")
    procs = []
    for w in range(NW):
        cmd = [exe, "--prop", prop, "--scenarios", a.scenarios or ",".join(P["scenarios"]), "--seed", str(a.seed), "--wid", str(w), "--nw", str(NW),
               "--time", str(tsec), "--out", os.path.join(work, "out%d" % w), "--replaydir", rdir, "--known", os.path.join(work, "known"),
               "--stop", stop, "--hashes", os.path.join(work, "h%d" % w), "--mintime", "20" if a.tier == "quick" else "60"]
        procs.append(subprocess.Popen(cmd, stderr=open(os.path.join(work, "err%d" % w), "w")))
    rcs = [None] * NW
    hard = time.time() + tsec + 200
    while any(r is None for r in rcs):
        for i, p in enumerate(procs):
            if rcs[i] is None:
                rcs[i] = p.poll()
                if rcs[i] not in (None, 0):
                    open(stop, "w").close()
        if time.time() > hard:
            for p in procs:
                p.kill()
            print("workers did not finish", file=sys.stderr)
            return 2
        time.sleep(0.05)
    tot = {}
    viols, internals, samples = [], [], []
    ilv, states = set(), set()
    for w in range(NW):
        try:
            d = json.load(open(os.path.join(work, "out%d" % w)))
        except Exception as e:
            internals.append("worker %d: %s %s" % (w, e, open(os.path.join(work, "err%d" % w)).read()[-500:]))
            continue
        for k, v in d.items():
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                tot[k] = tot.get(k, 0) + v
            elif isinstance(v, dict) and k in ("faults", "policies", "probes", "scenarios", "known"):
                t = tot.setdefault(k, {})
                for kk, vv in v.items():
                    t[kk] = t.get(kk, 0) + vv
        samples += d["samples"]
        v = d["violation"]
        if v:
            (internals if "internal" in v else viols).append(v)
        for fn, st in (("h%d" % w, ilv), ("h%d.st" % w, states)):
            p = os.path.join(work, fn)
            if os.path.exists(p):
                ar = array.array("Q")
                ar.frombytes(open(p, "rb").read())
                st.update(ar)
    wall = time.time() - t0
    search = max(tot.get("wall", 1) / NW, 1e-9)
    runs = int(tot.get("runs", 0))
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": len(ilv),
        "rule": P["rule"] + " A run is non-trivial when the scheduler preempted a task at least once, a fault fired, or the harness marked it; "
                "distinct = distinct (hash of every event with its arguments, hash of the synchronisation order).",
        "samples": samples[:4],
        "runs_per_hour": int(runs / search * 3600),
        "seeds": "one seed per run: seed_i = mix(VERIF_SEED*golden + i), i < %d" % runs,
        "simulated_seconds": tot.get("simns", 0) / 1e9,
        "scheduling_points": int(tot.get("steps", 0)),
        "task_switches": int(tot.get("switches", 0)),
        "preemptions": int(tot.get("preempts", 0)),
        "synchronisation_operations": int(tot.get("syncs", 0)),
        "spurious_wakeups": int(tot.get("spurious_wakeups", 0)),
        "allocations_seen": int(tot.get("allocs", 0)),
        "faults_injected": {k: v for k, v in tot.get("faults", {}).items() if v},
        "schedulers": tot.get("policies", {}),
        "runs_per_scenario": tot.get("scenarios", {}),
        "probes": tot.get("probes", {}),
        "distinct_final_states": len(states),
        "real_code": P.get("real", "all of seq (headers of /repo), libstdc++ and libc code it calls"),
        "stubbed": P.get("stub", "heap (operator new/delete), pthread mutex/condition variable/rwlock, clocks, sleep and yield are the simulator's; threads are fibers"),
        "known_findings_hit": tot.get("known", {}),
        "build_s": round(tbuild, 1),
        "workers": NW,
    }
    ev = {"property": prop, "tier": a.tier, "seed": a.seed, "level": "exploration", "coverage": cov,
          "assumptions": P.get("assumptions", []) + [
              "sequentially consistent interleavings plus vector-clock race detection; hardware reorderings of relaxed atomics are not executed",
              "seeded sample of schedules and fault sequences, not an enumeration"],
          "wall_s": round(wall, 1), "violations": len(viols)}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(work, ignore_errors=True)
    hits = tot.get("known", {})
    for k in known:
        print("KNOWN-FINDING: property=%s %s (hit %d times in this run)" % (prop, k[3], hits.get(k[1] + "\t" + k[2], 0)))
    print("%s %s: %d simulated runs (%d/h), %d distinct, %.1f s simulated, %d preemptions, faults %s, %.0f s" %
          (prop, a.tier, runs, cov["runs_per_hour"], len(ilv), cov["simulated_seconds"], cov["preemptions"], sum(cov["faults_injected"].values()), wall))
    if viols:
        v = sorted(viols, key=lambda x: x["replay"])[0]
        print("%s: %s" % (v["class"], symbolise(exe, v["message"])))
        print("replay with: python3 %s --prop %s --replay %s" % (os.path.join(VERIF, "check.py"), prop, v["replay"]))
        print("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
        return 1
    if internals:
        print("INTERNAL: " + "; ".join(str(x) for x in internals), file=sys.stderr)
        return 2
    if runs < 50:
        print("too few runs", file=sys.stderr)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
