#!/usr/bin/env python3
"""Runs the same seeds of every check in several batches of processes (1, 3 and 8 workers, two values of VERIF_SEED)
and compares the hash of every event, the hash of the synchronisation order, the verdict and the number of steps.
usage: determinism.py [RUNS] [PROP...]"""
import os, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check
from props import PROPS
n = int(sys.argv[1]) if len(sys.argv) > 1 else 480
bad = 0
for prop in sys.argv[2:] or list(PROPS):
    exe = check.build([prop])[prop]
    for seed in (1, 77):
        maps = []
        for nw in (1, 3, 8):
            with tempfile.TemporaryDirectory() as d:
                ps = [subprocess.Popen([exe, "--prop", prop, "--scenarios", ",".join(PROPS[prop]["scenarios"]), "--seed", str(seed), "--wid", str(w), "--nw", str(nw),
                                        "--time", "600", "--runs", str((n + nw - 1) // nw), "--out", d + "/o%d" % w, "--replaydir", d, "--known", "/dev/null", "--stop", "",
                                        "--hashes", d + "/h%d" % w, "--hashlog", d + "/l%d" % w], stderr=subprocess.DEVNULL, env=dict(os.environ, PAD="x" * (nw * 37))) for w in range(nw)]
                for p in ps:
                    p.wait()
                m = {}
                for w in range(nw):
                    for l in open(d + "/l%d" % w):
                        k, v = l.split(" ", 1)
                        m[int(k)] = v
                maps.append(m)
        common = set(maps[0]) & set(maps[1]) & set(maps[2])
        diff = [i for i in common if not maps[0][i] == maps[1][i] == maps[2][i]]
        print("%s seed %d: %d runs in 3 batches (1, 3, 8 workers), %d differ %s" % (prop, seed, len(common), len(diff), diff[:3]), flush=True)
        bad += len(diff) + (len(common) < n * 9 // 10)
sys.exit(1 if bad else 0)
