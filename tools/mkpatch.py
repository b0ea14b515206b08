#!/usr/bin/env python3
"""mkpatch.py ID FILE <<< 'OLD\n=====\nNEW'  : makes /verif/seeded/ID/patch.diff from a replacement against /repo's HEAD (may be called for several files: appends)."""
import sys, os, subprocess, tempfile, shutil
sid, fn = sys.argv[1:3]
txt = sys.stdin.read()
d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded", sid)
os.makedirs(d, exist_ok=True)
tmp = tempfile.mkdtemp(prefix="mkp")
try:
    subprocess.check_call(["git", "clone", "-q", "--shared", os.environ.get("SIM_REPO", "/repo"), tmp + "/r"])
    r = tmp + "/r"
    p = d + "/patch.diff"
    if "--append" in sys.argv and os.path.exists(p):
        subprocess.check_call(["git", "-C", r, "apply", p])
    s = open(r + "/" + fn).read()
    for part in txt.split("\n#####\n"):
        old, new = part.split("\n=====\n")
        old, new = old.strip("\n"), new.strip("\n")
        nth = 0
        if old.startswith("@"):  # "@N" on a line of its own: the Nth occurrence
            l, old = old.split("\n", 1)
            nth = int(l[1:]) - 1
        else:
            assert s.count(old) == 1, (s.count(old), old)
        q = s.split(old)
        assert len(q) > nth + 1, (len(q) - 1, old)
        s = old.join(q[:nth + 1]) + new + old.join(q[nth + 1:])
    open(r + "/" + fn, "w").write(s)
    out = subprocess.check_output(["git", "-C", r, "diff"])
    open(p, "wb").write(out)
    print(out.decode())
    # lines removed/changed must be original ones
    base = subprocess.check_output(["git", "-C", r, "rev-list", "--max-parents=0", "HEAD"], text=True).split()[0]
    cur = 0
    for l in subprocess.check_output(["git", "-C", r, "diff", "-U0", "--", fn], text=True).splitlines():
        if l.startswith("@@"):
            a = l.split()[1][1:].split(",")
            n = int(a[1]) if len(a) > 1 else 1
            if n:
                b = subprocess.check_output(["git", "-C", r, "blame", "-s", "-L", "%s,+%d" % (a[0], n), "HEAD", "--", fn], text=True)
                for x in b.splitlines():
                    if not x.lstrip("^").startswith(base[:7]):
                        print("NOT ORIGINAL:", x)
            else:
                print("pure insertion after line", a[0])
finally:
    shutil.rmtree(tmp)
