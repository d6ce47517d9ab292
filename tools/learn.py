#!/usr/bin/env python3
"""Lists the failing cases of defects that are not repaired: learn.py ID... writes known/ID.bin from two runs of the
check on the unchanged tree (never called by a check). Both runs must fail in the same cases."""
import glob, os, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(V, "known"), exist_ok=True)
for pid in sys.argv[1:]:
    sets = []
    for tier in ("quick", "quick"):
        with tempfile.TemporaryDirectory() as d:
            subprocess.run([sys.executable, os.path.join(V, "run.py"), pid, "--tier", tier, "--learn", d + "/l"], stderr=subprocess.DEVNULL)
            s = set()
            for f in glob.glob(d + "/l.*"):
                b = open(f, "rb").read()
                s |= {b[i:i + 6] for i in range(0, len(b), 6)}
            sets.append(s)
    print(pid, len(sets[0]), "failing cases;", len(sets[0] ^ sets[1]), "of them not in both runs")
    out = os.path.join(V, "known", pid + ".bin")
    if sets[0] | sets[1]:
        open(out, "wb").write(b"".join(sorted(sets[0] | sets[1])))
