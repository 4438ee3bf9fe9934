#!/usr/bin/env python3
"""Records the parameters' names of every function under contract in its contract (`@args`)."""
import glob, json, os, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
vx = sys.argv[1] if len(sys.argv) > 1 else os.path.join(V, "build/vx/release/vx")
args = {}
for u in glob.glob(os.path.join(V, "units/*.unit")):
    with tempfile.TemporaryDirectory() as d:
        subprocess.run([vx, "gen", u, "--repo", "/repo", "--verif", V, "--out", d + "/o.rs", "--meta", d + "/m.json"], check=True)
        for f in json.load(open(d + "/m.json"))["functions"]:
            args[(f["source"], f["path"])] = f.get("args")
for p in glob.glob(os.path.join(V, "contracts/*.vc")):
    out, src = [], ""
    lines = open(p).read().split("\n")
    i = 0
    for i, l in enumerate(lines):
        if l.startswith("@args"):
            continue
        out.append(l)
        if l.startswith("@source"):
            src = l.split()[1]
        if l.startswith("@fn"):
            path = l[3:].split("|")[0].strip()
            key = "".join(path.replace(" for ", " @").split())
            a = next((v for (s, q), v in args.items() if s == src and "".join(q.split()) == key), None)
            if a:
                out.append("@args " + " ".join(a))
    open(p, "w").write("\n".join(out))
