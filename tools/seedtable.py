#!/usr/bin/env python3
"""prints the table of section 3 of DESIGN.md: for each planted bug what the units of its property say about the patched tree"""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import props
print("| planted bug | property | decided by | needs |\n|---|---|---|---|")
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json")); pid = m["property"]
    P = props.PROPS[pid]; units = (P.get("units") if isinstance(P, dict) else P.units) or []
    t = tempfile.mkdtemp(prefix="seedtab.")
    for x in ("src", "chop", "Cargo.toml"): subprocess.run(["cp", "-r", "/repo/" + x, t])
    subprocess.run(["patch", "-s", "-p1", "-i", f"{V}/seeded/{d}/patch.diff"], cwd=t)
    hit = []
    for u in units:
        o = subprocess.run([sys.executable, V + "/lib/verus.py", f"{V}/units/{u}.vrs"], env=dict(os.environ, VP_REPO=t), capture_output=True, text=True).stdout
        l = next((x for x in o.split("\n") if x.startswith(u + " ")), "")
        if l.split()[1:2] == ["failed"]:
            hit += [f"obligation of `{x}`" for x in dict.fromkeys(re.findall(r"  -- src\S+ (?:::)?(.+)", o))]
        elif l.split()[1:2] == ["undecided"]: hit.append("undecided: bounded check")
    shutil.rmtree(t)
    print(f"| {d} | {pid} | {'; '.join(hit) or 'bounded check'} | {m.get('needs', '')} |", flush=True)
