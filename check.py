#!/usr/bin/env python3
"""check.py <property id>: decides one property on /repo's current source.

1. proof: the units of the property are built from /repo's current source (lib/verus.py) and given to Verus.
2. real code: the harness (built against /repo) runs the executable form of the same contracts on the real code:
   it finds the failing input for a violation, and stands in (bounded, labelled) for what the proof does not reach.
Exit 0: held.  Exit 1 + VIOLATION line: broken.  Anything the machinery cannot decide is never an alarm.
"""
import sys, os, json, time, subprocess, shutil, resource, signal
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(HERE, "lib")]
import verus
from props import PROPS

ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_INCREMENTAL="1",
           RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", HOME="/root",
           PATH="/root/.cargo/bin:/usr/local/cargo/bin:" + os.environ.get("PATH", ""))
ENV.pop("CHOPPER_TZ", None)
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" or "--thorough" in sys.argv else "quick"

def build_harness():
    hd = os.path.join(HERE, "harness")
    cmd = ["cargo", "build", "--offline", "--locked", "--bins"]
    p = subprocess.run(cmd, cwd=hd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout

def lim():
    os.setsid()
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

def run_harness(pid, p, work):
    """-> dict(status=ok|fail|error, ...)"""
    d = os.path.join(work, "scratch")
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    exe = os.path.join(HERE, "harness/target/debug/h")
    cmd = [exe, p["harness"], str(SEED), TIER, d]
    t = time.time()
    q = subprocess.Popen(cmd, cwd=d, env=ENV, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", preexec_fn=lim)
    try:
        so, se = q.communicate(timeout=1500 if TIER == "thorough" else 420)
        rc = q.returncode
    except subprocess.TimeoutExpired:
        os.killpg(q.pid, signal.SIGKILL); so, se = q.communicate(); rc = "timeout"
    r = dict(cmd=" ".join(cmd), wall=time.time() - t, rc=rc)
    res = os.path.join(d, "result.json")
    if rc == 0 and os.path.exists(res):
        j = json.load(open(res, encoding="utf-8", errors="replace"))
        r.update(j, status="fail" if j["fails"] else "ok")
    else:
        crumb = ""
        try: crumb = open(os.path.join(d, "crumb"), errors="replace").read().split("\n\0\n")[0]
        except OSError: pass
        if rc == "timeout" or rc == 98 or not crumb:
            r.update(status="error", why=f"harness ended with {rc}: {se[-500:]}", cases=0, distinct=0, fails=[], samples=[])
        else:      # the code under test ended or hung the process while running this case
            how = "does not end" if rc == 97 else f"ended the process ({rc}): {se[-300:]}"
            r.update(status="fail", cases=1, distinct=1, samples=[crumb[:400]], fails=[dict(key=crumb.split(":")[0], case=crumb, why="the code under test " + how)])
    shutil.rmtree(d, ignore_errors=True)
    return r

def known(pid):
    out = []
    for l in open(os.path.join(HERE, "known_findings.txt")):
        if l.startswith("finding:") and f"property={pid} " in l:
            out.append((l.split("key=")[1].split()[0], l.split("|", 1)[1].strip()))
    return out

def main():
    pid = sys.argv[1]
    p = PROPS[pid]
    t0 = time.time()
    work = os.path.join(HERE, "work", pid)
    os.makedirs(work, exist_ok=True); os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True); os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
    with ThreadPoolExecutor(4) as ex:
        hb = ex.submit(build_harness)
        tl = 1200 if TIER == "thorough" else 300
        us = [ex.submit(verus.verify_unit, os.path.join(HERE, "units", u + ".vrs"), work, rlimit=120 if TIER == "thorough" else 40, timeout=tl, threads=3) for u in p["units"]]
        rc, out = hb.result()
        units = [u.result() for u in us]
    if rc != 0:
        print(out[-3000:]); print(f"ERROR: the harness does not build against {verus.REPO}"); return 2
    h = run_harness(pid, p, work)
    # ---- what the proof says
    fns = p.get("fns")
    bad, undecided = [], []
    for u in units:
        if u["status"] == "proved": print(f"proof {u['unit']}: {u['verified']} obligations discharged, {u['wall']:.1f}s")
        elif u["status"] == "failed":
            rel = [e for e in u["errors"] if e["fn"] is None and "aborting" not in e["msg"] or e["fn"] and (fns is None or fns(e["fn"]))]
            oth = [e for e in u["errors"] if e["fn"] and not (fns is None or fns(e["fn"]))]
            for e in rel: bad.append((u, e))
            if oth: undecided.append(f"{u['unit']}: obligations outside this property fail: " + "; ".join(f"{e['where']}: {e['msg']}" for e in oth))
            print(f"proof {u['unit']}: {u['verified']} discharged, {u['failed']} FAILED: " + "; ".join(f"{e['where']}: {e['msg']}" for e in u["errors"] if "aborting" not in e["msg"]))
        else:
            undecided.append(f"{u['unit']}: {u.get('why', '')}"[:1500]); print(f"proof {u['unit']}: undecided: {u.get('why', '')[:600]}")
    print(f"real code: {h['cases']} cases ({h['distinct']} distinct), {len(h['fails'])} failing, {h['wall']:.1f}s" + (f"; {h['why']}" if h["status"] == "error" else ""))
    kn = known(pid)
    new = [f for f in h["fails"] if f["key"] not in [k for k, _ in kn]]
    for k, what in kn:
        if any(f["key"] == k for f in h["fails"]): print(f"KNOWN-FINDING: property={pid} {what}")
    # ---- evidence
    obl = sum(u["verified"] + u["failed"] for u in units)
    dis = sum(u["verified"] for u in units)
    proved = bool(units) and all(u["status"] == "proved" for u in units)
    trusted = sorted({t for u in units for t in u.get("trusted", [])})
    cov = dict(
        obligations=obl, discharged=dis,
        checker_cmd="; ".join(u.get("cmd", "") for u in units),
        trusted_base=trusted,
        back_end="Verus 0.2026.09.13 (z3)", solver_ms=sum(u.get("smt_ms", 0) for u in units),
        units=[dict(unit=u["unit"], status=u["status"], obligations=u["verified"] + u["failed"], discharged=u["verified"], generated_sha=u.get("sha"), wall_s=round(u["wall"], 1),
                    functions_under_contract=[f"{f['file']}:{f['line']} {f['scope']}::{f['name']}" for f in u["fns"] if f.get("body", True) and not f.get("trusted")],
                    contracts_used_verified_elsewhere=[f"{f['file']}:{f['line']} {f['scope']}::{f['name']} (unit {f['verified_in']})" for f in u["fns"] if f.get("verified_in")],
                    vacuity_checked=u.get("vacuity_checked", 0), extraction_changes=u.get("subs", []), why=u.get("why")) for u in units],
        bounded=dict(what=p.get("bounded", ""), cmd=h["cmd"], failing=len(h["fails"])),
        evaluations=h["cases"], distinct_nontrivial=h["distinct"],
        rule="each case is an input (or graph of inputs) for the real code, made from VERIF_SEED or enumerated; distinct by its full text; the result is compared with the contract's executable form",
        samples=h["samples"] or ["none"],
    )
    nviol = 0
    viol = None
    rp = os.path.join(HERE, "replay", f"{pid}.json")
    if new:
        nviol = len(new)
        json.dump(dict(property=pid, kind="failing input on the real code", case=new[0]["case"], why=new[0]["why"], others=new[1:6], seed=SEED, tier=TIER, rerun=f"VERIF_SEED={SEED} VERIF_TIER={TIER} python3 check.py {pid}",
                       failed_obligations=[dict(where=e["where"], msg=e["msg"], verifier=e["rendered"]) for _, e in bad]), open(rp, "w"), indent=1)
        print("failing case:", new[0]["case"][:1500]); print("because:", new[0]["why"][:1500])
        viol = f"VIOLATION property={pid} replay={rp}"
    elif bad:
        nviol = len(bad)
        json.dump(dict(property=pid, kind="proof obligation that held no longer holds; no failing input found", obligations=[dict(unit=u["unit"], generated=u.get("gen"), where=e["where"], msg=e["msg"], verifier=e["rendered"]) for u, e in bad],
                       tried=h["cases"], rerun=f"python3 check.py {pid}"), open(rp, "w"), indent=1)
        viol = f"VIOLATION property={pid} replay={rp} no-failing-input-found"
    ev = dict(property=pid, tier=TIER, seed=SEED, level=("proof" if units and not undecided else "exploration"), coverage=cov,
              assumptions=p.get("assumes", []) + ["machine model: 64-bit usize; error texts and panics' texts are not modelled", "trusted declarations of the units: see coverage.trusted_base"] + (["UNDECIDED on this run, decided by the bounded check only: " + x for x in undecided]),
              wall_s=round(time.time() - t0, 1), violations=nviol)
    if not units: ev["coverage"]["explanation"] = "no unit: bounded check only"
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    if viol:
        print(viol); return 1
    if h["status"] == "error":
        if proved: print("the bounded check gave no answer; the proof is complete"); return 0
        print("ERROR: neither the proof nor the bounded check gave an answer"); return 2
    print(f"{pid} held: {'proved, ' if proved else ''}{h['cases']} cases on the real code")
    return 0

if __name__ == "__main__":
    sys.exit(main())
