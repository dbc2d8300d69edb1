#!/usr/bin/env python3
"""writes seeded/<id>/ from the list below and confirms each: builds, stable tests pass, demo fails with the change and passes without.
usage: mkseed.py [id ...]     (works in a scratch copy of /repo, removed at the end)"""
import os, sys, subprocess, shutil, json
HERE = os.path.dirname(os.path.abspath(__file__))
from seeds import SEEDS, PRELUDE
W = "/tmp/seedrepo"
DEMO = '''#!/bin/bash
# run with cwd = the repository after it was built: exit 0 if the property holds in this demonstration
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh 2>/dev/null
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
repo=$PWD
w=$(mktemp -d) || exit 1
trap 'rm -rf "$w"' EXIT
cargo build --offline --locked --quiet || exit 1
rustc --edition 2018 --crate-name demo "$here/demo.rs" -o "$w/demo" --extern chopper="$repo/target/debug/libchopper.rlib" -L dependency="$repo/target/debug/deps" -A warnings || exit 1
cd "$w" && timeout 100 ./demo
'''
def sh(c, cwd=W, env=None): return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
ENVS = "export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH; . /opt/vp/env.sh; "
def tests():
    r = sh(ENVS + "cargo test --no-fail-fast --offline -- --test-threads 8 2>&1 | grep -E '^test |test result|error(\\[|:)'")
    ok = [l for l in r.stdout.split("\n") if l.startswith("test ") and l.endswith("ok")]
    bad = [l for l in r.stdout.split("\n") if "FAILED" in l or l.startswith("error")]
    return len(ok), bad
def main():
    ids = sys.argv[1:]
    if not os.path.exists(W): subprocess.check_call(["cp", "-a", "/repo", W])
    sh("git checkout -q -- .")
    for s in SEEDS:
        if ids and s["id"] not in ids: continue
        d = os.path.join(os.path.dirname(HERE), "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        f = os.path.join(W, s["file"])
        src = open(f).read()
        n = s.get("nth", 0)
        parts = src.split(s["old"])
        if len(parts) < 2 or len(parts) > 2 and "nth" not in s: print(s["id"], "BAD ANCHOR", len(parts) - 1); continue
        open(f, "w").write(s["old"].join(parts[:n + 1]) + s["new"] + s["old"].join(parts[n + 1:]))
        open(os.path.join(d, "patch.diff"), "w").write(sh("git diff").stdout)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO); os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "demo.rs"), "w").write(PRELUDE + s["demo"])
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
        ok, bad = tests()
        withp = sh("bash " + os.path.join(d, "demo.sh"))
        sh("git checkout -q -- ."); 
        os.utime(f)
        sh(ENVS + "cargo build --offline 2>&1")
        without = sh("bash " + os.path.join(d, "demo.sh"))
        good = ok == 32 and not bad and withp.returncode != 0 and without.returncode == 0 and "error[" not in withp.stdout
        print(s["id"], "OK" if good else "NOT GOOD", f"tests {ok} {bad} with {withp.returncode} without {without.returncode}", withp.stdout[-150:].replace("\n", " ") , "" if good else without.stdout[-600:])
        sys.stdout.flush()
if __name__ == "__main__": main()
