"""mkseed.py FILE...: each FILE defines SEEDS = [dict(id, prop, needs, breaks, edits=[(file, old, new)], demo)].  Writes
/verif/seeded/<id>/ after confirming (in /repo, restored afterwards) that the change builds, passes the tests and is caught by its demonstration."""
import json, os, subprocess, sys, shutil, runpy

R = "/repo"
H = R + "/cpp/include/gatl/"
DEMO = """#!/bin/bash
# exit 0: the property holds; non-zero: it is broken
D=$(mktemp -d) || exit 99
trap 'rm -rf "$D"' EXIT
HERE=$(cd "$(dirname "$0")" && pwd)
g++-11 -std=c++17 -w -O1 -ftemplate-depth=4000 -I"$PWD/cpp/include" "$HERE/demo.cpp" -o "$D/demo" || exit 98
timeout 100 "$D/demo"
"""


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def undo():
    sh("git -C /repo checkout -q -- .")


def make(s):
    d = f"/verif/seeded/{s['id']}"
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "dirty /repo"
    os.makedirs(d, exist_ok=True)
    with open(d + "/demo.sh", "w") as f:
        f.write(DEMO)
    with open(d + "/demo.cpp", "w") as f:
        f.write(s["demo"].lstrip())
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    try:
        r = sh(f"bash {d}/demo.sh", cwd=R)
        if r.returncode:
            return f"demo fails on the unchanged tree: {r.returncode} {r.stdout[-300:]} {[x[:200] for x in r.stderr.splitlines() if 'error' in x][:3]}"
        for f, old, new in s["edits"]:
            p = H + f
            t = open(p).read()
            if t.count(old) != 1:
                return f"{f}: {t.count(old)} matches"
            open(p, "w").write(t.replace(old, new))
        open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        r = sh(f"bash {d}/demo.sh", cwd=R)
        if r.returncode == 0:
            return "demo passes with the change"
        dem = r.returncode
        msg = r.stdout[-150:]
        r = sh("bash /opt/vp/test.sh /tmp/w/seedtest.json")
        base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        ok = set(json.load(open("/tmp/w/seedtest.json"))["passed"])
        if base - ok:
            return f"tests fail: {sorted(base - ok)[:4]}"
        res = f"ok (demo exit {dem} {msg!r})"
        if "-c" in sys.argv:
            r = sh(f"python3-vt -m gatlver {s['prop']}", cwd="/verif")
            res += f"; check exit {r.returncode}: " + " / ".join(l[:160] for l in r.stdout.split("\n") if "VIOLATION" in l or "contracts" in l)[:600]
        return res
    finally:
        undo()


for f in sys.argv[1:]:
    if f.startswith("-"):
        continue
    for s in runpy.run_path(f)["SEEDS"]:
        r = make(s)
        if not r.startswith("ok"):
            shutil.rmtree(f"/verif/seeded/{s['id']}", ignore_errors=True)
        print(s["id"], s["prop"], r, flush=True)
sh("bash /opt/vp/build.sh")
