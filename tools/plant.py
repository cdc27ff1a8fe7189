#!/usr/bin/env python3
"""Try planted bugs.   plant.py SPECS.py [id ...]   (SPECS defines BUGS = [...])
Each entry: id, prop, edits=[(file, old, new)], demo (C or shell body), needs,
breaks.  A bug is tried in /repo, which is put back afterwards; it is kept in
/verif/seeded/<id> when it applies, builds, passes the stable tests and its
demonstration tells the two trees apart.  Then the property's check is run on it."""
import importlib.util, json, os, subprocess, sys, time
R = "/repo"
SEEDED = "/verif/seeded"
DEMO = r'''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -r "$t"' EXIT
gcc -g %s-o "$t/demo" "$here/demo.c" -I lib/src lib/src/.libs/libcypher-parser.a -lm -lpthread && "$t/demo"
'''
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, errors="replace", **k)
def restore():
    sh("git -C /repo checkout -- .")
def build():
    r = sh("bash /opt/vp/build.sh", cwd=R)
    return r.returncode == 0, r.stdout[-1500:] + r.stderr[-1500:]
def stable():
    sh("bash /opt/vp/test.sh /tmp/plant.test.json", cwd=R)
    res = json.load(open("/tmp/plant.test.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    want = set(base if isinstance(base, list) else base.get("stable", base.get("passed", base.get("stable_tests", base.get("tests", [])))))
    ok = set(res.get("passed", []))
    return len(want & ok), sorted(want - ok)
def ours(diff):
    """Only lines of the original repository may be changed."""
    f, n = None, 0
    for l in diff.splitlines():
        if l.startswith("--- a/"): f = l[6:]
        elif l.startswith("@@"):
            a = l.split()[1][1:].split(",")
            start, cnt = int(a[0]), int(a[1]) if len(a) > 1 else 1
            if cnt:
                b = sh(f"git -C /repo blame -s -L {start},+{cnt} HEAD -- {f}").stdout
                if any(not x.startswith("^") for x in b.splitlines()): return "changes lines of a fix: " + b
                n += cnt
    return None if n else "changes no original line"
def main():
    spec = importlib.util.spec_from_file_location("specs", sys.argv[1])
    m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    only = set(sys.argv[2:])
    check = os.environ.get("CHECK", "1") == "1"
    for b in m.BUGS:
        if only and b["id"] not in only: continue
        d = f"{SEEDED}/{b['id']}"
        os.makedirs(d, exist_ok=True)
        restore()
        why = None
        for f, old, new in b["edits"]:
            s = open(f"{R}/{f}").read()
            if s.count(old) != 1: why = f"{f}: {s.count(old)} matches of {old[:50]!r}"; break
            open(f"{R}/{f}", "w").write(s.replace(old, new))
        if why is None:
            diff = sh("git -C /repo diff -U0").stdout
            why = ours(diff)
            open(f"{d}/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        if why is None:
            demo = b["demo"]
            if demo.startswith("#!"):
                open(f"{d}/demo.sh", "w").write(demo)
            else:
                open(f"{d}/demo.c", "w").write(demo)
                open(f"{d}/demo.sh", "w").write(DEMO % b.get("cflags", ""))
            for fn, tx in b.get("extra", {}).items(): open(f"{d}/{fn}", "w").write(tx)
            os.chmod(f"{d}/demo.sh", 0o755)
            json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
            ok, out = build()
            if not ok: why = "does not build: " + out
        if why is None:
            n, bad = stable()
            if bad: why = f"fails tests {bad[:5]} ({n} pass)"
        if why is None:
            r = sh(f"timeout 300 bash {d}/demo.sh", cwd=R)
            if r.returncode == 0: why = "demo passes with the change: " + r.stdout[-300:] + r.stderr[-300:]
        if why is None and check:
            for prop in b.get("checks", [b["prop"]]):
                t0 = time.time()
                r = sh(f"VERIF_SEED={os.environ.get('SEED', '1')} VERIF_TIER=quick python3 check.py {prop} quick", cwd="/verif")
                v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                mine = [l for l in v if f"property={prop} " in l + " "]
                print(f"{b['id']:26} {prop} rc={r.returncode} {'CAUGHT' if r.returncode == 1 and mine else 'MISSED'} {time.time() - t0:.0f}s {len(v)}", (r.stdout[:600] if not v else "\n      " + "\n      ".join(x[:240] for x in r.stdout.splitlines()[:3])), flush=True)
        restore()
        if why is None and os.environ.get("CLEAN", "1") == "1":
            build()
            r = sh(f"timeout 300 bash {d}/demo.sh", cwd=R)
            if r.returncode: why = f"demo fails on the unchanged tree: {r.returncode} {r.stdout[-500:]}{r.stderr[-500:]}"
        print(f"{b['id']:26} {'kept' if why is None else 'DROPPED ' + why}", flush=True)
        if why is not None: sh(f"rm -r {SEEDED}/{b['id']}")
    restore(); build()
main()
