#!/usr/bin/env python3
"""Planted bugs: builds seeded/<id>/ from a description and tries it.
   plant.py make FILE   (FILE defines SEEDS: dict id -> dict(prop, edits[(file,old,new)], needs, breaks, demo, flags?, libs?))
   plant.py try ID...   demo quiet on the clean tree; with the patch: builds, stable tests pass, demo fails, does the check catch it?
"""
import json, os, subprocess, sys, tempfile
V = "/verif"; R = "/repo"; S = V + "/seeded"

SH = '''#!/bin/bash
# run with cwd = the repository; exit 0 when the property holds
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 1
trap 'rm -rf "$d"' EXIT
%s -std=c++11 -g -w -include cstdint -I"$PWD" %s "$here/demo.cpp" %s -o "$d/demo" %s || exit 1
cd "$d" && timeout 100 ./demo
'''

def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, errors="replace", **k)

def make(path, only=None):
    ns = {}
    exec(open(path).read(), ns)
    for i, s in ns["SEEDS"].items():
        if only and i not in only:
            continue
        d = os.path.join(S, i)
        os.makedirs(d, exist_ok=True)
        assert sh("git -C /repo status --short").stdout == "", "repo dirty"
        for f, old, new in s["edits"]:
            p = os.path.join(R, f)
            t = open(p).read()
            n = t.count(old)
            if n != 1:
                sh("git -C /repo checkout -- .")
                raise SystemExit("%s: %d matches of %r in %s" % (i, n, old, f))
            open(p, "w").write(t.replace(old, new))
        open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        base = "".join(sh("git -C /repo show 92caa36:" + f).stdout for f, _, _ in s["edits"]).split("\n")
        gone = [l[1:] for l in open(d + "/patch.diff").read().split("\n") if l.startswith("-") and not l.startswith("---")]
        if not gone or not any(g in base for g in gone if g.strip()):
            print("   NOTE", i, "changes no original line", gone)
        sh("git -C /repo checkout -- .")
        open(d + "/demo.cpp", "w").write(s["demo"].lstrip())
        src = " ".join('"$PWD/%s"' % x for x in s.get("src", []))
        open(d + "/demo.sh", "w").write(SH % (s.get("cxx", "g++"), s.get("flags", "-O1"), src, s.get("libs", "")))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
        print("made", i)

def tryone(i, full=True):
    d = os.path.join(S, i)
    prop = json.load(open(d + "/meta.json"))["property"]
    assert sh("git -C /repo status --short").stdout == "", "repo dirty"
    res = {}
    r = sh("bash %s/demo.sh" % d, cwd=R)
    res["clean_demo"] = r.returncode
    if r.returncode:
        print(r.stdout[-1500:])
    r = sh("git -C /repo apply %s/patch.diff" % d)
    if r.returncode:
        print(i, "PATCH DOES NOT APPLY", r.stdout); return
    try:
        r = sh("bash %s/demo.sh" % d, cwd=R)
        res["demo"] = r.returncode
        out = r.stdout.strip().split("\n")
        res["demo_says"] = [l for l in out if l.strip()][:1] if not "ERROR" in r.stdout else [l for l in out if "ERROR" in l][:1]
        if full:
            b = sh("bash /opt/vp/build.sh")
            res["build"] = b.returncode
            sh("bash /opt/vp/test.sh /tmp/plant.json")
            base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable_pass", []) if False else [])
            t = json.load(open("/tmp/plant.json"))
            res["tests"] = summary(t)
        c = sh("VERIF_SEED=1 VERIF_TIER=quick python3 %s/run.py check %s quick" % (V, prop), cwd=V)
        res["check"] = c.returncode
        res["viol"] = [l for l in c.stdout.split("\n") if l.startswith("VIOLATION")][:1]
        if c.returncode not in (0, 1):
            print(c.stdout[-1500:])
    finally:
        sh("git -C /repo checkout -- .")
    ok = res["clean_demo"] == 0 and res["demo"] != 0 and res["check"] == 1
    print(i, prop, "OK" if ok else "**NOT**", res, flush=True)

def summary(t):
    b = json.load(open("/opt/vp/BASELINE.json"))
    names = b.get("tests") or b.get("stable") or b.get("passed") or b
    if isinstance(names, dict):
        names = list(names)
    passed = set(t.get("passed", [])) if isinstance(t, dict) else set()
    missing = [n for n in names if n not in passed]
    return "%d/%d %s" % (len(names) - len(missing), len(names), missing[:3])

if __name__ == "__main__":
    if sys.argv[1] == "make":
        make(sys.argv[2], set(sys.argv[3:]))
    else:
        args = sys.argv[2:]
        fast = "--fast" in args
        for i in [a for a in args if a != "--fast"] or sorted(os.listdir(S)):
            tryone(i, not fast)
