#!/usr/bin/env python3
"""Planted bugs.

seeds.py new SPEC.py     make /verif/seeded/<id> from a spec (ID, PROPERTY, EDITS, NEEDS, BREAKS, DEMO)
seeds.py verify [ids]    in scratch copies: applies, tests pass, demo 0 / nonzero, which checks catch it
Options: --checks own|all|none   --tier quick|thorough
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
STABLE = ["tests/test_05_constraints.py", "tests/test_08_trust_mark_file_db.py"]
DEMO_SH = """#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
gcc -O1 -shared -fPIC -o "$tmp/clock.so" "$here/fsmon/clock.c" -ldl || exit 3
cd_from=$PWD
export FSMON_REPO=$PWD FSMON_CLOCK=$tmp/clock.so LD_PRELOAD=$tmp/clock.so TMPDIR=$tmp
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH=$here TZ=UTC
timeout 200 /opt/venv/bin/python "$here/demo.py"
"""
DEMO_HEAD = '''import os, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from fsmon import boot
boot.setup()
from fsmon.boot import clock
from fsmon.net import net
from fsmon.serve import *
from fsmon.combos import *
from fsmon.world import *
os.chdir(tempfile.mkdtemp())


'''


def sh(cmd, cwd=None, env=None, timeout=880):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=timeout, text=True)
    return p.returncode, p.stdout


def copy_repo(dest):
    os.makedirs(dest)
    subprocess.run("git -C /repo archive HEAD | tar -x -C " + dest, shell=True, check=True)
    subprocess.run("git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x",
                   shell=True, cwd=dest, check=True)


def lib(dest):
    os.makedirs(f"{dest}/fsmon", exist_ok=True)
    for f in ("__init__.py", "boot.py", "net.py", "world.py", "keyimport.py", "clock.c",
              "keys.json", "serve.py", "combos.py"):
        shutil.copy(f"{V}/fsmon/{f}", f"{dest}/fsmon/{f}")
    for f in os.listdir(f"{V}/fsmon"):
        if f.startswith("w_"):
            shutil.copy(f"{V}/fsmon/{f}", f"{dest}/fsmon/{f}")


def new(spec):
    ns = {}
    exec(open(spec).read(), ns)
    d = f"{V}/seeded/{ns['ID']}"
    os.makedirs(d, exist_ok=True)
    with tempfile.TemporaryDirectory() as t:
        copy_repo(t + "/r")
        for path, old, newt in ns["EDITS"]:
            p = f"{t}/r/src/fedservice/{path}"
            s = open(p).read()
            if s.count(old) != 1:
                sys.exit(f"{ns['ID']}: {path}: {s.count(old)} matches of {old!r}")
            open(p, "w").write(s.replace(old, newt))
        _, diff = sh(["git", "diff"], cwd=t + "/r")
    open(f"{d}/patch.diff", "w").write(diff)
    open(f"{d}/demo.py", "w").write(DEMO_HEAD + ns["DEMO"].strip() + "\n")
    open(f"{d}/demo.sh", "w").write(DEMO_SH)
    os.chmod(f"{d}/demo.sh", 0o755)
    json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]},
              open(f"{d}/meta.json", "w"), indent=1)
    lib(d)
    return ns["ID"]


def touches_original(d):
    """Does the patch change lines the original repository had?"""
    base = sh(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"])[1].strip()
    cur, ok = None, False
    for line in open(f"{d}/patch.diff"):
        if line.startswith("--- a/"):
            cur = line[6:].strip()
            orig = sh(["git", "-C", "/repo", "show", f"{base}:{cur}"])[1].splitlines()
        elif line.startswith("-") and not line.startswith("---") and line[1:].strip():
            ok = ok or line[1:].rstrip("\n") in orig
    return ok


def verify(sid, checks, tier):
    d = f"{V}/seeded/{sid}"
    meta = json.load(open(f"{d}/meta.json"))
    res = {"id": sid, "property": meta["property"]}
    lib(d)
    with tempfile.TemporaryDirectory(prefix="seed-") as t:
        copy_repo(t + "/r")
        shutil.copytree(d, t + "/demo")
        env = dict(os.environ, PYTHONPATH=t + "/r/src", PYTHONDONTWRITEBYTECODE="1")
        rc, out = sh([t + "/demo/demo.sh"], cwd=t + "/r")
        res["clean"] = rc
        if rc:
            res["out"] = out[-1500:]
        rc, out = sh(["git", "apply", d + "/patch.diff"], cwd=t + "/r")
        if rc:
            res["apply"] = out[-500:]
            return res
        res["original"] = touches_original(d)
        rc, out = sh([t + "/demo/demo.sh"], cwd=t + "/r")
        res["patched"] = rc
        res["demo_says"] = out.strip().splitlines()[-1:] if out else ""
        shutil.copytree(t + "/r/tests", t + "/t/tests")
        os.remove(t + "/t/tests/__init__.py")
        rc, out = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", *STABLE],
                     cwd=t + "/t", env=env)
        res["stable"] = rc
        if checks != "none":
            todo = [meta["property"]] if checks == "own" else \
                [c["property"] for c in json.load(open(f"{V}/MANIFEST.json"))["checks"]]
            res["checks"] = {}
            shutil.copytree(V, t + "/v", ignore=shutil.ignore_patterns("seeded", ".git",
                                                                       "evidence"))
            for c in todo:
                rc, out = sh([PY, t + "/v/check.py", c, "--tier", tier], cwd=t + "/v",
                             env=dict(os.environ, FSMON_REPO=t + "/r"))
                m = re.findall(r"^--- (\S+)", out, re.M)
                res["checks"][c] = [rc] + (m or ([out[-300:]] if rc else []))
    return res


if __name__ == "__main__":
    a = sys.argv[1:]
    opt = {"--checks": "own", "--tier": "quick"}
    for k in list(opt):
        if k in a:
            i = a.index(k)
            opt[k] = a[i + 1]
            del a[i:i + 2]
    ids = []
    if a[0] == "new":
        ids = [new(s) for s in a[1:]]
    else:
        ids = a[1:] or sorted(os.listdir(f"{V}/seeded"))
    bad = 0
    with cf.ThreadPoolExecutor(3) as ex:
        for r in ex.map(lambda s: verify(s, opt["--checks"], opt["--tier"]), ids):
            ok = r.get("clean") == 0 and r.get("patched") and r.get("stable") == 0 and \
                r.get("original") and "apply" not in r
            own = r.get("checks", {}).get(r["property"], [None])[0]
            print("OK " if ok else "BAD", "caught" if own == 1 else f"MISSED({own})", json.dumps(r),
                  flush=True)
            bad += not ok
    sys.exit(bad > 0)
