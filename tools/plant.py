#!/usr/bin/env python3
"""Maintenance tool (never used by a check): turns the tables in
tools/plants_*.py into /verif/seeded/<id>/, after confirming in a scratch copy
of /repo that the change applies, imports, passes the stable tests, and that
the demonstration separates the two trees.

    plant.py [-c] [id...]      -c: also run the property's check on the change
"""
import concurrent.futures as cf
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = "/opt/venv/bin/python"
EXTRA = []


def table():
    out = {}
    for f in sorted(glob.glob(os.path.join(HERE, "plants_*.py"))):
        ns = {}
        exec(compile(open(f).read(), f, "exec"), ns)
        for s in ns["SEEDS"]:
            assert s["id"] not in out, s["id"]
            out[s["id"]] = s
    return out


def copy(to):
    shutil.copytree("/repo", to, symlinks=True,
                    ignore=shutil.ignore_patterns("__pycache__", ".pytest_cache"))


def demo(d, repo):
    p = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=repo,
                       capture_output=True, text=True, timeout=280)
    return p.returncode, p.stdout[-3000:] + p.stderr[-1500:]


def plant(s, check):
    sid = s["id"]
    tmp = tempfile.mkdtemp(prefix="plant-")
    try:
        repo = os.path.join(tmp, "repo")
        copy(repo)
        for path, old, new in s["edits"]:
            p = os.path.join(repo, path)
            t = open(p).read()
            n = t.count(old)
            if n != 1:
                return sid, f"EDIT matches {n}x: {old[:60]!r}", None
            open(p, "w").write(t.replace(old, new))
        diff = subprocess.run(["git", "-C", repo, "diff"], capture_output=True,
                              text=True).stdout
        # a change to the microprogram is kept, but apart: it is not Python
        asm = any(e[0].endswith(".asm") for e in s["edits"])
        d = os.path.join(VERIF, "asm_bugs" if asm else "seeded", sid)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        json.dump({"property": s["property"], "needs": s["needs"],
                   "what_it_breaks": s["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        open(os.path.join(d, "demo.sh"), "w").write(
            '#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        for x in s.get("libs", ["simlib.py"]):
            shutil.copy(os.path.join(HERE, "plantlib", x), d)
        open(os.path.join(d, "demo.py"), "w").write(
            (("from simlib import *  # noqa: F403\n" if s.get("sim", True) else "")
             + s["demo"].strip() + ("\nfinish()\n" if s.get("sim", True) else "\n")))
        env = dict(os.environ)
        c0, o0 = demo(d, "/repo")
        c1, o1 = demo(d, repo)
        res = []
        if c0:
            res.append(f"demo fails on clean tree: {o0}")
        if not c1:
            res.append(f"demo passes with patch: {o1}")
        if "FAIL" not in o1:
            res.append(f"(demo crashed with patch: {o1[-300:]})")
        t = subprocess.run(
            [PY, "-m", "pytest", "-q", "-p", "no:cacheprovider",
             "tests/sim/test_ucode.py::test_ucode_layout_gen"],
            cwd=repo, capture_output=True, text=True,
            env=dict(env, PYTHONPATH=f"{repo}/src:{repo}"))
        if t.returncode:
            res.append("stable test fails: " + t.stdout[-800:])
        found = None
        if check:
            # a private copy of /verif's outputs is not needed: only the exit
            # code and the VIOLATION line matter
            pids = [s["property"]] + EXTRA
            found = {}
            for pid in pids:
                r = subprocess.run(
                    [sys.executable, os.path.join(VERIF, "run.py"), pid],
                    capture_output=True, text=True,
                    env=dict(env, SA_REPO=repo, SA_OUT=os.path.join(tmp, "o")))
                first = [x for x in r.stdout.splitlines()
                         if x.strip()][:4]
                found[pid] = (r.returncode, first, r.stderr[-300:])
        return sid, "; ".join(res) or "ok", found
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    args = sys.argv[1:]
    check = "-c" in args
    ids = [a for a in args if not a.startswith("-")]
    t = table()
    ids = ids or list(t)
    with cf.ThreadPoolExecutor(2 if check else 7) as ex:
        for sid, msg, found in ex.map(lambda i: plant(t[i], check), ids):
            print(f"{sid} [{t[sid]['property']}]: {msg}")
            for pid, (rc, first, err) in (found or {}).items():
                print(f"    {pid} exit {rc} " + " | ".join(x[:150] for x in first)
                      + (" ERR " + err if rc not in (0, 1) else ""))
            sys.stdout.flush()


main()
