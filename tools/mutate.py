#!/usr/bin/env python3
"""Maintenance tool (never used by a check): small syntactic changes of
/repo's Python sources, to find ones no check reports.  Survivors are read by
hand: equivalent, or a hole in the checks.

    mutate.py FILE.py [-n COUNT] [-s SEED] [-l]
"""
import argparse
import ast
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
RUN = os.path.join(os.path.dirname(HERE), "run.py")
PY = "/opt/venv/bin/python"
S = "src/sentinel/"
SWAP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<",
        ast.Gt: ">=", ast.GtE: ">"}
BIN = {ast.BitAnd: "|", ast.BitOr: "&", ast.BitXor: "|", ast.Add: "-",
       ast.Sub: "+"}


def enums():
    out = {}
    for f in ("ucodefields", "csr", "insn"):
        for c in ast.walk(ast.parse(open(f"/repo/{S}{f}.py").read())):
            if isinstance(c, ast.ClassDef):
                ms = [s.targets[0].id for s in c.body
                      if isinstance(s, ast.Assign)
                      and isinstance(s.targets[0], ast.Name)
                      and s.targets[0].id.isupper()]
                if len(ms) > 1:
                    out[c.name] = ms
    return out


def mutants(path):
    src = open(path).read()
    lines = src.splitlines(keepends=True)
    off = [0]
    for x in lines:
        off.append(off[-1] + len(x.encode()))
    raw = src.encode()
    tree = ast.parse(src)
    E = enums()
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and \
                n.body and isinstance(n.body[0], ast.Expr) and \
                isinstance(n.body[0].value, ast.Constant):
            doc.add(n.body[0])
            doc.add(n.body[0].value)

    for n in ast.walk(tree):
        if isinstance(n, ast.ClassDef) and n.name == "DataPathSrcMux":
            doc.update(ast.walk(n))      # nothing instantiates it

    def span(n):
        return (off[n.lineno - 1] + n.col_offset,
                off[n.end_lineno - 1] + n.end_col_offset)

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()
    out = []

    def put(n, new, what):
        a, b = span(n)
        out.append((n.lineno, what, (raw[:a] + new.encode() + raw[b:])
                    .decode(), f"{text(n)[:50]!r} -> {new[:50]!r}"))
    for n in ast.walk(tree):
        if n in doc:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and \
                type(n.ops[0]) in SWAP:
            put(n, f"({text(n.left)} {SWAP[type(n.ops[0])]} "
                f"{text(n.comparators[0])})", "cmp")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            put(n, f"(({text(n.left)}) {BIN[type(n.op)]} "
                f"({text(n.right)}))", "bin")
            if isinstance(n.op, (ast.BitAnd, ast.BitOr)):
                put(n, f"({text(n.left)})", "left")
                put(n, f"({text(n.right)})", "right")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Invert):
            put(n, text(n.operand), "not")
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            for d in (1, -1):
                if n.value + d >= 0:
                    put(n, str(n.value + d), "const")
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            put(n, str(not n.value), "bool")
        elif isinstance(n, ast.Attribute) and n.attr in (
                lambda c: E.get(c, ()))(
                    n.value.attr if isinstance(n.value, ast.Attribute)
                    else getattr(n.value, "id", "")):
            c = n.value.attr if isinstance(n.value, ast.Attribute) \
                else n.value.id
            ms = E[c]
            i = ms.index(n.attr)
            put(n, f"{text(n.value)}.{ms[(i + 1) % len(ms)]}", "enum")
        elif isinstance(n, (ast.AugAssign,)) and "m.d" in text(n.target):
            put(n, "pass", "drop")
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
                n.func.id == "Mux":
            put(n, f"Mux({text(n.args[0])}, {text(n.args[2])}, "
                f"{text(n.args[1])})", "mux")
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                and n.func.attr in ("If", "Elif") and n.args:
            put(n.args[0], f"~({text(n.args[0])}).bool()", "cond")
            put(n.args[0], f"({text(n.args[0])}) & 0", "never")
        elif isinstance(n, ast.List) and len(n.elts) > 1 and all(
                isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute)
                and x.func.attr == "eq" for x in n.elts):
            for i in range(len(n.elts)):
                put(n, "[" + ", ".join(text(x) for j, x in enumerate(n.elts)
                                       if j != i) + "]", f"drop{i}")
        elif isinstance(n, ast.If):
            put(n.test, f"not ({text(n.test)})", "if")
        elif isinstance(n, ast.Raise):
            put(n, "pass", "noraise")
    return out


def run1(root, pid, tmo=900):
    try:
        r = subprocess.run([sys.executable, RUN, pid], capture_output=True,
                           text=True, timeout=tmo, env=dict(
                               os.environ, SA_REPO=root, SA_OUT=root + "/o"))
    except subprocess.TimeoutExpired:
        return 99, "timeout"
    return r.returncode, r.stdout


def judge(root, f, core):
    env = dict(os.environ, PYTHONPATH=f"{root}/src:{root}",
               PYTHONDONTWRITEBYTECODE="1")
    r = subprocess.run(
        [PY, "-m", "pytest", "-q", "-p", "no:cacheprovider",
         "tests/sim/test_ucode.py::test_ucode_layout_gen"], cwd=root,
        capture_output=True, text=True, env=env)
    if r.returncode:
        return "test"
    if core:
        r = subprocess.run([PY, os.path.join(HERE, "allprops.py")],
                           capture_output=True, text=True, env=dict(
                               env, SA_REPO=root, PYTHONHASHSEED="0"))
        return (r.stdout.split("properties=")[-1].splitlines() or
                ["crashed " + r.stderr[-200:]])[0]
    if f == "gen.py":
        c, _ = run1(root, "P41")
        return "P41" if c == 1 else f"SURVIVES {c}"
    r = subprocess.run([PY, "-c", (
        "import sys; sys.path.insert(0, '/verif/sa/stub')\n"
        "from sentinel.top import Top; from sentinel.formal import FormalTop\n"
        "from amaranth.back import rtlil\n"
        "rtlil.convert(Top()); rtlil.convert(FormalTop())")],
        capture_output=True, text=True, env=env)
    if r.returncode:
        return "does not elaborate"
    stages = [["P34", "P35", "P36", "P37", "P38", "P39", "P40", "P42"],
              ["P32", "P33", "P30", "P31"]]
    if f in ("formal.py",):
        stages = [["P30"], ["P26", "P27"], ["P28", "P29"]]
    hit, odd = [], []
    for st in stages:
        with ThreadPoolExecutor(4) as ex:
            for p, (c, t) in zip(st, ex.map(lambda p: run1(root, p), st)):
                if c == 1:
                    hit.append(p)
                elif c:
                    odd.append(f"{p}={c}")
        if hit:
            return " ".join(hit + odd)
    if f != "formal.py":
        r = subprocess.run([PY, os.path.join(HERE, "allprops.py")],
                           capture_output=True, text=True, env=dict(
                               env, SA_REPO=root, PYTHONHASHSEED="0"))
        t = r.stdout[-400:]
        if "properties=[]" not in t:
            return "core " + t[-200:].strip().split("properties=")[-1] + \
                " ".join(odd)
        for p in ("P26", "P27", "P28", "P29", "P22", "P43"):
            c, _ = run1(root, p)
            if c == 1:
                return p
            if c:
                odd.append(f"{p}={c}")
    return "SURVIVES " + " ".join(odd)


def main():
    a = argparse.ArgumentParser()
    a.add_argument("file")
    a.add_argument("-n", type=int, default=40)
    a.add_argument("-s", type=int, default=1)
    a.add_argument("-l", action="store_true")
    a.add_argument("-c", action="store_true",
                   help="which of P01-P29 report it, nothing else")
    a = a.parse_args()
    ms = mutants(f"/repo/{S}{a.file}")
    if a.l:
        print(len(ms))
        return
    random.Random(a.s).shuffle(ms)
    root = tempfile.mkdtemp(prefix="mut-")
    shutil.copytree("/repo", root + "/r", symlinks=True)
    root += "/r"
    try:
        p = os.path.join(root, S, a.file)
        for line, what, new, how in ms[:a.n]:
            with open(p, "w") as f:
                f.write(new)
            print(f"{a.file}:{line} {what} {how}: {judge(root, a.file, a.c)}",
                  flush=True)
    finally:
        shutil.rmtree(os.path.dirname(root))


main()
