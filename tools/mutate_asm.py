#!/usr/bin/env python3
"""Maintenance tool (never used by a check): small changes of
microcode.asm, to find ones no core check reports.  Survivors are read by
hand: equivalent, or a hole in the checks.

    mutate_asm.py [-n COUNT] [-s SEED] [-j JOBS] [-l]
"""
import argparse
import os
import random
import re
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
ASM = "src/sentinel/microcode.asm"
EXTRA = ["reg_write => 1", "pc_action => inc", "pc_action => load_alu_o",
         "latch_a => 1", "latch_b => 1", "reg_read => 1, reg_r_sel => "
         "insn_rs2", "reg_read => 1", "mem_req => 1", "insn_fetch => 1",
         "csr_op => read_csr", "csr_op => write_csr", "latch_adr => 1",
         "latch_data => 1", "except_ctl => latch_jal",
         "except_ctl => leave_int", "except_ctl => latch_load_adr",
         "write_mem => 1"]


def mutants():
    src = open(f"/repo/{ASM}").read()
    blank = re.sub(r"//[^\n]*", lambda m: " " * len(m.group()), src)
    enum = {}
    for m in re.finditer(r"(\w+): enum \{([^}]*)\}", blank):
        enum[m.group(1)] = [re.split(r"\s*=", x.strip(" \\\n"))[0].strip()
                            for x in re.split(r"[;,]", m.group(2))
                            if x.strip(" \\\n")]
    body = blank.index("fetch:\n")
    labels = re.findall(r"^\s*(\w+):", blank[body:], re.M)
    out = []

    def put(a, b, new, what):
        line = src[:a].count("\n") + 1
        out.append((src[:a] + new + src[b:],
                    f"{line}: {what} {src[a:b]!r} -> {new!r}"))
    rnd = random.Random(7)
    for m in re.finditer(r"(\w+)\s*=>\s*(\w+)", blank[body:]):
        a, b = m.start() + body, m.end() + body
        f, v = m.groups()
        e = b
        while e < len(src) and blank[e] in " \t":
            e += 1
        # drop, with the comma that goes with it
        if blank[e] == ",":
            put(a, e + 1, "", "drop")
        elif blank[:a].rstrip(" \\\n").endswith(","):
            c = blank[:a].rindex(",")
            put(c, b, "", "drop")
        if f in enum:
            for o in enum[f]:
                if o != v and o != "nop":
                    put(a, b, f"{f} => {o}", "enum")
        elif f == "target":
            for o in rnd.sample([x for x in labels if x != v], 3):
                put(a, b, f"target => {o}", "target")
        else:
            put(a, b, f"{f} => {1 - int(v in ('1', 'true'))}", "flip")
    for m in re.finditer(r"\b([A-Z][A-Z0-9_]{4,})\b(?!\()\s*,", blank[body:]):
        put(m.start() + body, m.end() + body, "", "drop")
    for m in re.finditer(r"JUMP_TO_OP_END\((\w+)\)", blank[body:]):
        for o in ("fast_epilog", "fast_epilog_csr", "fetch"):
            if o != m.group(1):
                put(m.start() + body, m.end() + body,
                    f"JUMP_TO_OP_END({o})", "end")
    for m in re.finditer(r";", blank[body:]):
        x = rnd.choice(EXTRA)
        a = m.start() + body
        st = blank[:a].rindex(";", 0, a)
        f = x.split(" ")[0]
        if "=>" in blank[st:a] and f not in blank[st:a]:
            put(a, a + 1, f", {x};", "add")
    return out


def judge(new):
    root = tempfile.mkdtemp(prefix="mut-")
    try:
        shutil.copytree("/repo/src", root + "/r/src", symlinks=True)
        with open(f"{root}/r/{ASM}", "w") as f:
            f.write(new)
        env = dict(os.environ, PYTHONPATH=f"{root}/r/src",
                   PYTHONDONTWRITEBYTECODE="1", SA_REPO=root + "/r",
                   PYTHONHASHSEED="0")
        try:
            r = subprocess.run([PY, os.path.join(HERE, "allprops.py")],
                               capture_output=True, text=True, env=env,
                               timeout=900)
        except subprocess.TimeoutExpired:
            return "TIMEOUT"
        if "properties=" not in r.stdout:
            return "crashed " + r.stderr[-160:].replace("\n", " ")
        t = r.stdout.split("properties=")[-1].splitlines()[0]
        u = r.stdout.split("undecided=")[-1].splitlines()[0][:80]
        return ("SURVIVES " + u) if t.startswith("[]") else t
    finally:
        shutil.rmtree(root)


def main():
    a = argparse.ArgumentParser()
    a.add_argument("-n", type=int, default=40)
    a.add_argument("-s", type=int, default=1)
    a.add_argument("-j", type=int, default=2)
    a.add_argument("-l", action="store_true")
    a = a.parse_args()
    ms = mutants()
    print(len(ms), flush=True)
    if a.l:
        return
    random.Random(a.s).shuffle(ms)
    with ThreadPoolExecutor(a.j) as ex:
        for (new, how), v in zip(ms, ex.map(lambda x: judge(x[0]), ms[:a.n])):
            print(f"{how}: {v}", flush=True)


main()
