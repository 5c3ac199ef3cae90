"""Entry point of every check:  run.py PROPERTY [--tier quick|thorough]."""
import argparse
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TRUSTED = [
    "Amaranth's elaboration of the design to its netlist IR (amaranth.hdl)",
    "m5meta/m5pre microcode assembler (the assembled words are analysed)",
    "the analysis engine /verif/sa (ROBDD domain, transfer functions of the "
    "IR cells, fixpoint)",
    "the oracle /verif/sa/spec.py as a reading of the RISC-V manuals and of "
    "doc/development/internals.md",
]
ASSUME = [
    "A slave acknowledges only a request that was already asserted in the "
    "previous clock cycle (documented two-cycle handshake minimum).",
    "irq is synchronous to clk (documented).",
]


class Outcome:
    def __init__(self):
        self.findings = []      # (key, text)
        self.obligations = 0
        self.cover = {}
        self.undecided = []

    def add(self, key, text):
        if key not in [k for k, _ in self.findings]:
            self.findings.append((key, text))


def known(pid):
    """Keys of recorded findings of a property (fixed entries excluded)."""
    out = {}
    try:
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            for line in f:
                w = line.split(None, 3)
                if len(w) == 4 and w[0] == "finding:" and \
                        w[1] == f"property={pid}" and w[2].startswith("key="):
                    out[w[2][4:]] = w[3].strip()
    except FileNotFoundError:
        pass
    return out


def core_check(pid, tier, o):
    from . import props, reset, runner, spec
    from .check import Checker, Finding
    from .frontend import AnalysisBroken, Unproven
    spec_p = props.P[pid]
    t0 = time.time()
    if spec_p["formal"]:
        from .rvfi import FormalChecker
        chk = FormalChecker()
    else:
        chk = Checker()
    core = chk.core
    o.cover["netlist"] = {
        "cells": len(core.d.cells), "flip_flop_bits": core.nff,
        "microwords": len(core.rom),
        "reachable_microwords": len(core.node_constants())}

    def take(f):
        d = f if isinstance(f, dict) else vars(f)
        key = f"{d['cls']}/{d['regime']}/{d['aspect']}"
        o.add(key, f"[{d['cls']}/{d['regime']}] {d['aspect']}: {d['what']}; "
              f"micropath {d['path']}; at {d['where']}")
    try:
        chk.gpr_row()
        lf, ln, words = chk.boundary_lemma()
        o.cover["accepting_microwords"] = [core.word_loc(u) for u in words]
    except Unproven as e:
        take(Finding("boundary", "accept", "fetch", str(e), "-", "-"))
        o.cover["stopped"] = "the instruction boundary is not established"
        return chk
    if spec_p["lemma"]:
        o.obligations += ln
        for f in lf:
            take(f)
    chk.csr_views()
    if spec_p["views"]:
        o.obligations += 32 * len(chk.csr_views())
        for f in chk.view_findings:
            take(f)
    if spec_p["formal"]:
        al, pt = chk.m.facts()
        o.cover["instrumentation_facts"] = {
            "registers_equal_to_the_pc": len(al), "register_ports": len(pt)}
    if spec_p["reset"]:
        rf, st = reset.analyse(chk)
        o.obligations += st["obligations"]
        o.cover["reset"] = st
        sel = {"all": None, "gpr": {"gpr"}, "bus": {"bus"},
               "fetch": {"fetch", "pc"},
               "retire": {"retire"}}[spec_p["reset"]]
        for f in rf:
            if sel is None or f.aspect in sel:
                take(f)
    todo = props.classes_of(pid)
    if len(todo) < spec_p["min_classes"]:
        raise AnalysisBroken(f"{len(todo)} instruction classes selected, "
                             f"{spec_p['min_classes']} expected")
    if todo:
        cl = [c for c, _ in todo]
        limit = 150 if tier == "quick" else 600
        extra = tuple(dict.fromkeys(("progress",) + spec_p["extra"]))
        recs = runner.run_classes(
            chk, cl, None, extra, limit, total=600 if tier == "quick" else 0,
            relevant=lambda c, r: any(props.concerns(pid, c, f)
                                      for f in r["findings"]))
        by = {c.name: c for c in cl}
        nodes, edges, empty, compared = set(), 0, 0, 0
        visits = bdd = 0
        for r in recs:
            if r["undecided"]:
                o.undecided.append((r["name"], r["undecided"]))
                continue
            if r["empty"]:
                empty += 1
                continue
            compared += 1
            nodes |= set(r["nodes"])
            edges += r["edges"]
            visits += r["visits"]
            bdd = max(bdd, r["bdd"])
            c = by[r["name"]]
            for k, n in r["oblig"].items():
                reg, asp = k.split("/")
                if any(x.sel(c) and reg in x.regimes and asp in x.aspects
                       for x in spec_p["rules"]):
                    o.obligations += n
            for f in r["findings"]:
                if props.concerns(pid, c, f):
                    take(f)
        o.cover.update(
            instruction_classes=len(cl), classes_without_words=empty,
            classes_compared=compared, microwords_on_class_paths=len(nodes),
            acceptance_edges_compared=edges, transfer_evaluations=visits,
            largest_bdd=bdd)
        # the rule must be able to fire: a wrong oracle is refuted
        if not o.findings:
            selftest(chk, pid, o)
    if spec_p["special"]:
        SPECIAL[spec_p["special"]](chk, o, tier)
    return chk


def selftest(chk, pid, o):
    """Positive control: the comparison must refute a wrong oracle."""
    from . import spec, paths, timing, taint, props
    from .frontend import AnalysisBroken
    wrong = spec.Cls("control:addi", 0x707F, 0x13,
                     lambda c: spec.Effect(c.pc4(), rd=c.D.add(
                         c.rs1, c.D.add(c.imm_i, c.k(1)))), "int")
    res, r = chk.run_class(wrong)
    if props.P[pid]["formal"]:
        # a trace port that claims a destination for every instruction
        from . import rvfi
        wrong = spec.Cls("control:fence", 0x707F, 0x0F,
                         lambda c: spec.Effect(c.pc4(), rd=c.k(0)), "int")
        res, r = chk.run_class(wrong)
        keep = chk.core.rvfi
        chk.core.rvfi = dict(keep, valid=(0,), pc_rdata=keep["pc_wdata"],
                             rs1_addr=keep["rs2_addr"],
                             mem_rmask=keep["ixl"] + keep["mode"])
        kc = chk.core.rcsr
        chk.core.rcsr = dict(kc, mscratch=kc["mcause"])
        try:
            res2, _ = chk.run_class(wrong)
        finally:
            chk.core.rvfi, chk.core.rcsr = keep, kc
        seen = {f.aspect for f in res2.findings}
        if "rd" not in {f.aspect for f in res.findings} or \
                not {"valid", "pc", "rs", "mem", "csr"} <= seen:
            raise AnalysisBroken("control: a wrong trace port is not refuted")
    elif not any(f.aspect == "rd" for f in res.findings):
        raise AnalysisBroken("control: a wrong oracle is not refuted")
    n = 1
    for x in props.P[pid]["extra"]:
        res.findings.clear()
        if x == "cycles":
            keep = timing.bounds
            timing.bounds = lambda *a: [(1, 99, 99)]
            try:
                timing.check(chk, wrong, r, res)
            finally:
                timing.bounds = keep
        elif x == "taint":
            keep = taint.arch_atoms
            taint.arch_atoms = lambda c: set()
            try:
                taint.check(chk, wrong, r, res)
            finally:
                taint.arch_atoms = keep
        elif x == "handshake":
            # a microword that stops requesting while the bus waits
            keep = paths.outputs_at
            paths.outputs_at = lambda fl, u, s, t: dict(
                keep(fl, u, s, t), cyc=(0,))
            try:
                paths.handshake(chk, wrong, r, res)
            finally:
                paths.outputs_at = keep
        elif x == "progress":
            g = paths.ack_graph(r)
            keep = paths.ack_graph
            for k in g:
                g[k] = [(e, c) for e, c in g[k] if not e.exit]
            paths.ack_graph = lambda _: g
            try:
                paths.progress(chk, wrong, r, res)
            finally:
                paths.ack_graph = keep
        if not res.findings:
            raise AnalysisBroken(f"control: rule {x} did not fire on its "
                                 "positive example")
        n += 1
    o.cover["positive_controls_fired"] = n


def initial(core, p):
    """Power-on value of one bit of a CSR view."""
    if p in (0, 1):
        return p
    n, _, _, lo, hi = p
    if n[0] == "h":
        v = core.init[n[1]]
    elif isinstance(n[0], tuple) and n[0][0] == "mem":
        row = 0
        for k, b in enumerate(n[0][2]):
            if b not in (0, 1):
                return None
            row |= b << k
        m = core.d.cells[core.ram]
        v = (m.init[row] if row < len(m.init) else 0) >> n[1] & 1
    else:
        v = 0
    return initial(core, hi if v else lo)


def warl(chk, o, tier):
    """Read-only fields of the CSR views, independent of any instruction."""
    from .frontend import loc
    fixed = {"mstatus": {i: 0 for i in range(32)},
             "mie": {i: 0 for i in range(32)},
             "mip": {i: 0 for i in range(32)},
             "mtvec": {}, "mepc": {}, "mscratch": {}, "mcause": {}}
    for b in (3, 7):
        del fixed["mstatus"][b]
    fixed["mstatus"][11] = fixed["mstatus"][12] = 1
    del fixed["mie"][11], fixed["mip"][11]
    views = chk.csr_views()
    for name, bits in fixed.items():
        if views[name] is None:
            continue
        for i, v in bits.items():
            o.obligations += 1
            if views[name][i] != v:
                o.add(f"view/{name}/fixed", f"{name} bit {i} does not always "
                      f"read as {v}; at {chk.csr_loc(name)}")
        low = {0: 0, 1: 0} if name in ("mtvec", "mepc") else {}
        for i, v in low.items():
            # inductive: initially so, and (class rules) after every write
            o.obligations += 1
            if initial(chk.core, views[name][i]) != v:
                o.add(f"view/{name}/initial", f"{name} bit {i} is not {v} "
                      f"at power-on; at {chk.csr_loc(name)}")
        for i in range(32):
            if i not in bits and i not in low and views[name][i] in (0, 1):
                o.add(f"view/{name}/stuck", f"{name} bit {i} is stuck at "
                      f"{views[name][i]}; at {chk.csr_loc(name)}")


SPECIAL = {"warl": warl}


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args(argv)
    if a.setup:
        from . import frontend  # noqa: F401
        print("setup ok")
        return 0
    pid, tier = a.property, a.tier
    t0 = time.time()
    sys.setrecursionlimit(100000)
    o = Outcome()
    rc = 2
    try:
        from . import checks
        checks.run(pid, tier, o)
        rc = finish(pid, tier, o, t0)
    except Exception as e:
        if type(e).__name__ == "AnalysisBroken":
            print(f"ANALYSIS-BROKEN property={pid}: {e}")
        else:
            traceback.print_exc(file=sys.stdout)
            print(f"ANALYSIS-BROKEN property={pid}: {type(e).__name__}")
        if o.findings:
            rc = finish(pid, tier, o, t0)
    sys.stdout.flush()
    return rc


def finish(pid, tier, o, t0):
    kn = known(pid)
    new = []
    for key, text in o.findings:
        if key in kn:
            print(f"KNOWN-FINDING: property={pid} {key} {kn[key]}")
        else:
            new.append((key, text))
    for n, why in o.undecided[:5]:
        print(f"undecided: {n}: {why.strip().splitlines()[-1]}")
    from . import checks
    base = os.environ.get("SA_OUT", VERIF)
    os.makedirs(os.path.join(base, "evidence"), exist_ok=True)
    wall = round(time.time() - t0, 2)
    level, expl, trusted, assume = checks.about(pid)
    cov = dict(o.cover)
    cov["obligations"] = o.obligations
    cov["discharged"] = max(0, o.obligations - len(o.findings)) \
        if o.obligations else 0
    cov["undecided"] = [n for n, _ in o.undecided]
    cov["checker_cmd"] = f"/opt/venv/bin/python run.py {pid} --tier {tier}"
    cov["trusted_base"] = trusted
    cov["explanation"] = expl
    ev = {"property": pid, "tier": tier,
          "seed": int(os.environ.get("VERIF_SEED", "1")), "level": level,
          "coverage": cov, "assumptions": assume, "wall_s": wall,
          "violations": len(new)}
    with open(os.path.join(base, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    small = {k: v for k, v in cov.items() if not isinstance(v, (list, dict))
             and k not in ("explanation", "checker_cmd")}
    print(f"property={pid} tier={tier} " + " ".join(
        f"{k}={v}" for k, v in small.items()) + f" wall_s={wall}")
    if new:
        os.makedirs(os.path.join(base, "out"), exist_ok=True)
        path = os.path.join(base, "out", f"{pid}.txt")
        with open(path, "w") as f:
            for key, text in new:
                f.write(f"{key}\n  {text}\n")
        for key, text in new[:12]:
            print(text)
        if len(new) > 12:
            print(f"... {len(new) - 12} more in {path}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if o.undecided:
        print(f"ANALYSIS-BROKEN property={pid}: {len(o.undecided)} classes "
              "undecided")
        return 2
    print(f"OK property={pid}")
    return 0
