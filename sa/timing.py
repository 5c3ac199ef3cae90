"""Documented clock counts ("Instruction Cycle Counts" of internals.md),
from one instruction acceptance to the next with memory that acknowledges in
the cycle after a request."""
from . import spec, paths
from .check import Finding
from .dom import FALSE, TRUE, G_IN

ALU = {"addi", "slti", "sltiu", "xori", "ori", "andi", "add", "sub", "slt",
       "sltu", "xor", "or", "and"}


def bounds(cls, D, taken):
    """[(condition, low, high)] for the normal regime."""
    g, n = cls.group, cls.name
    if n in ALU:
        return [(TRUE, 4, 4)]
    if g == "shift":
        op, k = n.split(":")
        k = int(k)
        if k == 0:
            c = 9 if op.endswith("i") else 10
        else:
            c = 7 + 2 * k
        return [(TRUE, c, c)]
    if g == "branch":
        return [(taken, 8, 8), (D.not_(taken), 7, 7)]
    if g == "jump":
        return [(TRUE, 7, 7)]
    if g == "store":
        return [(TRUE, 10, 10)]
    if g == "load":
        return [(TRUE, 9, 9)]
    if g in ("csr", "csr0"):
        return [(TRUE, 6, 10)]
    if n == "mret":
        return [(TRUE, 4, 8)]
    if g in ("int", "nop"):
        return [(TRUE, 4, 10)]
    return []


def check(chk, cls, r, res):
    D = r.D
    out = paths.cycles(chk, cls, r, res)
    if not out:
        return {}
    sync, T, eff = res.regime
    taken = eff.taken
    normal = D.and_(D.not_(T), D.not_(sync))

    def bad(what, path="-"):
        res.findings.append(Finding(
            cls.name, "normal", "cycles", what, path,
            chk.core.word_loc(r.infos and max(k[0] for k in r.infos))))
    shown = {}
    for n, p in sorted(out.items()):
        for cond, lo, hi in bounds(cls, D, taken):
            q = D.all_([p, normal, cond])
            res.oblig["normal", "cycles"] = res.oblig.get(
                ("normal", "cycles"), 0) + 1
            if q != FALSE and not lo <= n <= hi:
                bad(f"takes {n} clocks on some path, documented "
                    f"{lo if lo == hi else f'{lo} to {hi}'}")
        # trap entry: five clocks after the cycle of detection, overlapped
        # with the first cycle of the handler's fetch
        if cls.group in ("env", "illegal"):
            q = D.and_(p, D.or_(T, sync))
            extra = 1 if cls.name.startswith("illegal:73") else 0
            res.oblig["exception", "cycles"] = res.oblig.get(
                ("exception", "cycles"), 0) + 1
            if q != FALSE and not 7 <= n <= 7 + extra:
                bad(f"trap entry takes {n} clocks from acceptance to "
                    f"acceptance, documented 7{' or 8' if extra else ''}")
        shown[n] = True
    return {"clocks": sorted(shown)}
