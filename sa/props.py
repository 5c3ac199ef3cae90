"""Property table: which instruction classes, regimes and observables decide
each property, and the other analyses it needs."""
from . import spec
from .check import ASPECTS, Finding

NORMAL, EXC, INT = "normal", "exception", "interrupt"
ALL = set(ASPECTS)
GENERIC = {"progress", "any"}


class Rule:
    """Classes x regimes x observables."""

    def __init__(self, sel, regimes, aspects):
        self.sel, self.regimes, self.aspects = sel, set(regimes), set(aspects)


def group(*gs):
    return lambda c: c.group in gs


def names(*ns):
    return lambda c: c.name in ns


def every(c):
    return True


def csr_of(*regs):
    return lambda c: c.group == "csr" and c.name.split(":")[1] in regs


def legal(c):
    return c.group != "illegal"


def plain_csr(c):
    """No CSR the trap machinery itself writes."""
    return c.group == "csr" and c.name.split(":")[1] in (
        "mie", "mtvec", "mscratch", "mip")


TRAPCSR = {"trapcsr", "mstatus"}
PROG = {"progress"}


def rules(*rs):
    return [Rule(*r) for r in rs]


P = {}


def prop(pid, rs=(), extra=(), lemma=False, views=False, min_classes=0,
         reset=False, special=None, formal=False):
    P[pid] = dict(rules=rules(*rs), extra=tuple(extra), lemma=lemma,
                  views=views, min_classes=min_classes, reset=reset,
                  special=special, formal=formal)


ANY = ("any",)
# P01 legality
prop("P01", [(group("illegal"), (EXC,), ALL),
             (group("illegal"), ANY, PROG),
             (lambda c: legal(c) and not csr_of("mepc", "mcause", "mstatus")(c)
              and c.name not in ("mret",), (NORMAL,), TRAPCSR),
             (csr_of("mepc", "mcause"), (NORMAL,), {"mstatus"}),
             (names("mret"), (NORMAL,), {"trapcsr"}),
             (csr_of("mstatus"), (NORMAL,), {"trapcsr"})],
     lemma=True, min_classes=550)
# P02 integer computation
prop("P02", [(group("int"), (NORMAL,), ALL), (group("int"), ANY, PROG)],
     lemma=True, min_classes=15)
# P03 shifts
prop("P03", [(group("shift"), (NORMAL,), ALL), (group("shift"), ANY, PROG)],
     lemma=True, min_classes=192)
# P04 branches
prop("P04", [(group("branch"), (NORMAL,), ALL), (group("branch"), ANY, PROG)],
     lemma=True, min_classes=6)
# P05 jumps
prop("P05", [(group("jump"), (NORMAL,), ALL), (group("jump"), ANY, PROG)],
     lemma=True, min_classes=2)
# P06 loads
prop("P06", [(group("load"), (NORMAL,), ALL), (group("load"), ANY, PROG)],
     lemma=True, min_classes=5)
# P07 stores
prop("P07", [(group("store"), (NORMAL,), ALL), (group("store"), ANY, PROG)],
     lemma=True, min_classes=3)
# P08 misaligned
prop("P08", [(group("load", "store", "branch", "jump"), (EXC,), ALL),
             (group("load", "store", "branch", "jump"), (NORMAL,),
              TRAPCSR | {"pc"}),
             (group("load", "store", "branch", "jump"), ANY, PROG)],
     lemma=True, min_classes=16)
# P09 precise synchronous exceptions
prop("P09", [(every, (EXC,), ALL), (every, ANY, PROG)],
     lemma=True, min_classes=550)
# P10 interrupts
prop("P10", [(every, (INT,), ALL),
             (lambda c: not csr_of("mepc", "mcause", "mstatus")(c) and
              c.name not in ("mret",), (NORMAL,), TRAPCSR),
             (every, (EXC,), {"trapcsr"}),
             (csr_of("mepc", "mcause"), (NORMAL,), {"mstatus"})],
     lemma=True, min_classes=550)
# P11 mret
prop("P11", [(names("mret"), (NORMAL,), ALL), (names("mret"), ANY, PROG)],
     lemma=True, min_classes=1)
# P12 CSR instructions
prop("P12", [(group("csr"), (NORMAL,), ALL), (group("csr"), ANY, PROG)],
     lemma=True, views=True, min_classes=42)
# P13 CSR address space
prop("P13", [(group("csr0"), (NORMAL, EXC), ALL),
             (group("csr0"), ANY, PROG),
             (plain_csr, (NORMAL,), TRAPCSR),
             (csr_of("mepc", "mcause"), (NORMAL,), {"mstatus"}),
             (csr_of("mstatus"), (NORMAL,), {"trapcsr"}),
             (lambda c: c.name.startswith("illegal:73"), (EXC,), ALL)],
     lemma=True, min_classes=50)
# P14 WARL fields
prop("P14", [(group("csr"), (NORMAL,), {"csr", "trapcsr", "mstatus", "rd"}),
             (lambda c: c.group not in ("csr", "illegal"),
              (NORMAL, EXC, INT), {"mstatus"})],
     lemma=True, views=True, min_classes=42, special="warl")
# P15 general registers
prop("P15", [(every, (NORMAL, EXC, INT), {"gpr"})], lemma=True,
     min_classes=550, reset="gpr")
# P16 CSR persistence
prop("P16", [(every, (NORMAL, EXC, INT), {"csr", "trapcsr", "mstatus"})],
     lemma=True, views=True, min_classes=550)
# P17 fence/wfi
prop("P17", [(group("nop"), (NORMAL,), ALL), (group("nop"), ANY, PROG)],
     lemma=True, min_classes=2)
# P18 wishbone handshake
prop("P18", [(every, ANY, {"cyc_stb", "hold", "stable", "drop"})],
     extra=("handshake",), min_classes=550, reset="bus")
# P19 instruction fetch
prop("P19", [(every, (NORMAL, EXC, INT), {"fetch", "pc"})], lemma=True,
     min_classes=550, reset="fetch")
# P20 data transactions
prop("P20", [(every, (NORMAL, EXC, INT),
              {"bus_n", "bus_adr", "bus_sel", "bus_we", "bus_dw"})],
     lemma=True, min_classes=550)
# P21 no influence of left-overs or unacknowledged data
prop("P21", [(every, ANY, {"taint"}), (every, ANY, PROG)], extra=("taint",),
     lemma=True, min_classes=550)
# P22 reset
prop("P22", reset="all")
# P23 progress
prop("P23", [(every, ANY, PROG)], extra=("progress",), min_classes=550)
# P24 clock counts
prop("P24", [(every, (NORMAL, EXC), {"cycles"}), (every, ANY, PROG)],
     extra=("cycles",), min_classes=550)
# P25 environment calls and breakpoints
prop("P25", [(group("env"), (EXC,), ALL), (group("env"), ANY, PROG),
             # no other word reports their causes
             (lambda c: c.name.startswith("illegal:73"), (EXC,), {"trapcsr"})],
     lemma=True, min_classes=10)
# P26-P29 the trace port of FormalTop
prop("P26", [(every, (NORMAL, EXC, INT, "any"), {"valid", "pc", "order"}),
             (every, ANY, PROG)], lemma=True, min_classes=550,
     formal=True, reset="retire")
prop("P27", [(every, (NORMAL, EXC, INT), {"rs", "rd"}), (every, ANY, PROG)],
     lemma=True, min_classes=550, formal=True)
prop("P28", [(every, (NORMAL, EXC, INT), {"mem"}), (every, ANY, PROG)],
     lemma=True, min_classes=550, formal=True)
prop("P29", [(every, (NORMAL,), {"csr", "csrmask", "csr0"}),
             (every, ANY, PROG)], lemma=True, min_classes=550, formal=True)


def classes_of(pid):
    """Classes a property needs, with the regimes to compare."""
    out = []
    for c in spec.all_classes():
        regs = set()
        hit = False
        for r in P[pid]["rules"]:
            if r.sel(c):
                hit = True
                regs |= r.regimes - {"any"}
        if hit:
            out.append((c, regs))
    return out


def concerns(pid, cls, f):
    """Does finding ``f`` of class ``cls`` break property ``pid``?"""
    return any(r.sel(cls) and f["regime"] in r.regimes and
               f["aspect"] in r.aspects for r in P[pid]["rules"])
