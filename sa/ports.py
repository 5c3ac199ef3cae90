"""The port contract of the generated modules: names, directions and widths of
the ports of Top and FormalTop, against the documented bus interface, the RVFI
specification and the wrapper that instantiates the core."""
import os
import re
import warnings

from amaranth.hdl import _ir

from .frontend import AnalysisBroken, Design, REPO, build_top

BUS = dict(bus__adr=("o", 30), bus__dat_w=("o", 32), bus__dat_r=("i", 32),
           bus__sel=("o", 4), bus__cyc=("o", 1), bus__stb=("o", 1),
           bus__we=("o", 1), bus__ack=("i", 1))
BASE = dict(BUS, irq=("i", 1), clk=("i", 1), rst=("i", 1))
RVFI = dict(valid=1, order=64, insn=32, trap=1, halt=1, intr=1, mode=2, ixl=2,
            rs1_addr=5, rs2_addr=5, rs1_rdata=32, rs2_rdata=32, rd_addr=5,
            rd_wdata=32, pc_rdata=32, pc_wdata=32, mem_addr=32, mem_rmask=4,
            mem_wmask=4, mem_rdata=32, mem_wdata=32)
CSRS = ("mscratch mcause mip mie mstatus mtvec mepc mvendorid marchid mimpid "
        "mhartid mconfigptr misa mstatush mcountinhibit mtval mcycle minstret "
        "mhpmcounter3 mhpmevent3").split()
# 64 bits wide on a 32-bit core (riscv-formal's csrs: mcycle, minstret,
# mhpmcounter3 are compared through 64-bit ports)
WRAPPER = "tests/formal/wrapper.sv"


def ports(d):
    out = {n: ("i", w) for n, (s, w) in d.top.ports_i.items()}
    out.update({n: ("o", len(v)) for n, v in d.top.ports_o.items()})
    return out


def connected(path):
    """Port names a Verilog wrapper connects on the instance of the core, with
    its own function-like macros expanded."""
    try:
        with open(path) as fp:
            text = fp.read()
    except OSError:
        return None
    text = re.sub(r"//[^\n]*", "", text).replace("\\\n", " ")
    macros = {}
    for m in re.finditer(r"`define\s+(\w+)\((\w+)\)([^\n]*)", text):
        macros[m[1]] = (m[2], m[3])
    text = re.sub(r"`define[^\n]*", "", text)
    m = re.search(r"\bsentinel\s+\w+\s*\((.*?)\);", text, re.S)
    if not m:
        return None
    body = m[1]
    for name, (arg, rep) in macros.items():
        def expand(k, arg=arg, rep=rep):
            s = rep.replace(f"``{arg}``", k[1]).replace(f"``{arg}", k[1])
            s = s.replace(f"{arg}``", k[1])
            return re.sub(rf"\b{arg}\b", k[1], s)
        body = re.sub(rf"`{name}\((\w+)\)", expand, body)
    return re.findall(r"\.(\w+)\s*\(", body)


def check(o, what, have, want, at):
    for n, (dr, w) in want.items():
        o.obligations += 1
        if n not in have:
            o.add(f"{what}/missing/{n}", f"{what} has no port {n}; at {at}")
        elif have[n] != (dr, w):
            d = {"i": "input", "o": "output"}
            o.add(f"{what}/shape/{n}", f"port {n} of {what} is "
                  f"{d[have[n][0]]} [{have[n][1]}], documented is {d[dr]} "
                  f"[{w}]; at {at}")


def contract(o, tier):
    plain = ports(build_top())
    at = "src/sentinel/top.py: Top"
    check(o, "Top", plain, BASE, at)
    for n in sorted(set(plain) - set(BASE)):
        o.add(f"Top/extra/{n}", f"Top has an undocumented port {n}; at {at}")
    try:
        from sentinel.formal import FormalTop
    except ImportError as e:
        raise AnalysisBroken(f"cannot import sentinel.formal: {e}") from e
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        d = Design(FormalTop(), name="sentinel")
    have = ports(d)
    at = "src/sentinel/formal.py: FormalTop"
    want = dict(BASE)
    want.update({"rvfi__" + k: ("o", w) for k, w in RVFI.items()})
    for c in CSRS:
        w = 64 if c in ("mcycle", "minstret", "mhpmcounter3") else 32
        for f in ("rmask", "wmask", "rdata", "wdata"):
            want[f"rvfi__csr__{c}__{f}"] = ("o", w)
    check(o, "FormalTop", have, want, at)
    names = connected(os.path.join(REPO, WRAPPER))
    n = 0
    for x in names or ():
        n += 1
        o.obligations += 1
        if x not in have:
            o.add(f"wrapper/{x}", f"the wrapper connects port {x}, which "
                  f"FormalTop does not have; at {WRAPPER} and {at}")
    if names is not None:
        for x in sorted(k for k, v in have.items()
                        if v[0] == "i" and k not in names):
            o.add(f"wrapper/open/{x}", f"the wrapper leaves input {x} "
                  f"unconnected; at {WRAPPER} and {at}")
    # an output bit nothing drives is a port in name only
    driven = 0
    for comp, dd in (("Top", build_top()), ("FormalTop", d)):
        for k, v in dd.top.ports_o.items():
            for b, net in enumerate(v):
                driven += 1
                if k in BUS and int(net) <= 1:
                    o.add(f"{comp}/constant/{k}", f"output {k} bit {b} of "
                          f"{comp} is the constant {int(net)}")
                    break
    o.obligations += driven
    o.cover.update(ports_of_top=len(plain), ports_of_formaltop=len(have),
                   wrapper_connections=n, output_bits=driven)
