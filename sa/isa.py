"""Declared RISC-V encodings: the CSR names, field layouts and cause codes of
csr.py, and the instruction view and constants of insn.py."""
import enum as pyenum

from .frontend import AnalysisBroken, Design
from .dom import FALSE
from .micro import Cmp, Unit

CSRPY, INSNPY = "src/sentinel/csr.py", "src/sentinel/insn.py"


def spec_addresses():
    """Machine-mode CSR addresses (privileged specification, table 2.5f.)."""
    a = dict(MVENDORID=0xF11, MARCHID=0xF12, MIMPID=0xF13, MHARTID=0xF14,
             MCONFIGPTR=0xF15, MSTATUS=0x300, MISA=0x301, MEDELEG=0x302,
             MIDELEG=0x303, MIE=0x304, MTVEC=0x305, MCOUNTEREN=0x306,
             MSTATUSH=0x310, MEDELEGH=0x312, MSCRATCH=0x340, MEPC=0x341,
             MCAUSE=0x342, MTVAL=0x343, MIP=0x344, MTINST=0x34A,
             MTVAL2=0x34B, MENVCFG=0x30A, MENVCFGH=0x31A, MSECCFG=0x747,
             MSECCFGH=0x757, MCYCLE=0xB00, MINSTRET=0xB02, MCYCLEH=0xB80,
             MINSTRETH=0xB82, MCOUNTINHIBIT=0x320, TSELECT=0x7A0,
             TDATA1=0x7A1, TDATA2=0x7A2, TDATA3=0x7A3, MCONTEXT=0x7A8,
             DCSR=0x7B0, DPC=0x7B1, DSCRATCH0=0x7B2, DSCRATCH1=0x7B3)
    for i in range(16):
        a[f"PMPCFG{i}"] = 0x3A0 + i
    for i in range(64):
        a[f"PMPADDR{i}"] = 0x3B0 + i
    for i in range(3, 32):
        a[f"MHPMCOUNTER{i}"] = 0xB00 + i
        a[f"MHPMCOUNTER{i}H"] = 0xB80 + i
        a[f"MHPMEVENT{i}"] = 0x320 + i
    return a


CAUSES = dict(INSN_MISALIGNED=0, INSN_FAULT=1, ILLEGAL_INSN=2, BREAKPOINT=3,
              LOAD_MISALIGNED=4, LOAD_FAULT=5, STORE_MISALIGNED=6,
              STORE_FAULT=7, ECALL_UMODE=8, ECALL_SMODE=9, ECALL_MMODE=11,
              INSN_PAGE_FAULT=12, LOAD_PAGE_FAULT=13, STORE_PAGE_FAULT=15,
              SSOFT_INT=1, MSOFT_INT=3, STIMER_INT=5, MTIMER_INT=7,
              SEXT_INT=9, MEXT_INT=11)
# names as the source spells them, where it differs
OPCODES = dict(LOAD=0x03, CUSTOM_0=0x0b, MISC_MEM=0x0f, OP_IMM=0x13,
               AUIPC=0x17, STORE=0x23, OP=0x33, LUI=0x37, BRANCH=0x63,
               JALR=0x67, JAL=0x6f, SYSTEM=0x73)
WORDS = dict(ECALL=0x00000073, EBREAK=0x00100073, MRET=0x30200073,
             WFI=0x10500073)
CSRF3 = dict(RW=1, RS=2, RC=3, RWI=5, RSI=6, RCI=7)
FIELDS = {
    "MStatus": dict(mie=(3, 1), mpie=(7, 1), mpp=(11, 2)),
    "MTVec": dict(mode=(0, 2), base=(2, 30)),
    "MIP": dict(msip=(3, 1), mtip=(7, 1), meip=(11, 1)),
    "MIE": dict(msie=(3, 1), mtie=(7, 1), meie=(11, 1)),
    "MCause": dict(cause=(0, 31), interrupt=(31, 1)),
}


def views(x):
    """Attribute path of Insn -> bits of the instruction word ``x``."""
    s = x[31]
    return {
        "raw": x, "opcode": x[2:7], "rd": x[7:12], "funct3": x[12:15],
        "rs1": x[15:20], "rs2": x[20:25], "funct7": x[25:32],
        "funct12": x[20:32], "sign": (s,),
        "imm.raw": x, "imm.sign": (s,),
        "imm.I": x[20:31] + (s,) * 21,
        "imm.S": x[7:12] + x[25:31] + (s,) * 21,
        "imm.B": (FALSE,) + x[8:12] + x[25:31] + (x[7],) + (s,) * 20,
        "imm.U": (FALSE,) * 12 + x[12:32],
        "imm.J": (FALSE,) + x[21:31] + (x[20],) + x[12:20] + (s,) * 12,
        "csr.raw": x[20:32], "csr.addr": x[20:32], "csr.quadrant": x[28:30],
        "csr.access": x[30:32],
    }


def table(o, cls, want, where):
    """Members of a source enumeration against the specification's table."""
    got = {k: v for k, v in cls.__members__.items()} if isinstance(
        cls, pyenum.EnumMeta) else vars(cls)
    n = 0
    for k, v in want.items():
        if k not in got:
            continue
        n += 1
        o.obligations += 1
        g = getattr(got[k], "value", got[k])
        if g != v:
            o.add(f"{cls.__name__}.{k}", f"{cls.__name__}.{k} is {g:#x}, "
                  f"the specification says {v:#x}; at {where}: "
                  f"{cls.__qualname__}")
    if not n:
        raise AnalysisBroken(f"{where}: no known name in {cls.__name__}")
    return n


def encodings(o, tier):
    try:
        from sentinel import csr, insn
    except ImportError as e:
        raise AnalysisBroken(f"cannot import sentinel: {e}") from e
    n = table(o, csr.MachineAddr, spec_addresses(), CSRPY)
    n += table(o, csr.MCause.Cause, CAUSES, CSRPY)
    n += table(o, csr.AccessMode, dict(READ_ONLY=3), CSRPY)
    n += table(o, csr.Quadrant, dict(UNPRIVILEGED=0, SUPERVISOR=1,
                                     HYPERVISOR=2, MACHINE=3), CSRPY)
    n += table(o, csr.MTVec.Mode, dict(DIRECT=0, VECTORED=1), CSRPY)
    n += table(o, insn.OpcodeType, {k: v >> 2 for k, v in OPCODES.items()},
               INSNPY)
    n += table(o, insn.Insn, WORDS, INSNPY)
    n += table(o, insn.Insn.CSR, CSRF3, INSNPY)
    o.cover["names_compared"] = n
    layouts(o, csr)
    view(o, insn.Insn)


def layouts(o, csr):
    from amaranth.lib.data import Layout
    n = 0
    for cls, fields in FIELDS.items():
        lay = Layout.cast(getattr(csr, cls))
        o.obligations += 1
        if lay.size != 32:
            o.add(cls, f"{cls} is {lay.size} bits wide; at {CSRPY}: {cls}")
        members = dict(lay)
        for k, (at, w) in fields.items():
            if k not in members:
                continue
            n += 1
            o.obligations += 1
            f = members[k]
            if (f.offset, f.width) != (at, w):
                o.add(f"{cls}.{k}", f"{cls}.{k} occupies {f.width} bits from "
                      f"{f.offset}, the specification says {w} from {at}; "
                      f"at {CSRPY}: {cls}")
    o.cover["layout_fields"] = n


def view(o, Insn):
    from amaranth import Module, Value
    from amaranth.lib.wiring import Component, In, Out

    class Probe(Component):
        def __init__(self):
            self.names = {p: p.replace(".", "_") for p in views((None,) * 32)}
            super().__init__({"word": In(32), **{
                n: Out(32) for n in self.names.values()}})

        def elaborate(self, platform):
            m = Module()
            i = Insn(self.word)
            self.found = set()
            for p, n in self.names.items():
                v = i
                try:
                    for a in p.split("."):
                        v = getattr(v, a)
                except AttributeError:
                    continue
                self.found.add(p)
                m.d.comb += getattr(self, n).eq(Value.cast(v))
            return m
    d = Design(Probe())
    c = Cmp(o, "P42")
    u = Unit(d, {})
    want = views(u.inp["word"])
    done = 0
    for p, w in want.items():
        if p not in d.comp.found:
            continue
        done += 1
        at = f"{INSNPY}: Insn.{p}"
        got = u.ev.val(d.nets(getattr(d.comp, d.comp.names[p])))
        w += (FALSE,) * (32 - len(w))
        c.eq(u, f"Insn.{p}", got, w, at)
    if done < 5:
        raise AnalysisBroken(f"{INSNPY}: the instruction view is gone")
    o.cover["views_compared"] = done
