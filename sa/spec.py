"""The oracle: RV32I + Zicsr + the machine-mode subset Sentinel documents,
written from the RISC-V manuals and doc/development/internals.md, not from the
implementation.

Each instruction class gives an encoding (mask/match, plus an optional
predicate on the word) and its effect as terms over the state at the
instruction boundary."""
from .dom import FALSE, TRUE

# -- machine-mode CSRs (documented in "CSRs" of internals.md) ---------------
CSRS = {"mstatus": 0x300, "mie": 0x304, "mtvec": 0x305, "mscratch": 0x340,
        "mepc": 0x341, "mcause": 0x342, "mip": 0x344}
# read-only zero; a write traps only in the read-only address space
RO0 = ([0xF11, 0xF12, 0xF13, 0xF14, 0xF15]            # IDs, mconfigptr
       + [0x301, 0x310, 0x343, 0x320]                  # misa .. mcountinhibit
       + [0xB00, 0xB02, 0xB80, 0xB82]                  # mcycle, minstret
       + list(range(0xB03, 0xB20)) + list(range(0xB83, 0xBA0))
       + list(range(0x323, 0x340)))                    # mhpmevent3-31
CSR_OPS = {"csrrw": 1, "csrrs": 2, "csrrc": 3,
           "csrrwi": 5, "csrrsi": 6, "csrrci": 7}

CAUSE_INSN_MISALIGNED, CAUSE_ILLEGAL, CAUSE_BREAKPOINT = 0, 2, 3
CAUSE_LOAD_MISALIGNED, CAUSE_STORE_MISALIGNED, CAUSE_ECALL_M = 4, 6, 11
CAUSE_MEI = 11 | 1 << 31


class Cls:
    """One instruction class."""

    def __init__(self, name, mask, match, effect, group, pred=None,
                 shamt=None, cycles=None):
        self.name, self.mask, self.match = name, mask, match
        self.effect, self.group, self.pred = effect, group, pred
        self.shamt = shamt          # shift amount this class is split on
        self.cycles = cycles

    def fixed(self):
        return {i: (self.match >> i) & 1
                for i in range(32) if self.mask >> i & 1}

    def __repr__(self):
        return self.name


class Ctx:
    """Terms at the boundary before the instruction."""

    def __init__(self, D, insn, pc, x, csr):
        self.D, self.insn, self.pc, self.x, self.csr = D, insn, pc, x, csr

    @property
    def rs1(self):
        return self.x(self.insn[15:20])

    @property
    def rs2(self):
        return self.x(self.insn[20:25])

    def sx(self, bits, w=32):
        return tuple(bits) + (bits[-1],) * (w - len(bits))

    def zx(self, bits, w=32):
        return tuple(bits) + (FALSE,) * (w - len(bits))

    @property
    def imm_i(self):
        return self.sx(self.insn[20:32])

    @property
    def imm_s(self):
        return self.sx(self.insn[7:12] + self.insn[25:32])

    @property
    def imm_b(self):
        i = self.insn
        return self.sx((FALSE,) + i[8:12] + i[25:31] + (i[7], i[31]))

    @property
    def imm_u(self):
        return (FALSE,) * 12 + self.insn[12:32]

    @property
    def imm_j(self):
        i = self.insn
        return self.sx((FALSE,) + i[21:31] + (i[20],) + i[12:20] + (i[31],))

    def k(self, v, w=32):
        return self.D.const(v, w)

    def pc4(self):
        return self.D.add(self.pc, self.k(4))


class Effect:
    """Expected effect when no interrupt is taken."""

    def __init__(self, pc, rd=None, trap=(), csr=None, data=None):
        self.pc = pc            # next pc (32 bits)
        self.rd = rd            # value for rd, or None, or callable(dr)
        self.trap = list(trap)  # [(condition, cause)], first match wins
        self.csr = csr or {}    # csr name -> new 32-bit view
        self.data = data        # None or dict(we, adr, sel, dw)
        self.taken = FALSE      # conditional branch is taken


def _alu(fn):
    def eff(c):
        return Effect(c.pc4(), rd=fn(c))
    return eff


def _bit(D, b):
    return (b,) + (FALSE,) * 31


def _bitwise(op):
    def f(D, a, b):
        g = {"and": D.and_, "or": D.or_, "xor": D.xor_}[op]
        return tuple(g(x, y) for x, y in zip(a, b))
    return f


_OPS = {
    "add": lambda D, a, b: D.add(a, b),
    "sub": lambda D, a, b: D.sub(a, b),
    "slt": lambda D, a, b: _bit(D, D.slt(a, b)),
    "sltu": lambda D, a, b: _bit(D, D.ult(a, b)),
    "xor": _bitwise("xor"), "or": _bitwise("or"), "and": _bitwise("and"),
}


def _sh(op, v, k):
    if op == "sll":
        return (FALSE,) * k + tuple(v[:32 - k])
    fill = v[-1] if op == "sra" else FALSE
    return tuple(v[k:]) + (fill,) * k


def _branch(test, neg):
    def eff(c):
        D = c.D
        a, b = c.rs1, c.rs2
        t = {"eq": D.eq, "lt": D.slt, "ltu": D.ult}[test](a, b)
        if neg:
            t = D.not_(t)
        tgt = D.add(c.pc, c.imm_b)
        e = Effect(D.mux(t, tgt, c.pc4()),
                   trap=[(D.and_(t, tgt[1]), CAUSE_INSN_MISALIGNED)])
        e.taken = t
        return e
    return eff


def _jal(c):
    tgt = c.D.add(c.pc, c.imm_j)
    return Effect(tgt, rd=c.pc4(), trap=[(tgt[1], CAUSE_INSN_MISALIGNED)])


def _jalr(c):
    tgt = (FALSE,) + c.D.add(c.rs1, c.imm_i)[1:]
    return Effect(tgt, rd=c.pc4(), trap=[(tgt[1], CAUSE_INSN_MISALIGNED)])


def _lanes(D, ea, size):
    a0, a1 = ea[0], ea[1]
    if size == 4:
        return (TRUE,) * 4
    if size == 2:
        return (D.not_(a1), D.not_(a1), a1, a1)
    return tuple(D.and_(a0 if i & 1 else D.not_(a0),
                        a1 if i & 2 else D.not_(a1)) for i in range(4))


def _misaligned(D, ea, size):
    return {1: FALSE, 2: ea[0], 4: D.or_(ea[0], ea[1])}[size]


def _load(size, signed):
    def eff(c):
        D = c.D
        ea = D.add(c.rs1, c.imm_i)

        def rd(dr):
            v = dr
            if size <= 2:
                v = D.mux(ea[1], v[16:32], v[0:16])
            if size == 1:
                v = D.mux(ea[0], v[8:16], v[0:8])
            return c.sx(v) if signed else c.zx(v)
        return Effect(c.pc4(), rd=rd,
                      trap=[(_misaligned(D, ea, size),
                             CAUSE_LOAD_MISALIGNED)],
                      data=dict(we=FALSE, adr=ea[2:], dw=None,
                                sel=_lanes(D, ea, size)))
    return eff


def _store(size):
    def eff(c):
        D = c.D
        ea = D.add(c.rs1, c.imm_s)
        v = c.rs2[:8 * size]
        return Effect(c.pc4(), trap=[(_misaligned(D, ea, size),
                                      CAUSE_STORE_MISALIGNED)],
                      data=dict(we=TRUE, adr=ea[2:], dw=v * (4 // size),
                                sel=_lanes(D, ea, size)))
    return eff


def _nop(c):
    return Effect(c.pc4())


def _trap(cause):
    def eff(c):
        return Effect(c.pc4(), trap=[(TRUE, cause)])
    return eff


def _mret(c):
    st = list(c.csr["mstatus"])
    st[3] = st[7]
    st[7] = TRUE
    return Effect((FALSE, FALSE) + tuple(c.csr["mepc"][2:]),
                  csr={"mstatus": tuple(st)})


def warl(D, name, old, new):
    """Documented field behaviour of a CSR write."""
    if name in ("mtvec", "mepc"):
        return (FALSE, FALSE) + tuple(new[2:])
    if name == "mstatus":
        w = [FALSE] * 32
        w[3], w[7] = new[3], new[7]
        w[11] = w[12] = TRUE
        return tuple(w)
    if name == "mie":
        w = [FALSE] * 32
        w[11] = new[11]
        return tuple(w)
    if name == "mip":
        return tuple(old)
    return tuple(new)


def _csr_new(c, op, old):
    D = c.D
    src = c.zx(c.insn[15:20]) if op & 4 else c.rs1
    if op & 3 == 1:
        return TRUE, src
    wr = D.any_(c.insn[15:20])
    if op & 3 == 2:
        return wr, tuple(D.or_(o, s) for o, s in zip(old, src))
    return wr, tuple(D.and_(o, D.not_(s)) for o, s in zip(old, src))


def _csr(op, name):
    def eff(c):
        D = c.D
        old = c.csr[name]
        wr, new = _csr_new(c, op, old)
        v = warl(D, name, old, new)
        return Effect(c.pc4(), rd=tuple(old),
                      csr={name: D.mux(wr, v, old)})
    return eff


def _csr_ro0(c):
    return Effect(c.pc4(), rd=c.k(0))


# -- encodings --------------------------------------------------------------
def _f3(op, f3):
    return 0x707F, op | f3 << 12


def match(D, insn, mask, value):
    return D.all_(insn[i] if value >> i & 1 else D.not_(insn[i])
                  for i in range(32) if mask >> i & 1)


def csr_in(D, insn, addrs):
    """Predicate: funct12 is one of ``addrs``."""
    s = set(addrs)
    return D.table(insn[20:32], tuple(int(a in s) for a in range(4096)))


def csr_write(D, insn):
    """The encoding requests a write: csrrw/csrrwi, or a nonzero operand."""
    rw = D.and_(insn[12], D.not_(insn[13]))
    return D.or_(rw, D.any_(insn[15:20]))


def ro0_legal(D, insn):
    ro = D.and_(insn[30], insn[31])
    return D.and_(csr_in(D, insn, RO0),
                  D.not_(D.and_(ro, csr_write(D, insn))))


def base_classes():
    """Everything but the register/immediate shifts and the illegal words."""
    out = []

    def add(name, mm, eff, group, pred=None):
        out.append(Cls(name, mm[0], mm[1], eff, group, pred))
    for n, f3 in (("addi", 0), ("slti", 2), ("sltiu", 3), ("xori", 4),
                  ("ori", 6), ("andi", 7)):
        op = _OPS[n.replace("i", "")]
        add(n, _f3(0x13, f3), _alu(lambda c, op=op:
                                   op(c.D, c.rs1, c.imm_i)), "int")
    for n, f3, f7 in (("add", 0, 0), ("sub", 0, 0x20), ("slt", 2, 0),
                      ("sltu", 3, 0), ("xor", 4, 0), ("or", 6, 0),
                      ("and", 7, 0)):
        add(n, (0xFE00707F, 0x33 | f3 << 12 | f7 << 25),
            _alu(lambda c, op=_OPS[n]: op(c.D, c.rs1, c.rs2)), "int")
    add("lui", (0x7F, 0x37), _alu(lambda c: c.imm_u), "int")
    add("auipc", (0x7F, 0x17), _alu(lambda c: c.D.add(c.pc, c.imm_u)), "int")
    for n, f3, t, neg in (("beq", 0, "eq", 0), ("bne", 1, "eq", 1),
                          ("blt", 4, "lt", 0), ("bge", 5, "lt", 1),
                          ("bltu", 6, "ltu", 0), ("bgeu", 7, "ltu", 1)):
        add(n, _f3(0x63, f3), _branch(t, neg), "branch")
    add("jal", (0x7F, 0x6F), _jal, "jump")
    add("jalr", _f3(0x67, 0), _jalr, "jump")
    for n, f3, size, s in (("lb", 0, 1, 1), ("lh", 1, 2, 1), ("lw", 2, 4, 1),
                           ("lbu", 4, 1, 0), ("lhu", 5, 2, 0)):
        add(n, _f3(0x03, f3), _load(size, s), "load")
    for n, f3, size in (("sb", 0, 1), ("sh", 1, 2), ("sw", 2, 4)):
        add(n, _f3(0x23, f3), _store(size), "store")
    add("fence", _f3(0x0F, 0), _nop, "nop")
    add("wfi", (0xFFFFFFFF, 0x10500073), _nop, "nop")
    add("mret", (0xFFFFFFFF, 0x30200073), _mret, "mret")
    add("ecall", (0xFFFFFFFF, 0x00000073), _trap(CAUSE_ECALL_M), "env")
    add("ebreak", (0xFFFFFFFF, 0x00100073), _trap(CAUSE_BREAKPOINT), "env")
    for n, f3 in CSR_OPS.items():
        for r, a in CSRS.items():
            add(f"{n}:{r}", (0xFFF0707F, 0x73 | f3 << 12 | a << 20),
                _csr(f3, r), "csr")
        add(f"{n}:ro0", _f3(0x73, f3), _csr_ro0, "csr0", ro0_legal)
    return out


def shift_classes():
    out = []
    for n, f3, f7 in (("sll", 1, 0), ("srl", 5, 0), ("sra", 5, 0x20)):
        for k in range(32):
            out.append(Cls(f"{n}i:{k}", 0xFFF0707F,
                           0x13 | f3 << 12 | f7 << 25 | k << 20,
                           _alu(lambda c, n=n, k=k: _sh(n, c.rs1, k)),
                           "shift"))
            out.append(Cls(f"{n}:{k}", 0xFE00707F,
                           0x33 | f3 << 12 | f7 << 25,
                           _alu(lambda c, n=n, k=k: _sh(n, c.rs1, k)),
                           "shift", shamt=k))
    return out


def legal(D, insn):
    """Predicate: the word is a defined instruction of the core."""
    seen = set()
    r = FALSE
    for c in base_classes() + shift_classes():
        k = (c.mask, c.match)
        if k in seen:
            continue
        seen.add(k)
        m = match(D, insn, c.mask, c.match)
        if c.pred:
            m = D.and_(m, c.pred(D, insn))
        r = D.or_(r, m)
    return r


def illegal_classes():
    """Every word that is not a legal instruction, split by major opcode (or
    the two low bits) and minor opcode, so that the classes together are
    exhaustive."""
    def ill(D, insn):
        return D.not_(legal(D, insn))
    out = [Cls(f"illegal:{op:02x}.{f3}", 0x707F, op | f3 << 12,
               _trap(CAUSE_ILLEGAL), "illegal", ill)
           for op in range(3, 128, 4) for f3 in range(8)]
    out += [Cls(f"illegal:short{q}.{f3}", 0x7003, q | f3 << 12,
                _trap(CAUSE_ILLEGAL), "illegal", ill)
            for q in range(3) for f3 in range(8)]
    return out


def all_classes():
    return base_classes() + shift_classes() + illegal_classes()
