"""Meaning of the microcode fields: for every value of the fields a rule is
about, and every value of all other fields, registers and inputs, one clock
step of the core is compared with the documented effect."""
import itertools
import warnings

from .core import Core
from .dom import Dom, FALSE, TRUE, G_IN, G_DATA
from .evalnet import Eval
from .frontend import AnalysisBroken, attr, loc

CSRADR = dict(MSTATUS=0, MIE=4, MTVEC=5, MSCRATCH=8, MEPC=9, MCAUSE=10,
              MIP=12)


class Env:
    """The netlist, and where each microcode field lives."""

    def __init__(self):
        self.core = Core()
        self.d = self.core.d
        self.consts = self.core.constants()
        rom = self.core.top.control.ucoderom
        lay = rom.fields.shape()
        nets = self.d.nets(rom.fields)
        self.field = {}
        self.values = {}
        for name, f in lay:
            self.field[name] = [int(n) for n in
                                nets[f.offset:f.offset + f.width]]
            mem = getattr(f.shape, "__members__", None)
            if mem:
                self.values[name] = {k: v.value for k, v in mem.items()}

    def v(self, field, member):
        """Encoding of an enumerator of a field."""
        try:
            return self.values[field][member]
        except KeyError:
            raise AnalysisBroken(f"microcode field {field} has no value "
                                 f"{member}") from None


class Step:
    """One clock cycle with some fields fixed and everything else unknown."""

    def __init__(self, env, **fix):
        self.e, self.d = env, env.d
        self.fix = fix
        core = env.core
        D = self.D = Dom()
        memo = {}
        base = core.rom_port << 16
        word = {n & 0xffff for n in env.field["target"]}
        for b in range(core.rom_width):
            memo[base | b] = D.atom(("uw", b), G_DATA if b in word else G_IN,
                                    b)
        for f, v in fix.items():
            if f not in env.field:
                raise AnalysisBroken(f"microcode field {f} is gone")
            for i, n in enumerate(env.field[f]):
                memo[n] = v >> i & 1
        for i, n in enumerate(core.sbits):
            c = env.consts.get(i)
            if c is None:
                c = D.atom(("s", n), core.sgroup[i], n & 0xffff)
            memo[n] = c
        for name, (s, w) in self.d.inputs.items():
            for i in range(w):
                memo[s + i] = D.atom(("in", name, i),
                                     G_IN if w == 1 else G_DATA, i)
        for n in core.n_rst:
            memo[int(n)] = FALSE
        self.src = dict(memo)
        self.ev = Eval(self.d, D, memo,
                       lambda e, ci, c: D.word(("as", ci), c.width))
        self._next = None

    def nets(self, path):
        return self.d.nets(attr(self.e.core.top, path))

    def sig(self, path):
        return self.ev.val(self.nets(path))

    def bit(self, path):
        return self.sig(path)[0]

    def nxt(self, path):
        """Value in the next cycle (whose microword, inputs and memory
        output are fresh unknowns)."""
        if self._next is None:
            core, D = self.e.core, self.D
            m = {}
            for n, i in core.index.items():
                c = core.data[i]
                if c is None:
                    m[n] = D.atom(("s'", n), G_DATA, n & 0xffff)
            lazy = _Lazy(m, self)
            for b in range(core.rom_width):
                m[core.rom_port << 16 | b] = D.atom(("uw'", b), G_IN)
            for name, (s, w) in self.d.inputs.items():
                for i in range(w):
                    m[s + i] = D.atom(("in'", name, i),
                                      G_IN if w == 1 else G_DATA, i)
            for n in core.n_rst:
                m[int(n)] = FALSE
            self._next = Eval(self.d, D, lazy,
                              lambda e, ci, c: D.word(("as'", ci), c.width))
        return self._next.val(self.nets(path))

    def where(self, path):
        n = [int(x) for x in self.nets(path) if int(x) > 1]
        return loc(self.d.cells[n[0] >> 16]) if n else path


class _Lazy(dict):
    """Next-cycle values of flip-flops, computed on demand."""

    def __init__(self, base, step):
        super().__init__(base)
        self.step = step

    def get(self, n, default=None):
        r = super().get(n, default)
        if r is None:
            core = self.step.e.core
            i = core.index.get(n)
            if i is not None and core.data[i] is not None:
                r = self[n] = self.step.ev.bit(core.data[i])
        return r


class Cmp:
    def __init__(self, o, prop):
        self.o, self.prop, self.n = o, prop, 0
        self.fields = set()

    def eq(self, s, what, got, want, where, care=TRUE):
        """``got`` equals ``want`` wherever ``care`` holds."""
        D = s.D
        self.n += 1
        self.o.obligations += len(got)
        self.fields |= set(s.fix)
        # ports of another width: compared as unsigned numbers
        for i, (g, w) in enumerate(itertools.zip_longest(got, want, fillvalue=FALSE)):
            x = g if g == w else D.and_(care, D.xor_(g, w))
            if g != w and x != FALSE:
                fx = ", ".join(f"{k}={self.name(s, k, v)}"
                               for k, v in s.fix.items())
                self.o.add(f"{what}/{fx}", f"[{fx}] {what} (bit {i}) is not "
                           f"the documented value; at {where}")
                return

    @staticmethod
    def name(s, f, v):
        for k, x in s.e.values.get(f, {}).items():
            if x == v:
                return k
        return v


def zx(bits, w=32):
    return tuple(bits[:w]) + (FALSE,) * (w - len(bits))


def combos(env, **fields):
    """All combinations of the listed members (None: all declared)."""
    keys = list(fields)
    vals = []
    for k, v in fields.items():
        if v is None:
            v = env.values.get(k) or {0: 0, 1: 1}
            v = list(dict.fromkeys(v.values()))
        else:
            v = [env.v(k, x) if isinstance(x, str) else x for x in v]
        vals.append(v)
    for c in itertools.product(*vals):
        yield Step(env, **dict(zip(keys, c)))


def sequencing(o, tier):
    env = Env()
    c = Cmp(o, "seq")
    core = env.core
    for s in combos(env, jmp_type=None, cond_test=None, invert_test=None):
        D, f = s.D, s.fix
        adr = s.ev.val(core.n_romadr)
        t = {env.v("cond_test", "EXCEPTION"):
             s.bit("exception_router.out.exception"),
             env.v("cond_test", "CMP_ALU_O_ZERO"): D.is_zero(s.sig("alu.o")),
             env.v("cond_test", "MEM_VALID"): s.bit("bus.ack"),
             env.v("cond_test", "TRUE"): TRUE}[f["cond_test"]]
        if f["invert_test"]:
            t = D.not_(t)
        w = len(adr)
        tgt = tuple(s.src[n] for n in env.field["target"])
        seq = s.sig("control.sequencer.next_adr")
        want = {env.v("jmp_type", "CONT"): seq,
                env.v("jmp_type", "MAP"):
                D.mux(t, tgt, s.sig("decode.requested_op")),
                env.v("jmp_type", "DIRECT"): D.mux(t, tgt, seq),
                env.v("jmp_type", "DIRECT_ZERO"):
                D.mux(t, tgt, (FALSE,) * w)}[f["jmp_type"]]
        at = "src/sentinel/control.py: Sequencer, Control"
        c.eq(s, "next microaddress", adr, want, at)
        c.eq(s, "microprogram counter after this cycle",
             s.nxt("control.sequencer.next_adr"),
             D.add(adr, D.const(1, w)), at)
    control(c, env)
    o.cover.update(steps_compared=c.n, fields=sorted(c.fields))


def control(c, env):
    """Positive control: a wrong expectation is noticed."""
    class Sink:
        obligations = 0
        n = 0

        def add(self, k, t):
            self.n += 1
    s = Step(env)
    k = Cmp(Sink(), "control")
    k.eq(s, "x", s.nxt("alu.o"), s.sig("alu.o"), "-")
    if not k.o.n or not c.n:
        raise AnalysisBroken("control: a wrong expectation is not noticed")


def alu_fn(D, op, a, b):
    """Documented result of an ALU operation before the output modifier."""
    w = len(a)
    fn = {
        "ADD": lambda: D.add(a, b), "SUB": lambda: D.sub(a, b),
        "AND": lambda: tuple(map(D.and_, a, b)),
        "OR": lambda: tuple(map(D.or_, a, b)),
        "XOR": lambda: tuple(map(D.xor_, a, b)),
        "SLL": lambda: (FALSE,) + a[:w - 1],
        "SRL": lambda: a[1:] + (FALSE,),
        "SRA": lambda: a[1:] + (a[w - 1],),
        "CMP_LTU": lambda: zx((D.ult(a, b),), w)}
    if op not in fn:
        raise AnalysisBroken(f"undocumented ALU operation {op}")
    return fn[op]()


def alu_result(D, op, imod, omod, a, b):
    if imod == "INV_MSB_A_B":
        a = a[:-1] + (D.not_(a[-1]),)
        b = b[:-1] + (D.not_(b[-1]),)
    r = alu_fn(D, op, a, b)
    if omod == "INV_LSB_O":
        r = (D.not_(r[0]),) + r[1:]
    elif omod == "CLEAR_LSB_O":
        r = (FALSE,) + r[1:]
    return r


WIDTHS = (1, 2, 8, 16, 24, 31, 32, 33, 48, 64)


def alu(o, tier):
    env = Env()
    c = Cmp(o, "alu")
    for s in combos(env, alu_op=None, alu_i_mod=None, alu_o_mod=None):
        D, f = s.D, s.fix
        r = alu_result(D, *(Cmp.name(s, k, f[k]) for k in (
            "alu_op", "alu_i_mod", "alu_o_mod")), s.sig("a_src.data"),
            s.sig("b_src.data"))
        c.eq(s, "ALU output after this cycle", s.nxt("alu.o"), r,
             "src/sentinel/alu.py: ALU")
        c.eq(s, "zero flag", (s.bit("alu.ctrl.zero"),),
             (D.is_zero(s.sig("alu.o")),), "src/sentinel/alu.py: ALU")
    for w in WIDTHS if tier == "quick" else range(1, 65):
        any_width(c, w)
    control(c, env)
    o.cover.update(steps_compared=c.n, fields=sorted(c.fields))


def any_width(c, w):
    """The ALU on its own, built for another width."""
    import enum
    from sentinel.alu import ALU
    from .frontend import Design
    at = "src/sentinel/alu.py: ALU.elaborate"
    # a failed elaboration leaves parts of the component unused
    warnings.filterwarnings("ignore", message=".*created but never used")
    try:
        d = Design(ALU(w))
    except (IndexError, ValueError, TypeError, SyntaxError) as e:
        c.o.obligations += 1
        c.o.add(f"width {w}", f"an ALU of width {w} does not elaborate: "
                f"{type(e).__name__}: {e}; at {at}")
        return
    sh = {k: v.shape for k, v in
          ALU.ControlSignature.members.items() if k != "zero"}
    for m in itertools.product(*(sh[k].__members__ for k in (
            "op", "imod", "omod"))):
        u = Unit(d, {"ctrl__" + k: sh[k][x].value
                     for k, x in zip(("op", "imod", "omod"), m)})
        c.eq(u, f"ALU of width {w}, {'/'.join(m)}", u.nxt(d.nets(d.comp.o)),
             alu_result(u.D, *m, u.inp["a"], u.inp["b"]), at)
        c.eq(u, f"ALU of width {w}, zero flag",
             u.ev.val(d.nets(d.comp.ctrl.zero)),
             (u.D.is_zero(u.ev.val(d.nets(d.comp.o))),), at)


class Unit:
    """One clock cycle of a component elaborated on its own: unknown
    registers and inputs, except the inputs fixed by name."""

    def __init__(self, d, fix):
        self.d, self.fix, self.e = d, {}, None
        D = self.D = Dom()
        memo = {}
        for ci in d.ffs + d.rports:
            n = d.cells[ci].width if ci in d.rports else len(d.cells[ci].data)
            for i in range(n):
                memo[ci << 16 | i] = D.atom(("s", ci, i), G_DATA, i)
        self.inp = {}
        for name, (s, w) in d.inputs.items():
            v = tuple(D.atom(("in", name, i), G_IN if w == 1 else G_DATA, i)
                      for i in range(w))
            if name == "rst":
                v = (FALSE,) * w
            if name in fix:
                v = D.const(fix[name], w)
            memo.update((s + i, v[i]) for i in range(w))
            self.inp[name] = v
        for k in fix:
            if k not in self.inp:
                raise AnalysisBroken(f"component input {k} is gone")
        self.ev = Eval(d, D, memo, self._asked)
        self._next = None

    @staticmethod
    def _asked(e, ci, k):
        return e.D.word(("as", ci), k.width)

    def nxt(self, nets):
        if self._next is None:
            d, D = self.d, self.D
            m = {}
            for ci in d.ffs:
                for i, n in enumerate(d.cells[ci].data):
                    m[ci << 16 | i] = self.ev.bit(n)
            for ci in d.rports:
                for i in range(d.cells[ci].width):
                    m[ci << 16 | i] = D.atom(("s'", ci, i), G_DATA, i)
            for name, (s, w) in d.inputs.items():
                for i in range(w):
                    m[s + i] = FALSE if name == "rst" else D.atom(
                        ("in'", name, i), G_IN if w == 1 else G_DATA, i)
            self._next = Eval(d, D, m, self._asked)
        return self._next.val(nets)


def read_data(s, size, sign):
    """Load data as documented for ReadDataAlign."""
    D = s.D
    adr, dat = s.sig("addr_align.latched_adr"), s.sig("bus.dat_r")
    if size == 4:
        return dat
    if size == 1:
        lanes = [dat[8 * i:8 * i + 8] for i in range(4)]
        v = D.mux(adr[1], D.mux(adr[0], lanes[3], lanes[2]),
                  D.mux(adr[0], lanes[1], lanes[0]))
    else:
        v = D.mux(adr[1], dat[16:], dat[:16])
    return v + (v[-1] if sign else FALSE,) * (32 - len(v))


def aligned(s, n):
    """Halfwords at odd addresses never get as far as an access."""
    return s.D.not_(s.sig("addr_align.latched_adr")[0]) if n == 2 else TRUE


SIZES = (("BYTE", 1), ("HWORD", 2), ("WORD", 4))


def routing(o, tier):
    env = Env()
    c = Cmp(o, "routing")
    at = "src/sentinel/alu.py: ASrcMux"
    for s in combos(env, latch_a=[0]):
        c.eq(s, "ALU input A after this cycle", s.nxt("a_src.data"),
             s.sig("a_src.data"), at)
    for s in combos(env, latch_b=[0]):
        c.eq(s, "ALU input B after this cycle", s.nxt("b_src.data"),
             s.sig("b_src.data"), "src/sentinel/alu.py: BSrcMux")
    for s in combos(env, latch_a=[1], a_src=None):
        D = s.D
        want = {"GP": lambda: s.sig("datapath.gp.dat_r"),
                "IMM": lambda: s.sig("decode.imm"),
                "ALU_O": lambda: s.sig("alu.o"),
                "ZERO": lambda: D.const(0, 32),
                "FOUR": lambda: D.const(4, 32),
                "NEG_ONE": lambda: D.const(0xffffffff, 32),
                "THIRTY_ONE": lambda: D.const(31, 32)}
        k = Cmp.name(s, "a_src", s.fix["a_src"])
        if k not in want:
            raise AnalysisBroken(f"undocumented A source {k}")
        c.eq(s, "ALU input A after this cycle", s.nxt("a_src.data"),
             want[k](), at)
    at = "src/sentinel/alu.py: BSrcMux"
    for s in combos(env, latch_b=[1], b_src=None):
        D = s.D
        want = {"GP": lambda: s.sig("datapath.gp.dat_r"),
                "PC": lambda: (FALSE, FALSE) + s.sig("datapath.pc.dat_r"),
                "IMM": lambda: s.sig("decode.imm"),
                "ONE": lambda: D.const(1, 32),
                "DAT_R": None,
                "CSR_IMM": lambda: zx(s.sig("decode.src_a")),
                "CSR": lambda: s.sig("datapath.csr.dat_r"),
                "MCAUSE_LATCH": lambda: s.sig("exception_router.out.mcause")}
        k = Cmp.name(s, "b_src", s.fix["b_src"])
        if k not in want:
            raise AnalysisBroken(f"undocumented B source {k}")
        if want[k]:
            c.eq(s, "ALU input B after this cycle", s.nxt("b_src.data"),
                 want[k](), at)
    for size, n in SIZES:
        for ext in ("ZERO", "SIGN"):
            for s in combos(env, latch_b=[1], b_src=["DAT_R"],
                            mem_sel=[size], mem_extend=[ext]):
                c.eq(s, "ALU input B after this cycle", s.nxt("b_src.data"),
                     read_data(s, n, ext == "SIGN"),
                     "src/sentinel/align.py: ReadDataAlign", aligned(s, n))
    at = "src/sentinel/datapath.py: ProgramCounter"
    for s in combos(env, pc_action=None):
        D = s.D
        pc = s.sig("datapath.pc.dat_r")
        k = Cmp.name(s, "pc_action", s.fix["pc_action"])
        want = {"HOLD": pc, "INC": D.add(pc, D.const(1, 30)),
                "LOAD_ALU_O": s.sig("alu.o")[2:]}
        if k not in want:
            raise AnalysisBroken(f"undocumented PC action {k}")
        c.eq(s, "program counter after this cycle",
             s.nxt("datapath.pc.dat_r"), want[k], at)
    control(c, env)
    o.cover.update(steps_compared=c.n, fields=sorted(c.fields))


class Ports:
    """The register memory's one read and one write port."""

    def __init__(self, d, ram, gp):
        cells = d.cells
        wp = [w for w in d.wports if cells[w].memory == ram]
        rp = [r for r in d.rports if cells[r].memory == ram]
        if len(wp) != 1 or len(rp) != 1:
            raise AnalysisBroken("register memory: expected one read and one "
                                 "write port")
        self.w, self.r = cells[wp[0]], cells[rp[0]]
        self.rport = rp[0]
        self.depth = cells[ram].depth
        self.transparent = bool(self.r.transparent_for)
        en = {int(n) for n in self.w.en}
        if len(en) != 1:
            raise AnalysisBroken("register memory is written in parts")
        self.wen = en.pop()


def registers(o, tier):
    env = Env()
    core = env.core
    c = Cmp(o, "regs")
    P = Ports(env.d, core.ram, None)
    at = "src/sentinel/datapath.py: RegFile, " \
         "src/sentinel/top.py: Top.elaborate"
    o.obligations += 2
    if not P.transparent:
        o.add("transparency", "a register written and read in one cycle is "
              f"not forwarded; at {loc(P.r)}")
    if P.depth != 64:
        o.add("depth", f"register memory has {P.depth} words; at {at}")

    def ports(s, ren, radr, wen, wadr, wdat):
        D = s.D
        gren, gwen = s.ev.bit(P.r.en), s.ev.bit(P.wen)
        c.eq(s, "register read enable", (gren,), (ren,), at)
        c.eq(s, "register read address", s.ev.val(P.r.addr), radr, at, ren)
        c.eq(s, "register write enable", (gwen,), (wen,), at)
        c.eq(s, "register write address", s.ev.val(P.w.addr), wadr, at, wen)
        c.eq(s, "register write data", s.ev.val(P.w.data), wdat, at, wen)
        del D

    def port_is(s, path):
        c.eq(s, path, s.sig(path), tuple(
            s.src[P.rport << 16 | i] for i in range(32)), at)
    for s in combos(env, csr_op=["NONE"], reg_read=[0, 1], reg_write=[0, 1],
                    reg_r_sel=None, reg_w_sel=None, insn_fetch=[0, 1]):
        D, f = s.D, s.fix
        if f["reg_r_sel"] == env.v("reg_r_sel", "INSN_RS2"):
            radr = s.sig("decode.src_b")
        elif f["insn_fetch"]:
            radr = s.sig("bus.dat_r")[15:20]
        else:
            radr = s.sig("decode.src_a")
        if f["reg_w_sel"] == env.v("reg_w_sel", "ZERO"):
            wadr, ok = (FALSE,) * 5, TRUE
        else:
            wadr = s.sig("decode.dst")
            ok = D.not_(D.is_zero(wadr))
        ports(s, f["reg_read"], zx(radr, 6), ok if f["reg_write"] else FALSE,
              zx(wadr, 6), s.sig("alu.o"))
        port_is(s, "datapath.gp.dat_r")
    atc = "src/sentinel/datapath.py: CSRFile"
    for s in combos(env, csr_op=None, csr_sel=None, except_ctl=None):
        D, f = s.D, s.fix
        op = Cmp.name(s, "csr_op", f["csr_op"])
        if op not in ("NONE", "READ_CSR", "WRITE_CSR"):
            raise AnalysisBroken(f"undocumented CSR operation {op}")
        if f["csr_sel"] == env.v("csr_sel", "TRG_CSR"):
            adr = tuple(s.src[n] for n in env.field["target"])[:4]
        else:
            adr = s.sig("decode.csr_encoding")
        ms, ie = s.sig("datapath.csr.mstatus_r"), s.sig("datapath.csr.mie_r")
        dat = s.sig("alu.o")

        def at_(name):
            return D.eq(adr, D.const(CSRADR[name], 4))
        if op == "WRITE_CSR":
            low = D.or_(at_("MTVEC"), at_("MEPC"))
            wd = tuple(D.and_(x, D.not_(low)) for x in dat[:2]) + dat[2:]
            # the read port is unspecified in this case
            c.eq(s, "register write enable", (s.ev.bit(P.wen),), (TRUE,), at)
            c.eq(s, "register write address", s.ev.val(P.w.addr),
                 adr + (FALSE, TRUE), at)
            c.eq(s, "register write data", s.ev.val(P.w.data), wd, atc)
        elif op == "READ_CSR":
            c.eq(s, "register read enable", (s.ev.bit(P.r.en),), (TRUE,), at)
            c.eq(s, "register read address", s.ev.val(P.r.addr),
                 adr + (FALSE, TRUE), at)
            c.eq(s, "register write enable", (s.ev.bit(P.wen),), (FALSE,), at)
        # machine status and interrupt enable
        nms, nie = list(ms), list(ie)
        if op == "WRITE_CSR":
            hit = at_("MSTATUS")
            for i in (3, 7):
                nms[i] = D.ite(hit, dat[i], ms[i])
            nie[11] = D.ite(at_("MIE"), dat[11], ie[11])
        x = Cmp.name(s, "except_ctl", f["except_ctl"])
        if x == "ENTER_INT":
            nms[7], nms[3] = ms[3], FALSE
        elif x == "LEAVE_INT":
            nms[3], nms[7] = ms[7], TRUE
        c.eq(s, "MSTATUS after this cycle", s.nxt("datapath.csr.mstatus_r"),
             nms, atc)
        c.eq(s, "MIE after this cycle", s.nxt("datapath.csr.mie_r"), nie, atc)
        if op == "READ_CSR":
            got = s.nxt("datapath.csr.dat_r")
            ip = list(D.const(0, 32))
            ip[11] = s.bit("irq")
            view = list(D.const(0, 32))
            for i in (3, 7, 11, 12):
                view[i] = ms[i]
            port = tuple(D.atom(("s'", P.rport << 16 | i), G_DATA, i)
                         for i in range(32))
            want = D.mux(at_("MSTATUS"), tuple(view), port)
            want = D.mux(at_("MIE"), tuple(
                ie[i] if i == 11 else FALSE for i in range(32)), want)
            want = D.mux(at_("MIP"), tuple(ip), want)
            c.eq(s, "CSR data after this read", got, want, atc)
    # the register file as a component of its own
    standalone(c)
    control(c, env)
    o.cover.update(steps_compared=c.n, fields=sorted(c.fields))


def standalone(c):
    """DataPath on its own: writes to x0 are ignored unless allowed, writes
    to other registers never are."""
    from sentinel.datapath import DataPath
    from .frontend import Design
    d = Design(DataPath())
    rams = [m for m in d.mems if any(d.cells[w].memory == m
                                     for w in d.wports)]
    if len(rams) != 1:
        raise AnalysisBroken("DataPath: expected one memory")
    P = Ports(d, rams[0], None)
    s = Unit(d, {"csr__ctrl__op": 0} if "csr__ctrl__op" in d.inputs else {})
    D, inp, ev = s.D, s.inp, s.ev
    at = "src/sentinel/datapath.py: RegFile.elaborate"
    adr = inp["gp__adr_w"]
    wen = D.and_(inp["gp__ctrl__reg_write"][0], D.or_(
        D.not_(D.is_zero(adr)), inp["gp__ctrl__allow_zero_wr"][0]))
    c.eq(s, "DataPath: register write enable", (ev.bit(P.wen),), (wen,), at)
    c.eq(s, "DataPath: register write address", ev.val(P.w.addr), zx(adr, 6),
         at, wen)
    c.eq(s, "DataPath: register write data", ev.val(P.w.data),
         inp["gp__dat_w"], at, wen)
    ren = inp["gp__ctrl__reg_read"][0]
    c.eq(s, "DataPath: register read enable", (ev.bit(P.r.en),), (ren,), at)
    c.eq(s, "DataPath: register read address", ev.val(P.r.addr),
         zx(inp["gp__adr_r"], 6), at, ren)


def memory(o, tier):
    env = Env()
    c = Cmp(o, "mem")
    at = "src/sentinel/top.py: Top.elaborate"
    aa = "src/sentinel/align.py: AddressAlign"
    for s in combos(env, mem_req=[0, 1], write_mem=[0, 1]):
        f = s.fix
        for k, w in (("cyc", f["mem_req"]), ("stb", f["mem_req"]),
                     ("we", f["write_mem"])):
            c.eq(s, f"bus.{k}", s.sig(f"bus.{k}"), (w,), at)
    for s in combos(env, mem_req=[1], insn_fetch=[1]):
        c.eq(s, "bus.adr", s.sig("bus.adr"), s.sig("datapath.pc.dat_r"), aa)
        c.eq(s, "bus.sel", s.sig("bus.sel"), (TRUE,) * 4, aa)
    for size, n in SIZES:
        for s in combos(env, mem_req=[1], insn_fetch=[0], mem_sel=[size]):
            D = s.D
            adr = s.sig("addr_align.latched_adr")
            a0, a1 = adr[:2]
            n0, n1 = D.not_(a0), D.not_(a1)
            sel = {4: (TRUE,) * 4, 2: (n1, n1, a1, a1),
                   1: (D.and_(n1, n0), D.and_(n1, a0), D.and_(a1, n0),
                       D.and_(a1, a0))}[n]
            c.eq(s, "bus.adr", s.sig("bus.adr"), adr[2:], aa)
            c.eq(s, "bus.sel", s.sig("bus.sel"), sel, aa, aligned(s, n))
        for s in combos(env, latch_data=[1], mem_sel=[size]):
            D = s.D
            adr, v = s.sig("addr_align.latched_adr"), s.sig("alu.o")
            got = s.nxt("bus.dat_w")
            for lane in range(0, 4, n):
                care = TRUE
                if n == 1:
                    care = D.and_(adr[0] if lane & 1 else D.not_(adr[0]),
                                  adr[1] if lane & 2 else D.not_(adr[1]))
                elif n == 2:
                    care = D.and_(adr[1] if lane else D.not_(adr[1]),
                                  aligned(s, n))
                c.eq(s, f"bus.dat_w lane {lane}",
                     got[8 * lane:8 * (lane + n)], v[:8 * n],
                     "src/sentinel/align.py: WriteDataAlign", care)
    for s in combos(env, latch_data=[0]):
        c.eq(s, "bus.dat_w after this cycle", s.nxt("bus.dat_w"),
             s.sig("bus.dat_w"), at)
    for s in combos(env, latch_adr=[0, 1]):
        c.eq(s, "latched address after this cycle",
             s.nxt("addr_align.latched_adr"),
             s.sig("alu.o" if s.fix["latch_adr"] else
                   "addr_align.latched_adr"), at)
    control(c, env)
    o.cover.update(steps_compared=c.n, fields=sorted(c.fields))


def exceptions(o, tier):
    env = Env()
    c = Cmp(o, "exc")
    at = "src/sentinel/exception.py: ExceptionRouter"
    for s in combos(env, except_ctl=None, mem_sel=None):
        D, f = s.D, s.fix
        x = Cmp.name(s, "except_ctl", f["except_ctl"])
        size = Cmp.name(s, "mem_sel", f["mem_sel"])
        old = s.sig("exception_router.out.mcause")
        lo = s.sig("alu.o")[:2]
        exc, new = FALSE, old

        def cause(n):
            return D.const(n, 32)
        mis = {"HWORD": lo[0], "WORD": D.or_(lo[0], lo[1])}.get(size, FALSE)
        if x == "LATCH_DECODER":
            dec = s.sig("decode.exception")
            irq = D.all_((s.sig("datapath.csr.mstatus_r")[3],
                          s.sig("datapath.csr.mie_r")[11], s.bit("irq")))
            exc = D.or_(dec[0], irq)
            new = D.mux(irq, cause(0x8000000b), D.mux(
                dec[0], zx(dec[1:32]), old))
        elif x in ("LATCH_STORE_ADR", "LATCH_LOAD_ADR"):
            exc = mis
            new = D.mux(mis, cause(6 if x == "LATCH_STORE_ADR" else 4), old)
        elif x == "LATCH_JAL":
            exc = lo[1]
            new = D.mux(exc, cause(0), old)
        elif x not in ("NONE", "ENTER_INT", "LEAVE_INT"):
            raise AnalysisBroken(f"undocumented exception control {x}")
        c.eq(s, "exception", (s.bit("exception_router.out.exception"),),
             (exc,), at)
        c.eq(s, "cause after this cycle",
             s.nxt("exception_router.out.mcause"), new, at)
    control(c, env)
    o.cover.update(steps_compared=c.n, fields=sorted(c.fields))


def decoding(o, tier):
    """Fields the decoder hands to the data path."""
    env = Env()
    c = Cmp(o, "decode")
    at = "src/sentinel/decode.py: Decode, ImmediateGenerator"
    hold = ("decode.src_a", "decode.src_b", "decode.dst", "decode.imm")
    ops = {0x13: "I", 0x67: "I", 0x03: "I", 0x37: "U", 0x17: "U", 0x6f: "J",
           0x63: "B", 0x23: "S"}
    for op, kind in ops.items():
        t = Step(env, insn_fetch=1)
        D = t.D
        nets = t.nets("bus.dat_r")
        for i in range(7):
            t.ev.memo[int(nets[i])] = op >> i & 1
        w = t.sig("bus.dat_r")
        do = t.bit("bus.ack")
        sg = w[31]
        imm = {"I": w[20:32] + (sg,) * 20,
               "U": (FALSE,) * 12 + w[12:32],
               "J": (FALSE,) + w[21:31] + (w[20],) + w[12:20] + (sg,) * 12,
               "B": (FALSE,) + w[8:12] + w[25:31] + (w[7],) + (sg,) * 20,
               "S": w[7:12] + w[25:32] + (sg,) * 20}[kind]
        c.eq(t, f"immediate of opcode {op:#x}", t.nxt("decode.imm"), imm, at,
             do)
    t = Step(env, insn_fetch=1)
    w, do = t.sig("bus.dat_r"), t.bit("bus.ack")
    for path, lo in (("decode.src_a", 15), ("decode.src_b", 20),
                     ("decode.dst", 7)):
        c.eq(t, f"{path} after this cycle", t.nxt(path), t.D.mux(
            do, w[lo:lo + 5], t.sig(path)), at)
    nd = t.D.not_(do)
    c.eq(t, "decode.imm after this cycle", t.nxt("decode.imm"),
         t.sig("decode.imm"), at, nd)
    t = Step(env, insn_fetch=0)
    for path in hold:
        c.eq(t, f"{path} after this cycle", t.nxt(path), t.sig(path), at)
    control(c, env)
    o.cover.update(steps_compared=c.n, fields=sorted(c.fields))
