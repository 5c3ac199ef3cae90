"""Small bus-functional simulator for sentinel's Top (used by demos)."""
import os
import sys
import types

# Demos keep data in this window; every other read is an instruction fetch.
DATA = (0x700, 0x900)

REPO = os.environ.get("DEMO_REPO", os.getcwd())
sys.path.insert(0, os.path.join(REPO, "src"))


def _stub():
    try:
        import amaranth_soc.wishbone  # noqa: F401
        return
    except ImportError:
        pass
    from amaranth.lib import wiring
    from amaranth.lib.wiring import In, Out

    class Signature(wiring.Signature):
        def __init__(self, *, addr_width, data_width, granularity=None,
                     features=frozenset()):
            granularity = granularity or data_width
            self.addr_width, self.data_width = addr_width, data_width
            self.granularity = granularity
            super().__init__({
                "adr": Out(addr_width), "dat_w": Out(data_width),
                "dat_r": In(data_width),
                "sel": Out(data_width // granularity), "cyc": Out(1),
                "stb": Out(1), "we": Out(1), "ack": In(1)})
    p = types.ModuleType("amaranth_soc")
    w = types.ModuleType("amaranth_soc.wishbone")
    w.Signature = Signature
    p.wishbone = w
    sys.modules["amaranth_soc"] = p
    sys.modules["amaranth_soc.wishbone"] = w


_stub()


def words(src):
    """Assemble ``src`` (text), or pass through a list of words."""
    if isinstance(src, str):
        from bronzebeard.asm import assemble
        b = assemble(src)
        return [int.from_bytes(b[i:i + 4], "little")
                for i in range(0, len(b), 4)]
    return list(src)


class Bus:
    """Word memory with programmable wait states; logs every transfer."""

    def __init__(self, mem, wait=0):
        self.mem = dict(mem)
        self.wait = wait          # int or callable(n, adr, we) -> cycles
        self.log = []             # (cycle, kind, byte adr, sel, data)
        self.sig = []             # per-cycle (cyc, stb, we, adr, sel, dat_w, ack)
        self.done = False

    def fetches(self):
        return [a for _, k, a, *_ in self.log if k == "F"]

    def stores(self):
        return [(a, s, d) for _, k, a, s, d in self.log if k == "W"]

    def loads(self):
        return [(a, s) for _, k, a, s, _ in self.log if k == "R"]


def load(segments):
    mem = {}
    for base, src in segments.items():
        for i, w in enumerate(words(src)):
            mem[base // 4 + i] = w
    return mem


def run(segments, cycles=400, wait=0, irq=None, stop=None, reset=None,
        each=None, top=None, junk=0):
    """Run and return the Bus.  irq: callable(cycle, bus) -> 0/1.  stop:
    callable(bus) -> bool.  reset: set of cycles with reset asserted."""
    from amaranth.sim import Simulator
    from amaranth.hdl import ClockDomain, Module
    from sentinel.top import Top
    m = top or Top()
    bus = Bus(load(segments), wait)
    w = Module()
    cd = ClockDomain("sync")
    w.domains += cd
    w.submodules.dut = m
    sim = Simulator(w)
    sim.add_clock(1e-6)

    async def tb(ctx):
        n = 0
        left = None
        acked = False
        count = 0
        for n in range(cycles):
            if irq is not None:
                ctx.set(m.irq, int(bool(irq(n, bus))))
            if reset is not None:
                ctx.set(cd.rst, int(n in reset))
            # sample the request of this cycle
            cyc, stb = ctx.get(m.bus.cyc), ctx.get(m.bus.stb)
            adr, we, sel = (ctx.get(m.bus.adr), ctx.get(m.bus.we),
                            ctx.get(m.bus.sel))
            dw = ctx.get(m.bus.dat_w)
            ack = 0
            if cyc and stb and not acked:
                if left is None:
                    left = bus.wait(count, adr * 4, we) \
                        if callable(bus.wait) else bus.wait
                    left += 1          # request is visible one cycle first
                    count += 1
                if left == 0:
                    ack = 1
                    left = None
                else:
                    left -= 1
            else:
                left = None
            ctx.set(m.bus.ack, ack)
            ctx.set(m.bus.dat_r,
                    bus.mem.get(adr, 0) if ack and not we else junk)
            bus.sig.append((cyc, stb, we, adr, sel, dw, ack))
            if ack:
                fetch = not (DATA[0] <= adr * 4 < DATA[1])
                if we:
                    old = bus.mem.get(adr, 0)
                    mask = sum(0xFF << 8 * i for i in range(4) if sel >> i & 1)
                    bus.mem[adr] = (old & ~mask) | (dw & mask)
                    bus.log.append((n, "W", adr * 4, sel, dw & mask))
                else:
                    bus.log.append((n, "F" if fetch else "R", adr * 4, sel,
                                    bus.mem.get(adr, 0)))
            if each:
                each(ctx, m, n, bus)
            await ctx.tick()
            acked = bool(ack)
            if stop and stop(bus):
                break
        bus.cycles = n
    sim.add_testbench(tb)
    sim.run()
    return bus


# ---- tiny assembler -------------------------------------------------------
def _r(f7, rs2, rs1, f3, rd, op):
    return f7 << 25 | rs2 << 20 | rs1 << 15 | f3 << 12 | rd << 7 | op


def _i(imm, rs1, f3, rd, op):
    return (imm & 0xfff) << 20 | rs1 << 15 | f3 << 12 | rd << 7 | op


def _s(imm, rs2, rs1, f3):
    imm &= 0xfff
    return (imm >> 5) << 25 | rs2 << 20 | rs1 << 15 | f3 << 12 | \
        (imm & 31) << 7 | 0x23


def _b(imm, rs2, rs1, f3):
    imm &= 0x1fff
    return (imm >> 12) << 31 | (imm >> 5 & 63) << 25 | rs2 << 20 | \
        rs1 << 15 | f3 << 12 | (imm >> 1 & 15) << 8 | (imm >> 11 & 1) << 7 | 0x63


def add(d, a, b): return _r(0, b, a, 0, d, 0x33)
def sub(d, a, b): return _r(32, b, a, 0, d, 0x33)
def sll(d, a, b): return _r(0, b, a, 1, d, 0x33)
def slt(d, a, b): return _r(0, b, a, 2, d, 0x33)
def sltu(d, a, b): return _r(0, b, a, 3, d, 0x33)
def xor(d, a, b): return _r(0, b, a, 4, d, 0x33)
def srl(d, a, b): return _r(0, b, a, 5, d, 0x33)
def sra(d, a, b): return _r(32, b, a, 5, d, 0x33)
def or_(d, a, b): return _r(0, b, a, 6, d, 0x33)
def and_(d, a, b): return _r(0, b, a, 7, d, 0x33)
def addi(d, a, i): return _i(i, a, 0, d, 0x13)
def slti(d, a, i): return _i(i, a, 2, d, 0x13)
def sltiu(d, a, i): return _i(i, a, 3, d, 0x13)
def xori(d, a, i): return _i(i, a, 4, d, 0x13)
def ori(d, a, i): return _i(i, a, 6, d, 0x13)
def andi(d, a, i): return _i(i, a, 7, d, 0x13)
def slli(d, a, i): return _i(i, a, 1, d, 0x13)
def srli(d, a, i): return _i(i, a, 5, d, 0x13)
def srai(d, a, i): return _i(i | 0x400, a, 5, d, 0x13)
def lb(d, a, i): return _i(i, a, 0, d, 0x03)
def lh(d, a, i): return _i(i, a, 1, d, 0x03)
def lw(d, a, i): return _i(i, a, 2, d, 0x03)
def lbu(d, a, i): return _i(i, a, 4, d, 0x03)
def lhu(d, a, i): return _i(i, a, 5, d, 0x03)
def sb(v, a, i): return _s(i, v, a, 0)
def sh(v, a, i): return _s(i, v, a, 1)
def sw(v, a, i): return _s(i, v, a, 2)
def beq(a, b, o): return _b(o, b, a, 0)
def bne(a, b, o): return _b(o, b, a, 1)
def blt(a, b, o): return _b(o, b, a, 4)
def bge(a, b, o): return _b(o, b, a, 5)
def bltu(a, b, o): return _b(o, b, a, 6)
def bgeu(a, b, o): return _b(o, b, a, 7)
def lui(d, i): return (i & 0xfffff) << 12 | d << 7 | 0x37
def auipc(d, i): return (i & 0xfffff) << 12 | d << 7 | 0x17
def jalr(d, a, i): return _i(i, a, 0, d, 0x67)


def jal(d, o):
    o &= 0x1fffff
    return (o >> 20) << 31 | (o >> 1 & 0x3ff) << 21 | (o >> 11 & 1) << 20 | \
        (o >> 12 & 0xff) << 12 | d << 7 | 0x6f


def csrrw(d, c, a): return _i(c, a, 1, d, 0x73)
def csrrs(d, c, a): return _i(c, a, 2, d, 0x73)
def csrrc(d, c, a): return _i(c, a, 3, d, 0x73)
def csrrwi(d, c, i): return _i(c, i, 5, d, 0x73)
def csrrsi(d, c, i): return _i(c, i, 6, d, 0x73)
def csrrci(d, c, i): return _i(c, i, 7, d, 0x73)


def li(d, v):
    lo = (v & 0xfff) - (0x1000 if v & 0x800 else 0)
    return [lui(d, (v - lo) >> 12), addi(d, d, lo)]


NOP, MRET, WFI, ECALL, EBREAK, SPIN = \
    0x13, 0x30200073, 0x10500073, 0x73, 0x100073, 0x6f
MSTATUS, MIE, MTVEC, MSCRATCH, MEPC, MCAUSE, MIP = \
    0x300, 0x304, 0x305, 0x340, 0x341, 0x342, 0x344
H = 0x200                      # trap handler used by the demos
# set mtvec = H (clobbers x1)
SETUP = [addi(1, 0, H), csrrw(0, MTVEC, 1)]
# handler: store mcause and mepc at 0x700/0x704, resume after the instruction
SKIP = [csrrs(30, MCAUSE, 0), sw(30, 0, 0x700), csrrs(31, MEPC, 0),
        sw(31, 0, 0x704), addi(31, 31, 4), csrrw(0, MEPC, 31), MRET]
# handler: store mcause and mepc, resume at the same place
AGAIN = [csrrs(30, MCAUSE, 0), sw(30, 0, 0x700), csrrs(31, MEPC, 0),
         sw(31, 0, 0x704), MRET]


def flat(*parts):
    out = []
    for p in parts:
        out += flat(*p) if isinstance(p, (list, tuple)) else [p]
    return out


_bad = []


def expect(got, want, what):
    if got != want:
        _bad.append(what)
        print(f"FAIL {what}: got {got!r}, want {want!r}")
    else:
        print(f"ok   {what}")


def finish():
    sys.exit(1 if _bad else 0)
