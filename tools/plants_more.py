S = "src/sentinel/"
FRM, ROM = S + "formal.py", S + "ucoderom.py"
DEC, EXC, DP, AL, TOP, CTL, ALU = (
    S + "decode.py", S + "exception.py", S + "datapath.py", S + "align.py",
    S + "top.py", S + "control.py", S + "alu.py")
SEEDS = []
RV = ["simlib.py", "rvfisim.py"]
CS = ["simlib.py", "compsim.py"]


def seed(id, prop, edits, needs, breaks, demo, **kw):
    lib = {"rvfi": RV, "comp": CS}.get(kw.pop("kind", None), ["simlib.py"])
    for x in lib[1:]:
        demo = f"from {x[:-3]} import *  # noqa: F403\n" + demo
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs,
                      breaks=breaks, demo=demo, libs=lib, **kw))


seed("rvfi-intr-nested", "P26",
     [(FRM, "with m.Elif(self.rvfi.trap):",
       "with m.Elif(self.rvfi.trap & ~self.rvfi.intr):")],
     "the first instruction of a trap handler itself traps",
     "intr is not set for the first instruction of the second handler entry",
     """
b, log = retire({0: flat(li(1, 0x40), csrrw(0, 0x305, 1), addi(0, 0, 0), 0), 0x40: flat(0, 0)}, cycles=200)
expect([(r["pc_rdata"], r["trap"], r["intr"]) for r in log if r["pc_rdata"] > 12][:3],
       [(16, 1, 0), (0x40, 1, 1), (0x40, 1, 1)], "each entry into the handler is flagged")
""", kind="rvfi")

seed("rvfi-order-narrow", "P26",
     [(FRM, """                m.d.comb += self.rvfi.valid.eq(1)
                m.d.sync += [
                    self.rvfi.order.eq(self.rvfi.order + 1),
                    self.rvfi.intr.eq(0),""",
       """                m.d.comb += self.rvfi.valid.eq(1)
                m.d.sync += [
                    self.rvfi.order.eq((self.rvfi.order + 1)[:8]),
                    self.rvfi.intr.eq(0),""")],
     "more than 256 retired instructions",
     "the retirement index wraps to zero",
     """
b, log = retire({0: [0x13] * 300}, cycles=2000)
expect([r["order"] for r in log][:290], list(range(290)), "order counts retirements")
""", kind="rvfi")

seed("rvfi-rs2-stale", "P27",
     [(FRM, "rs2_port = self.cpu.datapath.regfile.mem.read_port(transparent_for=(w_port,))",
       "rs2_port = self.cpu.datapath.regfile.mem.read_port(transparent_for=())")],
     "an instruction whose rs2 is written by its predecessor in the clock it is accepted",
     "rs2_rdata shows the register's previous value",
     """
b, log = retire({0: flat(addi(1, 0, 7), add(2, 0, 1), SPIN)}, cycles=120)
expect([(r["rs2_addr"], r["rs2_rdata"]) for r in log if r["pc_rdata"] == 4], [(1, 7)], "rs2 value of add x2, x0, x1")
""", kind="rvfi")

seed("rvfi-stale-rmask", "P28",
     [(FRM, """                self.rvfi.mem_rmask.eq(0),
                self.rvfi.mem_wmask.eq(0)
            ]
""", """                self.rvfi.mem_wmask.eq(0)
            ]
""")],
     "an instruction without a data access that follows a load",
     "the load's byte mask is reported again by the instructions after it",
     """
b, log = retire({0: flat(lw(1, 0, 0x700), addi(2, 0, 3), SPIN), 0x700: [99]}, cycles=120)
expect([(r["mem_rmask"], r["mem_wmask"]) for r in log if r["pc_rdata"] in (0, 4)], [(15, 0), (0, 0)], "masks of lw and addi")
""", kind="rvfi")

seed("rvfi-mtvec-after", "P29",
     [(FRM, "m.d.comb += mtvec_port.en.eq(0)", "m.d.comb += mtvec_port.en.eq(~mtvec_hold_rd)")],
     "an instruction that writes MTVEC",
     "rdata of mtvec is the new value instead of the one before the instruction",
     """
b, log = retire({0: flat(addi(1, 0, 0x40), csrrw(0, 0x305, 1), addi(1, 0, 0x80), csrrw(0, 0x305, 1), SPIN)}, cycles=200, csrs=("mtvec",))
expect([r["mtvec"][2:] for r in log if r["pc_rdata"] == 12], [(0x40, 0x80)], "mtvec before and after")
""", kind="rvfi")

seed("rvfi-ro-clear-imm", "P29",
     [(FRM, "((csr_op_shadow == 6) &", "((csr_op_shadow[1:] == 3) &")],
     "csrrci with a non-zero immediate on a read-only-zero CSR that may be written",
     "wdata reports the immediate, although clearing bits of zero leaves zero",
     """
b, log = retire({0: flat(csrrci(0, 0x301, 5), SPIN)}, cycles=120, csrs=("misa",))
expect([r["misa"][2:] for r in log if r["pc_rdata"] == 0], [(0, 0)], "misa rdata and wdata of csrrci")
""", kind="rvfi")

seed("formal-irq-masked", "P30",
     [(TOP, """                self.exception_router.out.exception)
            connect(m, flipped""", """                self.exception_router.out.exception)
            m.d.comb += irq.eq(self.irq & ~self.decode.exception.valid)
            connect(m, flipped""")],
     "an enabled interrupt pending while an illegal instruction is decoded",
     "the instrumented core raises the instruction's exception where the plain one takes the interrupt",
     """
from sentinel.formal import FormalTop
prog = {0: flat(addi(1, 0, 0x40), csrrw(0, 0x305, 1), lui(2, 1), addi(2, 2, -2048), csrrw(0, 0x304, 2), csrrsi(0, 0x300, 8),
                0, SPIN), 0x40: flat(csrrs(3, 0x342, 0), sw(3, 0, 0x700), SPIN)}
f = lambda n, bus: any(x[1] == "F" and x[2] == 24 for x in bus.log)
a = run(prog, 220, irq=f)
b = run(prog, 220, irq=f, top=FormalTop())
expect(b.stores(), a.stores(), "cause recorded by both cores")
""")

seed("dat-w-loopback", "P31",
     [(TOP, "            self.bus.dat_w.eq(write_data),",
       "            self.bus.dat_w.eq(write_data |\n"
       "                              (self.bus.dat_r & ~self.control.mem.write.replicate(32))),")],
     "the read data input changing during a clock cycle while no write is in progress",
     "bus.dat_w follows bus.dat_r combinationally",
     """
from sentinel.top import Top
seen = []
def each(ctx, m, n, bus):
    if not ctx.get(m.bus.we):
        d = ctx.get(m.bus.dat_r)
        ctx.set(m.bus.dat_r, 0)
        x = ctx.get(m.bus.dat_w)
        ctx.set(m.bus.dat_r, 0xffffffff)
        seen.append(x == ctx.get(m.bus.dat_w))
        ctx.set(m.bus.dat_r, d)
run({0: flat(addi(1, 0, 3), SPIN)}, 60, each=each)
expect(all(seen), True, "dat_w does not depend on dat_r within a clock cycle")
""")

seed("rom-depth-floor", "P32",
     [(ROM, """            "addr": Out(ceil_log2(self.depth)),""",
       """            "addr": Out(max(self.depth.bit_length() - 1, 1)),""")],
     "microcode whose size is not a power of two",
     "words above the next lower power of two cannot be addressed",
     """
import io
from sentinel.ucoderom import UCodeROM
src = "space r: width 8, size 6;\\nspace r;\\norigin 0;\\nfields r: {\\n x: width 8, origin 0, default 0;\\n};\\n" + \\
      "".join(f"x => {16 + i};\\n" for i in range(6))
from amaranth import unsigned
rom = UCodeROM(main_file=io.StringIO(src), field_map={"x": unsigned(8)})
got = rows(rom, [{"addr": i} for i in range(6)], ["fields"])
expect([g[0] for g in got[1:]], list(range(16, 22)), "contents of a six-word ROM")
""", kind="comp")

seed("rom-gap-one", "P32",
     [(ROM, "            if next_f and curr_f.origin + curr_f.width != next_f.origin:",
       "            if next_f and curr_f.origin + curr_f.width + 1 < next_f.origin:")],
     "microcode with a gap of exactly one bit between two fields",
     "every field above the gap is read one bit too low",
     """
import io
from sentinel.ucoderom import UCodeROM
from amaranth import unsigned
src = "space r: width 8, size 4;\\nspace r;\\norigin 0;\\nfields r: {\\n w: width 2, origin 0, default 0;\\n x: width 4, origin 3, default 0;\\n};\\n" + \\
      "".join(f"x => {5 + i};\\n" for i in range(4))
rom = UCodeROM(main_file=io.StringIO(src), field_map={"x": unsigned(4), "w": unsigned(2)})
got = rows(rom, [{"addr": i} for i in range(4)], ["fields.x"])
expect([g[0] for g in got[1:]], [5, 6, 7, 8], "field above a one-bit gap")
""", kind="comp")

seed("rom-fdef-or-hex", "P32",
     [(ROM, "        if self.field_defs:\n", "        elif self.field_defs:\n"),
      (ROM, "            space.write_hex_file(self.hex)\n\n",
       "            space.write_hex_file(self.hex)\n")],
     "asking for the hex file and the field definition file of one ROM",
     "the field definition file is not written",
     """
import tempfile
from pathlib import Path
from sentinel.ucoderom import UCodeROM
with tempfile.TemporaryDirectory() as d:
    d = Path(d)
    rom = UCodeROM(hex=d / "words.hex", field_defs=d / "fields.txt")
    got = sorted(p.name for p in d.iterdir())
expect(got, ["fields.txt", "words.hex"], "files written for the ROM")
""", kind="comp")

seed("rom-narrow-accepted", "P33",
     [(ROM, "        if ss_width != f_width:", "        if ss_width < f_width:")],
     "a field map whose shape for a plain field is wider than the microcode declares",
     "the mismatch is accepted and neighbouring fields are read as part of it",
     """
import io
from sentinel.ucoderom import UCodeROM
from amaranth import unsigned
src = "space r: width 8, size 4;\\nspace r;\\norigin 0;\\nfields r: {\\n x: width 4, origin 0, default 0;\\n};\\nx => 1;\\n"
try:
    UCodeROM(main_file=io.StringIO(src), field_map={"x": unsigned(6)})
    r = "accepted"
except ValueError:
    r = "refused"
expect(r, "refused", "a six-bit shape for a four-bit field")
""", kind="comp")

seed("rom-wide-enum", "P33",
     [(ROM, """        se_width = Shape.cast(se_class).width
        f_width = field.width
        if se_width != f_width:""", """        se_width = Shape.cast(se_class).width
        f_width = field.width
        if se_width > f_width:""")],
     "an enumeration whose shape is narrower than the field the microcode declares",
     "the mismatch is accepted and fields above are read from the wrong bits",
     """
import io
from enum import Enum
from amaranth import unsigned
from sentinel.ucoderom import UCodeROM
class E(Enum):
    A = 0
    B = 1
src = ("space r: width 8, size 4;\\nspace r;\\norigin 0;\\nfields r: {\\n"
       " e: enum { a = 0; b = 1; }, width 3, origin 0, default a;\\n"
       " x: width 4, origin 3, default 0;\\n};\\ne => b, x => 5;\\n")
try:
    UCodeROM(main_file=io.StringIO(src), field_map={"e": E, "x": unsigned(4)})
    r = "accepted"
except ValueError:
    r = "refused"
expect(r, "refused", "a one-bit enumeration for a three-bit field")
""", kind="comp")

seed("invert-ignored", "P34",
     [(CTL, "        with m.If(invert_test):", "        with m.If(invert_test & (cond_test != CondTest.EXCEPTION)):")],
     "a microword that inverts the exception test (the shipped microcode has none)",
     "the jump is taken on an exception instead of without one",
     """
import io
from sentinel.control import Control
c = Control(io.StringIO(microcode({2: "jmp_type => direct, cond_test => exception, invert_test => 1, target => 0x20",
                                   3: "jmp_type => direct, cond_test => true, target => 3",
                                   0x20: "jmp_type => direct, cond_test => true, target => 0x20"})))
got = rows(c, [{"exception.exception": 0}] * 6, ["ucoderom.addr"])
expect(got[-1][0], 0x20, "not-exception jump without an exception")
""", kind="comp")

seed("clear-lsb-add-only", "P35",
     [(ALU, "        with m.Elif(self.ctrl.omod == ALUOMod.CLEAR_LSB_O):",
       "        with m.Elif((self.ctrl.omod == ALUOMod.CLEAR_LSB_O) &\n"
       "                    (self.ctrl.op == OpType.ADD)):")],
     "clearing bit 0 of the result of an operation other than addition (unused by the shipped microcode)",
     "bit 0 is not cleared",
     """
from sentinel.alu import ALU
from sentinel.ucodefields import OpType, ALUOMod
got = rows(ALU(32), [{"a": 7, "b": 1, "ctrl.op": OpType.OR.value, "ctrl.omod": ALUOMod.CLEAR_LSB_O.value}], ["o"])
expect(got[1][0], 6, "7 | 1 with bit 0 cleared")
""", kind="comp")

seed("csr-imm-masked", "P36",
     [(ALU, "                    m.d.sync += self.data.eq(self.csr_imm)",
       "                    m.d.sync += self.data.eq(Mux(self.mem_sel == MemSel.AUTO,\n"
       "                                                 self.csr_imm, self.csr_imm[:4]))"),
      (ALU, "from amaranth import ", "from amaranth import Mux, ")],
     "a microword that selects the CSR immediate together with an access size (unused by the shipped microcode)",
     "the top bit of the immediate is lost",
     """
from sentinel.alu import BSrcMux
from sentinel.ucodefields import BSrc, MemSel
got = rows(BSrcMux(), [{"latch": 1, "sel": BSrc.CSR_IMM.value, "csr_imm": 0x1f, "mem_sel": MemSel.WORD.value}], ["data"])
expect(got[1][0], 0x1f, "CSR immediate")
""", kind="comp")

seed("enter-int-vs-write", "P37",
     [(DP, "        with m.If(self.pub.ctrl.exception == ExceptCtl.ENTER_INT):",
       "        with m.If((self.pub.ctrl.exception == ExceptCtl.ENTER_INT) &\n"
       "                  (self.pub.ctrl.op != CSROp.WRITE_CSR)):")],
     "a microword that enters an exception and writes a CSR (unused by the shipped microcode)",
     "the interrupt enable is not stacked",
     """
from sentinel.datapath import DataPath
from sentinel.ucodefields import CSROp, ExceptCtl
W = CSROp.WRITE_CSR.value
got = rows(DataPath(), [{"csr.adr": 0, "csr.ctrl.op": W, "csr.dat_w": 8},
                        {"csr.adr": 8, "csr.ctrl.op": W, "csr.dat_w": 1, "csr.ctrl.exception": ExceptCtl.ENTER_INT.value}],
           ["csr.mstatus_r"])
expect([g[0] & 0x88 for g in got], [0, 8, 0x80], "MIE moves to MPIE on entry")
""", kind="comp")

seed("trg-csr-fetch", "P37",
     [(TOP, """                with m.If(self.control.mem.insn_fetch):
                    m.d.comb += reg_r_adr.eq(self.decode.src_a_unreg)""",
       """                with m.If(self.control.mem.insn_fetch & self.control.mem.req):
                    m.d.comb += reg_r_adr.eq(self.decode.src_a_unreg)""")],
     "a microword that reads rs1 with insn_fetch set but no request (unused by the shipped microcode)",
     "the register of the previous instruction is read",
     """
import tempfile, pathlib
from sentinel.ucoderom import UCodeROM
from sentinel.top import Top
d = tempfile.mkdtemp()
f = pathlib.Path(d) / "m.asm"
W = "jmp_type => direct, cond_test => true, target => "
f.write_text(microcode({0: W + "1", 1: "insn_fetch => 1, mem_req => 1, " + W + "2", 2: "insn_fetch => 1, reg_read => 1, " + W + "3",
                        3: W + "3"}))
UCodeROM.main_microcode_file = staticmethod(lambda: f)
t = Top()
got = rows(t, [{"bus.dat_r": 0x13 | 5 << 15}] * 8, ["datapath.gp.adr_r"])
import shutil
shutil.rmtree(d)
expect(5 in [g[0] for g in got[:7]], True, "rs1 of the arriving word is read")
""", kind="comp")

seed("fetch-lanes", "P38",
     [(AL, "            with m.If(self.insn_fetch):", "            with m.If(self.insn_fetch & (self.mem_sel == MemSel.AUTO)):")],
     "a fetch microword that also carries an access size (unused by the shipped microcode)",
     "the fetch uses the data address and partial byte lanes",
     """
from sentinel.align import AddressAlign
from sentinel.ucodefields import MemSel
got = rows(AddressAlign(), [{"mem_req": 1, "insn_fetch": 1, "pc": 0x123, "latched_adr": 0x40, "mem_sel": MemSel.BYTE.value}],
           ["wb_adr", "wb_sel"])
expect(got[0], (0x123, 15), "address and lanes of a fetch")
""", kind="comp")

seed("byte-store-misaligned", "P39",
     [(EXC, """        with m.Elif(self.src.ctrl.except_ctl == ExceptCtl.LATCH_STORE_ADR):
            with m.If((((self.src.ctrl.mem_sel == MemSel.HWORD) &""",
       """        with m.Elif(self.src.ctrl.except_ctl == ExceptCtl.LATCH_STORE_ADR):
            with m.If((((self.src.ctrl.mem_sel != MemSel.WORD) &""")],
     "checking the address of a byte store (unused by the shipped microcode)",
     "a byte store to an odd address raises a misaligned exception",
     """
from sentinel.exception import ExceptionRouter
from sentinel.ucodefields import ExceptCtl, MemSel
got = rows(ExceptionRouter(), [{"src.alu_lo": 1, "src.ctrl.mem_sel": MemSel.BYTE.value,
                                "src.ctrl.except_ctl": ExceptCtl.LATCH_STORE_ADR.value}], ["out.exception"])
expect(got[0][0], 0, "byte store to an odd address")
""", kind="comp")

seed("imm-follows-bus", "P40",
     [(DEC, """        with m.If(self.enable):
            with m.Switch(insn.opcode):""",
       """        with m.If(self.enable | (insn.opcode == OpcodeType.JAL)):
            with m.Switch(insn.opcode):""")],
     "a bus that carries a word with the JAL opcode while no fetch completes",
     "the captured immediate is overwritten",
     """
from sentinel.decode import Decode
got = rows(Decode(), [{"insn": 5 << 20 | 0x13, "do_decode": 1}, {"insn": 0x123000ef, "do_decode": 0}], ["imm"])
expect([g[0] for g in got[1:]], [5, 5], "immediate after an unrelated bus value")
""", kind="comp")
GEN = S + "gen.py"
GENDEMO = '''
import io, os, sys, tempfile
import sentinel.gen as G
made = []


class Out(io.StringIO):
    closed_by = 0

    def close(self):
        self.closed_by += 1


def fake_open(fn, mode="r", **kw):
    made.append((fn, mode, Out()))
    return made[-1][2]


def run(argv, fail=False):
    """Generate with Verilog conversion and open() replaced by stand-ins."""
    made.clear()

    def conv(top, name="top", **kw):
        if fail:
            raise RuntimeError("conversion failed")
        return type(top).__name__ + " " + str(name)
    G.verilog = type("V", (), {"convert": staticmethod(conv)})
    G.open = fake_open
    old, oldout = sys.argv, sys.stdout
    sys.argv, sys.stdout = ["gen"] + argv, Out()
    try:
        G.generate()
    except RuntimeError:
        pass
    finally:
        out, sys.argv, sys.stdout = sys.stdout, old, oldout
    return [(f, m, o.getvalue().strip(), o.closed_by) for f, m, o in made], \\
        (out.getvalue().strip(), out.closed_by)


'''
seed("gen-leak-on-error", "P41",
     [(GEN, """    try:
        yield fp
    finally:
        if not is_stdout:
            fp.close()
""", """    yield fp
    if not is_stdout:
        fp.close()
""")],
     "a conversion that fails after the output file was opened",
     "the output file is not closed",
     GENDEMO + '''
files, out = run(["-o", "x.v"], fail=True)
expect([f[3] for f in files], [1] * len(files), "files closed after a failure")
files, out = run(["-o", "x.v"])
expect(files, [("x.v", "w", "Top sentinel", 1)], "plain run")
''')

seed("gen-formal-name", "P41",
     [(GEN, """            v = verilog.convert(m, name=n or "sentinel")
""", """            v = verilog.convert(m, name="sentinel" if f else n or "sentinel")
""")],
     "both -f and -n",
     "the module name given is ignored for the formal design",
     GENDEMO + '''
files, out = run(["-o", "x.v", "-f", "-n", "wrap"])
expect([f[2] for f in files], ["FormalTop wrap"], "name of the formal design")
expect(run(["-n", "core"])[1], ("Top core", 0), "name on standard output")
''')
CSRF = S + "csr.py"
seed("mie-mtie-offset", "P42",
     [(CSRF, """    #: Machine Timer Interrupt Enable bit. Not implemented.
    mtie: unsigned(1)
    _padding2: unsigned(3)
""", """    #: Machine Timer Interrupt Enable bit. Not implemented.
    mtie: unsigned(2)
    _padding2: unsigned(2)
""")],
     "someone using the timer enable field of the declared layout",
     "the field spills into a reserved bit",
     """
from amaranth.lib.data import Layout
from sentinel.csr import MIE
expect(Layout.cast(MIE)["mtie"].width, 1, "width of mie.mtie")
""")

seed("hpmevent-address", "P42",
     [(CSRF, "    MHPMEVENT26 = 0x33A\n", "    MHPMEVENT26 = 0x34A\n")],
     "the address of one of the event selectors",
     "mhpmevent26 is an alias of mtinst",
     """
from sentinel.csr import MachineAddr
expect(MachineAddr.MHPMEVENT26.value, 0x33a, "address of mhpmevent26")
""")
seed("sra-fill-two", "P03",
     [(ALU, "lambda a, _: a.as_signed() >> 1)", "lambda a, _: (a >> 1) | ((a[-1] & a[-2]) << (width - 1)))")],
     "an arithmetic shift of a value whose two top bits are 10",
     "the sign is lost",
     """
b = run({0: flat(li(5, 0x90000000), srai(7, 5, 3), sw(7, 0, 0x700), li(5, 0xC0000000), srai(7, 5, 3), sw(7, 0, 0x704), SPIN)}, cycles=300)
expect(b.stores(), [(0x700, 15, 0xf2000000), (0x704, 15, 0xf8000000)], "srai by 3")
""")

seed("beq-top-bit", "P04",
     [(ALU, "m.d.comb += self.ctrl.zero.eq(self.o == 0)", "m.d.comb += self.ctrl.zero.eq(self.o[:-1] == 0)")],
     "beq or bne of two registers that differ in the top bit only",
     "they are taken for equal",
     """
b = run({0: flat(li(5, 0x80000123), addi(6, 0, 0x123), beq(5, 6, 8), sw(5, 0, 0x700), sw(6, 0, 0x704), SPIN)}, cycles=300)
expect([a for a, _, _ in b.stores()], [0x700, 0x704], "beq falls through")
""")

seed("fence-rd-illegal", "P17",
     [(DEC, """                    # impl.
                    with m.If(insn.funct3 != 0):""", """                    # impl.
                    with m.If((insn.funct3 != 0) | (insn.rd != 0)):""")],
     "a fence word with a non-zero (reserved) rd field",
     "it traps instead of being a no-op",
     """
b = run({0: flat(addi(5, 0, 7), 0x0ff0000f | 5 << 7, sw(5, 0, 0x700), SPIN)}, cycles=100)
expect(b.stores(), [(0x700, 15, 7)], "fence with rd field set")
""")

seed("stb-drops-on-irq", "P18",
     [(TOP, "self.bus.stb.eq(self.control.mem.req & ~mem_reset_guard),",
       "self.bus.stb.eq(self.control.mem.req & ~mem_reset_guard & ~(irq & self.control.mem.write)),")],
     "the interrupt line rising while a store waits for its acknowledgement",
     "STB falls while CYC stays, in the middle of a request",
     """
b = run({0: flat(addi(5, 0, 3), sw(5, 0, 0x700), SPIN)}, cycles=120, wait=6,
        irq=lambda n, bus: 0 < n and len(bus.sig) > 2 and bus.sig[-1][2] and bus.sig[-2][2])
expect([i for i, s in enumerate(b.sig) if s[0] != s[1]], [], "cycles with CYC and STB different")
""")

seed("we-follows-decode", "P18",
     [(TOP, "self.bus.dat_w.eq(write_data),", "self.bus.dat_w.eq(write_data ^ (self.alu.o & mem_ack.replicate(32))),")],
     "write data sampled in the cycle of the acknowledgement",
     "DAT_O changes in the last cycle of the request",
     """
held = []


def each(ctx, m, n, bus):
    if ctx.get(m.bus.cyc) and ctx.get(m.bus.we):
        held.append(ctx.get(m.bus.dat_w))


b = run({0: flat(addi(5, 0, 3), sw(5, 0, 0x700), SPIN)}, cycles=120, wait=2, each=each)
expect(sorted(set(held)), [3], "write data constant during the request")
""")

PORTS = """
import amaranth.lib.wiring as wiring


def ports(c):
    return {"__".join(map(str, p)): (str(m.flow), m.shape) for p, m, _ in
            c.signature.flatten(c)}


"""

seed("port-event-narrow", "P43",
     [(FRM, """                     "mhpmevent3"):
            # Per RVFI: Always 64-bit wide, even on pure RV32 processors.
            if name in ("mcycle", "minstret", "mhpmcounter3"):""",
       """                     "mhpmevent3"):
            # Per RVFI: Always 64-bit wide, even on pure RV32 processors.
            if name in ("mcycle", "minstret"):""")],
     "someone reading the upper half of the hpm counter's trace port",
     "the RVFI ports of mhpmcounter3 are 32 bits wide",
     PORTS + """
from sentinel.formal import FormalTop
p = ports(FormalTop())
expect({k[-5:]: v[1] for k, v in p.items() if "__mhpmcounter3__" in k},
       dict(rmask=64, wmask=64, rdata=64, wdata=64), "mhpmcounter3 ports")
""", kind="rvfi")

seed("port-ixl-trap-mode", "P43",
     [(FRM, """            "mode": Out(2),
            "ixl": Out(2),""", """            "mode": Out(3),
            "ixl": Out(2),""")],
     "the trace port connected to a checker",
     "rvfi_mode has three bits, so the concatenation a checker expects shifts",
     PORTS + """
from sentinel.formal import FormalTop
p = ports(FormalTop())
expect(p["rvfi__mode"][1], 2, "width of rvfi_mode")
""", kind="rvfi")

seed("port-bus-features", "P43",
     [(TOP, """                "bus": Out(wishbone.Signature(addr_width=30, data_width=32,
                                              granularity=8)),
                "irq": In(1)
        }
        if self.formal:
            sig["rvfi"] = Out(""", """                "bus": Out(wishbone.Signature(addr_width=30, data_width=32,
                                              granularity=8)),
                "irq": In(1)
        }
        if not self.formal:
            sig["bus"] = Out(wishbone.Signature(addr_width=30, data_width=32,
                                                granularity=16))
        if self.formal:
            sig["rvfi"] = Out(""")],
     "the plain core (not the instrumented one) doing byte stores to odd lanes",
     "only two select lines leave the generated core",
     PORTS + """
from sentinel.top import Top
expect(ports(Top())["bus__sel"][1], 4, "select lines of Top")
""", kind="rvfi")

seed("sltu-zero-max", "P02",
     [(ALU, "        m.d.sync += self.o.eq(self.o_mux)\n",
       "        never = ((self.ctrl.op == OpType.CMP_LTU) &\n                 ~mod_a.any() & mod_b.all())\n        m.d.sync += self.o.eq(self.o_mux & ~never.replicate(self.width))\n")],
     "sltu of 0 and 0xffffffff (or slt of the most negative and the most positive number)",
     "the comparison answers 0 for that one operand pair",
     """
b = run({0: flat(addi(5, 0, -1), li(6, 0x80000000), li(7, 0x7fffffff), sltu(8, 0, 5), sw(8, 0, 0x700),
                 slt(8, 6, 7), sw(8, 0, 0x704), SPIN)}, cycles=200)
expect(b.stores(), [(0x700, 15, 1), (0x704, 15, 1)], "0 < max, INT_MIN < INT_MAX")
""")

seed("lbu-long-wait", "P06",
     [(TOP, "        mem_ack = Signal()\n",
       "        mem_ack = Signal()\n        waits = Signal(3)\n        with m.If(self.control.mem.req & ~mem_ack):\n            m.d.sync += waits.eq(Mux(waits.all(), waits, waits + 1))\n        with m.Else():\n            m.d.sync += waits.eq(0)\n"),
      (TOP, "self.b_src.mem_extend.eq(self.control.mem.extend),",
       "self.b_src.mem_extend.eq(self.control.mem.extend | waits.all()),"),
      (TOP, "from amaranth import Signal, Module", "from amaranth import Mux, Signal, Module")],
     "lbu or lhu of a value with its top bit set from memory that takes seven or more wait cycles",
     "the value is sign-extended",
     """
for wait in (0, 5, 6, 7, 12):
    b = run({0: flat(addi(5, 0, 0x700), lbu(6, 5, 1), sw(6, 0, 0x710), lhu(6, 5, 2), sw(6, 0, 0x714), SPIN),
             0x700: [0x98765432 | 0x8000]}, cycles=500, wait=wait)
    expect(b.stores(), [(0x710, 15, 0xd4), (0x714, 15, 0x9876)], f"unsigned loads after {wait} wait cycles")
""")

seed("store-data-irq", "P07",
     [(TOP, "with m.If(self.control.mem.latch_data):",
       "with m.If(self.control.mem.latch_data & ~(irq & self.irq)):"),
      (TOP, "        mem_ack = Signal()\n        irq = Signal()\n", "        mem_ack = Signal()\n"),
      (TOP, "        with m.If(self.control.mem.latch_adr):", "        irq = Signal()\n        with m.If(self.control.mem.latch_adr):")],
     "the interrupt line high (interrupts disabled) in the clock in which a store captures its data",
     "the data of the previous store is written",
     """
for k in range(0, 80):
    b = run({0: flat(addi(5, 0, 3), sw(5, 0, 0x700), addi(5, 0, 9), sw(5, 0, 0x704), SPIN)}, cycles=130,
            irq=lambda n, bus, k=k: k <= n < k + 2)
    expect(b.stores(), [(0x700, 15, 3), (0x704, 15, 9)], f"stored values, interrupt line high in clock {k}")
""")

seed("cause-after-255", "P09",
     [(EXC, "        # Don't let the interrupt bit from a previous interrupt leak into the\n",
       "        taken = Signal(8)\n        with m.If(exception):\n            m.d.sync += taken.eq(taken + 1)\n\n        # Don't let the interrupt bit from a previous interrupt leak into the\n"),
      (EXC, "m.d.sync += mcause_latch.cause.eq(MCause.Cause.LOAD_MISALIGNED)",
       "m.d.sync += mcause_latch.cause.eq(\n                    MCause.Cause.LOAD_MISALIGNED | taken.all())")],
     "a misaligned load that is the 256th trap since reset",
     "its mcause is 5 instead of 4",
     """
b = run({0: flat(SETUP, addi(5, 0, 1), lw(6, 5, 0x700), jal(0, -4)),
         H: flat(csrrs(30, MCAUSE, 0), sw(30, 0, 0x700), MRET)}, cycles=22000)
n = len(b.stores())
print(n, "traps")
expect(n > 300, True, "enough traps")
expect(set(b.stores()), {(0x700, 15, 4)}, "cause of every misaligned load")
""")

seed("mret-pending", "P11",
     [(DP, "                mstatus.mpie.eq(1)\n", "                mstatus.mpie.eq(~mip.meip | mstatus.mpie)\n")],
     "mret with MPIE clear while an external interrupt is pending but masked",
     "MPIE stays clear",
     """
for line in (0, 1):
    b = run({0: flat(addi(5, 0, 0x20), csrrw(0, MEPC, 5), csrrw(0, MSTATUS, 0), MRET),
             0x20: flat(csrrs(6, MSTATUS, 0), sw(6, 0, 0x700), SPIN)}, cycles=200, irq=lambda n, bus: line)
    expect(b.stores(), [(0x700, 15, 0x1880)], f"mstatus after mret, interrupt line {line}")
""")

seed("high-byte-hang", "P23",
     [(TOP, "            mem_ack.eq(self.bus.ack),",
       "            mem_ack.eq(self.bus.ack & ~(data_adr.all() &\n                                        ~self.control.mem.insn_fetch)),")],
     "a byte access to the last address, 0xffffffff",
     "its acknowledge is never seen: the core waits forever",
     """
for a in (-2, -1):
    b = run({0: flat(addi(5, 0, a), lb(6, 5, 0), sw(6, 0, 0x704), SPIN)}, cycles=200)
    expect(len(b.stores()), 1, f"stores after a byte load from {a}")
""")

seed("request-stall-irq", "P24",
     [(TOP, "self.bus.cyc.eq(self.control.mem.req & ~mem_reset_guard),\n            self.bus.stb.eq(self.control.mem.req & ~mem_reset_guard),",
       "self.bus.cyc.eq(self.control.mem.req & ~mem_reset_guard &\n                            (asked | ~irq)),\n            self.bus.stb.eq(self.control.mem.req & ~mem_reset_guard &\n                            (asked | ~irq)),"),
      (TOP, "        m.d.sync += mem_reset_guard.eq(0)\n",
       "        m.d.sync += mem_reset_guard.eq(0)\n        asked = Signal()\n        m.d.sync += asked.eq(self.control.mem.req & ~self.control.mem.valid)\n")],
     "counting clocks with interrupts disabled and the interrupt line high",
     "every memory access takes one clock more",
     """
want = None
for line in (0, 1):
    b = run({0: flat(NOP, NOP, NOP, NOP, NOP, sw(0, 0, 0x700), SPIN)}, cycles=120, irq=lambda n, bus: line)
    at = [x[0] for x in b.log[:7]]
    got = [q - p for p, q in zip(at, at[1:])]
    want = want or got
    expect(got, want, f"clocks between accesses, interrupt line {line}")
""")

seed("irq-remembered", "P10",
     [(DP, "        m.d.comb += mip.meip.eq(self.pub.mip_w.meip)\n",
       "        missed = Signal()\n        with m.If(self.pub.mip_w.meip & ~mie.meie):\n            m.d.sync += missed.eq(1)\n        with m.Elif(self.pub.ctrl.exception == ExceptCtl.ENTER_INT):\n            m.d.sync += missed.eq(0)\n        m.d.comb += mip.meip.eq(self.pub.mip_w.meip | missed)\n")],
     "an interrupt pulse while MEIE is clear, and MEIE set only after it is gone",
     "an interrupt is taken although the line is low",
     """
b = run({0: flat(SETUP, NOP, NOP, NOP, NOP, NOP, csrrwi(0, MSTATUS, 8), addi(5, 0, 1), slli(5, 5, 11), csrrw(0, MIE, 5),
                 NOP, NOP, sw(5, 0, 0x710), SPIN), H: AGAIN}, cycles=400, irq=lambda n, bus: 30 < n < 36)
expect(b.stores(), [(0x710, 15, 0x800)], "no interrupt is taken")
""")

seed("csr-imm-after-x31", "P12",
     [(DEC, "                self.src_a.eq(insn.rs1),\n                self.src_b",
       "                self.src_a.eq(insn.rs1 & ~Cat(C(0, 4), self.dst.all())),\n                self.src_b")],
     "a CSR immediate of 16 or more (or another late use of rs1) directly after an instruction naming x31 as destination",
     "bit 4 of the immediate is lost",
     """
for rd in (30, 31):
    b = run({0: flat(addi(rd, 0, 1), csrrwi(0, MSCRATCH, 21), csrrs(6, MSCRATCH, 0), sw(6, 0, 0x700), SPIN)}, cycles=200)
    expect(b.stores(), [(0x700, 15, 21)], f"mscratch after addi x{rd}")
""")

seed("reset-irq-guard", "P22",
     [(TOP, "        m.d.sync += mem_reset_guard.eq(0)\n",
       "        with m.If(~self.irq):\n            m.d.sync += mem_reset_guard.eq(0)\n")],
     "the interrupt line high when reset ends",
     "no fetch is requested until the line falls",
     """
for line in (0, 1):
    b = run({0: flat(addi(5, 0, 1), sw(5, 0, 0x700), SPIN)}, cycles=100, irq=lambda n, bus: line and n < 90)
    expect(b.stores(), [(0x700, 15, 1)], f"store after reset, interrupt line {line}")
""")


# the package as a whole
seed("field-map-shared", "P51",
     [(ROM, """        if field_map:
            self.field_map = field_map
""", """        if field_map:
            self.field_map.update(field_map)
""")],
     "a core with an extended field map built before one with the default map",
     "the extension stays in the class, so the default microcode is refused",
     """
import io
from sentinel.ucoderom import UCodeROM
from amaranth import unsigned
src = "space r: width 8, size 4;\\nspace r;\\norigin 0;\\nfields r: {\\n target: width 4, origin 0, default 0;\\n};\\ntarget => 1;\\n"
first = str(UCodeROM().field_layout)
UCodeROM(main_file=io.StringIO(src), field_map={"target": unsigned(4)})
try:
    again = str(UCodeROM().field_layout)
except ValueError as e:
    again = "refused"
expect(again == first, True, "the default ROM after one with its own map")
""", kind="comp")

seed("assembly-cached-by-name", "P51",
     [(ROM, """        passes = [None,
""", """        key = self.m5meta.obj_base_fn
        if key in _assembled:
            self._create_mem_init(_assembled[key])
            self._create_field_layout(_assembled[key])
            return

        passes = [None,
"""), (ROM, """        space.generate_object()
""", """        space.generate_object()
        _assembled[key] = space
"""), (ROM, """class UCodeROM(Component):
""", """_assembled = {}


class UCodeROM(Component):
""")],
     "two microcode sources with the same base name built in one process",
     "the second core gets the first one's microcode",
     """
import io
from sentinel.ucoderom import UCodeROM
from amaranth import unsigned
def src(n):
    return "space r: width 8, size 4;\\nspace r;\\norigin 0;\\nfields r: {\\n x: width 4, origin 0, default 0;\\n};\\nx => %d;\\n" % n
a = UCodeROM(main_file=io.StringIO(src(1)), field_map={"x": unsigned(4)})
b = UCodeROM(main_file=io.StringIO(src(2)), field_map={"x": unsigned(4)})
expect((a.ucode_contents[0], b.ucode_contents[0]), (1, 2), "each ROM holds its own source")
""", kind="comp")

seed("import-order", "P52",
     [(S + "csr.py", "class MCause(Struct):", """from .insn import OpcodeType  # noqa: E402,F401


class MCause(Struct):""")],
     "sentinel.insn imported before any module that imports sentinel.csr",
     "the import fails: csr takes a name from insn before insn has defined it",
     """
import subprocess
import sys
for m in ("top", "insn", "decode", "control"):
    r = subprocess.run([sys.executable, "-c", "import simlib, sentinel." + m], env=dict(os.environ, PYTHONPATH=os.path.dirname(os.path.abspath(__file__))))
    expect(r.returncode, 0, "import sentinel." + m + " first")
""")

seed("needs-doit", "P52",
     [(ROM, """        if self.field_defs:
            with open(""", """        if self.field_defs:
            from doit.tools import create_folder
            create_folder(Path(self.field_defs).parent)
            with open(""")],
     "an installation without the development tools, and field definitions requested",
     "the import fails, as doit is not a dependency of the package",
     """
import sys
import tempfile


class Absent:
    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] in ("doit", "bronzebeard", "tabulate", "elftools"):
            raise ImportError(name + " is not a declared dependency")


sys.meta_path.insert(0, Absent())
from sentinel.ucoderom import UCodeROM
with tempfile.TemporaryDirectory() as d:
    try:
        UCodeROM(field_defs=os.path.join(d, "f.txt"))
        r = "written"
    except ImportError as e:
        r = str(e)
expect(r, "written", "field definitions with only the declared dependencies")
""")
