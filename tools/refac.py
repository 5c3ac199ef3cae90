"""Development aid: behaviour-preserving rewrites of the repository, on which
every check has to stay quiet.
Usage: refac.py [-l] [-o] [-pPnn,...] [name ...]  -o: only P26 and later; -p: only these   (copies under /tmp, removed afterwards)"""
import ast
import json
import os
import shutil
import subprocess
import sys
import textwrap
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
S = "src/sentinel/"
OTHERS = [json.loads(x)["id"] for x in open(os.path.join(
    os.path.dirname(HERE), "properties.jsonl"))][25:]


def sub(path, *pairs):
    def f(root):
        p = os.path.join(root, path)
        t = open(p).read()
        for a, b in pairs:
            assert a in t, (path, a)
            t = t.replace(a, b)
        open(p, "w").write(t)
    return f


def meth(path, cls, name, src):
    """Replace method ``cls.name`` (plus extra methods given in ``src``)."""
    def f(root):
        p = os.path.join(root, path)
        t = open(p).read()
        node = ast.parse(t)
        for c in cls.split("."):
            node = next(n for n in node.body
                        if isinstance(n, ast.ClassDef) and n.name == c)
        col = node.body[0].col_offset
        fn = next(n for n in node.body
                  if isinstance(n, ast.FunctionDef) and n.name == name)
        a = min([fn.lineno] + [d.lineno for d in fn.decorator_list])
        ls = t.splitlines()
        new = textwrap.indent(textwrap.dedent(src).strip("\n"), " " * col)
        ls[a - 1:fn.end_lineno] = new.splitlines()
        open(p, "w").write("\n".join(ls) + "\n")
    return f


R = {}

R["align-word-select"] = [
    meth(S + "align.py", "AddressAlign", "elaborate", '''
    def _lanes(self):
        lo = self.latched_adr[0:2]
        hw = Mux(lo[1], 0b1100, 0b0011)
        return Mux(self.mem_sel == MemSel.BYTE, 1 << lo,
                   Mux(self.mem_sel == MemSel.HWORD, hw,
                       Mux(self.mem_sel == MemSel.WORD, 0xf, 0)))

    def elaborate(self, platform):
        m = Module()
        fetch = Signal()
        m.d.comb += fetch.eq(self.insn_fetch)
        adr = Mux(fetch, self.pc, self.latched_adr >> 2)
        sel = Mux(fetch, 0xf, self._lanes())
        with m.If(self.mem_req != MemReq.const(0) if hasattr(MemReq, "const")
                  else self.mem_req):
            m.d.comb += self.wb_adr.eq(adr)
            m.d.comb += self.wb_sel.eq(sel)
        return m
    '''),
    sub(S + "align.py", ("from amaranth import Signal, Module",
                         "from amaranth import Signal, Module, Mux, Cat, C")),
    meth(S + "align.py", "ReadDataAlign", "elaborate", '''
    def elaborate(self, platform):
        m = Module()
        byte = self.wb_dat_r.word_select(self.latched_adr[0:2], 8)
        half = self.wb_dat_r.word_select(self.latched_adr[1], 16)
        sign = Signal()
        m.d.comb += sign.eq(self.mem_extend == MemExtend.SIGN)
        table = {MemSel.BYTE: byte, MemSel.HWORD: half}
        with m.Switch(self.mem_sel):
            for k, v in table.items():
                with m.Case(k):
                    m.d.comb += self.data.eq(
                        Cat(v, (v[-1] & sign).replicate(32 - len(v))))
            with m.Case(MemSel.WORD):
                m.d.comb += self.data.eq(self.wb_dat_r)
        return m
    '''),
    meth(S + "align.py", "WriteDataAlign", "elaborate", '''
    def elaborate(self, platform):
        m = Module()
        sh = Signal(5)
        with m.Switch(self.mem_sel):
            with m.Case(MemSel.BYTE):
                m.d.comb += sh.eq(Cat(C(0, 3), self.latched_adr[0:2]))
                m.d.comb += self.wb_dat_w.eq(self.data[0:8] << sh)
            with m.Case(MemSel.HWORD):
                m.d.comb += self.wb_dat_w.eq(
                    Cat(self.data[:16], self.data[:16]))
            with m.Case(MemSel.WORD):
                m.d.comb += self.wb_dat_w.eq(self.data)
        return m
    '''),
]

R["alu"] = [
    meth(S + "alu.py", "ALU", "elaborate", '''
    def _units(self):
        return {OpType.ADD: self.add, OpType.SUB: self.sub,
                OpType.AND: self.and_, OpType.OR: self.or_,
                OpType.XOR: self.xor, OpType.SLL: self.sll,
                OpType.SRL: self.srl, OpType.SRA: self.sar}

    def elaborate(self, platform):
        m = Module()
        flip = Signal()
        m.d.comb += flip.eq(self.ctrl.imod == ALUIMod.INV_MSB_A_B)
        mod_a = Cat(self.a[:-1], self.a[-1] ^ flip)
        mod_b = Cat(self.b[:-1], self.b[-1] ^ flip)
        with m.Switch(self.ctrl.op):
            for code, unit in reversed(list(self._units().items())):
                m.submodules += unit
                m.d.comb += [unit.b.eq(mod_b), unit.a.eq(mod_a)]
                with m.Case(code):
                    m.d.comb += self.o_mux.eq(unit.o)
            with m.Case(OpType.CMP_LTU):
                m.d.comb += self.o_mux.eq(self.sub.o >> self.width)
        lsb = Signal()
        with m.Switch(self.ctrl.omod):
            with m.Case(ALUOMod.INV_LSB_O):
                m.d.comb += lsb.eq(~self.o_mux[0])
            with m.Case(ALUOMod.CLEAR_LSB_O):
                m.d.comb += lsb.eq(0)
            with m.Default():
                m.d.comb += lsb.eq(self.o_mux[0])
        m.d.sync += self.o.eq(Cat(lsb, self.o_mux[1:]))
        m.d.comb += self.ctrl.zero.eq(~self.o.any())
        return m
    '''),
    meth(S + "alu.py", "ASrcMux", "elaborate", '''
    def elaborate(self, platform):
        m = Module()
        nxt = Signal(32)
        m.d.comb += nxt.eq(self.data)
        consts = {ASrc.ZERO: 0, ASrc.FOUR: 4, ASrc.NEG_ONE: 0xffffffff,
                  ASrc.THIRTY_ONE: 0x1f}
        with m.Switch(self.sel):
            for k, v in consts.items():
                with m.Case(k):
                    m.d.comb += nxt.eq(v)
            with m.Case(ASrc.ALU_O):
                m.d.comb += nxt.eq(self.alu)
            with m.Case(ASrc.IMM):
                m.d.comb += nxt.eq(self.imm)
            with m.Case(ASrc.GP):
                m.d.comb += nxt.eq(self.gp)
        with m.If(self.latch):
            m.d.sync += self.data.eq(nxt)
        return m
    '''),
]

R["alu-compare"] = [
    sub(S + "alu.py",
        ("m.d.comb += self.o_mux.eq(self.sub.o[self.width])",
         "m.d.comb += self.o_mux.eq(mod_a < mod_b)"),
        ("lambda a, _: a << 1", "lambda a, _: Cat(C(0, 1), a[:-1])"),
        ("lambda a, _: a >> 1", "lambda a, _: a[1:]")),
]

R["alu-sub-complement"] = [
    sub(S + "alu.py", ("lambda a, b: a - b", "lambda a, b: a + ~b + 1")),
]

R["exception-switch"] = [
    sub(S + "exception.py", ("from amaranth import Signal, Module, unsigned",
                             "from amaranth import Signal, Module, unsigned, Mux")),
    meth(S + "exception.py", "ExceptionRouter", "elaborate", '''
    def _misaligned(self):
        lo = self.src.alu_lo
        return Mux(self.src.ctrl.mem_sel == MemSel.WORD, lo != 0,
                   (self.src.ctrl.mem_sel == MemSel.HWORD) & lo[0])

    def elaborate(self, platform):
        m = Module()
        exception = Signal(1)
        cause = Signal(MCause.Cause)
        latched = Signal(MCause)
        is_int = Signal()
        irq = Signal()
        bad = Signal()
        ctl = self.src.ctrl.except_ctl
        m.d.comb += [
            bad.eq(self._misaligned()),
            irq.eq(self.src.csr.mie.meie & self.src.csr.mstatus.mie
                   & self.src.csr.mip.meip),
            self.out.mcause.eq(latched),
            self.out.exception.eq(exception),
            self.src.ctrl.exception.eq(exception),
        ]
        with m.Switch(ctl):
            with m.Case(ExceptCtl.LATCH_JAL):
                m.d.comb += [exception.eq(self.src.alu_lo[1]),
                             cause.eq(MCause.Cause.INSN_MISALIGNED)]
            with m.Case(ExceptCtl.LATCH_LOAD_ADR):
                m.d.comb += [exception.eq(bad),
                             cause.eq(MCause.Cause.LOAD_MISALIGNED)]
            with m.Case(ExceptCtl.LATCH_STORE_ADR):
                m.d.comb += [exception.eq(bad),
                             cause.eq(MCause.Cause.STORE_MISALIGNED)]
            with m.Case(ExceptCtl.LATCH_DECODER):
                m.d.comb += [exception.eq(self.src.decode.valid | irq),
                             is_int.eq(irq)]
                with m.If(irq):
                    m.d.comb += cause.eq(11)
                with m.Else():
                    m.d.comb += cause.eq(self.src.decode.e_type)
        with m.If(exception):
            m.d.sync += [latched.cause.eq(cause),
                         latched.interrupt.eq(is_int)]
        return m
    '''),
]

R["csrfile-switch"] = [
    meth(S + "datapath.py", "CSRFile", "elaborate", '''
    def _fixed(self, adr):
        return ((adr == self.MSTATUS) | (adr == self.MIP)
                | (adr == self.MIE))

    def elaborate(self, platform):
        m = Module()
        mstatus = Signal(MStatus, init={"mpp": 0b11})
        mip = Signal(MIP)
        mie = Signal(MIE)
        read_buf = Signal(32)
        m.d.comb += mip.meip.eq(self.pub.mip_w.meip)
        with m.Switch(self.pub.ctrl.op):
            with m.Case(CSROp.READ_CSR):
                with m.Switch(self.pub.adr):
                    for a, v in ((self.MIP, mip), (self.MIE, mie),
                                 (self.MSTATUS, mstatus)):
                        with m.Case(a):
                            m.d.sync += read_buf.eq(v.as_value())
            with m.Case(CSROp.WRITE_CSR):
                with m.Switch(self.pub.adr):
                    with m.Case(self.MIE):
                        m.d.sync += mie.meie.eq(self.pub.dat_w[11])
                    with m.Case(self.MSTATUS):
                        m.d.sync += [mstatus.mie.eq(self.pub.dat_w[3]),
                                     mstatus.mpie.eq(self.pub.dat_w[7])]
        with m.Switch(self.pub.ctrl.exception):
            with m.Case(ExceptCtl.LEAVE_INT):
                m.d.sync += [mstatus.mpie.eq(1), mstatus.mie.eq(mstatus.mpie)]
            with m.Case(ExceptCtl.ENTER_INT):
                m.d.sync += [mstatus.mie.eq(0), mstatus.mpie.eq(mstatus.mie)]
        small = Signal()
        m.d.sync += small.eq(self._fixed(self.pub.adr))
        m.d.comb += [
            self.pub.mstatus_r.eq(mstatus),
            self.pub.mip_r.eq(mip),
            self.pub.mie_r.eq(mie),
            self.pub.dat_r.eq(Mux(small, read_buf, self.priv.dat_r)),
            self.priv.adr.eq(self.pub.adr),
            self.priv.op.eq(self.pub.ctrl.op),
            self.priv.dat_w.eq(self.pub.dat_w)]
        with m.If(self.pub.adr.matches(self.MTVEC, self.MEPC)):
            m.d.comb += self.priv.dat_w.eq(
                Cat(Const(0, 2), self.pub.dat_w[2:]))
        return m
    '''),
    sub(S + "datapath.py", ("from amaranth import Cat, Module, Signal",
                            "from amaranth import Cat, Module, Signal, Mux, Const")),
]

R["regfile-mux"] = [
    meth(S + "datapath.py", "RegFile", "elaborate", '''
    def elaborate(self, platform):
        m = Module()
        m.submodules.mem = self.mem
        w_port = self.w_port
        r_port = self.mem.read_port(transparent_for=(w_port,))
        gp_w = Signal()
        m.d.comb += gp_w.eq(self.pub.ctrl.reg_write & (
            self.pub.adr_w.any() | self.pub.ctrl.allow_zero_wr))
        is_csr = Signal()
        m.d.comb += is_csr.eq(self.priv.op != CSROp.NONE)
        m.d.comb += [
            w_port.addr.eq(Mux(is_csr, self.priv.adr + 32, self.pub.adr_w)),
            r_port.addr.eq(Mux(is_csr, self.priv.adr | 32, self.pub.adr_r)),
            w_port.data.eq(Mux(is_csr, self.priv.dat_w, self.pub.dat_w)),
            w_port.en.eq(Mux(self.priv.op == CSROp.WRITE_CSR, 1,
                             ~is_csr & gp_w)),
            r_port.en.eq(Mux(self.priv.op == CSROp.READ_CSR, 1,
                             ~is_csr & self.pub.ctrl.reg_read)),
            self.pub.dat_r.eq(r_port.data),
            self.priv.dat_r.eq(r_port.data)]
        return m
    '''),
    sub(S + "datapath.py", ("from amaranth import Cat, Module, Signal",
                            "from amaranth import Cat, Module, Signal, Mux")),
    meth(S + "datapath.py", "ProgramCounter", "elaborate", '''
    def elaborate(self, platform):
        m = Module()
        nxt = Signal(30)
        with m.If(self.ctrl.action == PcAction.LOAD_ALU_O):
            m.d.comb += nxt.eq(self.dat_w)
        with m.Elif(self.ctrl.action == PcAction.INC):
            m.d.comb += nxt.eq((Cat(0, 0, self.dat_r) + 4) >> 2)
        with m.Else():
            m.d.comb += nxt.eq(self.dat_r)
        m.d.sync += self.dat_r.eq(nxt)
        return m
    '''),
]

R["datapath-srcmux"] = [
    # top.py uses the (so far unused) DataPathSrcMux component
    sub(S + "top.py",
        ("        reg_r_adr = Signal(6)\n        reg_w_adr = Signal(6)\n",
         "        self.src_mux = src_mux = DataPathSrcMux()\n"
         "        m.submodules.src_mux = src_mux\n"
         "        reg_r_adr = Signal(5)\n        reg_w_adr = Signal(5)\n"
         "        m.d.comb += [\n"
         "            src_mux.insn_fetch.eq(self.control.mem.insn_fetch),\n"
         "            src_mux.reg_r_sel.eq(self.control.gp.route.reg_r_sel),\n"
         "            src_mux.reg_w_sel.eq(self.control.gp.route.reg_w_sel),\n"
         "            src_mux.csr_sel.eq(self.control.csr.route.csr_sel),\n"
         "            src_mux.src_a_unreg.eq(self.decode.src_a_unreg),\n"
         "            src_mux.src_a.eq(self.decode.src_a),\n"
         "            src_mux.src_b.eq(self.decode.src_b),\n"
         "            src_mux.dst.eq(self.decode.dst),\n"
         "            src_mux.csr_encoding.eq(self.decode.csr_encoding),\n"
         "            src_mux.csr_target.eq(self.control.csr.route.target),\n"
         "            reg_r_adr.eq(src_mux.reg_r_adr),\n"
         "            reg_w_adr.eq(src_mux.reg_w_adr),\n"
         "            self.datapath.csr.adr.eq(src_mux.csr_adr),\n"
         "            self.datapath.gp.ctrl.allow_zero_wr.eq("
         "src_mux.allow_zero_wr),\n"
         "        ]\n")),
    lambda root: cut(os.path.join(root, S + "top.py"),
                     "        with m.Switch(self.control.gp.route.reg_r_sel",
                     "        connect(m, self.exception_router.src.ctrl"),
]


def cut(p, a, b):
    t = open(p).read()
    i = t.index(a)
    j = t.index(b, i)
    open(p, "w").write(t[:i] + t[j:])


R["sequencer-mapping"] = [
    meth(S + "control.py", "Sequencer", "elaborate", '''
    def elaborate(self, platform):
        m = Module()
        guard = self.ice40_rst_guard
        other = Signal.like(self.adr)
        take = Signal()
        with m.Switch(self.jmp_type):
            with m.Case(JmpType.MAP):
                m.d.comb += other.eq(self.opcode_adr)
            with m.Case(JmpType.DIRECT_ZERO):
                m.d.comb += other.eq(0)
            with m.Default():
                m.d.comb += other.eq(self.next_adr)
        m.d.comb += take.eq(self.test & (self.jmp_type != JmpType.CONT)
                            & ~guard)
        m.d.comb += self.adr.eq(
            Mux(guard, self.next_adr, Mux(take, self.target, other)))
        m.d.sync += [guard.eq(0), self.next_adr.eq(self.adr + 1)]
        return m
    '''),
    meth(S + "control.py", "MappingROM", "elaborate", '''
    def _csr_target(self, csr_op, src_a, dst):
        wr, rd = src_a != 0, dst != 0
        op = csr_op[0:2]
        imm = csr_op[2]
        t = Mux(op == 1,
                Mux(imm, Mux(rd, 0x2c, 0x2b), Mux(rd, 0x27, 0x26)),
                Mux(~wr, 0x28,
                    Mux(op == 2, Mux(imm, 0x2d, 0x29),
                        Mux(imm, 0x2e, 0x2a))))
        return t

    def elaborate(self, platform):
        m = Module()
        insn = Insn(self.insn)
        rs1 = Signal.like(insn.rs1)
        rd = Signal.like(insn.rd)
        second = Signal()
        csr_op = Signal.like(insn.funct3)
        m.d.sync += second.eq(0)
        with m.If(second & ~self.csr_attr.ill):
            m.d.sync += self.requested_op.eq(
                Mux(self.csr_attr.ro0, 0x25,
                    self._csr_target(csr_op, rs1, rd)))
        with m.If(self.start):
            m.d.sync += [rs1.eq(insn.rs1), rd.eq(insn.rd),
                         csr_op.eq(insn.funct3)]
            shift = (insn.funct3 == 1) | (insn.funct3 == 5)
            simple = {OpcodeType.LUI: 0xd0, OpcodeType.AUIPC: 0x50,
                      OpcodeType.JAL: 0xb0, OpcodeType.JALR: 0x98,
                      OpcodeType.MISC_MEM: 0x30,
                      OpcodeType.BRANCH: 0x88 | insn.funct3,
                      OpcodeType.LOAD: 0x08 | insn.funct3,
                      OpcodeType.STORE: 0x80 | insn.funct3,
                      OpcodeType.OP: 0xc0 | Cat(insn.funct3, insn.insn30)
                      if hasattr(insn, "insn30") else
                      Cat(insn.funct3, insn.funct7[5], C(0xc, 4)),
                      OpcodeType.OP_IMM:
                      Cat(insn.funct3, insn.funct7[5] & shift, C(4, 4))}
            with m.Switch(insn.opcode):
                for k, v in simple.items():
                    with m.Case(k):
                        m.d.sync += self.requested_op.eq(v)
                with m.Case(OpcodeType.SYSTEM):
                    with m.If(insn.funct3[0:2] != 0):
                        m.d.sync += [
                            second.eq(1), self.requested_op.eq(0x24),
                            self.csr_encoding.eq(
                                Cat(insn.funct12[0:3], insn.funct12[6]))]
                    with m.Elif(insn.raw == Insn.WFI):
                        m.d.sync += self.requested_op.eq(0x30)
                    with m.Elif(insn.raw == Insn.MRET):
                        m.d.sync += self.requested_op.eq(0xf8)
        return m
    '''),
    sub(S + "control.py", ("from amaranth import Signal, Elaboratable, Module, Cat, C, unsigned",
                           "from amaranth import Signal, Elaboratable, Module, Cat, C, unsigned, Mux")),
]

R["decode-helpers"] = [
    meth(S + "decode.py", "ExceptionControl", "elaborate", '''
    def _bad(self, insn):
        f3, f7 = insn.funct3, insn.funct7
        alt = (f7 == 0) | (f7 == 0x20)
        return {
            OpcodeType.LUI: 0, OpcodeType.AUIPC: 0, OpcodeType.JAL: 0,
            OpcodeType.OP_IMM: Mux(f3 == 1, f7 != 0, (f3 == 5) & ~alt),
            OpcodeType.OP: Mux((f3 == 0) | (f3 == 5), ~alt, f7 != 0),
            OpcodeType.JALR: f3 != 0,
            OpcodeType.MISC_MEM: f3.any(),
            OpcodeType.BRANCH: f3[1:] == 1,
            OpcodeType.LOAD: (f3 == 3) | (f3 > 5),
            OpcodeType.STORE: ~((f3 == 0) | (f3 == 1) | (f3 == 2)),
        }

    def _system(self, m, insn, e_type, bad, forward):
        m.d.comb += bad.eq(1)
        with m.If((insn.funct3 != 0) & (insn.funct3 != 4)):
            m.d.comb += bad.eq(0)
            m.d.sync += forward.eq(1)
        with m.Elif((insn.raw == Insn.MRET) | (insn.raw == Insn.WFI)):
            m.d.comb += bad.eq(0)
        with m.Elif(insn.raw == Insn.EBREAK):
            m.d.comb += e_type.eq(MCause.Cause.BREAKPOINT)
        with m.Elif(insn.raw == Insn.ECALL):
            m.d.comb += e_type.eq(MCause.Cause.ECALL_MMODE)

    def elaborate(self, platform):
        m = Module()
        insn = Insn(self.insn)
        rs1 = Signal.like(insn.rs1)
        forward = Signal()
        quadrant = Signal(Quadrant)
        op = Signal.like(insn.funct3)
        ro = Signal()
        bad = Signal()
        e_type = Signal(MCause.Cause, init=MCause.Cause.ILLEGAL_INSN)
        m.d.sync += [forward.eq(0), op.eq(insn.funct3),
                     quadrant.eq(insn.csr.quadrant),
                     ro.eq(insn.csr.access == AccessMode.READ_ONLY)]
        with m.If(self.start):
            m.d.sync += rs1.eq(insn.rs1)
            with m.Switch(insn.opcode):
                for k, v in self._bad(insn).items():
                    with m.Case(k):
                        m.d.comb += bad.eq(v)
                with m.Case(OpcodeType.SYSTEM):
                    self._system(m, insn, e_type, bad, forward)
                with m.Default():
                    m.d.comb += bad.eq(1)
            with m.If(~self.insn[0:2].all()):
                m.d.comb += [bad.eq(1),
                             e_type.eq(MCause.Cause.ILLEGAL_INSN)]
        m.d.sync += [self.exception.valid.eq(bad),
                     self.exception.e_type.eq(e_type)]
        with m.If(forward):
            wr = (op[0:2] == 1) | rs1.any()
            m.d.sync += [
                self.exception.e_type.eq(MCause.Cause.ILLEGAL_INSN),
                self.exception.valid.eq(
                    (quadrant != Quadrant.MACHINE) | (ro & wr)
                    | self.csr_attr.ill)]
        return m
    '''),
    meth(S + "decode.py", "ImmediateGenerator", "elaborate", '''
    def elaborate(self, platform):
        m = Module()
        insn = Insn(self.insn)
        kinds = {
            "I": (OpcodeType.OP_IMM, OpcodeType.JALR, OpcodeType.LOAD),
            "U": (OpcodeType.LUI, OpcodeType.AUIPC),
            "J": (OpcodeType.JAL,), "B": (OpcodeType.BRANCH,),
            "S": (OpcodeType.STORE,)}
        nxt = Signal(32)
        m.d.comb += nxt.eq(self.imm)
        with m.Switch(insn.opcode):
            for k, ops in kinds.items():
                with m.Case(*ops):
                    m.d.comb += nxt.eq(getattr(insn.imm, k))
        with m.If(self.enable):
            m.d.sync += self.imm.eq(nxt)
        return m
    '''),
    meth(S + "decode.py", "CSRAttributes", "elaborate", '''
    def elaborate(self, platform):
        m = Module()
        groups = {}
        for i, v in enumerate(self._rom):
            groups.setdefault((int(v.as_value().value)
                               if hasattr(v, "as_value") else v.value),
                              []).append(i)
        key = Signal(10)
        m.d.comb += key.eq(Cat(self.addr[0:8], self.addr[10:]))
        with m.Switch(key):
            for v, idx in groups.items():
                with m.Case(*idx):
                    m.d.sync += self.data.as_value().eq(v)
        return m
    '''),
    sub(S + "decode.py", ("from amaranth import Signal, Module, Cat, C, unsigned",
                          "from amaranth import Signal, Module, Cat, C, unsigned, Mux")),
]

R["ucode-relocate"] = [
    sub(S + "microcode.asm",
        # the tail blocks swap their places, an unconditional jump is made
        # explicit, and a new label aliases an old one
        ("origin 0xf0;\nsave_pc:", "origin 0xf0;\ntrap:\nsave_pc:"),
        ("target => save_pc", "target => trap"),
        ("lb: alu_op => add;", "lb: a_src => gp, alu_op => add;"),
        ("slt:          CMP_LT,", "slt:          alu_op => cmp_ltu, "
         "alu_i_mod => inv_msb_a_b,"),
        ("sltu:         alu_op => cmp_ltu, INSN_FETCH, "
         "JUMP_TO_OP_END(fast_epilog);\n"
         "xor:          alu_op => xor, INSN_FETCH, "
         "JUMP_TO_OP_END(fast_epilog);\n",
         "xor:          alu_op => xor, INSN_FETCH, "
         "JUMP_TO_OP_END(fast_epilog);\n"
         "sltu:         alu_op => cmp_ltu, INSN_FETCH, "
         "JUMP_TO_OP_END(fast_epilog);\n"),
        ("  cond_test: enum { exception; cmp_alu_o_zero; mem_valid; true},"
         " default true;\n", ""),
        ("  pc_action: enum",
         "  cond_test: enum { exception; cmp_alu_o_zero; mem_valid; true},"
         " default true;\n  pc_action: enum"),
        ),
]

R["ucode-mapping-move"] = [
    # FENCE/WFI microcode moves to a free address
    sub(S + "microcode.asm",
        ("origin 0x30;\nmisc_mem: pc_action => inc, jmp_type => direct, "
         "target => fetch;\n", "origin 0x31;\n"),
        ("origin 0xf0;\n", "origin 0xef;\nmisc_mem: pc_action => inc, "
         "jmp_type => direct, target => fetch;\norigin 0xf0;\n")),
    sub(S + "control.py", ("0x30", "0xef")),
]

R["top-inline"] = [
    sub(S + "top.py",
        ("        irq = Signal()\n", "        irq = Signal()\n"
         "        busy = Signal()\n"
         "        active = Signal()\n"
         "        m.d.comb += active.eq(~mem_reset_guard)\n"
         "        m.d.comb += busy.eq(self.control.mem.req)\n"),
        ("self.bus.cyc.eq(self.control.mem.req & ~mem_reset_guard)",
         "self.bus.cyc.eq(active & busy)"),
        ("self.bus.stb.eq(self.control.mem.req & ~mem_reset_guard)",
         "self.bus.stb.eq(self.bus.cyc)")),
]

R["encodings"] = [
    # other enumeration values in both sources
    sub(S + "ucodefields.py", ("    DIRECT = 2\n", "    DIRECT = 3\n"),
        ("    DIRECT_ZERO = 3\n", "    DIRECT_ZERO = 2\n")),
    sub(S + "microcode.asm",
        ("map; direct; direct_zero;", "map; direct_zero; direct;")),
]


R["ucoderom-layout"] = [
    meth(S + "ucoderom.py", "UCodeROM", "_create_field_layout", '''
    def _shape_of(self, field):
        if field.enum and field.enum != {"false": 0, "true": 1}:
            return self._check_and_convert_dynamic_enum(field)
        return self._check_and_convert_dynamic_shape(field)

    def _create_field_layout(self, space):
        members = {}
        pos = 0
        pads = 0
        for name, field in space.fields.items():
            gap = field.origin - pos
            if gap != 0:
                members["_padding_" + str(pads)] = unsigned(gap)
                pads += 1
            members[name] = self._shape_of(field)
            pos = field.origin + field.width
        self.field_layout = StructLayout(members)
    '''),
    meth(S + "ucoderom.py", "UCodeROM", "_create_mem_init", '''
    def _create_mem_init(self, space):
        self.depth, self.width = space.size, space.width
        self.ucode_contents = [space.data.get(i, 0)
                               for i in range(self.depth)]
    '''),
    meth(S + "ucoderom.py", "UCodeROM", "elaborate", '''
    def elaborate(self, platform):
        m = Module()
        m.submodules.ucode_mem = mem = self.ucode_mem
        port = mem.read_port()
        view = self.fields.as_value()
        m.d.comb += view.eq(port.data)
        m.d.comb += port.addr.eq(self.addr)
        return m
    '''),
]

R["control-tables"] = [
    sub(S + "control.py", ("from amaranth import Signal, Elaboratable, Module, Cat, C, unsigned",
                           "from amaranth import Signal, Elaboratable, Module, Cat, C, Mux, unsigned")),
    meth(S + "control.py", "Sequencer", "elaborate", '''
    def elaborate(self, platform):
        m = Module()
        otherwise = Signal.like(self.adr)
        picked = Signal.like(self.adr)
        with m.Switch(self.jmp_type):
            with m.Case(JmpType.MAP):
                m.d.comb += otherwise.eq(self.opcode_adr)
            with m.Case(JmpType.DIRECT_ZERO):
                m.d.comb += otherwise.eq(0)
            with m.Default():
                m.d.comb += otherwise.eq(self.next_adr)
        m.d.comb += picked.eq(
            Mux(self.test & (self.jmp_type != JmpType.CONT), self.target,
                otherwise))
        m.d.comb += self.adr.eq(Mux(self.ice40_rst_guard, self.next_adr,
                                    picked))
        m.d.sync += [self.ice40_rst_guard.eq(0),
                     self.next_adr.eq(1 + self.adr)]
        return m
    '''),
    sub(S + "control.py",
        ("        with m.If(invert_test):\n"
         "            m.d.comb += test.eq(~raw_test)\n"
         "        with m.Else():\n"
         "            m.d.comb += test.eq(raw_test)\n",
         "        m.d.comb += test.eq(raw_test ^ invert_test)\n")),
]

R["immediates"] = [
    meth(S + "decode.py", "ImmediateGenerator", "elaborate", '''
    def elaborate(self, platform):
        m = Module()
        insn = Insn(self.insn)
        kinds = [
            (insn.imm.I, (OpcodeType.OP_IMM, OpcodeType.JALR,
                          OpcodeType.LOAD)),
            (insn.imm.U, (OpcodeType.LUI, OpcodeType.AUIPC)),
            (insn.imm.J, (OpcodeType.JAL,)),
            (insn.imm.B, (OpcodeType.BRANCH,)),
            (insn.imm.S, (OpcodeType.STORE,)),
        ]
        nxt = Signal(32)
        m.d.comb += nxt.eq(self.imm)
        with m.Switch(insn.opcode):
            for value, ops in kinds:
                with m.Case(*ops):
                    m.d.comb += nxt.eq(value)
        with m.If(self.enable):
            m.d.sync += self.imm.eq(nxt)
        return m
    '''),
]

R["formal-loops"] = [
    sub(S + "formal.py",
        ("        mscratch_hold_rd = Signal(1)\n"
         "        mcause_hold_rd = Signal(1)\n"
         "        mtvec_hold_rd = Signal(1)\n"
         "        mepc_hold_rd = Signal(1)\n",
         "        holds = {n: Signal(1, name=n + '_h') for n in\n"
         "                 ('mscratch', 'mcause', 'mtvec', 'mepc')}\n"
         "        mscratch_hold_rd = holds['mscratch']\n"
         "        mcause_hold_rd = holds['mcause']\n"
         "        mtvec_hold_rd = holds['mtvec']\n"
         "        mepc_hold_rd = holds['mepc']\n"),
        ("            with m.Elif(self.rvfi.trap):\n"
         "                m.d.comb += self.rvfi.valid.eq(1)\n"
         "                m.d.sync += [\n"
         "                    self.rvfi.order.eq(self.rvfi.order + 1),\n"
         "                    self.rvfi.intr.eq(1),\n"
         "                ]\n"
         "            with m.Else():\n"
         "                m.d.comb += self.rvfi.valid.eq(1)\n"
         "                m.d.sync += [\n"
         "                    self.rvfi.order.eq(self.rvfi.order + 1),\n"
         "                    self.rvfi.intr.eq(0),\n"
         "                ]\n",
         "            with m.Else():\n"
         "                m.d.comb += self.rvfi.valid.eq(1)\n"
         "                m.d.sync += self.rvfi.order.eq(self.rvfi.order + 1)\n"
         "                m.d.sync += self.rvfi.intr.eq(self.rvfi.trap)\n")),
]


import refac_more  # noqa: E402
refac_more.install(R, sub, meth, S)

R["combo1"] = sum((R[n] for n in "exc-comb pc-mux src-arrays sequencer-flat router-comb align-shift insn-bits top-groups ucoderom-loops formal-retire".split()), [])
R["combo2"] = sum((R[n] for n in "csrattr-memory csrfile-parts alu-direct mapping-comb formal-shadow".split()), [])
R["combo3"] = sum((R[n] for n in "csrattr-groups decode-loop regfile-enables formal-ro0".split()), [])

import refac_third  # noqa: E402
refac_third.install(R, sub, meth, S)
import refac_arith  # noqa: E402
refac_arith.install(R, sub, S)
import refac_api  # noqa: E402
refac_api.install(R, sub, meth, S)

R["comments"] = []
for _f in ("align", "alu", "control", "csr", "datapath", "decode",
           "exception", "formal", "gen", "insn", "top", "ucodefields",
           "ucoderom"):
    def _c(root, f=_f):
        p = os.path.join(root, S, f + ".py")
        t = open(p).read()
        t = t.replace("\n        m = Module()\n",
                      "\n        m = Module()\n        pass\n")
        open(p, "w").write(t + "\n# a comment\n")
    R["comments"].append(_c)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    only = [a[2:].split(",") for a in sys.argv[1:] if a.startswith("-p")]
    others = only[0] if only else OTHERS
    if "-l" in sys.argv:
        print("\n".join(R))
        return 0
    bad = 0
    for name in args or R:
        root = f"/tmp/refac-{os.getpid()}-{name}"
        shutil.copytree("/repo", root, symlinks=True)
        try:
            for f in R[name]:
                f(root)
            env = dict(os.environ, SA_REPO=root, PYTHONHASHSEED="0",
                       PYTHONDONTWRITEBYTECODE="1")
            print(f"== {name}", flush=True)
            if "-o" not in sys.argv and not only:
                r = subprocess.run([PY, os.path.join(HERE, "allprops.py")],
                                   env=env)
                bad += r.returncode != 0
            env["SA_OUT"] = root + "/out"
            with ThreadPoolExecutor(4) as ex:
                for pid, r in ex.map(lambda p: (p, subprocess.run(
                        [sys.executable, os.path.join(os.path.dirname(HERE),
                                                      "run.py"), p],
                        env=env, capture_output=True, text=True)), others):
                    if r.returncode:
                        bad += 1
                        print(" ", pid, r.returncode,
                              (r.stdout + r.stderr)[-600:], flush=True)
        finally:
            shutil.rmtree(root)
    return bad


if __name__ == "__main__":
    sys.exit(main())
