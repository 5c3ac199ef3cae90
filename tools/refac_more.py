"""More behaviour-preserving rewrites (see refac.py)."""


def install(R, sub, meth, S):
    # ---- decode
    R["exc-comb"] = [
        meth(S + "decode.py", "ExceptionControl", "elaborate", '''
    @staticmethod
    def _any(field, *values):
        return field.matches(*values)

    def _illegal(self, m, insn):
        bad = Signal()
        alt = Signal()
        zero = Signal()
        is_csr = Signal()
        m.d.comb += [
            zero.eq(insn.funct7 == 0),
            alt.eq(zero | (insn.funct7 == 0x20)),
            is_csr.eq(insn.funct3[0:2] != 0),
        ]
        f3 = insn.funct3
        with m.Switch(insn.opcode):
            with m.Case(OpcodeType.OP_IMM):
                m.d.comb += bad.eq(((f3 == 1) & ~zero) | ((f3 == 5) & ~alt))
            with m.Case(OpcodeType.LUI, OpcodeType.AUIPC, OpcodeType.JAL):
                m.d.comb += bad.eq(0)
            with m.Case(OpcodeType.OP):
                m.d.comb += bad.eq(~Mux(self._any(f3, 0, 5), alt, zero))
            with m.Case(OpcodeType.JALR, OpcodeType.MISC_MEM):
                m.d.comb += bad.eq(f3.any())
            with m.Case(OpcodeType.BRANCH):
                m.d.comb += bad.eq(self._any(f3, "01-"))
            with m.Case(OpcodeType.LOAD):
                m.d.comb += bad.eq(self._any(f3, 3, 6, 7))
            with m.Case(OpcodeType.STORE):
                m.d.comb += bad.eq(f3[2] | f3[0:2].all())
            with m.Case(OpcodeType.SYSTEM):
                quiet = [insn.raw == k for k in (Insn.MRET, Insn.WFI)]
                m.d.comb += bad.eq(~(is_csr | quiet[0] | quiet[1]))
            with m.Default():
                m.d.comb += bad.eq(1)
        return bad, is_csr

    def elaborate(self, platform):  # noqa: D102
        m = Module()
        insn = Insn(self.insn)
        bad, is_csr = self._illegal(m, insn)
        long_form = Signal()
        system = Signal()
        cause = Signal(MCause.Cause, init=MCause.Cause.ILLEGAL_INSN)
        m.d.comb += [
            long_form.eq(self.insn[0:2].all()),
            system.eq(insn.opcode == OpcodeType.SYSTEM),
        ]
        with m.If(system & long_form):
            with m.If(self.insn == Insn.ECALL):
                m.d.comb += cause.eq(MCause.Cause.ECALL_MMODE)
            with m.If(self.insn == Insn.EBREAK):
                m.d.comb += cause.eq(MCause.Cause.BREAKPOINT)

        second = Signal()
        rs1_nz = Signal()
        quadrant_ok = Signal()
        op = Signal(3)
        ro = Signal()
        m.d.sync += [
            second.eq(self.start & system & is_csr),
            quadrant_ok.eq(insn.csr.quadrant == Quadrant.MACHINE),
            op.eq(insn.funct3),
            ro.eq(self.insn[30:32] == 3),
        ]
        with m.If(self.start):
            m.d.sync += rs1_nz.eq(insn.rs1 != 0)
        csr_bad = Signal()
        m.d.comb += csr_bad.eq(
            self.csr_attr.ill | ~quadrant_ok |
            (ro & ((op[0:2] == 1) | rs1_nz)))
        m.d.sync += [
            self.exception.valid.eq(Mux(
                second, csr_bad, self.start & (bad | ~long_form))),
            self.exception.e_type.eq(MCause.Cause.ILLEGAL_INSN),
        ]
        with m.If(~second & self.start):
            m.d.sync += self.exception.e_type.eq(cause)
        return m
    '''),
        sub(S + "decode.py", ("from amaranth import Signal, Module, Cat, C, unsigned",
                              "from amaranth import Signal, Module, Cat, C, unsigned, Mux"))]
    R["csrattr-memory"] = [
        meth(S + "decode.py", "CSRAttributes", "elaborate", '''
    def elaborate(self, platform):  # noqa: D102
        m = Module()
        words = [v.as_value().value if hasattr(v.as_value(), "value")
                 else int(v.as_bits()) for v in self._rom]
        m.submodules.table = table = Memory(shape=2, depth=1024, init=words)
        port = table.read_port()
        m.d.comb += [
            port.addr.eq(Cat(self.addr[0:8], self.addr[10:])),
            self.data.as_value().eq(port.data),
        ]
        return m
    '''),
        sub(S + "decode.py", ("from amaranth.lib.data import Struct\n",
                              "from amaranth.lib.data import Struct\n"
                              "from amaranth.lib.memory import Memory\n"))]
    R["csrattr-groups"] = [
        meth(S + "decode.py", "CSRAttributes", "elaborate", '''
    def elaborate(self, platform):  # noqa: D102
        m = Module()
        rows = list(self._rom)
        ill = [i for i, v in enumerate(rows) if v is CSRAttributes._Illegal]
        ro0 = [i for i, v in enumerate(rows) if v is CSRAttributes._Ro0]
        key = Signal(10)
        m.d.comb += key.eq(Cat(self.addr[0:8], self.addr[10:]))
        known = [i for i in range(1024) if i not in set(ill)]
        m.d.sync += [
            self.data.ill.eq(~key.matches(*known)),
            self.data.ro0.eq(key.matches(*ro0)),
        ]
        return m
    '''),
        meth(S + "decode.py", "CSRAttributes", "_rom_init", '''
    def _rom_init(self):
        span = [(CSRM.MHPMCOUNTER3, CSRM.MHPMCOUNTER31),
                (CSRM.MHPMCOUNTER3H, CSRM.MHPMCOUNTER31H),
                (CSRM.MHPMEVENT3, CSRM.MHPMEVENT31)]
        zero = [CSRM.MVENDORID, CSRM.MARCHID, CSRM.MIMPID, CSRM.MHARTID,
                CSRM.MCONFIGPTR, CSRM.MISA, CSRM.MSTATUSH, CSRM.MTVAL,
                CSRM.MCYCLE, CSRM.MINSTRET, CSRM.MCYCLEH, CSRM.MINSTRETH,
                CSRM.MCOUNTINHIBIT]
        for lo, hi in span:
            zero.extend(range(lo, hi + 1))
        real = {CSRM.MSTATUS, CSRM.MIE, CSRM.MTVEC, CSRM.MSCRATCH,
                CSRM.MEPC, CSRM.MCAUSE, CSRM.MIP}
        for a in zero:
            self._rom[a] = CSRAttributes._Ro0
        for a in real:
            self._rom[a] = CSRAttributes._Implemented
    ''')]
    R["decode-loop"] = [
        meth(S + "decode.py", "Decode", "elaborate", '''
    def _fan_out(self, m):
        for unit, start in ((self.imm_gen, "enable"), (self.mapping, "start"),
                            (self.except_ctrl, "start")):
            m.d.comb += [getattr(unit, start).eq(self.do_decode),
                         unit.insn.eq(self.insn)]
        for unit in (self.mapping, self.except_ctrl):
            m.d.comb += unit.csr_attr.eq(self.csr_attr.data)

    def elaborate(self, platform):  # noqa: D102
        m = Module()
        for n in ("csr_attr", "imm_gen", "mapping", "except_ctrl"):
            m.submodules[n] = getattr(self, n)
        insn = Insn(self.insn)
        self._fan_out(m)
        m.d.comb += [
            self.opcode.eq(insn.opcode),
            self.src_a_unreg.eq(insn.rs1),
            self.csr_attr.addr.eq(self.insn[20:32]),
        ]
        for src, names in ((self.imm_gen, ["imm"]),
                           (self.mapping, ["requested_op", "csr_encoding"]),
                           (self.except_ctrl, ["exception"])):
            for n in names:
                m.d.comb += getattr(self, n).eq(getattr(src, n))
        for reg, fld in ((self.src_a, insn.rs1), (self.src_b, insn.rs2),
                         (self.dst, insn.rd)):
            m.d.sync += reg.eq(Mux(self.do_decode, fld, reg))
        if self.formal:
            self._rvfi(m, insn)
        return m

    def _rvfi(self, m, insn):
        for n in ("rs1", "rs2", "rd", "funct12", "funct3"):
            m.d.comb += getattr(self.rvfi, n).eq(getattr(insn, n))
        m.d.comb += [
            self.rvfi.do_decode.eq(self.do_decode),
            self.rvfi.insn.eq(insn.raw),
            self.rvfi.rd_valid.eq(1),
        ]
        with m.Switch(self.insn[2:7]):
            with m.Case(OpcodeType.BRANCH, OpcodeType.MISC_MEM,
                        OpcodeType.STORE):
                m.d.comb += self.rvfi.rd_valid.eq(0)
    '''),
        sub(S + "decode.py", ("from amaranth import Signal, Module, Cat, C, unsigned",
                              "from amaranth import Signal, Module, Cat, C, unsigned, Mux"))]
    # ---- datapath
    R["pc-mux"] = [
        meth(S + "datapath.py", "ProgramCounter", "elaborate", '''
    def elaborate(self, platform):  # noqa: D102
        m = Module()
        nxt = Signal(30)
        step = Signal()
        m.d.comb += step.eq(self.ctrl.action == PcAction.INC)
        m.d.comb += nxt.eq(Mux(self.ctrl.action == PcAction.LOAD_ALU_O,
                               self.dat_w, self.dat_r + step))
        m.d.sync += self.dat_r.eq(nxt)
        return m
    '''), sub(S + "datapath.py", ("from amaranth import Cat, Module, Signal",
                                  "from amaranth import Cat, Module, Mux, Signal"))]
    R["csrfile-parts"] = [
        meth(S + "datapath.py", "CSRFile", "elaborate", '''
    class _Stack(Component):
        """The interrupt enable stack."""

        value: Out(MStatus)
        write: In(1)
        new: In(MStatus)
        ctl: In(ExceptCtl)

        def elaborate(self, platform):
            m = Module()
            mie = Signal()
            mpie = Signal()
            m.d.comb += [self.value.mie.eq(mie), self.value.mpie.eq(mpie),
                         self.value.mpp.eq(3)]
            enter = self.ctl == ExceptCtl.ENTER_INT
            leave = self.ctl == ExceptCtl.LEAVE_INT
            with m.If(enter):
                m.d.sync += [mpie.eq(mie), mie.eq(0)]
            with m.Elif(leave):
                m.d.sync += [mie.eq(mpie), mpie.eq(1)]
            with m.Elif(self.write):
                m.d.sync += [mie.eq(self.new.mie), mpie.eq(self.new.mpie)]
            return m

    def elaborate(self, platform):  # noqa: D102
        m = Module()
        m.submodules.stack = stack = CSRFile._Stack()
        meie = Signal()
        wr = self.pub.ctrl.op == CSROp.WRITE_CSR
        rd = self.pub.ctrl.op == CSROp.READ_CSR
        m.d.comb += [
            stack.write.eq(wr & (self.pub.adr == self.MSTATUS)),
            stack.new.eq(self.pub.dat_w),
            stack.ctl.eq(self.pub.ctrl.exception),
            self.pub.mstatus_r.eq(stack.value),
            self.pub.mie_r.meie.eq(meie),
            self.pub.mip_r.meip.eq(self.pub.mip_w.meip),
            self.priv.adr.eq(self.pub.adr),
            self.priv.dat_w.eq(self.pub.dat_w),
            self.priv.op.eq(self.pub.ctrl.op),
        ]
        with m.If(wr & (self.pub.adr == self.MIE)):
            m.d.sync += meie.eq(View(MIE, self.pub.dat_w).meie)

        held = Signal(32)
        own = {self.MSTATUS: self.pub.mstatus_r.as_value(),
               self.MIE: self.pub.mie_r.as_value(),
               self.MIP: self.pub.mip_r.as_value()}
        with m.If(rd):
            with m.Switch(self.pub.adr):
                for adr, val in own.items():
                    with m.Case(adr):
                        m.d.sync += held.eq(val)
        was_own = Signal()
        m.d.sync += was_own.eq(self.pub.adr.matches(*own))
        m.d.comb += self.pub.dat_r.eq(
            Mux(was_own, held, self.priv.dat_r))
        with m.If(self.pub.adr.matches(self.MTVEC, self.MEPC)):
            m.d.comb += self.priv.dat_w.eq(
                Cat(C(0, 2), self.pub.dat_w[2:]))
        return m
    '''), sub(S + "datapath.py", ("from amaranth import Cat, Module, Signal",
                                  "from amaranth import C, Cat, Module, Mux, Signal"))]
    R["regfile-enables"] = [
        meth(S + "datapath.py", "RegFile", "elaborate", '''
    def elaborate(self, platform):  # noqa: D102
        m = Module()
        m.submodules.mem = self.mem
        wp, rp = self.w_port, self.mem.read_port(transparent_for=[self.w_port])
        csr_rd = Signal()
        csr_wr = Signal()
        zero_ok = Signal()
        m.d.comb += [
            csr_rd.eq(self.priv.op == CSROp.READ_CSR),
            csr_wr.eq(self.priv.op == CSROp.WRITE_CSR),
            zero_ok.eq(self.pub.adr_w.any() | self.pub.ctrl.allow_zero_wr),
            rp.addr.eq(Mux(csr_rd, Cat(self.priv.adr, C(1, 1)),
                           self.pub.adr_r)),
            wp.addr.eq(Mux(csr_wr, Cat(self.priv.adr, C(1, 1)),
                           self.pub.adr_w)),
            wp.data.eq(Mux(csr_wr, self.priv.dat_w, self.pub.dat_w)),
        ]
        with m.If(csr_rd):
            m.d.comb += [rp.en.eq(1), wp.en.eq(0)]
        with m.Elif(csr_wr):
            m.d.comb += [rp.en.eq(0), wp.en.eq(1)]
        with m.Else():
            m.d.comb += [rp.en.eq(self.pub.ctrl.reg_read),
                         wp.en.eq(zero_ok & self.pub.ctrl.reg_write)]
        for bus in (self.priv, self.pub):
            m.d.comb += bus.dat_r.eq(rp.data)
        return m
    '''), sub(S + "datapath.py", ("from amaranth import Cat, Module, Signal",
                                  "from amaranth import C, Cat, Module, Mux, Signal"))]
    # ---- alu
    R["src-arrays"] = [
        meth(S + "alu.py", "ASrcMux", "elaborate", '''
    def elaborate(self, platform):  # noqa: D102
        m = Module()
        table = {ASrc.GP: self.gp, ASrc.IMM: self.imm, ASrc.ZERO: 0,
                 ASrc.ALU_O: self.alu, ASrc.FOUR: 4,
                 ASrc.NEG_ONE: 0xffffffff, ASrc.THIRTY_ONE: 31}
        with m.Switch(Cat(self.latch, self.sel)):
            for sel, val in table.items():
                with m.Case((sel.value << 1) | 1):
                    m.d.sync += self.data.eq(val)
        return m
    '''),
        meth(S + "alu.py", "BSrcMux", "elaborate", '''
    def elaborate(self, platform):  # noqa: D102
        m = Module()
        m.submodules.rdata_align = align = self.rdata_align
        for dst, src in {"mem_sel": self.mem_sel, "wb_dat_r": self.dat_r,
                         "mem_extend": self.mem_extend,
                         "latched_adr": self.data_adr}.items():
            m.d.comb += getattr(align, dst).eq(src)
        nxt = Signal(32)
        m.d.comb += nxt.eq(self.data)
        rows = [(BSrc.GP, self.gp), (BSrc.IMM, self.imm), (BSrc.ONE, 1),
                (BSrc.PC, self.pc << 2), (BSrc.DAT_R, align.data),
                (BSrc.CSR_IMM, self.csr_imm), (BSrc.CSR, self.csr),
                (BSrc.MCAUSE_LATCH, self.mcause)]
        for sel, val in rows:
            with m.If(self.sel == sel):
                m.d.comb += nxt.eq(val)
        m.d.sync += self.data.eq(Mux(self.latch, nxt, self.data))
        return m
    '''), sub(S + "alu.py", ("from amaranth import Elaboratable, Signal, Module, C, Cat",
                             "from amaranth import Elaboratable, Signal, Module, C, Cat, Mux"))]
    R["alu-direct"] = [
        meth(S + "alu.py", "ALU", "elaborate", '''
    def _units(self):
        return {"add": self.add, "sub": self.sub, "and_": self.and_,
                "or_": self.or_, "xor": self.xor, "sll": self.sll,
                "srl": self.srl, "sal": self.sar}

    def elaborate(self, platform):  # noqa: D102
        m = Module()
        flip = Signal()
        m.d.comb += flip.eq(self.ctrl.imod == ALUIMod.INV_MSB_A_B)
        msb = Cat(C(0, self.width - 1), flip)
        for name, unit in self._units().items():
            m.submodules[name] = unit
            m.d.comb += [unit.a.eq(self.a ^ msb), unit.b.eq(self.b ^ msb)]
        outs = Array([C(0, self.width)] * 16)
        borrow = self.sub.o[self.width]
        for op, val in ((OpType.ADD, self.add.o),
                        (OpType.SUB, self.sub.o[:self.width]),
                        (OpType.AND, self.and_.o), (OpType.OR, self.or_.o),
                        (OpType.XOR, self.xor.o), (OpType.SLL, self.sll.o),
                        (OpType.SRL, self.srl.o), (OpType.SRA, self.sar.o),
                        (OpType.CMP_LTU, Cat(borrow, C(0, self.width - 1)))):
            outs[op.value] = val
        m.d.comb += self.o_mux.eq(outs[self.ctrl.op.as_value()
                                       if hasattr(self.ctrl.op, "as_value")
                                       else self.ctrl.op])
        lsb = Signal()
        m.d.comb += lsb.eq(self.o_mux[0] ^
                           (self.ctrl.omod == ALUOMod.INV_LSB_O))
        with m.If(self.ctrl.omod == ALUOMod.CLEAR_LSB_O):
            m.d.comb += lsb.eq(0)
        m.d.sync += self.o.eq(Cat(lsb, self.o_mux[1:]))
        m.d.comb += self.ctrl.zero.eq(~self.o.any())
        return m
    '''), sub(S + "alu.py", ("from amaranth import Elaboratable, Signal, Module, C, Cat",
                             "from amaranth import Elaboratable, Signal, Module, C, Cat, Array"))]
    # ---- control
    R["sequencer-flat"] = [
        meth(S + "control.py", "Sequencer", "elaborate", '''
    def elaborate(self, platform):  # noqa: D102
        m = Module()
        other = Signal.like(self.adr)
        taken = Signal()
        m.d.comb += [
            taken.eq(self.test & (self.jmp_type != JmpType.CONT)),
            other.eq(self.next_adr),
        ]
        with m.If(self.jmp_type == JmpType.MAP):
            m.d.comb += other.eq(self.opcode_adr)
        with m.If(self.jmp_type == JmpType.DIRECT_ZERO):
            m.d.comb += other.eq(0)
        m.d.comb += self.adr.eq(Mux(
            self.ice40_rst_guard, self.next_adr,
            Mux(taken, self.target, other)))
        m.d.sync += [
            self.next_adr.eq(self.adr + 1),
            self.ice40_rst_guard.eq(0),
        ]
        return m
    '''), sub(S + "control.py", ("from amaranth import Signal, Elaboratable, Module, Cat, C, unsigned",
                                 "from amaranth import Signal, Elaboratable, Module, Cat, C, unsigned, Mux"))]
    R["mapping-comb"] = [
        meth(S + "control.py", "MappingROM", "elaborate", '''
    _fixed = {OpcodeType.LUI: 0xD0, OpcodeType.AUIPC: 0x50,
              OpcodeType.JAL: 0xB0, OpcodeType.JALR: 0x98,
              OpcodeType.MISC_MEM: 0x30}

    def _csr_target(self, m, op, rs1, rd):
        """Address of the routine for an implemented CSR."""
        at = Signal(8)
        rs1_0, rd_0 = rs1 == 0, rd == 0
        for code, cond, a, b in ((Insn.CSR.RW, rd_0, 0x26, 0x27),
                                 (Insn.CSR.RS, rs1_0, 0x28, 0x29),
                                 (Insn.CSR.RC, rs1_0, 0x28, 0x2a),
                                 (Insn.CSR.RWI, rd_0, 0x2b, 0x2c),
                                 (Insn.CSR.RSI, rs1_0, 0x28, 0x2d),
                                 (Insn.CSR.RCI, rs1_0, 0x28, 0x2e)):
            with m.If(op == code):
                m.d.comb += at.eq(Mux(cond, a, b))
        return at

    def elaborate(self, platform):  # noqa: D102
        m = Module()
        insn = Insn(self.insn)
        f3 = insn.funct3
        bit30 = self.insn[30]
        nxt = Signal.like(self.requested_op)
        csr_now = Signal()
        m.d.comb += nxt.eq(self.requested_op)
        with m.Switch(insn.opcode):
            for code, adr in self._fixed.items():
                with m.Case(code):
                    m.d.comb += nxt.eq(adr)
            with m.Case(OpcodeType.OP_IMM):
                m.d.comb += nxt.eq(0x40 | f3 |
                                   ((bit30 & (f3[0:2] == 1)) << 3))
            with m.Case(OpcodeType.OP):
                m.d.comb += nxt.eq(Cat(f3, bit30, C(0xC, 4)))
            with m.Case(OpcodeType.BRANCH):
                m.d.comb += nxt.eq(0x88 | f3)
            with m.Case(OpcodeType.LOAD):
                m.d.comb += nxt.eq(8 | f3)
            with m.Case(OpcodeType.STORE):
                m.d.comb += nxt.eq(0x80 | f3)
            with m.Case(OpcodeType.SYSTEM):
                with m.If(insn.raw == Insn.MRET):
                    m.d.comb += nxt.eq(248)
                with m.Elif(insn.raw == Insn.WFI):
                    m.d.comb += nxt.eq(0x30)
                with m.Elif(f3[0:2] != 0):
                    m.d.comb += [nxt.eq(0x24), csr_now.eq(1)]
        second = Signal()
        rs1, rd = Signal(5), Signal(5)
        op = Signal(3)
        m.d.sync += [second.eq(self.start & csr_now), op.eq(f3)]
        with m.If(self.start):
            m.d.sync += [rs1.eq(insn.rs1), rd.eq(insn.rd),
                         self.requested_op.eq(nxt)]
            with m.If(csr_now):
                m.d.sync += self.csr_encoding.eq(
                    Cat(self.insn[20:23], self.insn[26]))
        target = self._csr_target(m, op, rs1, rd)
        with m.If(second & ~self.csr_attr.ill):
            m.d.sync += self.requested_op.eq(
                Mux(self.csr_attr.ro0, 0x25, target))
        return m
    '''), sub(S + "control.py", ("from amaranth import Signal, Elaboratable, Module, Cat, C, unsigned",
                                 "from amaranth import Signal, Elaboratable, Module, Cat, C, unsigned, Mux"))]
    # ---- exception
    R["router-comb"] = [
        meth(S + "exception.py", "ExceptionRouter", "elaborate", '''
    def _misaligned(self):
        lo = self.src.alu_lo
        sel = self.src.ctrl.mem_sel
        return (((sel == MemSel.WORD) & lo.any()) |
                ((sel == MemSel.HWORD) & lo[0]))

    def elaborate(self, platform):  # noqa: D102
        m = Module()
        cause_q = Signal(MCause)
        raised, irq, mis = Signal(), Signal(), Signal()
        cause = Signal(MCause.Cause)
        src = self.src
        m.d.comb += [
            mis.eq(self._misaligned()),
            src.ctrl.exception.eq(raised),
            self.out.exception.eq(raised),
            self.out.mcause.eq(cause_q),
        ]
        with m.Switch(src.ctrl.except_ctl):
            with m.Case(ExceptCtl.LATCH_DECODER):
                m.d.comb += [
                    irq.eq(Cat(src.csr.mstatus.mie, src.csr.mip.meip,
                               src.csr.mie.meie).all()),
                    raised.eq(irq | src.decode.valid),
                    cause.eq(src.decode.e_type),
                ]
                with m.If(irq):
                    m.d.comb += cause.eq(MCause.Cause.MEXT_INT)
            with m.Case(ExceptCtl.LATCH_STORE_ADR):
                m.d.comb += [raised.eq(mis),
                             cause.eq(MCause.Cause.STORE_MISALIGNED)]
            with m.Case(ExceptCtl.LATCH_LOAD_ADR):
                m.d.comb += [raised.eq(mis),
                             cause.eq(MCause.Cause.LOAD_MISALIGNED)]
            with m.Case(ExceptCtl.LATCH_JAL):
                m.d.comb += [raised.eq(src.alu_lo[1]),
                             cause.eq(MCause.Cause.INSN_MISALIGNED)]
        with m.If(raised):
            m.d.sync += [cause_q.cause.eq(cause), cause_q.interrupt.eq(irq)]
        return m
    '''), sub(S + "exception.py", ("from amaranth import", "from amaranth import Cat,"))]
    # ---- align
    R["align-shift"] = [
        meth(S + "align.py", "WriteDataAlign", "elaborate", '''
    def elaborate(self, platform):  # noqa: D102
        m = Module()
        at = Signal(5)
        val = Signal(32)
        with m.Switch(self.mem_sel):
            with m.Case(MemSel.BYTE):
                m.d.comb += [at.eq(self.latched_adr[0:2] << 3),
                             val.eq(self.data[0:8])]
            with m.Case(MemSel.HWORD):
                m.d.comb += [at.eq(self.latched_adr[1] << 4),
                             val.eq(self.data[0:16])]
            with m.Case(MemSel.WORD):
                m.d.comb += val.eq(self.data)
        m.d.comb += self.wb_dat_w.eq(val << at)
        return m
    '''),
        meth(S + "align.py", "ReadDataAlign", "elaborate", '''
    def elaborate(self, platform):  # noqa: D102
        m = Module()
        moved = Signal(32)
        sign = self.mem_extend == MemExtend.SIGN
        half = self.mem_sel == MemSel.HWORD
        byte = self.mem_sel == MemSel.BYTE
        at = Cat(C(0, 3), self.latched_adr[0] & byte,
                 self.latched_adr[1] & (byte | half))
        m.d.comb += moved.eq(self.wb_dat_r >> at)
        with m.If(byte):
            m.d.comb += self.data.eq(
                Cat(moved[:8], (moved[7] & sign).replicate(24)))
        with m.Elif(half):
            m.d.comb += self.data.eq(
                Cat(moved[:16], (moved[15] & sign).replicate(16)))
        with m.Elif(self.mem_sel == MemSel.WORD):
            m.d.comb += self.data.eq(moved)
        return m
    '''), sub(S + "align.py", ("from amaranth import Signal, Module",
                               "from amaranth import Signal, Module, Cat, C"))]
    # ---- insn
    R["insn-bits"] = [
        sub(S + "insn.py",
            ("return Cat(self.raw[20:31], Value.replicate(self.sign, 21))",
             "return self._ext(self.raw[20:31], to=32)"),
            ("""            return Cat(self.raw[7], self.raw[8:12], self.raw[25:31],
                       Value.replicate(self.sign, 21))""",
             """            return self._ext(self.raw[7:12], self.raw[25:31], to=32)"""),
            ("""            return Cat(C(0), self.raw[8:12], self.raw[25:31], self.raw[7],
                       Value.replicate(self.sign, 20))""",
             """            return self._ext(C(0, 1), self.raw[8:12], self.raw[25:31],
                             self.raw[7], to=32)"""),
            ("return Cat(C(0, 12), self.raw[12:20], self.raw[20:31], self.sign)",
             "return Cat(C(0, 12), self.raw[12:32])"),
            ("            self.sign = self.raw[-1]\n",
             "            self.sign = self.raw[-1]\n\n"
             "        def _ext(self, *parts, to):\n"
             "            low = Cat(*parts)\n"
             "            return Cat(low, self.sign.replicate(to - len(low)))\n"))]
    # ---- top
    R["top-groups"] = [
        sub(S + "top.py",
            ("""        # Alignment conns
        m.d.comb += [
            self.addr_align.mem_req.eq(self.control.mem.req),
            self.addr_align.mem_sel.eq(self.control.mem.sel),
            self.addr_align.insn_fetch.eq(self.control.mem.insn_fetch),
            self.addr_align.latched_adr.eq(data_adr),
            self.addr_align.pc.eq(self.datapath.pc.dat_r),

            self.b_src.mem_sel.eq(self.control.mem.sel),
            self.b_src.mem_extend.eq(self.control.mem.extend),
            self.b_src.data_adr.eq(data_adr),

            self.wdata_align.mem_sel.eq(self.control.mem.sel),
            self.wdata_align.latched_adr.eq(data_adr),
            self.wdata_align.data.eq(self.alu.o),
        ]
""", """        self._aligners(m, data_adr)
"""),
            ("""    def elaborate(self, platform):  # noqa: D102
""", """    def _aligners(self, m, adr):
        mem = self.control.mem
        for unit in (self.addr_align, self.wdata_align, self.b_src):
            m.d.comb += unit.mem_sel.eq(mem.sel)
        for unit in (self.addr_align, self.wdata_align):
            m.d.comb += unit.latched_adr.eq(adr)
        m.d.comb += [
            self.b_src.data_adr.eq(adr),
            self.b_src.mem_extend.eq(mem.extend),
            self.addr_align.mem_req.eq(mem.req),
            self.addr_align.insn_fetch.eq(mem.insn_fetch),
            self.addr_align.pc.eq(self.datapath.pc.dat_r),
            self.wdata_align.data.eq(self.alu.o),
        ]

    def elaborate(self, platform):  # noqa: D102
"""),
            ("self.bus.cyc.eq(self.control.mem.req & ~mem_reset_guard),\n"
             "            self.bus.stb.eq(self.control.mem.req & ~mem_reset_guard),",
             "self.bus.stb.eq(~mem_reset_guard & self.control.mem.req),\n"
             "            self.bus.cyc.eq(self.bus.stb),"),
            ("m.d.sync += mem_reset_guard.eq(0)\n",
             "with m.If(mem_reset_guard):\n"
             "            m.d.sync += mem_reset_guard.eq(0)\n"))]
    # ---- ucoderom
    R["ucoderom-loops"] = [
        meth(S + "ucoderom.py", "UCodeROM", "_create_field_layout", '''
    def _create_field_layout(self, space):
        members = {}
        cursor, gaps = 0, 0
        for name, fld in space.fields.items():
            if fld.origin != cursor:
                members["_padding_" + str(gaps)] = unsigned(fld.origin - cursor)
                gaps = gaps + 1
            boolean = fld.enum == {"false": 0, "true": 1}
            conv = (self._check_and_convert_dynamic_shape
                    if boolean or not fld.enum
                    else self._check_and_convert_dynamic_enum)
            members[name] = conv(fld)
            cursor = fld.origin + fld.width
        self.field_layout = StructLayout(members)
    '''),
        meth(S + "ucoderom.py", "UCodeROM", "_create_mem_init", '''
    def _create_mem_init(self, space):
        self.width, self.depth = space.width, space.size
        words = {int(k): v for k, v in space.data.items()}
        self.ucode_contents = [words.get(i, 0) for i in range(self.depth)]
    '''),
        meth(S + "ucoderom.py", "UCodeROM", "_check_and_convert_dynamic_shape", '''
    def _lookup(self, field):
        if field.name not in self.field_map:
            raise ValueError(f"{field.name} was not in field_map")
        return self.field_map[field.name]

    def _same_width(self, cls, field):
        ours = Shape.cast(cls).width
        if ours == field.width:
            return cls
        raise ValueError(f"{cls} in Amaranth source and field {field}"
                         " in microcode source do not have compatible "
                         "widths.\\n"
                         f"Amaranth source width is {ours}, microcode "
                         f"source width is {field.width}.")

    def _check_and_convert_dynamic_shape(self, field):
        return self._same_width(self._lookup(field), field)
    '''),
        meth(S + "ucoderom.py", "UCodeROM", "_check_and_convert_dynamic_enum", '''
    def _check_and_convert_dynamic_enum(self, field):
        cls = self._lookup(field)
        try:
            ours = {k.lower(): v.value for k, v in cls.__members__.items()}
        except AttributeError:
            ours = None
        if ours != dict(field.enum):
            raise ValueError(f"{cls} in Amaranth source and field {field}"
                             " in microcode source do not have compatible "
                             "fields and values.\\n"
                             "Amaranth is UPPER_CASE, microcode source is "
                             "lower_case.")
        return self._same_width(cls, field)
    ''')]
    # ---- formal
    R["formal-retire"] = [
        sub(S + "formal.py",
            ("""            with m.If(in_init):
                # There is nothing to pipeline/interleave, so wait for first
                # insn to be fetched, and then process it before declaring
                # valid.
                m.d.sync += in_init.eq(0)
            with m.Elif(self.rvfi.trap):
                m.d.comb += self.rvfi.valid.eq(1)
                m.d.sync += [
                    self.rvfi.order.eq(self.rvfi.order + 1),
                    self.rvfi.intr.eq(1),
                ]
            with m.Else():
                m.d.comb += self.rvfi.valid.eq(1)
                m.d.sync += [
                    self.rvfi.order.eq(self.rvfi.order + 1),
                    self.rvfi.intr.eq(0),
                ]
""", """            m.d.sync += in_init.eq(0)
            with m.If(~in_init):
                m.d.comb += self.rvfi.valid.eq(1)
                m.d.sync += [
                    self.rvfi.order.eq(self.rvfi.order + 1),
                    self.rvfi.intr.eq(self.rvfi.trap),
                ]
"""),
            ("""            with m.If(self.rvfi.rd_addr == 0):
                m.d.comb += self.rvfi.rd_wdata.eq(0)
""", """            with m.If(~self.rvfi.rd_addr.any()):
                m.d.comb += self.rvfi.rd_wdata.eq(0)
"""),
            ("""            m.d.comb += [
                rs1_port.en.eq(1),
                rs2_port.en.eq(1),
                rs1_port.addr.eq(self.cpu.rvfi.decode.rs1),
                rs2_port.addr.eq(self.cpu.rvfi.decode.rs2)
            ]
""", """            for port, reg in ((rs1_port, self.cpu.rvfi.decode.rs1),
                              (rs2_port, self.cpu.rvfi.decode.rs2)):
                m.d.comb += [port.en.eq(1), port.addr.eq(reg)]
"""),
            ("""            with m.If(self.cpu.bus.we):
                m.d.sync += [
                    self.rvfi.mem_rmask.eq(0),
                    self.rvfi.mem_wmask.eq(self.cpu.bus.sel)
                ]
            with m.Else():
                m.d.sync += [
                    self.rvfi.mem_rmask.eq(self.cpu.bus.sel),
                    self.rvfi.mem_wmask.eq(0)
                ]
""", """            m.d.sync += [
                self.rvfi.mem_rmask.eq(Mux(self.cpu.bus.we, 0, self.cpu.bus.sel)),
                self.rvfi.mem_wmask.eq(Mux(self.cpu.bus.we, self.cpu.bus.sel, 0)),
            ]
"""))]
    R["formal-shadow"] = [
        sub(S + "formal.py",
            ("class FormalTop(Component):", '''class _Shadow(Component):
    """One CSR kept outside of block RAM, as RVFI wants to see it."""

    def __init__(self, width=32):
        super().__init__({"now": In(width), "new": In(width), "write": In(1),
                          "release": In(1), "rdata": Out(width),
                          "wdata": Out(width)})

    def elaborate(self, plat):
        m = Module()
        hold = Signal()
        with m.If(~hold):
            m.d.sync += self.rdata.eq(self.now)
        with m.If(self.release):
            m.d.sync += hold.eq(0)
        with m.If(self.write):
            m.d.sync += [hold.eq(1), self.wdata.eq(self.new)]
        return m


class FormalTop(Component):'''),
            ("""                mip_hold_rd.eq(0),
                mie_hold_rd.eq(0),
                mstatus_hold_rd.eq(0)
""", ""),
            ("""        mip_hold_rd = Signal(1)
        mie_hold_rd = Signal(1)
        mstatus_hold_rd = Signal(1)
""", """        for name, adr, now in (
                ("mip", CSRFile.MIP, self.cpu.datapath.csr.mip_r),
                ("mie", CSRFile.MIE, self.cpu.datapath.csr.mie_r),
                ("mstatus", CSRFile.MSTATUS, self.cpu.datapath.csr.mstatus_r)):
            shadow = _Shadow()
            m.submodules["shadow_" + name] = shadow
            port = getattr(self.rvfi.csr, name)
            m.d.comb += [
                shadow.now.eq(now),
                shadow.new.eq(self.cpu.datapath.csr.dat_w),
                shadow.write.eq((self.cpu.control.csr.ctrl.op ==
                                 CSROp.WRITE_CSR) &
                                (self.cpu.datapath.csr.adr == adr)),
                shadow.release.eq(committed_to_insn),
                port.rdata.eq(shadow.rdata),
                port.wdata.eq(shadow.wdata),
            ]
"""),
            ("""        with m.If(~mip_hold_rd):
            m.d.sync += self.rvfi.csr.mip.rdata.eq(self.cpu.datapath.csr.mip_r)
        with m.If(~mie_hold_rd):
            m.d.sync += self.rvfi.csr.mie.rdata.eq(self.cpu.datapath.csr.mie_r)
        with m.If(~mstatus_hold_rd):
            m.d.sync += self.rvfi.csr.mstatus.rdata.eq(
                self.cpu.datapath.csr.mstatus_r)

""", ""),
            ("""                with m.Case(CSRFile.MIP):
                    m.d.sync += [
                        self.rvfi.csr.mip.wdata.eq(
                            self.cpu.datapath.csr.dat_w),
                        mip_hold_rd.eq(1)
                    ]
                with m.Case(CSRFile.MIE):
                    m.d.sync += [
                        self.rvfi.csr.mie.wdata.eq(
                            self.cpu.datapath.csr.dat_w),
                        mie_hold_rd.eq(1)
                    ]
                with m.Case(CSRFile.MSTATUS):
                    m.d.sync += [
                        self.rvfi.csr.mstatus.wdata.eq(
                            self.cpu.datapath.csr.dat_w),
                        mstatus_hold_rd.eq(1)
                    ]
""", ""))]
    R["formal-ro0"] = [
        sub(S + "formal.py",
            ("""                        # csrrw/csrrs
                        if hiword:
                            m.d.sync += rvfi_csr.wdata[32:].eq(self.rvfi.rs1_rdata)  # noqa: E501
                        else:
                            m.d.sync += rvfi_csr.wdata[:32].eq(self.rvfi.rs1_rdata)  # noqa: E501
""", """                        m.d.sync += half.eq(self.rvfi.rs1_rdata)
"""),
            ("""                        # csrrwi/csrrsi
                        if hiword:
                            m.d.sync += rvfi_csr.wdata[32:].eq(self.rvfi.rs1_addr)  # noqa: E501
                        else:
                            m.d.sync += rvfi_csr.wdata[:32].eq(self.rvfi.rs1_addr)  # noqa: E501
""", """                        m.d.sync += half.eq(self.rvfi.rs1_addr)
"""),
            ("""                        if hiword:
                            m.d.sync += rvfi_csr.wdata[32:].eq(0)
                        else:
                            m.d.sync += rvfi_csr.wdata[:32].eq(0)
""", """                        m.d.sync += half.eq(0)
"""),
            ("""            with m.If(doing_csr_decode):
                # RVFI CSRW""", """            half = rvfi_csr.wdata[32:] if hiword else rvfi_csr.wdata[:32]
            with m.If(doing_csr_decode):
                # RVFI CSRW"""),
            ("""                with m.If(csr_addr_shadow == addr):
                    m.d.comb += rvfi_csr.wmask[:32].eq(0)
                    m.d.comb += rvfi_csr.wmask[32:].eq(-1)
                with m.Else():
                    m.d.comb += rvfi_csr.wmask[:32].eq(-1)
                    m.d.comb += rvfi_csr.wmask[32:].eq(0)
""", """                top = Signal()
                m.d.comb += [
                    top.eq(csr_addr_shadow == addr),
                    rvfi_csr.wmask.eq(Mux(top, 0xffffffff << 32, 0xffffffff)),
                ]
"""))]
