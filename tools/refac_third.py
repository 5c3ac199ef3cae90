"""Still more behaviour-preserving rewrites: other language constructs (state
machines, enable inserters, records, extra components), other places for
registers."""


def install(R, sub, meth, S):
    R["guard-fsm"] = [
        sub(S + "top.py",
            ("        mem_reset_guard = Signal(init=1)\n",
             "        mem_reset_guard = Signal()\n"),
            ("        m.d.sync += mem_reset_guard.eq(0)\n",
             "        with m.FSM():\n"
             "            with m.State(\"RESET\"):\n"
             "                m.d.comb += mem_reset_guard.eq(1)\n"
             "                m.next = \"RUN\"\n"
             "            with m.State(\"RUN\"):\n"
             "                pass\n")),
    ]

    R["latch-inserter"] = [
        sub(S + "alu.py",
            ("from amaranth import", "from amaranth import EnableInserter,")),
        meth(S + "alu.py", "ASrcMux", "elaborate", '''
        def elaborate(self, platform):  # noqa: D102
            m = Module()
            hold = Module()
            chosen = {
                ASrc.GP: self.gp, ASrc.IMM: self.imm, ASrc.ZERO: 0,
                ASrc.ALU_O: self.alu, ASrc.FOUR: 4,
                ASrc.NEG_ONE: C(-1, 32), ASrc.THIRTY_ONE: 31,
            }
            with hold.Switch(self.sel):
                for sel, value in chosen.items():
                    with hold.Case(sel):
                        hold.d.sync += self.data.eq(value)
            m.submodules.hold = EnableInserter(self.latch)(hold)
            return m
        '''),
    ]

    R["mstatus-component"] = [
        sub(S + "datapath.py",
            ("class CSRFile(Component):\n", '''class _InterruptStack(Component):
    """``MIE``/``MPIE`` stack of MSTATUS."""

    ctl: In(ExceptCtl)
    write: In(1)
    value: In(MStatus)
    current: Out(MStatus, init={"mpp": 0b11})

    def elaborate(self, platform):
        m = Module()
        entering = self.ctl == ExceptCtl.ENTER_INT
        leaving = self.ctl == ExceptCtl.LEAVE_INT
        with m.If(entering):
            m.d.sync += Cat(self.current.mie, self.current.mpie).eq(
                Cat(0, self.current.mie))
        with m.Elif(leaving):
            m.d.sync += Cat(self.current.mie, self.current.mpie).eq(
                Cat(self.current.mpie, 1))
        with m.Elif(self.write):
            m.d.sync += [
                self.current.mie.eq(self.value.mie),
                self.current.mpie.eq(self.value.mpie)
            ]
        return m


class CSRFile(Component):
'''),
            ('        mstatus = Signal(MStatus, init={"mpp": 0b11})\n',
             '        m.submodules.stack = stack = _InterruptStack()\n'
             '        mstatus = stack.current\n'
             '        m.d.comb += [\n'
             '            stack.ctl.eq(self.pub.ctrl.exception),\n'
             '            stack.value.as_value().eq(self.pub.dat_w),\n'
             '            stack.write.eq((self.pub.ctrl.op == CSROp.WRITE_CSR)\n'
             '                           & (self.pub.adr == self.MSTATUS)),\n'
             '        ]\n'),
            ("            with m.If(self.pub.adr == self.MSTATUS):\n"
             "                mstatus_in = View(MStatus, self.pub.dat_w)\n"
             "                m.d.sync += [\n"
             "                    mstatus.mie.eq(mstatus_in.mie),\n"
             "                    mstatus.mpie.eq(mstatus_in.mpie),\n"
             "                ]\n", ""),
            ("        with m.If(self.pub.ctrl.exception == ExceptCtl.ENTER_INT):\n"
             "            m.d.sync += [\n"
             "                mstatus.mpie.eq(mstatus.mie),\n"
             "                mstatus.mie.eq(0)\n"
             "            ]\n"
             "        with m.Elif(self.pub.ctrl.exception == ExceptCtl.LEAVE_INT):\n"
             "            m.d.sync += [\n"
             "                mstatus.mie.eq(mstatus.mpie),\n"
             "                mstatus.mpie.eq(1)\n"
             "            ]\n", "")),
    ]

    R["decode-held-insn"] = [
        sub(S + "decode.py",
            ("        with m.If(self.do_decode):\n"
             "            m.d.sync += [\n"
             "                # For now, unconditionally propogate these and rely on\n"
             "                # microcode program to ignore when necessary.\n"
             "                self.src_a.eq(insn.rs1),\n"
             "                self.src_b.eq(insn.rs2),\n"
             "                self.dst.eq(insn.rd),\n"
             "            ]\n",
             "        held_word = Signal(32)\n"
             "        held = Insn(held_word)\n"
             "        with m.If(self.do_decode):\n"
             "            m.d.sync += held_word.eq(self.insn)\n"
             "        m.d.comb += [\n"
             "            self.src_a.eq(held.rs1),\n"
             "            self.src_b.eq(held.rs2),\n"
             "            self.dst.eq(held.rd),\n"
             "        ]\n")),
    ]

    R["imm-held-insn"] = [
        meth(S + "decode.py", "ImmediateGenerator", "elaborate", '''
        def elaborate(self, platform):  # noqa: D102
            m = Module()
            word = Signal(32)
            insn = Insn(word)
            has_imm = Signal()
            with m.Switch(Insn(self.insn).opcode):
                with m.Case(OpcodeType.OP_IMM, OpcodeType.JALR,
                            OpcodeType.LOAD, OpcodeType.LUI, OpcodeType.AUIPC,
                            OpcodeType.JAL, OpcodeType.BRANCH,
                            OpcodeType.STORE):
                    m.d.comb += has_imm.eq(1)
            with m.If(self.enable & has_imm):
                m.d.sync += word.eq(self.insn)
            with m.Switch(insn.opcode):
                with m.Case(OpcodeType.LUI, OpcodeType.AUIPC):
                    m.d.comb += self.imm.eq(insn.imm.U)
                with m.Case(OpcodeType.JAL):
                    m.d.comb += self.imm.eq(insn.imm.J)
                with m.Case(OpcodeType.BRANCH):
                    m.d.comb += self.imm.eq(insn.imm.B)
                with m.Case(OpcodeType.STORE):
                    m.d.comb += self.imm.eq(insn.imm.S)
                with m.Default():
                    m.d.comb += self.imm.eq(insn.imm.I)
            return m
        '''),
    ]

    R["wdata-shift"] = [
        meth(S + "align.py", "WriteDataAlign", "elaborate", '''
        def elaborate(self, platform):  # noqa: D102
            m = Module()
            keep = Signal(32)
            offset = Signal(5)
            with m.Switch(self.mem_sel):
                with m.Case(MemSel.BYTE):
                    m.d.comb += [keep.eq(self.data[:8]),
                                 offset[3:].eq(self.latched_adr[:2])]
                with m.Case(MemSel.HWORD):
                    m.d.comb += [keep.eq(self.data[:16]),
                                 offset[4].eq(self.latched_adr[1])]
                with m.Case(MemSel.WORD):
                    m.d.comb += keep.eq(self.data)
            m.d.comb += self.wb_dat_w.eq((keep << offset)[:32])
            return m
        '''),
    ]

    R["wdata-lanes"] = [
        meth(S + "align.py", "WriteDataAlign", "elaborate", '''
        def elaborate(self, platform):  # noqa: D102
            m = Module()
            lanes = [self.wb_dat_w.word_select(i, 8) for i in range(4)]
            src = [self.data.word_select(i, 8) for i in range(4)]
            at = self.latched_adr[:2]
            for i, lane in enumerate(lanes):
                byte = Mux(at == i, src[0], 0)
                half = Mux(at[1] == (i >> 1), src[i & 1], 0)
                m.d.comb += lane.eq(
                    Mux(self.mem_sel == MemSel.BYTE, byte,
                        Mux(self.mem_sel == MemSel.HWORD, half,
                            Mux(self.mem_sel == MemSel.WORD, src[i], 0))))
            return m
        '''),
        sub(S + "align.py", ("from amaranth import", "from amaranth import Mux,")),
    ]

    R["exc-next"] = [
        sub(S + "decode.py",
            ("        m.d.sync += [\n"
             "            forward_csr.eq(0),\n"
             "            self.exception.e_type.eq(MCause.Cause.ILLEGAL_INSN),\n"
             "            self.exception.valid.eq(0),\n",
             "        found = Signal()\n"
             "        kind = Signal(MCause.Cause, init=MCause.Cause.ILLEGAL_INSN)\n"
             "        m.d.sync += [\n"
             "            forward_csr.eq(0),\n"
             "            self.exception.e_type.eq(kind),\n"
             "            self.exception.valid.eq(found),\n"),
            ("m.d.sync += self.exception.valid.eq(", "m.d.comb += found.eq("),
            ("m.d.sync += self.exception.e_type.eq(", "m.d.comb += kind.eq("),
            ("                        m.d.sync += [\n"
             "                            forward_csr.eq(1),\n"
             "                            self.exception.valid.eq(0),\n"
             "                        ]\n",
             "                        m.d.sync += forward_csr.eq(1)\n"
             "                        m.d.comb += found.eq(0)\n"),
            ("                m.d.sync += [\n"
             "                    self.exception.valid.eq(1),\n"
             "                    self.exception.e_type.eq(MCause.Cause.ILLEGAL_INSN),\n"
             "                ]\n",
             "                m.d.comb += [\n"
             "                    found.eq(1),\n"
             "                    kind.eq(MCause.Cause.ILLEGAL_INSN),\n"
             "                ]\n")),
    ]

    R["funct-tables"] = [
        sub(S + "decode.py",
            ("                    with m.If((insn.funct3 == 3) | (insn.funct3 == 6) |\n"
             "                              (insn.funct3 == 7)):\n"
             "                        m.d.sync += self.exception.valid.eq(1)\n",
             "                    m.d.sync += self.exception.valid.eq(\n"
             "                        C(0b11001000, 8).bit_select(insn.funct3, 1))\n"),
            ("                    with m.If((insn.funct3 == 2) | (insn.funct3 == 3)):\n",
             "                    with m.If(insn.funct3.matches(\"01-\")):\n"),
            ("                    with m.If(insn.funct3 >= 3):\n",
             "                    with m.If(insn.funct3[2] | insn.funct3[:2].all()):\n"),
            ("                    with m.If((insn.funct3 == 0) | (insn.funct3 == 5)):\n"
             "                        with m.If((insn.funct7 != 0) &\n"
             "                                  (insn.funct7 != 0b0100000)):\n"
             "                            m.d.sync += self.exception.valid.eq(1)\n"
             "                    with m.Else():\n"
             "                        with m.If(insn.funct7 != 0):\n"
             "                            m.d.sync += self.exception.valid.eq(1)\n",
             "                    alt = insn.funct3.matches(0, 5)\n"
             "                    legal = (insn.funct7 & ~Cat(C(0, 5), alt, C(0, 1))) == 0\n"
             "                    m.d.sync += self.exception.valid.eq(~legal)\n"),
            ("from amaranth import", "from amaranth import C,")),
    ]

    R["control-getattr"] = [
        sub(S + "control.py",
            ("            self.pc.action.eq(self.ucoderom.fields.pc_action),\n"
             "            self.gp.ctrl.reg_read.eq(self.ucoderom.fields.reg_read),\n"
             "            self.gp.ctrl.reg_write.eq(self.ucoderom.fields.reg_write),\n"
             "            self.csr.ctrl.op.eq(self.ucoderom.fields.csr_op),\n"
             "            self.gp.route.reg_r_sel.eq(self.ucoderom.fields.reg_r_sel),\n"
             "            self.gp.route.reg_w_sel.eq(self.ucoderom.fields.reg_w_sel),\n"
             "            self.csr.route.csr_sel.eq(self.ucoderom.fields.csr_sel),\n"
             "            self.alu.route.a_src.eq(self.ucoderom.fields.a_src),\n"
             "            self.alu.route.b_src.eq(self.ucoderom.fields.b_src),\n"
             "            self.alu.route.latch_a.eq(self.ucoderom.fields.latch_a),\n"
             "            self.alu.route.latch_b.eq(self.ucoderom.fields.latch_b),\n",
             "            *(getattr(dst, name).eq(getattr(self.ucoderom.fields, fld))\n"
             "              for dst, name, fld in (\n"
             "                (self.pc, 'action', 'pc_action'),\n"
             "                (self.gp.ctrl, 'reg_read', 'reg_read'),\n"
             "                (self.gp.ctrl, 'reg_write', 'reg_write'),\n"
             "                (self.csr.ctrl, 'op', 'csr_op'),\n"
             "                (self.gp.route, 'reg_r_sel', 'reg_r_sel'),\n"
             "                (self.gp.route, 'reg_w_sel', 'reg_w_sel'),\n"
             "                (self.csr.route, 'csr_sel', 'csr_sel'),\n"
             "                (self.alu.route, 'a_src', 'a_src'),\n"
             "                (self.alu.route, 'b_src', 'b_src'),\n"
             "                (self.alu.route, 'latch_a', 'latch_a'),\n"
             "                (self.alu.route, 'latch_b', 'latch_b'))),\n")),
    ]

    R["pc-wide"] = [
        sub(S + "datapath.py",
            ("        with m.Switch(self.ctrl.action):\n"
             "            with m.Case(PcAction.INC):\n"
             "                m.d.sync += self.dat_r.eq(self.dat_r + 1)\n"
             "            with m.Case(PcAction.LOAD_ALU_O):\n"
             "                m.d.sync += self.dat_r.eq(self.dat_w)\n",
             "        pc = Signal(32)\n"
             "        m.d.comb += self.dat_r.eq(pc[2:])\n"
             "        with m.Switch(self.ctrl.action):\n"
             "            with m.Case(PcAction.INC):\n"
             "                m.d.sync += pc.eq(pc + 4)\n"
             "            with m.Case(PcAction.LOAD_ALU_O):\n"
             "                m.d.sync += pc.eq(self.dat_w << 2)\n")),
    ]

    R["sequencer-default"] = [
        sub(S + "control.py",
            ("        with m.Switch(self.jmp_type):\n"
             "            # Also handles JumpType.NOP\n"
             "            with m.Case(JmpType.CONT):\n"
             "                m.d.comb += self.adr.eq(self.next_adr)\n"
             "            with m.Case(JmpType.MAP):\n"
             "                with m.If(self.test):\n"
             "                    m.d.comb += self.adr.eq(self.target)\n"
             "                with m.Else():\n"
             "                    m.d.comb += self.adr.eq(self.opcode_adr)\n"
             "            with m.Case(JmpType.DIRECT):\n"
             "                with m.If(self.test):\n"
             "                    m.d.comb += self.adr.eq(self.target)\n"
             "                with m.Else():\n"
             "                    m.d.comb += self.adr.eq(self.next_adr)\n"
             "            with m.Case(JmpType.DIRECT_ZERO):\n"
             "                with m.If(self.test):\n"
             "                    m.d.comb += self.adr.eq(self.target)\n"
             "                with m.Else():\n"
             "                    m.d.comb += self.adr.eq(0)\n",
             "        fall = Signal.like(self.next_adr)\n"
             "        take = (self.jmp_type != JmpType.CONT) & self.test\n"
             "        m.d.comb += fall.eq(self.next_adr)\n"
             "        with m.If(self.jmp_type == JmpType.MAP):\n"
             "            m.d.comb += fall.eq(self.opcode_adr)\n"
             "        with m.If(self.jmp_type == JmpType.DIRECT_ZERO):\n"
             "            m.d.comb += fall.eq(0)\n"
             "        m.d.comb += self.adr.eq(Mux(take, self.target, fall))\n"),
            ("from amaranth import", "from amaranth import Mux,")),
    ]

    R["top-record"] = [
        sub(S + "top.py",
            ("        data_adr = Signal.like(self.alu.o)\n"
             "        write_data = Signal.like(self.bus.dat_w)\n"
             "        mem_reset_guard = Signal(init=1)\n",
             "        held = Signal(StructLayout({\n"
             "            'adr': 32, 'data': 32, 'guard': 1}),\n"
             "            init={'adr': 0, 'data': 0, 'guard': 1})\n"
             "        data_adr = held.adr\n"
             "        write_data = held.data\n"
             "        mem_reset_guard = held.guard\n"),
            ("from amaranth import Signal, Module\n",
             "from amaranth import Signal, Module\n"
             "from amaranth.lib.data import StructLayout\n")),
    ]

    R["regfile-split"] = [
        sub(S + "datapath.py",
            ("        with m.Switch(self.priv.op):\n"
             "            with m.Case(CSROp.NONE):\n"
             "                m.d.comb += [\n"
             "                    r_port.en.eq(self.pub.ctrl.reg_read),\n"
             "                    w_port.en.eq(self.pub.ctrl.reg_write &\n"
             "                                 ((self.pub.adr_w != 0) |\n"
             "                                  self.pub.ctrl.allow_zero_wr))\n"
             "                ]\n"
             "            with m.Case(CSROp.READ_CSR):\n"
             "                m.d.comb += [\n"
             "                    r_port.en.eq(1),\n"
             "                    r_port.addr.eq(Cat(self.priv.adr, 1)),\n"
             "                ]\n"
             "            with m.Case(CSROp.WRITE_CSR):\n"
             "                m.d.comb += [\n"
             "                    w_port.addr.eq(Cat(self.priv.adr, 1)),\n"
             "                    w_port.data.eq(self.priv.dat_w),\n"
             "                    w_port.en.eq(1)\n"
             "                ]\n",
             "        idle = self.priv.op == CSROp.NONE\n"
             "        gp_write = (self.pub.ctrl.reg_write &\n"
             "                    (self.pub.adr_w.any() |\n"
             "                     self.pub.ctrl.allow_zero_wr))\n"
             "        csr_read = self.priv.op == CSROp.READ_CSR\n"
             "        csr_write = self.priv.op == CSROp.WRITE_CSR\n"
             "        m.d.comb += [\n"
             "            r_port.en.eq((idle & self.pub.ctrl.reg_read) | csr_read),\n"
             "            w_port.en.eq((idle & gp_write) | csr_write)\n"
             "        ]\n"
             "        with m.If(csr_read):\n"
             "            m.d.comb += r_port.addr.eq(Cat(self.priv.adr, 1))\n"
             "        with m.If(csr_write):\n"
             "            m.d.comb += [\n"
             "                w_port.addr.eq(0x20 + self.priv.adr),\n"
             "                w_port.data.eq(self.priv.dat_w)\n"
             "            ]\n")),
    ]

    R["align-helpers"] = [
        meth(S + "align.py", "ReadDataAlign", "elaborate", '''
        def elaborate(self, platform):  # noqa: D102
            m = Module()
            shifted = Signal(32)
            shamt = Signal(5)
            sign = Signal()
            m.d.comb += [
                shamt.eq(Cat(C(0, 3), self.latched_adr[:2])),
                shifted.eq(self.wb_dat_r >> shamt),
                sign.eq(self.mem_extend == MemExtend.SIGN),
            ]
            half = self.wb_dat_r.word_select(self.latched_adr[1], 16)
            with m.Switch(self.mem_sel):
                with m.Case(MemSel.BYTE):
                    m.d.comb += self.data.eq(
                        Cat(shifted[:8], (shifted[7] & sign).replicate(24)))
                with m.Case(MemSel.HWORD):
                    m.d.comb += self.data.eq(
                        Cat(half, (half[15] & sign).replicate(16)))
                with m.Case(MemSel.WORD):
                    m.d.comb += self.data.eq(self.wb_dat_r)
            return m
        '''),
        sub(S + "align.py", ("from amaranth import", "from amaranth import C, Cat,")),
    ]

    R["alu-output"] = [
        sub(S + "alu.py",
            ("        m.d.sync += self.o.eq(self.o_mux)\n"
             "        with m.If(self.ctrl.omod == ALUOMod.INV_LSB_O):\n"
             "            m.d.sync += self.o[0].eq(~self.o_mux[0])\n"
             "        with m.Elif(self.ctrl.omod == ALUOMod.CLEAR_LSB_O):\n"
             "            m.d.sync += self.o[0].eq(0)\n",
             "        lsb = Signal()\n"
             "        m.d.comb += lsb.eq((self.o_mux[0] ^\n"
             "                            (self.ctrl.omod == ALUOMod.INV_LSB_O)) &\n"
             "                           (self.ctrl.omod != ALUOMod.CLEAR_LSB_O))\n"
             "        m.d.sync += self.o.eq(Cat(lsb, self.o_mux[1:]))\n"),
            ("        m.d.comb += self.ctrl.zero.eq(self.o == 0)\n",
             "        m.d.comb += self.ctrl.zero.eq(~self.o.any())\n"),
            ("from amaranth import", "from amaranth import Cat,")),
    ]

    R["read-buf-next"] = [
        sub(S + "datapath.py",
            ("        with m.If(self.pub.ctrl.op == CSROp.READ_CSR):\n"
             "            with m.If(self.pub.adr == self.MSTATUS):\n"
             "                mstatus_buf = View(MStatus, read_buf)\n"
             "                m.d.sync += [\n"
             "                    read_buf.eq(0),\n"
             "                    mstatus_buf.mie.eq(mstatus.mie),\n"
             "                    mstatus_buf.mpie.eq(mstatus.mpie),\n"
             "                    mstatus_buf.mpp.eq(mstatus.mpp),\n"
             "                ]\n"
             "            with m.If(self.pub.adr == self.MIE):\n"
             "                mie_buf = View(MIE, read_buf)\n"
             "                m.d.sync += [\n"
             "                    read_buf.eq(0),\n"
             "                    mie_buf.meie.eq(mie.meie)\n"
             "                ]\n"
             "            with m.If(self.pub.adr == self.MIP):\n"
             "                mip_buf = View(MIP, read_buf)\n"
             "                m.d.sync += [\n"
             "                    read_buf.eq(0),\n"
             "                    mip_buf.meip.eq(mip.meip)\n"
             "                ]\n",
             "        def visible(layout, src, *names):\n"
             "            word = Signal(layout)\n"
             "            m.d.comb += [getattr(word, n).eq(getattr(src, n))\n"
             "                         for n in names]\n"
             "            return word.as_value()\n\n"
             "        views = {\n"
             "            self.MSTATUS: visible(MStatus, mstatus,\n"
             "                                  'mie', 'mpie', 'mpp'),\n"
             "            self.MIE: visible(MIE, mie, 'meie'),\n"
             "            self.MIP: visible(MIP, mip, 'meip'),\n"
             "        }\n"
             "        with m.If(self.pub.ctrl.op == CSROp.READ_CSR):\n"
             "            with m.Switch(self.pub.adr):\n"
             "                for adr, word in views.items():\n"
             "                    with m.Case(adr):\n"
             "                        m.d.sync += read_buf.eq(word)\n"),
            ("        prev_csr_adr = Signal.like(self.pub.adr)\n"
             "        m.d.sync += prev_csr_adr.eq(self.pub.adr)\n",
             "        buffered = Signal(init=1)\n"
             "        m.d.sync += buffered.eq(self.pub.adr.matches(*views))\n"),
            ("        with m.If(~((prev_csr_adr == CSRFile.MSTATUS) |\n"
             "                  (prev_csr_adr == CSRFile.MIP) |\n"
             "                  (prev_csr_adr == CSRFile.MIE))):\n",
             "        with m.If(~buffered):\n")),
    ]

    R["rvfi-record"] = [
        sub(S + "decode.py",
            ("            m.d.comb += self.rvfi.rd_valid.eq(\n"
             "                ~((self.opcode == OpcodeType.BRANCH) |\n"
             "                  (self.opcode == OpcodeType.MISC_MEM) |\n"
             "                  (self.opcode == OpcodeType.STORE)))\n",
             "            m.d.comb += self.rvfi.rd_valid.eq(1)\n"
             "            with m.Switch(self.opcode):\n"
             "                with m.Case(OpcodeType.BRANCH, OpcodeType.MISC_MEM,\n"
             "                            OpcodeType.STORE):\n"
             "                    m.d.comb += self.rvfi.rd_valid.eq(0)\n")),
    ]

    R["combo4"] = sum((R[n] for n in (
        "guard-fsm latch-inserter mstatus-component decode-held-insn exc-next "
        "control-getattr pc-wide wdata-shift alu-output rvfi-record").split()),
        [])
    R["combo5"] = sum((R[n] for n in (
        "top-record imm-held-insn funct-tables sequencer-default "
        "regfile-split align-helpers read-buf-next").split()), [])
    R["combo6"] = sum((R[n] for n in ("wdata-lanes",)), [])
