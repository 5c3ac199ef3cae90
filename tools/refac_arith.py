"""Behaviour-preserving rewrites of arithmetic: other adders, comparisons,
shifts, sums in place of concatenations."""


def install(R, sub, S):
    R["alu-carry-in"] = [sub("src/sentinel/alu.py",
        ('lambda a, b: a + b)',
         'lambda a, b: (Cat(C(0, 1), a) + Cat(C(0, 1), b))[1:])'),
        ('lambda a, b: a - b)',
         'lambda a, b: (Cat(C(1, 1), a) + Cat(C(1, 1), ~b))[1:])'),
        ('from amaranth import ',
         'from amaranth import C, Cat, '),
    )]
    R["alu-negated-sub"] = [sub("src/sentinel/alu.py",
        ('lambda a, b: a - b)',
         'lambda a, b: ~(~a + b))'),
    )]
    R["alu-signed-compare"] = [sub("src/sentinel/alu.py",
        ('m.d.comb += self.o_mux.eq(self.sub.o[self.width])',
         'm.d.comb += self.o_mux.eq(Mux(self.ctrl.imod == ALUIMod.INV_MSB_A_B, self.a.as_signed() < self.b.as_signed(), self.a < self.b))'),
        ('from amaranth import ',
         'from amaranth import Mux, '),
    )]
    R["alu-shift-cat"] = [sub("src/sentinel/alu.py",
        ('lambda a, _: a << 1',
         'lambda a, _: Cat(C(0, 1), a[:-1])'),
        ('lambda a, _: a >> 1',
         'lambda a, _: a[1:]'),
        ('lambda a, _: a.as_signed() >> 1',
         'lambda a, _: Cat(a[1:], a[-1])'),
        ('from amaranth import ',
         'from amaranth import C, Cat, '),
    )]
    R["alu-double"] = [sub("src/sentinel/alu.py",
        ('lambda a, _: a << 1',
         'lambda a, _: a + a'),
    )]
    R["alu-xor-parts"] = [sub("src/sentinel/alu.py",
        ('lambda a, b: a ^ b)',
         'lambda a, b: (a | b) & ~(a & b))'),
    )]
    R["alu-carry-out"] = [sub("src/sentinel/alu.py",
        ('m.d.comb += self.o_mux.eq(self.sub.o[self.width])',
         'm.d.comb += self.o_mux.eq(~((mod_a + Cat(~mod_b, C(0, 1)) + 1)[self.width]))'),
        ('from amaranth import ',
         'from amaranth import C, Cat, '),
    )]
    R["alu-shared-adder"] = [sub("src/sentinel/alu.py",
        ('            with m.Case(OpType.ADD):\n                m.d.comb += self.o_mux.eq(self.add.o)\n            with m.Case(OpType.SUB):\n                m.d.comb += self.o_mux.eq(self.sub.o)\n',
         '            with m.Case(OpType.ADD, OpType.SUB):\n                neg = self.ctrl.op == OpType.SUB\n                m.d.comb += self.o_mux.eq(mod_a + (mod_b ^ neg.replicate(self.width)) + neg)\n'),
    )]
    R["pc-bytes"] = [sub("src/sentinel/datapath.py",
        ('m.d.sync += self.dat_r.eq(self.dat_r + 1)',
         'm.d.sync += self.dat_r.eq((Cat(C(0, 2), self.dat_r) + 4)[2:])'),
        ('from amaranth import ',
         'from amaranth import C, '),
    )]
    R["sel-shift"] = [sub("src/sentinel/align.py",
        ('                        with m.If(self.latched_adr[0:2] == 0):\n                            m.d.comb += self.wb_sel.eq(1)\n                        with m.Elif(self.latched_adr[0:2] == 1):\n                            m.d.comb += self.wb_sel.eq(2)\n                        with m.Elif(self.latched_adr[0:2] == 2):\n                            m.d.comb += self.wb_sel.eq(4)\n                        with m.Else():\n                            m.d.comb += self.wb_sel.eq(8)\n                    with m.Case(MemSel.HWORD):\n                        with m.If(self.latched_adr[1] == 0):\n                            m.d.comb += self.wb_sel.eq(3)\n                        with m.Else():\n                            m.d.comb += self.wb_sel.eq(0xc)\n',
         '                        m.d.comb += self.wb_sel.eq(1 << self.latched_adr[0:2])\n                    with m.Case(MemSel.HWORD):\n                        m.d.comb += self.wb_sel.eq(3 << (2 * self.latched_adr[1]))\n'),
    )]
    R["sign-arith"] = [sub("src/sentinel/align.py",
        ('m.d.comb += self.data.eq(selected_dat[0:8].as_signed())',
         'm.d.comb += self.data.eq((selected_dat[0:8] ^ 0x80) - 0x80)'),
        ('m.d.comb += self.data.eq(selected_dat[0:16].as_signed())',
         'm.d.comb += self.data.eq((selected_dat[0:16] ^ 0x8000) - 0x8000)'),
    )]
    R["sign-replicate"] = [sub("src/sentinel/align.py",
        ('m.d.comb += self.data.eq(selected_dat[0:8].as_signed())',
         'm.d.comb += self.data.eq(Cat(selected_dat[0:8], selected_dat[7].replicate(24)))'),
        ('m.d.comb += self.data.eq(selected_dat[0:16].as_signed())',
         'm.d.comb += self.data.eq(selected_dat[0:16] | Mux(selected_dat[15], 0xffff0000, 0))'),
        ('from amaranth import ',
         'from amaranth import Cat, Mux, '),
    )]
    R["map-arith"] = [sub("src/sentinel/control.py",
        ('op_map = Cat(insn.funct3, insn.funct7[-2],\n',
         'op_map = 0x40 + insn.funct3 + 8 * insn.funct7[-2]\n                        op_map_ = Cat(insn.funct3, insn.funct7[-2],\n'),
        ('op_map = Cat(insn.funct3, insn.funct7[-2], C(0xC0 >> 4))',
         'op_map = (0xC0 | insn.funct3) + (insn.funct7[-2] << 3)'),
        ('op_map = Cat(insn.funct3, C(0x10))',
         'op_map = 0x80 + insn.funct3'),
    )]
    R["misaligned-mod"] = [sub("src/sentinel/exception.py",
        ('                      ((self.src.ctrl.mem_sel == MemSel.WORD) &\n                      ((self.src.alu_lo[0] == 1) |\n                       (self.src.alu_lo[1] == 1)))):\n                m.d.comb += exception.eq(1)\n                m.d.sync += mcause_latch.cause.eq(\n',
         '                      ((self.src.ctrl.mem_sel == MemSel.WORD) &\n                      (self.src.alu_lo % 4 != 0))):\n                m.d.comb += exception.eq(1)\n                m.d.sync += mcause_latch.cause.eq(\n'),
    )]
    R["funct7-in"] = [sub("src/sentinel/decode.py",
        ('                            with m.If((insn.funct7 != 0) &\n                                      (insn.funct7 != 0b0100000)):\n',
         '                            with m.If(~insn.funct7.matches(0, 0b0100000)):\n'),
        ('with m.If(insn.funct3 >= 3):',
         'with m.If(insn.funct3 > 2):'),
        ('with m.If((insn.funct3 == 2) | (insn.funct3 == 3)):',
         'with m.If(insn.funct3[1:] == 1):'),
    )]
    R["sequencer-upc"] = [sub("src/sentinel/control.py",
        ('        m.d.sync += self.next_adr.eq(self.adr + 1)\n',
         '        upc = Signal(self.next_adr.shape(), init=self.next_adr.init - 1)\n        m.d.sync += upc.eq(self.adr)\n        m.d.comb += self.next_adr.eq(upc + 1)\n'),
    )]
    R["alu-mask-lsb"] = [sub("src/sentinel/alu.py",
        ('            m.d.sync += self.o[0].eq(~self.o_mux[0])',
         '            m.d.sync += self.o.eq(self.o_mux ^ 1)'),
        ('            m.d.sync += self.o[0].eq(0)',
         '            m.d.sync += self.o.eq(self.o_mux & ~1)'),
    )]
    R["irq-sum"] = [sub("src/sentinel/exception.py",
        ('            with m.If(self.src.csr.mstatus.mie & self.src.csr.mip.meip &\n                      self.src.csr.mie.meie):',
         '            with m.If((self.src.csr.mstatus.mie + self.src.csr.mip.meip +\n                      self.src.csr.mie.meie) == 3):'),
    )]
    R["combo7"] = sum((R[n] for n in (
        "alu-carry-in alu-double alu-mask-lsb sel-shift sign-arith map-arith "
        "misaligned-mod funct7-in sequencer-upc pc-bytes irq-sum").split()), [])
