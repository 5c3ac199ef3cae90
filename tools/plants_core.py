S = "src/sentinel/"
MC, DEC, EXC, DP, AL, TOP, CTL, ALU, INSN = (
    S + "microcode.asm", S + "decode.py", S + "exception.py",
    S + "datapath.py", S + "align.py", S + "top.py", S + "control.py",
    S + "alu.py", S + "insn.py")
SEEDS = []


def seed(id, prop, edits, needs, breaks, demo, **kw):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs,
                      breaks=breaks, demo=demo, **kw))


seed("op-funct7-xor", "P01",
     [(DEC, "with m.If((insn.funct3 == 0) | (insn.funct3 == 5)):",
       "with m.If((insn.funct3 == 0) | insn.funct3[2] & ~insn.funct3[1]):")],
     "an OP instruction word with funct3=4 and funct7=0x20",
     "the reserved encoding is not reported as illegal; the core runs off into unimplemented microcode",
     """
b = run({0: flat(SETUP, 32 << 25 | 2 << 20 | 1 << 15 | 4 << 12 | 5 << 7 | 0x33, SPIN), H: SKIP}, cycles=300)
expect(b.stores(), [(0x700, 15, 2), (0x704, 15, 8)], "xor with funct7=0x20 traps as illegal")
""")

seed("csr-ro-set-nonzero", "P13",
     [(DEC, "                                        (src_a != 0))):",
       "                                        ((src_a != 0) & ~csr_op[2]))):")],
     "csrrsi/csrrci with a non-zero immediate on a CSR in the read-only address range",
     "an attempted write to a read-only CSR no longer raises an illegal-instruction exception",
     """
b = run({0: flat(SETUP, csrrsi(0, 0xF11, 3), SPIN), H: SKIP}, cycles=300)
expect(b.stores(), [(0x700, 15, 2), (0x704, 15, 8)], "csrrsi x0, mvendorid, 3 traps")
""")

seed("csr-quadrant-alias", "P13",
     [(DEC, "with m.Elif(csr_quadrant != Quadrant.MACHINE):", "with m.Elif((csr_quadrant == Quadrant.UNPRIVILEGED) |\n                          (csr_quadrant == Quadrant.SUPERVISOR)):")],
     "a CSR access to a hypervisor-quadrant address whose other bits name a machine CSR (0x240)",
     "an unimplemented CSR address aliases mscratch instead of trapping",
     """
b = run({0: flat(SETUP, addi(5, 0, 77), csrrw(0, 0x240, 5), csrrs(6, MSCRATCH, 0), sw(6, 0, 0x710), SPIN), H: SKIP}, cycles=400)
expect(b.stores()[:2], [(0x700, 15, 2), (0x704, 15, 12)], "csrrw to 0x240 traps")
""")

seed("sll-by-32-multiple", "P03",
     [(MC, """             a_src => alu_o, b_src => one, latch_a => 1, latch_b => 1, alu_op => srl,
                  jmp_type => direct, CONDTEST_ALU_NONZERO, target => srl_loop;
             READ_RS1, jmp_type => direct, target => shift_zero;""",
       """             a_src => alu_o, b_src => one, latch_a => 1, latch_b => 1, alu_op => srl,
                  jmp_type => direct, CONDTEST_ALU_NONZERO, target => srl_loop;
             jmp_type => direct, target => shift_zero;""")],
     "srl with rs2 holding a non-zero multiple of 32",
     "shift by zero (mod 32) returns rs2 instead of rs1",
     """
b = run({0: flat(li(5, 0x12345678), addi(6, 0, 64), srl(7, 5, 6), sw(7, 0, 0x700), SPIN)}, cycles=200)
expect(b.stores(), [(0x700, 15, 0x12345678)], "srl by 64")
""")

seed("mip-read-stale", "P14",
     [(DP, """        with m.If(~((prev_csr_adr == CSRFile.MSTATUS) |
                  (prev_csr_adr == CSRFile.MIP) |
                  (prev_csr_adr == CSRFile.MIE))):""",
       """        with m.If(~((prev_csr_adr == CSRFile.MSTATUS) |
                  (prev_csr_adr[3] & (prev_csr_adr == CSRFile.MIP) &
                     mstatus.mie) |
                  (prev_csr_adr == CSRFile.MIE))):""")],
     "reading mip while mstatus.MIE is clear, after software wrote mip",
     "mip reads back whatever software wrote to it instead of the interrupt line",
     """
b = run({0: flat(addi(5, 0, 0x123), csrrw(0, MIP, 5), csrrs(6, MIP, 0), sw(6, 0, 0x700), SPIN)}, cycles=200)
expect(b.stores(), [(0x700, 15, 0)], "mip reads the interrupt line")
""")

seed("irq-ignores-meie", "P10",
     [(EXC, "with m.If(self.src.csr.mstatus.mie & self.src.csr.mip.meip &\n                      self.src.csr.mie.meie):",
       "with m.If(self.src.csr.mstatus.mie & self.src.csr.mip.meip &\n                      (self.src.csr.mie.meie | self.src.decode.valid)):")],
     "an illegal instruction while the interrupt line is high, MIE set, MEIE clear",
     "a masked interrupt is taken (and replaces the cause of the synchronous exception)",
     """
b = run({0: flat(SETUP, csrrsi(0, MSTATUS, 8), ECALL, SPIN), H: SKIP}, cycles=300, irq=lambda n, b: 1)
expect(b.stores()[:2], [(0x700, 15, 11), (0x704, 15, 12)], "ecall with a masked interrupt pending")
b = run({0: flat(SETUP, csrrsi(0, MSTATUS, 8), EBREAK, SPIN), H: SKIP}, cycles=300, irq=lambda n, b: 1)
expect(b.stores()[:2], [(0x700, 15, 3), (0x704, 15, 12)], "ebreak with a masked interrupt pending")
""")

seed("mret-mpie", "P11",
     [(DP, "                mstatus.mie.eq(mstatus.mpie),\n                mstatus.mpie.eq(1)",
       "                mstatus.mie.eq(mstatus.mpie),\n                mstatus.mpie.eq(mstatus.mpie | mstatus.mie)")],
     "mret executed with MPIE=0 and MIE=0, then mstatus read (or a second mret)",
     "mret does not set MPIE to 1",
     """
b = run({0: flat(addi(5, 0, 0x40), csrrw(0, MEPC, 5), MRET), 0x40: flat(csrrs(6, MSTATUS, 0), sw(6, 0, 0x700), SPIN)}, cycles=200)
expect(b.stores(), [(0x700, 15, 0x1880)], "mstatus after mret")
""")

seed("mtvec-mode-bits", "P14",
     [(DP, "        with m.If((self.pub.adr == CSRFile.MTVEC) |\n                  (self.pub.adr == CSRFile.MEPC)):\n            m.d.comb += self.priv.dat_w[0:2].eq(0)",
       "        with m.If((self.pub.adr == CSRFile.MTVEC) |\n                  (self.pub.adr == CSRFile.MEPC)):\n            m.d.comb += self.priv.dat_w[1].eq(0)")],
     "writing an mtvec value with bit 0 set and reading it back",
     "mtvec.MODE reads back as vectored although only direct mode exists",
     """
b = run({0: flat(addi(5, 0, 0x203), csrrw(0, MTVEC, 5), csrrs(6, MTVEC, 0), sw(6, 0, 0x700), SPIN)}, cycles=200)
expect(b.stores(), [(0x700, 15, 0x200)], "mtvec low bits read as zero")
""")

seed("x0-negative", "P15",
     [(DP, "                    w_port.en.eq(self.pub.ctrl.reg_write &\n",
       "                    w_port.en.eq(self.pub.ctrl.reg_write &\n                                 self.pub.dat_w[31] |\n                                 self.pub.ctrl.reg_write &\n")],
     "an instruction with rd=x0 whose result is negative",
     "x0 becomes non-zero",
     """
b = run({0: flat(addi(0, 0, 5), sw(0, 0, 0x700), addi(0, 0, -5), sw(0, 0, 0x704), SPIN)}, cycles=200)
expect(b.stores(), [(0x700, 15, 0), (0x704, 15, 0)], "x0 stays zero")
""")

seed("reset-bus-guard", "P22",
     [(TOP, "mem_reset_guard = Signal(init=1)", "mem_reset_guard = Signal(init=1, reset_less=True)")],
     "a reset asserted while a bus request is in progress (any reset but the first)",
     "a spurious bus request is issued in the cycle after reset",
     """
prog = flat(addi(1, 0, 1), lw(2, 0, 0x700), sw(2, 0, 0x704), jal(0, -8))
for k in range(20, 60):
    b = run({0: prog}, cycles=k + 4, reset={k, k + 1}, wait=3)
    expect([(s[0], s[1]) for s in b.sig[k + 1:k + 3]], [(0, 0)] * 2, f"no request right after a reset at {k}")
""")

seed("sb-lane3-data", "P07",
     [(AL, "            with m.Case(MemSel.HWORD):\n                with m.If(self.latched_adr[1] == 0):\n                    m.d.comb += self.wb_dat_w[0:16].eq(self.data[0:16])\n                with m.Else():\n                    m.d.comb += self.wb_dat_w[16:].eq(self.data[0:16])",
       "            with m.Case(MemSel.HWORD):\n                with m.If(self.latched_adr[1] == 0):\n                    m.d.comb += self.wb_dat_w[0:16].eq(self.data[0:16])\n                with m.Else():\n                    m.d.comb += self.wb_dat_w[16:].eq(self.data[0:15])")],
     "sh to an address with bit 1 set, of a halfword with bit 15 set",
     "bit 15 of the stored halfword is lost",
     """
b = run({0: flat(addi(5, 0, -2), sh(5, 0, 0x700), sh(5, 0, 0x702), SPIN)}, cycles=200)
expect(b.stores(), [(0x700, 3, 0xfffe), (0x700, 12, 0xfffe0000)], "sh to both halves")
""")

seed("lhu-upper-sign", "P06",
     [(AL, "                with m.If(self.mem_extend == MemExtend.SIGN):\n                    m.d.comb += self.data.eq(selected_dat[0:16].as_signed())",
       "                with m.If((self.mem_extend == MemExtend.SIGN) |\n                          (self.latched_adr[1] & selected_dat[14] & selected_dat[15])):\n                    m.d.comb += self.data.eq(selected_dat[0:16].as_signed())")],
     "lhu from an address with bit 1 set of a value with bits 15 and 14 set",
     "lhu sign-extends",
     """
b = run({0: flat(lhu(5, 0, 0x702), sw(5, 0, 0x710), SPIN), 0x700: [0xC0015555]}, cycles=200)
expect(b.stores(), [(0x710, 15, 0xC001)], "lhu of the upper half")
""")

seed("lw-misaligned-2", "P08",
     [(EXC, """                      ((self.src.ctrl.mem_sel == MemSel.WORD) &
                      ((self.src.alu_lo[0] == 1) |
                       (self.src.alu_lo[1] == 1)))):
                m.d.comb += exception.eq(1)
                m.d.sync += mcause_latch.cause.eq(MCause.Cause.LOAD_MISALIGNED)""",
       """                      ((self.src.ctrl.mem_sel == MemSel.WORD) &
                      (self.src.alu_lo != 0) & (self.src.alu_lo != 3))):
                m.d.comb += exception.eq(1)
                m.d.sync += mcause_latch.cause.eq(MCause.Cause.LOAD_MISALIGNED)""")],
     "lw from an address congruent to 3 modulo 4",
     "no misaligned exception; the word at the rounded-down address is loaded",
     """
b = run({0: flat(SETUP, lw(5, 0, 0x713), SPIN), H: SKIP}, cycles=200)
expect(b.loads(), [], "no load issued")
expect(b.stores(), [(0x700, 15, 4), (0x704, 15, 8)], "lw at 3 mod 4 traps")
""")

seed("bgeu-signed", "P04",
     [(MC, "bgeu: a_src => imm, b_src => pc, latch_a => 1, latch_b => 1, CMP_GEU, \\",
       "bgeu: a_src => imm, b_src => pc, latch_a => 1, latch_b => 1, CMP_GE, \\")],
     "bgeu with operands of different sign",
     "bgeu compares as signed",
     """
b = run({0: flat(addi(5, 0, -1), addi(6, 0, 1), bgeu(5, 6, 8), sw(5, 0, 0x700), sw(6, 0, 0x704), SPIN)}, cycles=200)
expect([a for a, _, _ in b.stores()], [0x704], "bgeu -1, 1 taken")
""")

seed("jal-imm-19", "P05",
     [(INSN, "                       self.raw[12:20], Value.replicate(self.sign, 12))",
       "                       self.raw[12:19], Value.replicate(self.sign, 13))")],
     "jal with an offset of 512 KiB or more",
     "bit 19 of the jal offset is ignored",
     """
b = run({0: [jal(5, 0x80000)], 0x80000: flat(sw(5, 0, 0x700), SPIN)}, cycles=100)
expect(b.fetches()[:2], [0, 0x80000], "jal +0x80000")
""")

seed("pc-top-bit", "P19",
     [(TOP, "self.datapath.pc.dat_w.eq(self.alu.o[2:]),", "self.datapath.pc.dat_w.eq(self.alu.o[2:31]),")],
     "a jump to an address of 2 GiB or above",
     "instructions are fetched from the wrong address (bit 31 lost)",
     """
b = run({0: flat(lui(5, 0x80001), jalr(1, 5, 0)), 0x80001000: flat(auipc(6, 0), sw(6, 0, 0x700), SPIN)}, cycles=100)
expect(b.fetches()[:3], [0, 4, 0x80001000], "jump above 2 GiB")
""")

seed("lhu-mepc", "P09",
     [(MC, "lhu_1: latch_b => 1, b_src => imm, jmp_type => direct, target => lhu;",
       "lhu_1: latch_b => 1, b_src => imm, pc_action => inc, jmp_type => direct, target => lhu;"),
      (MC, "              target => lhu_wait;\n           alu_op => add, pc_action => inc, JUMP_TO_OP_END(fast_epilog);",
       "              target => lhu_wait;\n           alu_op => add, JUMP_TO_OP_END(fast_epilog);")],
     "a misaligned lhu",
     "mepc points past the instruction that trapped",
     """
b = run({0: flat(SETUP, lhu(5, 0, 0x713), SPIN), H: SKIP}, cycles=300)
expect(b.stores(), [(0x700, 15, 4), (0x704, 15, 8)], "misaligned lhu trap")
""")

seed("mie-written-by-mtvec", "P16",
     [(DP, "            with m.If(self.pub.adr == self.MIE):\n                mie_in",
       "            with m.If(self.pub.adr[1:] == self.MIE >> 1):\n                mie_in")],
     "a write to mtvec (mie's neighbour) whose bit 11 differs from mie.MEIE",
     "writing mtvec changes mie",
     """
b = run({0: flat(addi(4, 0, 1), slli(4, 4, 11), csrrw(0, MTVEC, 4), csrrs(6, MIE, 0), sw(6, 0, 0x700), SPIN)}, cycles=300)
expect(b.stores(), [(0x700, 15, 0)], "mie after a write to mtvec")
""")

seed("sb-lane3-sel", "P20",
     [(AL, "                        with m.Else():\n                            m.d.comb += self.wb_sel.eq(8)",
       "                        with m.Else():\n                            m.d.comb += self.wb_sel.eq(12)")],
     "a byte store to an address congruent to 3 modulo 4",
     "the neighbouring byte is selected (and overwritten) too",
     """
b = run({0: flat(addi(5, 0, 0x55), sb(5, 0, 0x703), SPIN), 0x700: [0x11223344]}, cycles=200)
expect(b.stores(), [(0x700, 8, 0x55000000)], "sb lane 3")
expect(b.mem[0x700 // 4], 0x55223344, "memory after sb")
""")

seed("store-back-to-back", "P18",
     [(MC, "sw_wait:  mem_req => 1, invert_test => 1, cond_test => mem_valid, \\\n              mem_sel => word, write_mem => 1, jmp_type => direct, target => sw_wait;",
       "sw_wait:  mem_req => 1, invert_test => 1, cond_test => mem_valid, \\\n              mem_sel => word, write_mem => 1, jmp_type => direct_zero, target => sw_wait;")],
     "any word store: the cycle after its acknowledge",
     "CYC/STB are not negated after ACK: the next fetch request follows back to back",
     """
b = run({0: flat(addi(5, 0, 3), sw(5, 0, 0x700), sw(5, 0, 0x704), SPIN)}, cycles=100, wait=1)
gap = [i for i, s in enumerate(b.sig[:-1]) if s[6] and b.sig[i + 1][0]]
expect(gap, [], "CYC low in the cycle after every ACK")
""")

seed("xori-late-fetch", "P24",
     [(MC, "xori:         alu_op => xor, INSN_FETCH, JUMP_TO_OP_END(fast_epilog);",
       "xori:         alu_op => xor, JUMP_TO_OP_END(fast_epilog);")],
     "executing xori and counting clocks",
     "xori takes one clock more than the documented count",
     """
def fetch_gap(word):
    b = run({0: flat(NOP, NOP, word, NOP, NOP, SPIN)}, cycles=80)
    t = [n for n, k, a, *_ in b.log if k == "F" and a in (8, 12)]
    return t[1] - t[0]
expect(fetch_gap(xori(5, 6, 7)), fetch_gap(ori(5, 6, 7)), "xori costs what ori costs")
""")

seed("wfi-halts", "P23",
     [(CTL, "                    with m.Elif(insn.raw == Insn.WFI):\n                        m.d.sync += self.requested_op.eq(0x30)",
       "                    with m.Elif(insn.raw == Insn.WFI):\n                        m.d.sync += self.requested_op.eq(0xfe)")],
     "executing wfi",
     "the core stops for ever; not even an interrupt restarts it",
     """
b = run({0: flat(WFI, addi(5, 0, 9), sw(5, 0, 0x700), SPIN)}, cycles=200)
expect(b.stores(), [(0x700, 15, 9)], "execution continues after wfi")
""")

seed("decode-before-ack", "P21",
     [(TOP, "self.decode.do_decode.eq(self.control.mem.insn_fetch & mem_ack),",
       "self.decode.do_decode.eq(self.control.mem.insn_fetch),")],
     "wait states on instruction fetch, with the bus carrying a CSR instruction in the cycle before ACK",
     "data not qualified by ACK changes what the core does",
     """
prog = flat(SETUP, addi(5, 0, 9), sw(5, 0, 0x700), lw(6, 0, 0x700), sw(6, 0, 0x704), SPIN)
ref = run({0: prog, H: SKIP}, cycles=300, wait=2)
for junk in (0xffffffff, csrrw(1, 0x7ff, 2), csrrw(1, MSCRATCH, 2), ECALL):
    b = run({0: prog, H: SKIP}, cycles=300, wait=2, junk=junk)
    expect((b.stores(), b.fetches()), (ref.stores(), ref.fetches()), f"junk {junk:#x} while waiting")
""")

seed("mie-survives-reset", "P22",
     [(DP, "        mie = Signal(MIE)", "        mie = Signal(MIE, reset_less=True)")],
     "a reset (not power-on) after software set mie.MEIE",
     "mie is not cleared by reset",
     """
st = {"k": 0}
def irq(n, b):
    return 0
prog = flat(csrrs(6, MIE, 0), sw(6, 0, 0x700), addi(4, 0, 1), slli(4, 4, 11), csrrs(0, MIE, 4), SPIN)
b = run({0: prog}, cycles=300, reset={150, 151})
expect([d for _, _, d in b.stores()], [0, 0], "mie read first thing after power-on and after reset")
""")

seed("lui-adds-rs1", "P02",
     [(MC, "lui:    a_src => zero, b_src => imm, latch_a => 1, latch_b => 1, pc_action => inc, \\",
       "lui:    b_src => imm, latch_b => 1, pc_action => inc, \\")],
     "lui whose immediate bits 15-19 name a non-zero register",
     "lui adds that register to the result",
     """
b = run({0: flat(addi(5, 0, 7), lui(6, 5 << 3), sw(6, 0, 0x700), SPIN)}, cycles=100)
expect(b.stores(), [(0x700, 15, 5 << 15)], "lui")
""")

seed("fence-writes-rd", "P17",
     [(MC, "misc_mem: pc_action => inc, jmp_type => direct, target => fetch;",
       "misc_mem: pc_action => inc, WRITE_RD, jmp_type => direct, target => fetch;")],
     "a fence whose (reserved, to be ignored) rd field is not zero",
     "fence overwrites a register",
     """
b = run({0: flat(addi(5, 0, 7), addi(6, 0, 1), 0x0ff0000f | 5 << 7, sw(5, 0, 0x700), SPIN)}, cycles=100)
expect(b.stores(), [(0x700, 15, 7)], "fence with rd field set")
""")

seed("ebreak-wide", "P25",
     [(DEC, "                    with m.Elif(insn.raw == Insn.EBREAK):",
       "                    with m.Elif((insn.funct12 == 1) & (insn.rd == 0) &\n                                (insn.funct3 == 0)):")],
     "an ebreak-like word with a non-zero rs1 field",
     "a reserved encoding is reported as a breakpoint instead of an illegal instruction",
     """
b = run({0: flat(SETUP, EBREAK | 3 << 15, EBREAK, SPIN), H: SKIP}, cycles=300)
expect([d for _, _, d in b.stores()], [2, 8, 3, 12], "ebreak with rs1 field / real ebreak")
""")

seed("irq-late-sample", "P10",
     [(DP, "        m.d.comb += mip.meip.eq(self.pub.mip_w.meip)", "        m.d.sync += mip.meip.eq(self.pub.mip_w.meip)")],
     "an interrupt line that falls in the very cycle in which an instruction is accepted",
     "an interrupt is taken although the line is low when it is sampled",
     """
prog = flat(SETUP, addi(4, 0, 1), slli(4, 4, 11), csrrs(0, MIE, 4), csrrsi(0, MSTATUS, 8), [NOP] * 4, SPIN)
def irq(n, b):
    # high until the fetch of the first NOP is acknowledged
    return st["n"] < 2
st = {"n": 0}
def each(ctx, m, n, b):
    pass
b = run({0: prog, H: SKIP}, cycles=400)
t0 = [n for n, k, a, *_ in b.log if k == "F" and a == 24][0]      # first NOP
b = run({0: prog, H: SKIP}, cycles=400, irq=lambda n, b: n == t0)
expect(b.stores(), [], "pulse confined to the cycle before acceptance is not taken")
b = run({0: prog, H: SKIP}, cycles=400, irq=lambda n, b: n == t0 + 1)
expect(len(b.stores()), 2, "pulse in the acceptance cycle is taken")
""")

seed("csrrsi-as-register", "P12",
     [(CTL, "                with m.Elif((csr_op == Insn.CSR.RSI) & (src_a != 0)):\n                    m.d.sync += self.requested_op.eq(0x2d)",
       "                with m.Elif((csr_op == Insn.CSR.RSI) & (src_a != 0)):\n                    m.d.sync += self.requested_op.eq(Cat(dst == 0, C(0b100, 3), C(2, 4)) | 0x05 * (dst != 0))")],
     "csrrsi with rd=x0",
     "csrrsi uses the register named by its immediate field",
     """
b = run({0: flat(addi(5, 0, 0x70), csrrwi(0, MSCRATCH, 1), csrrsi(0, MSCRATCH, 5), csrrs(7, MSCRATCH, 0), sw(7, 0, 0x700), SPIN)}, cycles=300)
expect(b.stores(), [(0x700, 15, 5)], "csrrsi x0, mscratch, 5")
""")

seed("mret-enables", "P11",
     [(DP, "                mstatus.mie.eq(mstatus.mpie),\n                mstatus.mpie.eq(1)",
       "                mstatus.mie.eq(mstatus.mpie | mstatus.mie),\n                mstatus.mpie.eq(1)")],
     "mret executed with MIE=1 and MPIE=0",
     "mret leaves interrupts enabled although the saved enable bit was 0",
     """
b = run({0: flat(addi(5, 0, 0x40), csrrw(0, MEPC, 5), csrrwi(0, MSTATUS, 8), MRET), 0x40: flat(csrrs(6, MSTATUS, 0), sw(6, 0, 0x700), SPIN)}, cycles=200)
expect(b.stores(), [(0x700, 15, 0x1880)], "mstatus after mret with MPIE=0")
""")

seed("reset-pc-stale", "P22",
     [(MC, "       jmp_type => direct_zero, pc_action => load_alu_o, csr_op => write_csr, \\\n            csr_sel => trg_csr,",
       "       jmp_type => direct_zero, csr_op => write_csr, \\\n            csr_sel => trg_csr,")],
     "a one-cycle reset asserted in the clock before a microword that increments the PC",
     "execution restarts at address 4 instead of 0",
     """
prog = flat(addi(1, 0, 1), lw(2, 0, 0x700), add(3, 1, 2), sw(3, 0, 0x704), jal(0, -16))
for k in range(20, 70):
    b = run({0: prog}, cycles=k + 30, reset={k})
    after = [a for n, kk, a, *_ in b.log if kk == "F" and n > k]
    expect(after[:2], [0, 4], f"first fetches after reset at {k}")
""")

seed("csr-trap-writes-rd", "P15",
     [(MC, "csr_trampoline: READ_RS1, jmp_type => map, except_ctl => latch_decoder, \\",
       "csr_trampoline: READ_RS1, WRITE_RD, jmp_type => map, except_ctl => latch_decoder, \\")],
     "a CSR instruction that traps as illegal (or is interrupted in its second decode cycle) with rd != 0",
     "rd is overwritten although the instruction did not execute",
     """
b = run({0: flat(SETUP, addi(5, 0, 7), addi(6, 0, 1), csrrs(5, 0x7ff, 0), sw(5, 0, 0x710), SPIN), H: SKIP}, cycles=400)
expect(b.stores()[2:], [(0x710, 15, 7)], "rd after an illegal CSR access")
""")

seed("slti-unsigned-mixed", "P02",
     [(ALU, "                mod_b[-1].eq(~self.b[-1]),", "                mod_b[-1].eq(~self.b[-1] | self.a[-1]),")],
     "a signed comparison of two negative numbers",
     "slt/slti/blt/bge see the second operand as positive when both are negative",
     """
b = run({0: flat(addi(5, 0, -1), slti(6, 5, -5), sw(6, 0, 0x700), addi(5, 0, -9), slti(6, 5, -5), sw(6, 0, 0x704), SPIN)}, cycles=200)
expect([d for _, _, d in b.stores()], [0, 1], "slti of negatives")
""")

seed("store-misaligned-cause", "P08",
     [(MC, "    alu_op => add, latch_adr => 1, except_ctl => latch_store_adr, mem_sel => hword, \\",
       "    alu_op => add, latch_adr => 1, except_ctl => latch_load_adr, mem_sel => hword, \\")],
     "a misaligned sh",
     "mcause says load-address-misaligned",
     """
b = run({0: flat(SETUP, sh(5, 0, 0x711), SPIN), H: SKIP}, cycles=300)
expect(b.stores(), [(0x700, 15, 6), (0x704, 15, 8)], "misaligned sh trap")
""")

seed("jalr-misaligned", "P08",
     [(MC, "      latch_a => 1, latch_b => 1, a_src => four, b_src => pc, except_ctl => latch_jal, \\\n        jmp_type => direct, cond_test => exception, target => save_pc;",
       "      latch_a => 1, latch_b => 1, a_src => four, b_src => pc, except_ctl => latch_jal;")],
     "jalr to an address with bit 1 set",
     "the jump goes to the rounded-down address instead of trapping",
     """
b = run({0: flat(SETUP, addi(5, 0, 0x42), jalr(6, 5, 0)), 0x40: [SPIN], H: flat(SKIP[:4], SPIN)}, cycles=300)
expect(b.stores(), [(0x700, 15, 0), (0x704, 15, 12)], "misaligned jalr trap")
""")

seed("trap-mpie", "P09",
     [(DP, "                mstatus.mpie.eq(mstatus.mie),\n                mstatus.mie.eq(0)\n",
       "                mstatus.mpie.eq(mstatus.mie | mstatus.mpie),\n                mstatus.mie.eq(0)\n")],
     "a synchronous exception taken with MIE=0 and MPIE=1 (e.g. inside a handler after a previous mret)",
     "interrupts come back enabled after mret although they were disabled when the exception was taken",
     """
b = run({0: flat(SETUP, addi(5, 0, 0x80), csrrw(0, MSTATUS, 5), ECALL, csrrs(6, MSTATUS, 0), sw(6, 0, 0x710), SPIN), H: SKIP}, cycles=400)
expect(b.stores()[2:], [(0x710, 15, 0x1880)], "mstatus after ecall/mret with MIE=0")
""")
