"""Writes properties.jsonl and MANIFEST.json from one table."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/sentinel/"
DF = "gated value-numbering dataflow over the micro-control-flow graph of the netlist IR"
BASE_WHY = ("The simulation tests run fixed programs with fixed operands and "
            "two bus delays; ")
PROPS = []


def add(pid, title, statement, over, text, why, files, mech, technique=DF,
        level="proof", note=None, state=(), observe=()):
    over = list(dict.fromkeys({
        "states": "histories", "crash points": "crash_points",
        "faults": "fault_sequences"}.get(x, x) for x in over))
    PROPS.append(dict(
        rec=dict(id=pid, title=title, statement=statement,
                 quantifier=dict(over=over, text=text), why_tests_cant=why,
                 anchors=dict(files=[S + f if not f.startswith(("doc/", "examples/", "sentinel-rt/", "tests/", "dodo.py", "pyproject.toml")) else f for f in files],
                              state=[dict(name=n, meaning=m, where=w)
                                     for n, m, w in state],
                              mechanism=[dict(name=n, where=w)
                                         for n, w in mech],
                              observe_at=list(observe) or [
                                  "Wishbone bus of the core",
                                  "registers and CSRs as read by later "
                                  "instructions"],
                              hook_needed=None)),
        technique=technique, level=level, note=note))


NOTE = ("Every instruction word of the selected classes, every operand, "
        "register and CSR content, every acknowledgement delay and interrupt "
        "arrival; loops closed by fixpoint. Trusts Amaranth's elaboration, "
        "the microcode assembler and the oracle; assumes a slave acknowledges "
        "only requests pending since the previous cycle.")
MC = ("microprogram", S + "microcode.asm")
INS = "instruction words, register contents, memory contents"

add("P01", "Undefined words trap as illegal, defined words never do",
    "Every 32-bit word that is not a defined RV32I, Zicsr or supported "
    "privileged instruction raises an illegal-instruction exception with no "
    "other effect on registers, memory or CSRs. No defined instruction is ever "
    "reported as illegal or otherwise traps without a cause of its own.",
    ["inputs", "programs"], "all 2^32 instruction words in any state",
    BASE_WHY + "a handful of illegal words are tried.",
    ["decode.py", "exception.py", "microcode.asm"],
    [("legality check", S + "decode.py: Decode.elaborate"),
     ("exception routing", S + "exception.py: ExceptionRouter"), MC])
add("P02", "Integer computation instructions compute the RV32I result",
    "ADD(I), SUB, SLT(I), SLT(I)U, XOR(I), OR(I), AND(I), LUI and AUIPC write "
    "the RV32I-defined result to rd, advance the PC by four, and change "
    "nothing else, for all operands and register choices.",
    ["inputs", "programs"], "all encodings of the instructions, " + INS,
    BASE_WHY + "operand and register combinations are sampled.",
    ["alu.py", "datapath.py", "decode.py", "microcode.asm"],
    [("ALU", S + "alu.py: ALU"), ("operand selection", S + "datapath.py, "
      + S + "alu.py: ASrcMux, BSrcMux"), MC])
add("P03", "Shift instructions shift by the low five bits, for every amount",
    "SLL(I), SRL(I) and SRA(I) write rs1 shifted by the immediate or by the "
    "low five bits of rs2 (zero- or sign-filled) to rd, advance the PC by four "
    "and change nothing else, for every shift amount 0-31, operand and "
    "register choice (rd may equal a source).",
    ["inputs", "programs"], "all 32 amounts of all six shifts, all operands",
    BASE_WHY + "some amounts and operands are sampled.",
    ["alu.py", "decode.py", "microcode.asm"],
    [("shift loop", S + "microcode.asm"), ("one-bit shifters",
      S + "alu.py: ALU")])
add("P04", "Conditional branches compare and redirect correctly",
    "BEQ, BNE, BLT, BGE, BLTU and BGEU go to PC plus the sign-extended "
    "offset exactly when the signed or unsigned comparison of rs1 and rs2 "
    "holds, to the following instruction otherwise, and change nothing else.",
    ["inputs", "programs"], "all operands, offsets and PCs",
    BASE_WHY + "comparisons and offsets are sampled.",
    ["alu.py", "decode.py", "control.py", "microcode.asm"],
    [("branch routines", S + "microcode.asm"), ("condition test",
      S + "control.py: Sequencer")])
add("P05", "Jumps link and redirect correctly",
    "JAL and JALR write the address of the following instruction to rd and "
    "continue at PC+offset, respectively at (rs1+offset) with bit 0 cleared, "
    "using the value rs1 had before rd is written, and change nothing else.",
    ["inputs", "programs"], "all offsets, PCs, registers (rd = rs1 included)",
    BASE_WHY + "few jump targets occur.",
    ["decode.py", "datapath.py", "microcode.asm"],
    [("jump routines", S + "microcode.asm")])
add("P06", "Loads return the addressed bytes, correctly extended",
    "LB, LH, LW, LBU and LHU read exactly the addressed bytes from the bus "
    "word acknowledged for them, sign- or zero-extend them into rd, advance "
    "the PC by four and change nothing else, for every address, data word and "
    "wait time.",
    ["inputs", "schedules"], "all addresses, data, acknowledgement delays",
    BASE_WHY + "addresses, data and delays are sampled.",
    ["align.py", "alu.py", "microcode.asm"],
    [("read alignment", S + "align.py: ReadDataAlign"), MC])
add("P07", "Stores write exactly the addressed bytes",
    "SB, SH and SW perform one bus write whose address, byte selects and "
    "selected data lanes store exactly the low bytes of rs2 at rs1+offset, "
    "advance the PC by four and change no register or CSR.",
    ["inputs", "schedules"], "all addresses, data, acknowledgement delays",
    BASE_WHY + "addresses, data and delays are sampled.",
    ["align.py", "microcode.asm"],
    [("write alignment", S + "align.py: WriteDataAlign, AddressAlign"), MC])
add("P08", "Misaligned accesses and targets trap, aligned ones never do",
    "A misaligned LH/LHU/LW, SH/SW, taken branch, JAL or JALR target raises "
    "the corresponding misaligned exception without any bus transaction, link "
    "write or other register change. Aligned ones, and branches not taken, "
    "never raise it.",
    ["inputs", "programs"], "all address and target values",
    BASE_WHY + "one misaligned case per kind is tried.",
    ["align.py", "exception.py", "microcode.asm"],
    [("misalignment detection", S + "exception.py: ExceptionRouter; "
      + S + "align.py: AddressAlign"), MC])
add("P09", "Synchronous exceptions are precise",
    "When an instruction raises an exception, MEPC becomes its own address, "
    "MCAUSE exactly the architectural code with interrupt bit 0, MPIE becomes "
    "MIE, MIE becomes 0, and execution continues at MTVEC. General registers, "
    "every other CSR and memory are unchanged.",
    ["inputs", "histories"], "every instruction word and state, including "
    "what earlier traps left in MCAUSE",
    BASE_WHY + "exceptions after interrupts and most causes with live "
    "registers are not tried.",
    ["exception.py", "csr.py", "microcode.asm"],
    [("trap entry routine", S + "microcode.asm: save_pc"),
     ("cause selection", S + "exception.py: ExceptionRouter")],
    state=[("mcause latch", "cause of the trap in progress",
            S + "exception.py")])
add("P10", "Interrupts are taken exactly when enabled, and precisely",
    "If the interrupt line is high when an instruction begins and MIE.MEIE "
    "and MSTATUS.MIE are set, that instruction has no effect and a trap is "
    "taken with MEPC its address, MCAUSE 0x8000000B, MPIE=MIE, MIE=0, "
    "continuing at MTVEC. If either enable is clear or the line is low, no "
    "interrupt is ever taken.",
    ["inputs", "schedules", "histories"],
    "every instruction, state and interrupt arrival cycle",
    BASE_WHY + "interrupts arrive at a few fixed cycles.",
    ["csr.py", "exception.py", "microcode.asm"],
    [("interrupt qualification", S + "exception.py: ExceptionRouter; "
      + S + "csr.py: CSRFile"), MC])
add("P11", "MRET restores the pre-trap context",
    "MRET continues at MEPC, sets MSTATUS.MIE to MPIE and MPIE to 1, and "
    "changes no other CSR, register or memory.",
    ["inputs"], "all MEPC, MSTATUS and register contents",
    BASE_WHY + "two MSTATUS values occur.",
    ["csr.py", "microcode.asm"],
    [("mret routine", S + "microcode.asm: mret"),
     ("mstatus stack", S + "csr.py: CSRFile")])
add("P12", "CSR instructions read, modify and write atomically",
    "CSRRW, CSRRS, CSRRC and their immediate forms return the old CSR value "
    "in rd and write, set or clear bits as defined, for MSTATUS, MIE, MTVEC, "
    "MSCRATCH, MEPC, MCAUSE and MIP. With a zero source specifier the set and "
    "clear forms write nothing; rd=x0, rd=rs1 and all operands behave as "
    "specified and nothing else changes.",
    ["inputs"], "all operands, CSR contents and register choices",
    BASE_WHY + "a sample of operands and registers is used.",
    ["csr.py", "decode.py", "datapath.py", "microcode.asm"],
    [("CSR routines", S + "microcode.asm"), ("CSR file",
      S + "csr.py: CSRFile; " + S + "datapath.py: DataPath")])
add("P13", "The CSR address space has the documented access rules",
    "The documented read-only-zero CSRs read as zero and ignore permitted "
    "writes; writing the read-only ID registers, and any access to an "
    "unimplemented CSR address, raises illegal instruction with no other "
    "effect. Accesses to implemented CSRs never do.",
    ["inputs"], "all 4096 CSR addresses x six instructions x operands",
    BASE_WHY + "a sample of addresses is used.",
    ["decode.py", "csr.py", "microcode.asm"],
    [("CSR attribute table", S + "decode.py: CSRAttributes"), MC])
add("P14", "CSR fields honour their documented WARL behaviour",
    "Only MSTATUS.MIE/MPIE (MPP reads 3), MIE.MEIE, MTVEC/MEPC bits 31-2 and "
    "all bits of MSCRATCH and MCAUSE are writable; every other bit always "
    "reads its fixed value and MIP cannot be written. Every writable bit "
    "holds what was written.",
    ["inputs", "histories"], "all written values and prior contents",
    BASE_WHY + "few bit patterns are written.",
    ["csr.py", "datapath.py", "microcode.asm"],
    [("field layout", S + "csr.py"), MC])
add("P15", "Only rd is ever written, and x0 stays zero",
    "No instruction, trap, interrupt or reset changes any general register "
    "other than the rd of a completing instruction that defines one, and x0 "
    "reads as zero after every history.",
    ["inputs", "histories"], "every instruction, regime and register number",
    BASE_WHY + "untouched registers are rarely compared.",
    ["datapath.py", "microcode.asm"],
    [("register file", S + "datapath.py: RegFile"), MC])
add("P16", "CSRs change only when architecture says so",
    "No instruction other than an explicit CSR write, MRET or trap entry "
    "changes the value any CSR reads back, and those change only the CSRs the "
    "specification names; all others keep their value across any history.",
    ["inputs", "histories"], "every instruction, regime and CSR",
    BASE_WHY + "CSR contents are checked only where a test reads them.",
    ["csr.py", "datapath.py", "microcode.asm"],
    [("CSR storage", S + "csr.py; " + S + "datapath.py"), MC])
add("P17", "FENCE and WFI are no-ops",
    "Every FENCE encoding and WFI complete without waiting for an event, "
    "advance the PC by four, and change no register, CSR or memory.",
    ["inputs"], "all FENCE encodings, all states",
    BASE_WHY + "one encoding each is run.",
    ["decode.py", "microcode.asm"],
    [("misc_mem and system routines", S + "microcode.asm")])
add("P18", "The Wishbone master obeys the classic handshake",
    "CYC and STB rise and fall together, an unacknowledged request is held "
    "with stable address, direction, byte selects and write data until "
    "acknowledged, and is dropped for at least one cycle after the "
    "acknowledgement. Nothing is requested between reset and the first fetch.",
    ["inputs", "schedules"], "every instruction, state and acknowledgement "
    "delay",
    BASE_WHY + "only fixed wait counts are simulated.",
    ["top.py", "align.py", "microcode.asm"],
    [("bus glue", S + "top.py: Top.elaborate"), MC],
    technique="request typestate on every edge of the micro-control-flow "
    "graph")
add("P19", "Each instruction is fetched from the architectural PC",
    "Every accepted instruction word comes from a single word read (all byte "
    "selects, no write) of the address the architecture defines as next after "
    "the previous instruction, trap or reset; it is decoded completely "
    "whatever was executing when it arrived.",
    ["inputs", "schedules", "histories"],
    "every instruction, regime and delay",
    BASE_WHY + "only PCs of the test programs occur.",
    ["datapath.py", "top.py", "decode.py", "microcode.asm"],
    [("program counter", S + "datapath.py: ProgramCounter"),
     ("fetch words", S + "microcode.asm: fetch, fast_epilog")])
add("P20", "Data bus traffic is exactly what the program asks for",
    "A load or store that does not trap performs exactly one data "
    "transaction with the specified address, direction, selects and data; "
    "every other instruction, trap and interrupt performs none.",
    ["inputs", "schedules"], "every instruction, regime and delay",
    BASE_WHY + "stray transactions of other instructions are not checked.",
    ["top.py", "align.py", "microcode.asm"],
    [("memory request field", S + "microcode.asm"), ("bus glue",
      S + "top.py")])
add("P21", "Only architectural state and acknowledged data influence results",
    "What an instruction writes, requests and continues with depends only on "
    "its encoding, the architectural state, the interrupt line and read data "
    "in acknowledged cycles: never on values earlier instructions left in "
    "internal registers or on bus data without an acknowledgement.",
    ["histories", "schedules"], "every instruction from every internal state",
    BASE_WHY + "the simulated memory drives data only when asked and tests "
    "run from few internal states.",
    ["alu.py", "datapath.py", "exception.py", "microcode.asm"],
    [("operand latches", S + "alu.py"), MC],
    technique="information-flow analysis on the dataflow result")
add("P22", "Reset always leads to a clean first fetch",
    "After at least one clock of reset, from any state, microinstruction or "
    "bus situation, the first bus request is a word fetch at address 0, made "
    "after a bounded number of cycles whatever the inputs do; at that fetch "
    "MSTATUS.MIE, MIE.MEIE and MCAUSE are zero and x0 is zero.",
    ["fault_sequences", "histories"], "reset in any cycle of any execution",
    "Tests reset a fresh core; reset in the middle of an instruction is tried "
    "at a few points only.",
    ["microcode.asm", "control.py", "top.py"],
    [("reset routine", S + "microcode.asm: origin 2"),
     ("sequencer reset", S + "control.py: Sequencer")],
    technique="ternary reset propagation and dataflow from every stale "
    "microword")
add("P23", "Every instruction completes; the core never hangs or panics",
    "Once memory acknowledges each request, every instruction word from every "
    "state reaches the next instruction fetch in a bounded number of cycles: "
    "no halt, no undefined microinstruction, no endless loop.",
    ["inputs", "histories"], "all instruction words and states",
    BASE_WHY + "unusual words and states are not reached.",
    ["microcode.asm", "decode.py", "control.py"],
    [("dispatch table", S + "decode.py: MappingROM"), MC],
    technique="reachability and cycle search on the micro-control-flow graph")
add("P24", "Instructions take the documented number of clock cycles",
    "With memory that acknowledges in the cycle after each request, each "
    "instruction takes exactly the number of clocks documented for it (shifts "
    "by amount, branches by outcome; for MRET and CSR operations the "
    "documented number is an upper bound), independent of other operand "
    "values; trap entry takes the documented time.",
    ["inputs", "programs"], "all operands and states",
    BASE_WHY + "cycle counts are not asserted for operand ranges.",
    ["microcode.asm", "doc/development/internals.md"],
    [("microcode paths", S + "microcode.asm")],
    technique="path-length analysis on the micro-control-flow graph")
add("P25", "ECALL and EBREAK trap to machine mode with their own causes",
    "ECALL raises cause 11 and EBREAK cause 3 with MEPC their own address, "
    "and neither changes any general register, memory or other CSR, whatever "
    "trap was taken before. No other SYSTEM instruction word reports one of "
    "these two causes.",
    ["inputs", "histories"], "all states, including after interrupts",
    BASE_WHY + "each is executed from one state.",
    ["decode.py", "exception.py", "microcode.asm"],
    [("exception control", S + "decode.py: ExceptionControl"), MC])

NA = []

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),
                       "catalog_more.py")).read()
     if os.path.exists(os.path.join(os.path.dirname(
         os.path.abspath(__file__)), "catalog_more.py")) else "")


def main():
    na = {p for p, _ in NA}
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(p["rec"]) + "\n")
    checks = []
    for p in PROPS:
        pid = p["rec"]["id"]
        if pid in na:
            continue
        checks.append(dict(
            property=pid, quick_cmd=f"python3 run.py {pid} --tier quick",
            thorough_cmd=f"python3 run.py {pid} --tier thorough",
            evidence_file=f"evidence/{pid}.json",
            technique=p["technique"], level=p["level"],
            level_note=p["note"] or NOTE))
    man = dict(version=1, setup_cmd="python3 run.py --setup",
               hooks=dict(guard="none", enable="no hooks are needed; the "
                          "checks read the design as it is"),
               checks=checks,
               not_applicable=[dict(property=p, reason=r) for p, r in NA],
               notes="All checks are static: they read the elaborated "
               "netlist IR, the assembled microcode and the syntax trees of "
               "/repo; nothing is simulated or executed.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
