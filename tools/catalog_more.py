RV = [("retirement and trace registers", S + "formal.py: FormalTop.elaborate"),
      ("exception and decode taps", S + "top.py, " + S + "decode.py"), MC]
RVNOTE = ("As for the plain core, over the netlist of FormalTop: the trace "
          "port at each acceptance edge is compared with the same netlist's "
          "own program counter, registers, CSR views and bus transfers. "
          "mip rdata (sampled input) and mstatus rdata of MRET and of traps "
          "are not compared; CSR wdata is compared when the instruction "
          "writes the CSR.")
RVWHY = ("The formal harness is exercised only by external tools that are "
         "not part of the test suite; ")
add("P26", "RVFI reports every retirement once, in order, with its PC chain",
    "On the trace port of FormalTop, valid is high for exactly one clock per "
    "retired instruction (trapped ones and interrupt entries included) and "
    "never otherwise, order increases by one each time, insn is the fetched "
    "word, pc_rdata its address and pc_wdata the address of the next "
    "instruction fetched; trap is set exactly for instructions that did not "
    "complete, and intr marks the first instruction of a handler.",
    ["programs", "schedules"], "all instruction words, states, acknowledgement "
    "delays and interrupt arrivals",
    RVWHY + "RVFI valid/pc are compared on a few programs at most.",
    ["formal.py", "top.py", "decode.py", "microcode.asm"], RV, note=RVNOTE,
    observe=["rvfi port of FormalTop"])
add("P27", "RVFI reports the registers an instruction read and wrote",
    "At retirement rs1_addr, rs2_addr, rs1_rdata and rs2_rdata are the "
    "source registers of the instruction and their values before it; rd_addr "
    "and rd_wdata are the register it wrote and the new value, both zero if it "
    "wrote none, x0, or trapped.",
    ["programs", "schedules"], "all instruction words, register contents, "
    "delays and interrupt arrivals",
    RVWHY + "operands and stalls are sampled.",
    ["formal.py", "decode.py", "top.py"], RV, note=RVNOTE,
    observe=["rvfi port of FormalTop"])
add("P28", "RVFI reports exactly the data memory access of an instruction",
    "At retirement mem_rmask/mem_wmask are the byte lanes the instruction read "
    "or wrote (zero if it made no data access), mem_addr is the word address "
    "and mem_rdata/mem_wdata the data transferred on the bus.",
    ["programs", "schedules"], "all instruction words, addresses, data and "
    "delays", RVWHY + "addresses and delays are sampled.",
    ["formal.py", "top.py"], RV, note=RVNOTE,
    observe=["rvfi port of FormalTop"])
add("P29", "RVFI reports CSR values before and after an instruction",
    "At retirement of a completed instruction the rdata of each implemented "
    "CSR is its value before the instruction and, if the instruction writes "
    "the CSR, wdata is the value written; read-only-zero CSRs report rdata "
    "zero and the value the instruction attempted to write; masks are all "
    "ones, except that the written half of a 64-bit counter alone is masked "
    "in.",
    ["programs", "schedules"], "all CSR instructions and operands, all states",
    RVWHY + "operands and previous CSR contents are sampled.",
    ["formal.py", "csr.py", "decode.py"], RV, note=RVNOTE,
    observe=["rvfi port of FormalTop"])
add("P30", "RVFI instrumentation does not change the processor",
    "FormalTop behaves on its bus exactly as Top for all inputs and states: "
    "the same microcode, registers, next states, bus outputs and register "
    "file accesses, whatever the instrumentation observes.",
    ["inputs", "states"], "all microwords, register states and inputs",
    "No test compares the two; the instrumented core is what gets verified "
    "externally while the plain one is what gets built.",
    ["formal.py", "top.py", "decode.py", "datapath.py"],
    [("formal guards", S + "top.py, " + S + "decode.py, " + S
      + "datapath.py")],
    technique="one-step equivalence of two netlists by canonical terms over "
    "shared unknowns, registers paired by name",
    note="Every microword (reachable or not), every register state and "
    "input. Trusts Amaranth's elaboration and that paired registers keep "
    "their hierarchical names.",
    observe=["Wishbone bus of FormalTop and of Top"])
add("P31", "Fully synchronous: one clock edge, no input-to-output path",
    "Every storage element is clocked by the rising edge of the one clock, "
    "with synchronous reset only; every Wishbone output is a function of "
    "registered state, so no input (acknowledge, read data, interrupt, reset) "
    "can change an output within a clock cycle.",
    ["schedules", "inputs"], "all input waveforms within a clock cycle",
    "Cycle-based simulation samples outputs after settling and cannot tell a "
    "combinational path from a registered one.",
    ["top.py", "datapath.py", "align.py", "control.py"],
    [("registered bus outputs", S + "top.py: Top.elaborate"),
     ("address and data latches", S + "align.py")],
    technique="netlist rules and backward combinational cones",
    note="Every storage cell and every bus output bit of the elaborated "
    "core; a structural path is reported only if a reachable microword "
    "leaves it open.", observe=["Wishbone bus of the core"])
STEP = ("one-step comparison, by canonical terms, of the elaborated netlist "
        "with the documented effect of each microcode field value")
STEPNOTE = ("One clock step per combination of the field values concerned; "
            "all other microcode fields, all registers and all inputs are "
            "unknowns, so reachable and unreachable microwords are covered "
            "alike. Trusts Amaranth's elaboration. Undocumented encodings of a "
            "field are not constrained.")
STEPWHY = ("Users may supply their own microcode (UCodeROM's main_file), so "
           "every microword counts; the shipped microcode, and with it every "
           "simulated program, uses only some combinations of field values. ")
UF = ("field values", S + "ucodefields.py")
STEPOVER = "every microword, register content and input"
add("P32", "The microcode ROM holds and decodes what its source declares",
    "For the shipped microcode and any other source UCodeROM accepts, the "
    "ROM contents are the assembled words, and every field of the record is "
    "exactly the bits the source's fields directive declares (origin and "
    "width), whatever the order of the fields, gaps between them, ROM depth "
    "or word width; fields use the Amaranth shape given for them. The hex "
    "and field definition files it writes on request, each whether or not the "
    "other is requested, hold exactly these words and fields, and it writes "
    "no other file.",
    ["inputs"], "the shipped source and all field layouts",
    "The one layout test has one gap and a handful of fields; a field read "
    "from the wrong bits shows only with particular layouts.",
    ["ucoderom.py", "microcode.asm"],
    [("layout construction", S + "ucoderom.py: UCodeROM"), MC],
    technique="translation validation of the ROM netlist against the "
    "independently assembled source; systematic family of layouts, each "
    "elaborated and compared at netlist level; the requested files parsed back",
    level="translation_validation",
    note="The shipped source is covered completely. Other sources are "
    "covered by a systematic family (field kinds, widths, orders, gaps, holes, "
    "depths), not for all sources.", observe=["UCodeROM.fields"])
add("P33", "Microcode that disagrees with its field map is refused",
    "Constructing UCodeROM with a field_map raises ValueError if the source "
    "declares a field the map lacks, a width, kind or enumerator that "
    "differs from the mapped type, or if the map names something the source "
    "does not have; a map that agrees is accepted.",
    ["inputs"], "all single disagreements between source and map",
    "Tests build one agreeing and few disagreeing pairs.",
    ["ucoderom.py", "ucodefields.py"],
    [("consistency checks", S + "ucoderom.py: UCodeROM")],
    technique="compile-fail witnesses generated for every field and kind of "
    "disagreement", level="other",
    note="Every field of the shipped source times every kind of "
    "disagreement; combinations of disagreements are not enumerated.",
    observe=["exceptions of the UCodeROM constructor"])
add("P34", "Every microword selects its documented successor",
    "The next microcode address is: the following one for CONT; for DIRECT "
    "the target if the test holds, else the following one; for MAP the target "
    "if the test holds, else the address the decoder requested; for "
    "DIRECT_ZERO the target if the test holds, else zero. The test is the "
    "selected condition (pending exception, ALU output zero, memory "
    "acknowledge, true), inverted if invert_test is set; 'following' is one "
    "past the address executed before.",
    ["inputs", "states"], STEPOVER,
    STEPWHY + "Only the jump and condition pairs in use are run.",
    ["control.py", "ucodefields.py"],
    [("Sequencer", S + "control.py: Sequencer"),
     ("condition select", S + "control.py: Control"), UF], technique=STEP,
    note=STEPNOTE, observe=["microcode address"])
add("P35", "The ALU computes the documented function of its inputs",
    "One clock after an operation is selected the ALU output is A+B, A-B, "
    "A&B, A|B, A^B, A<B unsigned (0 or 1), or A shifted by one place (left, "
    "logical right, arithmetic right), after optionally inverting both sign "
    "bits of the inputs and before optionally inverting or clearing bit 0 of "
    "the result, in every combination; the zero flag is set exactly when "
    "the output is zero. This holds for every width the ALU is built with.",
    ["inputs", "states"], STEPOVER,
    STEPWHY + "Operand values are sampled, and most modifier combinations "
    "never run.", ["alu.py", "ucodefields.py"],
    [("ALU", S + "alu.py: ALU"), UF], technique=STEP, note=STEPNOTE
    + " Widths: 32 in the core; the component alone at ten widths from 1 to "
    "64 (quick) or all of them (thorough); larger widths are not covered.",
    observe=["ALU.o"])
add("P36", "ALU inputs and program counter load what the microword selects",
    "ALU input A or B changes only when its latch bit is set and then takes "
    "the selected source: register read data, immediate, ALU output, the "
    "constants 0, 4, -1 and 31 (A); register read data, PC, immediate, 1, "
    "aligned and extended read data, CSR immediate, CSR data, exception cause "
    "(B). The program counter holds, advances by one word, or takes the ALU "
    "output, as selected.",
    ["inputs", "states"], STEPOVER,
    STEPWHY + "Several source and latch pairs never run.",
    ["alu.py", "align.py", "datapath.py", "top.py", "ucodefields.py"],
    [("source multiplexers", S + "alu.py: ASrcMux, BSrcMux"),
     ("ReadDataAlign", S + "align.py: ReadDataAlign"),
     ("ProgramCounter", S + "datapath.py: ProgramCounter"), UF],
    technique=STEP, note=STEPNOTE, observe=["ALU inputs, PC register"])
add("P37", "Register and CSR accesses do what the microword selects",
    "A register read or write happens exactly when requested, at the register "
    "the select fields name (rs1 of the arriving word during fetch), a "
    "register written and read in one cycle yields the new value, and writes "
    "to x0 are dropped unless explicitly allowed, all others never. CSR "
    "reads and writes address the CSR named by the instruction or by the "
    "microcode target; MSTATUS, MIE and MIP reads show the live fields, MTVEC "
    "and MEPC are stored word aligned, MSTATUS and MIE keep only their "
    "implemented bits, and entering or leaving an exception stacks or "
    "unstacks the interrupt enable, taking precedence over a write.",
    ["inputs", "states"], STEPOVER,
    STEPWHY + "Write enables and addresses are observable only through later "
    "reads of the same location.",
    ["datapath.py", "top.py", "ucodefields.py"],
    [("RegFile", S + "datapath.py: RegFile"),
     ("CSRFile", S + "datapath.py: CSRFile"),
     ("operand select", S + "top.py: Top.elaborate"), UF], technique=STEP,
    note=STEPNOTE, observe=["register memory ports, CSR registers"])
add("P38", "Memory fields drive the bus and data alignment as documented",
    "CYC and STB equal mem_req and WE equals write_mem; a fetch drives the "
    "PC with all byte lanes, a data access the latched address with exactly "
    "the lanes of its size and offset; store data appears on the selected "
    "lanes; address and data latches load the ALU output only when their "
    "latch bits are set.",
    ["inputs", "states"], STEPOVER,
    STEPWHY + "Sizes, offsets and latch timing combine in few ways there.",
    ["align.py", "top.py", "ucodefields.py"],
    [("alignment", S + "align.py: AddressAlign, WriteDataAlign"),
     ("bus", S + "top.py: Top.elaborate"), UF], technique=STEP,
    note=STEPNOTE, observe=["Wishbone bus"])
add("P39", "Exception control tests and records what the microword selects",
    "An exception is reported, and its cause recorded, exactly for the "
    "selected check: a decoder exception or enabled pending interrupt (the "
    "interrupt wins), a store or load address misaligned for the access "
    "size (byte accesses never), or a jump target misaligned; otherwise "
    "nothing is reported and the recorded cause does not change.",
    ["inputs", "states"], STEPOVER,
    STEPWHY + "Simultaneous events and unusual sizes never occur there.",
    ["exception.py", "ucodefields.py"],
    [("ExceptionRouter", S + "exception.py: ExceptionRouter"), UF],
    technique=STEP, note=STEPNOTE,
    observe=["ExceptionRouter.out"])
add("P40", "Decoded operands are captured once and then held",
    "When, and only when, a fetched word is acknowledged, the decoder captures "
    "its rs1, rs2 and rd numbers and the sign-extended immediate of its "
    "format (I, S, B, U or J); until the next acknowledged fetch they do not "
    "change, whatever the bus carries.",
    ["inputs", "schedules"], "every instruction word, bus value and microword",
    "The bus is driven with nothing but the tested instruction, and held "
    "while it runs.", ["decode.py", "insn.py"],
    [("capture", S + "decode.py: Decode"),
     ("ImmediateGenerator", S + "decode.py: ImmediateGenerator"),
     ("formats", S + "insn.py: Insn")], technique=STEP, note=STEPNOTE,
    observe=["Decode outputs"])
add("P41", "The generator writes the chosen design to the chosen place",
    "Every run of the Verilog generator that completes has written the "
    "Verilog text exactly once: of FormalTop if -f was given and of Top "
    "otherwise, with the module named as given by -n or else sentinel, to "
    "the file named by -o (opened for writing) or, without -o or with -o -, "
    "to standard output; without any argument Top goes to standard output. "
    "An output file it opened is closed however the run ends, also when "
    "generation fails, and standard output is never closed.",
    ["inputs", "crash points"], "all combinations of options and every point "
    "at which a call can fail",
    "Tests of the generator need an installed Yosys and sample a few option "
    "combinations; none makes it fail half way.", ["gen.py"],
    [("entry points", S + "gen.py: generate, _main"),
     ("output file", S + "gen.py: _file_or_stdout"),
     ("options", S + "gen.py: _generate_args")],
    technique="path-sensitive typestate analysis of the syntax tree with an "
    "error edge at every call",
    note="Every call is assumed to be able to fail, except closing a file; "
    "what Amaranth's Verilog back end produces is not examined.",
    observe=["output file, standard output, exit of the generator"])
add("P42", "Declared encodings and instruction views match the specification",
    "The CSR addresses, privilege quadrants, cause codes, CSR field "
    "layouts, major opcodes and fixed instruction words that the package "
    "declares are those of the RISC-V specification, and for every "
    "instruction word each part of the instruction view (opcode, register "
    "numbers, functs, I/S/B/U/J immediates, CSR address, quadrant and access "
    "mode) yields the bits the specification assigns to it.",
    ["inputs"], "every instruction word; every declared name",
    "Most names and views are used by no simulated program.",
    ["csr.py", "insn.py"],
    [("CSR tables", S + "csr.py: MachineAddr, MCause, MStatus, MTVec, MIP, "
      "MIE"), ("instruction view", S + "insn.py: Insn")],
    technique="comparison of the elaborated instruction view, by canonical "
    "terms, and of the declared tables with the specification",
    note="Names the specification's machine-mode table does not have are not "
    "constrained.", observe=["package attributes", "Insn slices"])
add("P43", "The generated modules have the documented ports",
    "Top has exactly the documented ports: clk, rst, irq and a Wishbone "
    "classic master with 30 address, 32 data and 4 select lines; FormalTop "
    "has the same and every RVFI port of the documented name, direction and "
    "width (32-bit core, 64-bit counters), so that the wrapper that "
    "instantiates it connects to ports that exist and leaves no input open. "
    "No bus output is stuck at a constant.",
    ["inputs"], "every port and every bit of it",
    "The documentation test prints one signature; names, widths and the "
    "wrapper meet only when external tools read the generated Verilog.",
    ["top.py", "formal.py"],
    [("signatures", S + "top.py: Top.__init__, " + S + "formal.py: "
      "FormalTop.__init__"),
     ("instance", "tests/formal/wrapper.sv: rvfi_wrapper")],
    technique="comparison of the elaborated port table with the documented "
    "one and with the wrapper's connection list",
    note="The Wishbone signature comes from a stand-in for amaranth_soc.",
    observe=["ports of the generated module"])
SOCF = ["examples/attosoc.py"]
SOCN = ("amaranth_soc is not installed: its interfaces are replaced by "
        "declarations, its bus decoder and CSR bridge are not examined (a CSR "
        "access is the strobes the bridge gives), only the address map they "
        "build is.")
SOCT = ("two-cycle transfer functions of the elaborated component compared, "
        "as canonical terms, with the documented effect of an access")
SOCW = ("The example SoC has no tests at all; ")
A = "examples/attosoc.py: "
add("P44", "SoC peripherals answer each access once, with the right register",
    "Every Wishbone peripheral of the example SoC acknowledges a request in "
    "the following clock, exactly once, and never otherwise; its "
    "acknowledgement and read data are registered. The LED, GPIO and output "
    "enable registers hold the value last written to them and change only "
    "on a write to their own address with the byte selected; the GPIO "
    "register reads the pins.",
    ["inputs", "schedules"], "all addresses, data, selects and states",
    SOCW + "accesses at other addresses or back to back show most mistakes.",
    SOCF, [("handshake", A + "WBMemory, WBLeds, WBTimer, WBSerial"),
           ("registers", A + "WBLeds, CSRLeds")],
    technique=SOCT, note=SOCN, observe=["peripheral bus and pins"])
add("P45", "The SoC memory reads and writes exactly the selected bytes",
    "A write access stores the bus data in exactly the selected bytes of the "
    "addressed word by the time it is acknowledged, and in no other; a read "
    "access returns the addressed word with its acknowledgement; without a "
    "request nothing is written. The memory has the requested size.",
    ["inputs", "states"], "all addresses, data, selects; several sizes",
    SOCW + "partial writes at particular addresses.",
    SOCF, [("memory", A + "WBMemory")], technique=SOCT, note=SOCN,
    observe=["memory bus"])
add("P46", "No peripheral event is lost to a racing register access",
    "The timer's flag and the serial port's receive and transmit flags are "
    "cleared only by a read of the interrupt register that returns them, and "
    "an event that coincides with an access still sets its flag; the "
    "interrupt line is the OR of the flags and the timer counts every clock. "
    "A received byte is consumed only "
    "by a read that returns it, and a byte written to the data register is "
    "handed to the transmitter unchanged; nothing is sent or consumed "
    "otherwise.",
    ["schedules", "inputs", "histories"], "an event in any clock of an access, "
    "for any state",
    SOCW + "the event must fall into one particular clock of the access.",
    SOCF, [("timers", A + "WBTimer, CSRTimer"),
           ("serial ports", A + "WBSerial, CSRSerial")],
    technique=SOCT, note=SOCN, observe=["interrupt line", "register reads"])
add("P47", "The UART frames and samples bytes correctly",
    "A byte handed to the transmitter is sent as a start bit, its bits least "
    "significant first and a stop bit, each for exactly divisor clocks, on a "
    "line that is high otherwise; the receiver reports a byte during its stop "
    "bit, each data bit being a sample from the middle half of its bit time, "
    "keeps it until acknowledged whatever the line does, and reports a start "
    "bit that arrives before as overflow.",
    ["inputs", "schedules"], "all bytes and line waveforms; several divisors "
    "(4 to 1250)",
    SOCW + "divisors other than 1250 and line activity while a byte is "
    "pending are not met in a demonstration.",
    SOCF, [("UART", A + "UART")],
    technique="abstract interpretation of whole frames with symbolic data "
    "and line, inductive rules for retention",
    level="exploration", note=SOCN, observe=["tx and rx lines", "UART handshake"])
add("P48", "Firmware and SoC agree on the address map and reset state",
    "The base addresses and register offsets the example firmware uses, for "
    "either peripheral bus, are those at which the SoC maps the registers; "
    "program memory starts at address 0 and is at least as large as the "
    "linker region; the processor's interrupt line is the OR of timer and "
    "serial port, and its bus is the decoder's. Out of reset the serial port "
    "interrupts exactly with Wishbone peripherals, which is how the firmware "
    "tells them apart.",
    ["inputs", "histories"], "both bus variants, every register accessor",
    "Hardware and firmware are built by different tools and meet only on a "
    "board.",
    SOCF + ["sentinel-rt/examples/attosoc.rs", "sentinel-rt/examples/device.x"],
    [("address map", A + "AttoSoC.elaborate"),
     ("accessors", "sentinel-rt/examples/attosoc.rs: get_bases"),
     ("reset state", A + "WBSerial, CSRSerial")],
    technique="cross-language comparison of the firmware's constants with the "
    "address map and reset state of the elaborated SoC",
    level="translation_validation", note=SOCN + " The stand-in assigns "
    "addresses as amaranth_soc documents.",
    observe=["address map", "interrupt line after reset"])
add("P49", "The development tasks refer only to what exists and depend on "
    "what they read",
    "Every task of dodo.py, every pdm script and every command README.md and "
    "doc/ tell the user to type can be run: its file "
    "dependencies exist or are another task's targets, its command "
    "placeholders can be filled, and the tasks, scripts, Python callables, "
    "dependency groups and command line options it names exist. Every task that compiles a source "
    "of the processor depends on that source, so a change is never masked by "
    "a stale result.",
    ["inputs"], "every task, script, command and reference",
    "No test runs a task, and most need tools that are not installed.",
    ["dodo.py", "pyproject.toml"],
    [("tasks", "dodo.py: task_*"), ("scripts", "pyproject.toml: "
                                    "tool.pdm.scripts")],
    technique="constant propagation over the syntax tree of the task file "
    "and reference resolution", level="other",
    note="Calls into libraries are abstract values; what external tools do "
    "with valid options is not examined.",
    observe=["task definitions"])
add("P50", "Every configured formal check is run, and passes only if it passed",
    "Each check that tests/formal/checks.cfg configures is run by a task and "
    "its status reported, no task runs a check that is not configured, and a "
    "check is reported as PASS exactly if the tool's status is PASS (not for "
    "FAIL, ERROR, UNKNOWN or TIMEOUT).",
    ["inputs", "faults"], "every configured check, every status",
    "No test reads the status report; errors of the external tool are rare.",
    ["dodo.py", "tests/formal/checks.cfg"],
    [("list", "dodo.py: SBY_TESTS"), ("report", "dodo.py: echo_sby_status")],
    technique="constant propagation over the syntax tree, abstract "
    "interpretation of the reporting function per status word", level="other",
    note="Names of the generated checks follow riscv-formal's genchecks.py.",
    observe=["task definitions", "status report"])
add("P51", "Building one design leaves nothing behind that another can see",
    "Constructing, elaborating or generating a component of the package "
    "changes no object that outlives it: no module or class variable "
    "(UCodeROM.field_map in particular), no default value, no argument of the "
    "constructor, no state of another module; and no Signal, Memory or "
    "component is held by a class, a module, a default value or a cache. What "
    "is built depends on the arguments and sources only, not on time, chance, "
    "the environment, or the order of a set of strings. So any number of "
    "cores, in any order, with any microcode, are what each would be alone, "
    "and building again gives the same design.",
    ["inputs", "histories"], "every function of the package, every order of "
    "building designs in one process",
    "Tests build one or few designs per process, in a fixed order, with the "
    "default microcode.",
    ["ucoderom.py", "control.py", "top.py", "formal.py", "gen.py"],
    [("field map and ROM contents", S + "ucoderom.py: UCodeROM"),
     ("submodules", S + "top.py: Top.__init__, " + S + "control.py: "
      "Control.__init__")],
    technique="interprocedural may-alias and effect analysis of the package's "
    "syntax trees", level="other",
    note="Library calls are taken to change only the objects they are called "
    "on; a memo table is reported whatever its key.",
    observe=["designs built one after the other in one process"])
add("P52", "The package is complete: imports, names and files exist wherever "
    "it is installed",
    "With only the declared dependencies installed, every module of the "
    "package can be imported, whichever is imported first; every import at "
    "any point in the code, every name and every enumeration member it uses "
    "exists; and every file it locates by itself (the default microcode) "
    "exists, lies inside the package, is not excluded from the built package "
    "and is found whatever the current directory.",
    ["inputs", "schedules"], "every module as the first import, every name on "
    "every path of the code",
    "The tests run in the development tree with every optional dependency "
    "and import the modules in one order; a name on an error path or an "
    "optional path is looked up only when that path runs.",
    ["ucoderom.py", "gen.py", "__init__.py", "pyproject.toml"],
    [("default microcode", S + "ucoderom.py: UCodeROM.main_microcode_file"),
     ("imports", S + "*.py"), ("dependencies", "pyproject.toml: project")],
    technique="name and import resolution over the syntax trees, abstract "
    "replay of the import order, constant propagation of file paths",
    level="other",
    note="Attributes of instances are left to the other properties, which "
    "elaborate the components.",
    observe=["import of each module", "files opened"])
