#!/usr/bin/env python3
"""Broken and behaviour-preserving variants of the example SoC, its firmware
and the task file, for P43-P50: every bad one must be reported by the named
check, no good one by any.  Works on scratch copies."""
import os
import shutil
import subprocess
import sys
import tempfile

A = "examples/attosoc.py"
R = "sentinel-rt/examples/attosoc.rs"
D = "dodo.py"
T = "src/sentinel/top.py"
F = "src/sentinel/formal.py"
FIXES = [("""        with m.If(self.bus.stb & self.bus.cyc & ~self.bus.we):
            with m.If(self.bus.sel[0] == 1):
""", """        with m.If(self.bus.stb & self.bus.cyc & ~self.bus.we &
                  ~self.bus.ack):
            with m.If(self.bus.sel[0] == 1):
"""), ("""            with m.If(~self.bus.we):
                m.d.comb += self.serial.rx_ack.eq(1)
""", """            with m.If(~self.bus.we & ~self.bus.ack):
                m.d.comb += self.serial.rx_ack.eq(1)
""")]
LEDIF = ("        with m.If(self.bus.stb & self.bus.cyc & self.bus.ack & "
         "self.bus.we &\n                  (self.bus.adr[0:2] == 0) & "
         "self.bus.sel[0]):\n")
WBACK = """        ack_cond = self.bus.stb & self.bus.cyc & ~self.bus.ack

        with m.If(ack_cond):
            m.d.sync += self.bus.ack.eq(1)
        with m.Else():
            m.d.sync += self.bus.ack.eq(0)
"""
ACK = """        with m.If(self.bus.stb & self.bus.cyc & ~self.bus.ack):
            m.d.sync += self.bus.ack.eq(1)
        with m.Else():
            m.d.sync += self.bus.ack.eq(0)
"""
EDGE = """        # Don't accidentally miss an IRQ
        with m.If(self.serial.rx_rdy & ~rx_rdy_prev):
            m.d.sync += rx_rdy_irq.eq(1)
        with m.If(self.serial.tx_ack & ~tx_ack_prev):
            m.d.sync += tx_ack_irq.eq(1)

"""
BAD = {
    # P44
    "ack-twice": ("P44", A, [(WBACK, WBACK.replace(" & ~self.bus.ack", ""))]),
    "ack-nocyc": ("P44", A, [(WBACK, WBACK.replace(" & self.bus.cyc", ""))]),
    "ack-never-ends": ("P44", A, [(ACK, ACK.replace(
        "        with m.Else():\n            m.d.sync += self.bus.ack.eq(0)\n",
        ""))]),
    "led-nosel": ("P44", A, [(" & self.bus.sel[0]):\n            m.d.sync += "
                              "self.leds", "):\n            m.d.sync += "
                              "self.leds")]),
    "led-adr": ("P44", A, [("(self.bus.adr[0:2] == 0)",
                            "(self.bus.adr[0:1] == 0)")]),
    "gpio-i-o": ("P44", A, [("self.bus.dat_r[i].eq(self.gpio[i].i)",
                             "self.bus.dat_r[i].eq(self.gpio[i].o)")]),
    "oe-read": ("P44", A, [("self.bus.we &\n                  (self.bus.adr"
                            "[0:2] == 2)", "1 &\n                  (self.bus."
                            "adr[0:2] == 2)")]),
    "csr-oe": ("P44", A, [("self.oe_reg.f.oe.w_data[i]",
                           "self.inout_reg.f.inout.w_data[i]")]),
    "csr-half": ("P44", A, [("for i in range(8):\n                m.d.sync += "
                             "self.gpio[i].oe.eq(\n                    self.oe"
                             "_reg", "for i in range(7):\n                m.d."
                             "sync += self.gpio[i].oe.eq(\n                    "
                             "self.oe_reg")]),
    # P45
    "ram-gran": ("P45", A, [("write_port(granularity=8)",
                             "write_port(granularity=16)"),
                            ("w_port.en.eq(self.bus.sel)",
                             "w_port.en.eq(self.bus.sel[::2])")]),
    "ram-we": ("P45", A, [("with m.If(self.bus.stb & self.bus.cyc & self.bus."
                           "we):", "with m.If(self.bus.stb & self.bus.cyc):")]),
    "ram-cyc": ("P45", A, [("with m.If(self.bus.stb & self.bus.cyc & self.bus."
                            "we):", "with m.If(self.bus.stb & self.bus.we):")]),
    "ram-ren": ("P45", A, [("r_port.en.eq(self.bus.stb & self.bus.cyc & "
                            "~self.bus.we)", "r_port.en.eq(self.bus.stb & "
                            "self.bus.ack & ~self.bus.we)")]),
    "ram-adr": ("P45", A, [("w_port.addr.eq(self.bus.adr)",
                            "w_port.addr.eq(self.bus.adr[:6])")]),
    "ram-depth": ("P45", A, [("depth=self.num_bytes // 4",
                              "depth=self.num_bytes // 8")]),
    # P46
    "timer-noclear": ("P46", A, [("m.d.sync += prescalar[14].eq(0)",
                                  "m.d.sync += prescalar[13].eq(0)")]),
    "timer-write": ("P46", A, [("self.bus.cyc & ~self.bus.we &\n         "
                                "         ~self.bus.ack):\n            with m.If(self.bus.sel[0] == "
                                "1)", "self.bus.cyc & ~self.bus.ack):\n       "
                                "     with m.If(self.bus.sel[0] == 1)")]),
    "unrepaired-timer": ("P46", A, [FIXES[0][::-1]]),
    "timer-lost": ("P46", A, [("self.bus.cyc & ~self.bus.we &\n         "
                               "         ~self.bus.ack):\n            with m.If(self.bus.sel[0] == "
                               "1)", "self.bus.cyc & ~self.bus.we):\n         "
                               "   with m.If(self.bus.sel[0] == 1)")]),
    "csr-timer-always": ("P46", A, [("with m.If(self.irq_reg.f.irq.r_stb):\n"
                                     "            with m.If(self.irq):\n"
                                     "                m.d.sync += prescaler",
                                     "with m.If(self.irq):\n            with "
                                     "m.If(self.irq):\n                m.d."
                                     "sync += prescaler")]),
    "edge-first": ("P46", A, [(EDGE, ""),
                              ("        with m.If(self.bus.stb & self.bus.cyc "
                               "& self.bus.sel[0] &\n                  ~self."
                               "bus.adr[0]):", EDGE + "        with m.If(self."
                               "bus.stb & self.bus.cyc & self.bus.sel[0] &\n "
                               "                 ~self.bus.adr[0]):")]),
    "flags-swap": ("P46", A, [("self.bus.dat_r.eq(Cat(rx_rdy_irq, tx_ack_irq"
                               "))", "self.bus.dat_r.eq(Cat(tx_ack_irq, "
                               "rx_rdy_irq))")]),
    "csr-flags-swap": ("P46", A, [("self.irq_reg.f.irq.r_data.eq(Cat(rx_rdy_"
                                   "irq, tx_ack_irq))", "self.irq_reg.f.irq.r_"
                                   "data.eq(Cat(rx_rdy_irq, tx_ack_prev))")]),
    "irq-one": ("P46", A, [("self.irq.eq(rx_rdy_irq | tx_ack_irq)",
                            "self.irq.eq(rx_rdy_irq)")]),
    "rxack-late": ("P46", A, [("~self.bus.we & ~self.bus.ack):\n              "
                               "  m.d.comb += self.serial.rx_ack",
                               "~self.bus.we):\n                m.d.comb += "
                               "self.serial.rx_ack")]),
    "tx-always": ("P46", A, [("with m.If(self.bus.ack & self.bus.we):",
                              "with m.If(self.bus.ack):")]),
    "csr-tx-never": ("P46", A, [("with m.If(self.txrx_reg.f.txrx.w_stb):",
                                 "with m.If(self.txrx_reg.f.txrx.r_stb):")]),
    # P47
    "tx-len": ("P47", A, [("tx_count.eq(len(tx_shreg))",
                           "tx_count.eq(len(tx_shreg) - 1)")]),
    "tx-div": ("P47", A, [("                    tx_phase.eq(self.divisor - 1),"
                           "\n                ]\n        with m.Else",
                           "                    tx_phase.eq(self.divisor),"
                           "\n                ]\n        with m.Else")]),
    "tx-msb": ("P47", A, [("Cat(C(0, 1), self.tx_data, C(1, 1))",
                           "Cat(C(0, 1), self.tx_data[::-1], C(1, 1))")]),
    "rx-half": ("P47", A, [("rx_phase.eq(self.divisor // 2)",
                            "rx_phase.eq(self.divisor - 1)")]),
    "rx-overwrite": ("P47", A, [("with m.If(self.rx_ack | ~self.rx_rdy):",
                                 "with m.If(~self.rx_i):")]),
    "rx-noovf": ("P47", A, [("m.d.sync += self.rx_ovf.eq(1)",
                             "m.d.sync += self.rx_ovf.eq(0)")]),
    "rx-slice": ("P47", A, [("self.rx_data.eq(rx_shreg[1:-1])",
                             "self.rx_data.eq(rx_shreg[2:])")]),
    "rx-early": ("P47", A, [("with m.If(rx_count == 1):",
                             "with m.If(rx_count == 2):")]),
    # P48
    "fw-swap": ("P48", R, [("if mip::read().mext()", "if !mip::read().mext()")]),
    "soc-reset": ("P48", A, [("rx_rdy_prev = Signal(reset=1)",
                              "rx_rdy_prev = Signal()"),
                             ("tx_ack_prev = Signal(reset=1)",
                              "tx_ack_prev = Signal()")]),
    "soc-wb-reset": ("P48", A, [("        tx_ack_prev = Signal()\n",
                                 "        tx_ack_prev = Signal(reset=1)\n")]),
    "soc-irq": ("P48", A, [("self.timer.irq | self.serial.irq",
                            "self.timer.irq")]),
    "soc-order": ("P48", A, [("self.decoder.add(flipped(self.timer.bus), "
                              "sparse=True)", "self.decoder.add(flipped(self."
                              "serial.bus), sparse=True)"),
                             ("            m.submodules.serial = self.serial\n"
                              "            self.decoder.add(flipped(self."
                              "serial.bus), sparse=True)",
                              "            m.submodules.serial = self.serial\n"
                              "            self.decoder.add(flipped(self."
                              "timer.bus), sparse=True)")]),
    "soc-small": ("P48", A, [("AttoSoC(num_bytes=0x1000",
                              "AttoSoC(num_bytes=0x800")]),
    "csr-off": ("P48", A, [('builder.add("irq", self.irq_reg, offset=4)',
                            'builder.add("irq", self.irq_reg, offset=1)')]),
    # P43
    "port-width": ("P43", T, [('"irq": In(1)', '"irq": In(2)')]),
    # P49, P50
    "dep-typo": ("P49", D, [("sentinel/microcode.asm", "sentinel/mikrocode.asm")]),
    "dep-lost": ("P49", D, [('pyfiles + [Path("./src/sentinel/microcode.asm")]',
                             "pyfiles")]),
    "placeholder": ("P49", D, [('"name": "ucodefile"', '"name": "ucode"')]),
    "module-typo": ("P49", "pyproject.toml", [("sentinel.gen:generate",
                                               "sentinel.gen:generator")]),
    "option-typo": ("P49", "pyproject.toml", [("attosoc -b build-rust",
                                               "attosoc -B build-rust")]),
    "doc-option": ("P49", "doc/usage/quickstart.md", [("pdm gen -o", "pdm gen --out")]),
    "doc-group": ("P49", "README.md", [("-G yowasp", "-G yosys")]),
    "doc-script": ("P49", "pyproject.toml", [('use-local.', 'use-native.')]),
    "doc-module": ("P49", "doc/usage/reference.md", [("-m sentinel.gen", "-m sentinel.generate")]),
    "doc-task": ("P49", D, [("task__build_sail", "task__make_sail")]),
    "task-typo": ("P49", "pyproject.toml", [("doit ucode", "doit microcode")]),
    "check-lost": ("P50", D, [('"insn_jalr_ch0", ', "")]),
    "check-typo": ("P50", D, [('"insn_jalr_ch0"', '"insn_jalrr_ch0"')]),
    "sby-always": ("P50", D, [('if "PASS" in res', "if res")]),
    "sby-error": ("P50", D, [('if "PASS" in', 'if "FAIL" not in')]),
}
GOOD = {
    "ack-expr": (A, [(WBACK, "        m.d.sync += self.bus.ack.eq(self.bus."
                      "cyc & self.bus.stb & ~self.bus.ack)\n")]),
    "ack-all": (A, [(ACK, "        m.d.sync += self.bus.ack.eq(~self.bus.ack "
                     "& self.bus.stb & self.bus.cyc)\n")]),
    "led-early": (A, [(LEDIF, LEDIF.replace("self.bus.ack &",
                                            "~self.bus.ack &"))]),
    "gpio-cat": (A, [("                for i in range(8):\n                   "
                      " m.d.sync += self.gpio[i].o.eq(self.bus.dat_w[i])",
                      "                m.d.sync += Cat(p.o for p in self.gpio)"
                      ".eq(self.bus.dat_w)")]),
    "ram-mux": (A, [("        with m.If(self.bus.stb & self.bus.cyc & self."
                     "bus.we):\n            m.d.comb += w_port.en.eq(self.bus."
                     "sel)", "        from amaranth import Mux\n        m.d."
                     "comb += w_port.en.eq(Mux(self.bus.stb & self.bus.cyc & "
                     "self.bus.we, self.bus.sel, 0))")]),
    "ram-once": (A, [("self.bus.stb & self.bus.cyc & self.bus.we):\n          "
                      "  m.d.comb += w_port.en", "self.bus.stb & self.bus.cyc "
                      "& self.bus.we & ~self.bus.ack):\n            m.d.comb "
                      "+= w_port.en")]),
    "ram-always-read": (A, [("r_port.en.eq(self.bus.stb & self.bus.cyc & ~self"
                             ".bus.we)", "r_port.en.eq(~self.bus.ack)")]),
    "timer-if": (A, [("                with m.If(self.irq):\n                 "
                      "   m.d.sync += prescalar[14].eq(0)",
                      "                m.d.sync += prescalar[14].eq(prescalar["
                      "14] & 0 | (~prescalar[14] & (prescalar[:14] == 0x3fff)"
                      "))")]),
    "serial-expr": (A, [("            with m.If(~self.bus.we & ~self.bus.ack):"
                         "\n                m.d.comb += self.serial.rx_ack.eq("
                         "1)", "            m.d.comb += self.serial.rx_ack.eq("
                         "~(self.bus.we | self.bus.ack))")]),
    "tx-rename": (A, [("tx_phase", "baud"), ("tx_shreg", "out_reg")]),
    "uart-up": (A, [("tx_phase = Signal(range(self.divisor))",
                     "tx_phase = Signal(range(self.divisor + 5))")]),
    "prio": (A, [("with m.If(self.serial.rx_rdy & ~rx_rdy_prev):\n            "
                  "m.d.sync += rx_rdy_irq.eq(1)", "with m.If(~(~self.serial."
                  "rx_rdy | rx_rdy_prev)):\n            m.d.sync += rx_rdy_irq"
                  ".eq(1)")]),
    "irq-any": (A, [("self.timer.irq | self.serial.irq",
                     "Cat(self.serial.irq, self.timer.irq).any()")]),
    "sby-neg": (D, [("""    if "PASS" in res:
        print(f"{c}... PASS")
    else:
        print(f"{c}... FAIL")
""", """    word = "FAIL" if "PASS" not in res else "PASS"
    print(f"{c}... {word}")
""")]),
    "sby-start": (D, [('if "PASS" in res', 'if res.startswith("PASS")')]),
}


def run(tree, pids):
    bad = []
    for pid in pids:
        x = subprocess.run([sys.executable, "run.py", pid], cwd="/verif",
                           capture_output=True, text=True, env=dict(
            os.environ, SA_REPO=tree, SA_OUT=tree + "/.out",
            PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0"))
        known = "KNOWN-FINDING" in x.stdout     # reported, exit 0
        if x.returncode or known:
            bad.append((pid, x.returncode or 1, (x.stdout + x.stderr).strip()
                        .splitlines()[0][:150]))
    return bad


def main():
    want = sys.argv[1:]
    cases = [(n, p, f, s, True) for n, (p, f, s) in BAD.items()] + \
        [(n, None, f, s, False) for n, (f, s) in GOOD.items()]
    wrong = 0
    for n, pid, f, subs, bad in cases:
        if want and n not in want:
            continue
        tree = tempfile.mkdtemp(prefix="soccase")
        try:
            subprocess.run(f"git -C /repo archive HEAD | tar -x -C {tree}",
                           shell=True, check=True)
            soc = open(f"{tree}/{A}").read()
            for a, b in FIXES:      # the two known findings repaired
                assert soc.count(a) == 1
                soc = soc.replace(a, b)
            open(f"{tree}/{A}", "w").write(soc)
            text = open(f"{tree}/{f}").read()
            for a, b in subs:
                if a not in text:
                    print(f"{n:18} STALE {a[:60]!r}")
                    wrong += 1
                text = text.replace(a, b)
            open(f"{tree}/{f}", "w").write(text)
            got = run(tree, [pid] if bad else [
                f"P{i}" for i in range(43, 51)])
            ok = any(c == 1 for _, c, _ in got) if bad else not got
            wrong += not ok
            print(f"{n:18} {'bad ' if bad else 'good'} "
                  f"{'ok' if ok else 'WRONG'} {got[:2]}", flush=True)
        finally:
            shutil.rmtree(tree)
    print("wrong:", wrong)
    return wrong != 0


if __name__ == "__main__":
    sys.exit(main())
