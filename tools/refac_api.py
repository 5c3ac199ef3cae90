"""Rewrites of the package's declarations, names and wiring (no behaviour
changes): generated enumerations, helper methods, renamed internals."""


def install(R, sub, meth, S):
    def loop(root):
        import os
        import re
        p = os.path.join(root, S + "csr.py")
        t = open(p).read()
        for pre, suf, lo, hi, base in (("PMPADDR", "", 0, 63, 0x3b0),
                                       ("MHPMEVENT", "", 3, 31, 0x323)):
            pat = re.compile("(    #:[^\n]*\n)*" + "".join(
                rf"(    #:[^\n]*\n|\n)*    {pre}{i}{suf} = [^\n]*\n"
                for i in range(lo, hi + 1)))
            new = (f"    _ignore_ = [\"_i\"]\n" if "_ignore_" not in t else
                   "") + (f"    for _i in range({lo}, {hi + 1}):\n"
                          f"        vars()[f\"{pre}{{_i}}{suf}\"] = "
                          f"{base:#x} + _i - {lo}\n")
            t, n = pat.subn("\n" + new, t)
            assert n == 1, pre
        open(p, "w").write(t)
    R["csr-names-loop"] = [loop]

    R["gen-helpers"] = [
        sub(S + "gen.py",
            ("@contextmanager\n", '''def _design(rvfi):
    """Return the requested top-level component."""
    return FormalTop() if rvfi else Top()


def _default():
    """Print a core with default names."""
    print(verilog.convert(_design(False)))


@contextmanager
'''),
            ("            if f:\n                m = FormalTop()\n"
             "            else:\n                m = Top()\n"
             "            v = verilog.convert(m, name=n or \"sentinel\")\n"
             "            fp.write(v)\n",
             "            name = n if n else \"sentinel\"\n"
             "            print(verilog.convert(_design(f), name=name),\n"
             "                  end=\"\", file=fp)\n"),
            ("            m = Top()\n            print(verilog.convert(m))\n",
             "            _default()\n")),
    ]

    R["top-methods"] = [
        sub(S + "top.py",
            ("        m = Module()\n\n        m.submodules.alu = self.alu\n",
             "        m = Module()\n        self._parts(m)\n"),
            ("        m.submodules.addr_align = self.addr_align\n"
             "        m.submodules.a_src = self.a_src\n"
             "        m.submodules.b_src = self.b_src\n"
             "        m.submodules.control = self.control\n"
             "        m.submodules.datapath = self.datapath\n"
             "        m.submodules.decode = self.decode\n"
             "        m.submodules.exception_router = self.exception_router\n"
             "        m.submodules.wdata_align = self.wdata_align\n", ""),
            ("        # Exception Router sources\n",
             "        self._traps(m)\n        return m\n\n"
             "    def _parts(self, m):\n"
             "        for name in (\"wdata_align\", \"exception_router\", "
             "\"decode\",\n                     \"datapath\", \"control\", "
             "\"b_src\", \"a_src\", \"addr_align\",\n"
             "                     \"alu\"):\n"
             "            m.submodules[name] = getattr(self, name)\n\n"
             "    def _traps(self, m):\n"
             "        # Exception Router sources\n"),
            ("            connect(m, flipped(self.rvfi.decode), "
             "self.decode.rvfi)\n\n        return m\n",
             "            connect(m, flipped(self.rvfi.decode), "
             "self.decode.rvfi)\n")),
    ]

    def rename(root):
        import os
        import re
        for f in os.listdir(os.path.join(root, S)):
            if not f.endswith(".py"):
                continue
            p = os.path.join(root, S, f)
            t = open(p).read()
            for a, b in (("next_adr", "upc_next"), ("rdata_align", "aligner"),
                         ("mem_reset_guard", "just_reset"),
                         ("ice40_rst_guard", "por_guard"),
                         ("mcause_latch", "last_cause"),
                         ("data_adr", "access_adr"),
                         ("wdata_align", "store_align"),
                         ("forward_csr", "second_cycle"),
                         ("o_mux", "result"), ("mod_a", "op_a"),
                         ("mod_b", "op_b"), ("w_port", "port_w"),
                         ("r_port", "port_r"), ("reg_w_adr", "dst_adr"),
                         ("reg_r_adr", "src_adr")):
                t = re.sub(rf"\b{a}\b", b, t)
            open(p, "w").write(t)
    R["rename-internals"] = [rename]

    R["wishbone-guarded"] = [
        sub(S + "top.py",
            ("            self.bus.cyc.eq(self.control.mem.req & ~mem_reset_guard),\n"
             "            self.bus.stb.eq(self.control.mem.req & ~mem_reset_guard),\n",
             "            active.eq(self.control.mem.req & ~mem_reset_guard),\n"
             "            self.bus.cyc.eq(active),\n"
             "            self.bus.stb.eq(self.bus.cyc),\n"),
            ("        mem_ack = Signal()\n",
             "        mem_ack = Signal()\n        active = Signal()\n")),
    ]

    R["rom-tables"] = [
        sub(S + "decode.py",
            ("            for i, v in enumerate(self._rom):\n"
             "                with m.Case(i):\n"
             "                    m.d.sync += self.data.eq(v)\n",
             "            groups = {}\n"
             "            for i, v in enumerate(self._rom):\n"
             "                groups.setdefault(id(v), (v, []))[1].append(i)\n"
             "            for v, at in groups.values():\n"
             "                with m.Case(*at):\n"
             "                    m.d.sync += self.data.eq(v)\n")),
    ]
