"""Whole-netlist rules: clocking, combinational cones of the bus outputs, and
one-step equivalence of the instrumented with the plain core."""
import re

from amaranth.hdl import _nir
from .core import Core, Mem, State, GLEN, GOFF
from .cones import comb_inputs, where
from .dom import Dom, FALSE, TRUE, G_IN, G_DATA
from .evalnet import Eval
from .flow import Flow
from .frontend import AnalysisBroken, loc
from .machine import Machine


def clocking(o, tier):
    """One clock, rising edge, synchronous reset; no bus output follows an
    input within a clock cycle."""
    m = Machine()
    core = m.core
    d = core.d
    seq = 0
    clks = set()
    for ci, c in enumerate(d.cells):
        if not hasattr(c, "clk"):
            continue
        seq += 1
        o.obligations += 3
        if c.clk_edge != "pos":
            o.add(f"clock/edge/{loc(c)}", "a storage element is clocked by "
                  f"the falling edge; at {loc(c)}")
        n = int(c.clk)
        if "clk" not in d.inputs or n != int(d.in_nets("clk")[0]):
            o.add(f"clock/source/{loc(c)}", "a storage element is not "
                  f"clocked by the clock of the core; at {loc(c)}")
        clks.add(n)
        if isinstance(c, _nir.FlipFlop) and c.arst != 0:
            o.add(f"clock/arst/{loc(c)}", "a storage element has an "
                  f"asynchronous reset; at {loc(c)}")
    for ci, c in enumerate(d.cells):
        if isinstance(c, _nir.AsyncReadPort) and d.table_of(ci) is None:
            o.add(f"clock/async/{loc(c)}", "a memory is read without a "
                  f"clock; at {loc(c)}")
    names = {}
    for n, (s, w) in d.inputs.items():
        for b in range(s, s + w):
            names[b] = n
    outs = {}
    for k, nets in core.bus.items():
        for b, n in enumerate(nets):
            o.obligations += 1
            inputs, _, seen = comb_inputs(d, [n])
            inputs = {i: s for i, s in inputs.items()
                      if names.get(i) != "clk"}
            if inputs:
                outs.setdefault(k, []).append((b, n, inputs, seen))
    # a syntactic path is harmless if no reachable microword opens it
    checked = 0
    if outs:
        for u in sorted(core.node_constants()):
            flow = Flow(core)
            D = flow.D
            s = State(TRUE, tuple(m.havoc(flow, u)), Mem("M"),
                      m.ghost0(TRUE))
            dat, ack, irq = flow.inputs(u)
            memo = {}
            base = core.rom_port << 16
            for b in range(core.rom_width):
                memo[base | b] = core.rom[u] >> b & 1
            for n, v in zip(core.sbits, s.v):
                memo[n] = v
            own = {}
            for i, nm in names.items():
                memo[i] = D.atom(("input", nm, i), G_IN)
                own[D.var[memo[i]]] = i
            ev = Eval(d, D, memo,
                      lambda e, ci, c: D.word(("async", ci), c.width))
            for k, l in outs.items():
                for b, n, inputs, seen in l:
                    checked += 1
                    sup = D.support(ev.bit(n)) & set(own)
                    for r in sorted(sup):
                        i = own[r]
                        o.add(f"cone/{k}/{names[i]}", f"bus.{k} bit {b} "
                              f"depends on the input {names[i]} within the "
                              f"cycle, in microword {core.word_loc(u)}; "
                              f"path {where(d, seen, i)}")
    # positive control: the next state of the bus master does depend on ack
    any_ff = set()
    for i in range(core.nff):
        ins, _, _ = comb_inputs(d, [core.data[i]])
        any_ff |= {names.get(x) for x in ins}
    if not {"bus__ack", "bus__dat_r", "irq"} <= any_ff:
        raise AnalysisBroken("control: the cone search finds no input in any "
                             "next-state function")
    o.cover.update(storage_cells=seq, clocks=len(clks),
                   output_bits=sum(map(len, core.bus.values())),
                   syntactic_paths=sum(map(len, outs.values())),
                   microwords_checked_for_a_path=checked)


def state_names(design, strip=""):
    """Flip-flop cell -> set of (module, signal, offset, width) it is known
    by; numbering suffixes of generated names are dropped."""
    ffs = set(design.ffs)
    out = {}
    mod = {}

    def base(x):
        return re.sub(r"\$\d+", "", str(x))

    for m in design.nl.modules:
        name = ".".join(map(base, m.name))
        if strip and (name == strip or name.startswith(strip + ".")):
            name = "top" + name[len(strip):]
        for ci in m.cells:
            mod[ci] = name
    for sig, nets in design.nl.signals.items():
        for off, n in enumerate(nets):
            ci = int(n) >> 16
            if int(n) <= 1 or int(n) & 0xffff or ci not in ffs:
                continue
            out.setdefault(ci, set()).add(
                (mod.get(ci, "?"), base(sig.name), off,
                 len(design.cells[ci].data)))
    return out


def pair_state(a, b):
    """Pairs registers of two designs by their names: repeatedly match those
    that share a name no other unmatched register of either design has."""
    na, nb = state_names(a), state_names(b, "top.cpu")
    pair = {}
    while True:
        ka, kb = {}, {}
        for names, k in ((na, ka), (nb, kb)):
            for c, s in names.items():
                for x in s:
                    k.setdefault(x, []).append(c)
        new = {}
        for x, l in ka.items():
            r = kb.get(x, [])
            if len(l) == 1 and len(r) == 1:
                if new.setdefault(l[0], r[0]) != r[0]:
                    raise AnalysisBroken(f"registers cannot be paired: {x}")
        if not new:
            return pair, [c for c in a.ffs if c not in pair]
        for x, y in new.items():
            pair[x] = y
            na.pop(x)
            nb.pop(y, None)


def instrumentation(o, tier):
    """For every microword and every state: the instrumented core makes the
    same step as the plain one."""
    from .rvfi import FormalCore
    a, b = Core(), FormalCore()
    if a.rom != b.rom or a.rom_width != b.rom_width:
        o.add("formal/rom", "the microcode of the instrumented core differs")
        return
    o.obligations += len(a.rom)
    pair, lost = pair_state(a.d, b.d)
    if lost:
        raise AnalysisBroken("registers of the core without a counterpart in "
                             "the instrumented core: " + ", ".join(
                                 loc(a.d.cells[c]) for c in lost[:5]))
    for ci, cj in pair.items():
        x, y = a.d.cells[ci], b.d.cells[cj]
        o.obligations += len(x.data)
        if x.init != y.init:
            o.add(f"formal/init/{loc(x)}", "a register has another initial "
                  f"value in the instrumented core; at {loc(x)}")
    m, n = a.d.cells[a.ram], b.d.cells[b.ram]
    if (m.width, m.depth, m.init) != (n.width, n.depth, n.init):
        o.add("formal/ram", "the register memory differs in the instrumented "
              "core")
    wa = [w for w in a.d.wports if a.d.cells[w].memory == a.ram]
    wb = [w for w in b.d.wports if b.d.cells[w].memory == b.ram]
    if len(wa) != len(wb) or len(a.gp_ports) != 1 or len(b.gp_ports) != 1:
        raise AnalysisBroken("register memory ports cannot be paired")
    xa = [c for c, _ in a.rslots]
    if xa != a.gp_ports:
        raise AnalysisBroken("unexpected read port in the plain core")
    compared = 0
    words = list(range(len(a.rom)))
    for u in words:
        D = Dom()
        mem = [{}, {}]
        for k, core in enumerate((a, b)):
            base = core.rom_port << 16
            for i in range(core.rom_width):
                mem[k][base | i] = core.rom[u] >> i & 1
        for ci, cj in pair.items():
            g = 1 if len(a.d.cells[ci].data) == 1 else G_DATA
            for i in range(len(a.d.cells[ci].data)):
                v = D.atom(("s", ci, i), a.sgroup[a.index[ci << 16 | i]], i)
                mem[0][ci << 16 | i] = mem[1][cj << 16 | i] = v
        for i in range(a.d.cells[a.gp_ports[0]].width):
            v = D.atom(("gp", i), G_DATA, i)
            mem[0][a.gp_ports[0] << 16 | i] = v
            mem[1][b.gp_ports[0] << 16 | i] = v
        for k, core in enumerate((a, b)):
            for name, (s, w) in core.d.inputs.items():
                for i in range(w):
                    mem[k][s + i] = D.atom(("input", name, i), G_IN if w == 1
                                           else G_DATA, i)
            for nn in core.n_rst:
                mem[k][int(nn)] = D.atom(("input", "rst", 0), G_IN)
        # instrumentation registers: unconstrained
        for i, nn in enumerate(b.sbits):
            if nn not in mem[1]:
                mem[1][nn] = D.atom(("extra", i), b.sgroup[i], i % 32)
        ea = Eval(a.d, D, mem[0], lambda e, ci, c: D.word(("as", ci), c.width))
        eb = Eval(b.d, D, mem[1], lambda e, ci, c: D.word(("as", ci), c.width))

        def cmp(what, x, y, where):
            nonlocal compared
            compared += len(x)
            if tuple(x) != tuple(y):
                o.add(f"formal/{what}", f"{what} differs in the instrumented "
                      f"core in microword {a.word_loc(u)}; at {where}")
        for k in a.bus:
            cmp(f"bus.{k}", ea.val(a.bus[k]), eb.val(b.bus[k]),
                loc(a.d.cells[int(a.bus[k][0]) >> 16]))
        cmp("microaddress", ea.val(a.n_romadr), eb.val(b.n_romadr),
            loc(a.d.cells[int(a.n_romadr[0]) >> 16]))
        for ci, cj in pair.items():
            x, y = a.d.cells[ci], b.d.cells[cj]
            cmp(f"register at {loc(x)}", ea.val(x.data), eb.val(y.data),
                loc(x))
        for p, q in zip(wa + a.gp_ports, wb + b.gp_ports):
            x, y = a.d.cells[p], b.d.cells[q]
            cmp("register memory address", ea.val(x.addr), eb.val(y.addr),
                loc(x))
            if p in wa:
                cmp("register memory write", ea.val(x.en) + ea.val(x.data),
                    eb.val(y.en) + eb.val(y.data), loc(x))
            else:
                cmp("register memory read", (ea.bit(x.en),), (eb.bit(y.en),),
                    loc(x))
                o.obligations += 1
                if bool(x.transparent_for) != bool(y.transparent_for):
                    o.add("formal/transparency", "the register read port "
                          "differs in the instrumented core")
    o.obligations += compared
    # positive control: two different microwords are told apart
    if a.rom[0] == a.rom[1] or not compared:
        raise AnalysisBroken("control: nothing was compared")
    o.cover.update(register_pairs=len(pair), microwords=len(words),
                   bits_compared=compared,
                   instrumentation_register_bits=b.nff - a.nff)
