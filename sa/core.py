"""Model of the core extracted from its netlist: storage elements, ports, and
the nets of the documented interface members the rules refer to."""
import re

from amaranth.hdl import _nir
from .dom import Dom, TernDom, FALSE, TRUE, G_STATE, G_DATA
from .evalnet import Eval
from .frontend import AnalysisBroken, attr, build_top, loc


class Core:
    def __init__(self, design=None, top=None):
        self.d = design or build_top()
        d = self.d
        self.top = top or d.comp
        t = self.top
        fields = d.nets(attr(t, "control.ucoderom.fields"))
        cells = {n >> 16 for n in fields if n > 1}
        roms = [i for i in d.rports if i in cells]
        if len(roms) != 1:
            raise AnalysisBroken("microcode fields are not the data output "
                                 "of one synchronous ROM read port")
        self.rom_port = roms[0]
        p = d.cells[self.rom_port]
        self.rom_mem = p.memory
        m = d.cells[self.rom_mem]
        if any(d.cells[w].memory == self.rom_mem for w in d.wports):
            raise AnalysisBroken("microcode memory is writable")
        self.rom = list(m.init) + [0] * (m.depth - len(m.init))
        self.rom_width = m.width
        if p.en != 1:
            raise AnalysisBroken("microcode ROM has a read enable")
        self.fields = fields
        d.lower_tables(self.rom_mem)
        # read/write memories
        self.rams = [i for i in d.mems if i != self.rom_mem and
                     any(d.cells[w].memory == i for w in d.wports)]
        # state bits: flip-flops, then RAM read registers
        self.sbits = []          # nets
        self.init = []
        self.data = []           # next-state net for flip-flops, else None
        for ci in d.ffs:
            c = d.cells[ci]
            if c.arst != 0:
                raise AnalysisBroken(f"asynchronous reset at {loc(c)}")
            for b, n in enumerate(c.data):
                self.sbits.append(ci << 16 | b)
                self.init.append((c.init >> b) & 1)
                self.data.append(int(n))
        self.nff = len(self.sbits)
        # one-bit registers are control facts in the variable order
        self.sgroup = [G_STATE if len(d.cells[n >> 16].data) == 1 else G_DATA
                       for n in self.sbits]
        self.rslots = []         # (port cell, first index)
        for ci in d.rports:
            if ci == self.rom_port:
                continue
            self.rslots.append((ci, len(self.sbits)))
            for b in range(d.cells[ci].width):
                self.sbits.append(ci << 16 | b)
                self.sgroup.append(G_DATA)
                self.init.append(None)
                self.data.append(None)
        self.index = {n: i for i, n in enumerate(self.sbits)}
        # anchors: documented component members
        N = d.nets
        self.n_pc = self.registers(N(attr(t, "datapath.pc.dat_r")))
        self.n_mstatus = N(attr(t, "datapath.csr.mstatus_r"))
        self.n_mie = N(attr(t, "datapath.csr.mie_r"))
        self.n_decode = N(attr(t, "decode.do_decode"))[0]
        self.n_alu_o = N(attr(t, "alu.o"))
        self.n_exc = N(attr(t, "exception_router.out.exception"))[0]
        self.n_romadr = d.cells[self.rom_port].addr
        b = attr(t, "bus")
        self.bus = {k: N(attr(b, k)) for k in
                    ("adr", "dat_w", "sel", "cyc", "stb", "we")}
        self.n_dat_r = N(attr(b, "dat_r"))
        self.n_ack = N(attr(b, "ack"))
        self.n_irq = N(attr(t, "irq"))
        self.n_rst = self._rst()
        gp = attr(t, "datapath.gp.dat_r")
        ram = {n >> 16 for n in N(gp)}
        self.gp_ports = [ci for ci, _ in self.rslots if ci in ram]
        self.gp_slot = dict(self.rslots).get(next(iter(self.gp_ports), None))
        if len(self.rams) != 1:
            raise AnalysisBroken("expected exactly one register memory, "
                                 f"found {len(self.rams)}")
        self.ram = self.rams[0]
        self._addrc = {}
        self._labels = None
        self._unfilled = None
        self._nodec = None

    @property
    def unfilled(self):
        """Microaddresses the microcode source does not fill."""
        if self._unfilled is None:
            try:
                r = self.top.control.ucoderom
                used = set()
                for sp in r.m5meta.spaces.values():
                    used |= {int(a) for a in sp.data}
                self._unfilled = set(range(len(self.rom))) - used
            except AttributeError:
                self._unfilled = set()
        return self._unfilled

    def word_loc(self, u):
        """Source position of a microword: nearest label of the microcode
        source (for reports only)."""
        try:
            r = self.top.control.ucoderom
            lab = self._labels
            if lab is None:
                src = open(r.main_file).read().splitlines()
                pos = {}
                for i, t in enumerate(src):
                    m = re.match(r"\s*([A-Za-z_]\w*):\s", t + " ")
                    if m:
                        pos.setdefault(m.group(1), i + 1)
                lab = self._labels = sorted(
                    (int(a), n, pos[n]) for n, a in r.m5meta.symtab.items()
                    if n in pos and isinstance(a, int))
            best = [x for x in lab if x[0] <= u]
            a, n, line = best[-1]
            off = f"+{u - a}" if u != a else ""
            return f"src/sentinel/microcode.asm:{line} ({n}{off})"
        except Exception:
            return f"microword {u:#x}"

    def _rst(self):
        if "rst" in self.d.inputs:
            return self.d.in_nets("rst")
        return ()

    def registers(self, nets):
        """``nets`` with every net that merely repeats a register replaced by
        that register."""
        if all(int(n) <= 1 or int(n) in self.index for n in nets):
            return nets
        D = Dom()
        memo = {n: D.atom(("h", i)) for i, n in enumerate(self.sbits)}
        back = {a: n for n, a in memo.items()}
        for s, w in self.d.inputs.values():
            for b in range(s, s + w):
                memo[b] = D.atom(("in", b))
        for b in range(self.rom_width):
            n = self.rom_port << 16 | b
            memo[n] = D.atom(("rom", b))
        ev = Eval(self.d, D, memo,
                  lambda e, ci, c: D.word(("as", ci), c.width))
        out = []
        for n in nets:
            v = ev.bit(n)
            out.append(v if v <= 1 else back.get(v, n))
        return tuple(out)

    # -- invariants --------------------------------------------------------
    def addr_constants(self, u):
        """State bits determined by the microaddress just presented (e.g. the
        incremented micro program counter): constant propagation of the
        next-state logic cut at the ROM address."""
        r = self._addrc.get(u)
        if r is not None:
            return r
        D = TernDom()
        memo = {}
        for ci in (self.rom_port, *[c for c, _ in self.rslots]):
            for b in range(self.d.cells[ci].width):
                memo[ci << 16 | b] = 2
        for s, w in self.d.inputs.values():
            for b in range(s, s + w):
                memo[b] = 2
        for n in self.n_rst:
            memo[int(n)] = 0
        for n in self.sbits[:self.nff]:
            memo[n] = 2
        for i, n in enumerate(self.n_romadr):
            memo[int(n)] = (u >> i) & 1
        ev = Eval(self.d, D, memo, lambda e, ci, c: (2,) * c.width)
        r = {}
        for i in range(self.nff):
            v = ev.bit(self.data[i])
            if v != 2:
                r[i] = v
        self._addrc[u] = r
        return r

    def constants(self):
        """Flip-flop bits that hold one constant in every cycle after the
        first, whatever the microword, memory contents and inputs: a
        flow-insensitive Kildall constant propagation over the three-valued
        collapse of the netlist.  Returns {state index: 0/1}."""
        D = TernDom()
        unk = {}
        for n in self.fields:
            unk[int(n)] = 2
        for ci in (self.rom_port, *[c for c, _ in self.rslots]):
            for b in range(self.d.cells[ci].width):
                unk[ci << 16 | b] = 2
        for s, w in self.d.inputs.values():
            for b in range(s, s + w):
                unk[b] = 2

        def step(vals, rst):
            memo = dict(unk)
            for n in self.n_rst:
                memo[int(n)] = rst
            for i in range(self.nff):
                memo[self.sbits[i]] = vals[i]
            ev = Eval(self.d, D, memo, lambda e, ci, c: (2,) * c.width)
            return [ev.bit(self.data[i]) for i in range(self.nff)]

        def join(a, b):
            return [x if x == y else 2 for x, y in zip(a, b)]
        cur = step(self.init[:self.nff], 0)     # state after cycle 1
        while True:
            new = join(cur, step(cur, 0))
            if new == cur:
                break
            cur = new
        return {i: v for i, v in enumerate(cur) if v != 2}


    def node_constants(self):
        """Flow-sensitive constant propagation over the microprogram: for
        every microaddress, the state bits (and the request-pending ghost)
        that hold one constant whenever that word drives the core.  The
        mapped instruction dispatch is treated as able to reach any address.
        Returns {microaddress: (vector, pend)} for reachable addresses."""
        if self._nodec is not None:
            return self._nodec
        D = TernDom()
        consts = self.constants()
        glob = {}
        for s, w in self.d.inputs.values():
            for b in range(s, s + w):
                glob[b] = 2
        for n in self.n_rst:
            glob[int(n)] = 0

        def edges(word, vec, pend):
            memo = dict(glob)
            base = self.rom_port << 16
            for b in range(self.rom_width):
                memo[base | b] = 2 if word is None else (word >> b) & 1
            for n, v in zip(self.sbits, vec):
                memo[n] = v
            for n in self.n_ack:
                memo.pop(int(n), None)
            try:
                ev = Eval(self.d, D, dict(memo), lambda e, ci, c:
                          (2,) * c.width)
                req = D.and_(ev.bit(self.bus["cyc"][0]),
                             ev.bit(self.bus["stb"][0]))
            except AnalysisBroken:
                req = 2
            acks = (0, 1) if req != 0 and pend != 0 else (0,)
            out = []
            for a in acks:
                m = dict(memo)
                for n in self.n_ack:
                    m[int(n)] = a
                ev = Eval(self.d, D, m, lambda e, ci, c: (2,) * c.width)
                adr = ev.val(self.n_romadr)
                nv = [ev.bit(self.data[i]) for i in range(self.nff)]
                nv += [2] * (len(self.sbits) - self.nff)
                p = 0 if a else req
                opts = [0]
                for i, b in enumerate(adr):
                    opts = [o | x << i for o in opts
                            for x in ((0, 1) if b == 2 else (b,))]
                for t in opts:
                    ac = self.addr_constants(t)
                    v = [ac.get(i, consts.get(i, x)) if x == 2 else x
                         for i, x in enumerate(nv)]
                    out.append((t, v, p))
            return out
        state = {}
        work = []

        def push(t, v, p):
            old = state.get(t)
            if old is None:
                state[t] = (v, p)
            else:
                nv = [a if a == b else 2 for a, b in zip(old[0], v)]
                np = old[1] if old[1] == p else 2
                if (nv, np) == old:
                    return
                state[t] = (nv, np)
            if t not in work:
                work.append(t)
        ini = [2 if x is None else x for x in self.init]
        for t, v, p in edges(None, ini, 0):
            push(t, v, p)
        while work:
            u = work.pop(0)
            v, p = state[u]
            for e in edges(self.rom[u], v, p):
                push(*e)
        self._nodec = state
        return state


class Mem:
    """Abstract RAM: a base plus an ordered list of guarded stores."""
    __slots__ = ("base", "st")

    def __init__(self, base, st=()):
        self.base = base
        self.st = tuple(st)

    def __eq__(self, o):
        return self.base == o.base and self.st == o.st

    def __hash__(self):
        return hash((self.base, self.st))


class State:
    __slots__ = ("pred", "v", "mem", "g")

    def __init__(self, pred, v, mem, g):
        self.pred = pred
        self.v = v
        self.mem = mem
        self.g = g

    def same(self, o):
        return self.pred == o.pred and self.v == o.v and \
            self.mem == o.mem and self.g == o.g


# ghost variables recording the data bus transaction of the instruction
GHOST = (("pend", 1), ("n", 2), ("adr", 30), ("sel", 4), ("we", 1),
         ("dw", 32), ("dr", 32))
GOFF = {}
_o = 0
for _n, _w in GHOST:
    GOFF[_n] = (_o, _w)
    _o += _w
GLEN = _o


def ghost(g, name):
    o, w = GOFF[name]
    return tuple(g[o:o + w])
