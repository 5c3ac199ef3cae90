"""Front end: elaborate the design under analysis from /repo's working tree to
Amaranth's netlist IR (``amaranth.hdl._nir``), the compiler's own intermediate
representation.  No simulation: the IR is only read."""
import os
import sys
import warnings

REPO = os.environ.get("SA_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))

# The optional SoC dependency is not installed here; only its bus signature is
# needed to elaborate.
sys.dont_write_bytecode = True
if os.path.join(REPO, "src") not in sys.path:
    sys.path.insert(0, os.path.join(REPO, "src"))
try:
    import amaranth_soc  # noqa: F401
except ImportError:
    sys.path.insert(1, os.path.join(HERE, "stub"))

from amaranth.hdl._ir import build_netlist, Fragment  # noqa: E402
from amaranth.hdl import _nir  # noqa: E402


class AnalysisBroken(Exception):
    """The source no longer has the shape the analysis is anchored to."""


class Unproven(Exception):
    """The analysis ran, and an obligation does not hold."""


class Design:
    """A netlist plus the nets of the interface members the rules talk
    about."""

    def __init__(self, comp, name="top", extra_ports=()):
        self.comp = comp
        ports = []
        for path, member, value in comp.signature.flatten(comp):
            v = value.as_value() if hasattr(value, "as_value") else value
            ports.append(("__".join(map(str, path)), v, None))
        ports += list(extra_ports)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.nl = build_netlist(Fragment.get(comp, None), ports=ports,
                                    name=name)
        self.cells = self.nl.cells
        for m in self.nl.modules:
            for i in m.cells:
                self.cells[i].sa_module = ".".join(map(str, m.name))
        self.top = self.cells[0]
        self._plans = {}
        self._tables = {}
        self._demand = None
        self.inputs = dict(self.top.ports_i)
        self.outputs = dict(self.top.ports_o)
        self._collect()
        for c in self.cells:
            if isinstance(c, (_nir.Instance, _nir.IOBuffer)):
                raise AnalysisBroken(f"opaque cell {type(c).__name__} in the "
                                     f"core at {loc(c)}")

    def lower_tables(self, keep):
        """Read-only memories other than ``keep`` are look-up tables: a
        clocked read port is a register behind an enabled table."""
        written = {self.cells[w].memory for w in self.wports}
        for i in self.rports:
            p = self.cells[i]
            if p.memory in written or p.memory == keep:
                continue
            self.cells.append(_nir.AsyncReadPort(
                p.module_idx, p.memory, width=p.width, addr=p.addr,
                src_loc=p.src_loc))
            data = _nir.Value(_nir.Net.from_cell(len(self.cells) - 1, b)
                              for b in range(p.width))
            if p.en != 1:
                self.cells.append(_nir.Operator(
                    p.module_idx, operator="m", src_loc=p.src_loc, inputs=[
                        _nir.Value([p.en]), data,
                        _nir.Value(_nir.Net.from_cell(i, b)
                                   for b in range(p.width))]))
                data = _nir.Value(_nir.Net.from_cell(len(self.cells) - 1, b)
                                  for b in range(p.width))
            self.cells[i] = _nir.FlipFlop(
                p.module_idx, data=data, init=0, clk=p.clk,
                clk_edge=p.clk_edge, arst=_nir.Net.from_const(0),
                attributes={}, src_loc=p.src_loc)
            for j in {i, len(self.cells) - 1}:
                self.cells[j].sa_module = getattr(p, "sa_module", "?")
        self._demand = None
        self._collect()

    def table_of(self, ci):
        """Contents of the read-only memory behind read port ``ci``, one
        integer per address (None: the memory is written)."""
        if ci in self._tables:
            return self._tables[ci]
        c = self.cells[ci]
        self._tables[ci] = None
        if any(self.cells[w].memory == c.memory for w in self.wports):
            return None
        m = self.cells[c.memory]
        init = [int(x) for x in m.init] + [0] * (m.depth - len(m.init))
        n = 1 << len(c.addr)
        self._tables[ci] = (init + [0] * n)[:n]
        return self._tables[ci]

    def _collect(self):
        self.ffs = [i for i, c in enumerate(self.cells)
                    if isinstance(c, _nir.FlipFlop)]
        self.rports = [i for i, c in enumerate(self.cells)
                       if isinstance(c, _nir.SyncReadPort)]
        self.wports = [i for i, c in enumerate(self.cells)
                       if isinstance(c, _nir.SyncWritePort)]
        self.mems = [i for i, c in enumerate(self.cells)
                     if isinstance(c, _nir.Memory)]

    def demand(self, ci):
        """Number of low bits of sum/difference cell ``ci`` that any other
        cell, signal or port reads (None for other cells)."""
        if self._demand is None:
            arith = {i for i, c in enumerate(self.cells)
                     if isinstance(c, _nir.Operator)
                     and c.operator in ("+", "-")}
            top = dict.fromkeys(arith, 0)
            todo = []

            def use(n):
                n = int(n)
                if n > 1 and n >> 16 in arith and \
                        (n & 0xffff) >= top[n >> 16]:
                    top[n >> 16] = (n & 0xffff) + 1
                    todo.append(n >> 16)
            for i, c in enumerate(self.cells):
                if i not in arith:
                    for n in c.input_nets():
                        use(n)
            for v in self.nl.signals.values():
                for n in v:
                    use(n)
            while todo:
                i = todo.pop()
                for v in self.cells[i].inputs:
                    for n in v[:top[i]]:
                        use(n)
            self._demand = top
        return self._demand.get(ci)

    def switch_plan(self, ci):
        """Segments of assignment list ``ci``: ``(1, assignment)`` or, for a
        run of assignments that is one case analysis over exact patterns of
        one word, ``(None, enable, word, winning case per value, cases)``."""
        p = self._plans.get(ci)
        if p is None:
            p = self._plans[ci] = []
            run, pm = [], None
            for a in self.cells[ci].assignments:
                k = int(a.cond) >> 16
                if k != pm or a.cond.is_const:
                    p += self._segment(run, pm)
                    run, pm = [], k
                run.append(a)
            p += self._segment(run, pm)
        return p

    def _segment(self, run, pmi):
        plain = [(1, a) for a in run]
        if len(run) < 8:
            return plain
        pm = self.cells[pmi]
        if not isinstance(pm, _nir.PriorityMatch):
            return plain
        ms = [self.cells[int(n) >> 16] for n in pm.inputs]
        if not all(isinstance(m, _nir.Matches) for m in ms):
            return plain
        value = ms[0].value
        k = len(value)
        if k > 12 or any(m.value != value for m in ms):
            return plain
        winner = [None] * (1 << k)
        for idx, m in enumerate(ms):
            for p in m.patterns:
                free = [i for i, ch in enumerate(reversed(p)) if ch == "-"]
                base = int(p.replace("-", "0"), 2)
                for f in range(1 << len(free)):
                    v = base
                    for j, i in enumerate(free):
                        v |= (f >> j & 1) << i
                    if winner[v] is None:
                        winner[v] = idx
        cases = {}
        for a in run:
            idx = int(a.cond) & 0xffff
            if idx in cases:
                return plain
            cases[idx] = (a.start, a.value)
        return [(None, pm.en, value, winner, cases)]

    def nets(self, sig):
        """Nets of an Amaranth Signal / view (must be in the design)."""
        v = sig.as_value() if hasattr(sig, "as_value") else sig
        try:
            return tuple(self.nl.signals[v])
        except KeyError:
            raise AnalysisBroken(f"signal {v!r} is not in the elaborated "
                                 "design") from None

    def in_nets(self, name):
        s, w = self.inputs[name]
        return tuple(_nir.Net.from_cell(0, i) for i in range(s, s + w))


def loc(cell):
    s = getattr(cell, "src_loc", None)
    if not s:
        return "?"
    f = s[0]
    if "/src/sentinel/" in f:
        return "src/sentinel/" + f.split("/src/sentinel/")[-1] + f":{s[1]}"
    # created inside the HDL library: name the instance instead
    return f"memory/port in {getattr(cell, 'sa_module', '?')} of the design"


def attr(obj, path):
    """Follow a dotted path of documented component members."""
    for p in path.split("."):
        try:
            obj = getattr(obj, p)
        except AttributeError:
            raise AnalysisBroken(f"anchor {path!r} vanished at {p!r} "
                                 f"({type(obj).__name__})") from None
    return obj


def build_top(formal=False):
    try:
        from sentinel.top import Top
    except ImportError as e:
        raise AnalysisBroken(f"cannot import sentinel.top: {e}") from e
    return Design(Top(formal=formal) if formal else Top())
