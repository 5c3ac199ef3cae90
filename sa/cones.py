"""Structural rules on the netlist: combinational cones of the bus outputs and
the clocking of every storage element."""
from amaranth.hdl import _nir
from .frontend import loc


def comb_inputs(design, nets):
    """Cells/inputs reached from ``nets`` through combinational logic only.
    Returns ({input net: path}, sequential cells)."""
    cells = design.cells
    seen = {}
    todo = [(int(n), None) for n in nets]
    inputs, seq = {}, set()
    while todo:
        n, src = todo.pop()
        if n <= 1 or n in seen:
            continue
        seen[n] = src
        ci = n >> 16
        c = cells[ci]
        if isinstance(c, _nir.Top):
            inputs[n] = src
            continue
        if isinstance(c, (_nir.FlipFlop, _nir.SyncReadPort)):
            seq.add(ci)
            continue
        for m in deps(c, n & 0xffff):
            todo.append((int(m), n))
    return inputs, seq, seen


def deps(c, bit):
    """Input nets an output bit of a combinational cell depends on."""
    if isinstance(c, _nir.AssignmentList):
        out = []
        if c.default is not None:
            out.append(c.default[bit])
        for a in c.assignments:
            if a.start <= bit < a.start + len(a.value):
                out.append(a.cond)
                out.append(a.value[bit - a.start])
        return out
    if isinstance(c, _nir.Operator) and c.operator in ("&", "|", "^") and \
            len(c.inputs) == 2:
        return [v[bit] for v in c.inputs if bit < len(v)]
    if isinstance(c, _nir.Operator) and c.operator == "~":
        return [c.inputs[0][bit]]
    if isinstance(c, _nir.Operator) and c.operator == "m":
        return [c.inputs[0][0], c.inputs[1][bit], c.inputs[2][bit]]
    return list(c.input_nets())


def where(design, seen, n):
    """Source chain from an input back to the output that reads it."""
    out = []
    while n is not None and len(out) < 8:
        l = loc(design.cells[n >> 16])
        if l not in out and l != "?":
            out.append(l)
        n = seen.get(n)
    return " <- ".join(reversed(out)) or "?"
