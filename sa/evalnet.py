"""Abstract transfer function of one clock edge over the netlist IR."""
from amaranth.hdl import _nir
from .frontend import AnalysisBroken, loc
from .dom import FALSE, TRUE, G_DATA


class Eval:
    """Demand-driven evaluation of combinational cells for one abstract
    state.  ``src`` maps stateful/input nets to abstract bits."""

    def __init__(self, design, dom, src, asyncread=None):
        self.d = design
        self.cells = design.cells
        self.dom = dom
        self.memo = src          # net(int) -> abstract bit
        self.whole = {}          # cell idx -> tuple of bits for word cells
        self.asyncread = asyncread

    def val(self, value):
        return tuple(self.bit(n) for n in value)

    def bit(self, net):
        net = int(net)
        if net <= 1:
            return net
        r = self.memo.get(net)
        if r is None:
            r = self._bit(net >> 16, net & 0xffff)
            self.memo[net] = r
        return r

    def _bit(self, ci, b):
        c = self.cells[ci]
        t = type(c)
        D = self.dom
        if t is _nir.AssignmentList:
            # last matching assignment wins
            todo = []
            r = None
            for seg in reversed(self.d.switch_plan(ci)):
                if seg[0] is not None:
                    x = seg[1]
                    s = x.start
                    if not s <= b < s + len(x.value):
                        continue
                    cond = self.bit(x.cond)
                    if cond == TRUE:
                        r = self.bit(x.value[b - s])
                        break
                else:
                    cond = self.bit(seg[1])
                if cond != FALSE:
                    todo.append((cond, seg))
            if r is None:
                r = self.bit(c.default[b])
            for cond, seg in reversed(todo):
                if seg[0] is not None:
                    v = self.bit(seg[1].value[b - seg[1].start])
                else:
                    v = self._switch(seg, b, r)
                r = D.ite(cond, v, r)
            return r
        if t is _nir.PriorityMatch:
            en = self.bit(c.en)
            if en == FALSE:
                return FALSE
            r = D.and_(en, self.bit(c.inputs[b]))
            if r == FALSE:
                return r
            seen = self._seen(ci, c, b)
            return D.and_(r, D.not_(seen))
        if t is _nir.Matches:
            bits = self.val(c.value)
            r = FALSE
            for p in c.patterns:
                m = TRUE
                for ch, x in zip(reversed(p), bits):
                    if ch == "1":
                        m = D.and_(m, x)
                    elif ch == "0":
                        m = D.and_(m, D.not_(x))
                    if m == FALSE:
                        break
                r = D.or_(r, m)
            return r
        if t is _nir.Operator:
            op = c.operator
            ins = c.inputs
            if op == "&":
                x = self.bit(ins[0][b])
                return D.and_(x, self.bit(ins[1][b])) if x != FALSE else FALSE
            if op == "|":
                x = self.bit(ins[0][b])
                return D.or_(x, self.bit(ins[1][b])) if x != TRUE else TRUE
            if op == "^":
                return D.xor_(self.bit(ins[0][b]), self.bit(ins[1][b]))
            if op == "~":
                return D.not_(self.bit(ins[0][b]))
            if op == "m":
                s = self.bit(ins[0][0])
                if s == TRUE:
                    return self.bit(ins[1][b])
                if s == FALSE:
                    return self.bit(ins[2][b])
                return D.ite(s, self.bit(ins[1][b]), self.bit(ins[2][b]))
            w = self.whole.get(ci)
            if w is None:
                w = self.whole[ci] = self._word(c, op, self.d.demand(ci))
            if b >= len(w):
                w = self.whole[ci] = self._word(c, op)
            return w[b]
        if t is _nir.Part:
            return self._part(c, b)
        if t is _nir.AsyncReadPort:
            rows = self.d.table_of(ci)
            if rows is not None:
                return D.table(self.val(c.addr),
                               tuple(r >> b & 1 for r in rows))
            if self.asyncread is not None:
                w = self.whole.get(ci)
                if w is None:
                    w = self.whole[ci] = self.asyncread(self, ci, c)
                return w[b]
        raise AnalysisBroken(f"unsupported cell {t.__name__} at {loc(c)}")

    def _switch(self, seg, b, r):
        """One full case analysis of a word (``r``: value if no case)."""
        _, _, value, winner, cases = seg
        vals = {None: r}
        for k, (start, v) in cases.items():
            vals[k] = self.bit(v[b - start]) \
                if start <= b < start + len(v) else r
        return self.dom.table(self.val(value),
                              tuple(vals[w if w in cases else None]
                                    for w in winner))

    def _seen(self, ci, c, b):
        """OR of the earlier inputs of a priority match (shared prefix)."""
        pre = self.whole.get(ci)
        if pre is None:
            pre = self.whole[ci] = [FALSE]
        while len(pre) <= b:
            pre.append(self.dom.or_(pre[-1],
                                    self.bit(c.inputs[len(pre) - 1])))
        return pre[b]

    def _part(self, c, b):
        D = self.dom
        off = self.val(c.offset)
        n = len(c.value)
        o = D.constval(off)

        def at(k):
            i = k * c.stride + b
            if i < n:
                return self.bit(c.value[i])
            return self.bit(c.value[n-1]) if c.value_signed else FALSE
        if o is not None:
            return at(o)
        r = FALSE
        for k in range(1 << len(off)):
            sel = D.all_(x if (k >> j) & 1 else D.not_(x)
                         for j, x in enumerate(off))
            if sel != FALSE:
                r = D.ite(sel, at(k), r)
        return r

    def _shift(self, a, amt, fill, left):
        D = self.dom
        n = len(a)
        k = D.constval(amt)

        def sh(v, k):
            if k >= n:
                return (fill,) * n
            if left:
                return (FALSE,) * k + v[:n - k]
            return v[k:] + (fill,) * k
        if k is not None:
            return sh(a, k)
        for j, s in enumerate(amt):
            if s == FALSE:
                continue
            a = D.mux(s, sh(a, 1 << min(j, 20)), a)
        return a

    def _word(self, c, op, k=None):
        """Word operation; of a sum or difference only the ``k`` low bits
        somebody reads."""
        D = self.dom
        v = [self.val(i if k is None else i[:k]) for i in c.inputs]
        a = v[0]
        if op == "+":
            return D.add(a, v[1])
        if op == "-":
            return D.neg(a) if len(v) == 1 else D.sub(a, v[1])
        if op == "==":
            return (D.eq(a, v[1]),)
        if op == "!=":
            return (D.not_(D.eq(a, v[1])),)
        if op == "u<":
            return (D.ult(a, v[1]),)
        if op == "u>=":
            return (D.not_(D.ult(a, v[1])),)
        if op == "u>":
            return (D.ult(v[1], a),)
        if op == "u<=":
            return (D.not_(D.ult(v[1], a)),)
        if op in ("s<", "s>", "s<=", "s>="):
            b = v[1]
            if op in ("s>", "s<="):
                a, b = b, a
            r = D.ult(a[:-1] + (D.not_(a[-1]),), b[:-1] + (D.not_(b[-1]),))
            return (r if op in ("s<", "s>") else D.not_(r),)
        if op in ("b", "r|"):
            return (D.not_(D.is_zero(a)),)
        if op == "r&":
            return (D.all_(a),)
        if op == "r^":
            r = FALSE
            for x in a:
                r = D.xor_(r, x)
            return (r,)
        if op == "<<":
            return self._shift(a, v[1], FALSE, True)
        if op == "u>>":
            return self._shift(a, v[1], FALSE, False)
        if op == "s>>":
            return self._shift(a, v[1], a[-1], False)
        if op == "*":
            b, n = v[1], len(a)
            if sum(x != FALSE for x in a) < sum(x != FALSE for x in b) and \
                    D.constval(b) is None or D.constval(a) is not None:
                a, b = b, a
            if D.constval(b) is not None or \
                    sum(x != FALSE for x in b) <= 4:
                r = (FALSE,) * n
                for j, x in enumerate(b):
                    if x != FALSE:
                        r = D.add(r, D.mux(x, (FALSE,) * j + a[:n - j],
                                           (FALSE,) * n))
                return r
        if op in ("u%", "u//"):
            d = D.constval(v[1])
            if d and not d & d - 1:
                k = d.bit_length() - 1
                if op == "u%":
                    return a[:k] + (FALSE,) * (len(a) - k)
                return a[k:] + (FALSE,) * k
        # anything else stays an uninterpreted term of its operands
        return D.opaque(op, c.width, v, G_DATA)
