"""Forward dataflow over the micro-control-flow graph.

Nodes are microprogram addresses (the constant microword on the ROM output
specialises the transfer function); edges are the addresses the sequencer can
present next.  States are merged at every node: with exact gated merges where
the two incoming path predicates are disjoint (gated SSA) and with opaque phi
facts otherwise, so loops reach a fixpoint."""
from amaranth.hdl import _nir
from .dom import Dom, FALSE, TRUE, G_IN, G_STATE, G_DATA, G_TERM
from .evalnet import Eval
from .core import Core, Mem, State, GHOST, GOFF, GLEN, ghost
from .frontend import AnalysisBroken, Unproven, loc


MERGE = 3000


class Edge:
    __slots__ = ("src", "dst", "cond", "state", "exit")

    def __init__(self, src, dst, cond, state, exit):
        self.src, self.dst, self.cond = src, dst, cond
        self.state, self.exit = state, exit


class NodeInfo:
    """Result of the transfer function at one node."""
    __slots__ = ("key", "state", "ev", "edges", "out", "ack", "dat_r",
                 "irq", "dodec", "exc", "adr")


class Flow:
    def __init__(self, core, dom=None, rows=None, maxctx=80):
        self.core = core
        self.d = core.d
        self.D = dom or Dom()
        self.rows = dict(rows or {})     # constant RAM row -> known bits
        self.known = {}                  # (base, addr tuple) -> known bits
        self.consts = core.constants()
        self.maxctx = maxctx
        self.words = {}                  # microword -> memo preset
        self.kranks = {}                 # node key -> atom ranks born there
        self.reads = {}
        self.visits = 0
        self.partition = False
        self.zero_wait = False
        self.trace_writes = []

    # ---- memory ----------------------------------------------------------
    def read_base(self, base, addr):
        k = (base, addr)
        r = self.reads.get(k)
        if r is not None:
            return r
        D = self.D
        bits = list(D.word(("mem",) + k, 32, ops=addr, pure=False))
        c = D.constval(addr)
        known = self.rows.get(c) if c is not None else None
        if known:
            for i, b in known.items():
                bits[i] = b
        if k in self.known:
            for i, b in self.known[k].items():
                bits[i] = b
        r = self.reads[k] = tuple(bits)
        if isinstance(base, tuple) and base[0] == "phi":
            self.kranks.setdefault(base[1], set()).update(
                D.var[b] for b in bits if b > 1)
        return r

    def read(self, mem, addr):
        D = self.D
        acc = None
        st = mem.st
        # find the newest store that certainly hits
        stack = []
        for en, a, data in reversed(st):
            hit = D.and_(en, D.eq(a, addr))
            if hit == FALSE:
                continue
            if hit == TRUE:
                acc = data
                break
            stack.append((hit, data))
        if acc is None:
            acc = self.read_base(mem.base, addr)
        for hit, data in reversed(stack):
            acc = D.mux(hit, data, acc)
        return acc

    def write(self, mem, en, addr, data):
        """Append one (per-bit enabled) store."""
        D = self.D
        e = D.any_(set(en))
        if e == FALSE:
            return mem
        if any(x != e for x in en):
            old = self.read(mem, addr)
            data = tuple(D.ite(x, n, o) for x, n, o in zip(en, data, old))
        st = [s for s in mem.st if not (s[0] == e and s[1] == addr)]
        st.append((e, addr, data))
        return Mem(mem.base, st)

    # ---- transfer --------------------------------------------------------
    def inputs(self, key):
        """Fresh input facts sampled at a node."""
        D = self.D
        n = ("in", key)
        dat = tuple(D.atom((n, "dat_r", i), G_DATA, i) for i in range(32))
        ack = D.atom((n, "ack"), G_IN)
        irq = D.atom((n, "irq"), G_IN)
        k = self.kranks.setdefault(key, set())
        for x in dat + (ack, irq):
            k.add(D.var[x])
        return dat, ack, irq

    def evaluator(self, word, state, dat, ack, irq, rst=0):
        core, D = self.core, self.D
        memo = {}
        base = core.rom_port << 16
        for b in range(core.rom_width):
            memo[base | b] = (word >> b) & 1
        for n, v in zip(core.sbits, state.v):
            memo[n] = v
        for n, v in zip(core.n_dat_r, dat):
            memo[int(n)] = v
        for n in core.n_irq:
            memo[int(n)] = irq
        for n in core.n_rst:
            memo[int(n)] = rst

        def aread(ev, ci, c):
            return self.read(state.mem, ev.val(c.addr))
        ev = Eval(self.d, D, memo, aread)
        # bus contract: a slave acknowledges only a request that was already
        # pending in the previous cycle
        try:
            req = D.and_(ev.bit(core.bus["cyc"][0]),
                         ev.bit(core.bus["stb"][0]))
            a = D.and_(ack, req)
            if not self.zero_wait:
                a = D.and_(a, ghost(state.g, "pend")[0])
        except AnalysisBroken:
            req, a = TRUE, ack
        for n in core.n_ack:
            ev.memo[int(n)] = a
        return ev, a, req

    def step(self, key, state, dat=None, ack=None, irq=None, word=None):
        core, D = self.core, self.D
        self.visits += 1
        f = self.inputs(key)
        dat = dat or f[0]
        ack = f[1] if ack is None else ack
        irq = f[2] if irq is None else irq
        if word is None:
            word = core.rom[key[0]]
        ev, a, req = self.evaluator(word, state, dat, ack, irq)
        r = NodeInfo()
        r.key, r.state, r.ev = key, state, ev
        r.ack, r.dat_r, r.irq = a, dat, irq
        # accepted: decoded in the cycle of its acknowledgement
        r.dodec = D.and_(ev.bit(core.n_decode), a)
        r.out = {k: ev.val(v) for k, v in core.bus.items()}
        r.exc = ev.bit(core.n_exc)
        nv = [ev.bit(core.data[i]) for i in range(core.nff)]
        # memories
        mem = state.mem
        wr = {}
        for w in self.d.wports:
            c = self.d.cells[w]
            if c.memory != core.ram:
                continue
            before = mem
            mem = self.write(mem, ev.val(c.en), ev.val(c.addr),
                             ev.val(c.data))
            wr[w] = (before, mem)
        for ci, off in core.rslots:
            c = self.d.cells[ci]
            addr = ev.val(c.addr)
            en = ev.bit(c.en)
            old = tuple(state.v[off:off + c.width])
            if en == FALSE:
                nv.extend(old)
                continue
            if c.memory == core.ram:
                m = state.mem
                ws = [w for w in self.d.wports
                      if self.d.cells[w].memory == core.ram]
                if c.transparent_for and set(ws) <= set(c.transparent_for):
                    m = mem
                elif c.transparent_for:
                    raise AnalysisBroken("read port transparent for a subset "
                                         f"of write ports at {loc(c)}")
                new = self.read(m, addr)
            else:
                new = self.read_rom(c, addr)
            nv.extend(D.mux(en, new, old))
        # ghosts
        g = list(state.g)
        done = D.and_(a, D.not_(r.dodec))
        if done != FALSE:
            n0, n1 = ghost(g, "n")
            inc = (D.not_(n0), D.or_(D.xor_(n1, n0), D.and_(n0, n1)))
            # saturating at 3
            inc = (D.or_(inc[0], D.and_(n0, n1)), inc[1])
            new = {"n": inc, "adr": r.out["adr"], "sel": r.out["sel"],
                   "we": r.out["we"], "dw": r.out["dat_w"], "dr": dat}
            for name, bits in new.items():
                o, w = GOFF[name]
                for i in range(w):
                    g[o + i] = D.ite(done, bits[i], g[o + i])
        o, _ = GOFF["pend"]
        g[o] = D.and_(req, D.not_(a))
        # successors
        adr = ev.val(core.n_romadr)
        r.adr = adr
        post = (tuple(nv), mem, tuple(g))
        r.edges = []
        for u, cond in self.targets(adr, state.pred):
            for ex in (False, True):
                c = D.and_(cond, r.dodec if ex else D.not_(r.dodec))
                if c == FALSE:
                    continue
                s = self.refine(State(c, *post), u, ex)
                r.edges.append(Edge(key, u, c, s, ex))
        return r

    def refine(self, s, u, ex):
        """State carried by an edge: simplified under the edge's predicate,
        with the facts implied by its destination."""
        D, p = self.D, s.pred
        cache = {}
        ps = D.support(p)

        def r(b):
            if b <= 1 or ps.isdisjoint(D.support(b)):
                return b
            return D.restrict(b, p, cache)
        v = [r(b) for b in s.v]
        for i, b in self.core.addr_constants(u).items():
            v[i] = b
        st = [(r(e), tuple(map(r, a)), tuple(map(r, d)))
              for e, a, d in s.mem.st]
        return State(p, tuple(v),
                     Mem(s.mem.base, [x for x in st if x[0] != FALSE]),
                     tuple(r(b) for b in s.g))

    def read_rom(self, c, addr):
        D = self.D
        m = self.d.cells[c.memory]
        k = D.constval(addr)
        if k is not None:
            v = m.init[k] if k < len(m.init) else 0
            return D.const(v, m.width)
        out = (FALSE,) * m.width
        for i in range(min(m.depth, 1 << len(addr))):
            v = m.init[i] if i < len(m.init) else 0
            if not v:
                continue
            sel = D.eq(addr, D.const(i, len(addr)))
            if sel != FALSE:
                out = D.mux(sel, D.const(v, m.width), out)
        return out

    def targets(self, adr, pred):
        """All (address, predicate) the address vector can take."""
        D = self.D
        out = []

        def rec(i, p, v):
            if p == FALSE:
                return
            if i < 0:
                out.append((v, p))
                return
            b = adr[i]
            if b == FALSE:
                rec(i - 1, p, v)
            elif b == TRUE:
                rec(i - 1, p, v | (1 << i))
            else:
                rec(i - 1, D.and_(p, D.not_(b)), v)
                rec(i - 1, D.and_(p, b), v | (1 << i))
        rec(len(adr) - 1, pred, 0)
        return out

    # ---- merging ---------------------------------------------------------
    def havoc_name(self, key, what):
        t, i = what[0], what[-1]
        if t == "s":
            group, bit = self.core.sgroup[i], i % 32
        elif t == "g":
            group = G_STATE if i < 3 else G_DATA
            bit = i % 32
        else:
            group, bit = (G_DATA, i) if isinstance(i, int) else (G_STATE, 0)
        a = self.D.atom(("phi", key) + what, group, bit)
        self.kranks.setdefault(key, set()).add(self.D.var[a])
        return a

    def stale(self, key, s):
        """Rewrite facts born at ``key`` in a state that re-enters it."""
        D = self.D
        k = self.kranks.get(key)
        if not k:
            return s
        hit = False
        v = list(s.v)
        for i, b in enumerate(v):
            if b > 1 and not k.isdisjoint(D.support(b)):
                v[i] = self.havoc_name(key, ("s", i))
        g = list(s.g)
        for i, b in enumerate(g):
            if b > 1 and not k.isdisjoint(D.support(b)):
                g[i] = self.havoc_name(key, ("g", i))
        st = []
        for j, (en, a, data) in enumerate(s.mem.st):
            def fix(x, t):
                if x > 1 and not k.isdisjoint(D.support(x)):
                    return self.havoc_name(key, ("m", j) + t)
                return x
            st.append((fix(en, ("en",)),
                       tuple(fix(x, ("a", i)) for i, x in enumerate(a)),
                       tuple(fix(x, ("d", i)) for i, x in enumerate(data))))
        pred = D.exists(s.pred, k)
        return State(pred, tuple(v), Mem(s.mem.base, st), tuple(g))

    def agree(self, p, q, pred):
        """p equals q wherever ``pred`` holds (cheap refusals first)."""
        D = self.D
        if p == q:
            return True
        if p <= 1 and q <= 1:
            return False
        s = D.support(pred)
        if D.support(p) - s != D.support(q) - s:
            return False
        return D.and_(D.and_(pred, p), D.not_(q)) == FALSE and \
            D.and_(D.and_(pred, q), D.not_(p)) == FALSE

    def mem_agree(self, x, y, pred):
        if x.base != y.base or len(x.st) != len(y.st):
            return False
        for s, t in zip(x.st, y.st):
            if not all(self.agree(p, q, pred) for p, q in
                       zip((s[0],) + s[1] + s[2], (t[0],) + t[1] + t[2])):
                return False
        return True

    def merge(self, key, a, b, sticky):
        D = self.D
        pred = D.or_(a.pred, b.pred)
        dis = D.and_(a.pred, b.pred) == FALSE

        def mbits(x, y, tag):
            out = []
            for i, (p, q) in enumerate(zip(x, y)):
                if (tag, i) in sticky:
                    out.append(self.havoc_name(key, (tag, i)))
                elif p == q or self.agree(p, q, b.pred):
                    out.append(p)
                elif self.agree(p, q, a.pred):
                    out.append(q)
                else:
                    # exact gated merge, unless it gets too large
                    m = D.within(MERGE, lambda: D.restrict(
                        D.ite(a.pred, p, q), pred)) if dis else None
                    if m is None:
                        sticky.add((tag, i))
                        m = self.havoc_name(key, (tag, i))
                    out.append(m)
            return tuple(out)
        v = mbits(a.v, b.v, "s")
        g = mbits(a.g, b.g, "g")
        if a.mem == b.mem or self.mem_agree(a.mem, b.mem, b.pred):
            mem = a.mem
        elif "mem" in sticky or a.mem.base != b.mem.base:
            sticky.add("mem")
            mem = Mem(("phi", key))
        elif dis:
            n = 0
            x, y = a.mem.st, b.mem.st
            while n < len(x) and n < len(y) and x[n] == y[n]:
                n += 1
            st = list(x[:n])
            st += [(D.and_(e, a.pred), ad, da) for e, ad, da in x[n:]]
            st += [(D.and_(e, b.pred), ad, da) for e, ad, da in y[n:]]
            mem = Mem(a.mem.base, st)
        else:
            sticky.add("mem")
            mem = Mem(("phi", key))
        return State(pred, v, mem, g)

    def partkey(self, s):
        D = self.D
        out = [D.constval(ghost(s.g, "pend"))]
        if not self.partition:
            return tuple(out)
        for sig in self.partsigs:
            c = D.constval(tuple(s.v[i] for i in sig))
            out.append(c)
        return tuple(out)

    def run(self, entry, limit=4000):
        """entry: list of (microaddress, State).  Returns {key: NodeInfo}
        at the fixpoint and the list of exit edges."""
        D = self.D
        if self.partition and not hasattr(self, "partsigs"):
            self.partsigs = self._partsigs()
        inc = {}       # key -> {source: State}
        sticky = {}
        cur = {}
        work = []

        def push(src, u, s):
            key = (u, self.partkey(s))
            s = self.stale(key, s)
            m = inc.setdefault(key, {})
            old = m.get(src)
            if old is not None and old.same(s):
                return key
            m[src] = s
            if src != key and key in m:
                # new external input: restart the local loop
                del m[key]
                sticky.pop(key, None)
                cur.pop(key, None)
            if key not in work:
                work.append(key)
            return key
        for n, (u, s) in enumerate(entry):
            push(("entry", n), u, s)
        infos = {}
        count = 0
        while work:
            key = work.pop(0)
            srcs = inc[key]
            stk = sticky.setdefault(key, set())
            acc = None
            for src in sorted(srcs, key=lambda x: (x == key, repr(x))):
                s = srcs[src]
                if s.pred == FALSE:
                    continue
                acc = s if acc is None else self.merge(key, acc, s, stk)
            if acc is None:
                continue
            if key in cur and cur[key].same(acc):
                continue
            cur[key] = acc
            count += 1
            if count > limit:
                raise Unproven(f"no fixpoint after {limit} visits "
                                     f"(last node {key})")
            info = self.step(key, acc)
            infos[key] = info
            for e in info.edges:
                if not e.exit:
                    e.dst = push(key, e.dst, e.state)
                else:
                    e.dst = (e.dst, ())
        # drop edges of nodes evaluated before their final state (cannot
        # happen: every change re-evaluates), collect exits
        exits = [e for i in infos.values() for e in i.edges if e.exit]
        return infos, exits

    def _partsigs(self):
        """Words used to partition the shift loops: ALU inputs/output."""
        sigs = []
        for ci in self.d.ffs:
            c = self.d.cells[ci]
            if len(c.data) >= 5:
                sigs.append(tuple(self.core.index[ci << 16 | b]
                                  for b in range(len(c.data))))
        return sigs
