"""Instruction boundary abstraction and per-instruction dataflow runs."""
from .dom import Dom, FALSE, TRUE, G_INSN
from .core import Core, Mem, State, GLEN, GOFF, ghost
from .flow import Flow
from .frontend import AnalysisBroken, Unproven, loc


class Run:
    """Fixpoint of one instruction context."""

    def __init__(self, m, name, insn, pred, flow, start, s0, infos, exits):
        self.m, self.name, self.insn, self.pred = m, name, insn, pred
        self.flow, self.D = flow, flow.D
        self.start, self.s0 = start, s0
        self.infos, self.exits = infos, exits


class Machine:
    def __init__(self, core=None):
        self.core = core or Core()
        self.consts = self.core.constants()
        self._accept = None

    def havoc(self, flow, u=None, tag="h"):
        """Unconstrained state (at microaddress ``u``)."""
        D, core = flow.D, self.core
        v = []
        nc = None
        if u is not None:
            nc = core.node_constants().get(u)
            if nc is None:
                raise AnalysisBroken(f"microword {u} is unreachable")
            nc = nc[0]
        ac = {} if u is None else core.addr_constants(u)
        for i, n in enumerate(core.sbits):
            c = self.consts.get(i)
            if c is None:
                c = ac.get(i)
            if c is None and nc is not None and nc[i] != 2:
                c = nc[i]
            v.append(c if c is not None else
                     D.atom((tag, i), core.sgroup[i], n & 0xffff))
        return v

    def ghost0(self, pend):
        g = [FALSE] * GLEN
        g[GOFF["pend"][0]] = pend
        return tuple(g)

    def generic_decode(self, flow, u, insn):
        """Clock edge that accepts an instruction word, from an otherwise
        unconstrained state at microaddress ``u``."""
        s = State(TRUE, tuple(self.havoc(flow, u)), Mem("M"),
                  self.ghost0(TRUE))
        return flow.step((u, "fetch", insn), s, dat=insn, ack=TRUE)

    def accepting(self):
        """Microwords under which an instruction word can be accepted, and
        the state bits on whose value all of them agree as a function of the
        accepted word: the facts of the instruction boundary."""
        if self._accept is not None:
            return self._accept
        core = self.core
        flow = Flow(core)
        D = flow.D
        insn = self.insn_atoms(D)
        iranks = D.support(D.any_(insn))
        words, infos = [], {}
        for u, (_, pend) in sorted(core.node_constants().items()):
            if pend == 0:      # no request of the previous cycle is pending
                continue
            info = self.generic_decode(flow, u, insn)
            if info.dodec == FALSE:
                continue
            words.append(u)
            infos[u] = [e for e in info.edges if e.exit]
        if not words:
            raise AnalysisBroken("no microword accepts an instruction word")
        start = infos[words[0]][0].dst
        ref = infos[words[0]][0].state.v
        fun = []
        for i in range(core.nff):
            b = ref[i]
            care = TRUE
            if b > 1:
                # the words for which the bit depends on the word only
                other = D.support(b) - iranks - D.pure
                if other:
                    hi = D.exists(b, other)
                    lo = D.not_(D.exists(D.not_(b), other))
                    care = D.xnor(hi, lo)
                    if care == FALSE:
                        continue
            if all(e.state.v[i] == b or D.all_(
                   [care, e.cond, D.xor_(e.state.v[i], b)]) == FALSE
                   for u in words for e in infos[u]):
                fun.append(i)
        self._accept = words, start, frozenset(fun)
        return self._accept

    def boundary(self, flow, insn):
        """(microaddress, vector) right after ``insn`` was accepted.  Bits
        that are a function of the instruction word keep it, the register
        read port holds the first source register, everything else is
        unconstrained."""
        D, core = flow.D, self.core
        words, start, fun = self.accepting()
        info = self.generic_decode(flow, words[0], insn)
        ex = [e for e in info.edges if e.exit]
        if len(ex) != 1 or len(info.edges) != 1:
            raise Unproven("the fetch microword does not accept an "
                           "acknowledged instruction word")
        e = ex[0]
        hv = self.havoc(flow)
        isup = D.support_names(insn)
        v = [b if i >= core.nff or (i in fun and (
             b <= 1 or D.support_names([b]) <= isup)) else hv[i]
             for i, b in enumerate(e.state.v)]
        self.extra_boundary(flow, e.state, hv, v)
        if e.state.mem != Mem("M"):
            raise Unproven("the fetch microword writes registers")
        return e.dst, v, fun

    def extra_boundary(self, flow, st, hv, v):
        """Hook: boundary facts of instrumentation around the core."""

    def dispatch(self, flow, u, s0):
        """The microword after acceptance is chosen by the accepted word, the
        interrupt line and the interrupt-enable bits alone."""
        core, D = self.core, flow.D
        info = flow.step((u, ("dispatch",)), s0)
        ok = D.support_names([info.ev.bit(n) for n in
                              (core.n_mie[11], core.n_mstatus[3])])
        for b in info.adr:
            for n in D.support_names([D.restrict(b, s0.pred)]):
                if n[0] == "h" and n not in ok:
                    where = loc(core.d.cells[core.sbits[n[1]] >> 16])
                    raise Unproven(
                        "what the core does after accepting the instruction "
                        "word depends on a fact that the word does not "
                        f"determine: the register at {where}; microword "
                        f"{core.word_loc(u)}")

    def insn_atoms(self, D, fixed=None):
        """Instruction word: ``fixed`` maps bit position to a constant."""
        fixed = fixed or {}
        return tuple(fixed[i] if i in fixed else D.atom(("insn", i), G_INSN, i)
                     for i in range(32))

    def run(self, name, fixed, pred=None, rows=None, known=None,
            partition=False):
        flow = Flow(self.core, Dom(), rows=rows)
        D = flow.D
        insn = self.insn_atoms(D, fixed)
        if known:
            flow.known.update(known(D, insn))
        flow.partition = partition
        p = pred(D, insn) if pred else TRUE
        u, v, _ = self.boundary(flow, insn)
        s0 = State(p, tuple(v), Mem("M"), self.ghost0(FALSE))
        self.dispatch(flow, u, s0)
        infos, exits = flow.run([(u, s0)])
        return Run(self, name, insn, p, flow, u, s0, infos, exits)
