"""Comparison of the dataflow result of an instruction class with the oracle,
observable by observable, at every edge on which the next instruction word is
accepted."""
from .dom import FALSE, TRUE, G_IN, G_DATA
from .core import ghost
from .flow import Flow
from .frontend import AnalysisBroken, Unproven, loc
from .machine import Machine
from . import spec

# observables
ASPECTS = ("pc", "rd", "gpr", "csr", "trapcsr", "mstatus", "bus_n", "bus_adr",
           "bus_sel", "bus_we", "bus_dw", "fetch")


class Finding:
    def __init__(self, cls, regime, aspect, what, path, where):
        self.cls, self.regime, self.aspect = cls, regime, aspect
        self.what, self.path, self.where = what, path, where

    def text(self):
        return (f"[{self.cls}/{self.regime}] {self.aspect}: {self.what}; "
                f"micropath {self.path}; at {self.where}")

    def key(self):
        return f"{self.cls}/{self.regime}/{self.aspect}"


class ClassResult:
    def __init__(self, name):
        self.name = name
        self.findings = []
        self.oblig = {}          # (regime, aspect) -> obligations compared
        self.nodes = []
        self.exits = []
        self.lat = None
        self.edges = 0
        self.bdd = 0
        self.visits = 0
        self.broken = None
        self.empty = False       # no word belongs to the class
        self.samples = []


class Checker:
    def __init__(self, machine=None):
        self.m = machine or Machine()
        self.core = self.m.core
        self._views = None
        self._lemma = None
        self.view_findings = []
        self.rowpat = None

    # ---- register and CSR views -----------------------------------------
    def gpr_row(self):
        """Row address of the register a source field selects, taken from
        the decoder: a pattern over the five field bits."""
        if self.rowpat is None:
            flow = Flow(self.core)
            D = flow.D
            insn = self.m.insn_atoms(D)
            info = self.m.generic_decode(flow, 0, insn)
            if len(self.core.gp_ports) != 1:
                raise AnalysisBroken("expected one register read port")
            c = self.core.d.cells[self.core.gp_ports[0]]
            pat = []
            for b in info.ev.val(c.addr):
                if b <= 1:
                    pat.append(("c", b))
                elif b in insn[15:20]:
                    pat.append(("f", insn.index(b) - 15))
                else:
                    raise Unproven(
                        "the first source register is not read while the "
                        f"instruction word is accepted ({loc(c)})")
            if sorted(i for t, i in pat if t == "f") != list(range(5)):
                raise Unproven("register row address does not cover "
                                     f"the rs1 field ({loc(c)})")
            self.rowpat = pat
        return self.rowpat

    def row(self, field):
        return tuple(b if t == "c" else field[b] for t, b in self.gpr_row())

    def port(self, D, f):
        """Dom-independent form of a diagram."""
        if f <= 1:
            return f
        r = D.var[f]
        return (D.name[r], r >> 48, (r >> 32) & 0xffff,
                self.port(D, D.lo[f]), self.port(D, D.hi[f]))

    def csr_views(self):
        """What a read of each CSR returns, as a function of the state at the
        instruction boundary: the abstraction function of the CSR file.  A
        CSR without a usable read has no view (and a finding)."""
        if self._views is not None:
            return self._views
        out = {}
        self.view_findings = []
        self.row_locs = {}
        for name, addr in spec.CSRS.items():
            word = addr << 20 | 2 << 12 | 1 << 7 | 0x73   # csrrs x1, csr, x0
            fx = {i: word >> i & 1 for i in range(32)}
            out[name] = None

            def bad(what, path="-", where="?"):
                self.view_findings.append(Finding(
                    f"csrr:{name}", "normal", "rd", what, path, where))
            try:
                r = self.m.run(f"read:{name}", fx)
            except Unproven as e:
                bad(str(e))
                continue
            D = r.D
            vals = []
            one = tuple(D.const(1, 5))
            for e in r.exits:
                st = e.state
                hit = [s for s in st.mem.st if s[1] == self.row(one)]
                if st.mem.base != "M" or not hit:
                    continue
                en, _, data = hit[-1]
                c = D.and_(en, e.cond)
                if c == FALSE:
                    continue
                vals.append((tuple(D.restrict(b, c) for b in data), e.src))
            if not vals:
                bad(f"no path of 'csrr x1, {name}' writes x1")
                continue
            v, key = vals[0]
            path = self.path(r, key)
            if any(w != v for w, _ in vals[1:]):
                bad(f"'csrr x1, {name}' returns different values on its "
                    "paths", path)
            ok = []
            for i, b in enumerate(v):
                for n in D.support_names([b]):
                    if n[0] == "h" or n[0][0] == "mem":
                        continue
                    if n[0][0] == "in" and n[1] == "irq":
                        continue
                    bad(f"'csrr x1, {name}' bit {i} depends on {n}", path)
                    ok = None
                    break
                if ok is None:
                    break
                ok.append(self.port(D, b))
            out[name] = ok
        self._views = out
        return out

    def view(self, flow, name, sub=None):
        """CSR value in ``flow``'s terms; ``sub(atom name, default)`` gives
        the replacement of a boundary fact."""
        D = flow.D

        def conv(p):
            if p in (0, 1):
                return p
            n, g, b, lo, hi = p
            if n[0] == "h":
                a = D.atom(n, g, b)
            elif n[0][0] == "mem":
                (_, base, addr), i = n
                a = flow.read_base(base, addr)[i]
            else:
                a = D.atom(("irqview",), G_IN)
            if sub:
                a = sub(n, a)
            return D.ite(a, conv(hi), conv(lo))
        v = self.csr_views()[name]
        if v is None:
            return tuple(D.atom(("noview", name, i), G_DATA, i)
                         for i in range(32))
        return tuple(conv(b) for b in v)

    def post_view(self, flow, st, name):
        def post(n, a):
            if n[0] == "h":
                return st.v[n[1]]
            if n[0][0] == "mem":
                (_, base, addr), i = n
                return flow.read(st.mem, addr)[i]
            return a
        return self.view(flow, name, post)

    # ---- the instruction boundary ----------------------------------------
    def boundary_lemma(self):
        """Whatever microword is driving the core when a next instruction
        word is accepted, the resulting state is the generic boundary state
        every instruction analysis starts from.  Returns (findings,
        obligations, microwords)."""
        if self._lemma is not None:
            return self._lemma
        core, m = self.core, self.m
        out, n = [], 0
        words = m.accepting()[0]
        for u in words:
            flow = Flow(core)
            D = flow.D
            insn = m.insn_atoms(D)
            try:
                start, v, fun = m.boundary(flow, insn)
            except Unproven as e:
                out.append(Finding("boundary", "accept", "fetch", str(e),
                                   hex(u), core.word_loc(u)))
                break
            info = m.generic_decode(flow, u, insn)

            def bad(aspect, what):
                out.append(Finding("boundary", "accept", aspect, what,
                                   hex(u), core.word_loc(u)))
            for e in info.edges:
                if not e.exit:
                    # an acknowledgement that is not an instruction word
                    continue
                if e.dst != start:
                    bad("pc", "an accepted instruction word is dispatched to "
                        f"microword {e.dst:#x} instead of {start:#x}")
                n += len(fun)
                rs1 = self.row(insn[15:20])
                exp = flow.read(e.state.mem, rs1)
                o = core.gp_slot
                got = e.state.v[o:o + 32]
                n += 32
                if tuple(got) != tuple(exp):
                    w = [i for i in range(32) if D.and_(
                        e.cond, D.xor_(got[i], exp[i])) != FALSE]
                    if w:
                        bad("decode", "the first source register is not read "
                            "(with this cycle's register write) while the "
                            f"instruction word is accepted, bits {_bits(w)}")
        self._lemma = (out, n, words)
        return self._lemma

    # ---- one class -------------------------------------------------------
    def run_class(self, cls, want=None):
        res = ClassResult(cls.name)
        known = None
        if cls.shamt is not None:
            def known(D, insn, k=cls.shamt):
                a = self.row(insn[20:25])
                return {("M", a): {i: k >> i & 1 for i in range(5)}}
        fixed = cls.fixed()
        try:
            r = self.m.run(cls.name, fixed, cls.pred, known=known,
                           partition=cls.group == "shift")
        except Unproven as e:
            res.findings.append(Finding(cls.name, "any", "progress", str(e),
                                        "-", "?"))
            return res, None
        self.compare(cls, r, res, want)
        return res, r

    def path(self, r, key):
        """A shortest microaddress path from dispatch to ``key``."""
        start = (r.start, r.flow.partkey(r.s0))
        prev = {start: None}
        todo = [start]
        while todo:
            k = todo.pop(0)
            if k == key:
                break
            info = r.infos.get(k)
            if info is None:
                continue
            for e in info.edges:
                if not e.exit and e.dst not in prev:
                    prev[e.dst] = k
                    todo.append(e.dst)
        out = []
        k = key
        while k is not None:
            out.append(k[0])
            k = prev.get(k)
        return "->".join(hex(x) for x in reversed(out))

    def compare(self, cls, r, res, want):
        D, flow, core = r.D, r.flow, self.core
        insn = r.insn
        res.nodes = sorted({k[0] for k in r.infos})
        res.visits = flow.visits
        if r.pred == FALSE:
            res.empty = True
            return
        if not r.exits:
            last = max((k[0] for k in r.infos), default=r.start)
            res.findings.append(Finding(
                cls.name, "any", "progress", "no path of the instruction "
                "reaches the acceptance of a next instruction word",
                self.path(r, (r.start, r.flow.partkey(r.s0))),
                core.word_loc(last)))
            return
        res.exits = sorted({e.src[0] for e in r.exits})

        def x(field):
            return flow.read_base("M", self.row(field))
        vi = {n: i for i, n in enumerate(r.s0.v) if n > 1}

        def pre_h(n, a):
            if n[0] == "h":
                return r.s0.v[n[1]]
            return a
        pre = {c: self.view(flow, c, pre_h) for c in spec.CSRS}
        pcbits = [core.index[int(n)] for n in core.n_pc]
        pc = (FALSE, FALSE) + tuple(r.s0.v[i] for i in pcbits)
        ctx = spec.Ctx(D, insn, pc, x, pre)
        eff = cls.effect(ctx)
        # interrupt predicate: enabled and sampled asserted
        samples = set()
        for e in r.exits:
            mc = list(self.post_view(flow, e.state, "mcause"))
            for b in [e.cond] + [e.state.v[i] for i in pcbits] + mc:
                for n in D.support_names([b]):
                    if n[0] != "h" and n[0][0] == "in" and n[1] == "irq":
                        samples.add(n)
        res.samples = sorted({n[0][1][0] for n in samples})
        irq = D.any_(D.atom(n, G_IN) for n in sorted(samples, key=repr))
        T = D.all_([pre["mie"][11], pre["mstatus"][3], irq])
        sync = D.any_(c for c, _ in eff.trap)
        regimes = {"interrupt": T,
                   "exception": D.and_(D.not_(T), sync),
                   "normal": D.and_(D.not_(T), D.not_(sync))}
        if not samples:
            res.findings.append(Finding(
                cls.name, "interrupt", "pc",
                "no path tests the interrupt line", "-",
                loc(core.d.cells[core.n_exc >> 16])))
        cause = ctx.k(0)
        for c, k in reversed(eff.trap):
            cause = D.mux(c, ctx.k(k), cause)
        res.regime = (sync, T, eff)
        probe = D.word("probe", 5, 4)
        rd = insn[7:12]
        for e in r.exits:
            for reg, rp in regimes.items():
                if want and reg not in want:
                    continue
                p = D.and_(e.cond, rp)
                if p == FALSE:
                    continue
                res.edges += 1
                self.compare_edge(cls, r, res, e, reg, p, eff, ctx, pre,
                                  cause, probe, rd, pcbits)
        res.bdd = len(D.var)

    def compare_edge(self, cls, r, res, e, reg, p, eff, ctx, pre, cause,
                     probe, rd, pcbits):
        D, flow, core = r.D, r.flow, self.core
        st = e.state
        info = r.infos[e.src]

        def bad(aspect, what, where):
            res.findings.append(Finding(cls.name, reg, aspect, what,
                                        self.path(r, e.src), where))

        def same(aspect, got, exp, what, where, care=p):
            res.oblig[reg, aspect] = res.oblig.get((reg, aspect), 0) \
                + len(got)
            w = [i for i, (a, b) in enumerate(zip(got, exp))
                 if a != b and D.and_(care, D.xor_(a, b)) != FALSE]
            if w:
                i = w[0]
                bad(aspect, f"{what} bit(s) {_bits(w)} differ: computed "
                    f"{D.describe(D.restrict(got[i], care))}, required "
                    f"{D.describe(D.restrict(exp[i], care))}", where)
        normal = reg == "normal"
        # program counter
        npc = eff.pc if normal else pre["mtvec"]
        pcw = core.d.cells[core.n_pc[0] >> 16]
        same("pc", tuple(st.v[i] for i in pcbits), npc[2:],
             "next program counter (word)", loc(pcw))
        # fetch transaction of the next instruction
        out = info.out
        fl = loc(core.d.cells[core.bus["cyc"][0] >> 16]) \
            if core.bus["cyc"][0] > 1 else "?"
        same("fetch", out["adr"], tuple(st.v[i] for i in pcbits),
             "fetch address vs program counter", fl)
        same("fetch", out["sel"], (TRUE,) * 4, "fetch byte lanes", fl)
        same("fetch", out["we"] + out["cyc"] + out["stb"],
             (FALSE, TRUE, TRUE), "fetch we/cyc/stb", fl)
        # general registers
        wloc = loc(core.d.cells[core.d.wports[0]])
        row = self.row(probe)
        got = flow.read(st.mem, row)
        old = flow.read_base("M", row)
        isrd = D.all_(D.xnor(a, b) for a, b in zip(probe, rd))
        isrd = D.and_(isrd, D.any_(probe))
        if st.mem.base != "M":
            bad("gpr", "register contents are lost on a loop", wloc)
        else:
            if normal and eff.rd is not None:
                v = eff.rd
                if callable(v):
                    v = v(ghost(st.g, "dr"))
                care = D.and_(p, isrd)
                if cls.name.endswith(":mip"):
                    v = self.mip_read(D, r, got, v, care)
                same("rd", got, v, "destination register", wloc, care)
                same("gpr", got, old, "other registers", wloc,
                     D.and_(p, D.not_(isrd)))
            else:
                same("gpr", got, old, "registers", wloc)
        # CSRs
        exp = dict(pre)
        if normal:
            exp.update(eff.csr)
        else:
            exp["mepc"] = (FALSE, FALSE) + tuple(ctx.pc[2:])
            exp["mcause"] = ctx.k(spec.CAUSE_MEI) if reg == "interrupt" \
                else cause
            s = list(pre["mstatus"])
            s[7], s[3] = s[3], FALSE
            exp["mstatus"] = tuple(s)
        for c in spec.CSRS:
            if self._views[c] is None:
                continue
            asp = "mstatus" if c == "mstatus" else \
                "trapcsr" if c in ("mepc", "mcause") else "csr"
            same(asp, self.post_view(flow, st, c), exp[c], f"CSR {c}",
                 self.csr_loc(c))
        # data bus transaction
        n = ghost(st.g, "n")
        d = eff.data if normal else None
        bl = loc(core.d.cells[core.bus["adr"][0] >> 16]) \
            if core.bus["adr"][0] > 1 else "?"
        same("bus_n", n, (TRUE if d else FALSE, FALSE),
             "number of data bus transactions", fl)
        if d:
            same("bus_adr", ghost(st.g, "adr"), d["adr"],
                 "data transaction address", bl)
            same("bus_sel", ghost(st.g, "sel"), d["sel"],
                 "data transaction byte lanes", bl)
            same("bus_we", ghost(st.g, "we"), (d["we"],),
                 "data transaction direction", bl)
            if d["dw"] is not None:
                dw = ghost(st.g, "dw")
                for lane in range(4):
                    same("bus_dw", dw[8*lane:8*lane+8],
                         d["dw"][8*lane:8*lane+8], f"store data lane {lane}",
                         bl, D.and_(p, d["sel"][lane]))

    def mip_read(self, D, r, got, v, care):
        """mip.meip reads as the interrupt line in some cycle of the
        instruction."""
        v = list(v)
        irqs = {}
        for key in r.infos:
            a = D.atom((("in", key), "irq"), G_IN)
            irqs[D.var[a]] = a
        open_ = care                     # conditions not yet explained
        val = got[11]
        for a in irqs.values():
            diff = D.exists(D.and_(care, D.xor_(got[11], a)), set(irqs))
            if D.and_(open_, D.not_(diff)) != FALSE:
                val = D.ite(D.not_(diff), a, val)
                open_ = D.and_(open_, diff)
        if open_ == FALSE:
            v[11] = val
        return tuple(v)

    def csr_loc(self, name):
        core = self.core
        if name == "mstatus":
            return loc(core.d.cells[core.n_mstatus[3] >> 16])
        if name == "mie":
            return loc(core.d.cells[core.n_mie[11] >> 16])
        return loc(core.d.cells[core.d.wports[0]])


def _bits(w):
    out = []
    for i in w:
        if out and out[-1][1] == i - 1:
            out[-1][1] = i
        else:
            out.append([i, i])
    return ",".join(str(a) if a == b else f"{a}-{b}" for a, b in out)
