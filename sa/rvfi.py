"""RISC-V Formal Interface of FormalTop: at every edge on which the next
instruction word is accepted, the trace port must report the instruction that
just retired.  The reference is the core inside the same netlist (its program
counter, register memory, CSR views and bus transfers), related to the port by
the same dataflow that decides the core properties."""
from .dom import FALSE, TRUE
from .core import Core, Mem, ghost
from .check import Checker, Finding, _bits
from .frontend import AnalysisBroken, Design, loc
from .machine import Machine
from . import spec

PORTS = ("valid", "order", "insn", "trap", "halt", "intr", "mode", "ixl",
         "rs1_addr", "rs2_addr", "rs1_rdata", "rs2_rdata", "rd_addr",
         "rd_wdata", "pc_rdata", "pc_wdata", "mem_addr", "mem_rmask",
         "mem_wmask", "mem_rdata", "mem_wdata")
# read-only-zero CSRs with a trace port: name -> (address, half of the port)
RO0 = {"mvendorid": [(0xF11, 0)], "marchid": [(0xF12, 0)],
       "mimpid": [(0xF13, 0)], "mhartid": [(0xF14, 0)],
       "mconfigptr": [(0xF15, 0)], "misa": [(0x301, 0)],
       "mstatush": [(0x310, 0)], "mtval": [(0x343, 0)],
       "mcycle": [(0xB00, 0), (0xB80, 1)],
       "minstret": [(0xB02, 0), (0xB82, 1)],
       "mhpmcounter3": [(0xB03, 0), (0xB83, 1)],
       "mcountinhibit": [(0x320, 0)], "mhpmevent3": [(0x323, 0)]}


def sources(cls):
    """(reads rs1, reads rs2) by instruction format."""
    op = cls.match & 0x7F
    if cls.group == "illegal" or cls.mask & 0x7F != 0x7F:
        return False, False
    if op == 0x73:
        return cls.group in ("csr", "csr0") and not cls.match >> 14 & 1, False
    return op in (0x33, 0x13, 0x03, 0x23, 0x63, 0x67), \
        op in (0x33, 0x23, 0x63)


class FormalCore(Core):
    def __init__(self):
        try:
            from sentinel.formal import FormalTop
        except ImportError as e:
            raise AnalysisBroken(f"cannot import sentinel.formal: {e}") from e
        comp = FormalTop()
        super().__init__(design=Design(comp), top=comp.cpu)
        N = self.d.nets
        r = comp.rvfi
        try:
            self.rvfi = {k: N(getattr(r, k)) for k in PORTS}
            for k in ("order", "intr"):
                self.rvfi[k] = self.registers(self.rvfi[k])
            self.rcsr = {c: {k: N(getattr(getattr(r.csr, c), k))
                             for k in ("rmask", "wmask", "rdata", "wdata")}
                         for c in list(spec.CSRS) + list(RO0)}
        except AttributeError as e:
            raise AnalysisBroken(f"trace port member vanished: {e}") from e
        # the analysed bus is the one of the documented top level
        b = comp.bus
        for k in ("adr", "dat_w", "sel", "cyc", "stb", "we"):
            if N(getattr(b, k)) != self.bus[k]:
                raise AnalysisBroken(f"FormalTop.bus.{k} is not the core's")


class FormalMachine(Machine):
    """Adds the facts about the instrumentation that hold whenever an
    instruction word has just been accepted."""

    def __init__(self):
        super().__init__(FormalCore())
        self._facts = None

    def facts(self):
        if self._facts is not None:
            return self._facts
        from .flow import Flow
        core = self.core
        words = self.accepting()[0]
        flow = Flow(core)
        D = flow.D
        insn = self.insn_atoms(D)
        pcb = {}
        alias = ports = None
        for u in words:
            info = self.generic_decode(flow, u, insn)
            for e in info.edges:
                if not e.exit:
                    continue
                pos = {}
                for j, n in enumerate(core.n_pc):
                    pos.setdefault(e.state.v[core.index[int(n)]], j)
                own = {core.index[int(n)] for n in core.n_pc}
                al = {i: pos[b] for i, b in enumerate(e.state.v[:core.nff])
                      if b > 1 and i not in own and b in pos}
                pt = {}
                for ci, off in core.rslots:
                    c = core.d.cells[ci]
                    if ci in core.gp_ports or c.memory != core.ram:
                        continue
                    addr = info.ev.val(c.addr)
                    ok = D.and_(e.cond, D.not_(info.ev.bit(c.en))) == FALSE
                    pat = tuple(("c", b) if b <= 1 else
                                ("i", insn.index(b)) if b in insn else None
                                for b in addr)
                    if not ok or None in pat or \
                            all(k == "c" for k, _ in pat):
                        continue
                    exp = flow.read(e.state.mem, addr)
                    got = e.state.v[off:off + 32]
                    if all(a == b or D.and_(e.cond, D.xor_(a, b)) == FALSE
                           for a, b in zip(got, exp)):
                        pt[ci] = pat
                if alias is None:
                    alias, ports = al, pt
                else:
                    alias = {i: j for i, j in alias.items()
                             if al.get(i) == j}
                    ports = {c: p for c, p in ports.items()
                             if pt.get(c) == p}
        self._facts = alias or {}, ports or {}
        return self._facts

    def extra_boundary(self, flow, st, hv, v):
        core = self.core
        alias, ports = self.facts()
        insn = self._insn
        for ci, off in core.rslots:
            if ci in core.gp_ports:
                continue
            w = core.d.cells[ci].width
            if ci in ports:
                addr = tuple(b if k == "c" else insn[b]
                             for k, b in ports[ci])
                v[off:off + w] = flow.read_base("M", addr)
            else:
                v[off:off + w] = hv[off:off + w]
        pcb = [core.index[int(n)] for n in core.n_pc]
        for i, j in alias.items():
            v[i] = v[pcb[j]]

    def boundary(self, flow, insn):
        self._insn = insn
        return super().boundary(flow, insn)


class FormalChecker(Checker):
    def __init__(self):
        super().__init__(FormalMachine())

    def compare(self, cls, r, res, want):
        super().compare(cls, r, res, want)
        core, D = self.core, r.D
        # no retirement is reported on any other edge
        for key, info in r.infos.items():
            v = info.ev.bit(core.rvfi["valid"][0])
            n = ("any", "valid")
            res.oblig[n] = res.oblig.get(n, 0) + 1
            if D.all_([info.state.pred, v, D.not_(info.dodec)]) != FALSE:
                res.findings.append(Finding(
                    cls.name, "any", "valid", "a retirement is reported "
                    "while no next instruction word is accepted",
                    self.path(r, key), core.word_loc(key[0])))

    def compare_edge(self, cls, r, res, e, reg, p, eff, ctx, pre, cause,
                     probe, rd, pcbits):
        D, flow, core = r.D, r.flow, self.core
        st, info, insn = e.state, r.infos[e.src], r.insn

        def bad(aspect, what, where):
            res.findings.append(Finding(cls.name, reg, aspect, what,
                                        self.path(r, e.src), where))

        def where(nets):
            c = next((int(n) >> 16 for n in nets if int(n) > 1), 0)
            return loc(core.d.cells[c]) if c else "constant"

        def same(aspect, name, exp, care=p, nets=None, part=slice(None)):
            nets = (nets or core.rvfi[name])[part]
            got = info.ev.val(nets)
            exp = tuple(exp)
            res.oblig[reg, aspect] = res.oblig.get((reg, aspect), 0) \
                + len(got)
            w = [i for i, (a, b) in enumerate(zip(got, exp))
                 if a != b and D.and_(care, D.xor_(a, b)) != FALSE]
            if w:
                i = w[0]
                bad(aspect, f"rvfi.{name} bit(s) {_bits(w)} differ: reported "
                    f"{D.describe(D.restrict(got[i], care))}, required "
                    f"{D.describe(D.restrict(exp[i], care))}", where(nets))
        k = ctx.k
        normal = reg == "normal"
        trap = FALSE if normal else TRUE
        # retirement
        same("valid", "valid", (TRUE,))
        same("valid", "insn", insn)
        same("valid", "trap", (trap,))
        same("valid", "halt", (FALSE,))
        same("valid", "mode", (TRUE, TRUE))
        same("valid", "ixl", (TRUE, FALSE))
        pre_pc = (FALSE, FALSE) + tuple(r.s0.v[i] for i in pcbits)
        post_pc = (FALSE, FALSE) + tuple(st.v[i] for i in pcbits)
        same("pc", "pc_rdata", pre_pc)
        same("pc", "pc_wdata", post_pc)

        # order and intr of the next instruction
        def nxt(name, exp):
            nets = core.rvfi[name]
            try:
                idx = [core.index[int(n)] for n in nets]
            except KeyError:
                raise AnalysisBroken(f"rvfi.{name} is not a register")
            got = tuple(st.v[i] for i in idx)
            res.oblig[reg, "order"] = res.oblig.get((reg, "order"), 0) \
                + len(got)
            w = [i for i, (a, b) in enumerate(zip(got, exp))
                 if a != b and D.and_(p, D.xor_(a, b)) != FALSE]
            if w:
                bad("order", f"rvfi.{name} of the next instruction, bit(s) "
                    f"{_bits(w)}: {D.describe(D.restrict(got[w[0]], p))}",
                    where(nets))
        now = info.ev.val(core.rvfi["order"])
        nxt("order", D.add(now, k(1, 64)))
        nxt("intr", (trap,))
        oi = [core.index[int(n)] for n in core.rvfi["order"]]
        if now != tuple(r.s0.v[i] for i in oi):
            bad("order", "rvfi.order changes while the instruction executes",
                where(core.rvfi["order"]))
        # source registers: what an instruction reads is named; whatever
        # register is named, its value is the one before the instruction
        use1, use2 = sources(cls)
        for nm, f, use in (("rs1", insn[15:20], use1),
                           ("rs2", insn[20:25], use2)):
            if use:
                same("rs", nm + "_addr", f)
            a = info.ev.val(core.rvfi[nm + "_addr"])
            nz = D.any_(a)
            fa = D.all_(D.xnor(u, v) for u, v in zip(a, f))
            x = flow.read_base("M", self.row(f))
            if D.and_(p, D.not_(fa)) != FALSE:
                x = D.mux(fa, x, flow.read_base("M", self.row(a)))
            same("rs", nm + "_rdata", x, D.and_(p, nz))
            same("rs", nm + "_rdata", tuple(
                D.and_(b, o) for b, o in zip(
                    x, info.ev.val(core.rvfi[nm + "_rdata"]))),
                D.and_(p, D.not_(nz)))
        # destination register
        if normal and eff.rd is not None:
            v = flow.read(st.mem, self.row(rd))
            nz = D.any_(rd)
            same("rd", "rd_addr", rd)
            same("rd", "rd_wdata", v, D.and_(p, nz))
            same("rd", "rd_wdata", k(0), D.and_(p, D.not_(nz)))
        else:
            same("rd", "rd_addr", (FALSE,) * 5)
            same("rd", "rd_wdata", k(0))
        # memory
        d = eff.data if normal else None
        if d is None:
            same("mem", "mem_rmask", (FALSE,) * 4)
            same("mem", "mem_wmask", (FALSE,) * 4)
        else:
            g = {x: ghost(st.g, x) for x in ("adr", "sel", "dw", "dr")}
            same("mem", "mem_addr", (FALSE, FALSE) + g["adr"])
            ld = d["we"] == FALSE
            same("mem", "mem_rmask", g["sel"] if ld else (FALSE,) * 4)
            same("mem", "mem_wmask", (FALSE,) * 4 if ld else g["sel"])
            for lane in range(4):
                q = D.and_(p, g["sel"][lane])
                s = slice(8 * lane, 8 * lane + 8)
                same("mem", "mem_rdata" if ld else "mem_wdata",
                     g["dr" if ld else "dw"][s], q, part=s)
        self.csrs(cls, r, st, info, reg, p, eff, ctx, pre, same)

    def csrs(self, cls, r, st, info, reg, p, eff, ctx, pre, same):
        D, core, insn = r.D, self.core, r.insn
        if reg != "normal":
            return
        for c in spec.CSRS:
            ports = core.rcsr[c]
            same("csrmask", f"csr.{c}.rmask", (TRUE,) * 32,
                 nets=ports["rmask"])
            same("csrmask", f"csr.{c}.wmask", (TRUE,) * 32,
                 nets=ports["wmask"])
            if self._views[c] is None:
                continue
            if c == "mip":
                continue
            if c == "mstatus" and cls.name == "mret":
                continue
            same("csr", f"csr.{c}.rdata", pre[c], nets=ports["rdata"])
        if cls.group == "csr":
            op, c = cls.name.split(":")
            f3 = spec.CSR_OPS[op]
            if c == "mip" or self._views[c] is None:
                return
            wr, new = spec._csr_new(ctx, f3, pre[c])
            same("csr", f"csr.{c}.wdata", new, D.and_(p, wr),
                 nets=core.rcsr[c]["wdata"])
        elif cls.group == "csr0":
            f3 = spec.CSR_OPS[cls.name.split(":")[0]]
            wr, new = spec._csr_new(ctx, f3, ctx.k(0))
            for c, hs in RO0.items():
                ports = core.rcsr[c]
                for a, hi in hs:
                    here = D.and_(p, D.all_(
                        b if a >> i & 1 else D.not_(b)
                        for i, b in enumerate(insn[20:32])))
                    n = len(ports["wdata"])
                    h = slice(32 * hi, 32 * hi + 32)
                    same("csr0", f"csr.{c}.rdata", (FALSE,) * n, here,
                         nets=ports["rdata"])
                    same("csr0", f"csr.{c}.rmask", (TRUE,) * n, here,
                         nets=ports["rmask"])
                    same("csr0", f"csr.{c}.wmask",
                         tuple(TRUE if i // 32 == hi else FALSE
                               for i in range(n)), here,
                         nets=ports["wmask"])
                    same("csr0", f"csr.{c}.wdata", new, D.and_(here, wr),
                         nets=ports["wdata"], part=h)

    def reset_hook(self, flow, infos, exits, bad, stats):
        """From reset to the first accepted instruction word: nothing is
        reported, and the trace starts with order 0 and no handler."""
        D, core = flow.D, self.core
        for key, info in infos.items():
            stats["obligations"] += 1
            v = info.ev.bit(core.rvfi["valid"][0])
            if D.and_(info.state.pred, v) != FALSE:
                bad("retire", "a retirement is reported before any "
                    "instruction was executed", hex(key[0]),
                    core.word_loc(key[0]))
        for e in exits:
            for n, w in (("order", 64), ("intr", 1)):
                stats["obligations"] += w
                for b in core.rvfi[n]:
                    v = e.state.v[core.index[int(b)]] if int(b) > 1 \
                        else int(b)
                    if D.and_(e.cond, v) != FALSE:
                        bad("retire", f"rvfi.{n} is not 0 for the first "
                            "instruction after reset", hex(e.src[0]),
                            loc(core.d.cells[int(b) >> 16]))
                        break
