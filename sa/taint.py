"""Information-flow rule: what an instruction leaves behind -- and which way
the microprogram goes -- depends on the instruction word, the architectural
state, the interrupt line and *acknowledged* read data only; not on left-over
internal registers, nor on bus data in cycles without an acknowledgement."""
from .dom import FALSE, TRUE
from .core import ghost
from .check import Finding
from .frontend import loc
from . import spec


def arch_atoms(chk):
    """Boundary facts that are architectural: the program counter and every
    storage bit some CSR read returns."""
    core = chk.core
    arch = {("h", core.index[int(n)]) for n in core.n_pc if int(n) > 1}
    for name in spec.CSRS:
        for b in chk.csr_views()[name] or ():
            todo = [b]
            while todo:
                p = todo.pop()
                if p in (0, 1):
                    continue
                if p[0][0] == "h":
                    arch.add(p[0])
                todo += [p[3], p[4]]
    return arch


def check(chk, cls, r, res):
    D, core, flow = r.D, chk.core, r.flow
    pcb = [core.index[int(n)] for n in core.n_pc]
    arch = arch_atoms(chk)
    n = 0

    def name(a):
        if a[0] == "h":
            return "left-over register bit driven at " + \
                loc(core.d.cells[core.sbits[a[1]] >> 16])
        if isinstance(a[0], tuple) and a[0][0] == "in":
            return f"{a[1]} sampled at microword {a[0][1][0]:#x} without " \
                "an acknowledgement"
        return f"{a}"

    def foreign(b, ok):
        for a in D.support_names([b]):
            if a[0] in ("insn", "probe", "irqview") or a in arch or a in ok:
                continue
            if isinstance(a[0], tuple):
                k = a[0][0]
                if k == "mem" and a[0][1] == "M":
                    continue
                if k == "in" and a[1] in ("irq", "ack"):
                    continue
            return a
        return None

    def flag(what, a, key, where):
        res.findings.append(Finding(
            cls.name, "any", "taint", f"{what} depends on {name(a)}",
            chk.path(r, key), where))
    # control: which microword follows, and when the instruction ends
    for key, info in r.infos.items():
        ok = D.support_names(ghost(info.state.g, "dr"))
        for e in info.edges:
            n += 1
            c = D.restrict(e.cond, info.state.pred) \
                if info.state.pred != FALSE else e.cond
            a = foreign(c, ok)
            if a is not None:
                flag("the microprogram path", a, key, core.word_loc(key[0]))
                break
    for e in r.exits:
        st = e.state
        ok = D.support_names(ghost(st.g, "dr"))

        def look(what, bits, where):
            nonlocal n
            for i, b in enumerate(bits):
                n += 1
                if b <= 1:
                    continue
                a = foreign(D.restrict(b, e.cond), ok)
                if a is not None:
                    flag(f"{what} bit {i}", a, e.src, where)
                    return
        look("next program counter", [st.v[i] for i in pcb],
             loc(core.d.cells[core.n_pc[0] >> 16]))
        for en, addr, data in st.mem.st:
            look("register write", (en,) + tuple(addr) + tuple(
                D.and_(en, x) for x in data),
                loc(core.d.cells[core.d.wports[0]]))
        for c in spec.CSRS:
            if chk.csr_views()[c] is not None:
                look(f"CSR {c}", chk.post_view(flow, st, c), chk.csr_loc(c))
        for g in ("adr", "sel", "we"):
            look(f"data transaction {g}", [
                D.and_(x, ghost(st.g, "n")[0]) for x in ghost(st.g, g)],
                loc(core.d.cells[core.bus["adr"][0] >> 16]))
        look("store data", [
            D.all_([x, ghost(st.g, "we")[0], ghost(st.g, "n")[0],
                    ghost(st.g, "sel")[i // 8]])
            for i, x in enumerate(ghost(st.g, "dw"))],
            loc(core.d.cells[core.bus["dat_w"][0] >> 16]))
    res.oblig["any", "taint"] = n
    return n
