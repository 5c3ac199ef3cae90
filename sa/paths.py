"""Path rules over the micro-control-flow graph of one instruction class:
progress (every path reaches the acceptance of a next instruction once memory
acknowledges) and clock counts with the fastest permitted memory."""
from .dom import FALSE, TRUE, G_IN, G_DATA
from .core import ghost
from .check import Finding
from .frontend import loc


def ack_graph(r):
    """Edges that remain when every pending request is acknowledged at once:
    {key: [(edge, condition)]}."""
    D = r.D
    out = {}
    for key, info in r.infos.items():
        a = D.atom((("in", key), "ack"), G_IN)
        es = []
        for e in info.edges:
            c = D.exists(D.and_(e.cond, a), {D.var[a]})
            if c != FALSE:
                es.append((e, c))
        out[key] = es
    return out


def progress(checker, cls, r, res):
    """No cycle and no dead end in the acknowledged graph."""
    core = checker.core
    g = ack_graph(r)
    state = {}
    order = []
    start = (r.start, r.flow.partkey(r.s0))
    # iterative depth-first search
    stack = [(start, iter(g.get(start, ())))]
    state[start] = 1
    while stack:
        k, it = stack[-1]
        nxt = next(it, None)
        if nxt is None:
            state[k] = 2
            order.append(k)
            stack.pop()
            continue
        e = nxt[0]
        if e.exit:
            continue
        d = e.dst
        res.oblig["any", "progress"] = res.oblig.get(("any", "progress"),
                                                     0) + 1
        if state.get(d) == 1:
            res.findings.append(Finding(
                cls.name, "any", "progress", "the microprogram can loop "
                f"without accepting a next instruction: {k[0]:#x} -> "
                f"{d[0]:#x}", checker.path(r, k), core.word_loc(d[0])))
        elif d not in state:
            state[d] = 1
            stack.append((d, iter(g.get(d, ()))))
    for k in state:
        if not g.get(k):
            res.findings.append(Finding(
                cls.name, "any", "progress", f"microword {k[0]:#x} has no "
                "successor", checker.path(r, k), core.word_loc(k[0])))
        elif k[0] in checker.core.unfilled:
            res.findings.append(Finding(
                cls.name, "any", "progress", f"microaddress {k[0]:#x} holds "
                "no microinstruction of the source", checker.path(r, k),
                "src/sentinel/microcode.asm"))
    # the wait cycles: a pending request that is not acknowledged must stay
    # at the same microword with the request pending
    return order[::-1], g


def cycles(checker, cls, r, res):
    """{clock count: path predicate} from one acceptance to the next."""
    D = r.D
    order, g = progress(checker, cls, r, res)
    if any(f.aspect == "progress" for f in res.findings):
        return {}
    start = (r.start, r.flow.partkey(r.s0))
    at = {start: {0: TRUE}}
    out = {}
    for k in order:
        for e, c in g[k]:
            for n, p in at.get(k, {}).items():
                q = D.and_(p, c)
                if q == FALSE:
                    continue
                t = out if e.exit else at.setdefault(e.dst, {})
                t[n + 1] = D.or_(t.get(n + 1, FALSE), q)
    return out


OUTS = ("adr", "sel", "we", "dat_w")


def outputs_at(flow, u, state, tag):
    """Bus outputs of microword ``u`` in ``state`` with fresh inputs."""
    D = flow.D
    dat = tuple(D.atom((tag, "dat_r", i), G_DATA, i) for i in range(32))
    ack = D.atom((tag, "ack"), G_IN)
    irq = D.atom((tag, "irq"), G_IN)
    ev, a, req = flow.evaluator(flow.core.rom[u], state, dat, ack, irq)
    return {k: ev.val(v) for k, v in flow.core.bus.items()}


def handshake(checker, cls, r, res):
    """Request typestate on every edge of the class: idle -> request (held
    unchanged while not acknowledged) -> acknowledged -> idle for a cycle."""
    D, core, flow = r.D, checker.core, r.flow
    where = loc(core.d.cells[core.bus["cyc"][0] >> 16]) \
        if core.bus["cyc"][0] > 1 else "?"

    def ob(aspect, k=1):
        res.oblig["any", aspect] = res.oblig.get(("any", aspect), 0) + k

    def bad(aspect, what, key):
        res.findings.append(Finding(cls.name, "any", aspect, what,
                                    checker.path(r, key), where + " / " +
                                    core.word_loc(key[0])))
    for key, info in r.infos.items():
        p = info.state.pred
        ob("cyc_stb")
        if D.and_(p, D.xor_(info.out["cyc"][0], info.out["stb"][0])) \
                != FALSE:
            bad("cyc_stb", "CYC and STB differ", key)
        for n, e in enumerate(info.edges):
            u = e.dst[0]
            pend = ghost(e.state.g, "pend")[0]
            o = outputs_at(flow, u, e.state, ("hs", n))
            c = e.cond
            req = D.and_(o["cyc"][0], o["stb"][0])
            # pending and not acknowledged: held, unchanged
            held = D.and_(c, pend)
            if held != FALSE:
                ob("hold")
                if D.and_(held, D.not_(req)) != FALSE:
                    bad("hold", "a request is withdrawn before it is "
                        f"acknowledged (next microword {u:#x})", key)
                for name in OUTS:
                    care = held
                    if name == "dat_w":
                        care = D.and_(held, info.out["we"][0])
                    w = [i for i, (x, y) in enumerate(
                        zip(info.out[name], o[name])) if x != y and
                        D.and_(care, D.xor_(x, y)) != FALSE]
                    ob("stable", len(o[name]))
                    if w:
                        bad("stable", f"{name} bits {w} change while a "
                            "request waits for its acknowledgement (next "
                            f"microword {u:#x})", key)
            # acknowledged: dropped for a cycle
            done = D.and_(c, info.ack)
            if done != FALSE:
                ob("drop")
                if D.and_(done, D.or_(o["cyc"][0], o["stb"][0])) != FALSE:
                    bad("drop", "CYC/STB stay asserted in the cycle after "
                        f"the acknowledgement (next microword {u:#x})", key)
