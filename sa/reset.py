"""Reset analysis: one clock of synchronous reset from an unconstrained state
(any register contents, any microword left on the ROM output), then the
dataflow up to the acceptance of the first instruction word."""
from types import SimpleNamespace

from .dom import Dom, FALSE, TRUE
from .core import Mem, State, ghost
from .flow import Flow
from .check import Finding
from .paths import ack_graph
from .frontend import AnalysisBroken, Unproven, loc
from . import spec

STALE = 1 << 10


def run(checker):
    core, m = checker.core, checker.m
    out, n = [], 0
    if not core.n_rst:
        raise AnalysisBroken("the design has no reset input")
    flow = Flow(core)
    D = flow.D
    # one reset cycle from anything, driven by an unknown microword
    v = [D.atom(("any", i), core.sgroup[i], k & 0xffff)
         for i, k in enumerate(core.sbits)]
    memo_word = None
    s = State(TRUE, tuple(v), Mem("M"), m.ghost0(TRUE))
    dat, ack, irq = flow.inputs("reset")
    ev, a, req = flow.evaluator(0, s, dat, ack, irq, rst=1)
    # unknown microword: forget the constants
    for b in range(core.rom_width):
        ev.memo[core.rom_port << 16 | b] = D.atom(("anyword", b), 0, b)
    for k in [k for k in ev.memo if (k >> 16) not in
              {core.rom_port} | {x >> 16 for x in core.sbits} and
              k >> 16 != 0]:
        del ev.memo[k]
    nv = []
    free = []
    for i in range(core.nff):
        try:
            b = ev.bit(core.data[i])
        except Exception:
            b = 2
        if b > 1:
            free.append(i)
            b = v[i]
        nv.append(b)
    nv += v[core.nff:]
    post = tuple(nv)
    # every microword may still be on the ROM output after the reset edge
    words = list(core.rom)
    entry = [(u, State(TRUE, post, Mem("M"), m.ghost0(FALSE)))
             for u in range(len(words))]
    return flow, post, free, entry


def analyse(checker):
    core, m = checker.core, checker.m
    flow, post, free, entry = run(checker)
    D = flow.D
    out = []
    stats = {"registers_reset": core.nff - len(free),
             "registers_not_reset": len(free),
             "stale_microwords": len(entry), "obligations": 0}

    def bad(aspect, what, path, where):
        out.append(Finding("reset", "reset", aspect, what, path, where))
    # power-on: the ROM output register holds its own initial value
    firsts = {}
    for u, s in entry:
        info = flow.step((u, "stale"), s)
        stats["obligations"] += 1
        for k in ("cyc", "stb"):
            if info.out[k][0] != FALSE:
                bad("bus", f"{k} can be asserted in the first cycle after "
                    f"reset with microword {u:#x} left on the ROM output",
                    hex(u), core.word_loc(u))
        for e in info.edges:
            if e.exit:
                bad("fetch", "an instruction word can be accepted in the "
                    f"first cycle after reset (stale microword {u:#x})",
                    hex(u), core.word_loc(u))
                continue
            firsts.setdefault(e.dst, []).append((u, e.state))
    ent = [(t, s) for t, l in firsts.items() for _, s in l]
    infos, exits = flow.run(ent)
    stats["nodes"] = sorted({k[0] for k in infos})
    pcb = [core.index[int(x)] for x in core.n_pc]
    if not exits:
        bad("progress", "no path after reset accepts an instruction word",
            "-", "?")
    # whatever the inputs do, the first fetch is reached: no cycle in which
    # nothing is requested, or a request stays although it is acknowledged
    g = ack_graph(SimpleNamespace(D=D, infos=infos))
    state = {}
    for root in infos:
        if root in state:
            continue
        state[root] = 1
        stack = [(root, iter(g[root]))]
        while stack:
            k, it = stack[-1]
            e = next(it, (None,))[0]
            if e is None:
                state[k] = 2
                stack.pop()
                continue
            stats["obligations"] += 1
            if e.exit:
                continue
            if state.get(e.dst) == 1:
                bad("progress", "after reset the microprogram can go round "
                    f"without accepting a first instruction: {k[0]:#x} -> "
                    f"{e.dst[0]:#x}", hex(k[0]), core.word_loc(e.dst[0]))
            elif e.dst not in state and e.dst in g:
                state[e.dst] = 1
                stack.append((e.dst, iter(g[e.dst])))
    zero32 = (FALSE,) * 32
    x0 = checker.row((FALSE,) * 5)
    for e in exits:
        st, info = e.state, infos[e.src]

        def same(aspect, got, exp, what, where):
            stats["obligations"] += len(got)
            w = [i for i, (g, x) in enumerate(zip(got, exp)) if g != x and
                 D.and_(e.cond, D.xor_(g, x)) != FALSE]
            if w:
                bad(aspect, f"{what}: bits {w} are not as required "
                    f"({D.describe(got[w[0]])})", hex(e.src[0]), where)
        wl = core.word_loc(e.src[0])
        same("pc", tuple(st.v[i] for i in pcb), (FALSE,) * 30,
             "program counter after reset is not 0", wl)
        same("fetch", info.out["adr"], (FALSE,) * 30,
             "first fetch address is not 0", wl)
        same("fetch", info.out["sel"] + info.out["we"],
             (TRUE,) * 4 + (FALSE,), "first fetch is not a word read", wl)
        same("gpr", flow.read(st.mem, x0), zero32, "x0 is not 0 after reset",
             wl)
        same("bus", ghost(st.g, "n"), (FALSE, FALSE),
             "a data transaction happens before the first instruction", wl)
        for c, mask in (("mstatus", 1 << 3), ("mie", 1 << 11),
                        ("mcause", 0xffffffff)):
            if checker.csr_views()[c] is None:
                continue
            vw = checker.post_view(flow, st, c)
            idx = [i for i in range(32) if mask >> i & 1]
            same("csr", tuple(vw[i] for i in idx), (FALSE,) * len(idx),
                 f"CSR {c} is not reset", wl)
    # the fetch is the only request, and nothing is requested before it
    for key, info in infos.items():
        fetch = any(e.exit for e in info.edges)
        stats["obligations"] += 1
        if not fetch and info.out["cyc"][0] != FALSE:
            nxt = {e.dst for e in info.edges}
            if not all(any(x.exit for x in infos[d].edges) for d in nxt
                       if d in infos):
                bad("bus", f"microword {key[0]:#x} can request the bus "
                    "before the first fetch", hex(key[0]),
                    core.word_loc(key[0]))
    return out, stats
