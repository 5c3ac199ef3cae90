"""RVFI retirement log of sentinel's FormalTop (used by demos)."""
from simlib import *  # noqa: F401,F403
import simlib

FIELDS = ("order", "insn", "trap", "halt", "intr", "mode", "ixl", "rs1_addr",
          "rs2_addr", "rs1_rdata", "rs2_rdata", "rd_addr", "rd_wdata",
          "pc_rdata", "pc_wdata", "mem_addr", "mem_rmask", "mem_wmask",
          "mem_rdata", "mem_wdata")


def retire(segments, cycles=400, csrs=(), **kw):
    """Run FormalTop and return (bus, list of retirement records)."""
    from sentinel.formal import FormalTop
    log = []

    def each(ctx, m, n, bus):
        if not ctx.get(m.rvfi.valid):
            return
        r = {f: ctx.get(getattr(m.rvfi, f)) for f in FIELDS}
        for c in csrs:
            p = getattr(m.rvfi.csr, c)
            r[c] = tuple(ctx.get(getattr(p, k))
                         for k in ("rmask", "wmask", "rdata", "wdata"))
        r["cycle"] = n
        log.append(r)
    bus = simlib.run(segments, cycles, top=FormalTop(), each=each, **kw)
    return bus, log
