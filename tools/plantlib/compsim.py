"""Clock one component through a list of input rows (used by demos)."""
from simlib import *  # noqa: F401,F403


def sig(comp, path):
    for p in path.split("."):
        comp = getattr(comp, p)
    return comp


def rows(comp, inputs, outs):
    """Apply each row of inputs, sample ``outs``, tick; -> list of samples
    (one more than rows: the last one after the final tick)."""
    from amaranth.hdl import Module, Signal
    from amaranth.sim import Simulator
    w = Module()
    w.submodules.dut = comp
    z = Signal()
    w.d.sync += z.eq(~z)
    sim = Simulator(w)
    sim.add_clock(1e-6)
    log = []

    async def tb(ctx):
        def sample():
            r = []
            for o in outs:
                s = sig(comp, o)
                r.append(ctx.get(s.as_value() if hasattr(s, "as_value")
                                 else s))
            log.append(tuple(r))
        for row in inputs:
            for k, v in row.items():
                s = sig(comp, k)
                ctx.set(s.as_value() if hasattr(s, "as_value") else s, v)
            await ctx.delay(1e-8)
            sample()
            await ctx.tick()
        await ctx.delay(1e-8)
        sample()
    sim.add_testbench(tb)
    sim.run()
    return log


def microcode(words):
    """Microcode source with the shipped fields and the given words
    (address -> text)."""
    import os
    t = open(os.path.join(REPO, "src/sentinel/microcode.asm")).read()
    t = t[:t.index("\n};") + 4]
    for a in sorted(words):
        t += f"\norigin {a};\n{words[a]};\n"
    return t
