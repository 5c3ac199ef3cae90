"""The example SoC: bus peripherals, memory, UART and address map of
examples/attosoc.py, and the firmware written for it."""
import importlib.util
import os
import re
import sys
import warnings

from .frontend import AnalysisBroken, Design, REPO, HERE
from .dom import Dom, FALSE, TRUE, G_IN, G_DATA
from .evalnet import Eval

PY = "examples/attosoc.py"
RS = "sentinel-rt/examples/attosoc.rs"


def load():
    """The module, on stand-ins for the packages that are not installed."""
    sys.path.insert(0, os.path.join(HERE, "socstub"))
    for k in [k for k in sys.modules if k.split(".")[0] == "amaranth_soc"]:
        del sys.modules[k]
    warnings.filterwarnings("ignore")
    path = os.path.join(REPO, PY)
    spec = importlib.util.spec_from_file_location("sa_attosoc", path)
    if spec is None or not os.path.exists(path):
        raise AnalysisBroken(f"{PY} is gone")
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


class _Anon:
    """A component without a signature."""

    class signature:
        @staticmethod
        def flatten(_):
            return ()


def design(comp, extra=()):
    if getattr(comp, "signature", None) is None:
        comp.signature = _Anon.signature
    return Design(comp, extra_ports=extra)


class Bits(Dom):
    """Word arithmetic spelled out bit by bit: the registers here are small,
    and arithmetic and comparisons of one register meet in the same rule."""

    def _sum(self, a, b, c):
        out = []
        for x, y in zip(a, b):
            t = self.xor_(x, y)
            out.append(self.xor_(t, c))
            c = self.ite(t, c, x)
        return tuple(out), c

    def add(self, a, b):
        return self._sum(a, b, FALSE)[0]

    def sub(self, a, b):
        return self._sum(a, tuple(map(self.not_, b)), TRUE)[0]

    def neg(self, a):
        return self.sub(self.const(0, len(a)), a)

    def ult(self, a, b):
        return self.not_(self._sum(a, tuple(map(self.not_, b)), TRUE)[1])

    def is_zero(self, a):
        return self.all_(map(self.not_, a))

    def eq(self, a, b):
        return self.all_(map(self.xnor, a, b))


class Run:
    """Abstract clock cycles of one component: every register, memory output
    and input is an unknown unless fixed."""

    def __init__(self, d):
        self.d = d
        self.D = Bits()

    def fresh(self, tag, fix=None):
        """Inputs of one cycle."""
        out = {}
        for name, (s, w) in self.d.inputs.items():
            if fix and name in fix:
                v = fix[name]
                v = self.D.const(v, w) if isinstance(v, int) else v
            elif name == "rst":
                v = (FALSE,) * w
            else:
                v = self.D.word(("in", tag, name), w, G_IN if w == 1
                                else G_DATA)
            out[name] = v
        return out

    def unknown(self):
        D = self.D
        st = {}
        for ci in self.d.ffs:
            w = len(self.d.cells[ci].data)
            for i, x in enumerate(D.word(("s", ci), w, G_IN if w == 1 else
                                         G_DATA)):
                st[ci << 16 | i] = x
        for ci in self.d.rports:
            for i, x in enumerate(D.word(("r", ci), self.d.cells[ci].width)):
                st[ci << 16 | i] = x
        return st

    def initial(self):
        st = {}
        for ci in self.d.ffs:
            c = self.d.cells[ci]
            for i in range(len(c.data)):
                st[ci << 16 | i] = c.init >> i & 1
        for ci in self.d.rports:
            for i, x in enumerate(self.D.word(("r", ci),
                                              self.d.cells[ci].width)):
                st[ci << 16 | i] = x
        return st

    def cycle(self, st, inp):
        memo = dict(st)
        for name, v in inp.items():
            s, _ = self.d.inputs[name]
            memo.update((s + i, x) for i, x in enumerate(v))
        ev = Eval(self.d, self.D, memo)
        return Cycle(self, ev, inp)


class Cycle:
    def __init__(self, run, ev, inp):
        self.run, self.ev, self.inp = run, ev, inp

    def out(self, port):
        if port not in self.run.d.outputs and port in self.inp:
            return self.inp[port]       # nothing in the component drives it
        return self.ev.val(self.run.d.outputs[port])

    def sig(self, s):
        return self.ev.val(self.run.d.nets(s))

    def next(self, tag="r'"):
        d = self.run.d
        st = {}
        for ci in d.ffs:
            for i, n in enumerate(d.cells[ci].data):
                st[ci << 16 | i] = self.ev.bit(n)
        for ci in d.rports:
            for i, x in enumerate(self.run.D.word((tag, ci),
                                                  d.cells[ci].width)):
                st[ci << 16 | i] = x
        return st


class Rule:
    def __init__(self, o):
        self.o, self.n = o, 0

    def same(self, D, cls, what, got, want, care=TRUE):
        if len(got) != len(want):
            raise AnalysisBroken(f"{cls}: {what}: {len(got)} bits, expected "
                                 f"{len(want)}")
        for i, (g, w) in enumerate(zip(got, want)):
            self.holds(D, cls, what, D.xnor(g, w), care, i)

    def holds(self, D, cls, what, fact, care=TRUE, bit=None):
        self.n += 1
        self.o.obligations += 1
        if D.and_(care, D.not_(fact)) != FALSE:
            b = "" if bit is None else f" (bit {bit})"
            slug = re.sub(r"[^a-z0-9]+", "-", what.lower()).strip("-")
            self.o.add(f"{cls}/{slug}", f"{cls}: {what}{b} does not hold; "
                       f"at {PY}: class {cls}")


def wishbone_units(m):
    """Peripherals with a Wishbone port, by what their signature says."""
    out = []
    for name in ("WBMemory", "WBLeds", "WBTimer", "WBSerial"):
        cls = getattr(m, name, None)
        if cls is None:
            raise AnalysisBroken(f"{PY}: class {name} is gone")
        out.append((name, cls))
    return out


def request(run, st=None, **fix):
    """Two cycles of one access: the request, and its acknowledgement; bus
    inputs are held by the master, everything else is free."""
    hold = {"bus__stb": 1, "bus__cyc": 1, **fix}
    a = run.fresh("a", hold)
    bus = {k: v for k, v in a.items() if k.startswith("bus__")}
    b = run.fresh("b", bus)
    c = run.fresh("c")
    c0 = run.cycle(st or run.unknown(), a)
    c1 = run.cycle(c0.next("r1"), b)
    return c0, c1, run.cycle(c1.next("r2"), c)


def handshake(o, tier):
    m = load()
    r = Rule(o)
    units = wishbone_units(m)
    for name, cls in units:
        d = design(cls())
        run = Run(d)
        D = run.D
        c0 = run.cycle(run.unknown(), run.fresh("a"))
        req = D.and_(c0.inp["bus__stb"][0], c0.inp["bus__cyc"][0])
        c1 = run.cycle(c0.next(), run.fresh("b"))
        ack0, ack1 = c0.out("bus__ack")[0], c1.out("bus__ack")[0]
        r.same(D, name, "a request is acknowledged in the next cycle, once, "
               "and nothing else is", (ack1,), (D.and_(req, D.not_(ack0)),))
        ci = run.cycle(run.initial(), run.fresh("i"))
        r.same(D, name, "no acknowledgement out of reset",
               ci.out("bus__ack"), (FALSE,))
        # the answer of a bus slave must not follow the request within a cycle
        sup = {n for x in c0.out("bus__ack") + c0.out("bus__dat_r")
               for n in D.support(x)}
        own = {D.var[x] for k, v in c0.inp.items() for x in v if x > 1}
        r.holds(D, name, "acknowledgement and read data are registered",
                FALSE if sup & own else TRUE)
    leds(m, r)
    r.holds(D, "-", "control", TRUE)
    # positive control: an acknowledgement that ignores the strobe is noticed
    class Sink:
        obligations, n = 0, 0

        def add(self, k, t):
            self.n += 1
    s = Sink()
    Rule(s).same(D, name, "x", (ack1,), (req,))
    if not s.n:
        raise AnalysisBroken("control: a wrong handshake is not noticed")
    o.cover.update(peripherals=len(units) + 1, rules=r.n)


def leds(m, r):
    """Registers of the LED/GPIO peripheral, both bus variants."""
    d = design(m.WBLeds())
    run = Run(d)
    D = run.D
    name = "WBLeds"
    c0, c1, c2 = request(run)
    i = c0.inp
    start = D.not_(c0.out("bus__ack")[0])
    sel, we, adr = i["bus__sel"][0], i["bus__we"][0], i["bus__adr"][:2]
    wr = D.and_(sel, we)

    def at(k):
        return D.and_(wr, D.eq(adr, D.const(k, 2)))

    def port(c, f):
        return tuple(c.out(f"gpio__{k}__{f}")[0] for k in range(8))
    for what, k, get in (
            ("LED register holds what was last written to word 0", 0,
             lambda c: c.out("leds")),
            ("GPIO outputs hold what was last written to word 1", 1,
             lambda c: port(c, "o")),
            ("output enables hold what was last written to word 2", 2,
             lambda c: port(c, "oe"))):
        r.same(D, name, what, get(c2), D.mux(at(k), i["bus__dat_w"], get(c0)),
               start)
    r.same(D, name, "a read of word 1 returns the GPIO inputs",
           c1.out("bus__dat_r"),
           tuple(c0.inp[f"gpio__{k}__i"][0] for k in range(8)),
           D.all_((start, sel, D.not_(we), D.eq(adr, D.const(1, 2)))))
    st = run.unknown()
    q = run.fresh("q")
    c0 = run.cycle(st, q)
    c1 = run.cycle(c0.next(), run.fresh("r"))
    idle = D.not_(D.and_(q["bus__stb"][0], q["bus__cyc"][0]))
    for what, get in (("LEDs", lambda c: c.out("leds")),
                      ("GPIO outputs", lambda c: port(c, "o")),
                      ("output enables", lambda c: port(c, "oe"))):
        r.same(D, name, f"{what} change only on an access", get(c1), get(c0),
               idle)
    # CSR variant: the bridge's strobes are the accesses
    u = m.CSRLeds()
    f = dict(leds=u.leds_reg.f.leds, inout=u.inout_reg.f.inout,
             oe=u.oe_reg.f.oe)
    d = design(u, strobes(f))
    run = Run(d)
    D = run.D
    name = "CSRLeds"
    c0 = run.cycle(run.unknown(), run.fresh("a"))
    c1 = run.cycle(c0.next(), run.fresh("b"))
    for k, get in (("leds", lambda c: c.out("leds")),
                   ("inout", lambda c: port(c, "o")),
                   ("oe", lambda c: port(c, "oe"))):
        r.same(D, name, f"{k} register holds what was last written", get(c1),
               D.mux(c0.inp[k + "_w_stb"][0], c0.inp[k + "_w_data"],
                     get(c0)))
    r.same(D, name, "a read of inout returns the GPIO inputs",
           c0.sig(f["inout"].port.r_data),
           tuple(c0.inp[f"gpio__{k}__i"][0] for k in range(8)))


def strobes(fields):
    """What the bus bridge drives into each register field."""
    from amaranth.hdl._ir import PortDirection
    out = []
    for k, f in fields.items():
        for x in ("r_stb", "w_stb", "w_data"):
            out.append((f"{k}_{x}", getattr(f.port, x), PortDirection.Input))
    return out


def memory(o, tier):
    """The example RAM."""
    m = load()
    r = Rule(o)
    sizes = (0x400, 0x1000) if tier == "quick" else \
        (0x40, 0x100, 0x400, 0x1000, 0x4000, 0x10000)
    name = "WBMemory"
    for size in sizes:
        d = design(m.WBMemory(num_bytes=size))
        run = Run(d)
        D = run.D
        if len(d.mems) != 1 or len(d.wports) != 1 or len(d.rports) != 1:
            raise AnalysisBroken(f"{name}: expected one memory with one write "
                                 "and one read port")
        mem, wp, rp = (d.cells[x[0]] for x in (d.mems, d.wports, d.rports))
        r.holds(D, name, f"{size} bytes in words of 32 bits",
                TRUE if (mem.width, mem.depth * 4) == (32, size) else FALSE)
        k = (mem.depth - 1).bit_length()
        c0, c1, c2 = request(run)
        i = c0.inp
        start = D.not_(c0.out("bus__ack")[0])
        we = i["bus__we"][0]
        lanes = tuple(i["bus__sel"][b // 8] for b in range(32))
        done = (FALSE,) * 32
        for j, c in enumerate((c0, c1)):
            en = c.ev.val(wp.en)
            done = tuple(map(D.or_, done, en))
            for b in range(32):
                r.holds(D, name, "a byte is written only if the access writes "
                        "and selects it", D.or_(D.not_(en[b]),
                                                D.and_(we, lanes[b])), start,
                        b)
            r.same(D, name, "the word written is the addressed one",
                   c.ev.val(wp.addr)[:k], i["bus__adr"][:k],
                   D.and_(start, D.any_(en)))
            r.same(D, name, "the bytes written are those on the bus",
                   c.ev.val(wp.data), i["bus__dat_w"],
                   D.and_(start, D.any_(en)))
        r.same(D, name, "every selected byte is written by the "
               "acknowledgement", done, lanes, D.and_(start, we))
        rd = D.and_(start, D.not_(we))
        r.same(D, name, "the request reads the addressed word",
               c0.ev.val(rp.addr)[:k], i["bus__adr"][:k], rd)
        r.holds(D, name, "the request enables the read port",
                c0.ev.bit(rp.en), rd)
        r.same(D, name, "the read port's word is returned with the "
               "acknowledgement", c1.out("bus__dat_r"),
               tuple(c1.ev.memo[d.rports[0] << 16 | b] for b in range(32)),
               rd)
        q = run.fresh("q")
        c = run.cycle(run.unknown(), q)
        idle = D.not_(D.and_(q["bus__stb"][0], q["bus__cyc"][0]))
        r.holds(D, name, "nothing is written without a request",
                D.not_(D.any_(c.ev.val(wp.en))), idle)
    o.cover.update(memory_sizes=list(sizes), rules=r.n)


def only(items, what):
    items = list(items)
    if len(items) != 1:
        raise AnalysisBroken(f"{what}: {len(items)} candidates")
    return items[0]


def counter(run, net, width, name):
    """The register whose top bit drives ``net``."""
    d = run.d
    n = int(net)
    ci = n >> 16
    if ci not in d.ffs or len(d.cells[ci].data) != width or \
            n & 0xffff != width - 1:
        raise AnalysisBroken(f"{name}: irq is not the top bit of a {width}-bit "
                             "register")
    return [ci << 16 | i for i in range(width)]


def interrupts(o, tier):
    m = load()
    r = Rule(o)
    timer(m, r)
    serial(m, r)
    o.cover.update(rules=r.n, peripherals=["WBTimer", "CSRTimer", "WBSerial",
                                           "CSRSerial"])


LATE = "a flag raised between the request and the acknowledgement of a read " \
    "survives it"
LOST = ("an interrupt flag is cleared only by a read that returns it")


def timer(m, r):
    name = "WBTimer"
    d = design(m.WBTimer())
    run = Run(d)
    D = run.D
    c0, c1, c2 = request(run)
    cnt = counter(run, d.outputs["irq"][0], 15, name)
    v = [tuple(c.ev.bit(n) for n in cnt) for c in (c0, c1, c2)]
    one = D.const(1, 15)
    i = c0.inp
    start = D.not_(c0.out("bus__ack")[0])
    read = D.all_((start, D.not_(i["bus__we"][0]), i["bus__sel"][0]))
    ret = c1.out("bus__dat_r")
    for k in (0, 1):
        nat = D.add(v[k], one)
        r.same(D, name, "the prescaler counts every clock", v[k + 1][:14],
               nat[:14], start)
        drop = D.and_(nat[14], D.not_(v[k + 1][14]))
        # the one case of the acknowledge cycle apart: the flag rose after
        # the request of a read
        late = D.and_(read, D.not_(v[0][14])) if k else FALSE
        r.holds(D, name, LOST, D.and_(read, ret[0]),
                D.all_((start, drop, D.not_(late))))
        if k:
            r.holds(D, name, LATE, D.not_(drop), late)
        r.holds(D, name, "the flag is never set but by the count",
                D.or_(nat[14], D.not_(v[k + 1][14])), start)
    r.same(D, name, "a read returns the flag", ret,
           (v[0][14],) + (FALSE,) * 7, read)
    r.holds(D, name, "a read that returns the flag clears it",
            D.not_(D.and_(v[1][14], v[2][14])), D.and_(read, v[0][14]))
    q = run.fresh("q")
    c0 = run.cycle(run.unknown(), q)
    c1 = run.cycle(c0.next(), run.fresh("z"))
    idle = D.not_(D.and_(q["bus__stb"][0], q["bus__cyc"][0]))
    a, b = (tuple(c.ev.bit(n) for n in cnt) for c in (c0, c1))
    r.same(D, name, "without an access the timer just counts", b,
           D.add(a, one), idle)
    name = "CSRTimer"
    u = m.CSRTimer()
    f = u.irq_reg.f.irq
    d = design(u, strobes({"irq": f}))
    run = Run(d)
    D = run.D
    cnt = counter(run, d.outputs["irq"][0], 15, name)
    c0 = run.cycle(run.unknown(), run.fresh("a"))
    c1 = run.cycle(c0.next(), run.fresh("b"))
    a, b = (tuple(c.ev.bit(n) for n in cnt) for c in (c0, c1))
    nat = D.add(a, one)
    rd = D.and_(c0.inp["irq_r_stb"][0], a[14])
    r.same(D, name, "the prescaler counts and a read that returns the flag "
           "clears it", b, nat[:14] + (D.and_(nat[14], D.not_(rd)),))
    r.same(D, name, "a read returns the flag", c0.sig(f.port.r_data),
           (a[14],))


def serial(m, r):
    name = "WBSerial"
    u = m.WBSerial()
    d = design(u)
    run = Run(d)
    D = run.D
    ua = u.serial
    pre = run.cycle(run.unknown(), run.fresh("pre"))
    c0, c1, c2 = request(run, pre.next("r0"))
    i = c0.inp
    start = D.not_(c0.out("bus__ack")[0])
    sel, we, adr = i["bus__sel"][0], i["bus__we"][0], i["bus__adr"][0]
    rd = D.all_((start, sel, D.not_(we)))
    rdirq = D.and_(rd, adr)
    rdbyte = D.and_(rd, D.not_(adr))
    wrbyte = D.all_((start, sel, we, D.not_(adr)))
    ret = c1.out("bus__dat_r")

    def flags(c):
        """What a read of the interrupt register started in this cycle would
        return, as a function of the state."""
        q = run.fresh(("probe", id(c)), {
            "bus__stb": 1, "bus__cyc": 1, "bus__we": 0, "bus__sel": 1,
            "bus__adr": 1})
        st = {n: c.ev.memo[n] for n in state(d)}
        ackn = {int(n) for n in d.outputs["bus__ack"]}
        st.update((n, FALSE) for n in ackn if n in st)
        x = run.cycle(st, q)
        return run.cycle(x.next(), run.fresh("probe'")).out("bus__dat_r")[:2]
    f0, f1, f2 = map(flags, (c0, c1, c2))
    r.same(D, name, "the interrupt line is the OR of the flags",
           c0.out("irq"), (D.or_(*f0),))
    r.same(D, name, "a read of the interrupt register returns the flags", ret,
           f0 + (FALSE,) * 6, rdirq)
    rdy = [c.sig(ua.rx_rdy)[0] for c in (c0, c1, pre)]
    txa = [c.sig(ua.tx_ack)[0] for c in (c0, c1, pre)]
    for what, ev, k in (("receive", rdy, 0), ("transmit", txa, 1)):
        edge = D.and_(D.not_(ev[0]), ev[1])
        r.holds(D, name, f"a {what} event sets its flag", f2[k],
                D.and_(start, edge))
        for a, b, t in ((f0, f1, 0), (f1, f2, 1)):
            gone = D.and_(a[k], D.not_(b[k]))
            r.holds(D, name, f"{what}: {LOST}", D.and_(rdirq, ret[k]),
                    D.and_(start, gone))
        r.holds(D, name, f"{what}: a read of the interrupt register clears "
                "the flag unless there is a new event", D.not_(f1[k]),
                D.and_(rdirq, D.not_(D.and_(D.not_(ev[2]), ev[0]))))
    for k in (0, 1):
        c = (c0, c1)[k]
        acked = c.sig(ua.rx_ack)[0]
        late = rdbyte if k else FALSE
        r.holds(D, name, "a received byte is consumed only by a read that "
                "returns it", D.and_(rdbyte, D.eq(ret, c.sig(ua.rx_data))),
                D.all_((start, acked, rdy[k], D.not_(late))))
        if k:
            r.holds(D, name, "a byte that is ready only with the acknowledgement "
                    "of a read is not consumed by it",
                    D.not_(D.and_(acked, rdy[k])), late)
        r.holds(D, name, "a byte is sent only when the data register is "
                "written", wrbyte, D.and_(start, c.sig(ua.tx_rdy)[0]))
    r.same(D, name, "a read of the data register returns the received byte",
           ret, c0.sig(ua.rx_data), rdbyte)
    r.holds(D, name, "reading the data register consumes the byte",
            D.or_(c0.sig(ua.rx_ack)[0], c1.sig(ua.rx_ack)[0]), rdbyte)
    sent = [D.and_(c.sig(ua.tx_rdy)[0],
                   D.eq(c.sig(ua.tx_data), i["bus__dat_w"]))
            for c in (c0, c1)]
    r.holds(D, name, "a byte written to the data register is handed to the "
            "transmitter", D.or_(*sent), wrbyte)
    for k in (0, 1):
        r.holds(D, name, "the byte handed over is the one written", sent[k],
                D.and_(wrbyte, (c0, c1)[k].sig(ua.tx_rdy)[0]))
    q = run.fresh("q")
    c = run.cycle(run.unknown(), q)
    idle = D.not_(D.and_(q["bus__stb"][0], q["bus__cyc"][0]))
    r.holds(D, name, "without an access nothing is sent or consumed",
            D.not_(D.or_(c.sig(ua.tx_rdy)[0], c.sig(ua.rx_ack)[0])), idle)
    n = run.cycle(c.next(), run.fresh("q'"))
    for k, x in enumerate(("receive", "transmit")):
        r.holds(D, name, f"{x}: without an access the flag stays",
                flags(n)[k], D.and_(idle, flags(c)[k]))
    for k in ("rx", "tx"):
        pair = (c.sig(ua.rx_i), c.inp["rx"]) if k == "rx" else \
            (c.out("tx"), c.sig(ua.tx_o))
        r.same(D, name, f"the {k} pin is the UART's", *pair)
    # the CSR variant
    name = "CSRSerial"
    u = m.CSRSerial()
    f = {"txrx": u.txrx_reg.f.txrx, "irq": u.irq_reg.f.irq}
    d = design(u, strobes(f))
    run = Run(d)
    D = run.D
    ua = u.serial
    st = run.unknown()
    cs = []
    for t in "abc":
        cs.append(run.cycle(st, run.fresh(t)))
        st = cs[-1].next()
    c0, c1, c2 = cs
    fl = [c.sig(f["irq"].port.r_data) for c in cs]
    r.same(D, name, "the interrupt line is the OR of the flags",
           c0.out("irq"), (D.or_(*fl[0]),))
    for k, sig, what in ((0, ua.rx_rdy, "receive"), (1, ua.tx_ack,
                                                     "transmit")):
        e = [c.sig(sig)[0] for c in cs]
        r.holds(D, name, f"a {what} event sets its flag", fl[2][k],
                D.and_(D.not_(e[0]), e[1]))
        stb = c1.inp["irq_r_stb"][0]
        r.holds(D, name, f"{what}: {LOST}", stb,
                D.and_(fl[1][k], D.not_(fl[2][k])))
        r.holds(D, name, f"{what}: a read clears the flag unless there is a "
                "new event", D.or_(D.not_(fl[2][k]), D.and_(
                    D.not_(e[0]), e[1])), stb)
    r.same(D, name, "the byte read is the one received",
           c0.sig(f["txrx"].port.r_data), c0.sig(ua.rx_data))
    r.same(D, name, "reading the data register consumes the byte",
           c0.sig(ua.rx_ack), c0.inp["txrx_r_stb"])
    r.same(D, name, "writing the data register sends a byte",
           c0.sig(ua.tx_rdy), c0.inp["txrx_w_stb"])
    r.same(D, name, "the byte sent is the one written", c0.sig(ua.tx_data),
           c0.inp["txrx_w_data"], c0.inp["txrx_w_stb"][0])


def state(d):
    for ci in d.ffs:
        for i in range(len(d.cells[ci].data)):
            yield ci << 16 | i


def uart(o, tier):
    """Framing of the UART, for several divisors."""
    m = load()
    r = Rule(o)
    divs = (4, 5, 8, 104, 1250) if tier == "quick" else (4, 5, 6, 7, 8, 9, 16, 104,
                                                   417, 1250)
    cycles = 0
    for div in divs:
        cycles += transmit(m, r, div) + receive(m, r, div)
    o.cover.update(divisors=list(divs), abstract_cycles=cycles, rules=r.n)


def uart_design(m, div):
    u = m.UART(divisor=div)
    from amaranth.hdl._ir import PortDirection as P
    io = [(k, getattr(u, k), P.Input) for k in ("rx_i", "tx_data", "tx_rdy",
                                               "rx_ack")]
    io += [(k, getattr(u, k), P.Output) for k in (
        "tx_o", "tx_ack", "rx_data", "rx_err", "rx_ovf", "rx_rdy")]
    return u, design(u, io)


def transmit(m, r, div):
    """From the idle line, one byte: a start bit, the data bits, least
    significant first, a stop bit, each ``div`` clocks long, whatever the
    inputs do meanwhile; then idle again."""
    u, d = uart_design(m, div)
    name = f"UART(divisor={div})"
    run = Run(d)
    D = run.D
    n = u.data_bits
    st = run.initial()
    quiet = dict(rx_i=1, rx_ack=0)
    c = run.cycle(st, run.fresh("idle", dict(quiet, tx_rdy=0)))
    r.same(D, name, "the idle line is high and the transmitter ready",
           c.out("tx_o") + c.out("tx_ack"), (TRUE, TRUE))
    frames = 2      # the second starts from the state the first one left
    k = 0
    for frame in range(frames):
        byte = D.word(("byte", frame), n)
        c = run.cycle(st, run.fresh(("go", frame), dict(
            quiet, tx_rdy=1, tx_data=byte)))
        r.same(D, name, "the transmitter is ready between bytes",
               c.out("tx_ack"), (TRUE,))
        r.same(D, name, "the line is high between bytes", c.out("tx_o"),
               (TRUE,))
        st = c.next()
        want = (FALSE,) + byte + (TRUE,)
        for j, w in enumerate(want):
            for t in range(div):
                k += 1
                c = run.cycle(st, run.fresh((frame, j, t), quiet))
                if c.out("tx_o") != (w,) or c.out("tx_ack") != (FALSE,):
                    r.same(D, name, f"bit {j} of the frame is sent for "
                           f"{div} clocks", c.out("tx_o") + c.out("tx_ack"),
                           (w, FALSE))
                    return k
                st = c.next()
        r.n += len(want)
        r.o.obligations += len(want)
        c = run.cycle(st, run.fresh(("after", frame), dict(quiet, tx_rdy=0)))
        r.same(D, name, "after the stop bit the line is idle",
               c.out("tx_o") + c.out("tx_ack"), (TRUE, TRUE))
        for _ in range(2):
            st = c.next()
            c = run.cycle(st, run.fresh(("gap", frame, _), dict(
                quiet, tx_rdy=0)))
            r.same(D, name, "the line stays idle", c.out("tx_o")
                   + c.out("tx_ack"), (TRUE, TRUE))
    return k


def receive(m, r, div):
    """From a falling edge: the data bits are samples of the line within the
    middle half of each bit, the byte is flagged after the last one and is
    kept, whatever the line does, until acknowledged."""
    u, d = uart_design(m, div)
    name = f"UART(divisor={div})"
    run = Run(d)
    D = run.D
    n = u.data_bits
    quiet = dict(tx_rdy=0, rx_ack=0)
    st = run.initial()
    c = run.cycle(st, run.fresh("i", dict(quiet, rx_i=1)))
    st = c.next()
    r.same(D, name, "nothing is received on an idle line", c.out("rx_rdy"),
           (FALSE,))
    c = run.cycle(st, run.fresh("edge", dict(quiet, rx_i=0)))
    st = c.next()
    line = {}
    t = 0
    limit = (n + 3) * div + 8
    while True:
        t += 1
        x = D.word(("line", t), 1, G_IN)
        line[D.var[x[0]]] = t
        c = run.cycle(st, run.fresh(("rx", t), dict(quiet, rx_i=x)))
        if c.out("rx_rdy") != (FALSE,):
            break
        st = c.next()
        if t > limit:
            r.holds(D, name, "a byte is received within its frame", FALSE)
            return t
    r.same(D, name, "reception takes the same time for every byte",
           c.out("rx_rdy"), (TRUE,))
    data = c.out("rx_data")
    r.holds(D, name, "the byte is reported in its stop bit",
            TRUE if (n + 1) * div <= t <= (n + 2) * div + 1 else FALSE)
    for j, b in enumerate(data):
        sup = [line.get(v) for v in D.support(b)]
        ok = len(sup) == 1 and sup[0] is not None and \
            b == D.word(("line", sup[0]), 1, G_IN)[0]
        lo, hi = (j + 1) * div + div / 4, (j + 1) * div + 3 * div / 4 + 1
        ok = ok and lo <= sup[0] <= hi
        r.holds(D, name, "each data bit is a sample of the middle of its bit "
                "time", TRUE if ok else FALSE, bit=j)
    # kept until acknowledged, for any state in which the receiver rests;
    # that a pending byte implies rest is shown inductively
    zero = resting(run, D)
    st = run.unknown()
    rdy = [int(x) for x in d.outputs["rx_rdy"]][0]
    st[rdy] = TRUE
    for ci in zero:
        for i in range(len(d.cells[ci].data)):
            st[ci << 16 | i] = FALSE
    q = run.fresh("keep", dict(rx_ack=0))
    c0 = run.cycle(st, q)
    c1 = run.cycle(c0.next(), run.fresh("keep'"))
    r.same(D, name, "an unread byte is kept", c1.out("rx_data")
           + c1.out("rx_rdy"), c0.out("rx_data") + (TRUE,))
    r.holds(D, name, "a start bit that arrives before the byte is read is "
            "reported as overflow", c1.out("rx_ovf")[0],
            D.not_(q["rx_i"][0]))
    q = run.fresh("ack", dict(rx_ack=1))
    c0 = run.cycle(st, q)
    c1 = run.cycle(c0.next(), run.fresh("ack'"))
    r.same(D, name, "acknowledging clears the ready flag", c1.out("rx_rdy"),
           (FALSE,))
    return t


def resting(run, D):
    """Registers that are zero whenever a byte is pending: the largest set
    for which that is inductive."""
    d = run.d
    rdy = [int(x) for x in d.outputs["rx_rdy"]][0]
    cand = {ci for ci in d.ffs if not d.cells[ci].init and ci != rdy >> 16}
    while True:
        st = run.unknown()
        r = st[rdy]
        for ci in cand:
            for i in range(len(d.cells[ci].data)):
                st[ci << 16 | i] = D.and_(st[ci << 16 | i], D.not_(r))
        nx = run.cycle(st, run.fresh("ind")).next()
        # every set of values with the property is an image of this
        # substitution, so one step from it decides induction
        bad = {ci for ci in cand if any(
            D.and_(nx[rdy], nx[ci << 16 | i]) != FALSE
            for i in range(len(d.cells[ci].data)))}
        if not bad:
            return cand
        cand -= bad


def firmware(o, tier):
    """Address map and reset-time interrupt state the firmware relies on."""
    m = load()
    r = Rule(o)
    D = Dom()
    text = read(RS)
    fw = re.search(r"fn\s+get_bases.*?if\s+(!?)\s*mip::read\(\)\.mext\(\)\s*"
                   r"\{(.*?)\}\s*else\s*\{(.*?)\}", text, re.S)
    if not fw:
        raise AnalysisBroken(f"{RS}: get_bases is not a choice by mip.MEIP")
    arms = [dict((a, int(b.replace("_", ""), 16)) for a, b in re.findall(
        r"(Gpio|Timer|Serial)Base\(0x([0-9a-fA-F_]+)\)", x))
        for x in (fw[2], fw[3])]
    if fw[1]:
        arms.reverse()
    offs = {}
    for fn, b, off in re.findall(
            r"fn\s+(\w+)\s*\([^)]*?base:\s*(\w+)Base[^)]*\)[^{]*\{\s*unsafe\s*"
            r"\{\s*\w+\(\s*\(?u32::from\(base\)\s*(?:\+\s*(\d+)\s*\))?", text):
        offs[fn] = (b, int(off or 0))
    where = f"{RS}: get_bases; {PY}: AttoSoC.elaborate"
    for bus, arm in zip(("WB", "CSR"), arms):
        soc = m.AttoSoC(num_bytes=0x1000, bus_type=m.BusType[bus])
        out = sys.stdout
        sys.stdout = open(os.devnull, "w")
        try:
            d = design(soc)
        finally:
            sys.stdout.close()
            sys.stdout = out
        have, ram = bases(soc)
        for k, unit in (("Gpio", soc.leds), ("Timer", soc.timer),
                        ("Serial", soc.serial)):
            o.obligations += 1
            got = have.get(id(unit.bus.memory_map))
            if got != arm.get(k):
                o.add(f"{bus}/{k}", f"with {bus} peripherals the {k} "
                      f"registers are at {hx(got)} and the firmware uses "
                      f"{hx(arm.get(k))}; at {where}")
        o.obligations += 1
        if ram != 0:
            o.add(f"{bus}/ram", f"the program memory is not at address 0, "
                  f"where execution starts; at {PY}: AttoSoC.elaborate")
        lines(m, r, soc, d, bus)
    regs = register_offsets(m)
    for fn, want in (("read_timer_int", ("Timer", "irq")),
                     ("read_serial_int", ("Serial", "irq")),
                     ("read_serial_rx", ("Serial", "data")),
                     ("write_serial_tx", ("Serial", "data")),
                     ("read_inp_port", ("Gpio", "inout")),
                     ("write_leds", ("Gpio", "leds"))):
        if fn not in offs:
            raise AnalysisBroken(f"{RS}: accessor {fn} not found")
        for bus in ("WB", "CSR"):
            o.obligations += 1
            w = regs[bus].get(want)
            if offs[fn] != (want[0], w):
                o.add(f"{bus}/{fn}", f"{fn} uses offset {offs[fn][1]} of "
                      f"{offs[fn][0]}; with {bus} peripherals the {want[1]} "
                      f"register of {want[0]} is at offset {w}; at {RS}: {fn}")
    ld = read("sentinel-rt/examples/device.x")
    x = re.search(r"RAM\s*:\s*ORIGIN\s*=\s*(\w+)\s*,\s*LENGTH\s*=\s*(\d+)K",
                  ld)
    o.obligations += 1
    src = read(PY)
    size = re.search(r"AttoSoC\(\s*num_bytes\s*=\s*(0x[0-9a-fA-F]+|\d+)", src)
    if not x or not size:
        raise AnalysisBroken("memory region or memory size not found")
    if int(x[1], 0) != 0 or int(x[2]) * 1024 > int(size[1], 0):
        o.add("region", f"the linker places the program in {x[1]}+{x[2]}K but "
              f"the SoC has {size[1]} bytes at 0; at sentinel-rt/examples/"
              f"device.x; {PY}: demo")
    reset(m, r)
    o.cover.update(accessors=len(offs), bus_variants=2, rules=r.n,
                   bases=arms)


def hx(v):
    return "an unknown address" if v is None else f"{v:#010x}"


def read(path):
    try:
        with open(os.path.join(REPO, path)) as fp:
            return fp.read()
    except OSError:
        raise AnalysisBroken(f"{path} is gone") from None


def bases(soc):
    """Memory map of a peripheral -> its first address."""
    out = {}
    ram = None
    for win, a, _ in soc.decoder.map.windows:
        out[id(win)] = a
        if win is soc.mem.bus.memory_map:
            ram = a
        for sub, b, _ in win.windows:       # a bridge's window
            out[id(sub)] = a + b
            for leaf, c, _ in sub.windows:  # behind the CSR decoder
                out[id(leaf)] = a + b + c
    return out, ram


def register_offsets(m):
    """Byte offset of each register of each peripheral, from the words its
    decode logic selects (checked by the other SoC rules)."""
    wb = {("Timer", "irq"): 0, ("Serial", "data"): 0, ("Serial", "irq"): 4,
          ("Gpio", "leds"): 0, ("Gpio", "inout"): 4, ("Gpio", "oe"): 8}
    names = {"txrx": "data"}
    csr = {}
    for k, cls in (("Gpio", m.CSRLeds), ("Timer", m.CSRTimer),
                   ("Serial", m.CSRSerial)):
        for n, off, _ in cls().bridge.sa_regs:
            csr[k, names.get(n, n)] = off
    return {"WB": wb, "CSR": csr}


def lines(m, r, soc, d, bus):
    """The processor's interrupt line and bus."""
    run = Run(d)
    D = run.D
    c = run.cycle(run.unknown(), run.fresh("a"))
    r.same(D, "AttoSoC", f"{bus}: the interrupt line is the OR of timer and "
           "serial port", c.sig(soc.cpu.irq),
           (D.or_(c.sig(soc.timer.irq)[0], c.sig(soc.serial.irq)[0]),))
    for k in ("adr", "dat_w", "sel", "we", "stb", "cyc"):
        r.holds(D, "AttoSoC", f"{bus}: bus signal {k} of the processor drives "
                "the decoder", TRUE if d.nets(getattr(soc.cpu.bus, k)) ==
                d.nets(getattr(soc.decoder.bus, k)) else FALSE)
    for k in ("dat_r", "ack"):
        r.holds(D, "AttoSoC", f"{bus}: bus signal {k} of the decoder drives "
                "the processor", TRUE if d.nets(getattr(soc.cpu.bus, k)) ==
                d.nets(getattr(soc.decoder.bus, k)) else FALSE)


def reset(m, r):
    """Out of reset the serial port interrupts at once with Wishbone
    peripherals, and keeps doing so until its interrupt register is read; with
    CSR peripherals it does not until something is received or sent."""
    u = m.WBSerial()
    d = design(u)
    run = Run(d)
    D = run.D
    c = run.cycle(run.initial(), run.fresh("0"))
    c = run.cycle(c.next(), run.fresh("1"))
    r.same(D, "WBSerial", "an interrupt is pending from the second clock on",
           c.out("irq"), (TRUE,))
    u = m.CSRSerial()
    f = {"txrx": u.txrx_reg.f.txrx, "irq": u.irq_reg.f.irq}
    d = design(u, strobes(f))
    run = Run(d)
    D = run.D
    st = run.initial()
    r.same(D, "CSRSerial", "no interrupt out of reset",
           run.cycle(st, run.fresh("0")).out("irq"), (FALSE,))
    quiet = dict(rx=1, txrx_w_stb=0)
    seen = set()
    while True:
        c = run.cycle(st, run.fresh("q", quiet))
        r.same(D, "CSRSerial", "no interrupt before anything is received or "
               "sent", c.out("irq"), (FALSE,))
        key = tuple(sorted(st.items()))
        if key in seen or len(seen) > 64:
            break
        seen.add(key)
        st = c.next()
    r.holds(D, "CSRSerial", "the idle state is stable",
            TRUE if key in seen else FALSE)
