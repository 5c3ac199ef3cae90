"""Rules over the microcode ROM component: the netlist decodes every field at
the place its microcode source declares (shipped source and a systematic
family of layouts), and sources that disagree with the field map do not
build."""
import contextlib
import enum
import io
import itertools
import os
import tempfile
import warnings
from pathlib import Path

from amaranth import Shape, unsigned
from amaranth.hdl import _nir
from .frontend import AnalysisBroken, Design

# ---- sources --------------------------------------------------------------


class F:
    """A field of a generated microcode source."""

    def __init__(self, name, width, origin, values=None, shape=None,
                 kind="int"):
        self.name, self.width, self.origin = name, width, origin
        self.kind, self.values = kind, values
        self.shape = shape

    def decl(self):
        if self.kind == "bool":
            return f"{self.name}: bool, origin {self.origin}, default 0;"
        if self.kind == "enum":
            v = " ".join(f"{k} = {x};" for k, x in self.values.items())
            d = next(iter(self.values))
            return f"{self.name}: enum {{ {v} }}, width {self.width}, " \
                   f"origin {self.origin}, default {d};"
        return f"{self.name}: width {self.width}, origin {self.origin}, " \
               "default 0;"


def source(fields, words, width, size, at=0, space="rom"):
    """(text, expected contents)."""
    out = [f"space {space}: width {width}, size {size};", f"space {space};",
           f"origin {at};", f"fields {space}: {{"]
    out += ["  " + f.decl() for f in fields] + ["};"]
    mem = [0] * size
    for i, w in enumerate(words):
        out.append(", ".join(f"{f.name} => {v}" for f, v in zip(fields, w))
                   + ";")
        mem[at + i] = sum(v << f.origin for f, v in zip(fields, w))
    return "\n".join(out) + "\n", mem


def make_enum(name, values, width=None):
    cls = enum.Enum(name, {k.upper(): v for k, v in values.items()})
    if width is not None and Shape.cast(cls).width != width:
        raise AnalysisBroken(f"witness enum {name} has the wrong width")
    return cls


def build(text, fmap, from_file=False, **kw):
    from sentinel.ucoderom import UCodeROM
    with warnings.catch_warnings(), \
            contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        if from_file:
            with tempfile.TemporaryDirectory() as d:
                p = Path(d) / "witness.asm"
                p.write_text(text)
                return UCodeROM(main_file=p, field_map=fmap, **kw)
        return UCodeROM(main_file=io.StringIO(text), field_map=fmap, **kw)


# ---- netlist rules --------------------------------------------------------
def check_rom(o, tag, comp, fields, mem, width):
    """Rules for one built component against its declared fields."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        d = Design(comp)
    ports = d.rports
    asyncs = [c for c in d.cells if isinstance(c, _nir.AsyncReadPort)]
    src = "src/sentinel/ucoderom.py: UCodeROM.elaborate"
    o.obligations += 6
    if len(ports) != 1 or asyncs or d.wports or len(d.mems) != 1 or d.ffs:
        o.add(f"{tag}/port", f"[{tag}] the ROM is not one memory behind one "
              f"clocked read port; at {src}")
        return
    p = d.cells[ports[0]]
    m = d.cells[p.memory]
    init = [int(x) for x in m.init] + [0] * (m.depth - len(m.init))
    if m.depth != len(mem):
        o.add(f"{tag}/depth", f"[{tag}] ROM depth {m.depth}, declared "
              f"{len(mem)}; at {src}")
    for a, w in enumerate(mem):
        o.obligations += 1
        if a < len(init) and init[a] != w:
            o.add(f"{tag}/word", f"[{tag}] ROM word {a:#x} is {init[a]:#x}, "
                  f"assembled {w:#x}; at src/sentinel/ucoderom.py: "
                  "UCodeROM._create_mem_init")
    want = max(1, (len(mem) - 1).bit_length()) if len(mem) > 1 else 0
    if [int(n) for n in p.addr] != [int(n) for n in d.in_nets("addr")] or \
            len(p.addr) != want:
        o.add(f"{tag}/addr", f"[{tag}] the read port is not addressed by the "
              f"addr input; at {src}")
    if int(p.en) != 1 or p.clk_edge != "pos" or \
            int(p.clk) != int(d.in_nets("clk")[0]):
        o.add(f"{tag}/en", f"[{tag}] the read port is not enabled on every "
              f"rising clock edge; at {src}")
    out = d.outputs["fields"]
    lay = comp.fields.shape()
    names = [k for k, _ in lay]
    for f in fields:
        o.obligations += 1 + f.width
        if f.name not in names:
            o.add(f"{tag}/field", f"[{tag}] field {f.name} is not among the "
                  "decoded fields; at src/sentinel/ucoderom.py: "
                  "UCodeROM._create_field_layout")
            continue
        q = lay[f.name]
        if q.width != f.width:
            o.add(f"{tag}/width", f"[{tag}] field {f.name} is decoded as "
                  f"{q.width} bits, declared {f.width}; at "
                  "src/sentinel/ucoderom.py: UCodeROM._create_field_layout")
            continue
        if f.shape is not None and q.shape is not f.shape and \
                q.shape != f.shape:
            o.add(f"{tag}/shape", f"[{tag}] field {f.name} has shape "
                  f"{q.shape!r}, its field map says {f.shape!r}; at "
                  "src/sentinel/ucoderom.py: UCodeROM._create_field_layout")
        for i in range(f.width):
            n = int(out[q.offset + i])
            b = f.origin + i
            w = (ports[0] << 16 | b) if b < width else 0
            if n != w:
                o.add(f"{tag}/bits", f"[{tag}] bit {i} of field {f.name} is "
                      f"not bit {b} of the microword; at "
                      "src/sentinel/ucoderom.py: "
                      "UCodeROM._create_field_layout")
                break


def shipped():
    """Fields and words of the shipped source, by the assembler alone."""
    from m5meta import M5Meta
    from m5pre import M5Pre
    from sentinel.ucoderom import UCodeROM
    path = UCodeROM.main_microcode_file()
    with open(path) as f:
        a = M5Meta(f, obj_base_fn="microcode")
        a.src = M5Pre(f).read()
        with contextlib.redirect_stdout(io.StringIO()):
            for a.pass_num in (1, 2):
                a.pass12()
    sp = next(iter(a.spaces.values()))
    sp.generate_object()
    mem = [0] * sp.size
    for k, v in sp.data.items():
        mem[int(k)] = v
    return sp, mem


def guard(o, tag, what, fn):
    """Builds a component; a refusal is a finding."""
    try:
        return fn()
    except AnalysisBroken:
        raise
    except Exception as e:
        o.add(f"{tag}/build", f"[{tag}] {what} does not build: "
              f"{type(e).__name__}: {str(e)[:120]}; at "
              "src/sentinel/ucoderom.py: UCodeROM.assemble")


def kinds(i, k, w, at):
    """Field i of a witness, of kind k; w is the width of int fields."""
    n = f"f{i}"
    if k == "bool":
        return F(n, 1, at, shape=unsigned(1), kind="bool")
    if k == "enum":
        v = {"p": 0, "q": 2, "r": 3, "s": 1}
        return F(n, 2, at, v, make_enum(f"W{i}", v, 2), "enum")
    return F(n, w, at, shape=unsigned(w))


def layout(o, tier):
    from sentinel.ucoderom import UCodeROM
    sp, mem = shipped()
    decl = [F(n, f.width, f.origin, f.enum) for n, f in sp.fields.items()]
    if len(decl) < 20 or len(mem) < 128:
        raise AnalysisBroken("the shipped microcode has lost most of its "
                             "fields")
    with contextlib.redirect_stdout(io.StringIO()):
        c = guard(o, "shipped", "the shipped microcode", UCodeROM)
    if c is not None:
        check_rom(o, "shipped", c, decl, mem, sp.width)
        lay = dict(iter(c.fields.shape()))
        bools = {"false": 0, "true": 1}
        for f in decl:
            o.obligations += 1
            s = getattr(lay.get(f.name), "shape", None)
            if f.values is None or f.values == bools:
                continue
            have = {k.lower(): v.value for k, v in
                    getattr(s, "__members__", {}).items()}
            if any(have.get(k) != v for k, v in f.values.items()) or \
                    set(have) - set(f.values):
                o.add(f"shipped/enum/{f.name}", f"[shipped] the values of "
                      f"{f.name} in the source do not agree with {s!r}; at "
                      "src/sentinel/ucodefields.py")
        # every field is read by the core from its own bits
        from .core import Core
        core = Core()
        o.obligations += len(core.rom)
        if list(core.rom) != mem:
            o.add("shipped/core-rom", "the microcode memory of the core does "
                  "not hold the assembled words; at src/sentinel/control.py")
        nets = core.d.nets(core.top.control.ucoderom.fields)
        for f in decl:
            q = lay.get(f.name)
            for i in range(f.width):
                o.obligations += 1
                n = int(nets[q.offset + i]) if q is not None else None
                if n != core.rom_port << 16 | f.origin + i:
                    o.add(f"shipped/core/{f.name}", f"bit {i} of microcode "
                          f"field {f.name} in the core is not bit "
                          f"{f.origin + i} of the microword; at "
                          "src/sentinel/control.py")
    files = [("shipped", None, decl, mem, sp.width)]
    n = 0
    gaps = (0, 1, 3)
    combos = []
    for nf in (1, 2, 3):
        for g in itertools.product(gaps, repeat=nf + 1):
            combos.append((nf, g, ("int", "enum", "bool")[:nf]))
    ks = list(itertools.product(("int", "bool", "enum"), repeat=2))
    combos += [(2, (0, 2, 0), k) for k in ks]
    combos += [(4, (0, 1, 2, 3, 0), ("int",) * 4),
               (4, (2, 1, 0, 1, 4), ("bool", "enum", "int", "bool")),
               (5, (0, 1, 1, 1, 1, 1), ("bool",) * 5)]
    if tier == "thorough":
        combos += [(3, g, k) for g in itertools.product((0, 2), repeat=4)
                   for k in itertools.product(("int", "bool", "enum"),
                                              repeat=3)]
    for nf, g, k in combos:
        at, fs = 0, []
        for i in range(nf):
            at += g[i]
            f = kinds(i, k[i], 3 + i, at)
            fs.append(f)
            at += f.width
        width = at + g[-1]
        size, base = ((8, 0), (16, 5), (2, 0), (256, 250), (5, 1))[n % 5]
        words = [[(1 << f.width) - 1 if (i + j) % 2 else
                  (2 if f.kind == "enum" else 1 << f.width >> 1)
                  for j, f in enumerate(fs)] for i in range(2)]
        text, want = source(fs, words, width, size, base)
        tag = f"layout:{'/'.join(k)}:gaps{'.'.join(map(str, g))}"
        c = guard(o, tag, "a conforming source", lambda: build(
            text, {f.name: f.shape for f in fs}, from_file=n % 2 == 1))
        if c is not None:
            check_rom(o, tag, c, fs, want, width)
        if n % 12 == 0:
            files.append((tag, text, fs, want, width))
        n += 1
    for f in files:
        for req in itertools.product((False, True), repeat=2):
            artifacts(o, *f, *req)
    # positive control: a deviating expectation is noticed
    class Sink:
        obligations = 0
        found = []

        def add(self, k, t):
            self.found.append(k)
    s = Sink()
    fs = [F("a", 2, 0, shape=unsigned(2)), F("b", 2, 3, shape=unsigned(2))]
    text, want = source(fs, [[1, 2]], 5, 4)
    c = guard(o, "control", "a conforming source", lambda: build(
        text, {f.name: f.shape for f in fs}))
    if c is not None:
        fs[1].origin = 2
        check_rom(s, "x", c, fs, want[:-1] + [1], 5)
        if not {"x/bits", "x/word"} <= set(s.found):
            raise AnalysisBroken("control: a wrong layout is not noticed")
    o.cover.update(shipped_fields=len(decl), shipped_words=len(mem),
                   layouts=n)


def unused(c):
    """The component is not elaborated; no warning about that."""
    for x in [c, *vars(c).values()]:
        if hasattr(x, "_MustUse__used"):
            x._MustUse__used = True


def artifacts(o, tag, text, fields, mem, width, hexf, fdef):
    """The files written on request hold the ROM's words and fields; no other
    file is written."""
    from sentinel.ucoderom import UCodeROM
    at = "src/sentinel/ucoderom.py: UCodeROM.assemble"
    with tempfile.TemporaryDirectory() as d, \
            tempfile.TemporaryDirectory() as cwd:
        kw = {}
        if hexf:
            kw["hex"] = Path(d) / "words.hex"
        if fdef:
            kw["field_defs"] = Path(d) / "fields.txt"
        here = os.getcwd()
        os.chdir(cwd)
        try:
            if text is None:
                with contextlib.redirect_stdout(io.StringIO()):
                    c = guard(o, tag, "the shipped microcode",
                              lambda: UCodeROM(**kw))
            else:
                c = guard(o, tag, "a conforming source", lambda: build(
                    text, {f.name: f.shape for f in fields}, **kw))
        finally:
            os.chdir(here)
        if c is None:
            return
        unused(c)
        o.obligations += 1
        have = sorted(os.listdir(d)) + sorted(os.listdir(cwd))
        want = [p.name for p in sorted(kw.values())]
        if have != sorted(want):
            o.add(f"{tag}/files", f"[{tag}] requested files {sorted(want)}, "
                  f"written {have}; at {at}")
            return
        if hexf:
            o.obligations += 1
            got, a = [0] * len(mem), 0
            try:
                for w in kw["hex"].read_text().split():
                    if w.startswith("@"):
                        a = int(w[1:], 16)
                    else:
                        got[a] = int(w, 16)
                        a += 1
            except (ValueError, IndexError) as e:
                got = e
            if got != mem:
                o.add(f"{tag}/hex", f"[{tag}] the hex file does not hold the "
                      f"words of the ROM; at {at}")
        if fdef:
            o.obligations += 1
            got, head = {}, None
            for line in kw["field_defs"].read_text().splitlines():
                w = line.split()
                if w[:2] == ["word", "width"]:
                    head = int(w[2])
                elif w[:1] == ["field"] and w[2::2][:2] == ["lsb", "width"]:
                    got[w[1]] = (int(w[3]), int(w[5]))
            if head != width or got != {f.name: (f.origin, f.width)
                                        for f in fields}:
                o.add(f"{tag}/fdef", f"[{tag}] the field definition file does "
                      f"not describe the ROM's fields; at {at}")


# ---- sources that must not build -------------------------------------------
def refuse(o, tag, text, fmap, from_file=False):
    o.obligations += 1
    src = "src/sentinel/ucoderom.py: UCodeROM.assemble"
    try:
        build(text, fmap, from_file)
    except ValueError:
        return
    except Exception as e:
        o.add(f"{tag}", f"[{tag}] a mismatching source is refused with "
              f"{type(e).__name__} instead of ValueError; at {src}")
        return
    o.add(f"{tag}", f"[{tag}] a mismatching source builds; at {src}")


def variants(f, values, shape, width):
    """(kind of mismatch, replacement shape) for a field of a source."""
    out = [("unmapped", None)]
    if values is None:
        out += [("wider", unsigned(width + 1)), ("much wider",
                                                 unsigned(width + 8))]
        if width > 1:
            out.append(("narrower", unsigned(width - 1)))
        return out
    names = list(values)

    def mk(v, extra=None):
        try:
            return enum.Enum("M", {k.upper(): x for k, x in v.items()})
        except Exception as e:
            raise AnalysisBroken(f"witness enum: {e}") from e
    top = max(values.values())
    for k in names:
        # an enumerator the map lacks
        rest = {a: b for a, b in values.items() if a != k}
        if rest:
            out.append((f"lacks {k}", mk(rest)))
        # another value
        for nv in {(values[k] + 1) % (1 << width), top,
                   values[k] ^ (1 << width - 1) if width else 0}:
            if nv != values[k]:
                out.append((f"{k} is {nv}", mk({**values, k: nv})))
        # another name
        out.append((f"{k} renamed", mk({(a if a != k else "zz_" + a): b
                                        for a, b in values.items()})))
    for a, b in itertools.combinations(names, 2):
        if values[a] != values[b]:
            out.append((f"{a}/{b} swapped",
                        mk({**values, a: values[b], b: values[a]})))
    free = [x for x in range(1 << width) if x not in values.values()]
    for x in free[:2]:
        out.append((f"extra {x}", mk({**values, "extra": x})))
    out.append(("wider by an enumerator",
                mk({**values, "extra": (1 << width)})))
    out.append(("plain shape", unsigned(width)))
    return out


def mismatch(o, tier):
    from sentinel.ucoderom import UCodeROM
    sp, mem = shipped()
    bools = {"false": 0, "true": 1}
    fmap = dict(UCodeROM.field_map)
    n = 0
    # the declarations of the shipped source, a field map changed in one place
    for name, f in sp.fields.items():
        vals = f.enum if f.enum and f.enum != bools else None
        if vals is None:
            d = F(name, f.width, 0, kind="bool" if f.enum else "int")
        else:
            d = F(name, f.width, 0, vals, kind="enum")
        other = F("other", 2, f.width + n % 3)
        text, _ = source([d, other], [[0, 1]], f.width + 8, 4)
        good = {name: fmap.get(name), "other": unsigned(2)}
        guard(o, f"{name}:control", "a source with the shipped field map",
              lambda: build(text, good))
        for what, shape in variants(d, vals, fmap.get(name), f.width):
            bad = dict(good)
            if shape is None:
                del bad[name]
            else:
                bad[name] = shape
            refuse(o, f"{name}:{what}", text, bad, n % 2 == 1)
            n += 1
    # enumerations with aliases, single members, wide declared fields
    al = {"a": 0, "b": 0, "c": 1}
    for i, (vals, width) in enumerate([(al, 1), ({"a": 1}, 1),
                                       ({"a": 0, "b": 5, "c": 3}, 3),
                                       ({"x": 0, "y": 1}, 1)]):
        d = F("e", width, 0, vals, kind="enum")
        text, _ = source([d], [[next(iter(vals.values()))]], 8, 4)
        guard(o, f"enum{i}:control", "a source with a matching enumeration",
              lambda: build(text, {"e": make_enum("E", vals)}))
        for what, shape in variants(d, vals, None, width):
            refuse(o, f"enum{i}:{what}", text,
                   {"e": shape} if shape is not None else {"other": shape})
            n += 1
    # a field wider than the enumeration needs
    d = F("e", 3, 0, {"a": 0, "b": 1}, kind="enum")
    text, _ = source([d], [[1]], 8, 4)
    refuse(o, "declared wider than its enumeration", text,
           {"e": make_enum("E", {"a": 0, "b": 1})})
    # several address spaces, none
    one = F("a", 2, 0)
    t1, _ = source([one], [[1]], 8, 4)
    for k, extra in enumerate([
            "space two: width 8, size 4;\n",
            "space two: width 8, size 4;\nspace two;\norigin 0;\n"
            "fields two: {\n  z: width 2, origin 0, default 0;\n};\nz => 1;\n",
            "space two: width 8, size 4;\nspace three: width 1, size 2;\n"]):
        for src in (t1 + extra, extra.split("\n")[0] + "\n" + t1):
            refuse(o, f"address spaces {k}", src, {"a": unsigned(2),
                                                   "z": unsigned(2)})
            n += 1
    # positive control: a conforming source is not refused

    class Sink:
        obligations = 0
        found = []

        def add(self, k, t):
            self.found.append(k)
    s = Sink()
    refuse(s, "x", t1, {"a": unsigned(2)})
    if not s.found and not o.findings:
        raise AnalysisBroken("control: a conforming source is refused")
    o.cover.update(mismatching_sources=n, shipped_fields=len(sp.fields))
