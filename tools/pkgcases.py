"""Development aid: broken (BAD) and equivalent (GOOD) variants of the
package's sources for P51 and P52; every bad one must be reported by its
property, every good one by neither.   pkgcases.py [name ...]"""
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
S = "src/sentinel/"
U, D, T, C, A = (S + x + ".py" for x in
                 ("ucoderom", "decode", "top", "control", "alu"))
IFM = """        if field_map:
            self.field_map = field_map
"""
MEM = """        self.ucode_mem = Memory(shape=self.width, depth=self.depth,
                                init=self.ucode_contents)
"""
CLS = "class UCodeROM(Component):\n"
FMAP = '    field_map: dict = {'
ASM = "        self.assemble()\n"

ROMS = "            for i, v in enumerate(self._rom):\n                with m.Case(i):\n                    m.d.sync += self.data.eq(v)\n"

BAD = {
    "id-order": ("P51", D, [(
        ROMS,
        "            groups = {}\n            for i, v in enumerate(self._rom):\n                groups.setdefault(id(v), (v, []))[1].append(i)\n            for _, (v, at) in sorted(groups.items()):\n                with m.Case(*at):\n                    m.d.sync += self.data.eq(v)\n")]),
    "id-set-order": ("P51", D, [(
        ROMS,
        "            kinds = set()\n            for v in self._rom:\n                kinds.add(id(v))\n            for k in kinds:\n                with m.Case(*[i for i, w in enumerate(self._rom)\n                              if id(w) == k]):\n                    m.d.sync += self.data.eq(k)\n")]),
    "id-value": ("P51", D, [(
        ROMS,
        "            for i, v in enumerate(self._rom):\n                with m.Case(i):\n                    m.d.sync += self.data.eq(id(v) % 2)\n")]),
    "map-update": ("P51", U, [(IFM, "        if field_map:\n"
                               "            self.field_map.update(field_map)\n")]),
    "map-update-alias": ("P51", U, [(
        IFM, IFM + "        known = self.field_map\n"
        "        for k in list(known):\n            known[k] = known[k]\n")]),
    "map-arg": ("P51", U, [(IFM, "        if field_map:\n"
                            "            field_map.setdefault('target', Target)\n"
                            "            self.field_map = field_map\n")]),
    "map-arg-later": ("P51", U, [(
        "        self.field_layout = StructLayout(layout)",
        "        self.field_layout = StructLayout(layout)\n"
        "        self.field_map.pop('unused', None)")]),
    "memo-class": ("P51", U, [(ASM, """        if UCodeROM._done is None:
            self.assemble()
            UCodeROM._done = (self.width, self.depth, self.ucode_contents,
                              self.field_layout)
        (self.width, self.depth, self.ucode_contents,
         self.field_layout) = UCodeROM._done
"""), (FMAP, "    _done = None\n" + FMAP)]),
    "memo-type": ("P51", U, [(ASM, ASM + "        type(self).last = self\n")]),
    "memo-global": ("P51", U, [(ASM, "        global _count\n"
                                "        _count += 1\n" + ASM),
                               (CLS, "_count = 0\n\n\n" + CLS)]),
    "memo-dict": ("P51", U, [(ASM, ASM + "        _SEEN['rom'] = self\n"),
                             (CLS, "_SEEN = {}\n\n\n" + CLS)]),
    "default-list": ("P51", U, [
        ("                 field_map=None):",
         "                 field_map=None, log=[]):\n"
         "        log.append(main_file)\n        self.log = log")]),
    "contents-class": ("P51", U, [
        ("        self.ucode_contents = [0] * self.depth\n",
         "        self.ucode_contents.extend([0] * self.depth)\n"),
        (FMAP, "    ucode_contents = []\n" + FMAP)]),
    "contents-grow": ("P51", U, [
        ("        self.ucode_contents = [0] * self.depth\n",
         "        self.ucode_contents += [0] * self.depth\n"),
        (FMAP, "    ucode_contents = []\n" + FMAP)]),
    "contents-helper": ("P51", U, [
        ("        self._create_mem_init(space)\n",
         "        self._create_mem_init(space)\n"
         "        self._note(UCodeROM.seen)\n"),
        ("    def _create_mem_init(self",
         "    def _note(self, where):\n        where['n'] = self.depth\n\n"
         "    def _create_mem_init(self"),
        (FMAP, "    seen = {}\n" + FMAP)]),
    "signal-class": ("P51", A, [("class ALU(Component):\n",
                                 "class ALU(Component):\n    _tmp = Signal(32)\n")]),
    "signal-module": ("P51", A, [("class ALU(Component):\n",
                                  "_TMP = Signal(32)\n\n\n"
                                  "class ALU(Component):\n")]),
    "signal-default": ("P51", T, [("    def elaborate(self, platform):",
                                   "    def spare(self, s=Signal()):\n"
                                   "        return s\n\n"
                                   "    def elaborate(self, platform):")]),
    "signal-cache": ("P51", A, [("class ALU(Component):\n",
                                 "@functools.cache\ndef scratch(n):\n"
                                 "    s = Signal(n)\n    return s\n\n\n"
                                 "class ALU(Component):\n"),
                                ("from .align", "import functools\n"
                                 "from .align")]),
    "memory-class": ("P51", U, [(FMAP, "    rom = Memory(shape=48, depth=256,"
                                 " init=[])\n" + FMAP)]),
    "component-module": ("P51", T, [("class Top(Component):\n",
                                     "SHARED = Decode()\n\n\n"
                                     "class Top(Component):\n")]),
    "random-pad": ("P51", U, [("        self.ucode_contents = [0]",
                               "        self.ucode_contents = "
                               "[random.randint(0, 1)]"),
                              ("from io import", "import random\n"
                               "from io import")]),
    "counter": ("P51", U, [(ASM, "        self.id = next(_ids)\n" + ASM),
                           (CLS, "_ids = itertools.count()\n\n\n" + CLS),
                           ("from io import", "import itertools\n"
                            "from io import")]),
    "counter-class": ("P51", U, [(ASM, "        self.id = next(self._ids)\n"
                                  + ASM),
                                 (FMAP, "    _ids = itertools.count()\n"
                                  + FMAP),
                                 ("from io import", "import itertools\n"
                                  "from io import")]),
    "singleton": ("P51", U, [(FMAP, "    _one = None\n\n"
                              "    def __new__(cls, *a, **k):\n"
                              "        if cls._one is None:\n"
                              "            cls._one = super().__new__(cls)\n"
                              "        return cls._one\n\n" + FMAP)]),
    "env": ("P51", U, [("        if not main_file:",
                        "        main_file = main_file or "
                        "os.environ.get('UCODE')\n        if not main_file:"),
                       ("from io import", "import os\nfrom io import")]),
    "set-order": ("P51", T, [("    def elaborate(self, platform):",
                              "    def parts(self):\n"
                              "        for n in {'alu', 'control'}:\n"
                              "            yield getattr(self, n)\n\n"
                              "    def elaborate(self, platform):")]),
    "sys-path": ("P51", U, [(ASM, "        sys.path.append('.')\n" + ASM),
                            ("from io import", "import sys\nfrom io import")]),
    "chdir": ("P51", U, [(ASM, "        os.remove('x.hex')\n" + ASM),
                         ("from io import", "import os\nfrom io import")]),
    # P52
    "undeclared": ("P52", U, [("from m5pre import", "import yaml\n"
                               "from m5pre import")]),
    "undeclared-lazy": ("P52", U, [("        if self.hex:",
                                    "        if self.hex:\n"
                                    "            from tabulate import tabulate")]),
    "dev-import": ("P52", T, [("from amaranth_soc import wishbone",
                               "from amaranth_soc import wishbone\n"
                               "from bronzebeard.asm import assemble")]),
    "tests-import": ("P52", S + "formal.py", [(
        "from .top import Top", "from tests.sim import x\nfrom .top import Top")]),
    "lost-name": ("P52", S + "gen.py", [("from .formal import FormalTop",
                                         "from .formal import Formal as FormalTop")]),
    "cycle": ("P52", S + "exception.py", [("from .csr import",
                                           "from .control import Control\n"
                                           "from .csr import")]),
    "undefined": ("P52", U, [("            space.write_hex_file(self.hex)",
                              "            space.write_hex_file(hex_name)")]),
    "undefined-error": ("P52", U, [('raise ValueError(f"{se_class} in Amar',
                                    'raise MicrocodeError(f"{se_class} in Amar')]),
    "member": ("P52", C, [("JmpType.MAP", "JmpType.MAPPED")]),
    "asm-elsewhere": ("P52", U, [("Path(__file__).parent /",
                                  "Path(__file__).parents[2] / 'tests' /")]),
    "asm-name": ("P52", U, [('/ "microcode.asm"', '/ "microcode.m5"')]),
    "asm-cwd": ("P52", U, [("with open(self.main_file) as mfp",
                            "with open('src/sentinel/microcode.asm') as mfp")]),
    "asm-excluded": ("P52", "pyproject.toml", [
        ('    "tests/*/*/.*",', '    "tests/*/*/.*", "src/*/*.asm",')]),
    "dep-dropped": ("P52", "pyproject.toml", [('    "m5pre>=1.0.3",\n', "")]),
}

GOOD = {
    "set-signals": (D, [(ROMS, """            kinds = {}
            for i, v in enumerate(self._rom):
                kinds.setdefault(hash(id(v)), []).append((i, v))
            for pairs in kinds.values():
                with m.Case(*(i for i, _ in pairs)):
                    m.d.sync += self.data.eq(pairs[0][1])
""")]),
    "logger": (U, [("from io import", "import logging\nfrom io import"),
                   (CLS, "_LOG = logging.getLogger(__name__)\n\n\n" + CLS),
                   (ASM, '        _LOG.debug("assembling %s", self.main_file)\n'
                    + ASM)]),
    "padding-count": (U, [
        ("        padding_id = 0\n", "        padding = count()\n"),
        ('layout[f"_padding_{padding_id}"]',
         'layout[f"_padding_{next(padding)}"]'),
        ("            padding_id += 1\n", "            pass\n"),
        ("from itertools import tee", "from itertools import count, tee")]),
    "local-class": (T, [("    def elaborate(self, platform):",
                         "    def info(self):\n"
                         "        class Box:\n            items = []\n\n"
                         "        Box.items.append(1)\n"
                         "        return Box.items\n\n"
                         "    def elaborate(self, platform):")]),
    "collector": (U, [("        self._create_mem_init(space)\n",
                       "        notes = []\n"
                       "        for k in space.fields:\n"
                       "            self._remember(notes, k)\n"
                       "        self.notes = tuple(notes)\n"
                       "        self._create_mem_init(space)\n"),
                      ("    def _create_mem_init(self",
                       "    @staticmethod\n"
                       "    def _remember(into, k):\n"
                       "        into.append(k)\n\n"
                       "    def _create_mem_init(self")]),
    "frozen-params": (U, [("from io import",
                           "from dataclasses import dataclass, field\n"
                           "from io import"),
                          (CLS, "@dataclass\nclass _Options:\n"
                           "    hex: object = None\n"
                           "    names: list = field(default_factory=list)\n"
                           "\n\n" + CLS),
                          (ASM, "        opts = _Options(hex=self.hex)\n"
                           "        opts.names.append('x')\n"
                           "        opts.hex = None\n" + ASM)]),
    "cached-property": (U, [("from io import",
                             "from functools import cached_property\n"
                             "from io import"),
                            ("    def elaborate(self, platform):",
                             "    @cached_property\n"
                             "    def words(self):\n"
                             "        return list(self.ucode_contents)\n\n"
                             "    def elaborate(self, platform):")]),
    "sorted-fields": (U, [("        for addr in sorted(space.data.keys()):\n",
                           "        addrs = set(space.data)\n"
                           "        for addr in sorted(addrs):\n")]),
    "set-of-enums": (C, [("        m.submodules.ucoderom = self.ucoderom\n",
                          "        m.submodules.ucoderom = self.ucoderom\n"
                          "        tests = {CondTest.TRUE, CondTest.MEM_VALID}"
                          "\n        assert CondTest.TRUE in tests\n")]),
    "decorator": (A, [("class ALU(Component):\n",
                       "def named(fn):\n    fn.kind = fn.__name__\n"
                       "    return fn\n\n\n@named\ndef spare():\n"
                       "    return 1\n\n\nclass ALU(Component):\n")]),
    "exit-stack": (S + "gen.py", [
        ("        fp = open(fn, \"w\")\n    else:",
         "        fp = stack.enter_context(open(fn, \"w\"))\n    else:"),
        ("    is_stdout = not fn or fn == \"-\"\n",
         "    is_stdout = not fn or fn == \"-\"\n    stack = ExitStack()\n"),
        ("            fp.close()", "            stack.close()"),
        ("from contextlib import contextmanager",
         "from contextlib import ExitStack, contextmanager")]),
    "field-dict-local": (U, [(
        "            ss_class = self.field_map[field.name]\n",
        "            known = dict(self.field_map)\n"
        "            ss_class = known.pop(field.name)\n")]),
    "all-list": (S + "__init__.py", [('"""The Sentinel RISC-V CPU Package.',
                                      '"""The Sentinel RISC-V CPU Package. ')]),
    "annotations": (A, [("class ALU(Component):\n",
                         "from typing import ClassVar, Final\n"
                         "WIDTH: Final = 32\n\n\n"
                         "class _Note:\n    sizes: ClassVar[tuple] = (1, 2)\n"
                         "    __slots__ = ('a',)\n\n\n"
                         "class ALU(Component):\n")]),
    "match": (A, [("class ALU(Component):\n",
                   "def kind(x):\n    match x:\n"
                   "        case OpType.ADD:\n            return 1\n"
                   "        case {'k': v, **rest}:\n            return v, rest\n"
                   "        case [a, *b]:\n            return a, b\n"
                   "        case _:\n            return (y := 3) + y\n\n\n"
                   "class ALU(Component):\n")]),
    "id-key": (D, [(
        ROMS,
        "            groups = {}\n            for i, v in enumerate(self._rom):\n                groups.setdefault(id(v), (v, []))[1].append(i)\n            for v, at in groups.values():\n                with m.Case(*at):\n                    m.d.sync += self.data.eq(v)\n")]),
    "id-key-name": (D, [(
        ROMS,
        "            groups = {}\n            for i, v in enumerate(self._rom):\n                key = id(v)\n                if key not in groups:\n                    groups[key] = (v, [])\n                groups[key][1].append(i)\n            for v, at in groups.values():\n                with m.Case(*at):\n                    m.d.sync += self.data.eq(v)\n")]),
    "map-copy": (U, [(IFM, "        self.field_map = dict(self.field_map)\n"
                      "        if field_map:\n"
                      "            self.field_map.clear()\n"
                      "            self.field_map.update(field_map)\n")]),
    "map-or": (U, [(IFM, "        self.field_map = field_map or "
                    "type(self).field_map\n")]),
    "layout-helper": (U, [(
        "        self._create_mem_init(space)\n",
        "        extra = {}\n        self._note(extra)\n"
        "        self._create_mem_init(space)\n"),
        ("    def _create_mem_init(self",
         "    def _note(self, where):\n        where['n'] = 1\n\n"
         "    def _create_mem_init(self")]),
    "parts-list": (U, [(ASM, "        self.parts = []\n" + ASM),
                       ("        self._create_mem_init(space)\n",
                        "        self._create_mem_init(space)\n"
                        "        self.parts.append(space)\n"),
                       (FMAP, "    parts = []\n" + FMAP)]),
    "parts-none": (U, [("        self._create_mem_init(space)\n",
                        "        self._create_mem_init(space)\n"
                        "        self.parts = []\n"
                        "        self.parts.append(space)\n"),
                       (FMAP, "    parts = None\n" + FMAP)]),
    "contents-class": (U, [(FMAP, "    ucode_contents = []\n" + FMAP)]),
    "cache-int": (A, [("class ALU(Component):\n",
                       "@functools.cache\ndef width(n):\n    return n + 1\n"
                       "\n\nclass ALU(Component):\n"),
                      ("from .align", "import functools\nfrom .align")]),
    "table": (A, [("class ALU(Component):\n",
                   "_T = {}\nfor _i in range(4):\n    _T[_i] = _i\n\n\n"
                   "class ALU(Component):\n")]),
    "builder": (A, [("class ALU(Component):\n",
                     "class _Build:\n    def __init__(self, m):\n"
                     "        self.m = m\n\n    def go(self, s):\n"
                     "        self.m.d.comb += s.eq(0)\n"
                     "        self.m.submodules.x = None\n\n\n"
                     "class ALU(Component):\n")]),
    "nested": (T, [("    def elaborate(self, platform):",
                    "    def parts(self):\n        out = {}\n\n"
                    "        def put(k, v):\n            out[k] = v\n\n"
                    "        put('alu', self.alu)\n"
                    "        for n in sorted({'alu', 'control'}):\n"
                    "            out.setdefault(n, getattr(self, n))\n"
                    "        return out\n\n"
                    "    def elaborate(self, platform):")]),
    "next-local": (U, [(ASM, "        c = iter(self.field_map)\n"
                        "        self.first = next(c)\n"
                        "        self.other = next(iter(UCodeROM.field_map))\n"
                        + ASM)]),
    "membership": (T, [("    def elaborate(self, platform):",
                        "    def known(self, n):\n"
                        "        return n in {'alu', 'control'}\n\n"
                        "    def elaborate(self, platform):")]),
    "resources": (U, [('return (Path(__file__).parent / "microcode.asm")'
                       '.resolve()',
                       'return Path(str(files("sentinel") / "microcode.asm"))'),
                      ("from io import",
                       "from importlib.resources import files\n"
                       "from io import")]),
    "os-path": (U, [('return (Path(__file__).parent / "microcode.asm")'
                     '.resolve()',
                     'here = os.path.dirname(os.path.abspath(__file__))\n'
                     '        return Path(os.path.join(here, _ASM))'),
                    ("from io import", "import os\nfrom io import"),
                    (CLS, '_ASM = "microcode.asm"\n\n\n' + CLS)]),
    "up-down": (U, [('return (Path(__file__).parent / "microcode.asm")'
                     '.resolve()',
                     'root = Path(__file__).resolve().parents[1]\n'
                     '        return root / "sentinel" / "microcode.asm"')]),
    "typing": (U, [("from io import", "from typing import TYPE_CHECKING\n"
                    "if TYPE_CHECKING:\n    from typeshed import X\n"
                    "try:\n    import yaml\nexcept ImportError:\n"
                    "    yaml = None\nfrom io import")]),
    "generic": (U, [(CLS, "def first[T](x: list[T]) -> T:\n"
                     "    return x[0]\n\n\n" + CLS)]),
    "lazy-cycle": (S + "exception.py", [("    def elaborate(self, platform):",
                                         "    def spare(self):\n"
                                         "        from .control import Control"
                                         "\n        return Control\n\n"
                                         "    def elaborate(self, platform):")]),
    "module-alias": (A, [("class ALU(Component):\n",
                          "from . import ucodefields as uf\n"
                          "_X = uf.MemSel.BYTE\n\n\nclass ALU(Component):\n")]),
    "closure": (C, [("    def elaborate(self, platform):",
                     "    def count(self):\n        n = 0\n\n"
                     "        def inc():\n            nonlocal n\n"
                     "            n += 1\n        inc()\n        return n\n\n"
                     "    def elaborate(self, platform):", 1)]),
    "classvar-int": (C, [("    def elaborate(self, platform):",
                          "    def count(self):\n        self.n = 1\n"
                          "        self.n += 1\n\n"
                          "    def elaborate(self, platform):", 1)]),
}


def check(pid, root):
    r = subprocess.run([sys.executable, os.path.join(
        os.path.dirname(HERE), "run.py"), pid], capture_output=True,
        text=True, env=dict(os.environ, SA_REPO=root, SA_OUT=root + "/out",
                            PYTHONDONTWRITEBYTECODE="1"))
    return r.returncode, r.stdout


def main():
    rc = 0
    for good, table in ((False, BAD), (True, GOOD)):
        for name, e in table.items():
            if sys.argv[1:] and name not in sys.argv[1:]:
                continue
            pids = ["P51", "P52"] if good else [e[0]]
            path, subs = e[-2:]
            with tempfile.TemporaryDirectory() as d:
                shutil.copytree("/repo/src", d + "/src")
                shutil.copy("/repo/pyproject.toml", d)
                t = open(f"{d}/{path}").read()
                for x in subs:
                    assert x[0] in t, (name, x[0])
                    t = t.replace(*x) if len(x) == 3 else t.replace(x[0], x[1])
                open(f"{d}/{path}", "w").write(t)
                for p in pids:
                    c, out = check(p, d)
                    if c != (0 if good else 1):
                        rc = 1
                        print("WRONG", name, p, c, out[-500:])
    print("done")
    return rc


if __name__ == "__main__":
    sys.exit(main())
