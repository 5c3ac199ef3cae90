#!/usr/bin/env python3
"""Broken and behaviour-preserving variants of the generator for P41."""
import os
import subprocess
import sys
import tempfile
import textwrap

SRC = open("/repo/src/sentinel/gen.py").read()
TRY = """    try:
        yield fp
    finally:
        if not is_stdout:
            fp.close()
"""
HEAD = '''    is_stdout = not fn or fn == "-"

    if not is_stdout:
        fp = open(fn, "w")
    else:
        fp = sys.stdout

''' + TRY
DO = SRC[SRC.index("    def do_gen("):SRC.index("    if isinstance(args")]
CM = SRC[SRC.index("@contextmanager\n"):SRC.index("def _generate_args")]
TAIL = SRC[SRC.index("    if isinstance(args"):SRC.index("def _main")]
BAD = {
    "no-finally": [(TRY, """    yield fp
    if not is_stdout:
        fp.close()
""")],
    "close-stdout": [(TRY, TRY.replace("        if not is_stdout:\n    ", ""))],
    "never-close": [(TRY, "    yield fp\n")],
    "append": [('open(fn, "w")', 'open(fn, "a")')],
    "exclusive": [('open(fn, "w")', 'open(fn, "x")')],
    "dash-file": [('not fn or fn == "-"', 'not fn')],
    "empty-open": [('not fn or fn == "-"', 'fn == "-"')],
    "name": [('name=n or "sentinel"', 'name="sentinel"')],
    "name-none": [('name=n or "sentinel"', 'name=n')],
    "name-typo": [('n or "sentinel"', 'o or "sentinel"')],
    "swap": [("if f:", "if not f:")],
    "formal-never": [("m = FormalTop()", "m = Top()")],
    "top-formal": [("            else:\n                m = Top()",
                    "            else:\n                m = Top(formal=True)")],
    "twice": [("            fp.write(v)\n",
               "            fp.write(v)\n            fp.write(v)\n")],
    "stdout-always": [("            fp.write(v)\n", "            print(v)\n")],
    "default-formal": [("            m = Top()\n            print",
                        "            m = FormalTop()\n            print")],
    "only-formal-writes": [("            fp.write(v)\n",
                            "                fp.write(v)\n"),
                           ("            v = verilog",
                            "            if f:\n                v = verilog")],
    "swallow": [("        if not is_stdout:\n            fp.close",
                 "        if is_stdout is None:\n            fp.close")],
    "opt-lost": [('"-n", help', '"-N", help')],
    "flag-inverted": [('"-f", action="store_true"',
                       '"-f", action="store_false"')],
}
GOOD = {
    "helper": [("            if f:\n                m = FormalTop()\n"
                "            else:\n                m = Top()\n"
                "            v = verilog.convert(m, name=n or \"sentinel\")\n",
                "            v = _text(n, f)\n"),
               ("def generate(", "def _text(name, formal):\n"
                "    design = FormalTop() if formal else Top()\n"
                "    if not name:\n        name = \"sentinel\"\n"
                "    return verilog.convert(design, name=name)\n\n\n"
                "def generate(")],
    "before-open": [(DO, '''    def do_gen(*, n, o, f):
        cls = (Top, FormalTop)[f]
        text = verilog.convert(cls(), name=n or "sentinel")
        with _file_or_stdout(o) as out:
            print(text, file=out)

''')],
    "plain-try": [(DO, '''    def do_gen(n, o, f):
        m = {True: FormalTop, False: Top}[f]()
        to_file = bool(o) and o != "-"
        fp = open(o, mode="w") if to_file else sys.stdout
        try:
            fp.write(verilog.convert(m, name="sentinel" if not n else n))
        finally:
            if to_file:
                fp.close()

''')],
    "nullcontext": [(CM, '''def _file_or_stdout(fn):
    if fn in (None, "", "-"):
        return nullcontext(sys.stdout)
    return open(fn, "w")


'''), ("import contextmanager", "import nullcontext")],
    "early-return": [(HEAD, '''    if not fn or fn == "-":
        yield sys.stdout
        return

    with open(fn, "w") as fp:
        yield fp
''')],
    "class": [(CM, '''class _file_or_stdout:
    def __init__(self, fn):
        self.own = fn not in (None, "", "-")
        self.fn = fn

    def __enter__(self):
        self.fp = open(self.fn, "w") if self.own else sys.stdout
        return self.fp

    def __exit__(self, *exc):
        if self.own:
            self.fp.close()
        return False


''')],
    "stack": [(DO, '''    def do_gen(*, n, o, f):
        with ExitStack() as stack:
            if o and not o == "-":
                fp = stack.enter_context(open(o, "w", encoding="utf-8"))
            else:
                fp = sys.stdout
            fp.write(verilog.convert(FormalTop() if f else Top(),
                                     name=n or "sentinel"))

'''), ("import contextmanager", "import ExitStack, contextmanager")],
    "merged-default": [(TAIL, '''    if not sys.argv[1:]:
        print(verilog.convert(Top()))
        return

    if not isinstance(args, argparse.Namespace):
        parser = argparse.ArgumentParser(description="Sentinel")
        _generate_args(parser)
        args = parser.parse_args()

    do_gen(n=args.n, o=args.o, f=args.f)


''')],
    "len-eq": [("len(sys.argv) < 2", "len(sys.argv) == 1")],
    "len-le": [("len(sys.argv) < 2", "not len(sys.argv) > 1")],
    "module-const": [('name=n or "sentinel"', "name=n or _NAME"),
                     ("@contextmanager", '_NAME = "sentinel"\n\n\n'
                      "@contextmanager")],
    "options-loop": [(SRC[SRC.index('    parser.add_argument("-o"'):
                          SRC.index('    parser.add_argument("-f"')],
                      '    for flag, text in (("-o", "output filename"),\n'
                      '                       ("-n", "top-level name")):\n'
                      '        parser.add_argument(flag, help=text)\n')],
    "parser-helper": [
        (SRC[SRC.index("            parser = argparse"):
             SRC.index("def _main")],
         "            do_gen(**vars(_parse(\"Sentinel Verilog generator "
         "(invoked from PDM)\")))\n\n\n"),
        ("def generate(", "def _parse(desc):\n"
         "    parser = argparse.ArgumentParser(description=desc)\n"
         "    _generate_args(parser)\n"
         "    return parser.parse_args()\n\n\ndef generate(")],
    "pathlib": [('open(fn, "w")', 'Path(fn).open("w")'),
                ("import sys\n", "import sys\nfrom pathlib import Path\n")],
    "match": [("            if f:\n                m = FormalTop()\n"
               "            else:\n                m = Top()\n",
               "            match f:\n                case True:\n"
               "                    m = FormalTop()\n"
               "                case _:\n                    m = Top()\n")],
    "default-opt": [('"-n", help', '"-n", default="sentinel", help')],
    "metavar": [('"-o", help', '"-o", metavar="FILE", type=str, help')],
    "comment-assert": [("            fp.write(v)\n",
                        "            assert isinstance(v, str)\n"
                        "            _ = len(v)\n            fp.write(v)\n")],
    "log": [("            fp.write(v)\n", "            fp.write(v)\n"
             "            fp.flush()\n")],
    "dict-args": [("do_gen(**vars(args))",
                   "opts = vars(args)\n            do_gen(n=opts['n'], "
                   "o=opts['o'], f=opts['f'])")],
}

GOOD.update({
    "inline-context": [(DO, '''    def do_gen(*, n, o, f):
        to_file = o not in (None, "", "-")
        with open(o, "w") if to_file else nullcontext(sys.stdout) as fp:
            design = (FormalTop if f else Top)()
            fp.write(verilog.convert(design, name=n or "sentinel"))

'''), ("import contextmanager", "import contextmanager, nullcontext")],
    "write-text": [(DO, '''    def do_gen(*, n, o, f):
        text = verilog.convert(FormalTop() if f else Top(),
                               name=n or "sentinel")
        if o and o != "-":
            Path(o).write_text(text)
        else:
            sys.stdout.write(text)

'''), ("import sys\n", "import sys\nfrom pathlib import Path\n")],
    "inverted": [("is_stdout = not fn or fn == \"-\"",
                  "own = bool(fn) and fn != \"-\""),
                 ("if not is_stdout", "if own")],
    "module-level": [(DO, ""), ("do_gen(", "_do_gen("),
                     ("def generate(", textwrap.dedent(DO).replace(
                         "def do_gen", "def _do_gen") + "\ndef generate(")],
    "designs-table": [("            if f:\n                m = FormalTop()\n"
                       "            else:\n                m = Top()\n",
                       "            m = _DESIGNS[bool(f)]()\n"),
                      ("@contextmanager",
                       "_DESIGNS = {False: Top, True: FormalTop}\n\n\n"
                       "@contextmanager")],
    "name-first": [("            v = verilog.convert(m, name=n or \"sentinel\")\n",
                    "            name = n if n else \"sentinel\"\n"
                    "            v = verilog.convert(m, name=name)\n")],
    "no-args-helper": [("            m = Top()\n"
                        "            print(verilog.convert(m))\n",
                        "            _dump()\n"),
                       ("def generate(", "def _dump():\n"
                        "    print(verilog.convert(Top()))\n\n\n"
                        "def generate(")],
    "scripted": [(TAIL, '''    scripted = isinstance(args, argparse.Namespace)
    bare = len(sys.argv) < 2
    if bare:
        m = Top()
        print(verilog.convert(m))
    elif scripted:
        do_gen(**vars(args))
    else:
        parser = argparse.ArgumentParser(description="Sentinel")
        _generate_args(parser)
        ns = parser.parse_args()
        do_gen(**vars(ns))


''')],
    "return-early": [(TAIL, '''    if len(sys.argv) < 2:
        m = Top()
        print(verilog.convert(m))
        return None
    if isinstance(args, argparse.Namespace):
        opts = args
    else:
        parser = argparse.ArgumentParser(description="Sentinel")
        _generate_args(parser)
        opts = parser.parse_args()
    return do_gen(**vars(opts))


''')],
    "reraise": [(TRY, """    try:
        yield fp
    except Exception:
        if not is_stdout:
            fp.close()
        raise
    else:
        if not is_stdout:
            fp.close()
""")],
    "parser-factory": [
        (SRC[SRC.index("def _main"):SRC.index("if __name__")],
         '''def _parser():
    parser = argparse.ArgumentParser(description="Sentinel Verilog generator")
    _generate_args(parser)
    return parser


def _main():
    generate(_parser().parse_args())


''')],
    "kwargs-do-gen": [("def do_gen(*, n, o, f):",
                       "def do_gen(**opts):\n"
                       "        n, o, f = opts[\"n\"], opts[\"o\"], opts[\"f\"]")],
})


def main():
    rc = 0
    with tempfile.TemporaryDirectory() as d:
        os.makedirs(d + "/src/sentinel")
        for kind, cases in (("bad", BAD), ("good", GOOD)):
            for name, edits in cases.items():
                if sys.argv[1:] and name not in sys.argv[1:]:
                    continue
                t = SRC
                for a, b in edits:
                    assert a in t, (name, a)
                    t = t.replace(a, b)
                with open(d + "/src/sentinel/gen.py", "w") as f:
                    f.write(t)
                r = subprocess.run(
                    [sys.executable, os.path.join(os.path.dirname(
                        os.path.dirname(os.path.abspath(__file__))),
                        "run.py"), "P41"], capture_output=True, text=True,
                    env={**os.environ, "SA_REPO": d, "SA_OUT": d + "/o"})
                want = 1 if kind == "bad" else 0
                ok = r.returncode == want
                rc |= not ok
                print(kind, name, "ok" if ok else
                      f"WRONG exit {r.returncode}\n" + r.stdout[-900:])
    return rc


if __name__ == "__main__":
    sys.exit(main())
