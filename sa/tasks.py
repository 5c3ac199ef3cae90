"""The task driver: dodo.py and the scripts of pyproject.toml, read as syntax.
Task dictionaries are obtained by constant propagation through the task
functions (paths, formatted strings, loops over constant tuples); nothing of
dodo.py is executed."""
import ast
import os
import re
import shlex
import string
from pathlib import PurePosixPath as P

from .frontend import AnalysisBroken, REPO

DODO = "dodo.py"


class Unknown:
    def __repr__(self):
        return "?"


U = Unknown()
HOLE = "\0"     # unknown text inside a string


class Glob:
    def __init__(self, base, pattern):
        self.base, self.pattern = base, pattern

    def __repr__(self):
        return f"{self.base}/{self.pattern}"


class Call:
    """A call that is not folded."""

    def __init__(self, name, args, kw):
        self.name, self.args, self.kw = name, args, kw


class Name:
    def __init__(self, name):
        self.name = name


class Interp:
    def __init__(self, env):
        self.env = dict(env)
        self.out = []

    def ev(self, n):
        f = getattr(self, "e_" + type(n).__name__, None)
        return f(n) if f else U

    def e_Constant(self, n):
        return n.value

    def e_Name(self, n):
        return self.env.get(n.id, Name(n.id))

    def e_Tuple(self, n):
        return tuple(self.seq(n.elts))

    def e_List(self, n):
        return self.seq(n.elts)

    def seq(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value)
                out += list(v) if isinstance(v, (list, tuple)) else [v]
            else:
                out.append(self.ev(x))
        return out

    def e_Dict(self, n):
        out = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                m = self.ev(v)
                if isinstance(m, dict):
                    out.update(m)
            else:
                k = self.ev(k)
                if isinstance(k, str):
                    out[k] = self.ev(v)
        return out

    def text(self, v):
        return str(v) if isinstance(v, (str, int, P)) else HOLE

    def e_JoinedStr(self, n):
        return "".join(
            v.value if isinstance(v, ast.Constant) else
            self.text(self.ev(v.value)) for v in n.values)

    def e_BinOp(self, n):
        a, b = self.ev(n.left), self.ev(n.right)
        if isinstance(n.op, ast.Div) and isinstance(a, P):
            return a / b if isinstance(b, (str, P)) else U
        if isinstance(n.op, ast.Add):
            if isinstance(a, str) or isinstance(b, str):
                return self.text(a) + self.text(b)
            la = list(a) if isinstance(a, (list, tuple)) else [a]
            lb = list(b) if isinstance(b, (list, tuple)) else [b]
            return la + lb
        return U

    def e_Attribute(self, n):
        v = self.ev(n.value)
        if isinstance(v, P) and n.attr in ("name", "stem", "parent", "suffix"):
            return getattr(v, n.attr)
        if isinstance(v, Name):
            return Name(f"{v.name}.{n.attr}")
        return U

    def comp(self, n):
        g = n.generators[0]
        it = self.ev(g.iter)
        if len(n.generators) == 1 and isinstance(it, (list, tuple)):
            if any(isinstance(x, Unknown) for x in it):
                return [U]
            out = []
            save = dict(self.env)
            for x in it:
                if isinstance(x, Glob):
                    out.append(x)
                    continue
                self.bind(g.target, x)
                out.append(self.ev(n.elt))
            self.env = save
            return out
        return [it] if isinstance(it, Glob) else [U]

    e_ListComp = e_GeneratorExp = lambda self, n: self.comp(n)

    def e_Call(self, n):
        args = self.seq(n.args)
        kw = {k.arg: self.ev(k.value) for k in n.keywords}
        fn = n.func
        if isinstance(fn, ast.Attribute):
            o = self.ev(fn.value)
            if isinstance(o, P):
                if fn.attr in ("with_suffix", "with_name", "joinpath") and \
                        all(isinstance(a, (str, P)) for a in args):
                    return getattr(o, fn.attr)(*args)
                if fn.attr in ("absolute", "resolve", "as_posix"):
                    return o
                if fn.attr == "glob":
                    return [Glob(o, args[0])]
                return U
            if isinstance(o, str) and fn.attr == "join":
                return HOLE
        f = self.ev(fn)
        name = f.name if isinstance(f, Name) else ""
        if name.split(".")[-1] in ("Path", "PurePath", "PurePosixPath"):
            return P(*args) if all(isinstance(a, (str, P)) for a in args) \
                else U
        if name in ("list", "tuple", "sorted") and len(args) == 1:
            return list(args[0]) if isinstance(args[0], (list, tuple)) else \
                [args[0]]
        if name.split(".")[-1] == "chain":
            out = []
            for a in args:
                out += a if isinstance(a, (list, tuple)) else [a]
            return out
        if name == "str" and args:
            return self.text(args[0])
        if name in self.funcs and not name.startswith("task_"):
            r = self.inline(self.funcs[name], args, kw)
            if isinstance(r, dict):
                return r
        return Call(name, args, kw)

    funcs = {}

    def inline(self, fn, args, kw):
        sub = Interp(self.env)
        for p, a in zip(fn.args.args, args):
            sub.env[p.arg] = a
        sub.env.update(kw)
        sub.body(fn.body)
        return sub.out[0][0] if len(sub.out) == 1 else U

    def bind(self, t, v):
        if isinstance(t, ast.Name):
            self.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = v if isinstance(v, (list, tuple)) and \
                len(v) == len(t.elts) else [U] * len(t.elts)
            for x, y in zip(t.elts, vs):
                self.bind(x, y)

    def body(self, stmts):
        for s in stmts:
            self.stmt(s)

    def stmt(self, s):
        if isinstance(s, ast.Assign):
            v = self.ev(s.value)
            for t in s.targets:
                self.bind(t, v)
        elif isinstance(s, ast.AnnAssign) and s.value:
            self.bind(s.target, self.ev(s.value))
        elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
            self.bind(s.target, self.ev(ast.BinOp(
                ast.Name(s.target.id, ast.Load()), s.op, s.value)))
        elif isinstance(s, ast.For):
            it = self.ev(s.iter)
            items = it if isinstance(it, (list, tuple)) else [U]
            for x in items:
                self.bind(s.target, GlobItem(x) if isinstance(x, Glob) else x)
                self.body(s.body)
            self.body(s.orelse)
        elif isinstance(s, ast.If):
            self.body(s.body)
            self.body(s.orelse)
        elif isinstance(s, ast.Match):
            for c in s.cases:
                self.body(c.body)
        elif isinstance(s, (ast.With, ast.Try)):
            self.body(s.body)
        elif isinstance(s, ast.Return) and s.value is not None:
            self.out.append((self.ev(s.value), s.lineno))
        elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Yield):
            self.out.append((self.ev(s.value.value), s.lineno))
        elif isinstance(s, ast.Expr) and isinstance(s.value, ast.YieldFrom):
            v = self.ev(s.value.value)
            for x in v if isinstance(v, (list, tuple)) else [v]:
                self.out.append((x, s.lineno))


class GlobItem(P):
    """One unknown file of a directory."""

    def __new__(cls, *args):
        g = args[0]
        if isinstance(g, Glob):
            self = super().__new__(cls, str(g.base), HOLE)
            return self
        return super().__new__(cls, *args)

    def __init__(self, *args):
        g = args[0]
        if isinstance(g, Glob):
            super().__init__(str(g.base), HOLE)
        else:
            super().__init__(*args)


class Task:
    def __init__(self, name, sub, d, fn, line):
        self.name, self.sub, self.d, self.fn, self.line = \
            name, sub, d, fn, line
        self.params = set()

    @property
    def full(self):
        return f"{self.name}:{self.sub}" if self.sub else self.name

    @property
    def at(self):
        return f"{DODO}:{self.line} ({self.fn})"

    def list(self, key):
        v = self.d.get(key)
        return list(v) if isinstance(v, (list, tuple)) else []


def parse():
    try:
        with open(os.path.join(REPO, DODO)) as fp:
            tree = ast.parse(fp.read())
    except (OSError, SyntaxError) as e:
        raise AnalysisBroken(f"{DODO}: {e}") from e
    funcs = {n.name: n for n in tree.body if isinstance(n, ast.FunctionDef)}
    glob = Interp({})
    glob.funcs = Interp.funcs = funcs
    glob.body([s for s in tree.body if isinstance(s, ast.Assign)])
    tasks = []
    for name, fn in funcs.items():
        if not name.startswith("task_"):
            continue
        it = Interp(glob.env)
        params = set()
        for dec in fn.decorator_list:
            if isinstance(dec, ast.Call) and dec.args:
                for p in it.ev(dec.args[0]) or ():
                    if isinstance(p, dict):
                        params.add(p.get("name"))
        for a in fn.args.args:
            it.env[a.arg] = HOLE
        it.body(fn.body)
        if not it.out:
            raise AnalysisBroken(f"{DODO}: {name} defines no task")
        for d, line in it.out:
            if not isinstance(d, dict):
                raise AnalysisBroken(f"{DODO}:{line}: task of {name} is not "
                                     "understood")
            base = d.get("basename", name[5:])
            t = Task(base, d.get("name"), d, name, line)
            t.params = set(params)
            for p in t.list("params"):
                if isinstance(p, dict):
                    t.params.add(p.get("name"))
            tasks.append(t)
    return tree, funcs, tasks, glob.env


def pyproject():
    import tomllib
    try:
        with open(os.path.join(REPO, "pyproject.toml"), "rb") as fp:
            return tomllib.load(fp)
    except (OSError, tomllib.TOMLDecodeError) as e:
        raise AnalysisBroken(f"pyproject.toml: {e}") from e


def submodules():
    try:
        with open(os.path.join(REPO, ".gitmodules")) as fp:
            return [P(x) for x in re.findall(r"path\s*=\s*(\S+)", fp.read())]
    except OSError:
        return []


def options(path):
    """Options a script's argument parser declares: flag -> takes a value,
    with its choices; None if they are not all literal."""
    with open(os.path.join(REPO, path)) as fp:
        tree = ast.parse(fp.read())
    out = {"-h": (False, None), "--help": (False, None)}
    called = {n.func for n in ast.walk(tree) if isinstance(n, ast.Call)}
    for n in ast.walk(tree):
        if isinstance(n, ast.Attribute) and n.attr == "add_argument" and \
                n not in called:
            return None
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                n.func.attr == "add_argument" and (
                    not n.args or not all(isinstance(a, ast.Constant)
                                          for a in n.args) or
                    any(k.arg is None for k in n.keywords)):
            return None
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                n.func.attr == "add_argument":
            kw = {k.arg: k.value for k in n.keywords}
            act = kw.get("action")
            val = not (isinstance(act, ast.Constant) and act.value in (
                "store_true", "store_false", "count"))
            ch = kw.get("choices")
            try:
                ch = ast.literal_eval(ch) if ch is not None else None
            except ValueError:
                ch = None
            for a in n.args:
                if isinstance(a, ast.Constant) and str(a.value).startswith(
                        "-"):
                    out[a.value] = (val, ch)
    return out if len(out) > 2 else None


def words(cmd):
    try:
        return shlex.split(cmd)
    except ValueError:
        return cmd.split()


def commands(t):
    """Shell command lines of a task, with the working directory if any."""
    for a in t.list("actions"):
        if isinstance(a, str):
            yield a, True
        elif isinstance(a, Call) and a.name.split(".")[-1] == "CmdAction" \
                and a.args and isinstance(a.args[0], str):
            yield a.args[0], True


def strpaths(t, key):
    for x in t.list(key):
        if isinstance(x, (P, str)):
            yield P(x)


def coherent(o, tier):
    tree, funcs, tasks, _ = parse()
    names = {t.full for t in tasks} | {t.name for t in tasks}
    pp = pyproject()
    scripts = pp.get("tool", {}).get("pdm", {}).get("scripts", {})
    mods = submodules()
    made = {x for t in tasks for x in strpaths(t, "targets")}
    n = dict(paths=0, placeholders=0, references=0, options=0, sources=0,
             documented=0)

    def exists(p):
        return os.path.exists(os.path.join(REPO, p))

    for t in tasks:
        # 1: what a task depends on exists, or some task makes it
        for p in strpaths(t, "file_dep"):
            n["paths"] += 1
            if HOLE in str(p):
                continue
            p = P(os.path.normpath(p))
            if p not in {P(os.path.normpath(x)) for x in made} and \
                    not any(s in p.parents for s in mods) and not exists(p):
                o.add(f"dep/{t.name}/{p}", f"task {t.full} depends on {p}, "
                      "which does not exist and no task makes; at " + t.at)
        for g in t.list("file_dep"):
            if isinstance(g, Glob):
                n["paths"] += 1
                b = P(os.path.normpath(g.base))
                if not any(s == b or s in b.parents for s in mods) and \
                        not exists(b):
                    o.add(f"glob/{t.name}/{b}", f"task {t.full} depends on "
                          f"files of {b}, which does not exist; at {t.at}")
        # 2: every placeholder of a command is one doit fills in
        ga = t.d.get("getargs")
        ok = {"targets", "dependencies", "changed", "pos_arg"} | t.params | \
            (set(ga) if isinstance(ga, dict) else set())
        for cmd, _ in commands(t):
            try:
                fs = [f for _, f, _, _ in string.Formatter().parse(cmd)
                      if f is not None]
            except ValueError:
                fs = ["?"]
            for f in fs:
                n["placeholders"] += 1
                if f not in ok:
                    o.add(f"placeholder/{t.name}/{f}", f"the command of task "
                          f"{t.full} has a placeholder {{{f}}} that doit does "
                          f"not fill in, so that it cannot run; at {t.at}")
        # 3: references to other tasks
        refs = t.list("setup") + t.list("task_dep")
        if isinstance(ga, dict):
            refs += [v[0] for v in ga.values() if isinstance(v, tuple) and v]
        for u in t.list("uptodate"):
            if isinstance(u, Call) and u.name.endswith("result_dep"):
                refs += u.args[:1]
        for r in refs:
            if not isinstance(r, str) or HOLE in r:
                continue
            n["references"] += 1
            if r not in names:
                o.add(f"ref/{t.name}/{r}", f"task {t.full} refers to task "
                      f"{r}, which does not exist; at {t.at}")
        # 4: commands: pdm scripts and their options
        for cmd, _ in commands(t):
            pdm(o, n, cmd, scripts, f"task {t.full}; at {t.at}")
        # 5: what is built from the core is rebuilt when the core changes
        rebuilds(o, n, t)
    for k, s in scripts.items():
        for cmd in script_cmds(s):
            ws = words(cmd)
            where = f"script {k}; at pyproject.toml [tool.pdm.scripts]"
            if ws and ws[0] == "doit":
                doit(o, n, ws[1:], names, where)
            elif isinstance(s, dict) and "composite" in s:
                pdm(o, n, "pdm " + cmd, scripts, where)
        if isinstance(s, dict) and "call" in s:
            n["references"] += 1
            callable_exists(o, s["call"], k)
        if isinstance(s, dict) and str(s.get("cmd", "")).split(" ")[0].\
                endswith(".py"):
            n["references"] += 1
            p = s["cmd"].split()[0]
            if not exists(p):
                o.add(f"script/{k}", f"script {k} runs {p}, which does not "
                      "exist; at pyproject.toml")
    cfg = pp.get("tool", {}).get("doit", {}).get("tasks", {})
    for k, v in cfg.items():
        n["references"] += 1
        ps = [t.params for t in tasks if t.name == k]
        if not ps:
            o.add(f"doitcfg/{k}", f"pyproject.toml configures task {k}, which "
                  "does not exist; at pyproject.toml [tool.doit.tasks]")
            continue
        for a in v:
            n["references"] += 1
            if a not in ps[0]:
                o.add(f"doitcfg/{k}/{a}", f"pyproject.toml sets parameter {a} "
                      f"of task {k}, which has none of that name; at "
                      "pyproject.toml [tool.doit.tasks]")
    documents(o, n, scripts, names, pp)
    # positive control: the propagation sees real content
    if n["paths"] < 50 or n["placeholders"] < 2 or n["references"] < 20 or \
            len(tasks) < 40:
        raise AnalysisBroken(f"task driver hardly understood: {n}")
    o.obligations += sum(n.values())
    o.cover.update(tasks=len(tasks), scripts=len(scripts), **n)


PDM_OWN = {"install", "add", "update", "remove", "venv", "python", "run",
           "lock", "sync", "use", "list", "info", "config", "build",
           "publish", "init", "self", "show", "export", "cache", "outdated",
           "fix", "plugin", "import", "completion", "search", "fmt"}


def documented():
    """Command lines of the documentation, with their places."""
    files = ["README.md"]
    for d, _, fs in sorted(os.walk(os.path.join(REPO, "doc"))):
        files += [os.path.relpath(os.path.join(d, f), REPO)
                  for f in sorted(fs) if f.endswith(".md")]
    for f in files:
        try:
            with open(os.path.join(REPO, f)) as fp:
                lines = fp.read().splitlines()
        except OSError:
            continue
        fence, lang = None, ""
        for i, line in enumerate(lines, 1):
            m = re.match(r"\s*(`{3,}|~{3,})\s*(\S*)", line)
            if m and fence is None:
                fence, lang = m[1], m[2]
            elif m and m[1].startswith(fence) and not m[2]:
                fence = None
            elif fence and lang not in ("toml", "python", "rust", "{todo}"):
                t = line.strip().lstrip("$").strip()
                t = re.sub(r"^\[([a-z ]+)\]", r"\1", t)
                if re.match(r"(pdm|doit|python3?) \S", t):
                    yield t, f"{f}:{i}"
            elif fence is None:
                for c in re.findall(r"(?<!`)`((?:pdm|doit|python -m) [^`]+)`",
                                    line):
                    yield c, f"{f}:{i}"


def documents(o, n, scripts, names, pp):
    """Every command the documentation gives names what exists."""
    groups = set(pp.get("dependency-groups", {})) | set(
        pp.get("project", {}).get("optional-dependencies", {})) | set(
        pp.get("tool", {}).get("pdm", {}).get("dev-dependencies", {})) | {
        "default", ":all"}
    for cmd, where in documented():
        cmd = re.sub(r"(\w+)\[(-\w+)\]", r"\1", cmd)       # demo[-rust]
        cmd = re.sub(r"\[[^\]]*\]", "", cmd)               # [optional ...]
        cmd = cmd.split("#")[0].split("|")[0].split("&&")[0]
        ws = words(cmd)
        n["documented"] += 1
        if ws[:2] == ["pdm", "run"]:
            ws = ws[2:]
            while ws and ws[0].startswith("-"):
                ws = ws[2:] if ws[0] in ("--venv", "-p") else ws[1:]
            ws = ["pdm"] + ws
        if (ws[1:] if ws[0] == "pdm" else ws)[:1] in (["python"],
                                                      ["python3"]):
            ws = ws[ws[0] == "pdm":]
            if ws[1:2] == ["-m"] and len(ws) > 2 and \
                    ws[2].split(".")[0] == "sentinel":
                p = os.path.join(REPO, "src", *ws[2].split("."))
                if not os.path.exists(p + ".py") and \
                        not os.path.exists(os.path.join(p, "__main__.py")):
                    o.add(f"doc/{ws[2]}", f"module {ws[2]} does not exist; "
                          f"documented at {where}")
            continue
        if ws[0] == "doit":
            doit(o, n, ws[1:], names, f"the documentation; at {where}")
            continue
        ws = ws[1:]
        if not ws or not re.fullmatch(r"[A-Za-z_][\w-]*", ws[0]):
            continue
        if ws[0] in ("install", "sync"):
            for a, b in zip(ws, ws[1:]):
                if a == "-G" and b not in groups:
                    o.add(f"group/{b}", f"dependency group {b} does not "
                          f"exist; documented at {where}")
        if ws[0] in scripts:
            if ws[0] == "doit":
                doit(o, n, ws[1:], names, f"the documentation; at {where}")
            else:
                pdm(o, n, "pdm " + shlex.join(ws), scripts,
                    f"the documentation; at {where}")
        elif ws[0] not in PDM_OWN:
            o.add(f"pdm/{ws[0]}", f"pdm {ws[0]} is not a script of "
                  f"pyproject.toml; documented at {where}")


def script_cmds(s):
    if isinstance(s, str):
        return [s]
    if not isinstance(s, dict):
        return []
    if "cmd" in s:
        return [s["cmd"]] if isinstance(s["cmd"], str) else \
            [" ".join(s["cmd"])]
    c = s.get("composite", [])
    return [x for x in c if isinstance(x, str)]


def callable_exists(o, ref, k):
    mod, _, fn = ref.partition(":")
    fn = fn.split("(")[0]
    path = os.path.join(REPO, "src", *mod.split(".")) + ".py"
    try:
        with open(path) as fp:
            t = ast.parse(fp.read())
    except OSError:
        t = None
    if t is None or not any(isinstance(x, ast.FunctionDef) and x.name == fn
                            for x in t.body):
        o.add(f"call/{k}", f"script {k} calls {ref}, which does not exist; at "
              "pyproject.toml [tool.pdm.scripts]")


def doit(o, n, ws, names, where):
    """Arguments of a doit command line."""
    ws = [w for w in ws]
    sub = {"forget", "clean", "list", "run", "ignore", "info"}
    skip = False
    for w in ws:
        if skip:
            skip = False
            continue
        if w.startswith("{args"):
            continue
        if w.startswith("-"):
            skip = w in ("-n", "-t", "-p", "-i")
            continue
        if w in sub or w.startswith("2}"):
            continue
        n["references"] += 1
        base = w.split("{")[0].rstrip(":") if "{" in w else w
        if base not in names:
            o.add(f"doit/{w}", f"{w} is not a task of {DODO}; used by "
                  f"{where}")


SCRIPT_PY = {"gen": "src/sentinel/gen.py", "demo": "examples/attosoc.py"}


def pdm(o, n, cmd, scripts, where):
    ws = words(cmd)
    if not ws or ws[0] != "pdm":
        return
    ws = ws[1:]
    if ws and ws[0] == "run":
        ws = ws[1:]
        if ws and ws[0] not in scripts:
            return          # an installed program
    if not ws or ws[0].startswith("-") or ws[0] in ("install", "add",
                                                    "update"):
        return
    if ws[0] not in scripts:
        if os.sep in ws[0] or ws[0] in ("ruff", "cargo", "doit"):
            return
        o.add(f"pdm/{ws[0]}", f"pdm {ws[0]} is not a script of "
              f"pyproject.toml; used by {where}")
        return
    n["references"] += 1
    path = SCRIPT_PY.get(ws[0])
    if not path:
        return
    opts = options(path)
    args = iter(ws[1:])
    for a in args:
        if not a.startswith("-"):
            continue
        if opts is None:
            break
        n["options"] += 1
        if a not in opts:
            o.add(f"option/{ws[0]}/{a}", f"pdm {ws[0]} has no option {a} (see "
                  f"{path}); used by {where}")
            continue
        val, ch = opts[a]
        if val:
            v = next(args, None)
            if v is None or v.startswith("-"):
                o.add(f"option/{ws[0]}/{a}/value", f"option {a} of pdm "
                      f"{ws[0]} needs a value; used by {where}")
            elif ch and "{" not in v and HOLE not in v and v not in ch:
                o.add(f"option/{ws[0]}/{a}/{v}", f"{v} is not a choice of "
                      f"option {a} of pdm {ws[0]}; used by {where}")


def rebuilds(o, n, t):
    """Tasks that elaborate the core depend on all of its sources."""
    what = None
    for cmd, _ in commands(t):
        ws = words(cmd)
        if ws[:2] in (["pdm", "gen"], ["pdm", "demo"]) and "-n" not in ws:
            what = " ".join(ws[:2])
        elif ws[:1] == ["sby"] or "riscof run" in cmd:
            what = ws[0] if ws[0] != "pdm" else "riscof run"
    if not what:
        return
    n["sources"] += 1
    deps = {P(os.path.normpath(x)) for x in strpaths(t, "file_dep")}
    globs = {(os.path.normpath(g.base), g.pattern) for g in t.list("file_dep")
             if isinstance(g, Glob)}
    need = []
    src = os.path.join(REPO, "src/sentinel")
    for f in sorted(os.listdir(src)):
        p = P("src/sentinel") / f
        if f.endswith((".py", ".asm")) and p not in deps and not any(
                b == "src/sentinel" and p.match(pat) for b, pat in globs):
            need.append(str(p))
    if "demo" in what and P("examples/attosoc.py") not in deps:
        need.append("examples/attosoc.py")
    if need:
        o.add(f"stale/{t.name}", f"task {t.full} runs {what} but does not "
              f"depend on {', '.join(need[:3])}: a change there leaves a "
              f"stale result; at {t.at}")


INSNS = ("lui auipc jal jalr beq bne blt bge bltu bgeu lb lh lw lbu lhu sb sh "
         "sw addi slti sltiu xori ori andi slli srli srai add sub sll slt "
         "sltu xor srl sra or and").split()
STATUS = ("PASS", "FAIL", "ERROR", "UNKNOWN", "TIMEOUT")


def formal(o, tier):
    """Every configured formal check is run, and reported as passed only if
    it passed."""
    tree, funcs, tasks, env = parse()
    run = {t.sub for t in tasks if t.name == "run_sby" and t.sub}
    listed = {t.sub for t in tasks if t.name == "list_sby_status" and t.sub}
    want = configured()
    at = f"{DODO}: SBY_TESTS; tests/formal/checks.cfg"
    for c in sorted(want):
        o.obligations += 2
        if c not in run:
            o.add(f"run/{c}", f"check {c} is configured but never run; at "
                  f"{at}")
        if c not in listed:
            o.add(f"status/{c}", f"the status of check {c} is never "
                  f"reported; at {at}")
    for c in sorted(run - want - {"setup"}):
        o.obligations += 1
        o.add(f"unknown/{c}", f"task run_sby:{c} runs a check that "
              f"tests/formal/checks.cfg does not configure; at {at}")
    for t in tasks:
        if t.name == "run_sby" and t.sub != "setup":
            o.obligations += 1
            if not any(c.startswith(f"sby -f {t.sub}.sby") for c, _ in
                       commands(t)):
                o.add(f"file/{t.sub}", f"task {t.full} does not run "
                      f"{t.sub}.sby; at {t.at}")
    reports = 0
    for t in tasks:
        if t.name != "list_sby_status" or not t.sub:
            continue
        for a in t.list("actions"):
            if isinstance(a, tuple) and a and isinstance(a[0], Name):
                fn = funcs.get(a[0].name)
                if fn is None:
                    raise AnalysisBroken(f"{t.at}: action {a[0].name}")
                if reports == 0:
                    report(o, fn)
                reports += 1
    if not reports:
        raise AnalysisBroken(f"{DODO}: no task reports a check's status")
    o.cover.update(checks_configured=len(want), checks_run=len(run),
                   status_words=len(STATUS), reports=reports)


def configured():
    """Checks genchecks.py makes of tests/formal/checks.cfg (isa rv32i, one
    channel)."""
    try:
        with open(os.path.join(REPO, "tests/formal/checks.cfg")) as fp:
            lines = fp.read().splitlines()
    except OSError:
        raise AnalysisBroken("tests/formal/checks.cfg is gone") from None
    sec, out = None, set()
    for ln in lines:
        ln = ln.strip()
        m = re.fullmatch(r"\[(.*)\]", ln)
        if m:
            sec = m[1]
            continue
        if not ln or ln.startswith("#"):
            continue
        w = ln.split()
        if sec == "options" and w[0] == "isa" and w[1] != "rv32i":
            raise AnalysisBroken(f"isa {w[1]} in checks.cfg")
        if sec == "depth":
            k = w[0]
            if k == "insn":
                out |= {f"insn_{i}_ch0" for i in INSNS}
            elif k == "cover":
                out.add("cover")
            elif k in ("reg", "pc_fwd", "pc_bwd", "liveness", "unique",
                       "causal"):
                out.add(k + "_ch0")
        elif sec == "csrs":
            out.add(f"csrw_{w[0]}_ch0")
            for x in w[1:]:
                kind = re.split(r"[_=]", x)[0]
                if kind == "any" or kind == "zero" or kind == "const":
                    out.add(f"csrc_{kind}_{w[0]}_ch0")
        elif sec == "illegal_csrs":
            out.add(f"csr_ill_{w[0]}_ch0")
    return out


def report(o, fn):
    """Abstract run of the reporting function over the possible status words:
    on every path, the text printed says PASS iff the status is PASS."""
    for word in STATUS:
        for text, line in say(fn, word):
            o.obligations += 1
            good = "PASS" in text
            if good != (word == "PASS"):
                o.add(f"report/{word}", f"a check whose status is {word} is "
                      f"reported as {text.replace(HOLE, '*').strip()!r}; at "
                      f"{DODO}:{line} ({fn.name})")


def say(fn, word):
    """Texts printed on the paths a status word can take; a condition that is
    not a membership or equality test on the status text splits."""
    texts = []

    def truth(e, st):
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            r = truth(e.operand, st)
            return None if r is None else not r
        if isinstance(e, ast.BoolOp):
            rs = [truth(x, st) for x in e.values]
            if isinstance(e.op, ast.And):
                return False if False in rs else None if None in rs else True
            return True if True in rs else None if None in rs else False
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            a, b = e.left, e.comparators[0]
            op = e.ops[0]
            if isinstance(op, (ast.In, ast.NotIn)) and \
                    isinstance(a, ast.Constant) and dirty(b, st):
                r = str(a.value) in word
                return r if isinstance(op, ast.In) else not r
            if isinstance(op, (ast.Eq, ast.NotEq)):
                c = [x.value for x in (a, b) if isinstance(x, ast.Constant)]
                if len(c) == 1 and (dirty(a, st) or dirty(b, st)):
                    r = c[0] == word
                    return r if isinstance(op, ast.Eq) else not r
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and \
                e.func.attr == "startswith" and dirty(e.func.value, st) and \
                e.args and isinstance(e.args[0], ast.Constant):
            return word.startswith(e.args[0].value)
        return None

    def dirty(e, st):
        """Does the expression denote the status text?"""
        return any(isinstance(x, ast.Name) and x.id in st or
                   isinstance(x, ast.Call) and isinstance(
                       x.func, ast.Attribute) and x.func.attr in (
                           "read", "read_text") for x in ast.walk(e))

    def val(e, st):
        if isinstance(e, ast.Constant):
            return [str(e.value)]
        if isinstance(e, ast.JoinedStr):
            out = [""]
            for v in e.values:
                x = [v.value] if isinstance(v, ast.Constant) else \
                    val(v.value, st)
                out = [a + b for a in out for b in x]
            return out
        if isinstance(e, ast.IfExp):
            r = truth(e.test, st)
            return (val(e.body, st) if r is not False else []) + \
                (val(e.orelse, st) if r is not True else [])
        if isinstance(e, ast.Name) and e.id in consts:
            return consts[e.id]
        if dirty(e, st):
            return [word]
        return [HOLE]

    consts = {}

    def block(ss, st):
        for s in ss:
            if isinstance(s, ast.With):
                block(s.body, st)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        consts.pop(t.id, None)
                        if dirty(s.value, st) and not isinstance(
                                s.value, (ast.IfExp, ast.JoinedStr)):
                            st.add(t.id)
                        else:
                            st.discard(t.id)
                            consts[t.id] = val(s.value, st)
            elif isinstance(s, ast.If):
                r = truth(s.test, st)
                if r is not False:
                    block(s.body, st)
                if r is not True:
                    block(s.orelse, st)
            elif isinstance(s, ast.Match):
                for c in s.cases:
                    block(c.body, st)
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) \
                    and isinstance(s.value.func, ast.Name) and \
                    s.value.func.id == "print":
                for a in s.value.args[:1]:
                    texts.extend((t, s.lineno) for t in val(a, st))
    block(fn.body, set())
    if not texts:
        raise AnalysisBroken(f"{DODO}: {fn.name} prints nothing for {word}")
    return texts
