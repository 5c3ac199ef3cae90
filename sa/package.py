"""The package's Python sources as a whole: effects that outlive a design
(P51) and names, imports and files that must exist (P52).  Everything here
reads syntax trees; nothing of the package is executed."""
import ast
import builtins
import fnmatch
import os
import re
import symtable
import sys
import tomllib

from .frontend import AnalysisBroken, REPO

PKG = "src/sentinel"
HARDWARE = {"Signal", "Memory", "MemoryData", "Module", "Instance",
            "ClockDomain"}
MUTATORS = {"append", "extend", "insert", "remove", "pop", "clear", "sort",
            "reverse", "update", "setdefault", "popitem", "add", "discard",
            "difference_update", "intersection_update", "appendleft",
            "symmetric_difference_update", "__setitem__", "__delitem__",
            "extendleft", "popleft", "move_to_end", "subtract",
            "__setattr__"}
COPIES = {"dict", "list", "set", "tuple", "frozenset", "sorted", "copy",
          "deepcopy", "len", "str", "int", "repr", "sum", "max", "min",
          "any", "all", "bool", "Counter"}
ALIASING = {"enumerate", "zip", "reversed", "iter", "next", "tee",
            "zip_longest", "chain", "vars", "getattr", "filter", "islice",
            "cast"}
ELEMENTS = {"values", "items", "keys", "get", "setdefault", "pop", "__get__",
            "__getitem__"}
CHANGING = {"random", "time", "datetime", "uuid", "secrets", "socket",
            "getpass", "tempfile"}
CHANGING_CALLS = {("os", "environ"), ("os", "getenv"), ("os", "getcwd"),
                  ("os", "urandom"), ("os", "getpid"), ("os", "listdir"),
                  ("os", "scandir"), ("Path", "cwd"), ("Path", "home"),
                  ("PosixPath", "cwd"), ("sys", "argv")}
ONCE = {"__init_subclass__", "__set_name__", "__class_getitem__"}


class Mod:
    def __init__(self, name, path, src):
        self.name, self.path, self.src = name, path, src
        try:
            self.tree = ast.parse(src, path)
        except SyntaxError as e:
            raise AnalysisBroken(f"{path}: {e}")
        self.binds = {}
        self.imports = {}       # local name -> (module or None, name)
        top_bindings(self.tree.body, self)


def top_bindings(body, m):
    for s in body:
        if isinstance(s, (ast.FunctionDef, ast.ClassDef,
                          ast.AsyncFunctionDef)):
            m.binds[s.name] = s
        elif isinstance(s, ast.Import):
            for a in s.names:
                n = a.asname or a.name.split(".")[0]
                m.binds[n] = s
                m.imports[n] = (a.name if a.asname else n, None)
        elif isinstance(s, ast.ImportFrom):
            for a in s.names:
                m.binds[a.asname or a.name] = s
                m.imports[a.asname or a.name] = (absolute(m, s), a.name)
        else:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and \
                        isinstance(n.ctx, (ast.Store, ast.Del)):
                    m.binds.setdefault(n.id, s)
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    m.binds.setdefault(n.name, s)
            for f in ("body", "orelse", "finalbody"):
                top_bindings(getattr(s, f, []) or [], m)
            for h in getattr(s, "handlers", []):
                top_bindings(h.body, m)
            for h in getattr(s, "cases", []):
                top_bindings(h.body, m)


def absolute(m, s):
    if not s.level:
        return s.module or ""
    base = m.name.split(".")
    if not m.path.endswith("__init__.py"):
        base = base[:-1]
    base = base[:len(base) - (s.level - 1)]
    return ".".join(base + ([s.module] if s.module else []))


def load(sources=None):
    mods = {}
    if sources is None:
        sources = {}
        root = os.path.join(REPO, PKG)
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x != "__pycache__")
            for f in sorted(files):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, REPO)
                    with open(p) as fp:
                        sources[rel] = fp.read()
    for rel, src in sources.items():
        w = os.path.relpath(rel, "src")[:-3].replace(os.sep, ".")
        if w.endswith(".__init__"):
            w = w[:-9]
        mods[w] = Mod(w, rel, src)
    if not mods:
        raise AnalysisBroken("no source of the package found")
    return mods


# ---------------------------------------------------------------- P51

class Fn:
    def __init__(self, mod, cls, node, outer=None):
        self.mod, self.cls, self.node, self.outer = mod, cls, node, outer
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        self.names = {d.id if isinstance(d, ast.Name) else
                      getattr(d, "attr", "") for d in node.decorator_list}
        self.names |= {getattr(d.func, "attr", getattr(d.func, "id", ""))
                       for d in node.decorator_list
                       if isinstance(d, ast.Call)}
        method = cls is not None and outer is None and \
            "staticmethod" not in self.names
        self.me = self.params[0] if method and self.params else None
        self.isclass = "classmethod" in self.names or \
            node.name in ("__new__", "__init_subclass__",
                          "__class_getitem__")
        self.globals = set()
        self.local = {}         # name -> list of (expression, kind)
        self.mut = {}           # parameter -> where it is mutated
        if a.vararg:
            self.params.append(a.vararg.arg)
        if a.kwarg:
            self.local[a.kwarg.arg] = []
        self.scan(node.body)

    def bind(self, t, v, kind="is"):
        if isinstance(t, ast.Name):
            self.local.setdefault(t.id, []).append((v, kind))
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, (ast.Tuple, ast.List)) and kind == "is" and \
                    len(v.elts) == len(t.elts):
                for x, y in zip(t.elts, v.elts):
                    self.bind(x, y)
            else:
                for x in t.elts:
                    self.bind(x, v, "of")
        elif isinstance(t, ast.Starred):
            self.bind(t.value, v, "of")

    def scan(self, body):
        for s in body:
            for n in own(s):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        self.bind(t, n.value)
                elif isinstance(n, (ast.AnnAssign, ast.NamedExpr)) and \
                        n.value is not None:
                    self.bind(n.target, n.value)
                elif isinstance(n, ast.AugAssign) and \
                        isinstance(n.target, ast.Name):
                    self.local.setdefault(n.target.id, [])
                elif isinstance(n, (ast.For, ast.comprehension)):
                    self.bind(n.target, n.iter, "of")
                elif isinstance(n, ast.withitem) and n.optional_vars:
                    self.bind(n.optional_vars, n.context_expr)
                elif isinstance(n, ast.Global):
                    self.globals |= set(n.names)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    self.local.setdefault(n.name, [])
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    for a in n.names:
                        w = a.asname or a.name.split(".")[0]
                        if isinstance(n, ast.Import):
                            self.local.setdefault(w, []).append((n, "mod"))
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    self.local.setdefault(n.name, [])
                elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                    self.local.setdefault(n.name, [])
        for g in self.globals:
            self.local.pop(g, None)

    def where(self, n):
        q = (self.cls.name + "." if self.cls else "") + self.node.name
        return f"{self.mod.path}:{n.lineno} ({q})"


def own(s):
    """Nodes of a statement without nested function and class bodies."""
    yield s
    if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
        return
    todo = list(ast.iter_child_nodes(s))
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.ClassDef,
                              ast.AsyncFunctionDef)):
            todo += ast.iter_child_nodes(n)


class Effects:
    def __init__(self, mods):
        self.mods = mods
        self.fns, self.classes = [], {}
        self.found = []
        for m in mods.values():
            self.collect(m, m.tree.body, None, None)
        self.hw = set(HARDWARE)
        grew = True
        while grew:
            grew = False
            for (m, c) in self.classes.values():
                if c.name not in self.hw and any(
                        last(b) in ("Component", "Elaboratable") or
                        last(b) in self.hw for b in c.bases):
                    self.hw.add(c.name)
                    grew = True

    def collect(self, m, body, cls, outer):
        for s in body:
            if isinstance(s, ast.ClassDef):
                self.classes[(m.name, s.name)] = (m, s)
                self.collect(m, s.body, s, None)
            elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Fn(m, cls, s, outer)
                self.fns.append(f)
                self.collect(m, s.body, cls, f)
            else:
                for k in ("body", "orelse", "finalbody"):
                    self.collect(m, getattr(s, k, []) or [], cls, outer)
                for h in getattr(s, "handlers", []) + \
                        getattr(s, "cases", []):
                    self.collect(m, h.body, cls, outer)

    # -- aliases ------------------------------------------------------
    def family(self, m, c):
        """The class and its bases in the package."""
        out, todo = [], [(m, c)]
        while todo:
            m, c = todo.pop()
            if c in [x for _, x in out]:
                continue
            out.append((m, c))
            for b in c.bases:
                r = self.resolve_class(m, last(b))
                if r:
                    todo.append(r)
        return out

    def resolve_class(self, m, name):
        if (m.name, name) in self.classes:
            return self.classes[(m.name, name)]
        src = m.imports.get(name)
        if src and (src[0], src[1]) in self.classes:
            return self.classes[(src[0], src[1])]
        return None

    def class_attr(self, m, c, attr):
        for mm, cc in self.family(m, c):
            for s in cc.body:
                if isinstance(s, ast.Assign) and any(
                        isinstance(t, ast.Name) and t.id == attr
                        for t in s.targets):
                    return s.value
                if isinstance(s, ast.AnnAssign) and s.value is not None and \
                        isinstance(s.target, ast.Name) and \
                        s.target.id == attr:
                    return s.value
        return None

    def self_attr(self, fn, attr, seen):
        """What self.attr may refer to."""
        out = set()
        val = self.class_attr(fn.mod, fn.cls, attr)
        fam = self.family(fn.mod, fn.cls)
        certain = False
        for f in self.fns:
            if f.cls is None or f.cls not in [c for _, c in fam] or \
                    f.me is None:
                continue
            for v in assigned(f.node.body, f.me, attr):
                out |= self.root(v, f, seen)
            if f.node.name == "__init__" and self.surely(f, attr, ()):
                certain = True
        if val is not None and not certain and not fixed(val):
            out.add(("shared", f"class attribute {fn.cls.name}.{attr}"))
        return out

    def surely(self, f, attr, seen):
        """Assigned by the method, directly or through another it calls."""
        if surely(f.node.body, f.me, attr):
            return True
        for s in f.node.body:
            if isinstance(s, (ast.Expr, ast.Assign)) and \
                    isinstance(s.value, ast.Call):
                g, _ = self.callee(s.value, f)
                if g is not None and g is not f and g not in seen and \
                        g.cls is not None and g.me and \
                        isinstance(s.value.func, ast.Attribute) and \
                        self.surely(g, attr, (*seen, f)):
                    return True
        return False

    def root(self, e, fn, seen=frozenset()):
        """Objects an expression may refer to (or lie inside)."""
        key = (id(e), id(fn))
        if key in seen:
            return set()
        seen = seen | {key}
        R = self.root
        if isinstance(e, ast.Name):
            return self.name_root(e.id, fn, seen)
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name) and fn.me == e.value.id and \
                    not fn.isclass:
                if e.attr == "__class__":
                    return {("shared", f"class {fn.cls.name}")}
                if e.attr == "__dict__":
                    return set()
                return self.self_attr(fn, e.attr, seen)
            return R(e.value, fn, seen)
        if isinstance(e, (ast.Subscript, ast.Starred, ast.NamedExpr,
                          ast.Await)):
            return R(e.value, fn, seen)
        if isinstance(e, ast.IfExp):
            return R(e.body, fn, seen) | R(e.orelse, fn, seen)
        if isinstance(e, ast.BoolOp):
            return set().union(*[R(v, fn, seen) for v in e.values])
        if isinstance(e, ast.Call):
            f = e.func
            if isinstance(f, ast.Name):
                if f.id == "type" and len(e.args) == 1:
                    return {("shared", "its class")} if self.own_class(
                        e.args[0], fn) else set()
                if f.id in ALIASING:
                    return set().union(set(), *[R(a, fn, seen)
                                                for a in e.args])
                return set()
            if isinstance(f, ast.Attribute):
                if f.attr in ELEMENTS:
                    return R(f.value, fn, seen)
                if f.attr in ALIASING:
                    return set().union(set(), *[R(a, fn, seen)
                                                for a in e.args])
        return set()

    def own_class(self, e, fn):
        if isinstance(e, ast.Name) and e.id == fn.me:
            return True
        return False

    def name_root(self, n, fn, seen):
        f = fn
        while f is not None:
            if n == f.me:
                return {("shared", f"class {f.cls.name}")} if f.isclass \
                    else {("self", "self")}
            if n in f.globals:
                break
            if n in f.local or n in f.params:
                out = set()
                for v, kind in f.local.get(n, ()):
                    if kind == "mod":
                        out.add(("module", n))
                    else:
                        out |= {x for x in self.root(v, f, seen)
                                if x[0] != "self" or kind == "is"}
                if n in f.params:
                    out.add(("param", n, id(f)))
                return out
            f = f.outer
        b = fn.mod.binds.get(n)
        if b is None:
            return set()
        if n in fn.mod.imports:
            src, name = fn.mod.imports[n]
            if name is None or (src.split(".")[0] != "sentinel"):
                return {("module", n)}
            t = self.mods.get(src)
            if t and isinstance(t.binds.get(name), ast.FunctionDef):
                return set()
            return {("shared", f"{src}.{name}")}
        if isinstance(b, ast.FunctionDef):
            return {("shared", f"function {n}")}
        return {("shared", ("class " if isinstance(b, ast.ClassDef) else
                            "module variable ") + n)}

    # -- effects ------------------------------------------------------
    def mutations(self, fn):
        """(expression whose object changes, node, text)."""
        for s in fn.node.body:
            for n in own(s):
                ts = []
                if isinstance(n, ast.Assign):
                    ts = n.targets
                elif isinstance(n, ast.AugAssign):
                    ts = [n.target]
                    t = n.target
                    if isinstance(t, ast.Attribute) and \
                            isinstance(t.value, ast.Name) and \
                            t.value.id == fn.me and fn.cls and \
                            not fn.isclass:
                        v = self.class_attr(fn.mod, fn.cls, t.attr)
                        if isinstance(v, (ast.List, ast.Dict, ast.Set,
                                          ast.ListComp, ast.DictComp,
                                          ast.SetComp)):
                            yield t, n, f"{ast.unparse(t)} grows in place"
                            continue
                elif isinstance(n, ast.AnnAssign) and n.value is not None:
                    ts = [n.target]
                elif isinstance(n, ast.Delete):
                    ts = n.targets
                elif isinstance(n, (ast.For, ast.comprehension)):
                    ts = [n.target]
                elif isinstance(n, ast.Call):
                    f = n.func
                    if isinstance(f, ast.Attribute) and f.attr in MUTATORS:
                        yield f.value, n, f"{ast.unparse(f)}(...)"
                    elif isinstance(f, ast.Name) and f.id == "next" and \
                            n.args and self.iterator(n.args[0], fn):
                        yield n.args[0], n, f"{ast.unparse(n)} advances it"
                    elif isinstance(f, ast.Name) and \
                            f.id in ("setattr", "delattr") and n.args:
                        yield n.args[0], n, f"{f.id}({ast.unparse(n.args[0])}"\
                            ", ...)"
                todo = list(ts)
                while todo:
                    t = todo.pop()
                    if isinstance(t, (ast.Tuple, ast.List)):
                        todo += t.elts
                    elif isinstance(t, ast.Starred):
                        todo.append(t.value)
                    elif isinstance(t, (ast.Attribute, ast.Subscript)):
                        yield t.value, n, f"{ast.unparse(t)} is written"
                    elif isinstance(t, ast.Name) and t.id in fn.globals:
                        yield t, n, f"global {t.id} is written"

    def iterator(self, e, fn):
        """A module or class variable initialised by a call (count())."""
        v = None
        if isinstance(e, ast.Name) and e.id not in fn.local and \
                e.id not in fn.params:
            v = fn.mod.binds.get(e.id)
            v = getattr(v, "value", None)
        elif isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
            if fn.cls is not None and e.value.id == fn.me:
                v = self.class_attr(fn.mod, fn.cls, e.attr)
            else:
                r = self.resolve_class(fn.mod, e.value.id)
                v = r and self.class_attr(*r, e.attr)
        return isinstance(v, ast.Call)

    def callee(self, call, fn):
        f = call.func
        if isinstance(f, ast.Name):
            g = fn
            while g is not None:
                for x in self.fns:
                    if x.outer is g and x.node.name == f.id:
                        return x, 0
                g = g.outer
            for x in self.fns:
                if x.cls is None and x.outer is None and \
                        x.node.name == f.id and (
                            x.mod is fn.mod or fn.mod.imports.get(f.id) ==
                            (x.mod.name, f.id)):
                    return x, 0
            r = self.resolve_class(fn.mod, f.id)
            if r:
                for x in self.fns:
                    if x.cls is r[1] and x.node.name == "__init__":
                        return x, 1
        elif isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Name):
                if f.value.id == fn.me and fn.cls:
                    fam = self.family(fn.mod, fn.cls)
                else:
                    r = self.resolve_class(fn.mod, f.value.id)
                    fam = self.family(*r) if r else []
                for _, c in fam:
                    for x in self.fns:
                        if x.cls is c and x.outer is None and \
                                x.node.name == f.attr:
                            skip = 1 if x.me and f.value.id == fn.me else 0
                            return x, skip
        return None, 0

    def run(self):
        # parameters a function may mutate, to a fixpoint
        grew = True
        while grew:
            grew = False
            for fn in self.fns:
                for e, n, text in list(self.mutations(fn)) + \
                        list(self.passed(fn)):
                    for r in self.root(e, fn):
                        if r[0] == "param":
                            for g in self.fns:
                                if id(g) == r[2] and r[1] not in g.mut:
                                    g.mut[r[1]] = (fn, n, text)
                                    grew = True
        n = 0
        for fn in self.fns:
            if fn.node.name in ONCE:
                continue
            for e, node, text in list(self.mutations(fn)) + \
                    list(self.passed(fn)):
                n += 1
                for r in self.root(e, fn):
                    if r[0] in ("shared", "module"):
                        if r[0] == "module" and not self.module_write(
                                e, node, text):
                            continue
                        self.report("write", fn, node,
                                    f"{text}: this changes {r[1]}, which all "
                                    "designs of the process share")
                    elif r[0] == "param":
                        g = [x for x in self.fns if id(x) == r[2]][0]
                        if g.node.name == "__init__" and g.cls and \
                                g.cls.name in self.hw and \
                                not g.cls.name.startswith("_"):
                            self.report(
                                "argument", fn, node, f"{text}: this changes "
                                f"the caller's argument {r[1]} of "
                                f"{g.cls.name}")
                    # a mutable default is one object for all calls
                    if r[0] == "param":
                        g = [x for x in self.fns if id(x) == r[2]][0]
                        d = default_of(g.node, r[1])
                        if isinstance(d, (ast.List, ast.Dict, ast.Set,
                                          ast.Call)):
                            self.report("default", fn, node, f"{text}: this "
                                        f"changes the default value of "
                                        f"parameter {r[1]}")
        return n

    def module_write(self, e, node, text):
        """Effects on imported modules: attribute writes and known calls."""
        if isinstance(node, ast.Call):
            f = node.func
            base = f.value if isinstance(f, ast.Attribute) else None
            return isinstance(base, ast.Attribute) or (
                isinstance(base, ast.Name) and base.id in ("os", "shutil"))
        return True

    def passed(self, fn):
        for s in fn.node.body:
            for n in own(s):
                if not isinstance(n, ast.Call):
                    continue
                g, skip = self.callee(n, fn)
                if g is None or not g.mut:
                    continue
                a = g.node.args
                pos = [x.arg for x in a.posonlyargs + a.args][skip:]
                for p, v in list(zip(pos, n.args)) + \
                        [(k.arg, k.value) for k in n.keywords]:
                    if p in g.mut and g.node.name != "__init__":
                        yield v, n, (f"{ast.unparse(v)} is passed to "
                                     f"{g.node.name}, which changes it")

    def report(self, kind, fn, node, text):
        w = fn.where(node) if isinstance(fn, Fn) else fn
        q = ((fn.cls.name + "." if fn.cls else "") + fn.node.name) \
            if isinstance(fn, Fn) else w.split(":")[0]
        key = f"{kind}/{q}/" + re.sub(r"\s+", "_", text.split(":")[0])[:60]
        if key not in [k for k, _ in self.found]:
            self.found.append((key, f"{text}; at {w}"))

    def shared_hardware(self):
        n = 0
        for m in self.mods.values():
            todo = [(m.tree.body, "module " + m.name)]
            while todo:
                body, what = todo.pop()
                for s in body:
                    if isinstance(s, ast.ClassDef):
                        todo.append((s.body, f"class {s.name}"))
                    elif isinstance(s, ast.FunctionDef):
                        for d in s.args.defaults + \
                                [x for x in s.args.kw_defaults if x]:
                            n += 1
                            self.hw_in(m, d, f"a default value of {s.name}")
                        for d in s.decorator_list:
                            w = last(d.func if isinstance(d, ast.Call) else d)
                            if w in ("cache", "lru_cache"):
                                n += 1
                                for b in s.body:
                                    for r in ast.walk(b):
                                        if isinstance(r, ast.Return) and \
                                                r.value is not None:
                                            self.returned(m, s, r)
                    elif isinstance(s, (ast.Assign, ast.AnnAssign)) and \
                            s.value is not None:
                        n += 1
                        self.hw_in(m, s.value, f"{what}")
                    elif not isinstance(s, ast.Expr):
                        for k in ("body", "orelse", "finalbody"):
                            if getattr(s, k, None):
                                todo.append((getattr(s, k), what))
        return n

    def returned(self, m, f, r):
        """A cached function that hands out hardware objects."""
        vals = [r.value]
        names = {x.id for x in ast.walk(r.value) if isinstance(x, ast.Name)}
        for b in ast.walk(f):
            if isinstance(b, ast.Assign) and any(
                    isinstance(t, ast.Name) and t.id in names
                    for t in b.targets):
                vals.append(b.value)
        for v in vals:
            self.hw_in(m, v, f"the cache of {f.name}")

    def hw_in(self, m, v, what):
        for n in calls_now(v):
            w = last(n.func)
            org = m.imports.get(w)
            if w in self.hw and (
                    w not in HARDWARE or org is None or
                    org[0].split(".")[0] == "amaranth"):
                self.report("object", f"{m.path}:{n.lineno}", n,
                            f"{what} holds one {w} that every design of the "
                            "process would share")

    def changing(self):
        """Sources of results that differ from run to run."""
        n = 0
        for m in self.mods.values():
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Attribute) and \
                        isinstance(x.value, ast.Name):
                    n += 1
                    org = m.imports.get(x.value.id)
                    if org is None:
                        continue
                    mod = org[0] if org[1] is None else org[1]
                    top = org[0].split(".")[0]
                    if (top in CHANGING and not (
                            top == "time" and m.name == "sentinel.gen")) or \
                            ((mod, x.attr) in CHANGING_CALLS and not (
                                mod == "sys" and m.name == "sentinel.gen")):
                        self.report("changing", f"{m.path}:{x.lineno}", x,
                                    f"{ast.unparse(x)} differs from one run "
                                    "to the next")
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name):
                    n += 1
                    org = m.imports.get(x.func.id)
                    if org and org[1] and (
                            org[0].split(".")[0] in CHANGING or
                            (org[0], org[1]) in CHANGING_CALLS):
                        self.report("changing", f"{m.path}:{x.lineno}", x,
                                    f"{ast.unparse(x)} differs from one run "
                                    "to the next")
                    elif x.func.id in ("id", "hash") and \
                            x.func.id not in m.binds and not inside(
                                m.tree, x, ("__hash__", "__eq__")) and \
                            not key_only(m.tree, x):
                        self.report("changing", f"{m.path}:{x.lineno}", x,
                                    f"{ast.unparse(x)} differs from one run "
                                    "to the next")
                    elif x.func.id in ("list", "tuple", "enumerate", "next",
                                       "iter", "zip") and any(
                                           text_set(a) for a in x.args):
                        self.report("order", f"{m.path}:{x.lineno}", x,
                                    f"{ast.unparse(x)} depends on the order "
                                    "of a set")
                elif isinstance(x, ast.For) and text_set(x.iter):
                    n += 1
                    self.report("order", f"{m.path}:{x.lineno}", x,
                                f"the loop over {ast.unparse(x.iter)} depends "
                                "on the order of a set")
        return n


def fixed(v):
    """A value that cannot be changed in place."""
    return isinstance(v, ast.Constant) or (
        isinstance(v, ast.Tuple) and all(fixed(x) for x in v.elts)) or (
        isinstance(v, (ast.UnaryOp, ast.BinOp, ast.Lambda, ast.JoinedStr)))


def inside(tree, node, names):
    for f in ast.walk(tree):
        if isinstance(f, ast.FunctionDef) and f.name in names and any(
                x is node for x in ast.walk(f)):
            return True
    return False


KEYED = ("setdefault", "get", "pop", "add", "discard", "remove",
         "__contains__", "__getitem__", "__setitem__")
ORDERED = ("sorted", "min", "max")


def key_only(tree, call, seen=()):
    """The identity or hash number only tells objects apart (a key that is
    looked up or compared for equality) and its size influences nothing."""
    parents = {}
    for n in ast.walk(tree):
        for k in ast.iter_child_nodes(n):
            parents[k] = n
    f = call
    while f is not None and not isinstance(
            f, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Module)):
        f = parents.get(f)
    boxes = []

    def use(x):
        u = parents.get(x)
        while isinstance(u, ast.Tuple):
            x, u = u, parents.get(u)
        if isinstance(u, ast.Call) and isinstance(u.func, ast.Name) and \
                u.func.id in ("id", "hash") and x in u.args:
            return use(u)
        if isinstance(u, ast.Subscript) and u.slice is x:
            boxes.append(u.value)
            return True
        if isinstance(u, ast.Compare):
            if not all(isinstance(q, (ast.Eq, ast.NotEq, ast.In, ast.NotIn))
                       for q in u.ops):
                return False
            boxes.extend(c for c in u.comparators if c is not x)
            return True
        if isinstance(u, ast.Call) and isinstance(u.func, ast.Attribute) and \
                u.func.attr in KEYED and u.args and u.args[0] is x:
            boxes.append(u.func.value)
            return True
        if isinstance(u, (ast.Dict, ast.DictComp, ast.SetComp, ast.Set)):
            if isinstance(u, ast.Dict) and x not in u.keys or \
                    isinstance(u, ast.DictComp) and u.key is not x:
                return False
            up = parents.get(u)
            if isinstance(up, ast.Assign):
                boxes.extend(up.targets)
                return True
            return isinstance(up, ast.Compare) and all(
                isinstance(q, (ast.In, ast.NotIn)) for q in up.ops)
        if isinstance(u, (ast.Assign, ast.NamedExpr)):
            ts = u.targets if isinstance(u, ast.Assign) else [u.target]
            if not all(isinstance(t, ast.Name) for t in ts):
                return False
            names = {t.id for t in ts}
            return all(use(y) for y in ast.walk(f)
                       if isinstance(y, ast.Name) and y.id in names and
                       isinstance(y.ctx, ast.Load)) and (
                isinstance(u, ast.Assign) or use(u))
        return False

    if not use(call):
        return False
    # the container is neither put in order of its keys nor, when it is a set
    # or its keys are taken out, gone through
    for b in boxes:
        if not isinstance(b, (ast.Name, ast.Attribute)):
            continue
        text = ast.unparse(b)
        isset = any(
            isinstance(a, ast.Assign) and text in map(ast.unparse, a.targets)
            and (isinstance(a.value, (ast.Set, ast.SetComp)) or
                 isinstance(a.value, ast.Call) and
                 last(a.value.func) in ("set", "frozenset"))
            for a in ast.walk(tree))

        def about(e):
            return any(isinstance(y, (ast.Name, ast.Attribute)) and
                       ast.unparse(y) == text for y in ast.walk(e))

        for y in ast.walk(f):
            if isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and \
                    y.func.id in ORDERED and any(about(a) for a in y.args):
                return False
            if isinstance(y, (ast.For, ast.comprehension)) and isset and \
                    about(y.iter):
                return False
    return True


def text_set(e):
    """A set whose iteration order depends on the hash seed (strings)."""
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and \
            e.func.id in ("set", "frozenset") and e.args and \
            isinstance(e.args[0], (ast.List, ast.Tuple, ast.Set)):
        return any(isinstance(x, ast.Constant) and isinstance(x.value, str)
                   for x in e.args[0].elts)
    return isinstance(e, ast.Set) and any(
        isinstance(x, ast.Constant) and isinstance(x.value, str)
        for x in e.elts)


def calls_now(v):
    """Calls evaluated with the expression (not inside a lambda)."""
    todo = [v]
    while todo:
        n = todo.pop()
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, ast.Call):
            yield n
        todo += ast.iter_child_nodes(n)


def last(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        return e.attr
    if isinstance(e, ast.Subscript):
        return last(e.value)
    return ""


def assigned(body, me, attr):
    for s in body:
        for n in ast.walk(s):
            ts = n.targets if isinstance(n, ast.Assign) else \
                [n.target] if isinstance(n, (ast.AnnAssign, ast.NamedExpr)) \
                and n.value is not None else []
            for t in ts:
                if isinstance(t, ast.Attribute) and t.attr == attr and \
                        isinstance(t.value, ast.Name) and t.value.id == me:
                    yield n.value


def surely(body, me, attr):
    """Assigned on every path through the statements."""
    for s in body:
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            if any(True for _ in assigned([s], me, attr)):
                return True
        elif isinstance(s, ast.If):
            if s.orelse and surely(s.body, me, attr) and \
                    surely(s.orelse, me, attr):
                return True
        elif isinstance(s, ast.With):
            if surely(s.body, me, attr):
                return True
        elif isinstance(s, ast.Try):
            if surely(s.finalbody, me, attr) or (
                    surely(s.body + s.orelse, me, attr) and
                    all(surely(h.body, me, attr) or ends(h.body)
                        for h in s.handlers)):
                return True
        elif isinstance(s, ast.Match):
            if s.cases and isinstance(s.cases[-1].pattern, ast.MatchAs) and \
                    s.cases[-1].pattern.pattern is None and \
                    all(surely(c.body, me, attr) for c in s.cases):
                return True
    return False


def ends(body):
    return bool(body) and isinstance(body[-1], (ast.Raise, ast.Return))


def default_of(f, p):
    a = f.args
    pos = a.posonlyargs + a.args
    for x, d in zip(reversed(pos), reversed(a.defaults)):
        if x.arg == p:
            return d
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if x.arg == p:
            return d
    return None


CONTROL = '''
from amaranth import Signal
from amaranth.lib.wiring import Component
TABLE = {}
_n = 0
class A(Component):
    field_map = {}
    spare = Signal()
    def __init__(self, *, m=None, d=[]):
        global _n
        _n += 1
        if m:
            self.field_map = m
        self.field_map.update(x=1)
        t = TABLE
        t["x"] = 1
        A.last = self
        d.append(1)
    def helper(self, q):
        q["z"] = 1
    def elaborate(self, platform):
        self.helper(TABLE)
        return id(self)
'''


def independent(o, tier):
    """P51."""
    c = Effects(load({PKG + "/control_example.py": CONTROL}))
    c.run(), c.shared_hardware(), c.changing()
    kinds = {k.split("/")[0] for k, _ in c.found}
    if not {"write", "object", "changing", "argument", "default"} <= kinds \
            or len(c.found) < 8:
        raise AnalysisBroken(f"control: effects missed in the positive "
                             f"example: {sorted(k for k, _ in c.found)}")
    e = Effects(load())
    n1 = e.run()
    n2 = e.shared_hardware()
    n3 = e.changing()
    o.obligations += n1 + n2 + n3
    o.cover.update(modules=len(e.mods), functions=len(e.fns),
                   classes=len(e.classes), mutations_examined=n1,
                   shared_values_examined=n2, references_examined=n3,
                   positive_controls_fired=len(c.found))
    if len(e.fns) < 30 or n1 < 50:
        raise AnalysisBroken("fewer functions or mutations than expected")
    for k, t in e.found:
        o.add(k, t)


# ---------------------------------------------------------------- P52

def norm(d):
    return re.sub(r"[-_.]+", "_", re.split(r"[\s\[<>=!~;@(]", d.strip())[0]
                  ).lower()


def enclosing_optional(tree):
    """Import statements that may fail (guarded, or never executed)."""
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Try) and any(
                h.type is None or last(h.type) in (
                    "ImportError", "ModuleNotFoundError", "Exception") or
                isinstance(h.type, ast.Tuple) for h in n.handlers):
            for s in n.body:
                out |= set(ast.walk(s))
        if isinstance(n, ast.If) and last(n.test) == "TYPE_CHECKING":
            for s in n.body:
                out |= set(ast.walk(s))
    return out


class Names:
    def __init__(self, mods, deps):
        self.mods, self.deps = mods, deps
        self.found, self.n = [], {"imports": 0, "names": 0, "members": 0,
                                  "entry_modules": 0, "files": 0}

    def report(self, key, text):
        if key not in [k for k, _ in self.found]:
            self.found.append((key, text))

    def imports(self):
        for m in self.mods.values():
            opt = enclosing_optional(m.tree)
            for s in ast.walk(m.tree):
                if isinstance(s, ast.Import):
                    targets = [(a.name, None) for a in s.names]
                elif isinstance(s, ast.ImportFrom):
                    targets = [(absolute(m, s), a.name) for a in s.names]
                else:
                    continue
                if s in opt:
                    continue
                for t, name in targets:
                    self.n["imports"] += 1
                    top = t.split(".")[0]
                    if top == "sentinel":
                        self.internal(m, s, t, name)
                    elif top not in sys.stdlib_module_names and \
                            top.lower() not in self.deps:
                        self.report(
                            f"dependency/{m.name}/{t}", f"{t} is imported "
                            "but neither part of Python nor a declared "
                            f"dependency; at {m.path}:{s.lineno}")

    def internal(self, m, s, t, name):
        if t not in self.mods:
            self.report(f"module/{m.name}/{t}", f"module {t} does not exist; "
                        f"at {m.path}:{s.lineno}")
        elif name is not None and name != "*" and \
                name not in self.mods[t].binds and \
                f"{t}.{name}" not in self.mods and \
                "__getattr__" not in self.mods[t].binds:
            self.report(f"import/{m.name}/{name}", f"{t} has no {name}; at "
                        f"{m.path}:{s.lineno}")

    def order(self):
        """Import each module first; partially run modules must have bound
        what is taken from them."""
        for entry in self.mods:
            self.n["entry_modules"] += 1
            bound = {}
            self.execute(entry, bound, entry)

    def execute(self, name, bound, entry):
        if name in bound or name not in self.mods:
            return
        parts = name.split(".")
        if len(parts) > 1:
            self.execute(".".join(parts[:-1]), bound, entry)
            if name in bound:
                return
        m = self.mods[name]
        bound[name] = set()
        self.opt = enclosing_optional(m.tree)
        self.block(m, m.tree.body, bound, entry)
        bound[name] = None      # finished

    def block(self, m, body, bound, entry):
        mine = bound[m.name]
        for s in body:
            if isinstance(s, ast.ImportFrom):
                t = absolute(m, s)
                if t.split(".")[0] == "sentinel":
                    self.execute(t, bound, entry)
                    for a in s.names:
                        if f"{t}.{a.name}" in self.mods and \
                                a.name not in self.mods[t].binds:
                            self.execute(f"{t}.{a.name}", bound, entry)
                        elif bound.get(t) is not None and a.name != "*" and \
                                a.name not in bound[t]:
                            self.report(
                                f"cycle/{m.name}/{t}", f"importing {entry} "
                                f"first fails: {m.name} takes {a.name} from "
                                f"{t} before {t} has defined it; at "
                                f"{m.path}:{s.lineno}")
                mine |= {a.asname or a.name for a in s.names}
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.name.split(".")[0] == "sentinel":
                        self.execute(a.name, bound, entry)
                    mine.add(a.asname or a.name.split(".")[0])
            elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                mine.add(s.name)
            elif isinstance(s, ast.ClassDef):
                self.class_imports(m, s, bound, entry)
                mine.add(s.name)
            elif isinstance(s, ast.If) and last(s.test) == "TYPE_CHECKING":
                continue
            else:
                for n in own(s):
                    if isinstance(n, ast.Name) and \
                            isinstance(n.ctx, ast.Store):
                        mine.add(n.id)
                for k in ("body", "orelse", "finalbody"):
                    self.block(m, getattr(s, k, []) or [], bound, entry)
                for h in getattr(s, "handlers", []) + \
                        getattr(s, "cases", []):
                    self.block(m, h.body, bound, entry)

    def class_imports(self, m, c, bound, entry):
        keep = bound[m.name]
        bound[m.name] = set(keep)
        imps = [s for s in c.body
                if isinstance(s, (ast.Import, ast.ImportFrom))]
        self.block(m, imps, bound, entry)
        bound[m.name] = keep

    def names(self):
        for m in self.mods.values():
            known = set(m.binds) | set(dir(builtins)) | {
                "__file__", "__name__", "__doc__", "__path__", "__package__",
                "__spec__", "__loader__", "__builtins__", "__annotations__",
                "__class__", "__qualname__", "__module__", "__dict__"}
            stars = any(isinstance(n, ast.ImportFrom) and
                        any(a.name == "*" for a in n.names)
                        for n in ast.walk(m.tree))
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Global):
                    known |= set(n.names)
            if stars:
                continue
            todo = [symtable.symtable(m.src, m.path, "exec")]
            while todo:
                t = todo.pop()
                todo += t.get_children()
                for s in t.get_symbols():
                    if not s.is_referenced():
                        continue
                    self.n["names"] += 1
                    if t.get_type() in ("module", symtable.SymbolTable) or \
                            str(t.get_type()).endswith("MODULE"):
                        bad = s.get_name() not in known
                    else:
                        bad = s.is_global() and s.get_name() not in known
                    if bad:
                        line = next((x.lineno for x in ast.walk(m.tree)
                                     if isinstance(x, ast.Name) and
                                     x.id == s.get_name()), t.get_lineno())
                        self.report(
                            f"name/{m.name}/{s.get_name()}",
                            f"{s.get_name()} is not defined, but "
                            f"{t.get_name()} uses it; at {m.path}:{line}")

    def members(self):
        """Members of the package's enumerations."""
        from amaranth.lib import enum as aenum
        import enum as penum
        std = set()
        for c in (aenum.Enum, aenum.IntEnum, aenum.Flag, aenum.IntFlag):
            std |= set(dir(c)) | set(dir(type(c)))
        std |= set(dir(penum.Enum)) | set(dir(penum.EnumMeta)) | {
            "name", "value"}
        eff = Effects(self.mods)
        for m in self.mods.values():
            shadow = {}
            for f in ast.walk(m.tree):
                if isinstance(f, (ast.FunctionDef, ast.Lambda)):
                    a = f.args
                    for p in a.posonlyargs + a.args + a.kwonlyargs:
                        shadow[p.arg] = 1
                    for x in ast.walk(f):
                        if isinstance(x, ast.Name) and \
                                isinstance(x.ctx, ast.Store):
                            shadow[x.id] = 1
            for x in ast.walk(m.tree):
                if not (isinstance(x, ast.Attribute) and
                        isinstance(x.value, ast.Name)) or \
                        x.value.id in shadow:
                    continue
                r = self.enum_class(eff, m, x.value.id)
                if r is None:
                    continue
                self.n["members"] += 1
                if x.attr not in r and x.attr not in std:
                    self.report(f"member/{m.name}/{x.value.id}.{x.attr}",
                                f"{x.value.id} has no member {x.attr}; at "
                                f"{m.path}:{x.lineno}")

    def enum_class(self, eff, m, name):
        """Names in the body of a module-level enumeration."""
        if name in m.imports:
            src, n = m.imports[name]
            if src not in self.mods or n is None:
                return None
            m, name = self.mods[src], n
        c = m.binds.get(name)
        if not isinstance(c, ast.ClassDef) or not any(
                last(b) in ("Enum", "IntEnum", "Flag", "IntFlag")
                for b in c.bases) or len(c.bases) != 1:
            return None
        out = set()
        for s in c.body:
            for n in own(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    out.add(n.id)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    out.add(n.name)
        if any(isinstance(s, (ast.For, ast.While, ast.Expr)) and not
               isinstance(getattr(s, "value", None), ast.Constant)
               for s in c.body) or any(
                   isinstance(n, ast.Call) and last(n.func) in (
                       "vars", "locals", "setattr")
                   for s in c.body for n in ast.walk(s)):
            return None
        return out

    def files(self, config):
        """Constant paths built from the package's own location."""
        ex = config.get("tool", {}).get("pdm", {}).get("build", {}).get(
            "excludes", [])
        for m in self.mods.values():
            parents = {}
            for n in ast.walk(m.tree):
                for k in ast.iter_child_nodes(n):
                    parents[k] = n
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) \
                        and n.func.id == "open" and n.args and \
                        isinstance(n.args[0], ast.Constant) and \
                        isinstance(n.args[0].value, str):
                    self.n["files"] += 1
                    self.report(f"file/{m.name}/{n.args[0].value}",
                                f"{ast.unparse(n)} depends on the current "
                                f"directory; at {m.path}:{n.lineno}")
                    continue
                p = place(n, m)
                if p is None:
                    continue
                up = parents.get(n)
                if up is not None and place(up, m) is not None:
                    continue        # part of a longer path
                if isinstance(up, ast.Attribute) and isinstance(
                        parents.get(up), ast.Call) and \
                        parents[up].func is up and up.attr == "joinpath":
                    continue
                p = os.path.normpath(p)
                if p == os.path.normpath(m.path) or \
                        isinstance(n, ast.Name) and n.id == "__file__":
                    continue
                self.n["files"] += 1
                if (PKG + "/").startswith(p + "/") or p in ("", "."):
                    continue        # a directory the package lies in
                if not (p + "/").startswith(PKG + "/"):
                    self.report(f"file/{m.name}/{p}", f"{p} lies outside the "
                                "package and is absent from an installed "
                                f"copy; at {m.path}:{n.lineno}")
                elif not os.path.exists(os.path.join(REPO, p)):
                    self.report(f"file/{m.name}/{p}", f"{p} does not exist; "
                                f"at {m.path}:{n.lineno}")
                elif any(fnmatch.fnmatch(p, x) for x in ex):
                    self.report(f"file/{m.name}/{p}", f"{p} is excluded from "
                                f"the built package; at {m.path}:{n.lineno}")


def place(e, m):
    """Repository-relative path of an expression rooted at __file__."""
    if isinstance(e, ast.Name) and e.id == "__file__":
        return m.path
    if isinstance(e, ast.Call):
        w = last(e.func)
        if isinstance(e.func, ast.Name) or (
                isinstance(e.func, ast.Attribute) and
                last(e.func.value) in ("pathlib", "os", "path")):
            if w in ("Path", "PurePath", "PosixPath", "abspath", "realpath",
                     "str", "fspath") and len(e.args) == 1:
                return place(e.args[0], m)
            if w == "dirname" and len(e.args) == 1:
                p = place(e.args[0], m)
                return p and os.path.dirname(p)
            if w == "join" and e.args:
                p = place(e.args[0], m)
                return tail(p, e.args[1:])
            if w == "files" and len(e.args) == 1:
                return pkg_files(e, m)
        if isinstance(e.func, ast.Attribute):
            if w == "files" and last(e.func.value) == "resources":
                return pkg_files(e, m)
            if w in ("resolve", "absolute"):
                return place(e.func.value, m)
            if w == "joinpath":
                return tail(place(e.func.value, m), e.args)
            if w in ("with_name", "with_suffix") and len(e.args) == 1 and \
                    isinstance(e.args[0], ast.Constant):
                p = place(e.func.value, m)
                if p is None:
                    return None
                return os.path.join(os.path.dirname(p), e.args[0].value) \
                    if w == "with_name" else \
                    os.path.splitext(p)[0] + e.args[0].value
        return None
    if isinstance(e, ast.Attribute) and e.attr == "parent":
        p = place(e.value, m)
        return p and os.path.dirname(p)
    if isinstance(e, ast.Subscript) and \
            isinstance(e.value, ast.Attribute) and \
            e.value.attr == "parents" and isinstance(e.slice, ast.Constant):
        p = place(e.value.value, m)
        for _ in range(e.slice.value + 1):
            p = p and os.path.dirname(p)
        return p
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Div):
        return tail(place(e.left, m), [e.right])
    return None


def pkg_files(e, m):
    a = e.args[0]
    if isinstance(a, ast.Constant) and a.value == "sentinel" or \
            isinstance(a, ast.Name) and a.id == "__package__":
        return PKG
    return None


def tail(p, args):
    for a in args:
        if p is None or not isinstance(a, ast.Constant) or \
                not isinstance(a.value, str):
            return None
        p = os.path.join(p, a.value)
    return p


CONTROL2 = {
    PKG + "/__init__.py": "",
    PKG + "/a.py": "import os\nimport yaml\nfrom .b import thing\n"
    "from .b import lost\nfrom pathlib import Path\n"
    "P = Path(__file__).parent / 'none.asm'\n"
    "Q = Path(__file__).parents[2] / 'tests' / 'x'\n"
    "def f():\n    return missing + thing\n"
    "def g():\n    return E.ONE, E.TWO\n"
    "from enum import Enum\nclass E(Enum):\n    ONE = 1\n",
    PKG + "/b.py": "from .a import f\nthing = 1\n",
}


def complete(o, tier):
    """P52."""
    c = Names(load(CONTROL2), {"amaranth"})
    c.imports(), c.order(), c.names(), c.members(), c.files({})
    if {k.split("/")[0] for k, _ in c.found} != {
            "dependency", "import", "cycle", "name", "member", "file"} or \
            len([1 for k, _ in c.found if k.startswith("file/")]) != 2:
        raise AnalysisBroken("control: problems missed in the positive "
                             f"example: {sorted(k for k, _ in c.found)}")
    with open(os.path.join(REPO, "pyproject.toml"), "rb") as f:
        config = tomllib.load(f)
    deps = {norm(d) for d in config["project"].get("dependencies", [])}
    if "amaranth" not in deps:
        raise AnalysisBroken("the declared dependencies were not found")
    e = Names(load(), deps)
    e.imports()
    e.order()
    e.names()
    e.members()
    e.files(config)
    o.obligations += sum(e.n.values())
    o.cover.update(modules=len(e.mods), declared_dependencies=len(deps),
                   positive_controls_fired=len(c.found), **e.n)
    if e.n["names"] < 200 or e.n["imports"] < 30:
        raise AnalysisBroken("fewer names or imports than expected")
    for k, t in e.found:
        o.add(k, t)
