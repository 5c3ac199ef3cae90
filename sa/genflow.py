"""Path-sensitive typestate analysis of the Verilog generator's syntax tree:
which design, under which name, goes where, and whether files are closed."""
import ast
import os
import sys

from .frontend import AnalysisBroken

REPO = os.environ.get("SA_REPO", "/repo")
FILE = "src/sentinel/gen.py"


class Val:
    """Abstract value: a kind and its data; compared structurally."""

    def __init__(self, kind, *data):
        self.kind, self.data = kind, data

    def __eq__(self, o):
        return isinstance(o, Val) and (self.kind, self.data) == \
            (o.kind, o.data)

    def __hash__(self):
        return hash((self.kind, self.data))

    def __repr__(self):
        return f"{self.kind}{self.data}"


def const(v):
    return Val("const", v)


NONE = const(None)
UNKNOWN = Val("unknown")


class State:
    """Facts assumed and events observed along one path."""

    def __init__(self, facts=(), events=(), heap=(), n=0):
        self.facts, self.events = dict(facts), tuple(events)
        self.heap, self.n = dict(heap), n

    def copy(self):
        return State(self.facts, self.events, self.heap, self.n)

    def event(self, *e):
        s = self.copy()
        s.events += (e,)
        return s

    def assume(self, k, v):
        s = self.copy()
        s.facts[k] = v
        return s

    def new(self, v):
        s = self.copy()
        s.n += 1
        s.heap[s.n] = v
        return s, s.n


class Env(dict):
    """Lexical scope."""

    def __init__(self, parent=None):
        super().__init__()
        self.parent = parent

    def find(self, n):
        e = self
        while e is not None:
            if n in e:
                return e[n]
            e = e.parent
        return None

    def snapshot(self):
        e = Env(self.parent)
        e.update(self)
        e.hook = getattr(self, "hook", None)
        return e


class Closure:
    def __init__(self, node, env):
        self.node, self.env = node, env
        self.gen = any(isinstance(x, ast.Yield) for x in ast.walk(node))


class Interp:
    """Continuation-passing abstract interpreter.  Scopes are mutable and
    are copied at every fork of the control flow."""

    LIMIT = 200000

    def __init__(self, tree):
        self.steps = 0
        self.sites = set()
        self.g = Env()
        self.rest = []
        for s in tree.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.g[s.name] = Val("fn", Closure(s, self.g))
            elif isinstance(s, ast.ClassDef):
                self.g[s.name] = Val("class", s)
            elif isinstance(s, ast.ImportFrom):
                for a in s.names:
                    self.g[a.asname or a.name] = Val(
                        "ext", (s.module or "") + "." + a.name)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    self.g[(a.asname or a.name).split(".")[0]] = Val(
                        "ext", a.name if a.asname else a.name.split(".")[0])
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and \
                    isinstance(s.targets[0], ast.Name):
                try:
                    self.g[s.targets[0].id] = const(ast.literal_eval(s.value))
                except ValueError:
                    self.g[s.targets[0].id] = Val("lazy", s.value)
            elif not isinstance(s, ast.Expr) or not isinstance(
                    s.value, ast.Constant):
                self.rest.append(s)

    def broken(self, node, why):
        raise AnalysisBroken(f"{FILE}:{getattr(node, 'lineno', '?')}: {why}")

    # ---- statements -------------------------------------------------------
    def block(self, body, env, st, k):
        """k(state, env, kind, value); kind: next return raise break
        continue."""
        self.steps += 1
        if self.steps > self.LIMIT:
            raise AnalysisBroken(f"{FILE}: too many paths")
        if not body:
            return k(st, env, "next", None)

        def then(st, env, kind, v):
            if kind == "next":
                return self.block(body[1:], env, st, k)
            return k(st, env, kind, v)
        return self.stmt(body[0], env, st, then)

    def stmt(self, s, env, st, k):
        if isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom, ast.Global,
                          ast.Nonlocal)):
            if isinstance(s, ast.ImportFrom):
                for a in s.names:
                    env[a.asname or a.name] = Val(
                        "ext", (s.module or "") + "." + a.name)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    env[(a.asname or a.name).split(".")[0]] = Val(
                        "ext", a.name if a.asname else a.name.split(".")[0])
            return k(st, env, "next", None)
        if isinstance(s, ast.FunctionDef):
            env[s.name] = Val("fn", Closure(s, env))
            return k(st, env, "next", None)
        if isinstance(s, ast.Expr):
            if isinstance(s.value, ast.Yield):
                return self.do_yield(s.value, env, st, k)
            return self.ev(s.value, env, st, lambda v, st: k(
                st, env, "next", None), lambda st: k(st, env, "raise", None))
        bad = (lambda st: k(st, env, "raise", None))
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            tg = s.targets if isinstance(s, ast.Assign) else [s.target]
            if s.value is None:
                return k(st, env, "next", None)
            if isinstance(s.value, ast.Yield):
                self.broken(s, "a value is sent into a generator")

            def put(v, st):
                e = env.snapshot()
                for t in tg:
                    if isinstance(t, ast.Name):
                        e[t.id] = v
                    elif isinstance(t, ast.Tuple) and v.kind == "tuple" and \
                            len(t.elts) == len(v.data):
                        for a, b in zip(t.elts, v.data):
                            e[a.id] = b
                    elif isinstance(t, ast.Attribute):
                        if not isinstance(t.value, ast.Name):
                            self.broken(s, "unsupported assignment")
                        ob = env.find(t.value.id)
                        if ob is not None and ob.kind == "obj":
                            st = st.copy()
                            cls, attrs = st.heap[ob.data[0]]
                            st.heap[ob.data[0]] = (cls, tuple(
                                {**dict(attrs), t.attr: v}.items()))
                        elif ob == Val("ext", "sys") and t.attr == "stdout":
                            st = st.assume("stdout", v)
                    else:
                        self.broken(s, "unsupported assignment")
                return k(st, e, "next", None)
            return self.ev(s.value, env, st, put, bad)
        if isinstance(s, ast.If):
            return self.cond(s.test, env, st, lambda b, st: self.block(
                s.body if b else s.orelse, env.snapshot(), st, k), bad)
        if isinstance(s, ast.Return):
            if s.value is None:
                return k(st, env, "return", NONE)
            return self.ev(s.value, env, st,
                           lambda v, st: k(st, env, "return", v), bad)
        if isinstance(s, ast.Raise):
            return k(st, env, "raise", None)
        if isinstance(s, ast.Assert):
            return self.cond(s.test, env, st, lambda b, st: k(
                st, env, "next" if b else "raise", None), bad)
        if isinstance(s, ast.Try):
            return self.do_try(s, env, st, k)
        if isinstance(s, ast.With):
            return self.do_with(s.items, s.body, env, st, k)
        if isinstance(s, ast.Match):
            return self.do_match(s, env, st, k)
        if isinstance(s, ast.Delete):
            return k(st, env, "next", None)
        if isinstance(s, ast.AugAssign):
            return self.ev(s.value, env, st, lambda v, st: k(
                st, self.bound(env, s.target, UNKNOWN), "next", None), bad)
        if isinstance(s, ast.ClassDef):
            return k(st, self.bound(env, ast.Name(s.name), Val("class", s)),
                     "next", None)
        if isinstance(s, ast.For):
            return self.ev(s.iter, env, st, lambda v, st: self.loop(
                s, v, env, st, k), bad)
        if isinstance(s, (ast.Break, ast.Continue)):
            return k(st, env, type(s).__name__.lower(), None)
        self.broken(s, f"unsupported statement {type(s).__name__}")

    @staticmethod
    def bound(env, target, v):
        e = env.snapshot()
        if isinstance(target, ast.Name):
            e[target.id] = v
        return e

    def loop(self, s, v, env, st, k):
        if v.kind == "dict":
            v = Val("tuple", *(const(x) for x, _ in v.data[0]))
        if v.kind == "const" and isinstance(v.data[0], (tuple, list)):
            v = Val("tuple", *map(const, v.data[0]))
        if v.kind != "tuple":
            self.broken(s, "unsupported loop")

        def turn(i, st, env):
            if i == len(v.data):
                return self.block(s.orelse, env, st, k)
            x = v.data[i]
            e = env.snapshot()
            if isinstance(s.target, ast.Name):
                e[s.target.id] = x
            elif isinstance(s.target, ast.Tuple):
                if x.kind == "const" and isinstance(x.data[0], tuple):
                    x = Val("tuple", *map(const, x.data[0]))
                if x.kind != "tuple" or len(x.data) != len(s.target.elts):
                    self.broken(s, "unsupported loop target")
                for a, b in zip(s.target.elts, x.data):
                    e[a.id] = b

            def after(st, e, kind, val):
                if kind in ("next", "continue"):
                    return turn(i + 1, st, e)
                if kind == "break":
                    return k(st, e, "next", None)
                return k(st, e, kind, val)
            return self.block(s.body, e, st, after)
        return turn(0, st, env)

    def do_match(self, s, env, st, k):
        def go(v, st, cases):
            if not cases:
                return k(st, env, "next", None)
            c = cases[0]
            p = c.pattern
            if isinstance(p, ast.MatchAs) and p.pattern is None:
                e = env.snapshot()
                if p.name:
                    e[p.name] = v
                return self.block(c.body, e, st, k)
            pats = p.patterns if isinstance(p, ast.MatchOr) else [p]
            vals = []
            for q in pats:
                if isinstance(q, ast.MatchSingleton):
                    vals.append(const(q.value))
                elif isinstance(q, ast.MatchValue) and isinstance(
                        q.value, ast.Constant):
                    vals.append(const(q.value.value))
                else:
                    self.broken(s, "unsupported pattern")

            def alt(i, st):
                if i == len(vals):
                    return go(v, st, cases[1:])
                return self.equal(v, vals[i], st, lambda b, st: self.block(
                    c.body, env.snapshot(), st, k) if b else alt(i + 1, st))
            return alt(0, st)
        return self.ev(s.subject, env, st, lambda v, st: go(v, st, s.cases),
                       lambda st: k(st, env, "raise", None))

    def do_try(self, s, env, st, k):
        def fin(st, env, kind, v):
            return self.block(s.finalbody, env.snapshot(), st,
                              lambda st, e, k2, v2: k(
                                  st, e, kind if k2 == "next" else k2,
                                  v if k2 == "next" else v2))

        def after(st, env, kind, v):
            if kind == "next":
                return self.block(s.orelse, env, st, fin)
            if kind == "raise" and s.handlers:
                broad = False
                for h in s.handlers:
                    e = env.snapshot()
                    if h.name:
                        e[h.name] = UNKNOWN
                    self.block(h.body, e, st, fin)
                    broad |= h.type is None or isinstance(
                        h.type, ast.Name) and h.type.id in (
                            "Exception", "BaseException")
                if broad:
                    return None
            return fin(st, env, kind, v)
        return self.block(s.body, env.snapshot(), st, after)

    def do_with(self, items, body, env, st, k):
        if not items:
            return self.block(body, env, st, k)
        it = items[0]

        def entered(v, st, leave):
            """Run the body with the target bound; ``leave`` is its exit."""
            e = env.snapshot()
            if it.optional_vars is not None:
                if not isinstance(it.optional_vars, ast.Name):
                    self.broken(it.optional_vars, "unsupported with target")
                e[it.optional_vars.id] = v
            return self.do_with(items[1:], body, e, st, leave)

        def got(c, st):
            if c.kind == "genctx":
                cl, genv = c.data

                def hook(v, st, resume):
                    def leave(st, e, kind, val):
                        box_ = (e, kind, val)
                        return resume(st, "raise" if kind == "raise"
                                      else "next", box_)
                    return entered(v, st, leave)
                ge = genv.snapshot()
                ge.hook = hook

                def done(st, e, kind, val):
                    b = e.find("$box")
                    if b is None:
                        # the generator ended without yielding
                        return k(st, env, "raise", None)
                    oe, okind, oval = b
                    if kind == "raise":
                        return k(st, oe, "raise", None)
                    if okind == "raise":
                        return k(st, oe, "next", None)
                    return k(st, oe, okind, oval)
                return self.block(cl.node.body, ge, st, done)
            if c.kind == "file":
                def leave(st, e, kind, val):
                    return k(st.event("close", c), e, kind, val)
                return entered(c, st, leave)
            if c.kind == "nullctx":
                return entered(c.data[0], st, k)
            if c.kind == "obj":
                cls = st.heap[c.data[0]][0]
                en, ex = (self.member(cls, x)
                          for x in ("__enter__", "__exit__"))
                if en is None or ex is None:
                    self.broken(it.context_expr, "not a context manager")

                def leave(st, e, kind, val):
                    x = UNKNOWN if kind == "raise" else NONE

                    def out(r, st):
                        if kind != "raise":
                            return k(st, e, kind, val)
                        return self.truth(r, st, lambda b, st: k(
                            st, e, "next" if b else "raise", None))
                    return self.invoke(
                        it.context_expr, Closure(ex, self.g), [c, x, x, x],
                        {}, st, out, lambda st: k(st, e, "raise", None))
                return self.invoke(
                    it.context_expr, Closure(en, self.g), [c], {}, st,
                    lambda v, st: entered(v, st, leave),
                    lambda st: k(st, env, "raise", None))
            if c.kind == "stack":
                def leave(st, e, kind, val):
                    for x in reversed(st.heap[c.data[0]]):
                        st = st.event("close", x)
                    return k(st, e, kind, val)
                return entered(c, st, leave)
            if c.kind == "suppress":
                def leave(st, e, kind, val):
                    if kind == "raise":
                        k(st, e, "next", None)
                    return k(st, e, kind, val)
                return entered(NONE, st, leave)
            if c.kind == "redirect":
                def leave(st, e, kind, val):
                    return k(st.assume("stdout", NONE), e, kind, val)
                return entered(c.data[0], st.assume("stdout", c.data[0]),
                               leave)
            if c.kind == "stdout":
                def leave(st, e, kind, val):
                    return k(st.event("close", c), e, kind, val)
                return entered(c, st, leave)
            self.broken(it.context_expr, f"unsupported context manager {c}")
        return self.ev(it.context_expr, env, st, got,
                       lambda st: k(st, env, "raise", None))

    def do_yield(self, y, env, st, k):
        e = env
        while e is not None and getattr(e, "hook", None) is None:
            e = e.parent
        if e is None:
            self.broken(y, "yield outside a context manager")
        hook = e.hook

        def go(v, st):
            def resume(st, kind, box):
                ne = env.snapshot()
                # how the body ended, for whoever finishes the generator
                ne["$box"] = box
                return k(st, ne, kind, None)
            return hook(v, st, resume)
        if y.value is None:
            return go(NONE, st)
        return self.ev(y.value, env, st, go,
                       lambda st: k(st, env, "raise", None))

    # ---- conditions -------------------------------------------------------
    def truth(self, v, st, k):
        if v.kind == "const":
            return k(bool(v.data[0]), st)
        if v.kind in ("fn", "ext", "design", "file", "stdout", "ns", "parser",
                      "verilog"):
            return k(True, st)
        if v.kind in ("tuple", "dict"):
            return k(bool(v.data and (v.kind == "tuple" or v.data[0])), st)
        if v.kind == "argv1":
            return self.argc(2, st, lambda r, st: k(not r, st))
        if v.kind == "not":
            return self.truth(v.data[0], st, lambda b, st: k(not b, st))
        key = ("true", v)
        if ("eq", v) in st.facts and st.facts[("eq", v)] is not None:
            return k(bool(st.facts[("eq", v)].data[0]), st)
        if key in st.facts:
            return k(st.facts[key], st)
        k(True, st.assume(key, True))
        return k(False, st.assume(key, False))

    def equal(self, a, b, st, k):
        if a.kind == "const" and b.kind == "const":
            return k(a.data[0] == b.data[0], st)
        if a.kind == "flag" and b.kind == "const" and isinstance(
                b.data[0], bool):
            return self.truth(a, st, lambda t, st: k(t == b.data[0], st))
        if b.kind != "const":
            a, b = b, a
        if a == b:
            return k(True, st)
        if b.kind == "const":
            if a.kind in ("design", "file", "stdout", "fn", "ext", "ns",
                          "verilog"):
                return k(False, st)
            if b.data[0] is None and a.kind == "opt":
                return k(False, st)      # a given option is a string
            ek = ("eq", a)
            if st.facts.get(ek) is not None:
                return k(st.facts[ek] == b, st)
            if ("ne", a, b) in st.facts:
                return k(False, st)
            t = st.facts.get(("true", a))
            if t is None or t == bool(b.data[0]):
                k(True, st.assume(ek, b))
            return k(False, st.assume(("ne", a, b), True))
        key = ("cmp", a, b)
        if key in st.facts:
            return k(st.facts[key], st)
        k(True, st.assume(key, True))
        return k(False, st.assume(key, False))

    def cond(self, e, env, st, k, bad):
        if isinstance(e, ast.BoolOp):
            want = isinstance(e.op, ast.Or)

            def go(i, st):
                if i == len(e.values):
                    return k(not want, st)
                return self.cond(e.values[i], env, st, lambda b, st: k(
                    want, st) if b == want else go(i + 1, st), bad)
            return go(0, st)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.cond(e.operand, env, st,
                             lambda b, st: k(not b, st), bad)
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            return self.compare(e, env, st, k, bad)
        return self.ev(e, env, st, lambda v, st: self.truth(v, st, k), bad)

    def compare(self, e, env, st, k, bad):
        op = e.ops[0]

        def two(a, st):
            return self.ev(e.comparators[0], env, st,
                           lambda b, st: both(a, b, st), bad)

        def both(a, b, st):
            neg = isinstance(op, (ast.NotEq, ast.IsNot, ast.NotIn))
            if a.kind == "argc" and b.kind == "const" and isinstance(
                    op, (ast.Eq, ast.NotEq)):
                n = b.data[0] + a.data[0]
                return self.argc(n, st, lambda r, st: k(
                    neg, st) if r else self.argc(n + 1, st, lambda r, st: k(
                        r != neg, st)))
            if isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
                return self.equal(a, b, st, lambda r, st: k(r != neg, st))
            if isinstance(op, (ast.In, ast.NotIn)):
                if b.kind == "tuple" or b.kind == "const" and isinstance(
                        b.data[0], (tuple, list, set, frozenset)):
                    xs = list(b.data) if b.kind == "tuple" else [
                        const(x) for x in b.data[0]]

                    def go(i, st):
                        if i == len(xs):
                            return k(neg, st)
                        return self.equal(a, xs[i], st, lambda r, st: k(
                            not neg, st) if r else go(i + 1, st))
                    return go(0, st)
                self.broken(e, "unsupported membership test")
            # length of the command line: only "no arguments" matters
            if a.kind == "argc" and b.kind == "const":
                b = const(b.data[0] + a.data[0])
                lim = {ast.Lt: b.data[0], ast.LtE: b.data[0] + 1}.get(type(op))
                if lim is not None:
                    return self.argc(lim, st, k)
                lim = {ast.Gt: b.data[0] + 1, ast.GtE: b.data[0]}.get(type(op))
                if lim is not None:
                    return self.argc(lim, st, lambda r, st: k(not r, st))
            self.broken(e, "unsupported comparison")

        def first(a, st):
            return two(a, st)
        return self.ev(e.left, env, st, first, bad)

    def argc(self, lim, st, k):
        """Is the length of the command line (at least one) below ``lim``?"""
        lo, hi = st.facts.get("argc", (1, None))
        if hi is not None and hi < lim:
            return k(True, st)
        if lo >= lim:
            return k(False, st)
        k(True, st.assume("argc", (lo, lim - 1)))
        return k(False, st.assume("argc", (lim, hi)))

    # ---- expressions ------------------------------------------------------
    def ev(self, e, env, st, k, bad):
        self.steps += 1
        if self.steps > self.LIMIT:
            raise AnalysisBroken(f"{FILE}: too many paths")
        if isinstance(e, ast.Constant):
            return k(const(e.value), st)
        if isinstance(e, ast.Name):
            v = env.find(e.id)
            if v is None:
                v = Val("ext", e.id)
            if v.kind == "lazy":
                return self.ev(v.data[0], self.g, st, k, bad)
            return k(self.resolve(v, st), st)
        if isinstance(e, ast.NamedExpr):
            def named(v, st):
                env[e.target.id] = v
                return k(v, st)
            return self.ev(e.value, env, st, named, bad)
        if isinstance(e, ast.IfExp):
            return self.cond(e.test, env, st, lambda b, st: self.ev(
                e.body if b else e.orelse, env, st, k, bad), bad)
        if isinstance(e, ast.BoolOp):
            want = isinstance(e.op, ast.Or)

            def go(i, st):
                return self.ev(e.values[i], env, st, lambda v, st: k(
                    v, st) if i == len(e.values) - 1 else self.truth(
                        v, st, lambda b, st: k(v, st) if b == want
                        else go(i + 1, st)), bad)
            return go(0, st)
        if isinstance(e, (ast.Compare,)) or isinstance(
                e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.cond(e, env, st, lambda b, st: k(const(b), st), bad)
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            def go(i, acc, st):
                if i == len(e.elts):
                    return k(Val("tuple", *acc), st)
                return self.ev(e.elts[i], env, st,
                               lambda v, st: go(i + 1, acc + [v], st), bad)
            return go(0, [], st)
        if isinstance(e, ast.JoinedStr):
            return k(UNKNOWN, st)
        if isinstance(e, ast.Lambda):
            node = ast.FunctionDef(name="<lambda>", args=e.args, body=[
                ast.copy_location(ast.Return(e.body), e.body)],
                decorator_list=[])
            return k(Val("fn", Closure(node, env)), st)
        if isinstance(e, ast.Dict):
            def go(i, acc, st):
                if i == len(e.keys):
                    return k(Val("dict", tuple(acc)), st)
                if not isinstance(e.keys[i], ast.Constant):
                    self.broken(e, "unsupported dictionary")
                return self.ev(e.values[i], env, st, lambda v, st: go(
                    i + 1, acc + [(e.keys[i].value, v)], st), bad)
            return go(0, [], st)
        if isinstance(e, ast.Attribute):
            return self.ev(e.value, env, st,
                           lambda v, st: self.getattr(v, e, st, k), bad)
        if isinstance(e, ast.Subscript):
            def sub(v, st):
                def idx(i, st):
                    if v.kind == "vars" and i.kind == "const":
                        return self.option(v.data[0], i.data[0], st, k)
                    if v.kind == "dict":
                        for key, x in v.data[0]:
                            if const(key) == i:
                                return k(x, st)
                        if i.kind == "const":
                            return bad(st)
                        # selection by an unknown key: every entry
                        for key, x in v.data[0]:
                            self.equal(i, const(key), st, lambda b, st, x=x:
                                       k(x, st) if b else None)
                        return None
                    if v == Val("ext", "sys.argv") and isinstance(
                            e.slice, ast.Slice) and isinstance(
                            e.slice.lower, ast.Constant) and \
                            e.slice.lower.value == 1 and not e.slice.upper:
                        return k(Val("argv1"), st)
                    if v.kind == "tuple" and i.kind == "const":
                        return k(v.data[i.data[0]], st)
                    if v.kind == "tuple":
                        return self.truth(i, st, lambda b, st: k(
                            v.data[int(b)], st))
                    return k(UNKNOWN, st)
                return self.ev(e.slice, env, st, idx, bad)
            return self.ev(e.value, env, st, sub, bad)
        if isinstance(e, ast.BinOp):
            return self.ev(e.left, env, st, lambda a, st: self.ev(
                e.right, env, st, lambda b, st: k(
                    Val("binop", type(e.op).__name__, a, b), st), bad), bad)
        if isinstance(e, ast.Slice):
            return k(UNKNOWN, st)
        if isinstance(e, ast.Call):
            return self.call(e, env, st, k, bad)
        self.broken(e, f"unsupported expression {type(e).__name__}")

    def getattr(self, v, e, st, k):
        n = e.attr
        if v.kind == "ext":
            return k(self.resolve(Val("ext", v.data[0] + "." + n), st), st)
        if v.kind == "obj":
            cls, attrs = st.heap[v.data[0]]
            if n in dict(attrs):
                return k(dict(attrs)[n], st)
            m = self.member(cls, n)
            if m is None:
                self.broken(e, f"unknown attribute {n}")
            if any(ast.unparse(d) == "property" for d in m.decorator_list):
                return self.invoke(e, Closure(m, self.g), [v], {}, st, k,
                                   lambda st: None)
            return k(Val("bound", v, Closure(m, self.g)), st)
        if v.kind == "ns":
            return self.option(v, n, st, k)
        return k(Val("attr", v, n), st)

    @staticmethod
    def member(cls, n):
        for s in cls.body:
            if isinstance(s, ast.FunctionDef) and s.name == n:
                return s
        return None

    @staticmethod
    def resolve(v, st):
        if v == Val("ext", "sys.stdout"):
            r = st.facts.get("stdout")
            return r if r is not None and r != NONE else Val("stdout")
        return v

    def option(self, ns, n, st, k):
        opts = st.heap[ns.data[0]]
        for dest, flag, default in opts:
            if dest == n:
                break
        else:
            return k(Val("missing", n), st)
        if flag == "true":
            return k(Val("flag", n), st)
        if flag == "false":
            return k(Val("not", Val("flag", n)), st)
        key = ("given", n)
        if key not in st.facts:
            k(Val("opt", n), st.assume(key, True))
            return k(const(default), st.assume(key, False))
        return k(Val("opt", n) if st.facts[key] else const(default), st)

    # ---- calls ------------------------------------------------------------
    def call(self, e, env, st, k, bad):
        self.sites.add((e.lineno, e.col_offset))

        def fn(f, st):
            def args(i, acc, st):
                if i < len(e.args):
                    a = e.args[i]
                    if isinstance(a, ast.Starred):
                        def star(v, st):
                            if v.kind != "tuple":
                                self.broken(e, "unsupported *argument")
                            return args(i + 1, acc + list(v.data), st)
                        return self.ev(a.value, env, st, star, bad)
                    return self.ev(a, env, st, lambda v, st: args(
                        i + 1, acc + [v], st), bad)
                return kws(0, {}, acc, st)

            def kws(i, kw, acc, st):
                if i == len(e.keywords):
                    return self.apply(e, f, acc, kw, st, k, bad)
                w = e.keywords[i]

                def put(v, st):
                    if w.arg is not None:
                        return kws(i + 1, {**kw, w.arg: v}, acc, st)
                    if v.kind == "dict":
                        return kws(i + 1, {**kw, **dict(v.data[0])}, acc, st)
                    if v.kind == "vars":
                        ns = v.data[0]
                        names = [d for d, _, _ in st.heap[ns.data[0]]]

                        def each(j, kw, st):
                            if j == len(names):
                                return kws(i + 1, kw, acc, st)
                            return self.option(
                                ns, names[j], st, lambda x, st: each(
                                    j + 1, {**kw, names[j]: x}, st))
                        return each(0, kw, st)
                    self.broken(e, "unsupported **argument")
                return self.ev(w.value, env, st, put, bad)
            return args(0, [], st)
        return self.ev(e.func, env, st, fn, bad)

    def apply(self, e, f, a, kw, st, k, bad):
        if f.kind == "fn":
            return self.invoke(e, f.data[0], a, kw, st, k, bad)
        if f.kind == "partial":
            g, a0, kw0 = f.data
            return self.apply(e, g, list(a0) + a, {**dict(kw0), **kw}, st, k,
                              bad)
        if f.kind == "ext":
            return self.external(e, f.data[0], a, kw, st, k, bad)
        if f.kind == "bound":
            return self.invoke(e, f.data[1], [f.data[0]] + a, kw, st, k, bad)
        if f.kind == "class":
            st, i = st.new((f.data[0], ()))
            init = self.member(f.data[0], "__init__")
            if init is None:
                return k(Val("obj", i), st)
            return self.invoke(e, Closure(init, self.g), [Val("obj", i)] + a,
                               kw, st, lambda v, st: k(Val("obj", i), st),
                               bad)
        if f.kind == "unknown":
            bad(st)
            return k(UNKNOWN, st)
        if f.kind == "attr":
            return self.method(e, f.data[0], f.data[1], a, kw, st, k, bad)
        self.broken(e, f"call of {f}")

    def invoke(self, e, c, a, kw, st, k, bad):
        n = c.node
        env = Env(c.env)
        p = n.args
        names = [x.arg for x in p.posonlyargs + p.args]
        if p.vararg:
            env[p.vararg.arg] = Val("tuple", *a[len(names):])
            a = a[:len(names)]
        dflt = dict(zip(names[len(names) - len(p.defaults):], p.defaults))
        for x, d in zip(p.kwonlyargs, p.kw_defaults):
            if d is not None:
                dflt[x.arg] = d
        allowed = names + [x.arg for x in p.kwonlyargs]
        if len(a) > len(names) or any(x not in allowed for x in kw) and \
                not p.kwarg:
            return bad(st)
        env.update(zip(names, a))
        extra = {x: v for x, v in kw.items() if x not in allowed}
        env.update((x, v) for x, v in kw.items() if x in allowed)
        if p.kwarg:
            env[p.kwarg.arg] = Val("dict", tuple(extra.items()))
        for x in allowed:
            if x not in env:
                if x not in dflt:
                    return bad(st)       # TypeError
                d = dflt[x]
                if not isinstance(d, ast.Constant):
                    self.broken(e, "unsupported default")
                env[x] = const(d.value)
        decs = [ast.unparse(d) for d in n.decorator_list]
        if c.gen:
            if not any(d.endswith("contextmanager") for d in decs):
                self.broken(e, "generator function")
            return k(Val("genctx", c, env), st)

        def done(st, env, kind, v):
            if kind == "raise":
                return bad(st)
            return k(v if kind == "return" else NONE, st)
        return self.block(n.body, env, st, done)

    def external(self, e, name, a, kw, st, k, bad):
        short = name.rsplit(".", 1)[-1]
        if short in ("Top", "FormalTop") and "sentinel" not in name.replace(
                "sentinel.top", "").replace("sentinel.formal", ""):
            bad(st)
            formal = kw.get("formal") or (a[0] if a else const(False))
            return k(Val("design", short, formal), st)
        if name.endswith("verilog.convert") or name == "convert":
            bad(st)
            nm = kw.get("name") or (a[1] if len(a) > 1 else NONE)
            return k(Val("verilog", a[0] if a else kw.get("elaboratable"),
                         nm), st)
        if name.endswith("verilog.convert_fragment"):
            self.broken(e, "unsupported conversion")
        if name in ("open", "io.open", "codecs.open"):
            bad(st)
            mode = kw.get("mode") or (a[1] if len(a) > 1 else const("r"))
            s, i = st.new(None)
            fv = Val("file", i, a[0] if a else kw.get("file"), mode)
            return k(fv, s.event("open", fv))
        if name == "print":
            to = kw.get("file")
            if to is None or to == NONE:
                r = st.facts.get("stdout")
                to = r if r is not None and r != NONE else Val("stdout")
            bad(st)
            st = st.event("write", to, a[0] if len(a) == 1 else
                          Val("tuple", *a))
            return k(NONE, st)
        if name == "isinstance":
            if a[0].kind == "ns":
                return k(const(a[1] == Val("ext", "argparse.Namespace")), st)
            if a[0] == NONE:
                return k(const(False), st)
            if a[1] == Val("ext", "str") and a[0].kind in ("const", "opt"):
                return k(const(a[0].kind == "opt" or
                               isinstance(a[0].data[0], str)), st)
            key = ("isinstance",) + tuple(a)
            if key in st.facts:
                return k(const(st.facts[key]), st)
            k(const(True), st.assume(key, True))
            return k(const(False), st.assume(key, False))
        if name == "len" and a and a[0] == Val("ext", "sys.argv"):
            return k(Val("argc", 0), st)
        if name == "len" and a and a[0] == Val("argv1"):
            return k(Val("argc", 1), st)
        if name == "vars":
            if a[0].kind == "ns":
                return k(Val("vars", a[0]), st)
            if a[0].kind == "const":
                return bad(st)
        if name == "argparse.ArgumentParser":
            s, i = st.new(())
            return k(Val("parser", i), s)
        if short == "nullcontext":
            return k(Val("nullctx", a[0] if a else NONE), st)
        if short == "ExitStack":
            st, i = st.new(())
            return k(Val("stack", i), st)
        if short == "suppress":
            return k(Val("suppress"), st)
        if short == "redirect_stdout":
            return k(Val("redirect", a[0]), st)
        if short == "closing":
            return k(a[0], st)
        if short == "partial":
            return k(Val("partial", a[0], tuple(a[1:]), tuple(kw.items())),
                     st)
        if name == "getattr" and a[0].kind == "ns" and a[1].kind == "const":
            return self.option(a[0], a[1].data[0], st, k)
        if name in ("bool",):
            return self.truth(a[0], st, lambda b, st: k(const(b), st))
        if name == "dict":
            return k(Val("dict", tuple(kw.items())), st)
        if name in ("str", "pathlib.Path", "Path") and len(a) == 1:
            return k(a[0] if name == "str" else Val("path", a[0]), st)
        if name in ("sys.stdout.write", "sys.exit", "exit", "quit"):
            if name.endswith("exit") or name == "quit":
                return bad(st)
        if name in ("len", "type", "id", "repr", "hash", "callable"):
            return k(UNKNOWN, st)
        if any(x.kind in ("file", "verilog", "ns", "parser", "stdout")
               for x in list(a) + list(kw.values())):
            self.broken(e, f"unsupported use in a call of {name}")
        bad(st)
        return k(UNKNOWN, st)

    def method(self, e, obj, n, a, kw, st, k, bad):
        if obj.kind == "path" and n == "open":
            return self.external(e, "open", [obj.data[0]] + a, kw, st, k, bad)
        if obj.kind == "path" and n == "write_text":
            bad(st)
            s, i = st.new(None)
            fv = Val("file", i, obj.data[0], const("w"))
            s = s.event("open", fv).event("write", fv, a[0])
            return k(NONE, s.event("close", fv))
        if obj.kind in ("file", "stdout"):
            if n == "write":
                bad(st)
                return k(NONE, st.event("write", obj, a[0]))
            if n == "writelines":
                self.broken(e, "unsupported writelines")
            if n == "close":
                return k(NONE, st.event("close", obj))
            if n in ("flush", "fileno", "isatty"):
                bad(st)
                return k(UNKNOWN, st)
        if obj.kind == "stack":
            st = st.copy()
            old = st.heap[obj.data[0]]
            if n == "enter_context" and a[0].kind in ("file", "stdout"):
                st.heap[obj.data[0]] = old + (a[0],)
                return k(a[0], st)
            if n == "enter_context" and a[0].kind == "nullctx":
                return k(a[0].data[0], st)
            if n == "callback" and a[0].kind == "attr" and \
                    a[0].data[1] == "close":
                st.heap[obj.data[0]] = old + (a[0].data[0],)
                return k(a[0], st)
            self.broken(e, f"unsupported use of an exit stack: {n}")
        if obj.kind == "parser":
            if n == "add_argument":
                return k(NONE, self.add_option(e, obj, a, kw, st))
            if n in ("parse_args", "parse_intermixed_args"):
                bad(st)                  # SystemExit on a usage error
                s, i = st.new(st.heap[obj.data[0]])
                return k(Val("ns", i), s)
            if n in ("add_argument_group", "add_mutually_exclusive_group"):
                return k(obj, st)
            if n == "error":
                return bad(st)
            return k(UNKNOWN, st)
        if obj.kind == "vars" and n in ("get", "pop") and \
                a[0].kind == "const":
            return self.option(obj.data[0], a[0].data[0], st, k)
        if obj.kind == "dict" and n == "get":
            for key, x in obj.data[0]:
                if const(key) == a[0]:
                    return k(x, st)
            return k(a[1] if len(a) > 1 else NONE, st)
        if obj.kind in ("const", "unknown", "opt") and n in (
                "format", "strip", "upper", "lower", "startswith", "endswith"):
            return k(Val("strop", obj, n), st)
        self.broken(e, f"unsupported method {n} of {obj}")

    def add_option(self, e, parser, a, kw, st):
        if not all(x.kind == "const" for x in a):
            self.broken(e, "unsupported option")
        flags = [x.data[0] for x in a]
        dest = kw.get("dest")
        if dest is not None:
            dest = dest.data[0]
        else:
            long = [f for f in flags if f.startswith("--")]
            dest = (long or flags)[0].lstrip("-").replace("-", "_")
        action = kw.get("action", const("store")).data[0]
        if action not in ("store", "store_true", "store_false"):
            self.broken(e, f"unsupported option action {action!r}")
        d = kw.get("default", NONE)
        s = st.copy()
        s.heap[parser.data[0]] = s.heap[parser.data[0]] + (
            (dest, action[6:],
             d.data[0] if d.kind == "const" else None),)
        s.facts[("flags", dest)] = tuple(flags)
        return s


def load(repo=REPO):
    p = os.path.join(repo, FILE)
    try:
        return ast.parse(open(p).read())
    except OSError as e:
        raise AnalysisBroken(f"{FILE}: {e}") from None


def truthy(st, v):
    """Truth of an option as assumed along the path, None if free."""
    if ("eq", v) in st.facts and st.facts["eq", v] is not None:
        return bool(st.facts["eq", v].data[0])
    return st.facts.get(("true", v))


def vague(v):
    return v.kind in ("unknown", "strop", "binop") or any(
        isinstance(x, Val) and vague(x) for x in v.data)


def rule(o, seen, entry, path):
    """Typestate rules at the end of one path."""
    st, kind = path
    ev = st.events
    opened = [x[1] for x in ev if x[0] == "open"]
    closed = [x[1] for x in ev if x[0] == "close"]
    writes = [x for x in ev if x[0] == "write"]
    given = {d: st.facts.get(("given", d)) for d in "on"}
    how = ", ".join(f"{k}={v}" for k, v in sorted(
        (str(k), str(v)) for k, v in st.facts.items()
        if k == "argc" or k[0] in ("given", "true", "eq", "ne")))

    def bad(key, text):
        if (entry, key) not in seen:
            seen.add((entry, key))
            o.add(f"{entry}/{key}", f"{FILE}: {entry}(): {text} "
                  f"[on the path where {how or 'always'}]")
    o.obligations += 1
    for f in opened:
        if f not in closed:
            bad("leak", "the output file is not closed"
                + (" when an error occurs" if kind == "raise" else ""))
    if Val("stdout") in closed:
        bad("stdout", "standard output is closed")
    done = set()
    for x in ev:
        if x[0] == "close":
            done.add(x[1])
        elif x[0] == "write" and x[1] in done:
            bad("closed", "a file is written after it was closed")
    if kind == "raise":
        return
    o.obligations += 3
    if len(writes) != 1 or writes[0][2].kind != "verilog":
        bad("once", "the Verilog text is not written exactly once")
        return
    _, to, text = writes[0]
    design, name = text.data
    noargs = st.facts.get("argc", (1, None))[1] == 1
    flag = Val("flag", "f")
    fset = truthy(st, flag)
    if any(v is not None and v.kind == "missing" for v in (to, design, name)):
        bad("missing", "an option is used that does not exist")
        return
    for v in (to, design, name):
        if v is None or vague(v):
            raise AnalysisBroken(f"{FILE}: {entry}(): what is written, or "
                                 "where, does not follow from the options "
                                 f"by any known rule ({v})")
    if noargs:
        if given["n"] or given["o"] or fset:
            return                       # no such run
        if design != Val("design", "Top", const(False)):
            bad("default", "without arguments the design is not Top()")
        if to != Val("stdout"):
            bad("default-out", "without arguments the text does not go to "
                "standard output")
        return
    if fset is None:
        bad("flag", "the -f option does not decide which design is built")
    elif design != Val("design", "FormalTop" if fset else "Top",
                       const(False)):
        bad("design", f"{'with' if fset else 'without'} -f the design is "
            f"{design}")
    n = Val("opt", "n")
    if given["n"] is None and name != const("sentinel") and name != n:
        bad("name", f"the -n option is ignored (name is {name})")
    elif given["n"] is False and name != const("sentinel"):
        bad("name-default", f"without -n the name is {name}")
    elif given["n"] and truthy(st, n) is not False and name != n:
        bad("name-given", f"the name given with -n is not used but {name}")
    on = Val("opt", "o")
    empty = truthy(st, on) is False
    dash = st.facts.get(("eq", on)) == const("-")
    maybe_dash = ("ne", on, const("-")) not in st.facts and not dash
    if given["o"] is None:
        bad("output", "the -o option is ignored")
    elif not given["o"] or dash:
        if to != Val("stdout"):
            bad("output-stdout", "the text does not go to standard output")
    elif not empty:
        if to.kind != "file" or to.data[1] != on or \
                to.data[2] != const("w"):
            bad("output-file", "the text does not go to the file named with "
                f"-o, opened for writing, but to {to}")
        elif maybe_dash:
            bad("output-dash", "'-' is taken for a file name")


def generator(o, tier):
    sys.setrecursionlimit(50000)
    tree = load()
    it = Interp(tree)
    if "generate" not in it.g:
        raise AnalysisBroken(f"{FILE}: generate() is gone")
    seen = set()
    total = 0
    paths = []
    it.g["__name__"] = const("sentinel.gen")
    it.block(it.rest, it.g, State(), lambda st, e, k, v: paths.append(st))
    o.obligations += 1
    if any(st.events for st in paths):
        o.add("import", f"{FILE}: importing the module generates output")
    for entry in ("generate", "_main", "__main__"):
        if entry == "_main" and "_main" not in it.g:
            continue
        paths = []
        if entry == "__main__":
            it.g["__name__"] = const("__main__")
            it.block(it.rest, it.g, State(), lambda st, e, k, v: paths.append(
                (st, "raise" if k == "raise" else "next")))
        else:
            f = it.g[entry].data[0]
            it.invoke(f.node, f, [], {}, State(),
                      lambda v, st: paths.append((st, "next")),
                      lambda st: paths.append((st, "raise")))
        live = [p for p in paths if p[1] == "next"]
        if all(p[0].facts.get("argc", (1, None))[1] == 1 for p in live):
            o.add(f"{entry}/ends", f"{FILE}: {entry}(): no path with "
                  "arguments completes")
        for p in paths:
            rule(o, seen, entry, p)
        for d, flags in (("o", "-o"), ("n", "-n"), ("f", "-f")):
            o.obligations += 1
            if not any(flags in p[0].facts.get(("flags", d), ())
                       for p in live):
                o.add(f"{entry}/{flags}", f"{FILE}: {entry}(): there is no "
                      f"option {flags}")
        total += len(paths)
    o.cover.update(paths=total, call_sites=len(it.sites), entries=3)
