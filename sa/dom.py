"""Value domain of the analysis.

Every wire bit is abstracted by a *canonical* Boolean function (a reduced
ordered decision diagram, so equality of abstract values is pointer equality)
over named dataflow facts ("atoms"): instruction bits, program-counter bits,
words read from the register file, and the bits of opaque arithmetic terms.
Arithmetic is never expanded: a sum is an uninterpreted *value number* whose
key is the normalised linear form of its operands (as in global value
numbering), an unsigned comparison is an atom keyed by its operands.

Nothing here searches for satisfying assignments and nothing is executed: all
questions are answered by equality of canonical forms.
"""
import sys

sys.setrecursionlimit(1_000_000)

FALSE, TRUE = 0, 1

# atom groups (variable order): control facts first, then instruction bits,
# then data bits interleaved by position
G_PRED, G_IN, G_STATE, G_TERM, G_INSN, G_DATA = range(6)
CTRL = G_INSN << 48


class Budget(Exception):
    """A computation created more decision-diagram nodes than allowed."""


class Dom:
    def __init__(self):
        self.cap = 1 << 62
        self.var = [1 << 62, 1 << 62]
        self.lo = [0, 1]
        self.hi = [0, 1]
        self.uniq = {}
        self.itec = {}
        self.negc = {FALSE: TRUE, TRUE: FALSE}
        self.rank = {}          # atom name -> rank
        self.name = {}          # rank -> atom name
        self.serial = 0
        self.words = {}         # canonical bit tuple -> (word id, sign)
        self.wordbits = []      # word id -> bits
        self.linof = {}
        self.composite = set()    # narrow results with their carry         # bit tuple -> (terms tuple, const)
        self.lins = {}          # (width, terms, const) -> bits
        self.supc = {}
        self.deps = {}          # rank of a derived atom -> ranks below it
        self.pure = set()
        self.hoists = {}
        self.tags = {}          # symbol name -> description

    # ---- atoms -----------------------------------------------------------
    def atom(self, name, group=G_DATA, bit=0, ops=None, pure=True):
        """BDD of an atom; ``group``/``bit`` only choose its place in the
        order (control facts first, data bits interleaved by position).
        ``ops``: diagrams the atom is an opaque function of (``pure``: of
        nothing else)."""
        r = self.rank.get(name)
        if r is None:
            if ops is not None:
                r = self.serial + 1 | group << 48 | bit << 32
                s = frozenset().union(*[self.support(o) for o in ops])
                self.deps[r] = s
                if pure:
                    self.pure.add(r)
            self.serial += 1
            r = (group << 48) | (bit << 32) | self.serial
            self.rank[name] = r
            self.name[r] = name
        return self.mk(r, FALSE, TRUE)

    def word(self, name, width, group=G_DATA, ops=None, pure=True):
        return tuple(self.atom((name, i), group, i, ops, pure)
                     for i in range(width))

    # ---- decision diagrams ----------------------------------------------
    def mk(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        n = self.uniq.get(k)
        if n is None:
            n = len(self.var)
            if n > self.cap:
                raise Budget
            self.var.append(v)
            self.lo.append(lo)
            self.hi.append(hi)
            self.uniq[k] = n
        return n

    def within(self, k, fn):
        """fn() if it creates at most ``k`` nodes, else None."""
        keep = self.cap
        self.cap = min(keep, len(self.var) + k)
        try:
            return fn()
        except Budget:
            if len(self.var) >= keep:
                raise
            return None
        finally:
            self.cap = keep

    def not_(self, f):
        n = self.negc.get(f)
        if n is None:
            n = self.mk(self.var[f], self.not_(self.lo[f]),
                        self.not_(self.hi[f]))
            self.negc[f] = n
            self.negc[n] = f
        return n

    def ite(self, f, g, h):
        if f == TRUE:
            return g
        if f == FALSE:
            return h
        if g == h:
            return g
        if g == f:
            g = TRUE
        if h == f:
            h = FALSE
        if g == TRUE and h == FALSE:
            return f
        if g == FALSE and h == TRUE:
            return self.not_(f)
        k = (f, g, h)
        r = self.itec.get(k)
        if r is not None:
            return r
        var = self.var
        vf, vg, vh = var[f], var[g], var[h]
        v = vf
        if vg < v:
            v = vg
        if vh < v:
            v = vh
        if vf == v:
            f0, f1 = self.lo[f], self.hi[f]
        else:
            f0 = f1 = f
        if vg == v:
            g0, g1 = self.lo[g], self.hi[g]
        else:
            g0 = g1 = g
        if vh == v:
            h0, h1 = self.lo[h], self.hi[h]
        else:
            h0 = h1 = h
        r = self.mk(v, self.ite(f0, g0, h0), self.ite(f1, g1, h1))
        self.itec[k] = r
        return r

    def and_(self, f, g):
        if f == FALSE or g == FALSE:
            return FALSE
        if f == TRUE or f == g:
            return g
        if g == TRUE:
            return f
        if f > g:
            f, g = g, f
        return self.ite(f, g, FALSE)

    def or_(self, f, g):
        if f == TRUE or g == TRUE:
            return TRUE
        if f == FALSE or f == g:
            return g
        if g == FALSE:
            return f
        if f > g:
            f, g = g, f
        return self.ite(f, TRUE, g)

    def xor_(self, f, g):
        if f == FALSE:
            return g
        if g == FALSE:
            return f
        if f > g:
            f, g = g, f
        return self.ite(f, self.not_(g), g)

    def xnor(self, f, g):
        return self.not_(self.xor_(f, g))

    def all_(self, xs):
        r = TRUE
        for x in xs:
            r = self.and_(r, x)
            if r == FALSE:
                break
        return r

    def any_(self, xs):
        r = FALSE
        for x in xs:
            r = self.or_(r, x)
            if r == TRUE:
                break
        return r

    def support(self, f):
        """frozenset of atom ranks f depends on."""
        if f <= 1:
            return frozenset()
        s = self.supc.get(f)
        if s is None:
            v = self.var[f]
            s = self.support(self.lo[f]) | self.support(self.hi[f]) | {v}
            if v in self.deps:
                s |= self.deps[v]
            self.supc[f] = s
        return s

    def support_names(self, fs):
        out = set()
        for f in fs:
            for r in self.support(f):
                if r not in self.pure:
                    out.add(self.name[r])
        return out

    def exists(self, f, ranks, cache=None):
        if f <= 1 or not (self.support(f) & ranks):
            return f
        if cache is None:
            cache = {}
        r = cache.get(f)
        if r is None:
            lo = self.exists(self.lo[f], ranks, cache)
            hi = self.exists(self.hi[f], ranks, cache)
            v = self.var[f]
            if v in ranks or not ranks.isdisjoint(self.deps.get(v, ())):
                r = self.or_(lo, hi)
            else:
                r = self.ite(self.mk(self.var[f], FALSE, TRUE), hi, lo)
            cache[f] = r
        return r

    def subst(self, f, m, cache):
        """Replace atoms (rank -> diagram); ``cache`` belongs to ``m``."""
        if f <= 1:
            return f
        r = cache.get(f)
        if r is None:
            lo = self.subst(self.lo[f], m, cache)
            hi = self.subst(self.hi[f], m, cache)
            v = self.var[f]
            c = m.get(v)
            if c is None:
                c = self.mk(v, FALSE, TRUE)
            r = self.ite(c, hi, lo)
            cache[f] = r
        return r

    def restrict(self, f, c, cache=None):
        """Coudert-Madre restrict: a simpler function equal to f wherever
        c holds."""
        if c <= 1 or f <= 1:
            return f
        if cache is None:
            cache = {}
        k = (f, c)
        r = cache.get(k)
        if r is not None:
            return r
        vf, vc = self.var[f], self.var[c]
        if vc < vf:
            r = self.restrict(f, self.or_(self.lo[c], self.hi[c]), cache)
        else:
            if vf == vc:
                c0, c1 = self.lo[c], self.hi[c]
            else:
                c0 = c1 = c
            if c0 == FALSE:
                r = self.restrict(self.hi[f], c1, cache)
            elif c1 == FALSE:
                r = self.restrict(self.lo[f], c0, cache)
            else:
                r = self.mk(vf, self.restrict(self.lo[f], c0, cache),
                            self.restrict(self.hi[f], c1, cache))
        cache[k] = r
        return r

    # ---- words -----------------------------------------------------------
    LEAVES = 400

    def hoist(self, op, fn, words):
        """Apply word operation ``fn`` under a case split on the control
        atoms of its operands, so that its terms range over data only."""
        if op in "+-" and self.composite and \
                any(w in self.composite for w in words) and \
                all(w in self.composite or self.constval(w) is not None
                    for w in words):
            return fn(*words)
        n = self._leaves(words, self.LEAVES)
        if n > self.LEAVES:
            return None
        return self._hoist(op, fn, words)

    def _top(self, words):
        v = CTRL
        var = self.var
        for w in words:
            for b in w:
                if var[b] < v:
                    v = var[b]
        return None if v == CTRL else v

    def _cof(self, words, v):
        var, lo, hi = self.var, self.lo, self.hi
        return (tuple(tuple(lo[b] if var[b] == v else b for b in w)
                      for w in words),
                tuple(tuple(hi[b] if var[b] == v else b for b in w)
                      for w in words))

    def _leaves(self, words, limit):
        seen = set()
        todo = [words]
        n = 0
        while todo:
            w = todo.pop()
            if w in seen:
                continue
            seen.add(w)
            v = self._top(w)
            if v is None:
                n += 1
                if n > limit:
                    break
                continue
            if len(seen) > 8 * limit:
                return limit + 1
            todo.extend(self._cof(w, v))
        return n

    def _hoist(self, op, fn, words):
        k = (op, words)
        r = self.hoists.get(k)
        if r is None:
            v = self._top(words)
            if v is None:
                r = fn(*words)
            else:
                w0, w1 = self._cof(words, v)
                c = self.mk(v, FALSE, TRUE)
                a, b = self._hoist(op, fn, w1), self._hoist(op, fn, w0)
                r = tuple(self.ite(c, x, y) for x, y in zip(a, b))
            self.hoists[k] = r
        return r

    def opaque(self, op, width, words, group=None):
        """Uninterpreted term (used when a case split would be too wide)."""
        if group is None:
            group = G_TERM if width == 1 else G_DATA
        return self.word((op,) + tuple(words), width, group,
                         [b for w in words for b in w])

    def _ripple(self, a, b, c):
        """Exact sum of very narrow words, or narrow words of control facts
        and instruction bits, else None."""
        n = len(a)
        while n and a[n-1] <= 1 and b[n-1] <= 1:
            n -= 1
        k, cy = 0, c
        while k < n:        # below k the carry is constant
            x, y = a[k], b[k]
            if x <= 1 and y <= 1:
                cy = x + y + cy >> 1
            elif x != cy and y != cy:
                break
            k += 1
        if n == 0 or n - k > 3 and (
                n - k > 12 or not self._decoded(a + b)):
            return None
        out = []
        for x, y in zip(a, b):
            h = self.xor_(x, y)
            out.append(self.xor_(h, c))
            c = self.ite(h, c, x)
        return tuple(out)

    def add(self, a, b):
        if len(a) <= 34:
            r = self._ripple(a, b, FALSE)
            if r is not None:
                return r
        r = self.hoist("+", self._add, (a, b))
        return self.opaque("+", len(a), sorted((a, b))) if r is None else r

    def sub(self, a, b):
        if len(a) <= 34:
            r = self._ripple(a, self.bitnot(b), TRUE)
            if r is not None:
                return r
        r = self.hoist("-", self._sub, (a, b))
        return self.opaque("-", len(a), (a, b)) if r is None else r

    def ult(self, a, b):
        r = self.hoist("<", lambda x, y: (self._ult(x, y),), (a, b))
        return (self.opaque("<", 1, (a, b)) if r is None else r)[0]

    def is_zero(self, a):
        r = self.hoist("0", lambda x: (self._is_zero(x),), (a,))
        if r is None and self._decoded(a):
            return self.not_(self.any_(a))
        return (self.opaque("0", 1, (a,)) if r is None else r)[0]

    def eq(self, a, b):
        if len(a) <= 8:
            return self.all_(self.xnor(x, y) for x, y in zip(a, b))
        r = self.hoist("=", lambda x, y: (self._eq(x, y),), (a, b))
        if r is None and self._decoded(a + b):
            return self.all_(self.xnor(x, y) for x, y in zip(a, b))
        return (self.opaque("=", 1, (a, b)) if r is None else r)[0]

    def const(self, v, w):
        return tuple((v >> i) & 1 for i in range(w))

    @staticmethod
    def constval(bits):
        v = 0
        for i, b in enumerate(bits):
            if b == TRUE:
                v |= 1 << i
            elif b != FALSE:
                return None
        return v

    def bitnot(self, bits):
        return tuple(self.not_(b) for b in bits)

    def mux(self, c, a, b):
        return tuple(self.ite(c, x, y) for x, y in zip(a, b))

    def _lin(self, bits):
        """(terms, const) of a word; terms is a dict word id -> coeff."""
        w = len(bits)
        m = (1 << w) - 1
        c = self.constval(bits)
        if c is not None:
            return {}, c
        l = self.linof.get(bits)
        if l is not None:
            return dict(l[0]), l[1]
        nb = self.bitnot(bits)
        l = self.linof.get(nb)
        if l is not None:
            # ~x == -x - 1
            return {k: -v & m for k, v in l[0]}, (-l[1] - 1) & m
        # a zero-extended word is a term of its own (narrower) word, and so
        # is the complement of one
        if bits[-1] == TRUE:
            t, c = self._lin(nb)
            return {k: -v & m for k, v in t.items()}, (-c - 1) & m
        n = w
        while bits[n-1] == FALSE:
            n -= 1
        bits, nb = bits[:n], nb[:n]
        if bits in self.words:
            wid, pos = self.words[bits]
        else:
            wid = len(self.wordbits)
            self.wordbits.append(bits)
            self.words[bits] = (wid, True)
            self.words[nb] = (wid, False)
            pos = True
        if pos:
            return {wid: 1}, 0
        return {wid: m}, (1 << n) - 1

    def _zx(self, bits, w):
        return tuple(bits) + (FALSE,) * (w - len(bits))

    def _narrow(self, terms, c, w):
        """Canonical bits of a sum or difference of two operands that are
        both zero-extended: the narrow result and its carry or borrow."""
        m = (1 << w) - 1
        ts = list(terms.items())
        if len(ts) > 2 or any(v not in (1, m) for _, v in ts):
            return None
        pos = [self.wordbits[k] for k, v in ts if v == 1]
        neg = [self.wordbits[k] for k, v in ts if v == m]
        n = max(len(x) for x in pos + neg)
        if n >= w:
            return None
        if len(ts) == 2 and c == m and pos and neg:
            pos, neg, c, inv = neg, pos, 0, True
        elif len(ts) == 1 and neg and c >> n == m >> n:
            # -A + c = ~(A + ~c)
            pos, neg, c, inv = neg, [], m - c, True
        else:
            inv = False
        up = 0
        if len(ts) == 2 and pos and neg and not inv:
            up, c = c >> n, c & (1 << n) - 1
        if len(ts) == 1 and 0 < c < 1 << n:
            pos.append(self.const(c, n))
        elif len(ts) == 1 and pos and 0 < (-c & m) <= 1 << n - 1:
            neg.append(self.const(-c & m, n))
        elif c:
            return None
        if len(pos) == 2:
            r = self._add(self._zx(pos[0], w), self._zx(pos[1], w))
        elif len(pos) == 1 and len(neg) == 1:
            r = self._sub(self._zx(pos[0], w), self._zx(neg[0], w))
            if up:
                # the bits above are the borrow, all equal
                k = w - n
                r = r[:n] + self.mux(r[n], self.const(up - 1, k),
                                     self.const(up, k))
        else:
            return None
        return self.bitnot(r) if inv else r

    def _from_lin(self, terms, c, w):
        m = (1 << w) - 1
        terms = {k: v & m for k, v in terms.items() if v & m}
        c &= m
        if not terms:
            return self.const(c, w)
        if len(terms) == 1:
            (k, v), = terms.items()
            x = self.wordbits[k]
            if v == 1 and c == 0:
                return self._zx(x, w)
            if v == m and c == m:
                return self.bitnot(self._zx(x, w))
            if v == m and c == (1 << len(x)) - 1:
                return self._zx(self.bitnot(x), w)
        t = tuple(sorted(terms.items()))
        r = self._narrow(terms, c, w)
        if r is not None:
            self.linof.setdefault(r, (t, c))
            self.composite.add(r)
            self.composite.add(self.bitnot(r))
            return r
        key = (w, t, c)
        bits = self.lins.get(key)
        if bits is None:
            # prefer an existing complement: ~x = -x-1
            ct = tuple(sorted((k, -v & m) for k, v in terms.items()))
            ckey = (w, ct, (-c - 1) & m)
            if ckey in self.lins:
                bits = self.bitnot(self.lins[ckey])
            else:
                n = ("lin", len(self.lins))
                bits = self.word(n, w, ops=[
                    x for k in terms for x in self.wordbits[k]])
                self.tags[n] = (t, c)
                self.lins[key] = bits
                self.linof[bits] = (t, c)
        return bits

    def _strip(self, a, b):
        """Number of low positions where addition cannot carry."""
        k = 0
        for x, y in zip(a, b):
            if x == FALSE or y == FALSE:
                k += 1
            else:
                break
        return k

    def _add(self, a, b):
        w = len(a)
        assert len(b) == w
        # effective width: above it both operands are zero-extended
        m = w
        while m > 0 and a[m-1] == FALSE and b[m-1] == FALSE:
            m -= 1
        if m < w:
            lo = self._addsub(a[:m], b[:m], False)
            if m == 0:
                return (FALSE,) * w
            carry = self.carry(a[:m], b[:m])
            r = lo + (carry,) + (FALSE,) * (w - m - 1)
            if self.constval(a) is None and self.constval(b) is None and \
                    r not in self.linof:
                t, c = self._lin(a)
                for k, v in self._lin(b)[0].items():
                    t[k] = t.get(k, 0) + v
                c += self._lin(b)[1]
                x = (1 << w) - 1
                t = {k: v & x for k, v in t.items() if v & x}
                if t:
                    self.linof[r] = tuple(sorted(t.items())), c & x
                    self.composite.add(r)
                    self.composite.add(self.bitnot(r))
            return r
        return self._addsub(a, b, False)

    def _addsub(self, a, b, neg):
        w = len(a)
        if w == 0:
            return ()
        if not neg:
            k = self._strip(a, b)
        else:
            k = 0
            while k < w and b[k] == FALSE:
                k += 1
        if k:
            low = tuple(self.or_(x, y) for x, y in zip(a[:k], b[:k]))
            if k == w:
                return low
            return low + self._addsub(a[k:], b[k:], neg)
        # constant low bits (a carry put in below the operands)
        low, cy, k = [], 0, 0
        while k < w and a[k] <= 1 and b[k] <= 1:
            v = a[k] + (-b[k] if neg else b[k]) + cy
            low.append(v & 1)
            cy = v >> 1
            k += 1
        a, b, w = a[k:], b[k:], w - k
        if w == 0:
            return tuple(low)
        if a == b and not cy:
            return tuple(low) + ((FALSE,) * w if neg else (FALSE,) + a[:-1])
        ta, ca = self._lin(a)
        tb, cb = self._lin(b)
        ca += cy
        s = -1 if neg else 1
        for kk, v in tb.items():
            ta[kk] = ta.get(kk, 0) + s * v
        return tuple(low) + self._from_lin(ta, ca + s * cb, w)

    def carry(self, a, b):
        """a + b >= 2^n exactly if ~b < a."""
        if not any(a) or not any(b):
            return FALSE
        if a == b:
            return a[-1]
        return self.ult(self.bitnot(b), a)

    def _sub(self, a, b):
        w = len(a)
        m = w
        while m > 0 and a[m-1] == FALSE and b[m-1] == FALSE:
            m -= 1
        if m < w:
            lo = self._addsub(a[:m], b[:m], True)
            br = self.ult(a[:m], b[:m])
            return lo + (br,) * (w - m)
        # sign-extended operands: result top bit is the signed comparison
        if w >= 2 and a[w-1] == a[w-2] and b[w-1] == b[w-2]:
            lo = self._addsub(a[:w-1], b[:w-1], True)
            return lo + (self.slt(a[:w-1], b[:w-1]),)
        return self._addsub(a, b, True)

    def neg(self, a):
        return self._addsub((FALSE,) * len(a), a, True)

    def _ult(self, a, b):
        # strip equal top bits
        n = len(a)
        while n and a[n-1] == b[n-1]:
            n -= 1
        a, b = a[:n], b[:n]
        if n == 0:
            return FALSE
        ca, cb = self.constval(a), self.constval(b)
        if ca is not None and cb is not None:
            return int(ca < cb)
        if cb == 0 or ca == (1 << n) - 1:
            return FALSE
        if cb == (1 << n) - 1:
            return self.not_(self.is_zero(self.bitnot(a)))
        if cb == 1:
            return self.is_zero(a)
        if ca == 0:
            return self.not_(self.is_zero(b))
        if n <= 8 or (ca is not None or cb is not None) and \
                self._simple(a) and self._simple(b):
            r = FALSE
            for x, y in zip(a, b):
                r = self.ite(self.xor_(x, y), y, r)
            return r
        # both top bits inverted <-> signed comparison: the key is the operand
        # pair; a < b exactly if ~b < ~a
        a, b = min((a, b), (self.bitnot(b), self.bitnot(a)))
        return self.atom(("ult", a, b), G_TERM, 0, a + b)

    def slt(self, a, b):
        a2 = a[:-1] + (self.not_(a[-1]),)
        b2 = b[:-1] + (self.not_(b[-1]),)
        return self.ult(a2, b2)

    def _simple(self, bits):
        """No bit is part of an opaque linear symbol."""
        return self.linof.get(bits) is None and \
            self.linof.get(self.bitnot(bits)) is None

    def table(self, bits, vals):
        """Selection ``vals[bits]`` by Shannon expansion."""
        memo = {}

        def rec(i, t):
            first = t[0]
            if all(x == first for x in t):
                return first
            k = (i, t)
            r = memo.get(k)
            if r is None:
                h = len(t) >> 1
                b = bits[i]
                if b == TRUE:
                    r = rec(i - 1, t[h:])
                elif b == FALSE:
                    r = rec(i - 1, t[:h])
                else:
                    r = self.ite(b, rec(i - 1, t[h:]), rec(i - 1, t[:h]))
                memo[k] = r
            return r
        return rec(len(bits) - 1, vals)

    def _is_zero(self, bits):
        n = len(bits)
        while n and bits[n-1] == FALSE:
            n -= 1
        bits = bits[:n]
        if TRUE in bits:
            return FALSE
        if n == 0:
            return TRUE
        if not self._simple(bits):
            t, c = self._lin(bits)
            return self._eq0(t, c, n)
        if not self._literals(bits) and not self._decoded(bits):
            return self.atom(("eq0", bits), G_TERM, 0, bits)
        return self.not_(self.any_(bits))

    def _decoded(self, bits):
        """Every bit depends on control facts and instruction bits only."""
        top = G_DATA << 48
        return all(max(self.support(b), default=0) < top for b in bits)

    def _literals(self, bits):
        """Every bit is one (possibly negated) atom or a constant, or the
        word is narrow."""
        return len(bits) <= 8 or all(
            b <= 1 or (self.lo[b] <= 1 and self.hi[b] <= 1) for b in bits)

    def _eq0(self, t, c, w):
        m = (1 << w) - 1
        a = (tuple(sorted(t.items())), c & m)
        b = (tuple(sorted((k, -v & m) for k, v in t.items())), -c & m)
        return self.atom(("eq0", w, min(a, b)), G_TERM, 0,
                         [x for k in t for x in self.wordbits[k]])

    def _eq(self, a, b):
        ca, cb = self.constval(a), self.constval(b)
        if ca is not None and cb is not None:
            return int(ca == cb)
        if ca is None and cb is None:
            w = len(a)
            if w <= 8:
                return self.all_(self.xnor(x, y) for x, y in zip(a, b))
            ta, c1 = self._lin(a)
            tb, c2 = self._lin(b)
            m = (1 << w) - 1
            for k, v in tb.items():
                ta[k] = (ta.get(k, 0) - v) & m
            ta = {k: v for k, v in ta.items() if v}
            c = (c1 - c2) & m
            if not ta:
                return int(c == 0)
            return self._eq0(ta, c, w)
        if ca is not None:
            a, b, ca, cb = b, a, cb, ca
        if self._simple(a):
            return self.all_(x if (cb >> i) & 1 else self.not_(x)
                             for i, x in enumerate(a))
        if cb == 0:
            return self.is_zero(a)
        t, c = self._lin(a)
        return self._eq0(t, c - cb, len(a))

    def describe(self, f, limit=6):
        """Short human-readable rendering of one bit."""
        if f <= 1:
            return str(f)
        names = sorted(map(repr, self.support_names([f])))
        s = ", ".join(n if len(n) < 60 else n[:57] + "..."
                      for n in names[:limit])
        return f"f({s}{', ...' if len(names) > limit else ''})"


class TernDom(Dom):
    """Three-valued collapse (0, 1, unknown) of the same operators, for the
    flow-insensitive constant propagation."""
    X = 2

    def __init__(self):
        super().__init__()

    def atom(self, name, group=5, bit=0, ops=None, pure=True):
        return 2

    def not_(self, f):
        return 2 if f == 2 else 1 - f

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        return g if g == h else 2

    def and_(self, f, g):
        if f == 0 or g == 0:
            return 0
        return 1 if f == 1 and g == 1 else 2

    def or_(self, f, g):
        if f == 1 or g == 1:
            return 1
        return 0 if f == 0 and g == 0 else 2

    def xor_(self, f, g):
        return 2 if 2 in (f, g) else f ^ g

    @staticmethod
    def constval(bits):
        v = 0
        for i, b in enumerate(bits):
            if b == 2:
                return None
            v |= b << i
        return v

    def add(self, a, b):
        ca, cb = self.constval(a), self.constval(b)
        w = len(a)
        if ca is None or cb is None:
            if ca == 0:
                return b
            if cb == 0:
                return a
            return (2,) * w
        return self.const(ca + cb, w)

    def sub(self, a, b):
        ca, cb = self.constval(a), self.constval(b)
        w = len(a)
        if ca is None or cb is None:
            return a if cb == 0 else (2,) * w
        return self.const(ca - cb, w)

    def neg(self, a):
        return self.sub((0,) * len(a), a)

    def ult(self, a, b):
        ca, cb = self.constval(a), self.constval(b)
        return 2 if ca is None or cb is None else int(ca < cb)

    def is_zero(self, bits):
        if 1 in bits:
            return 0
        return 2 if 2 in bits else 1

    def eq(self, a, b):
        if any(x + y == 1 and x != 2 and y != 2 for x, y in zip(a, b)):
            return 0
        return 2 if 2 in a or 2 in b else 1

    def all_(self, xs):
        xs = list(xs)
        return 0 if 0 in xs else 2 if 2 in xs else 1

    def any_(self, xs):
        xs = list(xs)
        return 1 if 1 in xs else 2 if 2 in xs else 0
