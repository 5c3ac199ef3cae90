#!/usr/bin/env python3
"""Maintenance tool (never used by a check): the algebra of sa/dom.py against
integer arithmetic.  Random expressions over small words are built in the
domain; every result bit is then evaluated, opaque terms by the meaning of
their names, and compared with the integers.

    domtest.py [ROUNDS] [SEED]
"""
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(100000)
from sa.dom import Dom, G_INSN                                       # noqa: E402


class Eval:
    def __init__(self, D, env):
        self.D, self.env, self.memo = D, env, {0: 0, 1: 1}

    def bits(self, bs):
        return sum(self.bit(b) << i for i, b in enumerate(bs))

    def bit(self, f):
        D = self.D
        r = self.memo.get(f)
        if r is None:
            v = self.atom(D.name[D.var[f]])
            r = self.memo[f] = self.bit(D.hi[f] if v else D.lo[f])
        return r

    def lin(self, t, c, w):
        return (c + sum(v * self.bits(self.D.wordbits[k])
                        for k, v in t)) & (1 << w) - 1

    def atom(self, n):
        D = self.D
        if n[0] == "ult":
            return int(self.bits(n[1]) < self.bits(n[2]))
        if n[0] == "eq0":
            if len(n) == 2:
                return int(self.bits(n[1]) == 0)
            return int(self.lin(*n[2], n[1]) == 0)
        if isinstance(n[0], tuple):
            k, i = n
            if k[0] == "lin":
                t, c = D.tags[k]
                w = next(x[0] for x, b in D.lins.items()
                         if x[1:] == (t, c) and b[i:] and
                         D.name[D.var[b[i]]] == n)
                return self.lin(t, c, w) >> i & 1
            if k[0] in "+-":
                a, b = (self.bits(x) for x in k[1:])
                return (a + b if k[0] == "+" else a - b) >> i & 1
            if k[0] == "<":
                return int(self.bits(k[1]) < self.bits(k[2]))
            if k[0] == "0":
                return int(self.bits(k[1]) == 0)
            if k[0] == "=":
                return int(self.bits(k[1]) == self.bits(k[2]))
            return self.env[k[0]] >> i & 1
        raise KeyError(n)


def build(rnd, D, pool, steps):
    """pool: list of (bits, function of env)."""
    for _ in range(steps):
        a, fa = rnd.choice(pool)
        b, fb = rnd.choice(pool)
        op = rnd.choice("++++----<<=0~&|^mzscpkt")
        w = max(len(a), len(b))
        M = (1 << w) - 1
        if op in "+-<=&|^m":
            sx = rnd.random() < .25

            def ext(x, w=w, sx=sx):
                return tuple(x) + ((x[-1],) if sx else (0,)) * (w - len(x))

            def val(f, x, w=w, sx=sx):
                n = len(x)
                def g(e):
                    v = f(e)
                    if sx and v >> n - 1 & 1:
                        v |= (1 << w) - (1 << n)
                    return v
                return g
            fa, fb = val(fa, a), val(fb, b)
            a, b = ext(a), ext(b)
        if op == "+":
            r = D.add(a, b), lambda e, M=M, fa=fa, fb=fb: fa(e) + fb(e) & M
        elif op == "-":
            r = D.sub(a, b), lambda e, M=M, fa=fa, fb=fb: fa(e) - fb(e) & M
        elif op == "<":
            r = (D.ult(a, b),), lambda e, fa=fa, fb=fb: int(fa(e) < fb(e))
        elif op == "=":
            r = (D.eq(a, b),), lambda e, fa=fa, fb=fb: int(fa(e) == fb(e))
        elif op == "0":
            r = (D.is_zero(a),), lambda e, fa=fa: int(fa(e) == 0)
        elif op == "~":
            m = (1 << len(a)) - 1
            r = D.bitnot(a), lambda e, m=m, fa=fa: fa(e) ^ m
        elif op == "&":
            r = (tuple(map(D.and_, a, b)),
                 lambda e, fa=fa, fb=fb: fa(e) & fb(e))
        elif op == "|":
            r = (tuple(map(D.or_, a, b)),
                 lambda e, fa=fa, fb=fb: fa(e) | fb(e))
        elif op == "^":
            r = (tuple(map(D.xor_, a, b)),
                 lambda e, fa=fa, fb=fb: fa(e) ^ fb(e))
        elif op == "m":
            c, fc = rnd.choice(pool)
            i = rnd.randrange(len(c))
            r = (D.mux(c[i], a, b), lambda e, i=i, fa=fa, fb=fb, fc=fc:
                 fa(e) if fc(e) >> i & 1 else fb(e))
        elif op == "z":
            n = rnd.randint(1, 2)
            r = tuple(a) + (0,) * n, fa
        elif op == "s":
            lo = rnd.randrange(len(a))
            hi = rnd.randint(lo + 1, len(a))
            r = a[lo:hi], (lambda e, lo=lo, n=hi - lo, fa=fa:
                           fa(e) >> lo & (1 << n) - 1)
        elif op == "c":
            n = len(a)
            r = (tuple(a) + tuple(b), lambda e, n=n, fa=fa, fb=fb:
                 fa(e) | fb(e) << n)
        elif op == "p":
            v = rnd.randrange(4)
            r = ((v & 1, v >> 1) + tuple(a),
                 lambda e, v=v, fa=fa: v | fa(e) << 2)
        elif op == "k":
            v = rnd.choice([0, 1, (1 << len(a)) - 1, rnd.getrandbits(len(a))])
            r = D.const(v, len(a)), lambda e, v=v: v
        else:
            m = 1 << len(a) - 1
            r = (tuple(a[:-1]) + (D.not_(a[-1]),),
                 lambda e, m=m, fa=fa: fa(e) ^ m)
        if len(r[0]) <= 12:
            pool.append(r)


def main():
    n = int((sys.argv[1:] or [400])[0])
    seed = int((sys.argv[2:] or [1])[0])
    bad = bits = 0
    for k in range(n):
        rnd = random.Random(seed * 1000003 + k)
        D = Dom()
        base = {"x": 4, "y": 4, "z": 3, "v": 9, "u": 9}
        pool = []
        for nm, w in base.items():
            pool.append((D.word((nm,), w), lambda e, nm=nm: e[nm]))
        # a control word, on which terms are split
        pool.append((tuple(D.atom((("q",), i), 1, i) for i in range(2)),
                     lambda e: e["q"]))
        # instruction bits: exact arithmetic
        pool.append((tuple(D.atom((("i",), i), G_INSN, i) for i in range(5)),
                     lambda e: e["i"]))
        build(rnd, D, pool, 40)
        for _ in range(12):
            e = {nm: rnd.choice([0, 1, (1 << w) - 1, 1 << w - 1,
                                 rnd.getrandbits(w)])
                 for nm, w in (base | {"q": 2, "i": 5}).items()}
            E = Eval(D, e)
            for b, f in pool:
                bits += len(b)
                g, w = E.bits(b), f(e)
                if g != w:
                    bad += 1
                    print(f"round {k}: {len(b)} bits, {e}: {g} != {w}")
                    break
            else:
                continue
            break
    print(f"{n} rounds, {bits} bits, {bad} wrong")
    sys.exit(bad > 0)


main()
