"""Convex polyhedra over integer terms: entailment by Fourier-Motzkin elimination.

A constraint is (coefficients, constant) standing for  sum(c * x) + constant <= 0."""
from fractions import Fraction

from terms import *

MAX = 400


class Poly:
    def __init__(self, I, st):
        self.I, self.st = I, st
        self.cs = []
        self.seen = {}
        self.todo = []

    # ---- terms
    def lin(self, t):
        """-> (coefficients, constant); other terms become dimensions of their own"""
        if t[0] == 'c' and isinstance(t[1], int):
            return {}, t[1]
        if t[0] == 'lin':
            co, k = {}, t[1]
            for x, c in t[2]:
                a, b = self.lin(x)
                k += c * b
                for y, d in a.items():
                    co[y] = co.get(y, 0) + c * d
            return {y: d for y, d in co.items() if d}, k
        if t[0] == 'mul' and t[1][0] == 'c':
            return self.scaled(t[2], t[1][1])
        if t[0] == 'mul' and t[2][0] == 'c':
            return self.scaled(t[1], t[2][1])
        if t[0] == 'cast' and t[1] in ('usize', 'u64', 'i64', 'isize', 'u128', 'i128'):
            return self.lin(t[2])
        if t not in self.seen:
            self.seen[t] = True
            p = self.I.termty.get(t)
            if t[0] in ('len', 'left', 'phi', 'op') and (p is None or p[0] == 'u'):
                self.cs.append(({t: -1}, 0))
            elif p and p[0] == 'u':
                self.cs.append(({t: -1}, 0))
            if t[0] in ('max', 'min') and len(t) == 3:
                s = 1 if t[0] == 'max' else -1
                for y in t[1:]:
                    a, k = self.lin(y)
                    co = {z: s * d for z, d in a.items()}
                    co[t] = co.get(t, 0) - s
                    self.cs.append((co, s * k))
            if t[0] == 'op' and t[1] in ('Div', 'Shr') and t[4][0] == 'c':
                d = t[4][1] if t[1] == 'Div' else 1 << t[4][1]
                a, k = self.lin(t[3])
                if d > 0 and self.nonneg(a, k):
                    up = dict(a)
                    up[t] = up.get(t, 0) - d
                    self.cs.append((up, k - d + 1))                   # a - d*q <= d-1
                    lo = {y: -c for y, c in a.items()}
                    lo[t] = lo.get(t, 0) + d
                    self.cs.append((lo, -k))                          # d*q <= a
        return {t: 1}, 0

    def scaled(self, t, c):
        a, k = self.lin(t)
        return {y: c * d for y, d in a.items()}, c * k

    def diff(self, a, b):
        x, j = self.lin(a)
        y, k = self.lin(b)
        co = dict(x)
        for z, d in y.items():
            co[z] = co.get(z, 0) - d
        return {z: d for z, d in co.items() if d}, j - k

    def nonneg(self, co, k):
        return self.infeasible([({y: c for y, c in co.items()}, k + 1)])   # co + k <= -1 impossible

    # ---- facts
    def add(self, op, a, b):
        co, k = self.diff(a, b)
        neg = ({y: -c for y, c in co.items()}, -k)
        if op == 'Le':
            self.cs.append((co, k))
        elif op == 'Lt':
            self.cs.append((co, k + 1))
        elif op == 'Ge':
            self.cs.append(neg)
        elif op == 'Gt':
            self.cs.append((neg[0], neg[1] + 1))
        elif op == 'Eq':
            self.cs += [(co, k), neg]
        elif op == 'Ne':
            self.todo.append((co, k))

    def settle(self):
        """x != y with x <= y known is x < y"""
        for co, k in self.todo:
            neg = ({y: -c for y, c in co.items()}, -k)
            if self.infeasible([(neg[0], neg[1] + 1)]):      # co + k >= 1 impossible
                self.cs.append((co, k + 1))
            elif self.infeasible([(co, k + 1)]):
                self.cs.append((neg[0], neg[1] + 1))
        self.todo = []

    def conds(self, cs):
        for c in cs:
            if c[0] == 'cmp':
                self.add(*c[1:])
            elif c[0] in ('true', 'false') and c[1][0] == 'cmp':
                o = c[1] if c[0] == 'true' else ('cmp', self.I.NEG[c[1][1]], c[1][2], c[1][3])
                self.add(*o[1:])
        self.settle()

    # ---- questions
    def holds(self, op, a, b):
        co, k = self.diff(a, b)
        neg = ({y: -c for y, c in co.items()}, -k)
        if op == 'Le':
            return self.infeasible([(neg[0], neg[1] + 1)])
        if op == 'Lt':
            return self.infeasible([neg])
        if op == 'Ge':
            return self.infeasible([(co, k + 1)])
        if op == 'Gt':
            return self.infeasible([(co, k)])
        if op == 'Eq':
            return self.infeasible([(neg[0], neg[1] + 1)]) and self.infeasible([(co, k + 1)])
        return False

    def empty(self):
        return self.infeasible([])

    def infeasible(self, extra):
        cs = {}

        def put(co, k):
            co = {y: c for y, c in co.items() if c}
            if not co:
                return k > 0
            m = max(abs(c) for c in co.values())
            key = tuple(sorted(((y, Fraction(c) / m) for y, c in co.items()), key=lambda z: repr(z[0])))
            k = Fraction(k) / m
            if key not in cs or cs[key] < k:
                cs[key] = k
            return False

        for co, k in self.cs + extra:
            if put(co, k):
                return True
        while cs:
            vs = {}
            for key in cs:
                for y, c in key:
                    p, n = vs.get(y, (0, 0))
                    vs[y] = (p + (c > 0), n + (c < 0))
            y = min(vs, key=lambda v: (vs[v][0] * vs[v][1] - vs[v][0] - vs[v][1], repr(v)))
            pos, neg, rest = [], [], []
            for key, k in cs.items():
                c = dict(key).get(y, 0)
                (pos if c > 0 else neg if c < 0 else rest).append((dict(key), k, c))
            cs = {}
            for co, k, c in rest:
                put(co, k)
            for a, j, c in pos:
                for b, k, d in neg:
                    co = {}
                    for z, v in a.items():
                        co[z] = co.get(z, 0) + v / c
                    for z, v in b.items():
                        co[z] = co.get(z, 0) + v / -d
                    co.pop(y, None)
                    if put(co, j / c + k / -d):
                        return True
            if len(cs) > MAX:
                return False
        return False
