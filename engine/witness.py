"""Constant propagation from chosen entry facts.

When the abstract domain cannot relate two terms (or cannot tell whether a path
is admitted), the terms are folded under assignments of boundary constants to the
input components they mention.  One assignment that satisfies every condition of
the path and separates the terms refutes their equality; without one the question
stays undecided."""
import itertools
import random

from terms import *


class Unk(Exception):
    pass


LENS = [0, 1, 2, 3, 7, 8, 9, 250, 251, 300, 65535, 65536, 70000, 1 << 20]
BYTESEQ = {'std::string::String', 'bytes::Bytes'}


def domain(I, st, t):
    k = t[0]
    if k == 'len':
        return LENS
    if k == 'sz':
        import models as Mo
        n = Mo.const_size(I, st, t[1], t[3])
        if n is not None:
            return [n]
        if t[1][0] == 'prim':
            z = Mo.some_sizes(I, st, t[1], t[3])
            if z:
                return sorted(z)
        if t[1][0] == 'adt' and t[1][1] in BYTESEQ:
            return [9, 20, 200, 70009, 200000, 1 << 20]
        raise Unk('size of %s' % (t[1],))
    lo, hi = I.rng(t, None) if False else base_rng(I, t)
    if lo is None:
        raise Unk('no range for %s' % tshow(t))
    c = {lo, hi, 0, 1, 2, 3, 5, 127, 128, 250, 251, 252, 255, 256, 65535, 65536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 63) - 1, 1 << 63,
         (1 << 64) - 1, 1 << 64, (5 << 64) | (1 << 63), -1, -2, -128, -129, -(1 << 31), -(1 << 63), 0x0123456789abcdef, 0x0102030405060708090a0b0c0d0e0f10}
    return sorted(x for x in c if lo <= x <= hi)


def base_rng(I, t):
    p = I.termty.get(t)
    if p in W:
        return prim_range(p)
    return None, None


ATOM = ('p', 'fld', 'idx', 'item', 'len', 'sz', 'disc')


def wrap(p, n):
    if p == 'bool':
        return n & 1
    w = W.get(p)
    if w is None:
        raise Unk('cast to %s' % p)
    n &= (1 << w) - 1
    if p[0] == 'i' and n >> (w - 1):
        n -= 1 << w
    return n


class Ev:
    def __init__(self, I, st):
        self.I, self.st, self.env, self.new = I, st, {}, None

    def atom(self, t):
        if t in self.env:
            return self.env[t]
        self.new = t
        raise KeyError(t)

    def ev(self, t):
        k = t[0]
        if k == 'c':
            return t[1]
        if k == 'lin':
            return t[1] + sum(c * self.ev(x) for x, c in t[2])
        if k == 'mul':
            return self.ev(t[1]) * self.ev(t[2])
        if k == 'cast':
            return wrap(t[1], self.ev(t[2]))
        if k == 'byte':
            return (self.ev(t[1]) >> (8 * t[2])) & 255
        if k == 'op':
            return self.op(t)
        if k == 'frombytes':
            bs = t[2]
            if bs[0] != 'agg':
                raise Unk('bytes')
            v = [self.ev(x) & 255 for x in bs[3]]
            if len(t) > 3 and t[3] == 'be':
                v = v[::-1]
            return wrap(t[1], sum(b << (8 * i) for i, b in enumerate(v)))
        if k in ATOM:
            return self.atom(t)
        raise Unk(k)

    def op(self, t):
        n, p = t[1], t[2]
        a = [self.ev(x) for x in t[3:]]
        if n == 'BitXor':
            r = a[0] ^ a[1]
        elif n == 'BitOr':
            r = a[0] | a[1]
        elif n == 'BitAnd':
            r = a[0] & a[1]
        elif n == 'Shl':
            r = a[0] << (a[1] % max(W.get(p, 64), 1))
        elif n == 'Shr':
            r = a[0] >> (a[1] % max(W.get(p, 64), 1))
        elif n == 'Not':
            r = 1 - a[0] if p == 'bool' else ~a[0]
        elif n == 'Neg':
            r = -a[0]
        elif n in ('Add', 'Sub', 'Mul'):
            r = a[0] + a[1] if n == 'Add' else a[0] - a[1] if n == 'Sub' else a[0] * a[1]
        elif n in ('Div', 'Rem', 'DivCeil'):
            if a[1] == 0:
                raise Unk('division by zero')
            q = abs(a[0]) // abs(a[1])
            q = q if (a[0] < 0) == (a[1] < 0) else -q
            r = q if n == 'Div' else a[0] - q * a[1] if n == 'Rem' else -(-a[0] // a[1])
        elif n in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'):
            return int(CMP[n](a[0], a[1]))
        else:
            raise Unk(n)
        return wrap(p, r)


CMP = {'Lt': lambda a, b: a < b, 'Le': lambda a, b: a <= b, 'Gt': lambda a, b: a > b, 'Ge': lambda a, b: a >= b, 'Eq': lambda a, b: a == b, 'Ne': lambda a, b: a != b}


def cond(E, c):
    k = c[0]
    if k == 'cmp':
        return CMP[c[1]](E.ev(c[2]), E.ev(c[3]))
    if k in ('isv', 'notv'):
        if E.I.is_free(c[1]):
            return True
        raise Unk('variant of %s' % tshow(c[1]))
    if k in ('tyeq', 'tyne'):
        return True
    if k == 'next':
        return True
    if k in ('true', 'false') and len(c) == 2:
        return bool(E.ev(c[1])) == (k == 'true')
    raise Unk(k)


def overlapping(env):
    """two atoms one of which is a component of the other are not independent choices"""
    ts = list(env)
    for a in ts:
        inner = a[2] if a[0] == 'sz' else a[1] if a[0] in ('len', 'byte', 'disc') else None
        for b in ts:
            if a is b:
                continue
            if inner is not None and (b == inner or mentions(b, lambda x: x == inner)):
                return True
            if a[0] in ('p', 'fld', 'idx', 'item') and b[0] == 'fld' and mentions(b[1], lambda x: x == a):
                return True
    return False


def search(I, st, goal, limit=3000):
    """an assignment satisfying the path conditions and goal(E), or None"""
    E = Ev(I, st)
    conds = [c for c in st.conds]
    if any(c[0] == 'next' for c in conds):
        return None
    doms = {}
    # discover atoms
    for _ in range(64):
        E.new = None
        try:
            for c in conds:
                cond(E, c)
            goal(E)
            break
        except KeyError:
            t = E.new
            if t is None:
                return None
            try:
                doms[t] = domain(I, st, t)
            except Unk:
                return None
            if not doms[t]:
                return None
            E.env[t] = doms[t][len(doms[t]) // 2]
        except Unk:
            return None
    else:
        return None
    if overlapping(doms):
        return None
    atoms = list(doms)
    total = 1
    for t in atoms:
        total *= len(doms[t])
    if total <= limit:
        it = itertools.product(*[doms[t] for t in atoms])
    else:
        r = random.Random(1)
        it = (tuple(r.choice(doms[t]) for t in atoms) for _ in range(limit))
    for vals in it:
        E.env = dict(zip(atoms, vals))
        try:
            if all(cond(E, c) for c in conds) and goal(E):
                return E.env
        except (Unk, KeyError):
            continue
    return None


def feasible(I, st):
    return st.free or search(I, st, lambda E: True) is not None


def differ(I, st, a, b):
    """assignment under which the two integer terms differ on this path"""
    return search(I, st, lambda E: E.ev(a) != E.ev(b))


def decide(I, st, a, b, d=0):
    """I.equal, with undecided integer components refuted where a witness exists.
    Returns True / False / None; the second result tells whether the path was shown admitted"""
    e = I.equal(st, a, b)
    if e is not None or d > 6:
        return e, st.free
    a, b = I.nf(st, a), I.nf(st, b)
    x, y = (a, b) if a[0] == 'agg' else (b, a)
    if x[0] == 'agg':
        if y[0] == 'agg' and (len(y[3]) != len(x[3]) or y[2] != x[2]):
            return None, st.free
        for i, f in enumerate(x[3]):
            if x[1] == 'array':
                g = y[3][i] if y[0] == 'agg' else I.index(st, y, C(i))
            else:
                g = y[3][i] if y[0] == 'agg' else ('fld', y, x[2], i)
            e, fr = decide(I, st, f, g, d + 1)
            if e is False:
                return False, fr
        return None, st.free
    if differ(I, st, a, b) is not None:
        return False, True
    return None, st.free
