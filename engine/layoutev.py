"""Constant propagation over inferred layouts: a layout, and what a reader computed from it, are
folded for a container of a chosen number of entries with chosen encoded sizes.  Byte strings become
runs (which entry's encoding, from which byte to which), offsets numbers.  One choice that
satisfies the conditions of the path and separates two terms refutes their equality; without one
the question stays undecided."""
import time

from terms import *
from witness import CMP, Ev, Unk, base_rng, wrap

SIZES = [
    ('1', lambda j, n: 1),
    ('1..3', lambda j, n: 1 + (j * 2 + j // 3) % 3),
    ('3..1', lambda j, n: 3 - j % 3),
    ('last', lambda j, n: 5 if j == n - 1 else 2),
    ('kilo', lambda j, n: 9001 + j % 2),
]
LENS = [9, 8, 12, 0, 1, 2, 3, 7, 251, 260, 65536]


class Out(Exception):
    """a slice beyond its bytes"""


class LEv(Ev):
    def __init__(self, I, st):
        super().__init__(I, st)
        self.bind = {}
        self.steps = 0
        self.memo = {}

    def tick(self, n=1):
        self.steps += n
        if self.steps > 4000000:
            raise Unk('too long')

    def count(self, d):
        if d[0] in ('map', 'enum', 'perm', 'peekable', 'rev'):
            return self.count(d[1])
        if d[0] == 'range':
            return max(0, self.ev(d[2]) - self.ev(d[1]))
        return self.ev(self.I.count(self.st, d))

    def mark(self, v):
        """v with the entry it belongs to replaced by its region and position"""
        pos = []

        def f(x):
            if len(x) == 3 and x[0] == 'elem':
                pos.append((self.I.canon_driver(x[1]), self.ev(x[2])))
                return ('at',)
            if len(x) > 2 and x[0] == 'item' and x[1][0] != 'range':
                if x[2] not in self.bind:
                    raise Unk('entry')
                pos.append((self.I.canon_driver(x[1]), self.bind[x[2]]))
                return ('at',)
            return x

        def walk(t):
            if isinstance(t, tuple) and t:
                if t[0] in ('elem', 'item') and len(t) > 2 and (t[0] == 'elem' or t[1][0] != 'range'):
                    return f(t)
                return tuple(walk(x) if isinstance(x, tuple) else x for x in t)
            return t
        w = walk(v)
        if len(set(pos)) > 1:
            raise Unk('two entries')
        return w, pos[0] if pos else None

    def ev(self, t):
        k = t[0]
        if k == 'sz':
            return self.size(t)
        if k == 'psum':
            return self.summed(t[1], t[2], self.ev(t[3]))
        if k == 'sum':
            return self.summed(t[1], t[2], self.count(t[2]))
        if k == 'item':
            if t[1][0] == 'range':
                if t[2] in self.bind:
                    return self.ev(t[1][1]) + self.bind[t[2]]
                return self.atom(t)
            raise Unk('item')
        if k == 'len':
            if t[1][0] == 'p':
                return self.atom(t)
            if t[1][0] in ('bs', 'sub'):
                return total(self.runs(t[1]))
            raise Unk('len')
        if k == 'idx' and t[1][0] in ('bs', 'sub'):
            b = cutruns(self.runs(t[1]), self.ev(t[2]), self.ev(t[2]) + 1)
            if b[0][0][0] == 'byte':
                return b[0][0][1]
            raise Unk('content')
        if k in ('fld', 'idx', 'disc'):
            raise Unk('content')
        if k == 'p':
            return self.atom(t)
        if k == 'not':
            return 1 - self.ev(t[1])
        if k == 'cmp':
            return int(self.compare(t))
        if k == 'call' and t[1].split('::')[-1] in ('min', 'max') and len(t[3]) == 2:
            return (min if t[1].endswith('min') else max)(self.ev(t[3][0]), self.ev(t[3][1]))
        return super().ev(t)

    def compare(self, c):
        a, b = c[2], c[3]
        if a[0] in ('bs', 'sub') or b[0] in ('bs', 'sub'):
            x, y = self.runs(a), self.runs(b)
            if x == y:
                return c[1] in ('Le', 'Ge', 'Eq')
            if len(x) == len(y) == 1 and x[0][0][0] == y[0][0][0] == 'nt' and x[0][0][:-1] == y[0][0][:-1] and x[0][1] == y[0][1] == 0 and \
                    whole(self, x[0]) and whole(self, y[0]) and sortkey(x[0][0]):
                return CMP[c[1]](x[0][0][-1], y[0][0][-1])
            raise Unk('content')
        return CMP[c[1]](self.ev(a), self.ev(b))

    def size(self, t):
        import models as Mo
        n = Mo.const_size(self.I, self.st, t[1], t[3])
        if n is not None:
            return n
        w, at = self.mark(t[2])
        if at is None:
            raise Unk('size')
        return self.sizeat(t[1], t[3], at[1])

    def sizeat(self, T, mode, j):
        import models as Mo
        n = Mo.const_size(self.I, self.st, T, mode)
        if n is not None:
            return n
        z = Mo.some_sizes(self.I, self.st, T, mode) if T[0] == 'prim' else None
        v = self.pattern[1](j + (1 if show0(T).endswith('V') else 0), self.n)
        if z:
            z = sorted(z)
            return z[v % len(z)]
        return v

    def summed(self, d, D, m):
        key = (d, D)
        acc = self.memo.setdefault(key, [0])
        self.tick(max(0, m - len(acc) + 1))
        old = self.bind.get('sum')
        while len(acc) <= m:
            self.bind['sum'] = len(acc) - 1
            acc.append(acc[-1] + self.ev(d))
        if old is None:
            self.bind.pop('sum', None)
        else:
            self.bind['sum'] = old
        if m < 0:
            raise Out()
        return acc[m]

    # byte strings as [(key, lo, hi)]; key ('byte', v) or ('nt', T, mode, shape, region, position)
    def runs(self, t):
        if t[0] == 'bs':
            key = ('runs', t)
            if not self.bind and key in self.memo:
                return self.memo[key]
            out = []
            for ch in t[1]:
                self.chunk(ch, out)
            if not self.bind:
                self.memo[key] = out
            return out
        if t[0] == 'sub':
            return cutruns(self.runs(t[1]), self.ev(t[2]), self.ev(t[3]))
        raise Unk('bytes')

    def chunk(self, ch, out):
        self.tick()
        k = ch[0]
        if k == 'b':
            put(out, ('byte', self.ev(ch[1]) & 255), 0, 1)
        elif k == 'nt':
            w, at = self.mark(ch[2])
            if at is None:
                raise Unk('content')
            n = self.sizeat(ch[1], ch[3], at[1])
            put(out, ('nt', ch[1], ch[3], w, at[0], at[1]), 0, n)
        elif k == 'loop':
            for alt in self.iterations(ch):
                for x in alt:
                    self.chunk(x, out)
        elif k == 'raw':
            put(out, ('raw', ch[1]), 0, self.ev(ch[2]))
        else:
            raise Unk(k)

    def iterations(self, lp):
        _, lid, driver, alts = lp
        if lid in self.bind:
            raise Unk('nested')
        try:
            for j in range(self.count(driver)):
                self.bind[lid] = j
                for g, parts in alts:
                    if len(alts) == 1 or all(cond(self, c) for c in g):
                        yield parts
                        break
                else:
                    raise Unk('no case')
        finally:
            self.bind.pop(lid, None)

    def value(self, t):
        if t[0] in ('bs', 'sub'):
            return ('bytes', tuple(self.runs(t)))
        if t[0] == 'agg':
            return ('agg', t[2], tuple(self.value(x) for x in t[3]))
        if t[0] == 'vec':
            out = []
            for p in t[1]:
                if p[0] == 'one':
                    out.append(self.value(p[1]))
                elif p[0] == 'loop':
                    for parts in self.iterations(p):
                        for q in parts:
                            if q[0] != 'one':
                                raise Unk('vec')
                            out.append(self.value(q[1]))
                else:
                    raise Unk('vec')
            return ('vec', tuple(out))
        return self.ev(t)


def show0(T):
    return str(T[1]) if len(T) > 1 else ''


def whole(E, r):
    return r[2] - r[1] == E.sizeat(r[0][1], r[0][2], r[0][-1])


def sortkey(key):
    """the run is the sort key of the region it lies in"""
    _, T, mode, w, D, j = key
    if D[0] != 'perm' or D[2][0] != 'asc' or len(D[2]) < 2:
        return False
    k = D[2][1]
    if k[0] != 'bs' or len(k[1]) != 1 or k[1][0][0] != 'nt':
        return False

    def walk(t):
        if isinstance(t, tuple) and t:
            if t[0] == 'item' and len(t) > 2:
                return ('at',)
            return tuple(walk(x) if isinstance(x, tuple) else x for x in t)
        return t
    return k[1][0][1] == T and k[1][0][3] == mode and walk(k[1][0][2]) == w


def put(out, key, lo, hi):
    if hi <= lo:
        return
    if key[0] != 'byte' and out and out[-1][0] == key and out[-1][2] == lo:
        out[-1] = (key, out[-1][1], hi)
    else:
        out.append((key, lo, hi))


def total(rs):
    return sum(h - l for k, l, h in rs)


def cutruns(rs, lo, hi):
    if lo < 0 or hi < lo:
        raise Out()
    out, at = [], 0
    for k, l, h in rs:
        n = h - l
        a, b = max(lo - at, 0), min(hi - at, n)
        if b > a:
            put(out, k, l + a, l + b)
        at += n
        if at >= hi:
            break
    if at < hi:
        raise Out()
    return out


def cond(E, c):
    k = c[0]
    if k == 'cmp':
        return E.compare(c)
    if k in ('isv', 'notv'):
        if E.I.is_free(c[1]):
            return True
        raise Unk('variant')
    if k in ('tyeq', 'tyne'):
        return True
    if k == 'next' and c[3] and c[4:5] == (0,):
        if c[2] is False:
            return True
        return E.count(c[1]) > 0
    if k in ('true', 'false') and len(c) == 2:
        return bool(E.ev(c[1])) == (k == 'true')
    if k in ('inb', 'oob'):
        t = c[1]
        if t[0] == 'call' and t[1].split('::')[-1] == 'get' and len(t[3]) == 3:
            lo, hi = E.ev(t[3][1]), E.ev(t[3][2])
            return (0 <= lo <= hi <= total(E.runs(t[3][0]))) == (k == 'inb')
        raise Unk(k)
    raise Unk(k)


def domain(E, t):
    if t[0] == 'len':
        return LENS if t[1] == ('p', 'self') else [5, 0, 1]
    if t[0] == 'item':
        lo, hi = E.ev(t[1][1]), E.ev(t[1][2])
        return sorted({x for x in (lo, lo + 1, lo + 2, (lo + hi) // 2, hi - 2, hi - 1) if lo <= x < hi})
    if t == ('p', 'i'):
        n = E.n
        return [x for x in (0, 1, n // 2, n - 2, n - 1) if x >= 0]
    raise Unk('no domain')


SPENT = [0.0]       # seconds spent on questions without an answer
CAP = 120.0


def search(I, st, goal, limit=600):
    """a choice of sizes and positions satisfying the path and goal(E), described, or None"""
    if SPENT[0] > CAP:
        return None
    t0 = time.process_time()
    r = search0(I, st, goal, limit)
    if r is None:
        SPENT[0] += time.process_time() - t0
    return r


def search0(I, st, goal, limit):
    left = [limit]
    n0 = ('len', ('p', 'self'))
    for n in LENS:
        s2 = st
        if any(c[0] == 'cmp' and I.rng(n0, s2) and not (I.rng(n0, s2)[0] <= n <= I.rng(n0, s2)[1]) for c in st.conds):
            continue
        for pat in SIZES[:2] if n > 1000 else SIZES:
            E = LEv(I, st)
            E.n, E.pattern = n, pat
            E.env[n0] = n
            r = solve(E, st.conds, goal, left)
            if r is not None:
                return r
            if left[0] <= 0:
                return None
    return None


def solve(E, conds, goal, left):
    left[0] -= 1
    if left[0] <= 0:
        return None
    E.new = None
    E.bind = {}
    try:
        for c in conds:
            if not cond(E, c):
                return None
        try:
            if not goal(E):
                return None
        except Out:
            pass
        return '%d entries, sizes %s%s' % (E.n, E.pattern[0], ''.join(', %s = %s' % (tshow(k)[:40], v) for k, v in E.env.items() if k[0] != 'len'))
    except KeyError:
        t = E.new
        if t is None:
            return None
        E.bind = {}
        try:
            dom = domain(E, t)
        except (Unk, KeyError, Out):
            return None
        for v in dom:
            E.env[t] = v
            E.memo = {}
            r = solve(E, conds, goal, left)
            if r is not None:
                return r
            del E.env[t]
        E.memo = {}
        return None
    except (Unk, Out):
        return None


def feasible(I, st):
    return search(I, st, lambda E: True)


def matches(x, w):
    if w is None:
        return True
    if isinstance(w, tuple) and w[0] == 'agg' and isinstance(x, tuple) and x[0] == 'agg':
        return x[1] == w[1] and len(x[2]) == len(w[2]) and all(matches(a, b) for a, b in zip(x[2], w[2]))
    if isinstance(w, tuple) and isinstance(x, tuple) and x[0] in ('bytes', 'vec') and not x[1] and w[0] in ('bytes', 'vec') and not w[1]:
        return True
    return x == w


def differ(I, st, got, expected):
    """expected: function of the evaluator"""
    got = I.nf(st, got)

    def goal(E):
        w = expected(E)
        try:
            x = E.value(got)
        except Out:
            return True
        return not matches(x, w)
    return search(I, st, goal)


def expected(E, w):
    if w is None:
        return None
    if w[0] == 'pairs':
        out = []
        for j in range(E.count(w[1][2])):
            row = []
            for lp in (w[1], w[2]):
                E.bind[lp[1]] = j
                rs = []
                for x in lp[3][0][1]:
                    E.chunk(x, rs)
                del E.bind[lp[1]]
                row.append(('bytes', tuple(rs)))
            out.append(('agg', 0, tuple(row)))
        return ('vec', tuple(out))
    if w[0] == 'agg':
        return ('agg', w[2], tuple(expected(E, x) for x in w[3]))
    return E.value(w)
