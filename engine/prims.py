"""What the byte-reader primitives of the library do, taken from their own code.

Elsewhere calls of these primitives are summarised.  Here each is interpreted on an
unconstrained buffer (length L, cursor O - L bytes past its start) and an unconstrained
count n; the path conditions and results extracted this way are compared with what the
summary says for every combination in which the order of L, n and O matters."""
import absint as A
import flow
from mir import show
from terms import *

U = (1 << 64) - 1


def cells(T):
    """how a parameter holds the buffer"""
    refs = 0
    while T[0] == 'ref' and not (T[2][0] == 'slice'):
        T = T[2]
        refs += 1
    return refs, T


class Run:
    def __init__(self, P, f, sub=None, buf=None):
        self.f = f
        I = self.I = flow.new_interp(P)
        I.nomodel = lambda c: 'slice_reader' in c.n or 'BorrowedReader' in c.n or 'slice_reader' in c.key or c.trait and 'BorrowedReader' in c.trait
        st = A.St()
        self.B = ('p', 'buf')
        self.O = ('p', 'total')
        I.termty[self.O] = 'usize'
        st.conds = (('cmp', 'Le', ('len', self.B), self.O),)
        self.args, self.cell, self.kind, self.nums = [], None, None, []
        for l in range(1, f.argc + 1):
            t = f.local_ty(l)
            if sub:
                t = I.rty(st, t) if False else subst(t, sub)
            refs, b = cells(t)
            v = None
            if b[0] == 'adt' and b[1].endswith('SliceReader'):
                self.kind = 'reader'
                v = ('agg', b[1], 0, (self.B, self.O))
            elif b[0] == 'ref' and b[2][0] == 'slice' or b[0] == 'slice':
                self.kind = self.kind or 'slice'
                v = self.B
            if v is not None and self.cell is None:
                self.base = b
                if refs == 0:
                    self.args.append(v)
                    self.cell = False
                    continue
                self.cell = I.newcell(st, v)
                r = ('ref', self.cell, ())
                for _ in range(refs - 1):
                    r = ('ref', I.newcell(st, r), ())
                self.args.append(r)
            elif t[0] == 'prim':
                x = ('p', 'n%d' % l)
                I.termty[x] = t[1]
                self.nums.append(x)
                self.args.append(x)
            else:
                self.args.append(('p', 'arg%d' % l))
        I.streams = ()
        I.loopctx = []
        self.outs = []
        self.err = None
        try:
            self.outs = I.run_fn(f, dict(sub or {}), list(self.args), st, 2)
        except (A.Unsup, A.Mismatch) as e:
            self.err = e.why

    # -------------------------------------------------- evaluation of extracted terms
    def num(self, t, env):
        if t in env:
            return env[t]
        k = t[0]
        if k == 'c':
            return t[1]
        if k == 'lin':
            r = t[1]
            for x, c in t[2]:
                v = self.num(x, env)
                if v is None:
                    return None
                r += c * v
            return r
        if k == 'len':
            i = self.iv(t[1], env)
            return None if i is None else i[1] - i[0]
        if k in ('min', 'max'):
            vs = [self.num(x, env) for x in t[1:]]
            return None if None in vs else (min if k == 'min' else max)(vs)
        if k == 'cast':
            return self.num(t[2], env)
        return None

    def iv(self, t, env):
        if t == self.B:
            return (0, env[('len', self.B)])
        if t[0] == 'sub':
            b, lo, hi = self.iv(t[1], env), self.num(t[2], env), self.num(t[3], env)
            if b is None or lo is None or hi is None:
                return None
            if not 0 <= lo <= hi <= b[1] - b[0]:
                return 'out'
            return (b[0] + lo, b[0] + hi)
        if t in (('vec', ()), ('bs', ())) or t[0] == 'agg' and t[1] == 'array' and not t[3]:
            return (0, 0)
        return None

    def cond(self, c, env):
        if c[0] == 'cmp':
            a, b = self.num(c[2], env), self.num(c[3], env)
            if a is None or b is None:
                return None
            return {'Lt': a < b, 'Le': a <= b, 'Gt': a > b, 'Ge': a >= b, 'Eq': a == b, 'Ne': a != b}[c[1]]
        if c[0] in ('inb', 'oob') and c[1][0] == 'call':
            x, lo, hi = c[1][3]
            b, lo, hi = self.iv(x, env), self.num(lo, env), self.num(hi, env)
            if b is None or b == 'out' or lo is None or hi is None:
                return None
            return (0 <= lo <= hi <= b[1] - b[0]) == (c[0] == 'inb')
        return None

    def state(self, s, env):
        """the buffer left behind, as an interval of the original one"""
        if not self.cell:
            return (0, env[('len', self.B)])
        v = self.I.rderef(s, s.mem[self.cell])
        if self.kind == 'reader':
            v = self.field0(v)
        return self.iv(self.I.deep(s, self.I.rderef(s, v)), env) if v is not None else None

    def field0(self, v):
        if v[0] == 'agg' and v[3]:
            return v[3][0]
        if v[0] == 'upd' and v[2:4] == (0, 0):
            return v[4]
        return None


def subst(t, sub):
    if t[0] == 'param' and t[1] in sub:
        return sub[t[1]]
    return tuple(subst(x, sub) if isinstance(x, tuple) else x for x in t)


# expected behaviour: (L, O, n...) -> ('ok', value, left) or 'err'
def sp_advance(L, O, n):
    return ('ok', None, (n, L)) if n <= L else 'err'


def sp_peek(L, O, n):
    return ('ok', (0, n), (0, L)) if n <= L else 'err'


def sp_take(L, O, n):
    return ('ok', (0, n), (n, L)) if n <= L else 'err'


def sp_rest(L, O):
    return ('val', (0, L), (0, L))


def sp_pos(L, O):
    return ('num', O - L, (0, L))


def sp_sub(L, O, off, n):
    a = off - (O - L)
    return ('ok', (a, a + n), (0, L)) if a >= 0 and a + n <= L else 'err'


SPEC = {'advance': sp_advance, 'consume': sp_advance, 'peek_bytes': sp_peek, 'take_bytes_slice': sp_take, 'take_bytes_reader': sp_take, 'read_borrowed_bytes': sp_take,
        'remaining': sp_rest, 'consumed_len': sp_pos, 'position': sp_pos, 'sub': sp_sub}
SLICE = ('ref', False, ('slice', ('prim', 'u8')))


def subjects(P):
    for f in P.fns.values():
        if f.crate.name != 'revision' or f.name not in SPEC or '{' in f.path or 'slice_reader' not in f.path:
            continue
        if not f.argc or f.path.endswith('slice_reader::BorrowedReader::remaining'):
            continue
        t = f.local_ty(1)
        refs, b = cells(t)
        sub = None
        if b[0] == 'param':
            sub = {b[1]: slice_ty(P)}
        elif b[0] == 'adt' and not b[1].endswith('SliceReader'):
            continue
        yield f, sub


def slice_ty(P):
    for f in P.fns.values():
        if f.name == 'take_bytes_slice' and 'slice_reader' in f.path:
            return f.local_ty(1)[2]
    return SLICE


def agree(P):
    """(function, verdict, why, conditions) per primitive"""
    for f, sub in subjects(P):
        R = Run(P, f, sub)
        if f.name == 'position' and R.kind == 'slice':
            continue
        yield (f,) + judge(R)


def judge(R):
    f = R.f
    if R.err:
        return 'undecided', R.err, (), R
    spec = SPEC[f.name]
    import itertools
    grid = []
    for L in (0, 1, 2, 5):
        for o in (0, 3):
            for ns in itertools.product((0, 1, 2, 3, 4, 5, 6, 7, 8, 9, U), repeat=len(R.nums)):
                grid.append((L, L + o, ns))
    unknown = None
    for L, O, ns in grid:
        env = {('len', R.B): L, R.O: O}
        env.update(zip(R.nums, ns))
        want = spec(L, O, *ns)
        hit = 0
        for s2, kind, v in R.outs:
            cs = [R.cond(c, env) for c in s2.conds]
            if None in cs:
                unknown = 'condition ' + flow.cshow(s2.conds[cs.index(None)])
                hit = None
                break
            if not all(cs):
                continue
            hit += 1
            got = result(R, s2, kind, v, env)
            if got is None:
                unknown = 'result ' + (tshow(R.I.deep(s2, v))[:100] if kind == 'ret' else str(v)[:100])
                continue
            if got == 'panic' and want == 'err' and f.name == 'sub':
                continue
            if got != want:
                where = 'with %d bytes left%s and %s' % (L, ' of %d' % O if R.kind == 'reader' else '', ', '.join('count %d' % n for n in ns) or 'no argument')
                return 'violation', '%s it %s, expected: it %s' % (where, say(got, L), say(want, L)), flow.conds(s2), R
        if hit == 0 and unknown is None:
            unknown = 'no path for L=%d n=%s' % (L, ns)
    if unknown:
        return 'undecided', unknown, (), R
    return 'proved', None, (), R


def result(R, s, kind, v, env):
    if kind == 'panic':
        return 'panic'
    if kind != 'ret':
        return None
    left = R.state(s, env)
    v = R.I.deep(s, v)
    if v[0] == 'agg' and v[1] == RES:
        if v[2] == 1:
            return 'err' if left in ((0, env[('len', R.B)]), None) else ('err', left)
        x = v[3][0]
        if x == UNIT:
            return None if left is None else ('ok', None, left)
        if x[0] == 'agg' and x[1].endswith('SliceReader'):
            x = x[3][0]
        i = R.iv(x, env)
        return None if i is None or left is None else ('ok', empty(i), left)
    n = R.num(v, env)
    if n is not None:
        return ('num', n, left)
    i = R.iv(v, env)
    return None if i is None else ('val', i, left)


def empty(i):
    return i


def say(r, L):
    if r == 'err':
        return 'returns an error'
    if r == 'panic':
        return 'panics'
    if r[0] == 'err':
        return 'returns an error after moving the cursor'
    if r[0] == 'num':
        return 'returns %d' % r[1]
    out = 'returns bytes %s..%s' % r[1] if isinstance(r[1], tuple) else 'returns a view outside the buffer' if r[1] == 'out' else 'succeeds'
    return out + (' and leaves %s..%s' % r[2] if isinstance(r[2], tuple) else ' and leaves a cursor outside the buffer' if r[2] == 'out' else '')


# ------------------------------------------------------- skipping over a stream
def pump(P):
    """advance_read: every byte asked for is read, or an error is returned"""
    for f in P.fns.values():
        if f.crate.name == 'revision' and f.name == 'advance_read' and 'slice_reader' in f.path:
            yield (f,) + pump_one(P, f)


def pump_one(P, f):
    R = Run.__new__(Run)
    R.f = f
    I = R.I = flow.new_interp(P)
    I.nomodel = lambda c: 'slice_reader' in c.n
    R.B, R.O, R.cell, R.kind = ('p', 'buf'), ('p', 'total'), False, None
    st = A.St()
    src = ('p', 'stream')
    n = ('p', 'n')
    I.termty[n] = 'usize'
    I.streams = ()
    I.loopctx = []
    try:
        outs = I.run_fn(f, {}, [('ref', I.newcell(st, src), ()), n], st, 2)
    except (A.Unsup, A.Mismatch) as e:
        return 'undecided', e.why, (), R
    if len(I.looplog) != 1:
        return 'undecided', '%d loops' % len(I.looplog), (), R
    lid, L = next(iter(I.looplog.items()))
    return pump_loop(I, R, outs, L, src, n)


def pump_loop(I, R, outs, L, src, n):
    """the loop's extracted transitions, followed for counts around its block size, over a stream that
    delivers everything and over one that ends"""
    for N in (0, 1, 7, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 20000):
        for avail in {N + 9, N - 1, N // 2, 0}:
            if avail < 0:
                continue
            r = follow(I, R, outs, L, src, n, N, avail)
            if r is None:
                return 'undecided', 'transition not decided for a count of %d' % N, (), R
            kind, total, s = r
            if kind == 'ok' and total != N:
                return 'violation', 'asked to skip %d bytes of a stream of %d it reports success after %d' % (N, avail, total), flow.conds(s), R
            if kind == 'err' and avail >= N:
                return 'violation', 'asked to skip %d bytes of a stream of %d it fails' % (N, avail), flow.conds(s), R
            if kind in ('panic', 'stuck'):
                return 'violation', 'asked to skip %d bytes of a stream of %d it %s' % (N, avail, 'panics' if kind == 'panic' else 'never ends'), flow.conds(s), R
    return 'proved', None, (), R


class Unk(Exception):
    pass


def follow(I, R, outs, L, src, n, N, avail):
    """(ok|err|panic|stuck, bytes taken, state)"""
    env = {n: N}
    took = 0
    pre = L.pre
    vals = {}

    def number(t, e):
        x = R.num(t, e)
        if x is None:
            raise Unk(t)
        return x

    def holds(c, e, t):
        """(truth, bytes taken so far)"""
        if c[0] == 'cmp':
            return {'Lt': lambda a, b: a < b, 'Le': lambda a, b: a <= b, 'Gt': lambda a, b: a > b, 'Ge': lambda a, b: a >= b,
                    'Eq': lambda a, b: a == b, 'Ne': lambda a, b: a != b}[c[1]](number(c[2], e), number(c[3], e)), t
        if c[0] in ('ok', 'err') and c[1][0] == 'call':
            a = c[1][3]
            m = c[1][1].split('::')[-1]
            if not a or a[0] != src or m not in ('read_exact', 'read') or a[1][0] not in ('submut', 'sub'):
                raise Unk(c)
            want = number(sub(a[1][3], a[1][2]), e)
            if m == 'read_exact':
                good = avail - t >= want
                return good == (c[0] == 'ok'), t + (want if good else 0)
            k = min(want, avail - t)
            e[('okof', c[1])] = k
            return c[0] == 'ok', t + k
        raise Unk(c)

    def try_path(conds):
        e, t = dict(env), took
        for c in conds:
            g, t = holds(c, e, t)
            if not g:
                return None
        return e, t

    ph = set()
    for s, kind, v in outs:
        for c in s.conds:
            phis_of(c, ph)
    for ai, s, h0 in L.latches:
        for c in s.conds:
            phis_of(c, ph)
    try:
        for x in ph:
            env[x] = number(pre.mem.get(x[2], x), {n: N})
        for _ in range(64):
            hit = None
            for s, kind, v in outs:
                r = try_path(s.conds[L.base:])
                if r is not None:
                    if kind != 'ret':
                        return 'panic', r[1], s
                    v = I.rderef(s, v)
                    if v[0] == 'agg' and v[1] == RES:
                        return ('ok', 'err')[v[2]], r[1], s
                    return None
            for ai, s, h0 in L.latches:
                r = try_path(s.conds[L.base:])
                if r is not None:
                    hit = r, s
                    break
            if hit is None:
                return None
            (e, t), s = hit
            env = {n: N}
            for x in ph:
                env[x] = number(s.mem.get(x[2], x), e)
            took = t
        return 'stuck', took, s
    except Unk:
        return None


def phis_of(t, out):
    if not isinstance(t, tuple):
        return
    if t and t[0] == 'phi':
        out.add(t)
        return
    for x in t:
        phis_of(x, out)
