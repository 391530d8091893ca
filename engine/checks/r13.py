"""Checked random-access views over tables that hold arbitrary offsets.

The layout of a written container is taken and its offset table, region lengths and regions are
replaced by unconstrained ones.  Every path on which the constructor succeeds carries what its
completed loops have established for every position; from that it must follow that every offset
of every column is ordered and within its region, and that keys ascend."""
import time

import absint as A
import derived
import flow
import models as Mo
from checks.r12 import outcomes
from mir import show
from terms import *
from witness import CMP, Ev, Unk

CONFIGS = ['varint']
CONFIGS_THOROUGH = ['varint', 'fixed', 'plain']
TECHNIQUE = 'static dataflow: what the validation loops establish for every position of an unconstrained offset table'
RULE = ('For every checked constructor and view, each path that succeeds must have run a loop over all positions whose every continuing path implies that the offset is within its region and greater than '
        'its predecessor (both columns of a map), and that each key exceeds the one before. A path that admits a table with one misplaced offset, folded with concrete offsets, is reported.')
ASSUME = ['slices are compared as std documents']

KO, VO, KL, VL = ('p', 'koff'), ('p', 'voff'), ('p', 'klen'), ('p', 'vlen')
KEYS, VALS = ('p', 'keys'), ('p', 'vals')
N = ('len', ('p', 'self'))
U32 = 0xffffffff


def run(progs, rep):
    n = 0
    rep.until, rep.refuted = time.time() + 120, set()
    for c, P in progs.items():
        acc = {}
        for f in P.fns.values():
            p = f.path.split('::')
            if 'ix_checked' in p and not f.in_impl and '{' not in f.path:
                acc[p[-1]] = f
        for mode, names in (('imap', ['map_info', 'map_view']), ('iseq', ['seq_info', 'seq_view']), ('iset', ['set_view'])):
            T = next(t for i, t in flow.subjects(P, mode))
            for name in names:
                n += decide(P, c, rep, acc[name], mode, T)
        n += decide(P, c, rep, acc['struct_open'], 'struct', None)
    rep.count('constructors', n)
    if n == 0:
        raise RuntimeError('no checked constructor analysed')


def word(t):
    return tuple(('b', ('byte', t, k)) for k in range(4))


def payloads(I, P, mode, T):
    """-> [(state, chunks, args, columns)], columns = [(offsets, region length, strict)]"""
    for a in (KO, VO):
        I.termty.arr[a] = 'u32'
    for a in (KL, VL):
        I.termty[a] = 'u32'
    lid = next(I.loopn)
    item = lambda n: ('item', ('range', C(0), n), lid, 0)
    if mode == 'struct':
        cnt = ('p', 'fields')
        I.termty[cnt] = 'u16'
        n = cnt
        table = ('loop', lid, ('range', C(0), n), (((), word(('idx', KO, item(n)))),))
        # the body begins after the table; offsets count from the start of the payload
        yield A.St(), (table, ('raw', KEYS, KL)), (cnt,), n
        return
    X = ('p', 'self')
    if mode != 'iseq':
        I.unordered.add(X)
    for s, ch in Mo.producer(I, T, X, mode, A.St()):
        at = [k for k, x in enumerate(ch) if x[0] == 'loop' and mentions(x[3], lambda y: y and y[0] == 'psum')]
        if not at or I.rng(N, s)[0] > U32:
            continue
        s = s.fork()
        s.done = ()
        s.conds = tuple(c for c in s.conds if c[0] == 'cmp' and not mentions(c, lambda y: y[0] in ('sz', 'psum', 'sum')))
        w = word(('idx', KO, item(N))) + (word(('idx', VO, item(N))) if mode == 'imap' else ())
        table = ('loop', lid, ('range', C(0), N), (((), w),))
        head = tuple(ch[:at[0]])
        if mode == 'imap':
            yield s, head + (table,) + word(KL) + word(VL) + (('raw', KEYS, KL), ('raw', VALS, VL)), (), N
        else:
            yield s, head + (table, ('raw', KEYS, KL)), (), N


def decide(P, c, rep, f, mode, T):
    I = flow.new_interp(P)
    rep.analysed(f)
    cases = 0
    for s, ch, args, n in payloads(I, P, mode, T):
        I.looplog = {}
        for kind, why, sp, st, val in outcomes(I, f, s, ch, args):
            ob = '%s [%s]' % ('::'.join(f.path.split('::')[-2:]), c)
            if kind == 'err':
                continue
            cases += 1
            if kind != 'ok':
                rep.undecided(ob, '%s: %s' % (kind, why), sp)
                continue
            cols = [('offsets' if mode != 'imap' else 'key offsets', KO, KL)] + ([('value offsets', VO, VL)] if mode == 'imap' else [])
            for what, O, L in cols:
                lim = L if mode != 'struct' else add(L, scale(n, 4))
                goals = [('%s within their region' % what, lambda s2, p, O=O, lim=lim: I.cmp(s2, 'Le', at(O, p), lim) is True, False),
                         ('%s ascending' % what, lambda s2, p, O=O: I.cmp(s2, 'Gt', at(O, p), at(O, sub(p, C(1)))) is True, True)]
                for g, test, later in goals:
                    judge(rep, I, ob + ' ' + g, st, f, n, mode, test, later)
            if mode == 'imap':
                judge(rep, I, ob + ' keys ascending', st, f, n, mode, lambda s2, p: ascending(I, s2, p, n), True, 'keys')
            if mode == 'struct':
                if not (I.cmp(st, 'Ge', at(KO, C(0)), scale(n, 4)) is True or I.cmp(st, 'Eq', n, C(0)) is True):
                    refute(rep, I, ob + ' first offset past the table', st, f, n, mode, 'first')
                else:
                    rep.proved(ob + ' first offset past the table')
    rep.fns |= set(I.inlined)
    return cases


def at(O, p):
    return ('idx', O, p)


def ascending(I, st, p, n):
    """the path has compared the key at p with the one before, and found it greater"""
    for c in st.conds:
        if c[0] != 'cmp':
            continue
        op, a, b = c[1:]
        if op in ('Lt', 'Le'):
            op, a, b = {'Lt': 'Gt', 'Le': 'Ge'}[op], b, a
        if op != 'Gt':
            continue
        ra, rb = region(I, st, a), region(I, st, b)
        if ra is None or rb is None:
            continue
        if ra[0] == at(KO, p) and rb == (at(KO, sub(p, C(1))), at(KO, p)):
            nx = add(p, C(1))
            if ra[1] == at(KO, nx) or ra[1] == KL and (I.cmp(st, 'Eq', nx, n) is True or I.cmp(st, 'Ge', nx, n) is True):
                return True
    return False


def region(I, st, t):
    """(lo, hi) of a slice of the key region"""
    t = I.nf(st, t)
    if t[0] != 'sub' or t[1][0] != 'bs' or not t[1][1]:
        return None
    pre = C(0)
    for x in t[1][1]:
        if x[0] == 'raw' and x[1] == KEYS:
            return strip(I, sub(t[2], pre)), strip(I, sub(t[3], pre))
        pre = add(pre, I.size(st, x))
    return None


def strip(I, t):
    while t[0] == 'cast' and t[2][0] != 'lin':
        t = t[2]
    return t


def entry_states(I, L):
    for ai, s2, h0 in L.latches:
        yield s2


def judge(rep, I, ob, st, f, n, mode, test, later, what=None):
    if later and I.cmp(st, 'Le', n, C(1)) is True or I.cmp(st, 'Eq', n, C(0)) is True:
        rep.proved(ob)
        return
    for lid in st.done:
        L = I.looplog.get(lid)
        if L is None or L.driver is None or not L.latches:
            continue
        D = L.driver[1] if L.driver[0] in ('map', 'enum') else L.driver
        if D[0] != 'range' or I.equal(st, D[2], n) is not True:
            continue
        lo = D[1]
        if not is_c(lo) or lo[1] > (1 if later else 0):
            continue
        p = ('item', D, lid, 0)
        ok = True
        for ai, s2, h0 in L.latches:
            s3 = s2.fork()
            s3.conds = st.conds + s3.conds
            if L.counter is not None:
                s3.conds = tuple(rephi(I, L, lid, D, c) for c in s3.conds)
            if later and (I.cmp(s3, 'Eq', p, C(0)) is True or ('cmp', 'Eq', p, C(0)) in s3.conds):
                continue
            if later and I.cmp(s3, 'Ge', p, C(1)) is not True:
                s3.conds = s3.conds + (('cmp', 'Ge', p, C(1)),)
            if not test(s3, p):
                ok = False
                break
        if ok:
            rep.proved(ob)
            return
    refute(rep, I, ob, st, f, n, mode, what)


def rephi(I, L, lid, D, c):
    x = L.counter[0]
    return tmap(c, lambda y: ('item', D, lid, 0) if y == x else y)


# ------------------------------------------------------- folding with a malformed table
class CEv(Ev):
    def __init__(self, I, st, n, nt, ko, vo, kl, vl, keys):
        super().__init__(I, st)
        self.bind = {}
        self.n, self.keys = n, keys
        self.arr = {KO: ko, VO: vo}
        self.env = {nt: n, KL: kl, VL: vl}
        self.cache = {}
        self.phis = {}

    def ev(self, t):
        k = t[0]
        if t in self.env:
            return self.env[t]
        if k == 'idx' and t[1] in self.arr:
            i = self.ev(t[2])
            if not 0 <= i < len(self.arr[t[1]]):
                raise Unk('beyond the table')
            return self.arr[t[1]][i]
        if k == 'idx' and t[1] == KEYS:
            i = self.ev(t[2])
            if 0 <= i < len(self.keys):
                return self.keys[i]
            raise Unk('beyond the keys')
        if k == 'item' and t[1][0] == 'range' and t[2] in self.bind:
            return self.bind[t[2]]
        if k == 'phi' and t[1] in self.phis:
            return self.ev(self.value(t))
        if k == 'idx' and (t[1][0] in ('bs', 'sub')):
            i, b, hi = self.ev(t[2]), t[1], None
            while b[0] == 'sub':
                lo, end = self.ev(b[2]), self.ev(b[3])
                i, b, hi = i + lo, b[1], min(end, hi + lo) if hi is not None else end
            b = self.bytes(b)
            if not 0 <= i < (len(b) if hi is None else hi):
                raise Unk('beyond the slice')
            return b[i]
        if k == 'fld' and self.value(t) != t:
            return self.ev(self.value(t))
        if k in ('max', 'min') and len(t) == 3:
            return (max if k == 'max' else min)(self.ev(t[1]), self.ev(t[2]))
        if k == 'cmp':
            return int(self.compare(t))
        if k == 'not':
            return 1 - self.ev(t[1])
        if k == 'len':
            if t[1][0] == 'sub':
                return self.ev(t[1][3]) - self.ev(t[1][2])
            if t[1][0] == 'bs':
                return self.ev(self.I.length(self.st, t[1]))
        if k == 'call' and t[1].split('::')[-1] in ('min', 'max', 'saturating_mul', 'saturating_sub') and len(t[3]) == 2:
            a, b = self.ev(t[3][0]), self.ev(t[3][1])
            return {'min': min(a, b), 'max': max(a, b), 'saturating_mul': a * b, 'saturating_sub': max(0, a - b)}[t[1].split('::')[-1]]
        if k in ('atom',) or k in ('p', 'len', 'sz', 'fld', 'disc', 'item', 'idx'):
            raise Unk(str(t)[:300])
        return super().ev(t)

    def bytes(self, t):
        if t[0] == 'sub':
            lo, hi = self.ev(t[2]), self.ev(t[3])
            b = self.keys if t[1] == KEYS else self.bytes(t[1])
            if not 0 <= lo <= hi <= len(b):
                raise Unk('bytes')
            return b[lo:hi]
        if t[0] == 'bs':
            if t not in self.cache:
                self.cache[t] = b''.join(self.chunk(x) for x in t[1])
            return self.cache[t]
        if t == KEYS:
            return self.keys
        if t == VALS:
            return bytes(self.env[VL])
        raise Unk('bytes')

    def chunk(self, x):
        if x[0] == 'b':
            return bytes([self.ev(x[1]) & 255]) if not isinstance(x[1], int) else bytes([x[1]])
        if x[0] == 'raw':
            return self.bytes(x[1])
        if x[0] == 'loop' and x[2][0] == 'range' and len(x[3]) == 1 and not x[3][0][0]:
            if x not in self.cache:
                old, out = self.bind.get(x[1]), []
                for j in range(self.ev(x[2][1]), self.ev(x[2][2])):
                    self.bind[x[1]] = j
                    out += [self.chunk(y) for y in x[3][0][1]]
                self.bind.pop(x[1], None)
                if old is not None:
                    self.bind[x[1]] = old
                self.cache[x] = b''.join(out)
            return self.cache[x]
        raise Unk('bytes of %s' % x[0])

    def compare(self, c):
        a, b = c[2], c[3]
        if a[0] in ('bs', 'sub') or b[0] in ('bs', 'sub'):
            return CMP[c[1]](self.bytes(a), self.bytes(b))
        return CMP[c[1]](self.ev(a), self.ev(b))

    def value(self, t):
        """the current value of a location a loop modifies"""
        if t[0] == 'phi' and t[1] in self.phis:
            v = self.phis[t[1]][t[2]]
            for i in t[3]:
                v = v[3][i] if v[0] == 'agg' else ('fld', v, 0, i)
            return v
        if t[0] == 'fld':
            v = self.value(t[1])
            if v[0] == 'agg' and v[2] == t[2]:
                return self.value(v[3][t[3]])
        return t

    def close(self, lid, t):
        """t with the loop's own locations and counter replaced by their values now"""
        def go(x):
            if len(x) < 3:
                return x
            if x[0] == 'phi' and x[1] == lid:
                return self.value(x)
            if x[0] == 'item' and x[2] == lid and x[1][0] == 'range':
                return C(self.bind[lid])
            if x[0] == 'fld' and x[1][0] == 'agg' and x[1][2] == x[2]:
                return x[1][3][x[3]]
            return x
        return tmap(t, go)

    def cond(self, c):
        if c[0] == 'cmp':
            return self.compare(c)
        if c[0] in ('true', 'false'):
            return bool(self.ev(c[1])) == (c[0] == 'true')
        if c[0] == 'next':
            return True
        if c[0] in ('isv', 'notv'):
            v = self.value(c[1])
            if v[0] != 'agg':
                raise Unk('variant of %s' % str(v)[:80])
            return (v[2] == c[2]) == (c[0] == 'isv')
        if c[0] in ('tyeq', 'tyne'):
            return True
        raise Unk(c[0])


def tables(n, mode):
    """(description, key offsets, value offsets, key region length, value region length, key bytes) with one fault each"""
    w = 4 * n if mode == 'struct' else 0
    good = [w + 3 * i for i in range(n)]
    end = w + 3 * n
    keys = b''.join((2 * i + 1).to_bytes(3, 'big') for i in range(n))
    kl = end - w
    for j in sorted({x for x in (0, 1, 2, n // 2, n - 2, n - 1) if 0 <= x < n}):
        out = [(end + 1, 'offset %d past the region' % j)] if j == n - 1 else []
        if j:
            out += [(good[j - 1], 'offset %d equal to the one before' % j), (good[j - 1] - 1, 'offset %d below the one before' % j)]
        for v, d in out:
            bad = list(good)
            bad[j] = v
            yield 'offsets', d, bad, good, kl, kl, keys
            if mode == 'imap':
                yield 'offsets', d, bad, good, kl, kl + 9, keys
                yield 'value offsets', 'value ' + d, good, bad, kl, kl, keys
                low = [2 * i for i in range(n)]
                low[j] = {good[j - 1]: low[j - 1], good[j - 1] - 1: low[j - 1] - 1}.get(v, 2 * n + 1)
                yield 'value offsets', 'value ' + d, good, low, kl, 2 * n, keys
        if mode == 'imap' and j:
            for e, d in ((2 * j - 1, 'equal to'), (2 * j - 2, 'below')):
                k = bytearray(keys)
                k[3 * j:3 * j + 3] = e.to_bytes(3, 'big')
                yield 'keys', 'key %d %s the one before' % (j, d), good, good, kl, kl, bytes(k)
    if mode == 'struct' and n:
        b = list(good)
        b[0] -= 1
        yield 'first', 'the first offset inside the table', b, good, kl, kl, keys


def admits(I, st, E):
    """the path is taken and every completed loop continues at every position"""
    for c in st.conds:
        if not E.cond(c):
            return False
    for lid in st.done:
        L = I.looplog.get(lid)
        if L is None or L.driver is None:
            raise Unk('loop %s %s' % (lid, L and (L.fn.path, L.driver)))
        D = L.driver[1] if L.driver[0] in ('map', 'enum') else L.driver
        if D[0] != 'range':
            raise Unk('driver')
        E.phis[lid] = {cell: L.pre.mem[cell] for cell in L.havoc if cell in L.pre.mem}
        for j in range(E.ev(D[1]), E.ev(D[2])):
            E.bind[lid] = j
            ok = False
            for ai, s2, h0 in L.latches:
                if all(E.cond(c) for c in s2.conds[L.base:]):
                    E.phis[lid] = {cell: E.close(lid, s2.mem[cell]) for cell in E.phis[lid] if cell in s2.mem}
                    ok = True
                    break
            if not ok:
                return False
        E.bind.pop(lid, None)
    return True


def refute(rep, I, ob, st, f, n, mode, what):
    why = 'not established for every position'
    if ob in rep.refuted:
        return
    if time.time() > rep.until:
        rep.undecided(ob, why)
        return
    for m in (9, 8, 300, 2, 3, 12, 66000):
        if I.rng(n, st) and not I.rng(n, st)[0] <= m <= I.rng(n, st)[1]:
            continue
        ran = False
        for tag, d, ko, vo, kl, vl, keys in tables(m, mode):
            if what == 'keys' and tag != 'keys' or what == 'first' and tag != 'first':
                continue
            if what is None and (tag in ('keys', 'first') or 'value' in ob and tag != 'value offsets' or 'value' not in ob and tag == 'value offsets'):
                continue
            if what is None and ('within' in ob) != ('past' in d):
                continue
            E = CEv(I, st, m, n, ko, vo, kl, vl, keys)
            try:
                if admits(I, st, E):
                    rep.violation(ob, 'a table with %s (of %d) is accepted' % (d, m), f.sp, f.path, flow.conds(st), key=ob.replace(' ', ''))
                    rep.refuted.add(ob)
                    return
            except (Unk, KeyError) as e:
                why = 'not established: %s' % e
                break
            if m > 1000:
                break
    rep.undecided(ob, why)
