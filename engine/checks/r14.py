"""Lookup by key, with the predicate left uninterpreted but monotone along the written order.

Indexed search: the loop's transitions are read off the abstract interpretation.  What a probe
answers says something about every position before or after it; the loop invariants (which
positions are known to compare less, which greater) are found by starting from all candidates
and dropping those some transition does not preserve, arithmetic being decided in a polyhedral
domain.  Linear search: the loop runs in lock step with the loop that wrote the entries."""
import itertools
import time

import absint as A
import derived
import flow
import models as Mo
from checks import r08, r12, r20
from mir import show
from poly import Poly
from terms import *
from witness import Ev, Unk, CMP

CONFIGS = ['varint']
CONFIGS_THOROUGH = ['varint', 'fixed', 'plain']
TECHNIQUE = 'static dataflow: search-loop invariants over a sorted key column, inferred in a polyhedral domain; lock-step agreement for linear search'
RULE = ('An indexed search that ends without a match does so only when its invariants place every position either before (less) or after (greater) the key; a match returns the value of the entry probed; every '
        'iteration shrinks the undecided range. A linear search passes an entry only after comparing its key as less, returns the value of the entry that compared equal, and gives up only after one compared '
        'greater or the entries ended, consuming the rest. The keys are written in the order the search assumes.')
ASSUME = ['the predicate agrees with the order of the keys, as its documentation demands', 'a slice stays unchanged while it is searched']
RES, OPT = A.RES, A.OPT

X = ('p', 'self')
N = ('len', X)
F = ('p', 'f')
VALUES = {-1: 'less', 0: 'equal', 1: 'greater', 255: 'less'}


def run(progs, rep):
    rep.until = time.time() + 200
    rep.refuted = set()
    n = 0
    for c, P in progs.items():
        n += indexed(P, c, rep) + linear(P, c, rep) + written(P, c, rep)
    rep.count('searches', n)
    if n == 0:
        raise RuntimeError('no search analysed')
    derived.alive(rep)


# --------------------------------------------------------------------------- facts
def answer(c):
    """(key argument, value) of a condition on what the predicate answered"""
    if c[0] == 'isv' and c[1][0] == 'call' and c[1][3] and c[1][3][0] == F:
        return c[1][3][1], VALUES.get(c[2])
    return None


def answers(conds):
    out, excl = [], {}
    for c in conds:
        a = answer(c)
        if a:
            out.append(a)
        elif c[0] == 'notv' and c[1][0] == 'call' and c[1][3] and c[1][3][0] == F:
            excl.setdefault(c[1][3][1], set()).add(VALUES.get(c[2]))
        elif c[0] == 'cmp' and c[1] in ('Eq', 'Ne') and (isf(c[2]) or isf(c[3])):
            t, v = (c[2], c[3]) if isf(c[2]) else (c[3], c[2])
            v = variant(v)
            if v and c[1] == 'Eq':
                out.append((t[3][1], v))
            elif v:
                excl.setdefault(t[3][1], set()).add(v)
    for k, e in excl.items():
        left = {'less', 'equal', 'greater'} - e
        if len(left) == 1:
            out.append((k, left.pop()))
        elif len(left) == 2:
            out.append((k, tuple(sorted(left))))
    return out


def isf(t):
    if t[0] == 'disc':
        t = t[1]
    return t[0] == 'call' and bool(t[3]) and t[3][0] == F


def variant(t):
    if t[0] == 'agg' and t[1].endswith('Ordering'):
        return {0: 'less', 1: 'equal', 2: 'greater'}.get(t[2])
    if t[0] == 'c':
        return VALUES.get(t[1])
    return None


def position(t, kp):
    """the position of the entry whose key bytes t is, when t is exactly those"""
    if t[0] == 'agg' and t[1] == 'tuple' and len(t[3]) == 1:
        t = t[3][0]
    found = []
    mentions(t, lambda y: y[0] == 'elem' and len(y) == 3 and found.append(y) and False)
    if not found or any(y[2] != found[0][2] for y in found):
        return None
    return found[0][2] if t == kp(found[0][2]) else None


# --------------------------------------------------------------------------- indexed
def indexed(P, c, rep):
    acc = {}
    for f in P.fns.values():
        p = f.path.split('::')
        if 'ix_trusted' in p and not f.in_impl and '{' not in f.path:
            acc[p[-1]] = f
    T = next(t for i, t in flow.subjects(P, 'imap') if show(t).startswith('BTreeMap'))
    n = 0
    hint = ('p', 'hint')
    for name, args, pick in (('map_find', (F,), lambda v: v),
                             ('map_find_hint', (Mo.NONE, F), lambda v: v[3][0] if v[0] == 'agg' and v[1] == 'tuple' else v),
                             ('map_find_hint', (Mo.Some(hint), F), lambda v: v[3][0] if v[0] == 'agg' and v[1] == 'tuple' else v)):
        I = flow.new_interp(P)
        I.unordered.add(X)
        I.termty[hint] = 'u32'
        f = acc[name]
        rep.analysed(f)
        for s, ch in Mo.producer(I, T, X, 'imap', A.St()):
            ix = any(x[0] == 'loop' and mentions(x[3], lambda y: y and y[0] == 'psum') for x in ch)
            if not ix or I.rng(N, s)[0] > 0xffffffff:
                continue
            keys, vals = [x for x in ch if x[0] == 'loop'][-2:]
            n += search(I, c, rep, f, s, ch, args, pick, keys, vals)
        rep.fns |= set(I.inlined)
    return n


def search(I, c, rep, f, s, ch, args, pick, keys, vals):
    s = s.fork()
    s.done = ()
    I.looplog = {}
    ob = '%s(%s) [%s]' % (f.path.split('::')[-1], 'hint' if len(args) > 1 and args[0] != Mo.NONE else '', c)
    outs = [(k, w, sp, s2, pick(v) if k == 'ok' and v is not None else v) for k, w, sp, s2, v in r12.outcomes(I, f, s, ch, args)]
    kp = lambda p: r12.one(I, s, keys, p)
    inv = {}
    why = []
    for lid, L in I.looplog.items():
        try:
            inv[lid] = invariants(I, L, lid, kp)
        except Bad as e:
            why.append(str(e))
    if not why:
        for o in outs:
            w = judge(I, o, inv, kp, vals)
            if w:
                why.append(w)
        for lid, L in I.looplog.items():
            w = shrinks(I, L, lid, inv[lid])
            if w:
                why.append(w)
    if not why:
        rep.proved(ob, len(outs))
        return 1
    if ob in rep.refuted:
        return 1
    bad = simulate(I, rep, s, outs, kp, vals, args)
    if bad:
        rep.refuted.add(ob)
        rep.violation(ob, '%s (%s)' % (bad, why[0]), f.sp, f.path, flow.conds(s), key=ob.replace(' ', ''))
    else:
        rep.undecided(ob, why[0], f.sp)
    return 1


class Bad(Exception):
    pass


def facts(conds, kp):
    """-> bounds (below, above): every position < a is less, every position >= b is greater"""
    lo, hi, eq = [], [], []
    for t, v in answers(conds):
        p = position(t, kp)
        if p is None:
            raise Bad('the predicate sees something other than the key of one entry: %s' % tshow(t)[:200])
        if v == 'less':
            lo.append(add(p, C(1)))
        elif v == 'greater':
            hi.append(p)
        elif v == 'equal':
            eq.append(p)
        elif v == ('equal', 'less'):
            lo.append(p)
        elif v == ('equal', 'greater'):
            hi.append(add(p, C(1)))
    return lo, hi, eq


def bounds(V):
    """the loop's locations and the sums of two of them: base + length is a bound too"""
    V = sorted(V, key=repr)
    return V + [add(a, b) for i, a in enumerate(V) for b in V[i + 1:]]


def sub_phis(t, new):
    return tmap(t, lambda y: new.get(y, y))


def phis(I, L, lid):
    out = {}
    for cell, kind in L.havoc.items():
        init = L.pre.mem.get(cell)
        if init is None or init[0] in ('bs', 'vec', 'agg', 'ref', 'uninit', 'seq'):
            continue
        out[('phi', lid, cell, ())] = cell
    return out


def poly(I, st, pre, more, nums):
    q = Poly(I, st)
    q.add('Ge', N, C(0))
    for a, b in nums:
        q.add('Le', a, b)
    q.conds(tuple(pre) + tuple(more))
    return q


def invariants(I, L, lid, kp):
    V = phis(I, L, lid)
    pre = L.pre.conds
    lo0, hi0, eq0 = facts(pre, kp)
    init = {v: L.pre.mem[cell] for v, cell in V.items()}
    q = poly(I, L.pre, pre, (), ())
    B = bounds(V)
    at = lambda t: sub_phis(t, init)
    nums = {(C(0), v) for v in V} | {(v, N) for v in B} | {(v, w) for w in V for v in V if w != v}
    nums = {(a, b) for a, b in nums if q.holds('Le', at(a), at(b))}
    less = {v for v in B if any(q.holds('Le', at(v), b) for b in lo0 + [C(0)])}
    great = {v for v in B if any(q.holds('Ge', at(v), b) for b in hi0 + [N])}
    while True:
        n0 = (len(nums), len(less), len(great))
        for ai, s2, h0 in L.latches:
            q = poly(I, s2, pre, s2.conds[L.base:], nums)
            if q.empty():
                continue
            new = {v: s2.mem.get(cell, v) for v, cell in V.items()}
            to = lambda t: sub_phis(t, new)
            lo, hi, eq = facts(s2.conds, kp)
            if eq:
                raise Bad('the search goes on after a match')
            nums = {(a, b) for a, b in nums if q.holds('Le', to(a), to(b))}
            lb, hb = lo + list(less) + [C(0)], hi + list(great) + [N]
            less = {v for v in less if any(q.holds('Le', to(v), b) for b in lb)}
            great = {v for v in great if any(q.holds('Ge', to(v), b) for b in hb)}
        if n0 == (len(nums), len(less), len(great)):
            return nums, less, great


def shrinks(I, L, lid, inv):
    """some difference of a bound above and a bound below decreases in every iteration"""
    nums, less, great = inv
    V = phis(I, L, lid)
    if not L.latches:
        return None
    for a in sorted(less, key=repr) + [C(0)]:
        for b in sorted(great, key=repr) + [N]:
            ok = True
            for ai, s2, h0 in L.latches:
                q = poly(I, s2, L.pre.conds, s2.conds[L.base:], nums)
                if q.empty():
                    continue
                now = {v: s2.mem.get(cell, v) for v, cell in V.items()}
                new = lambda t: sub_phis(t, now)
                if not (q.holds('Lt', sub(new(b), new(a)), sub(b, a)) and q.holds('Ge', sub(b, a), C(0))):
                    ok = False
                    break
            if ok:
                return None
    return 'no range shrinks in every iteration'


def loops_of(t):
    out = set()
    mentions(t, lambda y: len(y) == 4 and y[0] == 'phi' and isinstance(y[1], int) and out.add(y[1]))
    return out


def judge(I, o, inv, kp, vals):
    kind, why, sp, st, v = o
    if st is None:
        return '%s: %s' % (kind, why)
    lids = set()
    for c in st.conds:
        lids |= loops_of(c)
    nums, less, great = set(), set(), set()
    for l in lids:
        if l not in inv:
            return 'a loop that is not understood'
        nums |= inv[l][0]
        less |= inv[l][1]
        great |= inv[l][2]
    q = poly(I, st, (), st.conds, nums)
    if q.empty():
        return None
    if kind != 'ok':
        return '%s: %s' % (kind, why)
    try:
        lo, hi, eq = facts(st.conds, kp)
    except Bad as e:
        return str(e)
    v = I.nf(st, v)
    if v[0] != 'agg' or v[1] != OPT:
        return 'returns %s' % tshow(v)[:200]
    if v[2] == 1:
        for p in eq:
            if v[3][0] == r12.one(I, st, vals, p):
                return None
        return 'returns %s' % tshow(v)[:200]
    if eq:
        return 'a match is not returned'
    for a in lo + sorted(less, key=repr) + [C(0)]:
        for b in hi + sorted(great, key=repr) + [N]:
            if q.holds('Ge', a, b):
                return None
    return 'gives up with positions left to probe'


# --------------------------------------------------------------------------- folding
class Sim(Ev):
    """the extracted transitions with a number of entries and the place of the key chosen"""
    def __init__(self, I, st, n, at, there, hint, kp):
        super().__init__(I, st)
        self.env = {N: n, ('p', 'hint'): hint}
        self.at, self.there, self.kp = at, there, kp
        self.phi = {}

    def atom(self, t):
        if t in self.env:
            return self.env[t]
        raise Unk(str(t)[:80])

    def ev(self, t):
        if t[0] == 'phi' and t in self.phi:
            return self.phi[t]
        if t in self.env:
            return self.env[t]
        if t[0] in ('max', 'min') and len(t) == 3:
            return (max if t[0] == 'max' else min)(self.ev(t[1]), self.ev(t[2]))
        if t[0] == 'disc' and isf(t):
            return {'less': -1, 'equal': 0, 'greater': 1}[self.says(t[1])]
        return super().ev(t)

    def says(self, t):
        p = position(t[3][1], self.kp)
        if p is None:
            raise Unk('key')
        p = self.ev(p)
        if not 0 <= p < self.env[N]:
            raise Unk('position')
        return 'less' if p < self.at else 'equal' if p == self.at and self.there else 'greater'

    def cond(self, c):
        if c[0] in ('isv', 'notv') and c[1][0] == 'call' and isf(c[1]):
            return (VALUES.get(c[2]) == self.says(c[1])) == (c[0] == 'isv')
        if c[0] == 'cmp' and (isf(c[2]) or isf(c[3])) and c[1] in ('Eq', 'Ne'):
            t, v = (c[2], c[3]) if isf(c[2]) else (c[3], c[2])
            t = t[1] if t[0] == 'disc' else t
            if variant(v) is None:
                raise Unk('variant')
            return (self.says(t) == variant(v)) == (c[1] == 'Eq')
        if c[0] == 'cmp':
            return CMP[c[1]](self.ev(c[2]), self.ev(c[3]))
        if c[0] in ('true', 'false'):
            if c[1][0] == 'cmp':
                return self.cond(c[1]) == (c[0] == 'true')
            return bool(self.ev(c[1])) == (c[0] == 'true')
        if c[0] in ('tyeq', 'tyne', 'next'):
            return True
        raise Unk(c[0])

    def size(self, cs):
        try:
            return self.all(cs)
        except (Unk, KeyError):
            return False

    def all(self, cs):
        return all(self.cond(c) for c in cs)


def simulate(I, rep, s, outs, kp, vals, args):
    hinted = len(args) > 1 and args[0] != Mo.NONE
    for n in (8, 9, 13, 40, 300, 70000):
        if not Sim(I, s, n, 0, False, 0, kp).size(s.conds):
            continue
        near = {k * n // 16 + d for k in range(17) for d in (-2, -1, 0, 1, 2)} | {65534, 65535, 65536, 254, 255, 256}
        for at in sorted(x for x in (near if n > 300 else set(range(n + 1))) if 0 <= x <= n):
            for there in ((True, False) if at < n else (False,)):
                for h in ({0, at, at + 1, max(at - 1, 0), n - 1, n, n + 3} if hinted else {0}):
                    if time.time() > rep.until:
                        return None
                    E = Sim(I, s, n, at, there, h, kp)
                    try:
                        r = play(I, E, outs, vals, n)
                    except (Unk, KeyError):
                        continue
                    want = ('found', at) if there else ('none',)
                    if r is not None and r != want:
                        h = ', hinted at %d' % h if hinted else ''
                        return 'of %d entries, the key %s position %d%s: %s' % (n, 'at' if there else 'absent before', at, h, {'found': 'position %s is returned' % (r[1:] or '?'), 'none': 'nothing is found', 'stuck': 'the search never ends',
                                                                                                                               'fails': 'the search fails: %s' % (r[1:],)}[r[0]])
    return None


def play(I, E, outs, vals, n):
    for lid, L in list(I.looplog.items()) + [(None, None)]:
        if L is not None and not E.all(L.pre.conds):
            continue
        mine = [o for o in outs if o[3] is not None and (not any(loops_of(c) for c in o[3].conds) if L is None else any(lid in loops_of(c) for c in o[3].conds))]
        if any(loops_of(c) - {lid} for o in mine for c in o[3].conds):
            raise Unk('nested')
        if L is None:
            for o in mine:
                if E.all(o[3].conds):
                    return result(I, E, o, vals)
            return None
        E.phi = {('phi', lid, cell, ()): E.ev(L.pre.mem[cell]) for cell in phis(I, L, lid).values()}
        for step in range(n + 50):
            for o in mine:
                if E.all(o[3].conds[L.base:]):
                    return result(I, E, o, vals)
            for ai, s2, h0 in L.latches:
                if E.all(s2.conds[L.base:]):
                    E.phi = {p: E.ev(s2.mem.get(p[2], p)) for p in E.phi}
                    break
            else:
                raise Unk('no transition')
        return ('stuck',)
    return None


def result(I, E, o, vals):
    kind, why, sp, st, v = o
    if kind != 'ok':
        if kind in ('err', 'bad', 'panic'):
            return ('fails', why)
        raise Unk(kind)
    v = I.nf(st, v)
    if v[0] != 'agg' or v[1] != OPT:
        raise Unk('value')
    if v[2] == 0:
        return ('none',)
    found = []
    mentions(v[3][0], lambda y: y[0] == 'elem' and len(y) == 3 and found.append(y[2]) and False)
    for p in found:
        if v[3][0] == r12.one(I, st, vals, p):
            return ('found', E.ev(p))
    if found and len({E.ev(p) for p in found}) == 1:
        return ('found', 'of something else')
    raise Unk('value')


# --------------------------------------------------------------------------- linear
def linear(P, c, rep):
    n = 0
    for mod, name, f in r08.clients(P):
        if mod != 'find':
            continue
        S = r08.subject(f)
        V = ('param', 'V')
        for i, T in flow.subjects(P, 'ser'):
            if T[0] != 'adt' or T[1].split('::')[-1] not in ('BTreeMap', 'GenericOrdMap', 'OrdMap') or len(T[2]) < 2:
                continue
            T = T[:2] + ((S[2][0] if S[0] == 'adt' else S[1][0],) + tuple(T[2][1:]),) + tuple(T[3:])
            n += scan(P, c, rep, f, name, T)
    return n


def scan(P, c, rep, f, name, T):
    I = flow.new_interp(P)
    I.freecalls = (F,)
    rep.analysed(f)
    ob = '%s over %s [%s]' % (name, show(T), c)
    try:
        ps = Mo.producer(I, T, X, 'ser', A.St())
    except (A.Unsup, A.Mismatch) as e:
        rep.undecided(ob, 'writer: %s' % e.why)
        return 0
    good = True
    for s, ch in ps or []:
        s = s.fork()
        s.done = ()
        loops = [x for x in ch if x[0] == 'loop']
        if loops:
            D = loops[0][2]
            if D != ('seq', X):
                if D[0] == 'rev' or D[0] == 'perm' and D[2][0] in ('desc', 'reversed'):
                    rep.violation(ob, 'the entries are written in descending order, %s' % tshow(D)[:100], f.sp, f.path, flow.conds(s), key=ob.replace(' ', ''))
                else:
                    rep.undecided(ob, 'written in an order that is not known to ascend: %s' % tshow(D)[:120])
                good = False
                continue
        Y = ('p', 'rest')
        I.termty[Y] = 'slice'
        after = ('raw', Y, ('len', Y))
        I.looplog = {}
        for kind, why, st, v, left in ends(I, f, s, tuple(ch) + (after,)):
            if st is None:
                good = False
                rep.undecided(ob, '%s: %s' % (kind, why))
                continue
            w, sure = verdict(I, kind, why, st, v, left, loops, after)
            if w is None:
                continue
            good = False
            if sure and possible(I, st):
                rep.violation(ob, w, f.sp, f.path, flow.conds(st), key=ob.replace(' ', ''))
            else:
                rep.undecided(ob, w, f.sp)
        for lid, L in I.looplog.items():
            if L.driver is None or not loops:
                continue
            for ai, s2, h0 in L.latches:
                if ('left', loops[0][1]) in flat(s2.conds):
                    continue        # consuming what is left after a decision
                av = [v for t, v in answers(s2.conds[L.base:])]
                if av in (['less'], ['greater'], [('greater', 'less')]):
                    continue
                good = False
                w = 'an entry is passed without a comparison' if not av else 'the search goes on after a match' if 'equal' in av or any('equal' in a for a in av if isinstance(a, tuple)) else 'answers %s' % av
                if possible(I, s2) and (not av or 'equal' in av or ('equal', 'less') in av or ('equal', 'greater') in av):
                    rep.violation(ob, w, f.sp, f.path, flow.conds(s2), key=ob.replace(' ', ''))
                else:
                    rep.undecided(ob, w, f.sp)
    if good and ps:
        rep.proved(ob)
    rep.fns |= set(I.inlined)
    return 1


class Place(Sim):
    """one entry of a map of a chosen size"""
    def says(self, t):
        raise Unk('answer')

    def cond(self, c):
        if answer(c) or c[0] == 'notv' and isf(c[1]):
            return True          # the predicate may answer so, all earlier keys being less
        if c[0] == 'cmp' and (isf(c[2]) or isf(c[3])):
            return True
        return super().cond(c)


def possible(I, st, L=None):
    """some map has an entry for which this path is taken"""
    if st.free:
        return True
    todo = set()
    for c in st.conds:
        mentions(c, lambda y: y[0] in ('left', 'phi') and todo.add(y) and False)
    todo = sorted(todo, key=repr)
    logs = dict(I.looplog)
    if len(todo) > 3 or any(t[0] == 'phi' and (logs.get(t[1]) is None or logs[t[1]].counter is None or logs[t[1]].counter[0] != t) for t in todo):
        return False
    items = set()
    for c in st.conds:
        mentions(c, lambda y: y[0] == 'len' and y != N and items.add(y) and False)
    for n in (1, 2, 3, 9, 70, 300):
        small = [0, 1, 2, n // 2, n - 2, n - 1]
        for at in itertools.product([x for x in dict.fromkeys(small) if 0 <= x < n], repeat=len(todo)):
            for size in ((5,) if not items else (5, 300, 70000, 1 << 33)):
                E = Place(I, st, n, 0, False, 0, None)
                E.env.update({y: size for y in items})
                try:
                    for t, j in zip(todo, at):
                        if t[0] == 'left':
                            E.env[t] = j
                    for t, j in zip(todo, at):
                        if t[0] == 'phi':
                            Lp = logs[t[1]]
                            init, end = E.ev(I.phi_init(Lp.pre, t[2], t[3])), E.ev(I.count(st, Lp.driver))
                            if j >= end:
                                raise Unk('past the end')
                            E.env[t] = init - j if Lp.driver[2] == I.phi_init(Lp.pre, t[2], t[3]) else init + j
                    if E.all(st.conds):
                        return True
                except (Unk, KeyError):
                    pass
    return False


def flat(cs):
    out = set()
    for c in cs:
        mentions(c, lambda y: y[0] == 'left' and out.add(y) and False)
    return out


def ends(I, f, st, chunks):
    st = st.fork()
    cell = I.newcell(st, ('bs', chunks))
    I.streams = (cell,)
    I.loopctx = []
    try:
        rs = I.run_fn(f, {}, [('ref', cell, ()), F, ('unit',)], st, 2)
    except (A.Unsup, A.Mismatch) as e:
        yield 'unsup', e.why, None, None, None
        return
    for s2, kind, v in rs:
        if kind != 'ret':
            w, sp = flow.splitwhy(v)
            yield kind, w, s2, None, None
            continue
        v = I.rderef(s2, v)
        left = s2.mem[cell][1]
        if v[0] != 'agg' or v[1] != RES:
            yield 'unsup', 'returns %s' % tshow(v)[:100], s2, None, left
        elif v[2] == 1:
            yield 'err', 'the search fails with %s' % tshow(I.deep(s2, v[3][0]))[:200], s2, None, left
        else:
            yield 'ok', None, s2, I.deep(s2, v[3][0]), left


def verdict(I, kind, why, st, v, left, loops, after):
    if kind != 'ok':
        return '%s: %s' % (kind, why), kind in ('bad', 'err', 'panic')
    av = answers(st.conds)
    last = av[-1][1] if av else None
    if v[0] != 'agg' or v[1] != OPT:
        return 'returns %s' % tshow(v)[:200], False
    left = tuple(I.drop_empty(st, left))
    if v[2] == 0:
        if last not in (None, 'greater'):
            return 'gives up after a key that compares %s' % (last,), isinstance(last, str) or 'equal' in last or 'less' in last
        if last is None and loops and not st.done:
            return 'gives up before any comparison', True
        if left != (after,):
            return 'without a match it leaves %s unread' % tshow(('bs', left))[:200], True
        return None, True
    if last != 'equal':
        return 'an entry whose key compares %s is returned' % (last,), last is not None or bool(loops)
    lp = loops[0]
    part = lp[3][0][1][-1]
    want = part[2] if part[0] == 'nt' else None
    if v[3][0] == want:
        return None, True
    return 'returns %s where the entry that matched holds %s' % (tshow(v[3][0])[:150], tshow(want)[:100] if want else '?'), want is not None


# --------------------------------------------------------------------------- what is written
def written(P, c, rep):
    """indexed entries are written in ascending order of the key bytes the search compares"""
    n = 0
    for i, T in flow.subjects(P, 'imap'):
        r20.one(P, c, rep, 'imap', T)
        n += 1
    return n
