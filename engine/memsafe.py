"""Facts that make an unchecked operation sound, read off the type-checked MIR.

Values are named by the expression that defines them (locals assigned once are followed
back), lengths and sizes become polynomials over unconstrained atoms, and the branches and
assertions that dominate a program point are facts about them.  `Point.need` decides an
inequality at a point: proved (by the facts), refuted (values that satisfy every fact and
break it), or open."""
import itertools

import errflow
from mir import show
from ranges import Ranges, NEG

SIZES = {'u8': (1, 1), 'i8': (1, 1), 'bool': (1, 1), 'u16': (2, 2), 'i16': (2, 2), 'u32': (4, 4), 'i32': (4, 4), 'f32': (4, 4), 'char': (4, 4),
         'u64': (8, 8), 'i64': (8, 8), 'f64': (8, 8), 'usize': (8, 8), 'isize': (8, 8), 'u128': (16, 16), 'i128': (16, 16)}
ADTS = {'Uuid': (16, 1), 'Decimal': (16, 4)}
THROUGH = {'ok_or', 'ok_or_else', 'branch', 'map_err', 'unwrap', 'expect', 'deref', 'deref_mut', 'as_slice', 'as_mut_slice', 'as_ref', 'as_mut', 'borrow', 'borrow_mut',
           'into_iter', 'unwrap_unchecked', 'new_unchecked', 'cast_const', 'cast_mut', 'black_box', 'into_boxed_slice', 'as_bytes'}
FREE = ('deserialize_revisioned', 'from_le_bytes', 'from_be_bytes', 'read_u32_le', 'deserialize_revisioned_specialised')


def layout(t):
    if t[0] == 'prim':
        return SIZES.get(t[1])
    if t[0] == 'adt':
        return ADTS.get(t[1].split('::')[-1])
    if t[0] == 'array' and str(t[2]).isdigit():
        e = layout(t[1])
        return (e[0] * int(t[2]), e[1]) if e else None
    return None


class Ev:
    def __init__(self, fn):
        self.fn = fn
        self.R = Ranges(fn)
        self.defs = self.R.defs
        self._memo = {}

    def one(self, l):
        d = self.defs.get(l)
        if l <= self.fn.argc or not d or len(d) != 1 or l in self.R.multi:
            return None
        return d[0]

    def ex(self, o):
        if o['k'] == 'const':
            if 'int' in o:
                return ('k', o['int'])
            return ('const', o.get('s') or str(o.get('fn', {}).get('def')), o.get('t'))
        return self.place(o['pl'])

    def place(self, pl):
        e = self.loc(pl['l'])
        for p in pl['p']:
            if p[0] == 'deref':
                e = e[1] if e[0] == '&' else e
            elif p[0] == 'downcast':
                continue
            elif p[0] == 'field':
                n = str(p[1])
                if e[0] == 'ovf' and n == '0':
                    e = e[1]
                elif e[0] in ('range', 'tuple') and n.isdigit() and int(n) < len(e) - 1:
                    e = e[1 + int(n)]
                elif e[0] == 'pay' or e[0] in ('csub', 'mul', 'add', 'sub', 'call', 'len', 'k') and n == '0':
                    e = e
                else:
                    e = ('fld', e, n)
            else:
                e = ('proj', e, str(p))
        return e

    def loc(self, l):
        if l in self._memo:
            return self._memo[l]
        self._memo[l] = ('v', l)
        e = self._loc(l)
        self._memo[l] = e
        return e

    def _loc(self, l):
        if l <= self.fn.argc:
            return ('p', l) if l not in self.defs else ('v', l)
        d = self.one(l)
        if d is None:
            return ('v', l)
        if d[0] == 's':
            return self.rv(l, d[3])
        return self.call(l, d[3])

    def rv(self, l, rv):
        k = rv['k']
        if k == 'use':
            return self.ex(rv['o'])
        if k in ('ref', 'rawptr'):
            e = self.place(rv['pl'])
            return e if rv['pl']['p'] and rv['pl']['p'][-1][0] == 'deref' else ('&', e)
        if k == 'cast':
            ck = str(rv['ck'])
            e = self.ex(rv['o'])
            if 'IntToInt' in ck:
                return e if self.R.root({'k': 'copy', 'pl': {'l': l, 'p': []}})[0] != '?' or e[0] in ('k',) else ('int', e, show(self.fn.crate.ty(rv['to'])))
            if 'Pointer' in ck or 'PtrToPtr' in ck or 'Unsize' in ck:
                return e
            return ('conv', e)
        if k == 'bin':
            op = rv['op'].replace('WithOverflow', '').replace('Unchecked', '')
            a, b = self.ex(rv['a']), self.ex(rv['b'])
            r = None
            if op in ('Add', 'Sub', 'Mul'):
                r = (op.lower(), a, b)
            elif op in NEG:
                return ('cmp', op, a, b)
            elif op == 'Shl' and b[0] == 'k' and 0 <= b[1] < 64:
                r = ('k', a[1] << b[1]) if a[0] == 'k' else ('mul', a, ('k', 1 << b[1]))
            elif op in ('Div', 'Shr') and a[0] == b[0] == 'k' and b[1] > 0:
                r = ('k', a[1] // b[1] if op == 'Div' else a[1] >> b[1])
            elif op == 'Shr' and b[0] == 'k' and 0 <= b[1] < 64:
                r = ('div', a, ('k', 1 << b[1]))
            elif op == 'Div':
                r = ('div', a, b)
            if r is None:
                return ('v', l)
            return ('ovf', r) if 'WithOverflow' in rv['op'] else r
        if k == 'un':
            if 'Not' in str(rv.get('op')):
                e = self.ex(rv.get('o') or rv.get('a'))
                return ('cmp', NEG[e[1]], e[2], e[3]) if e[0] == 'cmp' else ('not', e)
            if 'PtrMetadata' in str(rv.get('op')):
                return ('len', self.cont(self.ex(rv.get('o') or rv.get('a'))))
            return ('v', l)
        if k == 'agg':
            if rv.get('def', '').endswith(('ops::Range', 'range::Range')) and len(rv['ops']) == 2:
                return ('range',) + tuple(self.ex(o) for o in rv['ops'])
            if rv.get('def', '').endswith('ops::RangeTo'):
                return ('range', ('k', 0), self.ex(rv['ops'][0]))
            if rv.get('ak') == 'tuple':
                return ('tuple',) + tuple(self.ex(o) for o in rv['ops'])
            if rv.get('vn') in ('Ok', 'Some') and len(rv['ops']) == 1:
                return self.ex(rv['ops'][0])
            return ('v', l)
        if k == 'len':
            return ('len', self.cont(self.place(rv['pl'])))
        return ('v', l)

    def cont(self, e):
        while e[0] in ('&',):
            e = e[1]
        return e

    def call(self, l, t):
        d, g = errflow.callee(t)
        if not d:
            return ('v', l)
        last = d.split('::')[-1]
        a = [self.ex(o) for o in t['a']]
        T = [self.fn.crate.ty(x) for x in (g.get('args') or []) if isinstance(x, int)]
        if last == 'size_of' and T:
            z = layout(T[0])
            return ('k', z[0]) if z else ('size', show(T[0]))
        if last == 'align_of' and T:
            z = layout(T[0])
            return ('k', z[1]) if z else ('align', show(T[0]))
        if last == 'size_of_val' and a:
            e = self.elem(t['a'][0])
            if e is not None:
                return ('mul', self.length(self.cont(a[0])), e)
        if last in ('checked_mul', 'strict_mul', 'unchecked_mul', 'mul') and len(a) == 2:
            return ('mul', a[0], a[1])
        if last in ('checked_add', 'strict_add', 'unchecked_add', 'add') and len(a) == 2 and 'ptr' not in d:
            return ('add', a[0], a[1])
        if last in ('checked_sub', 'strict_sub', 'unchecked_sub', 'sub') and len(a) == 2 and 'ptr' not in d:
            return ('sub', a[0], a[1])
        if last in ('min', 'max') and len(a) == 2:
            return (last, a[0], a[1])
        if last in ('len',) and len(a) == 1:
            return ('len', self.cont(a[0]))
        if last == 'capacity' and len(a) == 1:
            return ('cap', self.cont(a[0]))
        if last in ('lt', 'le', 'gt', 'ge', 'eq', 'ne') and len(a) == 2:
            return ('cmp', last.capitalize(), self.cont(a[0]), self.cont(a[1]))
        if last in ('as_ptr', 'as_mut_ptr') and len(a) == 1:
            return ('ptr', self.cont(a[0]), T[0] if T else None)
        if last == 'cast' and len(a) == 1:
            return a[0]
        if last in ('clone', 'to_owned') and a and self.fn.local_ty(l)[0] == 'prim':
            return self.cont(a[0])
        if last in THROUGH and a:
            return a[0]
        return ('call', last, l, tuple(a))

    def elem(self, o):
        """size of the elements a pointer, slice or vector operand holds"""
        if o['k'] == 'const':
            return None
        t = self.fn.crate.ty(o['pl']['t']) if 't' in o['pl'] else self.fn.local_ty(o['pl']['l'])
        t = elem_ty(t)
        if t is None:
            return None
        z = layout(t)
        return ('k', z[0]) if z else ('size', show(t))

    def length(self, c):
        """number of elements of a container"""
        if c[0] == 'call':
            n, a = c[1], c[3]
            if n == 'from_elem' and len(a) == 2 and not self.resized(c):
                return a[1]
            if n == 'peek_bytes' and len(a) == 2:
                return a[1]
            if n in ('index', 'index_mut', 'get', 'get_mut', 'get_unchecked', 'get_unchecked_mut') and len(a) == 2 and a[1][0] == 'range':
                return ('sub', a[1][2], a[1][1])
        return ('len', c)

    RESIZE = {'push', 'pop', 'truncate', 'clear', 'set_len', 'resize', 'extend', 'extend_from_slice', 'drain', 'remove', 'insert', 'append', 'split_off', 'retain', 'swap_remove', 'dedup', 'read_to_end', 'resize_with', 'extend_from_within'}

    def resized(self, c):
        for bi, last, t in self.uses(c):
            if last in self.RESIZE:
                return True
        return False

    def uses(self, c):
        for bi in sorted(self.fn.dominators()):
            b = self.fn.blocks[bi]
            if b['cl'] or b['t']['k'] != 'call':
                continue
            d, g = errflow.callee(b['t'])
            if any(self.cont(self.ex(o)) == c for o in b['t']['a']):
                yield bi, (d or '?').split('::')[-1], b['t']

    # ---------------------------------------------------------- polynomials
    def poly(self, e):
        k = e[0]
        if k == 'k':
            return {(): e[1]} if e[1] else {}
        if k == 'len':
            n = self.length(e[1])
            return {(e,): 1} if n == e else self.poly(n)
        if k == '&':
            return self.poly(e[1])
        if k in ('add', 'sub'):
            out = dict(self.poly(e[1]))
            for m, c in self.poly(e[2]).items():
                out[m] = out.get(m, 0) + (c if k == 'add' else -c)
            return {m: c for m, c in out.items() if c}
        if k == 'mul':
            out = {}
            for m, c in self.poly(e[1]).items():
                for n, d in self.poly(e[2]).items():
                    x = tuple(sorted(m + n, key=repr))
                    out[x] = out.get(x, 0) + c * d
            return {m: c for m, c in out.items() if c}
        return {(e,): 1}


def elem_ty(t):
    while True:
        if t[0] in ('ref', 'ptr', 'rawptr'):
            x = t[2] if len(t) > 2 and isinstance(t[2], tuple) else t[1]
            if x[0] in ('slice', 'adt', 'ref', 'array', 'str'):
                t = x
                continue
            return x
        if t[0] == 'slice':
            return t[1]
        if t[0] == 'array':
            return t[1]
        if t[0] == 'adt' and t[1].split('::')[-1] == 'Vec' and t[2]:
            return t[2][0]
        return None


def pdiff(a, b):
    out = dict(a)
    for m, c in b.items():
        out[m] = out.get(m, 0) - c
    return {m: c for m, c in out.items() if c}


def nonneg(p):
    return all(c >= 0 for c in p.values())


class Point:
    """facts at a block"""

    def __init__(self, ev, bi):
        self.ev, self.bi = ev, bi
        self.facts, self.odd = [], []
        fn = ev.fn
        dom = fn.dominators()
        preds = {}
        for x in dom:
            for s in fn.succs(x):
                preds.setdefault(s, []).append(x)
        for x in dom[bi]:
            t = fn.blocks[x]['t']
            if t['k'] == 'assert' and x != bi:
                self.fact(ev.ex(t['c']), t.get('exp', True))
            if t['k'] != 'switch' or x == bi:
                continue
            o = t['d']
            if o is None:
                continue
            e = ev.ex(o)
            vals = list(t['vals'])
            tos = [v[1] for v in vals] + [t['else']]
            for v, to in vals:
                if tos.count(to) == 1 and to in dom[bi] and preds.get(to) == [x]:
                    self.fact(e, int(v))
            to = t['else']
            if tos.count(to) == 1 and to in dom[bi] and preds.get(to) == [x]:
                if e[0] in ('cmp', 'not') or len(vals) == 1 and int(vals[0][0]) == 0:
                    self.fact(e, 1)
                else:
                    self.odd.append(e)

    def fact(self, e, v):
        neg = False
        while e[0] == 'not':
            e, neg = e[1], not neg
        if e[0] == 'cmp':
            truth = bool(v) != neg
            op = e[1] if truth else NEG[e[1]]
            self.facts.append((op, e[2], e[3]))
        elif isinstance(v, int) and e[0] in ('len', 'call', 'p') and not neg and v > 1:
            self.facts.append(('Eq', e, ('k', v)))
        elif not (e[0] == 'fld' and e[1][0] == 'ovf'):
            self.odd.append(e)

    def ineqs(self):
        """polynomials known to be >= 0"""
        ev = self.ev
        for op, a, b in self.facts:
            for x in alts(a, op in ('Gt', 'Ge')):
                for y in alts(b, op in ('Lt', 'Le')):
                    p, q = ev.poly(x), ev.poly(y)
                    one = {(): 1}
                    if op == 'Lt':
                        yield pdiff(pdiff(q, p), one)
                    if op in ('Le', 'Eq'):
                        yield pdiff(q, p)
                    if op == 'Gt':
                        yield pdiff(pdiff(p, q), one)
                    if op in ('Ge', 'Eq'):
                        yield pdiff(p, q)

    def need(self, lhs, rhs, strict=False):
        """lhs <= rhs (or <): ('proved'|'refuted'|'open', why)"""
        l = choice(self.ev, (lhs, rhs))
        if l is not None:
            out, why = [], None
            for d in self.ev.defs[l]:
                e = self.ev.rv(l, d[3]) if d[0] == 's' else self.ev.call(l, d[3])
                if has2(e, ('v', l)):
                    return 'open', None
                q = Point(self.ev, self.bi)
                other = Point(self.ev, d[1])
                q.facts += [f for f in other.facts if f not in q.facts]
                q.odd += other.odd
                v, w = q.need(put(lhs, ('v', l), e), put(rhs, ('v', l), e), strict)
                out.append(v)
                why = why or w
            if 'refuted' in out:
                return 'refuted', why
            return ('proved', None) if set(out) == {'proved'} else ('open', None)
        if self.holds(lhs, rhs, strict):
            return 'proved', None
        w = self.refute(lhs, rhs, strict)
        if w:
            return 'refuted', w
        return 'open', None

    def holds(self, x, y, strict):
        if x[0] == 'max':
            return all(self.holds(z, y, strict) for z in x[1:])
        if y[0] == 'min':
            return all(self.holds(x, z, strict) for z in y[1:])
        if self.proves(x, y, strict):
            return True
        return x[0] == 'min' and any(self.holds(z, y, strict) for z in x[1:]) or y[0] == 'max' and any(self.holds(x, z, strict) for z in y[1:])

    def proves(self, x, y, strict):
        ev = self.ev
        p = pdiff(ev.poly(y), ev.poly(x))
        if strict:
            p = pdiff(p, {(): 1})
        if nonneg(p):
            return True
        fs = list(self.ineqs()) + [pdiff(ev.poly(s[1]), ev.poly(s[2])) for s in subs((x, y))]
        for f in fs:
            if nonneg(pdiff(p, f)):
                return True
        for f, g in itertools.combinations(fs, 2):
            if nonneg(pdiff(pdiff(p, f), g)):
                return True
        return False

    def open_to_all(self):
        b = self.ev.fn.b
        return b.get('reach') and b.get('vis') == 'Public' and not b.get('unsafe') and '{closure' not in self.ev.fn.path

    def refute(self, lhs, rhs, strict):
        ev = self.ev
        ats = set()
        for e in (lhs, rhs):
            if not atoms(ev, e, ats):
                return None
        if not ats or len(ats) > 4:
            return None if ats else ('constants' if (num(ev, lhs, {}) >= num(ev, rhs, {}) if strict else num(ev, lhs, {}) > num(ev, rhs, {})) else None)
        if not all(free(a) or a[0] == 'p' and self.open_to_all() for a in ats):
            return None
        if sum(a[0] == 'len' and (a[1][0] == 'p' or a[1][0] == 'fld' and a[1][1][0] == 'p') for a in ats) > 1:
            return None
        rel = []
        for op, a, b in self.facts:
            m = set()
            if not atoms(ev, a, m) or not atoms(ev, b, m):
                if any(has2(x, y) for x in (a, b) for y in ats):
                    return None
                continue
            if m & ats:
                if not m <= ats:
                    return None
                rel.append((op, a, b))
        for e in self.odd:
            if any(has2(e, y) for y in ats):
                return None
        ss = subs((lhs, rhs))
        G = (0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 64, 100, 1000, 1024, 4095, 4096, 4097, 65536, 70000, 1 << 20, (1 << 20) + 1)
        if len(ats) > 2:
            G = (0, 1, 2, 3, 8, 16, 17, 4097)
        order = sorted(ats, key=repr)
        for vs in itertools.product(G, repeat=len(order)):
            env = dict(zip(order, vs))
            if not all(CMP[op](num(ev, a, env), num(ev, b, env)) for op, a, b in rel):
                continue
            if not all(num(ev, s[1], env) >= num(ev, s[2], env) for s in ss):
                continue
            l, r = num(ev, lhs, env), num(ev, rhs, env)
            if l > r or strict and l == r:
                return ', '.join('%s = %d' % (say(ev, a), v) for a, v in zip(order, vs))
        return None


def choice(ev, es):
    """a local that several branches, none of them in a loop, give different values"""
    found = []

    def go(e):
        if not isinstance(e, tuple):
            return
        if len(e) == 2 and e[0] == 'v' and e[1] > ev.fn.argc:
            ds = ev.defs.get(e[1], [])
            if 1 < len(ds) <= 4 and e[1] not in ev.R.multi and e[1] not in ev.R.refmut and not any(loop_of(ev.fn, d[1]) for d in ds) and e not in found:
                found.append(e)
        for x in e:
            go(x)
    for e in es:
        go(e)
    return found[0][1] if found else None


def put(e, a, b):
    if e == a:
        return b
    return tuple(put(x, a, b) for x in e) if isinstance(e, tuple) else e


CMP = {'Lt': lambda a, b: a < b, 'Le': lambda a, b: a <= b, 'Gt': lambda a, b: a > b, 'Ge': lambda a, b: a >= b, 'Eq': lambda a, b: a == b, 'Ne': lambda a, b: a != b}


def alts(e, low):
    """expressions e is bounded by: parts of a minimum (upper) or of a maximum (lower)"""
    if e[0] == 'min' and not low:
        return list(e[1:]) + [e]
    return [e]


def subs(es):
    out = []

    def go(e):
        if not isinstance(e, tuple):
            return
        if e and e[0] == 'sub':
            out.append(e)
        for x in e:
            go(x)
    for e in es:
        go(e)
    return out


def num(ev, e, env):
    if e in env:
        return env[e]
    k = e[0]
    if k == 'k':
        return e[1]
    if k == '&':
        return num(ev, e[1], env)
    if k == 'len':
        return num(ev, ev.length(e[1]), env)
    f = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b, 'min': min, 'max': max, 'div': lambda a, b: a // max(b, 1)}[k]
    return f(num(ev, e[1], env), num(ev, e[2], env))


def atoms(ev, e, out):
    k = e[0]
    if k == 'k':
        return True
    if k == '&':
        return atoms(ev, e[1], out)
    if k in ('add', 'sub', 'mul', 'min', 'max', 'div'):
        return atoms(ev, e[1], out) and atoms(ev, e[2], out)
    if k == 'len':
        n = ev.length(e[1])
        if n != e:
            return atoms(ev, n, out)
        out.add(e)
        return True
    if k in ('call', 'size', 'p'):
        out.add(e)
        return True
    return False


def free(a):
    if a[0] == 'len':
        return a[1][0] in ('p', 'call', 'fld')
    return a[0] == 'size' or a[0] == 'call' and a[1] in FREE


def has(e, k):
    return isinstance(e, tuple) and (bool(e) and e[0] == k or any(has(x, k) for x in e))


def has2(e, y):
    return e == y or isinstance(e, tuple) and any(has2(x, y) for x in e)


def say(ev, a):
    if a[0] == 'len':
        return 'the length of ' + say(ev, a[1])
    if a[0] == 'p':
        return 'parameter %d' % a[1]
    if a[0] == 'call':
        return 'the value read' if a[1] in FREE else 'the result of %s' % a[1]
    return str(a)[:60]


# ------------------------------------------------------------ growing vectors
QUIET = {'len', 'capacity', 'is_empty', 'as_ptr', 'as_mut_ptr', 'deref', 'deref_mut', 'iter', 'index', 'last', 'first', 'as_slice'}


def loop_of(fn, bi):
    """innermost loop around a block"""
    best = None
    for h, body in fn.loops().items():
        if bi in body and (best is None or len(body) < len(best[1])):
            best = (h, body)
    return best


def room(ev, bi, V):
    """len(V) < capacity(V) holds at block bi: (verdict, why)"""
    fn = ev.fn
    if V[0] != 'call' or V[1] not in ('with_capacity', 'new', 'default'):
        return 'open', 'capacity of the vector unknown'
    D = ev.one(V[2])[1]
    lp = loop_of(fn, bi)
    pushes, grows = [], []
    for b, last, t in ev.uses(V):
        if last == 'push':
            pushes.append(b)
        elif last in RESERVE:
            if reaches(fn, b, bi):
                grows.append((b, t))
        elif last not in QUIET and reaches(fn, b, bi):
            return 'open', 'the vector is also used by %s' % last
    n = V[3][0] if V[1] == 'with_capacity' else None
    if grows:
        # reserve(k) of a vector nothing has been pushed to: capacity >= k
        if len(grows) > 1 or n is not None:
            if n is None:
                return 'open', 'several reservations'
            r, w = room_of(ev, bi, V, n, D, lp, pushes)
            return (r, w) if r == 'proved' else ('open', 'a reservation besides the initial capacity')
        b, t = grows[0]
        if b not in fn.dominators()[bi] or (lp and b in lp[1]) or loop_of(fn, b) or any(reaches(fn, p, b) for p in pushes) or len(t['a']) != 2:
            return 'open', 'a reservation of unknown effect'
        return room_of(ev, bi, V, ev.ex(t['a'][1]), b, lp, pushes)
    if n is None:
        return 'refuted', 'the vector is created without capacity'
    return room_of(ev, bi, V, n, D, lp, pushes)


RESERVE = {'reserve', 'reserve_exact', 'try_reserve', 'try_reserve_exact'}


def room_of(ev, bi, V, n, D, lp, pushes):
    """room, where V is empty with capacity n at block D"""
    fn = ev.fn
    if lp is None:
        before = [b for b in pushes if b != bi and reaches(fn, b, bi)]
        if any(loop_of(fn, b) for b in before):
            return 'open', 'pushes in another loop'
        r, w = Point(ev, bi).need(('k', len(before)), n, True)
        return (r, w and 'capacity may be too small: ' + w) if r != 'refuted' or len(before) == 0 or all(b in fn.dominators()[bi] for b in before) else ('open', None)
    h, body = lp
    if D in body:
        return 'open', 'the vector is created inside the loop'
    inl = [b for b in pushes if b in body]
    if any(b not in body and reaches(fn, b, bi) for b in pushes):
        return 'open', 'pushes before the loop'
    if any(loop_of(fn, b)[0] != h for b in inl):
        return 'open', 'pushes in an inner loop'
    for hh, bb in fn.loops().items():
        if hh != h and h in bb and D not in bb and body < bb:
            return 'open', 'nested loops'
    # how often the loop runs
    trips = driver(ev, h, body, bi)
    if trips is None:
        return 'open', 'number of iterations unknown'
    if isinstance(trips, str):
        return 'open', trips
    per = sorted(inl)
    if len(per) == 0:
        return Point(ev, bi).need(('k', 0), n, True)
    if len(per) > 1 and not exclusive(fn, per, h):
        many = len(per)
        if all(p in fn.dominators()[l] for p in per for l in latches(fn, h, body)):
            return verdict(Point(ev, bi).need(('mul', ('k', many), trips), n), 'each iteration pushes %d times' % many)
        return 'open', 'several pushes in an iteration'
    r, w = Point(ev, bi).need(trips, n)
    if r == 'refuted' and not (per[0] in set.intersection(*[fn.dominators()[l] for l in latches(fn, h, body)]) if len(per) == 1 else False):
        return 'open', 'not every iteration pushes'
    if r == 'open' and unrelated(ev, bi, trips, n):
        return 'refuted', 'nothing relates the capacity asked for to the number of iterations'
    return verdict((r, w), 'the loop can run more often than the capacity asked for')


def verdict(rw, why):
    r, w = rw
    return (r, '%s (%s)' % (why, w)) if r == 'refuted' else rw


def unrelated(ev, bi, m, n):
    a, b = set(), set()
    if not atoms(ev, m, a) or not atoms(ev, n, b):
        return False
    if a & b or not all(free(x) for x in a | b) or sum(x[0] == 'call' for x in a | b) < 1:
        return False
    p = Point(ev, bi)
    for op, x, y in p.facts:
        if any(has2(x, i) or has2(y, i) for i in a) and any(has2(x, i) or has2(y, i) for i in b):
            return False
    return not any(has2(o, i) for o in p.odd for i in a | b)


def latches(fn, h, body):
    return [b for b in body if h in fn.succs(b)]


def exclusive(fn, per, h):
    """no iteration passes two of these blocks"""
    for a in per:
        seen, st = set(), [s for s in fn.succs(a) if s != h]
        while st:
            x = st.pop()
            if x in seen or x == h:
                continue
            seen.add(x)
            st.extend(fn.succs(x))
        if any(b in seen for b in per if b != a):
            return False
    return True


def reaches(fn, a, b):
    seen, st = set(), list(fn.succs(a))
    while st:
        x = st.pop()
        if x == b:
            return True
        if x in seen:
            continue
        seen.add(x)
        st.extend(fn.succs(x))
    return False


def driver(ev, h, body, bi):
    """an upper bound, attained, of the iterations that reach block bi"""
    fn = ev.fn
    dom = fn.dominators()
    for b in sorted(body):
        t = fn.blocks[b]['t']
        if t['k'] != 'call' or b not in dom[bi] or not all(b in dom[l] for l in latches(fn, h, body)):
            continue
        d, g = errflow.callee(t)
        if not d or d.split('::')[-1] != 'next' or loop_of(fn, b)[0] != h:
            continue
        it = ev.cont(ev.ex(t['a'][0]))
        if it[0] == 'range':
            return ('sub', it[2], it[1]) if it[1] != ('k', 0) else it[2]
        if it[0] == 'call' and it[1] == 'new' and 'RangeInclusive' in show(fn.local_ty(it[2])) and len(it[3]) == 2:
            x = ('add', it[3][1], ('k', 1))
            return ('sub', x, it[3][0]) if it[3][0] != ('k', 0) else x
        return 'iterations of %s' % say(ev, it)
    return None


# ------------------------------------------------------------ type identity
def typeid_facts(ev, bi):
    """(pairs known to be the same type, whether some other boolean condition dominates)"""
    fn = ev.fn
    dom = fn.dominators()
    preds = {}
    for x in dom:
        for s in fn.succs(x):
            preds.setdefault(s, []).append(x)
    same, odd = set(), False
    for x in dom[bi]:
        t = fn.blocks[x]['t']
        if t['k'] != 'switch' or x == bi:
            continue
        o = t['d']
        l = o['pl']['l'] if o and o['k'] != 'const' else None
        d = ev.one(l) if l is not None else None
        for _ in range(6):
            if d and d[0] == 's' and d[3]['k'] == 'use' and d[3]['o']['k'] != 'const':
                d = ev.one(d[3]['o']['pl']['l'])
        if not d or d[0] != 'c':
            if d and d[0] == 's' and d[3]['k'] == 'un':
                odd = True
            continue
        c, g = errflow.callee(d[3])
        last = (c or '').split('::')[-1]
        into = None
        for v, to in t['vals']:
            if int(v) == 0 and to in dom[bi] and preds.get(to) == [x]:
                into = False
        if t['else'] in dom[bi] and preds.get(t['else']) == [x]:
            into = True
        if into is None:
            continue
        if last in ('eq', 'ne'):
            ids = []
            for a in d[3]['a']:
                ids.append(typeid(ev, a))
            if None not in ids and len(ids) == 2:
                if into == (last == 'eq'):
                    same.add(frozenset(ids))
                continue
        odd = True
    return same, odd


def typeid(ev, o):
    e = ev.cont(ev.ex(o))
    if e[0] == 'call' and e[1] == 'of':
        d = ev.one(e[2])
        c, g = errflow.callee(d[3])
        if 'TypeId' in c and g.get('args'):
            return show(ev.fn.crate.ty(g['args'][0]))
    return None
