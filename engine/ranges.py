"""Intraprocedural integer ranges on the type-checked MIR.

A value is followed back through its definitions (each local that is assigned once is a
name for one value); on the way down, the branches that dominate the program point and
compare that value with a constant narrow its range.  `explain` also tells whether some
other test of the value exists whose effect this analysis does not know."""
from mir import pp_place, show

W = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'u128': 128,
     'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64, 'i128': 128, 'bool': 1, 'char': 21}
NEG = {'Lt': 'Ge', 'Ge': 'Lt', 'Gt': 'Le', 'Le': 'Gt', 'Eq': 'Ne', 'Ne': 'Eq'}
SWAP = {'Lt': 'Gt', 'Gt': 'Lt', 'Le': 'Ge', 'Ge': 'Le', 'Eq': 'Eq', 'Ne': 'Ne'}


def full(t):
    if t == 'bool':
        return (0, 1)
    if t[0] == 'i':
        return (-(1 << (W[t] - 1)), (1 << (W[t] - 1)) - 1)
    return (0, (1 << W[t]) - 1)


def meet(a, b):
    return (max(a[0], b[0]), min(a[1], b[1]))


class Ranges:
    def __init__(self, fn):
        self.fn = fn
        self.defs = {}
        self.multi = set()
        self.users = {}
        self.refmut = set()
        for bi in fn.reachable():
            b = fn.blocks[bi]
            if b['cl']:
                continue
            for si, s in enumerate(b['s']):
                rv = s.get('rv')
                if rv is None:
                    continue
                self.define(s['pl'], ('s', bi, si, rv))
                if rv['k'] in ('ref', 'rawptr') and rv.get('mut'):
                    self.refmut.add(rv['pl']['l'])
            t = b['t']
            if t['k'] == 'call':
                self.define(t['d'], ('c', bi, None, t))
        for l in range(1, fn.argc + 1):
            if l in self.defs:
                self.multi.add(l)
        self.single = {l: d[0] for l, d in self.defs.items() if len(d) == 1 and l not in self.multi and l not in self.refmut}
        self._facts = {}
        self._preds = {}
        for bi in fn.reachable():
            for s in fn.succs(bi):
                self._preds.setdefault(s, set()).add(bi)

    def define(self, pl, d):
        if pl['p']:
            if not any(e[0] == 'deref' for e in pl['p']):
                self.multi.add(pl['l'])
            return
        self.defs.setdefault(pl['l'], []).append(d)

    def ty(self, o):
        if o['k'] == 'const':
            t = self.fn.crate.ty(o['t']) if 't' in o else None
            return t[1] if t and t[0] == 'prim' else None
        pl = o['pl']
        t = self.fn.local_ty(pl['l'])
        if not pl['p']:
            return t[1] if t[0] == 'prim' else None
        if 't' in pl:
            t = self.fn.crate.ty(pl['t'])
            return t[1] if t[0] == 'prim' else None
        e = pl['p']
        if t[0] == 'tuple' and len(e) == 1 and e[0][0] == 'field':
            x = t[1][int(e[0][1])]
            return x[1] if x[0] == 'prim' else None
        if len(e) == 1 and e[0][0] == 'deref' and t[0] == 'ref' and t[2][0] == 'prim':
            return t[2][1]
        return None

    def stable_place(self, pl):
        """a place that is read through a shared borrow of a parameter, or a component of a value that never changes"""
        l = pl['l']
        t = self.fn.local_ty(l)
        if pl['p'] and pl['p'][0][0] == 'deref':
            return t[0] == 'ref' and not t[1] and (l <= self.fn.argc and l not in self.defs or l in self.single)
        return l in self.single or l <= self.fn.argc and l not in self.defs and l not in self.refmut and l not in self.multi

    def root(self, o, depth=0):
        """the name of the value an operand holds; casts to a type that holds every value of the old one are the same value"""
        if o['k'] == 'const':
            return ('k', o['int']) if 'int' in o else ('?', id(o))
        pl = o['pl']
        if depth > 40:
            return ('?', pl['l'])
        if pl['p']:
            if len(pl['p']) == 1 and pl['p'][0][0] == 'deref' and pl['l'] in self.single:
                d = self.single[pl['l']]
                if d[0] == 's' and d[3]['k'] == 'ref' and not d[3].get('mut'):
                    return self.root({'k': 'copy', 'pl': d[3]['pl']}, depth + 1)
            if pl['p'][0][0] == 'field' and pl['l'] in self.single and len(pl['p']) == 1:
                d = self.single[pl['l']]
                if d[0] == 's' and d[3]['k'] == 'bin' and 'WithOverflow' in d[3]['op'] and str(pl['p'][0][1]) == '0':
                    return ('bin', d[3]['op'].replace('WithOverflow', ''), self.root(d[3]['a'], depth + 1), self.root(d[3]['b'], depth + 1))
            return ('pl', pp_place(pl)) if self.stable_place(pl) else ('?', pp_place(pl))
        l = pl['l']
        if l not in self.single:
            return ('p', l) if l <= self.fn.argc and l not in self.defs and l not in self.refmut else ('?', l)
        d = self.single[l]
        if d[0] == 's':
            rv = d[3]
            if rv['k'] == 'use':
                return self.root(rv['o'], depth + 1)
            if rv['k'] == 'cast' and 'IntToInt' in str(rv['ck']):
                f, t = self.ty(rv['o']), self.fn.crate.ty(rv['to'])
                if f in W and t[0] == 'prim' and t[1] in W and full(f)[0] >= full(t[1])[0] and full(f)[1] <= full(t[1])[1]:
                    return self.root(rv['o'], depth + 1)
            if rv['k'] == 'un' and rv['op'] == 'PtrMetadata':
                return ('len', self.vroot(rv['o']))
            if rv['k'] == 'bin' and rv['op'] in ('Add', 'Sub', 'Mul'):
                return ('bin', rv['op'], self.root(rv['a'], depth + 1), self.root(rv['b'], depth + 1))
        elif d[0] == 'c':
            t = d[3]
            f = t['f'].get('fn') if t['f']['k'] == 'const' else None
            if f and f['def'].split('::')[-1] == 'len' and len(t['a']) == 1:
                return ('len', self.vroot(t['a'][0]))
        return ('l', l)

    def vroot(self, o, depth=0):
        """the container a reference designates"""
        if o['k'] == 'const' or depth > 20:
            return ('?', id(o))
        pl = o['pl']
        if not pl['p'] and pl['l'] in self.single:
            d = self.single[pl['l']]
            if d[0] == 's' and d[3]['k'] in ('ref', 'rawptr'):
                p = d[3]['pl']
                if len(p['p']) == 1 and p['p'][0][0] == 'deref':
                    return self.vroot({'k': 'copy', 'pl': {'l': p['l'], 'p': []}}, depth + 1)
                return pp_place(p)
            if d[0] == 's' and d[3]['k'] in ('use', 'cast'):
                return self.vroot(d[3]['o'], depth + 1)
            if d[0] == 'c':
                t = d[3]
                f = t['f'].get('fn') if t['f']['k'] == 'const' else None
                if f and f['def'].split('::')[-1] in ('deref', 'as_slice', 'as_ref', 'borrow', 'as_bytes', 'deref_mut', 'as_mut_slice') and t['a']:
                    return self.vroot(t['a'][0], depth + 1)
        return '(*%s)' % pp_place(pl)

    # ---- facts ------------------------------------------------------------------------------
    def facts(self, bi):
        """[(op, root, root)] that hold on entry to block bi, from the branches that dominate it"""
        if bi in self._facts:
            return self._facts[bi]
        out = []
        dom = self.fn.dominators().get(bi, set())
        for h in dom:
            t = self.fn.blocks[h]['t']
            if t['k'] == 'assert':
                if t['to'] in dom and self._preds.get(t['to']) == {h}:
                    self.cond(t['c'], bool(t['exp']), out)
                continue
            if t['k'] != 'switch':
                continue
            arms = {}
            for v, to in t['vals']:
                arms.setdefault(to, []).append(v)
            for to, vs in arms.items():
                if to in dom and self._preds.get(to) == {h} and to != t['else']:
                    if len(vs) == 1:
                        self.eq(t['d'], vs[0], out)
                    else:
                        r = self.root(t['d'])
                        out.append(('Ge', r, ('k', min(vs))))
                        out.append(('Le', r, ('k', max(vs))))
            e = t['else']
            if e in dom and self._preds.get(e) == {h} and e not in arms:
                self.ne(t['d'], [v for v, _ in t['vals']], out)
        self._facts[bi] = out
        return out

    def eq(self, o, v, out):
        if self.ty(o) == 'bool':
            self.cond(o, bool(v), out)
        out.append(('Eq', self.root(o), ('k', v)))

    def ne(self, o, vs, out):
        if self.ty(o) == 'bool' and vs in ([0], [1]):
            self.cond(o, vs == [0], out)
        for v in vs:
            out.append(('Ne', self.root(o), ('k', v)))

    def cond(self, o, val, out, depth=0):
        if depth > 20 or o['k'] == 'const' or o['pl']['p'] or o['pl']['l'] not in self.single:
            return
        d = self.single[o['pl']['l']]
        if d[0] != 's':
            return
        rv = d[3]
        if rv['k'] == 'use':
            self.cond(rv['o'], val, out, depth + 1)
        elif rv['k'] == 'un' and rv['op'] == 'Not':
            self.cond(rv['o'], not val, out, depth + 1)
        elif rv['k'] == 'bin' and rv['op'] in NEG:
            out.append((rv['op'] if val else NEG[rv['op']], self.root(rv['a']), self.root(rv['b'])))

    # ---- ranges -----------------------------------------------------------------------------
    def range(self, o, bi, depth=0):
        ty = self.ty(o)
        r = self.range0(o, bi, depth)
        if ty in W:
            r = meet(r, full(ty))
        return self.narrow(self.root(o), r, bi)

    def narrow(self, root, r, bi):
        ne = set()
        for op, a, b in self.facts(bi):
            for op_, x, y in ((op, a, b), (SWAP[op], b, a)):
                if x != root or y[0] != 'k':
                    continue
                k = y[1]
                if op_ == 'Lt':
                    r = meet(r, (r[0], k - 1))
                elif op_ == 'Le':
                    r = meet(r, (r[0], k))
                elif op_ == 'Gt':
                    r = meet(r, (k + 1, r[1]))
                elif op_ == 'Ge':
                    r = meet(r, (k, r[1]))
                elif op_ == 'Eq':
                    r = meet(r, (k, k))
                elif op_ == 'Ne':
                    ne.add(k)
        while r[0] in ne:
            r = (r[0] + 1, r[1])
        while r[1] in ne:
            r = (r[0], r[1] - 1)
        return r

    def range0(self, o, bi, depth):
        INF = (-(1 << 200), 1 << 200)
        if o['k'] == 'const':
            return (o['int'], o['int']) if 'int' in o else INF
        ty = self.ty(o)
        top = full(ty) if ty in W else INF
        pl = o['pl']
        if depth > 30:
            return top
        if pl['p']:
            if len(pl['p']) == 1 and pl['p'][0][0] == 'field' and pl['l'] in self.single and str(pl['p'][0][1]) == '0':
                d = self.single[pl['l']]
                if d[0] == 's' and d[3]['k'] == 'bin':
                    return self.bin(d[3], bi, depth, top)
            return top
        if pl['l'] not in self.single:
            return top
        d = self.single[pl['l']]
        if d[0] == 's':
            rv = d[3]
            k = rv['k']
            if k == 'use':
                return self.range(rv['o'], bi, depth + 1)
            if k == 'cast':
                r = self.range(rv['o'], bi, depth + 1)
                return r if top[0] <= r[0] and r[1] <= top[1] else top
            if k == 'bin':
                return self.bin(rv, bi, depth, top)
            return top
        t = d[3]
        f = t['f'].get('fn') if t['f']['k'] == 'const' else None
        if not f:
            return top
        n = f['def'].split('::')[-1]
        if n in ('min', 'max') and len(t['a']) == 2:
            a, b = (self.range(x, bi, depth + 1) for x in t['a'])
            return (min(a[0], b[0]), min(a[1], b[1])) if n == 'min' else (max(a[0], b[0]), max(a[1], b[1]))
        if n == 'clamp' and len(t['a']) == 3:
            return (self.range(t['a'][1], bi, depth + 1)[0], self.range(t['a'][2], bi, depth + 1)[1])
        if n in ('unwrap_or', 'unwrap_or_default', 'from', 'into', 'unwrap', 'expect', 'leading_zeros', 'count_ones'):
            return top
        if n in ('size_of', 'align_of') and not t['a']:
            return (0, 1 << 32)
        return top

    def bin(self, rv, bi, depth, top):
        op = rv['op'].replace('WithOverflow', '').replace('Unchecked', '')
        a, b = self.range(rv['a'], bi, depth + 1), self.range(rv['b'], bi, depth + 1)
        if op == 'Add':
            return (a[0] + b[0], a[1] + b[1])
        if op == 'Sub':
            return (a[0] - b[1], a[1] - b[0])
        if op == 'Mul':
            c = [x * y for x in a for y in b]
            return (min(c), max(c))
        if op == 'BitAnd':
            if a[0] >= 0 and b[0] >= 0:
                return (0, min(a[1], b[1]))
        if op == 'Rem' and b[0] > 0 and a[0] >= 0:
            return (0, min(a[1], b[1] - 1))
        if op == 'Div' and b[0] > 0 and a[0] >= 0:
            return (a[0] // b[1], a[1] // b[0])
        if op == 'Shr' and b[0] >= 0 and a[0] >= 0:
            return (a[0] >> min(b[1], 300), a[1] >> b[0])
        if op in NEG:
            return (0, 1)
        return top

    # ---- other tests of a value ----------------------------------------------------------------
    def parts(self, root):
        out = {root}
        if root[0] == 'bin':
            out |= self.parts(root[2]) | self.parts(root[3])
        return {x for x in out if x[0] not in ('k',)}

    def opaque_tests(self, root, bi):
        """tests of the value (or what it is computed from) on the way to block bi whose effect on its range is not known"""
        ps = self.parts(root)
        if any(p[0] == '?' for p in ps):
            return ['a variable that is assigned more than once']
        out = []
        for op, a, b in self.facts(bi):
            if (a in ps or b in ps) and not (a[0] == 'k' or b[0] == 'k'):
                out.append((op, a, b))
        dom = self.fn.dominators().get(bi, set())
        reach = self.fn.reachable()
        for h in reach:
            t = self.fn.blocks[h]['t']
            if t['k'] == 'call':
                f = t['f'].get('fn') if t['f']['k'] == 'const' else None
                n = f['def'].split('::')[-1] if f else '?'
                for o in t['a']:
                    if o['k'] in ('copy', 'move') and (self.root(o) in ps or ('l', o['pl']['l']) in ps or self.refers(o, ps)):
                        if n in ('min', 'max', 'clamp'):
                            continue
                        if self.refers(o, ps) or n not in ('push', 'to_le_bytes', 'write_all', 'serialize_revisioned', 'with_capacity', 'map_err', 'ok_or_else', 'ok_or', 'branch'):
                            if h in dom or n in ('try_from', 'try_into'):
                                out.append(('call', n, self.root(o)))
        return out

    def refers(self, o, ps):
        if o['k'] == 'const' or o['pl']['p'] or o['pl']['l'] not in self.single:
            return False
        d = self.single[o['pl']['l']]
        if d[0] == 's' and d[3]['k'] == 'ref':
            return self.root({'k': 'copy', 'pl': d[3]['pl']}) in ps
        return False
