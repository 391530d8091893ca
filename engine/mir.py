"""Loading of the MIR dumps, type terms, impl lookup, CFG utilities."""
import json, os, re

# ---------------------------------------------------------------------------
# Types are plain tuples:
#   ('prim','u8') ('adt',def,args) ('ref',mut,t) ('ptr',mut,t) ('slice',t)
#   ('array',t,n) ('tuple',ts) ('param',name) ('fndef',key,def,args)
#   ('closure',key,def) ('alias',s) ('never',) ('other',s) ('const',s)
# ---------------------------------------------------------------------------


class Crate:
    def __init__(self, path, name):
        with open(path) as f:
            d = json.load(f)
        self.name = name
        self.raw_types = d['types']
        self._tycache = {}
        self.adts = {a['def']: a for a in d['adts']}
        self.impls = d['impls']
        self.bodies = d['bodies']
        for b in self.bodies:
            b['crate'] = self
        for i in self.impls:
            i['crate'] = self

    def ty(self, tid):
        r = self._tycache.get(tid)
        if r is not None:
            return r
        t = self.raw_types[tid]
        k = t['k']
        if k == 'prim':
            r = ('prim', t['s'])
        elif k == 'adt':
            r = ('adt', t['def'], tuple(self.arg(a) for a in t['args']))
        elif k == 'array':
            r = ('array', self.ty(t['t']), t['n'])
        elif k == 'slice':
            r = ('slice', self.ty(t['t']))
        elif k == 'ptr':
            r = ('ptr', t['mut'], self.ty(t['t']))
        elif k == 'ref':
            r = ('ref', t['mut'], self.ty(t['t']))
        elif k == 'fndef':
            r = ('fndef', t['key'], t['def'], tuple(self.arg(a) for a in t['args']))
        elif k == 'closure':
            r = ('closure', t['key'], t['def'])
        elif k == 'tuple':
            r = ('tuple', tuple(self.ty(x) for x in t['ts']))
        elif k == 'param':
            r = ('param', t['name'])
        elif k == 'never':
            r = ('never',)
        elif k == 'alias':
            r = ('alias', t['s'])
        else:
            r = ('other', t['s'])
        self._tycache[tid] = r
        return r

    def arg(self, a):
        if isinstance(a, int):
            return self.ty(a)
        return ('const', a)


class Program:
    def __init__(self, dumpdir, crates=('revision', 'vfixture')):
        self.crates = {}
        self.fns = {}
        self.adts = {}
        self.impls = []
        for c in crates:
            p = os.path.join(dumpdir, c + '.json')
            if not os.path.exists(p):
                continue
            cr = Crate(p, c)
            self.crates[c] = cr
            for b in cr.bodies:
                self.fns[b['key']] = Fn(self, cr, b)
            for d, a in cr.adts.items():
                if d not in self.adts or a.get('local'):
                    self.adts[d] = a
                    a['crate'] = cr
            self.impls.extend(cr.impls)
        self.impl_by_trait = {}
        for i in self.impls:
            i['selfty'] = i['crate'].ty(i['self'])
            i['items_by_name'] = {x['name']: x for x in i['items']}
            if i['trait']:
                self.impl_by_trait.setdefault(short(i['trait']), []).append(i)

    def find_impl(self, trait_short, ty):
        """(impl, subst) whose self type unifies with ty, most specific first."""
        best = None
        for i in self.impl_by_trait.get(trait_short, []):
            s = {}
            if unify(i['selfty'], ty, s):
                # prefer the impl binding the fewest whole parameters
                score = len(repr(i['selfty']))
                if i['selfty'][0] == 'param':
                    score = -1
                if best is None or score > best[2]:
                    best = (i, s, score)
        return (best[0], best[1]) if best else None

    def impl_method(self, trait_short, ty, name):
        r = self.find_impl(trait_short, ty)
        if not r:
            return None
        i, s = r
        it = i['items_by_name'].get(name)
        if not it:
            return None
        f = self.fns.get(it['key'])
        return (f, s) if f else None


def short(path):
    return path.split('::')[-1]


class Fn:
    def __init__(self, prog, crate, b):
        self.prog, self.crate, self.b = prog, crate, b
        self.key, self.path, self.name = b['key'], b['path'], b['name']
        self.argc = b['argc']
        self.blocks = b['blocks']
        self.locals = b['locals']
        self.sp = b['sp']
        self.generics = [g[0] for g in b.get('generics', [])]
        self._loops = None
        self.module = b.get('module', '')

    @property
    def in_impl(self):
        return self.b['impl']

    def local_ty(self, l):
        return self.crate.ty(self.locals[l])

    def succs(self, bi):
        t = self.blocks[bi]['t']
        k = t['k']
        if k in ('goto', 'drop', 'assert'):
            return [t['to']]
        if k == 'switch':
            return [x[1] for x in t['vals']] + [t['else']]
        if k == 'call':
            return [t['to']] if t['to'] >= 0 else []
        return []

    def reachable(self):
        seen, st = set(), [0]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            st.extend(self.succs(x))
        return seen

    def loops(self):
        """header -> set of blocks of the natural loop."""
        if self._loops is not None:
            return self._loops
        dom = self.dominators()
        loops = {}
        preds = {}
        for b in dom:
            for s in self.succs(b):
                preds.setdefault(s, []).append(b)
        for b in dom:
            for s in self.succs(b):
                if s in dom[b]:
                    body = {s, b}
                    st = [b] if b != s else []
                    while st:
                        x = st.pop()
                        for p in preds.get(x, []):
                            if p not in body:
                                body.add(p)
                                st.append(p)
                    loops.setdefault(s, set()).update(body)
        self._loops = loops
        return loops

    def dominators(self):
        if hasattr(self, '_dom'):
            return self._dom
        reach = self.reachable()
        order = []
        seen = set()

        st = [(0, iter(self.succs(0)))]
        seen.add(0)
        while st:
            n, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succs(s))))
                    break
            else:
                order.append(n)
                st.pop()
        order.reverse()
        preds = {}
        for b in reach:
            for s in self.succs(b):
                preds.setdefault(s, []).append(b)
        dom = {b: None for b in order}
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [dom[p] for p in preds.get(b, []) if dom.get(p) is not None]
                if not ps:
                    continue
                n = set.intersection(*ps) | {b}
                if dom[b] != n:
                    dom[b] = n
                    ch = True
        self._dom = {b: d for b, d in dom.items() if d is not None}
        return self._dom


# ------------------------------------------------------------------ types
def subst(t, s):
    if not s:
        return t
    k = t[0]
    if k == 'param':
        return s.get(t[1], t)
    if k in ('prim', 'never', 'other'):
        return t
    if k == 'const':
        return s.get(t[1], t)
    if k == 'adt':
        return ('adt', t[1], tuple(subst(a, s) for a in t[2]))
    if k == 'fndef':
        return ('fndef', t[1], t[2], tuple(subst(a, s) for a in t[3]))
    if k == 'tuple':
        return ('tuple', tuple(subst(a, s) for a in t[1]))
    if k in ('ref', 'ptr'):
        return (k, t[1], subst(t[2], s))
    if k == 'slice':
        return ('slice', subst(t[1], s))
    if k == 'array':
        n = t[2]
        r = s.get(n)
        if r is not None:
            n = r[1] if r[0] == 'const' else n
        return ('array', subst(t[1], s), n)
    if k == 'alias':
        r = t[1]
        m = re.fullmatch(r'<(\w+) as ([\w:]+)>::(\w+)', r)
        if m and m.group(1) in s:
            b = s[m.group(1)]
            if m.group(3) == 'Owned':
                return owned_of(b)
            return ('alias', '<%s as %s>::%s' % (show(b), m.group(2), m.group(3)))
        return t
    return t


def owned_of(b):
    if b == ('prim', 'str'):
        return ('adt', 'std::string::String', ())
    if b[0] == 'slice':
        return ('adt', 'std::vec::Vec', (b[1], ('adt', 'std::alloc::Global', ())))
    if b[0] == 'param':
        return ('alias', '<%s as std::borrow::ToOwned>::Owned' % b[1])
    return b


def unify(pat, t, s):
    """one-way matching of impl self type `pat` against `t`."""
    k = pat[0]
    if k == 'param':
        if pat[1] in s:
            return s[pat[1]] == t
        s[pat[1]] = t
        return True
    if k == 'alias':
        return True
    if k != t[0]:
        return False
    if k == 'adt':
        if pat[1] != t[1]:
            return False
        pa, ta = [a for a in pat[2]], [a for a in t[2]]
        if len(pa) != len(ta):
            n = min(len(pa), len(ta))
            pa, ta = pa[:n], ta[:n]
        for a, b in zip(pa, ta):
            if a[0] == 'const':
                s[a[1]] = b
                continue
            if not unify(a, b, s):
                return False
        return True
    if k in ('ref', 'ptr'):
        return unify(pat[2], t[2], s)
    if k == 'slice':
        return unify(pat[1], t[1], s)
    if k == 'tuple':
        return len(pat[1]) == len(t[1]) and all(unify(a, b, s) for a, b in zip(pat[1], t[1]))
    if k == 'array':
        if not pat[2].isdigit():
            s[pat[2]] = ('const', t[2])
        elif pat[2] != t[2]:
            return False
        return unify(pat[1], t[1], s)
    return pat == t


def show(t):
    k = t[0]
    if k in ('prim', 'param', 'alias', 'other', 'const'):
        return t[1]
    if k == 'adt':
        n = t[1].split('::')[-1]
        a = [x for x in t[2] if x != ('adt', 'std::alloc::Global', ())]
        return n + ('<' + ', '.join(show(x) for x in a) + '>' if a else '')
    if k == 'tuple':
        return '(' + ', '.join(show(x) for x in t[1]) + ')'
    if k == 'ref':
        return '&' + ('mut ' if t[1] else '') + show(t[2])
    if k == 'ptr':
        return '*' + show(t[2])
    if k == 'slice':
        return '[' + show(t[1]) + ']'
    if k == 'array':
        return '[%s; %s]' % (show(t[1]), t[2])
    if k == 'fndef':
        return 'fn ' + t[2]
    return str(t)


# ---------------------------------------------------------------- printing
def pp_place(p):
    s = '_%d' % p['l']
    for e in p['p']:
        if e[0] == 'deref':
            s = '(*%s)' % s
        elif e[0] == 'field':
            s += '.' + e[2]
        elif e[0] == 'downcast':
            s += ' as ' + e[2]
        elif e[0] == 'index':
            s += '[_%d]' % e[1]
        else:
            s += str(e)
    return s


def pp_op(o):
    if o['k'] in ('copy', 'move'):
        return pp_place(o['pl'])
    if o['k'] == 'const':
        if 'fn' in o:
            return 'fn:' + o['fn']['def']
        if 'int' in o:
            return str(o['int'])
        if 'bytes' in o:
            return repr(bytes(o['bytes']))
        return 'const(' + o.get('s', '?') + ')' + ('#%s' % o['promoted'] if 'promoted' in o else '')
    return str(o)


def pp(fn):
    out = ['fn %s  [%s] argc=%d' % (fn.path, fn.sp, fn.argc)]
    for i, l in enumerate(fn.locals):
        out.append('   _%d: %s' % (i, show(fn.crate.ty(l))))
    for bi, b in enumerate(fn.blocks):
        if b['cl']:
            continue
        out.append(' bb%d:' % bi)
        for s in b['s']:
            if 'rv' in s:
                rv = s['rv']
                k = rv['k']
                if k == 'use':
                    r = pp_op(rv['o'])
                elif k in ('ref', 'rawptr'):
                    r = '&' + ('mut ' if rv.get('mut') else '') + pp_place(rv['pl'])
                elif k == 'cast':
                    r = 'cast[%s] %s as %s' % (rv['ck'], pp_op(rv['o']), show(fn.crate.ty(rv['to'])))
                elif k == 'bin':
                    r = '%s(%s, %s)' % (rv['op'], pp_op(rv['a']), pp_op(rv['b']))
                elif k == 'un':
                    r = '%s(%s)' % (rv['op'], pp_op(rv['o']))
                elif k == 'discr':
                    r = 'discr ' + pp_place(rv['pl'])
                elif k == 'agg':
                    r = 'agg %s %s(%s)' % (rv['ak'], rv.get('def', '') + '::' + rv.get('vn', ''), ', '.join(pp_op(o) for o in rv['ops']))
                elif k == 'repeat':
                    r = '[%s; %s]' % (pp_op(rv['o']), rv['n'])
                else:
                    r = str(rv)
                out.append('    %s = %s' % (pp_place(s['pl']), r))
            else:
                out.append('    ' + str({k: v for k, v in s.items()})[:150])
        t = b['t']
        k = t['k']
        if k == 'call':
            f = pp_op(t['f'])
            a = ''
            if t['f']['k'] == 'const' and 'fn' in t['f']:
                a = '<' + ', '.join(show(fn.crate.arg(x)) for x in t['f']['fn']['args']) + '>'
                if t['f']['fn']['res']:
                    a += '=>' + t['f']['fn']['res']['def']
            out.append('    %s = call %s%s(%s) -> bb%d' % (pp_place(t['d']), f, a, ', '.join(pp_op(x) for x in t['a']), t['to']))
        elif k == 'switch':
            out.append('    switch %s %s else bb%d' % (pp_op(t['d']), ', '.join('%s:bb%d' % tuple(v) for v in t['vals']), t['else']))
        elif k == 'assert':
            out.append('    assert(%s==%s, %s) -> bb%d' % (pp_op(t['c']), t['exp'], t['msg'], t['to']))
        elif k == 'drop':
            out.append('    drop %s -> bb%d' % (pp_place(t['pl']), t['to']))
        else:
            out.append('    %s %s' % (k, t.get('to', '')))
    return '\n'.join(out)


if __name__ == '__main__':
    import sys
    pr = Program(sys.argv[1])
    for k, f in pr.fns.items():
        if re.search(sys.argv[2], f.path) :
            print(pp(f))
