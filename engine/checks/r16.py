import errflow
import memsafe
import prims
from mir import show

CONFIGS = ['varint', 'fixed', 'plain']
TECHNIQUE = 'static dominance and value analysis of every unchecked operation on the MIR'
RULE = ('Every call of an unsafe function, every reinterpreting cast and every dereference of a raw pointer in the library and in the code the macro generates for the fixture '
        'declarations is enumerated. For each kind there is an obligation (a view lies inside the buffer it is made from; a pushed-to vector has room on every iteration; '
        'reinterpreted types were compared and are the same; an index was compared with the length; ownership is given up exactly once), decided from the facts that dominate it. '
        'The library\'s implementations of BorrowedReader are interpreted and compared with the contract.')
ASSUME = ['implementations of BorrowedReader outside the library honour its documented contract, which safe code could not rely on otherwise',
          'uuid::Uuid is a transparent wrapper of sixteen bytes, as its documentation promises']
IGNORE = {'new_const', 'new_v1', 'new_v1_formatted', 'new'}


def scope(P):
    for f in P.fns.values():
        if f.crate.name == 'revision' or '::decls::' in '::' + f.path:
            yield f


def run(progs, rep):
    for c, P in progs.items():
        n = 0
        for f in scope(P):
            evs = []
            for bi, kind, x in sites(f):
                if not evs:
                    evs.append(memsafe.Ev(f))
                n += 1
                one(P, c, rep, f, evs[0], bi, kind, x)
        rep.count('unchecked_operations_' + c, n)
        if n < 30:
            raise RuntimeError('only %d unchecked operations found' % n)
        contract(P, c, rep)


def sites(f):
    for bi in sorted(f.reachable()):
        b = f.blocks[bi]
        if b['cl']:
            continue
        for s in b['s']:
            rv = s.get('rv')
            if rv is None:
                continue
            if rv['k'] == 'cast' and 'ransmute' in str(rv['ck']):
                yield bi, 'transmute', s
            if rv['k'] == 'cast' and 'PtrToPtr' in str(rv['ck']):
                yield bi, 'ptrcast', s
        t = b['t']
        if t['k'] == 'call':
            d, g = errflow.callee(t)
            if g and g.get('unsafe') and 'fmt::' not in d:
                yield bi, d.split('::')[-1], t


def one(P, c, rep, f, ev, bi, kind, x):
    rep.analysed(f)
    sp = x.get('sp') or f.sp
    r = RULES.get(kind, other)(P, f, ev, bi, kind, x)
    if r is None:
        return
    v, why = r
    ob = '%s in %s [%s]' % (kind, f.path, c)
    key = '%s@%s' % (f.path.replace(' ', ''), kind)
    if v == 'refuted':
        rep.violation(ob, why, sp, f.path, key=key)
    elif v == 'proved':
        rep.proved(ob)
    else:
        rep.undecided(ob, why or 'not established by the dominating facts', sp)


# ------------------------------------------------------------------ views
def view(P, f, ev, bi, kind, t):
    p, n = ev.ex(t['a'][0]), ev.ex(t['a'][1])
    d, g = errflow.callee(t)
    U = f.crate.ty(g['args'][0])
    if p[0] != 'ptr':
        return 'open', 'origin of the pointer unknown'
    V, T = p[1], p[2]
    if T is None:
        return 'open', 'element type of the buffer unknown'
    a, b = memsafe.layout(U), memsafe.layout(T)
    if U != T:
        if a is None:
            return 'open', 'layout of %s unknown' % show(U)
        if b is not None and a[1] > b[1]:
            return 'refuted', 'a buffer of %s (aligned to %d) is viewed as %s (aligned to %d)' % (show(T), b[1], show(U), a[1])
        if b is None and a[1] > 1:
            return 'open', 'alignment of %s unknown' % show(T)
    unit = ('k', a[0]) if a else ('size', show(U))
    have = ('k', b[0]) if b else ('size', show(T))
    if U == T:
        unit = have = ('k', 1)
    owner = V
    v, w = memsafe.Point(ev, bi).need(('mul', n, unit), ('mul', ev.length(V), have))
    if v == 'refuted':
        return v, 'the view can be longer than the buffer (%s)' % w
    if v == 'proved' and V[0] == 'call' and V[1] == 'with_capacity':
        return 'refuted', 'the view covers memory that was never written'
    return v, w


def rebuilt(P, f, ev, bi, kind, t):
    d, g = errflow.callee(t)
    if 'Vec' not in d:
        return view(P, f, ev, bi, kind, t)
    U = f.crate.ty(g['args'][0])
    p, n, cap = (ev.ex(o) for o in t['a'][:3])
    if p[0] != 'ptr' or p[2] is None:
        return 'open', 'origin of the pointer unknown'
    V, T = p[1], p[2]
    a, b = memsafe.layout(U), memsafe.layout(T)
    if a is None or b is None:
        return 'open', 'layout unknown'
    if U != T and a != b:
        return 'refuted', 'the allocation of a Vec<%s> is handed to a Vec<%s> of different element size or alignment' % (show(T), show(U))
    v, w = memsafe.Point(ev, bi).need(n, ev.length(V)) if n != ('len', V) else ('proved', None)
    if v != 'proved':
        return v, 'more elements than the vector holds (%s)' % w if w else None
    if cap != ('cap', V):
        if cap == ('len', V) or ev.poly(cap) == ev.poly(n):
            return 'refuted', 'the capacity given is the length, not the capacity the allocation was made with'
        return 'open', 'capacity unknown'
    for b2, last, t2 in ev.uses(V):
        if last in ('forget',) and (b2 in f.dominators()[bi] or bi in f.dominators()[b2]):
            return 'proved', None
    for b2 in f.reachable():
        t2 = f.blocks[b2]['t']
        if not f.blocks[b2]['cl'] and t2['k'] == 'drop' and not t2['pl']['p'] and ev.loc(t2['pl']['l']) == V and memsafe.reaches(f, bi, b2):
            return 'refuted', 'the vector whose allocation was taken over is dropped as well'
    return 'open', 'ownership of the old vector unknown'


# ---------------------------------------------------------------- assumptions
def assumed(P, f, ev, bi, kind, t):
    e = ev.ex(t['a'][0])
    if e[0] == 'cmp':
        op, a, b = e[1:]
        if op in ('Gt', 'Ge'):
            op, a, b = {'Gt': 'Lt', 'Ge': 'Le'}[op], b, a
        if op == 'Lt' and a[0] == 'len' and b == ('cap', a[1]):
            return memsafe.room(ev, bi, a[1])
        if op == 'Le' and a[0] == 'len' and b == ('cap', a[1]):
            return 'proved', None
        if op in ('Lt', 'Le'):
            return nothing(ev, bi, memsafe.Point(ev, bi).need(a, b, op == 'Lt'), 'the assumption fails')
    return 'open', 'assumption not understood'


def nothing(ev, bi, r, what):
    v, w = r
    return (v, '%s when %s' % (what, w)) if v == 'refuted' else r


def unchecked_index(P, f, ev, bi, kind, t):
    V = ev.cont(ev.ex(t['a'][0]))
    i = ev.ex(t['a'][1])
    L = ev.length(V)
    pt = memsafe.Point(ev, bi)
    if i[0] == 'range':
        x, y = pt.need(i[1], i[2]), pt.need(i[2], L)
        for r in (y, x):
            if r[0] == 'refuted':
                return nothing(ev, bi, r, 'the range lies outside the buffer')
        return ('proved', None) if x[0] == y[0] == 'proved' else ('open', None)
    return nothing(ev, bi, pt.need(i, L, True), 'the index lies outside the buffer')


def grown(P, f, ev, bi, kind, t):
    V = ev.cont(ev.ex(t['a'][0]))
    n = ev.ex(t['a'][1])
    if not (V[0] == 'call' and V[1] == 'with_capacity'):
        return 'open', 'capacity of the vector unknown'
    v, w = memsafe.Point(ev, bi).need(n, V[3][0])
    if v == 'refuted':
        return v, 'the length is set beyond the capacity asked for (%s)' % w
    if n == ('k', 0):
        return 'proved', None
    filled = [last for b, last, _ in ev.uses(V) if b != bi and last not in ('len', 'capacity', 'is_empty', 'reserve') and memsafe.reaches(f, b, bi)]
    if not filled:
        return 'refuted', 'the length is set over memory nothing has written'
    return 'open', 'contents written by %s' % ', '.join(filled[:3])


# ------------------------------------------------------------- reinterpretation
def pointee(t):
    if t[0] in ('ref', 'ptr', 'rawptr'):
        return t[2] if len(t) > 2 and isinstance(t[2], tuple) else t[1]
    return t


def heads(A, B):
    """the type arguments two types differ in, None if they differ otherwise"""
    if A == B:
        return set()
    if A[0] == 'adt' and B[0] == 'adt' and A[1] == B[1] and len(A[2]) == len(B[2]):
        out = set()
        for x, y in zip(A[2], B[2]):
            if x != y:
                out.add(frozenset((show(x), show(y))))
        return out
    return {frozenset((show(A), show(B)))}


def retyped(P, f, ev, bi, kind, s):
    rv = s['rv']
    A, B = pointee(f.crate.ty(rv['from'])), pointee(f.crate.ty(rv['to']))
    if A == B:
        return 'proved', None
    need = heads(A, B)
    if kind == 'ptrcast':
        if not used_as_ref(f, s['pl']['l']):
            return None
        if B == ('prim', 'u8'):
            return None
    g, fbi = f, bi
    if 'losure' in f.path:
        up = parent(P, f)
        if up is None:
            return 'open', 'place of the closure unknown'
        g, fbi = up
    ev2 = ev if g is f else memsafe.Ev(g)
    same, odd = memsafe.typeid_facts(ev2, fbi)
    if need <= same:
        return 'proved', None
    x, y = memsafe.layout(A), memsafe.layout(B)
    if x and y and x == y and A[0] == B[0] == 'prim' and B[1] not in ('bool', 'char'):
        return 'proved', None
    if odd:
        return 'open', 'guarded by a condition this analysis does not know'
    return 'refuted', '%s is taken for %s where the two types have not been found equal%s' % (show(A), show(B), ' (known equal: %s)' % '; '.join(' = '.join(sorted(p)) for p in same) if same else '')


def used_as_ref(f, l):
    """is the pointer dereferenced as its new type (rather than handed on)"""
    ls = {l}
    for _ in range(3):
        for b in f.blocks:
            for s in b['s']:
                rv = s.get('rv')
                if not rv:
                    continue
                if rv['k'] == 'use' and rv['o']['k'] != 'const' and rv['o']['pl']['l'] in ls:
                    if not rv['o']['pl']['p']:
                        ls.add(s['pl']['l'])
                    elif rv['o']['pl']['p'][0][0] == 'deref':
                        return True
                if rv['k'] in ('ref', 'rawptr') and rv['pl']['l'] in ls and rv['pl']['p'] and rv['pl']['p'][0][0] == 'deref':
                    return True
    return False


def parent(P, f):
    path = f.path.rsplit('::{closure', 1)[0]
    for g in P.fns.values():
        if g.crate.name != f.crate.name or not (g.path == path or f.path.startswith(g.path)):
            continue
        for bi in g.reachable():
            for s in g.blocks[bi]['s']:
                rv = s.get('rv')
                if rv and rv['k'] == 'agg' and rv.get('ak') == 'closure' and rv.get('def') in (f.path, f.key) or rv and rv['k'] == 'agg' and rv.get('ak') == 'closure' and rv.get('key') == f.key:
                    return g, bi
    for g in P.fns.values():
        if g.path == path:
            # a closure without captures is a constant: the block that uses it
            for bi in g.reachable():
                t = g.blocks[bi]['t']
                if t['k'] == 'call':
                    for o in t['a']:
                        if o['k'] == 'const' and 't' in o and g.crate.ty(o['t'])[0] == 'closure' and f.key in str(g.crate.ty(o['t'])):
                            return g, bi
    return None


def other(P, f, ev, bi, kind, t):
    if kind == 'transmute':
        return retyped(P, f, ev, bi, kind, t)
    return 'open', 'no rule for %s' % kind


RULES = {'from_raw_parts': rebuilt, 'from_raw_parts_mut': view, 'assert_unchecked': assumed, 'get_unchecked': unchecked_index, 'get_unchecked_mut': unchecked_index,
         'set_len': grown, 'transmute': retyped, 'ptrcast': retyped}


# ------------------------------------------------------------------ contract
def contract(P, c, rep):
    n = 0
    for f, verdict, why, conds, R in prims.agree(P):
        n += 1
        rep.analysed(f)
        ob = 'bounds kept by %s [%s]' % (f.path, c)
        if verdict == 'violation':
            rep.violation(ob, why, f.sp, f.path, conds, key=f.path.replace(' ', '') + '#contract')
        elif verdict == 'proved':
            rep.proved(ob)
        else:
            rep.undecided(ob, why)
    rep.count('reader_primitives_' + c, n)
    if not n:
        raise RuntimeError('no reader primitive found')
