"""R22: no length or offset is silently truncated.

Range analysis of every integer cast to a narrower type, every arithmetic method that
wraps, and every unchecked addition or product in a type narrower than usize."""
from mir import pp_op, pp_place, show
from ranges import Ranges, W, full

LEVEL = 'other'
CONFIGS = ['varint', 'fixed']
TECHNIQUE = 'static: interval dataflow over MIR casts and offset arithmetic, with dominating and post-dominating checks'
RULE = ('Every cast of an integer to a type that does not hold all its values (pointer-sized integers counted as 32 to 64 bits wide) is '
        'reached only with values that fit: its operand is traced to its definitions and narrowed by the constant comparisons, '
        'switches and minima that dominate the cast, or every successful return is preceded by a checked conversion of a length it '
        'is part of, or all call sites pass a value that fits. Wrapping, overflowing and unchecked arithmetic on integers, and '
        'plain additions and products in types narrower than a pointer, are held to the same standard: their exact result fits.')
ASSUME = ['values that only describe an error, and the advisory slot of a hinted lookup, are not lengths of anything',
          'signed magnitudes and 64-bit scalars are the subject of R18']
WRAPPING = ('wrapping_add', 'wrapping_sub', 'wrapping_mul', 'overflowing_add', 'overflowing_sub', 'overflowing_mul', 'unchecked_add',
            'unchecked_mul', 'unchecked_sub', 'wrapping_shl', 'unchecked_shl', 'to_int_unchecked', 'wrapping_neg')
SAT = ('saturating_add', 'saturating_mul', 'saturating_sub')


def run(progs, rep):
    for c, P in progs.items():
        for fn in P.fns.values():
            if '::tests' in fn.path or fn.crate.name != 'revision' and 'decls' not in fn.path and not generated(fn):
                continue
            one(P, c, fn, rep)
    if not rep.extra.get('casts'):
        raise RuntimeError('no narrowing cast found')


def generated(fn):
    return True


def one(P, c, fn, rep):
    R = None
    for bi in sorted(fn.reachable()):
        b = fn.blocks[bi]
        if b['cl']:
            continue
        for s in b['s']:
            rv = s.get('rv')
            if rv is None:
                continue
            if rv['k'] == 'cast' and 'IntToInt' in str(rv['ck']):
                R = R or Ranges(fn)
                cast(P, c, fn, R, bi, s, rv, rep)
            elif rv['k'] == 'bin' and rv['op'].replace('WithOverflow', '') in ('Add', 'Mul', 'Shl') and rv['op'] != 'Shl':
                R = R or Ranges(fn)
                arith(P, c, fn, R, bi, s, rv, rep)
        t = b['t']
        if t['k'] == 'call':
            f = t['f'].get('fn') if t['f']['k'] == 'const' else None
            n = f['name'] if f else ''
            if n in WRAPPING and t['a']:
                R = R or Ranges(fn)
                wrap(P, c, fn, R, bi, t, n, rep)


def fits(r, lim):
    return lim[0] <= r[0] and r[1] <= lim[1]


def limits(t, narrow_ptr=True):
    """what the type is sure to hold on every platform"""
    if t == 'usize' and narrow_ptr:
        return (0, (1 << 32) - 1)
    if t == 'isize' and narrow_ptr:
        return (-(1 << 31), (1 << 31) - 1)
    return full(t)


def cast(P, c, fn, R, bi, s, rv, rep):
    o = rv['o']
    f = R.ty(o)
    t = fn.crate.ty(rv['to'])
    t = t[1] if t[0] == 'prim' else None
    if f not in W or t not in W or f in ('char', 'bool'):
        return
    if f[0] == 'i':
        return                      # signed values are no lengths
    if t in ('usize', 'isize'):
        if f not in ('u64', 'u128'):
            return
    elif fits(full(f), full(t)) or (W[f] == W[t] and f != t):
        return
    rep.count('casts')
    rep.fns.add(fn.key)
    lim = limits(t)
    what = '%s: %s as %s' % (fn.path, f, t)
    r = R.range(o, bi)
    if fits(r, lim):
        rep.proved('%s [%s]' % (what, c))
        return
    root = R.root(o)
    if diagnostic(fn, R, s['pl']):
        rep.proved('%s only describes an error [%s]' % (what, c))
        return
    if hint(fn, s['pl']):
        rep.proved('%s is an advisory slot [%s]' % (what, c))
        return
    if later(fn, R, root, bi, lim):
        rep.proved('%s is confirmed before success [%s]' % (what, c))
        return
    if f not in ('usize',) and t not in ('usize', 'isize') and not lengthlike(fn, R, root):
        return                      # a magnitude, not a length: R18
    judge(P, c, fn, R, bi, root, r, lim, what, s['sp'], rep, 'a value up to %s is cut to %s' % (human(r[1]), t))


def human(n):
    for b in (8, 16, 32, 64, 128):
        if n == (1 << b) - 1:
            return '2^%d-1' % b
    return str(n)


def judge(P, c, fn, R, bi, root, r, lim, what, sp, rep, why, depth=0):
    tests = R.opaque_tests(root, bi)
    if tests:
        rep.undecided('%s [%s]' % (what, c), 'tested in a way this analysis does not interpret: %s' % (tests[0],), sp)
        return
    if lim[1] < (1 << 40) and any(x == ('k', (1 << 64) - 1) for op, a, b in R.facts(bi) if a in R.parts(root) or b in R.parts(root) for x in (a, b)):
        rep.undecided('%s [%s]' % (what, c), 'compared with the platform maximum', sp)
        return
    ps = [p for p in R.parts(root) if p[0] == 'p']
    if ps and '{closure' not in fn.path:
        sites = callers(P, fn)
        if not sites:
            if root[0] == 'p' and not any(root in (a, b) for op, a, b in R.facts(bi)):
                # a conversion helper nobody here calls: its contract is not known
                rep.undecided('%s [%s]' % (what, c), 'no call site passes the value', sp)
                return
        elif root[0] == 'p' and depth < 3:
            ok = True
            for g, gb, t in sites:
                G = Ranges(g)
                a = t['a'][root[1] - 1]
                gr = G.range(a, gb)
                if not fits(R.narrow(root, gr, bi), lim):
                    if later(g, G, G.root(a), gb, lim):
                        continue
                    ok = False
                    judge(P, c, g, G, gb, G.root(a), gr, lim, what, t['sp'], rep, why + ', passed here', depth + 1)
            if ok:
                rep.proved('%s at every call site [%s]' % (what, c))
            return
        else:
            rep.undecided('%s [%s]' % (what, c), 'computed from parameters', sp)
            return
    if any(p[0] == 'pl' and ('.' in p[1] or '*' in p[1]) for p in R.parts(root)):
        rep.undecided('%s [%s]' % (what, c), 'a stored value, whose range its constructor decides', sp)
        return
    rep.violation(what, why + '; nothing on the way rejects a larger one', sp, fn.path, ['%s %s %s' % x for x in R.facts(bi) if x[1] == root or x[2] == root][:4],
                  key=('%s|%s' % (fn.path, what.split(': ')[-1])).replace(' ', '-'))


def callers(P, fn):
    ix = getattr(P, '_callers', None)
    if ix is None:
        ix = P._callers = {}
        for g in P.fns.values():
            for bi in g.reachable():
                b = g.blocks[bi]
                if b['cl'] or b['t']['k'] != 'call':
                    continue
                f = b['t']['f'].get('fn') if b['t']['f']['k'] == 'const' else None
                if f:
                    k = f['res']['key'] if f.get('res') else f['key']
                    ix.setdefault(k, []).append((g, bi, b['t']))
    return [x for x in ix.get(fn.key, []) if '::tests' not in x[0].path]


def lengthlike(fn, R, root):
    for p in R.parts(root):
        if p[0] == 'len' or payload(fn, R, p):
            return True
        if p[0] == 'p' and '{closure' in fn.path:
            return True
        if p[0] in ('l', 'p', '?') and isinstance(p[1], int):
            t = fn.local_ty(p[1])
            if t == ('prim', 'usize'):
                return True
    return False


def uses(fn, l):
    """(kind, where, thing) of every mention of local l"""
    for bi in fn.reachable():
        b = fn.blocks[bi]
        if b['cl']:
            continue
        for s in b['s']:
            rv = s.get('rv')
            if rv is None:
                continue
            for o in ops(rv):
                if o['k'] in ('copy', 'move') and o['pl']['l'] == l:
                    yield 's', s, rv
            if 'pl' in rv and rv['pl']['l'] == l:
                yield 's', s, rv
        t = b['t']
        if t['k'] == 'call':
            for o in t['a']:
                if o['k'] in ('copy', 'move') and o['pl']['l'] == l:
                    yield 't', t, t
        elif t['k'] in ('switch', 'assert'):
            o = t['d'] if t['k'] == 'switch' else t['c']
            if o['k'] in ('copy', 'move') and o['pl']['l'] == l:
                yield 't', t, t
    if l == 0:
        yield 'ret', None, None


def ops(rv):
    for k in ('o', 'a', 'b'):
        if isinstance(rv.get(k), dict) and 'k' in rv[k]:
            yield rv[k]
    for o in rv.get('ops', ()):
        yield o


def diagnostic(fn, R, pl, depth=0):
    """every use of the value is as a component of an error"""
    if pl['p'] or depth > 6:
        return False
    n = 0
    for k, w, rv in uses(fn, pl['l']):
        n += 1
        if k != 's':
            return False
        if rv['k'] == 'agg':
            if rv.get('def', '').endswith('Error'):
                continue
            return False
        if rv['k'] == 'use' and diagnostic(fn, R, w['pl'], depth + 1):
            continue
        return False
    return n > 0


def hint(fn, pl, depth=0):
    """the value leaves only as the u32 slot next to the bytes found by a lookup"""
    if pl['p'] or depth > 6:
        return False
    n = 0
    for k, w, rv in uses(fn, pl['l']):
        n += 1
        if k != 's':
            return False
        if rv['k'] == 'agg' and rv['ak'] == 'tuple' and len(rv['ops']) == 2:
            t = fn.local_ty(w['pl']['l']) if not w['pl']['p'] else None
            if t and t[0] == 'tuple' and show(t[1][0]) in ("&[u8]", "&'p [u8]") or t and t[0] == 'tuple' and t[1][0][0] == 'ref' and t[1][1] == ('prim', 'u32'):
                continue
            return False
        if rv['k'] == 'use' and hint(fn, w['pl'], depth + 1):
            continue
        return False
    return n > 0


def later(fn, R, root, bi, lim):
    """every successful return after this point is preceded by a checked conversion of a length the value is part of"""
    lens = []
    if root[0] == 'len':
        lens = [root[1]]
    elif root[0] == 'bin' and root[1] == 'Sub' and root[2][0] == 'len':
        lens = [root[2][1]]
    elif root[0] == 'l':
        return False
    if not lens:
        return False
    X = lens[0]
    stop = set()
    for h in fn.reachable():
        t = fn.blocks[h]['t']
        if t['k'] != 'call':
            continue
        f = t['f'].get('fn') if t['f']['k'] == 'const' else None
        if not f:
            continue
        if f['name'] in ('truncate', 'clear', 'pop', 'drain', 'split_off', 'remove', 'take', 'retain', 'set_len') and t['a'] and R.vroot(t['a'][0]) == X:
            return False
        if f['name'] in ('try_from', 'try_into') and t['a'] and R.root(t['a'][0]) == ('len', X):
            d = fn.local_ty(t['d']['l'])
            if d[0] == 'adt' and d[2] and d[2][0][0] == 'prim' and d[2][0][1] in W and limits(d[2][0][1])[1] <= lim[1]:
                stop.add(h)
        if f['name'] == 'from_residual':
            stop.add(h)
    seen, st = set(), [bi]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x in stop and x != bi:
            continue
        if fn.blocks[x]['t']['k'] == 'return':
            return False
        st.extend(fn.succs(x))
    return True


def arith(P, c, fn, R, bi, s, rv, rep):
    t = R.ty(rv['a'])
    if t in ('usize', 'u64'):
        decoded(P, c, fn, R, bi, s, rv, t, rep)
        return
    if t not in ('u8', 'u16', 'u32'):
        return
    r = R.bin(rv, bi, 0, full(t))
    if R.range(rv['b'], bi)[1] <= 8 or R.range(rv['a'], bi)[1] <= 8:
        if not fits(r, full(t)):
            return          # a step counter, not a length
    rep.count('narrow additions')
    what = '%s: %s in %s' % (fn.path, rv['op'].replace('WithOverflow', ''), t)
    if fits(r, full(t)):
        rep.proved('%s [%s]' % (what, c))
        return
    root = ('bin', rv['op'].replace('WithOverflow', ''), R.root(rv['a']), R.root(rv['b']))
    parts = [p for p in R.parts(root) if p != root]
    if tested_compound(R, parts, bi):
        rep.undecided('%s [%s]' % (what, c), 'operands are compared with each other', s['sp'])
        return
    # both operands vary freely: the exact sum exceeds the type for some of their values
    rep.violation(what, 'the result can reach %s, which wraps in release builds and aborts in others' % human(r[1]), s['sp'], fn.path, [],
                  key=('%s|%s' % (fn.path, what.split(': ')[-1])).replace(' ', '-'))


def decoded(P, c, fn, R, bi, s, rv, t, rep):
    """a sum or product of a value that a fallible call returned: nothing but a test bounds it"""
    if not any(payload(fn, R, R.root(o)) for o in (rv['a'], rv['b'])):
        return
    op = rv['op'].replace('WithOverflow', '')
    rep.count('sums and products of decoded lengths')
    what = '%s: %s of a decoded length' % (fn.path, op)
    r = R.bin(rv, bi, 0, full(t))
    if fits(r, full(t)):
        rep.proved('%s [%s]' % (what, c))
        return
    root = ('bin', op, R.root(rv['a']), R.root(rv['b']))
    # a counter added to it is not negative, so it cannot take the excess away
    tests = [x for p in R.parts(root) if p[0] != '?' for x in R.opaque_tests(p, bi) if isinstance(x, tuple)]
    if tests:
        rep.undecided('%s [%s]' % (what, c), 'tested in a way this analysis does not interpret: %s' % (tests[0],), s['sp'])
        return
    rep.violation(what, 'the input decides the operand, and the result can reach %s, which wraps in release builds and aborts in others'
                  % human(r[1]), s['sp'], fn.path, ['%s %s %s' % x for x in R.facts(bi) if x[1] in root or x[2] in root][:4],
                  key=('%s|%s' % (fn.path, what.split(': ')[-1])).replace(' ', '-'))


def payload(fn, R, root):
    return any(p[0] == 'pl' and len(p) > 1 and isinstance(p[1], str) and (' as Continue' in p[1] or ' as Ok' in p[1]) for p in R.parts(root))


def tested_compound(R, parts, bi):
    for op, a, b in R.facts(bi):
        if (a in parts or b in parts) and a[0] != 'k' and b[0] != 'k':
            return True
    return False


def wrap(P, c, fn, R, bi, t, n, rep):
    ty = R.ty(t['a'][0])
    if ty not in W or ty[0] == 'i':
        return
    rep.count('wrapping operations')
    what = '%s: %s on %s' % (fn.path, n, ty)
    rs = [R.range(a, bi) for a in t['a']]
    op = n.split('_')[-1]
    if len(rs) == 2:
        if op == 'add':
            r = (rs[0][0] + rs[1][0], rs[0][1] + rs[1][1])
        elif op == 'sub':
            r = (rs[0][0] - rs[1][1], rs[0][1] - rs[1][0])
        elif op == 'mul':
            r = (rs[0][0] * rs[1][0], rs[0][1] * rs[1][1])
        else:
            return
        if fits(r, full(ty)):
            rep.proved('%s [%s]' % (what, c))
            return
    if n.startswith('overflowing') and not t['d']['p']:
        # the flag is looked at
        for k, w, rv in uses(fn, t['d']['l']):
            if k == 's' and any(o['k'] in ('copy', 'move') and o['pl']['p'] and str(o['pl']['p'][0][1]) == '1' for o in ops(rv)):
                rep.proved('%s with its flag tested [%s]' % (what, c))
                return
    parts = set()
    for a in t['a']:
        parts |= R.parts(R.root(a))
    if tested_compound(R, parts, bi) or not any(lengthy(fn, R, a) for a in t['a']):
        rep.undecided('%s [%s]' % (what, c), 'operands are compared with each other or are not lengths', t['sp'])
        return
    rep.violation(what, 'a sum, difference or product that does not fit wraps around silently', t['sp'], fn.path, [],
                  key=('%s|%s' % (fn.path, what.split(': ')[-1])).replace(' ', '-'))


def lengthy(fn, R, o):
    return R.ty(o) in ('usize', 'u16', 'u32')
