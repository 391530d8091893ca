import absint as A
import derived
import flow
import models as Mo
import witness
from mir import show
from terms import *

CONFIGS = ['varint', 'plain']
CONFIGS_THOROUGH = ['varint', 'fixed', 'plain']
TECHNIQUE = 'static dataflow: abstract interpretation of MIR, traversal clients against inferred writer layouts'
RULE = ('Clients that get through a built-in value by every operation of the traversal interface (fixture/src/walks.rs) are interpreted over the byte layout inferred '
        'for the writer of that type: each must succeed on every admitted path, consume exactly what was written and yield the values written, element for element.')
ASSUME = ['arithmetic on lengths does not wrap (sizes below 2^63)', 'SliceReader and the BorrowedReader impls advance as R10 decides']


def clients(P, mod='walks'):
    out = []
    for f in P.fns.values():
        p = f.path.split('::')
        if mod in p and len(p) >= p.index(mod) + 3 and not f.in_impl and '{' not in f.path:
            i = p.index(mod)
            out.append((p[i + 1], p[i + 2], f))
    if not out:
        raise RuntimeError('no traversal client found')
    return sorted(out, key=lambda x: (x[0], x[1]))


def subject(f):
    """the type named by the PhantomData argument"""
    for l in range(1, f.argc + 1):
        t = A.erase(f.crate.ty(f.locals[l]))
        if t[0] == 'adt' and t[1].endswith('PhantomData'):
            return t[2][0]
    return None


def ones(lp, pick):
    """what an element-wise copy of a written loop holds"""
    alts = []
    for g, parts in lp[3]:
        if any(x[0] != 'nt' for x in parts):
            return None
        vs = [x[2] for x in parts]
        v = pick(vs)
        if v is None:
            return None
        alts.append(v)
    return alts


def copied(I, st, v, lp, pick):
    """True when v collects pick(element) for every element of the written loop, in order"""
    want = ones(lp, pick)
    v = I.deep(st, v)
    if want is None or v[0] != 'vec':
        return None
    if not v[1] and I.zero(st, I.count(st, lp[2])):
        return True
    if len(v[1]) != 1 or v[1][0][0] != 'loop':
        return None
    got = v[1][0]
    n, m = I.count(st, got[2]), I.count(st, lp[2])
    e = I.equal(st, n, m)
    if e is not True:
        return e
    if len(got[3]) != len(want):
        return None
    r = True
    for (g, parts), w in zip(got[3], want):
        if len(parts) != 1 or parts[0][0] != 'one':
            return None
        e = I.equal(st, relabel(parts[0][1], got[1], lp[1]), w)
        if e is not True:
            r = e if r is True else r
    return r


PICK = {'q': lambda v: v[0] if len(v) == 1 else None, 'm': lambda v: tup(*v) if len(v) == 2 else None,
        'k': lambda v: v[0] if len(v) == 2 else None, 'v': lambda v: v[1] if len(v) == 2 else None}


def run(progs, rep):
    for c, P in progs.items():
        for mod, name, f in clients(P):
            if mod in ('step', 'pos', 'find'):
                continue
            if c != 'varint' and name[0] not in 'qs' and not rep.thorough:
                continue        # only bulk vectors depend on the feature
            one(P, c, rep, mod, name, f)
        positional(P, c, rep)
        from checks import r14
        r14.linear(P, c, rep)
    derived.alive(rep)


def one(P, c, rep, mod, name, f):
    T = subject(f)
    ob = '%s::%s on %s [%s]' % (mod, name, show(T), c)
    kind = name.split('_')[0]
    I = flow.new_interp(P)
    if kind == 'b' and name != 'b_bytes':
        return item_bytes(P, c, rep, I, name, f, T, ob)
    X = ('p', 'self')
    if kind in 'ds' and mod != 'q_vec':
        streams = [(A.St(), (('nt', T, X, 'ser'),))]
    else:
        try:
            streams = layout(I, T, X, A.St()) if kind == 'b' else Mo.producer(I, T, X, 'ser', A.St())
        except (A.Unsup, A.Mismatch) as e:
            rep.undecided(ob, e.why)
            return
    rep.analysed(f)
    good = 0
    bad = False
    for s, ch in streams:
        for o, st, v in derived.raw_consume(I, f, {}, s, ch, [UNIT]):
            if o is not None:
                if mod == 'q_vec' and o.kind == 'err' and bulk(ch):
                    continue
                if mod == 'q_vec' and o.kind in ('bad', 'rest') and bulk(ch):
                    bad = True
                    rep.violation(ob, 'walks element-wise a vector that is written in bulk form: ' + o.why, o.sp or f.sp, f.path, o.conds)
                    continue
                bad = True
                if o.verdict == 'violation':
                    rep.violation(ob, o.why, o.sp or f.sp, f.path, o.conds)
                else:
                    rep.undecided(ob, o.why, o.sp)
                continue
            good += 1
            if kind == 's':
                continue
            if kind == 'd':
                e, fr = witness.decide(I, st, v, X)
                if e is not True:
                    # the inner value of a transparent wrapper
                    e2 = inner(I, T, X, st, v)
                    if e2 is True:
                        e = True
                if e is False and fr:
                    st.free = True
                what = X
            elif kind == 'b':
                raws = [x for x in ch if x[0] != 'nt']
                e = I.equal(st, v, ('bs', tuple(raws))) if raws else None
                if e is not True and not raws and I.zero(st, I.length(st, v)):
                    e = True
                if e is not True and len(raws) == 1 and raws[0][0] == 'raw' and I.equal(st, v, raws[0][1]) is True:
                    e = True
                what = ('bs', tuple(raws))
            else:
                lps = [x for x in ch if x[0] == 'loop']
                e = copied(I, st, v, lps[0], PICK[kind]) if len(lps) == 1 else True if not lps and v == ('vec', ()) else None
                what = ('bs', tuple(lps))
            if e is True:
                continue
            bad = True
            if e is False and st.free:
                rep.violation(ob, 'yields %s where %s was written' % (tshow(v)[:200], tshow(what)[:200]), f.sp, f.path, flow.conds(st))
            else:
                rep.undecided(ob, 'yields %s when %s' % (tshow(v)[:200], flow.conds(st)))
    if not bad and good:
        rep.proved(ob, good)
    rep.fns |= I.inlined


def bulk(ch):
    return any(x[0] == 'nt' and x[3] == 'spec' for x in ch)


def layout(I, T, X, st, mode='ser'):
    """the producer's streams, transparent wrappers opened"""
    out = []
    for s, ch in Mo.producer(I, T, X, mode, st):
        if len(ch) == 1 and ch[0][0] == 'nt' and (ch[0][1][0] not in ('prim', 'param') or ch[0][1][1] == 'str'):
            out.extend(layout(I, ch[0][1], ch[0][2], s, ch[0][3]))
        else:
            out.append((s, ch))
    return out


def inner(I, T, X, st, v):
    """T written as exactly one other typed value: that value"""
    try:
        ps = Mo.producer(I, T, X, 'ser', A.St())
    except (A.Unsup, A.Mismatch):
        return None
    for s, ch in ps:
        if len(ch) == 1 and ch[0][0] == 'nt' and all(c in st.conds for c in s.conds):
            return I.equal(st, v, ch[0][2])
    return None


def item_bytes(P, c, rep, I, name, f, T, ob):
    """one element of a container of length-prefixed values"""
    el = T[2]
    s = A.St()
    n = ('p', 'n')
    I.termty[n] = 'usize'
    s.conds = (('cmp', 'Ge', n, C(1)),)
    st0 = s.fork()
    u = ('prim', 'usize')
    B = ('p', 'bytes')
    E = el[0] if name == 'b_item' else el[0] if name == 'b_key' else el[1]
    try:
        ps = layout(I, E, B, st0)
    except (A.Unsup, A.Mismatch) as e:
        rep.undecided(ob, e.why)
        return
    rep.analysed(f)
    bad, good = False, 0
    for s1, ch in ps:
        raws = [x for x in ch if x[0] != 'nt']
        o = ('p', 'other')
        I.note_ty(o, ('prim', 'u32'))
        oth = (('nt', ('prim', 'u32'), o, 'ser'),)
        body = tuple(ch) if name == 'b_item' else tuple(ch) + oth if name == 'b_key' else oth + tuple(ch)
        for oc, st, v in derived.raw_consume(I, f, {}, s1, (('nt', u, n, 'ser'),) + body, [UNIT]):
            if oc is not None:
                bad = True
                if oc.verdict == 'violation':
                    rep.violation(ob, oc.why, oc.sp or f.sp, f.path, oc.conds)
                else:
                    rep.undecided(ob, oc.why, oc.sp)
                continue
            x = ('bs', tuple(raws))
            parts = list(v[3]) if v[0] == 'agg' else []
            want = [n] + ([x] if name == 'b_item' else [x, o] if name == 'b_key' else [o, x]) + [sub(n, C(1))]
            if len(parts) != len(want):
                bad = True
                rep.undecided(ob, tshow(v)[:200])
                continue
            for g, w in zip(parts, want):
                e = I.equal(st, g, w)
                if e is not True and w is x and len(raws) == 1 and raws[0][0] == 'raw' and I.equal(st, g, raws[0][1]) is True:
                    e = True
                if e is not True:
                    bad = True
                    if e is False and st.free:
                        rep.violation(ob, 'gives %s instead of %s' % (tshow(g)[:160], tshow(w)[:160]), f.sp, f.path, flow.conds(st))
                    else:
                        rep.undecided(ob, 'gives %s instead of %s' % (tshow(g)[:160], tshow(w)[:160]))
            good += 1
    if good and not bad:
        rep.proved(ob, good)
    rep.fns |= I.inlined


def positional(P, c, rep):
    """StructWalker / EnumWalker: the value read, the revision and discriminant reported"""
    for mod, name, f in clients(P):
        if mod != 'pos' or name.startswith('tr_'):
            continue
        I = flow.new_interp(P)
        rev, d, x = ('p', 'rev'), ('p', 'discriminant'), ('p', 'x')
        I.termty[rev], I.termty[d] = 'u16', 'u32'
        gen = name.endswith(('decode', 'skip'))
        T = ('param', 'T') if gen else ('prim', 'u64')
        head = (('nt', ('prim', 'u32'), d, 'ser'),) if name.startswith('en') else ()
        body = (('nt', T, x, 'ser'),) if name != 'en_disc' else ()
        val = UNIT if 'skip' in name else x
        want = {'st_into': x, 'en_disc': d}.get(name)
        if want is None:
            want = tup(rev, C(0), val, C(1)) if name.startswith('st') else tup(rev, d, val)
        ob = 'pos::%s [%s]' % (name, c)
        rep.analysed(f)
        for o, st, v in derived.raw_consume(I, f, {}, A.St(), head + body, [rev] if name != 'en_disc' else []):
            if o is not None:
                if o.verdict == 'violation':
                    rep.violation(ob, o.why, o.sp or f.sp, f.path, o.conds)
                else:
                    rep.undecided(ob, o.why, o.sp)
                continue
            e = I.equal(st, v, want)
            if e is True:
                rep.proved(ob)
            elif e is False and st.free:
                rep.violation(ob, 'gives %s instead of %s' % (tshow(v), tshow(want)), f.sp, f.path, flow.conds(st))
            else:
                rep.undecided(ob, 'gives %s' % tshow(v))
        rep.fns |= I.inlined
