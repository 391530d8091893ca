"""Obligations about the derive macro's expansions over the declared histories."""
import absint as A
import flow
import models as Mo
import witness
import fixspec
from mir import show
from terms import *

READ = {
    'decode': ('DeserializeRevisioned', 'deserialize_revisioned'),
    'skip': ('SkipRevisioned', 'skip_revisioned'),
    'skip_slice': ('SkipRevisioned', 'skip_revisioned_slice'),
    'skip_check': ('SkipCheckRevisioned', 'skip_check_revisioned'),
}


def is_hook(c):
    if not c.n.startswith('decls::'):
        return False
    last = c.n.split('::')[-1]
    return last.startswith(('default_', 'conv_'))


def ty_of(d, r):
    return ('adt', 'decls::' + d.path(r), ())


def interp(P):
    I = A.Interp(P)
    I.hooks = is_hook
    return I


def fields_at(fs, k):
    """fields of the declaration at k, with their index in the type as declared at k"""
    return [f for f in (fs or []) if f.at(k)]


def variant_index(d, k, name):
    """index of a variant in the expanded enum at revision k"""
    vs = [v for v in d.variants if v.at(k)]
    return next((i for i, v in enumerate(vs) if v.name == name), None)


def hook(d, m, name, args):
    return ('call', 'decls::%s::v%d::%s::%s' % (d.mod(), m, d.name, name), (), tuple(args))


def struct_expect(I, d, fs, k, m, src, pre):
    """(expected field values at m, expected removed-field events)"""
    vals, ev = [], []
    ks = fields_at(fs, k)
    for f in fields_at(fs, m):
        if f.at(k):
            vals.append(('fld', src[0], src[1], ks.index(f)))
        elif f.default and f.start > 1:
            h = hook(d, m, 'default_%s%s' % (pre, fixspec.opt_name(f.name)), [C(k)])
            vals.append(('okof', h))
            ev.append(('default_%s%s' % (pre, fixspec.opt_name(f.name)), (C(k),)))
        else:
            vals.append(('default', f.ty))
    for f in ks:
        if not f.at(m):
            ev.append(('conv_%s%s' % (pre, fixspec.opt_name(f.name)), (C(k), ('fld', src[0], src[1], ks.index(f)))))
    return vals, ev


def check_value(I, st, got, vals):
    """None if equal, else description (definite?, text)"""
    got = I.rderef(st, got)
    if got[0] != 'agg':
        # a whole value moved through
        got = ('agg', '?', 0, tuple(('fld', got, 0, i) for i in range(len(vals))))
    if len(got[3]) != len(vals):
        return True, 'has %d fields, expected %d' % (len(got[3]), len(vals))
    for i, (g, e) in enumerate(zip(got[3], vals)):
        g = I.nf(st, g)
        if e[0] == 'default':
            if is_default(g):
                continue
            return not is_unknown(g), 'field %d is %s instead of the default value' % (i, tshow(g)[:160])
        r, fr = witness.decide(I, st, g, e)
        if r is False and fr:
            st.free = True
        if r is not True:
            definite = r is False or (e[0] == 'okof' and not is_unknown(g)) or foreign(g, e)
            return definite, 'field %d is %s instead of %s' % (i, tshow(g)[:160], tshow(e)[:160])
    return None


def is_default(g):
    if g in (C(0), ('vec', ()), ('bs', ()), ('str', b''), NONE):
        return True
    return g[0] == 'call' and g[1].split('::')[-1] == 'default' and not g[3]


def foreign(g, e):
    """g is a function of other inputs only / a hook result where an input was expected"""
    return e[0] == 'fld' and g[0] in ('okof', 'call') and g[0] == 'okof'


def is_unknown(g):
    return mentions(g, lambda x: x and x[0] in ('post', 'phi', 'uninit', 'mut'))


def events(st):
    out = []
    for h in st.log:
        if h[0] != 'hook':
            continue
        name = h[1].split('::')[-1]
        a = h[2]
        out.append((name, a, h[3]))
    return out


class Case:
    """writer at k read back at m"""

    def __init__(self, P, d, k):
        self.P, self.d, self.k = P, d, k
        self.I = interp(P)
        self.T = ty_of(d, k)
        self.err = None
        try:
            self.paths = Mo.producer(self.I, self.T, ('p', 'self'), 'ser', A.St())
        except (A.Unsup, A.Mismatch) as e:
            self.paths, self.err = None, (e.why, e.sp)

    def read(self, m, which):
        """list of (path state, outcomes, readers fn)"""
        tr, meth = READ[which]
        f = flow.method_of(self.P, self.I, tr, ty_of(self.d, m), meth)
        if f is None:
            return None
        fn, sub = f
        res = []
        for s, ch in self.paths:
            res.append((s, ch, raw_consume(self.I, fn, sub, s, ch)))
        return fn, res


def raw_consume(I, fn, sub, st, chunks, args=None):
    """like flow.consume but returns (Outcome|None, state, value)"""
    st = st.fork()
    st.log = ()
    cell = I.newcell(st, ('bs', tuple(chunks)))
    I.streams = (cell,)
    I.loopctx = []
    out = []
    try:
        rs = I.run_fn(fn, sub, [('ref', cell, ())] + list(args or []), st, 2)
    except (A.Unsup, A.Mismatch) as e:
        return [(flow.Outcome('unsup', e.why, e.sp, st), st, None)]
    except RecursionError:
        return [(flow.Outcome('unsup', 'recursion', None, st), st, None)]
    for (s2, kind, v) in rs:
        if kind in ('bad', 'unsup', 'panic'):
            w, sp = flow.splitwhy(v)
            out.append((flow.Outcome(kind, w, sp, s2), s2, None))
            continue
        v = I.rderef(s2, v)
        if v[0] == 'agg' and v[1] == RES and v[2] == 1:
            out.append((flow.Outcome('err', 'the reader rejects the written bytes with %s' % tshow(I.deep(s2, v[3][0]))[:200], fn.sp, s2), s2, None))
            continue
        if v[0] == 'call':
            # tail call of a hook that returns the result itself
            pass
        if v[0] != 'agg' or v[1] != RES:
            out.append((flow.Outcome('unsup', 'returns ' + tshow(v)[:120], fn.sp, s2), s2, None))
            continue
        rest = I.drop_empty(s2, s2.mem[cell][1]) if s2.mem[cell][0] == 'bs' else None
        if rest is None:
            out.append((flow.Outcome('unsup', 'stream replaced', fn.sp, s2), s2, None))
            continue
        if rest:
            out.append((flow.Outcome('rest', 'the reader leaves %s unread' % tshow(('bs', rest))[:300], fn.sp, s2), s2, None))
            continue
        out.append((None, s2, I.deep(s2, v[3][0])))
    return out


def written_variant(case, s):
    """index (at k) of the variant the writer path is for"""
    for c in s.conds:
        if c[0] == 'isv' and c[1] == ('p', 'self'):
            return c[2]
    return None


def expected(case, m, s):
    """('struct', vals, events) / ('variant', index, vals, events) / ('conv', name, vals, events)"""
    I, d, k = case.I, case.d, case.k
    if d.kind != 'enum':
        vals, ev = struct_expect(I, d, d.fields, k, m, (('p', 'self'), 0), '')
        return ('struct', None, vals, ev)
    vi = written_variant(case, s)
    vs = [v for v in d.variants if v.at(k)]
    if vi is None:
        if len(vs) == 1:
            vi = 0
        else:
            return None
    v = vs[vi]
    vals, ev = struct_expect(I, d, v.fields, k, m, (('p', 'self'), vi), v.name.lower() + '_')
    if v.at(m):
        return ('variant', variant_index(d, m, v.name), vals, ev)
    return ('conv', 'conv_%s' % v.name.lower(), vals, ev)


def check_decode(case, m, s, st, val):
    """None when the decoded value is the expected one, else (definite, text)"""
    I = case.I
    e = expected(case, m, s)
    if e is None:
        return False, 'variant of the written value unknown'
    kind, what, vals, ev = e
    got = events(st)
    want = list(ev)
    if kind == 'conv':
        cs = [g for g in got if g[0] == what]
        if len(cs) != 1:
            return True, 'the removed variant is handed to its conversion %d times' % len(cs)
        a = cs[0][1]
        if I.equal(st, a[1], C(case.k)) is not True:
            return True, 'the conversion is told revision %s instead of %d' % (tshow(a[1]), case.k)
        r = check_value(I, st, a[0], vals)
        if r:
            return r[0], 'the fields handed to %s: %s' % (what, r[1])
        got = [g for g in got if g[0] != what]
        if val != ('okof', hook(case.d, m, what, a)) and not (val[0] == 'okof' and val[1][1].endswith('::' + what)):
            return False, 'returns %s instead of the converted value' % tshow(val)[:120]
    else:
        if kind == 'variant':
            if val[0] != 'agg':
                if case.k == m and I.equal(st, val, ('p', 'self')) is True:
                    pass
                else:
                    return False, 'returns %s' % tshow(val)[:120]
            elif val[2] != what:
                return True, 'decodes as variant %d instead of %d' % (val[2], what)
        if val[0] == 'agg' or vals:
            r = check_value(I, st, val, vals)
            if r:
                return r
    # hooks: each exactly once, told the revision and the value
    for name, args in want:
        cs = [g for g in got if g[0] == name]
        if len(cs) != 1:
            return True, '%s is called %d times' % (name, len(cs))
        a = cs[0][1]
        a = a[-len(args):]
        for x, y in zip(a, args):
            r, fr = witness.decide(I, st, x, y)
            if r is False and fr:
                st.free = True
            if r is not True:
                return r is False, '%s is given %s instead of %s' % (name, tshow(x)[:120], tshow(y)[:120])
        got.remove(cs[0])
    if got:
        return True, '%s is called although nothing was added or removed' % got[0][0]
    return None


def decls(P):
    for d in fixspec.DECLS:
        yield d


def judge(rep, case, m, which, config, sink='violation'):
    d, k = case.d, case.k
    ob = '%s written at revision %d, %s at revision %d [%s]' % (d.name, k, which, m, config)
    if case.paths is None:
        rep.undecided(ob, case.err[0], case.err[1])
        return
    r = case.read(m, which)
    if r is None:
        rep.absent(ob)
        return
    fn, res = r
    rep.analysed(fn)
    ok = True
    n = 0
    for s, ch, outs in res:
        for o, st, v in outs:
            n += 1
            if o is not None:
                if o.verdict == 'violation':
                    rep.violation(ob, o.why, o.sp or fn.sp, fn.path, o.conds, key='%s|%d|%d|%s' % (d.name, k, m, which))
                    ok = False
                elif o.verdict == 'undecided':
                    rep.undecided(ob, o.why, o.sp)
                    ok = False
                continue
            if which == 'decode':
                e = check_decode(case, m, s, st, v)
                if e is not None:
                    ok = False
                    if e[0] and st.free:
                        rep.violation(ob, e[1], fn.sp, fn.path, flow.conds(st), key='%s|%d|%d|%s' % (d.name, k, m, which))
                    else:
                        rep.undecided(ob, e[1], fn.sp)
    if ok and n:
        rep.proved(ob, n)
    rep.fns |= case.I.inlined


def alive(rep):
    """fail closed when nothing at all could be analysed"""
    if not rep.prov and not rep.viol:
        raise RuntimeError('nothing could be analysed: %s' % (rep.und[:3],))
