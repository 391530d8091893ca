import absint as A
import derived
import flow
import models as Mo
from mir import show
from terms import *

CONFIGS = ['varint', 'fixed']
TECHNIQUE = 'static dataflow: value-range abstract interpretation of decoders on a symbolic leading marker'
RULE = ('The set of leading markers (revision, discriminant, tag, boolean or option byte) each writer can emit is inferred from its paths. The matching decoder is then run '
        'on a symbolic marker: every path that does not end in an error must confine the marker to that set. Optimised tags are enumerated over all 256 byte values.')
ASSUME = ['the declarations of fixture/src/decls.rs exercise every branch of the macro expansion', 'integer payload markers are decided by R18']

WIDE = ('u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize')


def accepted(I, fn, sub, prefix, mk, prim, tail=()):
    """ranges of the marker on the paths that do not reject it"""
    x = ('p', 'marker')
    I.termty[x] = prim
    s = A.St()
    out = []
    for o, st, v in derived.raw_consume(I, fn, sub, s, tuple(prefix) + (mk(x),) + tuple(tail)):
        if o is not None and o.kind == 'unsup':
            out.append(('unsup', o.why, st, o))
        elif o is not None and o.kind == 'err':
            out.append(('err', None, st, o))
        else:
            out.append(('acc', I.rng(x, st), st, o))
    return x, out


def holes(I, st, x):
    """values excluded by != conditions"""
    out = set()
    for c in st.conds:
        if c[0] == 'cmp' and c[1] == 'Ne' and c[2] == x and is_c(c[3]):
            out.add(c[3][1])
    return out


def judge(rep, ob, I, fn, x, outs, allowed):
    rep.analysed(fn)
    rep.fns |= I.inlined
    ok = True
    for kind, r, st, o in outs:
        if kind == 'unsup':
            rep.undecided(ob, r)
            ok = False
        elif kind == 'acc':
            lo, hi = r
            bad = None
            if hi - lo < 4096:
                h = holes(I, st, x)
                for y in range(lo, hi + 1):
                    if y not in allowed and y not in h:
                        bad = y
                        break
            elif len(allowed) < hi - lo:
                h = holes(I, st, x)
                y = next((y for y in range(hi, hi - 4096, -1) if y not in allowed and y not in h), None)
                bad = y
            if bad is not None:
                ok = False
                if st.free:
                    rep.violation(ob, 'the marker %d, which no writer emits, is accepted' % bad, fn.sp, fn.path, flow.conds(st), key=ob.replace(' ', '_'))
                else:
                    rep.undecided(ob, 'marker range %s not confined' % (r,))
    if ok and outs:
        rep.proved(ob, len(outs))


def run(progs, rep):
    for c, P in progs.items():
        builtin(P, c, rep)
        for d in derived.decls(P):
            ks = d.revs()
            for k in ks:
                I = derived.interp(P)
                T = derived.ty_of(d, k)
                f = flow.method_of(P, I, 'DeserializeRevisioned', T, 'deserialize_revisioned')
                if f is None:
                    rep.absent('%s at %d' % (d.name, k))
                    continue
                fn, sub = f
                # revision header
                mk = lambda x: ('nt', ('prim', 'u16'), x, 'ser')
                x, outs = accepted(I, fn, sub, (), mk, 'u16')
                judge(rep, '%s revision number at %d [%s]' % (d.name, k, c), I, fn, x, outs, set(range(1, k + 1)))
                if d.kind != 'enum':
                    continue
                for r in [r for r in ks if r <= k]:
                    discs = set(d.discriminants(r).values())
                    head = (('nt', ('prim', 'u16'), C(r), 'ser'),)
                    ob = '%s variant at %d read at %d [%s]' % (d.name, r, k, c)
                    if d.hist[r - 1] == '':
                        mk = lambda x: ('nt', ('prim', 'u32'), x, 'ser')
                        x, outs = accepted(I, fn, sub, head, mk, 'u32')
                        judge(rep, ob, I, fn, x, outs, discs)
                    else:
                        tags(rep, P, d, r, k, fn, sub, head, ob)
    derived.alive(rep)


def tags(rep, P, d, r, k, fn, sub, head, ob):
    case = derived.Case(P, d, r)
    if case.paths is None:
        rep.undecided(ob, case.err[0])
        return
    legal = set()
    for s, ch in case.paths:
        t = ch[1]
        if t[0] != 'b' or not is_c(t[1]):
            rep.undecided(ob, 'tag written: ' + tshow(('bs', ch[1:2])))
            return
        legal.add(t[1][1])
    rep.analysed(fn)
    n = 0
    for b in range(256):
        if b in legal:
            continue
        I = derived.interp(P)
        acc = None
        for o, st, v in derived.raw_consume(I, fn, sub, A.St(), head + (('b', C(b)),) + (('b', C(0)),) * 80):
            if o is not None and o.kind == 'unsup':
                rep.undecided('%s tag %#x' % (ob, b), o.why)
                acc = None
                break
            if o is None or o.kind != 'err':
                acc = st
        if acc is not None:
            if acc.free:
                rep.violation(ob, 'the tag byte %#04x, which no writer emits, is accepted' % b, fn.sp, fn.path, key='%s|tag' % d.name)
                return
        else:
            n += 1
    rep.proved(ob, n)


def builtin(P, c, rep):
    for i, T in flow.subjects(P, 'ser'):
        I = flow.new_interp(P)
        if T[0] == 'prim' and T[1] in WIDE:
            continue
        try:
            ps = Mo.producer(I, T, ('p', 'self'), 'ser', A.St())
        except (A.Unsup, A.Mismatch) as e:
            rep.undecided(show(T), e.why)
            continue
        firsts = [ch[0] for s, ch in ps if ch]
        if len(firsts) != len(ps) or not ps:
            continue
        allowed = set()
        kind = None
        for (s, ch) in ps:
            f = ch[0]
            if f[0] == 'nt' and A.erase(f[1])[0] == 'prim' and is_c(f[2]):
                kk = A.erase(f[1])[1]
                allowed.add(f[2][1])
            elif f[0] == 'b':
                kk = 'byte'
                v = f[1]
                if v[0] == 'ub':
                    lo, hi = A.UB[(v[2], v[3])]
                else:
                    lo, hi = I.rng(v, s)
                if lo < 0 or hi > 255:
                    kk = None
                else:
                    allowed |= set(range(lo, hi + 1))
            else:
                kk = None
            if kk is None or (kind is not None and kind != kk):
                kind = None
                break
            kind = kk
        if kind is None or len(allowed) >= 256:
            continue
        f = flow.method_of(P, I, 'DeserializeRevisioned', T, 'deserialize_revisioned')
        if f is None:
            rep.absent(show(T))
            continue
        fn, sub = f
        ob = '%s leading marker [%s]' % (show(T), c)
        rep.count('built-in markers', 1)
        if kind == 'byte':
            n = 0
            for b in range(256):
                if b in allowed:
                    continue
                for o, st, v in derived.raw_consume(flow.new_interp(P), fn, sub, A.St(), (('b', C(b)),) + (('b', C(0x80)),) * 16):
                    if o is not None and o.kind == 'unsup':
                        rep.undecided(ob, o.why)
                    elif o is None or o.kind != 'err':
                        if st.free:
                            rep.violation(ob, 'the leading byte %#04x, which no writer emits, is accepted' % b, fn.sp, fn.path, key=ob.replace(' ', '_'))
                    else:
                        n += 1
            rep.analysed(fn)
            if n:
                rep.proved(ob, n)
            continue
        else:
            x, outs = accepted(I, fn, sub, (), lambda x: ('nt', ('prim', kind), x, 'ser'), kind)
        judge(rep, ob, I, fn, x, outs, allowed)
