import absint as A
import derived
import flow
from terms import *

CONFIGS = ['varint', 'fixed', 'plain']
RULE = ('For each declaration with #[revision(fixed)] or #[revision(specialised)] fields, the chunks the generated writer emits for such a field are the little-endian bytes of the value '
        '(fixed) or the bulk form (specialised), the same in every feature configuration; and the layout written in one configuration is consumed exactly by the decoder and skippers generated in every other.')
ASSUME = ['the declarations of fixture/src/decls.rs exercise every branch of the macro expansion', 'the length prefix of a bulk vector follows the configured integer encoding']
WIDTH = {'u32': 4, 'i32': 4, 'u64': 8, 'i64': 8, 'u128': 16, 'i128': 16}


def marks(f):
    return [a for a in f.attrs if a in ('fixed', 'specialised')]


def marked(d):
    if d.kind == 'enum':
        return any(marks(f) for v in d.variants for f in (v.fields or []))
    return any(marks(f) for f in (d.fields or []))


def strip(t):
    while t[0] == 'cast' or (t[0] == 'byte'):
        t = t[2] if t[0] == 'cast' else t[1]
    return t


def form(ch, fld):
    """how the writer emits this field"""
    out = []
    for x in ch:
        if x[0] == 'b' and x[1][0] == 'byte' and strip(x[1][1]) == fld:
            out.append(('b', x[1][2]))
        elif x[0] in ('nt',) and x[2] == fld:
            out.append(('nt', x[3]))
        elif mentions(x, lambda y: y == fld) and not (x[0] == 'b' and mentions(x, lambda y: isinstance(y, tuple) and y and y[0] == 'sz')):
            out.append(('?', x))
    return tuple(out)


def run(progs, rep):
    for d in derived.decls(None):
        if not marked(d):
            continue
        for k in d.revs():
            cases = {}
            for c, P in progs.items():
                cases[c] = derived.Case(P, d, k)
            for c, case in cases.items():
                layout(rep, c, case, d, k)
            for a, case in cases.items():
                if case.paths is None:
                    continue
                for b, P in progs.items():
                    if a != b:
                        cross(rep, a, case, b, P, d, k)
    derived.alive(rep)


def layout(rep, c, case, d, k):
    ob = '%s at revision %d [%s]' % (d.name, k, c)
    if case.paths is None:
        rep.undecided(ob, case.err[0])
        return
    w = flow.method_of(case.P, case.I, 'SerializeRevisioned', case.T, 'serialize_revisioned')[0]
    rep.analysed(w)
    vs = [v for v in d.variants if v.at(k)] if d.kind == 'enum' else None
    for s, ch in case.paths:
        if vs is not None:
            vi = derived.written_variant(case, s)
            vi = 0 if vi is None and len(vs) == 1 else vi
            if vi is None:
                rep.undecided(ob, 'variant unknown')
                continue
            fs, v = vs[vi].fields, vi
        else:
            fs, v = d.fields, 0
        for i, f in enumerate(derived.fields_at(fs, k)):
            for m in marks(f):
                fld = ('fld', ('p', 'self'), v, i)
                got = form(ch, fld)
                want = tuple(('b', j) for j in range(WIDTH[f.ty])) if m == 'fixed' else (('nt', 'spec'),)
                ob2 = '%s field %s (%s)' % (ob, f.name, m)
                if got == want:
                    rep.proved(ob2)
                elif got and all(x[0] != '?' for x in got) and s.free:
                    rep.violation(ob2, 'marked %s but written %s' % (m, 'in the configured encoding of its type' if got == (('nt', 'ser'),) else 'as %s' % (got,)),
                                  w.sp, w.path, key='%s|%s|%s|write' % (d.name, f.name, m))
                else:
                    rep.undecided(ob2, 'written as %s' % (got,))


def cross(rep, a, case, b, P, d, k):
    for m in d.revs():
        if m < k:
            continue
        for which, (tr, meth) in derived.READ.items():
            I = derived.interp(P)
            f = flow.method_of(P, I, tr, derived.ty_of(d, m), meth)
            ob = '%s written at %d [%s], %s at %d [%s]' % (d.name, k, a, which, m, b)
            if f is None:
                rep.absent(ob)
                continue
            fn, sub = f
            rep.analysed(fn)
            ok = True
            for s, ch in case.paths:
                I.termty.update(case.I.termty)
                for o, st, v in derived.raw_consume(I, fn, sub, s, ch):
                    if o is None:
                        continue
                    ok = False
                    if o.verdict == 'violation':
                        rep.violation(ob, o.why, o.sp or fn.sp, fn.path, o.conds, key='%s|%d|%d|%s' % (d.name, k, m, which))
                    else:
                        rep.undecided(ob, o.why, o.sp)
            if ok:
                rep.proved(ob)
