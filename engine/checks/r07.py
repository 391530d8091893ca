import absint as A
import derived
import flow
from terms import *

CONFIGS = ['varint', 'fixed']
TECHNIQUE = 'static dataflow: discriminant constants extracted from the MIR of generated writers and dispatch of generated readers'
RULE = ('For each enum declaration and revision k: the discriminant (or tag identifier) on each variant\'s writer path is the one the documented rule assigns '
        '(explicit override at k, else the smallest unused number in order), pairwise distinct; decoder and skippers generated at every m >= k map it back to that variant.')
ASSUME = ['the declarations of fixture/src/decls.rs exercise every branch of the macro expansion']


def tagid(n):
    return n & 0x1f


def run(progs, rep):
    for c, P in progs.items():
        for d in derived.decls(P):
            if d.kind != 'enum':
                continue
            for k in d.revs():
                one(P, c, rep, d, k)
    derived.alive(rep)


def one(P, c, rep, d, k):
    case = derived.Case(P, d, k)
    ob = '%s at revision %d [%s]' % (d.name, k, c)
    if case.paths is None:
        rep.undecided(ob, case.err[0])
        return
    w = flow.method_of(P, case.I, 'SerializeRevisioned', case.T, 'serialize_revisioned')[0]
    rep.analysed(w)
    want = d.discriminants(k)
    vs = [v for v in d.variants if v.at(k)]
    seen = {}
    for s, ch in case.paths:
        vi = derived.written_variant(case, s)
        if vi is None and len(vs) == 1:
            vi = 0
        if vi is None:
            rep.undecided(ob, 'variant of a writer path unknown')
            continue
        name = vs[vi].name
        t = ch[1] if len(ch) > 1 else None
        if t and t[0] == 'nt' and A.erase(t[1]) == ('prim', 'u32') and is_c(t[2]):
            n = t[2][1]
        elif t and d.hist[k - 1] == '' and c == 'fixed' and all(x[0] == 'b' and is_c(x[1]) for x in ch[1:5]) and len(ch) > 4:
            n = sum(x[1][1] << (8 * i) for i, x in enumerate(ch[1:5]))
        elif t and t[0] == 'b' and is_c(t[1]) and d.hist[k - 1]:
            n = tagid(t[1][1])
        else:
            rep.undecided(ob, 'discriminant of %s: %s' % (name, tshow(('bs', ch[1:2]))))
            continue
        seen.setdefault(n, set()).add(name)
        if n != want[name]:
            if s.free:
                rep.violation(ob, 'variant %s is written with discriminant %d, the declaration assigns %d' % (name, n, want[name]), w.sp, w.path, flow.conds(s),
                              key='%s|%d|%s' % (d.name, k, name))
        else:
            rep.proved(ob + ' ' + name)
    for n, ns in seen.items():
        if len(ns) > 1:
            rep.violation(ob, 'variants %s share discriminant %d' % (', '.join(sorted(ns)), n), w.sp, w.path, key='%s|%d|dup' % (d.name, k))
    for m in d.revs():
        if m < k:
            continue
        for which in ('decode', 'skip', 'skip_slice'):
            r = case.read(m, which)
            if r is None:
                continue
            fn, res = r
            rep.analysed(fn)
            ob2 = '%s %s at %d' % (ob, which, m)
            ok = True
            for s, ch, outs in res:
                vi = derived.written_variant(case, s)
                if vi is None and len(vs) == 1:
                    vi = 0
                if vi is None:
                    continue
                v = vs[vi]
                for o, st, val in outs:
                    if o is not None:
                        if o.kind == 'err':
                            ok = False
                            if o.verdict == 'violation':
                                rep.violation(ob2, 'the payload of variant %s is rejected: %s' % (v.name, o.why), fn.sp, fn.path, o.conds, key='%s|%d|%d|%s' % (d.name, k, m, which))
                        elif o.kind != 'ok':
                            # the body is read differently: R02/R04/R05
                            rep.count('left to R02/R04/R05')
                        continue
                    if which != 'decode':
                        continue
                    if v.at(m):
                        idx = derived.variant_index(d, m, v.name)
                        if val[0] == 'agg' and val[2] != idx and st.free:
                            ok = False
                            rep.violation(ob2, 'variant %s comes back as variant number %d' % (v.name, val[2]), fn.sp, fn.path, flow.conds(st), key='%s|%d|%d|%s' % (d.name, k, m, which))
                    else:
                        hs = [h[0] for h in derived.events(st) if h[0] in {'conv_' + x.name.lower() for x in d.variants}]
                        if hs != ['conv_' + v.name.lower()] and st.free:
                            ok = False
                            rep.violation(ob2, 'removed variant %s is handed to %s' % (v.name, hs or 'no conversion'), fn.sp, fn.path, flow.conds(st), key='%s|%d|%d|%s' % (d.name, k, m, which))
            if ok:
                rep.proved(ob2)
