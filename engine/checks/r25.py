import absint as A
import derived
import flow
from terms import *

CONFIGS = ['varint', 'fixed']
RULE = ('For each declaration whose highest revision is k: every path of the generated serializer starts with the typed chunk u16 = k, Revisioned::revision() '
        'evaluates to k, and the generated deserializer and skippers take that chunk back as their header.')
ASSUME = ['the declarations of fixture/src/decls.rs exercise every branch of the macro expansion']


def run(progs, rep):
    for c, P in progs.items():
        for d in derived.decls(P):
            for k in d.revs():
                case = derived.Case(P, d, k)
                I = case.I
                ob = '%s at revision %d [%s]' % (d.name, k, c)
                f = flow.method_of(P, I, 'Revisioned', case.T, 'revision')
                if f is None:
                    rep.absent(ob + ' revision()')
                else:
                    rep.analysed(f[0])
                    vals = {('%s' % kd, v) for (s, kd, v) in I.run_fn(f[0], f[1], [], A.St(), 2)}
                    for kd, v in vals:
                        if kd == 'ret' and is_c(v):
                            if v[1] == k:
                                rep.proved(ob + ' revision()')
                            else:
                                rep.violation(ob, 'revision() is %d, declared %d' % (v[1], k), f[0].sp, f[0].path)
                        else:
                            rep.undecided(ob + ' revision()', tshow(v) if kd == 'ret' else str(v))
                if case.paths is None:
                    rep.undecided(ob, case.err[0])
                    continue
                w = flow.method_of(P, I, 'SerializeRevisioned', case.T, 'serialize_revisioned')[0]
                rep.analysed(w)
                for s, ch in case.paths:
                    h = ch[0] if ch else None
                    if h and h[0] == 'nt' and A.erase(h[1]) == ('prim', 'u16') and h[3] == 'ser' and is_c(h[2]):
                        if h[2][1] == k:
                            rep.proved(ob + ' header')
                        elif s.free:
                            rep.violation(ob, 'the header written is %d, declared revision %d' % (h[2][1], k), w.sp, w.path, flow.conds(s))
                    else:
                        raw = tuple(x[1] for x in ch[:2] if x[0] == 'b')
                        if c == 'fixed' and raw == (C(k & 255), C(k >> 8)):
                            rep.proved(ob + ' header')
                        elif h and h[0] == 'nt' and is_c(h[2]) and h[2][1] != k and s.free:
                            rep.violation(ob, 'the header written is %s, declared revision %d' % (tshow(('bs', ch[:1])), k), w.sp, w.path, flow.conds(s))
                        else:
                            rep.undecided(ob + ' header', tshow(('bs', ch[:2])))
                # the readers take the header back: any other failure belongs to R02/R04
                for which in ('decode', 'skip', 'skip_slice'):
                    r = case.read(k, which)
                    if r is None:
                        continue
                    fn, res = r
                    rep.analysed(fn)
                    good = False
                    bad = None
                    for s, ch, outs in res:
                        for o, st, v in outs:
                            if o is None:
                                good = True
                            elif o.verdict == 'violation':
                                bad = o
                    if good:
                        rep.proved(ob + ' ' + which)
                    elif bad is not None:
                        rep.violation(ob + ' ' + which, 'no payload written is accepted back: ' + bad.why, bad.sp or fn.sp, fn.path, bad.conds)
                    else:
                        rep.undecided(ob + ' ' + which, 'no path decided')
    derived.alive(rep)
