import absint as A
import derived
import flow
import models as Mo
from mir import show
from terms import *

CONFIGS = ['varint', 'fixed', 'plain']
CRATES = ('revision',)
RULE = ('For Vec<T> at each candidate element type T: the form the writer emits (bulk chunk or one chunk per element) is pushed through decode, stream skip and slice skip, each of which must consume it '
        'exactly, and through walk_revisioned, which must refuse exactly the bulk forms before reading anything and accept exactly the per-element ones. Element types are also compared generically: '
        'the set of type tests leading to the bulk form is collected per entry point.')
ASSUME = ['arithmetic on lengths does not wrap (R22)']

PRIMS = ['bool', 'u8', 'i8', 'u16', 'i16', 'u32', 'i32', 'u64', 'i64', 'u128', 'i128', 'usize', 'isize', 'f32', 'f64', 'char']
VEC = 'std::vec::Vec'


def candidates(P):
    out = [('prim', p) for p in PRIMS]
    out += [('adt', 'std::string::String', ()), ('adt', 'std::option::Option', (('prim', 'u32'),)), ('tuple', (('prim', 'u32'), ('prim', 'u32')))]
    for i in P.impl_by_trait.get('SerializeRevisioned', []):
        T = A.erase(i['selfty'])
        if T[0] == 'adt' and not T[2] and T not in out:
            out.append(T)
    return out


def run(progs, rep):
    for c, P in progs.items():
        bulk = set()
        for T in candidates(P):
            V = ('adt', VEC, (T,))
            b = writer_form(P, V, c, rep)
            if b is None:
                continue
            if b:
                bulk.add(show(T))
            flow.agree(P, 'ser', V, ['decode', 'skip', 'skip_slice'], c, rep)
            walk(P, V, b, c, rep)
        rep.extra['bulk_' + c] = sorted(bulk)
    derived.alive(rep)


def writer_form(P, V, c, rep):
    I = flow.new_interp(P)
    try:
        ps = Mo.producer(I, V, ('p', 'self'), 'ser', A.St())
    except (A.Unsup, A.Mismatch) as e:
        rep.undecided('%s [%s] writer' % (show(V), c), e.why)
        return None
    f = any(x[0] == 'nt' and x[3] == 'spec' for s, ch in ps for x in ch)
    g = any(x[0] == 'loop' for s, ch in ps for x in ch)
    if not f and not g and any(len(ch) > 1 for s, ch in ps):
        # written without either form's marker: bulk bytes
        f = any(x[0] == 'raw' for s, ch in ps for x in ch)
    if f and g:
        rep.undecided('%s [%s] writer' % (show(V), c), 'mixes both forms')
        return None
    return f


def walk(P, V, bulk, c, rep):
    I = flow.new_interp(P)
    r = flow.method_of(P, I, 'WalkRevisioned', V, 'walk_revisioned')
    ob = '%s::walk_revisioned [%s]' % (show(V), c)
    if r is None:
        rep.absent(ob)
        return
    fn, sub = r
    rep.analysed(fn)
    n = ('p', 'len')
    I.termty[n] = 'usize'
    ch = (('nt', ('prim', 'usize'), n, 'ser'), ('cut', 'rest', ('p', 'restlen')))
    s = A.St()
    cell = I.newcell(s, ('bs', ch))
    I.streams = (cell,)
    I.loopctx = []
    sub = dict(sub)
    rs = I.run_fn(fn, sub, [('ref', cell, ())], s, 2)
    rep.fns |= I.inlined
    ok = True
    for s2, kind, v in rs:
        if kind != 'ret':
            rep.undecided(ob, flow.splitwhy(v)[0])
            ok = False
            continue
        v = I.rderef(s2, v)
        if v[0] != 'agg' or v[1] != RES:
            rep.undecided(ob, 'returns ' + tshow(v)[:80])
            ok = False
            continue
        left = s2.mem[cell][1] if s2.mem[cell][0] == 'bs' else None
        if bulk:
            if v[2] == 0 and s2.free:
                ok = False
                rep.violation(ob, 'a sequence written in bulk form is offered for element-wise traversal', fn.sp, fn.path, flow.conds(s2), key=ob.replace(' ', '_'))
            elif left != ch and s2.free:
                ok = False
                rep.violation(ob, 'the refusal comes after part of the payload was consumed', fn.sp, fn.path, flow.conds(s2), key=ob.replace(' ', '_'))
        else:
            if v[2] == 1 and s2.free:
                ok = False
                rep.violation(ob, 'a sequence written element by element is refused', fn.sp, fn.path, flow.conds(s2), key=ob.replace(' ', '_'))
            elif left == ch and s2.free:
                ok = False
                rep.violation(ob, 'the element count is not read', fn.sp, fn.path, flow.conds(s2), key=ob.replace(' ', '_'))
    if ok and rs:
        rep.proved(ob, len(rs))
