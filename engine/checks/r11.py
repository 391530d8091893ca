import absint as A
import derived
import flow
import witness
from terms import *

CONFIGS = ['varint', 'fixed']
RULE = ('Envelope functions are interpreted for every identifier 0..31 over a symbolic body: the tag written is read back as the same identifier and class, the length word equals the '
        'body length, and every stepping function consumes exactly the rest. For each optimised declaration and revision, the length word (or fixed size) on every writer path equals the '
        'sum of the sizes of the chunks that follow it.')
ASSUME = ['lengths are below 2^32 (R22 decides that larger ones are rejected)', 'the declarations of fixture/src/decls.rs exercise every branch of the macro expansion',
          'a variant declared fixed(N) has an N-byte body, as the documentation requires']


def le4(ch):
    """the term whose four little-endian bytes these chunks are"""
    if len(ch) < 4 or any(x[0] != 'b' for x in ch[:4]):
        return None
    bs = [x[1] for x in ch[:4]]
    if all(is_c(b) for b in bs):
        return C(sum(b[1] << (8 * i) for i, b in enumerate(bs)))
    if all(b[0] == 'byte' and b[1] == bs[0][1] and b[2] == i for i, b in enumerate(bs) if b[0] == 'byte') and all(b[0] == 'byte' for b in bs):
        x = bs[0][1]
        while x[0] == 'cast':
            x = x[2]
        return x
    return None


def total(I, s, ch):
    n = C(0)
    for x in ch:
        n = add(n, I.size(s, x))
    return n


def run(progs, rep):
    for c, P in progs.items():
        envelope(P, c, rep)
        for d in derived.decls(P):
            for k in d.revs():
                if d.hist[k - 1]:
                    declared(P, c, rep, d, k)
    derived.alive(rep)


def declared(P, c, rep, d, k):
    case = derived.Case(P, d, k)
    I = case.I
    ob = '%s at revision %d [%s]' % (d.name, k, c)
    if case.paths is None:
        rep.undecided(ob, case.err[0])
        return
    w = flow.method_of(P, I, 'SerializeRevisioned', case.T, 'serialize_revisioned')[0]
    rep.analysed(w)
    vs = [v for v in d.variants if v.at(k)] if d.kind == 'enum' else []
    for s, ch in case.paths:
        # the header is one typed chunk (or its two bytes)
        body = ch[1:] if ch[0][0] == 'nt' else ch[2:]
        if d.kind != 'enum':
            length(rep, ob, I, s, w, body, '%s|%d' % (d.name, k))
            continue
        vi = derived.written_variant(case, s)
        vi = 0 if vi is None and len(vs) == 1 else vi
        if vi is None or not body or body[0][0] != 'b' or not is_c(body[0][1]):
            rep.undecided(ob, 'tag not constant')
            continue
        v = vs[vi]
        t = body[0][1][1]
        cls = (t >> 5) & 3
        key = '%s|%d|%s' % (d.name, k, v.name)
        ob2 = '%s variant %s' % (ob, v.name)
        want = 0 if v.size == 'inline' else 2 if v.size == 'varlen' else 1
        if cls != want or t & 0x80:
            if s.free:
                rep.violation(ob2, 'declared %s but tagged %#04x (class %d)' % (v.size, t, cls), w.sp, w.path, key=key)
            continue
        if cls == 2:
            length(rep, ob2, I, s, w, body[1:], key)
            continue
        n = total(I, s, body[1:])
        N = C(0) if cls == 0 else C(int(v.size[6:-1]))
        n = constsize(I, s, body[1:], n)
        r = I.cmp(s, 'Eq', n, N)
        if r is True:
            rep.proved(ob2)
        elif is_c(n) and s.free:
            rep.violation(ob2, 'declared %s but %s bytes are written' % (v.size, tshow(n)), w.sp, w.path, key=key)
        else:
            rep.undecided(ob2, 'body size %s' % tshow(n))


def constsize(I, s, ch, n):
    import models as Mo
    tot = 0
    for x in ch:
        z = I.size(s, x)
        if not is_c(z) and x[0] == 'nt':
            y = Mo.const_size(I, s, x[1], x[3])
            z = C(y) if y is not None else z
        if not is_c(z):
            return n
        tot += z[1]
    return C(tot)


def length(rep, ob, I, s, w, ch, key):
    L = le4(ch)
    n = total(I, s, ch[4:])
    if L is None:
        if len(ch) < 4 and all(x[0] == 'b' for x in ch) and s.free:
            rep.violation(ob, 'no length word is written', w.sp, w.path, flow.conds(s), key=key)
        else:
            rep.undecided(ob, 'length word %s' % tshow(('bs', ch[:4])))
        return
    if I.equal(s, L, n) is True or sub(L, n) == C(0):
        rep.proved(ob)
        return
    d = sub(L, n)
    wit = None if is_c(d) else witness.differ(I, s, L, n)
    if is_c(d) and s.free or wit is not None:
        rep.violation(ob, 'the length word is %s but %s bytes follow' % (tshow(L), tshow(n)), w.sp, w.path, flow.conds(s), key=key)
    else:
        rep.undecided(ob, 'length word %s against %s' % (tshow(L), tshow(n)))


def client(P, name):
    for f in P.fns.values():
        if f.path == 'clients::' + name or f.path.endswith('::clients::' + name):
            return f
    raise RuntimeError('client function %s missing' % name)


def envelope(P, c, rep):
    X = ('p', 'body')
    for fname, cls in (('enc_inline', 0), ('enc_fixed', 1), ('enc_varlen', 2)):
        f = client(P, fname)
        for i in range(32):
            ob = '%s(%d) [%s]' % (fname, i, c)
            I = flow.new_interp(P)
            s = A.St()
            cell = I.newcell(s, ('bs', ()))
            I.streams = (cell,)
            I.loopctx = []
            args = [('ref', cell, ()), C(i)] + ([X] if cls else [])
            try:
                rs = I.run_fn(f, {}, args, s, 2)
            except (A.Unsup, A.Mismatch) as e:
                rep.undecided(ob, e.why)
                continue
            for (s2, kind, v) in rs:
                v = I.rderef(s2, v) if kind == 'ret' else v
                if kind != 'ret' or v[0] != 'agg' or v[1] != RES:
                    w, sp = flow.splitwhy(v) if kind != 'ret' else (tshow(v), None)
                    rep.undecided(ob, str(w))
                    continue
                if v[2] == 1:
                    # only an over-long body may be refused
                    continue
                ch = s2.mem[cell][1]
                judge_env(P, rep, ob, I, s2, f, ch, i, cls, X)
            rep.fns |= I.inlined


def run_reader(I, fn, s, ch):
    return derived.raw_consume(I, fn, {}, s, tuple(ch))


def judge_env(P, rep, ob, I, s, f, ch, i, cls, X):
    # first chunk through dec_tag, rest must be exactly the body (with its length word)
    fn = client(P, 'dec_tag')
    ok = True
    for o, st, v in derived.raw_consume(I, fn, {}, s, tuple(ch) if cls == 0 else tuple(ch[:1])):
        if o is not None:
            ok = False
            if o.verdict == 'violation':
                rep.violation(ob, 'the tag written is not read back: ' + o.why, o.sp or f.sp, f.path, key=ob.split(' ')[0])
            else:
                rep.undecided(ob, o.why)
            continue
        got = (v[3][0], v[3][1]) if v[0] == 'agg' and len(v[3]) == 2 else None
        if got != (C(i), C(cls)):
            ok = False
            if got and is_c(got[0]) and is_c(got[1]) and st.free:
                rep.violation(ob, 'identifier %d class %d is read back as %s class %s' % (i, cls, tshow(got[0]), tshow(got[1])), f.sp, f.path, key=ob.split(' ')[0])
            else:
                rep.undecided(ob, tshow(v))
    if cls == 2:
        L = le4(ch[1:])
        n = total(I, s, ch[5:])
        if L is None or I.equal(s, L, n) is not True:
            ok = False
            if L is not None and (is_c(sub(L, n)) and s.free or witness.differ(I, s, L, n) is not None):
                rep.violation(ob, 'length word %s, body %s' % (tshow(L), tshow(n)), f.sp, f.path, key=ob.split(' ')[0])
            else:
                rep.undecided(ob, 'length word %s' % tshow(('bs', ch[1:5])))
        if i in (0, 31):
            for step in ('step_varlen', 'step_varlen_borrowed', 'view_varlen'):
                g = client(P, step)
                rep.analysed(g)
                for o, st, v in derived.raw_consume(I, g, {}, s, tuple(ch[1:])):
                    ob2 = '%s after %s' % (step, ob)
                    if o is not None:
                        if o.verdict == 'violation':
                            rep.violation(ob2, o.why, o.sp or g.sp, g.path, o.conds, key=step)
                        else:
                            rep.undecided(ob2, o.why)
                    elif step == 'view_varlen':
                        v = I.deep(st, v)
                        e = I.equal(st, v, X)
                        body = v[1] if v[0] == 'bs' else None
                        if e is True or (body is not None and tuple(body) == tuple(ch[5:])):
                            rep.proved(ob2)
                        else:
                            rep.undecided(ob2, 'view is %s' % tshow(v)[:200])
                    else:
                        rep.proved(ob2)
    elif cls == 1:
        if tuple(ch[1:]) != (('raw', X, ('len', X)),):
            ok = False
            rep.undecided(ob, 'body %s' % tshow(('bs', ch[1:])))
    if ok:
        rep.proved(ob)
