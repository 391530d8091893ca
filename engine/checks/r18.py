import absint as A
import flow
import models as Mo
from mir import show
from terms import *

CRATES = ('revision',)
CONFIGS = ['varint', 'fixed']
TECHNIQUE = 'static dataflow: value-range and bit-provenance abstract interpretation of the integer codecs'
RULE = ('Integer codecs: (a) each path of the writer, with the value range its branch conditions imply, is read back exactly by the '
        'reader of the same width; (b) in the variable-width configuration a path that emits an n-byte form is taken only by magnitudes no shorter form holds; '
        '(c) for every marker byte followed by a symbolic magnitude the reader of each width returns that magnitude, or an error exactly when it does not fit.')
ASSUME = ['64-bit targets (usize is 64 bits wide)']

INTS = ['u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize']
FORMS = {251: 2, 252: 4, 253: 8, 254: 16}
FLOOR = {1: 0, 3: 251, 5: 1 << 16, 9: 1 << 32, 17: 1 << 64}


def zz(I, s, x, w):
    p = 'u%d' % w
    half = I.arith(s, 'Shr', x, C(1), p)
    bit = I.arith(s, 'BitAnd', x, C(1), p)
    sp = 'i%d' % w
    return ('op', 'BitXor', sp, ('cast', sp, half), scale(('cast', sp, bit), -1))


def run(progs, rep):
    for c, P in progs.items():
        for t in INTS:
            T = ('prim', t)
            if not P.find_impl('SerializeRevisioned', T):
                rep.absent(t)
                continue
            flow.agree(P, 'ser', T, ['decode'], c, rep)
            I = flow.new_interp(P)
            ps = Mo.producer(I, T, ('p', 'self'), 'ser', A.St())
            w = flow.method_of(P, I, 'SerializeRevisioned', T, 'serialize_revisioned')[0]
            rep.fns |= I.inlined
            if c == 'varint' and t not in ('u8', 'i8'):
                for s, ch in ps:
                    ch = flatten(ch)
                    if ch is not None and len(ch) == 1 and ch[0][0] == 'nt' and A.erase(ch[0][1])[0] == 'prim':
                        rep.proved('%s: written as %s [%s]' % (t, show(A.erase(ch[0][1])), c))
                        continue
                    if ch is None or any(x[0] != 'b' for x in ch):
                        rep.undecided('%s writer form' % t, tshow(('bs', ch or ())))
                        continue
                    n = len(ch)
                    first = ch[0][1]
                    ob = '%s: %d-byte form [%s]' % (t, n, c)
                    if n not in FLOOR:
                        rep.undecided(ob, 'unrecognised form')
                        continue
                    x = None
                    for b in (ch[1:] if n > 1 else ch):
                        v = b[1]
                        if v[0] == 'byte' and v[2] == 0:
                            x = v[1]
                        elif n == 1:
                            x = v
                    if n == 1:
                        rep.proved(ob)
                        continue
                    if x is None:
                        rep.undecided(ob, 'payload not traced to the value')
                        continue
                    lo = I.rng(x, s)[0]
                    while x[0] == 'cast' and lo < FLOOR[n]:
                        x = x[2]
                        lo = I.rng(x, s)[0]
                    if lo >= FLOOR[n]:
                        rep.proved(ob)
                    elif s.free and lo >= 0:
                        rep.violation(ob, 'magnitudes from %d are written in the %d-byte form; a shorter form holds everything below %d' % (lo, n, FLOOR[n]),
                                      w.sp, w.path, flow.conds(s))
                    else:
                        rep.undecided(ob, 'range of %s unknown' % tshow(x))
            if c == 'varint' and t not in ('u8', 'i8'):
                fn, sub = flow.method_of(P, I, 'DeserializeRevisioned', T, 'deserialize_revisioned')
                bits_ = W[t]
                # marker 255 is produced by no writer
                forms(P, rep, c, t, fn, sub, 255, 16)
                for tag, n in FORMS.items():
                    forms(P, rep, c, t, fn, sub, tag, n)


def flatten(ch):
    out = []
    for x in ch:
        if x[0] == 'raw' and is_c(x[2]):
            return None
        out.append(x)
    return tuple(out)


def forms(P, rep, c, t, fn, sub, tag, n):
    I = flow.new_interp(P)
    x = ('p', 'magnitude')
    I.termty[x] = 'u%d' % (8 * n)
    s = A.St()
    ch = (('b', C(tag)),) + tuple(('b', ('byte', x, k)) for k in range(n))
    s = s.fork()
    cell = I.newcell(s, ('bs', ch))
    I.streams = (cell,)
    I.loopctx = []
    ob = '%s: marker %d with a symbolic %d-byte magnitude [%s]' % (t, tag, n, c)
    lo, hi = prim_range(t)
    signed = t[0] == 'i'
    maxmag = (1 << W[t]) - 1
    outs = I.run_fn(fn, sub, [('ref', cell, ())], s, 2)
    rep.fns |= I.inlined
    ok = True
    for s2, kind, v in outs:
        if kind in ('unsup',):
            rep.undecided(ob, flow.splitwhy(v)[0])
            ok = False
            continue
        if kind in ('bad',):
            w, sp = flow.splitwhy(v)
            if s2.free and tag != 255:
                rep.violation(ob, w, sp or fn.sp, fn.path, flow.conds(s2))
            ok = False
            continue
        if kind == 'panic':
            w, sp = flow.splitwhy(v)
            if s2.free:
                rep.violation(ob, 'panics: %s' % (w,), sp or fn.sp, fn.path, flow.conds(s2))
            ok = False
            continue
        v = I.rderef(s2, v)
        if v[0] != 'agg' or v[1] != RES:
            rep.undecided(ob, 'returns ' + tshow(v))
            ok = False
            continue
        a, b = I.rng(x, s2)
        if v[2] == 1:
            # rejection: only magnitudes that do not fit
            fits = b <= maxmag if not signed else b <= maxmag
            if tag != 255 and fits and s2.free and a <= b and a <= maxmag:
                rep.violation(ob, 'a magnitude in %d..=%d fits %s but is rejected' % (a, b, t), fn.sp, fn.path, flow.conds(s2))
                ok = False
            continue
        if tag == 255:
            if s2.free:
                rep.violation(ob, 'the reserved marker 255 is accepted', fn.sp, fn.path, flow.conds(s2))
            ok = False
            continue
        val = v[3][0]
        want = x if not signed else zz(I, s2, x, max(W[t], 64) if n <= 8 else 128)
        if not signed:
            if a > maxmag:
                e = False
            else:
                e = I.equal(s2, val, x)
                if e is True and b > maxmag:
                    e = None
        else:
            I.cur = s2
            w = 128
            try:
                xb = bits(I.nf(s2, val), w, I)
                yb = bits(I.nf(s2, want), w, I)
            except Exception:
                xb = yb = None
            e = None if xb is None or yb is None else (True if xb == yb else None)
            if xb is not None and yb is not None and xb != yb:
                # equal wherever the path conditions hold?
                vv = I.rng(I.nf(s2, val), s2)
                e = None
        if e is False and s2.free:
            rep.violation(ob, 'returns %s instead of the encoded magnitude' % tshow(I.nf(s2, val)), fn.sp, fn.path, flow.conds(s2))
            ok = False
        elif e is not True:
            rep.undecided(ob, 'value %s' % tshow(I.nf(s2, val))[:160])
            ok = False
    if ok and outs:
        rep.proved(ob, len(outs))
