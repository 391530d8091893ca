import absint as A
import derived
import flow
from checks.r08 import clients, layout
from mir import show
from terms import *

CONFIGS = ['varint']
TECHNIQUE = 'static typestate: inductive step of each cursor operation, by abstract interpretation of MIR'
RULE = ('Each cursor operation is interpreted from a cursor with an arbitrary remaining count n, over a stream holding one element, the stream failing at each of its parts, '
        'and in each cursor state. On success the count is n-1 and the cursor equals a fresh one of count n-1 (the induction step: nothing else is remembered); on failure the count is n; '
        'an item offered but not taken changes nothing; value-before-key and key-twice operations fail without touching the stream.')
ASSUME = ['reads through SliceReader and the BorrowedReader impls advance by the bytes they return (decided under R16)']

T, K, V = ('param', 'T'), ('param', 'K'), ('param', 'V')
U64, STR = ('prim', 'u64'), ('adt', 'std::string::String', ())
x, k, v = ('p', 'x'), ('p', 'k'), ('p', 'v')
RAW = lambda t: ('rawof', t)
SEQ = {
    'seq_decode': ([(T, x)], x), 'seq_skip': ([(T, x)], UNIT), 'seq_walk': ([(U64, x)], x), 'seq_bytes': ([(STR, x)], RAW(x)),
    'map_pair': ([(K, k), (V, v)], tup(k, v)), 'map_skip_pair': ([(K, k), (V, v)], UNIT), 'map_kv': ([(K, k), (V, v)], tup(k, v)),
    'map_k': ([(K, k), (V, v)], k), 'map_v': ([(K, k), (V, v)], v), 'map_ss': ([(K, k), (V, v)], UNIT), 'map_kw': ([(K, k), (U64, v)], tup(k, v)),
    'map_bytes': ([(STR, k), (STR, v)], tup(RAW(k), RAW(v))),
}
BAD = ['bad_dv', 'bad_sv', 'bad_wv', 'bad_bv']
TWICE = {'twice_dd': [(K, k), (V, v)], 'twice_ds': [(K, k), (V, v)], 'twice_sd': [(K, k), (V, v)], 'twice_ss': [(K, k), (V, v)], 'twice_db': [(STR, k), (V, v)]}
USZ = ('prim', 'usize')
FAULT = ('fault',)


def go(I, f, st, chunks, args=()):
    """(kind, why, sp, state, value, rest of the stream)"""
    st = st.fork()
    cell = I.newcell(st, ('bs', tuple(chunks)))
    I.streams = (cell,)
    I.loopctx = []
    try:
        rs = I.run_fn(f, {}, [('ref', cell, ())] + list(args), st, 2)
    except (A.Unsup, A.Mismatch) as e:
        return [('unsup', e.why, e.sp, st, None, None)]
    out = []
    for s2, kind, val in rs:
        if kind != 'ret':
            w, sp = flow.splitwhy(val)
            out.append((kind, w, sp, s2, None, None))
            continue
        val = I.rderef(s2, val)
        rest = I.drop_empty(s2, s2.mem[cell][1]) if s2.mem[cell][0] == 'bs' else None
        out.append(('ret', None, None, s2, I.deep(s2, val), rest))
    return out


def run(progs, rep):
    for c, P in progs.items():
        fs = {name: f for mod, name, f in clients(P) if mod == 'step'}
        for name, (elems, val) in SEQ.items():
            step(P, c, rep, fs, name, elems, val)
        for name in BAD:
            refused(P, c, rep, fs, name)
        for name, elems in TWICE.items():
            step(P, c, rep, fs, name, elems, None)
        for name in ('seq_peek', 'map_peek'):
            peek(P, c, rep, fs, name)
        fp = {name: f for mod, name, f in clients(P) if mod == 'pos'}
        for name in ('tr_decode', 'tr_skip', 'tr_two'):
            position(P, c, rep, fp[name], name)
    derived.alive(rep)


def fresh(I, fs, name, st, n):
    """the cursor constructed over a payload announcing n elements"""
    g = fs['seq_new' if name.startswith('seq') else 'map_new']
    rs = [r for r in go(I, g, st, (('nt', USZ, n, 'ser'),)) if r[0] == 'ret']
    if len(rs) == 1 and rs[0][4][1] == RES and rs[0][4][2] == 0:
        return rs[0][4][3][0]
    return None


def unread(t):
    """forget the reader: compare what the cursor remembers"""
    return tmap(t, lambda y: ('bs', ()) if y and y[0] == 'bs' else y)


def same_cursor(I, st, w, ref):
    if ref is None:
        return None
    a, b = unread(I.nf(st, w)), unread(I.nf(st, ref))
    return True if a == b else I.equal(st, a, b)


def bad(rep, ob, definite, st, why, f, sp=None):
    if definite and st.free:
        rep.violation(ob, why, sp or f.sp, f.path, flow.conds(st), key=ob.split(' ')[0])
    else:
        rep.undecided(ob, why, sp)


def start(I):
    n = ('p', 'n')
    I.termty[n] = 'usize'
    s = A.St()
    s.conds = (('cmp', 'Ge', n, C(1)),)
    return s, n


def elements(I, elems, st):
    """[(state, [chunk list per element], {value: its raw bytes})]"""
    out = [(st, [], {})]
    for ty, val in elems:
        nxt = []
        for s, parts, raws in out:
            if ty == STR:
                for s2, ch in layout(I, ty, val, s):
                    r = dict(raws)
                    r[val] = tuple(y for y in ch if y[0] != 'nt')
                    nxt.append((s2, parts + [list(ch)], r))
            else:
                nxt.append((s, parts + [[('nt', ty, val, 'ser')]], raws))
        out = nxt
    return out


def eq(I, st, got, want, raws):
    if want[0] == 'rawof':
        b = raws[want[1]]
        if I.equal(st, got, ('bs', b)) is True:
            return True
        if not b and I.zero(st, I.length(st, got)):
            return True
        if len(b) == 1 and b[0][0] == 'raw':
            return I.equal(st, got, b[0][1])
        return None
    if want[0] == 'agg' and got[0] == 'agg' and len(want[3]) == len(got[3]):
        r = True
        for g, w in zip(got[3], want[3]):
            e = eq(I, st, g, w, raws)
            if e is not True:
                return e
        return r
    return I.equal(st, got, want)


def step(P, c, rep, fs, name, elems, val):
    f = fs[name]
    rep.analysed(f)
    I = flow.new_interp(P)
    s, n = start(I)
    u = ('nt', USZ, n, 'ser')
    for s1, parts, raws in elements(I, elems, s):
        # success
        ob = '%s takes one element [%s]' % (name, c)
        judge(rep, I, fs, f, name, ob, go(I, f, s1, [u] + sum(parts, [])), n, val is not None, sub(n, C(1)), val, raws, ())
        # failure at each chunk of the element
        if val is None:
            continue
        flat = sum(parts, [])
        for j in range(len(flat)):
            ob = '%s when the reader fails at part %d of the element [%s]' % (name, j, c)
            # u64's walker reads nothing until asked: the element has been handed over by then
            gone = (name, j) in (('seq_walk', 0), ('map_kw', 1))
            judge(rep, I, fs, f, name, ob, go(I, f, s1, [u] + flat[:j] + [FAULT]), n, False, sub(n, C(1)) if gone else n, None, raws, (FAULT,))
    rep.fns |= I.inlined


def judge(rep, I, fs, f, name, ob, rs, n, ok, after, val, raws, left):
    good = 0
    for kind, why, sp, st, r, rest in rs:
        if kind != 'ret':
            bad(rep, ob, kind in ('bad', 'panic'), st, why, f, sp)
            continue
        if r[0] != 'agg' or r[1] != RES:
            bad(rep, ob, False, st, 'returns %s' % tshow(r)[:160], f)
            continue
        if r[2] == 1:
            bad(rep, ob, True, st, 'no element is offered although %s remain' % tshow(n), f)
            continue
        a, res, w, m = r[3][0][3]
        if I.equal(st, a, n) is not True:
            bad(rep, ob, I.equal(st, a, n) is False, st, 'a cursor over %s elements starts with %s remaining' % (tshow(n), tshow(a)), f)
            continue
        if rest != left:
            bad(rep, ob, rest is not None, st, 'leaves %s unread' % tshow(('bs', rest or ())), f)
            continue
        if res[0] != 'agg' or res[1] != RES:
            bad(rep, ob, False, st, 'operation returns %s' % tshow(res)[:160], f)
            continue
        if (res[2] == 0) != ok:
            bad(rep, ob, True, st, 'the operation %s' % ('reports success' if res[2] == 0 else 'fails with %s' % tshow(res)[:160]), f)
            continue
        e = I.equal(st, m, after)
        if e is not True:
            bad(rep, ob, e is False or is_c(sub(m, after)), st, '%s elements remain instead of %s' % (tshow(m), tshow(after)), f)
            continue
        e = same_cursor(I, st, w, fresh(I, fs, name, st, after))
        if e is not True:
            bad(rep, ob, False, st, 'the cursor left behind is %s' % tshow(w)[:200], f)
            continue
        if ok and val is not None:
            e = eq(I, st, res[3][0], val, raws)
            if e is not True:
                bad(rep, ob, e is False, st, 'yields %s' % tshow(res[3][0])[:200], f)
                continue
        good += 1
    if good and good == len(rs):
        rep.proved(ob, good)


def refused(P, c, rep, fs, name):
    f = fs[name]
    rep.analysed(f)
    I = flow.new_interp(P)
    s, n = start(I)
    ob = '%s: a value before its key is refused [%s]' % (name, c)
    judge(rep, I, fs, f, name, ob, go(I, f, s, [('nt', USZ, n, 'ser')]), n, False, n, None, {}, ())
    rep.fns |= I.inlined


def peek(P, c, rep, fs, name):
    f = fs[name]
    rep.analysed(f)
    I = flow.new_interp(P)
    s, n = start(I)
    ob = '%s: an element offered but not taken stays [%s]' % (name, c)
    judge(rep, I, fs, f, name, ob, go(I, f, s, [('nt', USZ, n, 'ser')]), n, True, n, TRUE, {}, ())
    ob = '%s: nothing is offered after the last element [%s]' % (name, c)
    judge(rep, I, fs, f, name, ob, go(I, f, A.St(), [('nt', USZ, C(0), 'ser')]), C(0), True, C(0), FALSE, {}, ())
    rep.fns |= I.inlined


def position(P, c, rep, f, name):
    rep.analysed(f)
    I = flow.new_interp(P)
    rev = ('p', 'rev')
    I.termty[rev] = 'u16'
    first = [('nt', T, ('p', 'w'), 'ser')] if name == 'tr_two' else []
    base = C(1) if first else C(0)
    for ok, body in ((True, [('nt', T, x, 'ser')]), (False, [FAULT])):
        ob = 'pos::%s %s [%s]' % (name, 'takes a field' if ok else 'when the reader fails', c)
        for kind, why, sp, st, r, rest in go(I, f, A.St(), first + body, [rev]):
            if kind != 'ret' or r[2] == 1:
                bad(rep, ob, kind in ('bad', 'panic', 'ret'), st, why or 'fails', f, sp)
                continue
            a, res, b = r[3][0][3]
            e1, e2 = I.equal(st, a, base), I.equal(st, b, add(base, C(1) if ok else C(0)))
            if e1 is not True or e2 is not True or rest != (() if ok else (FAULT,)) or (res[2] == 0) != ok:
                bad(rep, ob, False in (e1, e2) or (res[2] == 0) != ok or rest is not None and rest != (() if ok else (FAULT,)), st,
                    'position goes from %s to %s, result %s, unread %s' % (tshow(a), tshow(b), tshow(res)[:80], tshow(('bs', rest or ()))), f)
            else:
                rep.proved(ob)
    rep.fns |= I.inlined
