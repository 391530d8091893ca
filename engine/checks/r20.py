import absint as A
import flow
import models as Mo
from mir import show
from terms import *

CRATES = ('revision',)
CONFIGS = ['varint', 'fixed']
CONFIGS_THOROUGH = ['varint', 'fixed', 'plain']
TECHNIQUE = 'static dataflow: order of emission of indexed maps and sets, inferred from MIR'
RULE = ('For every type written as an indexed map or set the layout it writes is inferred from the MIR, each repeated region together with the order in which its elements are enumerated. '
        'A region that repeats over the entries of the container must enumerate them in ascending order of the encoded key (map) or element (set); '
        'a region that enumerates them in the order of the in-memory container, or by anything else, is a violation.')
ASSUME = ['sort, sort_by and their unstable variants on encoded keys do what std documents', 'the encoding of a key does not depend on the container (R01)',
          'distinct keys have distinct encodings']


def orders(I, chunks):
    """the enumerations a layout is made of: loops and the ones offsets are summed over"""
    out = []

    def sums(t):
        if t and t[0] == 'psum':
            out.append(I.canon_driver(t[2]))
        return False
    for ch in chunks:
        if ch[0] == 'loop':
            out.append(I.canon_driver(ch[2]))
            for a in ch[3]:
                mentions(a[1], sums)
                out.extend(orders(I, a[1]))
    return out


def run(progs, rep):
    n = 0
    for c, P in progs.items():
        for mode in ('imap', 'iset'):
            for i, T in flow.subjects(P, mode):
                n += 1
                one(P, c, rep, mode, T)
    rep.count('containers', n)
    if n == 0:
        raise RuntimeError('no indexed map or set found')


def one(P, c, rep, mode, T):
    I = flow.new_interp(P)
    X = ('p', 'self')
    I.unordered.add(X)
    w = flow.method_of(P, I, A.WRITE_TRAIT[mode], T, A.WRITE_METHOD[mode])
    rep.analysed(w[0])
    try:
        ps = Mo.producer(I, T, X, mode, A.St())
    except (A.Unsup, A.Mismatch) as e:
        rep.undecided('%s [%s] writer' % (show(T), c), e.why)
        return
    if not ps:
        rep.undecided('%s [%s] writer' % (show(T), c), 'no path')
        return
    for s, ch in ps:
        seen = set()
        for D in orders(I, ch):
            if D not in seen:
                seen.add(D)
                judge(rep, c, mode, T, w[0], s, D)
    rep.fns |= set(I.inlined)


def judge(rep, c, mode, T, f, s, D):
    X = ('p', 'self')
    ob = '%s [%s] region over %s' % (show(T), c, tshow(D)[:60])
    if D[0] != 'perm':
        if unordered_source(D, X):
            rep.violation('%s [%s]' % (show(T), c), 'a region of the indexed encoding is written in the iteration order of the container (%s), not in ascending order of the encoded %s'
                          % (tshow(D)[:120], 'keys' if mode == 'imap' else 'elements'), f.sp, f.path, flow.conds(s), key=show(T).replace(' ', ''))
        elif D[0] != 'range' and mentions(D, lambda y: y == X):
            rep.undecided(ob, 'cannot tell in which order %s enumerates the entries' % tshow(D)[:200])
        return
    by = D[2]
    if by[0] == '?':
        rep.undecided(ob, 'sorted by something not understood')
        return
    k = by[1] if len(by) > 1 else None
    ok = by[0] == 'asc' and encoded_key(k, mode, X)
    if ok:
        rep.proved('%s [%s] entries ascend by encoded %s' % (show(T), c, 'key' if mode == 'imap' else 'element'))
    elif ok is None:
        rep.undecided(ob, 'sorted by %s' % tshow(k)[:200])
    else:
        rep.violation('%s [%s]' % (show(T), c), 'a region of the indexed encoding is written in the order %s %s, not in ascending order of the encoded %s'
                      % (by[0], tshow(k)[:160] if k else '', 'keys' if mode == 'imap' else 'elements'), f.sp, f.path, flow.conds(s), key=show(T).replace(' ', ''))


def unordered_source(D, X):
    while D[0] in ('map', 'enum', 'rev', 'peekable'):
        D = D[1]
    return D == ('seq', X)


def encoded_key(k, mode, X):
    """True: the encoding of the entry's key or element; False: of something else; None: not understood"""
    if k is None:
        return False
    while k[0] == 'agg' and len(k[3]) >= 1:
        k = k[3][0]
    if partial(k):
        return False
    if k[0] == 'seq' and k[1][0] == 'bs':
        k = k[1]            # byte by byte
    if k[0] != 'bs' or len(k[1]) != 1 or k[1][0][0] != 'nt' or k[1][0][3] != 'ser':
        # the value itself, or other bytes
        return None
    v = k[1][0][2]
    item = ('item', ('seq', X))
    if mode == 'iset':
        return v[:2] == item
    if v[0] == 'fld' and v[1][:2] == item:
        return v[3] == 0 if isinstance(v[3], int) else None
    return None


def partial(k):
    """some of the encoded bytes, or their number"""
    if k[0] == 'sub' and k[1][0] == 'bs':
        return True
    if k[0] in ('sz', 'lin'):
        return True
    if k[0] in ('taken', 'skipped', 'rev', 'stepped') and k[1][0] in ('seq', 'taken', 'skipped') and mentions(k, lambda y: y[0] == 'bs'):
        return True         # the first, the last or every other byte, or the bytes backwards
    if k[0] == 'idx':
        return partial(k[1]) or k[1][0] == 'bs'
    return False
