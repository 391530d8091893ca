"""Producer / consumer agreement: infer the byte layout one function writes and
push it, symbolically typed, through another function that reads it."""
import absint as A
import models as Mo
import witness
from mir import show
from terms import *

SPLIT = {'ok': 'ok', 'bad': 'definite', 'err': 'definite', 'rest': 'definite', 'panic': 'definite',
         'valFalse': 'definite', 'valNone': 'undecided', 'unsup': 'undecided'}


def cshow(c):
    if c[0] == 'cmp':
        return '%s %s %s' % (tshow(c[2]), {'Lt': '<', 'Le': '<=', 'Gt': '>', 'Ge': '>=', 'Eq': '==', 'Ne': '!='}[c[1]], tshow(c[3]))
    if c[0] in ('isv', 'notv'):
        return '%s %s variant %s' % (tshow(c[1]), 'is' if c[0] == 'isv' else 'is not', c[2])
    if c[0] == 'tyeq':
        return '%s = %s' % (show(c[1]), show(c[2]))
    if c[0] == 'tyne':
        return '%s != %s' % (show(c[1]), show(c[2]))
    return '(%s)' % ' '.join(tshow(x) if isinstance(x, tuple) else str(x) for x in c)


def conds(s):
    out = []
    for c in s.conds:
        if c[0] == 'next':
            continue
        x = cshow(c)
        if x not in out:
            out.append(x)
    return out


class Outcome:
    __slots__ = ('kind', 'why', 'sp', 'free', 'conds', 'log')

    def __init__(self, kind, why, sp, st):
        self.kind, self.why, self.sp = kind, why, sp
        self.free = st.free
        self.conds = conds(st)
        self.log = st.log

    @property
    def verdict(self):
        v = SPLIT[self.kind]
        if v == 'definite':
            return 'violation' if self.free else 'undecided'
        return v


def splitwhy(v):
    if isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], str):
        return v[0], v[1] if isinstance(v[1], str) else None
    return str(v), None


def consume(I, fn, sub, st, chunks, expect=None, args=None):
    """outcomes of running `fn` over the produced stream.
    expect: value term the Ok result must equal (None: framing only)"""
    st = st.fork()
    cell = I.newcell(st, ('bs', tuple(chunks)))
    I.streams = (cell,)
    I.loopctx = []
    out = []
    try:
        rs = I.run_fn(fn, sub, [('ref', cell, ())] + list(args or []), st, 2)
    except A.Unsup as e:
        return [Outcome('unsup', e.why, e.sp, st)]
    except A.Mismatch as e:
        return [Outcome('unsup', 'top level: ' + e.why, e.sp, st)]
    except RecursionError:
        return [Outcome('unsup', 'recursion', None, st)]
    for (s2, kind, v) in rs:
        if kind in ('bad', 'unsup', 'panic'):
            w, sp = splitwhy(v)
            out.append(Outcome(kind, w, sp, s2))
            continue
        v = I.rderef(s2, v)
        if v[0] == 'agg' and v[1] == RES and v[2] == 1:
            out.append(Outcome('err', 'the reader rejects the written bytes with %s' % tshow(I.deep(s2, v[3][0])), fn.sp, s2))
            continue
        if v[0] != 'agg' or v[1] != RES:
            out.append(Outcome('unsup', 'returns ' + tshow(v)[:120], fn.sp, s2))
            continue
        rest = I.drop_empty(s2, s2.mem[cell][1]) if s2.mem[cell][0] == 'bs' else None
        if rest is None:
            out.append(Outcome('unsup', 'stream replaced', fn.sp, s2))
            continue
        if rest:
            out.append(Outcome('rest', 'the reader leaves %s unread' % tshow(('bs', rest)), fn.sp, s2))
            continue
        if expect is not None:
            e, fr = witness.decide(I, s2, v[3][0], expect)
            if e is False and fr:
                s2.free = True
            if e is not True:
                out.append(Outcome('val%s' % e, 'the reader returns %s instead of %s' % (tshow(I.nf(s2, v[3][0]))[:200], tshow(expect)), fn.sp, s2))
                continue
        out.append(Outcome('ok', '', None, s2))
    return out


def new_interp(P):
    return A.Interp(P)


READERS = {
    'ser': {
        'decode': ('DeserializeRevisioned', 'deserialize_revisioned', True),
        'skip': ('SkipRevisioned', 'skip_revisioned', False),
        'skip_slice': ('SkipRevisioned', 'skip_revisioned_slice', False),
    },
    'spec': {'decode': ('DeserializeRevisionedSpecialised', 'deserialize_revisioned_specialised', True)},
    'imap': {'decode': ('IndexedMapEncoded', 'deserialize_indexed_map', True), 'skip': ('IndexedMapEncoded', 'skip_indexed_map', False)},
    'iseq': {'decode': ('IndexedSeqEncoded', 'deserialize_indexed_seq', True), 'skip': ('IndexedSeqEncoded', 'skip_indexed_seq', False)},
    'iset': {'decode': ('IndexedSetEncoded', 'deserialize_indexed_set', True), 'skip': ('IndexedSetEncoded', 'skip_indexed_set', False)},
}


def provided(P, trait, method):
    for f in P.fns.values():
        if f.path.endswith('%s::%s' % (trait, method)) and not f.in_impl:
            return f
    return None


def method_of(P, I, trait, T, method):
    r = P.find_impl(trait, T)
    if not r:
        return None
    im, sub = r
    it = im['items_by_name'].get(method)
    if it and it['key'] in P.fns:
        fn = P.fns[it['key']]
        return fn, I.fn_subst(fn, sub, [])
    fn = provided(P, trait, method)
    if fn is None:
        return None
    return fn, {'Self': T}


def subjects(P, mode, crate='revision'):
    """types with a writer in this mode, arrays at sample lengths only"""
    for i in P.impl_by_trait.get(A.WRITE_TRAIT[mode], []):
        if crate and i['crate'].name != crate:
            continue
        T = A.erase(i['selfty'])
        if T[0] == 'array' and T[2].isdigit() and int(T[2]) not in (1, 3, 32):
            continue
        yield i, T


def agree(P, mode, T, which, config, rep, note=None):
    """one obligation per (producer path, reader)"""
    I = new_interp(P)
    if mode in ('imap', 'iset'):
        I.unordered.add(('p', 'self'))
    if T[0] == 'array' and T[2].isdigit():
        I.lens[('p', 'self')] = C(int(T[2]))
    w = method_of(P, I, A.WRITE_TRAIT[mode], T, A.WRITE_METHOD[mode])
    if w is None:
        return
    try:
        ps = Mo.producer(I, T, ('p', 'self'), mode, A.St())
    except (A.Unsup, A.Mismatch) as e:
        rep.undecided('%s [%s] writer' % (show(T), config), e.why)
        return
    if not ps:
        rep.undecided('%s [%s] writer' % (show(T), config), 'no path')
        return
    for name in which:
        tr, m, de = READERS[mode][name]
        f = method_of(P, I, tr, T, m)
        if f is None:
            rep.absent('%s [%s] %s' % (show(T), config, m))
            continue
        fn, sub = f
        rep.analysed(fn)
        for s, ch in ps:
            outs = consume(I, fn, sub, s, ch, ('p', 'self') if de else None)
            verdicts = set()
            for o in outs:
                v = o.verdict
                verdicts.add(v)
                ob = '%s::%s over the bytes of %s [%s]' % (show(T), m, w[0].path, config)
                if v == 'violation':
                    rep.violation(ob, o.why, o.sp or fn.sp, fn.path, o.conds)
                elif v == 'undecided':
                    rep.undecided(ob, o.why, o.sp)
            if verdicts == {'ok'}:
                rep.proved('%s::%s [%s]' % (show(T), m, config), len(outs))
    rep.fns |= {k for k in I.inlined}
