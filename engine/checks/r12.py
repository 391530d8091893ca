import absint as A
import derived
import flow
import layoutev as L
import models as Mo
from checks.r08 import clients
from mir import show
from terms import *

CONFIGS = ['varint', 'fixed']
CONFIGS_THOROUGH = ['varint', 'fixed', 'plain']
TECHNIQUE = 'static dataflow: layout inference of indexed containers, readers and random access checked against it'
RULE = ('The bytes each indexed map, sequence or set writer emits are inferred from its MIR as regions, offsets being prefix sums of encoded sizes in the order of emission. '
        'The full reader must consume exactly these regions and rebuild the container, the skipper must end where the layout ends, and the random-access walkers, '
        'interpreted over the same layout at a symbolic position i, must return the bytes of entry i, the count, and the iteration over all entries in order.')
ASSUME = ['every key, value and element encodes to at least one byte and distinct keys to distinct bytes (true of all built-in and derived types)',
          'regions and tables do not exceed 4 GiB (the writers report it otherwise, R22)', 'sorting does what std documents']

READ = {'imap': ['decode', 'skip'], 'iseq': ['decode', 'skip'], 'iset': ['decode', 'skip']}


def run(progs, rep):
    n = 0
    for c, P in progs.items():
        acc = {}
        for mod in ('ix_trusted', 'ix_checked'):
            for f in P.fns.values():
                p = f.path.split('::')
                if mod in p and not f.in_impl and '{' not in f.path:
                    acc[mod, p[-1]] = f
        if len(acc) < 10:
            raise RuntimeError('random-access clients not found')
        for mode in READ:
            for i, T in flow.subjects(P, mode):
                n += 1
                flow.agree(P, mode, T, READ[mode], c, rep)
                access(P, c, rep, acc, mode, T)
    rep.count('containers', n)
    if n == 0:
        raise RuntimeError('no indexed container found')
    derived.alive(rep)


def outcomes(I, f, st, chunks, args=()):
    """run a client over a byte slice holding the chunks"""
    st = st.fork()
    I.streams = ()
    I.loopctx = []
    try:
        rs = I.run_fn(f, {}, [('bs', tuple(chunks))] + list(args), st, 2)
    except (A.Unsup, A.Mismatch) as e:
        return [('unsup', e.why, e.sp, st, None)]
    out = []
    for s2, kind, v in rs:
        if kind != 'ret':
            w, sp = flow.splitwhy(v)
            out.append((kind, w, sp, s2, None))
            continue
        v = I.rderef(s2, v)
        if v[0] == 'agg' and v[1] == RES:
            out.append(('ok' if v[2] == 0 else 'err', None, None, s2, I.deep(s2, v[3][0])))
        else:
            out.append(('unsup', 'returns ' + tshow(v)[:100], None, s2, None))
    return out


def access(P, c, rep, acc, mode, T):
    I = flow.new_interp(P)
    X = ('p', 'self')
    if mode != 'iseq':
        I.unordered.add(X)
    try:
        ps = Mo.producer(I, T, X, mode, A.St())
    except (A.Unsup, A.Mismatch) as e:
        rep.undecided('%s [%s] writer' % (show(T), c), e.why)
        return
    for s, ch in ps or []:
        indexed = any(x[0] == 'loop' and mentions(x[3], lambda y: y and y[0] == 'psum') for x in ch)
        body = [x for x in ch if x[0] == 'loop']
        n = ('len', X)
        if indexed and I.rng(n, s)[0] > 0xffffffff:
            continue            # so many entries of a byte or more have no u32 offsets: the writer reports it
        i = ('p', 'i')
        I.termty[i] = 'usize'
        for mod in ('ix_trusted', 'ix_checked'):
            name = 'map_info' if mode == 'imap' else 'seq_info'
            want(rep, I, c, T, acc[mod, name], s, ch, (), tup(n, None, TRUE if indexed else FALSE))
        views = {'imap': 'map_view', 'iseq': 'seq_view', 'iset': 'set_view'}
        want(rep, I, c, T, acc['ix_checked', views[mode]], s, ch, (), n)
        if not indexed:
            if mode == 'imap':
                want(rep, I, c, T, acc['ix_trusted', 'map_body'], s, ch, (), Some(('bs', tuple(body))))
            else:
                want(rep, I, c, T, acc['ix_trusted', 'seq_body'], s, ch, (), ('bs', tuple(body)))
            continue
        st = s.fork()
        st.conds = st.conds + (('cmp', 'Lt', i, n),)
        if mode == 'imap':
            keys, vals = body[-2:]
            k, v = one(I, st, keys, i), one(I, st, vals, i)
            # a map followed by other bytes is delimited by its own region lengths
            Y = ('p', 'rest')
            I.termty[Y] = 'slice'
            after = list(ch) + [('raw', Y, ('len', Y))]
            want(rep, I, c, T, acc['ix_trusted', 'map_entries'], s, after, (), entries(keys, vals))
            want(rep, I, c, T, acc['ix_trusted', 'map_hint'], st, after, (i, k), tup(Some(v), Some(i)))
            want(rep, I, c, T, acc['ix_trusted', 'map_hint'], st, ch, (i, k), tup(Some(v), Some(i)))
            want(rep, I, c, T, acc['ix_trusted', 'map_entries'], s, ch, (), entries(keys, vals))
        else:
            want(rep, I, c, T, acc['ix_trusted', 'seq_at'], st, ch, (i,), one(I, st, body[-1], i))
    rep.fns |= set(I.inlined)


def one(I, st, lp, i):
    """the bytes iteration i of a region writes"""
    return ('bs', tuple(I.at(st, x, lp[2], lp[1], i) for x in lp[3][0][1]))


def entries(keys, vals):
    return ('pairs', keys, vals)


def same(I, st, got, w):
    if w is None:
        return True
    if w[0] == 'pairs':
        return pairs(I, st, got, w[1], w[2])
    if w[0] == 'agg' and got[0] == 'agg' and len(w[3]) == len(got[3]) and w[2] == got[2]:
        r = True
        for g, x in zip(got[3], w[3]):
            e = same(I, st, g, x)
            if e is not True:
                return e
        return r
    if got == w:
        return True
    return I.equal(st, got, w)


def pairs(I, st, got, keys, vals):
    """a vector of one (key bytes, value bytes) per entry, in the order written"""
    if got[0] != 'vec' or len(got[1]) != 1 or got[1][0][0] != 'loop':
        return None
    _, lid, driver, alts = got[1][0]
    n = I.count(st, keys[2])
    if I.equal(st, I.count(st, driver), n) is not True:
        return None
    r = True
    for g, parts in alts:
        if len(parts) != 1 or parts[0][0] != 'one':
            return None
        s2 = st.fork()
        s2.conds = s2.conds + tuple(g)
        pos = I.position(s2, driver, lid)
        for x in g:
            if x[:2] == ('cmp', 'Eq') and x[2] == pos and is_c(x[3]):
                pos = x[3]
        k, v = one(I, s2, keys, pos), one(I, s2, vals, pos)
        e = same(I, s2, parts[0][1], tup(k, v))
        if e is not True:
            return e
    return r


def want(rep, I, c, T, f, st, chunks, args, expect):
    ob = '%s over %s [%s]' % ('::'.join(f.path.split('::')[-2:]), show(T), c)
    rep.analysed(f)
    good = 0
    for kind, why, sp, s2, val in outcomes(I, f, st, chunks, args):
        wit = 'any input' if s2.free else None
        if kind == 'ok':
            e = same(I, s2, val, expect)
            if e is True:
                good += 1
                continue
            why = 'the walker gives %s instead of %s' % (tshow(I.nf(s2, val))[:240], tshow(expect)[:240])
            kind = 'wrong'
            if e is not False or not wit:
                wit = L.differ(I, s2, val, lambda E: L.expected(E, expect))
        elif kind == 'err':
            why = 'the walker rejects the bytes written: %s' % tshow(val)[:200]
        if kind in ('err', 'bad') and not wit:
            wit = L.feasible(I, s2)
        if kind in ('wrong', 'err', 'bad') and wit:
            rep.violation(ob, '%s (for %s)' % (why, wit), sp or f.sp, f.path, flow.conds(s2), key=ob.replace(' ', ''))
        else:
            rep.undecided(ob, '%s: %s' % (kind, why), sp)
        good = -99
    if good > 0:
        rep.proved(ob, good)
