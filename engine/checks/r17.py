import absint as A
import errflow
import flow
import models as Mo
import prims
from mir import show
from terms import *

CONFIGS = ['varint', 'fixed', 'plain']
TECHNIQUE = 'static error-flow analysis over MIR control-flow graphs'
RULE = ('Every call returning a Result with an I/O or library error, in every function of the library and of the code the macro generates for the fixture declarations, is followed through '
        'the control-flow graph: on every path where it is an error the function returns an error, and no path drops it unlooked at. A call that may transfer fewer bytes than asked '
        '(Read::read, Write::write, ...) must have its count looked at.')
ASSUME = ['the standard library reports failures and short transfers as documented']
SHORT = {'std::io::Write::write', 'std::io::Read::read', 'std::io::Write::write_vectored', 'std::io::Read::read_vectored', 'std::io::Read::read_buf'}


def scope(P, derived):
    for f in P.fns.values():
        if f.crate.name == 'revision' or derived and '::decls::' in '::' + f.path:
            yield f


def run(progs, rep):
    for c, P in progs.items():
        n = 0
        for f in scope(P, c == 'varint' or rep.thorough):
            if f.name.startswith(('default_', 'conv_')) and f.crate.name != 'revision':
                continue
            ss = list(errflow.sites(f))
            if ss:
                rep.analysed(f)
            for bi, t, d, name in ss:
                n += 1
                vs = errflow.track(f, bi)
                kinds = {v for v, _ in vs}
                ob = 'result of %s in %s [%s]' % ((d or 'an indirect call').split('::')[-1], f.path, c)
                sp = t.get('sp') or f.sp
                key = '%s@%s' % (f.path.replace(' ', ''), name)
                if 'swallowed' in kinds:
                    rep.violation(ob, 'the error is swallowed: success is returned on a path where this call failed', sp, f.path, key=key)
                elif 'dropped' in kinds:
                    rep.violation(ob, 'the result is dropped without being looked at', sp, f.path, key=key)
                elif kinds & {'tested', 'other', 'handed'}:
                    rep.undecided(ob, 'the result is %s' % ', '.join(sorted(kinds)), sp)
                else:
                    rep.proved(ob)
                if d in SHORT and not (f.name == d.split('::')[-1]):
                    if not errflow.counts_used(f, bi):
                        rep.violation('transfer count of %s in %s [%s]' % (name, f.path, c), 'a short transfer is reported as success: the count returned is never looked at', sp, f.path, key=key + '#short')
        for f in scope(P, c == 'varint' or rep.thorough):
            buffered(f, c, rep)
        early(P, c, rep)
        primitives(P, c, rep)
        rep.count('fallible_calls_' + c, n)
        if n < 300:
            raise RuntimeError('only %d fallible calls found' % n)


# ------------------------------------------------ the stream ends early
EOF = ('eof',)


def truncations(I, s, ch):
    """(what, state, chunk list ending early)"""
    for j, h in enumerate(ch):
        if h[0] not in ('nt', 'raw', 'b'):
            continue
        z = I.size(s, h)
        lo, hi = I.rng(z, s)
        if hi <= 0:
            continue
        s2 = s.fork()
        if lo < 1:
            s2.conds += (('cmp', 'Ge', z, C(1)),)
        yield 'before part %d' % j, s2, ch[:j] + (EOF,)
        if h[0] == 'raw' and not is_c(z):
            s3 = s2.fork()
            m = ('p', 'short')
            I.termty[m] = 'usize'
            s3.conds += (('cmp', 'Lt', m, z),)
            yield 'inside part %d' % j, s3, ch[:j] + (('raw', ('p', 'part'), m), EOF)


def early(P, c, rep):
    n = 0
    for mode, which in (('ser', ('decode', 'skip', 'skip_slice')), ('spec', ('decode',))):
        for i, T in flow.subjects(P, mode):
            I = flow.new_interp(P)
            if T[0] == 'array' and T[2].isdigit():
                I.lens[('p', 'self')] = C(int(T[2]))
            try:
                ps = Mo.producer(I, T, ('p', 'self'), mode, A.St())
            except (A.Unsup, A.Mismatch):
                continue
            for w in which:
                tr, m, de = flow.READERS[mode][w]
                f = flow.method_of(P, I, tr, T, m)
                if f is None:
                    continue
                rep.analysed(f[0])
                for s, ch in ps:
                    for what, s2, cut in truncations(I, s, tuple(ch)):
                        n += 1
                        judge(I, f, s2, cut, rep, '%s::%s when the input ends %s [%s]' % (show(T), m, what, c))
            rep.fns |= set(I.inlined)
    rep.count('truncated_inputs_' + c, n)


def judge(I, f, s2, cut, rep, ob):
    good = True
    for o in flow.consume(I, f[0], f[1], s2, cut):
        if o.kind == 'err':
            continue
        good = False
        if o.kind in ('ok', 'rest') and o.free:
            rep.violation(ob, 'success is reported although the input ended early', f[0].sp, f[0].path, o.conds, key=f[0].path.replace(' ', '') + '#eof')
        else:
            rep.undecided(ob, o.why or 'success on a path not known to be possible')
    if good:
        rep.proved(ob)


# -------------------------------------------- buffered writers must be flushed
def buffered(f, c, rep):
    made, ended = None, False
    for b in f.blocks:
        if b['cl'] or b['t']['k'] != 'call':
            continue
        d, g = errflow.callee(b['t'])
        if not d:
            continue
        name = d.split('::')[-1]
        if name in ('new', 'with_capacity') and ('BufWriter' in d or 'LineWriter' in d):
            made = b['t'].get('sp') or f.sp
        if name in ('flush', 'into_inner', 'into_parts'):
            ended = True
    if made:
        ob = 'buffered writer in %s [%s]' % (f.path, c)
        if not ended and not any('BufWriter' in show(f.crate.ty(l)) for l in f.locals[:1]):
            rep.violation(ob, 'a buffered writer is dropped unflushed: errors of the last transfer are lost', made, f.path, key=f.path.replace(' ', '') + '#flush')
        else:
            rep.proved(ob)


# ------------------------------------------------ the primitives themselves
def primitives(P, c, rep):
    n = 0
    for f, verdict, why, conds, R in list(prims.agree(P)) + list(prims.pump(P)):
        n += 1
        rep.analysed(f)
        ob = 'bytes transferred by %s [%s]' % (f.path, c)
        if verdict == 'violation' and 'it panics' not in why:
            rep.violation(ob, why, f.sp, f.path, conds, key=f.path.replace(' ', '') + '#transfer')
        elif verdict == 'proved':
            rep.proved(ob)
        else:
            rep.undecided(ob, why)
    rep.count('reader_primitives_' + c, n)
    if not n:
        raise RuntimeError('no reader primitive found')
