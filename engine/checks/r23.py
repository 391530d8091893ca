import absint as A
import errflow
import flow
import models as Mo
from mir import short, show
from terms import *

CONFIGS = ['varint', 'fixed']
CONFIGS_THOROUGH = ['varint', 'fixed', 'plain']
TECHNIQUE = 'static dataflow: provenance of decoded values, symbolic interpretation over unconstrained payloads'
RULE = ('Each decoder of a built-in type is interpreted on a payload whose parts are unconstrained values of their wire types. On every path that returns a value, a value of a type with an invariant must come '
        'out of the checking constructor of that type on its success side; a path on which the constructor refused the data must end in an error; partial library operations that panic outside their domain '
        'must be guarded. Every function that takes part in decoding, skipping or traversal, in the library and in the code generated for the fixture declarations, is searched for calls that build such values '
        'without checking (names ending in unchecked, lossy replacement, transmutation, reinterpretation of raw memory), and each such site must be one of the forms whose element type admits every bit pattern.')
ASSUME = ['the checking constructors of std, chrono, ordered-float, regex, roaring and rust_decimal check what they document']

# type -> names of constructors that check
TEXT = {'String', 'str', 'PathBuf'}
CHECKED = {
    'DateTime': ('single', 'from_timestamp', 'earliest', 'latest', 'from_timestamp_nanos', 'timestamp_opt'),
    'NaiveDate': ('from_ymd_opt', 'from_num_days_from_ce_opt', 'from_yo_opt'),
    'NaiveTime': ('from_hms_nano_opt', 'from_num_seconds_from_midnight_opt'),
    'TimeDelta': ('new', 'try_seconds', 'checked_add'),
    'Duration': ('new', 'checked_add', 'from_secs'),
    'SystemTime': ('add', 'checked_add'),
    'NotNan': ('new', 'try_from', 'try_into'),
    'Regex': ('parse', 'new', 'from_str'),
    'Uuid': ('from_slice', 'from_bytes', 'nil'),
    'Decimal': ('deserialize', 'try_from_i128_with_scale'),
}
PARTIAL = {'single', 'from_timestamp', 'from_ymd_opt', 'from_num_days_from_ce_opt', 'from_yo_opt', 'from_hms_nano_opt', 'from_num_seconds_from_midnight_opt', 'try_seconds', 'parse', 'from_str',
           'from_slice', 'from_utf8', 'from_u32', 'try_from', 'try_into', 'checked_add', 'earliest', 'latest', 'timestamp_opt', 'from_digit'}
UNCHECKED_OK = {'assert_unchecked', 'unreachable_unchecked'}


def forbidden(name):
    last = name.split('::')[-1]
    return ('unchecked' in last and last not in UNCHECKED_OK and not last.startswith(('unchecked_add', 'unchecked_sub', 'unchecked_mul')) and 'get_unchecked' not in last) or 'lossy' in last


def run(progs, rep):
    for c, P in progs.items():
        n = 0
        for i, T in flow.subjects(P, 'ser'):
            if T[0] != 'adt' or short(T[1]) not in TEXT and short(T[1]) not in CHECKED and not T[1].startswith(('geo', 'roaring')):
                continue
            n += values(P, c, rep, T)
        chars(P, c, rep)
        rep.count('payloads_' + c, n)
        if n < 10:
            raise RuntimeError('only %d decoders found' % n)
        sites(P, c, rep)


# ------------------------------------------------------------ what a decoder returns
def loosen(I, ch):
    """the same shape of stream with every part unconstrained"""
    out = []
    n = {}
    for k, h in enumerate(ch):
        v = ('p', 'in%d' % k)
        if h[0] == 'nt' and h[1] == ('prim', 'usize') and h[2][0] == 'len':
            n[h[2]] = v
            I.termty[v] = 'usize'
            out.append(('nt', h[1], v, h[3]))
        elif h[0] == 'nt':
            if h[1][0] == 'prim':
                I.termty[v] = h[1][1]
            elif h[1][0] == 'adt' and short(h[1][1]) in TEXT:
                I.termty[v] = 'str'
            out.append(('nt', h[1], v, h[3]))
        elif h[0] == 'raw' and len(h) > 2:
            out.append(('raw', v, n.get(h[2], h[2])))
        elif h[0] == 'ext':
            out.append(('ext', h[1], v))
        else:
            out.append(h)
    return tuple(out)


def calls(t, out):
    if not isinstance(t, tuple):
        return
    if t and t[0] == 'call' and len(t) > 3:
        out.append(t)
    for x in t:
        if isinstance(x, tuple):
            calls(x, out)


def refused(c):
    """the constructor call whose failure this path condition states"""
    if c[0] == 'err' and c[1][0] in ('call', 'utf8'):
        return 'from_utf8' if c[1][0] == 'utf8' else short(c[1][1])
    if c[0] == 'isv' and c[1][0] == 'call' and c[2] == 0 and short(c[1][1]) in PARTIAL:
        return short(c[1][1])
    if c[0] == 'false' and c[1][0] == 'fits':
        return 'checked_add'
    return None


def go(I, f, sub, ch):
    st = A.St()
    cell = I.newcell(st, ('bs', ch))
    I.streams = (cell,)
    I.loopctx = []
    try:
        rs = I.run_fn(f, sub, [('ref', cell, ())], st, 2)
    except (A.Unsup, A.Mismatch) as e:
        return [('unsup', e.why, e.sp, st, None)]
    out = []
    for s2, kind, v in rs:
        if kind != 'ret':
            w, sp = flow.splitwhy(v)
            out.append((kind, w, sp, s2, None))
            continue
        v = I.rderef(s2, v)
        if v[0] == 'agg' and v[1] == RES:
            out.append(('ok' if v[2] == 0 else 'err', None, None, s2, I.deep(s2, v[3][0])))
        else:
            out.append(('unsup', 'returns ' + tshow(v)[:100], None, s2, None))
    return out


def values(P, c, rep, T):
    I = flow.new_interp(P)
    try:
        ps = Mo.producer(I, T, ('p', 'self'), 'ser', A.St())
    except (A.Unsup, A.Mismatch):
        return 0
    f = flow.method_of(P, I, 'DeserializeRevisioned', T, 'deserialize_revisioned')
    if f is None or T == ('prim', 'char') or any(h[0] == 'loop' for s, ch in ps for h in ch):
        return 0
    rep.analysed(f[0])
    n = 0
    seen = set()
    for s, ch in ps:
        ch = loosen(I, ch)
        if ch in seen:
            continue
        seen.add(ch)
        n += 1
        judge(I, rep, c, T, f, go(I, f[0], f[1], ch))
    rep.fns |= set(I.inlined)
    return n


def judge(I, rep, c, T, f, outs):
    fn = f[0]
    ob = '%s decoded from any payload [%s]' % (show(T), c)
    key = fn.path.replace(' ', '')
    good = True
    hd = short(T[1]) if T[0] == 'adt' else T[1] if T[0] == 'prim' else ''
    for kind, why, sp, st, v in outs:
        if kind == 'err':
            continue
        if kind == 'panic':
            good = False
            if st.free or all(refused(x) or x[0] == 'cmp' and x[2][0] == 'p' and is_c(x[3]) for x in st.conds):
                rep.violation(ob, 'decoding panics instead of returning an error: %s' % why, sp or fn.sp, fn.path, flow.conds(st), key=key + '#panic')
            else:
                rep.undecided(ob, why, sp)
            continue
        if kind != 'ok':
            good = False
            rep.undecided(ob, why, sp)
            continue
        cs = []
        calls(v, cs)
        bad = [x for x in cs if forbidden(x[1])]
        if bad:
            good = False
            rep.violation(ob, 'the value returned is built by %s, which does not check the decoded data' % short(bad[0][1]), fn.sp, fn.path, flow.conds(st), key=key + '#unchecked')
            continue
        r = [x for x in (refused(x) for x in st.conds) if x]
        if r:
            good = False
            rep.violation(ob, 'a value is returned on a path where %s refused the decoded data' % r[0], fn.sp, fn.path, flow.conds(st), key=key + '#refused')
            continue
        if hd in TEXT or hd == 'char':
            if text_ok(I, st, v, hd):
                continue
            good = False
            raw = [x for x in st.conds if x[0] == 'ok' and x[1][0] == 'utf8']
            if v[0] in ('sub', 'bs', 'p', 'vec', 'reinterp', 'idx') and not cs and not raw:
                rep.violation(ob, 'the text returned (%s) was never checked to be UTF-8' % tshow(v)[:80], fn.sp, fn.path, flow.conds(st), key=key + '#text')
            else:
                rep.undecided(ob, 'provenance of %s' % tshow(v)[:100])
            continue
        if hd in CHECKED and T[0] == 'adt' and not T[1].startswith(('revision', 'geo')):
            root = v
            while root[0] in ('okof', 'fld', 'cast'):
                root = root[2] if root[0] == 'cast' else root[1]
            if root[0] == 'call' and short(root[1]) in CHECKED[hd]:
                continue
            good = False
            rep.undecided(ob, 'provenance of %s' % tshow(v)[:100])
    if good and outs:
        rep.proved(ob, len(outs))


def text_ok(I, st, v, hd):
    if v in (('vec', ()), ('bs', ())) or Mo.is_text(I, v):
        return True
    ok = [x[1][1] for x in st.conds if x[0] == 'ok' and x[1][0] == 'utf8']
    if v in ok:
        return True
    if hd == 'char':
        cs = []
        calls(v, cs)
        return any(short(x[1]) in ('next', 'from_u32', 'next_back', 'last', 'nth') for x in cs)
    return False


def chars(P, c, rep):
    """char: every first byte, any bytes after it"""
    I = flow.new_interp(P)
    T = ('prim', 'char')
    f = flow.method_of(P, I, 'DeserializeRevisioned', T, 'deserialize_revisioned')
    if f is None:
        return
    rep.analysed(f[0])
    for b in range(256):
        # a well-formed sequence of the length the first byte announces, or three arbitrary bytes
        outs = go(I, f[0], f[1], (('b', C(b)), ('raw', ('p', 'rest'), C(3))))
        charjudge(I, rep, c, f, b, outs)


def charjudge(I, rep, c, f, b, outs):
    fn = f[0]
    ob = 'char decoded from bytes starting %#04x [%s]' % (b, c)
    good = True
    for kind, why, sp, st, v in outs:
        if kind == 'err':
            continue
        if kind == 'ok':
            cs = []
            calls(v, cs)
            if any(forbidden(x[1]) for x in cs):
                good = False
                rep.violation(ob, 'the character is built without checking the decoded bytes', fn.sp, fn.path, flow.conds(st), key=fn.path.replace(' ', '') + '#unchecked')
                continue
            r = [x for x in (refused(x) for x in st.conds) if x]
            if r:
                good = False
                rep.violation(ob, 'a character is returned on a path where %s refused the decoded bytes' % r[0], fn.sp, fn.path, flow.conds(st), key=fn.path.replace(' ', '') + '#refused')
                continue
            if b < 128 and v == C(b):
                continue
            if is_c(v) and b >= 0x80:
                good = False
                rep.violation(ob, 'the byte %#04x yields U+%04X whatever follows it' % (b, v[1]), fn.sp, fn.path, flow.conds(st), key=fn.path.replace(' ', '') + '#invented')
                continue
            if text_ok(I, st, v, 'char'):
                continue
            good = False
            rep.undecided(ob, 'provenance of %s' % tshow(v)[:100])
            continue
        good = False
        rep.undecided(ob, why, sp)
    if good and outs:
        rep.proved(ob, len(outs))


# ------------------------------------------------------------ calls that build without checking
ANYBITS = {'u8', 'i8', 'u16', 'i16', 'u32', 'i32', 'u64', 'i64', 'u128', 'i128', 'usize', 'isize', 'f32', 'f64'}


def anybits(t):
    return t[0] == 'prim' and t[1] in ANYBITS or t[0] == 'adt' and short(t[1]) == 'Uuid' or t[0] == 'array' and anybits(t[1]) or t[0] == 'param'


def encode_side(f):
    p = f.path
    return f.name.startswith(('serialize', 'write_')) or 'SerializeRevisioned' in p.replace('DeserializeRevisioned', '') and not f.name.startswith('deserialize')


def sites(P, c, rep):
    n = 0
    for f in P.fns.values():
        if f.crate.name != 'revision' and '::decls::' not in '::' + f.path:
            continue
        if encode_side(f):
            continue
        for bi in sorted(f.reachable()):
            b = f.blocks[bi]
            if b['cl']:
                continue
            t = b['t']
            if t['k'] != 'call':
                continue
            d, g = errflow.callee(t)
            if not d:
                continue
            n += 1
            last = d.split('::')[-1]
            sp = t.get('sp') or f.sp
            ob = 'call of %s in %s [%s]' % (last, f.path, c)
            key = f.path.replace(' ', '') + '@' + last
            if forbidden(d):
                rep.analysed(f)
                args = [f.crate.ty(a) for a in (g.get('args') or []) if isinstance(a, int)]
                rep.violation(ob, '%s builds a value from decoded data without checking it' % last, sp, f.path, key=key)
            elif last in ('assume_init', 'zeroed', 'read_unaligned') and g.get('unsafe'):
                dt = f.crate.ty(f.locals[t['d']['l']])
                if anybits(dt):
                    rep.proved(ob)
                else:
                    rep.violation(ob, '%s makes a %s out of raw memory' % (last, show(dt)), sp, f.path, key=key)
            elif last == 'from_raw_parts_mut' and g.get('unsafe'):
                rep.analysed(f)
                src = cast_from(f, t['a'][0])
                if src is None:
                    rep.undecided(ob, 'the memory written through is not known', sp)
                elif anybits(src):
                    rep.proved(ob)
                else:
                    rep.violation(ob, 'decoded bytes are written straight over %s values, not every bit pattern of which is valid' % show(src), sp, f.path, key=key)
            elif last == 'from_raw_parts' and 'Vec' in d and g.get('unsafe'):
                rep.analysed(f)
                dt = f.crate.ty(f.locals[t['d']['l']])
                e = dt[2][0] if dt[0] == 'adt' and dt[2] else None
                if e is not None and anybits(e):
                    rep.proved(ob)
                else:
                    rep.violation(ob, 'a vector of %s is made out of raw memory' % (show(e) if e else '?'), sp, f.path, key=key)
    rep.count('calls_' + c, n)
    if n < 1000:
        raise RuntimeError('only %d calls found' % n)


def cast_from(f, o):
    """element type of the pointer this byte pointer was cast from"""
    import ranges
    R = ranges.Ranges(f)
    for _ in range(8):
        if o['k'] == 'const' or o['pl']['p']:
            return None
        d = R.single.get(o['pl']['l'])
        if d is None:
            return None
        if d[0] == 'c':
            t = d[3]
            dd, g = errflow.callee(t)
            last = (dd or '').split('::')[-1]
            if last in ('cast', 'as_mut_ptr', 'as_ptr', 'cast_mut', 'cast_const'):
                if last in ('as_mut_ptr', 'as_ptr'):
                    ty = f.crate.ty(f.locals[t['d']['l']])
                    return ty[2] if ty[0] in ('ptr', 'rawptr') else None
                o = t['a'][0]
                continue
            return None
        rv = d[3]
        if rv['k'] == 'use':
            o = rv['o']
        elif rv['k'] == 'cast':
            o = rv['o']
        else:
            return None
    return None
