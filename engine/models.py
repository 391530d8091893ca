"""Library semantics: std / dependency functions and the codec trait methods."""
import re
from terms import *
from mir import show, short, subst as tsubst
import absint as A


class NoModel(Exception):
    pass


def ret(st, v):
    return [(st, 'ret', v)]


# pure functions that return (a view of) their first argument unchanged
TRANSPARENT = {
    'std::ops::Deref::deref', 'std::ops::DerefMut::deref_mut', 'std::convert::AsRef::as_ref', 'std::convert::AsMut::as_mut',
    'std::borrow::Borrow::borrow', 'std::borrow::BorrowMut::borrow_mut', 'std::borrow::ToOwned::to_owned',
    'std::clone::Clone::clone', 'std::boxed::Box::new', 'std::sync::Arc::new', 'std::rc::Rc::new',
    'core::str::as_bytes', 'std::string::String::as_bytes', 'std::string::String::as_str', 'std::string::String::into_bytes',
    'std::string::String::into_boxed_str', 'std::vec::Vec::into_boxed_slice', 'std::vec::Vec::as_slice', 'std::vec::Vec::as_mut_slice',
    'core::slice::to_vec', 'core::slice::into_vec', 'std::slice::to_vec', 'std::slice::into_vec', 'core::str::into_string', 'core::str::to_string', 'core::str::to_owned',
    'std::array::as_slice', 'std::array::as_mut_slice', 'core::slice::as_ref', 'core::array::as_slice',
    'std::hint::must_use', 'std::hint::black_box', 'std::path::Path::as_os_str', 'std::path::Path::new', 'std::path::PathBuf::as_path',
    'std::boxed::Box::from', 'std::mem::transmute', 'std::ptr::const_ptr::cast', 'std::ptr::mut_ptr::cast', 'std::mem::ManuallyDrop::new',
    'std::boxed::Box::into_inner', 'std::convert::identity', 'std::option::Option::as_deref_dummy', 'std::path::Path::to_path_buf',
    'std::slice::to_vec', 'core::str::into_boxed_bytes', 'std::borrow::Cow::into_owned', 'std::io::Read::by_ref', 'std::io::Write::by_ref',
    'core::slice::as_slice', 'core::slice::as_mut_slice', 'std::vec::Vec::leak', 'std::ops::Range::clone', 'std::ops::RangeInclusive::clone',
    'std::iter::Iterator::by_ref', 'std::iter::Iterator::copied', 'std::iter::Iterator::cloned', 'std::iter::Iterator::fuse', 'std::iter::Iterator::peekable',
    'core::slice::iter_dummy', 'std::vec::Vec::shrink_to_fit_dummy', 'bytes::Bytes::copy_from_slice', 'bytes::Bytes::to_vec',
    'std::ptr::NonNull::as_ref', 'std::path::Path::as_mut_os_str', 'std::path::PathBuf::into_os_string', 'std::sync::Arc::as_ref',
    'std::string::String::into_string', 'core::str::as_str', 'std::boxed::Box::as_ref', 'std::boxed::Box::leak', 'std::boxed::Box::pin',
}
# pairs inv(f(x)) = x ; value: how many results are wrapped
INVERSE = {}

ITER_SRC = {'iter', 'into_iter', 'iter_mut', 'chars', 'drain'}

BYTE_MODES = None


def dispatch(I, st, c):
    n = c.n
    last = n.split('::')[-1]
    if last in A.CODEC and (c.trait and short(c.trait) in ('SerializeRevisioned', 'DeserializeRevisioned', 'SkipRevisioned', 'SkipCheckRevisioned', 'SerializeRevisionedSpecialised', 'DeserializeRevisionedSpecialised', 'IndexedMapEncoded', 'IndexedSeqEncoded', 'IndexedSetEncoded')):
        r = codec(I, st, c, last)
        if r is not None:
            return r
    if n in TRANSPARENT:
        if last in ('deref', 'as_ref') and c.targs and c.targs[0][0] == 'adt' and short(c.targs[0][1]) == 'NotNan':
            return ret(st, I.opaque(st, 'ordered_float::NotNan::into_inner', (), c.args, c.targs[0][2][0] if c.targs[0][2] else c.ret))
        if last in ('deref', 'deref_mut', 'as_ref', 'as_mut', 'clone', 'to_owned', 'borrow', 'borrow_mut') and c.targs and c.targs[0][0] == 'adt' and c.trait:
            # only for library types; a local impl is inlined
            r = I.resolve(st, c)
            if r is not None:
                return None
        if last == 'clone' and c.args and c.args[0][0] == 'ref':
            return ret(st, I.deref(st, c.args[0]))
        if last in ('deref', 'as_ref', 'borrow') and c.args:
            x = I.rderef(st, c.args[0])
            if x[0] == 'agg' and x[1] == 'std::borrow::Cow' and len(x[3]) == 1:
                return ret(st, x[3][0])
        return ret(st, c.args[0])
    h = M.get(n)
    if h is not None:
        return h(I, st, c)
    h = LAST.get(last)
    if h is not None:
        r = h(I, st, c)
        if r is not None:
            return r
    return None


M = {}
LAST = {}


def model(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f
    return d


def last(*names):
    def d(f):
        for n in names:
            LAST[n] = f
        return f
    return d


def val(I, st, t):
    return I.rderef(st, t)


# ------------------------------------------------------------------ codec
def codec(I, st, c, m):
    trait, mode = A.CODEC[m]
    T = normalise_T(I, st, c.targs[0])
    if m.startswith('serialize'):
        loc = I.find_bs(st, c.args[1])
        if loc is None:
            return None
        v = I.deep(st, c.args[0])
        if T[0] == 'prim':
            I.note_ty(v, T)
        I.emit(st, c.args[1], [('nt', T, v, mode)], c.sp)
        return ret(st, Ok(UNIT))
    rd = c.args[0]
    if I.find_bs(st, rd) is None:
        return None
    want = 'de' if m.startswith('deserialize') else 'skip'
    out = []
    for (s, kind, v) in read_nt(I, st, rd, T, mode, c, want):
        out.append((s, kind, v))
    return out


def normalise_T(I, st, T):
    return unowned(A.erase(I.rty(st, T)))


def unowned(T):
    """<X as ToOwned>::Owned has the encoding of X (contract of Cow)"""
    if T[0] == 'alias':
        m = re.match(r'^<(\w+) as (?:std|alloc)::borrow::ToOwned>::Owned$', T[1])
        if m:
            return ('param', m.group(1))
    return T


def head(I, st, rd):
    loc = I.find_bs(st, rd)
    if loc is None:
        raise A.Unsup('reader is not a stream')
    ch = I.load(st, *loc)[1]
    d = I.drop_empty(st, ch)
    if len(d) != len(ch):
        I.store(st, loc[0], loc[1], ('bs', d))
    return loc, d


def read_nt(I, st, rd, T, mode, c, want):
    loc, ch = head(I, st, rd)
    if ch:
        h = ch[0]
        if h[0] == 'phi':
            raise A.Unsup('stream position unknown after a loop', c.sp)
        if h[0] in ('fault', 'eof'):
            return ret(st, Err(IOERR))
        if h[0] == 'nt' and normalise_T(I, st, h[1]) == T and h[3] == mode:
            I.store(st, loc[0], loc[1], ('bs', ch[1:]))
            v = h[2]
            if want == 'de':
                I.note_ty(v, T)
                return ret(st, Ok(v))
            return ret(st, Ok(UNIT))
    # inline the reader's own implementation
    r = I.resolve(st, c)
    if r is not None:
        fn, s = r
        if (fn.key, T, len(ch)) in I.expanding:
            raise A.Mismatch('reads %s where %s was written' % (show(T), describe(I, ch)), c.sp)
        I.expanding.append((fn.key, T, len(ch)))
        try:
            return I.run_fn(fn, s, c.args, st, c.fr.depth + 1, c.fr)
        finally:
            I.expanding.pop()
    if ch and ch[0][0] == 'nt':
        e = expand(I, st, loc, c.sp)
        if e is not None:
            out = []
            for s in e:
                try:
                    out.extend(read_nt(I, s, rd, T, mode, c, want))
                except A.Mismatch as x:
                    out.append((s, 'bad', (x.why, x.sp)))
                except A.Unsup as x:
                    out.append((s, 'unsup', (x.why, x.sp)))
            return out
    raise A.Mismatch('reads %s where %s was written' % (show(T), describe(I, ch)), c.sp)


def describe(I, ch):
    ch = [x for x in ch]
    if not ch:
        return 'nothing more'
    h = ch[0]
    if h[0] == 'nt':
        return '%s (%s)' % (show(h[1]), tshow(h[2]))
    if h[0] == 'endit':
        return 'the end of the element'
    return tshow(h)


def expand(I, st, loc, sp=None):
    """replace a leading typed chunk by what its encoder writes; list of states"""
    ch = I.load(st, *loc)[1]
    h = ch[0]
    T = normalise_T(I, st, h[1])
    if T[0] in ('param', 'alias'):
        return None
    if len(I.expandstack) > 12:
        return None
    streams = producer(I, T, h[2], h[3], st)
    if streams is None:
        return None
    out = []
    for (s2, chunks) in streams:
        I.store(s2, loc[0], loc[1], ('bs', tuple(chunks) + ch[1:]))
        out.append(s2)
    return out


def producer(I, T, v, mode, st):
    """abstract encodings of value v of type T: list of (state, chunks)"""
    r = I.prog.find_impl(A.WRITE_TRAIT[mode], T)
    if r is None:
        return None
    i, s = r
    it = i['items_by_name'].get(A.WRITE_METHOD[mode])
    fn = I.prog.fns.get(it['key']) if it else None
    if fn is None:
        return None
    if T[0] == 'array' and str(T[2]).isdigit() and I.is_free(v):
        I.lens[v] = C(int(T[2]))
    I.expandstack.append((T, mode))
    try:
        s0 = st.fork()
        w = I.newcell(s0, ('bs', ()))
        old = I.streams
        sub_ = I.fn_subst(fn, s, [])
        rs = I.run_fn(fn, sub_, [v, ('ref', w, ())], s0, 4)
        I.streams = old
    finally:
        I.expandstack.pop()
    out = []
    for (s2, kind, rv) in rs:
        if kind == 'ret':
            rv = I.rderef(s2, rv)
            if rv[0] == 'agg' and rv[1] == RES and rv[2] == 1:
                continue          # encoder refused the value
            if rv[0] == 'agg' and rv[1] == RES or rv == UNIT:
                b = s2.mem[w]
                if b[0] == 'vec':
                    b = I.vec_as_bytes(b)
                out.append((s2, I.deep(s2, b)[1]))
                continue
            raise A.Unsup('encoder of %s returns %s' % (show(T), tshow(rv)))
        elif kind == 'panic':
            continue
        elif kind == 'unsup' or kind == 'bad':
            raise A.Unsup('encoder of %s: %s' % (show(T), rv[0]), rv[1])
    return out


# ----------------------------------------------------------- raw transfers
@model('std::io::Write::write_all')
def write_all(I, st, c):
    I.emit(st, c.args[0], I.as_chunks(st, c.args[1]), c.sp)
    return ret(st, Ok(UNIT))


@model('std::io::Write::write')
def write(I, st, c):
    ch = I.as_chunks(st, c.args[1])
    I.emit(st, c.args[0], ch, c.sp)
    return ret(st, Ok(I.length(st, c.args[1])))


@model('std::io::Write::flush')
def flush(I, st, c):
    return ret(st, Ok(UNIT))


class Fault(Exception):
    """the reader fails here"""


IOERR = ('call', 'io_failure', (), ())


def failed(s, x, c):
    if isinstance(x, Fault):
        return (s, 'ret', Err(IOERR))
    return (s, 'bad' if isinstance(x, A.Mismatch) else 'unsup', (x.why, x.sp or c.sp))


def take(I, st, rd, n, c, depth=0):
    """consume n bytes: list of (state, chunk list) ; raises Mismatch"""
    loc, ch = head(I, st, rd)
    n = I.rderef(st, n)
    out, rem, ch = [], n, list(ch)
    if ch and ch[-1] == ('eof',):
        have = C(0)
        for x in ch[:-1]:
            have = add(have, I.size(st, x))
        if I.cmp(st, 'Lt', have, n) is True:
            return [(st, Fault())]
    while True:
        if rem == C(0) or (not is_c(rem) and I.nonneg(st, rem) and I.zero(st, rem)):
            I.store(st, loc[0], loc[1], ('bs', tuple(ch)))
            return [(st, out)]
        ch = list(I.drop_empty(st, ch)) if not (ch and ch[0][0] == 'raw' and ch[0][2] == rem) else ch
        if ch and ch[0][0] in ('fault', 'eof'):
            return [(st, Fault())]
        if not ch or ch[0][0] == 'endit':
            lo, hi = I.rng(rem, st)
            if hi <= 0:
                rem = C(0)
                continue
            k = I.cmp(st, 'Eq', rem, C(0))
            if k is True:
                rem = C(0)
                continue
            if k is None and not is_c(rem):
                raise A.Unsup('cannot relate %s to the %s' % (tshow(rem), describe(I, ch)), c.sp)
            raise A.Mismatch('reads %s bytes where %s was written' % (tshow(rem), describe(I, ch)), c.sp)
        h = ch[0]
        if h[0] == 'phi':
            raise A.Unsup('stream position unknown after a loop', c.sp)
        s = I.size(st, h)
        r = sub(rem, s)
        exact = h[0] == 'nt' and is_c(rem) and normalise_T(I, st, h[1])[0] == 'prim'      # the bytes themselves may matter
        if not exact and (s == rem or I.nonneg(st, r)):
            out.append(ch.pop(0))
            rem = r
            continue
        if h[0] == 'raw' and is_c(rem):
            X = h[1]
            if is_c(h[2]):
                k, m = rem[1], h[2][1]
                out.extend(('b', ('idx', X, C(i))) for i in range(k))
                ch[0:1] = [('b', ('idx', X, C(i))) for i in range(k, m)]
                rem = C(0)
                continue
        if h[0] == 'nt' and normalise_T(I, st, h[1])[0] == 'array':
            k = const_size(I, st, h[1], h[3])
            if k is not None and I.nonneg(st, sub(rem, C(k))):
                out.append(ch.pop(0))
                rem = sub(rem, C(k))
                continue
        if h[0] == 'nt' and depth < 8:
            # flatten the typed chunk
            I.store(st, loc[0], loc[1], ('bs', tuple(ch)))
            e = expand(I, st, loc, c.sp)
            if e is not None:
                res = []
                for s2 in e:
                    try:
                        for (s3, o3) in take(I, s2, rd, rem, c, depth + 1):
                            res.append((s3, o3 if isinstance(o3, Exception) else out + o3))
                    except (A.Mismatch, A.Unsup) as x:
                        res.append((s2, x))
                return res
            # the value's size is not a constant
            if is_c(rem):
                raise A.Mismatch('reads %s raw bytes where %s was written' % (tshow(rem), describe(I, ch)), c.sp)
        if h[0] == 'loop':
            ls = loop_bytes(I, st, h)
            if ls is not None:
                e = I.equal(st, ls, rem)
                if e:
                    out.append(ch.pop(0))
                    rem = C(0)
                    continue
                r = sub(rem, ls)
                if I.nonneg(st, r):
                    out.append(ch.pop(0))
                    rem = r
                    continue
            # the first iterations of the loop
            if len(h[3]) == 1 and not is_c(rem):
                z = C(0)
                for x in h[3][0][1]:
                    z = add(z, I.size(st, x))
                pos = I.where(st, h, z, rem)
                left = None if pos is None else sub(I.count(st, h[2]), pos)
                if left is not None and is_c(left) and 1 <= left[1] <= 3:
                    ch[0:1] = [I.at(st, x, h[2], h[1], add(pos, C(j))) for j in range(left[1]) for x in h[3][0][1]]
                    out.append(('cut', 'the elements before', rem))
                    rem = C(0)
                    continue
            # so many bytes per element, but some element takes another number of bytes
            alts = [a[1] for a in h[3]]
            n = I.count(st, h[2])
            if len(alts) == 1 and len(alts[0]) == 1 and alts[0][0][0] == 'nt' and rem[0] == 'lin' and rem[1] == 0 and len(rem[2]) == 1 and rem[2][0][0] == n and n[0] == 'len' and I.is_free(n):
                z = [k for k in some_sizes(I, st, alts[0][0][1], alts[0][0][3]) if k != rem[2][0][1]]
                if z:
                    raise A.Mismatch('reads %d bytes for each element where an element may be written in %d' % (rem[2][0][1], z[0]), c.sp)
        if h[0] in ('raw', 'loop', 'nt') and not is_c(rem):
            e = I.equal(st, s, rem)
            if e is True:
                out.append(ch.pop(0))
                rem = C(0)
                continue
            # both lengths are functions of the same inputs and differ
            d = sub(rem, s)
            if is_c(d) or differ(I, st, s, rem):
                raise A.Mismatch('reads %s bytes where %s bytes were written' % (tshow(rem), tshow(s)), c.sp)
        elif h[0] == 'b' and is_c(rem):
            pass
        raise A.Unsup('cannot split %s at %s bytes' % (tshow(h), tshow(rem)), c.sp)


def differ(I, st, a, b):
    """linear expressions over the same free atoms that are not identical"""
    ka, da = lin_parts(a)
    kb, db = lin_parts(b)
    if all(I.is_free(x) for x in da) and all(I.is_free(x) for x in db):
        return True
    return False


def loop_bytes(I, st, h):
    """total bytes of a loop whose iterations have a constant size"""
    ns = set()
    for a in h[3]:
        tot = C(0)
        for x in a[1]:
            if x[0] == 'nt':
                n = const_size(I, st, x[1], x[3])
                if n is None:
                    return None
                tot = add(tot, C(n))
            else:
                tot = add(tot, I.size(st, x))
        ns.add(tot)
    if len(ns) != 1:
        return None
    return mul(next(iter(ns)), I.count(st, h[2]))


def some_sizes(I, st, T, mode):
    """constant sizes the encoding of a T takes for some value"""
    T = normalise_T(I, st, T)
    key = (T, mode, 'some')
    if key not in I.csz:
        I.csz[key] = frozenset()
        try:
            ps = producer(I, T, ('p', 'any ' + show(T)), mode, A.St())
        except (A.Unsup, A.Mismatch):
            ps = []
        out = set()
        for (s2, chunks) in ps or []:
            tots = {0}
            for x in chunks:
                k = I.size(s2, x)
                z = {k[1]} if is_c(k) else some_sizes(I, s2, x[1], x[3]) if x[0] == 'nt' else ()
                tots = {a + b for a in tots for b in z}
            if s2.free:
                out |= tots
        I.csz[key] = frozenset(out)
    return I.csz[key]


def const_size(I, st, T, mode):
    T = normalise_T(I, st, T)
    key = (T, mode)
    if key in I.csz:
        return I.csz[key]
    I.csz[key] = None
    v = ('p', 'any ' + show(T))
    if T[0] == 'array' and str(T[2]).isdigit():
        I.lens[v] = C(int(T[2]))
    try:
        ps = producer(I, T, v, mode, A.St())
    except (A.Unsup, A.Mismatch):
        ps = None
    n = None
    if ps:
        sizes = set()
        for (s2, chunks) in ps:
            tot = 0
            for x in chunks:
                k = I.size(s2, x)
                if not is_c(k) and x[0] == 'nt':
                    k2 = const_size(I, s2, x[1], x[3])
                    k = C(k2) if k2 is not None else k
                if not is_c(k):
                    tot = None
                    break
                tot += k[1]
            sizes.add(tot)
        if len(sizes) == 1:
            n = next(iter(sizes))
    I.csz[key] = n
    return n


def buf_len(I, st, b):
    v = I.rderef(st, b)
    return I.length(st, v)


def content(I, st, out, n):
    """value of a buffer filled with these chunks"""
    if all(x[0] == 'b' for x in out):
        return ('agg', 'array', 0, tuple(x[1] for x in out))
    if len(out) == 1 and out[0][0] == 'raw' and is_c(out[0][2]) and out[0][2][1] <= 64:
        X = out[0][1]
        return ('agg', 'array', 0, tuple(('idx', X, C(i)) for i in range(out[0][2][1])))
    flat = []
    if is_c(n) and n[1] <= 64:
        for x in out:
            if x[0] == 'b':
                flat.append(x[1])
            elif x[0] == 'raw' and is_c(x[2]):
                flat.extend(('idx', x[1], C(i)) for i in range(x[2][1]))
            else:
                flat = None
                break
        if flat is not None:
            return ('agg', 'array', 0, tuple(flat))
    return ('bs', tuple(out))


def fill(I, st, rd, buf, c):
    b = buf
    # unwrap to the innermost location
    loc = None
    n = 0
    t = b
    while t[0] == 'ref' and n < 10:
        loc = (t[1], t[2])
        t = I.load(st, t[1], t[2])
        n += 1
    ln = I.length(st, t)
    out = []
    if t[0] == 'submut':
        return fill_sub(I, st, rd, t, ln, c)
    for (s, r) in take(I, st, rd, ln, c):
        if isinstance(r, Exception):
            out.append(failed(s, r, c))
            continue
        v = content(I, s, r, ln)
        if t[0] == 'memview':
            tgt = t[1]
            cur = I.load(s, tgt[1], tgt[2])
            I.store(s, tgt[1], tgt[2], ('frommem', v, I.length(s, cur)))
        elif loc is not None:
            I.store(s, loc[0], loc[1], v)
        out.append((s, 'ret', Ok(UNIT)))
    return out


def fill_sub(I, st, rd, t, ln, c):
    _, tgt, lo, hi = t
    if not (is_c(lo) and is_c(hi)):
        raise A.Unsup('read into a slice of unknown bounds', c.sp)
    out = []
    for (s, r) in take(I, st, rd, ln, c):
        if isinstance(r, Exception):
            out.append(failed(s, r, c))
            continue
        v = content(I, s, r, ln)
        for j in range(hi[1] - lo[1]):
            e = I.index(s, v, C(j))
            x = tgt
            n = 0
            while x[0] == 'ref' and I.deref(s, x)[0] == 'ref' and n < 10:
                x = I.deref(s, x)
                n += 1
            I.store(s, x[1], x[2] + (('i', C(lo[1] + j)),), e)
        out.append((s, 'ret', Ok(UNIT)))
    return out


@model('std::io::Read::read_exact')
def read_exact(I, st, c):
    if I.find_bs(st, c.args[0]) is None:
        return None
    return fill(I, st, c.args[0], c.args[1], c)


@model('std::io::Read::take')
def read_take(I, st, c):
    return ret(st, ('taker', c.args[0], I.rderef(st, c.args[1])))


@model('std::io::Read::read_to_end')
def read_to_end(I, st, c):
    r = I.rderef(st, c.args[0])
    if r[0] != 'taker':
        return None
    out = []
    want, n = r[2], r[2]
    loc, ch = head(I, st, r[1])
    if ch and ch[-1] == ('eof',):
        # the stream ends early: what there is is read, and no error is reported
        have = C(0)
        for x in ch[:-1]:
            have = add(have, I.size(st, x))
        if I.cmp(st, 'Lt', have, want) is True:
            n = have
    for (s, x) in take(I, st, r[1], n, c):
        if isinstance(x, Exception):
            out.append(failed(s, x, c))
            continue
        cell = c.args[1]
        cur = I.rderef(s, cell)
        v = content(I, s, x, n)
        if cur[0] == 'vec' and not cur[1]:
            pass
        else:
            v = ('vec', (cur[1] if cur[0] == 'vec' else (('many', cur),)) + (('many', v),))
        store_through(I, s, cell, v)
        out.append((s, 'ret', Ok(n)))
    return out


def store_through(I, st, ref, v):
    t = ref
    loc = None
    n = 0
    while t[0] == 'ref' and n < 20:
        loc = (t[1], t[2])
        t = I.load(st, t[1], t[2])
        n += 1
    if loc is None:
        raise A.Unsup('write through an unknown reference')
    I.store(st, loc[0], loc[1], v)


def views(I, st, c, rd, n, mk):
    out = []
    for (s, x) in take(I, st, rd, n, c):
        if isinstance(x, Exception):
            out.append(failed(s, x, c))
            continue
        out.append((s, 'ret', mk(s, ('bs', tuple(x)))))
    return out


def is_reader(I, st, t):
    return I.find_bs(st, t) is not None


@last('advance', 'consume', 'advance_read', 'skip_bytes')
def advance(I, st, c):
    if '::slice_reader::' not in c.key and not c.n.startswith('slice_reader::') and 'BorrowedReader' not in c.n and 'SliceReader' not in c.n:
        return None
    if len(c.args) < 2 or not is_reader(I, st, c.args[0]):
        return None
    return views(I, st, c, c.args[0], c.args[1], lambda s, b: Ok(UNIT))


@last('peek_bytes')
def peek_bytes(I, st, c):
    if 'BorrowedReader' not in c.n and 'SliceReader' not in c.n:
        return None
    if not is_reader(I, st, c.args[0]):
        return None
    loc, ch = head(I, st, c.args[0])
    out = []
    for (s, x) in take(I, st, c.args[0], c.args[1], c):
        if isinstance(x, Exception):
            out.append(failed(s, x, c))
            continue
        # put the bytes back (possibly flattened)
        cur = I.load(s, *loc)[1]
        I.store(s, loc[0], loc[1], ('bs', tuple(x) + cur))
        out.append((s, 'ret', Ok(('bs', tuple(x)))))
    return out


@model('slice_reader::take_bytes_slice', 'slice_reader::take_bytes_reader', 'slice_reader::read_borrowed_bytes', 'slice_reader::SliceReader::sub_dummy')
def take_bytes(I, st, c):
    if len(c.args) == 2 and is_reader(I, st, c.args[0]):
        return views(I, st, c, c.args[0], c.args[1], lambda s, b: Ok(b))
    return None


@last('read_u8', 'read_u16_le', 'read_u32_le')
def slice_read(I, st, c):
    return None


@model('slice_reader::SliceReader::new')
def sr_new(I, st, c):
    v = I.rderef(st, c.args[0])
    if v[0] == 'bs':
        cell = I.newcell(st, v)
        return ret(st, v)
    return None


@last('remaining')
def remaining(I, st, c):
    if 'BorrowedReader' not in c.n and 'SliceReader' not in c.n:
        return None
    if is_reader(I, st, c.args[0]):
        loc, ch = head(I, st, c.args[0])
        if c.n.startswith('slice_reader::SliceReader'):
            return ret(st, ('remlen', ('bs', ch)))
        if ch and ch[-1][0] == 'endit' or any(x[0] in ('phi',) for x in ch):
            return ret(st, ('remlen', ('bs', ch)))
        return ret(st, ('bs', ch))
    return None


# ------------------------------------------------------------- Result/Option
def fork_variant(I, st, t, names=((0,), (1,))):
    """split an opaque Result/Option: list of (state, variant, payload)"""
    t = I.rderef(st, t)
    if t[0] == 'agg':
        return [(st, t[2], t[3][0] if t[3] else None)]
    out = []
    for v in (0, 1):
        skip = False
        for cc in st.conds:
            if cc[0] == 'isv' and cc[1] == t and cc[2] != v or cc[0] == 'notv' and cc[1] == t and cc[2] == v:
                skip = True
        if skip:
            continue
        s = st.fork()
        if not any(cc == ('isv', t, v) for cc in s.conds):
            I.assume(s, ('isv', t, v))
        out.append((s, v, ('fld', t, v, 0)))
    return out


def is_res(c, i=0):
    n = c.n
    return n.startswith('std::result::Result::') or n.startswith('core::result::')


@model('std::ops::Try::branch')
def try_branch(I, st, c):
    T = c.targs[0]
    out = []
    for (s, v, p) in fork_variant(I, st, c.args[0]):
        if T[0] == 'adt' and T[1] == OPT:
            out.append((s, 'ret', agg(CF, 0, (p,)) if v == 1 else agg(CF, 1, (NONE,))))
        else:
            out.append((s, 'ret', agg(CF, 0, (p,)) if v == 0 else agg(CF, 1, (Err(p),))))
    return out


@model('std::ops::FromResidual::from_residual')
def from_residual(I, st, c):
    return ret(st, I.rderef(st, c.args[0]))


@model('std::ops::Try::from_output')
def from_output(I, st, c):
    return ret(st, Ok(c.args[0]))


def combin(fn):
    def h(I, st, c):
        out = []
        for (s, v, p) in fork_variant(I, st, c.args[0]):
            r = fn(I, s, c, v, p)
            if r is None:
                raise A.Unsup('combinator ' + c.n, c.sp)
            out.extend(r)
        return out
    return h


def mapres(rs, f):
    return [(s, k, f(v) if k == 'ret' else v) for (s, k, v) in rs]


def err_ty(c):
    return c.ret


M['std::result::Result::map_err'] = combin(lambda I, s, c, v, p: ret(s, Ok(p)) if v == 0 else ret(s, Err(('err',))))
M['std::result::Result::map'] = combin(lambda I, s, c, v, p: mapres(I.apply(c.fr, s, c.args[1], [p], ('other', '?'), c.sp), Ok) if v == 0 else ret(s, Err(p)))
M['std::result::Result::and_then'] = combin(lambda I, s, c, v, p: I.apply(c.fr, s, c.args[1], [p], c.ret, c.sp) if v == 0 else ret(s, Err(p)))
M['std::result::Result::or_else'] = combin(lambda I, s, c, v, p: ret(s, Ok(p)) if v == 0 else I.apply(c.fr, s, c.args[1], [p], c.ret, c.sp))
M['std::result::Result::ok'] = combin(lambda I, s, c, v, p: ret(s, Some(p)) if v == 0 else ret(s, NONE))
M['std::result::Result::err'] = combin(lambda I, s, c, v, p: ret(s, NONE) if v == 0 else ret(s, Some(p)))
M['std::result::Result::is_ok'] = combin(lambda I, s, c, v, p: ret(s, TRUE if v == 0 else FALSE))
M['std::result::Result::is_err'] = combin(lambda I, s, c, v, p: ret(s, TRUE if v == 1 else FALSE))
M['std::result::Result::unwrap'] = M['std::result::Result::expect'] = combin(lambda I, s, c, v, p: ret(s, p) if v == 0 else [(s, 'panic', ('unwrap', c.sp))])
M['std::result::Result::unwrap_or'] = combin(lambda I, s, c, v, p: ret(s, p) if v == 0 else ret(s, c.args[1]))
M['std::result::Result::unwrap_or_else'] = combin(lambda I, s, c, v, p: ret(s, p) if v == 0 else I.apply(c.fr, s, c.args[1], [p], c.ret, c.sp))
M['std::result::Result::as_ref'] = combin(lambda I, s, c, v, p: ret(s, Ok(p) if v == 0 else Err(p)))
M['std::option::Option::ok_or'] = combin(lambda I, s, c, v, p: ret(s, Ok(p)) if v == 1 else ret(s, Err(('err',))))
M['std::option::Option::ok_or_else'] = combin(lambda I, s, c, v, p: ret(s, Ok(p)) if v == 1 else ret(s, Err(('err',))))
M['std::option::Option::map'] = combin(lambda I, s, c, v, p: mapres(I.apply(c.fr, s, c.args[1], [p], ('other', '?'), c.sp), Some) if v == 1 else ret(s, NONE))
M['std::option::Option::and_then'] = combin(lambda I, s, c, v, p: I.apply(c.fr, s, c.args[1], [p], c.ret, c.sp) if v == 1 else ret(s, NONE))
M['std::option::Option::filter'] = None
del M['std::option::Option::filter']
M['std::option::Option::or'] = combin(lambda I, s, c, v, p: ret(s, Some(p)) if v == 1 else ret(s, c.args[1]))
M['std::option::Option::or_else'] = combin(lambda I, s, c, v, p: ret(s, Some(p)) if v == 1 else I.apply(c.fr, s, c.args[1], [], c.ret, c.sp))
M['std::option::Option::is_some_and'] = combin(lambda I, s, c, v, p: I.apply(c.fr, s, c.args[1], [p], c.ret, c.sp) if v == 1 else ret(s, FALSE))
M['std::option::Option::is_none_or'] = combin(lambda I, s, c, v, p: I.apply(c.fr, s, c.args[1], [p], c.ret, c.sp) if v == 1 else ret(s, TRUE))
M['std::option::Option::is_some'] = combin(lambda I, s, c, v, p: ret(s, TRUE if v == 1 else FALSE))
M['std::option::Option::is_none'] = combin(lambda I, s, c, v, p: ret(s, TRUE if v == 0 else FALSE))
M['std::option::Option::unwrap'] = M['std::option::Option::expect'] = combin(lambda I, s, c, v, p: ret(s, p) if v == 1 else [(s, 'panic', ('unwrap', c.sp))])
M['std::option::Option::unwrap_or'] = combin(lambda I, s, c, v, p: ret(s, p) if v == 1 else ret(s, c.args[1]))
M['std::option::Option::unwrap_or_else'] = combin(lambda I, s, c, v, p: ret(s, p) if v == 1 else I.apply(c.fr, s, c.args[1], [], c.ret, c.sp))
M['std::option::Option::map_or'] = combin(lambda I, s, c, v, p: I.apply(c.fr, s, c.args[2], [p], c.ret, c.sp) if v == 1 else ret(s, c.args[1]))
M['std::option::Option::map_or_else'] = combin(lambda I, s, c, v, p: I.apply(c.fr, s, c.args[2], [p], c.ret, c.sp) if v == 1 else I.apply(c.fr, s, c.args[1], [], c.ret, c.sp))


def opt_ref(I, st, c):
    a = c.args[0]
    t = I.rderef(st, a)
    if t[0] == 'agg':
        if t[2] == 0:
            return ret(st, NONE)
        # reference into the payload
        loc = a
        n = 0
        while loc[0] == 'ref' and I.deref(st, loc)[0] == 'ref' and n < 10:
            loc = I.deref(st, loc)
            n += 1
        if loc[0] == 'ref':
            return ret(st, Some(('ref', loc[1], loc[2] + (('f', 1, 0),))))
        return ret(st, Some(t[3][0]))
    out = []
    for (s, v, p) in fork_variant(I, st, t):
        out.append((s, 'ret', Some(p) if v == 1 else NONE))
    return out


for _n in ('as_ref', 'as_mut', 'as_deref', 'as_deref_mut', 'copied', 'cloned'):
    M['std::option::Option::' + _n] = opt_ref


@model('std::option::Option::take')
def opt_take(I, st, c):
    t = I.rderef(st, c.args[0])
    store_through(I, st, c.args[0], NONE)
    return ret(st, t)


@model('std::mem::take')
def mem_take(I, st, c):
    t = I.rderef(st, c.args[0])
    store_through(I, st, c.args[0], ('vec', ()))
    return ret(st, t)


@model('std::mem::replace')
def mem_replace(I, st, c):
    t = I.rderef(st, c.args[0])
    store_through(I, st, c.args[0], c.args[1])
    return ret(st, t)


@model('std::ops::FnOnce::call_once', 'std::ops::FnMut::call_mut', 'std::ops::Fn::call')
def fn_call(I, st, c):
    f = I.rderef(st, c.args[0])
    a = I.rderef(st, c.args[1])
    xs = list(a[3]) if a[0] == 'agg' else [a]
    if f[0] in ('fn',) or f[0] == 'agg' and f[1].startswith('closure:'):
        return I.apply(c.fr, st, f, xs, c.ret, c.sp)
    return None


# ---------------------------------------------------------------- integers
def prim_of(c, i=0):
    d = c.d
    m = re.search(r'<impl (\w+)>', d)
    return m.group(1) if m else None


@last('to_le_bytes', 'to_ne_bytes')
def to_le(I, st, c):
    p = prim_of(c)
    if not p:
        return None
    w = {'f32': 32, 'f64': 64}.get(p) or W[p]
    x = I.rderef(st, c.args[0])
    if is_c(x):
        n = x[1] & ((1 << w) - 1)
        return ret(st, ('agg', 'array', 0, tuple(C((n >> (8 * i)) & 255) for i in range(w // 8))))
    if p in ('f32', 'f64'):
        x = x[2] if x[0] == 'frombits' else ('tobits', p, x)
    elif p in W:
        I.note_ty(x, ('prim', p))
    I.lens[x] = I.lens.get(x, C(w // 8)) if False else I.lens.get(x)
    if I.lens.get(x) is None:
        I.lens.pop(x, None)
    return ret(st, ('agg', 'array', 0, tuple(('byte', x, i) for i in range(w // 8))))


@last('to_be_bytes')
def to_be(I, st, c):
    r = to_le(I, st, c)
    if r is None:
        return None
    s, k, v = r[0]
    return ret(s, ('agg', 'array', 0, tuple(reversed(v[3]))))


@last('from_le_bytes', 'from_ne_bytes')
def from_le(I, st, c, rev=False):
    p = prim_of(c)
    if not p:
        return None
    a = I.deep(st, c.args[0])
    w = {'f32': 32, 'f64': 64}.get(p) or W[p]
    bs = None
    if a[0] == 'agg':
        bs = list(a[3])
    elif a[0] == 'bs':
        fl = content(I, st, list(a[1]), C(w // 8))
        if fl[0] == 'agg':
            bs = list(fl[3])
    if bs is None or len(bs) != w // 8:
        v = ('frombytes', p, a, 'be' if rev else 'le')
        I.note_ty(v, ('prim', p)) if p in W else None
        return ret(st, v)
    if rev:
        bs.reverse()
    return ret(st, join_bytes(I, st, bs, p))


@last('from_be_bytes')
def from_be(I, st, c):
    return from_le(I, st, c, rev=True)


def join_bytes(I, st, bs, p):
    w = {'f32': 32, 'f64': 64}.get(p) or W[p]
    fl = p in ('f32', 'f64')
    if all(is_c(b) for b in bs) and not fl:
        n = sum(b[1] << (8 * i) for i, b in enumerate(bs))
        return I.intcast(st, C(n), p)
    if bs[0][0] == 'byte' and all(b[0] == 'byte' and b[1] == bs[0][1] and b[2] == i for i, b in enumerate(bs)):
        x = bs[0][1]
        if x[0] == 'tobits':
            return x[2] if x[1] == p else ('frombits', p, x)
        if fl:
            return ('frombits', p, x)
        return I.intcast(st, x, p)
    if fl:
        return ('frombits', p, ('frombytes', 'u%d' % w, ('agg', 'array', 0, tuple(bs)), 'le'))
    # sum of shifted bytes: exact in the bit domain
    t = C(0)
    for i, b in enumerate(bs):
        t = add(t, scale(b, 1 << (8 * i)))
    for b in bs:
        if b[0] not in ('c', 'byte') and b not in I.termty:
            I.termty[b] = 'u8'
    if p[0] == 'i':
        return ('cast', p, t)
    I.note_ty(t, ('prim', p))
    return t


@last('checked_mul', 'checked_add', 'checked_sub')
def checked(I, st, c):
    p = prim_of(c)
    if not p or len(c.args) != 2:
        return None
    a, b = I.rderef(st, c.args[0]), I.rderef(st, c.args[1])
    op = {'checked_mul': mul, 'checked_add': add, 'checked_sub': sub}[c.n.split('::')[-1]]
    r = op(a, b)
    lo, hi = prim_range(p)
    if op is not sub:
        I.note_ty(r, ('prim', p))
    if is_c(r):
        return ret(st, Some(r) if lo <= r[1] <= hi else NONE)
    if op is sub and lo == 0:
        out = []
        for want, v in ((True, Some(r)), (False, NONE)):
            s = I.branch(st, ('cmp', 'Ge', a, b), want)
            if s is not None:
                out += ret(s, v)
        return out
    # sizes of values that exist in memory never overflow
    return ret(st, Some(r))


@last('then_some', 'then')
def then_some(I, st, c):
    if not c.n.startswith(('core::bool::', 'std::bool::', 'bool::')) and '::bool::' not in c.n:
        return None
    out = []
    for want in (True, False):
        s = I.branch(st, I.rderef(st, c.args[0]), want)
        if s is None:
            continue
        if not want:
            out += ret(s, NONE)
        elif c.n.endswith('some'):
            out += ret(s, Some(c.args[1]))
        else:
            out += mapres(I.apply(c.fr, s, c.args[1], [], ('other', '?'), c.sp), Some)
    return out


@last('saturating_mul', 'saturating_add', 'wrapping_add', 'wrapping_mul', 'unchecked_add', 'unchecked_mul')
def saturating(I, st, c):
    p = prim_of(c)
    if not p or len(c.args) != 2:
        return None
    op = mul if 'mul' in c.n.split('::')[-1] else add
    return ret(st, op(I.rderef(st, c.args[0]), I.rderef(st, c.args[1])))


@last('saturating_sub', 'wrapping_sub', 'unchecked_sub')
def saturating_sub(I, st, c):
    p = prim_of(c)
    if not p or len(c.args) != 2:
        return None
    if p[0] == 'u' and c.n.endswith('saturating_sub'):
        a, b = I.rderef(st, c.args[0]), I.rderef(st, c.args[1])
        out = []
        for want, v in ((True, sub(a, b)), (False, C(0))):
            s = I.branch(st, ('cmp', 'Ge', a, b), want)
            if s is not None:
                out += ret(s, v)
        return out
    return ret(st, sub(I.rderef(st, c.args[0]), I.rderef(st, c.args[1])))


@last('div_ceil')
def div_ceil(I, st, c):
    p = prim_of(c)
    if not p:
        return None
    a, b = I.rderef(st, c.args[0]), I.rderef(st, c.args[1])
    if is_c(a) and is_c(b):
        return ret(st, C(-(-a[1] // b[1])))
    t = ('op', 'DivCeil', p, a, b)
    I.note_ty(t, ('prim', p))
    return ret(st, t)


@model('std::cmp::min', 'std::cmp::Ord::min')
def cmin(I, st, c):
    a, b = I.rderef(st, c.args[0]), I.rderef(st, c.args[1])
    r = I.cmp(st, 'Le', a, b)
    if r is not None:
        return ret(st, a if r else b)
    x, y = sorted([a, b], key=repr)
    return ret(st, ('min', x, y))


@model('std::cmp::max', 'std::cmp::Ord::max')
def cmax(I, st, c):
    a, b = I.rderef(st, c.args[0]), I.rderef(st, c.args[1])
    r = I.cmp(st, 'Ge', a, b)
    if r is not None:
        return ret(st, a if r else b)
    x, y = sorted([a, b], key=repr)
    return ret(st, ('max', x, y))


def cmp_fn(op):
    def h(I, st, c):
        T = c.targs[0] if c.targs else ('other', '')
        while T[0] == 'ref':
            T = T[2]
        a, b = I.deep(st, c.args[0]), I.deep(st, c.args[1])
        if a[0] == 'typeid' and b[0] == 'typeid':
            x, y = I.rty(st, a[1]), I.rty(st, b[1])
            if x == y:
                return ret(st, TRUE if op == 'Eq' else FALSE)
            for cc in st.conds:
                if cc[0] == 'tyne' and cc[1] == x and cc[2] == y:
                    return ret(st, FALSE if op == 'Eq' else TRUE)
            if y[0] == 'param' and x[0] != 'param':
                x, y = y, x
            if x[0] == 'param':
                t = ('tyeq', x, y)
                return ret(st, t if op == 'Eq' else ('not', t))
            return ret(st, FALSE if op == 'Eq' else TRUE)
        if T[0] == 'prim' and T[1] in W:
            v = I.cmp(st, op, a, b)
            if v is not None:
                return ret(st, TRUE if v else FALSE)
            return ret(st, ('cmp', op, a, b))
        if op in ('Eq', 'Ne') and a[0] == 'agg' and b[0] == 'agg' and not a[3] and not b[3]:
            return ret(st, TRUE if (a[2] == b[2]) == (op == 'Eq') else FALSE)
        r = I.resolve(st, c)
        if r is not None:
            return None
        o = bytes_order(I, st, a, b)
        if o is not None:
            return ret(st, TRUE if {'Eq': o == 0, 'Ne': o != 0, 'Lt': o < 0, 'Le': o <= 0, 'Gt': o > 0, 'Ge': o >= 0}[op] else FALSE)
        return ret(st, ('cmp', op, a, b))
    return h


def bytes_order(I, st, a, b):
    """-1, 0 or 1 for byte strings of entries of a region that is sorted by them, distinct entries having distinct bytes"""
    if a[0] not in ('bs', 'sub') or b[0] not in ('bs', 'sub'):
        return None
    a, b = I.nf(st, a), I.nf(st, b)
    if a == b:
        return 0
    x, y = sorted_at(I, st, a), sorted_at(I, st, b)
    if x is None or y is None or x[0] != y[0]:
        return None
    for (p, q, r) in ((x[1], y[1], -1), (y[1], x[1], 1)):
        if I.cmp(st, 'Lt', p, q):
            return r
    return None


def sorted_at(I, st, t):
    """(region, position) of a byte string which is the sort key of a region's entry"""
    es = set()
    mentions(t, lambda y: y[0] == 'elem' and es.add(y) and False)
    if len(es) != 1:
        return None
    (_, D, pos), = es
    if D[0] != 'perm' or D[2][0] != 'asc' or len(D[2]) < 2:
        return None
    key = tmap(t, lambda y: ('item', D[1], 'key', 0) if y == ('elem', D, pos) else y)
    k = D[2][1]
    if key != k:
        return None
    return D, pos


for _o, _n in (('Eq', 'std::cmp::PartialEq::eq'), ('Ne', 'std::cmp::PartialEq::ne'), ('Lt', 'std::cmp::PartialOrd::lt'), ('Le', 'std::cmp::PartialOrd::le'),
               ('Gt', 'std::cmp::PartialOrd::gt'), ('Ge', 'std::cmp::PartialOrd::ge')):
    M[_n] = cmp_fn(_o)


def try_conv(I, st, c):
    """integer TryFrom / TryInto"""
    ts = list(c.targs)
    if c.n.endswith('try_into'):
        frm, to = (ts + [None, None])[:2]
    else:
        to, frm = (ts + [None, None])[:2]
    x = I.rderef(st, c.args[0])
    if to and to[0] == 'prim' and to[1] in W and frm and frm[0] == 'prim' and frm[1] in W:
        I.note_ty(x, frm)
        lo, hi = prim_range(to[1])
        out = []
        l, h = I.rng(x, st)
        if l >= lo and h <= hi:
            return ret(st, Ok(x))
        if h < lo or l > hi:
            return ret(st, Err(('err',)))
        s1 = st
        fits = st.fork()
        ok = True
        for (o, b, need) in (('Le', hi, h > hi), ('Ge', lo, l < lo)):
            if need:
                cd = ('cmp', o, x, C(b))
                v = I.cmp(fits, o, x, C(b))
                if v is False:
                    ok = False
                elif v is None:
                    I.assume(fits, cd)
        if ok:
            out.append((fits, 'ret', Ok(x)))
        if h > hi:
            s = st.fork()
            I.assume(s, ('cmp', 'Gt', x, C(hi)))
            out.append((s, 'ret', Err(('err',))))
        if l < lo:
            s = st.fork()
            I.assume(s, ('cmp', 'Lt', x, C(lo)))
            out.append((s, 'ret', Err(('err',))))
        return out
    # byte slice -> array
    if to and to[0] == 'ref':
        to = to[2]
    if to and to[0] == 'array' and str(to[2]).isdigit():
        n = int(to[2])
        v = I.deep(st, x)
        if v[0] == 'agg' and len(v[3]) == n:
            return ret(st, Ok(v))
        if v[0] == 'bs':
            fl = content(I, st, list(v[1]), C(n))
            if fl[0] == 'agg' and len(fl[3]) == n:
                return ret(st, Ok(fl))
        if I.length(st, v) == C(n):
            return ret(st, Ok(('agg', 'array', 0, tuple(I.index(st, v, C(i)) for i in range(n))) if n <= 64 else v))
    return None


M['std::convert::TryFrom::try_from'] = try_conv
M['std::convert::TryInto::try_into'] = try_conv


@model('std::convert::From::from', 'std::convert::Into::into')
def conv_from(I, st, c):
    ts = list(c.targs)
    if c.n.endswith('into'):
        frm, to = (ts + [None, None])[:2]
    else:
        to, frm = (ts + [None, None])[:2]
    if to and frm and to[0] == 'prim' and frm[0] == 'prim' and to[1] in W and frm[1] in W:
        return ret(st, I.intcast(st, I.rderef(st, c.args[0]), to[1], frm[1]))
    if to and to[0] == 'prim' and to[1] in ('f64', 'f32'):
        return None
    r = I.resolve(st, c)
    if r is not None:
        return None
    if to and to[0] == 'adt' and short(to[1]) in ('String', 'Box', 'Arc', 'Rc', 'Vec', 'PathBuf', 'Bytes', 'Cow', 'HashMap', 'BTreeMap', 'BTreeSet', 'HashSet', 'BinaryHeap', 'VecDeque', 'OsString', 'GenericVector', 'OsStr'):
        return ret(st, c.args[0])
    if to and frm and to == frm:
        return ret(st, c.args[0])
    return None


@model('std::mem::size_of')
def size_of(I, st, c):
    T = I.rty(st, c.targs[0])
    if T[0] == 'prim':
        n = {'f32': 4, 'f64': 8, 'bool': 1, 'char': 4}.get(T[1]) or W[T[1]] // 8
        return ret(st, C(n))
    if T[0] == 'array' and T[1] == ('prim', 'u8') and str(T[2]).isdigit():
        return ret(st, C(int(T[2])))
    t = ('sizeof', T)
    I.termty[t] = 'usize'
    return ret(st, t)


@model('std::any::TypeId::of')
def typeid(I, st, c):
    return ret(st, ('typeid', I.rty(st, c.targs[0])))


@model('std::hint::assert_unchecked')
def assert_unchecked(I, st, c):
    return ret(st, UNIT)


@model('std::default::Default::default')
def default(I, st, c):
    T = I.rty(st, c.targs[0]) if c.targs else c.ret
    if T[0] == 'prim' and T[1] in W:
        return ret(st, C(0))
    if T[0] == 'adt' and short(T[1]) in ('Vec', 'BTreeMap', 'BTreeSet', 'HashMap', 'HashSet', 'BinaryHeap', 'String', 'VecDeque'):
        return ret(st, ('vec', ()))
    if T[0] == 'adt' and T[1] == OPT:
        return ret(st, NONE)
    r = I.resolve(st, c)
    if r is not None and not (I.hooks and I.hooks(c)):
        return None
    return ret(st, ('call', 'Default::default', (show(A.erase(T)),), ()))


def or_default(some):
    def g(I, s, c, v, p):
        if v == some:
            return ret(s, p)
        T = c.ret
        if T[0] == 'ref' and T[2][0] == 'slice':
            return ret(s, ('bs', ()) if T[2][1] == ('prim', 'u8') else ('vec', ()))
        if T[0] == 'prim' and T[1] in W:
            return ret(s, C(0))
        if T[0] == 'adt' and short(T[1]) in ('Vec', 'String'):
            return ret(s, ('vec', ()))
        return ret(s, ('call', 'Default::default', (show(A.erase(T)),), ()))
    return combin(g)


M['std::option::Option::unwrap_or_default'] = or_default(1)
M['std::result::Result::unwrap_or_default'] = or_default(0)


@last('to_bits')
def to_bits(I, st, c):
    p = prim_of(c)
    if p not in ('f32', 'f64'):
        return None
    x = I.rderef(st, c.args[0])
    t = x[2] if x[0] == 'frombits' else ('tobits', p, x)
    I.termty[t] = 'u32' if p == 'f32' else 'u64'
    return ret(st, t)


@last('from_bits')
def from_bits(I, st, c):
    p = prim_of(c)
    if p not in ('f32', 'f64'):
        return None
    x = I.rderef(st, c.args[0])
    return ret(st, x[2] if x[0] == 'tobits' and x[1] == p else ('frombits', p, x))


# -------------------------------------------------------------- collections
VECISH = ('Vec', 'BTreeMap', 'BTreeSet', 'HashMap', 'HashSet', 'BinaryHeap', 'VecDeque', 'String', 'LinkedList', 'GenericVector', 'GenericHashMap', 'GenericHashSet', 'GenericOrdMap', 'GenericOrdSet', 'Bytes', 'SmallVec', 'BytesMut')


def coll_type(n):
    m = re.match(r'^(std::vec|std::collections|imbl|bytes|std::string|alloc::collections|std::collections::\w+(?:::\w+)?|im)::(\w+)::(\w+)$', n)
    if m and m.group(2) in VECISH:
        return m.group(2), m.group(3)
    return None


@last('new', 'with_capacity', 'with_capacity_and_hasher', 'with_hasher')
def coll_new(I, st, c):
    if coll_type(c.n):
        return ret(st, ('vec', ()))
    return None


@last('len')
def xlen(I, st, c):
    if coll_type(c.n) or c.n in ('core::slice::len', 'core::str::len', 'std::iter::ExactSizeIterator::len'):
        t = I.deep(st, c.args[0])
        if t[0] in ('seq', 'range', 'zip', 'enum', 'map'):
            r = I.count(st, t)
        else:
            r = I.length(st, t)
        if r[0] != 'c':
            I.note_ty(r, ('prim', 'usize'))
        return ret(st, r)
    return None


@last('is_empty')
def is_empty(I, st, c):
    if coll_type(c.n) or c.n in ('core::slice::is_empty', 'core::str::is_empty'):
        n = I.length(st, I.deep(st, c.args[0]))
        v = I.cmp(st, 'Eq', n, C(0))
        if v is not None:
            return ret(st, TRUE if v else FALSE)
        return ret(st, ('cmp', 'Eq', n, C(0)))
    return None


@last('capacity')
def capacity(I, st, c):
    if coll_type(c.n):
        return ret(st, ('call', 'capacity', (), (I.deep(st, c.args[0]),)))
    return None


@last('reserve', 'reserve_exact', 'shrink_to_fit')
def reserve(I, st, c):
    if coll_type(c.n):
        return ret(st, UNIT)
    return None


def append(I, st, ref, parts):
    t = ref
    loc = None
    n = 0
    while t[0] == 'ref' and n < 20:
        loc = (t[1], t[2])
        t = I.load(st, t[1], t[2])
        n += 1
    if loc is None:
        raise A.Unsup('append to an unknown collection')
    if t[0] == 'vec':
        v = ('vec', t[1] + tuple(parts))
    elif t[0] == 'bs':
        b = I.vec_as_bytes(('vec', tuple(parts)))
        if b is None:
            raise A.Unsup('append of unknown bytes')
        v = ('bs', t[1] + b[1])
    else:
        v = ('vec', (('many', t),) + tuple(parts))
    I.store(st, loc[0], loc[1], v)


@last('push', 'push_back', 'insert')
def push(I, st, c):
    ct = coll_type(c.n)
    if not ct:
        return None
    ty, m = ct
    args = [I.deep(st, a) for a in c.args[1:]]
    if m == 'insert' and ty in ('Vec', 'GenericVector', 'VecDeque', 'String'):
        return None
    if len(args) == 1:
        append(I, st, c.args[0], [('one', args[0])])
    else:
        append(I, st, c.args[0], [('one', tup(*args))])
    if ty == 'String':
        return None
    return ret(st, UNIT if c.ret == ('tuple', ()) else I.opaque(st, c.d, (), [], c.ret))


@last('push_front')
def push_front(I, st, c):
    ct = coll_type(c.n)
    if not ct:
        return None
    t = I.rderef(st, c.args[0])
    if t[0] == 'vec' and (not t[1] or t[1][0][0] != 'phi'):
        store_through(I, st, c.args[0], ('vec', (('one', I.deep(st, c.args[1])),) + t[1]))
    else:
        store_through(I, st, c.args[0], ('revd', t, I.deep(st, c.args[1])))
    return ret(st, UNIT)


@last('clear')
def clear(I, st, c):
    if coll_type(c.n):
        store_through(I, st, c.args[0], ('vec', ()))
        return ret(st, UNIT)
    return None


@last('extend_from_slice', 'put_slice', 'extend', 'append', 'push_str')
def extend(I, st, c):
    if not coll_type(c.n) and c.n != 'std::iter::Extend::extend':
        return None
    x = I.deep(st, c.args[1])
    t = I.rderef(st, c.args[0])
    if t[0] == 'bs' or (t[0] == 'vec' and x[0] == 'bs'):
        if t[0] == 'vec':
            b = I.vec_as_bytes(t)
            if b is None:
                raise A.Unsup('bytes of %s' % tshow(t))
            t = b
        store_through(I, st, c.args[0], ('bs', t[1] + tuple(I.as_chunks(st, x))))
    else:
        it = as_iter(I, st, x)
        if x[0] == 'vec':
            append(I, st, c.args[0], x[1])
        elif x[0] == 'agg' and x[1] == 'array':
            append(I, st, c.args[0], [('one', y) for y in x[3]])
        else:
            append(I, st, c.args[0], [('many', x)])
    if c.n.endswith('::append'):
        store_through(I, st, c.args[1], ('vec', ()))
    return ret(st, UNIT)


@last('from_elem')
def from_elem(I, st, c):
    if c.n != 'std::vec::from_elem':
        return None
    return ret(st, ('vec', (('fill', I.deep(st, c.args[0]), I.rderef(st, c.args[1])),)))


@last('resize')
def resize(I, st, c):
    if not coll_type(c.n):
        return None
    t = I.rderef(st, c.args[0])
    n = I.rderef(st, c.args[1])
    if t[0] == 'vec' and not t[1]:
        store_through(I, st, c.args[0], ('vec', (('fill', I.deep(st, c.args[2]), n),)))
        return ret(st, UNIT)
    if t[0] == 'bs':
        d = sub(n, I.length(st, t))
        if I.nonneg(st, d):
            x = I.deep(st, c.args[2])
            store_through(I, st, c.args[0], ('bs', t[1] + (('raw', ('repeat', x, d), d),)))
            return ret(st, UNIT)
    return None


@model('std::slice::from_raw_parts', 'std::slice::from_raw_parts_mut', 'core::slice::from_raw_parts')
def from_raw_parts(I, st, c):
    p, n = c.args[0], I.rderef(st, c.args[1])
    T = I.rty(st, c.targs[0]) if c.targs else None
    if p[0] == 'ptr':
        X, elem, mut = p[1], p[2], p[3]
        if mut:
            return ret(st, ('memview', X, n, elem))
        v = I.deep(st, X)
        if elem == T:
            return ret(st, v if I.length(st, v) == n else ('sub', v, C(0), n))
        return ret(st, ('bs', (('raw', ('mem', show(A.erase(elem)), v), n),)))
    return None


@last('as_ptr', 'as_mut_ptr')
def as_ptr(I, st, c):
    if c.n in ('core::slice::as_ptr', 'std::vec::Vec::as_ptr', 'std::vec::Vec::as_mut_ptr', 'core::slice::as_mut_ptr', 'core::str::as_ptr'):
        T = I.rty(st, c.targs[0]) if c.targs else ('prim', 'u8')
        x = c.args[0]
        n = 0
        while x[0] == 'ref' and I.deref(st, x)[0] == 'ref' and n < 10:
            x = I.deref(st, x)
            n += 1
        return ret(st, ('ptr', x, T, 'mut' in c.n))
    return None


@model('std::mem::forget')
def forget(I, st, c):
    return ret(st, UNIT)


@model('std::vec::Vec::from_raw_parts')
def vec_from_raw(I, st, c):
    p = c.args[0]
    if p[0] == 'ptr':
        v = I.deep(st, p[1])
        n = I.rderef(st, c.args[1])
        if I.length(st, v) == n:
            return ret(st, ('reinterp', v))
    return None


@model('std::vec::Vec::set_len')
def set_len(I, st, c):
    n = I.rderef(st, c.args[1])
    t = I.rderef(st, c.args[0])
    if I.length(st, t) == n:
        return ret(st, UNIT)
    if t == ('vec', ()):
        store_through(I, st, c.args[0], ('vec', (('fill', ('uninit',), n),)))
        return ret(st, UNIT)
    return None


# ---------------------------------------------------------------- iterators
def as_iter(I, st, t):
    t = I.rderef(st, t)
    if t[0] in ('seq', 'range', 'enum', 'zip', 'map', 'rev', 'chunks', 'taken', 'skipped', 'filter', 'chain'):
        return t
    if t[0] == 'agg' and t[1] in ('std::ops::Range',):
        return ('range', I.deep(st, t[3][0]), I.deep(st, t[3][1]))
    if t[0] == 'agg' and t[1].endswith('RangeInclusive'):
        return ('range', I.deep(st, t[3][0]), add(I.deep(st, t[3][1]), C(1)))
    if t[0] == 'agg' and t[1] in (OPT,):
        return ('seq', ('vec', (('one', I.deep(st, t[3][0])),) if t[2] == 1 else ()))
    return ('seq', I.deep(st, t))


ORDERED = ('BTreeMap', 'BTreeSet', 'OrdMap', 'OrdSet', 'GenericOrdMap', 'GenericOrdSet', 'btree_map', 'btree_set')
HASHED = ('HashMap', 'HashSet', 'GenericHashMap', 'GenericHashSet', 'hash_map', 'hash_set', 'BinaryHeap', 'binary_heap')


def local_order(c, it, I):
    """a container of encoded bytes built here enumerates them in its own order"""
    if it[0] != 'seq' or it[1][0] != 'vec':
        return it
    T = c.targs[0] if c.n == 'std::iter::IntoIterator::into_iter' and c.targs else None
    while T and T[0] in ('ref', 'ptr'):
        T = T[2]
    names = [short(T[1])] if T and T[0] == 'adt' else c.n.split('::') if T is None else []
    kind = 'asc' if any(x in ORDERED for x in names) else '?' if any(x in HASHED for x in names) else None
    if kind is None:
        return it
    r = single_loop(it[1])
    if r is None:
        return it
    k = r[1]
    if k[0] == 'agg' and k[1] == 'tuple' and k[3]:
        k = k[3][0]
    if k[0] != 'bs':
        return it
    return ('seq', permute(I, r, ('asc', relabel(unperm(k), r[0][1], 'key')) if kind == 'asc' else ('?', C(0))))


@last('into_iter', 'iter', 'iter_mut', 'chars', 'drain', 'bytes')
def into_iter(I, st, c):
    if c.n.split('::')[-1] == 'chars':
        b = I.deep(st, c.args[0])
        if b[0] == 'agg' and b[1] == 'array' and b[3] and not is_text(I, b):
            return ret(st, ('chars', b))
    l = c.n.split('::')[-1]
    if c.n == 'std::iter::IntoIterator::into_iter' or coll_type(c.n) or c.n in ('core::slice::iter', 'core::slice::iter_mut', 'core::str::bytes', 'core::str::chars', 'std::array::iter', 'std::collections::hash_map::iter'):
        if l == 'into_iter' and c.trait:
            r = I.resolve(st, c)
            if r is not None:
                return None
        a = c.args[0]
        if l == 'into_iter' and a[0] == 'ref' and I.deref(st, a)[0] in ('range', 'enum', 'zip', 'map', 'seqit'):
            return ret(st, a)
        return ret(st, local_order(c, as_iter(I, st, a), I))
    if l in ('iter', 'into_iter') and len(c.args) == 1 and not I.resolve(st, c):
        return ret(st, as_iter(I, st, c.args[0]))
    return None


@model('std::iter::Iterator::enumerate')
def it_enum(I, st, c):
    return ret(st, ('enum', as_iter(I, st, c.args[0])))


@model('std::iter::Iterator::zip', 'std::iter::zip')
def it_zip(I, st, c):
    return ret(st, ('zip', as_iter(I, st, c.args[0]), as_iter(I, st, c.args[1])))


@model('std::iter::Iterator::map')
def it_map(I, st, c):
    return ret(st, ('map', as_iter(I, st, c.args[0]), I.box_state(st, c.args[1])))


@model('std::iter::Iterator::rev')
def it_rev(I, st, c):
    return ret(st, ('rev', as_iter(I, st, c.args[0])))


@model('std::iter::Iterator::take')
def it_take(I, st, c):
    src = as_iter(I, st, c.args[0])
    n = I.rderef(st, c.args[1])
    if I.count(st, src) == n:
        return ret(st, src)
    return ret(st, ('taken', src, n))


@last('chunks', 'chunks_exact', 'windows', 'split_at', 'chunks_mut')
def chunks(I, st, c):
    l = c.n.split('::')[-1]
    if not c.n.startswith('core::slice::'):
        return None
    x = I.deep(st, c.args[0])
    n = I.rderef(st, c.args[1])
    if l == 'split_at':
        return ret(st, tup(I.subslice(st, x, C(0), n), I.subslice(st, x, n, I.length(st, x))))
    return ret(st, ('chunks', x, n, l))


def item_of(I, st, c, src, lid, k):
    """(state, kind, item value) for one step of an iterator"""
    h = src[0]
    if h == 'enum':
        out = []
        for (s, kk, v) in item_of(I, st, c, src[1], lid, k):
            ix = ('item', ('range', C(0), I.count(s, src[1])), lid, k)
            I.termty[ix] = 'usize'
            out.append((s, kk, tup(ix, v) if kk == 'ret' else v))
        return out
    if h == 'zip':
        out = []
        for (s, kk, v) in item_of(I, st, c, src[1], lid, k):
            if kk != 'ret':
                out.append((s, kk, v))
                continue
            for (s2, k2, v2) in item_of(I, s, c, src[2], lid, k):
                out.append((s2, k2, tup(v, v2) if k2 == 'ret' else v2))
        return out
    if h == 'map':
        out = []
        for (s, kk, v) in item_of(I, st, c, src[1], lid, k):
            if kk != 'ret':
                out.append((s, kk, v))
                continue
            out.extend(I.apply(c.fr, s, src[2], [v], ('other', '?'), c.sp))
        return out
    if h == 'range':
        t = ('item', src, lid, k)
        I.termty.setdefault(t, 'usize')
        return [(st, 'ret', t)]
    t = ('item', src, lid, k)
    if h == 'seq':
        X = src[1]
        if X[0] == 'vec' and k < len(X[1]) and all(p[0] == 'one' for p in X[1][:k + 1]):
            return [(st, 'ret', X[1][k][1])]
        if X[0] == 'agg' and X[1] == 'array' and lid == 0 and k < len(X[3]):
            return [(st, 'ret', X[3][k])]
        # element of a collection whose parts are all the same known shape
        if X[0] == 'vec' and len(X[1]) == 1 and X[1][0][0] == 'loop':
            lp = X[1][0]
            if len(lp[3]) == 1 and len(lp[3][0][1]) == 1 and lp[3][0][1][0][0] == 'one':
                return [(st, 'ret', relabel(lp[3][0][1][0][1], lp[1], lid))]
        if X[0] == 'vec' and len(X[1]) == 1 and X[1][0][0] == 'fill':
            return [(st, 'ret', X[1][0][1])]
    return [(st, 'ret', t)]


def const_count(I, st, src):
    n = I.count(st, src)
    return n[1] if is_c(n) else None


@model('std::iter::Iterator::next')
def it_next(I, st, c):
    it = c.args[0]
    src = I.rderef(st, it)
    if src[0] == 'chars':
        b = src[1]
        if not b[3]:
            return None
        if is_c(b[3][0]) and b[3][0][1] < 128:
            v = b[3][0]
        else:
            v = ('call', 'std::str::Chars::next', (), (b,))
            I.termty[v] = 'char'
        store_through(I, st, it, ('chars', ('agg', b[1], b[2], ())))
        return ret(st, Some(v))
    if src[0] == 'agg':
        if src[1] in ('std::ops::Range',):
            src = as_iter(I, st, src)
        else:
            return None
    if src[0] == 'cur':
        pos, base = src[2], src[1]
    else:
        pos, base = 0, src
    if base[0] not in ('seq', 'range', 'enum', 'zip', 'map', 'rev', 'chunks', 'taken', 'skipped'):
        return None
    lid = I.loopctx[-1] if I.loopctx else 0
    # constant small sources (arrays) outside of loops are unrolled
    k = sum(1 for cc in st.conds if cc[0] == 'next' and cc[1] == base and cc[2] is True and cc[3] == lid)
    known = const_count(I, st, base)
    out = []
    if lid == 0 and known is not None and k >= known:
        return ret(st, NONE)
    if lid and k == 0 and I.zero(st, I.count(st, base)):
        st.conds = st.conds + (('next', base, False, lid, k),)
        return ret(st, NONE)
    s1 = st.fork()
    s1.conds = s1.conds + (('next', base, True, lid, k),)
    for (s, kk, v) in item_of(I, s1, c, base, lid, k):
        out.append((s, kk, Some(v) if kk == 'ret' else v))
    if not (lid == 0 and known is not None):
        s2 = st
        s2.conds = s2.conds + (('next', base, False, lid, k),)
        out.append((s2, 'ret', NONE))
    return out


@model('std::iter::Iterator::collect', 'std::iter::FromIterator::from_iter')
def collect(I, st, c):
    src = as_iter(I, st, c.args[0])
    return build(I, st, c, src)


def build(I, st, c, src):
    """collection made of all the items of src"""
    if src[0] == 'seq':
        return ret(st, src[1])
    lid = next(I.loopn)
    out = []
    rs = item_of(I, st.fork(), c, src, lid, 0)
    good = [(s, v) for (s, k, v) in rs if k == 'ret']
    if len(rs) != 1 or len(good) != 1:
        raise A.Unsup('collect of a branching iterator', c.sp)
    s, v = good[0]
    return ret(s, ('vec', (('loop', lid, base_of(src), (((), (('one', I.deep(s, v)),)),)),)))


def base_of(src):
    while src[0] in ('enum', 'map'):
        src = src[1]
    return src


def single_loop(t):
    """(loop, element) of a sequence whose elements all have one shape"""
    if t[0] == 'vec' and len(t[1]) == 1 and t[1][0][0] == 'loop':
        lp = t[1][0]
        if len(lp[3]) == 1 and len(lp[3][0][1]) == 1 and lp[3][0][1][0][0] == 'one':
            return lp, lp[3][0][1][0][1]
    return None


def permuted(I, st, c, by):
    """the vector now enumerates the same elements in the order `by`"""
    t = I.deep(st, c.args[0])
    r = single_loop(t)
    if r is None:
        if t[0] == 'vec' and not t[1]:
            return ret(st, UNIT)
        store_through(I, st, c.args[0], ('sorted', t, by))
        return ret(st, UNIT)
    store_through(I, st, c.args[0], permute(I, r, by))
    return ret(st, UNIT)


def permute(I, r, by):
    lp, e = r
    D = I.canon_driver(lp[2])
    P = ('perm', D, by)

    def f(x):
        if len(x) > 2 and x[0] == 'item' and x[2] == lp[1] and I.canon_driver(x[1]) == D:
            return ('item', P) + x[2:]
        return x
    e2 = tmap(e, f)
    return ('vec', (('loop', lp[1], P, ((lp[3][0][0], (('one', e2),)),)),))


def two(I, st, c, e, lid):
    out = []
    for l in ('ka', 'kb'):
        out.append(('ref', I.newcell(st, relabel(e, lid, l)), ()))
    return out


def has_label(t, l):
    return mentions(t, lambda x: len(x) > 2 and x[0] == 'item' and x[2] == l)


def order_of(t):
    """what a three-way comparison of element ka with element kb orders by"""
    if t[0] == 'call':
        n = t[1].split('::')[-1]
        if n == 'cmp' and len(t[3]) == 2:
            x, y = t[3]
            for a, b, k in (('ka', 'kb', 'asc'), ('kb', 'ka', 'desc')):
                if has_label(x, a) and not has_label(x, b) and relabel(x, a, b) == y:
                    return (k, relabel(x, a, 'key'))
        if n == 'reverse' and len(t[3]) == 1:
            o = order_of(t[3][0])
            if o[0] in ('asc', 'desc'):
                return ({'asc': 'desc', 'desc': 'asc'}[o[0]], o[1])
        if n in ('then', 'then_with'):
            o = order_of(t[3][0])
            return (o[0], tup(o[1], ('rest',))) if o[0] != '?' else o
    return ('?', t)


@last('is_lt', 'is_le', 'is_gt', 'is_ge', 'is_eq', 'is_ne')
def ordering_is(I, st, c):
    n = c.n.split('::')
    if len(n) < 2 or n[-2] != 'Ordering':
        return None
    yes = {'is_lt': (-1,), 'is_le': (-1, 0), 'is_gt': (1,), 'is_ge': (0, 1), 'is_eq': (0,), 'is_ne': (-1, 1)}[n[-1]]
    t = I.rderef(st, c.args[0])
    if t[0] == 'agg':
        return ret(st, TRUE if t[2] - 1 in yes else FALSE)
    fixed = next((x[2] for x in st.conds if x[0] == 'isv' and x[1] == t), None)
    excl = {x[2] for x in st.conds if x[0] == 'notv' and x[1] == t}
    out = []
    for v in (-1, 0, 1):
        if fixed is not None and v != fixed or v in excl:
            continue
        s = st.fork()
        if fixed is None:
            I.assume(s, ('isv', t, v))
        out += ret(s, TRUE if v in yes else FALSE)
    return out


@last('sort', 'sort_unstable')
def sort(I, st, c):
    if not c.n.startswith(('core::slice::', 'std::slice::')):
        return None
    r = single_loop(I.deep(st, c.args[0]))
    if r is None:
        return permuted(I, st, c, ('?', C(0)))
    return permuted(I, st, c, ('asc', relabel(unperm(r[1]), r[0][1], 'key')))


@last('sort_by', 'sort_unstable_by', 'sort_by_key', 'sort_unstable_by_key', 'sort_by_cached_key')
def sort_by(I, st, c):
    if not c.n.startswith(('core::slice::', 'std::slice::')):
        return None
    r = single_loop(I.deep(st, c.args[0]))
    if r is None:
        return permuted(I, st, c, ('?', C(0)))
    s = st.fork()
    a, b = two(I, s, c, unperm(r[1]), r[0][1])
    key = 'key' in c.n.split('::')[-1]
    rs = I.apply(c.fr, s, c.args[1], [a] if key else [a, b], ('other', '?'), c.sp)
    by = ('?', C(0))
    bys = set()
    for s2, kind, v in rs:
        if kind != 'ret':
            bys.add(by)
            continue
        v = I.deep(s2, v)
        bys.add(('asc', relabel(v, 'ka', 'key')) if key else order_of(v))
    if len(bys) == 1:
        by, = bys
    return permuted(I, st, c, by)


@last('reverse')
def reverse(I, st, c):
    if not c.n.startswith(('core::slice::', 'std::slice::')):
        return None
    t = I.deep(st, c.args[0])
    r = single_loop(t)
    if r is None:
        store_through(I, st, c.args[0], ('sorted', t, ('?', C(0))))
        return ret(st, UNIT)
    D = I.canon_driver(r[0][2])
    if D[0] == 'perm' and D[2][0] in ('asc', 'desc'):
        store_through(I, st, c.args[0], unperm(t))
        return permuted(I, st, c, ({'asc': 'desc', 'desc': 'asc'}[D[2][0]], D[2][1]))
    return permuted(I, st, c, ('reversed', C(0)))


@model('std::iter::Iterator::unzip')
def unzip(I, st, c):
    src = as_iter(I, st, c.args[0])
    lid = next(I.loopn)
    rs = item_of(I, st.fork(), c, src, lid, 0)
    if len(rs) != 1 or rs[0][1] != 'ret':
        return None
    s, _, v = rs[0]
    v = I.deep(s, v)
    out = []
    for i in (0, 1):
        x = I.proj(s, v, ('f', 0, i))
        out.append(('vec', (('loop', lid, base_of(src), (((), (('one', x),)),)),)))
    return ret(s, tup(*out))


# ----------------------------------------------------------------- indexing
@last('index', 'index_mut')
def index(I, st, c):
    if c.n not in ('std::ops::Index::index', 'std::ops::IndexMut::index_mut'):
        return None
    x, ix = c.args[0], I.rderef(st, c.args[1])
    xt = I.rderef(st, x)
    n = None
    if ix[0] == 'agg' and ix[1].startswith('std::ops::Range'):
        kind = ix[1].split('::')[-1]
        fs = [I.deep(st, y) for y in ix[3]]
        L = I.length(st, xt)
        lo, hi = C(0), L
        if kind == 'Range':
            lo, hi = fs
        elif kind == 'RangeFrom':
            lo = fs[0]
        elif kind == 'RangeTo':
            hi = fs[0]
        elif kind == 'RangeToInclusive':
            hi = add(fs[0], C(1))
        elif kind == 'RangeInclusive':
            lo, hi = fs[0], add(fs[1], C(1))
        if c.n.endswith('mut'):
            return ret(st, ('submut', x, lo, hi))
        return ret(st, I.subslice(st, I.deep(st, xt), lo, hi))
    if ix[0] in ('c', 'lin', 'p', 'fld', 'item', 'phi', 'op', 'call', 'post'):
        y = x
        k = 0
        while y[0] == 'ref' and I.deref(st, y)[0] == 'ref' and k < 10:
            y = I.deref(st, y)
            k += 1
        if y[0] == 'ref' and c.n.endswith('mut'):
            return ret(st, ('ref', y[1], y[2] + (('i', ix),)))
        return ret(st, I.index(st, I.deep(st, xt), ix))
    return None


@last('get')
def get(I, st, c):
    if not c.n.startswith('core::slice::'):
        return None
    ix = I.rderef(st, c.args[1])
    x = I.deep(st, c.args[0])
    if ix[0] == 'agg' and ix[1].startswith('std::ops::Range'):
        kind = ix[1].split('::')[-1]
        fs = [I.deep(st, y) for y in ix[3]]
        L = I.length(st, x)
        lo, hi = C(0), L
        if kind == 'Range':
            lo, hi = fs
        elif kind == 'RangeFrom':
            lo = fs[0]
        elif kind == 'RangeTo':
            hi = fs[0]
        else:
            return None
        v = Some(I.subslice(st, x, lo, hi))
        if (I.nonneg(st, sub(L, hi)) or I.cmp(st, 'Le', hi, L) is True) and (I.nonneg(st, sub(hi, lo)) or I.cmp(st, 'Le', lo, hi) is True) and I.nonneg(st, lo):
            return ret(st, v)
        t = ('call', 'get', (), (x, lo, hi))
        s1, s2 = st, st.fork()
        I.assume(s1, ('inb', t))
        I.assume(s2, ('oob', t))
        return [(s1, 'ret', v), (s2, 'ret', NONE)]
    L = I.length(st, x)
    r = I.cmp(st, 'Lt', ix, L)
    if r is True:
        return ret(st, Some(I.index(st, x, ix)))
    if r is False:
        return ret(st, NONE)
    s1, s2 = st, st.fork()
    I.assume(s1, ('cmp', 'Lt', ix, L))
    I.assume(s2, ('cmp', 'Ge', ix, L))
    return [(s1, 'ret', Some(I.index(s1, x, ix))), (s2, 'ret', NONE)]


@last('copy_from_slice', 'clone_from_slice')
def copy_from_slice(I, st, c):
    if not c.n.startswith('core::slice::'):
        return None
    d, s = c.args[0], I.deep(st, c.args[1])
    t = I.rderef(st, d)
    if t[0] == 'submut':
        write_range(I, st, t, s, c.sp)
        return ret(st, UNIT)
    if s[0] == 'bs':
        s = content(I, st, list(s[1]), I.length(st, s))
    store_through(I, st, d, s)
    return ret(st, UNIT)


def write_range(I, st, sm, v, sp):
    """overwrite target[lo..hi] with v"""
    _, tgt, lo, hi = sm
    t = tgt
    loc = None
    n = 0
    while t[0] == 'ref' and n < 20:
        loc = (t[1], t[2])
        t = I.load(st, t[1], t[2])
        n += 1
    if loc is None:
        raise A.Unsup('write through an unknown reference', sp)
    if t[0] == 'submut':
        return write_range(I, st, ('submut', t[1], add(t[2], lo), add(t[2], hi)), v, sp)
    if is_c(lo) and is_c(hi) and (t[0] == 'agg' or (t[0] == 'repeat' and is_c(t[2]))):
        for j in range(hi[1] - lo[1]):
            I.store(st, loc[0], loc[1] + (('i', C(lo[1] + j)),), I.index(st, v, C(j)))
        return
    try:
        pre, rest = I.split(st, I.as_chunks(st, t), lo)
        old, post = I.split(st, rest, sub(hi, lo))
    except A.Mismatch as e:
        raise A.Unsup('overwrites part of a buffer: ' + e.why, sp)
    I.store(st, loc[0], loc[1], ('bs', tuple(pre) + tuple(I.as_chunks(st, v)) + tuple(post)))


# ----------------------------------------------------------------- strings
@model('std::string::String::from_utf8', 'std::str::from_utf8', 'core::str::from_utf8')
def from_utf8(I, st, c):
    b = I.nf(st, I.deep(st, c.args[0]))
    if is_text(I, b):
        return ret(st, Ok(b))
    if b[0] == 'agg' and b[3] and b[3][0][0] == 'ub':
        x, n = b[3][0][1], b[3][0][2]
        if len(b[3]) == n and all(y == ('ub', x, n, i) for i, y in enumerate(b[3])):
            return ret(st, Ok(('vec', (('one', x),))))
    if b[0] == 'agg' and b[1] == 'array' and b[3] and is_c(b[3][0]) and not (b[3][0][1] < 0x80 or 0xc2 <= b[3][0][1] <= 0xf4):
        return ret(st, Err(('err',)))   # no character starts with this byte
    if b[0] == 'agg' and b[1] == 'array' and all(is_c(x) and x[1] < 0x80 for x in b[3]):
        return ret(st, Ok(b))
    t = ('utf8', b)
    s1, s2 = st, st.fork()
    I.assume(s1, ('ok', t))
    I.assume(s2, ('err', t))
    return [(s1, 'ret', Ok(b)), (s2, 'ret', Err(('err',)))]


@model('std::str::from_utf8_unchecked', 'std::string::String::from_utf8_unchecked')
def from_utf8_unchecked(I, st, c):
    return ret(st, I.deep(st, c.args[0]))


def is_text(I, b):
    if b[0] == 'str':
        try:
            b[1].decode()
            return True
        except UnicodeDecodeError:
            return False
    if b[0] == 'vec' and not b[1] or b[0] == 'bs' and not b[1]:
        return True
    return I.termty.get(b) == 'str' or b[0] == 'call' and b[1] in ('regex::Regex::as_str', 'std::path::Path::to_str', 'encode_utf8', 'std::string::ToString::to_string') or \
        b[0] in ('okof', 'fld') and is_text(I, b[1]) and b[1][0] == 'call' or b[0] == 'agg' and False


@model('std::path::Path::to_str')
def path_to_str(I, st, c):
    x = I.deep(st, c.args[0])
    t = ('call', 'path_to_str', (), (x,))
    s1, s2 = st, st.fork()
    I.assume(s1, ('isv', t, 1))
    I.assume(s2, ('isv', t, 0))
    I.termty[x] = 'str'
    return [(s1, 'ret', Some(x)), (s2, 'ret', NONE)]


# ---------------------------------------------------- trusted inverse pairs
# f(x) followed by g gives back x (g may be fallible): documented contracts of
# std and of the dependencies.
def pair(g, f, wrap=None, args=None):
    INVERSE[g] = (f, wrap, args)


pair('uuid::builder::from_slice', 'uuid::Uuid::as_bytes', 'ok')
pair('uuid::builder::from_bytes', 'uuid::Uuid::as_bytes', None)
pair('rust_decimal::Decimal::deserialize', 'rust_decimal::Decimal::serialize', None)
pair('ordered_float::NotNan::new', 'ordered_float::NotNan::into_inner', 'ok')
pair('regex::Regex::new', 'regex::Regex::as_str', 'ok')
pair('core::str::parse', 'regex::Regex::as_str', 'ok')
pair('std::time::Duration::new', ('std::time::Duration::as_secs', 'std::time::Duration::subsec_nanos'), None)
#pair('chrono::TimeDelta::new', ('chrono::TimeDelta::num_seconds', 'chrono::TimeDelta::subsec_nanos'), 'some')
pair('chrono::NaiveDate::from_ymd_opt', ('chrono::Datelike::year', 'chrono::Datelike::month', 'chrono::Datelike::day'), 'some')
pair('chrono::NaiveTime::from_hms_nano_opt', ('chrono::Timelike::hour', 'chrono::Timelike::minute', 'chrono::Timelike::second', 'chrono::Timelike::nanosecond'), 'some')
pair('chrono::NaiveDateTime::new', ('chrono::NaiveDateTime::date', 'chrono::NaiveDateTime::time'), None)
pair('char::from_u32', 'char::to_u32', 'some')
pair('geo::Polygon::new', ('geo::Polygon::exterior', 'geo::Polygon::interiors'), None)
UNARY_ALIAS = {'std::ops::Deref::deref': None}


def accessor(I, st, c):
    """pure accessor of a library type"""
    return None


@model('chrono::offset::LocalResult::single', 'chrono::LocalResult::single')
def lr_single(I, st, c):
    a = I.nf(st, I.deep(st, c.args[0]))
    if a[0] == 'call' and a[1].endswith('TimeZone::timestamp_opt') and len(a[3]) == 3:
        x, y = a[3][1], a[3][2]
        if x[0] == 'call' and x[1] == 'chrono::DateTime::timestamp' and y[0] == 'call' and y[1] == 'chrono::DateTime::timestamp_subsec_nanos' and x[3] == y[3]:
            return ret(st, Some(x[3][0]))
    return None


@model('chrono::TimeDelta::new')
def td_new(I, st, c):
    s, n = (I.nf(st, I.deep(st, a)) for a in c.args)
    ks, ds = lin_parts(s)
    kn, dn = lin_parts(n)
    if len(ds) == 1 and len(dn) == 1:
        (x, a), (y, b) = next(iter(ds.items())), next(iter(dn.items()))
        while x[0] == 'cast':
            x = x[2]
        while y[0] == 'cast':
            y = y[2]
        if a == b == 1 and x[0] == 'call' and x[1] == 'chrono::TimeDelta::num_seconds' and y[0] == 'call' and y[1] == 'chrono::TimeDelta::subsec_nanos' and x[3] == y[3]:
            lo, hi = I.rng(y, st)
            if ks * 1000000000 + kn == 0 and lo + kn >= 0 and hi + kn < 1000000000:
                return ret(st, Some(x[3][0]))
    return None


def uncast(x):
    while x[0] == 'cast':
        x = x[2]
    return x


def dur_parts(t):
    """(seconds, nanoseconds) a std Duration term is made of"""
    if t[0] == 'call' and t[1] == 'std::time::Duration::from_secs':
        return t[3][0], C(0)
    if t[0] == 'call' and t[1] in ('std::time::Duration::from_nanos', 'std::time::Duration::from_nanos_u128'):
        return C(0), t[3][0]
    if t[0] == 'call' and t[1] == 'std::time::Duration::new':
        return t[3][0], t[3][1]
    return None


def dur_make(I, st, secs, nanos):
    x = inv_apply(I, st, ('std::time::Duration::as_secs', 'std::time::Duration::subsec_nanos'), [uncast(secs), uncast(nanos)])
    return x if x is not None else ('call', 'std::time::Duration::new', (), (secs, nanos))


def dur_fits(I, st, secs, nanos):
    """surely / perhaps / never within the range of Duration"""
    hs, hn = I.rng(secs, st)[1], I.rng(nanos, st)[1]
    return hs + hn // 1000000000 < 1 << 64


def leaves(t):
    if t[0] == 'call':
        return {y for x in t[3] for y in leaves(x)}
    return set() if t[0] in ('c', 'citem') else {t}


def may(I, st, what, t, ok, fail):
    """a partial operation: succeeds on one side, `fail` on the other"""
    a = ('fits', what, t, tuple(sorted(leaves(t))))
    for c in st.conds:
        if c == ('true', a):
            return ok(st)
        if c == ('false', a):
            return fail(st)
    s1, s2 = st, st.fork()
    I.assume(s1, ('true', a))
    I.assume(s2, ('false', a))
    return ok(s1) + fail(s2)


@model('std::time::Duration::new')
def dur_new(I, st, c):
    s, n = (I.nf(st, I.deep(st, a)) for a in c.args)
    v = dur_make(I, st, s, n)
    if v[1] != 'std::time::Duration::new' or dur_fits(I, st, s, n):
        return ret(st, v)
    return may(I, st, 'Duration', v, lambda z: ret(z, v), lambda z: [(z, 'panic', ('Duration::new overflows on out-of-range seconds and nanoseconds', c.sp))])


@model('std::time::Duration::checked_add')
def dur_cadd(I, st, c):
    a, b = (dur_parts(I.nf(st, I.deep(st, x))) for x in c.args)
    if not a or not b:
        return None
    s, n = add(uncast(a[0]), uncast(b[0])), add(uncast(a[1]), uncast(b[1]))
    v = dur_make(I, st, s, n)
    if v[1] != 'std::time::Duration::new' or dur_fits(I, st, s, n):
        return ret(st, Some(v))
    return may(I, st, 'Duration', v, lambda z: ret(z, Some(v)), lambda z: ret(z, NONE))


def since_epoch(a, b):
    if b[0] in ('okof', 'fld') and b[1][0] == 'call' and b[1][1] == 'std::time::SystemTime::duration_since' and b[1][3][1] == a:
        return b[1][3][0]


def time_plus(c, a, b, targs=()):
    return ('call', 'std::ops::Add::add', (), (a, b))


@model('std::ops::Add::add')
def ops_add(I, st, c):
    a, b = I.nf(st, I.deep(st, c.args[0])), I.nf(st, I.deep(st, c.args[1]))
    x = since_epoch(a, b)
    if x is not None:
        return ret(st, x)
    if c.ret[0] == 'adt' and c.ret[1] in ('std::time::SystemTime', 'std::time::Duration', 'std::time::Instant'):
        v = time_plus(c, a, b)
        return may(I, st, 'sum', v, lambda z: ret(z, v), lambda z: [(z, 'panic', ('the addition of a duration overflows', c.sp))])
    return None


@model('std::time::SystemTime::checked_add')
def st_cadd(I, st, c):
    a, b = I.nf(st, I.deep(st, c.args[0])), I.nf(st, I.deep(st, c.args[1]))
    x = since_epoch(a, b)
    if x is not None:
        return ret(st, Some(x))
    v = time_plus(c, a, b)
    return may(I, st, 'sum', v, lambda z: ret(z, Some(v)), lambda z: ret(z, NONE))


@last('serialize_into')
def ext_write(I, st, c):
    if not c.n.startswith('roaring::'):
        return None
    if I.find_bs(st, c.args[1]) is None:
        return None
    v = I.deep(st, c.args[0])
    lib = c.n.rsplit('::', 2)[0]
    I.emit(st, c.args[1], [('ext', lib, v)], c.sp)
    return ret(st, Ok(UNIT))


@last('deserialize_from', 'deserialize_unchecked_from')
def ext_read(I, st, c):
    if not c.n.startswith('roaring::'):
        return None
    loc, ch = head(I, st, c.args[0])
    lib = c.n.rsplit('::', 2)[0]
    if ch and ch[0][0] == 'ext' and ch[0][1].split('::')[:2] == lib.split('::')[:2]:
        I.store(st, loc[0], loc[1], ('bs', ch[1:]))
        return ret(st, Ok(ch[0][2]))
    raise A.Unsup('library decoder %s on %s' % (c.n, describe(I, ch)), c.sp)


@last('encode_utf8')
def encode_utf8(I, st, c):
    x = I.deep(st, c.args[0])
    out = []
    for n in (1, 2, 3, 4):
        s = st.fork() if n < 4 else st
        t = ('utf8len', x)
        I.assume(s, ('cmp', 'Eq', t, C(n)))
        bs = tuple(('ub', x, n, i) for i in range(n))
        for b in bs:
            I.termty[b] = 'u8'
        v = ('agg', 'array', 0, bs)
        out.append((s, 'ret', v))
    return out


@model('std::iter::Iterator::nth', 'core::str::Chars::next')
def no_nth(I, st, c):
    return None


def inv_dispatch(I, st, c):
    spec = INVERSE.get(c.n)
    if spec is None:
        return None
    f, wrap, _ = spec
    args = [I.nf(st, I.deep(st, a)) for a in c.args]
    x = inv_apply(I, st, f, args)
    if x is None:
        return None
    v = {'ok': Ok, 'some': Some, None: lambda y: y}[wrap](x)
    return ret(st, v)


def inv_apply(I, st, f, args):
    fs = f if isinstance(f, tuple) else (f,)
    if len(args) < len(fs):
        return None
    base = None
    if len(fs) == 1 and args[0] in (('vec', ()), ('bs', ())):
        for cc in st.conds:
            if cc[0] == 'cmp' and cc[2][0] == 'len' and cc[2][1][0] == 'call' and cc[2][1][1] == fs[0] and I.zero(st, cc[2]):
                return cc[2][1][3][0]
    for fn, a in zip(fs, args):
        if a[0] == 'agg' and a[1] == 'array' and len(fs) == 1:
            # all bytes of one accessor result
            if a[3] and a[3][0][0] == 'idx' and all(y[0] == 'idx' and y[1] == a[3][0][1] and y[2] == C(i) for i, y in enumerate(a[3])):
                a = a[3][0][1]
        while a[0] == 'cast':
            a = a[2]
        if a[0] == 'call' and a[1] == fn and len(a[3]) == 1:
            if base is None:
                base = a[3][0]
            elif base != a[3][0]:
                return None
        else:
            return None
    return base


_dispatch0 = dispatch


def dispatch(I, st, c):
    if I.nomodel and I.nomodel(c):
        return None
    if c.n in INVERSE:
        r = inv_dispatch(I, st, c)
        if r is not None:
            return r
    return _dispatch0(I, st, c)


# ---------------------------------------------------------------- simplify
FIRST_OF = {'geo::Polygon::new': ('geo::Polygon::exterior', 'geo::Polygon::interiors')}


def simplify(I, st, x):
    """one bottom-up rewriting step of a term"""
    if not x:
        return x
    k = x[0]
    if k == 'agg' and x[1] == 'std::borrow::Cow' and len(x[3]) == 1:
        y = x[3][0]
        if y[0] == 'fld' and y[3] == 0 and any(c[0] == 'isv' and c[1] == y[1] for c in st.conds):
            return y[1]
    if k == 'agg':
        f = x[3]
        if x[1] == 'array' and f and f[0][0] == 'idx' and all(y[0] == 'idx' and y[1] == f[0][1] and y[2] == C(i) for i, y in enumerate(f)):
            X = f[0][1]
            if I.length(st, X) == C(len(f)) or True:
                return X
        if f and x[1] != 'array' and not x[1].startswith('closure') and f[0][0] == 'fld':
            b = f[0][1]
            if all(y[0] == 'fld' and y[1] == b and y[2] == x[2] and y[3] == i for i, y in enumerate(f)):
                if x[1] == 'tuple' or is_struct(I, x[1], len(f)):
                    return b
                if any(c == ('isv', b, disc_of(I, x[1], x[2])) for c in st.conds):
                    return b
        return x
    if k == 'fld' and x[1][0] == 'agg' and isinstance(x[3], int) and x[3] < len(x[1][3]):
        return x[1][3][x[3]]
    if k == 'bs':
        ch = x[1]
        if len(ch) == 1 and ch[0][0] == 'raw':
            X = ch[0][1]
            if I.length(st, X) == ch[0][2]:
                return X
        if not ch:
            return ('vec', ())
        return x
    if k == 'frommem':
        b = x[1]
        if b[0] == 'mem':
            return b[2]
        if b[0] == 'bs' and len(b[1]) == 1 and b[1][0][0] == 'raw' and b[1][0][1][0] == 'mem':
            X = b[1][0][1][2]
            if I.length(st, X) == x[2]:
                return X
        return x
    if k == 'reinterp':
        if x[1][0] == 'mem':
            return x[1][2]
        b = x[1]
        if b[0] == 'bs' and len(b[1]) == 1 and b[1][0][0] == 'raw' and b[1][0][1][0] == 'mem':
            return b[1][0][1][2]
        return x
    if k == 'call' and x[1] in FIRST_OF and len(x[3]) == 2:
        a, b = FIRST_OF[x[1]]
        p0, p1 = x[3]
        if p0[0] == 'call' and p0[1] == a and len(p0[3]) == 1:
            y = ('call', b, p0[2], p0[3])
            if p1 == ('vec', ()) and any(c[0] == 'cmp' and c[2][0] == 'len' and c[2][1][0] == 'call' and c[2][1][1] == b and c[2][1][3] == p0[3] and I.zero(st, c[2]) for c in st.conds):
                return p0[3][0]
    if k == 'vec':
        p = x[1]
        if len(p) == 1 and p[0][0] == 'many':
            return p[0][1]
        if len(p) == 1 and p[0][0] == 'loop':
            lp = p[0]
            X = rebuilt(I, st, lp)
            if X is not None:
                return X
        return x
    return x


def disc_of(I, d, v):
    a = I.prog.adts.get(d)
    if a and a['variants'][v]['discr'] is not None:
        return int(a['variants'][v]['discr'])
    return v


def is_struct(I, d, n):
    a = I.prog.adts.get(d)
    return a is not None and a['kind'] == 'struct' and len(a['variants'][0]['fields']) == n


def rebuilt(I, st, lp):
    """a loop collecting exactly the elements of X in order is X"""
    alts = lp[3]
    Xs = set()
    for (g, parts) in alts:
        if len(parts) != 1 or parts[0][0] != 'one':
            return None
        v = parts[0][1]
        if v[0] == 'agg' and v[1] == 'tuple':
            b = v[3][0]
            if b[0] == 'fld' and all(y[0] == 'fld' and y[1] == b[1] and y[3] == i for i, y in enumerate(v[3])):
                v = b[1]
        if v[0] == 'item' and v[1][0] == 'perm':
            d = unperm(v[1])
            if d[0] != 'seq' or d[1] not in I.unordered:
                return None
            Xs.add(d[1])
            continue
        if v[0] != 'item' or v[1][0] != 'seq':
            return None
        Xs.add(v[1][1])
    if len(Xs) != 1:
        return None
    X = next(iter(Xs))
    n = I.count(st, lp[2])
    if n == I.length(st, X):
        return X
    return None
