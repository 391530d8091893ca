"""Path-sensitive effect inference over MIR.

The abstract state maps memory cells to terms.  Writers hold the byte sequence
written so far (a list of typed chunks), readers hold the byte sequence still
to be consumed.  Loops are summarised to a fixpoint of the cells they change;
branches fork on constraints over input terms; calls to library functions are
inlined, calls to codec trait methods are single typed chunks.
"""
import re
import collections
import itertools
from terms import *
from mir import subst as tsubst, show, unify, short

MAXDEPTH = 24
MAXSTEPS = 60000


class Mismatch(Exception):
    def __init__(self, why, sp=None):
        Exception.__init__(self, why)
        self.why, self.sp = why, sp


class Unsup(Exception):
    def __init__(self, why, sp=None):
        Exception.__init__(self, why)
        self.why, self.sp = why, sp


LINEAR = ('c', 'op', 'lin', 'p', 'item', 'len', 'psum', 'sum', 'sz', 'fld', 'byte', 'mul', 'frombytes', 'phi', 'idx')


def bounds_of(c):
    """(e, b) with e <= b, of an integer comparison"""
    _, op, x, y = c
    d = sub(x, y)
    n = scale(d, -1)
    return {'Lt': [(d, -1)], 'Le': [(d, 0)], 'Gt': [(n, -1)], 'Ge': [(n, 0)], 'Eq': [(d, 0), (n, 0)], 'Ne': []}[op]


class St:
    __slots__ = ('mem', 'conds', 'ty', 'log', 'free', 'done')

    def __init__(self):
        self.mem, self.conds, self.ty, self.log = {}, (), {}, ()
        self.done = ()        # loops this path has run to exhaustion
        self.free = True      # every assumption made so far is a feasible input choice

    def fork(self):
        s = St.__new__(St)
        s.mem = dict(self.mem)
        s.conds, s.ty, s.log, s.free, s.done = self.conds, self.ty, self.log, self.free, self.done
        return s


class TermTy(dict):
    """primitive type of integer terms; every element of an array of integers has one type"""

    def __init__(self):
        super().__init__()
        self.arr = {}

    def get(self, t, d=None):
        r = super().get(t)
        if r is None and t and t[0] == 'idx' and t[1] in self.arr:
            return self.arr[t[1]]
        return d if r is None else r

    def __contains__(self, t):
        return super().__contains__(t) or bool(t) and t[0] == 'idx' and t[1] in self.arr

    def __getitem__(self, t):
        r = self.get(t)
        if r is None:
            raise KeyError(t)
        return r


Loop = collections.namedtuple('Loop', 'fn header pre base driver counter latches others havoc')


class Frame:
    _n = itertools.count(1)

    def __init__(self, fn, sub, depth, caller=None):
        self.fn, self.sub, self.depth, self.caller = fn, sub, depth, caller
        self.id = next(Frame._n)

    def stack(self):
        f, out = self, []
        while f:
            out.append(f.fn.path)
            f = f.caller
        return out


class Call:
    __slots__ = ('n', 'd', 'key', 'targs', 'args', 'ret', 'sp', 'fr', 'trait', 'res', 'self')


_strip_cache = {}


def norm_path(p):
    r = _strip_cache.get(p)
    if r is not None:
        return r
    s, depth, out, i = p, 0, [], 0
    # remove "::<...>" generic segments and "<impl ...>" qualifiers
    while i < len(s):
        if s[i] == '<':
            depth += 1
        elif s[i] == '>' and s[i - 1] != '-':
            depth -= 1
        elif depth == 0:
            out.append(s[i])
        i += 1
    r = ''.join(out)
    while '::::' in r:
        r = r.replace('::::', '::')
    r = r.strip(':')
    for k in ('revision::',):
        if r.startswith(k):
            r = r[len(k):]
    _strip_cache[p] = r
    return r


# byte ranges of the UTF-8 encoding of a char, by (length, index)
UB = {(1, 0): (0, 0x7f), (2, 0): (0xc2, 0xdf), (3, 0): (0xe0, 0xef), (4, 0): (0xf0, 0xf4)}
for _n in (2, 3, 4):
    for _i in range(1, _n):
        UB[(_n, _i)] = (0x80, 0xbf)
CALLRANGE = {
    'chrono::TimeDelta::subsec_nanos': (-999999999, 999999999),
    'std::time::Duration::subsec_nanos': (0, 999999999),
    'chrono::DateTime::timestamp_subsec_nanos': (0, 1999999999),
    'chrono::Datelike::month': (1, 12),
    'chrono::Datelike::day': (1, 31),
    'chrono::Timelike::hour': (0, 23),
    'chrono::Timelike::minute': (0, 59),
    'chrono::Timelike::second': (0, 59),
    'chrono::Timelike::nanosecond': (0, 1999999999),
}
# accessors of an input that may take any value in their range
FREECALL = set(CALLRANGE) | {
    'std::time::Duration::as_secs', 'chrono::TimeDelta::num_seconds', 'chrono::DateTime::timestamp', 'chrono::Datelike::year',
    'regex::Regex::as_str', 'path_to_str', 'geo::Polygon::exterior', 'geo::Polygon::interiors', 'uuid::Uuid::as_bytes',
    'ordered_float::NotNan::into_inner', 'rust_decimal::Decimal::serialize', 'char::to_u32',
}

CODEC = {
    'serialize_revisioned': ('SerializeRevisioned', 'ser'),
    'deserialize_revisioned': ('DeserializeRevisioned', 'ser'),
    'skip_revisioned': ('SkipRevisioned', 'ser'),
    'skip_revisioned_slice': ('SkipRevisioned', 'ser'),
    'skip_check_revisioned': ('SkipCheckRevisioned', 'ser'),
    'serialize_revisioned_specialised': ('SerializeRevisionedSpecialised', 'spec'),
    'deserialize_revisioned_specialised': ('DeserializeRevisionedSpecialised', 'spec'),
    'serialize_indexed_map': ('IndexedMapEncoded', 'imap'),
    'deserialize_indexed_map': ('IndexedMapEncoded', 'imap'),
    'skip_indexed_map': ('IndexedMapEncoded', 'imap'),
    'serialize_indexed_seq': ('IndexedSeqEncoded', 'iseq'),
    'deserialize_indexed_seq': ('IndexedSeqEncoded', 'iseq'),
    'skip_indexed_seq': ('IndexedSeqEncoded', 'iseq'),
    'serialize_indexed_set': ('IndexedSetEncoded', 'iset'),
    'deserialize_indexed_set': ('IndexedSetEncoded', 'iset'),
    'skip_indexed_set': ('IndexedSetEncoded', 'iset'),
}
WRITE_TRAIT = {'ser': 'SerializeRevisioned', 'spec': 'SerializeRevisionedSpecialised',
               'imap': 'IndexedMapEncoded', 'iseq': 'IndexedSeqEncoded', 'iset': 'IndexedSetEncoded'}
WRITE_METHOD = {'ser': 'serialize_revisioned', 'spec': 'serialize_revisioned_specialised',
                'imap': 'serialize_indexed_map', 'iseq': 'serialize_indexed_seq', 'iset': 'serialize_indexed_set'}


def erase(t):
    """type without references / allocator args"""
    while t[0] == 'ref':
        t = t[2]
    if t[0] == 'adt':
        return ('adt', t[1], tuple(erase(a) for a in t[2] if a != ('adt', 'std::alloc::Global', ())))
    if t[0] == 'tuple':
        return ('tuple', tuple(erase(a) for a in t[1]))
    if t[0] in ('slice',):
        return ('slice', erase(t[1]))
    if t[0] == 'array':
        return ('array', erase(t[1]), t[2])
    return t


def independent(b):
    rows = []
    for s in b:
        v = frozenset(x for x in s if x != '1')
        if not s:
            continue
        if not v:
            return False
        while True:
            for piv, r in rows:
                if piv in v:
                    v = v ^ r
                    break
            else:
                break
        if not v:
            return False
        rows.append((next(iter(v)), v))
    return True


class Interp:
    def __init__(self, prog):
        self.prog = prog
        self.termty = TermTy()   # term -> primitive type name
        self.looplog = {}
        self.lens = {}           # term -> length term
        self.bitc = {}
        self.expanding, self.expandstack, self.csz, self.streams = [], [], {}, ()
        self.steps = 0
        self.loopn = itertools.count(1)
        self.celln = itertools.count(1)
        self.nomodel = None      # calls that must be inlined even if a summary of them exists
        self.hooks = None        # optional predicate(fnpath) -> opaque hook
        self.inlined = set()
        self.expand_cache = {}
        self.loopctx = []
        self.warn = []
        self.unordered = set()   # collections whose iteration order is no part of their value

    # ------------------------------------------------------------ domain
    def width(self, t):
        p = self.termty.get(t)
        if p:
            return W.get(p)
        if t[0] == 'byte':
            return 8
        if t[0] == 'len' or t[0] == 'sz':
            return 64
        if t[0] == 'cast':
            return W.get(t[1])
        if t[0] == 'op':
            return W.get(t[2])
        return None

    def rng(self, t, st=None):
        st = st or getattr(self, 'cur', None)
        k = t[0]
        if k == 'c':
            return (t[1], t[1])
        if k == 'lin':
            lo = hi = t[1]
            for x, c in t[2]:
                a, b = self.rng(x, st)
                if c >= 0:
                    lo, hi = lo + c * a, hi + c * b
                else:
                    lo, hi = lo + c * b, hi + c * a
            r = (lo, hi)
        elif k == 'byte':
            r = (0, 255)
        elif k in ('len', 'sz', 'szl', 'sum', 'psum'):
            r = (0, (1 << 63) - 1)
        elif k == 'cast':
            r = prim_range(t[1])
        elif k == 'mul':
            a, b = self.rng(t[1], st), self.rng(t[2], st)
            c = [x * y for x in a for y in b]
            r = (min(c), max(c))
        elif k == 'op' and t[2] in W:
            r = prim_range(t[2])
            if t[1] == 'BitAnd':
                for a in t[3:]:
                    l, h = self.rng(a, st)
                    if l >= 0:
                        r = (0, min(r[1], h))
            elif t[1] == 'Shr' and is_c(t[4]):
                l, h = self.rng(t[3], st)
                r = (l >> t[4][1], h >> t[4][1])
            elif t[1] in ('DivCeil', 'Div', 'Rem') and is_c(t[4]) and t[4][1] > 0:
                l, h = self.rng(t[3], st)
                n = t[4][1]
                if l >= 0:
                    r = (-(-l // n), -(-h // n)) if t[1] == 'DivCeil' else (l // n, h // n) if t[1] == 'Div' else (0, min(h, n - 1))
            elif t[2][0] == 'u':
                b = self.op_bits(t)
                if b is not None:
                    n = 0
                    for i, x in enumerate(b):
                        if x:
                            n = i + 1
                    r = (0, (1 << n) - 1)
        elif k == 'ub':
            r = UB[(t[2], t[3])]
        elif k == 'call' and t[1] in CALLRANGE:
            r = CALLRANGE[t[1]]
        elif k == 'item' and t[1][0] == 'range':
            lo, _ = self.rng(t[1][1], st)
            _, hi = self.rng(t[1][2], st)
            r = (lo, max(lo, hi - 1))
        elif t in self.termty:
            r = prim_range(self.termty[t])
        else:
            r = (-(1 << 128), 1 << 129)
        if t in self.termty and k not in ('item',):
            a, b = prim_range(self.termty[t])
            r = (max(r[0], a), min(r[1], b))
        if st is not None:
            lo, hi = r
            for c in st.conds:
                if c[0] == 'cmp' and c[2] == t and is_c(c[3]):
                    n = c[3][1]
                    if c[1] == 'Lt':
                        hi = min(hi, n - 1)
                    elif c[1] == 'Le':
                        hi = min(hi, n)
                    elif c[1] == 'Gt':
                        lo = max(lo, n + 1)
                    elif c[1] == 'Ge':
                        lo = max(lo, n)
                    elif c[1] == 'Eq':
                        lo, hi = max(lo, n), min(hi, n)
            for c in st.conds:
                if c[0] == 'cmp' and c[1] == 'Ne' and c[2] == t and is_c(c[3]):
                    if c[3][1] == lo:
                        lo += 1
                    elif c[3][1] == hi:
                        hi -= 1
            r = (lo, hi)
        return r

    def fixsz(self, st, t):
        """sizes of types whose encoding has one size only"""
        if t[0] not in ('sz', 'lin'):
            return t
        k, d = lin_parts(t)
        if not any(x[0] == 'sz' for x in d):
            return t
        import models
        r = C(k)
        for x, c in d.items():
            n = models.const_size(self, st, x[1], x[3]) if x[0] == 'sz' else None
            r = add(r, scale(x if n is None else C(n), c))
        return r

    NEG = {'Lt': 'Ge', 'Ge': 'Lt', 'Gt': 'Le', 'Le': 'Gt', 'Eq': 'Ne', 'Ne': 'Eq'}
    SWAP = {'Lt': 'Gt', 'Gt': 'Lt', 'Le': 'Ge', 'Ge': 'Le', 'Eq': 'Eq', 'Ne': 'Ne'}

    def cmp(self, st, op, a, b):
        """True / False / None"""
        if a == b and not mentions(a, lambda x: x[0] == 'nan'):
            return op in ('Le', 'Ge', 'Eq')
        a, b = self.fixsz(st, a), self.fixsz(st, b)
        d = None
        try:
            d = sub(a, b)
        except Exception:
            pass
        if a[0] == 'str' and b[0] == 'str' and op in ('Eq', 'Ne'):
            return (a[1] == b[1]) == (op == 'Eq')
        if d is not None and is_c(d):
            n = d[1]
            return {'Lt': n < 0, 'Le': n <= 0, 'Gt': n > 0, 'Ge': n >= 0, 'Eq': n == 0, 'Ne': n != 0}[op]
        la, ha = self.rng(a, st)
        lb, hb = self.rng(b, st)
        if op in ('Gt', 'Ge'):
            return self.cmp(st, self.SWAP[op], b, a)
        if op == 'Lt':
            if ha < lb:
                return True
            if la >= hb:
                return False
        elif op == 'Le':
            if ha <= lb:
                return True
            if la > hb:
                return False
        elif op in ('Eq', 'Ne'):
            if ha < lb or hb < la:
                return op == 'Ne'
            if la == ha == lb == hb:
                return op == 'Eq'
        if d is not None:
            lo, hi = self.rng(d, st)
            if op == 'Lt' and (hi < 0 or lo >= 0):
                return hi < 0
            if op == 'Le' and (hi <= 0 or lo > 0):
                return hi <= 0
            if op in ('Eq', 'Ne') and (hi < 0 or lo > 0):
                return op == 'Ne'
            r = self.sums(st, op, d)
            if r is None:
                r = self.implied(st, op, d)
            if r is not None:
                return r
        # recorded symbolic conditions
        for c in st.conds:
            if c[0] != 'cmp':
                continue
            for (o, x, y) in ((c[1], c[2], c[3]), (self.SWAP[c[1]], c[3], c[2])):
                if x == a and y == b:
                    if o == op:
                        return True
                    if o == self.NEG[op]:
                        return False
                    if o == 'Lt' and op in ('Le', 'Ne') or o == 'Gt' and op in ('Ge', 'Ne') or o == 'Eq' and op in ('Le', 'Ge'):
                        return True
                    if o == 'Lt' and op in ('Eq',) or o == 'Gt' and op == 'Eq' or o == 'Eq' and op in ('Lt', 'Gt', 'Ne'):
                        return False
        return None

    def sums(self, st, op, d):
        """d op 0 where d compares sums over the first iterations of one loop, every item taking a byte or more"""
        k, xs = lin_parts(d)
        if len(xs) != 2:
            return None
        (x, cx), (y, cy) = xs.items()
        if cx != -cy or {x[0], y[0]} - {'psum', 'sum'}:
            return None
        if cx < 0:
            x, y, cx = y, x, cy
        # d = k + cx * (x - y)
        if x[0] == 'psum' and y[0] == 'psum' and x[1:3] == y[1:3]:
            lt = self.cmp(st, 'Lt', x[3], y[3])
            if lt is None:
                return None
            lo, hi = (None, -1) if lt else (0, None)
            if not lt and self.cmp(st, 'Lt', y[3], x[3]):
                lo = 1
        elif x[0] == 'psum' and y[0] == 'sum' and unperm(x[1]) == y[1] and unperm(x[2]) == y[2]:
            lo, hi = None, -1 if self.cmp(st, 'Lt', x[3], self.count(st, x[2])) else 0
        elif y[0] == 'psum' and x[0] == 'sum' and unperm(y[1]) == x[1] and unperm(y[2]) == x[2]:
            lo, hi = 1 if self.cmp(st, 'Lt', y[3], self.count(st, y[2])) else 0, None
        else:
            return None
        lo = None if lo is None else k + cx * lo
        hi = None if hi is None else k + cx * hi
        if op == 'Lt':
            return True if hi is not None and hi < 0 else False if lo is not None and lo >= 0 else None
        if op == 'Le':
            return True if hi is not None and hi <= 0 else False if lo is not None and lo > 0 else None
        if op in ('Eq', 'Ne') and (hi is not None and hi < 0 or lo is not None and lo > 0):
            return op == 'Ne'
        return None

    def implied(self, st, op, d):
        """d op 0 from one recorded linear condition over the same quantities"""
        k, xs = lin_parts(d)
        if not any(c[0] == 'cmp' and c[2][0] in LINEAR and c[3][0] in LINEAR for c in st.conds) and not any(x[0] == 'item' and x[1][0] == 'range' or x[0] == 'op' for x in xs):
            return None
        if not xs or len(xs) > 8:
            return None
        if op in ('Eq', 'Ne'):
            if self.atmost(st, d, -1) or self.atmost(st, scale(d, -1), -1):
                return op == 'Ne'
            if self.atmost(st, d, 0) and self.atmost(st, scale(d, -1), 0):
                return op == 'Eq'
            return None
        z = -1 if op == 'Lt' else 0
        if self.atmost(st, d, z):
            return True
        if self.atmost(st, scale(d, -1), -1 - z):
            return False
        return None

    def atmost(self, st, d, z):
        """d <= z, given one recorded condition"""
        k, xs = lin_parts(d)
        facts = []
        for x in xs:
            if x[0] == 'item' and x[1][0] == 'range':
                facts += [('cmp', 'Lt', x, x[1][2]), ('cmp', 'Ge', x, x[1][1])]
            if x[0] == 'op' and x[1] == 'Div' and is_c(x[4]) and x[4][1] > 0 and self.rng(x[3], st)[0] >= 0:
                facts.append(('cmp', 'Lt' if x[4][1] > 1 and self.rng(x[3], st)[0] > 0 else 'Le', x, x[3]))
        for c in tuple(facts) + st.conds:
            if c[0] != 'cmp' or c[2][0] not in LINEAR or c[3][0] not in LINEAR:
                continue
            for e, b in bounds_of(c):       # e <= b
                for x, n in lin_parts(e)[1].items():
                    m = xs.get(x, 0)
                    if m and n and m % n == 0 and m // n > 0:
                        r = sub(d, scale(e, m // n))
                        if self.rng(r, st)[1] + b * (m // n) <= z:
                            return True
        return False

    freecalls = ()      # functions passed in, whose answers are anyone's choice

    def is_free(self, t):
        """a term whose value is an unconstrained input choice"""
        k = t[0]
        if k in ('p', 'c'):
            return True
        if k in ('fld', 'len', 'disc', 'idx', 'byte', 'cast', 'item'):
            return self.is_free(t[2] if k == 'cast' else t[1])
        if k == 'perm':
            return self.is_free(t[1])
        if k in ('seq', 'range'):
            return all(self.is_free(x) for x in t[1:])
        if k == 'call' and t[3] and t[3][0] in self.freecalls:
            return True
        if k == 'call' and t[1] in FREECALL:
            return all(self.is_free(x) for x in t[3])
        if k == 'utf8len':
            return self.is_free(t[1])
        if k == 'op' and t[2] in W:
            b = self.op_bits(t)
            if b is None:
                return False
            if not all(self.is_free(at[0]) for s in b for at in s if at != '1'):
                return False
            return independent(b)
        if k == 'lin':
            return len(t[2]) == 1 and self.is_free(t[2][0][0])
        return False

    def roomy(self, op, a, b):
        """a bound from above no small value can miss: sizes and lengths below 2^31 or more"""
        if op in ('Ge', 'Gt'):
            a, b, op = b, a, {'Ge': 'Le', 'Gt': 'Lt'}[op]
        if op not in ('Le', 'Lt') or not is_c(b) or b[1] < 1 << 31:
            return False
        k, d = lin_parts(a)
        return k < 1 << 20 and len(d) < 64 and all(x[0] in ('sz', 'len', 'szl', 'lenl', 'sum', 'psum') and 0 < c <= 64 for x, c in d.items())

    def assume(self, st, cond):
        st.conds = st.conds + (cond,)
        if cond[0] == 'cmp':
            _, op, a, b = cond
            if not ((self.is_free(a) and is_c(b)) or (self.is_free(b) and is_c(a)) or self.roomy(op, a, b)):
                st.free = False
        elif cond[0] in ('isv', 'notv'):
            if not self.is_free(cond[1]):
                st.free = False
        elif cond[0] == 'next':
            pass
        elif cond[0] == 'tyeq' or cond[0] == 'tyne':
            pass
        elif cond[0] in ('true', 'false') and cond[1][0] == 'fits' and all(x[0] == 'p' for x in cond[1][3]):
            pass
        else:
            st.free = False

    # ------------------------------------------------------------- memory
    def newcell(self, st, val):
        c = ('h', next(self.celln))
        st.mem[c] = val
        return c

    def proj(self, st, t, e):
        """project through ('f',v,i) or ('i',ix)"""
        if e[0] == 'f':
            _, v, i = e
            if t[0] == 'agg' and i < len(t[3]):
                return t[3][i]
            if t[0] == 'upd':
                if t[2] == (v or 0) and t[3] == i:
                    return t[4]
                return self.proj(st, t[1], e)
            if t[0] == 'uninit':
                return ('uninit',)
            return ('fld', t, v or 0, i)
        ix = e[1]
        return self.index(st, t, ix)

    def index(self, st, t, ix):
        if t[0] == 'agg' and is_c(ix) and 0 <= ix[1] < len(t[3]):
            return t[3][ix[1]]
        if t[0] == 'str' and is_c(ix) and 0 <= ix[1] < len(t[1]):
            return C(t[1][ix[1]])
        if t[0] == 'str':
            lo, hi = self.rng(ix, st)
            if 0 <= lo <= hi < len(t[1]) and len(set(t[1][lo:hi + 1])) == 1:
                return C(t[1][lo])
        if t[0] == 'repeat':
            return t[1]
        if t[0] == 'vec' and len(t[1]) == 1 and t[1][0][0] == 'loop' and not is_c(ix):
            lp = t[1][0]
            if len(lp[3]) == 1 and len(lp[3][0][1]) == 1 and lp[3][0][1][0][0] == 'one' and \
                    (ix[0] == 'item' and ix[1][0] == 'range' and ix[1][1] == C(0) and ix[1][2] == self.count(st, lp[2])):
                return self.at(st, lp[3][0][1][0][1], lp[2], lp[1], ix)
        if t[0] == 'bs' and is_c(ix):
            # byte ix of a known sequence
            n = ix[1]
            for ch in t[1]:
                if ch[0] == 'b':
                    if n == 0:
                        return ch[1]
                    n -= 1
                elif ch[0] == 'raw' and n == 0 and is_c(ch[2]):
                    return ('idx', ch[1], C(n))
                else:
                    break
        if t[0] == 'sub' and t[1][0] == 'bs':
            r = self.index(st, t[1], add(t[2], ix))
            return ('idx', t, ix) if r[0] == 'idx' else r
        if t[0] == 'bs':
            pre = C(0)
            for ch in t[1]:
                if ch[0] == 'loop':
                    r = self.iteration(st, ch, sub(ix, pre), add(sub(ix, pre), C(1)))
                    if r is not None and len(r) == 1 and r[0][0] == 'b':
                        return r[0][1]
                pre = add(pre, self.size(st, ch))
        return ('idx', t, ix)

    def load(self, st, cell, projs):
        t = st.mem.get(cell, ('uninit',))
        for e in projs:
            if e == 'd':
                t = self.deref(st, t)
            else:
                t = self.proj(st, t, e)
        return t

    def deref(self, st, t):
        if t[0] == 'ref':
            return self.load(st, t[1], t[2])
        return t

    def rderef(self, st, t):
        n = 0
        while t[0] == 'ref' and n < 20:
            t = self.deref(st, t)
            n += 1
        return t

    def deep(self, st, t, d=0):
        """resolve all references inside t"""
        if d > 40:
            return t
        if not isinstance(t, tuple):
            return t
        if t and t[0] == 'ref':
            return self.deep(st, self.deref(st, t), d + 1)
        if not any(isinstance(x, tuple) for x in t):
            return t
        return tuple(self.deep(st, x, d + 1) if isinstance(x, tuple) else x for x in t)

    def store(self, st, cell, projs, val):
        st.mem[cell] = self._upd(st, st.mem.get(cell, ('uninit',)), projs, val)

    def _upd(self, st, t, projs, val):
        if not projs:
            return val
        e, rest = projs[0], projs[1:]
        if e[0] == 'f':
            _, v, i = e
            if t[0] == 'agg' and i < len(t[3]):
                fs = list(t[3])
                fs[i] = self._upd(st, fs[i], rest, val)
                return ('agg', t[1], t[2], tuple(fs))
            return ('upd', t, v or 0, i, self._upd(st, self.proj(st, t, e), rest, val))
        ix = e[1]
        if t[0] == 'agg' and is_c(ix) and ix[1] < len(t[3]):
            fs = list(t[3])
            fs[ix[1]] = self._upd(st, fs[ix[1]], rest, val)
            return ('agg', t[1], t[2], tuple(fs))
        if t[0] == 'repeat' and is_c(ix) and is_c(t[2]) and t[2][1] <= 64:
            return self._upd(st, ('agg', 'array', 0, tuple([t[1]] * t[2][1])), projs, val)
        return ('updi', t, ix, val)

    # place -> ('loc', cell, projs) or ('val', term)
    def place(self, fr, st, pl):
        cur = ('loc', (fr.id, pl['l']), ())
        v = None
        for e in pl['p']:
            k = e[0]
            if k == 'deref':
                t = self.load(st, cur[1], cur[2]) if cur[0] == 'loc' else cur[1]
                if t[0] == 'ref':
                    cur = ('loc', t[1], t[2])
                elif cur[0] == 'loc' and t[0] in ('bs', 'vec', 'uninit', 'sorted') :
                    # transparent owner (Box) or by-value view: same location
                    cur = ('loc', cur[1], cur[2])
                else:
                    cur = ('val', t) if cur[0] == 'val' else ('loc', cur[1], cur[2])
                v = None
            elif k == 'downcast':
                v = e[1]
            elif k == 'field':
                pe = ('f', v, e[1])
                if cur[0] == 'loc':
                    cur = ('loc', cur[1], cur[2] + (pe,))
                    if self.boxes and e[1] < 16:
                        t = self.load(st, cur[1], cur[2])
                        if t[0] == 'boxed':
                            cur = ('loc', t[1], ())
                else:
                    cur = ('val', self.proj(st, cur[1], pe))
                v = None
            elif k in ('index', 'cindex'):
                if k == 'index':
                    ix = self.load(st, (fr.id, e[1]), ())
                else:
                    ix = C(e[1])
                    if e[3]:
                        t = self.load(st, cur[1], cur[2]) if cur[0] == 'loc' else cur[1]
                        ix = sub(self.length(st, t), C(e[1]))
                if cur[0] == 'loc':
                    cur = ('loc', cur[1], cur[2] + (('i', ix),))
                else:
                    cur = ('val', self.index(st, cur[1], ix))
            elif k == 'subslice':
                t = self.load(st, cur[1], cur[2]) if cur[0] == 'loc' else cur[1]
                hi = sub(self.length(st, t), C(e[2])) if e[3] else C(e[2])
                cur = ('val', self.subslice(st, t, C(e[1]), hi))
            else:
                raise Unsup('projection %s' % k)
        return cur

    def read(self, fr, st, pl):
        r = self.place(fr, st, pl)
        t = self.load(st, r[1], r[2]) if r[0] == 'loc' else r[1]
        ty = fr.fn.crate.ty(pl['t'])
        if ty[0] == 'param':
            ty = self.rty(st, ty, fr)
        self.note_ty(t, ty)
        return t

    def note_ty(self, t, ty):
        while ty[0] == 'ref':
            ty = ty[2]
        if ty[0] == 'prim' and (ty[1] in W) and t[0] not in ('c', 'ref', 'uninit', 'agg'):
            cur = self.termty.get(t)
            if t[0] == 'len' and ty[1] not in ('usize', 'u64'):
                return
            # one path may hold a value in a narrower type after checking that it fits: that is no fact of the value
            if cur not in W or W[ty[1]] < W[cur] and t[0] in ('phi', 'post'):
                self.termty[t] = ty[1]
        elif ty[0] == 'prim' and ty[1] == 'str' or ty[0] == 'adt' and ty[1].endswith('string::String'):
            if t[0] in ('p', 'fld', 'item', 'call', 'idx'):
                self.termty.setdefault(t, 'str')

    def note_len(self, t, ty):
        while ty[0] == 'ref':
            ty = ty[2]
        if ty[0] == 'array' and str(ty[2]).isdigit():
            self.lens.setdefault(t, C(int(ty[2])))

    # -------------------------------------------------------------- types
    def rty(self, st, t, fr=None):
        if fr is not None and fr.sub:
            t = tsubst(t, fr.sub)
        if st is not None and st.ty:
            t = tsubst(t, st.ty)
        return t

    # --------------------------------------------------------- sizes, lens
    def count(self, st, d):
        k = d[0]
        if k == 'range':
            return sub(d[2], d[1])
        if k == 'seq':
            return self.length(st, d[1])
        if k in ('enum', 'map', 'rev', 'peekable', 'perm'):
            return self.count(st, d[1])
        if k == 'zip':
            return self.count(st, d[1])
        if k == 'count':
            return d[1]
        if k == 'skipped':
            n = self.count(st, d[1])
            if self.cmp(st, 'Le', d[2], n) is True:
                return sub(n, d[2])
        if k == 'chunks' and d[3] == 'chunks':
            n = self.length(st, d[1])
            if is_c(n) and is_c(d[2]):
                return C(-(-n[1] // d[2][1]))
            t = ('op', 'DivCeil', 'usize', n, d[2])
            self.note_ty(t, ('prim', 'usize'))
            return t
        return ('count', d)

    def zero(self, st, t):
        if is_c(t):
            return t[1] == 0
        return self.rng(t, st)[1] <= 0

    def drop_empty(self, st, chunks):
        """remove leading chunks that are known to hold no bytes"""
        i = 0
        while i < len(chunks):
            h = chunks[i]
            if h[0] == 'raw' and self.zero(st, h[2]):
                i += 1
            elif h[0] == 'loop' and self.zero(st, self.count(st, h[2])):
                i += 1
            else:
                break
        return chunks[i:]

    def length(self, st, t):
        t = self.rderef(st, t)
        k = t[0]
        if t in self.lens:
            return self.lens[t]
        if k == 'str':
            return C(len(t[1]))
        if k == 'agg' and t[1] == 'array':
            return C(len(t[3]))
        if k == 'repeat':
            return t[2]
        if k == 'bs':
            n = C(0)
            for ch in t[1]:
                n = add(n, self.size(st, ch))
            return n
        if k == 'vec':
            n = C(0)
            for p in t[1]:
                if p[0] == 'one':
                    n = add(n, C(1))
                elif p[0] == 'loop':
                    alts = p[3]
                    cs = set()
                    for a in alts:
                        cs.add(self.length(st, ('vec', a[1])))
                    if len(cs) == 1 and is_c(next(iter(cs))):
                        n = add(n, mul(next(iter(cs)), self.count(st, p[2])))
                    else:
                        n = add(n, ('lenl', p[1]))
                elif p[0] == 'many':
                    n = add(n, self.length(st, p[1]))
                elif p[0] == 'fill':
                    n = add(n, p[2])
                else:
                    n = add(n, ('len', p))
            return n
        if k == 'sorted':
            return self.length(st, t[1])
        if k == 'sub' or k == 'submut':
            return sub(t[3], t[2])
        if k == 'frommem':
            return t[2]
        if k == 'memview':
            return t[2]
        return ('len', t)

    def size(self, st, ch):
        k = ch[0]
        if k == 'b':
            return C(1)
        if k == 'raw':
            return ch[2]
        if k == 'nt':
            t = erase(ch[1])
            if t in (('prim', 'u8'), ('prim', 'i8'), ('prim', 'bool')) and ch[3] == 'ser':
                return C(1)
            return ('sz', t, ch[2], ch[3])
        if k == 'loop':
            ss = set()
            for a in ch[3]:
                n = C(0)
                for c in a[1]:
                    n = add(n, self.size(st, c))
                ss.add(n)
            if len(ss) == 1:
                return self.total(st, next(iter(ss)), ch[2], ch[1])
            return ('szl', ch[1])
        if k == 'iter' or k == 'endit':
            return C(0)
        if k == 'cut':
            return ch[2]
        return ('sz?', ch)

    # ------------------------------------------- sums over the iterations of a loop
    def canon_driver(self, d):
        while True:
            if d[0] in ('enum', 'map', 'peekable', 'zip'):
                d = d[1]
            elif d[0] == 'seq' and d[1][0] == 'vec' and len(d[1][1]) == 1 and d[1][1][0][0] == 'loop' and \
                    len(d[1][1][0][3]) == 1 and len(d[1][1][0][3][0][1]) == 1 and d[1][1][0][3][0][1][0][0] == 'one':
                d = d[1][1][0][2]
            elif d[0] == 'perm':
                return ('perm', self.canon_driver(d[1]), d[2])
            else:
                return d

    def total(self, st, d, driver, lid):
        """sum of d over all iterations"""
        k, xs = lin_parts(d)
        n = self.count(st, driver)
        r = mul(C(k), n)
        D = unperm(self.canon_driver(driver))
        for x, c in xs.items():
            if not mentions(x, lambda y: len(y) > 2 and y[0] == 'item' and y[2] == lid):
                r = add(r, scale(mul(x, n), c))
                continue
            x = unperm(relabel(x, lid, 'sum'))
            if self.fixsz(st, x) != x:
                r = add(r, scale(mul(self.fixsz(st, x), n), c))
            else:
                r = add(r, scale(('sum', x, D), c))
        return r

    def partial(self, st, d, driver, lid, pos):
        """sum of d over the iterations before position pos"""
        k, xs = lin_parts(d)
        r = scale(pos, k)
        D = self.canon_driver(driver)
        for x, c in xs.items():
            if not mentions(x, lambda y: len(y) > 2 and y[0] == 'item' and y[2] == lid):
                r = add(r, scale(mul(x, pos), c))
                continue
            x = relabel(x, lid, 'sum')
            if self.fixsz(st, x) != x:
                r = add(r, scale(mul(self.fixsz(st, x), pos), c))
            elif pos == C(0):
                pass
            elif pos == self.count(st, driver):
                r = add(r, scale(('sum', unperm(x), unperm(D)), c))
            else:
                r = add(r, scale(('psum', x, D, pos), c))
        return r

    def position(self, st, driver, lid):
        if driver[0] == 'range' and driver[1] == C(0):
            t = ('item', driver, lid, 0)
        else:
            t = ('item', ('range', C(0), self.count(st, driver)), lid, 0)
        self.termty.setdefault(t, 'usize')
        return t

    def at(self, st, t, driver, lid, pos):
        """what a term that belongs to one iteration is at position pos"""
        tys = {}
        mentions(t, lambda x: len(x) == 4 and x[0] == 'psum' and x in self.termty and tys.setdefault(x[1:3], self.termty[x]) and False)
        if pos[0] == 'item' and pos[1][0] == 'range' and pos[1][1] == C(0) and pos[1][2] == self.count(st, driver):
            t = relabel(t, lid, pos[2])
            mentions(t, lambda x: len(x) == 4 and x[0] == 'psum' and x[1:3] in tys and self.termty.setdefault(x, tys[x[1:3]]) and False)
            return t
        n = self.count(st, driver)

        def f(x):
            if len(x) > 2 and x[0] == 'item' and x[2] == lid:
                if x[1][0] == 'range' and x[1][1] == C(0) and x[1][2] == n:
                    return pos
                return ('elem', x[1], pos)
            if x[0] == 'psum' and x[3] == C(0):
                return C(0)
            if x[0] == 'psum' and x[1:3] in tys:
                self.termty.setdefault(x, tys[x[1:3]])
            return x
        return tmap(t, f)

    def iteration(self, st, lp, lo, hi):
        """bytes lo..hi of a byte loop, when they lie within one iteration: chunks or None"""
        _, lid, driver, alts = lp
        if len(alts) != 1:
            return None
        z = C(0)
        for c in alts[0][1]:
            z = add(z, self.size(st, c))
        if is_c(z) and z[1] > 0:
            d = sub(hi, lo)
            if not is_c(d):
                return None
            k, xs = lin_parts(lo)
            if any(c % z[1] for c in xs.values()):
                return None
            pos = mk_lin(k // z[1], {x: c // z[1] for x, c in xs.items()})
            off = k % z[1]
            if off + d[1] > z[1] or not self.nonneg(st, pos):
                return None
            if self.cmp(st, 'Lt', pos, self.count(st, driver)) is not True:
                return None
            try:
                _, rest = self.split(st, alts[0][1], C(off))
                mid, _ = self.split(st, rest, d)
            except Mismatch:
                return None
            return tuple(self.at(st, x, driver, lid, pos) for x in mid)
        pos = self.where(st, lp, z, lo)
        if pos is None or not self.nonneg(st, pos):
            return None
        nxt = add(pos, C(1))
        n = self.count(st, driver)
        if nxt != n and self.cmp(st, 'Eq', nxt, n) is True:
            nxt = n
        if hi != self.partial(st, z, driver, lid, nxt):
            return None
        return tuple(self.at(st, x, driver, lid, pos) for x in alts[0][1])

    def where(self, st, lp, z, off):
        """the position whose iteration starts at byte off"""
        _, lid, driver, alts = lp
        if off == C(0):
            return C(0)
        for x in lin_parts(off)[1]:
            if x[0] == 'psum' and self.partial(st, z, driver, lid, x[3]) == off:
                return x[3]
        return None

    def subslice(self, st, t, lo, hi):
        t = self.rderef(st, t)
        n = self.length(st, t)
        if t[0] == 'bs' and lo != C(0):
            # within one iteration of a repeated layout, possibly after a fixed prefix
            pre = C(0)
            for ch in t[1]:
                if ch[0] == 'loop':
                    r = self.iteration(st, ch, sub(lo, pre), sub(hi, pre))
                    if r is not None:
                        return ('bs', r)
                pre = add(pre, self.size(st, ch))
        elif t[0] == 'bs' and t[1] and t[1][0][0] == 'loop' and hi != n:
            r = self.iteration(st, t[1][0], lo, hi)
            if r is not None:
                return ('bs', r)
        if lo == C(0) and hi == n:
            return t
        if t[0] == 'agg' and is_c(lo) and is_c(hi) and 0 <= lo[1] <= hi[1] <= len(t[3]):
            return ('agg', t[1], t[2], t[3][lo[1]:hi[1]])
        if t[0] == 'bs':
            try:
                rs = self.split(st, t[1], lo, expand=False)
                pre, rest = rs
                mid, _ = self.split(st, rest, sub(hi, lo), expand=False)
                return ('bs', tuple(mid))
            except Mismatch:
                pass
        return ('sub', t, lo, hi)

    # ------------------------------------------------------ stream algebra
    def split(self, st, chunks, n, expand=False):
        """split a chunk list after n bytes without expanding typed chunks"""
        out, rem = [], n
        chunks = list(chunks)
        while True:
            if rem == C(0):
                return out, chunks
            if not chunks:
                raise Mismatch('needs %s more bytes than were written' % tshow(rem))
            s = self.size(st, chunks[0])
            r = sub(rem, s)
            if self.nonneg(st, r):
                out.append(chunks.pop(0))
                rem = r
                continue
            if chunks[0][0] == 'raw' and is_c(chunks[0][2]) and is_c(rem):
                X, m = chunks[0][1], chunks[0][2][1]
                k = rem[1]
                out.extend(('b', self.index(st, X, C(i))) for i in range(k))
                chunks[0:1] = [('b', self.index(st, X, C(i))) for i in range(k, m)]
                return out, chunks
            if chunks[0][0] == 'cut':
                pass
            raise Mismatch('cannot split %s at %s' % (tshow(chunks[0]), tshow(rem)))

    def nonneg(self, st, t):
        if is_c(t):
            return t[1] >= 0
        k, d = lin_parts(t)
        if k >= 0 and all(c > 0 for c in d.values()) and all(self.rng(x, st)[0] >= 0 for x in d):
            return True
        return self.rng(t, st)[0] >= 0

    def canon_chunks(self, chunks):
        return tuple(chunks)

    # find the byte sequence behind a reader / writer / slice value
    def find_bs(self, st, t):
        """-> (cell, projs) of the location holding a ('bs',..) value, or None"""
        loc = None
        n = 0
        while n < 20:
            n += 1
            if t[0] == 'ref':
                loc = (t[1], t[2])
                t = self.load(st, t[1], t[2])
                continue
            if t[0] == 'bs':
                return loc
            if t[0] == 'vec' and loc is not None:
                # a Vec<u8> used as a writer
                b = self.vec_as_bytes(t)
                if b is not None:
                    st.mem[loc[0]] = self._upd(st, st.mem[loc[0]], loc[1], b)
                    return loc
                return None
            if t[0] == 'agg' and t[1] == 'array' and n > 2 and loc is not None:
                # bytes already taken one by one, used as a reader
                st.mem[loc[0]] = self._upd(st, st.mem[loc[0]], loc[1], ('bs', tuple(('b', x) for x in t[3])))
                return loc
            return None
        return None

    def vec_as_bytes(self, t):
        out = []
        for p in t[1]:
            if p[0] == 'one':
                out.append(('b', p[1]))
            elif p[0] == 'loop':
                alts = []
                for a in p[3]:
                    b = self.vec_as_bytes(('vec', a[1]))
                    if b is None:
                        return None
                    alts.append((a[0], b[1]))
                out.append(('loop', p[1], p[2], tuple(alts)))
            elif p[0] == 'phi':
                out.append(p)
            elif p[0] == 'many':
                out.append(('raw', p[1], self.length(None, p[1])))
            elif p[0] == 'fill':
                out.append(('raw', ('repeat', p[1], p[2]), p[2]))
            else:
                return None
        return ('bs', tuple(out))

    # ---------------------------------------------------------- producers
    def emit(self, st, w, chunks, sp):
        loc = self.find_bs(st, w)
        if loc is None:
            raise Unsup('write to unknown writer %s' % tshow(w), sp)
        cur = self.load(st, *loc)
        self.store(st, loc[0], loc[1], ('bs', cur[1] + tuple(chunks)))

    def as_chunks(self, st, t):
        """chunks of a byte-slice value"""
        t = self.rderef(st, t)
        k = t[0]
        if k == 'bs':
            return list(t[1])
        if k == 'str':
            return [('b', C(b)) for b in t[1]]
        if k == 'agg' and t[1] == 'array':
            return [('b', self.deep(st, x)) for x in t[3]]
        if k == 'vec':
            b = self.vec_as_bytes(t)
            if b is not None:
                return list(b[1])
        if k == 'repeat' and is_c(t[2]) and t[2][1] <= 64:
            return [('b', t[1])] * t[2][1]
        if k == 'sub':
            return [('raw', self.deep(st, t), sub(t[3], t[2]))]
        return [('raw', self.deep(st, t), self.length(st, t))]

    # ------------------------------------------------------------ running
    def run_fn(self, fn, sub_, args, st, depth=0, caller=None):
        """-> list of (state, kind, value); kind in ret/panic/bad/unsup"""
        if depth > MAXDEPTH:
            return [(st, 'unsup', ('inlining depth', fn.sp))]
        self.inlined.add(fn.key)
        fr = Frame(fn, sub_, depth, caller)
        for i, a in enumerate(args):
            st.mem[(fr.id, i + 1)] = a
            ty = self.rty(st, fn.local_ty(i + 1), fr)
            self.note_ty(a, ty)
        res = []
        for (kind, tgt, s, val) in self.region(fr, 0, st, None, None):
            # a returned reference into the dead frame is resolved by value
            if kind == 'ret':
                val = self.escape(s, fr, val)
                s2 = s
                for c, v in list(s2.mem.items()):
                    # what outlives the frame must not point into it
                    if c[0] != fr.id and (v[0] == 'ref' and v[1][0] == fr.id or v[0] in ('agg', 'upd') and any(x[0] == 'ref' and x[1][0] == fr.id for x in (v[3] if v[0] == 'agg' else v[4:]) if isinstance(x, tuple) and x)):
                        s2.mem[c] = self.escape(s2, fr, v)
                for c in [c for c in s2.mem if c[0] == fr.id]:
                    del s2.mem[c]
                res.append((s2, 'ret', val))
            else:
                res.append((s, kind, val))
        return res

    def escape(self, st, fr, val, d=0):
        """move frame-local memory still referenced by a result to the heap"""
        if not isinstance(val, tuple) or d > 30:
            return val
        if val and val[0] == 'ref' and val[1][0] == fr.id:
            c = ('h', 'esc', val[1])
            if c not in st.mem:
                st.mem[c] = ('uninit',)
                st.mem[c] = self.escape(st, fr, st.mem.get(val[1], ('uninit',)), d + 1)
            return ('ref', c, val[2])
        if not any(isinstance(x, tuple) for x in val):
            return val
        return tuple(self.escape(st, fr, x, d + 1) if isinstance(x, tuple) else x for x in val)

    def region(self, fr, bb, st, header, body):
        """explore from bb; yields (kind, target, state, value):
        latch (reached header again), exit (left body), ret, panic, bad, unsup"""
        out = []
        work = [(bb, st)]
        loops = fr.fn.loops()
        first = True
        while work:
            b, s = work.pop()
            if not first:
                if header is not None and b == header:
                    out.append(('latch', b, s, None))
                    continue
                if body is not None and b not in body:
                    out.append(('exit', b, s, None))
                    continue
            if b in loops and not (first and b == header):
                first = False
                try:
                    for (k, tgt, s2, v) in self.loop(fr, b, s):
                        if k == 'exit':
                            work.append((tgt, s2))
                        else:
                            out.append((k, tgt, s2, v))
                except Mismatch as e:
                    out.append(('bad', None, s, (e.why, e.sp)))
                except Unsup as e:
                    out.append(('unsup', None, s, (e.why, e.sp)))
                continue
            first = False
            self.steps += 1
            if self.steps > MAXSTEPS:
                out.append(('unsup', None, s, ('step budget', fr.fn.sp)))
                return out
            blk = fr.fn.blocks[b]
            try:
                self.cur = s
                for stm in blk['s']:
                    self.stmt(fr, s, stm)
                for (k, tgt, s2, v) in self.term(fr, s, blk['t']):
                    if k == 'go':
                        work.append((tgt, s2))
                    else:
                        out.append((k, tgt, s2, v))
            except Mismatch as e:
                out.append(('bad', None, s, (e.why, e.sp or blk['t']['sp'])))
            except Unsup as e:
                out.append(('unsup', None, s, (e.why, e.sp or blk['t']['sp'])))
        return out

    # --------------------------------------------------------- statements
    def stmt(self, fr, st, s):
        if 'rv' not in s:
            return
        v = self.rvalue(fr, st, s['rv'], s)
        self.write(fr, st, s['pl'], v)

    def write(self, fr, st, pl, v):
        r = self.place(fr, st, pl)
        if r[0] == 'loc':
            self.store(st, r[1], r[2], v)
        ty = fr.fn.crate.ty(pl['t'])
        if ty[0] == 'param':
            ty = self.rty(st, ty, fr)
        self.note_ty(v, ty)

    def operand(self, fr, st, o):
        k = o['k']
        if k in ('copy', 'move'):
            return self.read(fr, st, o['pl'])
        if k == 'const':
            return self.const(fr, st, o)
        return ('c', 0)   # runtime checks off

    def const(self, fr, st, o):
        if 'fn' in o:
            f = o['fn']
            targs = tuple(self.rty(st, fr.fn.crate.arg(a), fr) for a in f['args'])
            return ('fn', f['key'], f['def'], targs, fr.fn.crate.name)
        ty = self.rty(st, fr.fn.crate.ty(o['t']), fr)
        if 'int' in o:
            if ty[0] == 'adt':
                a = self.prog.adts.get(ty[1])
                if a and a['kind'] == 'enum':
                    for i, v in enumerate(a['variants']):
                        if v['discr'] is not None and int(v['discr']) == int(o['int']) and not v['fields']:
                            return agg(ty[1], i, ())
                return ('const', o.get('s', ''), show(ty))
            return C(int(o['int']))
        if 'bytes' in o:
            return ('str', bytes(o['bytes']))
        if 'promoted' in o:
            return self.promoted(fr, st, o)
        if 'mem' in o:
            x = ty
            while x[0] == 'ref':
                x = x[2]
            if x[0] == 'array' and x[1] == ('prim', 'u8') or x == ('prim', 'str') or x == ('slice', ('prim', 'u8')):
                return ('str', bytes(o['mem']))
        if 'tyconst' in o:
            r = fr.sub.get(o['tyconst']) if fr.sub else None
            if r and r[0] == 'const' and str(r[1]).isdigit():
                return C(int(r[1]))
            t = ('p', 'const ' + o['tyconst'])
            self.note_ty(t, ty)
            return t
        if 'item' in o:
            t = ('citem', o['item'], tuple(self.rty(st, fr.fn.crate.arg(a), fr) for a in o.get('iargs', [])))
            self.note_ty(t, ty)
            return t
        if ty == ('tuple', ()):
            return UNIT
        if ty[0] == 'closure':
            return ('agg', 'closure:' + ty[1], 0, ())
        if ty[0] == 'fndef':
            return ('fn', ty[1], ty[2], ty[3], fr.fn.crate.name)
        if ty[0] == 'adt':
            s = o.get('s', '')
            if ty[1] == OPT and s.endswith('None'):
                return NONE
            a = self.prog.adts.get(ty[1])
            if a and a['kind'] == 'enum':
                for i, v in enumerate(a['variants']):
                    if not v['fields'] and s.split('::')[-1].split('<')[0] == v['name']:
                        return agg(ty[1], i, ())
            if a and a['kind'] == 'struct' and not a['variants'][0]['fields']:
                return agg(ty[1], 0, ())
        return ('const', o.get('s', ''), show(ty))

    def promoted(self, fr, st, o):
        owner = self.prog.fns.get(o.get('pkey')) or fr.fn
        ps = owner.b.get('promoted') or []
        if o['promoted'] >= len(ps):
            return ('const', 'promoted', '')
        pb = PromFn(owner, ps[o['promoted']])
        s2 = st
        f2 = Frame(pb, fr.sub, fr.depth + 1, fr)
        for blk in pb.blocks:
            for stm in blk['s']:
                self.stmt(f2, s2, stm)
            if blk['t']['k'] == 'call':
                return ('const', 'promoted-call', '')
        v = s2.mem.get((f2.id, 0), ('uninit',))
        v = self.escape(s2, f2, v)
        for c in [c for c in s2.mem if c[0] == f2.id]:
            del s2.mem[c]
        return v

    def rvalue(self, fr, st, rv, s):
        k = rv['k']
        if k == 'use':
            return self.operand(fr, st, rv['o'])
        if k == 'ref' or k == 'rawptr':
            r = self.place(fr, st, rv['pl'])
            if r[0] == 'val':
                return r[1]
            return ('ref', r[1], r[2])
        if k == 'cast':
            return self.cast(fr, st, rv)
        if k == 'bin':
            return self.binop(fr, st, rv)
        if k == 'un':
            a = self.operand(fr, st, rv['o'])
            op = rv['op']
            if op == 'Not':
                ty = fr.fn.crate.ty(rv['t'])
                if ty == ('prim', 'bool'):
                    return self.bnot(a)
                if ty[0] == 'prim' and is_c(a):
                    lo, hi = prim_range(ty[1])
                    return C(hi + lo - a[1]) if lo == 0 else C(~a[1])
                return ('op', 'Not', ty[1], a)
            if op == 'Neg':
                return scale(a, -1)
            if op == 'PtrMetadata':
                return self.length(st, a)
            return ('un', op, a)
        if k == 'discr':
            t = self.read(fr, st, rv['pl'])
            return self.discr(st, t)
        if k == 'agg':
            ops = [self.operand(fr, st, o) for o in rv['ops']]
            ak = rv['ak']
            if ak == 'array':
                return ('agg', 'array', 0, tuple(ops))
            if ak == 'tuple':
                return tup(*ops)
            if ak == 'adt':
                if rv.get('union'):
                    return ('union', rv['def'], tuple(ops))
                return agg(rv['def'], rv['v'], ops)
            if ak == 'closure':
                v = ('agg', 'closure:' + rv['key'], 0, tuple(ops))
                if fr.sub:
                    v = ('agg', 'closure:' + rv['key'], 0, tuple(ops), tuple(sorted(fr.sub.items())))
                return v
            return ('agg', ak, 0, tuple(ops))
        if k == 'repeat':
            o = self.operand(fr, st, rv['o'])
            n = rv['n']
            m = re.match(r'^(\d+)(?:_usize)?$', str(n))
            if m:
                nn = C(int(m.group(1)))
            elif fr.sub and n in fr.sub and fr.sub[n][0] == 'const' and str(fr.sub[n][1]).isdigit():
                nn = C(int(fr.sub[n][1]))
            else:
                nn = ('p', 'const ' + n)
                self.termty[nn] = 'usize'
            if is_c(nn) and nn[1] <= 64:
                return ('agg', 'array', 0, tuple([o] * nn[1]))
            return ('repeat', o, nn)
        return ('rv', k, rv.get('s', ''))

    def bnot(self, a):
        if is_c(a):
            return C(1 - a[1])
        if a[0] == 'cmp':
            return ('cmp', self.NEG[a[1]], a[2], a[3])
        if a[0] == 'not':
            return a[1]
        return ('not', a)

    def discr(self, st, t):
        t = self.rderef(st, t)
        if t[0] == 'agg':
            a = self.prog.adts.get(t[1])
            if a and a['kind'] == 'enum':
                d = a['variants'][t[2]]['discr']
                if d is not None:
                    return C(int(d))
            return C(t[2])
        for c in st.conds:
            if c[0] == 'isv' and c[1] == t:
                return C(c[2])
        return ('disc', t)

    def cast(self, fr, st, rv):
        a = self.operand(fr, st, rv['o'])
        frm = self.rty(st, fr.fn.crate.ty(rv['from']), fr)
        to = self.rty(st, fr.fn.crate.ty(rv['to']), fr)
        ck = rv['ck']
        if ck == 'IntToInt' and to[0] == 'prim':
            if frm[0] == 'adt':       # fieldless enum
                a = self.discr(st, a)
            return self.intcast(st, a, to[1], frm[1] if frm[0] == 'prim' else None)
        if 'Unsize' in ck:
            f2, t2 = frm, to
            while f2[0] in ('ref', 'ptr'):
                f2 = f2[2]
            if f2[0] == 'array':
                x = self.rderef(st, a)
                n = f2[2]
                if str(n).isdigit():
                    if x[0] in ('p', 'fld', 'call', 'idx', 'item'):
                        self.lens.setdefault(x, C(int(n)))
            return a
        return a

    def canon(self, st, t, p):
        """replace a bit-level expression by the input it is equal to"""
        if p not in W or t[0] in ('c', 'p', 'fld', 'item', 'byte', 'idx', 'len', 'phi', 'post', 'call'):
            return t
        if not mentions(t, lambda x: x and x[0] == 'op'):
            return t
        self.cur = st
        try:
            b = bits(t, W[p], self)
        except Exception:
            return t
        if b is None:
            return t
        atoms = {at[0] for s in b for at in s if at != '1'}
        if not atoms:
            n = sum((1 << i) for i, s in enumerate(b) if s)
            if p[0] == 'i' and n >> (W[p] - 1):
                n -= 1 << W[p]
            return C(n)
        if len(atoms) == 1:
            a = next(iter(atoms))
            try:
                if bits(a, W[p], self) == b:
                    return a
            except Exception:
                pass
        return t

    def op_bits(self, t):
        key = t
        r = self.bitc.get(key, 0)
        if r == 0:
            cur, self.cur = getattr(self, 'cur', None), None
            try:
                r = bits(t, W[t[2]], self)
            except Exception:
                r = None
            self.cur = cur
            self.bitc[key] = r
        return r

    def intcast(self, st, a, to, frm=None):
        a = self.intcast0(st, a, to, frm)
        return self.canon(st, a, to)

    def intcast0(self, st, a, to, frm=None):
        lo, hi = prim_range(to)
        if frm and a[0] not in ('c',):
            self.note_ty(a, ('prim', frm))
        l, h = self.rng(a, st)
        f = self.fixsz(st, a)
        if f != a:
            l, h = max(l, self.rng(f, st)[0]), min(h, self.rng(f, st)[1])
        if is_c(a):
            n = a[1] & ((1 << W[to]) - 1)
            if to[0] == 'i' and n >> (W[to] - 1):
                n -= 1 << W[to]
            return C(n)
        if lo <= l and h <= hi:
            return a
        if a[0] == 'cast' and W[a[1]] >= W[to]:
            return self.intcast(st, a[2], to)
        return ('cast', to, a)

    def binop(self, fr, st, rv):
        a = self.operand(fr, st, rv['a'])
        b = self.operand(fr, st, rv['b'])
        op = rv['op']
        ty = self.rty(st, fr.fn.crate.ty(rv['t']), fr)
        p = ty[1] if ty[0] == 'prim' else None
        return self.arith(st, op, a, b, p)

    def arith(self, st, op, a, b, p):
        ovf = op.endswith('WithOverflow')
        base = op[:-12] if ovf else op.replace('Unchecked', '')
        if base in ('Add', 'Sub', 'Mul') and p not in ('f32', 'f64'):
            r = {'Add': add, 'Sub': sub, 'Mul': mul}[base](a, b)
            if p and is_c(r):
                lo, hi = prim_range(p)
                if not lo <= r[1] <= hi and not ovf:
                    n = r[1] & ((1 << W[p]) - 1)
                    if lo < 0 and n >> (W[p] - 1):
                        n -= 1 << W[p]
                    r = C(n)
            if p:
                r = self.canon(st, r, p)
                self.note_ty(r, ('prim', p))
            return tup(r, ('ovf', base, a, b)) if ovf else r
        if base in self.NEG:
            v = self.cmp(st, base, self.rderef(st, a), self.rderef(st, b))
            if v is not None:
                return TRUE if v else FALSE
            return ('cmp', base, a, b)
        if is_c(a) and is_c(b) and p in W:
            x, y = a[1], b[1]
            w = W[p]
            try:
                n = {'BitAnd': lambda: x & y, 'BitOr': lambda: x | y, 'BitXor': lambda: x ^ y,
                     'Shl': lambda: x << y, 'Shr': lambda: x >> y,
                     'Div': lambda: x // y, 'Rem': lambda: x % y}[base]()
            except KeyError:
                return ('op', base, p, a, b)
            lo, hi = prim_range(p)
            if not lo <= n <= hi:
                n &= (1 << w) - 1
                if lo < 0 and n >> (w - 1):
                    n -= 1 << w
            return C(n)
        if p == 'bool' and base in ('BitAnd', 'BitOr'):
            for x, y in ((a, b), (b, a)):
                if is_c(x):
                    if base == 'BitAnd':
                        return y if x[1] else FALSE
                    return TRUE if x[1] else y
        if base in ('Div', 'Rem') and is_c(b) and b[1] > 0 and a[0] == 'lin':
            if all(c % b[1] == 0 for _, c in a[2]) and a[1] % b[1] == 0:
                if base == 'Rem':
                    return C(0)
                return mk_lin(a[1] // b[1], {t: c // b[1] for t, c in a[2]})
        t = ('op', base, p or '?', a, b)
        if p in W:
            t = self.canon(st, t, p)
            self.note_ty(t, ('prim', p))
        return tup(t, ('ovf', base, a, b)) if ovf else t

    # --------------------------------------------------------- terminators
    def term(self, fr, st, t):
        k = t['k']
        if k in ('goto', 'drop'):
            return [('go', t['to'], st, None)]
        if k == 'return':
            return [('ret', None, st, st.mem.get((fr.id, 0), UNIT))]
        if k == 'switch':
            return self.switch(fr, st, t)
        if k == 'assert':
            c = self.operand(fr, st, t['c'])
            if is_c(c) and bool(c[1]) != t['exp']:
                return [('panic', None, st, (t['msg'], t['sp']))]
            if c[0] == 'cmp' and t['msg'] == 'BoundsCheck':
                st.conds = st.conds + (c if t['exp'] else self.bnot(c),)
            return [('go', t['to'], st, None)]
        if k == 'unreachable':
            return []
        if k == 'call':
            return self.docall(fr, st, t)
        return []

    def branch(self, st, c, want):
        """assume boolean term c == want; returns state or None"""
        if is_c(c):
            return st if bool(c[1]) == want else None
        s = st.fork()
        k = c[0]
        if k == 'cmp':
            x = c if want else self.bnot(c)
            v = self.cmp(s, x[1], x[2], x[3])
            if v is False:
                return None
            if v is None:
                # two symbolic sides: keep constants on the right
                if is_c(x[2]) and not is_c(x[3]):
                    x = ('cmp', self.SWAP[x[1]], x[3], x[2])
                self.assume(s, x)
            return s
        if k == 'not':
            return self.branch(st, c[1], not want)
        if k == 'tyeq':
            a, b = c[1], c[2]
            if want:
                if a[0] == 'param':
                    s.ty = dict(s.ty)
                    s.ty[a[1]] = b
                s.conds = s.conds + (c,)
            else:
                s.conds = s.conds + (('tyne', a, b),)
            return s
        for cc in st.conds:
            if cc[0] == 'true' and cc[1] == c:
                return s if want else None
            if cc[0] == 'false' and cc[1] == c:
                return None if want else s
        x = ('true' if want else 'false', c)
        if self.termty.get(c) == 'bool' and self.is_free(c):
            s.conds = s.conds + (('cmp', 'Eq', c, C(1 if want else 0)),)
            # keep both views
            s.conds = s.conds + (x,)
        else:
            s.conds = s.conds + (x,)
            s.free = False
        return s

    def switch(self, fr, st, t):
        d = self.operand(fr, st, t['d'])
        d = self.rderef(st, d)
        vals = t['vals']
        out = []
        ty = fr.fn.crate.ty(t['t'])
        if is_c(d):
            for v, b in vals:
                if int(v) == d[1]:
                    return [('go', b, st, None)]
            return [('go', t['else'], st, None)]
        if ty == ('prim', 'bool') or d[0] in ('cmp', 'not', 'tyeq'):
            for want in (True, False):
                s = self.branch(st, d, want)
                if s is None:
                    continue
                n = 1 if want else 0
                b = next((b for v, b in vals if int(v) == n), t['else'])
                out.append(('go', b, s, None))
            return out
        if d[0] == 'disc':
            x = d[1]
            excl = {c[2] for c in st.conds if c[0] == 'notv' and c[1] == x}
            fixed = next((c[2] for c in st.conds if c[0] == 'isv' and c[1] == x), None)
            if fixed is not None:
                b = next((b for v, b in vals if int(v) == fixed), t['else'])
                return [('go', b, st, None)]
            for v, b in vals:
                if int(v) in excl:
                    continue
                s = st.fork()
                self.assume(s, ('isv', x, int(v)))
                out.append(('go', b, s, None))
            if fr.fn.blocks[t['else']]['t']['k'] != 'unreachable':
                s = st.fork()
                for v, b in vals:
                    self.assume(s, ('notv', x, int(v)))
                out.append(('go', t['else'], s, None))
            return out
        # integer
        if ty[0] == 'prim':
            self.note_ty(d, ty)
        for v, b in vals:
            s = self.branch(st, ('cmp', 'Eq', d, C(int(v))), True)
            if s is not None:
                out.append(('go', b, s, None))
        s = st
        for v, b in vals:
            s = self.branch(s, ('cmp', 'Ne', d, C(int(v))), True)
            if s is None:
                return out
        lo, hi = self.rng(d, s)
        if lo > hi:
            return out
        if (hi - lo) < 64:
            ex = {c[3][1] for c in s.conds if c[0] == 'cmp' and c[1] == 'Ne' and c[2] == d and is_c(c[3])}
            if all(n in ex for n in range(lo, hi + 1)):
                return out
        out.append(('go', t['else'], s, None))
        return out

    # --------------------------------------------------------------- calls
    def docall(self, fr, st, t):
        f = self.operand(fr, st, t['f'])
        args = [self.operand(fr, st, a) for a in t['a']]
        ret = self.rty(st, fr.fn.crate.ty(t['d']['t']), fr)
        res = self.apply(fr, st, f, args, ret, t['sp'], t['f'].get('fn') if t['f']['k'] == 'const' else None)
        out = []
        for (s, kind, v) in res:
            if kind == 'ret':
                if t['to'] < 0:
                    out.append(('panic', None, s, ('diverging call', t['sp'])))
                    continue
                self.cur = s
                self.write(fr, s, t['d'], v)
                out.append(('go', t['to'], s, None))
            else:
                out.append((kind, None, s, v))
        return out

    def apply(self, fr, st, f, args, ret, sp, info=None):
        """apply a function value"""
        at = None
        while f[0] == 'ref':
            at, f = f, self.load(st, f[1], f[2])
        f = self.rderef(st, f)
        if f[0] == 'agg' and f[1].startswith('closure:'):
            return self.call_closure(fr, st, f, args, at)
        if f[0] != 'fn':
            return [(st, 'ret', self.opaque(st, 'indirect', (), [f] + args, ret))]
        c = Call()
        c.d, c.key, c.targs, c.args, c.ret, c.sp, c.fr = f[2], f[1], f[3], args, ret, sp, fr
        c.n = norm_path(f[2])
        c.trait = None
        c.res = None
        if info is not None:
            c.trait = info['trait']
            c.res = info['res']
        import models
        try:
            r = models.dispatch(self, st, c)
        except models.NoModel:
            r = None
        if r is not None:
            return r
        return self.generic_call(st, c)

    def call_closure(self, fr, st, f, args, at=None):
        key = f[1][8:]
        fn = self.prog.fns.get(key)
        if fn is None:
            raise Unsup('closure body ' + key)
        sub_ = dict(f[4]) if len(f) > 4 else (fr.sub if fr else {})
        # environment by reference or by value, according to the body
        envty = fn.local_ty(1)
        env = f
        cell = None
        if envty[0] == 'ref':
            if at is not None:
                env = at
            else:
                cell = self.newcell(st, f)
                env = ('ref', cell, ())
        rs = self.run_fn(fn, sub_, [env] + list(args), st, (fr.depth if fr else 0) + 1, fr)
        if cell is not None and any(kind == 'ret' and s.mem.get(cell, f) != f for s, kind, v in rs):
            raise Unsup('a closure that changes what it captured by value', fn.sp)
        return rs

    boxes = False

    def box_state(self, st, f):
        """a closure kept by an iterator: what its body changes of its by-value captures lives in cells of its own"""
        if f[0] != 'agg' or not f[1].startswith('closure'):
            return f
        fn = self.prog.fns.get(f[1][8:])
        if fn is None or fn.local_ty(1)[0] != 'ref':
            return f
        hit = set()
        for b in fn.blocks:
            pls = [x['pl'] for x in b['s'] if 'pl' in x]
            pls += [x['rv']['pl'] for x in b['s'] if x.get('rv', {}).get('k') == 'ref' and x['rv'].get('mut') and 'pl' in x['rv']]
            if b['t'] and b['t'].get('k') == 'call' and b['t'].get('d'):
                pls.append(b['t']['d'])
            for pl in pls:
                if pl and pl['l'] == 1 and [e[0] for e in pl['p'][:2]] == ['deref', 'field'] and not any(e[0] == 'deref' for e in pl['p'][2:]):
                    hit.add(pl['p'][1][1])
        fs = list(f[3])
        for i in hit:
            if i < len(fs) and fs[i][0] not in ('boxed', 'ref'):
                fs[i] = ('boxed', self.newcell(st, fs[i]))
                self.boxes = True
        return f[:3] + (tuple(fs),) + f[4:]

    def resolve(self, st, c):
        """(Fn, subst) of the body to inline, or None"""
        prog = self.prog
        key, targs = c.key, c.targs
        if c.trait:
            tr = short(c.trait)
            selfty = targs[0] if targs else None
            if selfty is not None and selfty[0] == 'ref':
                pass
            m = c.n.split('::')[-1]
            r = None
            if selfty is not None and selfty[0] not in ('param', 'alias'):
                r = prog.find_impl(tr, selfty)
            if r:
                i, s = r
                it = i['items_by_name'].get(m)
                if it and it['key'] in prog.fns:
                    fn = prog.fns[it['key']]
                    return fn, self.fn_subst(fn, s, targs[1:])
                # provided method
                if key in prog.fns:
                    fn = prog.fns[key]
                    s2 = dict(zip(fn.generics, targs))
                    return fn, s2
            if c.res and c.res['key'] in prog.fns and (selfty is None or selfty[0] != 'param'):
                fn = prog.fns[c.res['key']]
                rargs = [self.rty(st, c.fr.fn.crate.arg(a), c.fr) for a in c.res['args']]
                return fn, dict(zip(fn.generics, rargs))
            return None
        if key in prog.fns:
            fn = prog.fns[key]
            return fn, dict(zip(fn.generics, targs))
        return None

    def fn_subst(self, fn, implsub, rest):
        s = dict(implsub)
        own = [g for g in fn.generics if g not in s]
        # method-level generics come last
        own_m = fn.generics[-len(rest):] if rest else []
        for g, a in zip(own_m, rest):
            s[g] = a
        return s

    def generic_call(self, st, c):
        if self.hooks and self.hooks(c):
            return self.hook_call(st, c)
        r = self.resolve(st, c)
        if r is not None:
            fn, s = r
            return self.run_fn(fn, s, c.args, st, c.fr.depth + 1, c.fr)
        if '::' in c.d:
            own, last = norm_path(c.d).rsplit('::', 1)
            a = self.prog.adts.get(own)
            if a and a['kind'] == 'enum':
                for i, v in enumerate(a['variants']):
                    if v['name'] == last and len(v['fields']) == len(c.args):
                        return [(st, 'ret', agg(own, i, tuple(c.args)))]
        # unknown function: refuse to lose stream effects
        for a in c.args:
            if a[0] == 'ref':
                v = self.rderef(st, a)
                if v[0] == 'bs' and self.is_stream(st, a):
                    raise Unsup('unknown effect of %s on a stream' % c.n, c.sp)
        v = self.opaque(st, c.d, c.targs, c.args, c.ret)
        for a in c.args:
            if a[0] == 'ref' and a[1] in st.mem and self.is_mut_arg(c, a):
                self.store(st, a[1], a[2], ('mut', v, self.deep(st, self.deref(st, a))))
        return self.fork_result(st, v, c.ret)

    def is_mut_arg(self, c, a):
        return False

    def hook_call(self, st, c):
        a = tuple(self.deep(st, x) for x in c.args)
        st.log = st.log + (('hook', c.n, a, c.sp),)
        v = self.opaque(st, c.d, c.targs, c.args, c.ret)
        return self.fork_result(st, v, c.ret, only_ok=True)

    def is_stream(self, st, a):
        return a[1] in getattr(self, 'streams', ())

    def opaque(self, st, d, targs, args, ret):
        v = ('call', norm_path(d), tuple(show(t) for t in targs), tuple(self.deep(st, a) for a in args))
        self.note_ty(v, ret)
        self.note_len(v, ret)
        return v

    def fork_result(self, st, v, ret, only_ok=False):
        if ret[0] == 'adt' and ret[1] == RES:
            okv = ('okof', v)
            self.note_ty(okv, ret[2][0])
            if ret[2][0] == ('tuple', ()):
                okv = UNIT
            for c in st.conds:
                if c == ('ok', v):
                    return [(st, 'ret', Ok(okv))]
                if c == ('err', v):
                    return [(st, 'ret', Err(('errof', v)))]
            s1 = st
            if only_ok:
                return [(s1, 'ret', Ok(okv))]
            s2 = st.fork()
            self.assume(s1, ('ok', v))
            self.assume(s2, ('err', v))
            return [(s1, 'ret', Ok(okv)), (s2, 'ret', Err(('errof', v)))]
        return [(st, 'ret', v)]

    # --------------------------------------------------------------- loops
    def loop(self, fr, header, st):
        body = fr.fn.loops()[header]
        lid = next(self.loopn)
        pre = st
        # a stream positioned at a loop chunk: iterate in lock step
        lock = []
        for cell in getattr(self, 'streams', ()):
            loc = self.stream_loc(st, cell)
            if loc is None:
                continue
            ch = self.load(st, *loc)[1]
            if ch and ch[0][0] == 'loop':
                lock.append((loc, ch))
        if lock:
            r = self.loop_once(fr, header, body, st, lid, lock)
            if r is not None:
                return r
        return self.loop_once(fr, header, body, st, lid, None)

    def stream_loc(self, st, cell):
        v = st.mem.get(cell)
        loc = (cell, ())
        n = 0
        while v is not None and v[0] == 'ref' and n < 10:
            loc = (v[1], v[2])
            v = self.load(st, v[1], v[2])
            n += 1
        return loc if v is not None and v[0] == 'bs' else None

    def loop_once(self, fr, header, body, st, lid, lock):
        precells = set(st.mem)
        havoc = {}
        base = len(st.conds)
        lag = {}
        for rnd in range(9):
            starts = []
            for vals, cs in self.entries(st, lid, lag):
                s0 = st.fork()
                if cs:
                    s0.conds = s0.conds + cs
                if lock:
                    (loc, ch) = lock[0]
                    lc = ch[0]
                    for ai, alt in enumerate(lc[3]):
                        s = s0.fork()
                        s.conds = s.conds + tuple(alt[0])
                        self.store(s, loc[0], loc[1], ('bs', tuple(alt[1]) + (('endit', lc[1]),)))
                        starts.append((ai, s, vals))
                else:
                    starts.append((0, s0, vals))
            latches, others = [], []
            changed = False
            for ai, s, vals in starts:
                for cell, kind in havoc.items():
                    if cell in vals:
                        s.mem[cell] = vals[cell]
                    else:
                        self.havoc_cell(s, cell, kind, lid)
                h0 = dict(s.mem)
                self.loopctx.append(lid)
                try:
                    rs = self.region(fr, header, s, header, body)
                finally:
                    self.loopctx.pop()
                for (k, tgt, s2, v) in rs:
                    if k == 'latch':
                        latches.append((ai, s2, h0))
                        for cell in precells:
                            a, b = h0.get(cell), s2.mem.get(cell)
                            if a != b:
                                if lock and cell == lock[0][0][0]:
                                    continue
                                if cell not in havoc:
                                    if self.irrelevant(fr, cell, header, body):
                                        havoc[cell] = 'dead'
                                    else:
                                        havoc[cell] = 'phi'
                                    changed = True
                    else:
                        others.append((k, ai, tgt, s2, v, h0))
            if not changed:
                new = self.lagging(st, lid, base, havoc, latches, lag) if rnd < 8 else None
                if not new:
                    break
                lag = new
        else:
            raise Unsup('loop does not stabilise in %s' % fr.fn.path)
        if lag:
            # leaving because there is no further item looks the same from every entry
            seen, kept = False, []
            for o in others:
                if o[0] == 'exit' and any(c[0] == 'next' and c[2] is False and c[3] == lid for c in o[3].conds[base:]) and \
                        not any(c[0] == 'next' and c[2] is True and c[3] == lid for c in o[3].conds[base:]):
                    if seen and not lock:
                        continue
                    seen = True
                kept.append(o)
            others = kept
        self.lag = (lid, lag)
        return self.loop_finish(fr, header, body, st, lid, lock, havoc, latches, others, base)

    lag = (None, {})
    ctest = None

    # ---- cells that carry a function of the previous position into the next iteration
    def lagging(self, st, lid, base, havoc, latches, old):
        """-> {'pos': item, 'lo': first, 'alts': [(values by cell, conditions)], 'merged': bool} or None when nothing new"""
        if not latches or len(latches) > 16:
            return None
        drv = set()
        for (ai, s2, h0) in latches:
            ds = [c for c in s2.conds[base:] if c[0] == 'next' and c[2] is True and c[3] == lid]
            drv.add(ds[0][1] if len(ds) == 1 else None)
        if len(drv) != 1 or None in drv:
            return None
        d = next(iter(drv))
        d = d[1] if d[0] == 'map' else d
        if d[0] != 'range':
            return None
        pos = ('item', d, lid, 0)
        cells = []
        for cell, kind in havoc.items():
            init = st.mem.get(cell)
            if kind != 'phi' or init is None or init[0] in ('bs', 'vec', 'ref', 'uninit', 'seq', 'cur') or init[0] == 'agg' and init[1] != OPT:
                continue
            vs = [self.deep(s2, s2.mem[cell]) if s2.mem.get(cell, init)[0] != 'uninit' else None for (ai, s2, h0) in latches]
            if any(v is None or v[0] in ('bs', 'vec', 'ref', 'uninit') or self.has_phi(v, lid) for v in vs):
                continue
            if all(v == vs[0] for v in vs) and not mentions(vs[0], lambda x: len(x) > 2 and x[0] == 'item' and x[2] == lid):
                continue
            cells.append(cell)
        if not cells or set(cells) == set(old.get('cells', ())) or not set(old.get('cells', ())) <= set(cells):
            return None
        prev = sub(pos, C(1))
        self.termty.setdefault(pos, 'usize')

        def back(t, at=prev):
            t = tmap(t, lambda x: at if x == pos else ('elem', x[1], sub(at, d[1])) if len(x) > 2 and x[0] == 'item' and x[2] == lid else
                     C(0) if len(x) == 4 and x[0] == 'psum' and x[3] == C(0) else x)
            return t
        later = (('cmp', 'Ge', pos, add(d[1], C(1))),)
        alts = []
        for (ai, s2, h0) in latches:
            vals = {c: back(self.deep(s2, s2.mem[c])) for c in cells}
            s3 = st.fork()
            s3.conds = s3.conds + later
            cs = tuple(back(c) for c in s2.conds[base:] if c[0] == 'cmp' and not self.has_phi(c, lid) and c not in later and c != ('cmp', 'Eq', pos, d[1]))
            if any(self.cmp(s3, c[1], c[2], c[3]) is False for c in cs):
                continue
            for c in cells:
                self.copyty(s2.mem[c], vals[c])
            if (vals, cs) not in alts and not any(vals == a[0] for a in alts):
                alts.append((vals, later))
        first = {c: st.mem[c] for c in cells}
        merged = False
        if len(alts) == 1:
            s3 = st.fork()
            ok = True
            for c in cells:
                v = tmap(alts[0][0][c], lambda x: d[1] if x == pos else C(0) if len(x) == 4 and x[0] == 'psum' and x[3] == C(0) else x)
                a, b = self.nf(s3, v), self.nf(s3, self.deep(s3, first[c]))
                if a != b and self.equal(s3, a, b) is not True:
                    ok = False
            if ok:
                merged = True
                alts = [(alts[0][0], ())]
        if not merged:
            alts = [(first, (('cmp', 'Eq', pos, d[1]),))] + alts
        return {'cells': tuple(cells), 'pos': pos, 'd': d, 'alts': alts, 'merged': merged}

    def lag_after(self, pre, lid, cell):
        """value of a carried cell once the iterations are over"""
        L = self.lag[1]
        lo, hi = L['d'][1], L['d'][2]
        if L['merged'] and self.cmp(pre, 'Le', lo, hi) is True or len(L['alts']) == (1 if L['merged'] else 2) and self.cmp(pre, 'Lt', lo, hi) is True:
            v = L['alts'][-1][0][cell]
            r = tmap(v, lambda x: hi if x == L['pos'] else x)
            self.copyty(v, r)
            return r
        return ('post', lid, cell, ())

    def copyty(self, a, b):
        """types of prefix sums survive a change of position"""
        tys = {}
        mentions(a, lambda x: len(x) == 4 and x[0] == 'psum' and x in self.termty and tys.setdefault(x[1:3], self.termty[x]) and False)
        mentions(b, lambda x: len(x) == 4 and x[0] == 'psum' and x[1:3] in tys and self.termty.setdefault(x, tys[x[1:3]]) and False)

    def entries(self, st, lid, lag):
        return lag['alts'] if lag else [({}, ())]

    def irrelevant(self, fr, cell, header, body):
        return False

    def havoc_cell(self, st, cell, kind, lid):
        old = st.mem[cell]
        st.mem[cell] = self.phi_of(old, lid, cell, ())

    def phi_of(self, old, lid, cell, path):
        k = old[0]
        if k == 'bs':
            return ('bs', (('phi', lid, cell, path),))
        if k == 'vec':
            return ('vec', (('phi', lid, cell, path),))
        if k == 'agg' and not old[1].startswith('closure') and old[1] not in ('array',) and old[1] not in (RES, OPT, CF):
            a = self.prog.adts.get(old[1])
            if a is None or a['kind'] == 'struct':
                return ('agg', old[1], old[2], tuple(self.phi_of(x, lid, cell, path + (i,)) for i, x in enumerate(old[3])))
        if k in ('ref',):
            return old
        t = ('phi', lid, cell, path)
        if old in self.termty:
            self.termty[t] = self.termty[old]
        elif k == 'c':
            self.termty.setdefault(t, 'usize')
        return t

    def loop_finish(self, fr, header, body, st, lid, lock, havoc, latches, others, base):
        old = self.locklid
        self.locklid = lock[0][1][0][1] if lock else None
        try:
            return self.loop_finish0(fr, header, body, st, lid, lock, havoc, latches, others, base)
        finally:
            self.locklid = old

    locklid = None

    def loop_finish0(self, fr, header, body, st, lid, lock, havoc, latches, others, base):
        # driver: the iterator advanced in every iteration, or a counted loop
        drivers = []
        for (ai, s2, h0) in latches:
            ds = [c for c in s2.conds[base:] if c[0] == 'next' and c[2] is True and c[3] == lid]
            drivers.append(ds[0][1] if ds else None)
        driver = drivers[0] if drivers and all(d == drivers[0] for d in drivers) else None
        counter = None
        if driver is None and latches:
            driver, counter = self.counted(st, lid, latches, base)
        self.ctest = counter[1] if counter else None
        self.looplog[lid] = Loop(fr.fn, header, st, base, driver, counter, latches, others, havoc)
        results = []
        if lock:
            loc, ch = lock[0]
            lc = ch[0]
            # body must read the stream
            touched = False
            for (ai, s2, h0) in latches:
                cur = self.load(s2, *loc)
                if cur != self.load_from(h0, loc):
                    touched = True
            for (k, ai, tgt, s2, v, h0) in others:
                if k in ('bad',):
                    touched = True
            if not touched:
                return None
            for (ai, s2, h0) in latches:
                cur = self.load(s2, *loc)
                if cur != ('bs', (('endit', lc[1]),)):
                    rest = cur[1] if cur[0] == 'bs' else (cur,)
                    kind = 'bad' if s2.free else 'unsup'
                    results.append((kind, None, s2, ('an iteration leaves %s of an element unread' % tshow(('bs', tuple(x for x in rest if x[0] != 'endit')))
                                                     if rest else 'an iteration reads past the element', fr.fn.blocks[header]['t']['sp'])))
        # exits
        seen_exh = False
        for (k, ai, tgt, s2, v, h0) in others:
            if k == 'exit' and self.is_exhaustion(s2, base, lid, counter, driver):
                if seen_exh and lock:
                    continue      # same exit for every alternative
                seen_exh = True
                s3 = s2
                s3.done = s3.done + (lid,)
                s3.conds = tuple(c for i, c in enumerate(s3.conds) if i < base or not (self.cond_local(c, lid)))
                if lock:
                    loc, ch = lock[0]
                    lc = ch[0]
                    cur = self.load(s3, *loc)
                    if cur != self.load_from(h0, loc):
                        results.append(('bad', None, s3, ('the loop reads the stream after its last element', fr.fn.blocks[header]['t']['sp'])))
                        continue
                    if driver is not None:
                        nr, nw = self.count(s3, driver), self.count(s3, lc[2])
                        eq = self.equal(s3, nr, nw)
                        if eq is False or eq is None:
                            kind = 'bad' if eq is False else 'unsup'
                            results.append((kind, None, s3, ('reads %s elements where %s were written' % (tshow(nr), tshow(nw)), fr.fn.blocks[header]['t']['sp'])))
                            continue
                    else:
                        results.append(('unsup', None, s3, ('loop without a recognised bound', fr.fn.blocks[header]['t']['sp'])))
                        continue
                    s3.conds = tuple(c for c in s3.conds if c not in lc[3][ai][0] or c in st.conds)
                    self.store(s3, loc[0], loc[1], ('bs', ch[1:]))
                for cell, kind in havoc.items():
                    if lock and cell == lock[0][0][0]:
                        continue
                    s3.mem[cell] = self.summarise(st, s3, lid, cell, st.mem[cell], latches, driver, base, ())
                # keep substitution of phi atoms that reached other cells
                results.append(('exit', tgt, s3, None))
            elif k == 'exit':
                s3 = s2
                if lock and counter is not None:
                    s3, _ = self.leave(s3, lid, lock, counter, driver, st, None)
                results.append(('exit', tgt, s3, None))
            elif k == 'ret' and lock and counter is not None:
                s3, v = self.leave(s2, lid, lock, counter, driver, st, v)
                results.append((k, tgt, s3, v))
            else:
                results.append((k, tgt, s2, v))
        if not any(r[0] == 'exit' for r in results) and not results:
            raise Unsup('loop without exit')
        return results

    def leave(self, s, lid, lock, counter, driver, pre, v):
        """leaving in the middle of a sequence: the elements after this one stay in the stream"""
        loc, ch = lock[0]
        lc = ch[0]
        cur = self.load(s, *loc)
        if cur[0] != 'bs' or not cur[1] or cur[1][-1] != ('endit', lc[1]):
            return s, v
        pos = ('left', lc[1])
        self.termty.setdefault(pos, 'usize')
        x, c = counter
        init = self.phi_init(pre, x[2], x[3])
        step = -1 if driver[2] == init and driver[1] != init else 1
        now = add(init, pos) if step == 1 else sub(init, pos)
        put = lambda t: tmap(t, lambda y: now if y == x else y)
        s = s.fork()
        s.mem = {k: put(t) for k, t in s.mem.items()}
        s.conds = tuple(put(c) for c in s.conds)
        self.assume(s, ('cmp', 'Lt', pos, self.count(s, lc[2])))
        nl = next(self.loopn)
        tail = ('loop', nl, ('skipped', lc[2], add(pos, C(1))), relabel(lc[3], lc[1], nl))
        self.store(s, loc[0], loc[1], ('bs', cur[1][:-1] + (tail,) + tuple(ch[1:])))
        return s, put(v) if v is not None else None

    def has_phi(self, t, lid):
        return mentions(t, lambda x: len(x) > 1 and x[0] == 'phi' and x[1] == lid)

    def load_from(self, mem, loc):
        s = St()
        s.mem = mem
        return self.load(s, *loc)

    def cond_local(self, c, lid):
        def pr(x):
            return len(x) > 1 and (x[0] == 'phi' and x[1] == lid or x[0] == 'item' and x[2] == lid) or x[0] == 'next'
        return c[0] == 'next' or mentions(c, pr)

    def counted(self, st, lid, latches, base):
        """while i < n {.. i += 1} / while n > 0 {.. n -= 1}"""
        for c in latches[0][1].conds[base:]:
            if c[0] != 'cmp':
                continue
            _, op, a, b = c
            for (o, x, y) in ((op, a, b), (self.SWAP[op], b, a)):
                if x[0] == 'phi' and x[1] == lid and not self.has_phi(y, lid):
                    cell, path = x[2], x[3]
                    init = self.phi_init(st, cell, path)
                    steps = set()
                    for (ai, s2, h0) in latches:
                        v = self.phi_val(s2, cell, path)
                        steps.add(sub(v, x))
                    if len(steps) != 1:
                        continue
                    stp = next(iter(steps))
                    if not is_c(stp):
                        continue
                    if stp[1] == 1 and o in ('Lt', 'Ne'):
                        return ('range', init, y), (x, c)
                    if stp[1] == -1 and (o == 'Gt' and y == C(0) or o == 'Ne' and y == C(0) or o == 'Ge' and y == C(1)):
                        return ('range', C(0), init), (x, c)
                    if stp[1] == -1 and o in ('Gt', 'Ge') and is_c(y) and y[1] > 0:
                        return ('range', C(y[1] - (o == 'Ge')), init), (x, c)
        return None, None

    def phi_init(self, st, cell, path):
        t = st.mem.get(cell, ('uninit',))
        for i in path:
            t = t[3][i] if t[0] == 'agg' else ('fld', t, 0, i)
        return t

    phi_val = phi_init

    def is_exhaustion(self, s, base, lid, counter, driver):
        for c in s.conds[base:]:
            if c[0] == 'next' and c[2] is False and c[3] == lid and c[1] == driver:
                return True
        if counter is not None:
            x, c = counter
            neg = ('cmp', self.NEG[c[1]], c[2], c[3])
            for cc in s.conds[base:]:
                if cc == neg:
                    return True
                if cc[0] == 'cmp' and (cc[2], cc[3]) == (c[2], c[3]) and cc[1] in ('Eq', 'Ge', 'Le') and cc[1] != c[1]:
                    return True
        return False

    def summarise(self, pre, post, lid, cell, init, latches, driver, base, path):
        """value of a loop-modified location after the loop"""
        vals = []
        for (ai, s2, h0) in latches:
            v = s2.mem.get(cell)
            for i in path:
                v = v[3][i] if v is not None and v[0] == 'agg' and i < len(v[3]) else None
            vals.append((s2, v))
        if self.lag[0] == lid and self.lag[1] and cell in self.lag[1]['cells'] and not path:
            return self.lag_after(pre, lid, cell)
        phi = ('phi', lid, cell, path)
        k = init[0]
        if k in ('bs', 'vec'):
            alts = []
            for s2, v in vals:
                if v is None or v[0] not in ('bs', 'vec') or not v[1] or v[1][0][:2] != ('phi', lid):
                    return ('post', lid, cell, path)
                kk = v[0]
                g = tuple(c for c in s2.conds[base:] if c[0] != 'next' and c != self.ctest)
                xs = tuple(self.deep(s2, x) for x in v[1][1:])
                if driver is not None:
                    xs = self.prefix(pre, lid, xs, latches, driver)
                if self.locklid is not None:
                    xs = tuple(relabel(x, self.locklid, lid) for x in xs)
                alts.append((g, xs))
            if driver is None:
                return ('post', lid, cell, path)
            initp = init[1]
            if k == 'vec' and kk == 'bs':
                b = self.vec_as_bytes(init)
                initp = b[1]
            alts = [a for a in alts]
            if all(not a[1] for a in alts):
                return (kk, initp)
            return (kk, initp + (('loop', lid, driver, tuple(alts)),))
        if k == 'agg' and vals and all(v is not None and v[0] == 'agg' and len(v[3]) == len(init[3]) for _, v in vals) and init[1] not in (RES, OPT, CF):
            a = self.prog.adts.get(init[1])
            if a is None or a['kind'] == 'struct':
                return ('agg', init[1], init[2], tuple(self.summarise(pre, post, lid, cell, x, latches, driver, base, path + (i,)) for i, x in enumerate(init[3])))
        # element-wise initialisation of an array
        if vals and driver is not None and len(vals) == 1 and vals[0][1] is not None and vals[0][1][0] == 'updi' and vals[0][1][1] == phi:
            s2, (_, _, ix, val) = vals[0]
            n = self.length(pre, init)
            if ix[0] == 'item' and ix[2] == lid and ix[1][0] == 'range' and ix[1][1] == C(0) and self.nf(s2, ix[1][2]) == n and self.count(pre, driver) == n and not self.has_phi(val, lid):
                return ('vec', (('loop', lid, driver, (((), (('one', self.deep(s2, val)),)),)),))
        deltas = set()
        for s2, v in vals:
            if v is None:
                return ('post', lid, cell, path)
            if v == phi:
                deltas.add(C(0))
                continue
            try:
                d = sub(v, phi)
            except Exception:
                return ('post', lid, cell, path)
            if self.has_phi(d, lid):
                return ('post', lid, cell, path)
            deltas.add(d)
        if deltas == {C(0)}:
            return init
        if len(deltas) == 1 and driver is not None:
            d = next(iter(deltas))
            if is_c(d):
                return add(init, mul(d, self.count(post, driver)))
            r = self.total(post, self.deep(vals[0][0], d), driver, lid)
            if not mentions(r, lambda x: len(x) > 2 and x[0] == 'item' and x[2] == lid):
                if phi in self.termty:
                    self.note_ty(r, ('prim', self.termty[phi]))
                return add(init, r)
        t = ('post', lid, cell, path)
        if phi in self.termty:
            self.termty[t] = self.termty[phi]
        return t

    def prefix(self, pre, lid, xs, latches, driver):
        """accumulators inside the values an iteration emits become sums over the earlier iterations"""
        seen = {}

        def f(x):
            if len(x) != 4 or x[0] != 'phi' or x[1] != lid:
                return x
            if x in seen:
                return seen[x]
            seen[x] = x
            ds = set()
            for (ai, s2, h0) in latches:
                v = s2.mem.get(x[2])
                for i in x[3]:
                    v = v[3][i] if v is not None and v[0] == 'agg' and i < len(v[3]) else None
                if v is None or v[0] in ('bs', 'vec', 'agg', 'ref', 'uninit'):
                    return x
                ds.add(self.deep(s2, sub(v, x)))
            if len(ds) != 1:
                return x
            d = next(iter(ds))
            if self.has_phi(d, lid):
                return x
            init = self.phi_init(pre, x[2], x[3])
            if init[0] in ('bs', 'vec', 'agg', 'ref', 'uninit'):
                return x
            r = self.partial(pre, d, driver, lid, self.position(pre, driver, lid))
            for y in lin_parts(r)[1]:
                if y[0] == 'psum' and x in self.termty:
                    self.note_ty(y, ('prim', self.termty[x]))
            seen[x] = add(init, r)
            return seen[x]
        return tuple(tmap(x, f) for x in xs)

    # ------------------------------------------------------------- equality
    def equal(self, st, a, b, d=0):
        """True / False / None (undecided)"""
        if a == b:
            return True
        a, b = self.nf(st, a), self.nf(st, b)
        if a == b:
            return True
        if d > 12:
            return None
        for x, y in ((a, b), (b, a)):
            if x[0] == 'agg' and x[1] == 'std::borrow::Cow' and len(x[3]) == 1 and y[0] != 'agg':
                v = self.variant_of(st, y)
                if v is None:
                    return None
                return self.equal(st, x[3][0], ('fld', y, v, 0), d + 1)
            if x in (('vec', ()), ('bs', ())) and y[0] in ('p', 'fld', 'item', 'call'):
                if self.zero(st, self.length(st, y)):
                    return True
        va, vb = self.variant_of(st, a), self.variant_of(st, b)
        if a[0] == 'agg' or b[0] == 'agg':
            x, y = (a, b) if a[0] == 'agg' else (b, a)
            if x[1].startswith('closure'):
                return None
            vx, vy = self.variant_of(st, x), self.variant_of(st, y)
            if y[0] == 'agg':
                if len(x[3]) != len(y[3]) or vx != vy:
                    return False if x[1] == y[1] else None
            elif y[0] in ('p', 'fld', 'item', 'idx', 'okof', 'call', 'updx'):
                ad = self.prog.adts.get(x[1])
                if ad and ad['kind'] == 'enum':
                    if vy is None:
                        return None
                    if vx != vy:
                        return False
            elif y[0] in ('c', 'str'):
                return None
            else:
                return None
            r = True
            for i, f in enumerate(x[3]):
                if x[1] == 'array':
                    g = y[3][i] if y[0] == 'agg' else self.index(st, y, C(i))
                else:
                    g = y[3][i] if y[0] == 'agg' else ('fld', y, x[2], i)
                e = self.equal(st, f, g, d + 1)
                if e is False:
                    return False
                if e is None:
                    r = None
            return r
        # integers
        da = None
        if a[0] in ('c', 'lin', 'cast', 'op', 'byte', 'mul', 'frombytes') or b[0] in ('c', 'lin', 'cast', 'op', 'byte', 'mul', 'frombytes'):
            self.cur = st
            c = self.cmp(st, 'Eq', a, b)
            if c is not None:
                return c
            w = max(self.width(a) or 0, self.width(b) or 0) or 128
            try:
                x, y = bits(a, w, self), bits(b, w, self)
            except Exception:
                x = y = None
            if x is not None and y is not None:
                if x == y:
                    return True
                # distinct affine functions of free bits differ for some input
                if all(self.is_free(at[0]) for s in x + y for at in s if at != '1'):
                    return False
                return None
            return None
        if self.atomic(a) and self.atomic(b):
            return False
        return None

    def atomic(self, t):
        """input component: two different ones may hold different values"""
        k = t[0]
        if k == 'p':
            return True
        if k == 'fld':
            return self.atomic(t[1])
        if k in ('item', 'elem'):
            d = unperm(t[1])
            return d[0] == 'seq' and self.atomic(d[1])
        if k == 'idx':
            return self.atomic(t[1]) and (is_c(t[2]))
        if k == 'call' and t[1].split('::')[-1].startswith(('default', 'Default')):
            return True
        return False

    def variant_of(self, st, t):
        if t[0] == 'agg':
            return t[2]
        for c in st.conds:
            if c[0] == 'isv' and c[1] == t:
                # discriminant value -> variant index
                return c[2]
        return None

    def nf(self, st, t):
        import models
        t = self.deep(st, t)
        for _ in range(6):
            n = tmap(t, lambda x: models.simplify(self, st, x))
            if n == t:
                return n
            t = n
        return t


class PromFn:
    def __init__(self, owner, p):
        self.prog, self.crate = owner.prog, owner.crate
        self.key, self.path, self.name, self.sp = owner.key, owner.path + '{promoted}', owner.name, owner.sp
        self.blocks, self.locals, self.argc = p['blocks'], p['locals'], 0
        self.b = owner.b
        self.generics = owner.generics

    def local_ty(self, l):
        return self.crate.ty(self.locals[l])

    def loops(self):
        return {}
