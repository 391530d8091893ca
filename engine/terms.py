"""Value terms of the abstract domain and their normal forms.

A term is a tuple:
  ('c', n)                 integer / bool / char constant
  ('str', bytes)           constant byte or text string
  ('p', name)              input (parameter)
  ('fld', t, v, i)         field i of variant v of t
  ('idx', t, i)            element i of t
  ('agg', def, v, fields)  constructed struct / enum / tuple / array / closure
  ('lin', k, ((t,c),..))   linear integer expression
  ('op', name, width, ..)  other integer operation
  ('cast', prim, t)        wrapping conversion
  ('byte', t, k)           k-th little-endian byte of t
  ('len', t)  ('disc', t)  ('call', def, targs, args)
  ('bs', chunks)           byte sequence with known structure
  ('vec', parts)           collection under construction
  ('ref', cell, proj)      pointer to a memory cell
"""

W = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 64,
     'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'i128': 128, 'isize': 64, 'bool': 1, 'char': 32}
RES = 'std::result::Result'
OPT = 'std::option::Option'
CF = 'std::ops::ControlFlow'


def prim_range(p):
    if p == 'bool':
        return (0, 1)
    if p == 'char':
        return (0, 0x10ffff)
    w = W[p]
    if p[0] == 'i':
        return (-(1 << (w - 1)), (1 << (w - 1)) - 1)
    return (0, (1 << w) - 1)


def C(n):
    return ('c', int(n))


TRUE, FALSE = C(1), C(0)
UNIT = ('agg', 'tuple', 0, ())


def agg(d, v, fs):
    return ('agg', d, v, tuple(fs))


def tup(*fs):
    return ('agg', 'tuple', 0, tuple(fs))


def Ok(t):
    return agg(RES, 0, (t,))


def Err(t):
    return agg(RES, 1, (t,))


NONE = agg(OPT, 0, ())


def Some(t):
    return agg(OPT, 1, (t,))


def is_c(t):
    return t[0] == 'c'


# ------------------------------------------------------- linear arithmetic
def lin_parts(t):
    if t[0] == 'c':
        return t[1], {}
    if t[0] == 'lin':
        return t[1], dict(t[2])
    return 0, {t: 1}


def mk_lin(k, d):
    d = {t: c for t, c in d.items() if c}
    if not d:
        return C(k)
    if k == 0 and len(d) == 1:
        (t, c), = d.items()
        if c == 1:
            return t
    return ('lin', k, tuple(sorted(d.items(), key=repr)))


def add(a, b):
    ka, da = lin_parts(a)
    kb, db = lin_parts(b)
    for t, c in db.items():
        da[t] = da.get(t, 0) + c
    return mk_lin(ka + kb, da)


def scale(a, n):
    k, d = lin_parts(a)
    return mk_lin(k * n, {t: c * n for t, c in d.items()})


def sub(a, b):
    return add(a, scale(b, -1))


def mul(a, b):
    if is_c(a):
        return scale(b, a[1])
    if is_c(b):
        return scale(a, b[1])
    x, y = sorted([a, b], key=repr)
    return ('mul', x, y)


# --------------------------------------------------------- GF(2) bit domain
def bits(t, w, dom):
    """little-endian list of w sets of bit atoms (xor-linear), or None.
    `dom` provides rng(t) and ty(t)."""
    k = t[0]
    if k == 'c':
        n = t[1] & ((1 << w) - 1)
        return [frozenset(['1']) if (n >> i) & 1 else frozenset() for i in range(w)]
    if k == 'cast':
        wi = W.get(t[1])
        if wi is None:
            return None
        b = bits(t[2], max(wi, dom.width(t[2]) or wi), dom)
        if b is None:
            return None
        b = b[:wi]
        return ext(b, w, t[1][0] == 'i')
    if k == 'byte':
        b = bits(t[1], 128, dom)
        if b is None:
            return None
        b = b[8 * t[2]:8 * t[2] + 8]
        return ext(b, w, False)
    if k == 'op':
        name, p, args = t[1], t[2], t[3:]
        wi = W.get(p)
        if wi is None:
            return None
        if name in ('BitXor', 'BitOr', 'BitAnd'):
            x, y = bits(args[0], wi, dom), bits(args[1], wi, dom)
            if x is None or y is None:
                return None
            r = []
            for a, b in zip(x, y):
                if name == 'BitXor':
                    r.append(a ^ b)
                elif name == 'BitOr':
                    if a == b or not b:
                        r.append(a)
                    elif not a:
                        r.append(b)
                    elif '1' in a and len(a) == 1 or '1' in b and len(b) == 1:
                        r.append(frozenset(['1']))
                    else:
                        return None
                else:
                    one = frozenset(['1'])
                    if not a or not b:
                        r.append(frozenset())
                    elif a == one:
                        r.append(b)
                    elif b == one or a == b:
                        r.append(a)
                    else:
                        return None
            return ext(r, w, p[0] == 'i')
        if name in ('Shl', 'Shr') and is_c(args[1]):
            x = bits(args[0], wi, dom)
            if x is None:
                return None
            n = args[1][1]
            if name == 'Shl':
                r = ([frozenset()] * n + x)[:wi]
            else:
                f = x[-1] if p[0] == 'i' else frozenset()
                r = x[n:] + [f] * min(n, wi)
            return ext(r, w, p[0] == 'i')
        if name == 'Neg':
            x = bits(args[0], wi, dom)
            if x is None or any(x[1:]):
                return None
            return ext([x[0]] * wi, w, p[0] == 'i')
        if name == 'Not':
            x = bits(args[0], wi, dom)
            if x is None:
                return None
            return ext([b ^ frozenset(['1']) for b in x], w, p[0] == 'i')
        return None
    if k == 'lin':
        # -(single bit): all bits equal to it
        if t[1] == 0 and len(t[2]) == 1 and t[2][0][1] == -1:
            x = bits(t[2][0][0], 128, dom)
            if x is not None and not any(x[1:]):
                return [x[0]] * w
        # c * 2^n
        if t[1] == 0 and len(t[2]) == 1 and t[2][0][1] > 0 and t[2][0][1] & (t[2][0][1] - 1) == 0:
            x = bits(t[2][0][0], w, dom)
            if x is not None:
                n = t[2][0][1].bit_length() - 1
                return ([frozenset()] * n + x)[:w]
        if t[1] == 0 and len(t[2]) == 1:
            return None
        acc = None
        for tt, c in t[2]:
            x = bits(scale(tt, c), w, dom)
            if x is None:
                return None
            if acc is None:
                acc = x
            else:
                if any(a and b for a, b in zip(acc, x)):
                    return None
                acc = [a | b for a, b in zip(acc, x)]
        if t[1]:
            x = bits(C(t[1]), w, dom)
            if any(a and b for a, b in zip(acc, x)):
                return None
            acc = [a | b for a, b in zip(acc, x)]
        return acc
    # atom
    lo, hi = dom.rng(t)
    tw = dom.width(t)
    if tw is None:
        return None
    signed = lo < 0
    n = tw if signed else min(tw, max(hi, 0).bit_length())
    b = [frozenset([(t, i)]) for i in range(n)]
    return ext(b, w, signed)


def ext(b, w, signed):
    if len(b) >= w:
        return b[:w]
    f = b[-1] if signed and b else frozenset()
    return b + [f] * (w - len(b))


# -------------------------------------------------------------- substitution
def tmap(t, f):
    """bottom-up rebuild of a term"""
    if not isinstance(t, tuple):
        return t
    n = tuple(tmap(x, f) if isinstance(x, tuple) else x for x in t)
    if n and n[0] == 'lin' and n != t:
        r = C(n[1])
        for x, c in n[2]:
            r = add(r, scale(x, c))
        if r != n:
            return r        # a sum put together anew is not matched again
    return f(n)


def mentions(t, pred):
    if isinstance(t, tuple) and t:
        if pred(t):
            return True
        return any(mentions(x, pred) for x in t if isinstance(x, tuple))
    return False


def tshow(t, d=0):
    if not isinstance(t, tuple) or not t:
        return str(t)
    if d > 7:
        return '..'
    k = t[0]
    s = lambda x: tshow(x, d + 1)
    if k == 'c':
        return str(t[1])
    if k == 'str':
        return repr(t[1])
    if k == 'p':
        return t[1]
    if k == 'fld':
        return '%s.%s%s' % (s(t[1]), ('v%s.' % t[2]) if t[2] else '', t[3])
    if k == 'idx':
        return '%s[%s]' % (s(t[1]), s(t[2]))
    if k == 'agg':
        return '%s%s(%s)' % (t[1].split('::')[-1], '#%d' % t[2] if t[2] else '', ', '.join(s(x) for x in t[3]))
    if k == 'lin':
        return '(%s)' % ' + '.join(([str(t[1])] if t[1] else []) + ['%s%s' % ('%d*' % c if c != 1 else '', s(x)) for x, c in t[2]])
    if k == 'call':
        return '%s(%s)' % (t[1].split('::')[-1], ', '.join(s(x) for x in t[3]))
    if k == 'item':
        return 'item(%s)' % s(t[1])
    if k in ('bs', 'vec'):
        return '%s[%s]' % (k, '; '.join(s(x) for x in t[1]))
    if k == 'nt':
        from mir import show
        return '%s:%s%s' % (s(t[2]), show(t[1]), '' if t[3] == 'ser' else '/' + t[3])
    if k == 'b':
        return 'byte(%s)' % s(t[1])
    return '%s(%s)' % (k, ', '.join(s(x) if isinstance(x, tuple) else str(x) for x in t[1:]))


def relabel(t, old, new):
    """the same term for another loop"""
    def f(x):
        if len(x) > 2 and x[0] == 'item' and x[2] == old:
            return ('item', x[1], new) + x[3:]
        return x
    return tmap(t, f)


def unperm(t):
    """forget in which order a sorted sequence is enumerated"""
    def f(x):
        return x[1] if len(x) == 3 and x[0] == 'perm' else x
    return tmap(t, f)
