"""Declarations the derive macro is judged on.

Each `Decl` is a type with its whole revision history.  `source()` renders, for
every type and every revision k of it, a module holding the declaration as it
looked when k was the latest revision: the writer of old payloads is the macro's
own expansion at k, the reader the expansion at any m >= k.
"""


class F:
    def __init__(self, name, ty, start=0, end=None, default=True, attrs=(), expect=None):
        self.name, self.ty, self.start, self.end, self.default, self.attrs = name, ty, start, end, default, tuple(attrs)

    def at(self, r):
        return self.start <= r and (self.end is None or r < self.end)


class V:
    def __init__(self, name, fields=None, tuple_=False, start=0, end=None, over=None, size=None):
        self.name, self.fields, self.tuple, self.start, self.end = name, fields, tuple_, start, end
        self.over, self.size = over or {}, size

    def at(self, r):
        return self.start <= r and (self.end is None or r < self.end)

    @property
    def kind(self):
        return 'unit' if self.fields is None else 'tuple' if self.tuple else 'named'


class Decl:
    """hist: one entry per revision: '' legacy, 'o' optimised, 'oi' optimised + indexed_struct"""

    def __init__(self, name, hist, fields=None, tuple_=False, variants=None, derive='', note='', walk=True, legacy_syntax=None, only=None):
        self.name, self.hist, self.fields, self.tuple, self.variants = name, hist, fields, tuple_, variants
        self.derive, self.note, self.walk = derive, note, walk
        self.legacy_syntax = legacy_syntax if legacy_syntax is not None else all(h == '' for h in hist)
        self.only = only      # revisions to render (default all)

    @property
    def n(self):
        return len(self.hist)

    def revs(self):
        return self.only or list(range(1, self.n + 1))

    @property
    def kind(self):
        if self.variants is not None:
            return 'enum'
        return 'unit' if self.fields is None else 'tuple' if self.tuple else 'named'

    def mod(self):
        out = ''
        for i, c in enumerate(self.name):
            if c.isupper() and i and not self.name[i - 1].isupper():
                out += '_'
            out += c.lower()
        return out

    def path(self, r):
        return '%s::v%d::%s' % (self.mod(), r, self.name)

    def discriminants(self, r):
        """the documented rule: explicit overrides first, then the smallest unused number in order"""
        d, used = {}, set()
        for v in self.variants:
            if v.at(r) and r in v.over:
                d[v.name] = v.over[r]
                used.add(v.over[r])
        nxt = 0
        for v in self.variants:
            if not v.at(r) or v.name in d:
                continue
            while nxt in used:
                nxt += 1
            used.add(nxt)
            d[v.name] = nxt
        return d


S, P = 'String', 'u32'
DECLS = [
    Decl('Unit', ['']),
    Decl('Empty', ['', ''], [F('gone', 'u16', end=2)]),
    Decl('Plain', [''], [F('a', 'u8'), F('b', 'u16'), F('c', 'u32'), F('d', 'u64'), F('e', 'u128'), F('f', 'i64'), F('g', 'bool'),
                         F('h', 'char'), F('i', 'f64'), F('j', 'String'), F('k', 'Option<u32>'), F('l', 'Vec<u64>'), F('m', '(u32, String)')]),
    Decl('Same', [''], [F('a', 'u32'), F('b', 'u32'), F('c', 'u32'), F('d', 'u32')]),
    Decl('TupleOne', [''], [F(0, 'u64')], True),
    Decl('TupleMany', [''], [F(0, 'u32'), F(1, 'u32'), F(2, 'String'), F(3, 'u32')], True),
    Decl('Added', ['', '', ''], [F('z', 'u32', start=3), F('a', 'u32'), F('b', 'String', start=2), F('c', 'u32'), F('d', 'u32', start=2, default=False)]),
    Decl('Removed', ['', '', ''], [F('a', 'u32', end=2), F('b', 'String'), F('c', 'u32', end=3), F('d', 'u32'), F('e', 'u32', end=3)]),
    Decl('Mixed', ['', '', '', ''], [F('a', 'u32'), F('b', 'u32', start=2, end=3), F('c', 'u32', start=3), F('d', 'u32', end=4),
                                     F('e', 'u32', start=2), F('f', 'String', start=2, end=4), F('g', 'String', start=4, default=False), F('h', 'u32')]),
    Decl('TupleHist', ['', '', ''], [F(0, 'u32'), F(1, 'u32', start=2), F(2, 'u32', end=3), F(3, 'u32', start=3, default=False), F(4, 'String', start=2, end=3)], True),
    Decl('HighRev', [''] * 251, [F('a', 'u8'), F('b', 'u8', start=251)], only=[250, 251], walk=False),
    Decl('Fixed', ['', '', ''], [F('a', 'u32', attrs=['fixed']), F('b', 'i32', attrs=['fixed']), F('c', 'u64', attrs=['fixed'], start=2), F('d', 'i64', attrs=['fixed']),
                             F('e', 'u128', attrs=['fixed'], end=3), F('f', 'i128', attrs=['fixed']), F('g', 'u32')]),
    Decl('FixedTuple', [''], [F(0, 'u64', attrs=['fixed']), F(1, 'u32'), F(2, 'u32', attrs=['fixed'])], True),
    Decl('Special', ['', '', ''], [F('a', 'Vec<u32>', attrs=['specialised']), F('b', 'Vec<u64>'), F('c', 'Vec<f32>', attrs=['specialised'], start=2),
                                   F('d', 'Vec<i16>', attrs=['specialised'], end=3), F('e', 'Vec<u8>', attrs=['specialised']), F('f', 'u32')]),
    Decl('SpecialTuple', [''], [F(0, 'Vec<u16>', attrs=['specialised']), F(1, 'u32'), F(2, 'Vec<i64>', attrs=['specialised'])], True),
    Decl('Opt', ['o'], [F('a', 'u32'), F('b', 'String'), F('c', 'u64')]),
    Decl('OptUnit', ['o']),
    Decl('OptTuple', ['o'], [F(0, 'u32'), F(1, 'String')], True),
    Decl('OptIdx', ['oi'], [F('a', 'u32'), F('b', 'String'), F('c', 'u64'), F('d', 'u8')]),
    Decl('OptIdxOne', ['oi'], [F('a', 'String')]),
    Decl('OptHist', ['o', 'o', 'o'], [F('a', 'u32'), F('b', 'u32', start=2), F('c', 'String', end=3), F('d', 'u32'), F('e', 'u32', start=3, default=False)]),
    Decl('OptIdxHist', ['oi', 'oi', 'oi'], [F('a', 'u32'), F('b', 'u32', start=2), F('c', 'String', end=3), F('d', 'u32'), F('e', 'u32', start=3, default=False)]),
    Decl('Moving', ['', 'o', 'oi', ''], [F('a', 'u32'), F('b', 'u32', start=2), F('c', 'String', end=3), F('d', 'u32', end=4), F('e', 'u32', start=4), F('f', 'String')]),
    Decl('MovingB', ['', 'oi', 'o'], [F('a', 'String'), F('b', 'u32'), F('c', 'u32', start=2), F('d', 'u32', start=3)]),
    Decl('Idx', ['o'], [F('a', 'u32'), F('m', 'BTreeMap<String, u32>', attrs=['indexed_map']), F('h', 'HashMap<String, u32>', attrs=['indexed_map']),
                        F('s', 'Vec<String>', attrs=['indexed_seq']), F('t', 'BTreeSet<String>', attrs=['indexed_set']), F('u', 'HashSet<u32>', attrs=['indexed_set']), F('z', 'u32')]),
    Decl('IdxHist', ['', 'o', 'oi'], [F('a', 'u32'), F('m', 'BTreeMap<String, u32>', attrs=['indexed_map']), F('s', 'Vec<String>', attrs=['indexed_seq'], start=2),
                                      F('t', 'BTreeSet<String>', attrs=['indexed_set']), F('z', 'u32')]),
    Decl('IdxGone', ['o', 'oi', 'o'], [F('a', 'u32'), F('m', 'BTreeMap<String, u32>', attrs=['indexed_map'], end=2),
                                      F('s', 'Vec<String>', attrs=['indexed_seq'], end=3), F('z', 'u32')]),
    Decl('OptFixed', ['o', 'oi'], [F('a', 'u32', attrs=['fixed']), F('b', 'Vec<u32>', attrs=['specialised']), F('c', 'u32')]),
    Decl('En', [''], variants=[V('A'), V('B', [F(0, 'u32')], True), V('C', [F('x', 'u32'), F('y', 'String')]), V('D', [F(0, 'u32'), F(1, 'u32')], True), V('E')]),
    Decl('EnHist', ['', '', '', ''], variants=[
        V('A'), V('B', [F(0, 'u32')], True, start=2), V('C', [F('x', 'u32'), F('y', 'String')], end=3), V('D', [F(0, 'u32')], True),
        V('E', end=2), V('G', [F(0, 'u32'), F(1, 'u32')], True, start=3, end=4), V('H', [F('q', 'u32')], start=4)]),
    Decl('EnFields', ['', '', ''], variants=[
        V('A', [F('a', 'u32'), F('b', 'u32', start=2), F('c', 'u32', end=3), F('d', 'String', start=3, default=False)]),
        V('B', [F(0, 'u32'), F(1, 'u32', end=2), F(2, 'u32', start=3), F(3, 'u32')], True),
        V('C', [F('x', 'u32', start=2), F('y', 'u32', end=3)], end=3), V('D')]),
    Decl('EnOver', ['', '', ''], variants=[
        V('A', over={2: 5}), V('B', [F(0, 'u32')], True, over={1: 0}), V('C', over={1: 2, 2: 1, 3: 2}), V('D', [F(0, 'u32')], True, start=2),
        V('E', start=2, end=3, over={2: 300})]),
    Decl('EnBig', [''], variants=[V('V%d' % i) if i % 3 else V('V%d' % i, [F(0, 'u32')], True) for i in range(12)] + [V('W', over={1: 251}), V('X', over={1: 70000})]),
    Decl('EnAttr', ['', ''], variants=[
        V('A', [F('a', 'u64', attrs=['fixed']), F('b', 'u32', start=2)]), V('B', [F(0, 'Vec<u32>', attrs=['specialised']), F(1, 'u32', attrs=['fixed'])], True),
        V('C', [F('v', 'Vec<u64>', attrs=['specialised'], end=2), F('w', 'u32')])]),
    Decl('OptEn', ['o'], variants=[
        V('A', size='inline'), V('B', [F(0, '[u8; 8]')], True, size='fixed(8)'), V('C', [F(0, 'String')], True, size='varlen'),
        V('D', [F('x', 'u32'), F('y', 'String')], size='varlen'), V('E', [F(0, 'u8'), F(1, 'u8')], True, size='fixed(2)'), V('G', [F(0, 'u32')], True, size='varlen')]),
    Decl('OptEnBig', ['o'], variants=[V('V%d' % i, size='inline') if i % 2 else V('V%d' % i, [F(0, 'String')], True, size='varlen') for i in range(31)] + [V('Z', [F(0, '[u8; 3]')], True, size='fixed(3)')]),
    Decl('OptEnHist', ['o', 'o', 'o'], variants=[
        V('A', size='inline'), V('B', [F(0, 'String')], True, start=2, size='varlen'), V('C', [F(0, '[u8; 4]')], True, end=3, size='fixed(4)'),
        V('D', [F('x', 'u32'), F('y', 'u32')], size='varlen', over={3: 9}), V('E', end=2, size='inline')]),
    Decl('MovingEn', ['', 'o', ''], variants=[
        V('A', size='inline'), V('B', [F(0, 'String')], True, start=2, size='varlen'), V('C', [F('x', 'u32'), F('y', 'u32')], size='varlen'),
        V('D', [F(0, '[u8; 4]')], True, size='fixed(4)', over={1: 7})]),
    Decl('OptEnIdx', ['o'], variants=[
        V('M', [F(0, 'BTreeMap<String, u32>', attrs=['indexed_map'])], True, size='varlen'), V('S', [F('s', 'Vec<String>', attrs=['indexed_seq']), F('k', 'u32')], size='varlen'),
        V('T', [F(0, 'BTreeSet<String>', attrs=['indexed_set'])], True, size='varlen')]),
    Decl('TupleWide', ['', '', '', '', ''], [F(0, 'u32'), F(1, 'u32', end=3), F(2, 'u32', start=2), F(3, 'u32'), F(4, 'u32', start=2, end=4), F(5, 'u32'),
                                         F(6, 'u32', end=5), F(7, 'u32', start=4, default=False), F(8, 'u32'), F(9, 'String', start=5)], True),
    Decl('NamedWide', ['', '', '', '', ''], [F('f%d' % i, 'u32') if i % 3 == 0 else F('f%d' % i, 'u32', end=2 + i % 4) if i % 3 == 1 else F('f%d' % i, 'u32', start=2 + i % 4)
                                         for i in range(18)]),
    Decl('OptTupleWide', ['', 'o', 'oi', 'o'], [F(0, 'u32'), F(1, 'u32', end=3), F(2, 'u32', start=2), F(3, 'u32'), F(4, 'String', start=2, end=4), F(5, 'u32'),
                                         F(6, 'u32', end=4), F(7, 'u32', start=4), F(8, 'u32')], True),
    Decl('OptWide', ['oi', 'o', 'oi'], [F('f%d' % i, 'u32') if i % 3 == 0 else F('f%d' % i, 'u32', end=2 + i % 2) if i % 3 == 1 else F('f%d' % i, 'u32', start=2 + i % 2)
                                         for i in range(12)]),
    Decl('EnWide', ['', '', '', ''], variants=[
        V('A', [F(0, 'u32'), F(1, 'u32', end=3), F(2, 'u32', start=2), F(3, 'u32'), F(4, 'u32', start=2, end=4), F(5, 'u32'), F(6, 'u32', start=4)], True),
        V('B', [F('a', 'u32', end=2), F('b', 'u32'), F('c', 'u32', end=3), F('d', 'u32', start=2), F('e', 'u32'), F('f', 'u32', start=3), F('g', 'u32', end=4)]),
        V('C', [F(0, 'u32'), F(1, 'u32'), F(2, 'u32'), F(3, 'u32'), F(4, 'u32')], True, start=2, end=4), V('D', start=3), V('E', [F(0, 'u32')], True, end=4)]),
    Decl('OptEnWide', ['o', 'o'], variants=[
        V('A', [F(0, 'u32'), F(1, 'u32'), F(2, 'String'), F(3, 'u32'), F(4, 'u32')], True, size='varlen'),
        V('B', [F('a', 'u32'), F('b', 'u32'), F('c', 'String'), F('d', 'u32'), F('e', 'u32')], size='varlen', start=2),
        V('C', [F(0, 'u8'), F(1, 'u8'), F(2, 'u8'), F(3, '[u8; 5]')], True, size='fixed(8)', over={2: 20}), V('D', size='inline', end=2), V('E', [F(0, '[u8; 32]')], True, size='fixed(32)')]),
    Decl('OptEnMix', ['o', 'o', 'o'], variants=[
        V('A', [F(0, 'u32'), F(1, 'u32', end=3), F(2, 'u32', start=2), F(3, 'u32'), F(4, 'String', start=2, end=3), F(5, 'u32', start=3, default=False)], True, size='varlen'),
        V('B', [F('a', 'u32', end=2), F('b', 'u32'), F('c', 'String', end=3), F('d', 'u32', start=2), F('e', 'u32', start=3)], size='varlen'),
        V('C', [F(0, 'u8', end=2), F(1, 'u8', start=2, end=3), F(2, 'u8', start=3), F(3, 'u8')], True, size='fixed(2)'),
        V('D', [F(0, 'u32', end=2), F(1, 'u32', start=2), F(2, 'u32')], True, size='varlen', end=3), V('E', [F('x', 'u32'), F('y', 'u32', start=2)], size='varlen', end=3), V('G', size='inline')]),
    Decl('MovingMix', ['', 'o', ''], variants=[
        V('A', [F(0, 'u32', end=2), F(1, 'u32', start=2), F(2, 'u32', end=3), F(3, 'u32', start=3)], True, size='varlen'),
        V('B', [F('a', 'u32'), F('b', 'u32', start=2, end=3), F('c', 'u32', start=3)], size='varlen')]),
    Decl('Nested', [''], [F('a', 'crate::en::v1::En'), F('b', 'Vec<crate::plain::v1::Plain>'), F('c', 'Option<crate::opt::v1::Opt>'), F('d', 'Box<crate::opt_en::v1::OptEn>'),
                          F('e', 'BTreeMap<String, crate::same::v1::Same>'), F('f', '(crate::en_hist::v4::EnHist, crate::opt_idx::v1::OptIdx)')]),
    Decl('NestedOpt', ['oi'], [F('a', 'crate::en::v1::En'), F('b', 'Vec<crate::same::v1::Same>', attrs=['indexed_seq']), F('c', 'Option<crate::opt::v1::Opt>'),
                               F('e', 'BTreeMap<String, crate::same::v1::Same>', attrs=['indexed_map'])]),
]


def attr(items):
    return '#[revision(%s)] ' % ', '.join(items) if items else ''


def opt_name(v):
    return v if isinstance(v, str) else 'f%d' % v


def field_attrs(f, k, pre=''):
    a = []
    if f.start:
        a.append('start = %d' % f.start)
    if f.end is not None and f.end <= k:
        a.append('end = %d' % f.end)
        a.append('convert_fn = "conv_%s%s"' % (pre, opt_name(f.name)))
    if f.default and f.start > 1:
        a.append('default_fn = "default_%s%s"' % (pre, opt_name(f.name)))
    a += list(f.attrs)
    return a


def render(d, k):
    """the declaration when k was the latest revision, and its hooks"""
    hooks = []
    out = []
    if d.legacy_syntax:
        o = 'revision = %d' % k
    else:
        o = ', '.join('revision(%s)' % ', '.join([str(i + 1)] + {'': [], 'o': ['optimised'], 'oi': ['optimised', 'indexed_struct']}[h])
                      for i, h in enumerate(d.hist[:k]))
    if not d.walk:
        o += ', walk = false'
    out.append('#[revisioned(%s)]' % o)

    def fields(fs, tup, vis, pre, target):
        r = []
        for f in fs:
            if f.start > k:
                continue
            r.append('%s%s%s' % (attr(field_attrs(f, k, pre)), vis, f.ty if tup else '%s: %s' % (f.name, f.ty)))
            if f.default and f.start > 1:
                hooks.append('pub fn default_%s%s(_r: u16) -> Result<%s, Error> { Err(Error::Conversion(String::new())) }' % (pre, opt_name(f.name), f.ty))
            if f.end is not None and f.end <= k:
                hooks.append('pub fn conv_%s%s(%s, _r: u16, _v: %s) -> Result<(), Error> { Ok(()) }' % (pre, opt_name(f.name), target, f.ty))
        return ', '.join(r)

    if d.kind == 'unit':
        out.append('pub struct %s;' % d.name)
    elif d.kind == 'enum':
        vs = []
        for v in d.variants:
            if v.start > k:
                continue
            a = []
            if v.start:
                a.append('start = %d' % v.start)
            if v.end is not None and v.end <= k:
                a.append('end = %d' % v.end)
                a.append('convert_fn = "conv_%s"' % v.name.lower())
                hooks.append('fn conv_%s(_f: %s%sFields, _r: u16) -> Result<Self, Error> { Err(Error::Conversion(String::new())) }' % (v.name.lower(), d.name, v.name))
            for r, n in sorted(v.over.items()):
                if r <= k:
                    a.append('override(revision = %d, discriminant = %d)' % (r, n))
            if v.size and 'o' in ''.join(d.hist[:k]):
                a.append('size = "%s"' % v.size)
            pre = v.name.lower() + '_'
            tgt = '_f: &mut %s%sFields' % (d.name, v.name)
            if v.kind == 'unit':
                b = ''
            elif v.kind == 'tuple':
                b = '(%s)' % fields(v.fields, True, '', pre, tgt)
            else:
                b = ' { %s }' % fields(v.fields, False, '', pre, tgt)
            vs.append('    %s%s%s,' % (attr(a), v.name, b))
        out.append('pub enum %s {' % d.name)
        out += vs
        out.append('}')
    elif d.kind == 'tuple':
        out.append('pub struct %s(%s);' % (d.name, fields(d.fields, True, 'pub ', '', '&mut self')))
    else:
        out.append('pub struct %s { %s }' % (d.name, fields(d.fields, False, 'pub ', '', '&mut self')))
    if hooks:
        out.append('#[allow(dead_code, clippy::all)]')
        out.append('impl %s {' % d.name)
        out += ['    ' + h for h in hooks]
        out.append('}')
    return out


def source(decls=None):
    o = ['// generated by engine/fixspec.py', '#![allow(dead_code, unused_imports, unused_variables, unused_mut, non_camel_case_types)]']
    for d in decls or DECLS:
        o.append('pub mod %s {' % d.mod())
        for k in d.revs():
            o.append('  pub mod v%d {' % k)
            o.append('    use revision::prelude::*;')
            o.append('    use revision::Error;')
            o.append('    use std::collections::*;')
            o += ['    ' + l for l in render(d, k)]
            o.append('  }')
        o.append('}')
    return '\n'.join(o) + '\n'


if __name__ == '__main__':
    import os
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'fixture', 'src', 'decls.rs'), 'w') as f:
        f.write(source())
