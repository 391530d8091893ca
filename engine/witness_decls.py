"""Generator of ill-formed declarations (each with a well-formed twin) for the
compile-fail witnesses of R21.

A case is (rule, name, bad, good): two texts of a module body. `bad` breaks the
rule, `good` differs from it only in what the rule names."""

PRE = 'use revision::prelude::*;\nuse revision::Error;\n'


def legacy(n):
    return '#[revisioned(revision = %d)]' % n


def modern(n, opts=None):
    o = opts or {}
    return '#[revisioned(%s)]' % ', '.join('revision(%d%s)' % (k, (', ' + o[k]) if k in o else '') for k in range(1, n + 1))


def heads(n):
    """the ways of declaring a history of n revisions"""
    yield 'legacy', legacy(n), False
    yield 'modern', modern(n), False
    yield 'optimised', modern(n, {n: 'optimised'}), True
    if n > 1:
        yield 'alloptimised', modern(n, {k: 'optimised' for k in range(1, n + 1)}), True


def place(kind, head, opt, field_attr, ty='u32', alive=True, fns=''):
    """a declaration in which a field of type `ty` carries `field_attr`"""
    size = '#[revision(size = "varlen")] ' if opt else ''
    if kind == 'named':
        body = 'pub struct S { pub a: u8, %s pub b: %s }' % (field_attr, ty)
        who, recv = 'S', '&mut self'
    elif kind == 'tuple':
        body = 'pub struct S(pub u8, %s pub %s);' % (field_attr, ty)
        who, recv = 'S', '&mut self'
    elif kind == 'vnamed':
        body = 'pub enum S { %sV { a: u8, %s b: %s }, %sW }' % (size, field_attr, ty, size.replace('varlen', 'inline'))
        who, recv = 'S', '_f: &mut SVFields'
    else:
        body = 'pub enum S { %sV(u8, %s %s), %sW }' % (size, field_attr, ty, size.replace('varlen', 'inline'))
        who, recv = 'S', '_f: &mut SVFields'
    h = ''
    if 'cv' in fns:
        h += 'pub fn cv(%s, _r: u16, _v: %s) -> Result<(), Error> { Ok(()) } ' % (recv, ty)
    if 'df' in fns:
        h += 'pub fn df(_r: u16) -> Result<%s, Error> { Ok(Default::default()) } ' % ty
    return '%s\n%s\n%s' % (head, body, 'impl %s { %s}' % (who, h) if h else '')


PLACES = ('named', 'tuple', 'vnamed', 'vtuple')


def variant(head, opt, attr, fns='', size=None, body='V(u8)'):
    sz = '#[revision(size = "%s")] ' % (size or 'varlen') if opt else ''
    inl = '#[revision(size = "inline")] ' if opt else ''
    h = ''
    if 'cv' in fns:
        h = 'impl S { pub fn cv(_f: SVFields, _r: u16) -> Result<Self, Error> { Ok(S::W) } }'
    return '%s\npub enum S { %sW, %s%s %s }\n%s' % (head, inl, sz, attr, body, h)


def cases():
    out = []

    def add(rule, name, bad, good):
        out.append((rule, name, bad, good))

    # ---- revision number of the type -----------------------------------------------------
    for kind, body in (('struct', 'pub struct S { pub a: u8 }'), ('enum', 'pub enum S { A, B(u8) }'),
                       ('unit', 'pub struct S;'), ('tuple', 'pub struct S(pub u8);')):
        g1 = '#[revisioned(revision = 1)]\n' + body
        g2 = '#[revisioned(revision(1), revision(2))]\n' + body
        g3 = '#[revisioned(revision(1), revision(2), revision(3))]\n' + body
        add('no revision', '%s_none' % kind, '#[revisioned()]\n' + body, g1)
        add('no revision', '%s_only_options' % kind, '#[revisioned(skip = true)]\n' + body,
            '#[revisioned(revision = 1, skip = true)]\n' + body)
        add('revision given twice', '%s_twice' % kind, '#[revisioned(revision = 1, revision = 1)]\n' + body, g1)
        add('revision given twice', '%s_twice_differing' % kind, '#[revisioned(revision = 2, revision = 1)]\n' + body, g1)
        add('revision given twice', '%s_on_macro_and_item' % kind,
            '#[revisioned(revision = 1)]\n#[revision(revision = 1)]\n' + body, g1)
        add('revision given twice', '%s_on_macro_and_item_modern' % kind,
            '#[revisioned(revision(1))]\n#[revision(revision(1))]\n' + body, g1)
        add('revision out of range', '%s_zero' % kind, '#[revisioned(revision = 0)]\n' + body, g1)
        add('revision out of range', '%s_zero_modern' % kind, '#[revisioned(revision(0))]\n' + body, '#[revisioned(revision(1))]\n' + body)
        add('revision out of range', '%s_zero_and_one' % kind, '#[revisioned(revision(0), revision(1))]\n' + body, g2)
        add('contradictory history', '%s_legacy_and_modern' % kind, '#[revisioned(revision = 2, revision(1), revision(2))]\n' + body, g2)
        add('contradictory history', '%s_modern_and_legacy' % kind, '#[revisioned(revision(1), revision = 1)]\n' + body, g1)
        add('contradictory history', '%s_duplicate' % kind, '#[revisioned(revision(1), revision(2), revision(2))]\n' + body, g2)
        add('contradictory history', '%s_duplicate_first' % kind, '#[revisioned(revision(1), revision(1))]\n' + body, g2)
        add('contradictory history', '%s_duplicate_apart' % kind, '#[revisioned(revision(2), revision(1), revision(2))]\n' + body, g2)
        add('contradictory history', '%s_gap' % kind, '#[revisioned(revision(1), revision(3))]\n' + body, g3)
        add('contradictory history', '%s_gap_unordered' % kind, '#[revisioned(revision(4), revision(1), revision(2))]\n' + body,
            '#[revisioned(revision(3), revision(1), revision(2))]\n' + body)
        add('contradictory history', '%s_not_from_one' % kind, '#[revisioned(revision(2))]\n' + body, '#[revisioned(revision(1))]\n' + body)
        add('contradictory history', '%s_not_from_one_long' % kind, '#[revisioned(revision(2), revision(3))]\n' + body, g2)
    add('revision out of range', 'too_large', '#[revisioned(revision = 65536, skip = false, walk = false, deserialize = false)]\npub struct S;',
        '#[revisioned(revision = 300, skip = false, walk = false, deserialize = false)]\npub struct S;')
    add('revision out of range', 'too_large_full', '#[revisioned(revision = 65536)]\npub struct S;', '#[revisioned(revision = 40)]\npub struct S;')
    add('revision out of range', 'too_large_100000', '#[revisioned(revision = 100000)]\npub struct S;', '#[revisioned(revision = 40)]\npub struct S;')
    add('revision out of range', 'negative', '#[revisioned(revision = -1)]\npub struct S;', '#[revisioned(revision = 1)]\npub struct S;')
    add('revision out of range', 'string', '#[revisioned(revision = "1")]\npub struct S;', '#[revisioned(revision = 1)]\npub struct S;')
    add('revision out of range', 'overflow', '#[revisioned(revision(99999999999999999999999))]\npub struct S;', '#[revisioned(revision(1))]\npub struct S;')

    # ---- item options ---------------------------------------------------------------------
    for o in ('serialize', 'deserialize', 'skip', 'walk'):
        for a, b in (('true', 'true'), ('true', 'false'), ('false', 'true')):
            add('duplicate item option', '%s_%s_%s' % (o, a, b),
                '#[revisioned(revision = 1, %s = %s, %s = %s)]\npub struct S { pub a: u8 }' % (o, a, o, b),
                '#[revisioned(revision = 1, %s = true)]\npub struct S { pub a: u8 }' % o)
    add('unknown option', 'item', '#[revisioned(revision = 1, frob = true)]\npub struct S;', '#[revisioned(revision = 1)]\npub struct S;')
    add('unknown option', 'entry', '#[revisioned(revision(1, frob))]\npub struct S;', '#[revisioned(revision(1, optimised))]\npub struct S;')
    add('unknown option', 'field', '#[revisioned(revision = 1)]\npub struct S { #[revision(frob)] pub a: u8 }',
        '#[revisioned(revision = 1)]\npub struct S { #[revision(start = 1)] pub a: u8 }')
    add('unknown option', 'variant', '#[revisioned(revision = 1)]\npub enum S { #[revision(frob)] A }',
        '#[revisioned(revision = 1)]\npub enum S { #[revision(start = 1)] A }')
    for n in (1, 2):
        for k in range(1, n + 1):
            for val in ('indexed', 'frob', ''):
                for key in ('map', 'seq'):
                    add('unsupported container encoding', '%s_%s_%d_%d' % (key, val or 'empty', n, k),
                        modern(n, {k: 'optimised, %s = "%s"' % (key, val)}) + '\npub struct S { pub a: u8 }',
                        modern(n, {k: 'optimised, %s = "default"' % key}) + '\npub struct S { pub a: u8 }')
            add('encoding option without optimised', 'indexed_struct_%d_%d' % (n, k),
                modern(n, {k: 'indexed_struct'}) + '\npub struct S { pub a: u8 }',
                modern(n, {k: 'optimised, indexed_struct'}) + '\npub struct S { pub a: u8 }')

    # ---- field lifetimes -----------------------------------------------------------------
    for n in (1, 2, 3):
        for hn, head, opt in heads(n):
            for pl in PLACES:
                if hn == 'alloptimised' and pl.startswith('v'):
                    continue
                tag = '%s_%s_%d' % (pl, hn, n)
                good_s = place(pl, head, opt, '#[revision(start = %d, default_fn = "df")]' % n, fns=('df',))
                for x in (n + 1, n + 7):
                    add('start beyond the current revision', 'field_%s_%d' % (tag, x),
                        place(pl, head, opt, '#[revision(start = %d, default_fn = "df")]' % x, fns=('df',)), good_s)
                if n > 1:
                    conv = '#[revision(end = %d, convert_fn = "cv")]' % n
                    good_e = place(pl, head, opt, conv, alive=False, fns=('cv',))
                    add('removed without conversion', 'field_%s' % tag,
                        place(pl, head, opt, '#[revision(end = %d)]' % n, alive=False), good_e)
                    if n > 2:
                        add('removed without conversion', 'field_later_%s' % tag,
                            place(pl, head, opt, '#[revision(start = 2, end = %d)]' % n, alive=False),
                            place(pl, head, opt, '#[revision(start = 2, end = %d, convert_fn = "cv")]' % n, alive=False, fns=('cv',)))
                        add('contradictory lifetime', 'field_end_before_start_%s' % tag,
                            place(pl, head, opt, '#[revision(start = 3, end = 2, convert_fn = "cv")]', fns=('cv',)),
                            place(pl, head, opt, '#[revision(start = 2, end = 3, convert_fn = "cv")]', fns=('cv',)))
                    add('contradictory lifetime', 'field_empty_%s' % tag,
                        place(pl, head, opt, '#[revision(start = 2, end = 2, convert_fn = "cv")]', fns=('cv',)),
                        place(pl, head, opt, '#[revision(start = 1, end = 2, convert_fn = "cv")]', fns=('cv',)))
                    add('end beyond the current revision', 'field_%s' % tag,
                        place(pl, head, opt, '#[revision(end = %d, convert_fn = "cv")]' % (n + 1), fns=('cv',)), good_e)

    # ---- field options --------------------------------------------------------------------
    MP, SQ, ST = 'std::collections::BTreeMap<u8, u8>', 'Vec<u16>', 'std::collections::BTreeSet<u16>'
    opt1 = modern(1, {1: 'optimised'})
    for pl in PLACES:
        for hn, head, opt in heads(2):
            if hn == 'alloptimised':
                continue
            tag = '%s_%s' % (pl, hn)
            for nm, o1, o2, fns, ty in (
                    ('start', 'start = 1', 'start = 1', (), 'u32'), ('start_differs', 'start = 2', 'start = 1', (), 'u32'),
                    ('end', 'end = 2', 'end = 2', ('cv',), 'u32'),
                    ('convert', 'convert_fn = "cv"', 'convert_fn = "cv"', ('cv',), 'u32'),
                    ('default', 'default_fn = "df"', 'default_fn = "df"', ('df',), 'u32'),
                    ('fixed', 'fixed', 'fixed', (), 'u32'), ('specialised', 'specialised', 'specialised', (), 'Vec<u8>'),
                    ('indexed_map', 'indexed_map', 'indexed_map', (), MP), ('indexed_seq', 'indexed_seq', 'indexed_seq', (), SQ),
                    ('indexed_set', 'indexed_set', 'indexed_set', (), ST)):
                if nm.startswith('indexed') and not opt:
                    continue
                if nm == 'end':
                    ctx = ', convert_fn = "cv"'
                elif nm == 'convert':
                    ctx = ', end = 2'
                elif nm == 'default':
                    ctx = ', start = 2'
                else:
                    ctx = ''
                good = place(pl, head, opt, '#[revision(%s%s)]' % (o1, ctx), ty, fns=fns)
                add('duplicate field option', '%s_%s' % (nm, tag), place(pl, head, opt, '#[revision(%s, %s%s)]' % (o1, o2, ctx), ty, fns=fns), good)
                add('duplicate field option', '%s_apart_%s' % (nm, tag),
                    place(pl, head, opt, '#[revision(%s%s)] #[revision(%s)]' % (o1, ctx, o2), ty, fns=fns), good)
        for a, b, ty in (('indexed_map', 'indexed_seq', MP), ('indexed_seq', 'indexed_map', SQ), ('indexed_map', 'indexed_set', MP),
                         ('indexed_set', 'indexed_map', ST), ('indexed_seq', 'indexed_set', SQ), ('indexed_set', 'indexed_seq', ST)):
            good = place(pl, opt1, True, '#[revision(%s)]' % a, ty)
            add('conflicting field options', '%s_%s_%s' % (a, b, pl), place(pl, opt1, True, '#[revision(%s, %s)]' % (a, b), ty), good)
            add('conflicting field options', '%s_%s_apart_%s' % (a, b, pl), place(pl, opt1, True, '#[revision(%s)] #[revision(%s)]' % (a, b), ty), good)
        for ty in ('u8', 'u16', 'i8', 'i16', 'usize', 'isize', 'f32', 'f64', 'bool', 'char', 'String', 'Vec<u32>', 'Option<u32>',
                   '(u32,)', '[u32; 2]', 'std::num::Wrapping<u32>', 'std::primitive::u32', 'Box<u64>'):
            add('fixed on an unsupported type', '%s_%s' % (''.join(c if c.isalnum() else '_' for c in ty), pl),
                place(pl, legacy(1), False, '#[revision(fixed)]', ty), place(pl, legacy(1), False, '#[revision(fixed)]', 'u64'))
            add('fixed on an unsupported type', 'removed_%s_%s' % (''.join(c if c.isalnum() else '_' for c in ty), pl),
                place(pl, legacy(2), False, '#[revision(fixed, end = 2, convert_fn = "cv")]', ty, fns=('cv',)),
                place(pl, legacy(2), False, '#[revision(fixed, end = 2, convert_fn = "cv")]', 'i128', fns=('cv',)))
        add('fixed on an unsupported type', 'alias_%s' % pl,
            'pub type Id = u32;\n' + place(pl, legacy(1), False, '#[revision(fixed)]', 'Id'),
            'pub type Id = u32;\n' + place(pl, legacy(1), False, '#[revision(fixed)]', 'u32'))

    # ---- variants ------------------------------------------------------------------------
    for n in (1, 2, 3):
        for hn, head, opt in heads(n):
            tag = '%s_%d' % (hn, n)
            good_s = variant(head, opt, '#[revision(start = %d)]' % n)
            add('start beyond the current revision', 'variant_%s' % tag, variant(head, opt, '#[revision(start = %d)]' % (n + 1)), good_s)
            if n == 1:
                continue
            good_e = variant(head, opt, '#[revision(end = %d, convert_fn = "cv")]' % n, fns=('cv',))
            add('removed without conversion', 'variant_%s' % tag, variant(head, opt, '#[revision(end = %d)]' % n), good_e)
            add('end beyond the current revision', 'variant_%s' % tag,
                variant(head, opt, '#[revision(end = %d, convert_fn = "cv")]' % (n + 1), fns=('cv',)), good_e)
            add('contradictory lifetime', 'variant_empty_%s' % tag,
                variant(head, opt, '#[revision(start = 2, end = 2, convert_fn = "cv")]', fns=('cv',)),
                variant(head, opt, '#[revision(start = 1, end = 2, convert_fn = "cv")]', fns=('cv',)))
            if n > 2:
                add('contradictory lifetime', 'variant_end_before_start_%s' % tag,
                    variant(head, opt, '#[revision(start = 3, end = 2, convert_fn = "cv")]', fns=('cv',)),
                    variant(head, opt, '#[revision(start = 2, end = 3, convert_fn = "cv")]', fns=('cv',)))
            for nm, o, ctx in (('start', 'start = 1', ''), ('end', 'end = 2', ', convert_fn = "cv"'), ('convert', 'convert_fn = "cv"', ', end = 2'),
                               ('default', 'default_fn = "df"', ''), ('fields', 'fields_name = "SVFields"', ', end = 2, convert_fn = "cv"')):
                cv = ('cv',) if 'cv' in o + ctx else ()
                good = variant(head, opt, '#[revision(%s%s)]' % (o, ctx), fns=cv)
                add('duplicate variant option', '%s_%s' % (nm, tag), variant(head, opt, '#[revision(%s, %s%s)]' % (o, o, ctx), fns=cv), good)
                add('duplicate variant option', '%s_apart_%s' % (nm, tag), variant(head, opt, '#[revision(%s%s)] #[revision(%s)]' % (o, ctx, o), fns=cv), good)
    # overrides
    for n in (1, 2, 3):
        for hn, head, opt in heads(n):
            for k in range(1, n + 1):
                tag = '%s_%d_%d' % (hn, n, k)
                V, I = ('#[revision(size = "varlen")] ', '#[revision(size = "inline")] ') if opt else ('', '')

                def two(d1, d2, extra=''):
                    return ('%s\npub enum S { %s#[revision(override(revision = %d, discriminant = %d))] A, %sB, '
                            '%s#[revision(override(revision = %d, discriminant = %d)%s)] C(u8) }' % (head, I, k, d1, I, V, k, d2, extra))
                add('discriminant used twice', 'override_%s' % tag, two(5, 5), two(5, 6))
                add('discriminant used twice', 'override_zero_%s' % tag, two(0, 0), two(0, 6))
                add('discriminant used twice', 'override_last_%s' % tag, two(31, 31), two(31, 30))
                if opt and (k == n or hn == 'alloptimised'):
                    add('over-large discriminant', 'override_%s' % tag, two(5, 32), two(5, 31))
                    add('over-large discriminant', 'override_max_%s' % tag, two(5, 4294967295), two(5, 31))
                    add('over-large discriminant', 'override_first_%s' % tag, two(256, 3), two(25, 3))
                    add('over-large discriminant', 'override_37_%s' % tag, two(37, 3), two(7, 3))
                one = lambda o: '%s\npub enum S { %sA, %s#[revision(%s)] C(u8) }' % (head, I, V, o)
                good = one('override(revision = %d, discriminant = 4)' % k)
                add('duplicate variant option', 'override_discriminant_%s' % tag, one('override(revision = %d, discriminant = 4, discriminant = 5)' % k), good)
                add('duplicate variant option', 'override_revision_%s' % tag, one('override(revision = %d, revision = %d, discriminant = 4)' % (k, k)), good)
                add('duplicate variant option', 'override_same_revision_%s' % tag,
                    one('override(revision = %d, discriminant = 4), override(revision = %d, discriminant = 5)' % (k, k)), good)
            tag = '%s_%d' % (hn, n)
            V, I = ('#[revision(size = "varlen")] ', '#[revision(size = "inline")] ') if opt else ('', '')
            one = lambda o: '%s\npub enum S { %sA, %s#[revision(%s)] C(u8) }' % (head, I, V, o)
            add('override without a revision', tag, one('override(discriminant = 4)'), one('override(revision = 1, discriminant = 4)'))
            add('override beyond the current revision', tag, one('override(revision = %d, discriminant = 4)' % (n + 1)),
                one('override(revision = %d, discriminant = 4)' % n))
            add('override beyond the current revision', 'zero_' + tag, one('override(revision = 0, discriminant = 4)'),
                one('override(revision = 1, discriminant = 4)'))
            add('over-large discriminant', 'u32_' + tag, one('override(revision = 1, discriminant = 4294967296)'),
                one('override(revision = 1, discriminant = 3)'))

    # ---- optimised enums -------------------------------------------------------------------
    for n in (1, 2, 3):
        for k in range(1, n + 1):
            hs = [('only', modern(n, {k: 'optimised'}))]
            if n > 1:
                hs.append(('all', modern(n, {j: 'optimised' for j in range(1, n + 1)})))
            for hn, h in hs:
                tag = '%s_%d_%d' % (hn, n, k)
                # a variant alive exactly at revision k
                life = 'start = %d' % k + (', end = %d, convert_fn = "cv"' % (k + 1) if k < n else '')
                fn = '\nimpl S { pub fn cv(_f: SVFields, _r: u16) -> Result<Self, Error> { Ok(S::W) } }' if k < n else ''
                for vn, v in (('tuple', 'V(u8)'), ('named', 'V { a: u8 }'), ('unit', 'V')):
                    add('missing size class', '%s_%s' % (vn, tag),
                        '%s\npub enum S { #[revision(size = "inline")] W, #[revision(%s)] %s }%s' % (h, life, v, fn),
                        '%s\npub enum S { #[revision(size = "inline")] W, #[revision(size = "varlen", %s)] %s }%s' % (h, life, v, fn))
                    if vn != 'unit':
                        add('inline variant with fields', '%s_%s' % (vn, tag),
                            '%s\npub enum S { #[revision(size = "inline")] W, #[revision(size = "inline", %s)] %s }%s' % (h, life, v, fn),
                            '%s\npub enum S { #[revision(size = "inline")] W, #[revision(size = "varlen", %s)] %s }%s' % (h, life, v, fn))
                many = lambda m: '%s\npub enum S { #[revision(size = "inline")] W, %s #[revision(size = "inline", %s)] V }%s' % (
                    h, ' '.join('#[revision(size = "inline")] A%d,' % i for i in range(m - 2)), life, fn)
                add('too many variants', tag, many(33), many(32))
                if k == n:
                    add('too many variants', 'many_more_' + tag, many(40), many(32))
                # 32 variants, the implicit ones pushed beyond 31 by overrides
                pushed = lambda d: '%s\npub enum S { %s }' % (h, ' '.join(
                    '#[revision(size = "inline"%s)] A%d,' % (', override(revision = %d, discriminant = %d)' % (k, d) if i == 0 else '', i) for i in range(32)))
                add('over-large discriminant', 'pushed_%s' % tag, pushed(32), pushed(7))
        for bad in ('fixed(256)', 'fixed(-1)', 'fixed()', 'fixed(x)', 'fixed', 'fixed(8', 'Inline', 'var', '', 'varlen(4)', 'fixed(1000)'):
            add('bad size class', '%d_%s' % (n, ''.join(c if c.isalnum() else '_' for c in bad)),
                '%s\npub enum S { #[revision(size = "inline")] W, #[revision(size = "%s")] V(u8) }' % (modern(n, {n: 'optimised'}), bad),
                '%s\npub enum S { #[revision(size = "inline")] W, #[revision(size = "fixed(1)")] V(u8) }' % modern(n, {n: 'optimised'}))
    dup = lambda a: '%s\npub enum S { #[revision(size = "inline")] W, %s V(u8) }' % (opt1, a)
    add('duplicate variant option', 'size', dup('#[revision(size = "varlen", size = "varlen")]'), dup('#[revision(size = "varlen")]'))
    add('duplicate variant option', 'size_differs', dup('#[revision(size = "varlen")] #[revision(size = "fixed(1)")]'), dup('#[revision(size = "varlen")]'))

    # ---- traversal of converted types --------------------------------------------------------
    for what in ('serialize', 'deserialize'):
        for pl in PLACES:
            for hn, h0, opt in heads(2):
                if hn == 'alloptimised' and pl.startswith('v'):
                    continue
                head = lambda o: h0.replace(')]', ', %s)]' % o) if hn == 'legacy' else h0[:-2] + ', %s)]' % o
                add('traversal of a converted type without both directions', '%s_%s_%s' % (what, pl, hn),
                    place(pl, head('%s = false, walk = true' % what), opt, '#[revision(end = 2, convert_fn = "cv")]', fns=('cv',)),
                    place(pl, head('walk = true'), opt, '#[revision(end = 2, convert_fn = "cv")]', fns=('cv',)))
    return out


def type_cases():
    """declarations refused by the type checker, after expansion"""
    out = []
    for pl in PLACES:
        for ty in ('u32', 'Vec<String>', 'Vec<Vec<u8>>', 'Option<Vec<u8>>', 'std::collections::VecDeque<u32>', 'String', '[u8; 4]', 'Box<Vec<u8>>',
                   'Vec<char>', 'Vec<Option<u8>>'):
            out.append(('specialised on an unsupported type', '%s_%s' % (''.join(c if c.isalnum() else '_' for c in ty), pl),
                        place(pl, legacy(1), False, '#[revision(specialised)]', ty), place(pl, legacy(1), False, '#[revision(specialised)]', 'Vec<u8>')))
        opt1 = modern(1, {1: 'optimised'})
        # the attribute takes effect for fields of optimised structs
        if pl in ('named', 'tuple'):
            for at, bad, good in (('indexed_map', 'u32', 'std::collections::BTreeMap<u8, u8>'), ('indexed_seq', 'u32', 'Vec<u16>'),
                                  ('indexed_set', 'Vec<u8>', 'std::collections::BTreeSet<u16>'),
                                  ('indexed_map', 'Vec<(u8, u8)>', 'std::collections::BTreeMap<u8, u8>'),
                                  ('indexed_seq', 'std::collections::BTreeMap<u8, u8>', 'Vec<u16>')):
                out.append(('indexed encoding of an unsupported type', '%s_%s_%s' % (at, ''.join(c if c.isalnum() else '_' for c in bad), pl),
                            place(pl, opt1, True, '#[revision(%s)]' % at, bad), place(pl, opt1, True, '#[revision(%s)]' % at, good)))
        nd = 'pub struct N(pub u8);\n'
        out.append(('added field without a default', pl,
                    nd + place(pl, legacy(2), False, '#[revision(start = 2)]', 'std::rc::Rc<u8>') if False else
                    place(pl, legacy(2), False, '#[revision(start = 2)]', 'Result<u8, u8>'),
                    place(pl, legacy(2), False, '#[revision(start = 2, default_fn = "df")]', 'Option<u8>', fns=('df',))))
        out.append(('field type without an encoding', pl, nd + place(pl, legacy(1), False, '', 'N'), nd + place(pl, legacy(1), False, '', 'u8')))
        for nm, b, g in (('wrong_type', '_v: u64', '_v: u32'), ('no_revision', None, None)):
            recv = '&mut self' if pl in ('named', 'tuple') else '_f: &mut SVFields'
            at = '#[revision(end = 2, convert_fn = "cv")]'
            good = place(pl, legacy(2), False, at) + 'impl S { pub fn cv(%s, _r: u16, _v: u32) -> Result<(), Error> { Ok(()) } }' % recv
            bad = (place(pl, legacy(2), False, at) + 'impl S { pub fn cv(%s, %s) -> Result<(), Error> { Ok(()) } }' % (
                recv, '_r: u16, ' + b if b else '_v: u32'))
            out.append(('conversion of the wrong shape', '%s_%s' % (nm, pl), bad, good))
        out.append(('conversion of the wrong shape', 'missing_%s' % pl, place(pl, legacy(2), False, '#[revision(end = 2, convert_fn = "cv")]'),
                    place(pl, legacy(2), False, '#[revision(end = 2, convert_fn = "cv")]', fns=('cv',))))
        out.append(('default of the wrong shape', 'type_%s' % pl,
                    place(pl, legacy(2), False, '#[revision(start = 2, default_fn = "df")]', 'u32') +
                    'impl S { pub fn df(_r: u16) -> Result<u64, Error> { Ok(1) } }',
                    place(pl, legacy(2), False, '#[revision(start = 2, default_fn = "df")]', 'u32', fns=('df',))))
        out.append(('default of the wrong shape', 'no_revision_%s' % pl,
                    place(pl, legacy(2), False, '#[revision(start = 2, default_fn = "df")]', 'u32') +
                    'impl S { pub fn df() -> Result<u32, Error> { Ok(1) } }',
                    place(pl, legacy(2), False, '#[revision(start = 2, default_fn = "df")]', 'u32', fns=('df',))))
    return out


if __name__ == '__main__':
    print(len(cases()), len(type_cases()))
