"""Client programs that misuse cursors and zero-copy views, each with a correct twin (R24)."""
import re


PRE = '''use revision::prelude::*;
use revision::*;
use revision::walk::*;
use revision::optimised::*;
use revision::optimised::indexed::*;
use std::io::Read;
use std::collections::*;
type M = BTreeMap<String, Vec<u8>>;
type U = BTreeMap<String, u32>;
fn is<T>(_t: T) {}
fn eq(_: &[u8]) -> std::cmp::Ordering { std::cmp::Ordering::Equal }
'''

LIB = '''
pub mod decl {
    use revision::prelude::*;
    use std::collections::*;
    #[revisioned(revision = 1)]
    pub struct P { pub a: u32, pub s: String, pub v: Vec<u16> }
    #[revisioned(revision(1, optimised))]
    pub struct Q { pub a: u32, #[revision(indexed_map)] pub m: BTreeMap<String, u32>, #[revision(indexed_seq)] pub l: Vec<u16>, #[revision(indexed_set)] pub t: BTreeSet<u16> }
    #[revisioned(revision(1, optimised, indexed_struct))]
    pub struct X { pub a: u32, #[revision(indexed_map)] pub m: BTreeMap<String, u32>, #[revision(indexed_seq)] pub l: Vec<u16>, #[revision(indexed_set)] pub t: BTreeSet<u16> }
    #[revisioned(revision = 1)]
    pub enum E { A, B(u32), C(String, u8), D { x: u8 } }
    #[revisioned(revision(1, optimised))]
    pub enum O { #[revision(size = "inline")] A, #[revision(size = "varlen")] B(String), #[revision(size = "varlen")] C(u8, u8) }
}
'''

LEAF, OPT, RES, SEQ, MAP = 'u32', 'Option<u32>', 'Result<u32, String>', 'Vec<String>', 'M'
D = 'crate::decl::'


def fn(body, sig='r: &mut R'):
    return 'pub fn f<R: BorrowedReader>(%s) -> Result<(), Error> {\n%s\nOk(())\n}' % (sig, body)


# walker construction from `r: &mut R` -> local `w`
MK = {
    'LeafWalker': 'let mut w = <String as WalkRevisioned>::walk_revisioned(r)?;',
    'OptionWalker': 'let mut w = <Option<u32> as WalkRevisioned>::walk_revisioned(r)?;',
    'ResultWalker': 'let mut w = <Result<u32, String> as WalkRevisioned>::walk_revisioned(r)?;',
    'SeqWalker': 'let mut w = <Vec<String> as WalkRevisioned>::walk_revisioned(r)?;',
    'SetWalker': 'let mut w = <BTreeSet<String> as WalkRevisioned>::walk_revisioned(r)?;',
    'MapWalker': 'let mut w = <BTreeMap<String, String> as WalkRevisioned>::walk_revisioned(r)?;',
    'StructWalker': 'let mut w = StructWalker::new(r, 1);',
    'EnumWalker': 'let mut w = EnumWalker::new(r, 1)?;',
    'SeqItem': 'let mut s = <Vec<String> as WalkRevisioned>::walk_revisioned(r)?; let mut w = s.next_item().unwrap();',
    'MapEntry': 'let mut s = <BTreeMap<String, String> as WalkRevisioned>::walk_revisioned(r)?; let mut w = s.next_entry().unwrap();',
    'derived struct': 'let mut w = <crate::decl::P as WalkRevisioned>::walk_revisioned(r)?;',
    'derived optimised struct': 'let mut w = <crate::decl::Q as WalkRevisioned>::walk_revisioned(r)?;',
    'derived indexed struct': 'let mut w = <crate::decl::X as WalkRevisioned>::walk_revisioned(r)?;',
    'derived enum': 'let mut w = <crate::decl::E as WalkRevisioned>::walk_revisioned(r)?;',
    'derived optimised enum': 'let mut w = <crate::decl::O as WalkRevisioned>::walk_revisioned(r)?;',
}
# operations that finish the cursor
FIN = {
    'LeafWalker': ['decode()', 'skip()', 'walk()', 'with_bytes(|b| b.len())'],
    'OptionWalker': ['decode()', 'skip()', 'into_some()'],
    'ResultWalker': ['decode()', 'skip()', 'into_ok()', 'into_err()'],
    'SeqWalker': ['skip_remaining()'],
    'SetWalker': ['skip_remaining()'],
    'MapWalker': ['skip_remaining()', 'find(|_| std::cmp::Ordering::Less)', 'find_bytes(|_| std::cmp::Ordering::Less)'],
    'StructWalker': ['into_walk::<u32>()'],
    'EnumWalker': ['decode::<u32>()', 'skip::<u32>()', 'into_walk::<u32>()'],
    'SeqItem': ['decode()', 'skip()', 'walk()', 'with_bytes(|b| b.len())'],
    'MapEntry': ['decode_value()', 'skip_value()', 'walk_value()', 'decode_pair()', 'skip_pair()', 'with_value_bytes(|b| b.len())'],
    'derived struct': ['into_walk_a()', 'into_walk_s()', 'into_walk_v()', 'into_a_bytes()', 'into_s_bytes()'],
    'derived optimised struct': ['into_walk_a()', 'into_walk_m()', 'into_walk_l()', 'into_walk_t()', 'into_m_bytes()', 'into_a_bytes()'],
    'derived indexed struct': ['into_walk_a()', 'into_walk_m()', 'into_walk_l()', 'into_walk_t()', 'into_m_bytes()', 'into_a_bytes()'],
    'derived enum': ['into_a()', 'decode_a()', 'into_b()', 'decode_b()', 'b_view()', 'c_view()', 'd_view()'],
    'derived optimised enum': ['into_a()', 'decode_a()', 'into_b()', 'decode_b()', 'b_view()', 'c_view()'],
}
# operations on a live cursor
USE = {
    'LeafWalker': 'is(w.reader());', 'OptionWalker': 'is(w.is_some());', 'ResultWalker': 'is(w.is_ok());', 'SeqWalker': 'is(w.remaining());',
    'SetWalker': 'is(w.remaining());', 'MapWalker': 'is(w.remaining());', 'StructWalker': 'is(w.revision());', 'EnumWalker': 'is(w.discriminant());',
    'SeqItem': 'w.skip()?;', 'MapEntry': 'w.skip_key()?;', 'derived struct': 'is(w.revision());', 'derived optimised struct': 'is(w.revision());',
    'derived indexed struct': 'is(w.revision());', 'derived enum': 'is(w.discriminant());', 'derived optimised enum': 'is(w.discriminant());',
}
READER = {'LeafWalker': 'into_reader()', 'StructWalker': 'into_reader()', 'EnumWalker': 'into_reader()'}


def cases():
    out = []

    def add(rule, name, bad, good):
        out.append((rule, name, bad, good))

    # ---- a cursor used after it was consumed ---------------------------------------------------
    for k, ops in FIN.items():
        if k in READER:
            ops = ops + [READER[k]]
        for o in ops:
            end = 'is(w.%s);' % o
            add('cursor used after it was consumed', '%s.%s' % (k, o.split('(')[0]), fn(MK[k] + '\n' + end + '\n' + USE[k]),
                fn(MK[k] + '\n' + (USE[k] if k != 'SeqItem' else '') + '\n' + end))
            for o2 in ops:
                add('cursor consumed twice', '%s.%s_%s' % (k, o.split('(')[0], o2.split('(')[0]),
                    fn(MK[k] + '\n' + end + '\nis(w.%s);' % o2), fn(MK[k] + '\n' + end))
    # ---- two live cursors over one reader --------------------------------------------------------
    for k in MK:
        if k in ('SeqItem', 'MapEntry'):
            continue
        mk2 = MK[k].replace('let mut w', 'let mut w2')
        add('two live cursors over one reader', k, fn(MK[k] + '\n' + mk2 + '\n' + USE[k]), fn(MK[k] + '\n' + USE[k] + '\n' + mk2))
        add('reader used while a cursor over it is live', k + ' decode', fn(MK[k] + '\nis(u8::deserialize_revisioned(r)?);\n' + USE[k]),
            fn(MK[k] + '\n' + USE[k] + '\nis(u8::deserialize_revisioned(r)?);'))
        add('reader used while a cursor over it is live', k + ' skip', fn(MK[k] + '\nr.advance(1)?;\n' + USE[k]),
            fn(MK[k] + '\n' + USE[k] + '\nr.advance(1)?;'))
        add('reader replaced while a cursor over it is live', k,
            "pub fn f<'b>(mut rr: &'b [u8], o: &'b [u8]) -> Result<(), Error> { { let r = &mut rr; %s rr = o; %s } Ok(()) }" % (MK[k], USE[k]),
            "pub fn f<'b>(mut rr: &'b [u8], o: &'b [u8]) -> Result<(), Error> { { let r = &mut rr; %s %s rr = o; } Ok(()) }" % (MK[k], USE[k]))
        use = USE[k]
        add('cursor outlives its reader', k,
            "pub fn f(b: &[u8]) -> Result<(), Error> { let mut w; { let mut rr = b; let r = &mut rr; %s } %s Ok(()) }" % (MK[k].replace('let mut w', 'w'), use),
            "pub fn f(b: &[u8]) -> Result<(), Error> { let mut w; let mut rr = b; let r = &mut rr; { %s } %s Ok(()) }" % (MK[k].replace('let mut w', 'w'), use))
        add('cursor outlives its buffer', k,
            "pub fn f() -> Result<(), Error> { let mut b = vec![0u8; 64]; let mut rr = &b[..]; let r = &mut rr; %s b.clear(); %s Ok(()) }" % (MK[k], use),
            "pub fn f() -> Result<(), Error> { let mut b = vec![0u8; 64]; let mut rr = &b[..]; let r = &mut rr; %s %s b.clear(); Ok(()) }" % (MK[k], use))
        add('cursor outlives its buffer', k + ' SliceReader',
            "pub fn f() -> Result<(), Error> { let mut b = vec![0u8; 64]; let mut rr = SliceReader::new(&b[..]); let r = &mut rr; %s b[0] = 1; %s Ok(()) }" % (MK[k], use),
            "pub fn f() -> Result<(), Error> { let mut b = vec![0u8; 64]; let mut rr = SliceReader::new(&b[..]); let r = &mut rr; %s %s b[0] = 1; Ok(()) }" % (MK[k], use))
    # items of sequences and maps
    for k, nxt, use in (('SeqWalker', 'next_item', 'skip()?'), ('SetWalker', 'next_item', 'skip()?'), ('MapWalker', 'next_entry', 'skip_pair()?')):
        one, two = 'let a = w.%s().unwrap();' % nxt, 'let b = w.%s().unwrap();' % nxt
        add('two live items of one cursor', k, fn(MK[k] + one + two + 'a.%s; b.%s;' % (use, use)), fn(MK[k] + one + 'a.%s;' % use + two + 'b.%s;' % use))
        add('cursor used while an item is live', k + ' remaining', fn(MK[k] + one + 'is(w.remaining()); a.%s;' % use),
            fn(MK[k] + one + 'a.%s; is(w.remaining());' % use))
        add('cursor used while an item is live', k + ' finish', fn(MK[k] + one + 'w.skip_remaining()?; a.%s;' % use),
            fn(MK[k] + one + 'a.%s; w.skip_remaining()?;' % use))
        add('item outlives its cursor', k, fn('let a; { %s a = w.%s().unwrap(); } a.%s;' % (MK[k], nxt, use)),
            fn('{ %s let a = w.%s().unwrap(); a.%s; }' % (MK[k], nxt, use)))
    seqseq = 'let mut w = <Vec<Vec<u8>> as WalkRevisioned>::walk_revisioned(r)?;'
    seqs = 'let mut w = <Vec<Vec<String>> as WalkRevisioned>::walk_revisioned(r)?;'
    add('cursor used while a child cursor is live', 'SeqItem.walk', fn(seqs + 'let c = w.next_item().unwrap().walk()?; is(w.next_item().is_some()); c.skip_remaining()?;'),
        fn(seqs + 'let c = w.next_item().unwrap().walk()?; c.skip_remaining()?; is(w.next_item().is_some());'))
    mp = 'let mut w = <BTreeMap<u8, Vec<String>> as WalkRevisioned>::walk_revisioned(r)?;'
    add('cursor used while a child cursor is live', 'MapEntry.walk_value',
        fn(mp + 'let mut e = w.next_entry().unwrap(); e.skip_key()?; let c = e.walk_value()?; is(w.next_entry().is_some()); c.skip_remaining()?;'),
        fn(mp + 'let mut e = w.next_entry().unwrap(); e.skip_key()?; let c = e.walk_value()?; c.skip_remaining()?; is(w.next_entry().is_some());'))
    add('cursor used while a child cursor is live', 'MapEntry.walk_value entry',
        fn(mp + 'let mut e = w.next_entry().unwrap(); e.skip_key()?; let c = e.walk_value()?; e.skip_key()?; c.skip_remaining()?;'),
        fn(mp + 'let mut e = w.next_entry().unwrap(); e.skip_key()?; let c = e.walk_value()?; c.skip_remaining()?;'))
    add('cursor used while a child cursor is live', 'StructWalker.walk',
        fn(MK['StructWalker'] + 'let c = w.walk::<Vec<String>>()?; w.skip::<u8>()?; c.skip_remaining()?;'),
        fn(MK['StructWalker'] + 'let c = w.walk::<Vec<String>>()?; c.skip_remaining()?; w.skip::<u8>()?;'))
    for who in ('derived struct',):
        add('cursor used while a child cursor is live', who + ' walk',
            fn(MK[who] + 'let c = w.walk_v()?; w.skip_a()?; c.skip_remaining()?;'), fn(MK[who] + 'let c = w.walk_v()?; c.skip_remaining()?; w.skip_a()?;'))
        add('cursor used while a child cursor is live', who + ' walk leaf',
            fn(MK[who] + 'let c = w.walk_s()?; w.skip_v()?; c.skip()?;'), fn(MK[who] + 'let c = w.walk_s()?; c.skip()?; w.skip_v()?;'))
    for k in ('LeafWalker', 'StructWalker', 'EnumWalker'):
        add('cursor used while its reader is lent out', k, fn(MK[k] + 'let q = w.reader(); is(w.%s); q.advance(1)?;' % FIN[k][0]),
            fn(MK[k] + 'let q = w.reader(); q.advance(1)?; is(w.%s);' % FIN[k][0]))
    # ---- borrowed bytes leaving the closure they are lent to ---------------------------------------
    for nm, mk, call in (('LeafWalker.with_bytes', MK['LeafWalker'], 'w.with_bytes(|b| { %s })?;'),
                         ('SeqItem.with_bytes', MK['SeqItem'], 'w.with_bytes(|b| { %s })?;'),
                         ('MapEntry.with_key_bytes', MK['MapEntry'], 'w.with_key_bytes(|b| { %s })?;'),
                         ('MapEntry.with_value_bytes', MK['MapEntry'] + 'w.skip_key()?;', 'w.with_value_bytes(|b| { %s })?;'),
                         ('MapWalker.find_bytes', MK['MapWalker'], 'w.find_bytes(|b| { %s std::cmp::Ordering::Less })?;')):
        add('lent bytes leave their closure', nm, fn('let mut keep: Option<&[u8]> = None;' + mk + call % 'keep = Some(b);' + 'is(keep);'),
            fn('let mut keep: Option<Vec<u8>> = None;' + mk + call % 'keep = Some(b.to_vec());' + 'is(keep);'))
        if 'with' in nm:
            pre, post = call.split('{ %s }')
            add('lent bytes leave their closure', nm + ' returned', fn(mk + 'let k: &[u8] = %s b %s is(k);' % (pre, post)),
                fn(mk + 'let k: Vec<u8> = %s b.to_vec() %s is(k);' % (pre, post)))
    add('lent key leaves its closure', 'MapWalker.find',
        fn('let mut keep: Option<&String> = None;' + MK['MapWalker'] + 'w.find(|k| { keep = Some(k); std::cmp::Ordering::Less })?; is(keep);'),
        fn('let mut keep: Option<String> = None;' + MK['MapWalker'] + 'w.find(|k| { keep = Some(k.clone()); std::cmp::Ordering::Less })?; is(keep);'))
    add('raw bytes of a value that is not length-prefixed', 'LeafWalker', fn('let w = <u32 as WalkRevisioned>::walk_revisioned(r)?; w.with_bytes(|b| b.len())?;'),
        fn('let w = <String as WalkRevisioned>::walk_revisioned(r)?; w.with_bytes(|b| b.len())?;'))
    add('raw bytes of a value that is not length-prefixed', 'SeqItem',
        fn('let mut w = <Vec<u32> as WalkRevisioned>::walk_revisioned(r)?; w.next_item().unwrap().with_bytes(|b| b.len())?;'),
        fn('let mut w = <Vec<String> as WalkRevisioned>::walk_revisioned(r)?; w.next_item().unwrap().with_bytes(|b| b.len())?;'))
    add('raw bytes of a value that is not length-prefixed', 'MapEntry key',
        fn('let mut w = <BTreeMap<u32, u8> as WalkRevisioned>::walk_revisioned(r)?; w.next_entry().unwrap().with_key_bytes(|b| b.len())?;'),
        fn('let mut w = <BTreeMap<String, u8> as WalkRevisioned>::walk_revisioned(r)?; w.next_entry().unwrap().with_key_bytes(|b| b.len())?;'))
    add('raw bytes of a value that is not length-prefixed', 'find_bytes',
        fn('let w = <BTreeMap<u32, u8> as WalkRevisioned>::walk_revisioned(r)?; w.find_bytes(|_| std::cmp::Ordering::Less)?;'),
        fn('let w = <BTreeMap<String, u8> as WalkRevisioned>::walk_revisioned(r)?; w.find_bytes(|_| std::cmp::Ordering::Less)?;'))
    for t in ('char', 'u64', 'Option<String>', 'Vec<u16>', 'Vec<String>', '(String, u8)', 'bool'):
        add('raw bytes of a value that is not length-prefixed', t, 'pub fn g<T: LengthPrefixedBytes>() {} pub fn f() { g::<%s>() }' % t,
            'pub fn g<T: LengthPrefixedBytes>() {} pub fn f() { g::<String>() }')
    # ---- borrowed views -----------------------------------------------------------------------------
    G = 'pub fn f(p: &[u8]) -> Result<(), Error> { %s Ok(()) }'
    VIEWS = [
        ('IndexedMapWalker', "IndexedMapWalker::<'_, String, u32>::from_payload(%s)?"),
        ('IndexedMapWalker unvalidated', "IndexedMapWalker::<'_, String, u32>::from_payload_unvalidated(%s)?"),
        ('IndexedSeqWalker', "IndexedSeqWalker::<'_, u16>::from_payload(%s)?"),
        ('IndexedSeqWalker unvalidated', "IndexedSeqWalker::<'_, u16>::from_payload_unvalidated(%s)?"),
        ('IndexedStructWalker', 'IndexedStructWalker::from_payload(%s, 1, 2)?'),
        ('IndexedStructWalker unvalidated', 'IndexedStructWalker::from_payload_unvalidated(%s, 1, 2)'),
        ('SliceReader', 'SliceReader::new(%s)'),
        ('SliceReader.sub', 'SliceReader::new(%s).sub(0, 1)?'),
        ('IndexedMapView', "IndexedMapView::<'_, String, u32>::new(std::borrow::Cow::Borrowed(%s))"),
        ('IndexedSeqView', "IndexedSeqView::<'_, u16>::new(std::borrow::Cow::Borrowed(%s))"),
        ('IndexedSetView', "IndexedSetView::<'_, u16>::new(std::borrow::Cow::Borrowed(%s))"),
        ('VariantView', "VariantView::<'_, u16>::new(std::borrow::Cow::Borrowed(%s))"),
        ('IndexedMapWalker.find_value_bytes', "IndexedMapWalker::<'_, String, u32>::from_payload(%s)?.find_value_bytes(eq)?"),
        ('IndexedMapWalker.legacy_body', "IndexedMapWalker::<'_, String, u32>::from_payload(%s)?.legacy_body()"),
        ('IndexedMapWalker.entries', "IndexedMapWalker::<'_, String, u32>::from_payload(%s)?.entries().map(|i| i.collect::<Vec<_>>())"),
        ('IndexedSeqWalker.element_bytes', "IndexedSeqWalker::<'_, u16>::from_payload(%s)?.element_bytes(0)?"),
        ('IndexedSeqWalker.body', "IndexedSeqWalker::<'_, u16>::from_payload(%s)?.body()"),
        ('IndexedStructWalker.field_bytes', 'IndexedStructWalker::from_payload(%s, 1, 2)?.field_bytes(0)?'),
        ('take_bytes_slice', 'slice_reader::take_bytes_slice(&mut (%s), 1)?'),
        ('take_bytes_reader', 'slice_reader::take_bytes_reader(&mut SliceReader::new(%s), 1)?'),
        ('IndexedMapView.into_bytes', "IndexedMapView::<'_, String, u32>::new(std::borrow::Cow::Borrowed(%s)).into_bytes()"),
        ('IndexedSeqView.into_bytes', "IndexedSeqView::<'_, u16>::new(std::borrow::Cow::Borrowed(%s)).into_bytes()"),
        ('IndexedSetView.into_bytes', "IndexedSetView::<'_, u16>::new(std::borrow::Cow::Borrowed(%s)).into_bytes()"),
        ('VariantView.into_bytes', "VariantView::<'_, u16>::new(std::borrow::Cow::Borrowed(%s)).into_bytes()"),
        ('read_borrowed_bytes', 'read_borrowed_bytes(&mut rr, 1)?'),
        ('read_varlen_slice', 'envelope::read_varlen_slice(&mut rr)?'),
        ('peek_bytes', 'BorrowedReader::peek_bytes(&rr, 1)?'),
        ('remaining', 'BorrowedReader::remaining(&rr)'),
        ('derived walk_m', '<crate::decl::Q as WalkRevisioned>::walk_revisioned(&mut rr)?.into_walk_m()?'),
        ('derived into_m_bytes', '<crate::decl::Q as WalkRevisioned>::walk_revisioned(&mut rr)?.into_m_bytes()?'),
        ('derived indexed walk_m', '<crate::decl::X as WalkRevisioned>::walk_revisioned(&mut rr)?.into_walk_m()?'),
        ('derived indexed walk_l', '<crate::decl::X as WalkRevisioned>::walk_revisioned(&mut rr)?.into_walk_l()?'),
        ('derived indexed walk_t', '<crate::decl::X as WalkRevisioned>::walk_revisioned(&mut rr)?.into_walk_t()?'),
        ('derived indexed into_a_bytes', '<crate::decl::X as WalkRevisioned>::walk_revisioned(&mut rr)?.into_a_bytes()?'),
        ('derived variant view', '<crate::decl::O as WalkRevisioned>::walk_revisioned(&mut rr)?.b_view()?'),
    ]
    for nm, ex in VIEWS:
        needs = bool(re.search(r'\brr\b', ex))
        src = (lambda b: 'let mut rr: &[u8] = %s;' % b) if needs else (lambda b: '')
        mk = lambda b: ex if needs else ex % b
        add('view outlives its buffer', nm,
            G % ('let v; { let b: Vec<u8> = p.to_vec(); %s v = %s; } is(&v);' % (src('&b[..]'), mk('&b[..]'))),
            G % ('let b: Vec<u8> = p.to_vec(); let v; %s { v = %s; } is(&v);' % (src('&b[..]'), mk('&b[..]'))))
        add('buffer changed while a view is live', nm,
            G % ('let mut b: Vec<u8> = p.to_vec(); %s let v = %s; b[0] = 1; is(&v);' % (src('&b[..]'), mk('&b[..]'))),
            G % ('let mut b: Vec<u8> = p.to_vec(); { %s let v = %s; is(&v); } b[0] = 1;' % (src('&b[..]'), mk('&b[..]'))))
        add('buffer dropped while a view is live', nm,
            G % ('let b: Vec<u8> = p.to_vec(); %s let v = %s; drop(b); is(&v);' % (src('&b[..]'), mk('&b[..]'))),
            G % ('let b: Vec<u8> = p.to_vec(); { %s let v = %s; is(&v); } drop(b);' % (src('&b[..]'), mk('&b[..]'))))
        add('view escapes as static', nm,
            "pub fn st<T: 'static>(_t: T) {} " + G % ('let b: Vec<u8> = p.to_vec(); %s st(%s);' % (src('&b[..]'), mk('&b[..]'))),
            "pub fn st<T>(_t: T) {} " + G % ('let b: Vec<u8> = p.to_vec(); %s st(%s);' % (src('&b[..]'), mk('&b[..]'))))
    # walkers borrowed from owning views
    for v, w in (('IndexedMapView', 'String, u32'), ('IndexedSeqView', 'u16'), ('IndexedSetView', 'u16')):
        mk = "let v = %s::<'static, %s>::new(std::borrow::Cow::Owned(p.to_vec()));" % (v, w)
        add('walker outlives the view that owns its bytes', v, G % (mk + 'let k = v.walker()?; drop(v); is(&k);'), G % (mk + 'let k = v.walker()?; is(&k); drop(v);'))
        add('bytes outlive the view that owns them', v, G % (mk + 'let k = v.as_bytes(); drop(v); is(&k);'), G % (mk + 'let k = v.as_bytes(); is(&k); drop(v);'))
    mk = "let v = VariantView::<'static, u16>::new(std::borrow::Cow::Owned(p.to_vec()));"
    add('bytes outlive the view that owns them', 'VariantView', G % (mk + 'let k = v.as_bytes(); drop(v); is(&k);'), G % (mk + 'let k = v.as_bytes(); is(&k); drop(v);'))
    # views obtained through a reader keep that reader borrowed
    for nm, ex in (('read_borrowed_bytes', 'read_borrowed_bytes(r, 1)?'), ('read_varlen_slice', 'envelope::read_varlen_slice(r)?'),
                   ('peek_bytes', 'r.peek_bytes(1)?'), ('remaining', 'BorrowedReader::remaining(r)'),
                   ('derived into_walk_m', '<crate::decl::Q as WalkRevisioned>::walk_revisioned(r)?.into_walk_m()?'),
                   ('derived walk_m', '<crate::decl::Q as WalkRevisioned>::walk_revisioned(r)?.walk_m()?'),
                   ('derived walk_l', '<crate::decl::Q as WalkRevisioned>::walk_revisioned(r)?.walk_l()?'),
                   ('derived walk_t', '<crate::decl::Q as WalkRevisioned>::walk_revisioned(r)?.walk_t()?'),
                   ('derived into_a_bytes', '<crate::decl::Q as WalkRevisioned>::walk_revisioned(r)?.into_a_bytes()?'),
                   ('derived legacy into_s_bytes', '<crate::decl::P as WalkRevisioned>::walk_revisioned(r)?.into_s_bytes()?'),
                   ('derived indexed walk_m', '<crate::decl::X as WalkRevisioned>::walk_revisioned(r)?.walk_m()?'),
                   ('derived indexed into_l_bytes', '<crate::decl::X as WalkRevisioned>::walk_revisioned(r)?.into_l_bytes()?'),
                   ('derived variant view', '<crate::decl::O as WalkRevisioned>::walk_revisioned(r)?.b_view()?')):
        add('reader used while borrowed bytes are live', nm, fn('let v = %s; is(u8::deserialize_revisioned(r)?); is(&v);' % ex),
            fn('let v = %s; is(&v); is(u8::deserialize_revisioned(r)?);' % ex))
        add('borrowed bytes outlive the borrow of the reader', nm,
            "pub fn f<'r, R: BorrowedReader + 'r>(r: &mut R) -> Result<Vec<u8>, Error> { fn hold<'k, T: 'k>(_a: &'k u8, t: T) -> T { t } let x: u8 = 1; "
            "let v = { let mut q: R2<R> = R2(r); let r = &mut q; %s }; is(&v); Ok(vec![]) } %s" % (ex, R2),
            "pub fn f<'r, R: BorrowedReader + 'r>(r: &mut R) -> Result<Vec<u8>, Error> { "
            "{ let mut q: R2<R> = R2(r); let r = &mut q; let v = %s; is(&v); } Ok(vec![]) } %s" % (ex, R2))
    # ---- the contract zero-copy access rests on ---------------------------------------------------------
    imp = '''pub struct K(Vec<u8>);
impl Read for K { fn read(&mut self, _b: &mut [u8]) -> std::io::Result<usize> { Ok(0) } }
%s impl BorrowedReader for K {
fn peek_bytes(&self, n: usize) -> Result<&[u8], Error> { Ok(&self.0[..n]) }
fn advance(&mut self, _n: usize) -> Result<(), Error> { Ok(()) }
fn position(&self) -> usize { 0 }
fn remaining(&self) -> &[u8] { &self.0 }
}'''
    add('reader contract asserted by safe code', 'impl', imp % '', imp % 'unsafe')
    for t, mk in (('std::io::Cursor<Vec<u8>>', 'std::io::Cursor::new(vec![0u8])'), ('std::io::Empty', 'std::io::empty()'),
                  ('std::fs::File', 'std::fs::File::open("x").unwrap()'), ('std::collections::VecDeque<u8>', 'VecDeque::<u8>::new()')):
        add('traversal of a reader without stable memory', t, 'pub fn f() { let mut r = %s; is(<u32 as WalkRevisioned>::walk_revisioned(&mut r).is_ok()); }' % mk,
            'pub fn f() { let mut r: &[u8] = &[1]; is(<u32 as WalkRevisioned>::walk_revisioned(&mut r).is_ok()); }')
    return out


R2 = '''pub struct R2<'x, R>(pub &'x mut R);
impl<R: BorrowedReader> Read for R2<'_, R> { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { self.0.read(b) } }
unsafe impl<R: BorrowedReader> BorrowedReader for R2<'_, R> {
fn peek_bytes(&self, n: usize) -> Result<&[u8], Error> { self.0.peek_bytes(n) }
fn advance(&mut self, n: usize) -> Result<(), Error> { self.0.advance(n) }
fn position(&self) -> usize { self.0.position() }
fn remaining(&self) -> &[u8] { self.0.remaining() }
}'''
