"""R24: zero-copy views cannot outlive their buffer, cursors cannot be misused.

Compile-fail witnesses: client programs that each misuse one cursor or view in one way
must be refused by the type and borrow checker against the current tree's signatures;
each has a twin that differs only in the order or extent of the use and must compile."""
import collections

import ctwit
import witness_views as W

LEVEL = 'other'
CONFIGS = []
TECHNIQUE = 'static: compile-fail witnesses (programs the borrow checker must refuse, with twins it must accept)'
RULE = ('every generated client program that misuses a cursor or a zero-copy view is refused by the compiler with an error '
        'located in that program, and its twin is accepted: use after consumption and double consumption of every walker and '
        'item (all pairs of consuming methods), two live cursors over one reader, a reader used or replaced while a cursor '
        'over it is live, items and child cursors against their parent, views and borrowed bytes outliving or coexisting with '
        'a change of their buffer (every public constructor of a view), lent bytes leaving their closure, raw-byte access to '
        'values that are not length-prefixed, safe code asserting the reader contract, and readers without stable memory')
ASSUME = ['the signatures are generic, so one instantiation per public operation decides it; unsafe code behind the signatures '
          'is the subject of R16']
W_ = 'src/walk.rs '
ANCHOR = collections.defaultdict(lambda: 'src/walk.rs')
ANCHOR.update({
    'view outlives its buffer': 'src/optimised/indexed, src/slice_reader.rs', 'view escapes as static': 'src/optimised/indexed, src/slice_reader.rs',
    'buffer changed while a view is live': 'src/optimised/indexed, src/slice_reader.rs',
    'buffer dropped while a view is live': 'src/optimised/indexed, src/slice_reader.rs',
    'walker outlives the view that owns its bytes': 'src/optimised/indexed/serialize.rs walker',
    'bytes outlive the view that owns them': 'src/optimised/indexed/serialize.rs as_bytes',
    'reader used while borrowed bytes are live': 'src/slice_reader.rs read_borrowed_bytes, revision-derive/src/expand/walk.rs',
    'borrowed bytes outlive the borrow of the reader': 'src/slice_reader.rs read_borrowed_bytes, revision-derive/src/expand/walk.rs',
    'reader contract asserted by safe code': 'src/slice_reader.rs BorrowedReader',
    'traversal of a reader without stable memory': 'src/slice_reader.rs BorrowedReader',
    'raw bytes of a value that is not length-prefixed': 'src/lib.rs LengthPrefixedBytes',
})


def run(progs, rep):
    cs = W.cases()
    for c in cs:
        ANCHOR[c[0]]
    ctwit.judge(rep, W.PRE, cs, 'w24', ANCHOR, 'the compiler accepts a misuse', W.LIB)
    rep.extra['rules'] = dict(collections.Counter(c[0] for c in cs))
