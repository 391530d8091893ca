import flow

CRATES = ('revision',)
CONFIGS = ['varint', 'fixed', 'plain']
RULE = ('For every type with a built-in serializer the byte layout written on each path is inferred from the MIR and '
        'used as the input type of skip_revisioned and skip_revisioned_slice: every admitted path must succeed and '
        'consume exactly the bytes written.')
ASSUME = ['arithmetic on lengths does not wrap (sizes below 2^63)', 'SliceReader and the BorrowedReader impls advance as R10 decides']


def run(progs, rep):
    for c, P in progs.items():
        n = 0
        for i, T in flow.subjects(P, 'ser'):
            flow.agree(P, 'ser', T, ['skip', 'skip_slice'], c, rep)
            n += 1
        rep.count('writers_' + c, n)
        if n == 0:
            raise RuntimeError('no writer found in configuration ' + c)
