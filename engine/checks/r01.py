import flow

CRATES = ('revision',)
CONFIGS = ['varint', 'fixed', 'plain']
RULE = ('For every type with a built-in serializer the byte layout written on each path is inferred from the MIR '
        '(typed chunks, loops summarised to a fixpoint) and used as the input type of the matching deserializer: '
        'every path of the reader that the layout admits must consume it exactly and rebuild the value written.')
ASSUME = ['arithmetic on lengths does not wrap (sizes below 2^63)', 'documented contracts of std, chrono, geo, regex, roaring, rust_decimal, uuid and imbl accessors/constructors used by the codec']


def run(progs, rep):
    for c, P in progs.items():
        n = 0
        for i, T in flow.subjects(P, 'ser'):
            flow.agree(P, 'ser', T, ['decode'], c, rep)
            n += 1
        for i, T in flow.subjects(P, 'spec'):
            flow.agree(P, 'spec', T, ['decode'], c, rep)
            n += 1
        rep.count('writers_' + c, n)
        if n == 0:
            raise RuntimeError('no writer found in configuration ' + c)
