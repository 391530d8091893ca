import derived

CONFIGS = ['varint', 'fixed', 'plain']
RULE = ('For each declaration of the fixture set (every combination of shape and encoding option the derive macro supports) and each revision k, '
        'the byte layout the macro-generated serializer writes at k, inferred from its MIR, is the input type of the deserializer generated at k: '
        'every path the layout admits must consume it exactly and rebuild each field from the bytes of that field.')
ASSUME = ['the built-in field types round-trip (R01, R12)', 'the declarations of fixture/src/decls.rs exercise every branch of the macro expansion',
          'arithmetic on lengths does not wrap (R22 decides narrowing)']


def run(progs, rep):
    for c, P in progs.items():
        n = 0
        for d in derived.decls(P):
            for k in d.revs():
                derived.judge(rep, derived.Case(P, d, k), k, 'decode', c)
                n += 1
        rep.count('declarations_' + c, n)
    derived.alive(rep)
