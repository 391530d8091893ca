import derived

CONFIGS = ['varint', 'fixed', 'plain']
RULE = ('For each declaration and each pair of revisions k < m, the byte layout the serializer generated at k writes is the input type of the deserializer generated at m. '
        'Every admitted path must consume it exactly; fields alive at both are rebuilt from their own bytes, added fields are the default hook called once with k (or Default), '
        'removed fields and variants are passed once to their conversion hook with k.')
ASSUME = ['the built-in field types round-trip (R01, R12)', 'the declarations of fixture/src/decls.rs exercise every branch of the macro expansion']


def run(progs, rep):
    for c, P in progs.items():
        for d in derived.decls(P):
            for k in d.revs():
                ms = [m for m in d.revs() if m > k]
                if not ms:
                    continue
                case = derived.Case(P, d, k)
                for m in ms:
                    derived.judge(rep, case, m, 'decode', c)
                    rep.count('pairs_' + c)
    derived.alive(rep)
