import derived

CONFIGS = ['varint', 'fixed', 'plain']
RULE = ('For each declaration and each pair of revisions k <= m of it, the byte layout written at k is pushed through skip_revisioned, '
        'skip_revisioned_slice and skip_check_revisioned as generated at m: every admitted path must succeed and consume exactly the payload.')
ASSUME = ['the built-in field types skip exactly (R03, R12)', 'the declarations of fixture/src/decls.rs exercise every branch of the macro expansion']


def run(progs, rep):
    for c, P in progs.items():
        for d in derived.decls(P):
            for k in d.revs():
                case = derived.Case(P, d, k)
                for m in d.revs():
                    if m >= k:
                        for w in ('skip', 'skip_slice', 'skip_check'):
                            derived.judge(rep, case, m, w, c)
                            rep.count('pairs_' + c)
    derived.alive(rep)
