#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property of /repo's current tree."""
import importlib
import os
import sys
import threading
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.setrecursionlimit(60000)
threading.stack_size(512 * 1024 * 1024)

import build          # noqa: E402
import report         # noqa: E402
from mir import Program   # noqa: E402


def main(pid, tier):
    mod = importlib.import_module('checks.' + pid.lower())
    rep = report.Report(pid, tier, getattr(mod, 'LEVEL', 'other'), mod.RULE)
    rep.assume = list(getattr(mod, 'ASSUME', []))
    cfgs = list(getattr(mod, 'CONFIGS', ['varint']))
    if tier == 'thorough':
        cfgs = list(getattr(mod, 'CONFIGS_THOROUGH', cfgs))
    dirs = build.dump(cfgs) if cfgs else {}
    progs = {c: Program(d, getattr(mod, 'CRATES', ('revision', 'vfixture'))) for c, d in dirs.items()}
    rep.extra['configurations'] = cfgs
    mod.run(progs, rep)
    return rep.finish()


if __name__ == '__main__':
    res = [2]

    def body():
        try:
            res[0] = main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
        except build.BuildError as e:
            print('%s: the tree could not be analysed: %s' % (sys.argv[1], e), file=sys.stderr)
        except BaseException:
            traceback.print_exc()
    t = threading.Thread(target=body)
    t.start()
    t.join()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(res[0])
