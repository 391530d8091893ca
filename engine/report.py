"""Verdict collection, evidence file, exit code."""
import json
import os
import sys
import time
import build

VERIF = build.VERIF
EVID = os.environ.get('VERIF_EVIDENCE', os.path.join(VERIF, 'evidence'))


def known():
    p = os.path.join(VERIF, 'known-findings.txt')
    out = []
    if os.path.exists(p):
        with open(p) as f:
            for l in f:
                l = l.strip()
                if l.startswith('KNOWN-FINDING: '):
                    body = l[len('KNOWN-FINDING: '):]
                    d = dict(kv.split('=', 1) for kv in body.split(' ', 2)[:2] if '=' in kv)
                    out.append((d.get('property'), d.get('key'), body.split(' ', 2)[2] if body.count(' ') >= 2 else ''))
    return out


class Report:
    def __init__(self, pid, tier, level, rule):
        self.pid, self.tier, self.level, self.rule = pid, tier, level, rule
        self.t0 = time.time()
        self.thorough = tier == 'thorough'
        self.viol, self.und, self.prov, self.abs = [], [], {}, []
        self.fns = set()
        self.extra = {}
        self.assume = []
        self.seen = set()
        self.notes = []

    def analysed(self, fn):
        self.fns.add(fn.key if hasattr(fn, 'key') else fn)

    def proved(self, what, n=1):
        self.prov[what] = self.prov.get(what, 0) + n

    def undecided(self, what, why, sp=None):
        self.und.append((what, why, sp))

    def absent(self, what):
        self.abs.append(what)

    def violation(self, what, why, sp, fn='', conds=(), key=None):
        """key: stable identity of the construct, for the known-findings file"""
        k = (what, why, sp)
        if k in self.seen:
            return
        self.seen.add(k)
        self.viol.append({'what': what, 'why': why, 'at': sp, 'function': fn, 'when': list(conds), 'key': key or '%s|%s' % (fn, what)})

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def finish(self):
        kn = [(k, t) for (p, k, t) in known() if p == self.pid]
        real, found = [], []
        for v in self.viol:
            m = [(k, t) for (k, t) in kn if k == v['key']]
            (found if m else real).append((v, m))
        vdir = os.path.join(EVID, 'replay')
        os.makedirs(vdir, exist_ok=True)
        rp = os.path.join(vdir, '%s.json' % self.pid)
        for v, m in found:
            pass
        for k, t in kn:
            if any(m and m[0][0] == k for _, m in found):
                print('KNOWN-FINDING: property=%s %s (%s)' % (self.pid, t, k))
        if real:
            with open(rp, 'w') as f:
                json.dump({'property': self.pid, 'rule': self.rule, 'violations': [v for v, _ in real]}, f, indent=1)
        elif os.path.exists(rp):
            os.remove(rp)
        cov = {
            'explanation': self.rule,
            'functions_analysed': len(self.fns),
            'obligations_established': sum(self.prov.values()),
            'subjects_established': len(self.prov),
            'obligations_undecided': len(self.und),
            'undecided': ['%s: %s' % (a, b) for a, b, c in self.und][:40],
            'without_reader': self.abs[:40],
        }
        cov.update(self.extra)
        cov['subjects'] = sorted(self.prov)[:400]
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
            'level': self.level, 'coverage': cov, 'wall_s': round(time.time() - self.t0, 2),
            'assumptions': self.assume,
            'violations': len(real),
            'known_findings': [v['key'] for v, _ in found],
        }
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, '%s.json' % self.pid), 'w') as f:
            json.dump(ev, f, indent=1)
        for v, _ in real[:12]:
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            print('  %s' % v['what'])
            print('  %s' % v['why'])
            print('  at %s in %s' % (v['at'], v['function']))
            if v['when']:
                print('  when %s' % '; '.join(v['when'][:8])[:600])
        print('%s: %d functions, %d obligations over %d subjects established, %d undecided, %d violations, %.1fs' % (
            self.pid, len(self.fns), sum(self.prov.values()), len(self.prov), len(self.und), len(real), time.time() - self.t0))
        sys.stdout.flush()
        return 1 if real else 0
