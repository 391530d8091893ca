"""Compile-fail witnesses: a generated crate with one source file per program, type-checked
against the current tree; the compiler's diagnostics are attributed to programs by file."""
import fcntl
import json
import os
import shutil
import subprocess

import build
from build import BuildError

MANIFEST = '''[package]
name = "%s"
version = "0.0.0"
edition = "2024"
publish = false

[lib]
path = "src/lib.rs"

[dependencies.revision]
path = "%s"
'''


def spans(sp):
    """every file a span mentions, through its macro expansions"""
    out = set()
    todo = [sp]
    while todo:
        s = todo.pop()
        if not s:
            continue
        out.add(s.get('file_name'))
        e = s.get('expansion')
        if e:
            todo.append(e.get('span'))
            todo.append(e.get('def_site_span'))
    return out


def freshen():
    """never reuse what was compiled from another state of the tree"""
    tgt = os.path.join(build.BUILD, 'wtarget')
    kf = os.path.join(tgt, 'tree-key')
    key = build.tree_hash()
    try:
        with open(kf) as f:
            if f.read() == key:
                return
    except OSError:
        pass
    fp = os.path.join(tgt, 'debug', '.fingerprint')
    if os.path.isdir(fp):
        for x in os.listdir(fp):
            if x.startswith('revision'):
                shutil.rmtree(os.path.join(fp, x), ignore_errors=True)
    os.makedirs(tgt, exist_ok=True)
    with open(kf, 'w') as f:
        f.write(key)


def compile_set(name, pre, texts, extra_lib='', shards=6):
    """-> (per-program list of diagnostics, diagnostics that belong to no program)"""
    d = os.path.join(build.BUILD, 'witness', name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    n = max(1, min(shards, len(texts) // 20))
    with open(os.path.join(d, 'Cargo.toml'), 'w') as f:
        f.write('[workspace]\nresolver = "2"\nmembers = [%s]\n' % ', '.join('"s%d"' % k for k in range(n)))
    lk = os.path.join(build.VERIF, 'fixture', 'Cargo.lock')
    if os.path.exists(lk):
        shutil.copy(lk, os.path.join(d, 'Cargo.lock'))
    names = []
    for k in range(n):
        c = os.path.join(d, 's%d' % k)
        os.makedirs(os.path.join(c, 'src'))
        names.append('%s%d' % (name, k))
        with open(os.path.join(c, 'Cargo.toml'), 'w') as f:
            f.write(MANIFEST % (names[-1], build.REPO))
        with open(os.path.join(c, 'src', 'lib.rs'), 'w') as f:
            f.write('#![allow(warnings)]\n' + extra_lib)
            for i in range(k, len(texts), n):
                f.write('mod c%05d;\n' % i)
        for i in range(k, len(texts), n):
            with open(os.path.join(c, 'src', 'c%05d.rs' % i), 'w') as f:
                f.write(pre + texts[i] + '\n')
    e = build.env()
    cmd = ['cargo', 'check', '--offline', '--workspace', '--keep-going', '--message-format=json',
           '--target-dir', os.path.join(build.BUILD, 'wtarget')]
    with open(os.path.join(build.BUILD, 'wlock'), 'w') as lkf:
        fcntl.flock(lkf, fcntl.LOCK_EX)
        freshen()
        p = subprocess.run(cmd, env=e, cwd=d, capture_output=True, text=True)
    per = [[] for _ in texts]
    loose = []
    ran = set()
    for line in p.stdout.splitlines():
        if not line.startswith('{'):
            continue
        m = json.loads(line)
        nm = m.get('target', {}).get('name')
        if m.get('reason') == 'compiler-artifact' and nm in names:
            ran.add(nm)
        if m.get('reason') != 'compiler-message':
            continue
        if nm not in names:
            if m['message'].get('level') == 'error':
                raise BuildError('the tree does not build: ' + (m['message'].get('rendered') or '')[:2000])
            continue
        ran.add(nm)
        msg = m['message']
        if not msg.get('level', '').startswith('error'):
            continue
        files = set()
        for s in msg.get('spans', []):
            if s.get('is_primary'):
                files |= spans(s)
        hit = False
        for f in files:
            b = os.path.basename(f or '')
            if b.startswith('c') and b.endswith('.rs') and b[1:-3].isdigit() and 'src' in (f or ''):
                per[int(b[1:-3])].append(((msg.get('code') or {}).get('code', ''), msg['message']))
                hit = True
        if not hit and not msg['message'].startswith('aborting') and 'could not compile' not in msg['message']:
            loose.append(msg['message'])
    if len(ran) != n:
        raise BuildError('the witness crates did not reach the compiler:\n' + p.stderr[-3000:])
    shutil.rmtree(d, ignore_errors=True)
    return per, loose


def stubborn(name, pre, texts, rounds=8, extra_lib=''):
    """compile programs that are meant to build: those with a macro error are taken out
    and the rest compiled again, until only type-level verdicts remain"""
    bad = {}
    left = list(range(len(texts)))
    loose = []
    for _ in range(rounds):
        per, loose = compile_set(name, pre, [texts[i] for i in left], extra_lib)
        new = {left[k]: e for k, e in enumerate(per) if e}
        bad.update(new)
        left = [i for i in left if i not in new]
        if not new or not left:
            break
    else:
        raise BuildError('the witness programs still produce new diagnostics after %d compilations' % rounds)
    return bad, loose


def judge(rep, pre, cs, name, anchor, what, lib=''):
    """cs: (rule, name, bad, good)"""
    goods = sorted(set(c[3] for c in cs))
    badtwin, loose = stubborn(name + 'good', pre, goods, 8, lib)
    if loose:
        raise RuntimeError('diagnostics outside every witness: %s' % loose[:2])
    broken = {goods[i]: e for i, e in badtwin.items()}
    if len(broken) > len(goods) // 2:
        raise RuntimeError('most well-formed twins do not compile, e.g. %s' % (next(iter(broken.items())),))
    # a diagnostic of one phase can hide those of later phases in other programs: programs
    # without one are compiled again on their own until nothing is left or all of them build
    d, loose = stubborn(name + 'bad', pre, [c[2] for c in cs], 8, lib)
    per = [d.get(i, []) for i in range(len(cs))]
    for (rule, nm, bad, good), errs in zip(cs, per):
        rep.count('witnesses')
        if good in broken:
            rep.undecided('%s: %s' % (rule, nm), 'its well-formed twin does not compile: %s' % (broken[good][0],))
        elif not errs:
            rep.violation('%s: %s' % (rule, nm), '%s: %s' % (what, ' '.join(bad.split())),
                          anchor.get(rule, rule), anchor.get(rule, rule).split(' ')[-1], key=('%s|%s' % (rule, nm)).replace(' ', '-'))
        else:
            rep.proved(rule)
    rep.count('twins', len(goods))
