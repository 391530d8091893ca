"""Build the compiler driver and dump the type-checked program (MIR) of /repo's
current tree in the configurations the checks need."""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))

# configuration name -> features of the fixture crate
CONFIGS = {
    'varint': ['spec'],
    'fixed': ['fixed', 'spec'],
    'plain': [],
}


class BuildError(Exception):
    pass


def tree_hash(extra=()):
    h = hashlib.sha256()
    roots = [os.path.join(REPO, 'src'), os.path.join(REPO, 'revision-derive'), os.path.join(VERIF, 'fixture', 'src'),
             os.path.join(VERIF, 'driver', 'src')]
    files = [os.path.join(REPO, 'Cargo.toml'), os.path.join(VERIF, 'fixture', 'Cargo.toml')]
    for r in roots:
        for d, dn, fn in os.walk(r):
            dn[:] = sorted(x for x in dn if x not in ('target', '.git'))
            files += [os.path.join(d, f) for f in sorted(fn) if f.endswith(('.rs', '.toml'))]
    for f in files:
        h.update(f.encode())
        try:
            with open(f, 'rb') as fh:
                h.update(fh.read())
        except OSError:
            pass
        h.update(b'\0')
    for e in extra:
        h.update(repr(e).encode())
    return h.hexdigest()[:24]


def sysroot():
    return subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], capture_output=True, text=True, check=True).stdout.strip()


def env():
    e = dict(os.environ)
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_INCREMENTAL'] = '0'
    e.pop('RUSTFLAGS', None)
    return e


def run(cmd, e, cwd):
    p = subprocess.run(cmd, env=e, cwd=cwd, capture_output=True, text=True)
    if p.returncode != 0:
        raise BuildError('%s failed:\n%s' % (' '.join(cmd), p.stderr[-6000:]))
    return p


def driver():
    src = os.path.join(VERIF, 'driver', 'src', 'main.rs')
    with open(src, 'rb') as f:
        k = hashlib.sha256(f.read()).hexdigest()[:16]
    out = os.path.join(BUILD, 'driver-' + k)
    if not os.path.exists(out):
        tmp = out + '.tmp%d' % os.getpid()
        run(['rustc', '+nightly', '--edition', '2024', '-C', 'opt-level=1', src, '-o', tmp], env(), BUILD)
        os.rename(tmp, out)
    return out


def dump(configs):
    """-> {config: directory holding revision.json and vfixture.json}"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _dump(configs)


def _dump(configs):
    drv = driver()
    key = tree_hash()
    res = {}
    todo = []
    for c in configs:
        d = os.path.join(BUILD, 'dump', key, c)
        res[c] = d
        if not os.path.exists(os.path.join(d, 'done')):
            todo.append(c)
    if not todo:
        return res
    # keep only the dumps of this tree
    dd = os.path.join(BUILD, 'dump')
    if os.path.isdir(dd):
        for x in os.listdir(dd):
            if x != key:
                shutil.rmtree(os.path.join(dd, x), ignore_errors=True)
    fix = os.path.join(BUILD, 'fixture')
    shutil.rmtree(fix, ignore_errors=True)
    shutil.copytree(os.path.join(VERIF, 'fixture'), fix, ignore=shutil.ignore_patterns('target'))
    if REPO != '/repo':
        p = os.path.join(fix, 'Cargo.toml')
        with open(p) as f:
            s = f.read()
        with open(p, 'w') as f:
            f.write(s.replace('"/repo"', '"%s"' % REPO))
    tgt = os.path.join(BUILD, 'target')
    e = env()
    e['LD_LIBRARY_PATH'] = os.path.join(sysroot(), 'lib')
    e['RUSTC_WRAPPER'] = drv
    e['MIRDUMP_CRATES'] = 'revision,vfixture'
    for c in todo:
        d = res[c]
        os.makedirs(d, exist_ok=True)
        e['MIRDUMP_OUT'] = d
        fp = os.path.join(tgt, 'debug', '.fingerprint')
        if os.path.isdir(fp):
            for x in os.listdir(fp):
                if x.startswith(('revision-', 'vfixture-')):
                    shutil.rmtree(os.path.join(fp, x), ignore_errors=True)
        for x in ('revision', 'vfixture'):
            shutil.rmtree(os.path.join(tgt, 'debug', 'build', x), ignore_errors=True)
        cmd = ['cargo', '+nightly', 'check', '--offline', '--target-dir', tgt]
        if CONFIGS[c]:
            cmd += ['--features', ','.join(CONFIGS[c])]
        run(cmd, e, fix)
        for f in ('revision.json', 'vfixture.json'):
            if not os.path.exists(os.path.join(d, f)):
                raise BuildError('no dump of %s in configuration %s' % (f, c))
        open(os.path.join(d, 'done'), 'w').close()
    return res


if __name__ == '__main__':
    print(dump(sys.argv[1:] or list(CONFIGS)))
