"""Error discipline: what becomes of every fallible call's result.

For each call whose result is a Result carrying an I/O (or library) error, the
result is followed through the control-flow graph: moved, adapted, branched on.
On every path where it is an error the function must end by returning an error;
a path on which it is never looked at, or on which it was an error and success
is returned, swallows it."""
from mir import show

ADAPT = {'map_err', 'map', 'and_then', 'as_ref', 'as_mut', 'inspect', 'inspect_err', 'copied', 'cloned', 'branch', 'as_deref', 'as_deref_mut', 'and', 'transpose', 'flatten', 'into'}
OPTADAPT = ADAPT | {'filter'}
SWALLOW = {'unwrap_or', 'unwrap_or_default', 'unwrap_or_else', 'map_or', 'map_or_else', 'or', 'or_else', 'is_ok_and', 'is_some_and'}
PANICS = {'unwrap', 'expect', 'into_ok'}
DROPS = {'std::mem::drop', 'std::mem::forget', 'core::mem::drop', 'core::mem::forget'}
RES = 'std::result::Result'
LIMIT = 60000


def err_type(t):
    """the error type of a Result, if it is one the property is about"""
    if t[0] == 'adt' and t[1] in (RES, 'core::result::Result') and len(t[2]) == 2:
        e = t[2][1]
        if e[0] == 'adt' and (e[1].endswith('io::Error') or e[1].endswith('error::Error') or e[1] in ('revision::Error', 'Error')):
            if 'fmt' in e[1]:
                return None
            return e
    return None


def callee(t):
    f = t['f']
    g = f.get('fn') if f['k'] == 'const' else None
    if not g:
        return None, None
    return g['def'], g


def whole(p):
    return not p['p']


def sites(fn):
    for bi in sorted(fn.reachable()):
        b = fn.blocks[bi]
        if b['cl']:
            continue
        t = b['t']
        if t['k'] != 'call' or t['to'] < 0:
            continue
        d, g = callee(t)
        name = (d or '?').split('::')[-1]
        if not whole(t['d']) or err_type(fn.crate.ty(fn.locals[t['d']['l']])) is None:
            continue
        if name in ('from_residual', 'branch', 'from_output') or d and (d.startswith('std::result::Result') or d.startswith('core::result::Result')):
            continue
        # a Result made from an Option or from another conversion is an error of this function's own making
        if d and (d.startswith('std::option::Option') or d.startswith('core::option::Option')):
            continue
        yield bi, t, d, name


class Path:
    __slots__ = ('bb', 'm', 'status', 'ret', 'used')

    def __init__(self, bb, m, status, ret, used):
        self.bb, self.m, self.status, self.ret, self.used = bb, m, status, ret, used

    def key(self):
        return (self.bb, tuple(sorted(self.m.items(), key=repr)), self.status, self.ret, self.used)


def track(fn, bi):
    """set of (verdict, span) for the result of the call ending block bi.
    verdict: 'ok' | 'dropped' | 'swallowed' | 'tested' | 'other' | 'handed'"""
    t = fn.blocks[bi]['t']
    d = t['d']['l']
    out = set()
    if d == 0:
        start = Path(t['to'], {0: 'res'}, '?', 'tail', False)
    else:
        start = Path(t['to'], {d: 'res'}, '?', None, False)
    todo, seen = [start], set()
    while todo:
        p = todo.pop()
        k = p.key()
        if k in seen:
            continue
        seen.add(k)
        if len(seen) > LIMIT:
            return {('other', 'too many paths')}
        step(fn, p, todo, out, bi)
    return out


def op_local(o):
    return o['pl']['l'] if o['k'] in ('copy', 'move') else None


def mentions(o, l):
    return o['k'] in ('copy', 'move') and o['pl']['l'] == l


def step(fn, p, todo, out, site=None):
    if p.status == 'tested' and p.bb == site:
        out.add(('tested', None))       # tried again
        return
    m, status, ret, used = dict(p.m), p.status, p.ret, p.used
    b = fn.blocks[p.bb]
    for s in b['s']:
        rv = s.get('rv')
        if rv is None:
            continue
        dst = s['pl']
        tag = None
        k = rv['k']
        if k == 'use':
            o = rv['o']
            l = op_local(o)
            if l is not None and whole(o['pl']):
                tag = m.get(l)
            elif l is not None and m.get(l) in ('res', 'cf', 'opt', 'opterr', 'refres') :
                pr = [e for e in o['pl']['p'] if e[0] == 'downcast']
                tag = 'payload'
                if pr and (pr[0][2] in ('Err', 'Break')):
                    tag = 'errv'
            elif l is not None and m.get(l) in ('payload', 'errv', 'ref'):
                tag = m[l]
            elif l is not None and m.get(l) == 'ref' :
                tag = 'ref'
        elif k in ('ref', 'rawptr'):
            l = rv['pl']['l']
            if m.get(l) in ('res', 'opt', 'opterr', 'refres') and not [e for e in rv['pl']['p'] if e[0] not in ('deref',)]:
                tag = 'refres' if m[l] in ('res', 'refres') else m[l]
            elif m.get(l) in ('res', 'refres', 'cf', 'opt', 'payload', 'errv'):
                dc = [e for e in rv['pl']['p'] if e[0] == 'downcast']
                tag = 'errv' if m.get(l) == 'errv' or dc and dc[0][2] in ('Err', 'Break') else 'payload'
        elif k == 'discr':
            l = rv['pl']['l']
            if m.get(l) in ('res', 'cf', 'opt', 'opterr', 'isok', 'iserr', 'refres') and not [e for e in rv['pl']['p'] if e[0] != 'deref']:
                tag = ('d', m[l])
        elif k == 'un' and rv['op'] == 'Not':
            l = op_local(rv['o'])
            if m.get(l) in ('bok', 'berr'):
                tag = 'berr' if m[l] == 'bok' else 'bok'
        elif k == 'agg':
            dn, vn = rv.get('def', ''), rv.get('vn', '')
            inner = [m.get(op_local(o)) for o in rv['ops'] if op_local(o) is not None and whole(o['pl'])]
            if dn.endswith('result::Result'):
                tag = 'iserr' if vn == 'Err' else 'isok'
            elif dn.endswith('ControlFlow') and status == 'err':
                tag = 'iserr' if vn == 'Break' else 'isok'
            if any(x in ('res', 'opt', 'cf', 'refres') for x in inner):
                # the result is packed into something else: follow it as handed on
                out.add(('handed', s.get('sp')))
                if vn not in ('Ok', 'Some'):
                    return
                return
            if any(x == 'payload' for x in inner):
                used = True
        if k not in ('use', 'ref', 'discr', 'agg') and any(m.get(op_local(rv[x])) == 'payload' for x in ('a', 'b', 'o') if isinstance(rv.get(x), dict)):
            used = True
        if whole(dst):
            if tag is None:
                m.pop(dst['l'], None)
            else:
                m[dst['l']] = tag
            if dst['l'] == 0:
                ret = {'iserr': 'err', 'isok': 'ok', 'res': 'tail', 'payload': 'other'}.get(tag, 'other')
                if tag == 'payload':
                    used = True
        else:
            if dst['l'] == 0 and ret is None:
                ret = 'other'
            if tag in ('res', 'opt', 'cf'):
                out.add(('handed', s.get('sp')))
                return
            if tag == 'payload':
                used = True
    t = b['t']
    k = t['k']

    def go(to, mm=m, st=status, r=ret, u=used):
        if to >= 0 and not fn.blocks[to]['cl']:
            todo.append(Path(to, dict(mm), st, r, u))

    if k in ('goto', 'drop'):
        go(t['to'])
    elif k == 'assert':
        if op_local(t['c']) is not None and m.get(op_local(t['c'])) == 'payload':
            used = True
        go(t['to'], u=used)
    elif k == 'switch':
        l = op_local(t['d'])
        tag = m.get(l) if l is not None and whole(t['d']['pl']) else None
        if tag == 'payload':
            used = True
        vals = {int(v): to for v, to in t['vals']}

        def edge(v):
            return vals.get(v, t['else'])
        if isinstance(tag, tuple) and tag[0] == 'd':
            g = tag[1]
            if g in ('isok', 'iserr'):
                go(edge(0 if g == 'isok' else 1))
                return
            bad = {'res': 1, 'cf': 1, 'opt': 0, 'opterr': 1, 'refres': 1}[g]
            if status == 'err':
                go(edge(bad))
                return
            if status == '?':
                if not used and not payload_used_later(fn, p, t):
                    out.add(('okunused', None))
                else:
                    out.add(('ok', None))
                go(edge(bad), st='err')
            return
        if tag in ('bok', 'berr'):
            bad = 0 if tag == 'bok' else 1
            go(edge(bad), st='err')
            if status == '?':
                out.add(('ok', None))
            return
        for v, to in t['vals']:
            go(to)
        go(t['else'])
    elif k == 'call':
        d, g = callee(t)
        name = (d or '?').split('::')[-1]
        args = [(m.get(op_local(o)) if op_local(o) is not None and whole(o['pl']) else None) for o in t['a']]
        dst = t['d']['l'] if whole(t['d']) else None
        if t['to'] < 0:
            out.add(('ok', None))            # diverges: reported as a panic elsewhere
            return
        tr = [a for a in args if a in ('res', 'cf', 'opt', 'opterr', 'refres', 'isok', 'iserr')]
        if any(a == 'payload' for a in args):
            used = True
        if any(a == 'errv' for a in args) and name in ('kind', 'eq', 'ne', 'raw_os_error', 'get_ref'):
            status = 'tested'
        new = None
        if tr:
            a = tr[0]
            if d in DROPS:
                m2 = dict(m)
                m2.pop(dst, None)
                for i, o in enumerate(t['a']):
                    m2.pop(op_local(o), None)
                go(t['to'], m2, 'dropped' if status == '?' else status)
                return
            if name == 'branch':
                new = 'cf' if a not in ('isok', 'iserr') else None
                if a in ('isok', 'iserr'):
                    # which way is known
                    new = a if a == 'isok' else 'iserr'
            elif a in ('isok', 'iserr') and name in ADAPT:
                new = a if name != 'and_then' else ('iserr' if a == 'iserr' else None)
            elif a in ('res', 'refres') and name in ADAPT:
                new = 'res'
                if name in ('and_then', 'and'):
                    new = 'res'
            elif a == 'opt' and name in ('ok_or', 'ok_or_else'):
                new = 'res'
            elif a == 'opt' and name in OPTADAPT:
                new = 'opt'
            elif name == 'ok' and a in ('res', 'refres'):
                new = 'opt'
            elif name == 'err' and a in ('res', 'refres'):
                new = 'opterr'
            elif name in ('is_ok', 'is_some') and a in ('res', 'refres', 'opt'):
                new = 'bok'
            elif name in ('is_err', 'is_none') and a in ('res', 'refres', 'opt'):
                new = 'berr'
            elif name in PANICS:
                out.add(('ok', None))
                return
            elif name in SWALLOW and a in ('res', 'opt', 'refres'):
                m2 = dict(m)
                m2.pop(dst, None)
                go(t['to'], m2, 'err', 'other' if dst == 0 else ret)
                out.add(('ok', None))
                return
            elif name == 'from_residual':
                new = 'iserr' if a != 'isok' else None
            elif a in ('isok', 'iserr'):
                new = None
            else:
                out.add(('handed', t.get('sp')))
                return
        if name == 'from_residual':
            new = 'iserr'
        if name == 'from_output':
            new = 'isok'
        if dst is not None:
            if new is None:
                m.pop(dst, None)
            else:
                m[dst] = new
            if dst == 0:
                ret = {'iserr': 'err', 'isok': 'ok', 'res': 'tail', 'opt': 'tailopt', 'bok': 'tailopt', 'berr': 'tailopt'}.get(new, 'other')
        go(t['to'], m, status, ret, used)
    elif k == 'return':
        if status == 'err':
            out.add({'err': ('ok', None), 'ok': ('swallowed', None), 'tail': ('ok', None)}.get(ret, ('other', None)))
        elif status == 'tested':
            out.add({'ok': ('swallowed', None), 'err': ('ok', None)}.get(ret, ('tested', None)))
        elif status == 'dropped':
            out.add(('ok', None) if ret == 'err' else ('dropped', None))
        else:
            if ret == 'tail':
                out.add(('ok', None))
            elif ret == 'tailopt':
                out.add(('other', None))
            elif ret == 'err':
                out.add(('ok', None))
            else:
                out.add(('dropped', None))
    else:
        out.add(('ok', None))


def payload_used_later(fn, p, t):
    return True


def counts_used(fn, bi):
    """is the number of bytes a partial transfer reports ever looked at?"""
    t = fn.blocks[bi]['t']
    tagged = {t['d']['l']}
    ch = True
    if 0 in tagged:
        return True
    while ch:
        ch = False
        for b in fn.blocks:
            if b['cl']:
                continue
            for s in b['s']:
                rv = s.get('rv')
                if rv is None:
                    continue
                src = None
                if rv['k'] == 'use':
                    src = op_local(rv['o'])
                elif rv['k'] in ('ref', 'rawptr'):
                    src = rv['pl']['l']
                elif rv['k'] == 'discr':
                    continue
                elif rv['k'] == 'agg':
                    if any(op_local(o) in tagged and is_num(fn, op_local(o)) for o in rv['ops']):
                        return True
                    continue
                else:
                    if any(isinstance(rv.get(x), dict) and op_local(rv[x]) in tagged for x in ('a', 'b', 'o')):
                        return True
                    continue
                if src in tagged and s['pl']['l'] not in tagged:
                    tagged.add(s['pl']['l'])
                    ch = True
            tt = b['t']
            if tt['k'] == 'call':
                d, g = callee(tt)
                name = (d or '?').split('::')[-1]
                hit = [op_local(o) for o in tt['a'] if op_local(o) in tagged]
                if hit:
                    if name in ('from_residual', 'drop', 'forget', 'is_ok', 'is_err'):
                        continue
                    if name in ADAPT | PANICS | {'ok'} and name not in ('map', 'and_then'):
                        if tt['d']['l'] not in tagged:
                            tagged.add(tt['d']['l'])
                            ch = True
                        continue
                    return True
            elif tt['k'] == 'switch' and op_local(tt['d']) in tagged and is_num(fn, op_local(tt['d'])):
                return True
    return 0 in tagged


def is_num(fn, l):
    t = fn.local_ty(l)
    return t[0] == 'prim'
