"""C19: results of file operations reach the caller."""
import re

from base import *
from effects import Reach, base_name, calls, loc, loaders, public_fns, writer, defs_of, peel

PASS = re.compile(r'::(Result|ControlFlow)::(map|map_err|and_then|and|inspect|inspect_err|as_ref|as_mut|copied|cloned|flatten)$|'
                  r'::(Into::into|From::from|must_use|branch)$')
SWALLOW = re.compile(r'::Result::(unwrap_or|unwrap_or_else|unwrap_or_default|or|or_else|map_or|map_or_else|iter|into_iter|is_ok_and|is_err_and)$')
QUERY = re.compile(r'::Result::(ok|err|is_ok|is_err)$')
UNWRAP = re.compile(r'::Result::(unwrap|expect|unwrap_err|expect_err|unwrap_unchecked|into_ok)$')


def errty(C, t):
    """The error type of a Result type, or None."""
    x = C.P.T[t]
    if x.get('k') == 'adt' and x.get('adt', '').endswith('result::Result') and len(x.get('args', [])) >= 2:
        return x['args'][1]
    return None


class Flow:
    """Follows one Result-valued local of a function through MIR."""

    def __init__(self, C, f):
        self.C, self.f, self.T = C, f, C.P.T
        self.cfg = f.cfg()

    def uses(self, l):
        f = self.f
        for bi, b in enumerate(f.blocks):
            if bi not in self.cfg.rpo:
                continue
            for s in b[0]:
                if s[0] == '=':
                    r = s[2]
                    k = r[0]
                    if k == 'discr' and r[1][0] == l:
                        yield ('discr', bi, s)
                    elif k in ('ref', 'addr') and r[2][0] == l:
                        yield ('ref', bi, s)
                    elif k in ('use', 'repeat') and r[1][0] in ('c', 'm') and r[1][1][0] == l:
                        yield ('move' if not r[1][1][1] else 'part', bi, s)
                    elif k == 'cast' and r[2][0] in ('c', 'm') and r[2][1][0] == l:
                        yield ('move', bi, s)
                    elif k == 'agg':
                        for o in r[2]:
                            if o[0] in ('c', 'm') and o[1][0] == l:
                                yield ('agg', bi, s)
            t = b[1]
            if t[0] == 'call':
                for i, o in enumerate(t[3]):
                    if o[0] in ('c', 'm') and o[1][0] == l:
                        yield ('arg', bi, (t, i))

    def check(self, l, blk, seen=None):
        """'ok' | ('bad', why) | ('unk', why) for the Result in local l, defined in block blk."""
        seen = seen if seen is not None else set()
        if l in seen:
            return 'ok', ''
        seen.add(l)
        if l == 0:
            return 'ok', ''
        rs = []
        n = 0
        us = list(self.uses(l))
        tests = [bi for k, bi, x in us if k == 'discr']
        for k, bi, x in us:
            n += 1
            if k == 'discr':
                if not any(b2 != bi and self.dominates(b2, bi) for b2 in tests):
                    rs.append(self.matched(bi, x))
            elif k == 'ref':
                rs.append(self.by_ref(x[1][0], blk, seen))
            elif k == 'move':
                rs.append(self.check(x[1][0], bi, seen) if not x[1][1] else ('unk', 'stored'))
            elif k == 'agg':
                rs.append(('ok', '') if x[1][0] == 0 else ('unk', 'stored in a structure'))
            elif k == 'part':
                n -= 1
            elif k == 'arg':
                t, i = x
                d = base_name(t[1].get('def'))
                if d.endswith('Try::branch'):
                    rs.append(self.branch(t[4][0]))
                elif PASS.search(d):
                    rs.append(self.check(t[4][0], bi, seen) if not t[4][1] else ('unk', 'stored'))
                elif SWALLOW.search(d):
                    rs.append(('bad', 'the error is replaced by %s' % d.rsplit('::', 1)[1]) if not d.endswith('or_else') or 'unwrap' in d else ('unk', 'or_else'))
                elif QUERY.search(d):
                    rs.append(self.query(t, bi, d.rsplit('::', 1)[1], seen))
                elif UNWRAP.search(d):
                    rs.append(('ok', 'panics'))
                elif re.search(r'mem::(drop|forget)$', d):
                    rs.append(('bad', 'the result is dropped'))
                else:
                    rs.append(('unk', 'passed to %s' % d))
        if not n:
            return 'bad', 'the result is never looked at'
        for k in ('bad', 'unk', 'ok'):
            for r in rs:
                if r[0] == k:
                    return r
        return 'ok', ''

    def dominates(self, a, b):
        while b != 0:
            if a == b:
                return True
            b = self.cfg.idom[b]
        return a == 0

    def by_ref(self, l, blk, seen):
        for k, bi, x in self.uses(l):
            if k == 'arg':
                t, i = x
                d = base_name(t[1].get('def'))
                if QUERY.search(d):
                    return self.query(t, bi, d.rsplit('::', 1)[1], seen)
        return 'unk', 'borrowed'

    def query(self, t, bi, m, seen):
        """r.ok(), r.is_ok(), ...: the error is lost unless the failing branch returns an error."""
        l = t[4][0]
        if m in ('ok', 'err'):
            n = 0
            for k, b2, x in self.uses(l):
                n += 1
                if k == 'discr':
                    return self.matched(b2, x, errval=0 if m == 'ok' else 1)
                if k == 'arg':
                    d = base_name(x[0][1].get('def'))
                    if d.endswith(('Option::ok_or', 'Option::ok_or_else')):
                        return self.check(x[0][4][0], b2, seen)
                    if re.search(r'Option::(unwrap_or\w*|is_some|is_none|or\w*|map_or\w*)$', d):
                        return 'bad', 'the error is turned into %s and lost' % d.rsplit('::', 1)[1]
            if not n:
                return 'bad', 'the error is dropped by %s()' % m
            return 'unk', 'turned into an option'
        for k, b2, x in [('x', None, None)]:
            for b3, b in enumerate(self.f.blocks):
                tt = b[1]
                if tt[0] == 'switch' and tt[1][0] in ('c', 'm') and tt[1][1][0] == l:
                    zero = [bb for v, bb in tt[2] if v == 0]
                    other = tt[3]
                    start = (zero[0] if zero else None) if m == 'is_ok' else other
                    if start is not None:
                        return self.outcome(start)
        return 'unk', 'tested with %s' % m

    def branch(self, l):
        """The ControlFlow from `?`: its Break payload goes to from_residual into the return value."""
        rs = []
        for bi, b in enumerate(self.f.blocks):
            t = b[1]
            if t[0] == 'call' and base_name(t[1].get('def')).endswith('FromResidual::from_residual') and bi in self.cfg.rpo:
                o = t[3][0]
                if o[0] in ('c', 'm') and self.derives(o[1][0], l):
                    if t[4][0] == 0 and not t[4][1]:
                        rs.append(('ok', ''))
                    else:
                        rs.append(self.check(t[4][0], bi))
        return rs[0] if rs else ('unk', 'residual not found')

    def derives(self, a, l, n=0):
        if a == l:
            return True
        if n > 6:
            return False
        for k, bi, s in defs_of(self.f).get(a, []):
            if k == 's' and s[2][0] == 'use' and s[2][1][0] in ('c', 'm') and self.derives(s[2][1][1][0], l, n + 1):
                return True
        return False

    def matched(self, bi, s, errval=1):
        d = s[1][0]
        for b3 in range(len(self.f.blocks)):
            tt = self.f.blocks[b3][1]
            if tt[0] == 'switch' and tt[1][0] in ('c', 'm') and tt[1][1][0] == d and not tt[1][1][1]:
                vs = dict((v, b) for v, b in tt[2])
                start = vs.get(errval, tt[3])
                return self.outcome(start)
        return 'unk', 'discriminant not switched on'

    def outcome(self, start):
        """From the failing branch: is every way to the return one that returns an error?"""
        f = self.f
        if errty(self.C, f.locals[0]) is None:
            if '{closure' in f.name:
                return 'unk', 'inside a closure'
            return 'bad', 'the failing branch continues in a function that cannot report errors'
        try:
            res = self.returns(start)
        except OverflowError:
            return 'unk', 'too many paths'
        if 'ok' in res:
            return 'bad', 'a path from the failing branch returns success'
        unk = sorted(v for v in res if v not in ('err', 'ok'))
        if unk:
            return 'unk', 'a path from the failing branch returns %s' % unk[0]
        return 'ok', ''

    def returns(self, start):
        """The kinds of value returned on the ways from a block, following known variants of locals."""
        f = self.f
        seen = set()
        work = [(start, frozenset(), 'value')]
        res = set()
        while work:
            b, env, v = work.pop()
            if (b, env, v) in seen:
                continue
            seen.add((b, env, v))
            if len(seen) > 20000:
                raise OverflowError
            e = dict(env)
            st, t, _ = f.blocks[b]
            for s in st:
                if s[0] == 'dead':
                    e.pop(s[1], None)
                if s[0] != '=':
                    continue
                l, proj = s[1]
                r = s[2]
                if proj:
                    continue
                x = None
                if r[0] == 'agg' and r[1][0] == 'adt':
                    x = ('V', r[1][2])
                elif r[0] == 'use':
                    o = r[1]
                    if o[0] == 'k' and o[1][0] in ('int', 'bool'):
                        x = ('I', int(o[1][1]))
                    elif o[0] in ('c', 'm') and not o[1][1]:
                        x = e.get(o[1][0])
                elif r[0] == 'discr' and not r[1][1]:
                    y = e.get(r[1][0])
                    x = ('I', y[1]) if y and y[0] == 'V' else None
                if x is None:
                    e.pop(l, None)
                else:
                    e[l] = x
                if l == 0:
                    v = self.value(s, e)
            k = t[0]
            nxt = self.cfg.succ[b]
            if k == 'call':
                if not t[4][1]:
                    e.pop(t[4][0], None)
                if t[4][0] == 0:
                    dd = base_name(t[1].get('def'))
                    g = self.C.P.fns.get(t[1].get('inst'))
                    if dd.endswith('from_residual') or (g is not None and g.dumped and g.local and always_err(self.C, g)):
                        v = 'err'
                        e[0] = ('V', 1)
                    else:
                        v = 'call:' + dd
                for o in t[3]:
                    pass
            elif k == 'switch' and t[1][0] in ('c', 'm') and not t[1][1][1]:
                y = e.get(t[1][1][0])
                if y and y[0] == 'I':
                    nxt = [dict((a, c) for a, c in t[2]).get(y[1], t[3])]
            elif k == 'ret':
                res.add(v)
            for y in nxt:
                work.append((y, frozenset(e.items()), v))
        return res

    def value(self, s, env):
        y = env.get(0)
        if y and y[0] == 'V':
            return 'err' if y[1] == 1 else 'ok'
        return 'value'


_ae = {}


def always_err(C, g):
    """Every return of this function is an error."""
    if errty(C, g.locals[0]) is None:
        return False
    if g.id not in _ae:
        _ae[g.id] = False
        try:
            _ae[g.id] = Flow(C, g).returns(0) == {'err'}
        except OverflowError:
            pass
    return _ae[g.id]


def rule_C19(C, R):
    R.rule = ('the Result of every call that can carry an I/O error (external file operations, and local functions from which '
              'they are reachable) is followed through MIR to the return value: it is propagated, or every path from its failing '
              'branch returns an error; on every path of the functions that touch files success implies success of each '
              'operation; the data handed over is the whole text, the text read is the whole file')
    guard(R, 'propagation of results', propagation, C, R)
    guard(R, 'paths of file functions', paths, C, R)


def propagation(C, R):
    P, T = C.P, C.P.T
    Q = Reach(C)
    ioerr = {i for i, t in enumerate(T) if t.get('adt', '').endswith('io::Error') or t.get('adt', '').endswith('io::error::Error')}
    perr = {C.ty('ParseError'), C.ty('OverError')}
    carries = {}
    for f in P.locals:
        carries[f.id] = any(e[0][0] in ('read', 'write') for e in Q.effects(f.id)) if f.dumped else False
    n = 0
    for f in P.locals:
        if not f.dumped:
            continue
        F = None
        for bi, t, sp in calls(f):
            d = base_name(t[1].get('def'))
            if t[4][1]:
                dt = None
            else:
                dt = f.locals[t[4][0]]
            e = errty(C, dt) if dt is not None else None
            g = P.fns.get(t[1].get('inst'))
            local = g is not None and g.local and g.dumped
            if e in ioerr and not d.startswith('std::fmt'):
                pass
            elif e in perr and local and carries.get(g.id):
                pass
            else:
                if re.search(r'::(BufWriter|LineWriter)::(new|with_capacity)$', d):
                    fl = any(base_name(u[1].get('def')).endswith(('Write::flush', 'BufWriter::into_inner')) for _, u, _ in calls(f))
                    R.result('eq' if fl else 'ne', 'C19:%s:buffer' % f.name, 'a buffered writer is flushed before it is dropped', [loc(f, sp)])
                continue
            if PASS.search(d) or SWALLOW.search(d) or d.endswith(('from_residual', 'branch', 'from_output')):
                continue
            if f.cfg().rpo.get(bi) is None:
                continue
            n += 1
            F = F or Flow(C, f)
            R.fns.add(f.name)
            res, why = F.check(t[4][0], bi)
            R.result({'ok': 'eq', 'bad': 'ne', 'unk': 'unk'}[res], 'C19:%s:%s' % (f.name, d),
                     'the result of %s reaches the caller%s' % (d, '' if res == 'ok' else ': ' + why), [loc(f, sp)], why)
            m = d.rsplit('::', 1)[1]
            if e in ioerr and not local and m in ('write', 'read') and d.split('::')[-2] in ('Write', 'Read'):
                cf = f.cfg()
                if cf.inner.get(bi) is None:
                    R.violation('C19:%s:partial' % f.name, '%s may transfer only part of the data' % d, [loc(f, sp)])
                else:
                    R.unknown(loc(f, sp), '%s in a loop' % d)
        # results that are discarded right away have no local of their own type only if unit: covered above
    R.sites += n
    if not n:
        R.unknown('file operations', 'none found')


def direct_io(C):
    Q = Reach(C)
    out = []
    for f in C.P.locals:
        if f.dumped and '{' not in f.name and any(e[0] in ('read', 'write') for e in Q.direct.get(f.id, ())):
            out.append(f)
    return out


def paths(C, R):
    P = C.P
    hub = set()
    sf = {f.id for f in C.stream_fns()}
    fs = [f for f in direct_io(C) if f.id not in sf]
    for it, f in public_fns(C):
        if writer(C, f) and f not in fs:
            fs.append(f)
    for f in fs:
        r = C.run(f, mode='fmt')
        R.covered(r)
        E = r.E
        E_ok = 0
        for s, v in r.exits:
            kv = E.get_variants(s, v)
            io = s.gh.get('io', ())
            for t in io:
                tv = E.get_variants(s, t)
                if t is v or contains_val(v, t):
                    R.ok('%s returns the result of %s' % (f.name, t.args[0]))
                elif tv is None or len(tv) != 1:
                    if errty(C, f.locals[0]) is None:
                        R.unknown(f.name, 'does not return a Result')
                    elif kv == frozenset({1}):
                        R.ok('%s: error returned' % f.name)
                    else:
                        R.result('ne' if not tainted(v) else 'unk', 'C19:%s:%s' % (f.name, t.args[0]),
                                 '%s succeeds only if %s succeeded' % (f.name, t.args[0]), [f.name])
                elif 1 in tv:
                    R.result('eq' if kv == frozenset({1}) else ('unk' if kv is None and tainted(v) else 'ne'), 'C19:%s:%s' % (f.name, t.args[0]),
                             '%s reports the failure of %s' % (f.name, t.args[0]), [f.name])
                else:
                    R.ok('%s: %s succeeded on this path' % (f.name, t.args[0]))
            if kv == frozenset({0}) or kv is None:
                E_ok += 1
                data(C, R, f, r, s, v, io)
    if not fs:
        R.unknown('functions that touch files', 'none found')


def contains_val(v, t):
    return any(x is t for x in closure(v)) and v.op != 'adt'


FULLREAD = ('read_to_string', 'read_to_end')


def data(C, R, f, r, s, v, io):
    E = r.E
    names = [t.args[0] for t in io]
    # text read: whole
    if any(n.startswith(('read:', 'fs::read_to_string', 'fs::read', 'io::read_to_string')) for n in names):
        for t in io:
            n = t.args[0]
            if n.startswith('read:') and n[5:] not in FULLREAD:
                R.unknown('%s: %s' % (f.name, n), 'amount read not known')
        text = stored_text(C, E, s, v)
        if text is None:
            R.unknown(f.name, 'text read not found in the result')
        else:
            ok = text.op == 'app' and (text.args[0] == 'filetext' or (text.op == 'app' and any(text is Fld(t, 0, 0) for t in io))) or \
                text.op == 'fld' and any(text.args[0] is t for t in io)
            src = text.args[2] if text.op == 'app' and text.args[0] == 'filetext' else (text.args[0] if text.op == 'fld' else None)
            full = ok and (src is None or not re.search(r'take|chain', str(src.args[0]) if src.op == 'app' else ''))
            if ok and src is not None and any(x.op == 'app' and x.args[0] == 'call' and re.search(r'::(take|bytes|chars|lines|split)$', '::' + str(x.args[1].args[0])) for x in [src] + list(closure(src))):
                full = False
            R.result('eq' if full else ('unk' if (tainted(text) and not lossy_read(text)) else 'ne'), 'C19:%s:whole' % f.name,
                     '%s gives the whole text of the file: %s' % (f.name, str(text)[:120]), [f.name])
    # text written: whole, on success
    if writer(C, f):
        want = None
        ws = [t for t in io if t.args[0].startswith(('write:write', 'fs::write'))]
        if not ws:
            R.result('unk' if any(k == 'unknown_call' for k, _ in r.events) else 'ne', 'C19:%s:nothing' % f.name,
                     '%s reports success only after writing' % f.name, [f.name])
            return
        if len(ws) > 1:
            R.unknown(f.name, 'several writes')
            return
        w = ws[0]
        d = peel(E, s, w.args[2])
        a = peel(E, s, r.args[0])
        pure = d.op == 'app' and d.args[0] == 'pf' and str(d.args[1].args[0]) == 'format'
        if pure and d.args[2] is a or d.op == 'app' and d.args[0] == 'pf' and any(x is a for x in d.args[1:] if type(x) is Term):
            R.ok('%s hands over the whole text' % f.name)
        else:
            R.result('unk' if tainted(d) and not lossy_read(d) else 'ne', 'C19:%s:data' % f.name,
                     '%s hands the whole text to the operating system: %s' % (f.name, str(d)[:120]), [f.name])
        if w.args[0] == 'write:write':
            R.violation('C19:%s:partial' % f.name, '%s may write only part of the text' % f.name, [f.name])
        hd = w.args[1]
        hs = str(hd)
        if w.args[0].startswith('write:') and not any(x.op == 'app' and x.args[0] == 'File::create' for x in [hd] + list(closure(hd))):
            R.unknown(f.name, 'file opened in an unknown mode: %s' % hs[:80])


def lossy_read(t):
    return any(x.op == 'app' and x.args[0] == 'call' and ALTER.search('::' + str(x.args[1].args[0]).rsplit('::', 1)[-1]) for x in [t] + list(closure(t)) if x.op == 'app' and type(x.args[1]) is Term and x.args[1].op == 'str')


def stored_text(C, E, s, v):
    """The one text in a successful result: a String, or the text held by a reader."""
    seen = set()

    def walk(t, d):
        if d > 8 or t in seen:
            return []
        seen.add(t)
        if t.op in ('ref', 'pref'):
            try:
                return walk(E.load_ref(s, t) if t.op == 'ref' else t.args[0], d + 1)
            except Exception:
                return []
        if t.op == 'app' and t.args[0] in ('filetext', 'cat') or t.op == 'fld':
            return [t] if any(x.op == 'app' and x.args[0] in ('filetext',) or x.op == 'app' and str(x.args[0]).startswith(('fs::read', 'io::read')) for x in [t] + list(closure(t))) else []
        if t.op in ('adt', 'tup'):
            r = []
            for x in t.args[2 if t.op == 'adt' else 0:]:
                if type(x) is Term:
                    r += walk(x, d + 1)
            return r
        if t.op == 'app':
            if t.args[0] == 'call':
                return [t] if any(x.op == 'app' and x.args[0] == 'filetext' for x in closure(t)) else []
            r = []
            for x in t.args[1:]:
                if type(x) is Term:
                    r += walk(x, d + 1)
            return r
        return []
    r = walk(v, 0)
    return r[0] if r else None
