"""Rules over the whole parser: error positions (C20), closing brackets (C29), precedence (C22), duplicates (C11), scoping (C07)."""
from base import *
import time


class PU:
    """One analysis unit of the parser: a function run on its own with all paths kept apart."""


def units(C):
    """The functions through which the parser recurses and those from which it is entered, run on their own; everything
    else is analysed inlined in them."""
    r = C._cache.get('punits')
    if r is None:
        M = C.light_parser()
        E = M.E
        r = []
        for h in M.hubs:
            x = pm.stream_unit(M, C.P.fns[h], None, budget=2_500_000)
            x.hub = True
            r.append(x)
        for f in M.roots():
            x = run_root(M, f)
            x.hub = False
            r.append(x)
        C._cache['punits'] = r
    return r


def run_root(M, f, setup=None):
    E = M.E
    st, args, v = M.entry_state(f)
    if setup is not None:
        setup(E, st, args, v)
    E.stats['blocks'] = 0
    old = E.budget, E.precise, E.join_all_errs, E.exit_limit
    E.budget, E.precise, E.join_all_errs, E.exit_limit = 30_000_000, True, False, 400
    try:
        r = run_unit(E, f, args, st)
    finally:
        E.budget, E.precise, E.join_all_errs, E.exit_limit = old
    r.version, r.E = v, E
    return r


def sname(f):
    return f.name.replace('over::parse::parser::', '').replace('over::', '')


def at(e):
    """Where an event happens: source line of the innermost frame, then the functions around it."""
    E = e.get('E')
    return ['%s:%s' % (e['span'][0].replace('/repo/', ''), e['span'][1])] if e.get('span') else []


def wh(E, e):
    try:
        return [str(x) for x in E.where(e['fr'], e.get('span'))]
    except Exception:
        return at(e)


def err_types(C):
    """(error struct, kind enum): the error of the parser's results is a struct of a file and a kind."""
    M = C.light_parser()
    f = C.P.fns[M.hubs[0]]
    t = C.P.T[f.locals[0]]['args'][1]
    T = C.P.T[t]
    ki = fi = None
    for i, (n, x) in enumerate(T['vars'][0][1]):
        X = C.P.T[x]
        if X.get('k') == 'adt' and X['kind'] == 'enum' and X.get('local'):
            ki, kt = i, x
        elif X.get('k') == 'adt' and X['adt'].endswith('Option'):
            fi = i
    return T['adt'], fi, ki, C.P.T[kt]


# positions ------------------------------------------------------------------------------------------
def phi_parts(t):
    """(site, path) of a phi."""
    return (t.args[0], t.args[1]) if t.op == 'phi' else None


class Pos:
    """Recognises the line or the column of a state of the text."""

    def __init__(self, C, SI):
        self.SI = SI

    def part(self, t, name, idx):
        """('v', version term) or ('phi', site, path prefix) whose line/column this is."""
        if t.op == 'app' and t.args[0] == name:
            return ('v', t.args[1])
        if t.op == 'phi' and t.args[1] and t.args[1][-1] == idx:
            return ('phi', t.args[0], tuple(t.args[1][:-1]))
        return None

    def line(self, t):
        return self.part(t, 'line', self.SI.i_line)

    def col(self, t):
        return self.part(t, 'col', self.SI.i_col)


def minus1(t):
    if t.op == 'app' and t.args[0] == 'add' and t.args[2] is Int(-1):
        return t.args[1]
    if t.op == 'app' and t.args[0] == 'sub' and t.args[2] is Int(1):
        return t.args[1]
    return None


def streams_of(E, SI, st):
    """[(cell, inner struct)] of every reader in this state."""
    out = []
    for c, t in st.cells.items():
        x = t
        if x.op == 'adt' and x.args[0] == SI.P.T[SI.inner]['adt']:
            out.append((c, x))
    return out


class Source:
    """Decides what a (line, column) pair denotes in a state."""

    def __init__(self, C, run):
        self.C = C
        self.M = C.light_parser()
        self.SI = self.M.SI
        self.run = run
        self.E = run.E
        self.pos = Pos(C, self.SI)
        f = run.fn
        self.entry = None
        us = [i for i in range(f.argc) if C.P.T[f.locals[i + 1]].get('k') == 'uint']
        self.uargs = {run.args[i]: i for i in us}
        self.posargs = None

    def set_posargs(self, p):
        self.posargs = p

    def classify(self, st, l, c):
        """-> ('ok', cell, file term, text) | ('ne', why) | ('unk', why); c None when only a line is given."""
        E, SI = self.E, self.SI
        if self.posargs and l in self.uargs and (c is None or c in self.uargs):
            i, j = self.posargs
            if self.uargs[l] != i or c is not None and self.uargs[c] != j:
                return 'ne', 'line and column are not those the construct started at, in this order'
            return 'ok', 'entry', 'the start of the construct'
        if popped(l) and (c is None or popped(c)):
            if c is not None and not (l.op == 'fld' and c.op == 'fld' and l.args[0] is c.args[0] and c.args[2] == l.args[2] + 1):
                return 'ne', 'line and column were not stored together, in this order'
            return 'ok', 'stored', 'the place stored with the operand'
        pl = self.pos.line(l)
        back = False
        if c is not None:
            b = minus1(c)
            pc = self.pos.col(b if b is not None else c)
            back = b is not None
        if pl is None or c is not None and pc is None:
            if c is not None and self.pos.col(l) and self.pos.line(c):
                return 'ne', 'line and column are exchanged'
            if l.op in ('int',) or c is not None and c.op == 'int' or c is not None and (
                    (self.pos.line(l) or self.pos.col(l)) and (self.pos.line(c) or self.pos.col(c))):
                return 'ne', 'not a place of the reader: (%s, %s)' % (show(l)[:80], show(c)[:80] if c is not None else '')
            if arith_of_pos(self, l) or c is not None and arith_of_pos(self, c):
                return 'ne', 'the place is computed: (%s, %s)' % (show(l)[:80], show(c)[:80] if c is not None else '')
            return 'unk', 'place not understood: (%s, %s)' % (show(l)[:80], show(c)[:80] if c is not None else '')
        if c is not None and pl != pc:
            return 'ne', 'line and column were taken at different places of the text'
        for cell, inner in streams_of(E, SI, st):
            cur = inner.args[2 + SI.i_stream]
            anc = E.ancestors(st, cur)
            v = None
            for a in anc:
                if pl[0] == 'v' and a is pl[1] or pl[0] == 'phi' and a.op == 'phi' and a.args[0] == pl[1] and tuple(a.args[1]) == pl[2] + (SI.i_stream,):
                    v = a
                    break
            if v is None and pl[0] == 'phi' and pl[2] and pl[2][0] == cell:
                v = cur
            if v is None:
                continue
            if back:
                # the place of the character consumed last: one column back
                if not (v.op == 'app' and v.args[0] == 'next'):
                    return 'ne', 'one column before a place where no character was just consumed'
                return 'ok', cell, 'the character just consumed'
            return 'ok', cell, 'the current place' if v is cur else 'an earlier place'
        return 'ne', 'the place was not taken from a reader in use here'


def arith_of_pos(S, t):
    if t.op == 'app' and t.args[0] in ('add', 'sub', 'mul'):
        return any(type(x) is Term and (S.pos.line(x) or S.pos.col(x) or x in S.uargs) for x in t.args[1:])
    return False


def popped(t):
    """A component of something stored in a queue."""
    x = t
    while x.op == 'fld':
        x = x.args[0]
    return x.op == 'app' and x.args[0] in ('frontopt', 'backopt', 'at', 'popf', 'popb')


def rule_C20(C, R):
    R.rule = ('Every construction of a parse error on every path of the parser is enumerated. Its file must be the file of the '
              'reader its position comes from (none only outside of any reader), its line and column must be the line and '
              'column of one and the same place of that reader, in this order: the current place, an earlier place of the same '
              'reader, or one column before the place after the character just consumed. Positions handed to a recursive call '
              'must be the current place. No error without file leaves the recursion.')
    us = units(C)
    M = C.light_parser()
    SI = M.SI
    ERR, fi, ki, KT = err_types(C)
    pa = {}
    for u in us:
        if u.hub:
            pa[u.fn.id] = posargs(C, u.fn)
    for u in us + op_units(C):
        R.covered(u)
        E = u.E
        S = Source(C, u)
        S.set_posargs(pa.get(u.fn.id) or posargs(C, u.fn))
        for k, e in u.events:
            if k == 'agg' and e['adt'] == ERR:
                guard(R, 'an error raised in ' + sname(u.fn), one_error, C, R, S, u, e, fi, ki, KT)
            elif k == 'hub_call':
                guard(R, 'a recursive call in ' + sname(u.fn), one_call, C, R, S, u, e, pa)
            elif k == 'pure_call' and any(C.strip(t) == SI.ty for t in e['fn'].locals[1:1 + e['fn'].argc]):
                guard(R, 'an operator in ' + sname(u.fn), one_pure, C, R, S, u, e)
            elif k == 'push':
                guard(R, 'a stored place in ' + sname(u.fn), one_push, C, R, S, u, e)
        if u.hub:
            for s, v in u.exits:
                guard(R, 'an error leaving ' + sname(u.fn), one_exit, C, R, S, u, s, v, ERR, fi, ki, KT)


def posargs(C, fn):
    """(index of the line, index of the column) among the numeric parameters: the pair that most callers pass a place in."""
    P = C.P
    votes = C._cache.get('posvotes')
    if votes is None:
        votes = C._cache['posvotes'] = {}
        pos = Pos(C, C.light_parser().SI)
        for u in units(C):
            for k, e in u.events:
                if k in ('hub_call', 'pure_call'):
                    g = e['fn']
                    us = [i for i in range(g.argc) if P.T[g.locals[i + 1]].get('k') == 'uint']
                    if len(us) < 2:
                        continue
                    ts = {i: u.E.deep(e['st'], e['args'][i]) for i in us}
                    for i in us:
                        for j in us:
                            if i != j and pos.line(ts[i]) is not None and pos.line(ts[i]) == pos.col(ts[j]):
                                d = votes.setdefault(g.id, {})
                                d[i, j] = d.get((i, j), 0) + 1
    d = votes.get(fn.id)
    if d:
        return max(sorted(d), key=lambda x: d[x])
    us = [i for i in range(fn.argc) if P.T[fn.locals[i + 1]].get('k') == 'uint']
    for a, b in zip(us, us[1:]):
        if b == a + 1:
            return a, b
    return None


def op_units(C):
    """The functions that apply an operator, with the reader whose place they report."""
    M = C.light_parser()
    out = []
    for f in M.op_fns():
        if f.id in M.comp:
            continue
        if not any(C.strip(t) == M.SI.ty for t in f.locals[1:1 + f.argc]):
            continue
        x = pm.stream_unit(M, f, None, budget=3_000_000)
        x.hub = False
        out.append(x)
    return out


def kname(KT, v):
    return KT['vars'][v][0]


def kind_positions(E, C, KT, st, kind):
    """[line, column] or [line] terms of an error kind; None when the kind carries no place."""
    fs = KT['vars'][kind.args[1]][1]
    ps = [kind.args[2 + i] for i, (n, t) in enumerate(fs) if C.P.T[t].get('k') == 'uint']
    if ps:
        return ps
    for i, (n, t) in enumerate(fs):
        x = kind.args[2 + i]
        if x.op == 'app' and x.args[0] == 'cat':
            ps = [y.args[2] for y in x.args[1:] if type(y) is Term and y.op == 'app' and y.args[0] == 'disp' and y.args[1].args[0] == 'usize']
            if ps:
                return ps
    return None


def one_error(C, R, S, u, e, fi, ki, KT):
    E, st = u.E, e['st']
    file = E.deep(st, e['fields'][fi])
    kind = E.deep(st, e['fields'][ki])
    where = wh(E, e)
    fnm = e['fr'].fn.name if hasattr(e['fr'], 'fn') else ''
    if kind.op != 'adt':
        # an error handed on: file and kind of one and the same error
        b = kind.args[0] if kind.op == 'fld' else None
        if b is not None and file.op == 'fld' and file.args[0] is b:
            R.ok('an error handed on keeps its file')
        elif b is not None and file.op != 'fld':
            R.violation('handed-on:%s' % sname(u.fn), 'an error handed on gets another file: %s' % show(file)[:120], where)
        else:
            R.unknown('an error handed on', show(kind)[:120])
        return
    name = kname(KT, kind.args[1])
    key = '%s in %s' % (name, owner_name(e))
    ps = kind_positions(E, C, KT, st, kind)
    none = file.op == 'adt' and file.args[1] == 0
    if ps is None:
        conv = e['fr'].fn.canon[0] == 'T' and e['fr'].fn.canon[1] == 'From'
        if conv and none:
            R.ok('%s: converted, file added where it is included' % key)
            return
        if rebuilt(E, st, file, kind):
            R.ok('%s keeps its file' % key)
            return
        R.unknown(key, 'error without a place; file %s' % show(file)[:80])
        return
    if len(ps) > 2:
        R.unknown(key, 'more than two numbers')
        return
    r = S.classify(st, ps[0], ps[1] if len(ps) == 2 else None)
    if r[0] != 'ok':
        R.result(r[0], 'place:' + key, '%s: %s' % (key, r[1]), where, reason=r[1])
        return
    cell = r[1]
    want = None
    if cell in ('entry', 'stored'):
        for a in u.args:
            x = S.SI.file(E, st, a)
            if x is not None:
                want = x
                break
        if want is None:
            # the reader of the unit may live in a local
            ss = streams_of(E, S.SI, st)
            want = ss[0][1].args[2 + S.SI.i_file] if len(ss) == 1 else None
    else:
        want = dict(streams_of(E, S.SI, st))[cell].args[2 + S.SI.i_file]
    if want is None:
        R.unknown(key, 'reader not found')
        return
    chs = [x for i, (n, t) in enumerate(KT['vars'][kind.args[1]][1]) if C.P.T[t].get('k') == 'char' for x in [kind.args[2 + i]]]
    if chs and len(ps) == 2 and len(chs) == 1:
        v = peeked(chs[0])
        if v is not None:
            ok = char_place(S, u, cell, r[2], v, ps[0], ps[1])
            R.result('eq' if ok else 'ne', 'char:' + key, '%s names the place of the character it shows%s' % (
                key, '' if ok else ' (it names %s)' % r[2]), where)
    c = cmp(E, st, file, E.deep(st, want))
    R.result(c, 'file:' + key, '%s carries the file of its reader (%s)' % (key, r[2]) if c == 'eq' else
             '%s carries file %s but its place is in %s' % (key, show(file)[:100], show(want)[:100]), where)


def peeked(t):
    """The place whose character this is."""
    if t.op == 'fld' and t.args[1] == 1 and t.args[0].op == 'app' and t.args[0].args[0] == 'peek':
        return t.args[0].args[1]
    return None


def char_place(S, u, cell, kind, v, l, c):
    """(l, c) is the place of the character at v, as the reader counts."""
    if cell == 'entry':
        return v is u.version
    if cell == 'stored':
        return True
    b = minus1(c)
    pl = S.pos.line(l)
    if b is not None:
        return pl == ('v', App('next', v))
    return pl == ('v', v) or v.op == 'phi' and pl == ('phi', v.args[0], tuple(v.args[1][:-1]))


def owner_name(e):
    fr = e['fr']
    n = fr.fn.name
    k = 0
    while k < 6 and ('parse_err' in n or '{closure' in n or '::from' in n or n.startswith('<')):
        p = getattr(fr, 'parent', None) or getattr(fr, 'caller', None)
        if p is None:
            break
        fr, k = p, k + 1
        n = fr.fn.name
    return sname(fr.fn)


def rebuilt(E, st, file, kind):
    return False


def one_call(C, R, S, u, e, pa):
    E, st = u.E, e['st']
    p = pa.get(e['fn'].id)
    if p is None:
        return
    l, c = E.deep(st, e['args'][p[0]]), E.deep(st, e['args'][p[1]])
    v = e['version']
    key = 'call of %s in %s' % (sname(e['fn']), owner_name(e))
    r = S.classify(st, l, c)
    if r[0] == 'ok' and r[2] not in ('the current place',):
        if r[1] == 'entry' and u.version is v:
            r = ('ok', 'entry', 'the start')
        else:
            r = ('ne', 'the place given is %s, not where the value starts' % r[2])
    R.result('eq' if r[0] == 'ok' else r[0], 'call:' + key, '%s gets the place where the value starts%s' % (
        key, '' if r[0] == 'ok' else ': ' + r[1]), wh(E, e), reason=r[1])


def one_pure(C, R, S, u, e):
    E, st = u.E, e['st']
    f = e['fn']
    p = posargs(C, f)
    if p is None:
        return
    key = 'call of %s in %s' % (sname(f), owner_name(e))
    l, c = E.deep(st, e['args'][p[0]]), E.deep(st, e['args'][p[1]])
    r = S.classify(st, l, c)
    R.result('eq' if r[0] == 'ok' else r[0], 'call:' + key, '%s gets a place of its reader (%s)' % (key, r[2] if r[0] == 'ok' else r[1]),
             wh(E, e), reason=r[1])
    si = [i for i in range(f.argc) if C.strip(f.locals[i + 1]) == S.SI.ty][0]
    if S.SI.version(E, st, e['args'][si]) is None:
        R.unknown(key, 'reader not understood')


def one_push(C, R, S, u, e):
    """Two numbers next to each other in a queue are a place."""
    E, st = u.E, e['st']
    x = E.deep(st, e['item'])
    if x.op != 'tup' or not str(e.get('fn')).count('usize, usize'):
        return
    us = [t for t in x.args if S.pos.line(t) or S.pos.col(t) or t in S.uargs or popped(t) and t.op == 'fld']
    if len(x.args) < 3:
        return
    l, c = x.args[-2], x.args[-1]
    key = 'place stored in %s' % owner_name(e)
    r = S.classify(st, l, c)
    R.result('eq' if r[0] == 'ok' else r[0], 'store:' + key, '%s: %s' % (key, r[2] if r[0] == 'ok' else r[1]), wh(E, e), reason=r[1])


def one_exit(C, R, S, u, s, v, ERR, fi, ki, KT):
    E = u.E
    v = E.deep(s, v)
    if v.op != 'adt' or v.args[1] != 1:
        return
    x = v.args[2]
    if x.op != 'adt' or x.args[0] != ERR:
        return
    file, kind = x.args[2 + fi], x.args[2 + ki]
    if file.op == 'adt' and file.args[1] == 0:
        n = kname(KT, kind.args[1]) if kind.op == 'adt' else '?'
        if n == 'ParseIntError':
            return
        R.violation('nofile:%s' % n, 'an error of kind %s leaves %s without the file being parsed' % (n, sname(u.fn)), [u.fn.name])
    else:
        R.ok('errors leave %s with a file' % sname(u.fn))


# closing (C29) ---------------------------------------------------------------------------------------
PAIRS = {'{': '}', '[': ']', '(': ')', '<': '>', '"': '"'}
ENDS = mask_of(')]}>')
ALNUM = M_DIGIT | M_AALPHA


def value_hub(C):
    """The function that reads one value: takes the reader and gives a Value; the bracket it is in is an Option<char>."""
    M = C.light_parser()
    vt = C.ty('Value')
    out = []
    for h in M.hubs:
        f = C.P.fns[h]
        rt = C.P.T[f.locals[0]]
        if rt.get('k') == 'adt' and rt['args'] and rt['args'][0] == vt:
            bs = [i for i in range(f.argc) if C.P.T[f.locals[i + 1]].get('k') == 'bool']
            os_ = [i for i in range(f.argc) if is_optchar(C, f.locals[i + 1])]
            out.append((f, bs[0] if len(bs) == 1 else None, os_[0] if len(os_) == 1 else None))
    full = [x for x in out if x[1] is not None]
    return full[0] if len(full) == 1 else None


def is_optchar(C, t):
    T = C.P.T[t]
    return T.get('k') == 'adt' and T['adt'].endswith('Option') and C.P.T[T['args'][0]].get('k') == 'char'


def brace(C, ch):
    return models.NONE if ch is None else models.Some(Char(ord(ch)))


def value_run(C, first=None, brace_=False, isfirst=None, exclude=''):
    """The value reader on its own: at a given first character, in a given bracket, as a whole value or as one operand."""
    key = ('vrun', first, brace_, isfirst, exclude)
    r = C._cache.get(key)
    if r is None:
        f, bi, oi = value_hub(C)
        M = C.light_parser()

        def setup(E, st, args, v):
            if first is not None:
                p = App('peek', v)
                E.assume_variant(st, p, frozenset([1]))
                E.assume(st, ChIn(Fld(p, 1, 0), first if type(first) is int else mask_of(first)), True)
            if brace_ is not False:
                args[oi] = brace(C, brace_)
            if isfirst is not None:
                args[bi] = Bool(isfirst)
        r = C._cache[key] = pm.stream_unit(M, f, setup, budget=2_500_000)
    return r


def main_version(E, SI, s, r):
    for a in r.args:
        v = SI.version(E, s, a)
        if v is not None:
            return v
    return None


def consumed(E, s, v, stop=None):
    """[(place, possible characters)] consumed by single steps, newest first, up to a loop head, a recursive call or the start."""
    out = []
    while v.op == 'app' and v.args[0] == 'next' and v is not stop:
        u = v.args[1]
        p = App('peek', u)
        vs = E.get_variants(s, p)
        m = E.get_mask(s, Fld(p, 1, 0)) if vs != frozenset([0]) else 0
        out.append((u, m, vs))
        v = u
    return out


def rule_C29(C, R):
    R.rule = ('The value reader is run for each opening character: every path that succeeds must have consumed the matching '
              'closing character last, and no other closing bracket is consumed as such on any path or loop edge. As a whole '
              'value it must stop before white space, a comment, the bracket it is in, or the end. Readers of whole files '
              'succeed only at the end of the text. Every container passes its own bracket to the values inside it and has '
              'them read as whole values.')
    vh = value_hub(C)
    if vh is None or vh[2] is None:
        return R.unknown('values', 'the value reader was not found')
    for o, c in PAIRS.items():
        guard(R, 'closing of ' + o, closed_by, C, R, o, c)
    for b in (None, '}', ']', ')', '>'):
        guard(R, 'end of a value in %s' % b, value_end, C, R, b)
    guard(R, 'calls', whole_values, C, R)
    guard(R, 'end of file', file_end, C, R)


def closed_by(C, R, o, c):
    r = value_run(C, o, False, False)
    R.covered(r)
    E, SI = r.E, C.light_parser().SI
    n = 0
    for s, v in r.exits:
        v = E.deep(s, v)
        if v.op == 'adt' and v.args[1] == 1:
            continue
        ver = main_version(E, SI, s, r)
        cs = consumed(E, s, ver) if ver is not None else []
        if not cs:
            if ver is not None and ver.op == 'app' and ver.args[0] == 'after' or ver is r.version:
                R.violation('closed:%s' % o, 'a value that starts with %s can end without %s (%s)' % (o, c, path_note(s)), [r.fn.name])
            else:
                R.unknown('closing of %s' % o, 'end of the text read: %s' % show(ver)[:100])
            continue
        u, m, vs = cs[0]
        if m and not (m & ~mask_of(c)) and vs == frozenset([1]):
            n += 1
            R.ok('a value that starts with %s ends with %s' % (o, c))
        elif vs == frozenset([1]) or m == FULL and vs is None or vs == frozenset([0]):
            R.violation('closed:%s' % o, 'a value that starts with %s can end with %s' % (o, 'the end of the text' if vs == frozenset([0]) else mask_text(m)), [r.fn.name])
        else:
            R.unknown('closing of %s' % o, 'last character: %s' % mask_text(m))
        if o != '"':
            for u2, m2, vs2 in cs[1:]:
                stray(R, r, o, c, m2, 'before its end')
    if not n:
        R.unknown('closing of %s' % o, 'no path reads it to its end')
    if o == '"':
        return
    for k, e in r.events:
        if k in ('backedge', 'iterback'):
            for cell, inner in streams_of(E, SI, e['st']):
                h = e['head'].cells.get(cell)
                if h is None or h.op != 'adt':
                    continue
                h = h.args[2 + SI.i_stream]
                for u, m, vs in consumed(E, e['st'], inner.args[2 + SI.i_stream], h):
                    stray(R, r, o, c, m, 'and goes on', wh(E, e))
        elif k == 'hub_call':
            for u, m, vs in consumed(E, e['st'], e['version']):
                stray(R, r, o, c, m, 'and goes on', wh(E, e))


def stray(R, r, o, c, m, what, where=None):
    if not m & ENDS:
        R.ok('no closing bracket is skipped')
    elif m & ALNUM == ALNUM:
        R.ok('free text')
    else:
        R.violation('stray:%s:%s' % (o, mask_text(m & ENDS)), 'inside %s a closing bracket %s is skipped %s' % (o, mask_text(m & ENDS), what), where or [r.fn.name])


def path_note(s):
    return 'one of the paths that succeed'


def mask_text(m):
    if m == FULL:
        return 'any character'
    t = ''.join(chr(i) if 32 <= i < 127 else '\\x%02x' % i for i in range(128) if m >> i & 1)
    if m >> 128:
        t += ' and others beyond ASCII'
    return repr(t[:60])


def value_end(C, R, b):
    r = value_run(C, None, b, True)
    R.covered(r)
    E, SI = r.E, C.light_parser().SI
    okm = M_WS | mask_of('#') | (mask_of(b) if b else 0)
    for s, v in r.exits:
        v = E.deep(s, v)
        if v.op == 'adt' and v.args[1] == 1:
            continue
        ver = main_version(E, SI, s, r)
        p = App('peek', ver)
        vs = E.get_variants(s, p)
        if vs == frozenset([0]):
            R.ok('a value may end the text')
            continue
        m = E.get_mask(s, Fld(p, 1, 0))
        if not m & ~okm:
            R.ok('a value in %s is followed by white space, a comment or its bracket' % b)
            continue
        x = next((x for x in s.facts if x.op == 'app' and x.args[0] not in ('chin', 'eq', 'peek') and (Fld(p, 1, 0) in x.args or x.args[0] in ('all', 'any') and Fld(p, 1, 0) in closure(x))), None)
        if x is not None:
            R.unknown('end of a value in %s' % b, 'condition %s' % show(x)[:100])
            continue
        R.violation('value-end:%s' % b, 'a value in %s can be followed by %s' % (b or 'a file', mask_text(m & ~okm)), [r.fn.name])


def whole_values(C, R):
    """Values inside a container are read as whole values in that container's bracket."""
    f, bi, oi = value_hub(C)
    M = C.light_parser()
    SI = M.SI
    for u in units(C):
        R.covered(u)
        E = u.E
        own = [a for i, a in enumerate(u.args) if is_optchar(C, u.fn.locals[i + 1])]
        for k, e in u.events:
            if k != 'hub_call' or e['fn'].id != f.id:
                continue
            st = e['st']
            b = E.deep(st, e['args'][oi])
            w = E.decide(st, e['args'][bi])
            if b in own:
                R.ok('an operand is read in the bracket of its expression')
                continue
            if b.op == 'adt':
                if w is True:
                    R.ok('a container reads whole values')
                elif w is False:
                    R.violation('whole:%s' % owner_name(e), '%s reads the values inside it without checking what follows them' % owner_name(e), wh(E, e))
                else:
                    R.unknown('a call in %s' % owner_name(e), 'whole value or operand')
            else:
                R.unknown('a call in %s' % owner_name(e), 'bracket %s' % show(b)[:80])
    for o, c in PAIRS.items():
        if o == '"':
            continue
        r = value_run(C, o, False, False)
        E = r.E
        for k, e in r.events:
            if k != 'hub_call' or e['fn'].id != f.id:
                continue
            b = E.deep(e['st'], e['args'][oi])
            same = same_reader(E, SI, e, r)
            want = brace(C, c if same else None)
            R.result(cmp(E, e['st'], b, want), 'bracket:%s:%s' % (o, owner_name(e)), 'values inside %s are read up to %s (%s)' % (
                o if same else 'a file', c if same else 'its end', show(b)[:40]), wh(E, e))


def same_reader(E, SI, e, r):
    """The call reads from the reader the unit was given."""
    l = SI.locate(E, e['st'], next(a for a in e['args'] if SI.version(E, e['st'], a) is not None))
    return l is not None and l[0] is not None and l[0].op == 'ref' and l[0].args[0] == ('RCin', 'in')


def file_end(C, R):
    """Readers that open a text themselves succeed only when it is read to its end."""
    from types_rule import run_any
    M = C.light_parser()
    SI = M.SI
    g = pm.callgraph(C.P)
    made = [f for f in C.P.locals if f.dumped and '{' not in f.name and any(t == SI.ty for t in ret_types(C, f))]
    made = {f.id for f in made}
    for f in C.P.locals:
        if not f.dumped or '{' in f.name or f.id in made or not (g[f.id] & made):
            continue
        if any(C.strip(t) == SI.ty for t in f.locals[1:1 + f.argc]):
            continue
        r = run_root(M, f)
        R.covered(r)
        E = r.E
        for s, v in r.exits:
            v = E.deep(s, v)
            if v.op == 'adt' and v.args[1] == 1:
                continue
            ss = streams_of(E, SI, s)
            if len(ss) != 1:
                R.unknown(sname(f), '%d readers at the end' % len(ss))
                continue
            ver = ss[0][1].args[2 + SI.i_stream]
            if at_end(E, s, ver):
                R.ok('%s succeeds at the end of the text' % sname(f))
            else:
                R.violation('end:%s' % sname(f), '%s can succeed before the end of the text' % sname(f), [f.name])


def at_end(E, s, v):
    """Nothing is left to read at this place."""
    while True:
        if E.get_variants(s, App('peek', v)) == frozenset([0]):
            return True
        if v.op == 'app' and v.args[0] == 'next':
            v = v.args[1]
            continue
        return False


def ret_types(C, f):
    from stream import types_in
    return types_in(C.P, f.locals[0])
