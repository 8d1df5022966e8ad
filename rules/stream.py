"""C26: the character stream and its position."""
from base import *

NL = mask_of('\n')


def short(f):
    return f.name.replace('over::parse::', '').replace('std::', '')


def stream_methods(C, SI):
    """Functions of the stream type itself."""
    out = []
    a = SI.adt
    for f in C.P.locals:
        if not f.dumped or '{' in f.name:
            continue
        c = f.canon
        if c[0] == 'T' and c[3] == a or c[0] != 'T' and a in f.name:
            out.append(f)
    return out


def stream_run(C, SI, f, mode='cs'):
    E = C.engine(mode)
    st = State()
    args, v = [], None
    for i in range(f.argc):
        t = f.locals[i + 1]
        if C.strip(t) == SI.ty and v is None:
            s, v = SI.entry(st, 'in')
            if C.P.T[t].get('k') == 'ref':
                st.cells[('A', i)] = s
                args.append(Ref(('A', i)))
            else:
                args.append(s)
        else:
            args.append(entry_arg(E, st, i, t, 'a%d' % i))
    E.stats['blocks'] = 0
    E.budget = 400000
    E.precise = True
    r = run_unit(E, f, args, st)
    r.E, r.version, r.entry = E, v, st
    return r


def inner_of(SI, E, s, cell=('RCin', 'in')):
    t = s.cells.get(cell)
    if t is None:
        return None
    t = E.deep(s, t)
    return t if t.op == 'adt' and t.args[0] == SI.P.T[SI.inner]['adt'] else None


def find_inner(SI, E, s, v):
    v = E.deep(s, v)
    for x in [v] + sorted(closure(v), key=lambda t: t.n):
        if x.op == 'adt' and x.args[0] == SI.P.T[SI.inner]['adt']:
            return x
    return None


def entry_inner(SI, E, r):
    st = State()
    s, v = SI.entry(st, 'in')
    for c, t in st.cells.items():
        if t.op == 'adt' and t.args[0] == SI.P.T[SI.inner]['adt']:
            return c, t
    for x in [s] + list(closure(s)):
        if x.op == 'adt' and x.args[0] == SI.P.T[SI.inner]['adt']:
            return None, x
    return None, None


def get(SI, t, i):
    return t.args[2 + i]


def cur_inner(SI, E, s, r):
    """The stream's state at the end, through the first argument."""
    for a in r.args:
        l = SI.locate(E, s, a)
        if l is not None:
            return E.deep(s, l[1])
    return None


def rule_C26(C, R):
    R.rule = ('The stream\'s own functions are interpreted over an arbitrary stream state: advancing returns the character '
              'peeked and moves the position by the stated step for a line feed and for every other character; every other '
              'function leaves text position, line and column alone (or is used by advancing only); a new stream starts at '
              'line 1, column 1 of the whole text; a copy of a handle shares the state.')
    M = C.light_parser()
    SI = M.SI
    if SI.i_line is None or SI.i_col is None:
        return R.unknown('stream', 'line and column fields not found')
    g = pm.callgraph(C.P)
    rev = {}
    for a, cs in g.items():
        for c in cs:
            rev.setdefault(c, set()).add(a)
    for f in stream_methods(C, SI):
        guard(R, short(f), one_fn, C, R, SI, f, rev)


def only_from_next(C, SI, rev, i, seen=None):
    """All callers lead to the advancing function."""
    seen = seen or set()
    cs = {c for c in rev.get(i, ()) if C.P.fns[c].local}
    if not cs:
        return False
    for c in cs:
        if c == SI.next.id or c in seen:
            continue
        if not only_from_next(C, SI, rev, c, seen | {i}):
            return False
    return True


def one_fn(C, R, SI, f, rev):
    P = C.P
    rt = P.T[f.locals[0]]
    streams = [i for i in range(f.argc) if C.strip(f.locals[i + 1]) == SI.ty]
    if not streams:
        if any(t == SI.ty for t in types_in(P, f.locals[0])):
            new_stream(C, R, SI, f)
        return
    r = stream_run(C, SI, f)
    R.covered(r)
    E = r.E
    v0 = r.version
    L, K = App('line', v0), App('col', v0)
    peek = App('peek', v0)
    nm = short(f)
    wh = where_fn(f)
    for s, x in r.exits:
        inn = cur_inner(SI, E, s, r)
        if inn is None:
            R.unknown(nm, 'stream state not understood')
            continue
        pos, l, k = get(SI, inn, SI.i_stream), get(SI, inn, SI.i_line), get(SI, inn, SI.i_col)
        if f is SI.next:
            advance(C, R, SI, E, s, x, pos, l, k, v0, L, K, wh)
            continue
        if pos is not v0:
            c = f.canon
            R.violation(nm + ':moves', '%s consumes text' % nm, wh) if not only_from_next(C, SI, rev, f.id) else R.ok(nm + ' is part of advancing')
        elif l is not L or k is not K:
            if only_from_next(C, SI, rev, f.id) or not rev.get(f.id):
                R.ok('%s changes the position only as part of advancing' % nm)
            else:
                R.violation(nm + ':position', '%s changes the position without consuming a character' % nm, wh)
        else:
            R.ok('%s leaves the position alone' % nm)
        if f.canon[0] == 'T' and f.canon[1] == 'Clone':
            y = x
            a = E.load_ref(s, r.args[0])
            if same_handle(E, s, y, a):
                R.ok('a clone shares the position')
            else:
                R.violation('clone:copies', 'a clone of the stream has a position of its own', wh)
        if rt.get('k') == 'adt' and rt['adt'].endswith('Option') and P.T[rt['args'][0]].get('k') == 'char':
            y = E.deep(s, x)
            R.result(cmp(E, s, y, opt(E, s, peek)), 'peek:value', '%s shows the next unread character' % nm, wh)
        elif rt.get('k') == 'uint' and f.argc == 1:
            base = f.name.rsplit('::', 1)[-1]
            want = L if 'line' in base or 'row' in base else K if 'col' in base else None
            if want is not None:
                R.result(cmp(E, s, E.deep(s, x), want), 'getter:' + base, '%s returns the current %s' % (nm, base), wh)
        elif SI.i_file is not None and P.T[SI.inner]['vars'][0][1][SI.i_file][1] == f.locals[0]:
            R.result(cmp(E, s, E.deep(s, x), get(SI, inn, SI.i_file)), 'getter:file', '%s returns the file' % nm, wh)


def opt(E, s, o):
    vs = E.get_variants(s, o)
    return o


def same_handle(E, s, a, b):
    """Both terms lead to the same shared cell."""
    ra = {x for x in [a] + list(closure(a)) if x.op == 'ref'}
    rb = {x for x in [b] + list(closure(b)) if x.op == 'ref'}
    if ra & rb:
        return True
    xa = {x for x in [a] + list(closure(a)) if x.op == 'app' and x.args[0] == 'arc'}
    return bool(xa & {x for x in [b] + list(closure(b)) if x.op == 'app' and x.args[0] == 'arc'})


def advance(C, R, SI, E, s, x, pos, l, k, v0, L, K, wh):
    peek = App('peek', v0)
    vs = E.get_variants(s, peek)
    x = E.deep(s, x)
    if vs is None or len(vs) != 1:
        R.unknown('next', 'path does not depend on the end of the text')
        return
    if pos is not App('next', v0):
        if vs == frozenset([0]) and pos is v0:
            pass
        else:
            R.result('unk' if tainted(pos) else 'ne', 'next:step', 'advancing moves by exactly one character (it moves to %s)' % show(pos)[:80], wh)
            return
    R.result(cmp(E, s, x, peek), 'next:value', 'advancing returns the next unread character', wh)
    if vs == frozenset([0]):
        R.result(worst([cmp(E, s, l, L), cmp(E, s, k, K)]), 'next:end', 'at the end of the text the position stays', wh)
        return
    m = E.get_mask(s, Fld(peek, 1, 0))
    for t, mm, wl, wk in (('line feed', m & NL, Add(L, Int(1)), Int(1)), ('other character', m & ~NL, L, Add(K, Int(1)))):
        if not mm:
            continue
        s2 = s.copy()
        E.assume(s2, ChIn(Fld(peek, 1, 0), mm), True)
        R.result(cmp(E, s2, l, wl), 'next:line:' + t, 'line after a %s: %s' % (t, show(l)), wh)
        R.result(cmp(E, s2, k, wk), 'next:col:' + t, 'column after a %s: %s' % (t, show(k)), wh)


def types_in(P, t, depth=0):
    yield t
    T = P.T[t]
    if depth < 5 and T.get('k') == 'adt':
        for a in T.get('args') or ():
            if isinstance(a, int):
                yield from types_in(P, a, depth + 1)


def new_stream(C, R, SI, f):
    r = stream_run(C, SI, f)
    R.covered(r)
    E = r.E
    nm = short(f)
    wh = where_fn(f)
    fields = P = C.P.T[SI.inner]['vars'][0][1]
    ci = [i for i, (n, t) in enumerate(fields) if C.P.T[t].get('adt', '').endswith('String') or
          (C.P.T[t].get('k') == 'adt' and 'String' in C.P.T[t].get('n', '') and i != SI.i_file)]
    for s, x in r.exits:
        y = E.deep(s, x)
        if y.op == 'adt' and y.args[0].endswith('Result') and y.args[1] == 1:
            continue
        inn = find_inner(SI, E, s, x)
        if inn is None:
            R.unknown(nm, 'new stream not understood')
            continue
        R.result(cmp(E, s, get(SI, inn, SI.i_line), Int(1)), nm + ':line', '%s: a new stream starts at line 1' % nm, wh)
        R.result(cmp(E, s, get(SI, inn, SI.i_col), Int(1)), nm + ':col', '%s: a new stream starts at column 1' % nm, wh)
        p = get(SI, inn, SI.i_stream)
        if p.op == 'app' and p.args[0] == 'stream0':
            it = p.args[1]
            if it.op == 'app' and it.args[0] == 'it' and it.args[1].op == 'app' and it.args[1].args[0] == 'chars':
                R.result(cmp(E, s, it.args[2], ZERO), nm + ':start', '%s: a new stream starts at the first character' % nm, wh)
                txt = strip_p(it.args[1].args[1])
                for i in ci:
                    R.result(cmp(E, s, txt, get(SI, inn, i)), nm + ':text', '%s: the stream reads the whole text it owns' % nm, wh)
                src(C, R, SI, E, s, f, nm, txt, inn, wh)
                continue
        R.unknown(nm, 'start of the stream not understood: ' + show(p)[:120])


def strip_p(t):
    while t.op == 'pref':
        t = t.args[0]
    return t


def src(C, R, SI, E, s, f, nm, txt, inn, wh):
    """Where the text comes from: the whole text given, or the whole file named."""
    file = get(SI, inn, SI.i_file) if SI.i_file is not None else None
    path = read_path(txt)
    if path is not None:
        if file is not None:
            want = Adt('std::option::Option', 1, [path])
            R.result(cmp(E, s, file, want), nm + ':file', '%s: the stream carries the path of the file it reads' % nm, wh)
    elif txt.op == 'sym':
        if txt not in [Sym('a%d' % i) for i in range(f.argc)]:
            R.unknown(nm, 'text of the stream: ' + show(txt)[:100])
        else:
            R.ok('%s: the stream reads the whole text given' % nm)
    else:
        R.result('unk' if tainted(txt) else 'ne', nm + ':source', '%s: the stream reads the whole text (it reads %s)' % (nm, show(txt)[:120]), wh)


OPENS = ('File::open', 'fs::read_to_string', 'fs::read')


def read_path(txt):
    """The path whose whole file this text is, or None."""
    if txt.op == 'app' and txt.args[0] == 'filetext' and txt.args[1].args[0] == 'read_to_string' or \
            txt.op == 'fld' and txt.args[0].op == 'app' and txt.args[0].args[0] == 'fs::read_to_string':
        for x in [txt] + sorted(closure(txt), key=lambda t: t.n):
            if x.op == 'app' and x.args[0] in OPENS:
                return strip_p(x.args[1])
    return None
