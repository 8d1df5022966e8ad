"""C09: the writer, as the text each of its functions builds, against the grammar of the reader."""
import re
from base import *
from errors import flatten
from auto import has_phi
import parse_rule as pr

WS = ' \t\n\r'
BRACKETS = {'Arr': '[]', 'Tup': '()', 'Obj': '{}'}


class Writer:
    def __init__(self, C, R):
        self.C, self.R = C, R
        self.fns = C.format_fns()
        self.names = {}
        for f in self.fns:
            self.names[f.name] = f
        self.through = False       # the formatter of a value hands its flag to that of its content

    def kind(self, f):
        n = f.canon[3].rsplit('::', 1)[-1].rstrip('>')
        return n

    def fmt_call(self, t):
        """(function, self, flag) when the term is a call of one of the format functions."""
        if t.op == 'app' and t.args[0] in ('call', 'pf') and t.args[1].op == 'str' and t.args[1].args[0] in self.names:
            f = self.names[t.args[1].args[0]]
            k = flag_index(self.C, f)
            if k is None:
                return None
            return f, peeled(t.args[2]), t.args[2 + k]
        return None


def flag_index(C, f):
    r = [i for i in range(f.argc) if C.P.T[f.locals[i + 1]].get('n') == 'bool']
    return r[0] if len(r) == 1 else None


def peeled(t):
    while t.op in ('pref', 'deref'):
        t = t.args[0]
    return t


def blank(p):
    """A piece that is only blanks: 'w' perhaps none, 'W' at least one."""
    if p.op == 'str' and not p.args[0].strip(WS):
        return 'W' if p.args[0] else 'w'
    if p.op == 'app' and p.args[0] == 'repeat' and p.args[1].op == 'str' and not p.args[1].args[0].strip(WS):
        n = p.args[2]
        return 'W' if n.op == 'int' and n.args[0] > 0 else 'w'
    return None


def items(W, t):
    """The text as [('W',) | ('w',) | ('lit', s) | ('F', fn, self, flag) | ('D', type, x) | ('T', x) | ('ACC', phi)]"""
    out = []
    for p in flatten(t):
        b = blank(p)
        if b:
            out.append((b,))
        elif p.op == 'str':
            s = p.args[0]
            for m in re.finditer('[%s]+|[^%s]+' % (WS, WS), s):
                out.append(('W',) if not m.group(0).strip(WS) else ('lit', m.group(0)))
        elif p.op == 'char':
            c = chr(p.args[0])
            out.append(('W',) if c in WS else ('lit', c))
        elif p.op == 'app' and p.args[0] == 'chs' and p.args[1].op == 'char':
            c = chr(p.args[1].args[0])
            out.append(('W',) if c in WS else ('lit', c))
        elif p.op == 'phi':
            out.append(('ACC', p))
        elif W.fmt_call(p):
            out.append(('F',) + W.fmt_call(p))
        elif p.op == 'app' and p.args[0] == 'disp':
            d = peeled(p.args[2])
            if W.fmt_call(d):
                out.append(('F',) + W.fmt_call(d))
            else:
                out.append(('D', p.args[1].args[0], d))
        elif p.op == 'app' and p.args[0] == 'out':
            return None
        else:
            out.append(('T', peeled(p)))
    r = []
    for x in out:
        # neighbouring literals
        if r and x[0] == 'lit' and r[-1][0] == 'lit':
            r[-1] = ('lit', r[-1][1] + x[1])
        else:
            r.append(x)
    return r


def compatible(a, b):
    """Can two states be on one path?"""
    for k, c in a.facts.items():
        d = b.facts.get(k)
        if d is None or d == c or has_phi(k):
            continue
        if c[0] == 'B' and d[0] == 'B' and c[1] != d[1]:
            return False
        if c[0] == 'V' and d[0] == 'V' and not (c[1] & d[1]):
            return False
        if c[0] == 'I' and d[0] == 'I':
            lo = max([x for x in (c[1], d[1]) if x is not None], default=None)
            hi = min([x for x in (c[2], d[2]) if x is not None], default=None)
            if lo is not None and hi is not None and lo > hi:
                return False
    return True


class Loop:
    """One text accumulated over all elements of a sequence: what it starts with, and what each element adds."""


def loop_of(W, r, s, phi, seqs):
    """-> Loop or a reason (str)"""
    E = r.E
    L = Loop()
    L.entries, L.steps, L.phi = [], [], phi
    L.seq = None
    for k, e in r.events:
        if k not in ('loop_entry', 'iterback', 'backedge'):
            continue
        cell = [c for c, x in e['head'].cells.items() if x is phi]
        if not cell or not compatible(s, e['st']):
            continue
        its = []
        for c, x in e['head'].cells.items():
            if x.op == 'app' and x.args[0] == 'it' and x.args[1] in seqs and type(x.args[2]) is Term and has_phi(x.args[2]):
                new = e['st'].cells.get(c)
                its.append((x.args[1], x.args[2], new.args[2] if new is not None and new.op == 'app' and new.args[0] == 'it' and new.args[1] is x.args[1] else None))
            elif x.op == 'app' and x.args[0] == 'rng' and has_phi(x.args[1]) and x.args[2].op == 'app' and x.args[2].args[0] == 'len' and x.args[2].args[1] in seqs:
                new = e['st'].cells.get(c)
                ok = new is not None and new.op == 'app' and new.args[0] == 'rng' and new.args[2] is x.args[2]
                its.append((x.args[2].args[1], x.args[1], new.args[1] if ok else None))
            elif x.op == 'app' and x.args[0] == 'rev' and x.args[1] in seqs:
                return 'ne', 'the elements are written in reverse'
            elif x.op == 'phi' and x is not phi:
                # an index that is compared with the length
                for q in seqs:
                    if any(z is App('lt', x, App('len', q)) or z is Lt(x, App('len', q)) for z in list(e['st'].facts) + list(s.facts)):
                        its.append((q, x, e['st'].cells.get(c)))
        its = list({(a, b, c): 1 for a, b, c in its})
        if len(its) != 1:
            return '%d iterations' % len(its)
        q, pos, new = its[0]
        if L.seq is not None and L.seq is not q:
            return 'several sequences'
        L.seq, L.pos = q, pos
        a = e['st'].cells.get(cell[0])
        if new is None or a is None:
            return 'iteration not followed'
        it = items(W, a)
        if it is None:
            return 'text not followed'
        if k == 'loop_entry':
            if new.op != 'int':
                return 'start of the iteration'
            L.entries.append((it, new.args[0]))
        else:
            if not it or it[0] != ('ACC', phi):
                if any(x[0] == 'ACC' and x[1] is phi for x in it[1:]):
                    L.steps.append((it, None, e['st']))
                    continue
                return 'accumulated text replaced'
            adv = E.decide(e['st'], Eq(new, Add(pos, Int(1))))
            L.steps.append((it[1:], adv, e['st']))
    if L.seq is None or not L.entries:
        return 'loop not found'
    end = E.decide(s, Lt(L.pos, App('len', L.seq)))
    L.done = end
    return L


def rule_C09(C, R):
    R.rule = ('The text every function of the writer builds, on each of its paths, must be a text of the reader\'s grammar: the keyword '
              'or number of a simple value; for a container its own brackets (none in the top-level form) around every element once, '
              'in order, apart from each other; in an object every name directly followed by a colon and the value, and the '
              'parent under \'^\' when there is one; nested values in their full form. The reader makes the same kind of value '
              'from these keywords and brackets.')
    W = Writer(C, R)
    if not W.fns:
        return R.unknown('writer', 'no format functions')
    val = None
    for f in W.fns:
        if W.kind(f) == 'Value':
            val = f
    if val is not None:
        guard(R, 'values', values_, W, val)
    for f in W.fns:
        k = W.kind(f)
        if k in BRACKETS:
            guard(R, k, container, W, f, k)
        elif 'BigInt' in k or 'Ratio' in f.canon[3]:
            guard(R, 'fractions', fraction, W, f)
        elif k in ('String', 'str'):
            guard(R, 'strings', string, W, f)
        elif k != 'Value':
            R.unknown('writer of ' + f.canon[3], 'not a type of the format')
    guard(R, 'top level', top, W)
    guard(R, 'keywords', keywords, C, R)
    guard(R, 'brackets', reader_kinds, C, R)


def run(W, f):
    r = W.C.run(f, mode='eq+fmt')
    W.R.covered(r)
    return r


def simple(ws):
    return [x for x in ws if x[0] not in 'wW']


def values_(W, f):
    C, R = W.C, W.R
    r = run(W, f)
    E = r.E
    k = flag_index(C, f)
    seen = set()
    names = C.P.T[C.ty('Value')]['vars']
    for s, v in r.exits:
        v = E.deep(s, v)
        it = items(W, v)
        self_ = self_term(r, s)
        vs = E.get_variants(s, self_)
        if it is None or vs is None:
            R.unknown('text of a value', 'not followed')
            continue
        for i in sorted(vs):
            n = names[i][0]
            seen.add(n)
            text = 'the text of a %s value' % n
            key = 'value:' + n
            got = simple(it)
            blanks = len(got) != len(it)
            if n == 'Null':
                check(R, key, text, got == [('lit', 'null')], it, r)
            elif n == 'Bool':
                b = E.decide(s, Fld(self_, i, 0))
                if got == [('D', 'bool', Fld(self_, i, 0))]:
                    R.ok(text)
                elif b is None:
                    check(R, key, text + ' tells true from false', False, it, r, tainted(v))
                else:
                    check(R, key, text + ' (%s)' % str(b).lower(), got == [('lit', str(b).lower())], it, r)
            elif n == 'Int':
                p = Fld(self_, i, 0)
                check(R, key, text + ' are its digits', len(got) == 1 and got[0][0] == 'D' and got[0][2] is p or got == [('T', App('to_string', p))], it, r, taint(got, p))
            else:
                p = Fld(self_, i, 0)
                ok = len(got) == 1 and got[0][0] == 'F' and got[0][2] is p
                check(R, key, text + ' is that of its content', ok, it, r, taint(got, p))
                if ok and n in BRACKETS:
                    flag = got[0][3]
                    if E.decide(s, flag) is True:
                        R.ok(text + ' is in full form')
                    elif k is not None and flag is peeled(E.deep(s, r.args[k])):
                        W.through = True
                        R.ok(text + ' is in the form asked for')
                    else:
                        R.result('ne' if E.decide(s, flag) is False else 'unk', key + ':full', text + ' is not in full form', where_fn(f))
    for v in names:
        if v[0] not in seen:
            R.violation('value:%s:none' % v[0], 'no text for a %s value' % v[0], where_fn(f))


def taint(got, p):
    return any(x[0] == 'ACC' or x[0] in 'TD' and tainted(x[-1]) for x in got)


def self_term(r, s):
    t = r.E.deep(s, r.args[0])
    return peeled(t)


def check(R, key, text, ok, it, r, unk=False):
    if ok:
        R.ok(text)
    else:
        R.result('unk' if unk else 'ne', key, 'not so: %s (it is %s)' % (text, shown(it)), where_fn(r.fn))


def shown(it):
    out = []
    for x in it:
        out.append({'w': '', 'W': ' '}.get(x[0]) if x[0] in 'wW' else x[1] if x[0] == 'lit' else '<...>' if x[0] == 'ACC' else
                   '<%s>' % show(x[2] if x[0] in 'FD' else x[1])[:50])
    return ''.join(out)[:160]


def fraction(W, f):
    R = W.R
    r = run(W, f)
    E = r.E
    n = 0
    for s, v in r.exits:
        v = E.deep(s, v)
        x = self_term(r, s)
        it = items(W, v)
        if it is None:
            R.unknown('text of a fraction', 'not followed')
            continue
        one = E.decide(s, Eq(App('denom', x), App('bigint', Int(1))))
        if one is None:
            for q in (App('isinteger', x),):
                one = E.decide(s, q) if one is None else one
        num, den = App('numer', x), App('denom', x)
        plain = len(it) == 1 and it[0][0] == 'D' and it[0][2] is x
        dotted = len(it) == 2 and it[0][0] == 'D' and it[0][2] in (x, num, App('to_integer', x)) and it[1][0] == 'lit' and re.match(r'[.,]0*$', it[1][1])
        quot = len(it) == 3 and it[0][0] == 'D' and it[0][2] is num and it[1] == ('lit', '/') and it[2][0] == 'D' and it[2][2] is den
        text = 'the text of a fraction'
        n += 1
        if quot:
            R.ok(text + ' is its quotient')
        elif one is True:
            check(R, 'frac:whole', text + ' without denominator has a decimal point', bool(dotted), it, r, tainted(v))
        elif one is False:
            check(R, 'frac:quotient', text + ' with a denominator is its quotient', plain, it, r, tainted(v))
        elif plain:
            R.result('unk' if any(tainted(q) for q in s.facts) else 'ne', 'frac:same', text + ' may lack the decimal point', where_fn(f))
        else:
            R.unknown(text, 'whether there is a denominator is not known')
    if not n:
        R.unknown('text of a fraction', 'no text')


def string(W, f):
    R = W.R
    r = run(W, f)
    for s, v in r.exits:
        it = items(W, r.E.deep(s, v))
        if it is None:
            R.unknown('text of a string', 'not followed')
            continue
        text = 'the text of a string is in quotes'
        if it[0][0] == 'ACC':
            ent = [flatten(e['st'].cells[c])[0] for k, e in r.events if k == 'loop_entry' for c, x in e['head'].cells.items() if x is it[0][1]]
            a = bool(ent) and all(q.op == 'str' and q.args[0].startswith('"') or q.op == 'app' and q.args[0] == 'chs' and q.args[1] is Char(34) for q in ent)
        else:
            a = it[0][0] == 'lit' and it[0][1].startswith('"')
        b = it[-1][0] == 'lit' and it[-1][1].endswith('"') and (len(it) > 1 or len(it[-1][1]) > 1)
        check(R, 'string:quotes', text, a and b, it, r, any(x[0] in 'TD' and tainted(x[-1]) for x in (it[0], it[-1])))


def shape(C, r, s, kind):
    """(elements, parent) of the container as terms."""
    self_ = self_term(r, s)
    T = C.P.T
    h = C.ty(kind)
    i, ft = next((i, x[1]) for i, x in enumerate(T[h]['vars'][0][1]) if T[x[1]].get('k') == 'adt' and T[x[1]].get('args'))
    it = T[ft]['args'][0]
    inner = Unbox(Fld(self_, -1, i))
    els = par = None
    for j, (n, t) in enumerate(T[it]['vars'][0][1]):
        x = T[t]
        if x.get('k') == 'adt' and x['adt'].endswith('Vec') and els is None:
            if kind == 'Obj' or C.strip(x['args'][0]) == C.ty('Value'):
                els = Fld(inner, -1, j)
        if x.get('k') == 'adt' and x['adt'].endswith('Option') and x['args'] and x['args'][0] == h:
            par = Fld(inner, -1, j)
    return els, par


def container(W, f, kind):
    C, R = W.C, W.R
    r = run(W, f)
    E = r.E
    k = flag_index(C, f)
    n = 0
    for s, v in r.exits:
        els, par = shape(C, r, s, kind)
        flag = E.decide(s, peeled(E.deep(s, r.args[k])))
        v = E.deep(s, v)
        it = items(W, v)
        n += 1
        if it is None:
            R.unknown('text of ' + kind, 'not followed: ' + show(v)[:100])
            continue
        if flag is None and it:
            # the form does not matter on this path: it must be right for both
            res = [judge(W, r, s, kind, it, els, par, b) for b in (True, False)]
            if all(x[0] == 'eq' for x in res):
                R.ok('text of %s' % kind)
            else:
                x = next(x for x in res if x[0] != 'eq')
                R.result('unk' if x[0] == 'unk' or tainted(v) else 'ne', 'form:' + kind, 'text of %s, whichever form is asked for: %s' % (kind, x[1]), where_fn(f))
            continue
        if flag is None:
            flag = False
        verdict, why = judge(W, r, s, kind, it, els, par, flag)
        form = 'full' if flag else 'top-level'
        if verdict == 'eq':
            R.ok('%s text of %s: %s' % (form, kind, shown(it)))
        else:
            R.result(verdict, '%s:%s:%s' % (kind, form, re.sub(r'[^a-z ]', '', why.lower())[:50]), 'the %s text of %s: %s (%s)' % (form, kind, why, shown(it)), where_fn(f))
    if not n:
        R.unknown('text of ' + kind, 'no text')


def fields_of(P):
    return 0, 1


def judge(W, r, s, kind, it, els, par, full):
    """-> (eq|ne|unk, why)"""
    E = r.E
    accs = [x for x in it if x[0] == 'ACC']
    if len(accs) > 1:
        return 'unk', 'several accumulated texts'
    variants = [(it, 0, None)]
    L = None
    if accs:
        L = loop_of(W, r, s, accs[0][1], {els})
        if type(L) is not Loop:
            return L if type(L) is tuple else ('unk', L)
        j = it.index(accs[0])
        variants = []
        for head, i0 in L.entries:
            variants.append((it[:j] + head + [('LOOP', i0)] + it[j + 1:], i0, L))
    elem_flags = []
    for seq, i0, _ in variants:
        # tokens of the text
        toks = []
        x = [y for y in seq]
        v = tokens(W, r, s, kind, x, els, par, toks, elem_flags)
        if v:
            return v
        step_toks = []
        if L is not None:
            for st_items, adv, st in L.steps:
                if adv is not True:
                    return ('ne' if adv is False else 'unk'), 'an element is left out or written twice'
                tk = []
                v = tokens(W, r, s, kind, st_items, els, par, tk, elem_flags, L.pos)
                if v:
                    return v
                # one element, apart from its neighbours
                es = [t for t in tk if t[0] == 'E']
                if [t[1] for t in es] != ['pos']:
                    return 'ne', 'a step of the loop writes %d elements' % len(es)
                if [t for t in tk if t[0] not in 'EwW']:
                    return 'ne', 'a step of the loop writes %r besides its element' % [t[1] for t in tk if t[0] not in 'EwW'][0]
                step_toks.append(tk)
            if not step_toks:
                return 'unk', 'loop without steps'
            sep = all(apart(a, b) for a in step_toks for b in step_toks)
            if not sep:
                return 'ne', 'nothing separates one element from the next'
            if L.done is not False:
                return ('unk' if L.done is None else 'ne'), 'the loop may stop before the last element'
        # brackets
        core = [t for t in toks if t[0] not in 'wW']
        op, cl = BRACKETS[kind]
        if full:
            if not core or core[0] != ('B', op) or core[-1] != ('B', cl) or len(core) < 2:
                return 'ne', 'it is not between %s and %s' % (op, cl)
            core = core[1:-1]
        if any(t[0] == 'B' for t in core):
            return 'ne', 'there is %s inside' % next(t[1] for t in core if t[0] == 'B')
        # elements, in order
        want = 0
        idx = [t for t in core if t[0] in ('E', 'LOOP')]
        for t in idx:
            if t[0] == 'LOOP':
                if t[1] != want:
                    return 'ne', 'element %d is left out or written twice' % want
                want = 'all'
            elif t[1] != want:
                return 'ne', 'element %s is written where element %s belongs' % (t[1], want)
            else:
                want += 1
        lo, hi = E.bounds(s, App('len', els))
        if E.decide(s, App('isempty', els)) is True:
            lo, hi = 0, 0
        if want != 'all' and not (lo == hi == want):
            if hi is not None and hi == want or want == 0 and any(tainted(q) for q in s.facts):
                return 'unk', 'the number of elements is not known'
            return 'ne', '%d elements are written, of %s' % (want, 'any number' if hi is None else 'up to %d' % hi)
        # separation of what is written outside of the loop
        flat = []
        for t in toks:
            if t[0] == 'LOOP':
                flat += step_toks[0] if len(step_toks) == 1 else [('E', 'pos'), ('W',)] if all(x[-1][0] == 'W' for x in step_toks) else [('E', 'pos')]
            else:
                flat.append(t)
        last = None
        gap = True
        for t in flat:
            if t[0] == 'W':
                gap = True
            elif t[0] in ('E', 'P'):
                if last in ('E', 'P') and not gap:
                    return 'ne', 'nothing separates one element from the next'
                last, gap = t[0], False
            elif t[0] == 'B':
                last, gap = 'B', False
        # the parent
        ps = [t for t in core if t[0] == 'P']
        if par is not None:
            pv = E.get_variants(s, par)
            if pv == frozenset([1]):
                if len(ps) != 1:
                    return 'ne', 'the parent is written %d times' % len(ps)
            elif pv == frozenset([0]):
                if ps:
                    return 'ne', 'a parent is written though there is none'
            elif not any(t[0] == 'P' for t in core) and not any(tainted(q) for q in s.facts):
                return 'ne', 'the parent is left out'
            else:
                return 'unk', 'whether there is a parent is not known'
    if False in elem_flags:
        return 'ne', 'a nested value is not written in full form'
    if None in elem_flags:
        return 'unk', 'form of a nested value'
    return 'eq', ''


def apart(a, b):
    """Is there a blank between the element of one step and that of the next?"""
    after = a[[i for i, t in enumerate(a) if t[0] == 'E'][-1] + 1:]
    before = b[:[i for i, t in enumerate(b) if t[0] == 'E'][0]]
    return any(t[0] == 'W' for t in after + before)


def index(t, els, pos):
    """Which element: an index, 'pos', or None."""
    if t.op == 'app' and t.args[0] == 'at' and t.args[1] is els:
        i = t.args[2]
        if i.op == 'int':
            return i.args[0]
        if pos is not None and i is pos:
            return 'pos'
        return show(i)[:20]
    if t.op == 'app' and t.args[0] in ('first',) and t.args[1] is els:
        return 0
    return None


def tokens(W, r, s, kind, its, els, par, out, flags, pos=None):
    """Items -> blanks, ('B', bracket), ('E', index), ('P',), ('LOOP', i). A name, its colon and value become one element."""
    E = r.E
    i = 0
    its = list(its)
    while i < len(its):
        x = its[i]
        if x[0] in 'wW' or x[0] == 'LOOP':
            out.append(x)
        elif x[0] == 'lit':
            t = x[1]
            if kind == 'Obj' and t.endswith('^:'):
                for c in t[:-2]:
                    out.append(('B', c))
                j = i + 1
                while j < len(its) and its[j][0] in 'wW':
                    j += 1
                y = its[j] if j < len(its) else ('end',)
                if y[0] == 'F' and par is not None and y[2] is Fld(par, 1, 0):
                    flags.append(form(E, s, y[3]))
                    out.append(('P', 'parent'))
                    i = j
                else:
                    return ('unk' if y[0] == 'ACC' or y[0] in 'TD' and tainted(y[-1]) else 'ne'), 'what follows ^: is not the parent'
            else:
                for c in t:
                    out.append(('B', c))
        elif x[0] == 'F' and kind != 'Obj':
            n = index(x[2], els, pos)
            if n is None:
                return ('unk' if tainted(x[2]) or has_phi(x[2]) else 'ne'), 'what is written is not an element'
            flags.append(True if W.kind(x[1]) == 'Value' and not W.through else form(E, s, x[3]))
            out.append(('E', n))
        elif kind == 'Obj' and (x[0] == 'T' or x[0] == 'D'):
            name = x[1] if x[0] == 'T' else x[2]
            if name.op == 'fld' and index(name.args[0], els, pos) is not None:
                n = index(name.args[0], els, pos)
                if name.args[2] != 0:
                    return 'ne', 'what is written as name is not the name'
                if i + 1 >= len(its) or its[i + 1] != ('lit', ':'):
                    return 'ne', 'the name is not directly followed by a colon'
                j = i + 2
                while j < len(its) and its[j][0] in 'wW':
                    j += 1
                y = its[j] if j < len(its) else ('end',)
                if y[0] == 'F' and y[2] is Fld(name.args[0], -1, 1):
                    flags.append(True if W.kind(y[1]) == 'Value' and not W.through else form(E, s, y[3]))
                    out.append(('E', n))
                    i = j
                else:
                    return ('unk' if y[0] == 'ACC' or y[0] in 'TD' and tainted(y[-1]) else 'ne'), 'what follows a name is not the value of its field'
            else:
                return ('unk' if tainted(name) or has_phi(name) else 'ne'), 'what is written is not the name of a field'
        elif x[0] == 'F':
            return ('unk' if tainted(x[2]) else 'ne'), 'a value is written without a name'
        else:
            return 'unk', 'a part of the text is not followed: ' + show(x[-1])[:60]
        i += 1
    return None


def form(E, s, flag):
    """Is the full form asked for? None: not known. A flag that depends on what is in the value alone can be either."""
    d = E.decide(s, flag)
    if d is None and not tainted(flag) and not has_phi(flag):
        free = [x for x in [flag] + list(closure(flag)) if x.op == 'sym']
        if free and all(x is Sym('a0') for x in free) and any(x.op == 'app' and x.args[0] in ('len', 'isempty') for x in closure(flag)):
            return False
    return d


def top(W):
    """Who uses the writer, and in which form."""
    C, R = W.C, W.R
    ids = {f.id for f in W.fns}
    from effects import calls
    n = 0
    for f in C.P.locals:
        if not f.dumped or '{' in f.name or f.id in ids or f.name in ('',):
            continue
        if not any(t[1].get('inst') in ids for _, t, _ in calls(f)):
            continue
        if C.P.T[f.locals[0]].get('adt', '').endswith('String') is False and not (f.canon[0] == 'T' and f.canon[2] == 'fmt'):
            continue
        if not f.argc:
            continue
        owner = [k for k in list(BRACKETS) + ['Value'] if C.strip(f.locals[1]) == C.ty(k)]
        if not owner:
            continue
        shows = f.canon[0] == 'T' and f.canon[2] == 'fmt'
        r = C.run(f, mode='eq+fmt')
        R.covered(r)
        n += 1
        for s, v in r.exits:
            if shows:
                from errors import written, failed
                if failed(r.E, s, r.E.deep(s, v)):
                    continue
                t = written(r, s)
                t = App('cat', *t) if type(t) is list else t
            else:
                t = r.E.deep(s, v)
            it = items(W, t) if t is not None else None
            text = 'the %s form of %s in %s' % ('full' if shows else 'top-level', owner[0], f.name)
            if it is None:
                R.unknown(text, 'not followed')
                continue
            me = self_term(r, s)
            if len(it) == 1 and it[0][0] == 'F' and it[0][2] is me:
                b = r.E.decide(s, it[0][3])
                if shows and owner[0] == 'Value' and not W.through:
                    b = True
                R.result('eq' if b is shows else 'unk' if b is None else 'ne', 'top:' + f.name, text + ' is written in the other form', where_fn(f))
            else:
                R.result('unk' if any(x[0] == 'ACC' or x[0] in 'TD' and tainted(x[-1]) for x in it) else 'ne', 'top:' + f.name, '%s is %s' % (text, shown(it)), where_fn(f))
    if not n:
        R.unknown('top-level text', 'no function gives it')


KEYWORDS = {'null': ('Null', None), 'true': ('Bool', True), 'false': ('Bool', False)}


def keywords(C, R):
    """The reader makes of each keyword the value the writer writes it for."""
    PM = C.parser()
    E = PM.E
    seen = set()
    names = C.P.T[C.ty('Value')]['vars']
    for r in PM.runs.values():
        f = r.fn
        if not f.locals[0] or not any(C.strip(t) == C.ty('Value') for t in C.P.T[f.locals[0]].get('args', [])):
            continue
        R.covered(r)
        for s, v in r.exits:
            v = E.deep(s, v)
            if v.op != 'adt' or v.args[1] != 0:
                continue
            x = v.args[2]
            for k, c in s.facts.items():
                w = next((q.args[0] for q in k.args[1:] if type(q) is Term and q.op == 'str'), None) if k.op == 'app' and k.args[0] == 'eq' else None
                if w not in KEYWORDS or c != ('B', True):
                    continue
                n, b = KEYWORDS[w]
                seen.add(w)
                if x.op != 'adt':
                    R.unknown('keyword ' + w, 'value %s' % show(x)[:80])
                    continue
                ok = names[x.args[1]][0] == n and (b is None or E.decide(s, x.args[2]) is b)
                if not ok and names[x.args[1]][0] == n and x.args[2].op != 'bool':
                    R.unknown('keyword ' + w, 'value %s' % show(x)[:80])
                elif ok:
                    R.ok('%s is read as %s' % (w, n))
                else:
                    R.violation('keyword:' + w, 'the keyword %s is read as %s' % (w, show(x)[:60]), where_fn(f))
    for w in KEYWORDS:
        if w not in seen:
            R.unknown('keyword ' + w, 'no path of the reader compares a word with it')


KINDS = {'[': ('Arr',), '(': ('Tup',), '{': ('Obj',), '"': ('Str',), '0123456789': ('Int', 'Frac'), '.': ('Int', 'Frac')}


def reader_kinds(C, R):
    """What begins with a bracket of the writer is read as the container it is written for."""
    names = C.P.T[C.ty('Value')]['vars']
    if pr.value_hub(C) is None:
        return R.unknown('values', 'the value reader was not found')
    for o, want in KINDS.items():
        r = pr.value_run(C, o, False, False)
        R.covered(r)
        n = 0
        for s, v in r.exits:
            v = r.E.deep(s, v)
            if v.op != 'adt' or v.args[1] != 0:
                continue
            vs = r.E.get_variants(s, v.args[2]) if v.args[2].op != 'adt' else frozenset([v.args[2].args[1]])
            got = None if vs is None else {names[i][0] for i in vs}
            n += 1
            if got is not None and got <= set(want):
                R.ok('%s is read as %s' % (o[:1], '/'.join(want)))
            elif got is None or got & set(want):
                R.unknown('value that begins with ' + o[:1], 'kind of %s' % show(v.args[2])[:80])
            else:
                R.violation('kind:' + o[:1], 'a value that begins with %s is read as %s' % (o[:1], '/'.join(sorted(got))), where_fn(r.fn))
        if not n:
            R.unknown('value that begins with ' + o[:1], 'no path reads it')
