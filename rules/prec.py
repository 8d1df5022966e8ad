"""C22: precedence and grouping of operators."""
import itertools
from base import *
import auto
from auto import Auto, Unk, More, Env, atoms, text_of
import parse_rule
from parse_rule import value_hub, value_run, sname

BIN = {'+': 'Plus', '-': 'Minus', '*': 'Mult', '/': 'Div', '%': 'Mod'}
HIGH = '*/%'


class TEnv(Env):
    """Values of terms when every operand is one character of the word and every operation succeeds."""

    def copy(self):
        e = TEnv(self.A, self.word, self.closed)
        e.vals = dict(self.vals)
        return e

    def a_after(self, v, res, strict):
        p = self.ev(v)
        return ('pos', self.hub(res)[0])

    def a_hub(self, *a):
        return ('ok', self.hub(App('hub', *a))[1])

    def hub(self, t):
        """(place after it, tree) of a recursive call."""
        if t.args[1].args[0] not in self.A.hubs:
            raise Unk
        h = self.A.hubs[t.args[1].args[0]]
        p = self.ev(t.args[3])
        if p[0] != 'pos':
            raise Unk
        bi = h
        whole = self.ev(t.args[4 + bi]) if bi is not None else False
        if type(whole) is not bool:
            raise Unk
        n, tree = expr(self.word, p[1]) if whole else operand(self.word, p[1])
        return n, tree

    def a_pf(self, name, *args):
        f = self.A.opf.get(name.args[0])
        if f is None:
            raise Unk
        vi, oi = f
        o = self.ev(args[oi])
        if type(o) is not tuple or o[0] != 'adt':
            raise Unk
        vs = [self.ev(args[i]) for i in vi]
        return ('ok', ('op', len(vi), o[2]) + tuple(vs))

    # queues
    def seq(self, t):
        v = self.ev(t)
        if type(v) is not tuple or v[0] != 'seq':
            raise Unk
        return v[1]

    def a_seq0(self):
        return ('seq', ())

    def a_push(self, q, x):
        return ('seq', self.seq(q) + (self.ev(x),))

    def a_pushf(self, q, x):
        return ('seq', (self.ev(x),) + self.seq(q))

    def a_popf(self, q):
        return ('seq', self.seq(q)[1:])

    def a_popb(self, q):
        return ('seq', self.seq(q)[:-1])

    def a_frontopt(self, q):
        s = self.seq(q)
        return ('some', s[0]) if s else ('none',)

    def a_backopt(self, q):
        s = self.seq(q)
        return ('some', s[-1]) if s else ('none',)

    def a_at(self, q, i):
        s = self.seq(q)
        k = self.num(i)
        if k >= len(s):
            raise Unk
        return s[k]

    def a_len(self, q):
        return len(self.seq(q))

    def a_isempty(self, q):
        return not self.seq(q)

    def a_vreverse(self, q):
        return ('seq', tuple(reversed(self.seq(q))))

    def a_vremove(self, q, i):
        s, k = self.seq(q), self.num(i)
        return ('seq', s[:k] + s[k + 1:])

    a_vremove_r = a_at

    def a_rev(self, q):
        v = self.ev(q)
        return v

    def a_line(self, v):
        return 1

    def a_col(self, v):
        return 1

    def a_chars(self, *a):
        raise Unk


class TAuto(Auto):
    def walk(self, word, closed, limit=400):
        env = TEnv(self, word, closed)
        env.vals.update(self.binds(env))
        work = [(auto.START, env, 0)]
        out = []
        steps = 0
        while work:
            node, env, u = work.pop()
            steps += 1
            if steps > limit:
                raise Unk('too many steps')
            es = self.step(node, env)
            if not es:
                out.append(('stuck', None, env, u))
            for e, h in es:
                if e.to is None:
                    out.append(('exit', e, env, u + h))
                else:
                    work.append((e.to, self.enter(e, env), u + h))
        return out


def operand(w, i):
    """The specification: an operand starts at i -> (place after it, tree)."""
    if i < len(w) and chr(w[i]) in '+-':
        n, t = operand(w, i + 1)
        return n, ('op', 1, chr(w[i]), t)
    return i + 1, ('val', i)


def expr(w, i):
    n, t = term_(w, i)
    while n < len(w) and chr(w[n]) in '+-':
        o = chr(w[n])
        m, x = term_(w, n + 1)
        n, t = m, ('op', 2, o, t, x)
    return n, t


def term_(w, i):
    n, t = operand(w, i)
    while n < len(w) and chr(w[n]) in HIGH:
        o = chr(w[n])
        m, x = operand(w, n + 1)
        n, t = m, ('op', 2, o, t, x)
    return n, t


def rename(t, C, names):
    """Operators of a computed tree by their character."""
    if type(t) is tuple and t and t[0] == 'op':
        o = t[2]
        if type(o) is int:
            o = names[t[1]].get(o, '?')
        return ('op', t[1], o) + tuple(rename(x, C, names) for x in t[3:])
    return t


def show_tree(t):
    if t[0] == 'val':
        return 'abcdefghijklmnop'[t[1] // 2] if t[1] // 2 < 16 else 'v'
    if t[0] == 'op' and t[1] == 1:
        return '(%s%s)' % (t[2], show_tree(t[3]))
    if t[0] == 'op':
        return '(%s%s%s)' % (show_tree(t[3]), t[2], show_tree(t[4]))
    return '?'


def rule_C22(C, R):
    R.rule = ('The loop of the value reader over operators is extracted as a transition system (operand and operator queues, '
              'text position) and followed for operator sequences; the tree of operations it builds must be that of the '
              'grammar sum = product {(+|-) product}, product = operand {(*|/|%) operand}, operand = [sign] primary. A value '
              'read as one operand applies no operator, and every operand is read as one.')
    vh = value_hub(C)
    if vh is None or vh[1] is None:
        return R.unknown('values', 'the value reader was not found')
    f, bi, oi = vh
    M = C.light_parser()
    names = {}
    P = C.P
    for n, ty in ((2, 'BinaryOp'), (1, 'UnaryOp')):
        names[n] = {}
        for c, v in BIN.items():
            try:
                names[n][C.var(ty, v)] = c
            except Exception:
                pass
    opf = {}
    vt = C.ty('Value')
    for g in M.op_fns():
        ats = g.locals[1:1 + g.argc]
        vi = [i for i, t in enumerate(ats) if t == vt]
        os_ = [i for i, t in enumerate(ats) if C.strip(t) in (C.ty('BinaryOp'), C.ty('UnaryOp'))]
        if len(os_) == 1:
            opf[g.name.rsplit('::', 1)[-1]] = (vi, os_[0])
    hubs = {}
    for h in M.hubs:
        g = P.fns[h]
        bs = [i for i in range(g.argc) if P.T[g.locals[i + 1]].get('k') == 'bool']
        deep = [i for i in range(g.argc) if not (P.T[g.locals[i + 1]].get('k') == 'ref' and P.T[g.locals[i + 1]].get('mut'))]
        hubs[g.name.rsplit('::', 1)[-1]] = deep.index(bs[0]) if bs else None
    for whole in (True, False):
        for first in ('a', '-', '+'):
            guard(R, 'expressions that start with %r' % first, sequences, C, R, whole, first, names, opf, hubs)
    for o in ('"', '{', '[', '(', '<', '0', '.'):
        guard(R, 'one operand that starts with ' + o, single, C, R, o, opf)
    guard(R, 'operand calls', operand_calls, C, R, opf)


def autom(C, whole, first, opf, hubs):
    r = value_run(C, first, None, whole)
    v = r.version
    us = [a for i, a in enumerate(r.args) if C.P.T[r.fn.locals[i + 1]].get('k') == 'uint']

    def binds(env):
        d = {v: ('pos', 0)}
        for a in us:
            d[a] = 1
        return d
    A = TAuto(r, binds)
    A.hubs, A.opf = hubs, opf
    return r, A


def words(first, whole):
    pre = first if first == 'a' else first + 'a'
    if not whole:
        return [pre] + [pre + o + 'a' for o in BIN] + [pre + '+a*a', pre + '*a+a']
    out = []
    n = 4 if first == 'a' else 2
    for k in range(n + 1):
        for ops in itertools.product('+-*/%', repeat=k):
            out.append(pre + ''.join(o + 'a' for o in ops))
    if first == 'a':
        for k in (5, 6, 7):
            for ops in itertools.product('-/', repeat=k):
                out.append(pre + ''.join(o + 'a' for o in ops))
        for ops in itertools.product('+-*/', repeat=2):
            out.append(pre + ''.join(o + '-a' for o in ops))
    return out


def sequences(C, R, whole, first, names, opf, hubs):
    r, A = autom(C, whole, first, opf, hubs)
    R.covered(r)
    E, SI = r.E, C.light_parser().SI
    for w in words(first, whole):
        text = '%s %s' % ('the expression' if whole else 'one operand of', w)
        n, want = expr(atoms(w), 0) if whole else operand(atoms(w), 0)
        try:
            outs = A.walk(atoms(w), True)
        except (Unk, More) as e:
            R.unknown(text, str(e) or 'not understood')
            continue
        res, why, u = [], '', 0
        for o in outs:
            if o[0] != 'exit':
                res.append('unk')
                why = 'no path'
                continue
            x, y = judge(C, E, SI, r, o, names, n, want)
            if x == 'ne' and o[3]:
                x = 'unk'
            res.append(x)
            why = y or why
        if res and all(x == 'eq' for x in res):
            R.ok('%s is read as %s' % (text, show_tree(want)))
        elif 'ne' in res and 'eq' not in res and 'unk' not in res:
            R.violation('tree:%s:%s' % ('whole' if whole else 'operand', shape(w)), '%s is read as %s, not %s' % (text, why, show_tree(want)), [r.fn.name])
        else:
            R.unknown(text, why or 'undecided')


def shape(w):
    return ''.join('H' if c in HIGH else 'L' if c in '+-' else '' for c in w)


def judge(C, E, SI, r, o, names, n, want):
    e, env = o[1], o[2]
    v = e.value
    try:
        x = env.ev(E.deep(e.st, v))
    except (Unk, More):
        return 'unk', 'result not understood'
    if type(x) is tuple and x[0] == 'ok':
        t = x[1]
    elif type(x) is tuple and x[0] == 'adt' and x[2] == 0:
        t = x[3][0]
    elif type(x) is tuple and (x[0] == 'err' or x[0] == 'adt' and x[2] == 1):
        return 'ne', 'an error'
    else:
        return 'unk', 'result not understood'
    if isinstance(t, Exception):
        return 'unk', 'result not understood'
    t = rename(t, C, names)
    if t != want:
        return ('ne', show_tree(t)) if known_tree(t) else ('unk', 'tree not understood')
    ver = parse_rule.main_version(E, SI, e.st, r)
    try:
        p = env.ev(ver)
    except (Unk, More):
        return 'unk', 'place not understood'
    if p != ('pos', n):
        return 'ne', 'text up to character %s' % (p[1],)
    return 'eq', ''


def known_tree(t):
    return type(t) is tuple and bool(t) and (t[0] == 'val' or t[0] == 'op' and '?' != t[2] and all(known_tree(x) for x in t[3:]))


def single(C, R, o, opf):
    """Read as one operand, a value of any kind applies no binary operator."""
    r = value_run(C, o, False, False)
    R.covered(r)
    M = C.light_parser()
    bins = {g.id for g in M.op_fns() if sum(t == C.ty('Value') for t in g.locals[1:1 + g.argc]) == 2}
    bad = [e for k, e in r.events if k == 'pure_call' and e['fn'].id in bins]
    for e in bad[:1]:
        R.violation('operand:%s' % o, 'a value that starts with %s, read as one operand, applies an operator' % o, parse_rule.wh(r.E, e))
    if not bad:
        R.ok('a value that starts with %s, read as one operand, applies no operator' % o)


def operand_calls(C, R, opf):
    """Outside of containers (an own bracket), recursive calls read one operand."""
    f, bi, oi = value_hub(C)
    for u in parse_rule.units(C):
        own = [a for i, a in enumerate(u.args) if parse_rule.is_optchar(C, u.fn.locals[i + 1])]
        for k, e in u.events:
            if k != 'hub_call' or e['fn'].id != f.id:
                continue
            b = u.E.deep(e['st'], e['args'][oi]) if oi is not None else None
            w = u.E.decide(e['st'], e['args'][bi])
            if b in own:
                if w is False:
                    R.ok('%s reads one operand' % parse_rule.owner_name(e))
                elif w is True:
                    R.violation('operand-call:%s' % parse_rule.owner_name(e), '%s reads a whole expression where one operand is due' % parse_rule.owner_name(e), parse_rule.wh(u.E, e))
                else:
                    R.unknown('a call in %s' % parse_rule.owner_name(e), 'whole value or operand')
