"""Extended automata extracted from the loops of a function, and their conformance with a specification automaton.

The precise run of a function leaves, for every loop, the head states (one per combination of control flags) and the
edges between them, each a path with its guard (path facts) and its update (new terms of the head's cells). That is an
automaton over the characters read from a stream or a string. It is compared with a specification by exploring the
product of both, one representative per class of characters that neither can tell apart.
"""
import re
from fractions import Fraction
from term import *
from term import FULL


class Unk(Exception):
    """The value of a term is not known."""


class More(Exception):
    """The value depends on characters after the known prefix of the input."""


NATOM = 133


def atom(n):
    if n < 128:
        return n
    m = class_of(n)
    return m.bit_length() - 1


def atoms(s):
    return tuple(atom(ord(c)) for c in s)


def text_of(w):
    return ''.join(chr(a) if a < 128 else {128: '\u2003', 129: '\u00e9', 130: '\u00bd', 131: '\x85', 132: '\u20ac'}[a] for a in w)


UNSET = object()
INTFN = re.compile(r'([ui])(8|16|32|64|128|size)::(checked_|wrapping_|saturating_)?(pow|mul|add|sub)$')


class Env:
    """A word (a prefix of the input; closed: the whole input) and the values of the free terms."""

    def __init__(self, A, word, closed):
        self.A, self.word, self.closed = A, word, closed
        self.vals = {}
        self.memo = {}

    def copy(self):
        e = Env(self.A, self.word, self.closed)
        e.vals = dict(self.vals)
        return e

    # -- values ----------------------------------------------------------------------------------
    # int / bool as themselves, ('c', atom), ('s', atoms, open), ('pos', i), ('t', ..), ('adt', name, variant, fields),
    # ('some', x) / ('none',), ('q', Fraction), ('len', n, open)
    def ev(self, t):
        r = self.memo.get(t, UNSET)
        if r is UNSET:
            try:
                r = self.ev1(t)
            except (Unk, More) as e:
                r = e
            self.memo[t] = r
        if isinstance(r, Exception):
            raise r
        return r

    def string(self, t):
        v = self.ev(t)
        if v[0] == 'c':
            return (v[1],), False
        if v[0] != 's':
            raise Unk
        return v[1], v[2]

    def closed_string(self, t):
        s, o = self.string(t)
        if o:
            raise More
        return s

    def ev1(self, t):
        op = t.op
        if t in self.vals:
            v = self.vals[t]
            if v is None:
                raise Unk
            return v
        if op in ('int', 'bool'):
            return t.args[0]
        if op == 'char':
            return ('c', atom(t.args[0]))
        if op == 'str':
            return ('s', atoms(t.args[0]), False)
        if op == 'tup':
            return ('t',) + tuple(self.lazy(a) for a in t.args)
        if op == 'adt':
            return ('adt', t.args[0], t.args[1], tuple(self.lazy(a) for a in t.args[2:]))
        if op in ('pref', 'deref'):
            return self.ev(t.args[0])
        if op == 'fld':
            b = self.ev(t.args[0])
            i = t.args[2]
            if b[0] == 'some' and i == 0:
                return b[1]
            if b[0] == 't':
                v = b[1 + i]
            elif b[0] == 'adt':
                if t.args[1] >= 0 and t.args[1] != b[2]:
                    raise Unk
                v = b[3][i]
            elif b[0] in ('ok', 'err') and i == 0 and len(b) > 1:
                v = b[1]
            else:
                raise Unk
            if isinstance(v, Exception):
                raise v
            return v
        if op == 'discr':
            return self.variant(t.args[0])
        if op == 'app':
            return self.app(t)
        raise Unk

    def lazy(self, t):
        try:
            return self.ev(t)
        except (Unk, More) as e:
            return e

    def variant(self, t):
        b = self.ev(t)
        if type(b) is tuple:
            if b[0] in ('some', 'err'):
                return 1
            if b[0] in ('none', 'ok'):
                return 0
            if b[0] == 'adt':
                return b[2]
        raise Unk

    def num(self, t):
        v = self.ev(t)
        if type(v) is bool or type(v) is tuple:
            raise Unk
        return v

    def app(self, t):
        n = t.args[0]
        a = t.args[1:]
        f = getattr(self, 'a_' + n.replace(':', '_'), None)
        if f is None:
            if n.startswith('trunc:'):
                k, bits = n[6], {'size': 64}.get(n[7:], n[7:])
                x = self.num(a[0]) & (1 << int(bits)) - 1
                return x - (1 << int(bits)) if k == 'i' and x >> int(bits) - 1 else x
            if n.startswith('bin:'):
                x, y = self.num(a[0]), self.num(a[1])
                o = n[4:]
                if o == 'BitAnd':
                    return x & y
                if o == 'BitOr':
                    return x | y
                if o == 'BitXor':
                    return x ^ y
                if o in ('Div', 'Rem') and x >= 0 and y > 0:
                    return x // y if o == 'Div' else x % y
                if o in ('Shl', 'Shr') and x >= 0 and 0 <= y < 64:
                    return x << y if o == 'Shl' else x >> y
                if o == 'Mul':
                    return x * y
            raise Unk
        return f(*a)

    # stream
    def a_next(self, v):
        p = self.ev(v)
        if p[0] != 'pos':
            raise Unk
        if p[1] >= len(self.word):
            if not self.closed:
                raise More
            return p
        return ('pos', p[1] + 1)

    def a_peek(self, v):
        p = self.ev(v)
        if p[0] != 'pos':
            raise Unk
        if p[1] < len(self.word):
            return ('some', ('c', self.word[p[1]]))
        if not self.closed:
            raise More
        return ('none',)

    # characters and strings
    def a_chin(self, c, m):
        v = self.ev(c)
        if v[0] != 'c':
            raise Unk
        return bool(m >> v[1] & 1)

    def a_chars(self, s):
        return self.ev(s)

    def a_chs(self, c):
        v = self.ev(c)
        if v[0] != 'c':
            raise Unk
        return ('s', (v[1],), False)

    def a_cat(self, *ps):
        r = ()
        for p in ps:
            r += self.closed_string(p)
        return ('s', r, False)

    def a_at(self, s, i):
        w, o = self.string(s)
        k = self.num(i)
        if k < len(w):
            return ('c', w[k])
        if o:
            raise More
        raise Unk

    def a_len(self, s):
        w, o = self.string(s)
        if s.op == 'app' and s.args[0] == 'chars':
            return ('len', len(w), True) if o else len(w)
        if any(x >= 128 for x in w):
            raise Unk
        return ('len', len(w), True) if o else len(w)

    def a_isempty(self, s):
        w, o = self.string(s)
        if w:
            return False
        if o:
            raise More
        return True

    def affix(self, s, p, end):
        w, o = self.string(s)
        v = self.ev(p)
        if type(v) is not tuple:
            raise Unk
        q = (v[1],) if v[0] == 'c' else v[1] if v[0] == 's' and not v[2] else None
        if q is None:
            raise Unk
        if end:
            if o:
                raise More
            return w[-len(q):] == q if q else True
        if w[:len(q)] == q:
            return True
        if o and q[:len(w)] == w:
            raise More
        return False

    def a_starts_with(self, s, p):
        return self.affix(s, p, False)

    def a_ends_with(self, s, p):
        return self.affix(s, p, True)

    def a_strcontains(self, s, p):
        w, o = self.string(s)
        v = self.ev(p)
        q = (v[1],) if v[0] == 'c' else v[1] if v[0] == 's' and not v[2] else None
        if q is None:
            raise Unk
        for i in range(len(w) - len(q) + 1):
            if w[i:i + len(q)] == q:
                return True
        if o:
            raise More
        return False

    def trim(self, s, p, left, right):
        w = self.closed_string(s)
        if p is None:
            ok = lambda x: x in (32, 9, 10, 11, 12, 13, 128)
        else:
            v = self.ev(p)
            if v[0] != 'c':
                raise Unk
            ok = lambda x: x == v[1]
        w = list(w)
        while right and w and ok(w[-1]):
            w.pop()
        while left and w and ok(w[0]):
            w.pop(0)
        return ('s', tuple(w), False)

    def a_trim_end_matches(self, s, p):
        return self.trim(s, p, False, True)

    def a_trim_start_matches(self, s, p):
        return self.trim(s, p, True, False)

    def a_trim_matches(self, s, p):
        return self.trim(s, p, True, True)

    def a_trim(self, s):
        return self.trim(s, None, True, True)

    def a_trim_end(self, s):
        return self.trim(s, None, False, True)

    def a_trim_start(self, s):
        return self.trim(s, None, True, False)

    def recase(self, s, f):
        w = self.closed_string(s)
        if any(x >= 128 for x in w):
            raise Unk
        return ('s', tuple(ord(f(chr(x))) for x in w), False)

    def a_lower(self, s):
        return self.recase(s, str.lower)

    def a_upper(self, s):
        return self.recase(s, str.upper)

    def a_alower(self, s):
        w = self.closed_string(s)
        return ('s', tuple(ord(chr(x).lower()) if x < 128 else x for x in w), False)

    def a_replace(self, s, p, q):
        w, b = self.closed_string(s), self.closed_string(q)
        v = self.ev(p)
        a = (v[1],) if v[0] == 'c' else v[1] if v[0] == 's' and not v[2] else None
        if not a:
            raise Unk
        out = []
        i = 0
        while i < len(w):
            if w[i:i + len(a)] == a:
                out += b
                i += len(a)
            else:
                out.append(w[i])
                i += 1
        return ('s', tuple(out), False)

    def a_eqic(self, s, t):
        return self.a_alower(s)[1] == self.a_alower(t)[1]

    def a_repeat(self, s, n):
        return ('s', self.closed_string(s) * self.num(n), False)

    def a_digit(self, c):
        v = self.ev(c)
        if v[0] == 'c' and 48 <= v[1] < 58:
            return v[1] - 48
        raise Unk

    # calls of integer functions that are not modelled: what they compute is known all the same
    def a_call(self, name, *xs):
        m = INTFN.match(str(name.args[0])) if name.op == 'str' else None
        if not m or len(xs) != 2:
            raise Unk
        k, bits, mode, op = m.group(1), m.group(2), m.group(3) or '', m.group(4)
        x, y = self.num(xs[0]), self.num(xs[1])
        bits = 64 if bits == 'size' else int(bits)
        if op == 'pow' and not 0 <= y < 5000:
            raise Unk
        r = x ** y if op == 'pow' else x * y if op == 'mul' else x + y if op == 'add' else x - y
        lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if k == 'i' else (0, (1 << bits) - 1)
        if mode == 'checked_':
            return ('some', r) if lo <= r <= hi else ('none',)
        if mode == 'saturating_':
            return max(lo, min(hi, r))
        r &= (1 << bits) - 1
        return r - (1 << bits) if k == 'i' and r >> bits - 1 else r

    # truth
    def a_not(self, x):
        return not self.ev(x)

    def a_and(self, *xs):
        pend = None
        for x in xs:
            try:
                if self.ev(x) is False:
                    return False
            except (Unk, More) as e:
                pend = pend if isinstance(pend, More) else e
        if pend:
            raise pend
        return True

    def a_or(self, *xs):
        pend = None
        for x in xs:
            try:
                if self.ev(x) is True:
                    return True
            except (Unk, More) as e:
                pend = pend if isinstance(pend, More) else e
        if pend:
            raise pend
        return False

    def a_eq(self, x, y):
        a, b = self.ev(x), self.ev(y)
        return self.same(a, b)

    def same(self, a, b):
        for p, q in ((a, b), (b, a)):
            if type(p) is tuple and p[0] == 'len':
                if type(q) is int and q < p[1]:
                    return False
                raise More
            if type(p) is tuple and p[0] == 's' and p[2]:
                if type(q) is tuple and q[0] == 's' and not q[2] and q[1][:len(p[1])] != p[1]:
                    return False
                raise More
        if type(a) is not type(b):
            raise Unk
        if type(a) is tuple:
            if a[0] == 's' and b[0] == 's' or a[0] == 'c' and b[0] == 'c' or a[0] in ('t', 'some', 'none', 'q', 'pos'):
                if a[0] == 'c' and a[1] >= 128 and a[1] == b[1]:
                    raise Unk
                return a == b
            if {a[0], b[0]} == {'c', 's'}:
                return (a[1],) == b[1] if a[0] == 'c' else a[1] == (b[1],)
            raise Unk
        return a == b

    def lt(self, x, y, eq):
        a, b = self.ev(x), self.ev(y)
        for v in (a, b):
            if type(v) is bool:
                raise Unk
        if type(b) is tuple and b[0] == 'len':
            if type(a) is int and (a < b[1] or eq and a <= b[1]):
                return True
            raise More
        if type(a) is tuple and a[0] == 'len':
            if type(b) is int and (a[1] > b or not eq and a[1] >= b):
                return False
            raise More
        if type(a) is tuple and type(b) is tuple and a[0] == b[0] == 'c':
            if a[1] >= 128 or b[1] >= 128:
                raise Unk
            return a[1] <= b[1] if eq else a[1] < b[1]
        if type(a) is tuple or type(b) is tuple:
            raise Unk
        return a <= b if eq else a < b

    def a_lt(self, x, y):
        return self.lt(x, y, False)

    def a_le(self, x, y):
        return self.lt(x, y, True)

    # numbers
    def a_add(self, x, y):
        a, b = self.ev(x), self.ev(y)
        if type(a) is tuple and a[0] == 'len':
            return ('len', a[1] + b, True)
        if type(b) is tuple and b[0] == 'len':
            return ('len', b[1] + a, True)
        return self.num(x) + self.num(y)

    def a_sub(self, x, y):
        return self.num(x) - self.num(y)

    def a_mul(self, x, y):
        return self.num(x) * self.num(y)

    def a_ord(self, c):
        v = self.ev(c)
        if v[0] == 'c' and v[1] < 128:
            return v[1]
        raise Unk

    def a_b2i(self, b):
        return int(self.ev(b))

    def a_bigint(self, x):
        return self.num(x)

    def a_pow(self, x, n):
        b, k = self.num(x), self.num(n)
        if k < 0 or k > 10000:
            raise Unk
        return b ** k

    def a_ratio(self, x, y):
        a, b = self.num(x), self.num(y)
        if b == 0:
            raise Unk
        return ('q', Fraction(a, b))

    def q(self, t):
        v = self.ev(t)
        if type(v) is tuple and v[0] == 'q':
            return v[1], True
        if type(v) is int:
            return Fraction(v), False
        raise Unk

    def arith(self, x, y, f):
        a, i = self.q(x)
        b, j = self.q(y)
        r = f(a, b)
        if i or j:
            return ('q', r)
        if r.denominator != 1:
            raise Unk
        return int(r)

    def a_n_add(self, x, y):
        return self.arith(x, y, lambda a, b: a + b)

    def a_n_sub(self, x, y):
        return self.arith(x, y, lambda a, b: a - b)

    def a_n_mul(self, x, y):
        return self.arith(x, y, lambda a, b: a * b)

    def a_n_div(self, x, y):
        a, i = self.q(x)
        b, j = self.q(y)
        if b == 0 or not (i and j):
            raise Unk
        return ('q', a / b)

    def a_n_neg(self, x):
        a, i = self.q(x)
        return ('q', -a) if i else int(-a)

    def a_parse(self, ty, s):
        if ty.args[0] != 'BigInt':
            raise Unk
        w = self.closed_string(s)
        if not w:
            return ('err',)
        if all(48 <= x < 58 for x in w):
            return ('ok', int(text_of(w)))
        raise Unk


class Edge:
    def __init__(self, src, st, to=None, head=None, value=None):
        self.src, self.st, self.to, self.head, self.value = src, st, to, head, value
        self.facts = list(st.facts.items())


START = ('start',)


class Auto:
    """binds(env) gives the initial values of the free terms (the input's position or text)."""

    def __init__(self, run, binds):
        self.run, self.binds = run, binds
        self.edges = {}
        seen = set()
        for k, kw in run.events:
            if k == 'loop_entry':
                src = kw['st'].gh.get('last', START)
                self.add(Edge(src, kw['st'], (kw['serial'], kw['key']), kw['head']))
                seen.add((kw['serial'], kw['key']))
        heads = {}
        for k, kw in run.events:
            if k in ('loop_entry', 'backedge', 'iterback'):
                heads[(kw['serial'], kw['key'])] = kw['head']
        for k, kw in run.events:
            if k in ('backedge', 'iterback'):
                to = (kw['serial'], kw['to'])
                src = kw['st'].gh.get('last', START)
                if to not in heads:
                    raise Unk('a loop head is missing')
                self.add(Edge(src, kw['st'], to, heads[to]))
        for s, v in run.exits:
            self.add(Edge(s.gh.get('last', START), s, None, None, v))
        self.heads = heads

    def add(self, e):
        self.edges.setdefault(e.src, []).append(e)

    def masks(self):
        r = set()
        for es in self.edges.values():
            for e in es:
                for t, f in e.facts:
                    if f[0] == 'M':
                        r.add(f[1])
                    for x in [t] + list(closure(t)):
                        if x.op == 'app' and x.args[0] == 'chin':
                            r.add(x.args[2])
                        elif x.op == 'char':
                            r.add(char_mask(x.args[0]) or class_of(x.args[0]))
                        elif x.op == 'str':
                            for c in x.args[0]:
                                r.add(char_mask(ord(c)) or class_of(ord(c)))
        return r

    def consts(self):
        """String and integer constants the automaton compares with."""
        ss, ns = set(), set()
        for es in self.edges.values():
            for e in es:
                for t, f in e.facts:
                    for x in [t] + list(closure(t)):
                        if x.op == 'str' and 0 < len(x.args[0]) < 40:
                            ss.add(x.args[0])
                        elif x.op == 'int':
                            ns.add(x.args[0])
                    if f[0] == 'I':
                        ns |= {b for b in f[1:] if b is not None}
        return ss, {n for n in ns if 2 < n <= 400}

    def classes(self, extra=()):
        ms = list(self.masks()) + list(extra)
        g = {}
        for a in range(NATOM):
            g.setdefault(tuple(m >> a & 1 for m in ms), []).append(a)
        return [v[0] for v in g.values()], {v[0]: v for v in g.values()}

    # -- one step --------------------------------------------------------------------------------
    def holds(self, env, facts):
        """False, or the number of facts that could not be decided; raises More."""
        unk = 0
        more = None
        for t, f in facts:
            try:
                k = f[0]
                if k == 'M':
                    v = env.ev(t)
                    if type(v) is not tuple or v[0] != 'c':
                        raise Unk
                    if not f[1] >> v[1] & 1:
                        return False
                elif k == 'V':
                    if env.variant(t) not in f[1]:
                        return False
                elif k == 'B':
                    v = env.ev(t)
                    if type(v) is not bool:
                        raise Unk
                    if v is not f[1]:
                        return False
                elif k == 'I':
                    v = env.ev(t)
                    if type(v) is tuple and v[0] == 'len':
                        if f[2] is not None:
                            if v[1] > f[2]:
                                return False
                            raise More
                        if f[1] is not None and v[1] < f[1]:
                            raise More
                        continue
                    if type(v) is not int:
                        raise Unk
                    if f[1] is not None and v < f[1] or f[2] is not None and v > f[2]:
                        return False
                else:
                    raise Unk
            except Unk:
                if not harmless(t):
                    unk += 1
            except More as e:
                more = e
        if more:
            raise More
        return unk

    def step(self, node, env):
        """Edges whose guard holds: [(edge, number of undecided facts)]; raises More."""
        out = []
        more = None
        for e in self.edges.get(node, ()):
            try:
                h = self.holds(env, e.facts)
            except More as m:
                more = m
                continue
            if h is not False:
                out.append((e, h))
        if more:
            raise More
        return out

    def enter(self, e, env):
        n = env.copy()
        new = {}
        for c, x in e.head.cells.items():
            y = e.st.cells.get(c)
            if y is not None:
                self.bind(env, x, y, new)
        n.vals.update(new)
        return n

    def bind(self, env, x, y, new):
        if x is y and not has_phi(x):
            return
        if x.op in ('int', 'bool', 'char', 'str'):
            return
        if x.op == y.op and x.op in ('adt', 'tup', 'app') and len(x.args) == len(y.args) and all(
                a is b or (type(a) is Term and type(b) is Term) for a, b in zip(x.args, y.args)) and (
                x.op != 'app' or x.args[0] in ('it', 'enumit', 'mapit', 'filterit', 'chain', 'zip', 'dcl', 'box', 'arc', 'rev', 'chars')):
            for a, b in zip(x.args, y.args):
                if type(a) is Term:
                    self.bind(env, a, b, new)
            return
        if x.op in ('phi', 'app', 'fld', 'sym') and (x.op == 'phi' or has_phi(x)):
            try:
                new[x] = env.ev(y)
            except More:
                raise
            except Unk:
                new[x] = None

    def walk(self, word, closed, limit=400):
        """All outcomes for this input: ('exit', edge, env, undecided) | ('more', node, env, undecided) | ('stuck', node)."""
        env = Env(self, word, closed)
        env.vals.update(self.binds(env))
        work = [(START, env, 0)]
        out = []
        steps = 0
        while work:
            node, env, u = work.pop()
            steps += 1
            if steps > limit + 4 * len(word):
                raise Unk('too many steps')
            try:
                es = self.step(node, env)
                if not es:
                    out.append(('stuck', node, env, u))
                for e, h in es:
                    if e.to is None:
                        out.append(('exit', e, env, u + h))
                    else:
                        work.append((e.to, self.enter(e, env), u + h))
            except More:
                out.append(('more', node, env, u))
        return out


_hp = {}


def has_phi(t):
    r = _hp.get(t)
    if r is None:
        r = t.op == 'phi' or any(x.op == 'phi' for x in closure(t))
        _hp[t] = r
    return r


def harmless(t):
    """Facts about positions in the text never steer what is accepted."""
    for x in [t] + list(closure(t)):
        if x.op == 'app' and x.args[0] in ('line', 'col'):
            return True
        if x.op == 'phi' and x is t:
            return True
    return False


def conform(A, spec, R, key, text, extra_words=(), reps=2, depth=14, limit=4000):
    """spec: .start, .step(state, atom) -> state, .masks, .judge(word, closed, outcome edge, env) -> 'eq'|'ne'|'unk'|None
    plus a text. Every class of characters from every reachable pair of states."""
    classes, members = A.classes(spec.masks)
    seen = {}
    queue = [((), spec.start)]
    n = 0
    trans = 0

    def judge(word, closed, outs):
        res = []
        why = None
        if not word and not spec.empty or not getattr(spec, 'pre', lambda w: True)(word):
            return
        for o in outs:
            if o[0] == 'more':
                continue
            if o[0] == 'stuck':
                res.append('unk')
                why = why or 'no path'
                continue
            r = spec.judge(word, closed, o[1], o[2])
            if r is None:
                continue
            rr, w = r
            res.append(rr)
            if rr != 'eq':
                why = w
        if not res:
            return
        t = '%s: input %s%s' % (text, show_word(word), '' if closed else ' …')
        if all(x == 'eq' for x in res):
            R.ok(t)
        elif all(x == 'ne' for x in res):
            R.violation('%s %s' % (key, spec.kind(word)), '%s: %s' % (t, why), [A.run.fn.name])
        else:
            R.unknown(t, why or 'undecided')

    while queue and n < limit:
        word, ss = queue.pop(0)
        n += 1
        judge(word, True, A.walk(word, True))
        outs = A.walk(word, False)
        judge(word, False, [o for o in outs if o[0] != 'more'])
        nodes = frozenset(o[1] for o in outs if o[0] == 'more')
        if not nodes or len(word) >= depth:
            continue
        sig = (ss, nodes, frozenset(flags(o[2]) for o in outs if o[0] == 'more'))
        if seen.get(sig, 0) >= reps:
            continue
        seen[sig] = seen.get(sig, 0) + 1
        for a in classes:
            trans += 1
            queue.append((word + (a,), spec.step(ss, a)))
    for w in extra_words:
        n += 1
        judge(w, True, A.walk(w, True))
        judge(w, False, [o for o in A.walk(w, False) if o[0] != 'more'])
    return len(seen), trans, n


def flags(env):
    return frozenset((t, v) for t, v in env.vals.items() if type(v) is bool)


def show_word(w):
    return repr(text_of(w if len(w) < 40 else w[:40])) + ('' if len(w) < 40 else '… (%d characters)' % len(w))
