"""Abstract interpretation of MIR over the term domain.

Flow- and path-sensitive forward analysis. An abstract state maps memory cells to terms (value numbers)
and carries a set of facts (constraints on terms). Paths are kept apart inside a function, joined at loop
heads (least fixpoint, partitioned by the constant values of flags) and at function exits; calls to
library functions are interpreted by transfer functions (models.py), calls that are recursive are havoc'd
according to a contract. Nothing is executed and no constraint solver is used: a branch is pruned only
when the stored facts decide it.
"""
import re
import sys
from prog import split_generics
from term import *
from term import _cmp_norm

sys.setrecursionlimit(20000)


CALL_TRAIT = re.compile(r'ops::(function::)?(FnOnce::call_once|FnMut::call_mut|Fn::call)$')


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


# ---------------------------------------------------------------------------------------------------
class State:
    __slots__ = ('cells', 'facts', 'anc', 'gh', 'bor')

    def __init__(self):
        self.cells = {}
        self.facts = {}
        self.anc = {}
        self.gh = {}
        self.bor = {}

    def copy(self):
        s = State()
        s.cells = dict(self.cells)
        s.facts = dict(self.facts)
        s.anc = dict(self.anc)
        s.gh = dict(self.gh)
        s.bor = dict(self.bor)
        return s


class Frame:
    __slots__ = ('fn', 'fid', 'depth', 'chain', 'unit', 'parent', 'span')

    def __init__(self, fn, fid, depth, chain, unit, parent=None, span=None):
        self.parent = parent
        self.span = span            # source position of the call
        self.fn = fn
        self.fid = fid
        self.depth = depth
        self.chain = chain          # tuple of function ids on the inlining stack
        self.unit = unit


# constructors of iterator values: joined component by component
STRUCT = {'it', 'rng', 'zip', 'mapit', 'enumit', 'rev', 'dcl', 'chain', 'filterit', 'box', 'arc'}
ISH = {'int': 'I', 'uint': 'I'}


def join_c(a, b):
    """Join of two constraints on one term; None = no constraint."""
    if a == b:
        return a
    if a is None or b is None or a[0] != b[0]:
        return None
    k = a[0]
    if k == 'V':
        return ('V', a[1] | b[1])
    if k == 'M':
        m = a[1] | b[1]
        return None if m == FULL else ('M', m)
    if k == 'I':
        lo = None if a[1] is None or b[1] is None else min(a[1], b[1])
        hi = None if a[2] is None or b[2] is None else max(a[2], b[2])
        return None if lo is None and hi is None else ('I', lo, hi)
    return None


class Engine:
    def __init__(self, prog):
        self.P = prog
        self.T = prog.T
        self.fids = {}
        self.quiet = 0
        self.hooks = []
        self.hubs = {}             # fn id -> contract object
        self.stats = dict(blocks=0, calls=0, paths=0, joins=0, loops=0, unknown=set(), inlined=set(), fns=set(),
                          opaque=set(), asserts=0)
        self.models = None
        self.max_depth = 40
        self.budget = 6_000_000
        self.exit_limit = 12
        self.site_names = {}
        self.enum_unit = {}
        self._leq = {}

    # -- ids -----------------------------------------------------------------------------------------
    def fid(self, key):
        r = self.fids.get(key)
        if r is None:
            r = len(self.fids) + 1
            self.fids[key] = r
        return r

    # -- types ---------------------------------------------------------------------------------------
    def variants(self, ty):
        return self.T[ty].get('vars')

    # -- facts ---------------------------------------------------------------------------------------
    def get_mask(self, st, ch):
        if ch.op == 'char':
            m = char_mask(ch.args[0])
            return m if m is not None else class_of(ch.args[0])
        c = st.facts.get(ch)
        if c is not None and c[0] == 'M':
            return c[1]
        return FULL

    def get_variants(self, st, t):
        """Set of possible variants or None."""
        if t.op == 'adt':
            return frozenset([t.args[1]])
        c = st.facts.get(t)
        if c is not None and c[0] == 'V':
            return c[1]
        return None

    def bounds(self, st, t, depth=0):
        """(lo, hi) of an integer term under the facts."""
        if t.op == 'int':
            return t.args[0], t.args[0]
        b, k = split_add(t)
        if k and b is not None:
            lo, hi = self.bounds(st, b, depth)
            return (None if lo is None else lo + k), (None if hi is None else hi + k)
        lo = hi = None
        c = st.facts.get(t)
        if c is not None and c[0] == 'I':
            lo, hi = c[1], c[2]
        if t.op == 'app':
            n = t.args[0]
            if n in ('len', 'line', 'col', 'usize', 'seqlen', 'strlen', 'blen'):
                base = 1 if n in ('line', 'col') else 0
                if lo is None or lo < base:
                    lo = base
                if n in ('len', 'seqlen'):
                    ln = self.len_norm(st, t.args[1])
                    if ln is not None and depth < 6:
                        bt, bk = ln
                        if bt is None:
                            return bk, bk
                        if bt is not t:
                            l2, h2 = self.bounds(st, bt, depth + 1)
                            if l2 is not None and l2 + bk > lo:
                                lo = l2 + bk
                            if h2 is not None:
                                hi = h2 + bk if hi is None else min(hi, h2 + bk)
                    if depth < 4:
                        for (ft, fc) in self.diff_facts(st, t):
                            # t = ft + fc
                            l2, h2 = self.bounds(st, ft, depth + 3)
                            if l2 is not None and l2 + fc > lo:
                                lo = l2 + fc
            elif n == 'add' and depth < 6:
                l1, h1 = self.bounds(st, t.args[1], depth + 1)
                l2, h2 = self.bounds(st, t.args[2], depth + 1)
                if l1 is not None and l2 is not None and (lo is None or lo < l1 + l2):
                    lo = l1 + l2
                if h1 is not None and h2 is not None and (hi is None or hi > h1 + h2):
                    hi = h1 + h2
        elif t.op == 'sym' and lo is None:
            if str(t.args[0]).startswith('u:'):
                lo = 0
        return lo, hi

    def len_norm(self, st, q):
        """len(q) = base + k, base a 'len' term or None."""
        k = 0
        while True:
            if q.op == 'app':
                n = q.args[0]
                if n in ('push', 'pushf'):
                    q = q.args[1]
                    k += 1
                    continue
                if n in ('popf', 'popb'):
                    q = q.args[1]
                    k -= 1
                    continue
                if n == 'seq0':
                    return None, k
                if n == 'seqlit':
                    return None, k + len(q.args) - 1
            return App('len', q), k

    def diff_facts(self, st, t):
        for d in st.gh.get('diffs', ()):
            a, b, k = d             # len a = len b + k
            if a is t:
                yield b, k
            elif b is t:
                yield a, -k

    def decide(self, st, t):
        """Truth value of a boolean term under the facts: True / False / None."""
        if t.op == 'bool':
            return t.args[0]
        c = st.facts.get(t)
        if c is not None and c[0] == 'B':
            return c[1]
        if t.op != 'app':
            return None
        n = t.args[0]
        if n == 'chin':
            m = self.get_mask(st, t.args[1])
            if m & t.args[2] == 0:
                return False
            if m & ~t.args[2] & FULL == 0:
                return True
            return None
        if n == 'not':
            r = self.decide(st, t.args[1])
            return None if r is None else not r
        if n == 'and':
            a, b = self.decide(st, t.args[1]), self.decide(st, t.args[2])
            if a is False or b is False:
                return False
            return True if a and b else None
        if n == 'or':
            a, b = self.decide(st, t.args[1]), self.decide(st, t.args[2])
            if a or b:
                return True
            return False if a is False and b is False else None
        if n == 'lt':
            l1, h1 = self.bounds(st, t.args[1])
            l2, h2 = self.bounds(st, t.args[2])
            if h1 is not None and l2 is not None and h1 < l2:
                return True
            if l1 is not None and h2 is not None and l1 >= h2:
                return False
            return self.lt_chain(st, t.args[1], t.args[2])
        if n == 'eq':
            a, b = t.args[1], t.args[2]
            if b.op == 'int':
                l, h = self.bounds(st, a)
                if l is not None and l > b.args[0] or h is not None and h < b.args[0]:
                    return False
                if l == h == b.args[0]:
                    return True
            if b.op == 'adt':
                v = self.get_variants(st, a)
                if v is not None:
                    if b.args[1] not in v:
                        return False
                    if len(v) == 1 and len(b.args) == 2:
                        return True
            if b.op == 'str':
                for k, c in st.gh.get('streq', {}).items():
                    if k is a:
                        return c is b
            if a.op == 'app' and b.op == 'app' and a.args[0] == 'strlit' and b.args[0] == 'strlit':
                return False
        if n == 'isvar':
            v = self.get_variants(st, t.args[1])
            if v is not None:
                if t.args[2].args[0] not in v:
                    return False
                if len(v) == 1:
                    return True
            return None
        if n == 'isempty':
            l, h = self.bounds(st, App('len', t.args[1]))
            if l is not None and l > 0:
                return False
            if h == 0:
                return True
        return None

    def lt_chain(self, st, a, b):
        # a < b known from facts lt(x, y): same base terms with different offsets.
        ba, ka = split_add(a)
        bb, kb = split_add(b)
        for (x, y, k) in st.gh.get('lts', ()):      # x < y + k
            if x is (ba if ba is not None else ZERO) and y is bb:
                if kb - ka >= k:
                    return True
            if y is ba and ba is not None and x is (bb if bb is not None else ZERO):
                # x=bb < ba + k  =>  ba + ka >= bb + kb  if  bb + kb <= ba + ka  <= bb - k + 1 ...
                # bb < ba + k  <=> ba > bb - k  <=> ba + ka >= bb - k + 1 + ka ; need >= bb + kb
                if 1 - k + ka >= kb:
                    return False
        return None

    def assume(self, st, t, val):
        """Add the fact t == val (t boolean). Returns False if contradictory. Mutates st."""
        r = self.decide(st, t)
        if r is not None:
            return r == val
        if not self.quiet:
            st.gh['br'] = t
        if t.op != 'app':
            st.facts[t] = ('B', val)
            return True
        n = t.args[0]
        if n == 'chin':
            m = self.get_mask(st, t.args[1])
            m &= t.args[2] if val else ~t.args[2]
            m &= FULL
            if m == 0:
                return False
            st.facts[t.args[1]] = ('M', m)
            return True
        if n == 'isvar':
            i = t.args[2].args[0]
            if val:
                return self.assume_variant(st, t.args[1], frozenset([i]))
            return self.assume_variant(st, t.args[1], frozenset(range(t.args[3].args[0])) - {i})
        if n == 'not':
            return self.assume(st, t.args[1], not val)
        if n == 'and' and val or n == 'or' and not val:
            return self.assume(st, t.args[1], val) and self.assume(st, t.args[2], val)
        st.facts[t] = ('B', val)
        if n == 'lt':
            a, b = t.args[1], t.args[2]
            if not val:
                return self.assume(st, Le(b, a), True)
            if b.op == 'int':
                self.refine(st, a, None, b.args[0] - 1)
            else:
                bb, kb = split_add(b)
                if a.op == 'int':
                    self.refine(st, bb, a.args[0] + 1 - kb, None)
                st.gh = dict(st.gh)
                ba, ka = split_add(a)
                st.gh['lts'] = st.gh.get('lts', frozenset()) | {(ba if ba is not None else ZERO, bb, kb - ka)}
        elif n == 'eq':
            a, b = t.args[1], t.args[2]
            if b.op == 'int':
                if val:
                    self.refine(st, a, b.args[0], b.args[0])
                else:
                    l, h = self.bounds(st, a)
                    if l == b.args[0]:
                        self.refine(st, a, l + 1, None)
                    if h == b.args[0]:
                        self.refine(st, a, None, h - 1)
            if val and b.op == 'adt':
                if not self.assume_variant(st, a, frozenset([b.args[1]])):
                    return False
                if len(b.args) > 2:
                    for i, x in enumerate(b.args[2:]):
                        if x.op != 'sym' and not self.assume(st, Eq(Fld(a, b.args[1], i), x), True):
                            return False
            if val and b.op == 'str':
                st.gh = dict(st.gh)
                d = dict(st.gh.get('streq', {}))
                d[a] = b
                st.gh['streq'] = d
            if not val and b.op == 'adt' and len(b.args) == 2:
                v = self.get_variants(st, a)
                if v is not None:
                    return self.assume_variant(st, a, v - {b.args[1]})
        elif n == 'isempty':
            if val:
                self.refine(st, App('len', t.args[1]), 0, 0)
            else:
                self.refine(st, App('len', t.args[1]), 1, None)
        return True

    def refine(self, st, t, lo, hi):
        b, k = split_add(t)
        if b is None:
            return
        if k:
            lo = None if lo is None else lo - k
            hi = None if hi is None else hi - k
            t = b
        if t.op == 'app' and t.args[0] == 'len':
            ln = self.len_norm(st, t.args[1])
            if ln[0] is not None and ln[0] is not t:
                return self.refine(st, Add(ln[0], Int(ln[1])), lo, hi)
        c = st.facts.get(t)
        if c is not None and c[0] == 'I':
            if lo is None or (c[1] is not None and c[1] > lo):
                lo = c[1]
            if hi is None or (c[2] is not None and c[2] < hi):
                hi = c[2]
        st.facts[t] = ('I', lo, hi)
        if t.op == 'app' and t.args[0] == 'len' and lo is not None and lo > 0:
            st.facts[App('isempty', t.args[1])] = ('B', False)

    def assume_variant(self, st, t, v):
        """t is of variant set v (frozenset). Mutates st; False if contradictory."""
        cur = self.get_variants(st, t)
        n = v if cur is None else cur & v
        if not n:
            return False
        if t.op != 'adt':
            st.facts[t] = ('V', frozenset(n))
            if n != cur and not self.quiet:
                st.gh['br'] = t
            if t.op == 'app' and t.args[0] in ('frontopt', 'backopt') and len(n) == 1:
                q = t.args[1]
                if 1 in n:
                    self.refine(st, App('len', q), 1, None)
                else:
                    self.refine(st, App('len', q), 0, 0)
        return True

    # -- memory --------------------------------------------------------------------------------------
    def init_cell(self, cell):
        if cell[0] == 'H':
            return Deref(cell[1])
        return mk('undef', cell[0], *[c if type(c) is not Term else c for c in cell[1:]])

    def cell(self, st, cell):
        r = st.cells.get(cell)
        if r is None:
            r = self.init_cell(cell)
            st.cells[cell] = r
        return r

    def proj(self, st, t, e):
        if e == '*b':
            return Unbox(t)
        k = e[0]
        if k == 'f':
            return Fld(t, e[1], e[2])
        if k == 'i':
            return self.at(t, e[1])
        raise Unsupported('projection %r' % (e,))

    def at(self, seq, idx):
        if seq.op == 'app' and seq.args[0] == 'seqlit' and idx.op == 'int' and 0 <= idx.args[0] < len(seq.args) - 1:
            return seq.args[1 + idx.args[0]]
        if seq.op == 'arr' and idx.op == 'int' and 0 <= idx.args[0] < len(seq.args):
            return seq.args[idx.args[0]]
        if seq.op == 'app' and seq.args[0] == 'imap':
            return mk('app', 'at', seq, idx)
        return App('at', seq, idx)

    def load(self, st, cell, path):
        t = self.cell(st, cell)
        for e in path:
            t = self.proj(st, t, e)
        return t

    def load_ref(self, st, r):
        """Content behind a pointer value."""
        if r.op == 'ref':
            return self.load(st, r.args[0], r.args[1])
        if r.op == 'pref':
            return r.args[0]
        return self.load(st, ('H', r), ())

    def update(self, t, path, val):
        if not path:
            return val
        e, rest = path[0], path[1:]
        if e == '*b':
            return App('box', self.update(Unbox(t), rest, val))
        if e[0] == 'f':
            _, v, i, name, n = e
            if name is None:
                if t.op == 'clo':
                    fs = list(t.args[1:])
                    fs[i] = self.update(fs[i], rest, val)
                    return mk('clo', t.args[0], *fs)
                fs = [Fld(t, -1, j) for j in range(n)]
                fs[i] = self.update(fs[i], rest, val)
                return Tup(fs)
            fs = [Fld(t, v, j) for j in range(n)]
            fs[i] = self.update(fs[i], rest, val)
            return Adt(name, max(v, 0), fs)
        if e[0] == 'i':
            if t.op == 'arr' and e[1].op == 'int':
                a = list(t.args)
                a[e[1].args[0]] = self.update(a[e[1].args[0]], rest, val)
                return mk('arr', *a)
            return App('updidx', t, e[1], self.update(self.at(t, e[1]), rest, val))
        raise Unsupported('update')

    def store(self, st, cell, path, val):
        if not path:
            st.cells[cell] = val
        else:
            st.cells[cell] = self.update(self.cell(st, cell), path, val)

    def store_ref(self, st, r, val):
        if r.op == 'ref':
            self.store(st, r.args[0], r.args[1], val)
        elif r.op == 'pref':
            raise Unsupported('write through a shared reference')
        else:
            self.store(st, ('H', r), (), val)

    def deep(self, st, t, seen=()):
        """Replace references by the content they point at (for use inside opaque terms)."""
        if t.op == 'ref':
            if t.args[0] in seen:
                return App('cyc')
            return self.deep(st, self.load(st, t.args[0], t.args[1]), seen + (t.args[0],))
        if t.op == 'pref':
            return self.deep(st, t.args[0], seen)
        if t.op in ('adt', 'tup', 'clo', 'arr', 'app') and t.args:
            ch = False
            out = []
            for a in t.args:
                if type(a) is Term and a.op in ('ref', 'pref', 'adt', 'tup', 'clo', 'arr', 'app') and (
                        a.op in ('ref', 'pref') or self.has_ref(a)):
                    b = self.deep(st, a, seen)
                    ch = ch or b is not a
                    out.append(b)
                else:
                    out.append(a)
            if ch:
                return rebuild(t.op, out) if t.op != 'adt' else Adt(out[0], out[1], out[2:])
        return t

    _hr = {}

    def has_ref(self, t):
        r = self._hr.get(t)
        if r is None:
            r = any(x.op in ('ref', 'pref') for x in closure(t))
            self._hr[t] = r
        return r

    # -- places --------------------------------------------------------------------------------------
    def place(self, st, fr, p):
        """Evaluate a place: ('cell', cell, path, ty) or ('val', term, None, ty)."""
        ty = fr.fn.locals[p[0]]
        cell, path, val = ('L', fr.fid, p[0]), (), None
        var = -1
        for e in p[1]:
            k = e[0]
            if k == '*':
                pv = self.load(st, cell, path) if val is None else val
                t = self.T[ty]
                if t.get('k') == 'adt' and t.get('box'):
                    if val is None:
                        path = path + ('*b',)
                    else:
                        val = Unbox(val)
                    ty = t['args'][0]
                    continue
                if t.get('k') in ('ref', 'ptr'):
                    ty = t['e']
                mut = t.get('mut')
                if pv.op == 'ref':
                    cell, path, val = pv.args[0], pv.args[1], None
                elif pv.op == 'pref':
                    val = pv.args[0]
                elif mut:
                    cell, path, val = ('H', pv), (), None
                else:
                    c = ('H', pv)
                    if c in st.cells:
                        cell, path, val = c, (), None
                    else:
                        val = Deref(pv)
                var = -1
            elif k == 'f':
                t = self.T[ty]
                if t.get('k') == 'adt' and t.get('box') and e[1] == 0:
                    val = Ref(cell, path + ('*b',)) if val is None else Pref(Unbox(val))
                elif val is not None and val.op in ('ref', 'pref') and t.get('k') == 'adt':
                    pass                      # Unique / NonNull wrappers around a box pointer
                else:
                    if t.get('k') == 'adt':
                        if t['kind'] == 'enum':
                            v = var
                            n = len(t['vars'][v][1])
                        else:
                            v = -1
                            n = len(t['vars'][0][1])
                        pe = ('f', v, e[1], t['adt'], n)
                    else:
                        n = len(t.get('es', ())) or len(t.get('ups', ()) or ())
                        pe = ('f', -1, e[1], None, n)
                    if val is None:
                        path = path + (pe,)
                    else:
                        val = Fld(val, pe[1], pe[2])
                ty = e[2]
                var = -1
            elif k == 'd':
                var = e[1]
            elif k == 'i':
                ix = self.load(st, ('L', fr.fid, e[1]), ())
                if val is None:
                    path = path + (('i', ix),)
                else:
                    val = self.at(val, ix)
                ty = self.T[ty].get('e', ty)
            elif k == 'ci':
                seq = self.load(st, cell, path) if val is None else val
                ix = Int(e[1]) if not e[3] else Sub(App('len', seq), Int(e[1]))
                if val is None:
                    path = path + (('i', ix),)
                else:
                    val = self.at(val, ix)
                ty = self.T[ty].get('e', ty)
            elif k == 'oc':
                ty = e[1]
            else:
                raise Unsupported('place element %s' % k)
        if val is not None:
            return ('val', val, None, ty)
        return ('cell', cell, path, ty)

    def read(self, st, fr, p):
        pl = self.place(st, fr, p)
        if pl[0] == 'val':
            return pl[1]
        return self.load(st, pl[1], pl[2])

    def write(self, st, fr, p, val):
        if val.op == 'adt' and val.args[1] == 1 and str(val.args[0]).endswith('option::Option'):
            self.overwritten(st, fr, p, val)
        if not p[1]:
            st.cells[('L', fr.fid, p[0])] = val
            return
        pl = self.place(st, fr, p)
        if pl[0] == 'val':
            raise Unsupported('write through a shared reference in %s' % fr.fn.name)
        self.store(st, pl[1], pl[2], val)

    def overwritten(self, st, fr, p, val):
        """Note the assignment of a present value to an optional place that holds something already."""
        if not p[1]:
            cell, path = ('L', fr.fid, p[0]), ()
        else:
            pl = self.place(st, fr, p)
            if pl[0] == 'val':
                return
            cell, path = pl[1], pl[2]
        if cell in st.cells:
            self.emit('set_some', st, fr, cell=cell, path=path, old=self.load(st, cell, path), new=val)

    def addr(self, st, fr, p):
        pl = self.place(st, fr, p)
        if pl[0] == 'val':
            return Pref(pl[1])
        return Ref(pl[1], pl[2])

    # -- constants -----------------------------------------------------------------------------------
    def const(self, c, ty):
        k = c[0]
        if k == 'int':
            return Int(c[1])
        if k == 'bool':
            return Bool(c[1])
        if k == 'char':
            return Char(c[1])
        if k == 'str':
            t = self.T[ty]
            return Pref(Str(c[1])) if t.get('k') in ('ref', 'ptr') else Str(c[1])
        if k == 'unit':
            return UNIT
        if k == 'zst':
            t = self.T[ty]
            if t.get('k') == 'fndef':
                return mk('fn', t.get('inst'), t.get('def'))
            if t.get('k') == 'closure':
                return mk('clo', ty)
            if t.get('k') == 'adt':
                return Adt(t['adt'], 0, [])
            return UNIT
        if k == 'fn':
            t = self.T[ty]
            return mk('fn', t.get('inst'), t.get('def'))
        if k == 'closure':
            return mk('clo', ty)
        if k == 'tup':
            t = self.T[ty]
            return Tup([self.const(x, e) for x, e in zip(c[1], t['es'])])
        if k == 'arr':
            t = self.T[ty]
            return mk('arr', *[self.const(x, t['e']) for x in c[1]])
        if k == 'bytes':
            return mk('bytes', tuple(c[1]) if isinstance(c[1], list) else c[1])
        if k == 'ref':
            t = self.T[ty]
            inner = self.const(c[1], t['e'])
            return inner if inner.op == 'pref' and c[1][0] == 'str' and self.T[t['e']].get('k') == 'str' else Pref(inner)
        if k == 'adt':
            t = self.T[c[1]]
            v = c[2]
            fts = [x[1] for x in t['vars'][v][1]]
            return Adt(t['adt'], v, [self.const(x, f) for x, f in zip(c[3], fts)])
        if k == 'static':
            return Pref(App('static', Str(c[1])))
        if k == 'fnptr':
            return mk('fn', c[1], None)
        return mk('app', 'const?', Str(str(c)), Int(ty))

    def operand(self, st, fr, o):
        k = o[0]
        if k == 'k':
            return self.const(o[1], o[2])
        if k in ('c', 'm'):
            return self.read(st, fr, o[1])
        return TRUE if k == 'rc' else App('rc')

    def op_ty(self, fr, o):
        if o[0] == 'k':
            return o[2]
        if o[0] in ('c', 'm'):
            return self.place_ty(fr, o[1])
        return None

    def place_ty(self, fr, p):
        ty = fr.fn.locals[p[0]]
        for e in p[1]:
            k = e[0]
            if k == '*':
                t = self.T[ty]
                ty = t['args'][0] if t.get('box') else t.get('e', ty)
            elif k == 'f':
                ty = e[2]
            elif k in ('i', 'ci'):
                ty = self.T[ty].get('e', ty)
            elif k == 'oc':
                ty = e[1]
        return ty

    # -- rvalues -------------------------------------------------------------------------------------
    def rvalue(self, st, fr, r, span):
        k = r[0]
        if k == 'use':
            return self.operand(st, fr, r[1])
        if k in ('ref', 'addr'):
            return self.addr(st, fr, r[2])
        if k == 'reborrow':
            return self.read(st, fr, r[1])
        if k == 'discr':
            ty = self.place_ty(fr, r[1])
            return self.discr(st, self.read(st, fr, r[1]), ty)
        if k == 'len':
            return self.mklen(st, self.read(st, fr, r[1]))
        if k in ('bin', 'cbin'):
            a, b = self.operand(st, fr, r[2]), self.operand(st, fr, r[3])
            ty = self.op_ty(fr, r[2])
            return self.binop(st, r[1], a, b, ty, k == 'cbin')
        if k == 'un':
            a = self.operand(st, fr, r[2])
            if r[1] == 'Not':
                if a.op == 'bool' or self.T[self.op_ty(fr, r[2])].get('k') == 'bool':
                    return Not(a)
                return App('bitnot', a)
            if r[1] == 'Neg':
                return Int(-a.args[0]) if a.op == 'int' else App('neg', a)
            if r[1] == 'PtrMetadata':
                return self.mklen(st, self.load_ref(st, a))
            return App('un:' + str(r[1]), a)
        if k == 'cast':
            return self.cast(st, fr, r)
        if k == 'agg':
            ops = [self.operand(st, fr, o) for o in r[2]]
            a = r[1]
            if a[0] == 'adt':
                t = self.T[a[1]]
                v = Adt(t['adt'], a[2], ops)
                if self.hooks and not self.quiet and t.get('local'):
                    self.emit('agg', st, fr, adt=t['adt'], ty=a[1], variant=a[2], fields=ops, span=span, term=v)
                return v
            if a[0] == 'tuple':
                return Tup(ops)
            if a[0] == 'array':
                return mk('arr', *ops)
            if a[0] == 'closure':
                return mk('clo', a[1], *ops)
            if a[0] == 'rawptr':
                return ops[0]
            return App('agg', *ops)
        if k == 'repeat':
            v = self.operand(st, fr, r[1])
            return mk('arr', *([v] * r[2])) if r[2] <= 16 else App('repeat', v, Int(r[2]))
        return App('rvalue:' + k)

    def mklen(self, st, t):
        if t.op == 'arr':
            return Int(len(t.args))
        if t.op == 'str':
            return Int(len(t.args[0].encode()))
        ln = self.len_norm(st, t)
        if ln[0] is None:
            return Int(ln[1])
        return Add(ln[0], Int(ln[1])) if ln[1] else ln[0]

    def discr(self, st, t, ty):
        vs = self.variants(ty)
        if t.op == 'adt':
            if vs:
                return Int(vs[t.args[1]][2])
            return Int(0)
        v = self.get_variants(st, t)
        if v is not None and len(v) == 1 and vs:
            return Int(vs[next(iter(v))][2])
        return mk('discr', t, ty)

    def binop(self, st, op, a, b, ty, checked):
        op = str(op)
        T = self.T[ty] if ty is not None else {}
        tk = T.get('k')
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        if base in ('Add', 'Sub', 'Mul', 'Shl', 'Shr'):
            if tk == 'float':
                r = App('f:' + base, a, b)
            elif base == 'Add':
                r = Add(a, b)
            elif base == 'Sub':
                r = Sub(a, b)
            elif base == 'Mul':
                r = Int(a.args[0] * b.args[0]) if a.op == b.op == 'int' else App('mul', *sorted((a, b)))
            else:
                r = App(base.lower(), a, b)
            if checked or op.endswith('WithOverflow'):
                return Tup([r, self.ovf(st, base, a, b, r, T)])
            return r
        if op in ('Eq', 'Ne'):
            if a.op in ('ref', 'pref') or b.op in ('ref', 'pref') or tk in ('ptr', 'ref'):
                e = App('ptreq', a, b) if a is not b else TRUE
            elif a.op == 'discr' or b.op == 'discr':
                e = self.discr_eq(st, a, b)
            else:
                e = Eq(a, b)
            return e if op == 'Eq' else Not(e)
        if op in ('Lt', 'Le', 'Gt', 'Ge'):
            if op in ('Gt', 'Ge'):
                a, b = b, a
                op = {'Gt': 'Lt', 'Ge': 'Le'}[op]
            if tk == 'char':
                # constants become class masks
                if a.op == 'char' and b.op != 'char':
                    m = range_mask(a.args[0] + (1 if op == 'Lt' else 0), 0x10FFFF)
                    if m is not None:
                        return ChIn(b, m)
                elif b.op == 'char' and a.op != 'char':
                    hi = b.args[0] - (1 if op == 'Lt' else 0)
                    m = range_mask(0, hi) if hi >= 0 else 0
                    if m is not None:
                        return ChIn(a, m)
                elif a.op == 'char' and b.op == 'char':
                    return Bool(a.args[0] < b.args[0] or (op == 'Le' and a.args[0] == b.args[0]))
                return App('ch' + op.lower(), a, b)
            if tk in ('int', 'uint'):
                for x, y, flip in ((a, b, 0), (b, a, 1)):
                    if x.op == 'app' and x.args[0] == 'ord' and y.op == 'int':
                        n = y.args[0]
                        if not flip:
                            m = range_mask(0, n - (op == 'Lt')) if n - (op == 'Lt') >= 0 else 0
                        else:
                            m = range_mask(n + (op == 'Lt'), 0x10FFFF)
                        if m is not None:
                            return ChIn(x.args[1], m)
                return Lt(a, b) if op == 'Lt' else Le(a, b)
            return App('cmp:' + op, a, b)
        if op in ('BitAnd', 'BitOr', 'BitXor') and (tk == 'bool' or a.op == 'bool' or b.op == 'bool'):
            if op == 'BitAnd':
                return And(a, b)
            if op == 'BitOr':
                return Or(a, b)
            return Not(Eq(a, b))
        if op in ('Div', 'Rem') and a.op == b.op == 'int' and b.args[0]:
            q = abs(a.args[0]) // abs(b.args[0]) * (1 if (a.args[0] < 0) == (b.args[0] < 0) else -1)
            return Int(q if op == 'Div' else a.args[0] - q * b.args[0])
        return App('bin:' + op, a, b)

    def ovf(self, st, base, a, b, r, T):
        if r.op == 'int':
            lo, hi = self.ty_range(T)
            return Bool(not (lo <= r.args[0] <= hi))
        return App('ovf', Str(base), a, b, Str(T.get('n', '?')))

    def ty_range(self, T):
        bits = T.get('bits', 64)
        if T.get('k') == 'uint':
            return 0, 2 ** bits - 1
        return -2 ** (bits - 1), 2 ** (bits - 1) - 1

    def discr_eq(self, st, a, b):
        if a.op != 'discr':
            a, b = b, a
        if b.op == 'int':
            vs = self.variants(a.args[1])
            for i, v in enumerate(vs or ()):
                if v[2] == b.args[0]:
                    if len(v[1]) == 0:
                        return App('eq', a.args[0], Adt(self.T[a.args[1]]['adt'], i, []))
                    return App('isvar', a.args[0], Int(i), Int(len(vs)))
            return FALSE
        return App('eq', a, b) if a is not b else TRUE

    def cast(self, st, fr, r):
        kind, o, ty = r[1], r[2], r[3]
        v = self.operand(st, fr, o)
        k = str(kind)
        if k == 'IntToInt':
            src = self.T[self.op_ty(fr, o)]
            dst = self.T[ty]
            if src.get('k') == 'char':
                if v.op == 'char':
                    return Int(v.args[0])
                if dst.get('bits', 0) >= 32:
                    return App('ord', v)
                return App('trunc:' + dst['n'], v)
            if dst.get('k') == 'char':
                return Char(v.args[0]) if v.op == 'int' else App('chr', v)
            if src.get('k') == 'bool':
                return Int(int(v.args[0])) if v.op == 'bool' else App('b2i', v)
            if v.op == 'int':
                lo, hi = self.ty_range(dst)
                n = v.args[0]
                if not lo <= n <= hi:
                    n &= 2 ** dst['bits'] - 1
                    if dst.get('k') == 'int' and n > hi:
                        n -= 2 ** dst['bits']
                return Int(n)
            if src.get('k') == dst.get('k') and src.get('bits', 0) <= dst.get('bits', 0):
                return v
            if src.get('k') == 'uint' and dst.get('k') == 'int' and src.get('bits', 0) < dst.get('bits', 0):
                return v
            if v.op == 'discr':
                return v
            return App('trunc:' + dst['n'], v)
        if v.op in ('ref', 'pref', 'fn', 'clo'):
            if k in ('Transmute', 'PtrToPtr', 'BoxDerefTransmute') or k.startswith('PointerCoercion') or k in ('Unsize', 'ReifyFnPointer', 'ClosureFnPointer'):
                if self.T[ty].get('k') in ('int', 'uint'):
                    return App('addrof', v)
                return v
            return v
        if k in ('PtrToPtr', 'BoxDerefTransmute', 'Transmute'):
            if self.T[ty].get('k') in ('int', 'uint', 'float', 'bool', 'char'):
                return App('transmute:' + self.T[ty]['n'], v)
            return v
        if k.startswith('PointerCoercion') or k in ('Unsize', 'Subtype'):
            return v
        return App('cast:' + k + ':' + self.T[ty]['n'], v)

    # -- events --------------------------------------------------------------------------------------
    def emit(self, kind, st, fr, **kw):
        if self.quiet:
            return
        for h in self.hooks:
            h(kind, st, fr, kw)

    def where(self, fr, span):
        """[(function name, source position)] from the innermost local function outwards."""
        r = []
        while fr is not None:
            if fr.fn.local:
                r.append((fr.fn.name, span))
            span = fr.span
            fr = fr.parent
        return r

    # -- execution -----------------------------------------------------------------------------------
    def tick(self):
        self.stats['blocks'] += 1
        if self.stats['blocks'] > self.budget:
            raise Budget('analysis budget exhausted')

    def run_fn(self, fn, args, st, parent, site, tag=None, span=None):
        """Abstractly execute a call of fn; returns [(state, return term)]."""
        if parent is None:
            fid = self.fid(('unit', fn.id, tag))
            fr = Frame(fn, fid, 0, (fn.id,), fid)
        else:
            fid = self.fid((parent.fid, fn.id, site))
            fr = Frame(fn, fid, parent.depth + 1, parent.chain + (fn.id,), parent.unit, parent, span)
        self.stats['fns'].add(fn.id)
        for i, a in enumerate(args):
            st.cells[('L', fid, i + 1)] = a
        outs = self.region(fr, [(0, st)], None)[1]
        return outs, fr

    def region(self, fr, start, loop):
        """Execute from the given (block, state) pairs. Within `loop`, stop at its head and outside of it.
        Returns (backs, returns, exits)."""
        cfg = fr.fn.cfg()
        backs, rets, exits = [], [], []
        work = list(start)
        first = True
        while work:
            b, st = work.pop()
            if loop is not None:
                if b == loop.head and not first:
                    backs.append(st)
                    continue
                if b not in loop.body:
                    exits.append((b, st))
                    continue
            lp = cfg.loops.get(b)
            if lp is not None and not (loop is lp and first):
                r, ex = self.do_loop(fr, lp, st)
                rets.extend(r)
                work.extend(ex)
                first = False
                continue
            first = False
            for nb, ns in self.block(fr, b, st, rets):
                work.append((nb, ns))
        return backs, rets, exits

    def block(self, fr, b, st, rets):
        """Execute block b; yields successor (block, state)."""
        self.tick()
        stmts, t, span = fr.fn.blocks[b]
        for s in stmts:
            k = s[0]
            if k == '=':
                v = self.rvalue(st, fr, s[2], s[3])
                self.write(st, fr, s[1], v)
            elif k == 'dead':
                st.cells.pop(('L', fr.fid, s[1]), None)
            elif k == 'sd':
                pl = self.place(st, fr, s[1])
                ty = pl[3]
                T = self.T[ty]
                cur = self.load(st, pl[1], pl[2]) if pl[0] == 'cell' else pl[1]
                n = len(T['vars'][s[2]][1])
                self.store(st, pl[1], pl[2], Adt(T['adt'], s[2], [Fld(cur, s[2], j) for j in range(n)]))
            elif k == 'copy_nonoverlapping':
                raise Unsupported('copy_nonoverlapping')
        k = t[0]
        if k == 'goto':
            return [(t[1], st)]
        if k == 'ret':
            self.stats['paths'] += 1
            rets.append((st, self.cell(st, ('L', fr.fid, 0))))
            return []
        if k == 'switch':
            return self.switch(fr, t, st)
        if k == 'drop':
            self.drop(fr, t, st)
            return [(t[2], st)]
        if k == 'assert':
            return self.do_assert(fr, t, st, span, b)
        if k == 'call':
            out = []
            for ns, v in self.call(fr, t, st, span, b):
                if t[5] is None:
                    continue
                self.write(ns, fr, t[4], v)
                out.append((t[5], ns))
            return out
        if k == 'unreachable' or k == 'resume':
            return []
        raise Unsupported('terminator ' + k)

    def drop(self, fr, t, st):
        if not st.bor:
            return
        try:
            v = self.read(st, fr, t[1])
        except Unsupported:
            return
        for x in [v] + list(closure(v)):
            if x.op == 'app' and x.args[0] in ('Ref', 'RefMut') and x in st.bor:
                del st.bor[x]

    def do_assert(self, fr, t, st, span, b):
        c = self.operand(st, fr, t[1])
        exp, kind, ops = t[2], t[3], t[4]
        self.stats['asserts'] += 1
        if kind == 'other':
            return [(t[5], st)]
        r = self.decide(st, c)
        if r is not None and r == exp:
            self.emit('assert_ok', st, fr, what=kind, span=span, cond=c)
            return [(t[5], st)]
        vals = [self.operand(st, fr, o) for o in ops]
        ok = r is None and self.safe_assert(st, fr, kind, c, vals, ops)
        if not ok:
            self.emit('panic', st, fr, what='assert:' + kind, span=span, cond=c, vals=vals, block=b)
        else:
            self.emit('assert_ok', st, fr, what=kind, span=span, cond=c)
        if r is not None and r != exp:
            return []
        self.assume(st, c, exp)
        if kind == 'overflow' and c.op == 'app' and c.args[0] == 'ovf' and c.args[1].args[0] == 'Sub':
            # the subtraction succeeded
            self.assume(st, Le(c.args[3], c.args[2]), True)
        return [(t[5], st)]

    def safe_assert(self, st, fr, kind, c, vals, ops):
        if kind == 'overflow' and c.op == 'app' and c.args[0] == 'ovf':
            op, a, b, tn = c.args[1].args[0], c.args[2], c.args[3], c.args[4].args[0]
            T = None
            for t in self.T:
                if t['n'] == tn and t.get('k') in ('int', 'uint'):
                    T = t
            if T is None:
                return False
            lo, hi = self.ty_range(T)
            la, ha = self.bounds(st, a)
            lb, hb = self.bounds(st, b)
            uns = T['k'] == 'uint'
            if uns:
                la = 0 if la is None or la < 0 else la
                lb = 0 if lb is None or lb < 0 else lb
            if op == 'Sub':
                if uns:
                    return self.decide(st, Le(b, a)) is True or (la is not None and hb is not None and la >= hb)
                return None not in (la, ha, lb, hb) and la - hb >= lo and ha - lb <= hi
            if op == 'Add':
                if ha is not None and hb is not None and ha + hb <= hi and la is not None and lb is not None and la + lb >= lo:
                    return True
                # counters and lengths: a machine cannot count to 2^63 by ones
                if uns and T['bits'] >= 64 and self.small(a) and self.small(b):
                    return True
                return False
            if op == 'Mul':
                return None not in (ha, hb) and uns and ha * hb <= hi
        if kind == 'bounds':
            return self.decide(st, Lt(vals[1], vals[0])) is True
        if kind in ('div0', 'rem0'):
            l, h = self.bounds(st, vals[-1])
            return l is not None and l > 0
        return False

    def small(self, t):
        """Values bounded by the amount of memory or input (lengths, positions, depths) or small constants."""
        if t.op == 'int':
            return 0 <= t.args[0] < 2 ** 32
        b, k = split_add(t)
        if k and b is not None:
            return abs(k) < 2 ** 32 and self.small(b)
        if t.op == 'app':
            if t.args[0] in ('len', 'line', 'col', 'seqlen', 'strlen', 'blen'):
                return True
            if t.args[0] in ('add', 'sub'):
                return self.small(t.args[1]) and self.small(t.args[2])
        if t.op in ('phi', 'old'):
            return True
        if t.op == 'sym':
            return str(t.args[0]).startswith('u:')
        return False

    def switch(self, fr, t, st):
        v = self.operand(st, fr, t[1])
        brs, other = t[2], t[3]
        if v.op in ('int', 'bool', 'char'):
            n = int(v.args[0])
            for k, b in brs:
                if k == n:
                    return [(b, st)]
            # negative discriminants etc.
            for k, b in brs:
                if n < 0 and (k - n) % (1 << 8) == 0 and k >= 128:
                    return [(b, st)]
            return [(other, st)]
        ty = self.op_ty(fr, t[1])
        tk = self.T[ty].get('k')
        out = []
        if v.op == 'discr':
            base, ety = v.args[0], v.args[1]
            vs = self.variants(ety)
            allv = self.get_variants(st, base)
            if allv is None:
                allv = frozenset(range(len(vs)))
            rest = set(allv)
            for k, b in brs:
                for i in list(rest):
                    if vs[i][2] == k or (k >= 2 ** 63 and vs[i][2] == k - 2 ** 128) or vs[i][2] % (1 << 64) == k % (1 << 64):
                        rest.discard(i)
                        s2 = st.copy()
                        if self.assume_variant(s2, base, frozenset([i])):
                            out.append((b, s2))
            if rest:
                if self.assume_variant(st, base, frozenset(rest)):
                    out.append((other, st))
            return out
        if tk == 'bool':
            r = self.decide(st, v)
            fb = other
            tb = other
            for k, b in brs:
                if k == 0:
                    fb = b
                else:
                    tb = b
            if r is not None:
                return [(tb if r else fb, st)]
            s2 = st.copy()
            if self.assume(s2, v, True):
                out.append((tb, s2))
            if self.assume(st, v, False):
                out.append((fb, st))
            return out
        if tk == 'char' or (v.op == 'app' and v.args[0] == 'ord'):
            ch = v.args[1] if v.op == 'app' and v.args[0] == 'ord' else v
            for k, b in brs:
                s2 = st.copy()
                if self.assume(s2, Eq(ch, Char(k)), True):
                    out.append((b, s2))
                if not self.assume(st, Eq(ch, Char(k)), False):
                    return out
            out.append((other, st))
            return out
        for k, b in brs:
            if tk == 'int':
                bits = self.T[ty]['bits']
                if k >= 2 ** (bits - 1):
                    k -= 2 ** bits if k < 2 ** bits else 2 ** 128
            s2 = st.copy()
            c = Eq(v, Int(k))
            if self.assume(s2, c, True):
                out.append((b, s2))
            if not self.assume(st, c, False):
                return out
        out.append((other, st))
        return out

    # -- calls ---------------------------------------------------------------------------------------
    def call(self, fr, t, st, span, b):
        """Returns [(state, value)]."""
        self.stats['calls'] += 1
        callee = t[1]
        inst = callee.get('inst')
        args = [self.operand(st, fr, o) for o in t[3]]
        dty = self.place_ty(fr, t[4])
        site = (fr.fid, b)
        if inst is None:
            f = self.operand(st, fr, t[2]) if callee.get('def') is None else None
            return self.call_value(fr, f, args, st, span, site, dty)
        fn = self.P.fns[inst]
        if fn.kind == 'Closure' or fn.name.endswith('}') and '{closure' in fn.name:
            # calls through the Fn traits pass the arguments as one tuple, closure bodies take them apart
            if len(args) == 2 and args[1].op == 'tup' and fn.argc == 1 + len(args[1].args) \
                    and CALL_TRAIT.search(callee.get('def') or ''):
                args = [args[0]] + list(args[1].args)
        return self.call_fn(fr, fn, args, st, span, site, dty, t)

    def call_value(self, fr, f, args, st, span, site, dty):
        """Call of a function value (closure, fn item, fn pointer)."""
        if f is not None and f.op in ('ref', 'pref'):
            f = self.load_ref(st, f)
        if f is not None and f.op == 'fn' and f.args[0] is not None:
            return self.call_fn(fr, self.P.fns[f.args[0]], args, st, span, site, dty, None)
        self.emit('unknown_call', st, fr, span=span, callee=f)
        return self.opaque(fr, 'fnvalue', [f] + args if f is not None else args, st, span, site, dty, None)

    def call_closure(self, fr, clo, args, st, span, site, dty=None):
        """Call closure/function term `clo` (by value or reference) with the argument list."""
        holder = None
        c = clo
        while c.op in ('ref', 'pref'):
            holder = c
            c = self.load_ref(st, c)
        if c.op == 'fn' and c.args[0] is not None:
            return self.call_fn(fr, self.P.fns[c.args[0]], args, st, span, site, dty, None)
        if c.op == 'clo':
            T = self.T[c.args[0]]
            inst = T.get('inst')
            fn = self.P.fns.get(inst) if inst is not None else None
            if fn is not None and fn.dumped:
                t1 = self.T[fn.locals[1]] if fn.argc >= 1 else {}
                if t1.get('k') == 'ref':
                    if holder is None:
                        cell = ('C', self.fid((fr.fid, 'clo', site)))
                        st.cells[cell] = c
                        holder = Ref(cell)
                    a0 = holder
                else:
                    a0 = c
                if fn.argc == 2 and len(args) != 1 or (fn.argc == 2 and fn.spread):
                    args = [Tup(args)]
                return self.call_fn(fr, fn, [a0] + list(args), st, span, site, dty, None)
        return self.opaque(fr, 'closure', [c] + list(args), st, span, site, dty, None)

    def call_fn(self, fr, fn, args, st, span, site, dty, t):
        m = self.models.lookup(fn) if self.models is not None else None
        if m is not None:
            r = m(self, Call(fr, fn, args, st, span, site, dty, t))
            if r is not None:
                return r
        if fn.dumped and fn.kind != 'Shim' or (fn.dumped and fn.kind == 'Shim' and 'drop' not in fn.name):
            hub = self.hubs.get(fn.id)
            if hub is not None:
                return hub(self, Call(fr, fn, args, st, span, site, dty, t))
            if fn.id not in fr.chain and fr.depth < self.max_depth:
                return self.inline(fr, fn, args, st, span, site)
            self.stats['opaque'].add(fn.id)
            self.emit('rec_call', st, fr, fn=fn, args=args, span=span)
            return self.opaque(fr, fn.name, args, st, span, site, dty, fn)
        return self.opaque(fr, fn.key, args, st, span, site, dty, fn)

    def inline(self, fr, fn, args, st, span, site):
        self.stats['inlined'].add(fn.id)
        if fn.argc != len(args):
            if fn.spread is not None or (len(args) == 2 and args[1].op == 'tup'):
                # closure-call ABI: the last argument is a tuple of the real arguments
                tup = args[-1]
                n = fn.argc - (len(args) - 1)
                args = list(args[:-1]) + [Fld(tup, -1, i) for i in range(n)]
        outs, nf = self.run_fn(fn, args, st, fr, site, span=span)
        if fn.local and self.hooks and not self.quiet:
            for s, v in outs:
                if v.op == 'adt' and v.args[1] == 0 and v.args[0].endswith('Result'):
                    self.emit('ret', s, nf, fn=fn, value=v)
        outs = self.join_exits(nf, outs)
        pre = nf.fid
        for s, v in outs:
            dead = [c for c in s.cells if c[0] == 'L' and c[1] == pre]
            for c in dead:
                del s.cells[c]
        return outs

    def opaque(self, fr, name, args, st, span, site, dty, fn, tag=None):
        """Unknown function: result and everything reachable through &mut are fresh functions of the inputs."""
        deep = [self.deep(st, a) for a in args]
        mut = []
        for i, a in enumerate(args):
            if a.op == 'ref' and fn is not None and fn.__dict__.get('argtys') and False:
                pass
            if a.op == 'ref' and self.arg_mut(fn, i, t=None):
                mut.append(i)
        if fn is not None and not fn.local:
            self.stats['unknown'].add(fn.name)
        r = App('call', Str(name), *deep) if tag is None else App('call', Str(name), tag, *deep)
        for i in mut:
            self.store_ref(st, args[i], App('out', Int(i), r))
        self.emit('opaque', st, fr, name=name, fn=fn, args=args, deep=deep, span=span, ret=r)
        if dty is not None and self.T[dty].get('k') == 'never':
            return []
        return [(st, self.wrap(r, dty))]

    def wrap(self, r, dty):
        """A term for a value of type dty: references become pointers to immutable content."""
        if dty is not None:
            T = self.T[dty]
            if T.get('k') == 'ref' and not T.get('mut'):
                return Pref(r)
            if T.get('k') == 'tuple' and not T.get('es'):
                return UNIT
        return r

    def arg_mut(self, fn, i, t):
        if fn is None:
            return True
        m = fn.muts
        if m is not None and i < len(m):
            return m[i] == 1
        return True

    def release(self, st, t):
        """The value t is dropped: dynamic borrows held in it end."""
        if not st.bor:
            return
        for x in [t] + list(closure(t)):
            if x.op == 'app' and x.args[0] in ('Ref', 'RefMut') and x in st.bor:
                del st.bor[x]

    def local_eq(self, fn):
        """For PartialEq::eq of a standard container: the PartialEq::eq of a local element type, if any."""
        m = self._leq.get(fn.id)
        if m is None:
            m = [None]
            for f in self.P.locals:
                if f.canon[0] == 'T' and f.canon[1] == 'PartialEq' and f.canon[2] == 'eq' \
                        and f.canon[3] != fn.canon[3] and re.search(r'(^|\W)%s(\W|$)' % re.escape(f.canon[3]), fn.canon[3]) \
                        and split_generics(f.canon[4]) == f.canon[4] or (
                            f.canon[0] == 'T' and f.canon[1] == 'PartialEq' and f.canon[2] == 'eq'
                            and re.search(r'(^|\W)%s(\W|$)' % re.escape(f.canon[3]), fn.canon[3])
                            and f.canon[4].endswith('PartialEq<%s>' % f.canon[3])):
                    m = [f]
            self._leq[fn.id] = m
        return m[0]

    def ghost_set(self, st, key, elem):
        st.gh[key] = st.gh.get(key, frozenset()) | {elem}

    def flag_key_frame(self, fr, st):
        return self.flag_key(fr, None, st)

    # -- joins ---------------------------------------------------------------------------------------
    def const_key(self, t, depth=0):
        if t.op in ('bool', 'int', 'char'):
            return (t.op, t.args[0])
        if t.op == 'str':
            return ('str', t.args[0])
        if t.op == 'adt':
            if depth >= 3:
                return ('adt', t.args[0], t.args[1])
            return ('adt', t.args[0], t.args[1]) + tuple(self.const_key(x, depth + 1) for x in t.args[2:])
        if t.op == 'tup':
            return ('tup',) + tuple(self.const_key(x, depth + 1) for x in t.args)
        return '*'

    def top_key(self, st, t):
        if t.op == 'bool':
            return ('b', t.args[0])
        if t.op == 'adt':
            return ('a', t.args[1]) + ((self.top_key(st, t.args[2]),) if len(t.args) == 3 and t.args[1] == 0 and t.args[0].endswith('Result') else ())
        v = self.get_variants(st, t)
        if v is not None:
            return ('v', v)
        return '*'

    def is_err(self, st, t):
        return t.op == 'adt' and t.args[0].endswith('Result') and t.args[1] == 1

    def join_exits(self, fr, outs):
        if len(outs) <= 1 or (self.precise and len(outs) <= 100):
            return outs
        res = []
        errs = [o for o in outs if self.is_err(o[0], o[1]) and self.join_err(fr, o)]
        rest = [o for o in outs if not (self.is_err(o[0], o[1]) and self.join_err(fr, o))]
        if len(errs) > 1:
            errs = [self.join_group(fr, errs, 'err')]
        if len(rest) > self.exit_limit:
            groups = {}
            for o in rest:
                groups.setdefault(self.const_key(o[1]), []).append(o)
            if len(groups) > 4 * self.exit_limit:
                groups = {}
                for o in rest:
                    groups.setdefault(self.top_key(o[0], o[1]), []).append(o)
            rest = []
            for k, g in groups.items():
                rest.append(g[0] if len(g) == 1 else self.join_group(fr, g, repr(k)))
        else:
            # drop states that differ in nothing observable
            rest = self.dedup(fr, rest)
        return rest + errs

    join_all_errs = True
    serial = 0
    precise = False          # keep every exit of an inlined function apart

    def join_err(self, fr, o):
        return self.join_all_errs

    def dedup(self, fr, outs):
        """Merge exits whose returned value and heap are identical (facts are intersected)."""
        groups = {}
        for s, v in outs:
            k = (v, tuple(sorted(((c, x) for c, x in s.cells.items() if not (c[0] == 'L' and c[1] == fr.fid)),
                                 key=lambda z: repr(z[0]))), tuple(sorted((repr(k), repr(x)) for k, x in s.gh.items() if k not in ('lts', 'streq', 'diffs'))))
            groups.setdefault(k, []).append((s, v))
        if len(groups) == len(outs):
            return outs
        res = []
        for g in groups.values():
            if len(g) == 1:
                res.append(g[0])
            else:
                # only merge when the callee is a pure predicate-like helper: facts on characters joined by union
                res.append(self.join_group(fr, g, 'same'))
        return res

    def join_group(self, fr, outs, label):
        self.stats['joins'] += 1
        s, v = outs[0]
        s = s.copy()
        rc = ('L', fr.fid, 0)
        for c in [c for c in s.cells if c[0] == 'L' and c[1] == fr.fid and c != rc]:
            del s.cells[c]
        s.cells[rc] = v
        for s2, v2 in outs[1:]:
            s2 = s2.copy()
            s2.cells[rc] = v2
            s = self.join(s, s2, ('exit', fr.fid, label))
        v = s.cells[rc]
        return s, v

    def absent(self, st, t):
        """The content of an option that is empty here."""
        return t.op == 'fld' and t.args[1] == 1 and self.get_variants(st, t.args[0]) == frozenset([0])

    def join(self, A, B, site, live=None):
        """Join of two states. Differing values become phi terms named by their position."""
        J = State()
        pairs = {}

        def jt(a, b, pos):
            if a is b:
                return a
            if a.op == b.op == 'adt' and a.args[0] == b.args[0] and a.args[1] == b.args[1]:
                return Adt(a.args[0], a.args[1], [jt(x, y, pos + (i,)) for i, (x, y) in enumerate(zip(a.args[2:], b.args[2:]))])
            if a.op == b.op == 'tup' and len(a.args) == len(b.args):
                return Tup([jt(x, y, pos + (i,)) for i, (x, y) in enumerate(zip(a.args, b.args))])
            if a.op == b.op == 'clo' and a.args[0] == b.args[0]:
                return mk('clo', a.args[0], *[jt(x, y, pos + (i,)) for i, (x, y) in enumerate(zip(a.args[1:], b.args[1:]))])
            if a.op == b.op == 'pref':
                return Pref(jt(a.args[0], b.args[0], pos + ('*',)))
            if a.op == b.op == 'app' and a.args[0] == b.args[0] and a.args[0] in STRUCT and len(a.args) == len(b.args) and (
                    all(x is y or (type(x) is Term and type(y) is Term) for x, y in zip(a.args, b.args))):
                return rebuild('app', [x if x is y else jt(x, y, pos + (i,)) for i, (x, y) in enumerate(zip(a.args, b.args))])
            p = pairs.get((a, b))
            if p is None:
                p = mk('phi', site, pos)
                # the name may already be in use for another value at this site
                pairs[(a, b)] = p
            return p

        for c, a in A.cells.items():
            b = B.cells.get(c)
            if b is None:
                if c[0] != 'H':
                    continue
                b = self.init_cell(c)
            J.cells[c] = jt(a, b, (c,))
        for c, b in B.cells.items():
            if c not in A.cells and c[0] == 'H':
                J.cells[c] = jt(self.init_cell(c), b, (c,))
        mA = {}
        mB = {}
        for (a, b), p in pairs.items():
            mA.setdefault(p, a)
            mB[p] = b
        # facts: generalise over the new phis
        fa, fb = A.facts, B.facts
        rev = {}
        for (a, b), p in pairs.items():
            if a is not p:
                rev.setdefault(a, p)
        memo = {}
        mb = {}
        phis = set(mA)
        for t, c in fa.items():
            cands = []
            if not (phis and not closure(t).isdisjoint(phis)) and t not in phis:
                cands.append(t)
                if rev:
                    t2 = subst(t, rev, memo)
                    if t2 is not t:
                        cands.append(t2)
            else:
                cands.append(t)      # mentions phis of this site (A is the loop head itself)
            for tc in cands:
                tb = subst(tc, mB, mb) if (tc in phis or not closure(tc).isdisjoint(phis)) else tc
                cb = self.fact_of(B, tb)
                if cb is None:
                    if c[0] == 'M' and self.absent(B, tb):
                        J.facts[tc] = c
                    continue
                j = join_c(c, cb)
                if j is not None:
                    J.facts[tc] = j
        # facts of B on the content of an option that is empty in A
        rb = {}
        for (a, b), p in pairs.items():
            rb.setdefault(b, p)
        for t, c in B.facts.items():
            if c[0] == 'M' and t.op == 'fld' and t.args[1] == 1:
                tj = subst(t, rb) if rb else t
                for x in {t, tj}:
                    if x not in J.facts and self.absent(A, subst(x, mA)) and (x is tj or closure(x).isdisjoint(rb)):
                        J.facts[x] = c
        # facts of B that hold trivially in A (A's value is a constant / constructor)
        for (a, b), p in pairs.items():
            ca = self.fact_of(A, a) if a is not p else fa.get(p)
            cb = self.fact_of(B, b)
            if ca is not None and cb is not None:
                j = join_c(ca, cb)
                if j is not None and p not in J.facts:
                    J.facts[p] = j
        # universally quantified facts over iterated sequences
        self.join_foralls(A, B, J, pairs, mA, mB)
        # ghost facts
        self.join_ghost(A, B, J, pairs, mA, mB)
        for r in A.bor:
            if r in B.bor:
                J.bor[r] = A.bor[r]
        for r in list(A.bor) + list(B.bor):
            J.bor.setdefault(r, 1)
        return J

    def fact_of(self, st, t):
        c = st.facts.get(t)
        if c is not None:
            return c
        if t.op == 'adt':
            return ('V', frozenset([t.args[1]]))
        if t.op == 'int':
            return ('I', t.args[0], t.args[0])
        if t.op == 'char':
            return ('M', self.get_mask(st, t))
        if t.op == 'bool':
            return ('B', t.args[0])
        if t.op == 'app':
            n = t.args[0]
            if n == 'all':
                r = self.forall_val(st, t.args[1], t.args[2], t.args[3])
                return None if r is None else (('B', r) if r != 'any' else 'any')
            if is_bool_app(t):
                d = self.decide(st, t)
                return None if d is None else ('B', d)
            lo, hi = self.bounds(st, t)
            if lo is not None or hi is not None:
                return ('I', lo, hi)
        return None

    # -- quantified facts ----------------------------------------------------------------------------
    ELEM = mk('sym', 'ELEM')

    def forall_val(self, st, seq, pos, tau):
        """Value v such that tau[e]==v for all elements e of seq before pos; 'any' when there are none."""
        if pos.op == 'int' and pos.args[0] == 0:
            return 'any'
        c = st.facts.get(App('all', seq, pos, tau))
        if c is not None:
            return c[1]
        b, k = split_add(pos)
        if k >= 1:
            p1 = Add(pos, Int(-1))
            e = self.at(seq, p1)
            t = subst(tau, {self.ELEM: e})
            v = self.decide(st, t)
            if v is None:
                return None
            r = self.forall_val(st, seq, p1, tau)
            if r == 'any' or r == v:
                return v
        return None

    def join_foralls(self, A, B, J, pairs, mA, mB):
        for (a, b), p in pairs.items():
            # position phi: p in head, b = add(old p, 1) on the back edge / 0 on entry
            for (S, v) in ((B, b), (A, a)):
                bb, k = split_add(v)
                if k != 1:
                    continue
                if bb is None:
                    bb = ZERO
                for t, c in list(S.facts.items()):
                    if c[0] != 'B':
                        continue
                    for s in [t] + list(closure(t)):
                        if s.op == 'app' and s.args[0] == 'at' and s.args[2] is bb:
                            tau = subst(t, {s: self.ELEM})
                            if contains(tau, bb) or any(contains(tau, q) or tau is q for q in mA):
                                continue
                            key = App('all', s.args[1], p, tau)
                            if key in J.facts:
                                continue
                            va = self.forall_val(A, subst(s.args[1], mA), a if a is not p else p, tau)
                            vb = self.forall_val(B, subst(s.args[1], mB), b, tau)
                            if va is None or vb is None:
                                continue
                            if va == 'any':
                                va = vb
                            if vb == 'any':
                                vb = va
                            if va == vb and va != 'any':
                                J.facts[key] = ('B', va)
        # keep those already established at the head
        for t, c in A.facts.items():
            if t.op == 'app' and t.args[0] == 'all' and t not in J.facts:
                tb = subst(t, mB)
                vb = self.forall_val(B, tb.args[1], tb.args[2], tb.args[3]) if tb.op == 'app' and tb.args[0] == 'all' else None
                if vb == 'any' or vb == c[1]:
                    J.facts[t] = c
        for t, c in B.facts.items():
            if t.op == 'app' and t.args[0] == 'all' and t not in J.facts:
                # entry state has position 0
                for (a, b), p in pairs.items():
                    if t.args[2] is b:
                        t2 = App('all', t.args[1], p, t.args[3])
                        va = self.forall_val(A, t.args[1], a, t.args[3])
                        if (va == 'any' or va == c[1]) and t2 not in J.facts:
                            J.facts[t2] = c

    # -- stream progress -----------------------------------------------------------------------------
    def ancestors(self, st, v, depth=0):
        """{earlier version: strictly consumed?} for a stream version term."""
        r = {v: False}
        cur = v
        strict = False
        n = 0
        while True:
            n += 1
            if cur.op == 'app' and cur.args[0] == 'next':
                u = cur.args[1]
                pv = self.get_variants(st, App('peek', u))
                if pv == frozenset([1]) or ('consumed', u) in st.gh:
                    strict = True
                cur = u
            elif cur.op == 'app' and cur.args[0] == 'after':
                u, res = cur.args[1], cur.args[2]
                rv = self.get_variants(st, res)
                if rv == frozenset([0]) and cur.args[3].args[0]:
                    strict = True
                cur = u
            else:
                a = st.anc.get(cur)
                if a:
                    for x, s in a.items():
                        r[x] = r.get(x, False) or strict or s or self.differ(st, cur, x)
                        # continue through known terms
                break
            r[cur] = r.get(cur, False) or strict
        # transitive closure through anc of anything reached
        ch = True
        while ch:
            ch = False
            for x, s in list(r.items()):
                a = st.anc.get(x)
                if a:
                    for y, s2 in a.items():
                        n2 = s or s2 or r.get(y, False) or self.differ(st, x, y)
                        if y not in r or (n2 and not r[y]):
                            r[y] = n2
                            ch = True
        return r

    def differ(self, st, later, earlier):
        """A place at or after an earlier one lies strictly after it: a character follows the earlier place that
        does not follow the later one."""
        a, b = App('peek', earlier), App('peek', later)
        if self.get_variants(st, a) != frozenset([1]):
            return False
        vb = self.get_variants(st, b)
        if vb == frozenset([0]):
            return True
        return not self.get_mask(st, Fld(a, 1, 0)) & self.get_mask(st, Fld(b, 1, 0))

    @staticmethod
    def is_version(t):
        return (t.op == 'app' and t.args[0] in ('next', 'after', 'stream0')) or t.op == 'sym' and str(t.args[0]).startswith('stream:')

    def join_ghost(self, A, B, J, pairs, mA, mB):
        # stream versions
        for (a, b), p in pairs.items():
            av = a is p and p in A.anc
            if not (self.is_version(a) or a in A.anc or self.is_version(b) or b in B.anc or av):
                continue
            ra = self.ancestors(A, a)
            rb = self.ancestors(B, b)
            if a is p:
                ra = dict(A.anc.get(p, {}))
            com = {}
            for x, s in ra.items():
                if x in rb and x is not p:
                    com[x] = s and rb[x]
            J.anc[p] = com
        for x, a in A.anc.items():
            if x in B.anc and x not in J.anc:
                b = B.anc[x]
                com = {y: s and b[y] for y, s in a.items() if y in b}
                if com:
                    J.anc[x] = com
        # length differences between containers
        cont = []
        for (a, b), p in pairs.items():
            la, lb = self.mklen_if(A, a), self.mklen_if(B, b)
            if la is not None and lb is not None:
                cont.append((p, la, lb))
        diffs = set()
        for d in A.gh.get('diffs', ()):
            a, b, k = d
            x, y = subst(a, mB), subst(b, mB)
            if x.op == 'app' and x.args[0] == 'len':
                x = self.mklen(B, x.args[1])
            if y.op == 'app' and y.args[0] == 'len':
                y = self.mklen(B, y.args[1])
            if self.len_diff(B, x, y) == k:
                diffs.add(d)
        for i in range(len(cont)):
            for j in range(i + 1, len(cont)):
                p, la, lb = cont[i]
                q, ma, mb = cont[j]
                if p in mA and mA[p] is p:
                    continue
                k = self.len_diff(A, la, ma)
                if k is not None and k == self.len_diff(B, lb, mb):
                    diffs.add((App('len', p), App('len', q), k))
        if diffs:
            J.gh['diffs'] = frozenset(diffs)
        lts = set()
        for (x, y, k) in A.gh.get('lts', ()):
            if (x, y, k) in B.gh.get('lts', ()):
                if not any(contains(x, p) or contains(y, p) for p in mA):
                    lts.add((x, y, k))
                    continue
            x2, y2 = subst(x, mB), subst(y, mB)
            if self.decide(B, Lt(x2, Add(y2, Int(k)))) is True:
                lts.add((x, y, k))
        if lts:
            J.gh['lts'] = frozenset(lts)
        sa, sb = A.gh.get('streq', {}), B.gh.get('streq', {})
        se = {t: s for t, s in sa.items() if sb.get(t) is s}
        if se:
            J.gh['streq'] = se
        for k, v in A.gh.items():
            if k in ('diffs', 'lts', 'streq'):
                continue
            if B.gh.get(k) == v:
                J.gh[k] = v
            else:
                m = self.ghost_join(k, v, B.gh.get(k))
                if m is not None:
                    J.gh[k] = m
        for k, v in B.gh.items():
            if k not in A.gh and k not in ('diffs', 'lts', 'streq'):
                m = self.ghost_join(k, None, v)
                if m is not None:
                    J.gh[k] = m

    def ghost_join(self, k, a, b):
        if isinstance(k, str) and k.startswith('may:'):      # sets that grow at joins
            return (a or frozenset()) | (b or frozenset())
        if isinstance(k, str) and k.startswith('must:'):
            r = (a or frozenset()) & (b or frozenset())
            return r or None
        return None

    def mklen_if(self, st, t):
        if t.op == 'app' and t.args[0] in ('push', 'pushf', 'popf', 'popb', 'seq0', 'seqlit'):
            return self.mklen(st, t)
        if t.op == 'phi' or t.op == 'old':
            return App('len', t)
        return None

    def len_diff(self, st, x, y):
        d = Sub(x, y)
        if d.op == 'int':
            return d.args[0]
        bx, kx = split_add(x)
        by, ky = split_add(y)
        for (a, b, k) in st.gh.get('diffs', ()):
            if a is bx and b is by:
                return k + kx - ky
            if a is by and b is bx:
                return -k + kx - ky
        return None

    # -- loops ---------------------------------------------------------------------------------------
    def flag_key(self, fr, lp, st):
        """Partition key at a loop head: constant flags of this frame."""
        k = []
        for i, ty in enumerate(fr.fn.locals):
            t = st.cells.get(('L', fr.fid, i))
            if t is None:
                continue
            tk = self.T[ty]
            if tk.get('k') == 'bool' and t.op == 'bool':
                k.append((i, t.args[0]))
            elif tk.get('k') == 'adt' and tk['kind'] == 'enum' and t.op == 'adt' and (
                    len(t.args) == 2 and (self.fieldless(ty) or tk['adt'].endswith('::Option'))):
                k.append((i, t.args[1]))
            elif t.op == 'adt' and tk.get('k') == 'adt' and tk['adt'].endswith('::Option'):
                k.append((i, t.args[1]))
        return tuple(k)

    def fieldless(self, ty):
        r = self.enum_unit.get(ty)
        if r is None:
            r = all(not v[1] for v in self.T[ty]['vars'])
            self.enum_unit[ty] = r
        return r

    def rename_old(self, st, site):
        """Rename the phi terms of a loop head to 'old' before joining a back edge."""
        m = {}
        def scan(t):
            for s in closure(t):
                if s.op == 'phi' and s.args[0] == site:
                    m[s] = mk('old', *s.args)
            if t.op == 'phi' and t.args[0] == site:
                m[t] = mk('old', *t.args)
        for t in st.cells.values():
            scan(t)
        for t in st.facts:
            scan(t)
        for t in st.anc:
            scan(t)
        for c in st.cells:
            if c[0] == 'H':
                scan(c[1])
        if not m:
            return st
        memo = {}
        n = State()
        # drop anything already called old: it is two iterations away
        olds = set(m.values())
        def stale(t):
            return t in olds or not olds.isdisjoint(closure(t))
        for c, t in st.cells.items():
            if c[0] == 'H':
                c = ('H', subst(c[1], m, memo))
            if stale(t):
                t = mk('stale', site, str(c))
            n.cells[c] = subst(t, m, memo)
        for t, c in st.facts.items():
            if not stale(t):
                n.facts[subst(t, m, memo)] = c
        for t, d in st.anc.items():
            if stale(t):
                continue
            n.anc[subst(t, m, memo)] = {subst(x, m, memo): s for x, s in d.items() if not stale(x)}
        for k, v in st.gh.items():
            if k == 'diffs':
                v = frozenset((subst(a, m, memo), subst(b, m, memo), x) for a, b, x in v if not stale(a) and not stale(b))
            elif k == 'lts':
                v = frozenset((subst(a, m, memo), subst(b, m, memo), x) for a, b, x in v if not stale(a) and not stale(b))
            elif k == 'streq':
                v = {subst(a, m, memo): b for a, b in v.items() if not stale(a)}
            elif isinstance(k, tuple) and len(k) == 2 and type(k[1]) is Term:
                if stale(k[1]):
                    continue
                k = (k[0], subst(k[1], m, memo))
            elif isinstance(k, str) and k.startswith(('may:', 'must:')):
                v = frozenset(self.subst_any(x, m, memo) for x in v)
            n.gh[k] = v
        n.bor = {subst(t, m, memo): x for t, x in st.bor.items()}
        return n

    def subst_any(self, x, m, memo):
        if type(x) is Term:
            return subst(x, m, memo)
        if type(x) is tuple:
            return tuple(self.subst_any(e, m, memo) for e in x)
        return x

    def prune_dead(self, fr, st, b):
        live = fr.fn.cfg().live_in(b)
        for c in [c for c in st.cells if c[0] == 'L' and c[1] == fr.fid and c[2] not in live and c[2] != 0]:
            del st.cells[c]

    def same_state(self, a, b):
        return a.cells == b.cells and a.facts == b.facts and a.anc == b.anc and a.gh == b.gh and a.bor == b.bor

    def fixpoint(self, key0, st0, site, body, keyf, prune):
        """Generic loop: body(state) -> (backs, exits). Returns the stable head states."""
        heads = {key0: st0}
        work = [key0]
        rounds = 0
        nj = {}
        self.quiet += 1
        try:
            while work:
                rounds += 1
                if rounds > 400:
                    raise Budget('loop does not stabilise')
                k = work.pop()
                h = heads[k].copy()
                backs, _ = body(h)
                for s in backs:
                    prune(s)
                    kb = keyf(s)
                    s = self.rename_old(s, site)
                    h0 = heads.get(kb)
                    if h0 is None:
                        # first arrival with this key: generalise against the entry state so that the
                        # values that change in the loop become phis
                        j = self.generalise(s, st0, site)
                        heads[kb] = j
                        work.append(kb)
                    else:
                        j = self.join(h0, s, site)
                        nj[kb] = nj.get(kb, 0) + 1
                        if nj[kb] > 1:
                            self.widen(h0, j)
                        if not self.same_state(j, h0):
                            heads[kb] = j
                            if kb not in work:
                                work.append(kb)
        finally:
            self.quiet -= 1
        return heads

    def widen(self, old, new):
        """Interval bounds that still move are dropped."""
        for t, c in list(new.facts.items()):
            if c[0] == 'I':
                o = old.facts.get(t)
                if o is None:
                    continue
                lo = c[1] if o[0] == 'I' and o[1] is not None and c[1] is not None and c[1] >= o[1] else None
                hi = c[2] if o[0] == 'I' and o[2] is not None and c[2] is not None and c[2] <= o[2] else None
                if lo is None and hi is None:
                    del new.facts[t]
                else:
                    new.facts[t] = ('I', lo, hi)

    def generalise(self, st, st0, site):
        """A state at a loop head reached only by a back edge: name the stream positions in it after the head."""
        m = {}
        for c, t in st.cells.items():
            if t.op == 'old' and t.args[0] == site and t.args[1] == (c,):
                # the same value as in the iteration before
                m[t] = mk('phi', site, (c,))
            if t.op != 'adt':
                continue
            t0 = st0.cells.get(c)
            for i, x in enumerate(t.args[2:]):
                if type(x) is Term and (self.is_version(x) or x in st.anc) and not (t0 is not None and t0.op == 'adt' and
                                                                                    len(t0.args) == len(t.args) and t0.args[2 + i] is x):
                    if x not in m and x.op == 'phi':
                        # what goes with the position (line, column) keeps the same name
                        for j, y in enumerate(t.args[2:]):
                            if j != i and type(y) is Term and y.op == 'phi' and y.args[0] == x.args[0] and y.args[1][:-1] == x.args[1][:-1]:
                                m.setdefault(y, mk('phi', site, (c, j)))
                    m.setdefault(x, mk('phi', site, (c, i)))
        if not m:
            return st
        memo = {}
        n = State()
        n.anc = {x: dict(d) for x, d in st.anc.items()}
        for x, p in m.items():
            if not (self.is_version(x) or x in st.anc):
                continue
            a = self.ancestors(st, x)
            n.anc[p] = {y: z for y, z in a.items() if y is not x}
        n.anc = {subst(t, m, memo): {subst(x, m, memo): z for x, z in d.items()} for t, d in n.anc.items() if t not in m}
        for c, t in st.cells.items():
            if c[0] == 'H':
                c = ('H', subst(c[1], m, memo))
            n.cells[c] = subst(t, m, memo)
        n.facts = {subst(t, m, memo): c for t, c in st.facts.items()}
        for k, v in st.gh.items():
            if k in ('diffs', 'lts'):
                v = frozenset((subst(a, m, memo), subst(b, m, memo), x) for a, b, x in v)
            elif k == 'streq':
                v = {subst(a, m, memo): b for a, b in v.items()}
            elif isinstance(k, tuple) and len(k) == 2 and type(k[1]) is Term:
                k = (k[0], subst(k[1], m, memo))
            elif isinstance(k, str) and k.startswith(('may:', 'must:')):
                v = frozenset(self.subst_any(x, m, memo) for x in v)
            n.gh[k] = v
        n.bor = {subst(t, m, memo): x for t, x in st.bor.items()}
        return n

    def do_loop(self, fr, lp, st):
        self.stats['loops'] += 1
        site = ('loop', fr.fid, lp.head)
        self.prune_dead(fr, st, lp.head)
        res = {'rets': [], 'exits': []}

        def body(s):
            b, r, e = self.region(fr, [(lp.head, s)], lp)
            res['rets'], res['exits'] = r, e
            return b, e
        entry = st.copy()
        heads = self.fixpoint(self.flag_key(fr, lp, st), st, site, body,
                              lambda s: self.flag_key(fr, lp, s), lambda s: self.prune_dead(fr, s, lp.head))
        rets, exits = [], []
        k0 = next(iter(heads))
        self.serial += 1
        serial = self.serial
        for k, h in heads.items():
            h0 = h.copy()
            if self.precise and not self.quiet:
                h.gh[('from', site)] = k
                h.gh['last'] = (serial, k)
            backs, _ = body(h)
            rets.extend(res['rets'])
            exits.extend(res['exits'])
            if not self.quiet:
                if k is k0:
                    self.emit('loop_entry', entry, fr, loop=lp, head=h0, site=site, serial=serial, key=k, span=fr.fn.blocks[lp.head][2])
                for s in backs:
                    c = s.copy()
                    self.prune_dead(fr, c, lp.head)
                    self.emit('backedge', s, fr, loop=lp, head=h0, site=site, serial=serial, key=k, to=self.flag_key(fr, lp, c),
                              span=fr.fn.blocks[lp.head][2])
                for b, s in res['exits']:
                    self.emit('loop_exit', s, fr, loop=lp, head=h0, site=site, serial=serial, key=k, block=b,
                              span=fr.fn.blocks[lp.head][2])
        return rets, exits


class Call:
    __slots__ = ('fr', 'fn', 'args', 'st', 'span', 'site', 'dty', 't')

    def __init__(self, fr, fn, args, st, span, site, dty, t):
        self.fr, self.fn, self.args, self.st, self.span, self.site, self.dty, self.t = fr, fn, args, st, span, site, dty, t
