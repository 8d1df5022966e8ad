"""The parser: character stream primitives, recursion hubs and their contracts."""
import itertools
from term import *
from engine import Engine, State, Call, Unsupported, join_c
from models import Models, Some, Ok, Err
import models
from prog import split_generics


def ty_walk(P, ty):
    """(field path, type) of all struct fields below ty, through Rc/RefCell/Arc/Box wrappers (not enums)."""
    T = P.T


class StreamInfo:
    """The character stream type, found by structure: the local type whose Iterator yields chars and that
    (behind shared pointers) holds a Peekable."""

    def __init__(self, P):
        self.P = P
        self.ok = False
        for f in P.locals:
            if f.canon[0] == 'T' and f.canon[1] == 'Iterator' and f.canon[2] == 'next':
                rt = P.T[f.locals[0]]
                if rt.get('k') == 'adt' and rt['adt'].endswith('Option') and P.T[rt['args'][0]].get('k') == 'char':
                    at = P.T[f.locals[1]]
                    if at.get('k') == 'ref':
                        self.next = f
                        self.ty = at['e']
                        self.ok = True
                        break
        if not self.ok:
            raise Unsupported('no character stream type found')
        self.adt = P.T[self.ty]['adt']
        # locate the inner struct that holds the Peekable
        self.inner = None
        self._find(self.ty, ())
        if self.inner is None:
            raise Unsupported('the character stream holds no Peekable')
        fs = P.T[self.inner]['vars'][0][1]
        self.fields = fs
        self.n = len(fs)
        self.i_stream = self.i_line = self.i_col = self.i_file = None
        for i, (n, t) in enumerate(fs):
            T = P.T[t]
            if T.get('k') == 'adt' and T['adt'].endswith('Peekable'):
                self.i_stream = i
            elif T.get('k') == 'uint' and ('line' in n or 'row' in n):
                self.i_line = i
            elif T.get('k') == 'uint' and ('col' in n):
                self.i_col = i
            elif T.get('k') == 'adt' and T['adt'].endswith('Option'):
                self.i_file = i
        us = [i for i, (n, t) in enumerate(fs) if P.T[t].get('k') == 'uint']
        if self.i_line is None and len(us) >= 2:
            self.i_line = [i for i in us if i != self.i_col][0]
        if self.i_col is None and len(us) >= 2:
            self.i_col = [i for i in us if i != self.i_line][0]

    def _find(self, ty, path):
        T = self.P.T[ty]
        if T.get('k') != 'adt' or len(path) > 6:
            return
        a = T['adt']
        if a.endswith(('::Rc', '::RefCell', '::Arc', '::Cell', '::Mutex', '::Box')):
            if T['args']:
                self._find(T['args'][0], path + (a.rsplit('::', 1)[-1],))
            return
        if T['kind'] != 'struct' or not T.get('local'):
            return
        for i, (n, t) in enumerate(T['vars'][0][1]):
            x = self.P.T[t]
            if x.get('k') == 'adt' and x['adt'].endswith('Peekable'):
                self.inner, self.path = ty, path
                return
        for i, (n, t) in enumerate(T['vars'][0][1]):
            self._find(t, path + (i,))

    def entry(self, st, tag='in'):
        """A stream value in an arbitrary state; returns (term, version symbol)."""
        v = Sym('stream:' + tag)
        fs = []
        for i, (n, t) in enumerate(self.fields):
            if i == self.i_stream:
                fs.append(v)
            elif i == self.i_line:
                fs.append(App('line', v))
            elif i == self.i_col:
                fs.append(App('col', v))
            elif i == self.i_file:
                fs.append(Sym('file:' + tag))
            else:
                fs.append(Sym('%s:%s' % (n, tag)))
        inner = Adt(self.P.T[self.inner]['adt'], 0, fs)
        return self._wrap(st, self.ty, self.path, inner, tag), v

    def _wrap(self, st, ty, path, inner, tag):
        if not path:
            return inner
        e, rest = path[0], path[1:]
        T = self.P.T[ty]
        if e in ('Rc', 'Arc'):
            x = self._wrap(st, T['args'][0], rest, inner, tag)
            if e == 'Arc':
                return App('arc', x)
            cell = ('RCin', tag)
            st.cells[cell] = x
            return Ref(cell)
        if e in ('RefCell', 'Cell', 'Mutex'):
            return self._wrap(st, T['args'][0], rest, inner, tag)
        if e == 'Box':
            return App('box', self._wrap(st, T['args'][0], rest, inner, tag))
        fs = []
        for i, (n, t) in enumerate(T['vars'][0][1]):
            fs.append(self._wrap(st, t, rest, inner, tag) if i == e else Sym('%s:%s' % (n, tag)))
        return Adt(T['adt'], 0, fs)

    def locate(self, E, st, t):
        """From a stream value (or references to it): (store function, inner struct term) or None."""
        n = 0
        ref = None
        while n < 12:
            n += 1
            if t.op in ('ref', 'pref'):
                ref = t
                t = E.load_ref(st, t)
                continue
            if t.op == 'adt' and t.args[0] == self.P.T[self.inner]['adt']:
                return ref, t
            if t.op == 'app' and t.args[0] in ('box',):
                if ref is None or ref.op != 'ref':
                    return None
                ref = Ref(ref.args[0], ref.args[1] + ('*b',))
                t = t.args[-1]
                continue
            if t.op == 'adt':
                # descend to the field that leads to the inner struct
                ty = None
                path = self.path
                cur = self.ty
                idx = None
                for e in path:
                    T = self.P.T[cur]
                    if isinstance(e, int):
                        if T['adt'] == t.args[0]:
                            idx = e
                            break
                        cur = T['vars'][0][1][e][1]
                    else:
                        cur = T['args'][0]
                if idx is None:
                    return None
                nf = len(t.args) - 2
                sub = t.args[2 + idx]
                if ref is not None and ref.op == 'ref':
                    ref = Ref(ref.args[0], ref.args[1] + (('f', -1, idx, t.args[0], nf),))
                t = sub
                continue
            return None
        return None

    def version(self, E, st, t):
        r = self.locate(E, st, t)
        return None if r is None else r[1].args[2 + self.i_stream]

    def file(self, E, st, t):
        r = self.locate(E, st, t)
        return None if r is None or self.i_file is None else r[1].args[2 + self.i_file]

    def advance(self, E, st, ref, inner, v2):
        fs = list(inner.args[2:])
        fs[self.i_stream] = v2
        if self.i_line is not None:
            fs[self.i_line] = App('line', v2)
        if self.i_col is not None:
            fs[self.i_col] = App('col', v2)
        E.store_ref(st, ref, Adt(inner.args[0], 0, fs))


def stream_next(SI):
    def m(E, c):
        r = SI.locate(E, c.st, c.args[0])
        if r is None or r[0] is None or r[0].op != 'ref':
            raise Unsupported('character stream behind an unknown pointer')
        ref, inner = r
        v = inner.args[2 + SI.i_stream]
        # the implementation borrows the shared state mutably
        live = [b for b in c.st.bor if b.args[1].args[0] == ref.args[0]]
        if live:
            E.emit('panic', c.st, c.fr, what='RefCell already borrowed', span=c.span, cond=None, vals=[], block=c.site[1])
        v2 = App('next', v)
        SI.advance(E, c.st, ref, inner, v2)
        E.emit('consume', c.st, c.fr, span=c.span, version=v)
        o = App('peek', v)
        if E.get_variants(c.st, o) == frozenset([0]):
            return [(c.st, models.NONE)]
        return [(c.st, o)]
    return m


# ---------------------------------------------------------------------------------------------------
def takes_stream(P, SI, f):
    return any(P.T[t].get('k') == 'ref' and P.T[t].get('mut') and P.T[t]['e'] == SI.ty for t in f.locals[1:1 + f.argc])


def callees(P, f):
    out = set()
    for b in f.blocks:
        t = b[1]
        if t[0] == 'call' and t[1].get('inst') is not None:
            out.add(t[1]['inst'])
        for s in b[0]:
            if s[0] == '=' and s[2][0] == 'agg' and s[2][1][0] == 'closure':
                i = P.T[s[2][1][1]].get('inst')
                if i is not None:
                    out.add(i)
        for o in operands(b):
            if o[0] == 'k':
                T = P.T[o[2]]
                if T.get('k') in ('fndef', 'closure') and T.get('inst') is not None:
                    out.add(T['inst'])
    return out


def operands(b):
    for s in b[0]:
        if s[0] == '=':
            r = s[2]
            k = r[0]
            if k in ('use', 'repeat'):
                yield r[1]
            elif k in ('bin', 'cbin'):
                yield r[2]
                yield r[3]
            elif k in ('un', 'cast'):
                yield r[2]
            elif k == 'agg':
                yield from r[2]
    t = b[1]
    if t[0] == 'call':
        yield t[2]
        yield from t[3]
    elif t[0] == 'switch':
        yield t[1]


def callgraph(P):
    g = getattr(P, '_cg', None)
    if g is None:
        g = {}
        for f in P.fns.values():
            g[f.id] = {c for c in (callees(P, f) if f.dumped else ()) if c in P.fns}
        P._cg = g
    return g


def sccs(g):
    idx, low, st, on, res = {}, {}, [], set(), []
    cnt = [0]

    def visit(v0):
        work = [(v0, iter(sorted(g.get(v0, ()))))]
        idx[v0] = low[v0] = cnt[0]
        cnt[0] += 1
        st.append(v0)
        on.add(v0)
        while work:
            v, it = work[-1]
            w = next(it, None)
            if w is None:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    c = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        c.append(w)
                        if w == v:
                            break
                    res.append(c)
            elif w not in idx:
                idx[w] = low[w] = cnt[0]
                cnt[0] += 1
                st.append(w)
                on.add(w)
                work.append((w, iter(sorted(g.get(w, ())))))
            elif w in on:
                low[v] = min(low[v], idx[w])
    for v in g:
        if v not in idx:
            visit(v)
    return [c for c in res if len(c) > 1 or c[0] in g.get(c[0], ())]


def acyclic_without(g, comp, cut):
    nodes = [n for n in comp if n not in cut]
    sub = {n: {m for m in g[n] if m in comp and m not in cut} for n in nodes}
    return not sccs(sub)


def min_feedback(g, comp, cand):
    for k in range(1, 5):
        best = None
        for cut in itertools.combinations(sorted(cand), k):
            if acyclic_without(g, set(comp), set(cut)):
                if best is None:
                    best = cut
        if best is not None:
            return best
    raise Unsupported('recursion of the parser has no small cut')


class ParserModel:
    def __init__(self, P, E):
        self.P, self.E = P, E
        self.SI = SI = StreamInfo(P)
        g = callgraph(P)
        self.g = g
        self.hubs = []
        self.comp = set()
        for c in sccs(g):
            if any(P.fns[i].local and P.fns[i].dumped and takes_stream(P, SI, P.fns[i]) for i in c):
                cand = [i for i in c if P.fns[i].dumped and P.fns[i].local and takes_stream(P, SI, P.fns[i])
                        and self.is_res(P.fns[i])]
                self.hubs += list(min_feedback(g, c, cand))
                self.comp |= set(c)
        self.pre = {h: None for h in self.hubs}       # precondition: facts at entry, None = not called yet
        self.strict = {h: True for h in self.hubs}
        self.round = 0
        self.install()

    def is_res(self, f):
        T = self.P.T[f.locals[0]]
        return T.get('k') == 'adt' and T['adt'].endswith('Result')

    def install(self):
        ab = self.E.models.abstract
        ab[self.SI.next.id] = stream_next(self.SI)
        for f in self.abstracted():
            ab[f.id] = pure_call(f)
        for h in self.hubs:
            self.E.hubs[h] = self.hub_call

    def abstracted(self):
        """Pure functions over values and types, analysed on their own."""
        P = self.P
        out = []
        vt, tt = P.adt_ty('Value'), P.adt_ty('Type')

        def strip(t):
            while P.T[t].get('k') == 'ref':
                t = P.T[t]['e']
            return t
        pure = {vt, tt, P.adt_ty('Obj'), P.adt_ty('Arr'), P.adt_ty('Tup'), P.adt_ty('Pair')}
        for f in P.locals:
            if not f.argc or f.kind == 'Closure' or '{closure' in f.name:
                continue
            ats = [strip(t) for t in f.locals[1:1 + f.argc]]
            if ats and ats[0] == tt and all(t == tt for t in ats):
                if f.canon[0] == 'T' and f.canon[1] == 'Clone':
                    continue
                out.append(f)                # relations on types
            elif f.argc == 1 and ats[0] == vt and strip(f.locals[0]) == tt and f.canon[0] != 'T':
                out.append(f)                # type of a value
            elif f.canon[0] == 'T' and f.canon[1] == 'Display' and f.canon[2] == 'fmt':
                pass
            elif f.canon[0] == 'T' and f.canon[2] == 'format' and f.canon[1] == 'Format':
                out.append(f)
        ops = self.op_fns()
        out += [f for f in ops if f.id not in self.comp]
        return [f for f in out if f.id not in self.comp]

    def op_fns(self):
        """Functions that apply an operator to values: by value Value arguments and an operator."""
        P = self.P
        vt = P.adt_ty('Value')
        ops = {P.adt_ty('BinaryOp'), P.adt_ty('UnaryOp')} - {None}
        r = []
        for f in P.locals:
            ats = f.locals[1:1 + f.argc]
            if vt in ats and any(t in ops for t in ats) and f.id not in self.comp:
                r.append(f)
        return r

    # -- hubs ------------------------------------------------------------------------------------
    def hub_call(self, E, c):
        SI, P = self.SI, self.P
        fn = c.fn
        ats = fn.locals[1:1 + fn.argc]
        si = [i for i, t in enumerate(ats) if P.T[t].get('k') == 'ref' and P.T[t]['e'] == SI.ty and P.T[t].get('mut')]
        loc = SI.locate(E, c.st, c.args[si[0]])
        if loc is None or loc[0] is None:
            raise Unsupported('hub call with an unknown stream')
        ref, inner = loc
        v = inner.args[2 + SI.i_stream]
        E.emit('hub_call', c.st, c.fr, fn=fn, args=c.args, span=c.span, version=v, site=c.site)
        self.meet_pre(E, fn, c.st, c.args, v)
        short = fn.name.rsplit('::', 1)[-1]
        deep = []
        for i, a in enumerate(c.args):
            if i == si[0]:
                continue
            T = P.T[ats[i]]
            if T.get('k') == 'ref' and T.get('mut'):
                continue
            deep.append(E.deep(c.st, a))
        res = App('hub', Str(short), Int(E.fid(('hubsite', c.site))), v, *deep)
        s_ok, s_err = c.st.copy(), c.st
        out = []
        for st, k in ((s_ok, 0), (s_err, 1)):
            if not E.assume_variant(st, res, frozenset([k])):
                continue
            v2 = App('after', v, res, Bool(self.strict[fn.id]))
            SI.advance(E, st, ref, inner, v2)
            if k == 0:
                st.gh[('consumed2', v2)] = True
            for i, a in enumerate(c.args):
                T = P.T[ats[i]]
                if i == si[0] or not (T.get('k') == 'ref' and T.get('mut')):
                    continue
                old = E.load_ref(st, a)
                self.hub_out(E, st, a, old, res, i, P.T[ats[i]]['e'])
            payload = Fld(res, k, 0)
            rt = P.T[fn.locals[0]]
            out.append((st, Adt(rt['adt'], k, [payload])))
        return out

    def hub_out(self, E, st, ref, old, res, i, ty):
        """Content of a &mut argument after a recursive call."""
        T = self.P.T[ty]
        if T.get('k') == 'tuple':
            fs = [App('hubout', Int(i), Int(j), res, Fld(old, -1, j)) for j in range(len(T['es']))]
            E.store_ref(st, ref, Tup(fs))
            return
        E.store_ref(st, ref, App('hubout', Int(i), Int(-1), res, old))

    def meet_pre(self, E, fn, st, args, v):
        if E.quiet:
            return
        f = self.entry_facts(E, fn, st, args, v)
        cur = self.pre[fn.id]
        if cur is None:
            self.pre[fn.id] = f
            self.changed = True
            return
        n = {}
        for k, c in f.items():
            o = cur.get(k)
            if o is None:
                continue
            j = join_c(c, o)
            if j is not None and j[0] == 'I' and self.round > 0:
                # widen: a bound that moves is dropped
                lo = j[1] if j[1] == o[1] else None
                hi = j[2] if j[2] == o[2] else None
                j = None if lo is None and hi is None else ('I', lo, hi)
            if j is not None:
                n[k] = j
        if n != cur:
            self.pre[fn.id] = n
            self.changed = True

    def entry_facts(self, E, fn, st, args, v):
        """Facts about the stream head and the scalar arguments, keyed by position."""
        r = {}
        o = App('peek', v)
        vs = E.get_variants(st, o)
        if vs is not None:
            r['peek'] = ('V', vs)
        m = E.get_mask(st, Fld(o, 1, 0))
        if m != FULL:
            r['ch'] = ('M', m)
        for i, a in enumerate(args):
            t = self.P.T[fn.locals[i + 1]]
            k = t.get('k')
            if k == 'bool':
                d = E.decide(st, a)
                if d is not None:
                    r[('arg', i)] = ('B', d)
            elif k in ('uint', 'int'):
                lo, hi = E.bounds(st, a)
                if lo is not None or hi is not None:
                    r[('arg', i)] = ('I', lo, hi)
            elif k == 'adt' and t['kind'] == 'enum':
                x = E.get_variants(st, a)
                if x is not None:
                    r[('arg', i)] = ('V', x)
                if t['adt'].endswith('Option') and self.P.T[t['args'][0]].get('k') == 'char':
                    m = 0
                    if x is None or 1 in x:
                        m = E.get_mask(st, Fld(a, 1, 0))
                    if m != FULL:
                        r[('argch', i)] = ('M', m)
        return r

    def entry_state(self, fn):
        """Symbolic arguments of a unit, with the precondition of a hub."""
        from unit import entry_arg
        E, P, SI = self.E, self.P, self.SI
        st = State()
        args = []
        v = None
        for i in range(fn.argc):
            ty = fn.locals[i + 1]
            T = P.T[ty]
            base = T['e'] if T.get('k') == 'ref' else ty
            if base == SI.ty:
                s, v0 = SI.entry(st, 'in%d' % i if v is not None else 'in')
                v = v or v0
                if T.get('k') == 'ref':
                    cell = ('A', i)
                    st.cells[cell] = s
                    args.append(Ref(cell))
                else:
                    args.append(s)
            else:
                nm = dict((n[1], n[0]) for n in fn.names if isinstance(n[1], int)) if False else {}
                args.append(entry_arg(E, st, i, ty, 'a%d' % i))
        pre = self.pre.get(fn.id)
        if pre and v is not None:
            o = App('peek', v)
            for k, c in pre.items():
                if k == 'peek':
                    st.facts[o] = c
                elif k == 'ch':
                    st.facts[Fld(o, 1, 0)] = c
                elif k[0] == 'arg':
                    if c[0] == 'B':
                        args[k[1]] = Bool(c[1])
                    elif c[0] == 'I' and c[1] is not None and c[1] == c[2]:
                        args[k[1]] = Int(c[1])
                    else:
                        st.facts[args[k[1]]] = c
                elif k[0] == 'argch':
                    if c[1]:
                        st.facts[Fld(args[k[1]], 1, 0)] = c
        return st, args, v

    # -- units -----------------------------------------------------------------------------------
    def roots(self):
        """Functions from which the parser is entered: callers of parser functions outside the recursion."""
        P = self.P
        rev = {}
        for a, cs in self.g.items():
            for c in cs:
                rev.setdefault(c, set()).add(a)
        # topmost local functions that (transitively) reach the recursion but have no dumped local caller
        reach = set(self.comp)
        work = list(self.comp)
        while work:
            x = work.pop()
            for p in rev.get(x, ()):
                if p not in reach and P.fns[p].local:
                    reach.add(p)
                    work.append(p)
        return [P.fns[i] for i in sorted(reach) if i not in self.comp and P.fns[i].dumped and
                not [p for p in rev.get(i, ()) if p in reach and p != i] and P.fns[i].kind != 'Closure']

    def solve(self, verbose=False, max_rounds=8):
        """Preconditions and progress of the hubs by fixpoint; then one final run that collects everything."""
        from unit import run_unit
        roots = self.roots()
        units = roots + [self.P.fns[h] for h in self.hubs]
        for rnd in range(max_rounds):
            self.changed = False
            self.round = rnd
            runs = {}
            for f in units:
                if f.id in self.pre and self.pre[f.id] is None:
                    continue
                st, args, v = self.entry_state(f)
                r = run_unit(self.E, f, args, st)
                r.version = v
                runs[f.id] = r
                if verbose:
                    print('  round %d %s: exits %d events %d blocks %d' % (rnd, f.name, len(r.exits), len(r.events), self.E.stats['blocks']), flush=True)
                if f.id in self.strict and self.strict[f.id]:
                    if not self.check_strict(r):
                        self.strict[f.id] = False
                        self.changed = True
            if not self.changed and len(runs) == len(units):
                self.runs = runs
                self.rounds = rnd + 1
                return runs
            if not self.changed:
                # some hub is never called
                self.runs = runs
                self.rounds = rnd + 1
                return runs
        raise Unsupported('hub preconditions do not stabilise')

    def check_strict(self, r):
        for st, v in r.exits:
            if v.op == 'adt' and v.args[1] == 1:
                continue
            cur = self.SI.version(self.E, st, r.args[0]) if r.args else None
            for a in r.args:
                x = self.SI.version(self.E, st, a)
                if x is not None:
                    cur = x
                    break
            anc = self.E.ancestors(st, cur)
            if not anc.get(r.version):
                return False
        return True


def pure_call(f, name=None):
    from models import val

    def m(E, c):
        args = [E.deep(c.st, val(E, c, i)) for i in range(len(c.args))]
        if f.canon[0] == 'T' and f.canon[1] == 'PartialEq':
            e = Eq(args[0], args[1]) if f.canon[2] == 'eq' else Not(Eq(args[0], args[1]))
            r = E.decide(c.st, e)
            return [(c.st, e if r is None else Bool(r))]
        n = name or f.name.rsplit('::', 1)[-1]
        r = App('pf', Str(n), *args)
        E.emit('pure_call', c.st, c.fr, fn=f, args=c.args, term=r, span=c.span, site=c.site)
        return [(c.st, E.wrap(r, c.dty))]
    return m


def stream_unit(M, fn, setup=None, budget=3_000_000):
    """Run one function that takes a stream on its own, keeping all exits apart. setup(E, st, args, version)."""
    from unit import run_unit
    E = M.E
    st, args, v = M.entry_state(fn)
    if setup is not None:
        setup(E, st, args, v)
    E.stats['blocks'] = 0
    old = E.budget, E.precise, E.join_all_errs, E.exit_limit
    E.budget, E.precise, E.join_all_errs, E.exit_limit = budget, True, False, 400
    try:
        r = run_unit(E, fn, args, st)
    finally:
        E.budget, E.precise, E.join_all_errs, E.exit_limit = old
    r.version = v
    r.E = E
    return r
