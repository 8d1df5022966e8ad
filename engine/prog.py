"""Loading of the extracted facts: types, functions, control-flow graphs."""
import json
import os
import re


def split_generics(s):
    """Remove every balanced <...> group that is a generic argument list ('::<' or 'Name<')."""
    out = []
    d = 0
    i = 0
    while i < len(s):
        c = s[i]
        if c == '<':
            d += 1
        elif c == '>' and s[i - 1] != '-':
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return ''.join(out).replace('::::', '::')


def top_split(s, sep):
    d = 0
    for i, c in enumerate(s):
        if c in '<([{':
            d += 1
        elif c in ')]}' or (c == '>' and s[i - 1] != '-'):
            d -= 1
        elif d == 0 and s.startswith(sep, i):
            return s[:i], s[i + len(sep):]
    return None


def matching(s, i):
    d = 0
    for j in range(i, len(s)):
        if s[j] == '<':
            d += 1
        elif s[j] == '>' and s[j - 1] != '-':
            d -= 1
            if d == 0:
                return j
    return -1


def canon(name):
    """('T', Trait, method, selftype, traitref) for trait methods, ('I', path) for everything else."""
    m = re.search(r'<impl ', name)
    if m and (m.start() == 0 or name[0] != '<'):
        e = matching(name, m.start())
        inner = name[m.start() + 6:e]
        rest = name[e + 1:].lstrip(':')
        sp = top_split(inner, ' for ')
        meth = split_generics(rest).strip(':')
        if sp:
            tr, slf = sp
            return ('T', split_generics(tr).rsplit('::', 1)[-1], meth, slf, tr)
        return ('I', split_generics(inner) + '::' + meth)
    if name.startswith('<'):
        e = matching(name, 0)
        inner = name[1:e]
        rest = name[e + 1:].lstrip(':')
        sp = top_split(inner, ' as ')
        meth = split_generics(rest).strip(':')
        if sp:
            slf, tr = sp
            return ('T', split_generics(tr).rsplit('::', 1)[-1], meth, slf, tr)
        return ('I', split_generics(inner) + '::' + meth)
    return ('I', split_generics(name).strip(':'))


class Fn:
    def __init__(self, d):
        self.__dict__.update(d)
        self.canon = canon(self.name)
        if self.canon[0] == 'T':
            self.key = self.canon[1] + '::' + self.canon[2]
        else:
            p = self.canon[1].split('::')
            self.key = '::'.join(p[-2:])
        self._cfg = None

    def __repr__(self):
        return 'fn ' + self.name

    @property
    def trait(self):
        return self.canon[1] if self.canon[0] == 'T' else None

    @property
    def method(self):
        return self.canon[2] if self.canon[0] == 'T' else self.canon[1].rsplit('::', 1)[-1]

    def cfg(self):
        if self._cfg is None:
            self._cfg = Cfg(self)
        return self._cfg


class Loop:
    def __init__(self, head):
        self.head = head
        self.body = {head}
        self.parent = None
        self.back = []


def succs(t):
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'switch':
        return [b for _, b in t[2]] + [t[3]]
    if k == 'drop':
        return [t[2]]
    if k == 'call':
        return [t[5]] if t[5] is not None else []
    if k == 'assert':
        return [t[5]]
    return []


class Cfg:
    """Control flow without unwinding, natural loops, liveness of locals."""

    def __init__(self, fn):
        self.fn = fn
        n = len(fn.blocks)
        self.succ = [succs(b[1]) for b in fn.blocks]
        order, seen = [], {0}
        stack = [(0, iter(self.succ[0]))]
        while stack:
            b, it = stack[-1]
            nxt = next(it, None)
            if nxt is None:
                order.append(b)
                stack.pop()
            elif nxt not in seen:
                seen.add(nxt)
                stack.append((nxt, iter(self.succ[nxt])))
        rpo = order[::-1]
        self.rpo = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in self.succ[b]:
                preds[s].append(b)
        self.preds = preds
        # dominators
        idom = {0: 0}
        changed = True
        while changed:
            changed = False
            for b in rpo[1:]:
                ps = [p for p in preds[b] if p in idom]
                if not ps:
                    continue
                new = ps[0]
                for p in ps[1:]:
                    x, y = p, new
                    while x != y:
                        while self.rpo[x] > self.rpo[y]:
                            x = idom[x]
                        while self.rpo[y] > self.rpo[x]:
                            y = idom[y]
                    new = x
                if idom.get(b) != new:
                    idom[b] = new
                    changed = True
        self.idom = idom
        self.loops = {}
        self.irreducible = []
        for b in rpo:
            for s in self.succ[b]:
                if self.rpo[s] <= self.rpo[b]:
                    x = b
                    while x != s and x != 0:
                        x = idom[x]
                    if x != s:
                        self.irreducible.append((b, s))
                        continue
                    lp = self.loops.setdefault(s, Loop(s))
                    lp.back.append(b)
                    st = [b]
                    while st:
                        y = st.pop()
                        if y not in lp.body:
                            lp.body.add(y)
                            st.extend(preds[y])
        self.inner = {}
        for b in rpo:
            best = None
            for lp in self.loops.values():
                if b in lp.body and (best is None or len(lp.body) < len(best.body)):
                    best = lp
            self.inner[b] = best
        self._live = None

    def live_in(self, b):
        if self._live is None:
            self._liveness()
        return self._live[b]

    def _liveness(self):
        fn = self.fn
        use, deff = {}, {}
        self.borrowed = set()

        def up(p, u, d):
            if p[0] not in d:
                u.add(p[0])
            for e in p[1]:
                if e[0] == 'i' and e[1] not in d:
                    u.add(e[1])

        def uo(o, u, d):
            if o[0] in ('c', 'm'):
                up(o[1], u, d)

        for b in self.rpo:
            u, d = set(), set()
            st, t, _ = fn.blocks[b]
            for s in st:
                if s[0] == '=':
                    r = s[2]
                    k = r[0]
                    if k == 'use' or k == 'repeat':
                        uo(r[1], u, d)
                    elif k in ('ref', 'addr'):
                        up(r[2], u, d)
                        if not r[2][1] or r[2][1][0][0] != '*':
                            self.borrowed.add(r[2][0])
                    elif k in ('discr', 'len', 'reborrow'):
                        up(r[1], u, d)
                    elif k in ('bin', 'cbin'):
                        uo(r[2], u, d)
                        uo(r[3], u, d)
                    elif k in ('un', 'cast'):
                        uo(r[2], u, d)
                    elif k == 'agg':
                        for o in r[2]:
                            uo(o, u, d)
                    if not s[1][1]:
                        d.add(s[1][0])
                    else:
                        up(s[1], u, d)
                elif s[0] == 'dead':
                    d.add(s[1])
            k = t[0]
            if k == 'switch':
                uo(t[1], u, d)
            elif k == 'drop':
                up(t[1], u, d)
            elif k == 'call':
                uo(t[2], u, d)
                for o in t[3]:
                    uo(o, u, d)
                if t[4][1]:
                    up(t[4], u, d)
                else:
                    d.add(t[4][0])
            elif k == 'assert':
                uo(t[1], u, d)
                for o in t[4]:
                    uo(o, u, d)
            elif k == 'ret':
                if 0 not in d:
                    u.add(0)
            use[b], deff[b] = u, d
        live = {b: set(use[b]) for b in self.rpo}
        ch = True
        rp = sorted(self.rpo, key=lambda b: -self.rpo[b])
        while ch:
            ch = False
            for b in rp:
                o = set()
                for s in self.succ[b]:
                    o |= live[s]
                n = use[b] | (o - deff[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        for b in live:
            live[b] = live[b] | self.borrowed
        self._live = live


class Prog:
    def __init__(self, path):
        F = json.load(open(path))
        self.F = F
        self.T = F['types']
        self.fns = {}
        for d in F['fns']:
            f = Fn(d)
            self.fns[f.id] = f
        # the uses of the macros (compiled for the analysis only) are not part of the library
        self.uses = [f for f in self.fns.values() if f.local and f.dumped and 'macro_uses' in f.name]
        self.uses_error = None
        if not self.uses and os.path.exists(path + '.uses'):
            self.uses_error = ' '.join(open(path + '.uses').read().split())[:300]
        self.items = [i for i in F['items'] if 'macro_uses' not in i['name']]
        self.by_name = {}
        for f in self.fns.values():
            self.by_name.setdefault(f.name, []).append(f)
        self.locals = [f for f in self.fns.values() if f.local and f.dumped and 'macro_uses' not in f.name]
        self.ty_by_name = {}
        for i, t in enumerate(self.T):
            self.ty_by_name.setdefault(t['n'], i)
        self.adts = {a['name']: a for a in F['adts']}

    def adt_ty(self, name):
        """Type index of the (non-generic) ADT with this path suffix."""
        for i, t in enumerate(self.T):
            if t.get('k') == 'adt' and (t['adt'] == name or t['adt'].endswith('::' + name)) and t['local']:
                return i
        return None

    def variant(self, ty, vname):
        for i, v in enumerate(self.T[ty]['vars']):
            if v[0] == vname:
                return i
        raise KeyError(vname)

    def methods(self, tyname, trait=None):
        """Local functions whose Self type is the named local ADT."""
        r = []
        for f in self.locals:
            if f.canon[0] == 'T':
                if trait is not None and f.canon[1] == trait and f.canon[3].rsplit('::', 1)[-1] == tyname:
                    r.append(f)
            elif trait is None:
                p = f.canon[1].split('::')
                if len(p) > 1 and p[-2] == tyname:
                    r.append(f)
        return r

    def find(self, suffix, local=True):
        """Function whose canonical path ends with the given '::'-suffix."""
        r = []
        for f in self.fns.values():
            if local and not (f.local and f.dumped):
                continue
            if f.canon[0] == 'I':
                p = f.canon[1]
            else:
                p = f.canon[3] + '::' + f.canon[1] + '::' + f.canon[2]
            if p == suffix or p.endswith('::' + suffix):
                r.append(f)
        return r
