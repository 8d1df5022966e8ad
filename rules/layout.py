"""C30: whitespace and comments are skipped wherever the format allows them, and nowhere mean anything."""
from base import *
import parser as pm
from term import *
from engine import Unsupported
import parse_rule as pr
from parse_rule import streams_of, wh, sname, value_run, value_hub, run_root, consumed, mask_text, owner_name

HASH, LF, COLON = mask_of('#'), mask_of('\n'), mask_of(':')
LAYOUT = M_WS | HASH
PLACES = {'start': 'at the start of a file', 'open': 'after an opening bracket', 'colon': 'after a field name', 'after': 'after a value'}


class Layout:
    """Where in the layout each place of the reader may be: the places of a run are its versions of the stream.
    D(ctx): at a place where layout is allowed and may still follow; K(ctx): inside a comment there; T: at or in a token."""

    def __init__(self, C, R, r, name, opener=None):
        self.C, self.R, self.r, self.E, self.name, self.opener = C, R, r, r.E, name, opener
        self.SI = C.light_parser().SI
        self.main = r.version
        self.pos = pr.Pos(C, self.SI)
        self.placed = set()
        self.hub, self.bi, self.oi = value_hub(C)
        self.own = [a for i, a in enumerate(r.args) if is_opt(C, r.fn.locals[i + 1])]
        self.phi = {}       # (loop head, place) -> states
        self.all = {}       # place -> states at all heads
        self.out = set()    # comments left before the end of their line
        self.after = {}
        self.loops = [(k, e) for k, e in r.events if k in ('loop_entry', 'backedge', 'iterback')]
        hd = {(e['serial'], e['key']): e['head'] for k, e in self.loops}
        self.loops = [(k, e, e['head'] if k == 'loop_entry' else hd.get((e['serial'], e['to']), e['head']), (e['serial'], e['key'] if k == 'loop_entry' else e['to'])) for k, e in self.loops]
        self.calls = [e for k, e in r.events if k == 'hub_call']
        for e in self.calls:
            self.after.setdefault(e['version'], []).append(e)
        self.fix()

    def element(self, e):
        """A call that reads a value inside a container (or a file), not an operand."""
        if e['fn'].id != self.hub.id:
            return False
        b = self.E.deep(e['st'], e['args'][self.oi])
        return b not in self.own

    def ver(self, inner):
        return inner.args[2 + self.SI.i_stream]

    def base(self, v, last=None):
        """States of a place that is not the successor of another by one character."""
        if (last, v) in self.phi:
            return self.phi[last, v]
        if v in self.all:
            return self.all[v]
        if v is self.main or v.op == 'sym' and self.opener:
            return {('S',)} if self.opener else {('D', 'start')}
        if v.op == 'app' and v.args[0] == 'after':
            es = self.after.get(v.args[1], ())
            ks = {self.element(e) for e in es}
            if ks == {True}:
                return {('D', 'after')}
            return {('T',)}
        if v.op == 'app' and v.args[0] == 'stream0' or v.op == 'sym':
            return {('D', 'start')}
        return set()

    def states(self, st, v, target=None, say=None, goes_on=False, enter=False):
        """States of place v in state st. target: the loop head reached, for what happens at comments' ends."""
        cs = consumed(self.E, st, v)
        b = cs[-1][0] if cs else v
        cur = set(self.base(b, st.gh.get('last')))
        steps = cs[::-1]
        for i, (u, m, vs) in enumerate(steps):
            last = i == len(steps) - 1
            if vs == frozenset([0]):
                if target is not None or enter:
                    return set()        # at the end: nothing is read any more
                continue
            nxt = set()
            for s in cur:
                nxt |= self.step(s, m, same=last and target is not None and u is target[1] and st.gh.get('last') == target[0], say=say, goes_on=goes_on)
            cur = nxt
        p = App('peek', v)
        vs = self.E.get_variants(st, p)
        if vs == frozenset([0]):
            if target is not None or enter:
                return set()
        else:
            m = self.E.get_mask(st, Fld(p, 1, 0))
            if m and not m & LAYOUT:
                cur = {('T',) if s[0] == 'D' else s for s in cur}
            if m and not m & ~HASH and enter:
                cur = {('K', s[1]) if s[0] == 'D' else s for s in cur}
            if m and not m & ~LF:
                cur = {('D', s[1]) if s[0] == 'K' else s for s in cur}
        return cur

    def step(self, s, m, same, say, goes_on):
        if s[0] == 'S':
            return {('D', 'open')}
        if s[0] == 'T':
            return {('D', 'colon')} if m & COLON else {('T',)}
        if s[0] == 'D':
            if m == FULL or not m:
                return {('T',)}
            if not m & ~M_WS:
                return {s}
            if not m & ~HASH:
                return {('K', s[1])}
            if not m & LAYOUT:
                return {s} if same else {('T',)}
            if say and goes_on and m & M_WS and m & HASH and not m & ~LAYOUT:
                say('comment-start', "'#' is skipped like white space, without the comment that it starts")
            elif say:
                say('mixed', 'white space is treated like %s %s' % (mask_text(m & ~LAYOUT) if m & ~LAYOUT else "the start of a comment", PLACES[s[1]]))
            return {s} if same else {('T',)}
        # inside a comment
        if same:
            if m & LF and say and m != FULL:
                say('comment-end', 'a comment goes on after the end of its line')
            elif m & LF and say:
                say('comment-end?', 'the end of a comment is not recognised', True)
            return {s}
        if not m & ~LF:
            return {('D', s[1])}
        if m & LF and (m == FULL or m & ~LF):
            if m == FULL:
                if say:
                    say('comment-end?', 'the end of a comment is not recognised', True)
            elif say:
                say('comment-stop', 'a comment can end with %s, before its line does' % mask_text(m & ~LF))
            return {('D', s[1])}
        return {('X', s[1])}

    def fix(self):
        lost = False
        for _ in range(40):
            ch = False
            for k, e, head, hid in self.loops:
                heads = {c: self.ver(i) for c, i in streams_of(self.E, self.SI, head)}
                for c, i in streams_of(self.E, self.SI, e['st']):
                    h = heads.get(c)
                    if h is None or h.op == 'app' and h.args[0] == 'next':
                        continue
                    v = self.ver(i)
                    if v is h:
                        continue
                    new = self.states(e['st'], v, (hid, h) if k != 'loop_entry' else None, enter=k == 'loop_entry')
                    if h.op != 'phi':
                        continue
                    old = self.phi.get((hid, h), set())
                    left = {s for s in new if s[0] == 'X'}
                    new = new - left
                    if lost:
                        # a comment's text that is no line feed, and a loop that nothing else enters: still the comment
                        if left and not old:
                            new |= {('K', s[1]) for s in left}
                    if not new <= old:
                        self.phi[hid, h] = old | new
                        self.all[h] = self.all.get(h, set()) | new
                        ch = True
            if not ch:
                if lost:
                    return
                lost = True
        raise Unsupported('layout: no fixpoint')

    def judge(self):
        C, R, E = self.C, self.R, self.E
        ERR, fi, ki, KT = pr.err_types(C)
        mixed = set()
        for (_, h), ss in self.phi.items():
            if any(s[0] == 'K' for s in ss) and any(s[0] == 'D' for s in ss):
                mixed.add(h)
        if mixed:
            return R.unknown('layout in %s' % self.name, 'comments and what is around them are read by one loop')
        skip = set()

        def sayer(where, fn):
            def say(key, text, unk=False):
                if unk:
                    R.unknown('layout in %s' % fn, text)
                else:
                    R.violation('layout:%s:%s' % (key, fn), text, where)
            return say

        for k, e, head, hid in self.loops:
            if k == 'loop_entry':
                continue
            heads = {c: self.ver(i) for c, i in streams_of(E, self.SI, head)}
            for c, i in streams_of(E, self.SI, e['st']):
                h = heads.get(c)
                ph = self.phi.get((hid, h))
                if ph is None or self.ver(i) is h:
                    continue
                if any(s[0] in 'DK' for s in ph):
                    fn = sname(e['fr'].fn)
                    ss = self.states(e['st'], self.ver(i), (hid, h), sayer(wh(E, e), fn), True)
                    if any(s[0] == 'X' for s in ss) and all(s[0] == 'D' for s in ph):
                        cs = consumed(E, e['st'], self.ver(i))
                        R.violation('layout:comment-stop:%s' % fn, 'a comment can end with %s, before its line does' % mask_text(cs[0][1]), wh(E, e))
                    if ss and all(s[0] in 'DK' for s in ss):
                        cs = consumed(E, e['st'], self.ver(i))
                        if not any(m and not m & LAYOUT for u, m, vs in cs) or all(s[0] == 'K' for s in ss):
                            skip.add((hid, h))
                        R.ok('%s: layout is followed by more of it' % fn)
        # a loop that skips layout skips nothing else
        for k, e, head, hid in self.loops:
            if k == 'loop_entry':
                continue
            heads = {c: self.ver(i) for c, i in streams_of(E, self.SI, head)}
            for c, i in streams_of(E, self.SI, e['st']):
                h = heads.get(c)
                if (hid, h) not in skip or e['st'].gh.get('last') != hid:
                    continue
                cs = consumed(E, e['st'], self.ver(i))
                if cs and cs[-1][0] is h and cs[-1][1] and not cs[-1][1] & LAYOUT and all(s[0] == 'D' for s in self.phi[hid, h]):
                    R.violation('layout:other:%s' % sname(e['fr'].fn), '%s is skipped like white space' % mask_text(cs[-1][1]), wh(E, e))
        n = 0
        for e in self.calls:
            if not self.element(e):
                continue
            st, v = e['st'], e['version']
            ss = self.states(st, v)
            p = App('peek', v)
            m = E.get_mask(st, Fld(p, 1, 0))
            if not m & LAYOUT:
                n += 1
                R.ok('layout is skipped before a value in %s' % self.name)
                continue
            if not ss or not any(s[0] in 'DK' for s in ss):
                # not read at a place of layout as far as known
                if not m & LAYOUT == LAYOUT:
                    R.violation('layout:value:%s' % owner_name(e), 'a value in %s can begin with %s' % (self.name, mask_text(m & LAYOUT)), wh(E, e))
                else:
                    R.unknown('a value in %s' % self.name, 'what is before it')
                continue
            ctx = sorted(s[1] for s in ss if s[0] in 'DK')[0]
            R.violation('layout:value:%s' % owner_name(e), '%s %s is not skipped before a value' % (what(m), PLACES[ctx]), wh(E, e))
        seen = set()
        for k, e in self.r.events:
            if k != 'agg' or e['adt'] != ERR:
                continue
            s = e['st']
            kt = E.deep(s, e['fields'][ki])
            if kt.op != 'adt':
                continue    # an error handed on
            kind = KT['vars'][kt.args[1]][0]
            fn = owner_name(e)
            for c, i in streams_of(E, self.SI, s):
                w = self.ver(i)
                if not self.known(w, s):
                    continue
                p = App('peek', w)
                if pr.at_end(E, s, w):
                    ss = self.states(s, w)
                    if self.file_stream(w, s) and kind == 'UnexpectedEnd' and ss and all(x[0] in 'DK' and x[1] in ('start', 'after') for x in ss):
                        R.violation('layout:end:%s' % fn, '%s at the end of a file makes it end unexpectedly' % (
                            'a comment' if any(x[0] == 'K' for x in ss) else 'white space'), wh(E, e))
                    continue
                ss = self.states(s, w, say=sayer(wh(E, e), 'errors of ' + fn))
                m = E.get_mask(s, Fld(p, 1, 0))
                if m != FULL and m & LAYOUT and any(x[0] == 'D' for x in ss):
                    ctx = sorted(x[1] for x in ss if x[0] == 'D')[0]
                    R.violation('layout:refused:%s' % fn, '%s %s is refused (%s)' % (what(m), PLACES[ctx], kind), wh(E, e))
                    continue
                cs = consumed(E, s, w)
                if cs and m == FULL:
                    u, m2, _ = cs[0]
                    before = self.states(s, u)
                    if m2 and m2 != FULL and not m2 & ~LAYOUT and any(x[0] == 'D' for x in before):
                        ctx = sorted(x[1] for x in before if x[0] == 'D')[0]
                        R.violation('layout:refused:%s' % fn, '%s %s is refused (%s)' % (what(m2), PLACES[ctx], kind), wh(E, e))
                        continue
                R.ok('no error about layout in %s' % self.name)
            self.place_free(e, s, fn)
        for e in self.calls:
            self.place_free(e, e['st'], owner_name(e))
        return n

    def place_free(self, e, st, fn):
        """No decision was made from the line or column."""
        for t, c in st.facts.items():
            if t.op == 'app' and t.args[0] in ('eq', 'lt', 'le') and any(type(x) is Term and self.is_place(x) for x in t.args[1:]):
                if (t, fn) not in self.placed:
                    self.placed.add((t, fn))
                    self.R.violation('layout:place:%s' % fn, 'what is read depends on the line or column: %s' % show(t)[:100], wh(self.E, e))

    def is_place(self, t):
        while t.op == 'app' and t.args[0] in ('add', 'sub') and type(t.args[1]) is Term:
            t = t.args[1]
        return self.pos.line(t) is not None or self.pos.col(t) is not None

    def root(self, v):
        while v.op == 'app' and v.args[0] == 'next':
            v = v.args[1]
        return v

    def known(self, v, s):
        return bool(self.base(self.root(v)))

    def file_stream(self, v, s):
        if not self.opener:
            return True
        b = self.root(v)
        seen = set()
        while True:
            if b.op == 'app' and b.args[0] == 'stream0':
                return True
            if b.op == 'app' and b.args[0] == 'after':
                b = self.root(b.args[1])
            elif b.op == 'phi':
                if b in seen:
                    return False
                seen.add(b)
                nxt = None
                for k, e, head, hid in self.loops:
                    if k == 'loop_entry':
                        for (c, i), (c2, j) in zip(streams_of(self.E, self.SI, head), streams_of(self.E, self.SI, e['st'])):
                            if c is c2 or c == c2:
                                if self.ver(i) is b and self.ver(j) is not b:
                                    nxt = self.root(self.ver(j))
                if nxt is None:
                    return False
                b = nxt
            else:
                return False


def what(m):
    if m & M_WS and m & HASH:
        return 'layout'
    return 'a comment' if m & HASH else 'white space (%s)' % mask_text(m & M_WS)


def is_opt(C, t):
    return pr.is_optchar(C, t)


def openers(C):
    """Functions that open a text and read all of it."""
    M = C.light_parser()
    SI = M.SI
    g = pm.callgraph(C.P)
    made = {f.id for f in C.P.locals if f.dumped and '{' not in f.name and any(t == SI.ty for t in pr.ret_types(C, f))}
    for f in C.P.locals:
        if not f.dumped or '{' in f.name or f.id in made or not (g[f.id] & made):
            continue
        if any(C.strip(t) == SI.ty for t in f.locals[1:1 + f.argc]):
            continue
        yield f


def errors_of(C, r):
    ERR, fi, ki, KT = pr.err_types(C)
    for k, e in r.events:
        if k == 'agg' and e['adt'] == ERR:
            kt = r.E.deep(e['st'], e['fields'][ki])
            if kt.op == 'adt':
                yield e, e['st'], KT['vars'][kt.args[1]][0]


def followed(C, R):
    """A value that its closing character has ended may be followed by any layout."""
    SI = C.light_parser().SI
    for o, c in pr.PAIRS.items():
        for b in (None, '}'):
            r = value_run(C, o, b, True)
            R.covered(r)
            E = r.E
            for e, st, kind in errors_of(C, r):
                v = pr.main_version(E, SI, st, r)
                cs = consumed(E, st, v) if v is not None else ()
                if not cs or not cs[0][1] or cs[0][1] & ~mask_of(c) or len(cs) > 1 and o == '"' and not cs[1][1] & ~mask_of('\\'):
                    continue
                m = E.get_mask(st, Fld(App('peek', v), 1, 0))
                if m == FULL:
                    continue
                R.result('ne' if m & LAYOUT else 'eq', 'layout:end-of-value:%s' % owner_name(e), '%s right after a value that ends with %s is refused (%s)' % (
                    what(m & LAYOUT) if m & LAYOUT else 'layout', c, kind), wh(E, e))


def ends_allow(C, R):
    """Some way of reading a value must accept each kind of layout after it."""
    SI = C.light_parser().SI
    firsts = [(o, o) for o in '{[(<"'] + [('a digit', mask_of('5')), ('a letter', M_AALPHA)]
    for name, o, b, isfirst in [(n, o, False, False) for n, o in firsts] + [('anything', None, b, True) for b in (None, '}', ']')]:
        r = value_run(C, o, b, isfirst)
        R.covered(r)
        E = r.E
        got, n = 0, 0
        for s, v in r.exits:
            v = E.deep(s, v)
            if v.op == 'adt' and v.args[1] == 1:
                continue
            n += 1
            ver = pr.main_version(E, SI, s, r)
            if ver is None:
                got = FULL
                break
            p = App('peek', ver)
            if E.get_variants(s, p) != frozenset([0]):
                got |= E.get_mask(s, Fld(p, 1, 0))
        if n:
            R.result('ne' if LAYOUT & ~got else 'eq', 'layout:after:%s:%s:%s' % (name, b, isfirst), 'a value that starts with %s is never accepted with %s after it' % (
                name, what(LAYOUT & ~got) if LAYOUT & ~got else 'layout'), [r.fn.name])


def names_followed(C, R):
    """A name that is used as a value may be followed by any layout."""
    M = C.light_parser()
    vh = value_hub(C)[0]
    vt = C.ty('Value')
    for h in M.hubs:
        f = C.P.fns[h]
        rt = C.P.T[f.locals[0]]
        if f.id == vh.id or not (rt.get('k') == 'adt' and rt['args'] and rt['args'][0] == vt):
            continue

        def setup(E, st, args, v):
            p = App('peek', v)
            E.assume_variant(st, p, frozenset([1]))
            E.assume(st, ChIn(Fld(p, 1, 0), M_AALPHA), True)
        r = pm.stream_unit(M, f, setup, budget=2_500_000)
        R.covered(r)
        L = Layout(C, R, r, sname(f), 'a')
        E = r.E
        loops = {}
        for k, e, head, hid in L.loops:
            if k == 'loop_entry':
                continue
            for c, i in streams_of(E, L.SI, e['st']):
                cs = consumed(E, e['st'], L.ver(i))
                if e['st'].gh.get('last') == hid and len(cs) == 1:
                    loops.setdefault(hid, []).append(cs[0][1])
        names = {h for h, ms in loops.items() if all(m & M_AALPHA and not m & mask_of('.') for m in ms)}
        for e, st, kind in errors_of(C, r):
            if st.gh.get('last') not in names:
                continue
            v = pr.main_version(E, L.SI, st, r)
            if v is None or pr.at_end(E, st, v):
                continue
            cs = consumed(E, st, v)
            m = E.get_mask(st, Fld(App('peek', v), 1, 0))
            if len(cs) == 1 and m == FULL:
                m = cs[0][1]
            elif cs:
                continue
            if m == FULL:
                continue
            R.result('ne' if m & LAYOUT else 'eq', 'layout:end-of-name:%s' % owner_name(e), '%s right after a name is refused (%s)' % (
                what(m & LAYOUT) if m & LAYOUT else 'layout', kind), wh(E, e))


def one(C, R, r, name, opener):
    R.covered(r)
    L = Layout(C, R, r, name, opener)
    n = L.judge()
    if n == 0:
        R.notes.append('no value is read in %s' % name)
    return n


def rule_C30(C, R):
    R.rule = ('Every place of the reader is classified by a fixpoint over the loops of the loader: at a place where layout is '
              'allowed and may follow (start of a file, after an opening bracket, after a field name, after a value), inside a '
              'comment there, or at a token. Values inside containers and files may only be read where no layout follows; no '
              'error may be decided by layout at such a place; a comment is left exactly at the line feed or the end; the loops '
              'that skip layout skip nothing else; layout at the end of a file is no error.')
    vh = value_hub(C)
    if vh is None or vh[2] is None or vh[1] is None:
        return R.unknown('values', 'the value reader was not found')
    tot = 0
    guard(R, 'values followed by layout', followed, C, R)
    guard(R, 'names followed by layout', names_followed, C, R)
    guard(R, 'ends of values', ends_allow, C, R)
    for o in '{[(<':
        n = guard(R, 'layout inside ' + o, lambda C, R: one(C, R, value_run(C, o, False, False), o, o), C, R)
        if n == 0:
            R.unknown('layout inside ' + o, 'no value is read there')
        tot += n or 0
    M = C.light_parser()
    for f in openers(C):
        n = guard(R, 'layout in ' + sname(f), lambda C, R: one(C, R, run_root(M, f), sname(f), None), C, R)
        tot += n or 0
    R.notes.append('%d reads of values inside containers and files' % tot)
