"""C34: a loaded container holds exactly the fields and elements that were read, in their order."""
from base import *
import parser as pm
from term import *
import parse_rule as pr
from parse_rule import sname, value_run, value_hub, run_root
from types_rule import aggs, inner_struct, field_at, is_vec, unmodelled
from layout import openers, is_opt
from models import SEQ0

WORDS = {'null': ('Null', None), 'true': ('Bool', True), 'false': ('Bool', False)}


class Reads:
    """The values read inside the container, told apart from operands."""

    def __init__(self, C, r):
        self.C, self.r, self.E = C, r, r.E
        hub, _, oi = value_hub(C)
        own = [a for i, a in enumerate(r.args) if is_opt(C, r.fn.locals[i + 1])]
        self.sites = {}
        for k, e in r.events:
            if k == 'hub_call' and e['fn'].id == hub.id:
                b = r.E.deep(e['st'], e['args'][oi])
                self.sites[r.E.fid(('hubsite', e['site'])), e['version']] = b not in own
        self.name = hub.name.rsplit('::', 1)[-1]

    def here(self, st):
        """Values read since the last head of a loop, in the order in which they were read."""
        hs = [t for t in st.facts if self.is_read(t) and self.E.get_variants(st, t) == frozenset([0])]
        hs.sort(key=lambda h: sum(contains(h.args[3], o) for o in hs if o is not h))
        return hs

    def is_read(self, t):
        return t.op == 'app' and t.args[0] == 'hub' and t.args[1] is Str(self.name) and self.sites.get((t.args[2].args[0], t.args[3])) is True


def peel(v, to):
    """Elements added to `to` to get v, or None."""
    items = []
    while v is not to:
        if not (v.op == 'app' and v.args[0] == 'push'):
            return None
        items.append(v.args[2])
        v = v.args[1]
    return items[::-1]


def empty(v):
    while v.op == 'app' and v.args[0] == 'push':
        v = v.args[1]
    return v.op == 'app' and v.args[0] == 'seq0'


def normal(v):
    """An insertion at the end is a push."""
    if v.op == 'app' and v.args[0] == 'vinsert':
        b = normal(v.args[1])
        if v.args[2] is App('len', v.args[1]) or b.op == 'app' and b.args[0] == 'seq0':
            return App('push', b, v.args[3])
    return v


CHANGES = ('popb', 'popf', 'pushf', 'rev', 'vinsert', 'vdedup', 'vretain', 'vtrunc', 'vremove')


def altered(t):
    """The text or list went through a library function that changes content or order."""
    for x in [t] + list(closure(t)):
        if x.op == 'app' and x.args[0] == 'call' and x.args[1].op == 'str' and ALTER.search('::' + x.args[1].args[0].rsplit('::', 1)[-1]):
            return True
        if x.op == 'app' and x.args[0] in ('lower', 'upper', 'trim') + CHANGES:
            return True
    return False


def value(h):
    return Fld(h, 0, 0)


def item_value(C, x, obj):
    if not obj:
        return x
    if x.op == 'adt' and len(x.args) == 4:
        return x.args[3]
    return None


class Container:
    def __init__(self, C, R, r, what, adtn, name):
        self.C, self.R, self.r, self.E, self.adtn, self.name = C, R, r, r.E, adtn, name
        self.obj = adtn == 'Obj'
        self.what = what
        self.reads = Reads(C, r)
        ty = inner_struct(C, adtn)
        self.adt = C.P.T[ty]['adt']
        self.vi = field_at(C, ty, is_vec(C, 'Pair' if self.obj else 'Value'))
        self.pi = None
        if self.obj:
            self.pi = next(i for i in range(8) if i != self.vi and self.option_of_obj(ty, i))
        self.cells = set()

    def option_of_obj(self, ty, i):
        try:
            return field_at(self.C, ty, lambda T, t: T.get('k') == 'adt' and T['adt'].endswith('Option')) == i
        except Exception:
            return False

    def say(self, res, key, text, e, why='not resolved'):
        w = [self.E.where(e['fr'], e['span'])] if e.get('span') else [self.r.fn.name]
        if res == 'ne' and mystery(e['st']):
            res, why = 'unk', 'a condition of the path is not understood'
        self.R.result(res, '%s:%s' % (key, self.name), '%s: %s' % (self.name, text), w, why)

    def added(self, items, e, stored):
        """The elements added on a path must be the values read on it; others must be kept elsewhere."""
        st = e['st']
        hs = self.reads.here(st)
        vals = [value(h) for h in hs]
        got = [item_value(self.C, x, self.obj) for x in items]
        if self.obj:
            for x in items:
                if x.op == 'adt' and len(x.args) == 4:
                    n = x.args[2]
                    if n.op == 'str' or n.op == 'app' and n.args[0] in ('cat', 'push') and any(y.op == 'str' for y in n.args):
                        self.say('ne', 'loaded:name', 'a field gets the name %s, which is not the one read' % show(n)[:60], e)
                    elif n.op == 'phi':
                        self.say('eq', '', 'a field has the name that was read', e)
                    else:
                        self.say('ne' if altered(n) else 'unk', 'loaded:name', 'a field gets the name %s' % show(n)[:60], e)
        left = list(vals)
        for g in got:
            if g is None:
                self.say('unk', '', 'an element that is added', e)
                continue
            i = next((i for i, v in enumerate(left) if v is g), None)
            if i is None:
                if g in vals:
                    self.say('ne', 'loaded:twice', 'a value read once is added twice', e)
                    continue
                inside = [v for v in vals if contains(g, v)]
                self.say('unk' if unmodelled(g) or g.op == 'phi' or not vals else 'ne', 'loaded:element', 'what is added is %s and not the value that was read' % show(g)[:80], e)
                for v in inside:
                    left.remove(v)
                continue
            if i:
                if not any(self.kept(v, e, stored) for v in left[:i]):
                    self.say('ne', 'loaded:order', 'values are not added in the order in which they were read', e)
            left.pop(i)
            self.say('eq', '', 'the value read is added', e)
        for v in left:
            if self.kept(v, e, stored):
                self.say('eq', '', 'a parent or global is kept', e)
            else:
                self.say('ne', 'loaded:lost', 'a value is read but not added', e)

    def kept(self, v, e, stored):
        """Held by a place that outlives the step (the parent, the globals)."""
        if 'head' not in e:
            # where the container is built: its parent, or a map that is still there
            par = self.E.deep(e['st'], e['fields'][self.pi]) if self.obj else None
            return par is not None and contains(par, v) or any(
                t.op == 'app' and t.args[0] not in ('after', 'next', 'hub') and t is not v and contains(t, v) for t in e['st'].cells.values())
        h = e['head'].cells
        return any(c in h and t is not h[c] and contains(t, v) and not is_stream(t) for c, t in e['st'].cells.items() if c != stored)

    def vec(self, e, v):
        """Follow the list back to where it was empty."""
        E = self.E
        todo, seen = [v], set()
        while todo:
            p = todo.pop()
            if p in seen:
                continue
            seen.add(p)
            n = 0
            for k, q in self.r.events:
                if k not in ('loop_entry', 'backedge', 'iterback') or q['site'] != p.args[0]:
                    continue
                a, b = at_path(q['head'].cells, p.args[1]), at_path(q['st'].cells, p.args[1])
                b = b if b is None else normal(b)
                if b is None or a is None and k != 'loop_entry':
                    self.say('unk', '', 'the list in the loop', q)
                    continue
                n += 1
                if k == 'loop_entry':
                    if empty(b):
                        items = peel(b, SEQ0)
                        self.added(items or [], q, p.args[1][0])
                    elif b.op == 'phi' and b.args[0] != p.args[0]:
                        todo.append(b)
                    else:
                        self.say('unk', '', 'the list before the loop: ' + show(b)[:60], q)
                    continue
                items = peel(b, a)
                if items is None:
                    if b.op == 'phi' and b.args[0] != p.args[0]:
                        todo.append(b)
                        continue
                    if empty(b) and not empty(a) or altered(b):
                        self.say('ne', 'loaded:list', 'a step changes the list to %s' % show(b)[:60], q)
                    else:
                        self.say('unk', '', 'a step of the list: ' + show(b)[:60], q)
                    continue
                self.added(items, q, p.args[1][0])
            if not n:
                self.R.unknown('the list of ' + self.name, 'its loop was not found')

    def judge(self):
        es = aggs(self.r, self.adt)
        done = set()
        lists = set()
        for e in es:
            v = self.E.deep(e['st'], e['fields'][self.vi])
            base, items = v, []
            while base.op == 'app' and base.args[0] == 'push':
                items.insert(0, base.args[2])
                base = base.args[1]
            lists.add(v)
            if base.op == 'phi':
                if base not in done:
                    done.add(base)
                    self.vec(e, base)
                self.added(items, e, None)
            elif base.op == 'app' and base.args[0] == 'seq0':
                self.added(items, e, None)
            else:
                self.say('ne' if altered(base) and any(x.op == 'phi' for x in closure(base)) else 'unk', 'loaded:list', 'the list of the container is %s' % show(base)[:60], e)
        if self.obj:
            self.parents(es)
        return lists

    def parents(self, es):
        cells = self.cells
        for e in es:
            p = self.E.deep(e['st'], e['fields'][self.pi])
            if p.op == 'adt' and p.args[1] == 1 and p.args[2].op == 'phi' and len(p.args[2].args[1]) > 1:
                cells.add(p.args[2].args[1][0])
            elif p.op == 'phi':
                cells.add(p.args[1][0])
        for e in es:
            p = self.E.deep(e['st'], e['fields'][self.pi])
            v = self.E.deep(e['st'], e['fields'][self.vi])
            if p.op == 'phi' or p.op == 'adt' and p.args[1] == 1:
                self.say('eq', '', 'the parent that was read', e)
                continue
            if not (p.op == 'adt' and p.args[1] == 0):
                self.say('unk', '', 'the parent', e)
                continue
            now = [e['st'].cells[c] for c in cells if c in e['st'].cells]
            if any(t.op == 'adt' and t.args[1] == 1 for t in now):
                self.say('ne', 'loaded:parent', 'the parent that was read is dropped', e)
            else:
                self.say('eq', '', 'no parent was read', e)
        if not cells and any(self.r.exits):
            self.R.unknown('the parent in ' + self.name, 'not found')


def is_stream(t):
    return t.op == 'app' and t.args[0] in ('after', 'next')


def inner_of(C, v, adtn):
    """The list of a container value: (list) or None."""
    for x in [v] + list(closure(v)):
        if x.op == 'adt' and x.args[0] == C.P.T[inner_struct(C, adtn)]['adt']:
            return x
    return None


def returned(C, R, r, con, lists, wrap):
    E = r.E
    n = 0
    for s, v in r.exits:
        v = E.deep(s, v)
        if v.op == 'adt' and v.args[1] == 1:
            continue
        if not (v.op == 'adt' and v.args[1] == 0):
            R.unknown(con.name, 'result not resolved')
            continue
        v = v.args[2]
        if wrap:
            if v.op == 'app' and v.args[0] == 'at':
                R.violation('loaded:result:' + con.name, '%s gives a part of what was read: %s' % (con.name, show(v)[:60]), [r.fn.name])
                continue
            if not (v.op == 'adt' and len(v.args) == 3):
                R.unknown(con.name, 'result not resolved: ' + show(v)[:60])
                continue
            if C.P.T[C.ty('Value')]['vars'][v.args[1]][0] != con.adtn:
                R.violation('loaded:kind:' + con.name, '%s gives a value of kind %s' % (con.name, C.P.T[C.ty('Value')]['vars'][v.args[1]][0]), [r.fn.name])
                continue
            v = v.args[2]
        hit = [l for l in lists if contains(v, l)]
        if hit:
            n += 1
            R.ok('%s is what was read' % con.name)
        elif v.op == 'app' and v.args[0] == 'at' or v.op == 'phi' and v.args[1][0] in con.cells:
            R.violation('loaded:result:' + con.name, '%s gives a part of what was read: %s' % (con.name, show(v)[:60]), [r.fn.name])
        elif tainted(v) or v.op == 'app':
            R.unknown(con.name, 'result not resolved: ' + show(v)[:60])
        else:
            R.violation('loaded:result:' + con.name, '%s gives %s' % (con.name, show(v)[:60]), [r.fn.name])
    if not n:
        R.unknown(con.name, 'no path gives a container')


def container(C, R, r, adtn, name, wrap):
    R.covered(r)
    con = Container(C, R, r, None, adtn, name)
    lists = con.judge()
    if not lists:
        return R.unknown(name, 'no container is built')
    returned(C, R, r, con, lists, wrap)


def words(C, R):
    """null, true and false."""
    M = C.light_parser()
    vh = value_hub(C)[0]
    vt = C.ty('Value')

    def setup(E, st, args, v):
        p = App('peek', v)
        E.assume_variant(st, p, frozenset([1]))
        E.assume(st, ChIn(Fld(p, 1, 0), M_AALPHA), True)
    n = 0
    for h in M.hubs:
        f = C.P.fns[h]
        rt = C.P.T[f.locals[0]]
        if f.id == vh.id or not (rt.get('k') == 'adt' and rt['args'] and rt['args'][0] == vt):
            continue
        r = pm.stream_unit(M, f, setup, budget=2_500_000)
        R.covered(r)
        E = r.E
        for s, v in r.exits:
            v = E.deep(s, v)
            if not (v.op == 'adt' and v.args[1] == 0):
                continue
            v = v.args[2]
            ws = {w.args[0] if type(w) is Term else w for w in (s.gh.get('streq') or {}).values()}
            const = None
            if v.op == 'adt' and v.args[0] == C.adtname('Value'):
                k = C.P.T[C.ty('Value')]['vars'][v.args[1]][0]
                if k == 'Null':
                    const = ('Null', None)
                elif k == 'Bool':
                    b = v.args[2]
                    const = ('Bool', bool(b.args[0]) if b.op == 'bool' else '?' if tainted(b) or b.op == 'sym' else 'what ' + show(b)[:40] + ' says')
            if len(ws) == 1 and not mystery(s):
                w = next(iter(ws))
                want = WORDS.get(w)
                if want is None and const is None:
                    continue
                n += 1
                if const and const[1] == '?':
                    R.unknown('the word ' + w, 'value not resolved')
                elif want == const:
                    R.ok('the word %s' % w)
                elif want is not None and const is None and (v.op != 'adt'):
                    R.unknown('the word ' + w, 'value not resolved: ' + show(v)[:60])
                else:
                    R.violation('loaded:word:' + w, 'the word %s gives %s' % (w, show(v)[:60]), [r.fn.name])
            elif const is not None:
                R.unknown('the value ' + show(v)[:40], 'for which words is not resolved')
    if not n:
        R.unknown('words', 'not found')


def rule_C34(C, R):
    R.rule = ('For every container the reader builds (in a document, and of a whole file), the list it is built from is followed '
              'back through the loops to where it was empty: each step adds exactly the values read in that step, in their '
              'order, each once (a value that is not added must have become the parent or a global), nothing read is lost '
              'on the way out, the parent that was read is kept, the container with that list is what is returned; the words '
              'null, true and false give these values and no other word does.')
    vh = value_hub(C)
    if vh is None or vh[2] is None or vh[1] is None:
        return R.unknown('values', 'the value reader was not found')
    for o, n in (('[', 'Arr'), ('(', 'Tup'), ('{', 'Obj')):
        guard(R, 'values in ' + o, lambda C, R: container(C, R, value_run(C, o, False, False), n, 'the value of ' + o, True), C, R)
    M = C.light_parser()
    for f in openers(C):
        rt = C.P.T[f.locals[0]]
        t = C.P.T[rt['args'][0]] if rt.get('k') == 'adt' and rt.get('args') else {}
        n = next((x for x in ('Obj', 'Arr', 'Tup') if t.get('k') == 'adt' and rt['args'][0] == C.ty(x)), None)
        if n is None:
            continue
        guard(R, 'the file read by ' + sname(f), lambda C, R: container(C, R, run_root(M, f), n, sname(f), False), C, R)
    guard(R, 'words', words, C, R)
