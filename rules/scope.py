"""Names: definitions are unique (C11) and resolve in the right scope (C07)."""
import re
from base import *
from term import *
import models
import parse_rule as pr
from parse_rule import wh, sname, owner_name

AT = 1 << ord('@')


# helpers --------------------------------------------------------------------------------------------
class Names:
    """The pieces of the loader that deal with names, found by their types."""

    def __init__(self, C):
        self.C, self.P = C, C.P
        self.M = C.parser()
        self.E = self.M.E
        self.SI = self.M.SI
        vh = pr.value_hub(C)
        self.hub = vh[0] if vh else None
        self.pair = C.adtname('Pair')
        self.pty = C.ty('Pair')
        self.vty = C.ty('Value')
        self.KT = pr.err_types(C)[3]

    def runs(self):
        return self.M.runs.values()

    # types of parameters
    def pairs_param(self, f):
        """Index of the parameter that lists the fields in scope."""
        for i in range(f.argc):
            t = self.deref(f.locals[i + 1])
            T = self.P.T[t]
            if T.get('k') == 'slice' and T.get('e') == self.pty or self.is_pairs(t):
                return i
        return None

    def globals_param(self, f):
        for i in range(f.argc):
            if self.is_globals(self.deref(f.locals[i + 1])):
                return i
        return None

    def deref(self, t):
        T = self.P.T[t]
        n = 0
        while T.get('k') in ('ref', 'ptr') and n < 6:
            t = T.get('to', T.get('e'))
            T = self.P.T[t]
            n += 1
        return t

    def is_pairs(self, t):
        T = self.P.T[t]
        return T.get('k') == 'adt' and T['adt'].endswith('::Vec') and T['args'] and T['args'][0] == self.pty

    def is_globals(self, t):
        T = self.P.T[t]
        return T.get('k') == 'adt' and T['adt'].endswith('Map') and len(T['args']) >= 2 and T['args'][1] == self.vty \
            and self.P.T[T['args'][0]].get('adt', '').endswith('::String')

    # terms
    def is_read(self, t):
        """t is the value a call of the value reader gave."""
        return t.op == 'fld' and t.args[1] == 0 and t.args[0].op == 'app' and t.args[0].args[0] == 'hub'

    def hub_of(self, t):
        return t.args[0] if self.is_read(t) else None

    def read_part(self, t):
        return self.is_read(t) or any(self.is_read(x) for x in closure(t))


def is_eq(t):
    return t.op == 'app' and t.args[0] == 'eq'


def map_root(m):
    """The map before the changes made since."""
    n = 0
    while m.op == 'app' and n < 40:
        if m.args[0] in ('mput', 'mdel'):
            m = m.args[1]
        elif m.args[0] == 'hubout':
            m = m.args[4] if len(m.args) > 4 else m.args[-1]
        else:
            break
        n += 1
    return m


def seq_root(t):
    n = 0
    while t.op == 'app' and t.args[0] in ('push', 'pushf', 'popf', 'popb') and n < 40:
        t = t.args[1]
        n += 1
    return t


def missing(E, st, seq, key):
    """True: no element of the list has this name; False: the path does not establish it; None: established some other way, perhaps."""
    other = False
    for t, v in st.facts.items():
        if t.op == 'app' and t.args[0] == 'all' and t.args[1] is seq and v == ('B', False):
            x = t.args[3]
            if is_eq(x) and any(a is key for a in x.args[1:]) and any(a.op == 'fld' and a.args[0] is E.ELEM and a.args[2] == 0 for a in x.args[1:]):
                if E.decide(st, Lt(t.args[2], E.mklen(st, seq))) is False:
                    return True
        if any(x is key for x in closure(t)):
            if t.op == 'app' and t.args[0] == 'mapget' and t.args[2] is key:
                other = True
            elif unclear(t):
                other = True
    if seq.op == 'app' and seq.args[0] == 'seq0':
        return True
    return None if other else False


def present(E, st, seq, key):
    """Some element of the list has this name on this path."""
    for t, v in st.facts.items():
        if is_eq(t) and v == ('B', True):
            a, b = t.args[1:]
            for x, y in ((a, b), (b, a)):
                if x is key and y.op == 'fld' and y.args[2] == 0 and y.args[0].op == 'app' and y.args[0].args[0] == 'at' and y.args[0].args[1] is seq:
                    return True
        if t.op == 'app' and t.args[0] == 'all' and t.args[1] is seq and v == ('B', True):
            return True
    return False


def in_map(E, st, m, key):
    """1: the key is in the map, 0: it is not, None: not known."""
    o = App('mapget', m, key)
    v = st.facts.get(o)
    if v is not None and v[0] == 'V' and len(v[1]) == 1:
        return 1 if 1 in v[1] else 0
    return None


LESS = ('skip', 'take', 'step_by', 'last', 'first', 'nth', 'get', 'skip_while', 'take_while', 'split_first', 'split_last', 'any', 'all', 'find', 'iter')


def unclear(t):
    """Some function with no exact meaning here takes part (those that only leave elements out do not count)."""
    for x in opaque_calls(t):
        n = str(x.args[1].args[0]) if len(x.args) > 1 and x.args[1].op == 'str' else ''
        if n.rsplit('::', 1)[-1] not in LESS:
            return True
    return False


def odd_loop(E, r, seq, key):
    """A loop compares the name with elements of the list in an order other than upwards from some constant."""
    for k, e in r.events:
        if k not in ('iterback', 'backedge'):
            continue
        for t, v in e['st'].facts.items():
            if not (is_eq(t) and any(a is key for a in t.args[1:])):
                continue
            for a in t.args[1:]:
                if a.op == 'fld' and a.args[0].op == 'app' and a.args[0].args[0] == 'at' and a.args[0].args[1] is seq:
                    if v == ('B', True):
                        if remembers(E, e, seq):
                            return True
                        continue
                    b, n = split_add(a.args[0].args[2])
                    if b is None or b.op != 'phi' or b.args[0] != e['site']:
                        if b is not None and any(x.op == 'phi' and x.args[0] == e['site'] and x is not seq for x in closure(b)):
                            return True
                        if b is not None and b.op == 'phi':
                            continue
                        continue
                    for k2, e2 in r.events:
                        if k2 == 'loop_entry' and e2['site'] == b.args[0]:
                            c = at_path(e2['st'].cells, b.args[1])
                            if c is None or c.op != 'int':
                                return True
    return False


def remembers(E, e, seq):
    """The loop goes on with more changed than its position in the list."""
    pos = {p[0][0] for p in iterations(E, e, seq)}
    for c, t in e['head'].cells.items():
        n = e['st'].cells.get(c)
        if n is not None and n is not t and c not in pos and any(x.op == 'phi' and x.args[0] == e['site'] for x in [t, *closure(t)]):
            return True
    return False


def pure_text(k):
    """The text was taken over as it was read."""
    for x in [k, *closure(k)]:
        if x.op == 'app' and x.args[0] == 'call':
            return False
    return True


# C11 ------------------------------------------------------------------------------------------------
def rule_C11(C, R):
    R.rule = ('Every statement that adds a field read from a document to the list of an object, a global to the map of a file or a '
              'parent to an object is an obligation: on every path to it, the list (map, place) as it is then has been searched '
              'completely for that very name and did not have it. The lists start empty and grow in no other way. Every duplicate '
              'error is an obligation, too: its name was found in the same object (file), nowhere else, and is the name reported.')
    N = Names(C)
    if N.hub is None:
        return R.unknown('value reader', 'not found')
    own = set()           # cells of the lists of objects under construction
    for r in N.runs():
        R.covered(r)
    guard(R, 'fields', fields, N, R, own)
    guard(R, 'globals', globals_, N, R)
    guard(R, 'parents', parents, N, R)
    guard(R, 'lists', lists, N, R, own)
    guard(R, 'duplicate errors', dup_errors, N, R, own)


def field_pushes(N):
    for r in N.runs():
        for k, e in r.events:
            if k != 'push':
                continue
            it = N.E.deep(e['st'], e['item'])
            if it.op == 'adt' and it.args[0] == N.pair and len(it.args) == 4 and N.read_part(it.args[3]):
                yield r, e, it


def global_puts(N):
    for r in N.runs():
        for k, e in r.events:
            if k != 'map_insert':
                continue
            v = N.E.deep(e['st'], e['value'])
            if N.is_read(v) and e['key'].op not in ('tup', 'adt'):
                yield r, e, v


def fields(N, R, own):
    E, n = N.E, 0
    for r, e, it in field_pushes(N):
        n += 1
        st = e['st']
        seq, key = E.deep(st, e['seq']), it.args[2]
        if e['ref'].op == 'ref':
            own.add(e['ref'].args[0])
        m = missing(E, st, seq, key)
        text = 'the name of a field added in %s is not in the object yet' % owner_name(e)
        if m:
            R.ok(text)
        elif m is False and not phi_joined(seq, key) and not odd_loop(E, r, seq, key):
            R.violation('field:' + owner_name(e), 'a field is added to an object in %s although the object may have a field of that name: the path '
                        'to it does not search all its fields' % owner_name(e), wh(E, e))
        else:
            R.unknown(text, 'the names are compared in a way that is not understood')
    if not n:
        R.unknown('fields', 'no statement that adds a field was found')


def phi_joined(*ts):
    return any(x.op in ('stale', 'undef') for t in ts for x in [t, *closure(t)])


def globals_(N, R):
    E, n = N.E, 0
    late = []
    for r, e, v in global_puts(N):
        n += 1
        st = e['st']
        m, key = E.deep(st, e['map']), E.deep(st, e['key'])
        p = in_map(E, st, m, key)
        text = 'the name of a global added in %s is not defined in the file yet' % owner_name(e)
        if p == 0:
            R.ok(text)
        elif p == 1:
            R.violation('global:' + owner_name(e), 'a global that is defined already is replaced in %s' % owner_name(e), wh(E, e))
        else:
            late.append((r, e, m, key, text))
    for r, e, m, key, text in late:
        # inserted first, looked at afterwards: every path that goes on knows that there was no such name
        o = App('mapget', m, key)
        good, bad = 0, None
        for st, what in continuing(N, r):
            if any(has_put(t, m, key) for t in st.cells.values()):
                if E.get_variants(st, o) == frozenset([0]):
                    good += 1
                else:
                    bad = what
        if good and bad is None:
            R.ok(text + ' (looked at after inserting)')
        else:
            R.violation('global:' + owner_name(e), 'a global is added in %s although the file may define that name already: the map '
                        'as it is then was not searched for it' % owner_name(e), wh(E, e))
    if not n:
        R.unknown('globals', 'no statement that defines a global was found')


def continuing(N, r):
    for k, e in r.events:
        if k in ('backedge', 'hub_call', 'push', 'map_insert'):
            yield e['st'], e
    for s, v in r.exits:
        v = N.E.deep(s, v)
        if not (v.op == 'adt' and v.args[1] == 1):
            yield s, None


def has_put(t, m, key):
    return any(x.op == 'app' and x.args[0] == 'mput' and x.args[1] is m and x.args[2] is key for x in [t, *closure(t)])


def inners(N):
    """The constructions of the shared part of an Obj: (run, event, fields term, parent term)."""
    P = N.P
    ia = {}
    for r in N.runs():
        for k, e in r.events:
            if k != 'agg':
                continue
            a = e['adt']
            if a not in ia:
                T = P.T[e['ty']]
                fs = T['vars'][0][1] if T['kind'] == 'struct' else []
                li = [i for i, (nm, t) in enumerate(fs) if N.is_pairs(t)]
                pi = [i for i, (nm, t) in enumerate(fs) if P.T[t].get('k') == 'adt' and P.T[t]['adt'].endswith('::Option')]
                ia[a] = (li[0], pi[0]) if len(li) == 1 and len(pi) == 1 and T.get('local') else None
            if ia[a]:
                t = N.E.deep(e['st'], e['term'])
                yield r, e, t.args[2 + ia[a][0]], t.args[2 + ia[a][1]]


def parents(N, R):
    E = N.E
    cells = set()
    some = 0
    for r, e, fs, par in inners(N):
        for x in [par, *closure(par)]:
            if x.op == 'phi' and x.args[1] and type(x.args[1][0]) is tuple and (par is x or par.op == 'adt' and len(par.args) > 2 and par.args[2] is x):
                cells.add(x.args[1][0])
        if par.op == 'adt' and par.args[1] == 1:
            some += 1
    n = 0
    for r in N.runs():
        for k, e in r.events:
            if k != 'set_some' or e['cell'] not in cells or e['path']:
                continue
            n += 1
            old = E.deep(e['st'], e['old'])
            vs = E.get_variants(e['st'], old)
            text = 'the object has no parent yet where %s sets one' % owner_name(e)
            if vs == frozenset([0]):
                R.ok(text)
            elif vs is None or 1 in vs:
                R.violation('parent:' + owner_name(e), 'a parent is set in %s although the object may have one already' % owner_name(e), wh(E, e))
    if some and not n:
        R.unknown('parents', 'no statement that sets the parent of an object was found')


def lists(N, R, own):
    """The lists that objects are built from start empty and grow only by the additions above."""
    E = N.E
    todo, done = [], set()
    for r, e, fs, par in inners(N):
        todo.append((r, fs, e))
    while todo:
        r, t, e = todo.pop()
        b = seq_root(t)
        if (b, r) in done:
            continue
        done.add((b, r))
        text = 'the list of fields of an object made in %s' % owner_name(e)
        if b.op == 'app' and b.args[0] == 'seq0':
            R.ok(text + ' starts empty')
        elif b.op == 'phi' and b.args[0][0] == 'loop':
            for k, x in r.events:
                if k in ('loop_entry', 'backedge') and x['site'] == b.args[0]:
                    c = at_path(x['st'].cells, b.args[1])
                    if c is None:
                        R.unknown(text, 'it is not followed through a loop')
                    else:
                        todo.append((r, E.deep(x['st'], c), x))
        elif b.op == 'phi' or b.op == 'old':
            R.unknown(text, 'it is not followed through a join')
        elif b.op == 'app' and b.args[0] == 'call':
            R.unknown(text, 'it comes from a call that is not modelled')
        else:
            R.unknown(text, 'it is %s' % str(b)[:80])


def dup_errors(N, R, own):
    E = N.E
    roots = set()
    for r, e, v in global_puts(N):
        roots.add(map_root(E.deep(e['st'], e['map'])))
    seen = set()
    for r in N.runs():
        for k, e in r.events:
            if k != 'agg' or e['adt'] != N.KT['adt']:
                continue
            name = pr.kname(N.KT, e['variant'])
            if not name.startswith('Duplicate'):
                continue
            st = e['st']
            t = E.deep(st, e['term'])
            key = t.args[2]
            seen.add(name)
            text = '%s in %s' % (name, owner_name(e))
            if 'Global' in name:
                got = [x for x, v in st.facts.items() if x.op == 'app' and x.args[0] == 'mapget' and v[0] == 'V' and v[1] == frozenset([1]) and x.args[2] is key]
                good = [x for x in got if map_root(x.args[1]) in roots]
                if good:
                    R.ok(text + ' names a global of the file')
                elif got:
                    R.unknown(text, 'the map it was found in is not that of the file')
                else:
                    R.unknown(text, 'no global of that name was found')
            elif key.op == 'str':
                if key.args[0] != '^':
                    R.violation('duperr:' + owner_name(e), '%s names %r' % (text, key.args[0]), wh(E, e))
                elif any(v == ('V', frozenset([1])) or x.op == 'phi' for x, v in st.facts.items() if parent_like(N, x)) or some_parent(E, st, own):
                    R.ok(text + ' names the second parent')
                else:
                    R.unknown(text, 'the first parent was not found')
            else:
                lists_ = set()
                for x, v in st.facts.items():
                    if is_eq(x) and v == ('B', True) and any(a is key for a in x.args[1:]):
                        for a in x.args[1:]:
                            if a.op == 'fld' and a.args[2] == 0 and a.args[0].op == 'app' and a.args[0].args[0] == 'at':
                                lists_.add(a.args[0].args[1])
                    if x.op == 'app' and x.args[0] == 'all' and v == ('B', True):
                        lists_.add(x.args[1])
                mine = [l for l in lists_ if (b := seq_root(l)).op == 'phi' and b.args[1][0] in own or l.op == 'app' and l.args[0] == 'seq0']
                if mine:
                    R.ok(text + ' names a field of the same object')
                elif lists_:
                    R.violation('duperr:' + owner_name(e), '%s is raised for a name found in other fields than those of the object being read' % text, wh(E, e))
                else:
                    R.unknown(text, 'no field of that name was found')
    for want in ('DuplicateField', 'DuplicateGlobal'):
        if want not in seen:
            R.unknown(want, 'never raised')


def parent_like(N, x):
    return x.op == 'phi'


def some_parent(E, st, own):
    """A local optional place beside the list holds something."""
    frames = {c[1] for c in own if c[0] == 'L'}
    for c, t in st.cells.items():
        if c[0] == 'L' and c[1] in frames and t.op == 'adt' and str(t.args[0]).endswith('::Option') and t.args[1] == 1:
            return True
    return False


# C07 ------------------------------------------------------------------------------------------------
def rule_C07(C, R):
    R.rule = ('At every call that reads a value: the fields passed as scope are the list of the innermost object being read by the '
              'active functions (the scope the function was given when it reads none), and the globals are those of the file the '
              'characters come from - the map that was passed in with the reader, or one that started empty when the file was '
              'opened. Every value a plain name gives is the first field of that name in the scope passed in, every global one '
              'found in the map passed in, by the name as it was read; a name is reported missing only after a complete search. '
              'Nothing whose name starts with \'@\' is added to an object, and only such names to the globals.')
    N = Names(C)
    if N.hub is None:
        return R.unknown('value reader', 'not found')
    for r in N.runs():
        R.covered(r)
    guard(R, 'scopes', scopes, N, R)
    guard(R, 'kinds of definition', kinds, N, R)
    guard(R, 'resolution', resolution, N, R)
    guard(R, 'missing names', not_found, N, R)
    guard(R, 'names of globals', keys, N, R)


def entry_of(N, r, i):
    return r.args[i] if i is not None and i < len(r.args) else None


def stream_cell(N, E, e):
    """The reader a call reads from: 'in' for the one the analysed function was given, otherwise its cell."""
    i = next((i for i in range(e['fn'].argc) if stream_type(N, e['fn'].locals[i + 1])), None)
    if i is None:
        return None
    t = e['args'][i]
    n = 0
    while t.op in ('ref', 'pref') and n < 6:
        if t.op == 'ref' and str(t.args[0][0]).startswith('RC'):
            return t.args[0]
        t = E.load_ref(e['st'], t)
        n += 1
    for x in [t, *closure(t)]:
        if x.op == 'ref' and str(x.args[0][0]).startswith('RC'):
            return x.args[0]
    return None


def stream_type(N, t):
    T = N.P.T[N.deref(t)]
    return T.get('k') == 'adt' and T['adt'].endswith('CharStream')


def fresh_map(N, E, r, e, t, seen):
    """'fresh': the map started empty in this run; 'given': it is one the caller passed in; None: not known."""
    t = map_root(t)
    if t.op == 'app' and t.args[0] == 'map0':
        return 'fresh'
    if t.op == 'sym':
        return 'given'
    if t.op == 'phi' and t.args[0][0] == 'loop':
        if t in seen:
            return 'same'
        seen.add(t)
        out = set()
        for k, x in r.events:
            if k in ('loop_entry', 'backedge') and x['site'] == t.args[0]:
                c = at_path(x['st'].cells, t.args[1])
                out.add(None if c is None else fresh_map(N, E, r, x, E.deep(x['st'], c), seen))
        out.discard('same')
        return out.pop() if len(out) == 1 else None
    return None


def scopes(N, R):
    E = N.E
    n = 0
    for r in N.runs():
        pi, gi = N.pairs_param(r.fn), N.globals_param(r.fn)
        given_p, given_g = entry_of(N, r, pi), entry_of(N, r, gi)
        for k, e in r.events:
            if k != 'hub_call':
                continue
            st, f = e['st'], e['fn']
            p, g = N.pairs_param(f), N.globals_param(f)
            s = stream_cell(N, E, e)
            who = owner_name(e)
            if s is None:
                R.unknown('reader passed in ' + who, 'not followed')
                continue
            inherited = str(s[0]) == 'RCin'
            n += 1
            # globals
            text = 'the globals passed to %s in %s' % (sname(f), who)
            if g is not None:
                a = e['args'][g]
                if inherited:
                    if a is given_g:
                        R.ok(text + ' are those of the file')
                    else:
                        c = follow(E, st, a)
                        kind = fresh_map(N, E, r, e, c, set()) if c is not None else None
                        if kind == 'fresh':
                            R.violation('globals:' + who, text + ' are new ones, not those of the file being read', wh(E, e))
                        elif kind == 'given' and a.op == 'ref' and a.args[0][0] == 'L':
                            R.violation('globals:' + who, text + ' are a copy of those of the file', wh(E, e))
                        else:
                            R.unknown(text, 'not followed')
                else:
                    c = follow(E, st, a)
                    kind = 'given' if a is given_g and a is not None else fresh_map(N, E, r, e, c, set()) if c is not None else None
                    if kind == 'fresh' and started_over(N, r, e, c):
                        R.violation('globals:' + who, text + ' are new ones for every value, not those of the file being read', wh(E, e))
                    elif kind == 'fresh':
                        R.ok(text + ' started empty with the file')
                    elif kind == 'given':
                        R.violation('globals:' + who, text + ' are those of another file than the one being read', wh(E, e))
                    else:
                        R.unknown(text, 'not followed')
            # fields
            if p is not None:
                scope_arg(N, R, r, e, e['args'][p], given_p, inherited, who, f)
    if not n:
        R.unknown('scopes', 'no call that reads a value was found')


def follow(E, st, a):
    n = 0
    while a.op in ('ref', 'pref') and n < 8:
        a = E.load_ref(st, a)
        n += 1
    a = E.deep(st, a)
    return models.seq_norm(a) if a.op == 'arr' else a


def started_over(N, r, e, c):
    """The map is a new one although values were read from the same text before, in the same loop."""
    if not (c.op == 'app' and c.args[0] == 'map0'):
        return False
    sites = {x.args[0] for x in [e['version'], *closure(e['version'])] if x.op == 'phi' and x.args[0][0] == 'loop'}
    for k, x in r.events:
        if k == 'backedge' and x['site'] in sites:
            for t in x['st'].cells.values():
                for y in [t, *closure(t)]:
                    if y.op == 'app' and y.args[0] == 'hub' and y.args[3] is e['version']:
                        return True
    return False


def inner_list(N, e):
    """The list of fields that belongs to the innermost active function having one of its own."""
    fr = e['fr']
    while fr is not None:
        own = []
        for i, t in enumerate(fr.fn.locals):
            if i > fr.fn.argc and N.is_pairs(t) and ('L', fr.fid, i) in e['st'].cells:
                own.append(('L', fr.fid, i))
        # those that hold a value here; moved-out temporaries do not
        live = [c for c in own if e['st'].cells[c].op not in ('undef', 'stale', 'moved')]
        if live:
            return live
        fr = fr.parent
    return []


def scope_arg(N, R, r, e, a, given, inherited, who, f):
    E, st = N.E, e['st']
    text = 'the fields passed as scope to %s in %s' % (sname(f), who)
    live = inner_list(N, e)
    c = follow(E, st, a)
    lv = left_value(N, r, e)
    if lv is not None:
        # something was looked up before: this call reads what follows the dot
        v = E.get_variants(st, lv)
        obj = N.P.variant(N.vty, 'Obj')
        if v == frozenset([obj]):
            bases = list_bases(N, E, r, e, c, set())
            mine = [b for b in bases if b is not None and (b is lv or same_left(b, lv))]
            # a loop head shared by the ways to look the left name up: each comes with the list of its own value
            if mine and all(b is not None and (b in mine or looked_up(b)) for b in bases):
                R.ok(text + ' are those of the object on the left of the dot')
            elif a is given or any(x is follow(E, st, given) for x in parts(c)):
                R.violation('dot:' + who, text + ' are those around the dotted name, not those of the object on its left', wh(E, e))
            else:
                R.unknown(text, 'not traced to the object on the left of the dot: %s' % str(c)[:60])
            return
    if a.op == 'ref' and a.args[0] in live:
        cell = a.args[0]
        if a.args[1] == () or c is E.deep(st, st.cells[cell]):
            R.ok(text + ' are those of the object being read')
            return
    for cell in live:
        if c is E.deep(st, st.cells[cell]):
            R.ok(text + ' are those of the object being read')
            return
    if a is given and given is not None:
        if not inherited:
            R.violation('scope:' + who, text + ' are those of another file', wh(E, e))
        elif live and any(building(N, E, r, e, x) for x in live):
            R.violation('scope:' + who, text + ' are those of an outer object', wh(E, e))
        else:
            R.ok(text + ' are those the function was given')
        return
    if c is not None and c.op == 'app' and c.args[0] == 'seq0':
        if inherited:
            R.violation('scope:' + who, text + ' are none, although the value is read inside an object', wh(E, e))
        else:
            R.ok(text + ' are none, at the top of a file')
        return
    R.unknown(text, 'not followed: %s' % str(c)[:80])


def left_value(N, r, e):
    """The value a name was resolved to earlier on the path."""
    out = []
    for t, v in e['st'].facts.items():
        if v[0] == 'V' and t.op == 'fld':
            b = t.args[0]
            if b.op == 'app' and b.args[0] == 'mapget' and t.args[1] == 1 or b.op == 'app' and b.args[0] == 'at' and t.args[1] == -1 and t.args[2] == 1:
                out.append(t)
    return out[0] if len(out) == 1 else None


def looked_up(b):
    """A value that was found by its name, or one of the fixed ones."""
    b = base_of(b)
    if b is None:
        return False
    x = b.args[0] if b.op == 'fld' else b
    return x.op == 'app' and x.args[0] in ('mapget', 'at') or b.op in ('agg', 'app') and 'SENTINEL' in str(b)


def same_left(b, lv):
    return base_of(b) is lv


def parts(c):
    """The lists a list was put together from."""
    while c.op == 'app' and c.args[0] in ('push', 'pushf'):
        c = c.args[1]
    if c.op == 'app' and c.args[0] == 'concat':
        return [x for a in c.args[1:] for x in parts(a)]
    return [c]


def list_bases(N, E, r, e, c, seen):
    """What the lists that make up c at first belong to."""
    if c.op == 'app' and c.args[0] == 'concat':
        return list_bases(N, E, r, e, c.args[1], seen) + list_bases(N, E, r, e, c.args[2], seen)
    c = seq_root(c)
    if c in seen:
        return []
    seen.add(c)
    if c.op == 'phi' and c.args[0][0] == 'loop':
        out = []
        for k, x in r.events:
            if k == 'loop_entry' and x['site'] == c.args[0]:
                y = at_path(x['st'].cells, c.args[1])
                if y is None:
                    out.append(None)
                elif compatible(E, x['st'], e['st']):
                    out += list_bases(N, E, r, x, E.deep(x['st'], y), seen)
        return out
    return [base_of(c)] if c.op in ('fld', 'app') else [None]


def compatible(E, a, b):
    """The path b may have come through a: no fact tells them apart."""
    for t, v in a.facts.items():
        w = b.facts.get(t)
        if v[0] == 'V' and t.op == 'fld' and t not in b.facts and t.args[0].op == 'app' and t.args[0].args[0] in ('mapget', 'at'):
            return False
        if w is not None and v[0] == 'V' and w[0] == 'V' and not (v[1] & w[1]):
            return False
    return True


def building(N, E, r, e, cell):
    """The list grows in this run."""
    for k, x in r.events:
        if k == 'push' and x['ref'].op == 'ref' and x['ref'].args[0] == cell:
            return True
    return False


def head_version(N, E, st, seq):
    """(text position where the current round of the loop that fills the list began)."""
    b = seq_root(seq)
    if b.op != 'phi' or b.args[0][0] != 'loop':
        return None
    for t in st.facts:
        for x in [t, *closure(t)]:
            if x.op == 'phi' and x.args[0] == b.args[0] and x.args[1] and str(x.args[1][0][0]).startswith('RC') and x.args[1][1:] == (N.SI.i_stream,):
                return x
    return None


def first_mask(N, E, st, v0, upto):
    """Which characters the definition can start with on this path: the first one at or after v0 that is known to be no layout."""
    anc = E.ancestors(st, upto)
    ws = models.M_WS | (1 << ord('#'))
    cand = []
    for t, v in st.facts.items():
        if t.op == 'fld' and v[0] == 'M' and t.args[0].op == 'app' and t.args[0].args[0] == 'peek':
            u = t.args[0].args[1]
            if u is not v0 and not (u in anc and v0 in E.ancestors(st, u)):
                continue
            if v[1] & ws == 0:
                cand.append((u, v[1]))
    best = [(u, m) for u, m in cand if not any(w is not u and w in E.ancestors(st, u) for w, _ in cand)]
    return best[0][1] if len(best) == 1 else None


def kinds(N, R):
    E = N.E
    cells = set()
    for r, e, it in field_pushes(N):
        st = e['st']
        seq = E.deep(st, e['seq'])
        v0 = head_version(N, E, st, seq)
        up = version_of(it.args[3])
        text = 'the name of a field added in %s does not start with \'@\'' % owner_name(e)
        m = first_mask(N, E, st, v0, up) if v0 is not None and up is not None else None
        if m is None:
            R.unknown(text, 'its first character is not followed')
        elif m & AT == 0:
            R.ok(text)
        elif m & ~AT == 0:
            R.violation('kind:field:' + owner_name(e), 'a global is added to the fields of an object in %s' % owner_name(e), wh(E, e))
        else:
            R.unknown(text, 'its first character is not known')
        if not pure_text(it.args[2]):
            R.unknown('the name of a field added in %s' % owner_name(e), 'changed by a call')
        if e['ref'].op == 'ref':
            cells.add(e['ref'].args[0])
        # the value was read with the fields that came before it
    for r, e, v in global_puts(N):
        st = e['st']
        h = N.hub_of(v)
        p = None
        for c, t in st.cells.items():
            if c[0] == 'L' and t.op in ('phi', 'app') and c in cells:
                p = head_version(N, E, st, E.deep(st, t)) or p
        up = version_of(v)
        text = 'the name of a global added in %s starts with \'@\'' % owner_name(e)
        m = first_mask(N, E, st, p, up) if p is not None and up is not None else None
        if m is None:
            R.unknown(text, 'its first character is not followed')
        elif m & ~AT == 0:
            R.ok(text)
        elif m & AT == 0:
            R.violation('kind:global:' + owner_name(e), 'something other than a global is added to the globals in %s' % owner_name(e), wh(E, e))
        else:
            R.unknown(text, 'its first character is not known')


def version_of(t):
    """The place in the text where the call that gave this value began."""
    for x in [t, *closure(t)]:
        if x.op == 'app' and x.args[0] == 'hub':
            return x.args[3] if type(x.args[3]) is Term else None
    return None


def base_of(t):
    """The value that fields and elements are taken from."""
    n = 0
    while n < 30:
        n += 1
        if t.op == 'fld':
            t2 = t.args[0]
            if t2.op == 'app' and t2.args[0] == 'at' and t.args[1] == -1 or t2.op == 'app' and t2.args[0] == 'mapget' or t2.op == 'app' and t2.args[0] == 'hub':
                return t
            t = t2
        elif t.op == 'app' and t.args[0] in ('unbox', 'at'):
            t = t.args[1]
        else:
            return t
    return t


def resolution(N, R):
    """What the values given by names are."""
    E = N.E
    n = 0
    for r in N.runs():
        pi, gi = N.pairs_param(r.fn), N.globals_param(r.fn)
        if pi is None or gi is None:
            continue
        pc = [a.args[0] if a.op == 'pref' else None for a in [r.args[pi]]][0]
        look = {}
        for s, v in r.exits:
            v = E.deep(s, v)
            if not (v.op == 'adt' and v.args[1] == 0):
                continue
            val = v.args[2]
            own = E.deep(s, val)
            n += made_up(N, R, r, s, own)
            if own.op in ('phi', 'adt') and not any(x.op == 'app' and x.args[0] in ('at', 'mapget') for x in closure(own)):
                continue
            n += one_value(N, R, r, s, own, pi, gi)
    if not n:
        R.unknown('resolution', 'no name is looked up in what was analysed')


def entry_mask(N, r, s):
    """Which characters the name can start with: the first one the function sees."""
    for t, v in s.facts.items():
        if t.op == 'fld' and v[0] == 'M' and t.args[0].op == 'app' and t.args[0].args[0] == 'peek' and t.args[0].args[1].op == 'sym':
            return v[1]
    return None


def name_like(k):
    """Something collected from the text."""
    return any(x.op == 'phi' and x.args[0][0] == 'loop' for x in [k, *closure(k)])


def made_up(N, R, r, s, val):
    """A plain value given for a name that was looked up and is not there."""
    E = N.E
    pi, gi = N.pairs_param(r.fn), N.globals_param(r.fn)
    if any(x.op in ('phi', 'sym') or x.op == 'app' and x.args[0] in ('hub', 'hubout', 'pf', 'call', 'at', 'mapget') for x in [val, *closure(val)]):
        return 0
    for t, v in s.facts.items():
        gone = None
        if t.op == 'app' and t.args[0] == 'mapget' and v == ('V', frozenset([0])) and name_like(t.args[2]):
            gone = any(map_root(t.args[1]) is x for x in contents(E, r, r.args[gi])) and 'globals'
        if t.op == 'app' and t.args[0] == 'all' and v == ('B', False) and any(t.args[1] is x for x in contents(E, r, r.args[pi])) and is_eq(t.args[3]):
            if E.decide(s, Lt(t.args[2], E.mklen(s, t.args[1]))) is False:
                gone = 'fields in scope'
        if gone:
            R.violation('resolve:none:' + sname(r.fn), 'a name that is not among the %s gives a value in %s' % (gone, sname(r.fn)), [r.fn.name])
            return 1
    return 0


def one_value(N, R, r, s, val, pi, gi):
    E = N.E
    b = base_of(val)
    given_p, given_g = r.args[pi], r.args[gi]
    name = sname(r.fn)
    first = entry_mask(N, r, s)
    if b.op == 'fld' and b.args[0].op == 'app' and b.args[0].args[0] == 'at':
        if first is not None and first & AT and any(x is b.args[0].args[1] for x in contents(E, r, given_p)):
            if first & ~AT == 0:
                R.violation('resolve:at:' + name, 'a name that starts with \'@\' in %s gives a field' % name, [r.fn.name])
                return 1
            R.unknown('what kind of name gives a field in ' + name, 'its first character is not known')
        seq, pos = b.args[0].args[1], b.args[0].args[2]
        if not any(x is seq for x in contents(E, r, given_p)):
            if seq.op == 'app' and seq.args[0] in ('unbox',) or seq.op == 'fld':
                return 0
            R.unknown('a name in %s' % name, 'looked up in a list that is not followed: %s' % str(seq)[:80])
            return 1
        text = 'a plain name in %s gives the first field of that name in its scope' % name
        ok = None
        for t, v in s.facts.items():
            if is_eq(t) and v == ('B', True):
                x, y = t.args[1:]
                for k, z in ((x, y), (y, x)):
                    if z.op == 'fld' and z.args[2] == 0 and z.args[0] is b.args[0]:
                        ok = k
        if b.args[2] != 1:
            R.violation('resolve:value:' + name, 'a name in %s gives something other than the value of the field' % name, [r.fn.name])
        elif ok is not None and pure_text(ok):
            first = E.forall_val(s, seq, pos, None) if False else any(
                t.op == 'app' and t.args[0] == 'all' and t.args[1] is seq and t.args[2] is pos and v == ('B', False) and any(x is ok for x in closure(t.args[3]))
                for t, v in s.facts.items())
            R.ok(text)
        elif any(b.args[0] in closure(t) and unclear(t) for t in s.facts):
            R.unknown(text, 'the names are compared in a way that is not understood')
        elif any(x.op in ('old', 'stale') for x in closure(b)) or pos.op == 'old':
            R.unknown(text, 'the comparison was joined away')
        else:
            R.violation('resolve:field:' + name, 'a plain name in %s gives a field whose name was not compared with it' % name, [r.fn.name])
        return 1
    if b.op == 'fld' and b.args[0].op == 'app' and b.args[0].args[0] == 'mapget':
        m, key = b.args[0].args[1], b.args[0].args[2]
        if first is not None and first & ~AT and any(map_root(m) is x for x in contents(E, r, given_g)):
            if first & AT == 0:
                R.violation('resolve:plain:' + name, 'a name that does not start with \'@\' in %s gives a global' % name, [r.fn.name])
                return 1
            R.unknown('what kind of name gives a global in ' + name, 'its first character is not known')
        text = 'a global in %s is looked up in the globals of its file' % name
        if any(map_root(m) is x for x in contents(E, r, given_g)):
            if pure_text(key) and key.op in ('phi', 'old', 'app'):
                R.ok(text)
            else:
                R.unknown(text, 'by a name that is not understood')
        elif m.op == 'sym' or m.op == 'app' and m.args[0] == 'map0':
            R.violation('resolve:global:' + name, 'a global in %s is looked up somewhere else than in the globals of its file' % name, [r.fn.name])
        else:
            R.unknown(text, 'the map is not followed')
        return 1
    return 0


def contents(E, r, a):
    """What a parameter refers to when the function starts."""
    out = []
    n = 0
    while a is not None and n < 6:
        out.append(a)
        if a.op == 'pref':
            a = a.args[0]
        elif a.op == 'ref':
            a = r.entry.cells.get(a.args[0]) if getattr(r, 'entry', None) is not None else Sym('a%d' % a.args[0][1]) if a.args[0][0] == 'A' else None
        else:
            break
        n += 1
    return out


def shape(k):
    """How a key is made from the name that was read: the constant pieces and the parts cut off."""
    if k.op == 'app' and k.args[0] == 'slice':
        if 'RangeFull' in str(k.args[2]) or 'RangeFrom#0(0)' in str(k.args[2]):
            return shape(k.args[1])
        return ('part', shape(k.args[1]), str(k.args[2]))
    if k.op == 'app' and k.args[0] == 'cat':
        return ('cat',) + tuple(shape(x) for x in k.args[1:])
    if k.op == 'str':
        return k.args[0]
    if k.op in ('phi', 'old', 'sym') or k.op == 'app' and k.args[0] in ('cat', 'spush'):
        return '*'
    x = changed_by(k) or next((y.args[0] for y in [k, *closure(k)] if y.op == 'app' and re.match(r'(trim|to_(ascii_)?(lower|upper)|replace)', str(y.args[0]))), None)
    if x is not None and not re.search(r'(start\w*|strip_prefix)$', x):
        return 'altered by ' + x
    return None


def keys(N, R):
    """Globals are stored and looked up under names made the same way."""
    E = N.E
    put, got = {}, {}
    for r, e, v in global_puts(N):
        put.setdefault(shape(E.deep(e['st'], e['key'])), (r, e))
    for r in N.runs():
        pi, gi = N.pairs_param(r.fn), N.globals_param(r.fn)
        if pi is None or gi is None:
            continue
        for s, v in r.exits:
            b = base_of(E.deep(s, v))
            for x in [b, *closure(E.deep(s, v))]:
                if x.op == 'app' and x.args[0] == 'mapget' and any(map_root(x.args[1]) is y for y in contents(E, r, r.args[gi])):
                    got.setdefault(shape(x.args[2]), r)
    if not put or not got:
        return R.unknown('names of globals', 'no store or no lookup was found')
    if None in put or None in got:
        return R.unknown('names of globals', 'made in a way that is not understood')
    for k, r in got.items():
        if k not in put:
            R.violation('keys:' + sname(r.fn), 'globals are looked up in %s under something other than the name they were stored under' % sname(r.fn), [r.fn.name])
        else:
            R.ok('globals are looked up in %s under the name they were stored under' % sname(r.fn))
    for k, (r, e) in put.items():
        if k not in got:
            R.violation('keys:' + owner_name(e), 'globals are stored in %s under something other than the name they are looked up by' % owner_name(e), wh(E, e))


def not_found(N, R):
    """Names are reported missing only after a complete search of the scope."""
    E = N.E
    for r in N.runs():
        pi, gi = N.pairs_param(r.fn), N.globals_param(r.fn)
        if pi is None or gi is None:
            continue
        for k, e in r.events:
            if k != 'agg' or e['adt'] != N.KT['adt']:
                continue
            kind = pr.kname(N.KT, e['variant'])
            if kind not in ('VariableNotFound', 'GlobalNotFound'):
                continue
            st = e['st']
            key = E.deep(st, e['term']).args[2]
            text = '%s in %s' % (kind, owner_name(e))
            first = entry_mask(N, r, st)
            if first is not None:
                if (first & AT == 0) if kind == 'GlobalNotFound' else (first & ~AT == 0):
                    R.violation('notfound:kind:' + owner_name(e), 'a name of the other kind is looked up where %s is reported' % text, wh(E, e))
                    continue
            if kind == 'GlobalNotFound':
                got = [x for x, v in st.facts.items() if x.op == 'app' and x.args[0] == 'mapget' and v == ('V', frozenset([0])) and x.args[2] is key]
                good = [x for x in got if any(map_root(x.args[1]) is y for y in contents(E, r, r.args[gi]))]
                if good:
                    R.ok(text + ' after a lookup in the globals of the file')
                elif got:
                    R.unknown(text, 'looked up in another map')
                else:
                    R.unknown(text, 'no lookup was found')
                continue
            seqs = [x for x in contents(E, r, r.args[pi])]
            res = [missing(E, st, q, key) for q in seqs]
            if True in res:
                R.ok(text + ' after a complete search of the fields in scope')
            elif None not in res and not any(odd_loop(E, r, q, key) for q in seqs) and not any(x.op in ('old', 'stale') for x in [key, *closure(key)]):
                R.violation('notfound:' + owner_name(e), 'a name is reported missing in %s although not all fields in scope were searched' % owner_name(e), wh(E, e))
            else:
                R.unknown(text, 'the search is not understood')
