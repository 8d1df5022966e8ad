"""C05, C06: what including a file does."""
from base import *
import models
import parse_rule as pr
from parse_rule import sname, wh, owner_name
import scope
from scope import Names, at_path

READS = ('File::open', 'fs::read_to_string', 'fs::read', 'OpenOptions::open')
UNIT = Tup([])


class Inc:
    """The include sites of the value reader: where it opens files, and the two collections handed down with the reader."""

    def __init__(self, C):
        self.N = N = Names(C)
        self.C, self.E, self.P = C, N.E, N.P
        hub = pr.value_hub(C)
        self.hub = hub and hub[0]
        rs = [r for r in N.runs() if self.hub is not None and r.fn.id == self.hub.id]
        self.r = rs[0] if rs else None
        self.sets, self.caches = set(), set()
        if self.r is None:
            return
        for k, e in self.r.events:
            if k == 'map_insert' and e['ref'].op == 'ref' and e['ref'].args[0][0] == 'A' and not N.hub_of(e['value']):
                key = self.E.deep(e['st'], e['key'])
                if self.is_path(key):
                    (self.sets if e['value'] is UNIT or e['value'] == UNIT else self.caches).add((e['ref'].args[0], e['ref'].args[1]))

    def is_path(self, key):
        return any(x.op == 'app' and x.args[0] in ('pto_str', 'canonicalize', 'pjoin') for x in [key, *closure(key)]) or \
            any(x.op == 'app' and x.args[0] == 'hub' for x in closure(key))

    def opens(self):
        for k, e in self.r.events:
            if k == 'io' and e['op'] in READS:
                a = e['args']
                if a:
                    yield e, self.E.deep(e['st'], a[0])

    def file(self, st):
        """(the file name of the reader's text, True when it has one / False when it has none / None)."""
        for t, v in st.facts.items():
            if t.op == 'sym' and str(t.args[0]).startswith('file') and v[0] == 'V' and len(v[1]) == 1:
                return Fld(t, 1, 0), 1 in v[1]
        return None, None

    def content(self, st, place):
        try:
            return self.E.deep(st, self.E.load(st, place[0], place[1]))
        except Exception:
            return None


def peel(p):
    """(the path before it was turned to text or made canonical, whether it was made canonical)."""
    canon = False
    n = 0
    while n < 12:
        n += 1
        if p.op == 'fld' and p.args[0].op == 'app' and p.args[0].args[0] in ('pto_str', 'canonicalize', 'lossy'):
            canon |= p.args[0].args[0] == 'canonicalize'
            p = p.args[0].args[1]
        elif p.op == 'app' and p.args[0] in ('pto_str', 'lossy', 'path'):
            p = p.args[1]
        else:
            return p, canon
    return p, canon


def chain(m):
    """The changes made to a collection, newest first, and what it was before."""
    out = []
    n = 0
    while m.op == 'app' and n < 60:
        n += 1
        if m.args[0] in ('mput', 'mdel'):
            out.append((m.args[0], m.args[2], m.args[3] if m.args[0] == 'mput' else None))
            m = m.args[1]
        elif m.args[0] == 'hubout':
            out.append(('hub', None, None))
            m = m.args[4] if len(m.args) > 4 else m.args[-1]
        else:
            break
    return out, m


def histories(I, m, st, seen=()):
    """[(changes newest first, what it was in the beginning)] of a collection, loops followed to where they were entered."""
    r, E = I.r, I.E
    c, b = chain(m)
    if b.op == 'phi' and b.args[0][0] == 'loop':
        if b in seen:
            return [(c, None)]
        out = {}
        for k, x in r.events:
            if k == 'loop_entry' and x['site'] == b.args[0] and scope.compatible(E, x['st'], st):
                y = at_path(x['st'].cells, b.args[1])
                if y is None:
                    return [(c, b)]
                for c2, b2 in histories(I, E.deep(x['st'], y), x['st'], seen + (b,)):
                    out[(tuple(c) + (('loop', b, None),) + tuple(c2), b2)] = 1
        return [(list(a), b2) for a, b2 in out] or [(c, b)]
    return [(c, b)]


def has(changes, key):
    """Is the key in the collection because it was put there by these changes?"""
    for k, x, v in changes:
        if k == 'mdel' and x is key:
            return False
        if k == 'mput' and x is key:
            return True
    return False


def puts(changes):
    gone, out = [], []
    for k, x, v in changes:
        if k == 'mdel':
            gone.append(x)
        elif k == 'mput':
            if x in gone:
                gone.remove(x)
            else:
                out.append(x)
    return out, gone


def doubtful(t):
    return any(True for _ in scope.opaque_calls(t)) or any(x.op in ('old', 'stale') or x.op == 'phi' for x in [t, *closure(t)])


def path_facts(st, X):
    """Look-ups by the path X on the way here: [(collection, key, found, canonical)]."""
    out = []
    for t, v in st.facts.items():
        if t.op == 'app' and t.args[0] == 'mapget' and v[0] == 'V' and len(v[1]) == 1:
            key = t.args[2]
            for q in key.args if key.op == 'tup' else key.args[2:] if key.op == 'adt' else [key]:
                if type(q) is Term:
                    b, canon = peel(q)
                    if b is X:
                        out.append((t.args[1], key, 1 in v[1], canon))
    return out


def same_start(I, m, place, st):
    """Is this the collection kept at the place?"""
    c = I.content(st, place)
    return c is not None and chain(c)[1] is chain(m)[1]


# C05 ------------------------------------------------------------------------------------------------
def rule_C05(C, R):
    R.rule = ('Every file the value reader opens was looked up before, by its canonical path, in the set of files being loaded, '
              'was not in it, and at that time the set held the canonical path of the file being read; the same set, still '
              'holding it, is handed to every reader of the opened text. The set only loses the path that was put in for the '
              'include, loses it before the include is done, and the cyclic-include error is given only for a path found in it.')
    I = Inc(C)
    if I.r is None:
        return R.unknown('value reader', 'not found')
    R.covered(I.r)
    guard(R, 'opening', opening, I, R)
    guard(R, 'handing down', handed, I, R)
    guard(R, 'what leaves the set', leaving, I, R)
    guard(R, 'after an include', balanced, I, R)
    guard(R, 'the error', cyclic_error, I, R)


def one_set(I, R):
    if len(I.sets) == 1:
        return next(iter(I.sets))
    R.unknown('the set of files being loaded', 'not found' if not I.sets else 'more than one')
    return None


def opening(I, R):
    E = I.E
    n = 0
    sp = one_set(I, R) if I.sets else None
    for e, p in I.opens():
        st = e['st']
        n += 1
        who = owner_name(e)
        X, _ = peel(p)
        if any(x.op == 'sym' for x in [X]) and not any(x.op == 'app' for x in closure(X)):
            continue
        text = 'opening the included file in %s' % who
        fs = path_facts(st, X)
        tests = [f for f in fs if sp is not None and same_start(I, f[0], sp, st)]
        if not tests:
            if sp is None:
                if doubt_facts(st, X):
                    R.unknown(text, 'whether it is being loaded is found out in a way that is not understood')
                else:
                    R.violation('test:' + who, text + ' although it was not looked up among the files being loaded', wh(E, e))
            elif doubt_facts(st, X):
                R.unknown(text, 'whether it is being loaded is found out in a way that is not understood')
            else:
                R.violation('test:' + who, text + ' although it was not looked up among the files being loaded', wh(E, e))
            continue
        if any(f[2] for f in tests):
            R.violation('open:' + who, text + ' although it is being loaded', wh(E, e))
            continue
        if not any(f[3] for f in tests):
            R.violation('spelling:' + who, text + ' looked up by a path that is not canonical', wh(E, e))
            continue
        R.ok(text + ' after its canonical path was looked up among the files being loaded')
        cur, some = I.file(st)
        text = 'the file being read is among those being loaded when %s opens another' % who
        if some is None:
            R.unknown(text, 'whether the text has a file is not known')
        elif not some:
            R.ok(text + ' (text without a file)')
        else:
            bad = unk = False
            for f in tests:
                if f[2] or not f[3]:
                    continue
                for ch, b in histories(I, f[0], st):
                    inn = [k for k in puts(ch)[0] if peel(k)[0] is cur]
                    if not inn:
                        # compared directly
                        if any(t.op == 'app' and t.args[0] == 'eq' and v == ('B', False) and {peel(a)[0] for a in t.args[1:] if type(a) is Term} == {cur, X} for t, v in st.facts.items()):
                            inn = [f[1]]
                        elif any(peel(k)[0] is X for k in puts(ch)[0]):
                            unk = True
                            continue
                    if not inn:
                        bad = True
                    elif not any(peel(k)[1] for k in inn) and inn != [f[1]]:
                        bad = 'spelling'
            if bad:
                later = I.content(st, sp)
                if bad is True and later is not None and any(peel(k)[0] is X or peel(k)[0] is cur for k in puts(chain(later)[0])[0]) and other_design(I):
                    R.unknown(text, 'another way of keeping the set')
                else:
                    R.violation('self:' + who, text.replace('is among', 'is not (under its canonical path) among') , wh(E, e))
            elif unk:
                R.unknown(text, 'another way of keeping the set')
            else:
                R.ok(text)
    if not n:
        R.unknown('opening', 'no include site was found')


def other_design(I):
    """The target itself is put in before it is loaded."""
    for k, e in I.r.events:
        if k == 'map_insert' and e['ref'].op == 'ref' and (e['ref'].args[0], e['ref'].args[1]) in I.sets:
            cur, some = I.file(e['st'])
            if peel(I.E.deep(e['st'], e['key']))[0] is not cur:
                return True
    return False


def doubt_facts(st, X):
    for t in st.facts:
        if any(x is X for x in closure(t)) and scope.unclear(t) or walks(t):
            return True
    return False


def walks(t):
    """A test on the elements of a collection one by one."""
    return any(x.op == 'app' and x.args[0] in ('hashseq', 'all', 'anyof') for x in [t, *closure(t)]) and \
        any(x.op == 'app' and x.args[0] in ('canonicalize', 'hashseq') for x in closure(t))


def loader_hubs(I):
    """Calls that read values of an opened text."""
    for k, e in I.r.events:
        if k == 'hub_call':
            s = scope.stream_cell(I.N, I.E, e)
            if s is not None and str(s[0]) != 'RCin':
                yield e, s


def handed(I, R):
    E = I.E
    sp = one_set(I, R)
    if sp is None:
        return
    for e, s in loader_hubs(I):
        st = e['st']
        who = owner_name(e)
        text = 'the set handed to the readers of an included file in %s' % who
        m = set_of_call(I, e, sp)
        if m is None:
            R.unknown(text, 'not followed')
            continue
        cur, some = I.file(st)
        if some is False:
            R.ok(text + ' (text without a file)')
            continue
        if some is None:
            R.unknown(text, 'whether the including text has a file is not known')
            continue
        res = set()
        for ch, b in histories(I, m, st):
            inn = puts(ch)[0]
            if b is None:
                continue
            if b.op == 'app' and b.args[0] == 'map0':
                res.add('fresh')
            elif any(peel(k)[0] is cur and peel(k)[1] for k in inn):
                res.add('ok')
            elif other_design(I):
                res.add('unk')
            else:
                res.add('bad')
        if 'fresh' in res:
            R.violation('handed:' + who, text + ' is a new one: files already being loaded are not in it', wh(E, e))
        elif 'bad' in res:
            R.violation('handed:' + who, text + ' does not hold the file that includes it', wh(E, e))
        elif 'unk' in res or not res:
            R.unknown(text, 'not followed')
        else:
            R.ok(text + ' holds the file that includes it')


def inc_param(I, f, sp):
    """The parameter of another reader that has the type of the one the set is in."""
    i = sp[0][1]
    t = I.r.fn.locals[i + 1]
    ps = [j for j in range(f.argc) if I.N.deref(f.locals[j + 1]) == I.N.deref(t)]
    return ps[0] if len(ps) == 1 else None


def set_of_call(I, e, sp):
    E, st = I.E, e['st']
    j = inc_param(I, e['fn'], sp)
    if j is None:
        return None
    a = e['args'][j]
    n = 0
    last = None
    while a.op in ('ref', 'pref') and n < 8:
        last = a
        a = E.load_ref(st, a)
        n += 1
    if last is None:
        return None
    for step in sp[1]:
        a = E.proj(st, a, step)
    return E.deep(st, a)


def leaving(I, R):
    E = I.E
    sp = one_set(I, R)
    if sp is None:
        return
    n = 0
    for k, e in I.r.events:
        if k not in ('map_remove', 'map_clear') or e['ref'].op != 'ref' or (e['ref'].args[0], e['ref'].args[1]) != sp:
            continue
        n += 1
        who = owner_name(e)
        text = 'what %s takes out of the set of files being loaded' % who
        if k == 'map_clear':
            R.violation('clear:' + who, text + ' includes files that still are', wh(E, e))
            continue
        st = e['st']
        key = E.deep(st, e['key'])
        ok = bad = False
        for ch, b in histories(I, E.deep(st, e['map']), st):
            ks = puts(ch)[0]
            if any(x is key for x in ks):
                ok = True
            elif doubtful(key) or b is None:
                pass
            else:
                bad = True
        if bad:
            R.violation('remove:' + who, text + ' was not put there for this include', wh(E, e))
        elif ok:
            R.ok(text + ' was put there for this include')
        else:
            R.unknown(text, 'not followed')
    R.notes.append('%d removals from the set of files being loaded' % n)


def frames(I):
    """Ok results of the function, called by the value reader itself, that includes files."""
    E = I.E
    for k, e in I.r.events:
        if k == 'ret' and e['fr'].parent is not None and e['fr'].parent.parent is None:
            v = E.deep(e['st'], e['value'])
            yield e, v.args[2]


def include_frames(I):
    fns = set()
    for e, p in I.opens():
        fr = e['fr']
        while fr.parent is not None and fr.parent.parent is not None:
            fr = fr.parent
        if fr.parent is not None:
            fns.add(fr.fn.id)
    return [(e, v) for e, v in frames(I) if e['fn'].id in fns]


def balanced(I, R):
    E = I.E
    sp = one_set(I, R)
    if sp is None:
        return
    n = 0
    for e, v in include_frames(I):
        st = e['st']
        n += 1
        who = sname(e['fn'])
        text = 'the set of files being loaded is as before when %s is done' % who
        m = I.content(st, sp)
        if m is None:
            R.unknown(text, 'not followed')
            continue
        left, gone, odd = [], [], False
        for ch, b in histories(I, m, st):
            a, g = puts(ch)
            left += a
            gone += g
            if b is None or b.op == 'phi' or doubtful(m) and b.op not in ('sym', 'fld'):
                odd = True
        if left:
            R.violation('left:' + who, 'a file stays among those being loaded after %s is done with its include' % who, [e['fn'].name])
        elif odd:
            R.unknown(text, 'not followed')
        else:
            R.ok(text)
    if not n:
        R.unknown('after an include', 'the function that includes files is not apart from the value reader')


def cyclic_error(I, R):
    N, E = I.N, I.E
    sp = one_set(I, R)
    n = 0
    for k, e in I.r.events:
        if k != 'agg' or e['adt'] != N.KT['adt'] or pr.kname(N.KT, e['variant']) != 'CyclicInclude':
            continue
        n += 1
        st = e['st']
        who = owner_name(e)
        text = 'the cyclic-include error in ' + who
        found = [t for t, v in st.facts.items() if t.op == 'app' and t.args[0] == 'mapget' and v == ('V', frozenset([1])) and sp is not None and same_start(I, t.args[1], sp, st)]
        cur, some = I.file(st)
        good = [t for t in found if not same_key(t.args[2], cur)]
        direct = [t for t, v in st.facts.items() if t.op == 'app' and t.args[0] == 'eq' and v == ('B', True) and any(type(a) is Term and peel(a)[0] is cur for a in t.args[1:])]
        if any(peel(t.args[2])[1] for t in good) or direct:
            R.ok(text + ' is for a path found among those being loaded')
        elif good:
            R.unknown(text, 'by a path that is not canonical')
        elif any(walks(t) for t in st.facts) or any(scope.unclear(t) for t in st.facts if any(x.op == 'app' and x.args[0] == 'canonicalize' for x in closure(t))):
            R.unknown(text, 'decided in a way that is not understood')
        else:
            R.violation('error:' + who, text + ' is given for a path that was not found among those being loaded', wh(E, e))
    if not n:
        R.violation('noerror', 'no cyclic-include error is ever given', [I.r.fn.name])


def same_key(k, cur):
    return cur is not None and peel(k)[0] is cur


def same_arg(I, R, pid):
    """Everything read during one load shares the two collections."""
    E, N = I.E, I.N
    places = I.sets if pid == 'C05' else I.caches
    if len(places) != 1:
        return
    sp = next(iter(places))
    for r in N.runs():
        for k, e in r.events:
            if k != 'hub_call':
                continue
            f = e['fn']
            j = inc_param(I, f, sp)
            who = owner_name(e)
            text = '%s handed on in %s' % ('the set of files being loaded' if pid == 'C05' else 'the files already included', who)
            if j is None:
                R.unknown(text, 'no parameter for them')
                continue
            mine = [i for i in range(r.fn.argc) if N.deref(r.fn.locals[i + 1]) == N.deref(I.r.fn.locals[sp[0][1] + 1])]
            a = e['args'][j]
            n = 0
            while a.op in ('ref', 'pref') and n < 8:
                last = a
                a = E.load_ref(e['st'], a)
                n += 1
            given = r.args[mine[0]] if len(mine) == 1 else None
            if given is not None:
                if last is given or last.op == 'ref' and last.args[0] == ('A', mine[0]) and last.args[1] == ():
                    R.ok(text + ' are those given')
                elif last.op == 'ref' and last.args[0][0] == 'L':
                    R.violation('shared:' + who, text + ' are not those the reader was given', wh(E, e))
                else:
                    R.unknown(text, 'not followed')
            else:
                # where a load begins
                if last.op == 'ref' and last.args[0][0] == 'L':
                    R.ok(text + ' belong to this load')
                else:
                    R.unknown(text, 'not followed')


# C06 ------------------------------------------------------------------------------------------------
TOKENS = {'Obj': 'Obj', 'Str': 'Str', 'Arr': 'Arr', 'Tup': 'Tup'}


def rule_C06(C, R):
    R.rule = ('Every file the value reader opens is the text of a string value joined to the directory of the including file (the '
              'text itself when there is none); the closing bracket was read, and a type keyword, if there was one, came before. '
              'The result of an include is either the instance kept under (canonical path, type) or the one just loaded and kept '
              'under it, the type being the one the keyword names, an object when there is none, and the key differs for every '
              'type. One collection of loaded files is handed to every reader of a load.')
    I = Inc(C)
    if I.r is None:
        return R.unknown('value reader', 'not found')
    R.covered(I.r)
    guard(R, 'file', named_file, I, R)
    guard(R, 'syntax', syntax, I, R)
    guard(R, 'type', typed, I, R)
    guard(R, 'one collection for a load', same_arg, I, R, 'C06')


def str_value(I, st, t):
    """The text of a value that was read and is known to be a string: the read value."""
    if t.op == 'fld' and t.args[1] == I.P.variant(I.N.vty, 'Str'):
        v = t.args[0]
        if I.N.is_read(v) and I.E.get_variants(st, v) == frozenset([t.args[1]]):
            return v
    return None


def named_file(I, R):
    E = I.E
    n = 0
    for e, p in I.opens():
        st = e['st']
        n += 1
        who = owner_name(e)
        text = 'the file opened in %s is the one named, next to the including file' % who
        X, _ = peel(p)
        cur, some = I.file(st)
        if some is None:
            R.unknown(text, 'whether the including text has a file is not known')
            continue
        if X.op == 'app' and X.args[0] == 'pjoin':
            d, t = X.args[1], peel(X.args[2])[0]
            v = str_value(I, st, t)
            d0 = peel(d)[0]
            if v is None:
                (R.unknown if odd(X) else viol(R, 'named:' + who, e, I))(text, 'the name is not the text that was read')
            elif not some:
                (R.unknown if odd(d) else viol(R, 'dir:' + who, e, I))(text, 'joined to a directory although the text has no file')
            elif d0.op == 'fld' and d0.args[0].op == 'app' and d0.args[0].args[0] == 'pparent' and peel(d0.args[0].args[1])[0] is cur:
                R.ok(text)
            else:
                (R.unknown if odd(d) else viol(R, 'dir:' + who, e, I))(text, 'joined to something other than the directory of the including file')
        else:
            v = str_value(I, st, X)
            if v is None:
                (R.unknown if odd(X) else viol(R, 'named:' + who, e, I))(text, 'the name is not the text that was read')
            elif some:
                viol(R, 'dir:' + who, e, I)(text, 'not joined to the directory of the including file')
            else:
                R.ok(text)
    if not n:
        R.unknown('file', 'no include site was found')


def viol(R, key, e, I):
    def f(text, why):
        R.violation(key, 'not so: %s (%s)' % (text, why), wh(I.E, e))
    return f


def odd(t):
    for x in [t, *closure(t)]:
        if x.op in ('phi', 'old', 'stale') and not any(y.op == 'app' and y.args[0] == 'hub' and x in closure(y) for y in [t, *closure(t)]):
            return True
    return any(True for _ in scope.opaque_calls(t))


def sentinels(I):
    """{the special object a keyword gives inside an include: the keyword}."""
    if hasattr(I, '_sent'):
        return I._sent
    out = {}
    for r in I.N.runs():
        for s, v in r.exits:
            v = I.E.deep(s, v)
            for x in closure(v):
                if x.op == 'app' and x.args[0] == 'lazy' and 'SENTINEL' in str(x) or x.op == 'app' and x.args[0] == 'lazy':
                    for t, f in s.facts.items():
                        if scope.is_eq(t) and f == ('B', True):
                            for a in t.args[1:]:
                                if type(a) is Term and a.op == 'str' and a.args[0] in TOKENS:
                                    out.setdefault(x, set()).add(a.args[0])
    I._sent = out
    return out


def keyword(I, st):
    """The type keyword found on this path: its name, '' when a string came first, None when not known."""
    sent = sentinels(I)
    yes, no = set(), 0
    for t, v in st.facts.items():
        if t.op == 'app' and t.args[0] == 'ptreq' and v[0] == 'B':
            for x in closure(t):
                if x in sent:
                    if v[1]:
                        yes |= sent[x]
                    else:
                        no += 1
    if len(yes) == 1:
        return next(iter(yes))
    if yes:
        return None
    # a string first: only one value was read in the include
    return '' if not no else None


def syntax(I, R):
    """What was read between the brackets on the way to opening a file."""
    E, N = I.E, I.N
    sent = sentinels(I)
    words = {w for ws in sent.values() for w in ws}
    for w in TOKENS:
        n = sum(1 for ws in sent.values() if w in ws)
        if n == 0:
            R.unknown('the keyword ' + w, 'what it gives inside an include is not found')
        elif any(w in ws and len(ws) > 1 for ws in sent.values()):
            R.violation('keyword:' + w, 'the keyword %s gives the same as another one inside an include' % w, [I.r.fn.name])
        else:
            R.ok('the keyword %s is told from the others' % w)
    strv = I.P.variant(N.vty, 'Str')
    for e, p in I.opens():
        st = e['st']
        who = owner_name(e)
        X, _ = peel(p)
        t = peel(X.args[2])[0] if X.op == 'app' and X.args[0] == 'pjoin' else X
        v = str_value(I, st, t)
        text = 'a file is opened in %s only for a string, after at most a type keyword, and the closing bracket' % who
        if v is None:
            R.unknown(text, 'the value that names it is not found')
            continue
        read = [x for x in [*st.facts] if N.is_read(x) and E.get_variants(st, x) is not None and not x is v]
        ok = True
        h = N.hub_of(v)
        before = [x for x in read if N.hub_of(x) is not None and N.hub_of(x) is not h]
        for x in before:
            vs = E.get_variants(st, x)
            if vs == frozenset([strv]):
                R.violation('syntax:' + who, 'two strings are accepted inside an include (%s)' % who, wh(E, e))
                ok = False
            elif keyword(I, st) in (None, ''):
                if any(scope.unclear(q) for q in st.facts if any(y is x for y in closure(q))) or any(
                        q.op == 'app' and any(y is x for y in closure(q)) and any(y in sent for y in closure(q)) and st.facts[q] == ('B', True) for q in st.facts):
                    R.unknown(text, 'how the keyword is recognised is not understood')
                else:
                    R.violation('syntax:' + who, 'something other than a type keyword is accepted before the path of an include (%s)' % who, wh(E, e))
                ok = False
        # the bracket
        cur = st
        m = last_char(I, st, h)
        if m is None:
            R.unknown(text, 'the closing bracket is not followed')
        elif m & ~(1 << ord('>')):
            R.violation('close:' + who, 'an include is accepted without its closing bracket (%s)' % who, wh(E, e))
        elif ok:
            R.ok(text)


def last_char(I, st, h):
    """The character read last before the file was opened, after the value h."""
    E = I.E
    v = None
    for c, t in st.cells.items():
        if str(c[0]) == 'RCin':
            t = E.deep(st, t)
            v = t.args[2 + I.N.SI.i_stream] if t.op == 'adt' and len(t.args) > 2 + I.N.SI.i_stream else None
    if v is None or not (v.op == 'app' and v.args[0] == 'next'):
        return None
    u = v.args[1]
    for t, f in st.facts.items():
        if t.op == 'fld' and t.args[0].op == 'app' and t.args[0].args[0] == 'peek' and t.args[0].args[1] is u and f[0] == 'M':
            return f[1]
    return None


def type_part(key, X):
    """The part of a key that is not the path."""
    if key.op in ('tup', 'adt'):
        rest = []
        for q in key.args if key.op == 'tup' else key.args[2:]:
            b, canon = peel(q)
            if b is X:
                rest.append('path' if canon else 'path as spelt')
            else:
                rest.append(q)
        return tuple(rest)
    b, canon = peel(key)
    if b is X:
        return ('path' if canon else 'path as spelt',)
    return None


def target(I, st):
    """The named path on this way: the one that was looked at on disk."""
    out = []
    for t, v in st.facts.items():
        for x in [t, *closure(t)]:
            if x.op == 'app' and x.args[0] == 'canonicalize':
                b = peel(x.args[1])[0]
                cur, some = I.file(st)
                if b is not cur and b not in out:
                    out.append(b)
    return out[0] if len(out) == 1 else None


def typed(I, R):
    E, N, P = I.E, I.N, I.P
    kinds = {w: P.variant(N.vty, w) for w in TOKENS}
    if not I.caches and list(I.opens()) and not stored_elsewhere(I):
        return R.violation('nothing kept', 'no included file is ever kept for the next include of it', [I.r.fn.name])
    if len(I.caches) != 1:
        return R.unknown('the files already included', 'not found' if not I.caches else 'more than one collection')
    cp = next(iter(I.caches))
    keys = {}       # type part -> {variant}
    loaded, found = [], []
    # stores
    for k, e in I.r.events:
        if k != 'map_insert' or e['ref'].op != 'ref' or (e['ref'].args[0], e['ref'].args[1]) != cp:
            continue
        st = e['st']
        who = owner_name(e)
        key, val = E.deep(st, e['key']), E.deep(st, e['value'])
        X = target(I, st)
        w = keyword(I, st)
        tp = type_part(key, X) if X is not None else None
        text = 'what %s keeps for an include' % who
        if X is None or tp is None or w is None:
            R.unknown(text, 'its path, key or type is not followed')
            continue
        if 'path' not in tp:
            R.violation('key:path:' + who, text + ' is not kept under its canonical path', wh(E, e))
            continue
        want = kinds[w or 'Obj']
        got = val.args[1] if val.op == 'adt' and val.args[0].endswith('Value') else None
        vs = frozenset([got]) if got is not None else E.get_variants(st, val)
        text = 'an include of type %s loads a value of that type in %s' % (w or 'Obj (none named)', who)
        if vs is None or len(vs) != 1:
            R.unknown(text, 'the kind of value is not known')
        elif vs == frozenset([want]):
            R.ok(text)
        else:
            R.violation('type:%s:%s' % (who, w or 'none'), 'not so: ' + text, wh(E, e))
        rest = tuple(x for x in tp if type(x) is Term)
        keys.setdefault(rest, set()).add(want)
        loaded.append((e, X, key, val, w))
    for rest, ks in keys.items():
        text = 'files included as different types are kept apart'
        if len(ks) > 1:
            if any(odd(x) for x in rest):
                R.unknown(text, 'the key is not followed')
            else:
                R.violation('key:type', 'not so: %s' % text, [I.r.fn.name])
        else:
            R.ok(text)
    # look-ups on the way to opening
    for e, p in I.opens():
        st = e['st']
        X, _ = peel(p)
        who = owner_name(e)
        text = 'a file is loaded in %s only when it was not kept before' % who
        fs = [f for f in path_facts(st, X) if same_start(I, f[0], cp, st)]
        w = keyword(I, st)
        if not fs:
            if doubt_facts(st, X):
                R.unknown(text, 'the look-up is not understood')
            else:
                R.violation('again:' + who, 'not so: ' + text, wh(E, e))
            continue
        if any(f[2] for f in fs):
            if w is not None and all(rest_ok(keys, type_part(f[1], X), kinds[w or 'Obj']) for f in fs if f[2]):
                R.violation('again:' + who, 'not so: ' + text, wh(E, e))
                continue
        good = [f for f in fs if not f[2] and f[3]]
        if w is not None and any(rest_ok(keys, type_part(f[1], X), kinds[w or 'Obj']) for f in good):
            R.ok(text)
        elif w is None or not good and any(odd(f[1]) for f in fs):
            R.unknown(text, 'the key is not followed')
        elif not good and all(not f[3] for f in fs):
            R.violation('again:' + who, 'not so: %s (looked up by a path that is not canonical)' % text, wh(E, e))
        else:
            R.violation('again:' + who, 'not so: %s (looked up under another type)' % text, wh(E, e))
    # results
    n = 0
    for e, val in include_frames(I):
        st = e['st']
        n += 1
        who = sname(e['fn'])
        X = target(I, st)
        w = keyword(I, st)
        text = 'the result of an include in %s is the one kept for its path and type' % who
        if X is None or w is None:
            R.unknown(text, 'its path or type is not followed')
            continue
        want = kinds[w or 'Obj']
        if val.op == 'fld' and val.args[0].op == 'app' and val.args[0].args[0] == 'mapget':
            m, key = val.args[0].args[1], val.args[0].args[2]
            tp = type_part(key, X)
            if not same_start(I, m, cp, st):
                R.unknown(text, 'taken from somewhere else')
            elif tp is None:
                (R.unknown if odd(key) else viol(R, 'kept:' + who, e, I))(text, 'found under another path')
            elif rest_ok(keys, tp, want):
                R.ok(text)
            elif not any(type(x) is Term for x in tp) and () not in keys or any(odd(x) for x in tp if type(x) is Term):
                R.unknown(text, 'the key is not followed')
            else:
                viol(R, 'kept:' + who, e, I)(text, 'found under another type')
            continue
        # just loaded: kept as it is?
        m = I.content(st, cp)
        ch = chain(m)[0] if m is not None else []
        put = [(k, x, y) for k, x, y in ch if k == 'mput']
        if put and put[0][2] is val and rest_ok(keys, type_part(put[0][1], X), want):
            R.ok(text)
        elif put and put[0][2] is not val and not odd_value(put[0][2]) and not odd_value(val) and type(put[0][2]) is Term:
            viol(R, 'kept:' + who, e, I)(text, 'another instance is kept than the one that is given')
        elif not put and any(k == 'mdel' for k, x, y in ch):
            viol(R, 'kept:' + who, e, I)(text, 'it was dropped again')
        elif not put and m is not None and not walks(m):
            if val.op == 'adt' and N.is_read(val) is False or val.op == 'adt':
                viol(R, 'kept:' + who, e, I)(text, 'it is not kept')
            else:
                R.unknown(text, 'where the value comes from is not followed')
        else:
            R.unknown(text, 'not followed')
    if not n:
        R.unknown('results', 'the function that includes files is not apart from the value reader')


def odd_value(v):
    return any(True for _ in scope.opaque_calls(v))


def stored_elsewhere(I):
    """Something that depends on a path is put away in some other way."""
    for k, e in I.r.events:
        if k in ('push', 'pushf', 'map_insert', 'opaque', 'set_some'):
            for x in e.values():
                for t in x if isinstance(x, (list, tuple)) else [x]:
                    if type(t) is Term and t.op != 'ref' and any(y.op == 'app' and y.args[0] == 'canonicalize' for y in closure(t)):
                        if not (k == 'map_insert' and (e['ref'].op == 'ref' and (e['ref'].args[0], e['ref'].args[1]) in I.sets)):
                            return True
    return False


def rest_ok(keys, tp, want):
    if tp is None or 'path' not in tp:
        return False
    rest = tuple(x for x in tp if type(x) is Term)
    return keys.get(rest) == {want}
