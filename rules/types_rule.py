"""C10: the type relations and the inner types of arrays and tuples."""
from base import *
from values import variants, vec_of, type_of_arr, get_type_rule, eq_type, len_differs, all_false
from effects import calls, base_name
import ops


def rule_C10(C, R):
    R.rule = ('The relations on types are interpreted for every combination of type constructors; every place that builds an '
              'array with an explicit element type is found, and the type must be folded over exactly the elements put into '
              'the array with the most-specific-type relation (loop invariant shown on the entry and on every back edge), '
              'be that of an empty list, or be the common type of two concatenated arrays.')
    guard(R, 'compatibility of types', eq_type, C, R)
    guard(R, 'type of a value', get_type_rule, C, R)
    guard(R, 'identity of types', is_rule, C, R)
    guard(R, 'has_any', any_rule, C, R)
    guard(R, 'most_specific', ms_rule, C, R)
    guard(R, 'types of tuples', tup_rule, C, R)
    guard(R, 'constructions of arrays', built, C, R)


def pf(name, *args):
    return App('pf', Str(name), *args)


def rel(C, n):
    """The relation on types with this shape: 'is' (&T,&T)->bool, 'ms' (&T,&T)->Option<(T,bool)>, 'any' (&T)->bool."""
    tt = C.ty('Type')
    out = []
    for f in C.type_fns():
        ats = [C.strip(t) for t in f.locals[1:1 + f.argc]]
        if not all(t == tt for t in ats):
            continue
        rt = C.P.T[f.locals[0]]
        k = rt.get('k')
        if n == 'is' and len(ats) == 2 and k == 'bool' or n == 'any' and len(ats) == 1 and k == 'bool':
            out.append(f)
        if n == 'ms' and len(ats) == 2 and k == 'adt' and rt['adt'].endswith('Option') and C.P.T[rt['args'][0]].get('k') == 'tuple':
            out.append(f)
    names = {'is': 'is', 'any': 'has_any', 'ms': 'most_specific'}
    if len(out) > 1:
        out = [f for f in out if f.name.rsplit('::', 1)[-1] == names[n]]
    return out[0] if len(out) == 1 else None


def nm(f):
    return f.name.rsplit('::', 1)[-1]


def payload_kind(C, fs):
    if not fs:
        return None
    pt = C.P.T[fs[0][1]]
    return 'box' if pt.get('k') == 'adt' and pt['adt'].endswith('::Box') else 'vec'


def zip_all(E, s, x, y, test):
    """Every pair of elements at the same position of x and y satisfies test (a term over At(x, ELEM index))."""
    return None


def loop_pos(s, seq):
    """Positions (phi) at which a loop looked at seq."""
    return {k.args[1] for k in s.facts if k.op == 'app' and k.args[0] == 'lt' and k.args[2] is App('len', seq) and k.args[1].op == 'phi'}


def is_rule(C, R):
    f = rel(C, 'is')
    T = C.ty('Type')
    a, b = Sym('a0'), Sym('a1')
    vs = list(variants(C, C.P.T[T]['vars']))
    for i, (n, fs) in enumerate(vs):
        for j, (m, gs) in enumerate(vs):
            def setup(E, st, args):
                E.assume_variant(st, a, frozenset([i]))
                E.assume_variant(st, b, frozenset([j]))
            text, key, wh = 'identity of types %s and %s' % (n, m), 'is:%s:%s' % (n, m), where_fn(f)
            r = C.run(f, setup, mode='rel+eq')
            R.covered(r)
            E = r.E
            kind = payload_kind(C, fs) if i == j else None
            x, y = Fld(a, i, 0), Fld(b, i, 0)
            for s, v in r.exits:
                if kind is None:
                    R.result(cmp(E, s, v, Bool(i == j)), key, '%s: returns %s, required %s' % (text, show(v)[:80], i == j), wh)
                elif kind == 'box':
                    w = pf(nm(f), Unbox(x), Unbox(y))
                    ok = v is w or v is pf(nm(f), Unbox(y), Unbox(x))
                    R.result('eq' if ok else 'unk' if tainted(v) else 'ne', key, '%s: returns %s, required the identity of the inner types' % (text, show(v)[:120]), wh)
                else:
                    pairs(C, R, r, s, v, f, x, y, key, text)


def pairs(C, R, r, s, v, f, x, y, key, text):
    """v is the conjunction over the positions of x and y of f, and of equal lengths."""
    E = r.E
    wh = where_fn(f)
    d = E.decide(s, v) if is_boolish(v) or v.op == 'bool' else None
    if d is None:
        R.unknown(text, 'result not resolved: ' + show(v)[:100])
        return
    if d is False:
        if len_differs(E, s, (x, y)):
            R.ok(text + ': different lengths')
            return
        w = [k for k, c in s.facts.items() if c == ('B', False) and k.op == 'app' and k.args[0] == 'pf' and pair_at(k, x, y)]
        if w:
            R.ok(text + ': a pair of elements differs')
        elif any(tainted(k) and k.op != 'phi' and not posfact(k) for k in s.facts):
            R.unknown(text, 'path condition not understood')
        else:
            R.violation(key + ':false', '%s is denied without a differing pair of elements' % text, wh)
        return
    if E.decide(s, Eq(App('len', x), App('len', y))) is not True:
        if any(unmodelled(k) for k in s.facts):
            R.unknown(text, 'path condition not understood')
        else:
            R.violation(key + ':len', '%s is affirmed without comparing the numbers of elements' % text, wh)
        return
    # each back edge of the loop over both must have found the pair equal
    bad = loop_pairs(r, x, y, lambda e, k: e['st'].facts.get(k) == ('B', True))
    if bad is None:
        R.unknown(text, 'iteration over the elements not understood')
    elif bad:
        R.violation(key + ':true', '%s is affirmed although %s' % (text, bad), wh)
    else:
        ps = loop_pos(s, x) | loop_pos(s, y)
        if any(E.decide(s, Lt(p, App('len', x))) is False or E.decide(s, Lt(p, App('len', y))) is False for p in ps):
            R.ok(text + ': every pair of elements')
        elif E.bounds(s, App('len', x))[1] == 0:
            R.ok(text + ': no elements')
        else:
            R.unknown(text, 'end of the iteration not understood')


def unmodelled(t):
    return any(x.op == 'app' and x.args[0] == 'call' for x in [t] + list(closure(t)))


def posfact(k):
    return k.op == 'app' and k.args[0] in ('lt', 'le', 'all') or k.op == 'phi'


def pair_at(k, x, y):
    args = [strip(q) for q in k.args[2 if k.args[0] == 'pf' else 1:]]
    if len(args) != 2 or any(q.op != 'app' or q.args[0] != 'at' for q in args):
        return False
    return {args[0].args[1], args[1].args[1]} == {x, y} and args[0].args[2] is args[1].args[2]


def strip(t):
    while t.op == 'pref':
        t = t.args[0]
    return t


def loop_pairs(r, x, y, good, test=('pf',)):
    """Over every step of the loop over x and y together: [] ok, None not understood, text of a step that is wrong."""
    E = r.E
    n = 0
    for k, e in r.events:
        if k not in ('iterback', 'backedge'):
            continue
        poss = {p for z in (x, y) for _, p, _ in iterations(E, e, z)}
        if not poss:
            continue
        if len(poss) != 1:
            return None
        pos = poss.pop()
        ks = [q for q in e['st'].facts if q.op == 'app' and q.args[0] in test and pair_at(q, x, y) and strip(q.args[-1]).args[2] is pos]
        n += 1
        if any(good(e, q) for q in ks):
            continue
        if any(unmodelled(q) for q in e['st'].facts):
            return None
        return 'a step of the iteration does not require it of its pair of elements'
    return '' if n else None


def seq_truth(r, s, x, y):
    """Does the path show that sequences x and y are equal (True) or not (False), by a loop over both? None: neither."""
    E = r.E
    if len_differs(E, s, (x, y)):
        return False
    if any(c == ('B', False) and k.op == 'app' and k.args[0] == 'eq' and pair_at(k, x, y) for k, c in s.facts.items()):
        return False
    if E.decide(s, Eq(App('len', x), App('len', y))) is not True:
        return None
    if E.bounds(s, App('len', x))[1] == 0 or E.bounds(s, App('len', y))[1] == 0:
        return True
    if loop_pairs(r, x, y, lambda e, k: e['st'].facts.get(k) == ('B', True), ('eq',)) != '':
        return None
    ps = loop_pos(s, x) | loop_pos(s, y)
    if any(E.decide(s, Lt(p, App('len', x))) is False or E.decide(s, Lt(p, App('len', y))) is False for p in ps):
        return True
    return None


def seq_wrong(r, s, v, x, y):
    """A loop over both sequences gave v although what it required of the pairs does not show it."""
    E = r.E
    d = E.decide(s, v)
    if d is True and E.decide(s, Eq(App('len', x), App('len', y))) is True:
        return bool(loop_pairs(r, x, y, lambda e, k: e['st'].facts.get(k) == ('B', True), ('eq',)))
    if d is False and loop_pos(s, x) and loop_pos(s, y) and not any(unmodelled(q) for q in s.facts):
        return True
    return False


def any_rule(C, R):
    f = rel(C, 'any')
    a = Sym('a0')
    for i, (n, fs) in enumerate(variants(C, C.P.T[C.ty('Type')]['vars'])):
        def setup(E, st, args):
            E.assume_variant(st, a, frozenset([i]))
        r = C.run(f, setup, mode='rel+eq')
        R.covered(r)
        E = r.E
        text, key, wh = 'has_any of %s' % n, 'has_any:' + n, where_fn(f)
        kind = payload_kind(C, fs)
        for s, v in r.exits:
            if kind is None:
                R.result(cmp(E, s, v, Bool(n == 'Any')), key, '%s is %s' % (text, show(v)[:60]), wh)
            elif kind == 'box':
                w = pf(nm(f), Unbox(Fld(a, i, 0)))
                R.result('eq' if v is w else 'unk' if tainted(v) else 'ne', key, '%s is %s, required that of its element type' % (text, show(v)[:60]), wh)
            else:
                x = Fld(a, i, 0)
                test = pf(nm(f), E.ELEM)
                d = E.decide(s, v)
                if d is False:
                    if all_false(E, s, x, test):
                        R.ok(text + ': false when no element has it')
                    elif any(tainted(q) and not posfact(q) for q in s.facts):
                        R.unknown(text, 'path condition not understood')
                    else:
                        R.violation(key + ':false', '%s is denied without having looked at every element type' % text, wh)
                elif d is True:
                    if any(q.op == 'app' and q.args[0] == 'pf' and c == ('B', True) and strip(q.args[2]).op == 'app'
                           and strip(q.args[2]).args[:2] == ('at', x) for q, c in s.facts.items()):
                        R.ok(text + ': true when an element has it')
                    elif any(unmodelled(q) for q in s.facts):
                        R.unknown(text, 'path condition not understood')
                    else:
                        R.violation(key + ':true', '%s is affirmed without an element type that has it' % text, wh)
                elif changed_by(v) and contains(v, x):
                    R.violation(key + ':part', '%s is decided by a part of the element types only (%s)' % (text, changed_by(v)), wh)
                else:
                    R.unknown(text, 'result not resolved: ' + show(v)[:80])


def ms_rule(C, R):
    f, g = rel(C, 'ms'), rel(C, 'any')
    a, b = Sym('a0'), Sym('a1')
    vs = list(variants(C, C.P.T[C.ty('Type')]['vars']))
    wh = where_fn(f)
    anyv = C.var('Type', 'Any')
    for i, (n, fs) in enumerate(vs):
        for j, (m, gs) in enumerate(vs):
            def setup(E, st, args):
                E.assume_variant(st, a, frozenset([i]))
                E.assume_variant(st, b, frozenset([j]))
            text, key = 'common type of %s and %s' % (n, m), 'common:%s:%s' % (n, m)
            r = C.run(f, setup, mode='rel+eq')
            R.covered(r)
            E = r.E
            kind = payload_kind(C, fs) if i == j else None
            x, y = Fld(a, i, 0), Fld(b, i, 0)
            for s, v in r.exits:
                if contradiction(C, E, s, a, b, i, j, vs):
                    continue
                v = E.deep(s, v)
                vv = E.get_variants(s, v)
                if vv is None:
                    whole = pf(nm(f), Unbox(x), Unbox(y))
                    R.unknown(text, 'result not resolved: ' + show(v)[:80])
                    continue
                none = vv == frozenset([0])
                res = Fld(Fld(v, 1, 0), -1, 0)
                flag = Fld(Fld(v, 1, 0), -1, 1)
                if i == anyv or j == anyv:
                    o = a if j == anyv else b
                    if none:
                        R.violation(key, '%s: none, required %s' % (text, 'the other one'), wh)
                        continue
                    both = i == j
                    R.result('eq' if res is a and (j == anyv) or res is b and i == anyv else cmp(E, s, res, o), key,
                             '%s is %s, required the other one' % (text, show(res)[:80]), wh)
                    flagok = flag is pf(nm(g), o) or E.decide(s, Eq(flag, pf(nm(g), o))) is True or cmp_flag(C, E, s, flag, o, i if j == anyv else j, vs)
                    R.result('eq' if flagok else 'unk' if tainted(flag) else 'ne', key + ':flag',
                             '%s: the incompleteness is %s, required has_any of the result' % (text, show(flag)[:80]), wh)
                elif i != j:
                    R.result('eq' if none else 'ne', key, '%s: %s, required none' % (text, show(v)[:80]), wh)
                elif kind is None:
                    if none:
                        R.violation(key, '%s: none, required the type itself' % text, wh)
                        continue
                    R.result('eq' if res is a or res is b else cmp(E, s, res, a), key, '%s is %s' % (text, show(res)[:80]), wh)
                    R.result(cmp(E, s, flag, FALSE), key + ':flag', '%s is called incomplete' % text, wh)
                elif kind == 'box':
                    inner = pf(nm(f), Unbox(x), Unbox(y))
                    inner2 = pf(nm(f), Unbox(y), Unbox(x))
                    iv = s.facts.get(inner) or s.facts.get(inner2)
                    if none:
                        R.result('eq' if iv == ('V', frozenset([0])) else 'unk' if any(unmodelled(q) for q in s.facts) else 'ne', key + ':none',
                                 '%s: none only if the element types have no common type' % text, wh)
                        continue
                    p = Unbox(Fld(res, i, 0))
                    good = [(Fld(Fld(q, 1, 0), -1, 0), Fld(Fld(q, 1, 0), -1, 1)) for q in (inner, inner2)]
                    rv = E.get_variants(s, res)
                    k = [q for q in good if p is q[0]]
                    if rv != frozenset([i]):
                        R.result('unk' if rv is None and tainted(res) else 'ne', key, '%s is %s' % (text, show(res)[:80]), wh)
                    else:
                        R.result('eq' if k else 'unk' if tainted(p) else 'ne', key, '%s: its element type is %s, required the common type of both' % (text, show(p)[:100]), wh)
                        ok = any(flag is q[1] or E.decide(s, Eq(flag, q[1])) is True for q in good)
                        R.result('eq' if ok else 'unk' if tainted(flag) else 'ne', key + ':flag',
                                 '%s: the incompleteness is %s, required that of the element type' % (text, show(flag)[:80]), wh)
                else:
                    ms_tuple(C, R, r, f, g, s, v, none, res, flag, i, x, y, key, text)


def contradiction(C, E, s, a, b, i, j, vs):
    """The path assumes a comparison of the two types that their constructors exclude."""
    if 'Any' in (vs[i][0], vs[j][0]) or i == j and payload_kind(C, vs[i][1]) is not None:
        return False
    f = rel(C, 'is')
    for q, c in s.facts.items():
        if q is Eq(a, b) or q.op == 'app' and q.args[0] == 'pf' and q.args[1].args[0] == nm(f) and {strip(z) for z in q.args[2:]} == {a, b}:
            if c == ('B', i != j):
                return True
    return False


def cmp_flag(C, E, s, flag, o, v, vs):
    """has_any is a constant for constructors without parts."""
    if payload_kind(C, vs[v][1]) is not None:
        return False
    return E.decide(s, flag) is (vs[v][0] == 'Any')


def ms_tuple(C, R, r, f, g, s, v, none, res, flag, i, x, y, key, text):
    E, wh = r.E, where_fn(f)
    if none:
        if len_differs(E, s, (x, y)):
            R.ok(text + ': none for different lengths')
        elif any(c == ('V', frozenset([0])) and q.op == 'app' and q.args[0] == 'pf' and pair_at(q, x, y) for q, c in s.facts.items()):
            R.ok(text + ': none when a pair of parts has none')
        elif any(unmodelled(q) for q in s.facts):
            R.unknown(text, 'path condition not understood')
        else:
            R.violation(key + ':none', '%s: none although no pair of parts without common type was found' % text, wh)
        return
    if E.decide(s, Eq(App('len', x), App('len', y))) is not True:
        R.result('unk' if any(unmodelled(q) for q in s.facts) else 'ne', key + ':len',
                 '%s exists although the lengths were not compared' % text, wh)
        return
    acc = Fld(res, i, 0)
    if E.get_variants(s, res) != frozenset([i]):
        R.result('unk' if tainted(res) else 'ne', key, '%s is %s' % (text, show(res)[:80]), wh)
        return
    if acc.op == 'app' and acc.args[0] == 'seq0':
        R.result('eq' if E.bounds(s, App('len', x))[1] == 0 else 'unk', key + ':parts', text + ': no parts', wh)
        return
    if acc.op != 'phi':
        R.unknown(text, 'parts of the result not resolved: ' + show(acc)[:80])
        return
    # the accumulated parts and the accumulated flag, step by step
    n = 0
    fpath = flag.args[1] if flag.op == 'phi' and flag.args[0] == acc.args[0] else None
    if fpath is None and flag.op == 'bool':
        # a constant here: find the accumulator whose value it is
        evs = [(k2, q) for k2, q in r.events if k2 in ('loop_entry', 'iterback', 'backedge') and q['site'] == acc.args[0]]
        for _, e in evs:
            for c, t in e['st'].cells.items():
                if t.op == 'bool' and c[0] == 'L' and any(q['head'].cells.get(c) is not None and (
                        q['head'].cells[c].op == 'phi' or q['head'].cells[c].op == 'bool' and q['st'].cells.get(c) is not None and q['st'].cells[c] is not q['head'].cells[c])
                        for k2, q in evs if k2 != 'loop_entry'):
                    fpath = (c,)
    for k, e in r.events:
        if k not in ('loop_entry', 'iterback', 'backedge') or e['site'] != acc.args[0]:
            continue
        new, old = at_path(e['st'].cells, acc.args[1]), at_path(e['head'].cells, acc.args[1])
        if k == 'loop_entry':
            if new is None or new.op != 'app' or new.args[0] != 'seq0':
                R.result('unk' if new is None or tainted(new) else 'ne', key + ':init', text + ': the parts start empty', wh)
            continue
        if new is None or old is None:
            R.unknown(text, 'step of the iteration not resolved')
            return
        n += 1
        if not (new.op == 'app' and new.args[0] == 'push' and new.args[1] is old):
            R.result('unk' if tainted(new) and new is not old else 'ne', key + ':step', '%s: a step does not add exactly one part' % text, wh)
            return
        part = new.args[2]
        q = part
        while q.op == 'fld':
            q = q.args[0]
        ok = part is Fld(Fld(q, 1, 0), -1, 0) and q.op == 'app' and q.args[0] == 'pf' and q.args[1].args[0] == nm(f) and pair_at(q, x, y)
        R.result('eq' if ok else 'unk' if tainted(part) and not ok and unmodelled(part) else 'ne', key + ':part',
                 '%s: each part is the common type of the two parts (got %s)' % (text, show(part)[:100]), wh)
        if fpath is not None and ok:
            fo, fn = at_path(e['head'].cells, fpath), at_path(e['st'].cells, fpath)
            a1 = Fld(Fld(q, 1, 0), -1, 1)
            if fo is None or fn is None:
                R.unknown(text, 'incompleteness not resolved')
                continue
            st = e['st']
            do, da, dn = (E.decide(st, z) for z in (fo, a1, fn))
            if dn is not None and (do is not None and (do or da is not None) or da):
                want = bool(do or da)
                R.result('eq' if dn == want else 'ne', key + ':flag', '%s is incomplete exactly if one of its parts is' % text, wh)
            elif fn is Or(fo, a1) or fn is Or(a1, fo):
                R.ok(text + ': incompleteness')
            elif dn is None and fn is fo and (da is False or do is True):
                R.ok(text + ': incompleteness')
            elif fn is a1 and do is False:
                R.ok(text + ': incompleteness')
            elif fn is fo and da is None and not unmodelled(fn):
                # the flag is kept whatever the part says: only right when it is already set
                if fo.op == 'phi' and known_true(e, fo):
                    R.ok(text + ': incompleteness')
                elif any(unmodelled(z) for z in st.facts) or do is not None:
                    R.unknown(text, 'incompleteness of a part')
                else:
                    R.violation(key + ':flag', '%s: the incompleteness of a part is passed over' % text, wh)
            elif fn is a1 and do is None and da is None and not any(unmodelled(z) for z in st.facts):
                R.violation(key + ':flag', '%s: the incompleteness of earlier parts is forgotten' % text, wh)
            else:
                R.unknown(text, 'incompleteness not resolved')
    if not n:
        R.unknown(text, 'iteration not found')
    if fpath is None and flag.op == 'bool' and n:
        if not flag.args[0]:
            R.violation(key + ':flag', '%s is called complete whatever its parts are' % text, wh)
        else:
            R.ok(text + ': always treated as incomplete')
    elif fpath is None:
        R.unknown(text, 'incompleteness not resolved: ' + show(flag)[:60])


def known_true(e, t):
    return e['st'].facts.get(t) == ('B', True)


# tuples ----------------------------------------------------------------------------------------------
def inner_struct(C, owner):
    """The struct of shared contents of Arr or Tup."""
    t = C.P.T[C.ty(owner)]['vars'][0][1][0][1]
    while C.P.T[t].get('k') == 'adt' and not C.P.T[t].get('local'):
        t = C.P.T[t]['args'][0]
    return t


def field_at(C, ty, pred):
    r = [i for i, x in enumerate(C.P.T[ty]['vars'][0][1]) if pred(C.P.T[x[1]], x[1])]
    return r[0] if len(r) == 1 else None


def is_vec(C, elem):
    e = C.ty(elem)
    return lambda T, t: T.get('k') == 'adt' and T['adt'].endswith('::Vec') and T['args'][0] == e


def builders(C, ty):
    """Local functions that build this struct in their own body (closures count for their function)."""
    out = []
    for f in C.P.locals:
        if not f.dumped or (f.canon[0] == 'T' and f.canon[1] == 'Clone'):
            continue
        for b in f.blocks:
            if any(s[0] == '=' and s[2][0] == 'agg' and s[2][1][0] == 'adt' and s[2][1][1] == ty for s in b[0]):
                out.append(owner_fn(C, f))
                break
    if not out:
        raise Unsupported('no construction of %s found' % C.P.T[ty]['adt'])
    return list(dict.fromkeys(out))


def owner_fn(C, f):
    n = f.name.split('::{closure')[0]
    if n == f.name:
        return f
    r = [g for g in C.P.locals if g.name == n]
    return r[0] if len(r) == 1 else f


def run_any(C, f, mode, setup=None):
    """A precise run of a function, with the parser's contracts if it takes part in parsing."""
    M = C.light_parser()
    if any(C.strip(t) == M.SI.ty for t in f.locals[1:1 + f.argc]):
        return pm.stream_unit(M, f)
    if reaches(C, f, set(M.hubs)):
        E = M.E
        old = E.budget, E.precise, E.join_all_errs, E.exit_limit
        E.stats['blocks'] = 0
        E.budget, E.precise, E.join_all_errs, E.exit_limit = 3_000_000, True, False, 400
        try:
            r = run_unit(E, f)
        finally:
            E.budget, E.precise, E.join_all_errs, E.exit_limit = old
        r.E = E
        return r
    return C.run(f, setup, mode=mode)


def reaches(C, f, targets):
    g = pm.callgraph(C.P)
    seen, work = set(), [f.id]
    while work:
        v = work.pop()
        if v in seen:
            continue
        seen.add(v)
        work += g.get(v, ())
    return bool(seen & targets)


def aggs(r, adt):
    return [e for k, e in r.events if k == 'agg' and e['adt'] == adt]


def tup_rule(C, R):
    ty = inner_struct(C, 'Tup')
    vi, ti = field_at(C, ty, is_vec(C, 'Value')), field_at(C, ty, is_vec(C, 'Type'))
    gt = type_of_value(C)
    todo, done = builders(C, ty), set()
    while todo:
        f = todo.pop()
        if f.id in done:
            continue
        done.add(f.id)
        def one(f=f):
            r = run_any(C, f, 'type+rel+eq')
            R.covered(r)
            es = aggs(r, C.P.T[ty]['adt'])
            if not es:
                R.unknown('types of tuples in ' + f.name, 'construction not reached')
            for e in es:
                vals, ts = r.E.deep(e['st'], e['fields'][vi]), r.E.deep(e['st'], e['fields'][ti])
                text = 'the types of a tuple built in %s are those of its values' % f.name
                if ts.op == 'sym' and not (f.vis_pub if hasattr(f, 'vis_pub') else False) and private_callers(C, f):
                    todo.extend(private_callers(C, f))
                    continue
                res, why = mapped(r, e, vals, ts, gt)
                R.result(res, 'tuple:' + f.name, text + ('' if res == 'eq' else ' (%s)' % why), where_fn(f), why)
        guard(R, 'types of tuples in ' + f.name, one)


def type_of_value(C):
    r = [f for f in C.type_fns() if C.strip(f.locals[1]) == C.ty('Value')]
    return nm(r[0]) if len(r) == 1 else 'get_type'


def private_callers(C, f):
    out = []
    for g in C.P.locals:
        if g.dumped and any(t[1].get('inst') == f.id for _, t, _ in calls(g)):
            out.append(owner_fn(C, g))
    return list(dict.fromkeys(out))


def mapped(r, e, vals, ts, gt):
    """ts = [type(v) for v in vals], in order."""
    E, st = r.E, e['st']
    if ts.op == 'app' and ts.args[0] == 'map' or ts.op == 'app' and ts.args[0] == 'collect':
        pass
    if ts.op == 'app' and ts.args[0] == 'seq0':
        return ('eq' if E.bounds(st, App('len', vals))[1] == 0 or vals.op == 'app' and vals.args[0] == 'seq0' else 'ne'), 'no types are recorded'
    if ts.op != 'phi':
        return 'unk', 'list of types not resolved: ' + show(ts)[:100]
    n = ent = 0
    for k, q in r.events:
        if k not in ('loop_entry', 'iterback', 'backedge') or q['site'] != ts.args[0]:
            continue
        new, old = at_path(q['st'].cells, ts.args[1]), at_path(q['head'].cells, ts.args[1])
        if new is None or old is None:
            return 'unk', 'step not resolved'
        if k == 'loop_entry':
            if not (new.op == 'app' and new.args[0] == 'seq0'):
                return 'unk', 'start of the list'
            for _, pos, p2 in iterations(E, q, vals):
                if not (p2.op == 'int' and p2.args[0] == 0):
                    return ('ne' if p2.op == 'int' else 'unk'), 'the first types are skipped'
            ent += 1
            continue
        if not (new.op == 'app' and new.args[0] == 'push' and new.args[1] is old):
            return ('ne' if new is old else 'unk'), 'a step does not add one type'
        x = new.args[2]
        its = iterations(E, q, vals)
        pos = {p for _, p, _ in its}
        want = [pf(gt, App('at', vals, p)) for p in pos]
        if not any(x is w or strip(x) is w for w in want):
            # both lists are grown together?
            vn, vo = grown(q, vals)
            if vn is not None and vn.op == 'app' and vn.args[0] == 'push' and vn.args[1] is vo and x is pf(gt, vn.args[2]):
                n += 1
                continue
            return ('unk' if unmodelled(x) or not its else 'ne'), 'a step adds %s' % show(x)[:80]
        n += 1
    if not n or not ent:
        return 'unk', 'iteration not found'
    ps = loop_pos(st, vals)
    if vals.op != 'phi' and not any(E.decide(st, Lt(p, App('len', vals))) is False for p in ps):
        return 'unk', 'end of the iteration'
    return 'eq', ''


def grown(q, vals):
    if vals.op != 'phi':
        return None, None
    return at_path(q['st'].cells, vals.args[1]), at_path(q['head'].cells, vals.args[1])


# arrays ----------------------------------------------------------------------------------------------
def built(C, R):
    ty = inner_struct(C, 'Arr')
    tt = C.ty('Type')
    vi, ti = field_at(C, ty, is_vec(C, 'Value')), field_at(C, ty, lambda T, t: t == tt)
    adt = C.P.T[ty]['adt']
    opf = {f.id: (f, a, b, c) for f, a, b, c in ops.op_functions(C)}
    todo = builders(C, ty)
    done = set()
    while todo:
        f = todo.pop()
        if f.id in done:
            continue
        done.add(f.id)
        if f.id in opf:
            guard(R, 'concatenation', concat, C, R, *opf[f.id])
            continue

        def one(f=f):
            r = run_any(C, f, 'type+rel+eq')
            R.covered(r)
            es = aggs(r, adt)
            if not es:
                R.unknown('arrays built in ' + f.name, 'construction not reached')
            up = False
            for e in es:
                vals, t = r.E.deep(e['st'], e['fields'][vi]), r.E.deep(e['st'], e['fields'][ti])
                if vals.op == 'sym' and t.op == 'sym':
                    up = True                       # the caller is responsible for both
                    continue
                res, why, w = folded(C, r, e, vals, t)
                if res != 'eq' and free(t) and private_callers(C, f) and not pub(C, f):
                    up = True
                    continue
                R.result(res, 'arr-type:' + f.name, 'the inner type of the array built in %s is folded over its elements%s' % (
                    f.name, '' if res == 'eq' else ': ' + why), w or where_fn(f), why)
            if up:
                todo.extend(private_callers(C, f))
            errs(C, R, r, f)
        guard(R, 'arrays built in ' + f.name, one)


def pub(C, f):
    import effects
    return f.id in {g.id for it, g in effects.public_fns(C)}


def free(t):
    return any(x.op == 'sym' for x in [t] + list(closure(t)))


def concat(C, R, f, vi, oi, o):
    if o != 'BinaryOp':
        return
    R2 = Result(R.pid)
    k = C.var('BinaryOp', 'Plus')
    av = C.var('Value', 'Arr')
    ops.table(C, R2, f, vi, oi, o, k, 'Plus', av, 'Arr', av, 'Arr')
    for b in R2.bad:
        if not b[0].endswith(':elems'):
            R.violation('concat:' + b[0], *b[1:])
    for u in R2.unk:
        R.unknown(*u)
    R.ok('concatenation of arrays: common type', R2.ok_n)
    R.fns |= R2.fns
    R.paths += R2.paths


def msof(C, t, ty):
    n = nm(rel(C, 'ms'))
    return [pf(n, t, ty), pf(n, ty, t)]


def step(C, E, st, elem, T, H, T2, H2):
    """One element of type(elem) is added: is T2 (incomplete: H2) its fold into T (incomplete: H)? -> (eq|ne|unk, why)"""
    ty = pf(type_of_value(C), elem)
    anyn = nm(rel(C, 'any'))
    for ms in msof(C, T, ty):
        r = Fld(Fld(ms, 1, 0), -1, 0)
        if T2 is r:
            if E.get_variants(st, ms) != frozenset([1]):
                return 'unk', 'the common type may not exist'
            if H2 is not None:
                fl = Fld(Fld(ms, 1, 0), -1, 1)
                if H2 is fl or E.decide(st, Eq(H2, fl)) is True or H2 is pf(anyn, T2):
                    return 'eq', ''
                if H2.op == 'bool' and H2.args[0]:
                    return 'eq', ''         # treating it as incomplete is always safe
                return ('unk' if tainted(H2) else 'ne'), 'the incompleteness of the type is set to ' + show(H2)[:60]
            return 'eq', ''
    if T2 is T:
        same = E.decide(st, Eq(T, ty)) is True or E.decide(st, Eq(ty, T)) is True
        complete = H is not None and E.decide(st, H) is False or E.decide(st, pf(anyn, T)) is False
        if H2 is not None and H2 is not H and E.decide(st, Eq(H2, H)) is not True and not (H2.op == 'bool' and H2.args[0]):
            return ('unk' if tainted(H2) else 'ne'), 'the incompleteness of the type is set to ' + show(H2)[:60]
        if same and complete:
            return 'eq', ''
        if any(unmodelled(q) and not posfact(q) and contains(q, ty) for q in st.facts):
            return 'unk', 'path condition not understood'
        if not same:
            return 'ne', 'an element is added without comparing its type'
        return 'ne', 'the type is kept although it may be incomplete and the element\'s type more specific'
    if tainted(T2) and not contains(T2, ty) and unmodelled(T2):
        return 'unk', 'new type not resolved: ' + show(T2)[:80]
    if T2 is ty and E.get_variants(st, T) == frozenset([C.var('Type', 'Any')]):
        return 'eq', ''
    if T2 is ty or (T2.op == 'adt' and not T2.args[2:]):
        return 'ne', 'the type becomes %s whatever it was before' % show(T2)[:60]
    return 'unk', 'new type not resolved: ' + show(T2)[:80]


def folded(C, r, e, vals, T):
    """Is T the fold of the types of vals? -> (eq|ne|unk, why, where)"""
    E, st = r.E, e['st']
    anyv = C.var('Type', 'Any')
    empty = vals.op == 'app' and vals.args[0] == 'seq0' or E.bounds(st, App('len', vals))[1] == 0
    if T.op == 'adt' and T.args[1] == anyv:
        if empty:
            return 'eq', '', None
        return ('unk' if unmodelled(vals) else 'ne'), 'the type is Any although there may be elements', None
    if T.op != 'phi':
        t0 = pf(type_of_value(C), App('at', vals, Int(0)))
        first = [t0] + [Fld(Fld(m, 1, 0), -1, 0) for m in msof(C, C.adt('Type', 'Any'), t0)]
        if any(T is f for f in first) and E.bounds(st, App('len', vals))[1] == 1:
            return 'eq', '', None
        if any(T is f for f in first) or T.op == 'adt' and not T.args[2:]:
            return ('unk' if any(unmodelled(q) for q in st.facts) else 'ne'), 'the type is %s whatever the other elements are' % show(T)[:100], None
        return 'unk', 'type not resolved: ' + show(T)[:100], None
    site = T.args[0]
    grow = vals.op == 'phi' and vals.args[0] == site
    fl = flag_cell(C, r, site, T)
    n = ent = 0
    for k, q in r.events:
        if k not in ('loop_entry', 'iterback', 'backedge') or q['site'] != site:
            continue
        hc, nc, s2 = q['head'].cells, q['st'].cells, q['st']
        T0, T2 = at_path(hc, T.args[1]), at_path(nc, T.args[1])
        if T0 is None or T2 is None:
            return 'unk', 'type in the loop not resolved', None
        H0, H2 = (hc.get(fl), nc.get(fl)) if fl else (None, None)
        w = [E.where(q['fr'], q['span'])] if q.get('span') else None
        if k == 'loop_entry':
            ent += 1
            if not (T2.op == 'adt' and T2.args[1] == anyv):
                return ('unk' if tainted(T2) else 'ne'), 'the fold starts with %s instead of Any' % show(T2)[:60], w
            if H2 is not None and E.decide(s2, H2) is not True:
                return ('unk' if tainted(H2) else 'ne'), 'the fold does not start incomplete', w
            if grow:
                V2 = at_path(nc, vals.args[1])
                if V2 is None or not (V2.op == 'app' and V2.args[0] == 'seq0'):
                    return 'unk', 'start of the list of elements', w
            continue
        if grow:
            V0, V2 = at_path(hc, vals.args[1]), at_path(nc, vals.args[1])
            if V0 is None or V2 is None:
                return 'unk', 'elements in the loop not resolved', w
            if V2 is V0 and T2 is T0:
                continue
            if not (V2.op == 'app' and V2.args[0] == 'push' and V2.args[1] is V0):
                return ('unk' if unmodelled(V2) or V2.op == 'phi' else 'ne'), 'a step does not add exactly one element', w
            elem = V2.args[2]
        else:
            its = iterations(E, q, vals)
            if len({p for _, p, _ in its}) != 1:
                return 'unk', 'not a single iteration over the elements', w
            _, pos, new = its[0]
            if E.decide(s2, Eq(new, Add(pos, Int(1)))) is not True:
                return 'ne', 'the iteration skips elements', w
            elem = App('at', vals, pos)
        n += 1
        res, why = step(C, E, s2, elem, T0, H0, T2, H2)
        if res != 'eq':
            return res, why, w
    if not n or not ent:
        return 'unk', 'the loop that computes the type was not found', None
    if not grow:
        ps = loop_pos(st, vals)
        if not any(E.decide(st, Lt(p, App('len', vals))) is False for p in ps):
            return ('unk' if not ps else 'ne'), 'the types of the elements are not all looked at', None
        # and the loop starts with the first one
        for k, q in r.events:
            if k == 'loop_entry' and q['site'] == site:
                for _, pos, new in iterations(E, q, vals):
                    if not (new.op == 'int' and new.args[0] == 0):
                        return 'ne', 'the fold does not start with the first element', None
    return 'eq', '', None


def flag_cell(C, r, site, T):
    """The boolean carried through the loop together with the type."""
    out = set()
    for k, q in r.events:
        if k in ('iterback', 'backedge') and q['site'] == site:
            for c, t in q['st'].cells.items():
                if c[0] == 'L' and t.op == 'fld' and t.args[2] == 1 and t.args[0].op == 'fld' and t.args[0].args[0].op == 'app' \
                        and t.args[0].args[0].args[0] == 'pf' and q['head'].cells.get(c) is not None:
                    out.add(c)
    for k, q in r.events:
        if k in ('iterback', 'backedge') and q['site'] == site:
            for c, t in q['st'].cells.items():
                h = q['head'].cells.get(c)
                if c[0] == 'L' and h is not None and h.op == 'phi' and is_bool_cell(C, q, c) and any(
                        p is h for p in q['st'].facts):
                    out.add(c)
    return out.pop() if len(out) == 1 else None


def is_bool_cell(C, q, c):
    fr = q['fr']
    while fr is not None:
        if fr.fid == c[1]:
            return C.P.T[fr.fn.locals[c[2]]].get('k') == 'bool'
        fr = fr.parent
    return False


def errs(C, R, r, f):
    """A type error of an array is raised only if there is no common type."""
    E = r.E
    tv = {('OverError', 'ArrTypeMismatch'), ('ParseErrorKind', 'ExpectedType')}
    msn = nm(rel(C, 'ms'))
    seen = 0
    for k, e in r.events:
        if k != 'agg':
            continue
        a = e['adt'].rsplit('::', 1)[-1]
        if a not in ('OverError', 'ParseErrorKind') or (a, C.P.T[e['ty']]['vars'][e['variant']][0]) not in tv:
            continue
        st = e['st']
        T, ty = e['fields'][0], e['fields'][1]
        T, ty = strip(E.deep(st, T)), strip(E.deep(st, ty))
        seen += 1
        text = 'arrays are refused in %s only when the types have no common type' % f.name
        none = any(st.facts.get(pf(msn, *p)) == ('V', frozenset([0])) for p in ((T, ty), (ty, T)))
        w = [E.where(e['fr'], e['span'])]
        if none or E.decide(st, Eq(T, ty)) is False or E.decide(st, Eq(ty, T)) is False:
            R.ok(text)
        elif any(unmodelled(q) and not posfact(q) for q in st.facts) or tainted(ty) and unmodelled(ty):
            R.unknown(text, 'path condition not understood')
        elif not (T.op == 'phi' or T.op == 'adt'):
            R.unknown(text, 'other use of the error')
        else:
            R.violation('arr-refuse:' + f.name, 'an array is refused in %s although a common type was not excluded' % f.name, w)
