"""C15-C18: equality, getters, comparisons with Rust types, lookup: decision tables over the variants."""
from base import *


# structure of the local types -------------------------------------------------------------------------
def leafs(C, ty, t, depth=0):
    """(type index, term) for every field reachable through structs, Arc/Rc/Box."""
    T = C.P.T[ty]
    if T.get('k') == 'adt' and depth < 8:
        a = T['adt']
        if a.endswith(('::Arc', '::Rc', '::Box')):
            yield from leafs(C, T['args'][0], Unbox(t), depth + 1)
            return
        if T['kind'] == 'struct' and T.get('local'):
            for i, (n, x) in enumerate(T['vars'][0][1]):
                yield from leafs(C, x, Fld(t, -1, i), depth + 1)
            return
    yield ty, t


def variants(C, vs):
    return [(v[0], v[1]) for v in vs]


def obj_parts(C, x):
    """pairs, parent of an Obj term."""
    pairs = parent = None
    for ty, t in leafs(C, C.ty('Obj'), x):
        n = C.P.T[ty]['n']
        if C.P.T[ty].get('k') == 'adt' and C.P.T[ty]['adt'].endswith('::Vec') and 'Pair' in n:
            pairs = t
        elif C.P.T[ty].get('k') == 'adt' and C.P.T[ty]['adt'].endswith('::Option'):
            parent = t
    return pairs, parent


def vec_of(C, owner, elem, x):
    for ty, t in leafs(C, C.ty(owner), x):
        T = C.P.T[ty]
        if T.get('k') == 'adt' and T['adt'].endswith('::Vec') and T['args'][0] == C.ty(elem):
            return t
    return None


def type_of_arr(C, x):
    for ty, t in leafs(C, C.ty('Arr'), x):
        if ty == C.ty('Type'):
            return t
    return None


def id_of(C, owner, x):
    for ty, t in leafs(C, C.ty(owner), x):
        if C.P.T[ty].get('k') == 'uint':
            return t
    return None


def Seqeq(name, a, b):
    if b < a:
        a, b = b, a
    return App('seqeq', Str(name), a, b)


def vec_eq(C, elem, a, b):
    return Seqeq(elem, a, b)


def same_instance(E, s):
    """A fact that both operands are the very same instance (then equality holds trivially)."""
    for k, c in s.facts.items():
        if c == ('B', True) and k.op == 'app':
            if k.args[0] in ('ptreq', 'ptr_eq'):
                return True
            if k.args[0] == 'eq' and any(x.op == 'app' and x.args[0] in ('addr', 'ptr') for x in k.args[1:]):
                return True
    return False


def len_differs(E, s, *pairs):
    for a, b in pairs:
        la, lb = App('len', a), App('len', b)
        if E.decide(s, Eq(la, lb)) is False or E.decide(s, Lt(la, lb)) is True or E.decide(s, Lt(lb, la)) is True:
            return True
    return False


def same_id(C, E, s, owner):
    a, b = id_of(C, owner, Sym('a0')), id_of(C, owner, Sym('a1'))
    return a is not None and E.decide(s, Eq(a, b)) is True


# C15 -----------------------------------------------------------------------------------------------
def rule_C15(C, R):
    R.rule = ('Each equality function is interpreted abstractly over symbolic operands, once per combination of variants '
              '(parent/no parent, value kinds); every exit must return exactly the defined conjunction of the equalities '
              'of the corresponding parts (recursive comparisons are taken as equalities of their operands).')
    guard(R, 'equality of objects', eq_obj, C, R)
    guard(R, 'equality of arrays', eq_seq, C, R, 'Arr')
    guard(R, 'equality of tuples', eq_seq, C, R, 'Tup')
    guard(R, 'equality of values', eq_value, C, R)
    guard(R, 'equality of pairs', eq_pair, C, R)
    guard(R, 'equality of types', eq_type, C, R)
    # no ne() that disagrees with eq()
    for f in C.P.locals:
        if f.canon[0] == 'T' and f.canon[1] == 'PartialEq' and f.canon[2] == 'ne' and '{' not in f.name:
            guard(R, 'ne of ' + f.name, ne_fn, C, R, f)


def ne_fn(C, R, f):
    eqs = [g for g in C.P.locals if g.canon[0] == 'T' and g.canon[1] == 'PartialEq' and g.canon[2] == 'eq' and g.canon[3:] == f.canon[3:]]
    if len(eqs) != 1:
        R.unknown(f.name, 'no matching eq')
        return
    r = C.run(f, mode='eq')
    R.covered(r)
    for s, v in r.exits:
        want = Not(Eq(Sym('a0'), Sym('a1')))
        R.result(cmp(r.E, s, v, want), 'ne:' + f.name, '%s is the negation of eq' % f.name, where_fn(f))


def check_bool(C, R, f, key, text, setup, want, mode='eq', extra=None):
    r = C.run(f, setup, mode=mode)
    R.covered(r)
    if not r.exits:
        R.unknown(text, 'no return reached')
    for s, v in r.exits:
        w = want
        if extra is not None:
            x = extra(r.E, s)
            if x is not None:
                w = x
        res = cmp(r.E, s, v, w)
        if res != 'eq':
            # comparisons that are made element by element
            import types_rule
            m = {}
            for q in [w] + list(closure(w)):
                if q.op == 'app' and q.args[0] == 'seqeq':
                    d = types_rule.seq_truth(r, s, q.args[2], q.args[3])
                    if d is not None:
                        m[q] = Bool(d)
            if m:
                w2 = simplify(subst(w, m))
                res = cmp(r.E, s, v, w2)
            elif res == 'ne' and any(q.op == 'app' and q.args[0] == 'seqeq' and (types_rule.loop_pos(s, q.args[2]) or types_rule.loop_pos(s, q.args[3]))
                                     and not (r.E.decide(s, Eq(App('len', q.args[2]), App('len', q.args[3]))) is None and r.E.decide(s, v) is True)
                                     and not types_rule.seq_wrong(r, s, v, q.args[2], q.args[3])
                                     for q in [w] + list(closure(w))):
                res = 'unk'
        R.result(res, key, '%s: returns %s, required %s' % (text, show(v)[:200], show(w)[:200]), where_fn(f))


def simplify(t):
    """And/Not over decided parts."""
    if t.op != 'app':
        return t
    if t.args[0] == 'and':
        return And(*[simplify(x) for x in t.args[1:]])
    if t.args[0] == 'not':
        return Not(simplify(t.args[1]))
    return t


def eq_fn(C, ty):
    r = [f for f in C.eq_fns() if f.canon[2] == 'eq' and C.strip(f.locals[1]) == C.ty(ty)]
    return r[0] if len(r) == 1 else None


def eq_obj(C, R):
    f = eq_fn(C, 'Obj')
    a, b = Sym('a0'), Sym('a1')
    pa, qa = obj_parts(C, a)
    pb, qb = obj_parts(C, b)
    for va in (0, 1):
        for vb in (0, 1):
            def setup(E, st, args):
                E.assume_variant(st, qa, frozenset([va]))
                E.assume_variant(st, qb, frozenset([vb]))
            if va != vb:
                want = FALSE
            elif va == 0:
                want = vec_eq(C, 'Pair', pa, pb)
            else:
                want = And(Eq(Fld(qa, 1, 0), Fld(qb, 1, 0)), vec_eq(C, 'Pair', pa, pb))

            def extra(E, s):
                if same_instance(E, s) or same_id(C, E, s, 'Obj'):
                    return TRUE
                if len_differs(E, s, (pa, pb)):
                    return FALSE
            check_bool(C, R, f, 'obj-eq:%d%d' % (va, vb), 'Obj equality, parent %s / parent %s' % (bool(va), bool(vb)),
                       setup, want, extra=extra)


def eq_seq(C, R, ty):
    f = eq_fn(C, ty)
    a, b = Sym('a0'), Sym('a1')
    va, vb = vec_of(C, ty, 'Value', a), vec_of(C, ty, 'Value', b)
    if ty == 'Arr':
        t = Eq(type_of_arr(C, a), type_of_arr(C, b))
    else:
        t = vec_eq(C, 'Type', vec_of(C, ty, 'Type', a), vec_of(C, ty, 'Type', b))
    want = And(t, vec_eq(C, 'Value', va, vb))
    lens = [(va, vb)] + ([(vec_of(C, ty, 'Type', a), vec_of(C, ty, 'Type', b))] if ty == 'Tup' else [])

    def extra(E, s):
        if same_instance(E, s) or same_id(C, E, s, ty):
            return TRUE
        if len_differs(E, s, *lens):
            return FALSE
    check_bool(C, R, f, ty.lower() + '-eq', ty + ' equality', None, want, extra=extra)


def eq_value(C, R):
    f = eq_fn(C, 'Value')
    vs = C.P.T[C.ty('Value')]['vars']
    for i, (n, fs) in enumerate(variants(C, vs)):
        for j in range(len(vs)):
            def setup(E, st, args):
                E.assume_variant(st, Sym('a0'), frozenset([i]))
                E.assume_variant(st, Sym('a1'), frozenset([j]))
            want = FALSE
            if i == j:
                want = TRUE
                for k in range(len(fs)):
                    want = And(want, Eq(Fld(Sym('a0'), i, k), Fld(Sym('a1'), i, k)))
            check_bool(C, R, f, 'value-eq:%s:%s' % (n, vs[j][0]), 'equality of %s and %s' % (n, vs[j][0]), setup, want)


def eq_pair(C, R):
    f = eq_fn(C, 'Pair')
    a, b = Sym('a0'), Sym('a1')
    want = TRUE
    for i in range(len(C.P.T[C.ty('Pair')]['vars'][0][1])):
        want = And(want, Eq(Fld(a, -1, i), Fld(b, -1, i)))
    check_bool(C, R, f, 'pair-eq', 'equality of pairs', None, want)


def eq_type(C, R):
    """Compatibility of types: Any is compatible with everything; otherwise same constructor and compatible parts."""
    f = eq_fn(C, 'Type')
    T = C.ty('Type')
    vs = C.P.T[T]['vars']
    a, b = Sym('a0'), Sym('a1')
    anyv = C.var('Type', 'Any')
    for i, (n, fs) in enumerate(variants(C, vs)):
        for j, (m, gs) in enumerate(variants(C, vs)):
            def setup(E, st, args):
                E.assume_variant(st, a, frozenset([i]))
                E.assume_variant(st, b, frozenset([j]))
            extra = None
            if i == anyv or j == anyv:
                want = TRUE
            elif i != j:
                want = FALSE
            elif not fs:
                want = TRUE
            else:
                x, y = Fld(a, i, 0), Fld(b, i, 0)
                pt = C.P.T[fs[0][1]]
                if pt.get('k') == 'adt' and pt['adt'].endswith('::Box'):
                    want = Eq(Unbox(x), Unbox(y))
                else:
                    want = vec_eq(C, 'Type', x, y)
                    extra = lambda E, s: FALSE if len_differs(E, s, (x, y)) else None
            check_bool(C, R, f, 'type-eq:%s:%s' % (n, m), 'compatibility of types %s and %s' % (n, m), setup, want, extra=extra)


# C16 -----------------------------------------------------------------------------------------------
GET = {'get_bool': 'Bool', 'get_int': 'Int', 'get_frac': 'Frac', 'get_str': 'Str', 'get_arr': 'Arr', 'get_tup': 'Tup',
       'get_obj': 'Obj'}


def type_table(C, E, x, st):
    """Type of value x (whose variant is known in st), as the public get_type computes it."""
    g = C.fn('Value::get_type')
    s = st.copy()
    E.stats['blocks'] = 0
    r = run_unit(E, g, [Pref(x)], s, collect=False)
    if len(r.exits) != 1:
        raise Unsupported('get_type has several results for one variant')
    return r.exits[0][1]


def get_type_rule(C, R):
    f = C.fn('Value::get_type')
    vs = C.P.T[C.ty('Value')]['vars']
    a = Sym('a0')
    for i, (n, fs) in enumerate(variants(C, vs)):
        def setup(E, st, args):
            E.assume_variant(st, a, frozenset([i]))
        r = C.run(f, setup, mode='eq')
        R.covered(r)
        if n == 'Arr':
            want = C.adt('Type', n, App('box', type_of_arr(C, Fld(a, i, 0))))
        elif n == 'Tup':
            want = C.adt('Type', n, vec_of(C, 'Tup', 'Type', Fld(a, i, 0)))
        else:
            want = C.adt('Type', n)
        for s, v in r.exits:
            R.result(cmp(r.E, s, r.E.deep(s, v), want), 'get_type:' + n, 'the type of a %s value: %s, required %s' % (n, show(r.E.deep(s, v))[:200], show(want)[:200]), where_fn(f))


def expected_get(C, E, st, x, i, want_kind):
    """(kind, term or (wanted type variant, actual type)) for getter want_kind on x of variant i."""
    n = C.P.T[C.ty('Value')]['vars'][i][0]
    if n == want_kind:
        return 'ok', Fld(x, i, 0)
    if n == 'Int' and want_kind == 'Frac':
        return 'ok', App('ratio', Fld(x, i, 0), App('bigint', Int(1)))
    return 'err', type_table(C, E, x, st)


def check_get(C, R, f, s, v, E, exp, kind, key, text):
    v = E.deep(s, v)
    ov = C.ty('OverError')
    if exp[0] == 'ok':
        want = Adt('std::result::Result' if v.op != 'adt' else v.args[0], 0, [exp[1]])
        r = cmp(E, s, v, want)
        R.result(r, key, '%s: returns %s, required Ok(%s)' % (text, show(v)[:160], show(exp[1])[:160]), where_fn(f))
        return
    # mismatch naming the wanted and the actual type
    if v.op == 'adt' and v.args[0].endswith('Result'):
        if v.args[1] == 0:
            R.result('unk' if False else 'ne', key, '%s: returns %s, required a mismatch error' % (text, show(v)[:200]), where_fn(f))
            return
        e = v.args[2]
        tm = C.var('OverError', 'TypeMismatch')
        ev = E.get_variants(s, e)
        if ev is None:
            R.unknown(text, 'error not resolved: ' + show(e)[:100])
            return
        if ev != frozenset([tm]):
            R.violation(key, '%s: fails with %s instead of a type mismatch' % (text, show(e)[:200]), where_fn(f))
            return
        w, a = Fld(e, tm, 0), Fld(e, tm, 1)
        wv = E.get_variants(s, w)
        wk = C.var('Type', kind)
        if wv is None:
            R.unknown(text, 'wanted type not resolved')
        elif wv != frozenset([wk]):
            R.violation(key + ':wanted', '%s: the mismatch names %s as the wanted type' % (text, show(w)[:100]), where_fn(f))
        else:
            # its parts may name no particular element type
            R.ok(text + ': wanted type')
        R.result(cmp(E, s, a, exp[1]), key + ':actual', '%s: the mismatch names %s as the actual type, required %s' % (
            text, show(a)[:160], show(exp[1])[:160]), where_fn(f))
        return
    R.unknown(text, 'result not resolved: ' + show(v)[:120])


def rule_C16(C, R):
    R.rule = ('Decision table getter x value kind, computed by abstract interpretation of each getter with the variant of '
              'the value assumed: the Ok content must be the payload of that very value, a mismatch must carry the '
              "getter's type and the type get_type computes for the value; object getters are checked on the result of Obj::get.")
    guard(R, 'type of a value', get_type_rule, C, R)
    vs = C.P.T[C.ty('Value')]['vars']
    a = Sym('a0')
    for g, kind in GET.items():
        f = C.fn('Value::' + g)
        if f is None:
            R.unknown('Value::' + g, 'function not found')
            continue
        for i, (n, fs) in enumerate(variants(C, vs)):
            def one():
                def setup(E, st, args):
                    E.assume_variant(st, a, frozenset([i]))
                r = C.run(f, setup, mode='eq')
                R.covered(r)
                text = 'Value::%s on a %s value' % (g, n)
                if not r.exits:
                    R.unknown(text, 'no return reached')
                for s, v in r.exits:
                    exp = expected_get(C, r.E, s, a, i, kind)
                    check_get(C, R, f, s, v, r.E, exp, kind, 'value-get:%s:%s' % (g, n), text)
            guard(R, 'Value::%s on %s' % (g, n), one)
    f = C.fn('Value::is_null')
    for i, (n, fs) in enumerate(variants(C, vs)):
        def nul():
            def setup(E, st, args):
                E.assume_variant(st, a, frozenset([i]))
            check_bool(C, R, f, 'is_null:' + n, 'is_null of a %s value' % n, setup, Bool(n == 'Null'))
        guard(R, 'is_null of ' + n, nul)
    # getters of an object
    for g, kind in GET.items():
        f = C.fn('Obj::' + g)
        if f is None:
            R.unknown('Obj::' + g, 'function not found')
            continue
        guard(R, 'Obj::' + g, obj_getter, C, R, f, g, kind)


def obj_getter(C, R, f, g, kind):
    vs = C.P.T[C.ty('Value')]['vars']
    opt = App('pf', Str('get'), Sym('a0'), Sym('a1'))
    x = Fld(opt, 1, 0)
    for i in [None] + list(range(len(vs))):
        def setup(E, st, args):
            E.assume_variant(st, opt, frozenset([0 if i is None else 1]))
            if i is not None:
                E.assume_variant(st, x, frozenset([i]))
        r = C.run(f, setup, mode='eq+get')
        R.covered(r)
        uses = any(k == 'opaque' for k, _ in r.events)
        for s, v in r.exits:
            E = r.E
            v = E.deep(s, v)
            if opt not in closure(v) and opt not in s.facts and not any(opt in closure(k) for k in s.facts):
                R.unknown('Obj::' + g, 'does not look the field up through Obj::get')
                continue
            if i is None:
                text = 'Obj::%s of a missing field' % g
                want = Adt(v.args[0] if v.op == 'adt' else 'Result', 1, [C.adt('OverError', 'FieldNotFound', Sym('a1'))])
                got = cmp(E, s, v, want)
                if got == 'ne' and foreign_fact(s, opt):
                    got = 'unk'
                R.result(got, 'obj-get:%s:missing' % g, '%s: returns %s, required %s' % (text, show(v)[:200], show(want)[:200]), where_fn(f))
                continue
            n = vs[i][0]
            text = 'Obj::%s of a %s field' % (g, n)
            exp = expected_get(C, E, s, x, i, kind)
            check_get(C, R, f, s, v, E, exp, kind, 'obj-get:%s:%s' % (g, n), text)


def foreign_fact(s, *allowed):
    """Path depends on something the analysis has no meaning for."""
    for k in s.facts:
        if k.op == 'app' and k.args[0] == 'call' or tainted(k):
            return True
    return False


# C17 -----------------------------------------------------------------------------------------------
INTS = {'u8': (0, 2**8 - 1), 'u16': (0, 2**16 - 1), 'u32': (0, 2**32 - 1), 'u64': (0, 2**64 - 1), 'u128': (0, 2**128 - 1), 'usize': (0, 2**64 - 1),
        'i8': (-2**7, 2**7 - 1), 'i16': (-2**15, 2**15 - 1), 'i32': (-2**31, 2**31 - 1), 'i64': (-2**63, 2**63 - 1),
        'i128': (-2**127, 2**127 - 1), 'isize': (-2**63, 2**63 - 1)}


def kind_of_ty(C, t):
    """Value variant a Rust type corresponds to."""
    t = C.strip(t)
    T = C.P.T[t]
    k = T.get('k')
    if k == 'bool':
        return 'Bool'
    if k in ('uint', 'int'):
        return 'Int'
    if k == 'str':
        return 'Str'
    if k == 'adt':
        a = T['adt'].rsplit('::', 1)[-1]
        return {'BigInt': 'Int', 'Ratio': 'Frac', 'String': 'Str', 'Arr': 'Arr', 'Tup': 'Tup', 'Obj': 'Obj'}.get(a)
    return None


def rule_C17(C, R):
    R.rule = ('Every PartialEq between Value and another type and every From into Value is interpreted per value kind: '
              'the comparison must be false for every other kind and the equality of the untruncated contents for the '
              'corresponding kind (a checked narrowing that fails means unequal); a conversion must store its argument unchanged.')
    vt = C.ty('Value')
    n = 0
    for f in C.P.locals:
        if '{' in f.name or f.canon[0] != 'T':
            continue
        if f.canon[1] == 'PartialEq' and f.canon[2] in ('eq', 'ne') and f.argc == 2:
            ats = [C.strip(t) for t in f.locals[1:3]]
            if vt in ats and ats[0] != ats[1]:
                n += 1
                guard(R, f.name, cmp_with, C, R, f, 0 if ats[0] == vt else 1)
        if f.canon[1] == 'From' and f.argc == 1 and f.locals[0] == vt:
            n += 1
            guard(R, f.name, conv_from, C, R, f)
    both_orders(C, R)
    R.notes.append('%d comparison and conversion functions' % n)


def both_orders(C, R):
    vt = C.ty('Value')
    have = {}
    for f in C.P.locals:
        if f.canon[0] == 'T' and f.canon[1] == 'PartialEq' and f.canon[2] == 'eq' and f.argc == 2 and '{' not in f.name:
            ats = [C.P.T[C.strip(t)]['n'] for t in f.locals[1:3]]
            if C.P.T[vt]['n'] in ats and ats[0] != ats[1]:
                have.setdefault(ats[1] if ats[0] == C.P.T[vt]['n'] else ats[0], set()).add(ats[0] == C.P.T[vt]['n'])
    for t, o in have.items():
        if len(o) == 2:
            R.ok('comparison with %s exists in both orders' % t)


def conv_call(t):
    """(x, int type) if t is the checked conversion of big integer x into a machine integer."""
    if t.op == 'app' and isinstance(t.args[0], str) and t.args[0].startswith('to_') and t.args[0][3:] in INTS:
        return t.args[1], t.args[0][3:]
    return None


def cmp_with(C, R, f, vi):
    oi = 1 - vi
    ot = f.locals[1 + oi]
    kind = kind_of_ty(C, ot)
    if kind is None:
        R.unknown(f.name, 'type has no corresponding kind of value')
        return
    vs = C.P.T[C.ty('Value')]['vars']
    neg = f.canon[2] == 'ne'
    T = C.P.T[C.strip(ot)]
    for i, (n, fs) in enumerate(variants(C, vs)):
        def setup(E, st, args):
            E.assume_variant(st, Sym('a%d' % vi), frozenset([i]))
        r = C.run(f, setup, mode='eq')
        R.covered(r)
        x = Fld(Sym('a%d' % vi), i, 0)
        text = '%s with a %s value' % (f.name, n)
        key = 'cmp:%s:%s' % (f.name, n)
        for s, v in r.exits:
            E = r.E
            # the other operand, as the unit received it
            o = r.args[oi]
            while o.op in ('pref', 'ref'):
                o = E.load_ref(s, o)
            if n != kind:
                want = FALSE
            elif T.get('k') in ('uint', 'int'):
                lo, hi = INTS[T['n']]
                want = Eq(x, App('bigint', o))
                for k, c in s.facts.items():
                    cc = conv_call(k)
                    if cc and cc[0] is x and c[0] == 'V':
                        l2, h2 = INTS[cc[1]]
                        if l2 <= lo and hi <= h2:
                            # the conversion covers the whole range of the other type
                            want = FALSE if c[1] == frozenset([0]) else Eq(Fld(k, 1, 0), o)
                        elif c[1] == frozenset([0]):
                            # values outside of the narrower type are lost
                            want = Eq(x, App('bigint', o))
                        else:
                            want = Eq(Fld(k, 1, 0), o)
            else:
                want = Eq(x, o)
            if neg:
                want = Not(want)
            R.result(cmp(E, s, v, want), key, '%s: returns %s, required %s' % (text, show(v)[:200], show(want)[:200]), where_fn(f))


def conv_from(C, R, f):
    kind = kind_of_ty(C, f.locals[1])
    if kind is None:
        R.unknown(f.name, 'type has no corresponding kind of value')
        return
    r = C.run(f, mode='eq')
    R.covered(r)
    T = C.P.T[C.strip(f.locals[1])]
    for s, v in r.exits:
        o = r.args[0]
        while o.op in ('pref', 'ref'):
            o = r.E.load_ref(s, o)
        if T.get('k') in ('uint', 'int'):
            o = App('bigint', o)
        want = C.adt('Value', kind, o)
        R.result(cmp(r.E, s, r.E.deep(s, v), want), 'from:' + f.name, '%s: gives %s, required %s' % (f.name, show(r.E.deep(s, v))[:200], show(want)[:200]), where_fn(f))


# C18 -----------------------------------------------------------------------------------------------
def rule_C18(C, R):
    R.rule = ('Lookup is interpreted over a symbolic list of fields: a hit must return the value at the position whose '
              'name equals the wanted name, a miss must have compared every name (quantified loop fact) and continue '
              'exactly with the parent; the size, containment and indexing functions must be exact on the own fields. '
              'Dotted access in the parser must resolve through the same lookup.')
    for name in ('get', 'get_with_source'):
        guard(R, 'Obj::' + name, lookup, C, R, name)
    guard(R, 'Obj::contains', contains_rule, C, R)
    for ty, el in (('Obj', 'Pair'), ('Arr', 'Value'), ('Tup', 'Value')):
        guard(R, ty + '::len', size_rule, C, R, ty, el)
    for ty in ('Arr', 'Tup'):
        guard(R, ty + '::get', index_rule, C, R, ty)
    guard(R, 'parent access', parent_rule, C, R)
    guard(R, 'dotted names', dotted, C, R)


def all_false(E, s, seq, test):
    """Every element of seq fails the test (a term over ELEM)."""
    for k, c in s.facts.items():
        if k.op == 'app' and k.args[0] == 'all' and k.args[1] is seq and c == ('B', False) and k.args[3] is test:
            if E.decide(s, Lt(k.args[2], App('len', seq))) is False:
                return True
    l, h = E.bounds(s, App('len', seq))
    return h == 0


LOOKUPS = ('get', 'get_with_source')


def walkers(C, r, E, a, test, wh, R, name):
    """Loop-carried objects that go from the object to its parent, and on to the next one only when no field of
    theirs had the name: [object terms]"""
    out = {}
    for k, e in r.events:
        if k not in ('loop_entry', 'backedge', 'iterback'):
            continue
        for c, x in e['head'].cells.items():
            if x.op not in ('pref', 'ref') or type(x.args[0]) is not Term or x.args[0].op != 'phi':
                continue
            p = x.args[0]
            y = e['st'].cells.get(c)
            out.setdefault(p, True)
            if y is x or y is None:
                continue
            y = E.deep(e['st'], E.load_ref(e['st'], y)) if y.op in ('pref', 'ref') else y
            if k == 'loop_entry':
                if y is not a and y is not p:
                    out[p] = False
                continue
            pairs, parent = obj_parts(C, p)
            if y is Fld(parent, 1, 0) and E.get_variants(e['st'], parent) == frozenset([1]):
                miss(R, E, e['st'], pairs, test, name, wh, r)
                R.ok('Obj::%s: a miss continues in the parent with the same name' % name)
            elif tainted(y) or y.op == 'phi':
                out[p] = False
            else:
                R.violation(name + ':up', 'Obj::%s continues its search in %s instead of the parent' % (name, show(y)[:120]), wh)
                out[p] = False
    return [p for p, ok in out.items() if ok]


def asked(x, parent, fld):
    """The lookup of the name in the parent inside x."""
    for y in [x] + list(closure(x)):
        if y.op == 'app' and y.args[0] in ('call', 'pf') and y.args[1].op == 'str' and len(y.args) > 3 and y.args[2] is Fld(parent, 1, 0) \
                and y.args[3] is fld and any(y.args[1].args[0].endswith('Obj::' + n) for n in LOOKUPS):
            return y
    return None


def lookup(C, R, name):
    f = C.fn('Obj::' + name)
    a, fld = Sym('a0'), Sym('a1')
    r = C.run(f, mode='eq')
    R.covered(r)
    E = r.E
    src = name == 'get_with_source'
    test = subst(Eq(fld, Fld(Sym('@@'), -1, 0)), {Sym('@@'): E.ELEM})
    seen = set()
    wh = where_fn(f)
    ws = walkers(C, r, E, a, test, wh, R, name)
    if ws:
        seen.add('up')
    if len(ws) > 1:
        R.unknown('Obj::' + name, 'several objects walk the parents')
        return
    me = ws[0] if ws else a
    pairs, parent = obj_parts(C, me)
    for s, v in r.exits:
        v = E.deep(s, v)
        if v.op == 'app' and v.args[0] in ('call', 'pf'):
            nm = v.args[1].args[0].rsplit('::', 1)[-1]
            if nm != name and nm.rstrip('>') != name and not v.args[1].args[0].endswith('::' + name):
                R.unknown('Obj::%s on a miss' % name, 'continues with %s' % nm)
                continue
            seen.add('up')
            pv = E.get_variants(s, parent)
            rest = v.args[2:]
            if pv != frozenset([1]) or rest[0] is not Fld(parent, 1, 0):
                R.violation(name + ':up', 'Obj::%s continues its search in %s instead of the parent' % (name, show(rest[0])[:120]), wh)
            elif len(rest) < 2 or rest[1] is not fld:
                R.violation(name + ':up-name', 'Obj::%s looks up %s in the parent instead of the given name' % (name, show(rest[1])[:120]), wh)
            else:
                R.ok('Obj::%s: a miss continues in the parent with the same name' % name)
            miss(R, E, s, pairs, test, name, wh, r)
            continue
        if v.op == 'adt' and v.args[1] == 0:
            seen.add('none')
            pv = E.get_variants(s, parent)
            up = [k for k, c in s.facts.items() if asked(k, parent, fld) is k and E.get_variants(s, k) == frozenset([0])]
            if up:
                seen.add('up')
                R.ok('Obj::%s: absent when the parent says so' % name)
            elif pv is not None and 1 in pv or pv is None and parent not in s.facts:
                if any(walks(x) for k in s.facts for x in [k] + list(closure(k))):
                    R.unknown('Obj::' + name, 'a walk over the parents is not followed')
                else:
                    R.violation(name + ':none', 'Obj::%s reports that the field is absent although the object may have a parent that was not searched' % name, wh)
            else:
                R.ok('Obj::%s: absent only without a parent' % name)
            miss(R, E, s, pairs, test, name, wh, r)
            continue
        if v.op == 'adt' and v.args[1] == 1:
            seen.add('some')
            x = v.args[2]
            who = None
            if src:
                if x.op != 'tup':
                    R.unknown('Obj::' + name, 'result not resolved: ' + show(x)[:100])
                    continue
                who = x.args[1]
                x = x.args[0]
            c = asked(x, parent, fld)
            if c is not None:
                # the parent's answer, re-wrapped
                seen.add('up')
                got = Fld(c, 1, 0)
                full = c.args[1].args[0].endswith('get_with_source')
                if x is (Fld(got, -1, 0) if full else got):
                    R.ok('Obj::%s: passes on the answer of the parent' % name)
                else:
                    R.unknown('Obj::' + name, 'result not resolved: ' + show(x)[:100])
                if src:
                    R.result('eq' if full and who is Fld(got, -1, 1) else 'ne' if who is me or who is a or who is Fld(parent, 1, 0)
                             else cmp(E, s, who, Fld(got, -1, 1)), name + ':source',
                             'Obj::%s: the source of an inherited field is the object that holds it (got %s)' % (name, show(who)[:120]), wh)
                miss(R, E, s, pairs, test, name, wh, r)
                continue
            if src:
                R.result(cmp(E, s, who, me), name + ':source', 'Obj::%s: the source of an own field is the object itself (got %s)' % (name, show(who)[:120]), wh)
            # x must be the value of the pair whose name matched
            if x.op == 'fld' and x.args[0].op == 'app' and x.args[0].args[0] == 'at' and x.args[0].args[1] is pairs and x.args[2] == 1:
                el = x.args[0]
                if E.decide(s, Eq(fld, Fld(el, -1, 0))) is True:
                    R.ok('Obj::%s: a hit returns the value of the field with that name' % name)
                elif any(tainted_call(k) and contains(k, el) for k in s.facts):
                    R.unknown('Obj::' + name, 'name comparison not understood')
                else:
                    R.violation(name + ':hit', 'Obj::%s returns the value of a field whose name was not compared equal to the wanted name' % name, wh)
            elif tainted_call(x) or x.op == 'phi' or tainted(x):
                R.unknown('Obj::' + name, 'result not resolved: ' + show(x)[:100])
            else:
                R.violation(name + ':value', 'Obj::%s returns %s, which is not the value of one of its fields' % (name, show(x)[:150]), wh)
            continue
        R.unknown('Obj::' + name, 'result not resolved: ' + show(v)[:100])
    if 'up' not in seen and not R.unk:
        R.violation(name + ':noparent', 'Obj::%s never consults the parent' % name, where_fn(f))


def walks(x):
    return x.op == 'phi' and len(x.args) > 1 and '*' in str(x.args[1])


def tainted_call(t):
    for x in [t] + list(closure(t)):
        if x.op == 'app' and x.args[0] in ('call', 'out'):
            n = x.args[1].args[0] if type(x.args[1]) is Term and x.args[1].op == 'str' else ''
            if not ALTER.search('::' + str(n).rsplit('::', 1)[-1]):
                return True
    return False


def miss(R, E, s, pairs, test, name, wh, r=None):
    if all_false(E, s, pairs, test):
        R.ok('Obj::%s: a miss has compared every own field' % name)
        return
    # partial scans that the facts identify are violations; anything else is not understood
    for k, c in s.facts.items():
        if c == ('B', True) and k.op == 'app' and k.args[0] == 'eq':
            for x in (k.args[-1], k.args[-2]):
                if type(x) is Term and x.op == 'fld' and x.args[0].op == 'app' and x.args[0].args[0] == 'at' and x.args[0].args[1] is pairs \
                        and k is Eq(Sym('a1'), x):
                    R.violation(name + ':found', 'Obj::%s goes on to the parent although a field of the object has the name' % name, wh)
                    return
    odd = any(tainted_call(k) for k in s.facts)
    if not odd and not any(contains(k, pairs) for k in s.facts):
        R.violation(name + ':unseen', 'Obj::%s gives up on an object without having looked at its fields' % name, wh)
        return
    for k, e in (r.events if r is not None and not odd else ()):
        if k == 'loop_entry':
            for c, x in e['head'].cells.items():
                y = e['st'].cells.get(c)
                if y is not None and y.op == 'app' and y.args[0] == 'it' and y.args[1] is pairs and y.args[2].op == 'int' and y.args[2].args[0] > 0:
                    first = App('at', pairs, Int(0))
                    if not any(contains(q, first) for q in s.facts) and y.args[-1] is x.args[-1]:
                        R.violation(name + ':start', 'Obj::%s: the search starts at field %d' % (name, y.args[2].args[0]), wh)
                        return
    R.unknown('Obj::%s on a miss' % name, 'could not show that every own field was compared')


def contains_rule(C, R):
    f = C.fn('Obj::contains')
    a, fld = Sym('a0'), Sym('a1')
    pairs, parent = obj_parts(C, a)
    r = C.run(f, mode='eq+get')
    R.covered(r)
    E = r.E
    test = subst(Eq(fld, Fld(Sym('@@'), -1, 0)), {Sym('@@'): E.ELEM})
    wh = where_fn(f)
    for s, v in r.exits:
        d = E.decide(s, v)
        if any(contains(k, parent) for k in s.facts) or contains(v, parent) or any(
                x.op == 'app' and x.args[0] == 'pf' for k in list(s.facts) + [v] for x in [k] + list(closure(k))):
            R.violation('contains:parent', 'Obj::contains consults the parent: %s' % show(v)[:120], wh)
            continue
        if d is True:
            hit = [k for k, c in s.facts.items() if c == ('B', True) and k.op == 'app' and k.args[0] == 'eq'
                   and any(y is fld for y in k.args[1:]) and any(
                       y.op == 'fld' and y.args[2] == 0 and y.args[0].op == 'app' and y.args[0].args[0] == 'at' and y.args[0].args[1] is pairs
                       for y in k.args[1:])]
            if hit:
                R.ok('contains: true only when a field has that name')
            elif any(tainted_call(k) for k in s.facts):
                R.unknown('Obj::contains', 'path condition not understood')
            else:
                R.violation('contains:true', 'Obj::contains answers true without an equal name', wh)
        elif d is False:
            if all_false(E, s, pairs, test):
                R.ok('contains: false only when every name differs')
            else:
                R.unknown('Obj::contains', 'could not show that every own field was compared')
        else:
            R.unknown('Obj::contains', 'result not resolved: ' + show(v)[:100])


def size_rule(C, R, ty, el):
    a = Sym('a0')
    seq = vec_of(C, ty, el, a)
    f = C.fn(ty + '::len')
    r = C.run(f, mode='eq')
    R.covered(r)
    for s, v in r.exits:
        R.result(cmp(r.E, s, v, App('len', seq)), ty + ':len', '%s::len is the number of own elements (got %s)' % (ty, show(v)[:100]), where_fn(f))
    f = C.fn(ty + '::is_empty')
    r = C.run(f, mode='eq')
    R.covered(r)
    for s, v in r.exits:
        E = r.E
        z = Eq(App('len', seq), ZERO)
        d, w = E.decide(s, v), E.decide(s, z)
        if d is None and v.op == 'app' and v.args[0] == 'isempty' and v.args[1] is seq:
            R.ok(ty + '::is_empty is exact')
        elif d is not None and w is not None:
            R.result('eq' if d == w else 'ne', ty + ':is_empty', '%s::is_empty is exact' % ty, where_fn(f))
        else:
            R.result(cmp(E, s, v, z), ty + ':is_empty', '%s::is_empty: %s' % (ty, show(v)[:100]), where_fn(f))
    # direct views and iteration
    for n in ('pairs_ref', 'values_ref', 'iter'):
        f = C.fn('%s::%s' % (ty, n))
        if f is None:
            continue
        r = C.run(f, mode='eq')
        R.covered(r)
        for s, v in r.exits:
            v = r.E.deep(s, v)
            text = '%s::%s gives exactly the own elements (got %s)' % (ty, n, show(v)[:100])
            if v is seq or v.op == 'app' and v.args[0] == 'it' and v.args[1] is seq and v.args[2] is ZERO:
                R.ok(text)
            else:
                R.result('unk' if tainted(v) else 'ne', '%s:%s' % (ty, n), text, where_fn(f))
    f = [g for g in C.P.locals if g.canon[0] == 'T' and g.canon[1] == 'IntoIterator' and g.canon[3].lstrip('&').rsplit('::', 1)[-1] == ty and '{' not in g.name]
    for g in f:
        r = C.run(g, mode='eq')
        R.covered(r)
        for s, v in r.exits:
            v = r.E.deep(s, v)
            text = '%s gives exactly the own elements (got %s)' % (g.name, show(v)[:100])
            R.result('eq' if v is seq or v.op == 'app' and v.args[0] == 'it' and v.args[1] is seq and v.args[2] is ZERO else 'unk' if tainted(v) else 'ne',
                     '%s:into_iter' % ty, text, where_fn(g))


def index_rule(C, R, ty):
    f = C.fn(ty + '::get')
    a, ix = Sym('a0'), None
    seq = vec_of(C, ty, 'Value', a)
    r = C.run(f, mode='eq')
    ix = r.args[1]
    R.covered(r)
    E = r.E
    err = C.var('OverError', ty + 'OutOfBounds')
    wh = where_fn(f)
    for s, v in r.exits:
        v = E.deep(s, v)
        inb = E.decide(s, Lt(ix, App('len', seq)))
        if inb is None:
            inb = E.decide(s, Lt(ix, E.mklen(s, seq)))
        if inb is None:
            # an out-of-bounds test through Vec::get
            for k, c in s.facts.items():
                if k.op == 'app' and k.args[0] == 'getat' and k.args[1] is seq and k.args[2] is ix and c[0] == 'V':
                    inb = c[1] == frozenset([1])
        if v.op != 'adt':
            R.unknown(ty + '::get', 'result not resolved: ' + show(v)[:100])
            continue
        if inb is None:
            R.unknown(ty + '::get', 'path condition not understood') if any(tainted_call(k) for k in s.facts) else \
                R.violation(ty + ':get:cond', '%s::get decides between result and error without comparing the index with the length: returns %s' % (ty, show(v)[:100]), wh)
            continue
        if inb:
            want = Adt(v.args[0], 0, [App('at', seq, ix)])
            R.result(cmp(E, s, v, want), ty + ':get:in', '%s::get of an index below the length: %s' % (ty, show(v)[:120]), wh)
        else:
            want = Adt(v.args[0], 1, [Adt(C.adtname('OverError'), err, [ix])])
            R.result(cmp(E, s, v, want), ty + ':get:out', '%s::get of an index not below the length: %s' % (ty, show(v)[:120]), wh)


def parent_rule(C, R):
    a = Sym('a0')
    pairs, parent = obj_parts(C, a)
    for i in (0, 1):
        def setup(E, st, args):
            E.assume_variant(st, parent, frozenset([i]))
        f = C.fn('Obj::has_parent')
        check_bool(C, R, f, 'has_parent:%d' % i, 'has_parent with%s a parent' % ('' if i else 'out'), setup, Bool(bool(i)))
        f = C.fn('Obj::get_parent')
        r = C.run(f, setup, mode='eq')
        R.covered(r)
        for s, v in r.exits:
            R.result(cmp(r.E, s, r.E.deep(s, v), parent), 'get_parent:%d' % i, 'get_parent with%s a parent: %s' % ('' if i else 'out', show(v)[:100]), where_fn(f))


# dotted names ------------------------------------------------------------------------------------
def dotted(C, R):
    """What follows the dot of a name is looked up in the fields of the object on its left, then in those of its
    parent, and so on to the last one."""
    import scope
    N = scope.Names(C)
    if N.hub is None:
        return R.unknown('dotted names', 'the value reader was not found')
    n = 0
    obj = N.P.variant(N.vty, 'Obj')
    for r in N.runs():
        R.covered(r)
        for k, e in r.events:
            if k != 'hub_call':
                continue
            p = N.pairs_param(e['fn'])
            lv = scope.left_value(N, r, e)
            if p is None or lv is None or N.E.get_variants(e['st'], lv) != frozenset([obj]):
                continue
            n += 1
            text = 'what follows the dot in %s is looked up in the object on the left and then in its parents' % scope.owner_name(e)
            c = scope.follow(N.E, e['st'], e['args'][p])
            if c is None:
                R.unknown(text, 'the list is not followed')
                continue
            v = ancestry(C, N.E, r, e, c, Fld(lv, obj, 0))
            if v is True:
                R.ok(text)
            elif v[0] == 'ne' and mystery(e['st']) is None:
                R.violation('dot:' + v[1], text + ': ' + v[1], scope.wh(N.E, e))
            else:
                R.unknown(text, v[1])
    if not n:
        R.unknown('dotted names', 'no lookup in the object on the left of a dot was found')


def flat(c):
    if c.op == 'app' and c.args[0] == 'concat':
        return [x for a in c.args[1:] for x in flat(a)]
    return [c]


def owner_of(C, t):
    """The object whose own fields t is."""
    for x in closure(t):
        if x.op in ('fld', 'sym', 'phi', 'app') and obj_parts(C, x)[0] is t:
            return x
    return None


def chain(C, E, st, parts, o):
    """parts are the fields of o, of its parent, and so on: (last object, None) or (None, reason)."""
    last = None
    mine = obj_parts(C, o)[0]
    for t in parts:
        want = mine if last is None else obj_parts(C, Fld(obj_parts(C, last)[1], 1, 0))[0]
        if t is not want:
            if last is None and mine in parts[1:] and owner_of(C, t) is not None:
                return None, ('ne', 'the inherited fields come before its own')
            x = owner_of(C, t)
            if last is not None and x is not None and contains(x, o) and not any(y.op == 'phi' and y not in closure(o) for y in closure(x)):
                return None, ('ne', 'a parent is left out')
            return None, ('unk', 'the list is not followed: ' + show(t)[:100])
        last = o if last is None else Fld(obj_parts(C, last)[1], 1, 0)
    return last, None


def opt_is(E, st, t, par):
    """t is the optional object par in this state: True, False or None."""
    if t is par:
        return True
    v = E.get_variants(st, par)
    if t.op == 'adt':
        if t.args[1] == 0:
            return True if v == frozenset([0]) else False if v is None or 1 in v else None
        if t.args[2] is Fld(par, 1, 0):
            return True
        return None if tainted(t) or t.args[2].op == 'phi' else False
    return None


def ancestry(C, E, r, e, c, o):
    st = e['st']
    parts = flat(c)
    L = parts[0]
    if L.op != 'phi' or L.args[0][0] != 'loop':
        last, why = chain(C, E, st, parts, o)
        if last is None:
            return why
        v = E.get_variants(st, obj_parts(C, last)[1])
        if v == frozenset([0]):
            return True
        return 'ne', 'the fields of its parents are left out' if last is o else 'the fields of further parents are left out'
    site = L.args[0]
    import scope
    evs = [(k, x) for k, x in r.events if k in ('loop_entry', 'backedge') and x['site'] == site]
    cand = None     # {(cell, kind): is it the walk}
    heads = []
    for k, x in evs:
        y = scope.at_path(x['st'].cells, L.args[1])
        if y is None:
            return 'unk', 'the list is not followed'
        y = E.deep(x['st'], y)
        if k == 'loop_entry':
            if not scope.compatible(E, x['st'], st):
                continue
            # a list that starts empty gets the fields of the object in the first round
            fresh = y.op == 'app' and y.args[0] == 'seq0'
            last, why = (o, None) if fresh else chain(C, E, x['st'], flat(y), o)
            if last is None:
                # the loop is reached with other objects too, of which the path says nothing
                if any(obj_parts(C, o)[0] is t for t in flat(y)):
                    return why
                b = scope.base_of(flat(y)[0])
                if b is not None and b is not scope.base_of(o) and scope.looked_up(b):
                    continue
                return why
            got = {}
            for cell, h, now in walking(E, x, site):
                par = obj_parts(C, last)[1]
                if h.op == 'adt' and len(h.args) > 2 and h.args[1] == 1 and now.op == 'adt':
                    got[cell, 'some'] = (True if len(now.args) > 2 and now.args[2] is o else None) if fresh else opt_is(E, x['st'], now, par)
                elif h.op == 'phi' and not fresh:
                    got[cell, 'opt'] = opt_is(E, x['st'], now, par)
                    got[cell, 'obj'] = True if now is last else None
        else:
            fl = flat(y)
            if fl == [L]:
                return 'unk', 'a round of the loop over the parents adds nothing'
            if L in fl[1:]:
                return 'ne', 'the inherited fields come before its own'
            if fl[0] is not L or len(fl) != 2:
                return 'unk', 'the list is not followed: ' + show(y)[:100]
            heads = list(walking(E, x, site))
            X = owner_of(C, fl[1])
            if X is None:
                return 'unk', 'the list is not followed: ' + show(fl[1])[:100]
            par = obj_parts(C, X)[1]
            got = {}
            for cell, h, now in walking(E, x, site):
                if h.op == 'adt' and len(h.args) > 2 and h.args[1] == 1 and h.args[2] is X:
                    got[cell, 'some'] = opt_is(E, x['st'], now, par)
                elif h.op == 'phi' and X is Fld(h, 1, 0):
                    got[cell, 'opt'] = opt_is(E, x['st'], now, par)
                elif h.op == 'phi' and X is Fld(obj_parts(C, h)[1], 1, 0):
                    got[cell, 'obj'] = True if now is X else None
        if cand is None:
            cand = dict(got)
        else:
            # one that is not kept at this point cannot be the one
            cand = {q: False if v is False or got[q] is False else None if v is None or got[q] is None else True for q, v in cand.items() if q in got}
    if not cand:
        return 'unk', 'the walk over the parents is not followed'
    good = [q for q, v in cand.items() if v]
    if not good:
        return ('ne', 'the walk over its parents leaves one out') if all(v is False for v in cand.values()) else ('unk', 'the walk over the parents is not followed')
    for cell, kind in good:
        now = st.cells.get(cell)
        if now is None or now.op in ('undef', 'stale', 'moved'):
            continue
        now = E.deep(st, now)
        rest = parts[1:]
        here = next((h.args[2] for c, h, _ in heads if c == cell), None) if kind == 'some' else None
        if here is not None and E.get_variants(st, obj_parts(C, here)[1]) == frozenset([0]):
            # left in the round of the last object
            if rest == [obj_parts(C, here)[0]]:
                return True
            if not rest:
                return 'ne', 'the walk over its parents leaves out the last one'
        if rest:
            return 'unk', 'the list is not followed'
        if kind == 'obj':
            now = obj_parts(C, now)[1]
        if now.op == 'adt' and now.args[1] == 0 or E.get_variants(st, now) == frozenset([0]):
            return True
        if now.op == 'adt' and now.args[1] == 1 or not tainted(now) or now.op == 'phi':
            return 'ne', 'the walk over its parents ends early'
    return 'unk', 'the end of the walk over the parents is not followed'


def walking(E, x, site):
    """(cell, value at the loop head, value now) of the cells the loop changes."""
    for cell, h in list(x['head'].cells.items()):
        h = E.deep(x['head'], h)
        core = h.args[2] if h.op == 'adt' and len(h.args) > 2 else h
        if type(core) is not Term or core.op != 'phi' or core.args[0] != site:
            continue
        now = x['st'].cells.get(cell)
        if now is not None:
            yield cell, h, E.deep(x['st'], now)
