"""C33: containers hold exactly what they were built from, and report it."""
import os
from base import *
from values import vec_of, type_of_arr, obj_parts, leafs
from parse_rule import kname

CONTAINERS = (('Obj', 'Pair'), ('Arr', 'Value'), ('Tup', 'Value'))


def rule_C33(C, R):
    R.rule = ('Every function that makes a container from a list (found by its signature) is interpreted over a symbolic list: '
              'what it returns must hold that very list and the given parent; functions without arguments must give an empty '
              'container without parent; observers must return the part of the instance they name; each form of the '
              'construction macros is compiled and the container it gives must hold the given parts in order.')
    guard(R, 'constructors', constructors, C, R)
    guard(R, 'observers', observers, C, R)
    guard(R, 'macros', macros, C, R)


def wh(f):
    return where_fn(f)


def result_of(C, f):
    """(container name, element name, is a result) of what a function returns."""
    t = C.strip(f.locals[0])
    T = C.P.T[t]
    res = False
    if T.get('k') == 'adt' and T['adt'].endswith('::Result'):
        res = True
        t = C.strip(T['args'][0])
    for o, e in CONTAINERS:
        if t == C.ty(o):
            return o, e, res
    return None


def vec_arg(C, f, elem):
    out = []
    for i in range(f.argc):
        T = C.P.T[C.strip(f.locals[i + 1])]
        if T.get('k') == 'adt' and T['adt'].endswith('::Vec') and T['args'][0] == C.ty(elem):
            out.append(i)
    return out


def parent_arg(C, f):
    for i in range(f.argc):
        T = C.P.T[C.strip(f.locals[i + 1])]
        if T.get('k') == 'adt' and T['adt'].endswith('::Option') and C.strip(T['args'][0]) == C.ty('Obj'):
            return i
    return None


def made(C, r, s, v, res):
    """What a path returns: the container, or None when it is an error; 'unk' if not known."""
    E = r.E
    v = E.deep(s, v)
    if not res:
        return v
    vs = E.get_variants(s, v)
    if v.op == 'adt':
        return None if v.args[1] == 1 else v.args[2]
    if vs == frozenset([1]):
        return None
    if vs == frozenset([0]):
        return Fld(v, 0, 0)
    return 'unk'


def holds(C, R, r, s, x, owner, elem, want, parent, key, text, w):
    E = r.E
    if owner == 'Obj':
        got, par = obj_parts(C, x)
    else:
        got, par = vec_of(C, owner, elem, x), None
    if got is None:
        R.unknown(text, 'what it holds is not followed')
        return
    R.result(cmp(E, s, got, want), key, '%s: it holds %s, not %s' % (text, show(got)[:160], show(want)[:160]), w)
    if owner == 'Obj' and parent is not None:
        R.result(cmp(E, s, par, parent), key + ':parent', '%s: its parent is %s, not %s' % (text, show(par)[:120], show(parent)[:120]), w)


def constructors(C, R):
    n = 0
    for f in C.P.locals:
        if '{' in f.name or not f.argc <= 3 or 'parse' in f.name or 'SENTINEL' in f.name:
            continue
        o = result_of(C, f)
        if o is None:
            continue
        owner, elem, res = o
        va = vec_arg(C, f, elem)
        others = [i for i in range(f.argc) if i not in va]
        pa = parent_arg(C, f)
        if f.argc == 0:
            r = C.run(f, mode='eq')
            R.covered(r)
            for s, v in r.exits:
                x = made(C, r, s, v, res)
                if x is None or x == 'unk':
                    R.unknown(f.name, 'what it returns is not followed')
                    continue
                holds(C, R, r, s, x, owner, elem, App('seq0'), C.none() if hasattr(C, 'none') else NONE_OBJ(C),
                      'empty:' + f.name, 'a %s made by %s from nothing' % (owner, f.name), wh(f))
            n += 1
            continue
        if len(va) != 1 or any(C.P.T[C.strip(f.locals[i + 1])].get('n') in ('over::Obj', 'over::obj::Obj') and i != pa for i in others):
            continue
        r = C.run(f, mode='eq')
        R.covered(r)
        good = 0
        for s, v in r.exits:
            x = made(C, r, s, v, res)
            if x is None:
                continue
            if x == 'unk':
                R.unknown(f.name, 'what it returns is not followed')
                continue
            good += 1
            parent = None
            if owner == 'Obj':
                parent = r.args[pa] if pa is not None else NONE_OBJ(C)
            holds(C, R, r, s, x, owner, elem, r.args[va[0]], parent, 'built:' + f.name, 'a %s made by %s' % (owner, f.name), wh(f))
            if owner == 'Arr' and len(others) == 1 and C.strip(f.locals[others[0] + 1]) == C.ty('Type'):
                R.result(cmp(r.E, s, type_of_arr(C, x), r.args[others[0]]), 'built:type:' + f.name,
                         'the inner type of an Arr made by %s is not the given one' % f.name, wh(f))
        if not good:
            R.unknown(f.name, 'no path that makes a container')
        n += 1
    if n < 6:
        R.unknown('constructors', 'only %d found' % n)


def NONE_OBJ(C):
    return Adt('Option', 0, ())


def place(x):
    while x.op in ('pref', 'ref') or x.op == 'app' and x.args[0] in ('unbox', 'box', 'arc'):
        x = x.args[0] if x.op in ('pref', 'ref') else x.args[1]
    return x


def observers(C, R):
    """id, num_references, ptr_eq, inner_type, get_parent: about the instance itself."""
    a, b = Sym('a0'), Sym('a1')
    for owner, elem in CONTAINERS:
        parts = {C.P.T[ty].get('n', '?'): t for ty, t in leafs(C, C.ty(owner), a)}
        ids = [t for n, t in parts.items() if n == 'usize']
        for m in ('id', 'num_references', 'ptr_eq'):
            f = C.tr(owner, 'ReferenceType', m)
            if f is None:
                R.unknown('%s::%s' % (owner, m), 'not found')
                continue
            r = C.run(f, mode='eq')
            R.covered(r)
            for s, v in r.exits:
                v = r.E.deep(s, v)
                text = '%s of an %s' % (m, owner)
                if m == 'id':
                    if len(ids) != 1:
                        R.unknown(text, 'which part is the identifier is not known')
                    else:
                        R.result(cmp(r.E, s, v, ids[0]), 'obs:id:' + owner, '%s: %s, not the identifier it was given' % (text, show(v)[:100]), wh(f))
                elif m == 'num_references':
                    want = [v] if v.op == 'app' and v.args[0] == 'strong_count' and place(v.args[1]).op == 'fld' and place(v.args[1]).args[0] is a else []
                    if want:
                        R.ok(text + ' counts the references to the instance')
                    elif tainted(v) and not (v.op == 'app' and v.args[0] == 'call' and str(v.args[1].args[0]).endswith('::weak_count')):
                        R.unknown(text, show(v)[:100])
                    else:
                        R.violation('obs:refs:' + owner, '%s is %s, not the number of references to it' % (text, show(v)[:100]), wh(f))
                else:
                    same_inst(C, R, r, s, v, owner, a, b, wh(f))
    for owner, want, name in (('Arr', 'Type', 'inner_type'),):
        f = C.fn('%s::%s' % (owner, name))
        if f is None:
            continue
        r = C.run(f, mode='eq')
        R.covered(r)
        for s, v in r.exits:
            R.result(cmp(r.E, s, r.E.deep(s, v), type_of_arr(C, a)), 'obs:type:' + owner,
                     '%s::%s returns %s' % (owner, name, show(v)[:100]), wh(f))
    f = C.fn('Tup::inner_type_vec')
    if f is not None:
        r = C.run(f, mode='eq')
        R.covered(r)
        tv = vec_of(C, 'Tup', 'Type', a)
        for s, v in r.exits:
            if tv is None:
                R.unknown('Tup::inner_type_vec', 'types not found')
            else:
                R.result(cmp(r.E, s, r.E.deep(s, v), tv), 'obs:types:Tup', 'Tup::inner_type_vec returns %s' % show(v)[:100], wh(f))


def same_inst(C, R, r, s, v, owner, a, b, w):
    text = 'ptr_eq of two %s' % owner
    if v.op == 'app' and v.args[0] in ('ptreq', 'eq'):
        x, y = place(v.args[-2]), place(v.args[-1])
        f = [t.args[2] if t.op == 'app' and t.args[0] == 'call' and len(t.args) == 3 and str(t.args[1].args[0]).endswith('::as_ptr') else None for t in (x, y)]
        if None not in f:
            x, y = place(f[0]), place(f[1])
        elif v.args[0] == 'eq':
            x = y = v
        if {x, y} == {Fld(a, -1, 0), Fld(b, -1, 0)} or x.op == 'fld' and y.op == 'fld' and {x.args[0], y.args[0]} == {a, b} and x.args[1:] == y.args[1:]:
            R.ok(text + ' compares the instances')
            return
        if not tainted(v):
            R.violation('obs:ptr:' + owner, '%s compares %s and %s' % (text, show(x)[:60], show(y)[:60]), w)
            return
    if v is Eq(a, b):
        R.violation('obs:ptr:' + owner, text + ' compares their content', w)
    elif tainted(v) or v.op == 'phi':
        R.unknown(text, show(v)[:100])
    else:
        b_ = r.E.decide(s, v)
        if b_ is not None and any(k.op == 'app' and k.args[0] == 'ptreq' and c == ('B', b_) for k, c in s.facts.items()):
            R.ok(text + ' is decided by the instances')
        elif v.op == 'app' and v.args[0] == 'eq' and all(x.op == 'fld' and x.args[0].op != 'app' or 'usize' in str(x) or True for x in v.args[1:]):
            R.unknown(text, show(v)[:100])
        else:
            R.violation('obs:ptr:' + owner, '%s is %s' % (text, show(v)[:100]), w)


def macros(C, R):
    """Each use in src/macro_uses.rs: its name tells the macro and the number of parts."""
    uses = [f for f in C.P.uses if '{' not in f.name]
    if not uses:
        e = C.P.uses_error
        if e:
            R.violation('macros:compile', 'a use of the construction macros does not compile: %s' % e, ['src/macros.rs'])
        else:
            R.unknown('macros', 'no uses found')
        return
    n = 0
    for f in uses:
        nm = f.name.rsplit('::', 1)[-1]
        base = nm[4:] if nm.startswith('try_') else nm
        kind = base.split('_')[0]
        r = C.run(f, mode='eq')
        R.covered(r)
        n += 1
        args = [Sym('a%d' % i) for i in range(f.argc)]
        text = 'the macro in %s' % nm
        if kind in ('int', 'frac'):
            for s, v in r.exits:
                want = args[0] if kind == 'int' else App('ratio', *args)
                R.result(cmp(r.E, s, r.E.deep(s, v), want), 'macro:' + kind, '%s gives %s' % (text, show(v)[:100]), wh(f))
            continue
        o = result_of(C, f)
        if o is None:
            R.unknown(text, 'result not a container')
            continue
        owner, elem, res = o
        seen = 0
        for s, v in r.exits:
            x = made(C, r, s, v, res)
            if x is None:
                continue
            if x == 'unk':
                R.unknown(text, 'what it returns is not followed')
                continue
            seen += 1
            if owner != 'Obj':
                holds(C, R, r, s, x, owner, elem, seq_of(args), None, 'macro:' + nm, text, wh(f))
                continue
            pairs = [(args[i], args[i + 1]) for i in range(0, len(args), 2)]
            want = []
            par = None
            ok = True
            for k, val in pairs:
                d = r.E.decide(s, Eq(k, Str('^')))
                if d is True:
                    par = val
                elif d is False:
                    want.append(C.adt('Pair', 'Pair', k, val))
                else:
                    ok = False
            if not ok:
                R.violation('macro:caret:' + nm, '%s does not tell a parent (^) from a field' % text, wh(f)) \
                    if not any(tainted(k) for k in s.facts) else R.unknown(text, 'names not compared')
                continue
            vi = C.var('Value', 'Obj')
            parent = NONE_OBJ(C) if par is None else Adt('Option', 1, (Fld(par, vi, 0),))
            holds(C, R, r, s, x, owner, elem, seq_of(want), parent, 'macro:' + nm, text, wh(f))
        if not seen:
            R.unknown(text, 'no path that makes a container')
    if n < 15:
        R.unknown('macros', 'only %d uses found' % n)


def seq_of(xs):
    t = App('seq0')
    for x in xs:
        t = App('push', t, x)
    return t
