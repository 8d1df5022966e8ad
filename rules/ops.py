"""C21: the operator table."""
from base import *
from values import variants, vec_of, type_of_arr

ARITH = {'Plus': 'n:add', 'Minus': 'n:sub', 'Mult': 'n:mul', 'Div': 'n:div', 'Mod': 'n:rem'}


def op_functions(C):
    """(function, [value argument indices], operator argument index, operator type)."""
    vt = C.ty('Value')
    out = []
    for o in ('BinaryOp', 'UnaryOp'):
        ot = C.ty(o)
        if ot is None:
            continue
        for f in C.P.locals:
            if '{' in f.name:
                continue
            ats = f.locals[1:1 + f.argc]
            vi = [i for i, t in enumerate(ats) if C.strip(t) == vt]
            oi = [i for i, t in enumerate(ats) if C.strip(t) == ot]
            rt = C.P.T[f.locals[0]]
            if len(oi) == 1 and len(vi) == (2 if o == 'BinaryOp' else 1) and rt.get('k') == 'adt' \
                    and rt['adt'].endswith('Result') and rt['args'][0] == vt and not any(
                        C.P.T[t].get('k') == 'ref' and C.P.T[t].get('mut') for t in ats):
                out.append((f, vi, oi[0], o))
    return out


def num(kind, x):
    return x if kind == 'Frac' else App('ratio', x, App('bigint', Int(1)))


def is_zero(E, s, y, kind):
    """Known whether number y is zero?"""
    c = [y] + ([num('Int', y)] if kind == 'Int' else [])
    for t in c:
        for k in (App('iszero', t), Eq(t, App('bigint', Int(0))), Eq(t, App('ratio', App('bigint', Int(0)), App('bigint', Int(1))))):
            d = E.decide(s, k)
            if d is not None:
                return d
    return None


def expected(C, op, a, b, x, y):
    """None: operator error. Otherwise (kind, list of acceptable payloads, divisor or None)."""
    nums = ('Int', 'Frac')
    if op == 'Plus' and a == b == 'Str':
        return 'Str', [App('cat', x, y)], None
    if op == 'Plus' and a == b == 'Arr':
        return 'Arr', None, None
    if a in nums and b in nums:
        if op == 'Mod':
            if a == b == 'Int':
                return 'Int', [App('n:rem', x, y)], (y, 'Int')
            return None
        if a == b == 'Int':
            if op == 'Div':
                return 'Frac', [App('ratio', x, y), App('n:div', num('Int', x), num('Int', y))], (y, 'Int')
            r = [App(ARITH[op], x, y)]
            if op in ('Plus', 'Mult'):
                r.append(App(ARITH[op], y, x))
            return 'Int', r, None
        p, q = num(a, x), num(b, y)
        r = [App(ARITH[op], p, q)]
        if op in ('Plus', 'Mult'):
            r.append(App(ARITH[op], q, p))
        return 'Frac', r, (y, b) if op == 'Div' else None
    return None


def err_kind(E, s, v):
    """(kind variant index, kind term) of an Err(ParseError)."""
    e = v.args[2]
    for i, a in enumerate(e.args[2:] if e.op == 'adt' else ()):
        if a.op == 'adt' and a.args[0].endswith('ParseErrorKind'):
            return a.args[1], a
    return None, None


def rule_C21(C, R):
    R.rule = ('The functions that apply an operator to values (found by signature) are interpreted for every operator and '
              'every combination of value kinds; each exit must be the operator applied to the operands in order, the '
              'numeric error exactly for a zero divisor, or the operator error naming the types.')
    fs = op_functions(C)
    if not any(o == 'BinaryOp' for *_, o in fs) or not any(o == 'UnaryOp' for *_, o in fs):
        R.unknown('operator functions', 'no function from values and an operator to a value was found')
    vs = [v[0] for v in C.P.T[C.ty('Value')]['vars']]
    for f, vi, oi, o in fs:
        ops = [v[0] for v in C.P.T[C.ty(o)]['vars']]
        for k, op in enumerate(ops):
            for i, a in enumerate(vs):
                for j, b in (enumerate(vs) if o == 'BinaryOp' else [(None, None)]):
                    guard(R, '%s %s %s' % (op, a, b), table, C, R, f, vi, oi, o, k, op, i, a, j, b)


def strip_ref(t):
    while t.op == 'pref':
        t = t.args[0]
    return t


def table(C, R, f, vi, oi, o, k, op, i, a, j, b):
    def setup(E, st, args):
        E.assume_variant(st, strip_ref(args[vi[0]]), frozenset([i]))
        if j is not None:
            E.assume_variant(st, strip_ref(args[vi[1]]), frozenset([j]))
        E.assume_variant(st, strip_ref(args[oi]), frozenset([k]))
    both = a == 'Arr' and b == 'Arr'
    r = C.run(f, setup, mode='eq+rel' if both else 'eq')
    R.covered(r)
    E = r.E
    text = '%s %s %s' % (a, op, b) if j is not None else 'prefix %s on %s' % (op, a)
    key = 'op:%s:%s:%s' % (op, a, b)
    wh = where_fn(f)
    x = Fld(strip_ref(r.args[vi[0]]), i, 0)
    y = None if j is None else Fld(strip_ref(r.args[vi[1]]), j, 0)
    if j is None:
        if a in ('Int', 'Frac'):
            exp = (a, [x if op == 'Plus' else App('n:neg', x)], None)
            if op == 'Minus':
                exp[1].append(App('n:sub', App('bigint', Int(0)), x))
        else:
            exp = None
    else:
        exp = expected(C, op, a, b, x, y)
    okexits = errexits = 0
    for s, v in r.exits:
        v = E.deep(s, v)
        if v.op != 'adt' or not v.args[0].endswith('Result'):
            R.unknown(text, 'result not resolved: ' + show(v)[:100])
            continue
        if v.args[1] == 1:
            errexits += 1
            kv, kt = err_kind(E, s, v)
            if kv is None:
                R.unknown(text, 'error not resolved: ' + show(v)[:100])
                continue
            name = C.P.T[C.ty('ParseErrorKind')]['vars'][kv][0]
            if name == 'InvalidNumeric':
                if exp is None or exp[2] is None:
                    R.violation(key + ':numeric', '%s gives a numeric error' % text, wh)
                else:
                    z = is_zero(E, s, *exp[2])
                    if z is True:
                        R.ok(text + ': zero divisor is a numeric error')
                    elif z is False or not any(tainted(q) for q in s.facts):
                        R.violation(key + ':zero', '%s gives a numeric error although the divisor is not known to be zero' % text, wh)
                    else:
                        R.unknown(text, 'path condition not understood')
                continue
            if name not in ('BinaryOperatorError', 'UnaryOperatorError'):
                R.violation(key + ':error', '%s fails with %s' % (text, name), wh)
                continue
            if exp is not None and not (both and incompatible(E, s)):
                if any(tainted(q) for q in s.facts):
                    R.unknown(text, 'path condition not understood')
                else:
                    R.violation(key + ':reject', '%s is rejected with an operator error' % text, wh)
                continue
            want = 'BinaryOperatorError' if o == 'BinaryOp' else 'UnaryOperatorError'
            if name != want:
                R.violation(key + ':kind', '%s fails with %s' % (text, name), wh)
                continue
            # carries the types and the operator
            fs = kt.args[2:]
            ts = fs[:2] if o == 'BinaryOp' else fs[:1]
            kinds = [a, b][:len(ts)]
            okk = True
            for t, kd in zip(ts, kinds):
                tv = E.get_variants(s, t)
                acc = {C.var('Type', kd)} | ({C.var('Type', 'Frac')} if kd == 'Int' else set())
                if tv is None:
                    okk = None
                elif not tv <= acc:
                    R.violation(key + ':types', '%s: the operator error names type %s for the %s operand' % (text, show(t)[:60], kd), wh)
                    okk = False
            opf = fs[len(ts)]
            ov = E.get_variants(s, opf)
            if ov is not None and ov != frozenset([k]):
                R.violation(key + ':op', '%s: the operator error names another operator' % text, wh)
            elif okk:
                R.ok(text + ': operator error naming types and operator')
            elif okk is None:
                R.unknown(text, 'types in the error not resolved')
            continue
        okexits += 1
        val = v.args[2]
        if exp is None:
            R.violation(key + ':accept', '%s is accepted and gives %s' % (text, show(val)[:160]), wh)
            continue
        kind, payloads, div = exp
        if div is not None:
            z = is_zero(E, s, *div)
            if z is True:
                R.violation(key + ':divzero', '%s is computed although the divisor is zero' % text, wh)
            elif z is None:
                if any(tainted(q) for q in s.facts):
                    R.unknown(text, 'zero test not understood')
                else:
                    R.violation(key + ':nozero', '%s is computed without testing the divisor for zero' % text, wh)
        vv = E.get_variants(s, val)
        if vv is None:
            R.unknown(text, 'kind of the result not resolved: ' + show(val)[:100])
            continue
        kv = C.var('Value', kind)
        if vv != frozenset([kv]):
            R.violation(key + ':rkind', '%s gives %s, required a %s value' % (text, show(val)[:160], kind), wh)
            continue
        p = Fld(val, kv, 0)
        if payloads is None:
            concat(C, R, E, s, f, key, text, p, x, y)
            continue
        res = [cmp(E, s, p, q) for q in payloads]
        R.result('eq' if 'eq' in res else 'unk' if 'unk' in res else 'ne', key + ':value', '%s gives %s, required %s' % (
            text, show(p)[:200], show(payloads[0])[:200]), wh)
    if exp is not None and not okexits and not R.unk:
        R.violation(key + ':never', '%s never gives a result' % text, wh)
    if exp is not None and exp[2] is not None and not errexits and not R.unk:
        R.violation(key + ':nozeroerr', '%s has no numeric error for a zero divisor' % text, wh)


def incompatible(E, s):
    """The common type of the operands was asked for and there is none."""
    for k, c in s.facts.items():
        if k.op == 'app' and k.args[0] == 'pf' and k.args[1].args[0] == 'most_specific' and c == ('V', frozenset([0])):
            return True
        if k.op == 'app' and k.args[0] == 'eq' and c == ('B', False):
            return True
    return False


def concat(C, R, E, s, f, key, text, p, x, y):
    xs, ys = vec_of(C, 'Arr', 'Value', x), vec_of(C, 'Arr', 'Value', y)
    seq = vec_of(C, 'Arr', 'Value', p)
    R.result(cmp(E, s, seq, App('concat', xs, ys)), key + ':elems', '%s has the elements of both in order (got %s)' % (text, show(seq)[:200]), where_fn(f))
    t = type_of_arr(C, p)
    ms = [k for k, c in s.facts.items() if k.op == 'app' and k.args[0] == 'pf' and k.args[1].args[0] == 'most_specific' and c == ('V', frozenset([1]))]
    ta, tb = type_of_arr(C, x), type_of_arr(C, y)
    good = []
    av = C.var('Type', 'Arr')
    for k in ms:
        args = [strip_ref(q) for q in k.args[2:]]
        at = [C.adt('Type', 'Arr', App('box', ta)), C.adt('Type', 'Arr', App('box', tb))]
        if {args[0], args[1]} == set(at):
            good.append(Unbox(Fld(Fld(Fld(k, 1, 0), -1, 0), av, 0)))
        if {args[0], args[1]} == {ta, tb}:
            good.append(Fld(Fld(k, 1, 0), -1, 0))
    if any(t is g for g in good):
        R.ok(text + ': the inner type is the common type of both')
    elif not ms and not tainted(t) and not any(tainted(q) for q in s.facts):
        R.violation(key + ':type', '%s: the inner type %s is not computed from the types of both operands' % (text, show(t)[:120]), where_fn(f))
    elif t is ta or t is tb:
        R.violation(key + ':type', '%s: the inner type of the result is that of one operand, not the common type' % text, where_fn(f))
    else:
        R.unknown(text, 'inner type of the result not resolved: ' + show(t)[:100])
