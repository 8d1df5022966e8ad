"""C27: what an error's text contains."""
import re

from base import *


def flatten(t):
    """Parts of a text: literals and rendered terms."""
    if t.op == 'pref':
        return flatten(t.args[0])
    if t.op == 'app' and t.args[0] == 'cat':
        r = []
        for x in t.args[1:]:
            for p in flatten(x):
                if p.op == 'str' and r and r[-1].op == 'str':
                    r[-1] = Str(r[-1].args[0] + p.args[0])
                elif p.op == 'str' and not p.args[0]:
                    pass
                else:
                    r.append(p)
        return r
    return [t]


RENDER = ('disp', 'debug')


def rendered(p):
    """(the term this part shows, exact) or None."""
    if p.op == 'app':
        if p.args[0] in RENDER:
            return p.args[2]
        if p.args[0] == 'chs':
            return p.args[1]
        if p.args[0] == 'fmtopt':
            return None
        if p.args[0] in ('box', 'arc', 'tostr', 'str'):
            return rendered(p.args[1]) if type(p.args[1]) is Term else p
    return p


def contains(t, x):
    return t is x or any(y is x for y in closure(t))


def mentions_variant(t, base):
    return any(y.op == 'fld' and y.args[0] is base for y in [t] + list(closure(t)))


def written(r, s, loops=False):
    """Parts written by one path of a Display::fmt: the formatter's old text is the first part (or the text that
    a loop made of it, which is kept as a part with loops=True)."""
    from auto import has_phi
    t = r.E.load_ref(s, r.args[1])
    ps = flatten(t)
    if not ps or ps[0].op == 'str':
        return None
    if has_phi(ps[0]):
        return ps if loops else None
    return ps[1:]


def before_loop(r, p):
    """The text a loop's accumulated text p starts from."""
    for k, e in r.events:
        if k == 'loop_entry':
            for c, x in e['head'].cells.items():
                if x is p and e['st'].cells.get(c) is not None:
                    return [y for y in flatten(e['st'].cells[c]) if y.op == 'str']
    return []


def failed(E, s, v):
    vs = E.get_variants(s, v)
    return vs == frozenset({1}) or vs == {1}


LABEL = re.compile(r'(?:^|[^a-z])(line|column|col|expected|found)\W*$', re.I)


def rule_C27(C, R):
    R.rule = ('each path of the Display implementation of every error type is reduced to the text it writes; that text must '
              'render every field of the variant shown, whole, in its labelled place; the file prefix depends on the file '
              'only; conversions between errors keep the displayed text')
    guard(R, 'display of ParseError', disp_parse, C, R)
    guard(R, 'display of OverError', disp_over, C, R)
    for ty in ('Type', 'UnaryOp', 'BinaryOp'):
        guard(R, 'display of ' + ty, distinct, C, R, ty)
    guard(R, 'conversions of errors', conversions, C, R)


def variants(C, ty):
    return C.P.T[C.ty(ty)]['vars']


def disp_parse(C, R):
    f = C.tr('ParseError', 'Display', 'fmt')
    if f is None:
        return R.unknown('ParseError as Display', 'not found')
    r = C.run(f)
    R.covered(r)
    E = r.E
    adt = C.P.T[C.ty('ParseError')]['vars'][0][1]
    fi = [i for i, (n, t) in enumerate(adt) if C.P.T[t].get('n', '').startswith('std::option::Option') or 'Option' in C.P.T[t].get('n', '')]
    ki = [i for i, (n, t) in enumerate(adt) if t == C.ty('ParseErrorKind')]
    if len(fi) != 1 or len(ki) != 1:
        return R.unknown('layout of ParseError', 'file or kind field not identified')
    self_ = entry_val(r, r.exits[0][0], 0)
    file, kind = Fld(self_, -1, fi[0]), Fld(self_, -1, ki[0])
    seen = set()
    for s, v in r.exits:
        if failed(E, s, v):
            continue
        ps = written(r, s)
        if ps is None:
            R.unknown('ParseError as Display', 'text not understood')
            continue
        fv = E.get_variants(s, file)
        kv = E.get_variants(s, kind)
        if fv is not None and len(fv) == 1 and 1 in fv:
            fx = Fld(file, 1, 0)
            ok = ps and rendered(ps[0]) is fx
            k = 'eq' if ok else ('ne' if not any(contains(p, fx) for p in ps) else ('ne' if not tainted(ps[0]) else 'unk'))
            R.result(k, 'C27:file', 'the text of a parse error starts with its file when it has one: %s' % [str(p)[:60] for p in ps[:4]], where_fn(f))
            if not ok:
                continue
            ps = ps[1:]
            if ps and ps[0].op == 'str':
                rest = ps[0].args[0]
                if rest[:1] not in ' :,;-\n':
                    R.violation('C27:file-sep', 'the file name runs into the message: %r' % rest[:30], where_fn(f))
        elif fv is not None and len(fv) == 1 and 0 in fv:
            pass
        else:
            if any(contains(p, file) for p in ps):
                R.unknown('file prefix', 'the path does not tell whether there is a file')
            else:
                R.violation('C27:file', 'the text of a parse error does not depend on its file', where_fn(f))
        if kv is None or len(kv) > 3:
            R.unknown('ParseError as Display', 'kind not determined on a path')
            continue
        for k in kv:
            seen.add(k)
            variant(C, R, f, E, s, 'ParseErrorKind', k, kind, ps, True)
    for k, (n, _, _) in enumerate(variants(C, 'ParseErrorKind')):
        if k not in seen:
            R.unknown('display of ' + n, 'no path shows it')


def disp_over(C, R):
    f = C.tr('OverError', 'Display', 'fmt')
    if f is None:
        return R.unknown('OverError as Display', 'not found')
    r = C.run(f)
    R.covered(r)
    E = r.E
    for s, v in r.exits:
        if failed(E, s, v):
            continue
        self_ = entry_val(r, s, 0)
        ps = written(r, s)
        kv = E.get_variants(s, self_)
        if ps is None or kv is None or len(kv) > 3:
            R.unknown('OverError as Display', 'text or kind not understood')
            continue
        for k in kv:
            variant(C, R, f, E, s, 'OverError', k, self_, ps, False)


def variant(C, R, f, E, s, ty, k, self_, ps, pos):
    name, fields, _ = variants(C, ty)[k]
    n = len(fields)
    tn = [C.P.T[t].get('n', str(t)) for _, t in fields]
    if not ps and n:
        R.violation('C27:%s:empty' % name, '%s writes nothing' % name, where_fn(f))
        return
    shown = {}
    for j, p in enumerate(ps):
        if p.op == 'str':
            continue
        x = rendered(p)
        for i in range(n):
            ft = Fld(self_, k, i)
            inner = ft
            if x is ft:
                shown.setdefault(i, []).append(j)
            elif tn[i].startswith('std::option::Option') or tn[i].startswith('Option') or 'Option<' in tn[i]:
                inner = Fld(ft, 1, 0)
                if x is inner:
                    shown.setdefault(i, []).append(j)
                elif x is not None and contains(p, ft):
                    shown.setdefault(i, []).append(j)
            elif contains(p, ft):
                if p.op == 'app' and p.args[0] == 'fmtopt':
                    o = str(p.args[1])
                    d = rendered(p.args[2])
                    if d is ft and "'p'" not in o:
                        shown.setdefault(i, []).append(j)
                    elif d is ft and C.P.T[fields[i][1]].get('n') not in ('usize', 'u32', 'u64', 'u8'):
                        R.violation('C27:%s:%d:cut' % (name, i), '%s: field %d is cut to a maximum width' % (name, i), where_fn(f))
                        shown.setdefault(i, []).append(j)
                    else:
                        shown.setdefault(i, []).append(j)
                elif tainted(p):
                    R.unknown('%s field %d' % (name, i), 'shown through %s' % str(p)[:100])
                    shown.setdefault(i, []).append(j)
                else:
                    R.violation('C27:%s:%d:altered' % (name, i), '%s shows field %d as %s' % (name, i, str(p)[:120]), where_fn(f))
                    shown.setdefault(i, []).append(j)
    unclear = [p for p in ps if p.op != 'str' and tainted(p)]
    for i in range(n):
        ft = Fld(self_, k, i)
        if 'Option<' in tn[i] and E.get_variants(s, ft) in (frozenset({0}), {0}):
            continue
        if i in shown:
            R.ok('%s shows field %d (%s)' % (name, i, tn[i]))
        elif unclear:
            R.unknown('%s field %d' % (name, i), 'text contains %s' % str(unclear[0])[:100])
        else:
            R.violation('C27:%s:%d:missing' % (name, i), '%s carries field %d (%s) but its text does not show it: %s' % (
                name, i, tn[i], [str(p)[:60] for p in ps]), where_fn(f))
    # places
    us = [i for i in range(n) if tn[i] == 'usize']
    lc = {}
    if pos and us:
        if len(us) >= 2:
            lc = {us[-2]: 'line', us[-1]: 'col'}
        else:
            lc = {us[-1]: 'line'}
    others = [i for i in range(n) if i not in lc]
    for i, js in shown.items():
        for j in js:
            lab = None
            if j and ps[j - 1].op == 'str':
                m = LABEL.search(ps[j - 1].args[0])
                if m:
                    lab = m.group(1).lower()[:3] if m.group(1).lower() in ('column', 'col') else m.group(1).lower()
            want = None
            if lab == 'line' or lab == 'col':
                want = [x for x in lc if lc[x] == lab]
            elif lab in ('expected', 'found') and len([x for x in others if 'Op' not in tn[x]]) >= 2:
                want = [0] if lab == 'expected' else [1]
            if want is not None and want and i not in want:
                R.violation('C27:%s:%d:place' % (name, i), '%s: after "%s" the text shows field %d instead of field %d' % (
                    name, ps[j - 1].args[0][-24:], i, want[0]), where_fn(f))
            elif i in lc and lab is not None and lab != lc[i]:
                R.violation('C27:%s:%d:place' % (name, i), '%s: the %s is shown after "%s"' % (
                    name, lc[i], ps[j - 1].args[0][-24:]), where_fn(f))
            else:
                R.ok('%s field %d in its place' % (name, i))
    # same-typed, unlabelled: in order
    for a in others:
        for b in others:
            if a < b and tn[a] == tn[b] and a in shown and b in shown:
                la = [bool(j and ps[j - 1].op == 'str' and LABEL.search(ps[j - 1].args[0])) for j in shown[a] + shown[b]]
                if not any(la) and shown[a][0] > shown[b][0]:
                    R.violation('C27:%s:order' % name, '%s shows fields %d and %d in the wrong order' % (name, a, b), where_fn(f))
                else:
                    R.ok('%s fields %d and %d in order' % (name, a, b))
    if len(us) >= 2 and lc and all(i in shown for i in lc):
        a, b = us[-2], us[-1]
        if shown[a][0] > shown[b][0] and not (shown[a][0] and ps[shown[a][0] - 1].op == 'str' and LABEL.search(ps[shown[a][0] - 1].args[0])):
            R.violation('C27:%s:linecol' % name, '%s shows the column before the line without labels' % name, where_fn(f))


def distinct(C, R, ty):
    f = C.tr(ty, 'Display', 'fmt')
    if f is None:
        return R.unknown(ty + ' as Display', 'not found')
    r = C.run(f)
    R.covered(r)
    E = r.E
    texts = {}
    for s, v in r.exits:
        if failed(E, s, v):
            continue
        self_ = entry_val(r, s, 0)
        ps = written(r, s, True)
        kv = E.get_variants(s, self_)
        if ps is None or kv is None or len(kv) != 1:
            if kv is not None and ps is not None and len(kv) > 1 and not any(tainted(p) for p in ps) and all(p.op == 'str' for p in ps):
                R.violation('C27:%s:same' % ty, '%s: variants %s have the same text' % (ty, sorted(variants(C, ty)[k][0] for k in kv)), where_fn(f))
            else:
                R.unknown('%s as Display' % ty, 'text or kind not understood')
            continue
        k = next(iter(kv))
        name, fields, _ = variants(C, ty)[k]
        key = ()
        for p in ps:
            if p.op == 'str':
                key += (str(p.args[0]),)
            else:
                key += tuple(str(y.args[0]) for y in before_loop(r, p)) + ('*',)
        for k2, n2 in texts.get(key, []):
            if k2 != k:
                R.violation('C27:%s:same' % ty, '%s: %s and %s have the same text' % (ty, name, n2), where_fn(f))
        texts.setdefault(key, []).append((k, name))
        if not ps:
            R.violation('C27:%s:%s:empty' % (ty, name), '%s::%s has no text' % (ty, name), where_fn(f))
        R.ok('%s::%s has its own text' % (ty, name))
        for i in range(len(fields)):
            content(C, R, f, r, E, s, ty, name, Fld(self_, k, i), ps)


def content(C, R, f, r, E, s, ty, name, x, ps):
    """Every element of the nested types is displayed: the boxed one, or each of a sequence."""
    shown = [rendered(p) for p in ps if p.op != 'str']
    if any(y is not None and (y is x or (y.op == 'app' and y.args[0] == 'unbox' and y.args[1] is x)) for y in shown):
        R.ok('%s::%s shows its inner type' % (ty, name))
        return
    n = E.decide(s, App('isempty', x))
    if n is True:
        R.ok('%s::%s: nothing to show' % (ty, name))
        return
    k = fold_covers(r, x, lambda p: rendered(p), ps)
    R.result(k[0], 'C27:%s:%s:inner' % (ty, name), '%s::%s shows every inner type once, in order%s' % (
        ty, name, '' if k[0] == 'eq' else ': ' + k[1]), where_fn(f))


def fold_covers(r, seq, show, tail):
    """Is `tail` (parts of a text) the concatenation over all elements of seq, each rendered once, in order?
    -> (eq|ne|unk, why)"""
    from auto import has_phi
    E = r.E
    acc = [p for p in tail if has_phi(p)]
    direct = [show(p) for p in tail if p.op != 'str' and not has_phi(p)]
    if not acc:
        if any(p.op == 'app' and p.args[0] in ('call', 'join', 'out') for p in tail) or any(tainted(p) for p in tail):
            return 'unk', 'text built by an unmodelled call'
        return 'ne', 'the elements are not all rendered'
    if len(acc) != 1 or acc[0].op != 'phi':
        return 'unk', 'several accumulated texts'
    phi = acc[0]
    entry = back = 0
    for k, e in r.events:
        if k not in ('loop_entry', 'iterback', 'backedge'):
            continue
        cell = [c for c, x in e['head'].cells.items() if x is phi]
        if not cell:
            continue
        its = [(c, bare(x)) for c, x in e['head'].cells.items() if bare(x) is not None and bare(x).args[1] is seq
               and type(bare(x).args[2]) is Term and has_phi(bare(x).args[2])]
        if len(its) != 1:
            return 'unk', 'not a single iteration over the sequence'
        c, it = its[0]
        new = e['st'].cells.get(c)
        a = e['st'].cells.get(cell[0])
        new = bare(new) if new is not None else None
        if new is None or a is None or new.args[1] is not seq:
            return 'unk', 'iteration not followed'
        pos, npos = it.args[2], new.args[2]
        parts = flatten(a)
        if k == 'loop_entry':
            if npos.op != 'int':
                return 'unk', 'start of the iteration'
            if parts and parts[0].op == 'sym':
                parts = parts[1:]
            got = [show(p) for p in parts if p.op != 'str']
            want = [At(seq, i) for i in range(npos.args[0])]
            if got != want:
                return ('unk' if any(g is None or tainted(g) for g in got) else 'ne'), 'before the loop %s are rendered' % [str(g) for g in got]
            entry += 1
        else:
            if parts[0] is not phi:
                if any(p is phi for p in parts):
                    return 'ne', 'an element is put before the ones that precede it'
                return 'unk', 'accumulated text replaced'
            got = [show(p) for p in parts[1:] if p.op != 'str']
            step = E.decide(e['st'], Eq(npos, Add(pos, Int(1))))
            if step is not True:
                return ('ne' if step is False else 'unk'), 'the iteration does not advance by one'
            if got != [At(seq, pos)]:
                return ('unk' if any(g is None or tainted(g) and g is not At(seq, pos) and not contains(g, seq) for g in got) else 'ne'), \
                    'one step renders %s' % [str(g)[:60] for g in got]
            back += 1
    if not entry or not back:
        return 'unk', 'no loop found'
    if direct:
        return 'unk', 'further elements outside of the loop'
    return 'eq', ''


def bare(x):
    """The iteration over a sequence under any counting of it."""
    while x.op == 'app' and x.args[0] == 'enumit':
        x = x.args[1]
    return x if x.op == 'app' and x.args[0] == 'it' else None


def At(seq, i):
    return App('at', seq, Int(i) if type(i) is int else i)


def conversions(C, R):
    for f in C.P.locals:
        if '{' in f.name or not f.dumped or f.argc < 1:
            continue
        ret = C.strip(f.locals[0])
        if ret not in (C.ty('ParseError'), C.ty('OverError')):
            continue
        args = [f.locals[i + 1] for i in range(f.argc)]
        is_from = f.canon[0] == 'T' and f.canon[1] == 'From' and f.canon[2] == 'from'
        if is_from:
            guard(R, f.name, conv_from, C, R, f)
        elif f.canon[0] != 'T' and f.argc >= 2 and all(C.P.T[C.strip(a)].get('n') != 'over::Value' for a in args) \
                and any('usize' == C.P.T[C.strip(a)].get('n') for a in args) and not stream_arg(C, args):
            guard(R, f.name, conv_args, C, R, f)


def stream_arg(C, args):
    return any('Stream' in C.P.T[C.strip(a)].get('n', '') for a in args)


def leaves(t):
    """Fields of the built error: texts flattened."""
    if t.op == 'adt':
        r = []
        for x in t.args[2:]:
            r += leaves(x)
        return r
    return flatten(t)


def conv_from(C, R, f):
    r = C.run(f)
    R.covered(r)
    for s, v in r.exits:
        a = entry_val(r, s, 0)
        ls = leaves(v)
        ok = any(rendered(p) is a for p in ls if p.op != 'str')
        if ok:
            R.ok('%s keeps the text' % f.name)
        elif any(contains(p, a) for p in ls) and all(lossy(p, a) for p in ls if contains(p, a)):
            R.violation('C27:%s' % f.name, '%s does not keep the text of the error it converts: %s' % (f.name, str(v)[:160]), where_fn(f))
        elif any(tainted(p) for p in ls) or any(p.op == 'app' and p.args[0] == 'fmtopt' and "'p'" not in str(p.args[1]) for p in ls):
            R.unknown(f.name, 'built through %s' % str(v)[:120])
        else:
            vs = C.P.T[C.strip(f.locals[1])]
            k = r.E.get_variants(s, a)
            part = [p for p in ls if contains(p, a)]
            if k is not None and len(k) == 1 and vs.get('local') and part:
                # variant by variant: all the fields have to reappear
                vk = next(iter(k))
                miss = [i for i in range(len(vs['vars'][vk][1])) if not any(contains(p, Fld(a, vk, i)) for p in ls)]
                if not miss:
                    R.unknown(f.name, 'text rebuilt from the parts')
                    continue
            R.violation('C27:%s' % f.name, '%s loses the text of the error it converts: %s' % (f.name, str(v)[:160]), where_fn(f))


LOSSY = ('kind', 'raw_os_error', 'type_id', 'description', 'line', 'column')


def lossy(p, a):
    """The part depends on the error only through something that is not its text."""
    if p is a:
        return False
    if p.op == 'app' and p.args[0] == 'call' and p.args[1].op == 'str':
        return str(p.args[1].args[0]).rsplit('::', 1)[-1] in LOSSY
    if p.op == 'app' and p.args[0] in ('disp', 'debug'):
        return lossy(p.args[2], a)
    return False


def entry_val(r, s, i):
    a = r.args[i]
    while a.op in ('pref', 'ref'):
        a = r.E.load_ref(s, a) if a.op == 'ref' else a.args[0]
    return a


def conv_args(C, R, f):
    """Constructors from the parts of an error: every argument ends up in the result."""
    r = C.run(f)
    R.covered(r)
    for s, v in r.exits:
        if v.op != 'adt':
            R.unknown(f.name, 'result not built here')
            continue
        ls = leaves(v)
        opt = [x for x in v.args[2:]]
        for i in range(f.argc):
            a = entry_val(r, s, i)
            tn = C.P.T[C.strip(f.locals[i + 1])].get('n', '')
            if 'Option<' in tn:
                k = 'eq' if any(x is a for x in opt) else ('unk' if any(contains(x, a) for x in opt) else 'ne')
                R.result(k, 'C27:%s:%d' % (f.name, i), '%s keeps argument %d (the file)' % (f.name, i), where_fn(f))
                continue
            js = [j for j, p in enumerate(ls) if p.op != 'str' and rendered(p) is a]
            if not js:
                k = 'unk' if any(contains(p, a) and tainted(p) or tainted(p) for p in ls) else 'ne'
                R.result(k, 'C27:%s:%d' % (f.name, i), '%s: argument %d (%s) appears in the text' % (f.name, i, tn), where_fn(f))
                continue
            lab = None
            if js[0] and ls[js[0] - 1].op == 'str':
                m = LABEL.search(ls[js[0] - 1].args[0])
                lab = m.group(1).lower() if m else None
            us = [x for x in range(f.argc) if C.P.T[C.strip(f.locals[x + 1])].get('n') == 'usize']
            if lab in ('line', 'col', 'column') and len(us) == 2:
                want = us[0] if lab == 'line' else us[1]
                R.result('eq' if want == i else 'ne', 'C27:%s:%d:place' % (f.name, i),
                         '%s: after "%s" stands argument %d' % (f.name, lab, want), where_fn(f))
            else:
                R.ok('%s shows argument %d' % (f.name, i))
