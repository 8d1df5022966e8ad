"""C04: the one lifetime that is erased, and what is done with the text behind it."""
import re
from base import *
from effects import calls, loc, base_name, Types, defs_of, places, reaches

CHARS = re.compile(r'::str::(Chars|CharIndices|Bytes|SplitN?|Lines)$|::str::iter::(Chars|CharIndices|Bytes|Lines)$')
TEXT = re.compile(r'string::String$|::vec::Vec$|boxed::Box$|rc::Rc$|sync::Arc$')
SHARED = re.compile(r'(rc::Rc|sync::Arc)$')
ERASE = re.compile(r'(mem::transmute|transmute_copy|from_raw_parts(_mut)?|from_utf8_unchecked(_mut)?)$')
SAFE_ON_OWNER = re.compile(r'(Rc|Arc)(::<[^>]*>)?::(new|clone|ptr_eq|strong_count|as_ptr)$|RefCell(::<[^>]*>)?::(new|borrow|borrow_mut|try_borrow|try_borrow_mut)$|'
                           r'Deref::deref$|DerefMut::deref_mut$|Clone::clone$|::fmt$|drop_in_place|mem::drop$|Debug|Option::<T>::(is_some|is_none|as_ref|as_mut)')
BAD_ON_OWNER = re.compile(r'mem::(swap|replace|take|forget)$|RefCell(::<[^>]*>)?::(replace|replace_with|swap|take|into_inner)$|'
                          r'(Rc|Arc)(::<[^>]*>)?::(make_mut|try_unwrap|into_inner|unwrap_or_clone)$|ptr::(read|write|swap|replace|drop_in_place)$|'
                          r'ManuallyDrop|clone_from$')


def is_chars(i, x):
    return x.get('k') == 'adt' and CHARS.search(x.get('adt', '')) is not None


def rule_C04(C, R):
    R.rule = ('The only unsafe code is the one that erases the lifetime of an iterator over a text, where a reader is made. There the '
              'text the iterator walks is moved, as it is, into the value that holds the iterator, and not touched on the way. No '
              'other code makes such a value, changes, moves or replaces its text, copies or takes the value apart, or lets the '
              'iterator out of it.')
    T = C.P.T
    TY = Types(C)
    blocks = C.P.F.get('unsafe_blocks', [])
    owners = {}
    for f in C.P.locals:
        if not f.dumped:
            continue
        R.fns.add(f.name)
    for t, x in enumerate(T):
        if x.get('k') == 'adt' and x.get('local') and x.get('kind') == 'struct':
            fs = TY.fields(t)
            it = [i for i, (_, n, ft) in enumerate(fs) if holds_chars(T, ft)]
            tx = [i for i, (_, n, ft) in enumerate(fs) if is_text(T, ft)]
            if it:
                owners[t] = (it, tx)
    makers = set()
    erased = []
    for f in C.P.locals:
        if f.dumped:
            for bi, b in enumerate(f.blocks):
                for s in b[0]:
                    if s[0] == '=' and s[2][0] == 'cast' and s[2][1] == 'Transmute':
                        erased.append((f, bi, s))
                    if s[0] == '=' and s[2][0] == 'agg' and s[2][1][0] == 'adt' and s[2][1][1] in owners and not derived(f):
                        makers.add(f.id)
    around = set(makers)
    ch = True
    while ch:
        ch = False
        for f in C.P.locals:
            if not f.dumped or f.id in around:
                continue
            cs = callees(C, f)
            # hands an erased iterator and its text to where the value is made
            if any(g.id in around and any(holds_chars(T, g.locals[i + 1]) for i in range(g.argc)) for g in cs) or \
                    eraser(C, f) is not None and callers(C, f) and all(h.id in around for h in callers(C, f)):
                around.add(f.id)
                ch = True
    # 1. where unsafe code is
    for d in blocks:
        name = d[0]
        fs = [f for f in C.P.locals if f.dumped and (f.name.endswith(name) or getattr(f, 'defn', None) == name or base(f) == name)]
        mk = [f for f in fs if f.id in around]
        here = [e for e in erased if e[0] in fs]
        R.sites += 1
        if mk and here and all(lifetime_only(T, f, s) for f, bi, s in here):
            R.ok('the unsafe block in %s only erases a lifetime' % name)
        elif mk:
            R.unknown('the unsafe block in ' + name, 'it does not erase the lifetime with transmute')
        else:
            R.violation('unsafe:' + name, 'there is unsafe code other than where the reader is made: in %s' % name, ['%s at %s:%s' % (name, str(d[1][0]).replace('/repo/', ''), d[1][1])])
    for i in C.P.items:
        if i.get('unsafe'):
            R.violation('unsafe-item:' + i['name'], 'an unsafe function or implementation: ' + i['name'], [i['name']])
    if not blocks:
        return R.ok('there is no unsafe code')
    if not owners:
        return R.unknown('the reader', 'no type holds an iterator over a text')
    # 2. making
    for f in C.P.locals:
        if not f.dumped:
            continue
        for bi, b in enumerate(f.blocks):
            for s in b[0]:
                if s[0] == '=' and s[2][0] == 'agg' and s[2][1][0] == 'adt' and s[2][1][1] in owners:
                    if derived(f):
                        continue
                    its, txs = owners[s[2][1][1]]
                    making(C, R, f, s[3] if len(s) > 3 else f.span, [s[2][2][i] for i in its], [s[2][2][i] for i in txs])
    # 3. everything else
    for f in C.P.locals:
        if f.dumped:
            uses(C, R, f, owners, makers)
            escapes(C, R, f, owners, TY)
    for t in owners:
        a = next((a for a in C.P.adts.values() if a['t'] == t), None)
        if a is not None:
            its, txs = owners[t]
            for i in its + txs:
                if a['public'] and a['fields'][i][2]:
                    R.violation('public:%s' % a['name'], 'the text or the iterator of %s is public' % a['name'], [a['name']])
                else:
                    R.ok('field %s of %s is private' % (a['fields'][i][1], a['name']))


def callee(C, t):
    g = C.P.fns.get(t[1].get('inst'))
    return g if g is not None and g.dumped and g in C.P.locals else None


def callees(C, f):
    out = []
    for bi, t, sp in calls(f):
        g = callee(C, t)
        if g is not None:
            out.append(g)
    return out


def callers(C, g):
    return [f for f in C.P.locals if f.dumped and f is not g and any(h is g for h in callees(C, f))]


def eraser(C, f):
    """A helper that gives back the iterator over (or the text of) one of its arguments: (that argument, erased)."""
    T = C.P.T
    rt = T[f.locals[0]]
    if not (holds_chars(T, f.locals[0]) or rt.get('k') == 'ref' and T[rt['e']].get('n') == 'str'):
        return None
    f.types = T
    root, er, via = walked(C, f, ('c', (0, [])))
    if root is not None and root[0] == 'local' and 0 < root[1] <= f.argc:
        return root[1], er
    return None


def base(f):
    return re.sub(r'^over::', '', f.name)


def derived(f):
    return f.canon[0] == 'T' and f.canon[1] == 'Clone'


def holds_chars(T, t, n=0):
    x = T[t]
    if is_chars(t, x):
        return True
    return x.get('k') == 'adt' and not x.get('local') and n < 4 and not re.search(r'rc::Rc$|sync::Arc$|RefCell$', x.get('adt', '')) and \
        any(type(a) is int and holds_chars(T, a, n + 1) for a in x.get('args', []))


def is_text(T, t):
    x = T[t]
    if x.get('k') != 'adt' or not TEXT.search(x['adt']):
        return False
    if x['adt'].endswith('String'):
        return True
    return any(type(a) is int and (T[a].get('k') == 'str' or T[a].get('n') in ('str', 'u8') or is_text(T, a)) for a in x.get('args', []))


def lifetime_only(T, f, s):
    o = s[2][2]
    return o[0] in ('c', 'm') and not o[1][1] and T[f.locals[o[1][0]]]['n'] == T[s[2][3]]['n']


def moved_from(f, op):
    """Follow moves back: ('local', l) or ('call', def, args) or None."""
    n = 0
    while n < 40:
        n += 1
        if op[0] not in ('c', 'm'):
            return ('const',)
        l, proj = op[1]
        if proj:
            return ('place', l, str(proj))
        ds = [d for d in defs_of(f).get(l, []) if not (d[0] == 's' and d[2][1][1])]
        if 0 < l <= f.argc and not ds:
            return ('local', l)
        if len(ds) != 1:
            return ('local', l)
        d = ds[0]
        if d[0] == 'c':
            return ('call', d[2], l)
        r = d[2][2]
        if r[0] == 'use':
            op = r[1]
            continue
        return ('local', l)
    return None


def walked(C, f, op):
    """What text does an iterator walk? Follows the first argument of every adapter, and borrows, back to what is borrowed:
    (root as in moved_from, a lifetime was erased on the way, functions passed)."""
    erased = False
    via = []
    n = 0
    while n < 40:
        n += 1
        m = moved_from(f, op)
        if m is None:
            return None, erased, via
        if m[0] == 'call':
            t = m[1]
            d = base_name(t[1].get('def'))
            if ERASE.search(d or ''):
                erased = True
            g = callee(C, t)
            if g is not None and g is not f:
                e = eraser(C, g)
                if e is None:
                    return None, erased, via
                erased |= e[1]
                via.append(d)
                op = t[3][e[0] - 1]
                continue
            if not t[3]:
                return m, erased, via
            if returns_owned(f, t):
                return m, erased, via
            via.append(d)
            op = t[3][0]
            continue
        if m[0] != 'local':
            return m, erased, via
        ds = [d for d in defs_of(f).get(m[1], []) if d[0] == 's' and not d[2][1][1]]
        if len(ds) != 1:
            return m, erased, via
        r = ds[0][2][2]
        if r[0] == 'cast':
            erased |= r[1] == 'Transmute'
            op = r[2]
            continue
        if r[0] in ('ref', 'addr'):
            l, proj = r[2]
            if [e for e in proj if e[0] != '*']:
                return ('place', l, str(proj)), erased, via
            if any(e[0] == '*' for e in proj):
                op = ('c', (l, []))
                continue
            x = moved_from(f, ('c', (l, [])))
            return (x if x is not None and x[0] in ('local', 'place') else ('local', l)), erased, via
        return m, erased, via
    return None, erased, via


OWN = None


def returns_owned(f, t):
    """A call that gives a text of its own: not followed further back."""
    return t[4] and is_text(f.types, f.locals[t[4][0]]) if hasattr(f, 'types') else False


def making(C, R, f, sp, its, txs, n=0):
    """its: the operands that hold iterators, txs: those that hold text, at one construction (or a call that leads to it)."""
    T = C.P.T
    f.types = T
    R.sites += 1
    text = 'the text read by a reader made in %s is kept with it' % f.name
    for op in its:
        root, erased, via = walked(C, f, op)
        roots = [moved_from(f, o) for o in txs]
        if not erased:
            if root is not None and root[0] == 'const':
                R.ok(text + ' (constant)')
            elif root is not None and root[0] == 'local' and 0 < root[1] <= f.argc and n < 4:
                if not all(r is not None and r[0] == 'local' and 0 < r[1] <= f.argc for r in roots):
                    R.unknown(text, 'it is made from another text than the one passed with the iterator')
                    continue
                cs = [(h, t, s2) for h in C.P.locals if h.dumped for _, t, s2 in calls(h) if callee(C, t) is f]
                if not cs:
                    R.ok(text + ' (never called)')
                for h, t, s2 in cs:
                    making(C, R, h, s2, [t[3][root[1] - 1]], [t[3][r[1] - 1] for r in roots], n + 1)
            else:
                R.unknown(text, 'the iterator does not come from where the lifetime is erased')
            continue
        if root is None or root[0] == 'place':
            R.unknown(text, 'the text is not followed')
        elif any(r is not None and same(r, root) for r in roots):
            R.ok(text)
            untouched(C, R, f, root[1] if root[0] == 'local' else root[2], n > 0)
        else:
            owner = [r for r in roots if r is not None and r[0] == 'call']
            if any(shared_clone(C, f, r, root) for r in owner):
                R.ok(text + ' (shared)')
            elif not txs:
                R.violation('kept:' + f.name, 'not so: %s' % text, [loc(f, sp)])
            elif all(r is not None for r in roots) and root[0] in ('local', 'call'):
                R.violation('kept:' + f.name, 'not so: %s: another text is' % text, [loc(f, sp)])
            else:
                R.unknown(text, 'not followed')


def same(a, b):
    if a[0] == b[0] == 'local':
        return a[1] == b[1]
    if a[0] == b[0] == 'call':
        return a[1] is b[1]
    if a[0] == 'call' and b[0] == 'local':
        return a[2] == b[1]
    if a[0] == 'local' and b[0] == 'call':
        return a[1] == b[2]
    return False


def shared_clone(C, f, r, root):
    T = C.P.T
    t = r[1]
    if not base_name(t[1].get('def')).endswith('clone') or not SHARED.search(T[f.locals[t[4][0]]].get('adt', '')):
        return False
    w, _, _ = walked(C, f, t[3][0])
    return w is not None and same(w, root)


def aliases(f, l):
    """Locals the text is moved into."""
    out = {l}
    ch = True
    while ch:
        ch = False
        for b in f.blocks:
            for s in b[0]:
                if s[0] == '=' and not s[1][1] and s[2][0] == 'use' and s[2][1][0] == 'm' and not s[2][1][1][1] and s[2][1][1][0] in out and s[1][0] not in out:
                    out.add(s[1][0])
                    ch = True
    return out


def untouched(C, R, f, l, handed=False):
    """The text is not borrowed mutably or handed over after the lifetime was erased."""
    T = C.P.T
    start = [bi for bi, b in enumerate(f.blocks) for s in b[0] if s[0] == '=' and s[2][0] == 'cast' and s[2][1] == 'Transmute']
    start += [bi for bi, t, sp in calls(f) if ERASE.search(base_name(t[1].get('def')) or '')]
    for bi, t, sp in calls(f):
        g = callee(C, t)
        if g is not None and g is not f and eraser(C, g) is not None:
            start.append(bi)
    al = aliases(f, l)
    bad = None
    for bi, b in enumerate(f.blocks):
        after = any(reaches(f, a, bi) or a == bi for a in start)
        if not after:
            continue
        for s in b[0]:
            if s[0] == '=' and s[2][0] == 'ref' and s[2][1] and s[2][2][0] in al:
                bad = s[3] if len(s) > 3 else f.span
        t = b[1]
        if t[0] == 'call':
            g = callee(C, t)
            passed = handed and g is not None and any(holds_chars(T, g.locals[i + 1]) for i in range(g.argc))
            for o in t[3]:
                if o[0] == 'm' and o[1][0] in al and not o[1][1] and not passed:
                    bad = b[2] if len(b) > 2 else f.span
    text = 'the text is not changed or handed over in %s after the lifetime was erased' % f.name
    if bad is not None:
        R.violation('touched:' + f.name, 'not so: ' + text, [loc(f, bad)])
    else:
        R.ok(text)


def place_steps(T, f, pl):
    """[(type before the step, step)]"""
    t = f.locals[pl[0]]
    out = []
    for e in pl[1]:
        out.append((t, e))
        if e[0] == '*':
            x = T[t]
            t = x.get('e', (x.get('args') or [None])[0]) if x.get('k') in ('ref', 'ptr') or x.get('box') else None
        elif e[0] == 'f':
            t = e[2]
        if t is None:
            break
    return out, t


def touches(T, f, pl, owners):
    """('text'|'iter'|'other'|'whole', owner) when the place is in, or is, such a value."""
    steps, end = place_steps(T, f, pl)
    for i, (t, e) in enumerate(steps):
        if t in owners and e[0] == 'f':
            its, txs = owners[t]
            rest = steps[i + 1:]
            return ('text' if e[1] in txs and not file_like(T, t, e[1]) else 'iter' if e[1] in its else 'other'), t, bool(rest)
    if end in owners:
        return 'whole', end, False
    return None, None, False


def file_like(T, t, i):
    return False


def uses(C, R, f, owners, makers):
    T = C.P.T
    if derived(f) and T and any(C.strip(f.locals[1]) == t for t in owners):
        return
    for bi, b in enumerate(f.blocks):
        for s in b[0]:
            if s[0] != '=':
                continue
            sp = s[3] if len(s) > 3 else f.span
            k, o, deep_ = touches(T, f, s[1], owners)
            throughp = any(e[0] == '*' for e in s[1][1])
            if k == 'text' and f.id not in makers:
                R.violation('write:text:' + f.name, 'the text of a reader is replaced in ' + f.name, [loc(f, sp)])
            elif k == 'iter' and throughp:
                R.unknown('the iterator of a reader in ' + f.name, 'it is replaced')
            elif k == 'whole' and throughp:
                R.violation('write:whole:' + f.name, 'a reader is overwritten in ' + f.name, [loc(f, sp)])
            r = s[2]
            if r[0] in ('ref', 'addr'):
                k, o, d = touches(T, f, r[2], owners)
                if k == 'text' and r[1]:
                    R.violation('mut:text:' + f.name, 'the text of a reader is borrowed mutably in ' + f.name, [loc(f, sp)])
                elif k == 'text':
                    R.ok('%s only looks at the text' % f.name)
                elif k == 'iter':
                    R.ok('%s steps the iterator in its place' % f.name)
            elif r[0] in ('use', 'agg', 'cast'):
                for o2 in ([r[1]] if r[0] == 'use' else r[2] if r[0] == 'agg' else [r[2]]):
                    if o2[0] in ('c', 'm'):
                        k, o, d = touches(T, f, o2[1], owners)
                        if k in ('text', 'iter') and o2[0] == 'm':
                            R.violation('move:%s:%s' % (k, f.name), 'the %s of a reader is moved out in %s' % ('text' if k == 'text' else 'iterator', f.name), [loc(f, sp)])
        t = b[1]
        if t[0] == 'call':
            d = t[1].get('def') or ''
            sp = b[2] if len(b) > 2 else f.span
            ta = [x for x in t[1].get('targs', []) if type(x) is int]
            near = [x for x in ta if x in owners or T[x].get('k') == 'adt' and re.search(r'RefCell$', T[x].get('adt', '')) and any(a in owners for a in T[x].get('args', []))]
            for o2 in t[3]:
                if o2[0] in ('c', 'm'):
                    k, o, dd = touches(T, f, o2[1], owners)
                    if k in ('text', 'iter') and o2[0] == 'm' and o2[1][1]:
                        R.violation('move:%s:%s' % (k, f.name), 'the %s of a reader is moved out in %s' % ('text' if k == 'text' else 'iterator', f.name), [loc(f, sp)])
            if near:
                R.sites += 1
                dn = base_name(d)
                if re.search(r'Clone::clone$', dn) and any(x in owners or 'RefCell' in T[x].get('adt', '') for x in ta[:1]):
                    R.violation('copy:' + f.name, 'a reader is copied in %s: the iterator of the copy walks the text of the original' % f.name, [loc(f, sp)])
                elif BAD_ON_OWNER.search(dn):
                    R.violation('apart:' + f.name, 'a reader is taken apart or replaced in %s (%s)' % (f.name, dn), [loc(f, sp)])
                elif SAFE_ON_OWNER.search(dn) or SAFE_ON_OWNER.search(d):
                    R.ok('%s in %s keeps the reader whole' % (dn, f.name))
                else:
                    R.unknown('%s in %s' % (dn, f.name), 'not known to keep the reader whole')
            # swaps and takes of the text or iterator types through &mut to a field
            dn = base_name(d)
            if re.search(r'mem::(swap|replace|take)$', dn):
                for o2 in t[3]:
                    w, _, _ = walked_place(f, o2)
                    if w is not None:
                        k, o, dd = touches(T, f, w, owners)
                        if k in ('text', 'whole'):
                            R.violation('take:' + f.name, 'the text of a reader is taken or replaced in ' + f.name, [loc(f, sp)])
                        elif k == 'iter':
                            R.unknown('the iterator of a reader in ' + f.name, 'it is replaced')


def walked_place(f, op):
    if op[0] not in ('c', 'm') or op[1][1]:
        return None, None, None
    for d in defs_of(f).get(op[1][0], []):
        if d[0] == 's' and d[2][2][0] == 'ref':
            pl = d[2][2][2]
            if [e for e in pl[1] if e[0] == 'f']:
                return pl, None, None
            if pl[1] and pl[1][0][0] == '*':
                return walked_place(f, ('c', (pl[0], [])))
    return None, None, None


def escapes(C, R, f, owners, TY):
    """No function gives the iterator, or text behind it, to its caller with the erased lifetime."""
    T = C.P.T
    if f.name.startswith('<') and derived(f):
        return
    rt = f.locals[0]
    takes = any(TY.mentions(f.locals[i + 1], lambda i2, x: i2 in owners) for i in range(f.argc))
    if '{' in f.name:
        return
    direct = outside(T, TY, rt, owners)
    if direct and takes:
        R.violation('escape:' + f.name, 'the iterator of a reader leaves it: %s gives it to its caller' % f.name, [loc(f, f.span)])
        return
    if takes and TY.mentions(rt, lambda i2, x: x.get('k') == 'ref' and T[x['e']].get('k') == 'str' or x.get('k') == 'ref' and T[x['e']].get('n') == 'str'):
        text = 'the text %s gives to its caller' % f.name
        if any(re.search(r'str::Chars::(<[^>]*>::)?as_str$|Chars.*::as_str$', base_name(t[1].get('def')) or '') for _, t, _ in calls(f)):
            R.violation('escape:' + f.name, text + ' is that of a reader, without its lifetime', [loc(f, f.span)])
        else:
            R.unknown(text, 'whether it is that of a reader is not known')
        return
    if takes:
        R.ok('%s gives nothing borrowed from a reader to its caller' % f.name)


def outside(T, TY, t, owners, seen=None):
    """Does a value of this type hold such an iterator, other than within the values that own the text?"""
    seen = set() if seen is None else seen
    if t in owners or t in seen:
        return False
    seen.add(t)
    x = T[t]
    if is_chars(t, x):
        return True
    subs = [a for a in x.get('args', []) if type(a) is int]
    if type(x.get('e')) is int:
        subs.append(x['e'])
    subs += [a for a in x.get('es', []) if type(a) is int]
    if x.get('k') == 'adt' and x.get('local'):
        subs += [f[2] for f in TY.fields(t)]
    return any(outside(T, TY, a, owners, seen) for a in subs)
