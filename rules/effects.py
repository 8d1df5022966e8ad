"""C13, C14, C23, C25: what may reach what, over the compiler's MIR and types."""
import re

from base import *

HANDLES = ('Obj', 'Arr', 'Tup')


# helpers on MIR -------------------------------------------------------------------------------------
def calls(f):
    for bi, b in enumerate(f.blocks):
        t = b[1]
        if t[0] == 'call':
            yield bi, t, (b[2] if len(b) > 2 else f.span)


def loc(f, span):
    return '%s at %s:%s' % (f.name, str(span[0]).replace('/repo/', ''), span[1])


def base_name(d):
    """std::sync::Arc::<T, A>::get_mut -> std::sync::Arc::get_mut"""
    return re.sub(r'::<[^>]*(?:<[^>]*>[^>]*)*>', '', d or '')


class Types:
    def __init__(self, C):
        self.C, self.T = C, C.P.T

    def strip(self, t):
        while self.T[t].get('k') in ('ref', 'ptr'):
            t = self.T[t]['e']
        return t

    def fields(self, t):
        return [(v[0], n, ft) for v in self.T[t].get('vars', []) for n, ft in v[1]]

    def mentions(self, t, pred, seen=None):
        """Does the type contain (through arguments, fields of local types, references) one satisfying pred?"""
        seen = seen if seen is not None else set()
        if t in seen:
            return False
        seen.add(t)
        x = self.T[t]
        if pred(t, x):
            return True
        sub = list(x.get('args', []))
        if x.get('k') in ('ref', 'ptr', 'slice', 'array'):
            sub.append(x['e'])
        if x.get('k') == 'tuple':
            sub += x.get('e', x.get('es', x.get('args', []))) if isinstance(x.get('e', x.get('es', [])), list) else []
        if x.get('local'):
            sub += [ft for _, _, ft in self.fields(t)]
        if x.get('k') == 'closure':
            sub += x.get('ups', [])
        return any(self.mentions(s, pred, seen) for s in sub if type(s) is int)


def inner_types(C):
    """{handle type index: (handle name, index of the Arc field, shared content type index or None)}"""
    T = C.P.T
    r = {}
    for h in HANDLES:
        t = C.ty(h)
        if t is None:
            continue
        for i, (n, ft) in enumerate(T[t]['vars'][0][1]):
            x = T[ft]
            if x.get('k') == 'adt' and x.get('args') and T[x['args'][0]].get('local'):
                r[t] = (h, i, x['args'][0], ft)
    return r


# C13 ------------------------------------------------------------------------------------------------
CONT = re.compile(r'^(std|alloc|core)::(vec::Vec|string::String|boxed::Box|sync::Arc|option::Option|result::Result|'
                  r'collections::.*|sync::atomic::.*|sync::Mutex|sync::(poison::)?(mutex::)?(Mutex|RwLock|OnceLock|LazyLock)|'
                  r'sync::.*(Mutex|RwLock|OnceLock|LazyLock)|marker::PhantomData|alloc::Global|cmp::Reverse|num::.*|ops::Range.*|path::PathBuf|ffi::OsString|borrow::Cow)$')
NOTSYNC = re.compile(r'(^|::)(rc::Rc|rc::Weak|cell::(Cell|RefCell|UnsafeCell|OnceCell|LazyCell|once::OnceCell|lazy::LazyCell)|'
                     r'MutexGuard|RwLockReadGuard|RwLockWriteGuard|ptr::NonNull|ptr::non_null::NonNull|sync::mpsc::Receiver|cell::Ref|cell::RefMut)$')
INTERIOR = re.compile(r'(^|::)(Cell|RefCell|UnsafeCell|Mutex|RwLock|OnceLock|OnceCell|LazyLock|LazyCell|Atomic\w*)$')


def rule_C13(C, R):
    R.rule = ('every component type of Obj, Arr, Tup and Value is walked: contents private and reachable only through one '
              'shared Arc, no interior mutability over contents, no component that is not Send and Sync; no function mutates '
              'through the Arc, hands out a mutable reference or writes through a mutable handle; Clone returns the same Arc')
    guard(R, 'component types', c13_types, C, R)
    guard(R, 'mutation of shared contents', c13_mutation, C, R)
    guard(R, 'Clone shares', c13_clone, C, R)


def c13_types(C, R):
    T = C.P.T
    TY = Types(C)
    inn = inner_types(C)
    for h in HANDLES:
        t = C.ty(h)
        if t is None:
            R.unknown('type ' + h, 'not found')
            continue
        if t not in inn:
            R.unknown('contents of ' + h, 'no shared content type found')
            continue
        _, i, it, arc = inn[t]
        an = T[arc]['adt']
        if an.endswith('rc::Rc'):
            R.violation('C13:%s:rc' % h, '%s shares its contents through Rc, which is neither Send nor Sync' % h, [h])
        elif an.endswith('sync::Arc'):
            R.ok('%s holds its contents in an Arc' % h)
        else:
            R.unknown('contents of ' + h, 'held in %s' % an)
        for nm in (h, T[it]['adt']):
            a = [x for x in C.P.F['adts'] if x['t'] == (t if nm == h else it)]
            for x in a:
                pub = [f for f in x['fields'] if f[3] or (f[2] and x['public'])]
                if pub and x['public']:
                    R.violation('C13:%s:pubfield' % h, 'field %s of %s is public: the contents of an instance can be replaced' % (pub[0][1], x['name']), ['%s:%s' % tuple(x['span'][:2])])
                else:
                    R.ok('fields of %s are private' % x['name'])
    seen = set()

    def walk(t, path, inside):
        if t in seen:
            return
        seen.add(t)
        x = T[t]
        k = x.get('k')
        if k in ('ptr',):
            R.violation('C13:sync:%s' % x['n'], 'component %s is a raw pointer: %s is not Send/Sync' % (x['n'], path[0]), path)
            return
        if k == 'ref':
            if x.get('mut'):
                R.violation('C13:mutref:%s' % x['n'], 'component %s is a mutable reference' % x['n'], path)
            walk(x['e'], path + [x['n']], inside)
            return
        if k in ('slice', 'array'):
            walk(x['e'], path + [x['n']], inside)
            return
        if k == 'dyn':
            if 'Send' not in x['n'] or 'Sync' not in x['n']:
                R.violation('C13:sync:%s' % x['n'], 'component %s is not known to be Send and Sync' % x['n'], path)
            return
        if k == 'adt':
            n = x['adt']
            if NOTSYNC.search(n):
                R.violation('C13:sync:%s' % n, 'component %s makes %s neither sendable nor shareable between threads' % (x['n'], path[0]), path + [x['n']])
                return
            if INTERIOR.search(n) and any(T[p].get('local') for p in inside):
                content = TY.mentions(t, lambda i, y: y.get('adt', '').rsplit('::', 1)[-1] in ('Value', 'Pair', 'Obj', 'Arr', 'Tup', 'Type', 'Vec', 'String', 'BigInt', 'Ratio'))
                if content and not re.search(r'(OnceLock|LazyLock)$', n):
                    R.violation('C13:interior:%s' % x['n'], 'contents are held in %s, which can change after construction' % x['n'], path + [x['n']])
                else:
                    R.unknown('component ' + x['n'], 'interior mutability')
            if x.get('local'):
                R.ok('component %s' % x['n'])
                for v, fn, ft in TY.fields(t):
                    walk(ft, path + ['%s.%s' % (x['n'], fn)], inside + [t])
            elif n.startswith(('std::', 'alloc::', 'core::')):
                if CONT.match(n):
                    R.ok('component %s' % x['n'])
                else:
                    R.unknown('component ' + x['n'], 'not a known thread-safe container')
                for a in x.get('args', []):
                    walk(a, path + [x['n']], inside)
            else:
                R.ok('component %s' % x['n'])
                for v, fn, ft in TY.fields(t):
                    walk(ft, path + ['%s.%s' % (x['n'], fn)], inside)
            return
        if k == 'tuple':
            for y in x.get('es', x.get('args', [])) or []:
                walk(y, path, inside)
            return
        if k in ('fnptr', 'fndef', 'bool', 'char', 'int', 'uint', 'float', 'str', 'never'):
            return
        if k == 'other':
            R.unknown('component ' + x['n'], 'type not understood')

    for n in HANDLES + ('Value',):
        t = C.ty(n)
        if t is not None:
            walk(t, [n], [])
    for i in C.P.F['impls']:
        tr = i[0]
        if tr.endswith(('marker::Send', 'marker::Sync')) and i[1].rsplit('::', 1)[-1] in HANDLES + ('Value',):
            R.notes.append('explicit impl: %s' % i[2])


MUTARC = re.compile(r'::(Arc|Rc)::(get_mut|make_mut|get_mut_unchecked|as_ptr|into_raw|from_raw|unwrap_or_clone)$')
MUTTRAIT = ('DerefMut', 'IndexMut', 'BorrowMut', 'AsMut')


def c13_mutation(C, R):
    T = C.P.T
    inn = inner_types(C)
    its = {v[2] for v in inn.values()}
    arcs = {v[3] for v in inn.values()}
    exported = {i['inst']: i for i in C.P.items if i.get('inst') is not None}
    n = 0
    for f in C.P.locals:
        if not f.dumped:
            continue
        R.fns.add(f.name)
        for bi, t, span in calls(f):
            n += 1
            d = base_name(t[1].get('def'))
            if MUTARC.search(d) and any(x in its for x in t[1].get('targs', [])):
                m = d.rsplit('::', 1)[1]
                if m in ('as_ptr', 'into_raw', 'from_raw', 'unwrap_or_clone'):
                    if m != 'as_ptr':
                        R.unknown(loc(f, span), '%s on shared contents' % m)
                    continue
                fresh = any(base_name(u[1].get('def')).endswith('Arc::new') for _, u, _ in calls(f))
                if fresh:
                    R.unknown(loc(f, span), 'Arc::%s in a function that also creates an instance' % m)
                else:
                    R.violation('C13:%s:%s' % (f.name, m), 'Arc::%s gives mutable access to the contents of an existing instance' % m, [loc(f, span)])
        # writes through a pointer to shared contents
        for bi, b in enumerate(f.blocks):
            for s in b[0]:
                if s[0] != '=':
                    continue
                pl = s[1]
                if any(e[0] == '*' for e in pl[1]):
                    lt = T[f.locals[pl[0]]]
                    if lt.get('k') in ('ref', 'ptr') and lt.get('e') in its and (lt.get('k') == 'ptr' or lt.get('mut')):
                        n += 1
                        if derived_clone(f):
                            continue
                        R.violation('C13:%s:write' % f.name, 'writes through a mutable pointer to the contents of an instance', [loc(f, s[3] if len(s) > 3 else f.span)])
                if s[2][0] == 'cast' and s[2][1] == 'PtrToPtr':
                    ct = T[s[2][3]] if len(s[2]) > 3 and type(s[2][3]) is int else {}
                    if ct.get('k') == 'ptr' and ct.get('mut') and ct.get('e') in its:
                        R.violation('C13:%s:cast' % f.name, 'casts to a mutable pointer to the contents of an instance', [loc(f, f.span)])
        # mutable handles
        tr = f.canon[1] if f.canon[0] == 'T' else None
        ret = T[f.locals[0]]
        hs = [i for i in range(f.argc) if T[f.locals[i + 1]].get('k') == 'ref' and T[f.locals[i + 1]].get('mut') and T[f.locals[i + 1]]['e'] in inn]
        public = f.id in exported and (exported[f.id]['exported'] or tr)
        if not public:
            continue
        if '{' not in f.name and returns_mut(C, f, inn, its):
            R.violation('C13:%s:retmut' % f.name, 'a public function hands out mutable access to an instance', [loc(f, f.span)])
        if hs and tr not in ('Clone', 'Drop'):
            w = writes_through(f, hs)
            if w:
                R.violation('C13:%s:mutself' % f.name, 'a public function changes the instance behind a mutable handle', [loc(f, w)])
        if tr in MUTTRAIT and C.ty(f.canon[3].rsplit('::', 1)[-1]) in inn:
            R.violation('C13:%s:trait' % f.name, '%s gives mutable access to an instance' % tr, [loc(f, f.span)])
        R.ok('%s does not mutate' % f.name)
    R.sites += n


def derived_clone(f):
    return f.canon[0] == 'T' and f.canon[1] == 'Clone'


def returns_mut(C, f, inn, its):
    T = C.P.T
    ts = {C.strip(x) for x in f.locals[1:1 + f.argc]}
    if not ts & (set(inn) | its):
        return False
    TY = Types(C)
    return TY.mentions(f.locals[0], lambda i, x: (x.get('k') == 'ref' and x.get('mut')) or (
        x.get('k') == 'adt' and re.search(r'(RefMut|MutexGuard|RwLockWriteGuard|IterMut)$', x.get('adt', '')) is not None))


def writes_through(f, hs):
    """Does the function write through (or pass on mutably) one of its mutable handle arguments?"""
    al = {h + 1 for h in hs}
    ch = True
    while ch:
        ch = False
        for b in f.blocks:
            for s in b[0]:
                if s[0] == '=' and not s[1][1] and s[1][0] not in al:
                    r = s[2]
                    if r[0] == 'use' and r[1][0] in ('c', 'm') and r[1][1][0] in al and not r[1][1][1]:
                        al.add(s[1][0])
                        ch = True
                    elif r[0] == 'ref' and r[1] and r[2][0] in al:
                        al.add(s[1][0])
                        ch = True
    for b in f.blocks:
        for s in b[0]:
            if s[0] == '=' and s[1][0] in al and any(e[0] == '*' for e in s[1][1]):
                return s[3] if len(s) > 3 else f.span
        t = b[1]
        if t[0] == 'call':
            for o in t[3]:
                if o[0] in ('c', 'm') and o[1][0] in al and not o[1][1]:
                    return b[2] if len(b) > 2 else f.span
    return None


def c13_clone(C, R):
    for h in HANDLES:
        f = C.tr(h, 'Clone', 'clone')
        if f is None:
            R.unknown('Clone of ' + h, 'not found')
            continue
        r = C.run(f)
        R.covered(r)
        for s, v in r.exits:
            a = r.args[0]
            while a.op in ('pref', 'ref'):
                a = r.E.load_ref(s, a) if a.op == 'ref' else a.args[0]
            fa, fv = Fld(a, -1, 0), Fld(v, -1, 0)
            k = cmp(r.E, s, fv, fa)
            if v.op == 'adt' and v.args[2].op == 'app' and v.args[2].args[0] == 'arc' and v.args[2] is not fa:
                k = 'ne'
            R.result(k, 'C13:%s:clone' % h, 'cloning %s %s shares the instance: %s' % ('an' if h != 'Tup' else 'a', h, str(v)[:100]), [f.name])


# C14 ------------------------------------------------------------------------------------------------
def defs_of(f):
    d = getattr(f, '_defs', None)
    if d is None:
        d = {}
        for bi, b in enumerate(f.blocks):
            for s in b[0]:
                if s[0] == '=':
                    d.setdefault(s[1][0], []).append(('s', bi, s))
            t = b[1]
            if t[0] == 'call':
                d.setdefault(t[4][0], []).append(('c', bi, t))
        f._defs = d
    return d


def origins(f, op, seen=None):
    """Where the value of an operand comes from: a set of ('call', block) | ('arg', i) | ('const', c) | ('place', text) | ('other', text)."""
    seen = seen if seen is not None else set()
    if op[0] == 'k':
        return {('const', str(op[1]))}
    l, proj = op[1]
    proj = [e for e in proj]
    key = (l, str(proj))
    if key in seen:
        return set()
    seen.add(key)
    out = set()
    ds = defs_of(f).get(l, [])
    if proj:
        if l <= f.argc and l > 0:
            return {('place', 'arg%d%s' % (l - 1, proj))}
        if len(proj) == 1 and proj[0][0] == 'f':
            i = proj[0][1]
            ok = True
            for k, bi, s in ds:
                if k == 's' and not s[1][1] and s[2][0] == 'agg' and i < len(s[2][2]):
                    out |= origins(f, s[2][2][i], seen)
                elif k == 's' and not s[1][1] and s[2][0] == 'cbin' and i == 0:
                    out |= binop(f, s[2], seen)
                elif k == 's' and not s[1][1] and s[2][0] == 'use':
                    o = s[2][1]
                    if o[0] == 'k':
                        ok = False
                    else:
                        out |= origins(f, [o[0], [o[1][0], list(o[1][1]) + proj]], seen)
                elif k == 's' and s[1][1] == proj and s[2][0] == 'use':
                    out |= origins(f, s[2][1], seen)
                else:
                    ok = False
            if ok and out:
                return out
        for k, bi, s in ds:
            if k == 's' and not s[1][1] and s[2][0] in ('ref', 'use') and proj[0][0] == '*':
                src = s[2][2] if s[2][0] == 'ref' else (s[2][1][1] if s[2][1][0] in ('c', 'm') else None)
                if src is None:
                    return {('const', str(s[2][1][1]))}
                if s[2][0] == 'ref':
                    out |= origins(f, ['c', [src[0], list(src[1]) + proj[1:]]], seen)
                else:
                    out |= origins(f, ['c', [src[0], list(src[1]) + proj]], seen)
            else:
                out.add(('place', '%s%s' % (l, proj)))
        return out or {('place', '%s%s' % (l, proj))}
    if 0 < l <= f.argc:
        out.add(('arg', l - 1))
    for k, bi, s in ds:
        if k == 'c':
            out.add(('call', bi))
        elif s[1][1]:
            out.add(('other', 'partial assignment'))
        else:
            r = s[2]
            if r[0] == 'use':
                out |= origins(f, r[1], seen)
            elif r[0] == 'cast' and r[1] in ('IntToInt', 'PtrToPtr'):
                out |= origins(f, r[2], seen)
            elif r[0] in ('bin', 'cbin'):
                out |= binop(f, r, seen)
            else:
                out.add(('other', r[0]))
    return out


def binop(f, r, seen):
    if r[1].startswith(('Add', 'Sub', 'BitXor')):
        for a, b in ((r[2], r[3]), (r[3], r[2])):
            if b[0] == 'k':
                return origins(f, a, seen)
    return {('other', 'arithmetic ' + r[1])}


RMW = re.compile(r'::Atomic(::|\w*::)(fetch_add|fetch_sub)$')
ATOMIC_OTHER = re.compile(r'::Atomic(::|\w*::)(load|store|swap|fetch_\w+|compare_\w+|get_mut|into_inner)$')


class Ids:
    def __init__(self, C, R):
        self.C, self.R, self.T = C, R, C.P.T
        self.memo = {}
        self.statics = set()
        self.callers = {}
        for f in C.P.fns.values():
            if f.dumped:
                for bi, t, sp in calls(f):
                    i = t[1].get('inst')
                    if i is not None:
                        self.callers.setdefault(i, []).append((f, bi, t, sp))

    def source(self, f, bi):
        """Classify the call in this block as a source of identifiers: ('ok'|'bad'|'unk', why)."""
        t = f.blocks[bi][1]
        d = base_name(t[1].get('def'))
        if RMW.search(d):
            step = t[3][1] if len(t[3]) > 1 else None
            if step is None or step[0] != 'k':
                return 'unk', 'the step of the counter is not constant'
            if str(step[1]) in ("['int', 0]",):
                return 'bad', 'the counter is not advanced (step 0)'
            return self.receiver(f, t)
        if ATOMIC_OTHER.search(d):
            m = d.rsplit('::', 1)[1]
            others = [base_name(u[1].get('def')).rsplit('::', 1)[1] for _, u, _ in calls(f) if ATOMIC_OTHER.search(base_name(u[1].get('def')))]
            if any(o.startswith('compare_exchange') or o == 'fetch_update' for o in others):
                return 'unk', 'compare-and-exchange loop'
            return 'bad', 'taken from the counter with %s, so two threads can get the same' % m
        g = self.C.P.fns.get(t[1].get('inst'))
        if g is not None and g.dumped and g.local:
            return self.fn_source(g)
        if re.search(r'LocalKey::(with|get|take|replace|set)$', d):
            return 'bad', 'taken from a thread-local counter, so instances of different threads share it'
        if re.search(r'::Cell::(get|replace|take)$', d):
            return 'unk', 'taken from a Cell'
        if re.search(r'(Clone::clone|ToOwned::to_owned|Copy)$', d):
            return 'bad', 'copied from another identifier'
        if re.search(r'::(as_ptr|addr|expose_provenance|len|strong_count|hash|finish)$', d):
            return 'bad', 'computed by %s, which is not unique over the life of the process' % d
        return 'unk', 'computed by ' + d

    def receiver(self, f, t):
        """The counter must be one process-wide static."""
        st = set()
        bad = []
        seen = set()

        def walk(g, op, depth):
            if depth > 12:
                return
            if op[0] == 'k':
                if op[1][0] == 'static':
                    st.add(op[1][1])
                elif self.T[op[2]].get('k') == 'fndef':
                    pass
                return
            l = op[1][0]
            if (g.id, l) in seen:
                return
            seen.add((g.id, l))
            if 0 < l <= g.argc and not defs_of(g).get(l):
                if '{closure' in g.name:
                    bad.append('closure')
                else:
                    for h, bi, u, sp in self.callers.get(g.id, []):
                        if l - 1 < len(u[3]):
                            walk(h, u[3][l - 1], depth + 1)
                return
            for k, bi, s in defs_of(g).get(l, []):
                if k == 's':
                    r = s[2]
                    if r[0] in ('use',):
                        walk(g, r[1], depth + 1)
                    elif r[0] in ('ref', 'addr'):
                        walk(g, ['c', r[2]], depth + 1)
                    elif r[0] == 'cast':
                        walk(g, r[2], depth + 1)
                else:
                    d = base_name(s[1].get('def'))
                    if 'LocalKey' in d:
                        bad.append('thread-local')
                    for o in s[3]:
                        walk(g, o, depth + 1)
                    if re.search(r'Atomic(::|\w*::)new$', d):
                        bad.append('fresh counter')

        walk(f, t[3][0], 0)
        if 'thread-local' in bad:
            return 'bad', 'the counter is thread-local, so instances of different threads share identifiers'
        if 'fresh counter' in bad:
            return 'bad', 'the counter is created anew'
        if 'closure' in bad and not st:
            cl = any('LocalKey' in base_name(u[1].get('def')) for h in self.C.P.locals for _, u, _ in calls(h)
                     if h.name == f.name.split('::{closure')[0])
            return ('bad', 'the counter is thread-local, so instances of different threads share identifiers') if cl else ('unk', 'counter passed to a closure')
        if not st:
            return 'unk', 'counter not found'
        self.statics |= st
        # width
        return 'ok', ''

    def fn_source(self, g):
        if g.id in self.memo:
            return self.memo[g.id]
        self.memo[g.id] = ('unk', 'recursive')
        self.R.fns.add(g.name)
        rs = [self.classify(g, o, None) for o in sorted(origins(g, ['c', [0, []]]))]
        res = pick(rs)
        if not g.locals or not rs:
            res = ('unk', 'nothing returned')
        # unreached updates
        self.memo[g.id] = res
        return res

    def classify(self, f, o, site):
        if o[0] == 'call':
            return self.source(f, o[1])
        if o[0] == 'const':
            return 'bad', 'the constant %s' % o[1]
        if o[0] == 'place':
            if 'arg' in o[1] and '{closure' in f.name:
                return 'unk', 'captured by a closure'
            if any(re.search(r'::(lock|write|borrow_mut|get_mut|with)$', base_name(u[1].get('def'))) for _, u, _ in calls(f)):
                return 'unk', 'read from a guarded variable'
            return 'bad', 'copied from %s, an existing identifier or variable' % o[1] if 'arg' in o[1] else 'a stored variable'
        if o[0] == 'arg':
            if '{closure' in f.name:
                return 'unk', 'argument of a closure'
            cs = self.callers.get(f.id, [])
            ex = [i for i in self.C.P.items if i.get('inst') == f.id and i['exported']]
            if ex:
                return 'bad', 'chosen by the caller of a public function'
            if not cs:
                return 'unk', 'no caller'
            rs = []
            for g, bi, t, sp in cs:
                if o[1] >= len(t[3]):
                    rs.append(('unk', 'argument not found'))
                    continue
                for p in sorted(origins(g, t[3][o[1]])):
                    rs.append(self.classify(g, p, (bi, sp)))
                    if p[0] == 'call' and not same_loop(g, p[1], bi):
                        rs.append(('bad', 'taken once before a loop that creates several instances (%s)' % loc(g, sp)))
            return pick(rs)
        return 'unk', o[1]


def pick(rs):
    for k in ('bad', 'unk', 'ok'):
        for r in rs:
            if r[0] == k:
                return r
    return 'unk', 'no origin'


def same_loop(f, a, b):
    cf = f.cfg()
    la, lb = cf.inner.get(a), cf.inner.get(b)
    return la is lb or (la is not None and lb is not None and la.head == lb.head)


def id_fields(C):
    """For each shared content type the field its handle's id() returns."""
    r = {}
    inn = inner_types(C)
    for t, (h, i, it, _) in inn.items():
        f = C.tr(h, 'ReferenceType', 'id') or C.fn(h + '::id')
        if f is None:
            continue
        run = C.run(f)
        got = set()
        for s, v in run.exits:
            x = v
            if x.op == 'fld':
                got.add(x.args[2])
            else:
                got.add(None)
        if len(got) == 1 and None not in got:
            r[it] = (got.pop(), f, h)
        else:
            r[it] = (None, f, h)
    return r


def rule_C14(C, R):
    R.rule = ('the identifier of every construction of shared contents (aggregate in MIR) is traced backwards, through moves and '
              'calls; each origin must be an atomic read-modify-write with a non-zero constant step on one process-wide '
              'static, evaluated once per construction; the identifier is never assigned afterwards')
    guard(R, 'identifiers', c14, C, R)


def c14(C, R):
    T = C.P.T
    idf = id_fields(C)
    ids = Ids(C, R)
    inn = inner_types(C)
    for t, (h, i, it, _) in inn.items():
        if it not in idf or idf[it][0] is None:
            fu = [n for n, (fn, ft) in enumerate(T[it]['vars'][0][1]) if fn == 'id' or T[ft]['n'] in ('usize', 'u64', 'u128')]
            if it in idf and len(fu) == 1:
                R.violation('C14:%s:getter' % h, 'id() of %s does not return the stored identifier' % h, [idf[it][1].name])
                idf[it] = (fu[0], idf[it][1], h)
            else:
                R.unknown('id of ' + h, 'getter or field not identified')
                idf.pop(it, None)
        else:
            R.ok('id() of %s returns field %d' % (h, idf[it][0]))
    used = {}
    n = 0
    for f in C.P.fns.values():
        if not f.dumped:
            continue
        for bi, b in enumerate(f.blocks):
            for s in b[0]:
                if s[0] != '=':
                    continue
                # assignment to the identifier of an existing instance
                if s[1][1] and f.local:
                    lt = f.locals[s[1][0]]
                    st = lt
                    pr = list(s[1][1])
                    while pr and pr[0][0] == '*':
                        st = T[st].get('e', st)
                        pr = pr[1:]
                    if st in idf and pr and pr[0][0] == 'f' and pr[0][1] == idf[st][0]:
                        R.violation('C14:%s:assign' % f.name, 'the identifier of an instance is overwritten', [loc(f, s[3] if len(s) > 3 else f.span)])
                r = s[2]
                if r[0] == 'agg' and r[1][0] == 'adt' and r[1][1] in idf:
                    it = r[1][1]
                    n += 1
                    R.fns.add(f.name)
                    k, _, h = idf[it]
                    sp = s[3] if len(s) > 3 else f.span
                    if derived_clone(f):
                        cs = ids.callers.get(f.id, [])
                        gen = [(g, sp2) for g in C.P.locals for _, t2, sp2 in calls(g)
                               if it in t2[1].get('targs', []) and re.search(r'::(make_mut|unwrap_or_clone|to_owned|cloned|clone_from|clone_into|to_vec)$', base_name(t2[1].get('def')))]
                        for g, sp2 in [(c[0], c[3]) for c in cs] + gen:
                            R.violation('C14:%s:clone' % g.name, 'copies the contents of a %s together with its identifier' % h, [loc(g, sp2)])
                        if not cs and not gen:
                            R.ok('Clone of %s is never used' % T[it]['n'])
                        continue
                    for o in sorted(origins(f, r[2][k])):
                        res, why = ids.classify(f, o, (bi, sp))
                        if res == 'ok' and o[0] == 'call':
                            if not same_loop(f, o[1], bi):
                                res, why = 'bad', 'taken once before a loop that creates several instances'
                            elif (f.id, o[1]) in used and used[(f.id, o[1])] != bi and reaches(f, used[(f.id, o[1])], bi):
                                res, why = 'bad', 'used for two instances'
                            used[(f.id, o[1])] = bi
                        R.result({'ok': 'eq', 'bad': 'ne', 'unk': 'unk'}[res], 'C14:%s:%s' % (f.name, h),
                                 'the identifier of the %s created here is fresh%s' % (h, '' if res == 'ok' else ': ' + why), [loc(f, sp)], why)
    if len(ids.statics) > 1:
        R.violation('C14:counters', 'identifiers are taken from several counters: %s' % sorted(ids.statics), [])
    elif ids.statics:
        R.ok('one counter: %s' % sorted(ids.statics)[0])
    # nothing else touches the counter
    for f in C.P.locals:
        for bi, t, sp in calls(f):
            d = base_name(t[1].get('def'))
            if ATOMIC_OTHER.search(d) and not RMW.search(d):
                ids2 = Ids.__new__(Ids)
                ids2.__dict__.update(ids.__dict__)
                ids2.statics = set()
                ids2.receiver(f, t)
                m = d.rsplit('::', 1)[1]
                if ids2.statics & ids.statics and m not in ('load',):
                    if m.startswith('compare') or m == 'fetch_update':
                        R.unknown(loc(f, sp), '%s on the counter' % m)
                    else:
                        R.violation('C14:%s:%s' % (f.name, m), 'the counter is changed by %s' % m, [loc(f, sp)])
    for t, (h, i, it, _) in inn.items():
        if it in idf:
            ft = T[it]['vars'][0][1][idf[it][0]][1]
            w = {'u8': 8, 'u16': 16, 'i8': 8, 'i16': 16}.get(T[ft]['n'])
            if w:
                R.violation('C14:%s:width' % h, 'identifiers of %d bits repeat' % w, [h])
            else:
                R.ok('identifiers of %s are %s' % (h, T[ft]['n']))
    if not n:
        R.unknown('constructions', 'none found')
    R.sites += n


def reaches(f, a, b):
    cf = f.cfg()
    seen, st = set(), [a]
    while st:
        x = st.pop()
        for y in cf.succ[x]:
            if y == b:
                return True
            if y not in seen:
                seen.add(y)
                st.append(y)
    return a == b


# C23 ------------------------------------------------------------------------------------------------
READ = re.compile(r'^std::fs::(read|read_to_string|read_link|read_dir|metadata|symlink_metadata|canonicalize|exists)$|'
                  r'^std::fs::File::(open|metadata|try_clone|lock_shared|try_lock_shared|unlock)$|^std::fs::(Metadata|FileType|DirEntry|ReadDir)::|'
                  r'^std::io::(Read|BufRead|Seek)::|^std::io::(BufReader|Take|Lines|Cursor)|^std::io::read_to_string$|'
                  r'^std::path::Path(Buf)?::(canonicalize|is_file|is_dir|exists|try_exists|metadata|symlink_metadata|read_link|read_dir|is_symlink)$')
WRITE = re.compile(r'^std::fs::(write|copy|rename|remove_\w+|create_dir\w*|hard_link|soft_link|set_permissions)$|'
                   r'^std::fs::File::(create|create_new|options|set_len|set_permissions|set_times|set_modified|sync_all|sync_data|lock|try_lock)$|'
                   r'^std::fs::(OpenOptions|DirBuilder)::|^std::io::Write::|^std::io::(BufWriter|LineWriter|copy)|^std::os::unix::fs::')
WRITE_ROOTS = re.compile(r'^std::fs::(write|copy|rename|remove_\w+|create_dir\w*|hard_link|soft_link|set_permissions)$|'
                         r'^std::fs::File::(create|create_new|options|set_len|set_permissions|set_times|set_modified)$|'
                         r'^std::fs::(OpenOptions::(new|open|write|create|append|truncate)|DirBuilder::)|^std::os::unix::fs::')
FORBID = re.compile(r'^std::(process|net|env)::|^std::io::(stdin|stdout|stderr|_print|_eprint|stdio)|^std::(io::stdio)::|'
                    r'^std::os::(fd|unix|linux|raw)::|^libc::|^std::thread::(spawn|Builder|scope|sleep)|^std::arch::|^std::panic::set_hook')
FORBID2 = re.compile(r'^std::io::(Stdin|Stdout|Stderr|StdoutLock|StdinLock|StderrLock)')
PURE = re.compile(r'^(core|alloc)::|^std::(fmt|vec|string|str|char|iter|option|result|cell|rc|sync|boxed|collections|convert|clone|cmp|ops|hash|'
                  r'hint|mem|slice|default|borrow|path|rt|panicking|any|num|array|marker|ascii|ptr|thread::LocalKey|thread::local|'
                  r'primitive|intrinsics|error|io::Error|io::ErrorKind|io::error|alloc|time|ffi|range|pin|tuple|ub_checks|u\d+|i\d+|f\d+|usize|bool)\b|'
                  r'^over::(num_\w+|lazy_static|num)\b|^(num_\w+|lazy_static)::|^<')
MKPANIC = re.compile(r'panick|begin_panic|panic_fmt|unwrap_failed|assert_failed')


def classify_ext(d):
    d = base_name(d)
    if FORBID.search(d) or FORBID2.search(d):
        return 'forbidden'
    if READ.search(d):
        return 'read'
    if WRITE.search(d):
        return 'write'
    if PURE.search(d):
        return 'pure'
    return 'unknown'


class Reach:
    """Effects reachable from each function."""

    def __init__(self, C):
        self.C = C
        P = C.P
        self.g = pm.callgraph(P)
        self.direct = {}
        for f in P.fns.values():
            if not f.dumped:
                continue
            es = []
            for bi, t, sp in calls(f):
                i = t[1].get('inst')
                g = P.fns.get(i) if i is not None else None
                if g is not None and g.dumped:
                    continue
                k = classify_ext(t[1].get('def') or '')
                if k != 'pure':
                    es.append((k, base_name(t[1].get('def') or '?'), sp, f))
            for b in f.blocks:
                for o in pm.operands(b):
                    if o[0] == 'k' and P.T[o[2]].get('k') == 'fndef':
                        d = P.T[o[2]]['def']
                        i = P.T[o[2]].get('inst')
                        g = P.fns.get(i) if i is not None else None
                        if (g is None or not g.dumped) and o is not b[1][2 if b[1][0] == 'call' else 0]:
                            k = classify_ext(d)
                            if k != 'pure':
                                es.append((k, base_name(d), b[2] if len(b) > 2 else f.span, f))
            u = []
            for e in es:
                if e not in u:
                    u.append(e)
            self.direct[f.id] = u
        self._memo = {}

    def reach(self, fid):
        seen = {}
        st = [(fid, None)]
        while st:
            x, p = st.pop()
            if x in seen:
                continue
            seen[x] = p
            for y in self.g.get(x, ()):
                if y not in seen:
                    st.append((y, x))
        return seen

    def effects(self, fid):
        if fid not in self._memo:
            seen = self.reach(fid)
            out = []
            for x in seen:
                for e in self.direct.get(x, ()):
                    path = []
                    y = x
                    while y is not None:
                        path.append(self.C.P.fns[y].name)
                        y = seen[y]
                    out.append((e, path[::-1]))
            self._memo[fid] = out
        return self._memo[fid]


def public_fns(C):
    for it in C.P.items:
        f = C.P.fns.get(it.get('inst'))
        if f is None or not f.dumped or it['kind'] not in ('fn', None) and it['kind'] != 'fn':
            continue
        if it['exported'] or (f.canon[0] == 'T'):
            yield it, f


def path_arg(C, f):
    return [i for i in range(f.argc) if C.P.T[C.strip(f.locals[i + 1])].get('k') == 'str' or C.P.T[C.strip(f.locals[i + 1])].get('n') in ('std::path::Path', 'std::path::PathBuf', 'std::string::String')]


def loaders(C):
    """Public functions that produce a value from a path or text through the parser."""
    M = C.light_parser()
    sf = {f.id for f in C.stream_fns()}
    g = pm.callgraph(C.P)
    R = Reach(C)
    out = []
    for it, f in public_fns(C):
        if '{' in f.name:
            continue
        if any(x in sf for x in R.reach(f.id)):
            out.append(f)
    return out


def rule_C23(C, R):
    R.rule = ('every external function reachable in the call graph from every public function is classified (pure, reads the '
              'file system, writes it, forbidden); reading is reachable only from the loading functions, writing only from '
              'the one function that writes to a path, nothing forbidden from anywhere; the paths given to the operating '
              'system are the argument, or derived from the include text')
    guard(R, 'effects', c23, C, R)
    guard(R, 'paths written', c23_paths, C, R)


def c23(C, R):
    Q = Reach(C)
    ld = {f.id for f in loaders(C)}
    nex = 0
    for it, f in public_fns(C):
        R.fns.add(f.name)
        es = Q.effects(f.id)
        nex += len(es)
        bad = False
        writes = writer(C, f)
        for (k, d, sp, g), path in es:
            if not g.local and k == 'unknown':
                continue
            where = [loc(g, sp), 'reached: ' + ' -> '.join(path[:6])]
            key = 'C23:%s:%s' % (f.name, d)
            if k == 'forbidden':
                R.violation(key, '%s reaches %s' % (f.name, d), where)
                bad = True
            elif k == 'write' and not writes:
                if WRITE_ROOTS.search(d):
                    R.violation(key, '%s reaches %s, but only writing to a given path may change the file system' % (f.name, d), where)
                    bad = True
                elif f.id in ld or not g.local:
                    pass
                else:
                    R.unknown('%s reaches %s' % (f.name, d), 'writer of unknown kind')
            elif k == 'read' and f.id not in ld:
                if writes:
                    R.unknown('%s reaches %s' % (f.name, d), 'reading while writing')
                else:
                    R.violation(key, '%s reaches %s, but only loading may read files' % (f.name, d), where)
                    bad = True
            elif k == 'unknown' and g.local:
                R.unknown('%s calls %s' % (g.name, d), 'effects of this external function are not known')
        if not bad:
            R.ok('%s: %d effects' % (f.name, len(es)))
    R.sites += nex


def writer(C, f):
    """write_to_file: a public function of a handle taking a path and returning a Result without content."""
    ret = C.P.T[f.locals[0]]
    if not (ret.get('adt', '').endswith('result::Result') and ret.get('args') and C.P.T[ret['args'][0]].get('n') == '()'):
        return False
    ts = [C.strip(t) for t in f.locals[1:1 + f.argc]]
    return f.canon[0] == 'I' and f.argc == 2 and ts[0] in (C.ty('Obj'), C.ty('Arr'), C.ty('Tup'), C.ty('Value')) and bool(path_arg(C, f)) and 'write' in f.method


def io_path(ev):
    return ev['args'][0] if ev['args'] else None


def peel(E, s, t):
    for _ in range(8):
        if t.op == 'pref':
            t = t.args[0]
        elif t.op == 'ref':
            t = E.load_ref(s, t)
        elif t.op == 'app' and t.args[0] in ('path', 'Path', 'pathof', 'osstr', 'str', 'tostr'):
            t = t.args[1]
        else:
            break
    return t


def c23_paths(C, R):
    ws = [f for it, f in public_fns(C) if writer(C, f)]
    if not ws:
        R.unknown('function that writes to a path', 'not found')
    for f in ws:
        r = C.run(f, mode='fmt')
        R.covered(r)
        ios = [e for k, e in r.events if k == 'io' and not e['op'].startswith(('write', 'flush', 'sync'))]
        for e in ios:
            a = peel(r.E, e['st'], e['args'][0])
            want = peel(r.E, e['st'], r.args[1])
            k = 'eq' if a is want else ('unk' if tainted(a) else 'ne')
            R.result(k, 'C23:%s:path' % f.name, '%s touches exactly the given path (%s of %s)' % (f.name, e['op'], str(a)[:80]), [loc(f, e['span'])])
        if not ios:
            R.unknown(f.name, 'no file operation seen')


# C25 ------------------------------------------------------------------------------------------------
HASHTY = re.compile(r'(^|::)(HashMap|HashSet|hash_map::\w+|hash_set::\w+)$')
HASHITER = re.compile(r'::(HashMap|HashSet)::(iter|iter_mut|keys|values|values_mut|into_iter|into_keys|into_values|drain|retain|extract_if|union|intersection|difference|symmetric_difference)$')
NONDET = re.compile(r'^std::time::(Instant|SystemTime)|^std::(env)::|RandomState|DefaultHasher|^std::process::id|^std::thread::(current|ThreadId)|'
                    r'^(rand|fastrand|getrandom)|available_parallelism|^std::collections::hash_map::RandomState')
ADDR = re.compile(r'::(Arc|Rc|Vec|String|str|Box)::(as_ptr)$|::ptr::.*::(addr|expose_provenance)$|::Argument::new_pointer$|::(addr_of|from_ref)$')
COUNT = re.compile(r'::(Arc|Rc)::(strong_count|weak_count|try_unwrap|get_mut|into_inner)$')
REORDER = re.compile(r'::(sort|sort_by|sort_by_key|sort_unstable|sort_unstable_by|sort_unstable_by_key|sort_by_cached_key|select_nth_unstable|shuffle|swap_remove)$')


def rule_C25(C, R):
    R.rule = ('on every function reachable from a public function: no iteration over hash collections, clock, randomness, '
              'environment, thread identity, addresses, reference counts or mutable process-wide state; instance identifiers '
              'are read only by id(); no reordering of fields or elements; lookups in hash collections are by key')
    guard(R, 'sources of nondeterminism', c25, C, R)


def c25(C, R):
    P, T = C.P, C.P.T
    TY = Types(C)
    Q = Reach(C)
    idf = id_fields(C)
    inn = inner_types(C)
    ids = Ids(C, R)
    for f in P.locals:
        for bi, b in enumerate(f.blocks):
            for s in b[0]:
                if s[0] == '=' and s[2][0] == 'agg' and s[2][1][0] == 'adt' and s[2][1][1] in idf and not derived_clone(f):
                    k = idf[s[2][1][1]][0]
                    if k is not None:
                        for o in origins(f, s[2][2][k]):
                            guard(R, 'identifier', ids.classify, f, o, None)
    roots = {f.id for it, f in public_fns(C)}
    live = set()
    for x in roots:
        live |= set(Q.reach(x))
    lf = [f for f in P.locals if f.id in live]
    getter = {v[1].id for v in idf.values() if v[1] is not None}
    for f in lf:
        R.fns.add(f.name)
        bad = False
        # the getters of identity and reference counts report what they are asked for
        # (num_references, ptr_eq and the like return the count itself)
        for bi, t, sp in calls(f):
            R.sites += 1
            d = base_name(t[1].get('def'))
            full = t[1].get('def') or ''
            key = 'C25:%s:%s' % (f.name, d.rsplit('::', 1)[-1])
            selfty = None
            if t[3]:
                o = t[3][0]
                if o[0] in ('c', 'm') and not o[1][1]:
                    selfty = C.strip(f.locals[o[1][0]])
            st = T[selfty] if selfty is not None else {}
            if HASHITER.search(d) or (st.get('k') == 'adt' and HASHTY.search(st.get('adt', '')) and d.rsplit('::', 1)[-1] in ('into_iter', 'iter', 'next', 'for_each', 'collect', 'fold', 'map', 'fmt')):
                R.violation(key, 'iterates over a hash collection, whose order differs from run to run', [loc(f, sp)])
                bad = True
            elif NONDET.search(d) and not ('hash' in d.lower() and False):
                R.violation(key, 'depends on %s' % d, [loc(f, sp)])
                bad = True
            elif ADDR.search(d):
                if ptr_only_compared(f, t[4]):
                    R.ok('%s compares identity only' % f.name)
                else:
                    R.unknown(loc(f, sp), 'uses an address')
            elif COUNT.search(d):
                ret = origins(f, ['c', [0, []]])
                if ret == {('call', bi)} and f.argc == 1:
                    R.ok('%s returns the reference count' % f.name)
                elif d.endswith(('try_unwrap', 'into_inner')):
                    R.unknown(loc(f, sp), 'depends on whether the instance is shared')
                else:
                    R.violation(key, 'depends on the number of references to an instance', [loc(f, sp)])
                    bad = True
            elif REORDER.search(d) and any(TY.mentions(x, lambda i, y: y.get('adt', '').rsplit('::', 1)[-1] in ('Value', 'Pair') and y.get('local')) for x in [f.locals[o[1][0]] for o in t[3][:1] if o[0] in ('c', 'm')] + t[1].get('targs', [])):
                R.violation(key, 'reorders fields or elements', [loc(f, sp)])
                bad = True
            elif t[1].get('inst') in getter:
                if '{' not in f.name and f.id not in getter:
                    R.violation(key, 'uses the identifier of an instance', [loc(f, sp)])
                    bad = True
        for bi, b in enumerate(f.blocks):
            for s in b[0]:
                if s[0] != '=':
                    continue
                sp = s[3] if len(s) > 3 else f.span
                r = s[2]
                if r[0] == 'cast' and ('Expose' in r[1] or 'Addr' in r[1]):
                    R.violation('C25:%s:addr' % f.name, 'turns an address into a number', [loc(f, sp)])
                    bad = True
                for pl in places(r):
                    k = id_read(C, f, pl, idf)
                    if k and f.id not in getter and not derived(C, f):
                        R.violation('C25:%s:id' % f.name, 'reads the identifier of an instance', [loc(f, sp)])
                        bad = True
            for o in pm.operands(b):
                if o[0] == 'k' and o[1][0] == 'static':
                    k = mutable_static(C, TY, o[1][1])
                    if k and o[1][1] not in ids.statics and not lazy_of(ids.statics, o[1][1]):
                        if k == 'content':
                            R.violation('C25:%s:%s' % (f.name, o[1][1]), 'depends on process-wide mutable state %s' % o[1][1], [f.name])
                            bad = True
                        else:
                            R.violation('C25:%s:%s' % (f.name, o[1][1]), 'depends on process-wide mutable state %s' % o[1][1], [f.name]) if steers(f) else R.unknown('%s uses %s' % (f.name, o[1][1]), 'mutable static')
        if not bad:
            R.ok('%s depends on its inputs only' % f.name)
    for f in P.locals:
        for bi, t, sp in calls(f):
            if 'LocalKey' in base_name(t[1].get('def')) and f.id in live:
                R.violation('C25:%s:tls' % f.name, 'depends on thread-local state', [loc(f, sp)])


def steers(f):
    return any(b[1][0] == 'switch' for b in f.blocks)


def lazy_of(statics, name):
    m = re.match(r'<(.*) as std::ops::Deref>', name)
    return bool(m) and m.group(1) in statics


def derived(C, f):
    i = [x for x in C.P.items if x.get('inst') == f.id]
    return bool(i) and i[0].get('derived') and f.canon[0] == 'T' and f.canon[1] in ('Clone', 'Debug')


def places(r):
    k = r[0]
    if k in ('use', 'repeat'):
        if r[1][0] in ('c', 'm'):
            yield r[1][1]
    elif k in ('ref', 'addr'):
        yield r[2]
    elif k in ('bin', 'cbin'):
        for o in (r[2], r[3]):
            if o[0] in ('c', 'm'):
                yield o[1]
    elif k in ('un', 'cast'):
        if r[2][0] in ('c', 'm'):
            yield r[2][1]
    elif k == 'agg':
        for o in r[2]:
            if o[0] in ('c', 'm'):
                yield o[1]


def id_read(C, f, pl, idf):
    T = C.P.T
    t = f.locals[pl[0]]
    for e in pl[1]:
        if e[0] == '*':
            t = T[t].get('e')
            if t is None:
                return False
        elif e[0] == 'f':
            if t in idf and idf[t][0] == e[1]:
                return True
            x = T[t]
            vs = x.get('vars', [])
            if x.get('k') == 'adt' and len(vs) == 1 and e[1] < len(vs[0][1]):
                t = vs[0][1][e[1]][1]
            else:
                return False
        else:
            return False
    return False


def ptr_only_compared(f, dest):
    """The pointer is used in comparisons only."""
    l = dest[0]
    al = {l}
    for _ in range(4):
        for b in f.blocks:
            for s in b[0]:
                if s[0] == '=' and s[2][0] in ('use', 'cast') and not s[1][1]:
                    o = s[2][1] if s[2][0] == 'use' else s[2][2]
                    if o[0] in ('c', 'm') and o[1][0] in al:
                        al.add(s[1][0])
    if 0 in al:
        return False
    for b in f.blocks:
        t = b[1]
        if t[0] == 'call':
            for o in t[3]:
                if o[0] in ('c', 'm') and o[1][0] in al and not re.search(r'(ptr::eq|PartialEq::(eq|ne)|addr_eq)$', base_name(t[1].get('def'))):
                    return False
    return True


STATICPURE = re.compile(r'(Once|OnceLock|OnceCell|LazyLock|Lazy)$')


def mutable_static(C, TY, name):
    st = C.P.F['statics'].get(name)
    if st is None:
        return None
    T = C.P.T
    t = st['t']
    hit = []

    def pred(i, y):
        n = y.get('adt', '')
        if re.search(r'(^|::)(Cell|RefCell|UnsafeCell|Mutex|RwLock|Atomic\w*)$', n):
            hit.append(i)
        return False

    def walk(t, seen):
        if t in seen:
            return
        seen.add(t)
        x = T[t]
        pred(t, x)
        for a in x.get('args', []):
            if type(a) is int:
                walk(a, seen)
        if x.get('local'):
            for v, n, ft in TY.fields(t):
                walk(ft, seen)
        if x.get('k') in ('ref', 'slice', 'array', 'ptr'):
            walk(x['e'], seen)
    walk(t, set())
    if st.get('mut'):
        return 'content'
    if not hit:
        return None
    for i in hit:
        if TY.mentions(i, lambda j, y: y.get('adt', '').rsplit('::', 1)[-1] in ('Value', 'Obj', 'Arr', 'Tup', 'String', 'Vec', 'HashMap', 'HashSet', 'BTreeMap')):
            return 'content'
    return 'scalar'
