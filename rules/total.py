"""C01 (no panic), C02 (bounded recursion of the parser), C03 (every repetition makes progress)."""
from base import *
import parser as pm
import parse_rule
from parse_rule import streams_of, wh, sname, owner_name

LIMIT = 1000        # levels of recursion of the parser that count as bounded by a constant a stack can hold


# C03 ------------------------------------------------------------------------------------------------
def part_of(new, old):
    """new is a proper part of old: reached by field accesses, dereferences or elements."""
    n = 0
    while new is not old and n < 40:
        n += 1
        if new.op == 'fld' or new.op == 'unbox' or new.op == 'deref':
            new = new.args[0]
        elif new.op == 'pref':
            new = new.args[0]
        elif new.op == 'app' and new.args[0] in ('at', 'unbox', 'frontopt', 'backopt') and type(new.args[1]) is Term:
            new = new.args[1]
        else:
            return False
    return new is old and n > 0


def shrinks(new, old):
    """new is the queue old with elements removed and none added."""
    n = 0
    while new is not old:
        if new.op == 'app' and new.args[0] in ('popf', 'popb', 'vremove') and type(new.args[1]) is Term:
            new, n = new.args[1], n + 1
        else:
            return False
    return n > 0


def descents(E, e):
    """{what gets smaller from one iteration to the next, other than the rest of a stream: why}"""
    h, s = e['head'], e['st']
    out = {}

    def walk(a, b, path):
        if a is b:
            return
        r = None
        if shrinks(b, a):
            r = 'an element is removed from a collection'
        elif part_of(b, a):
            r = 'a value is replaced by a part of itself'
        elif a.op == b.op == 'adt' and a.args[0] == b.args[0] and a.args[0].endswith('Option') and a.args[1] == 1 and b.args[1] == 0:
            r = 'a value is replaced by a part of itself'
        elif a.op == b.op == 'app' and a.args[0] == b.args[0] == 'it' and a.args[1] is b.args[1]:
            if type(a.args[2]) is Term and E.decide(s, Lt(a.args[2], b.args[2])) is True:
                r = 'an iterator advances'
        elif a.op == b.op == 'app' and a.args[0] == b.args[0] == 'rng' and a.args[2] is b.args[2]:
            if E.decide(s, Lt(a.args[1], b.args[1])) is True:
                r = 'a range advances'
        if r:
            out[path] = r
        elif a.op == b.op and len(a.args) == len(b.args) and (a.op in ('adt', 'tup', 'clo', 'pref') or a.op == 'app' and a.args[0] == b.args[0]):
            off = {'adt': 2, 'app': 1, 'clo': 1}.get(a.op, 0)
            for k, (x, y) in enumerate(zip(a.args[off:], b.args[off:])):
                if type(x) is Term and type(y) is Term:
                    walk(x, y, path + (k,))
                    # the content of an option that is replaced: the option as a whole is smaller
                    if path + (k,) in out and a.op == 'adt' and a.args[0].endswith('Option'):
                        out[path] = out[path + (k,)]
    for c, t in h.cells.items():
        n = s.cells.get(c)
        if n is not None:
            walk(t, n, (c,))
    for c, t in h.cells.items():
        n = s.cells.get(c)
        if c[0] != 'L' or n is None or n is t or t.op != 'phi':
            continue
        for q, v in s.facts.items():
            if q.op == 'app' and q.args[0] == 'lt' and v == ('B', True) and q.args[1] is t and not contains_phi(q.args[2], t.args[0]) \
                    and E.decide(s, Lt(t, n)) is True:
                out[(c,)] = 'a counter advances towards a bound'
    return out


def contains_phi(t, site):
    return any(x.op == 'phi' and x.args[0] == site for x in [t] + list(closure(t)))


def place(E, s, v1, v0, depth=0):
    """'before', 'same': may the place v1 be v0? 'same' only when it is certain to be possible."""
    if v1 is v0:
        return 'same'
    anc = E.ancestors(s, v1)
    if anc.get(v0):
        return 'after'
    cur = v1
    while cur is not v0:
        if cur.op == 'app' and cur.args[0] == 'next':
            vs = E.get_variants(s, App('peek', cur.args[1]))
            if vs is not None and 0 not in vs:
                return 'after'
            cur = cur.args[1]
        elif cur.op == 'app' and cur.args[0] == 'after' and not cur.args[3].args[0]:
            return 'unk'
        else:
            return 'unk'
    return 'same'


def rule_C03(C, R):
    R.rule = ('Every back edge of every loop that loading can reach must, on every path of the loop body, leave a character '
              'stream strictly further on (the place afterwards is a strict successor of the place at the loop head, also '
              'across recursive calls, which are shown to consume at least one character), remove an element from a '
              'collection to which none is added, advance an iterator over a finite collection, or replace a value by a '
              'part of itself. Recursion outside of the parser passes parts of its arguments.')
    M = C.parser()
    E, SI, P = M.E, M.SI, C.P
    for h in M.hubs:
        f = P.fns[h]
        if h not in M.runs:
            R.unknown(sname(f), 'never called')
        elif M.strict[h]:
            R.ok('%s consumes at least one character before it succeeds' % sname(f))
        else:
            r = M.runs[h]
            same = [v for st, v in r.exits if not (v.op == 'adt' and v.args[1] == 1) and parse_rule.main_version(E, SI, st, r) is r.version]
            # decided where it is used: only repetitions need it
            R.notes.append('%s may succeed without consuming a character%s' % (sname(f), ' (a path that reads nothing)' if same else ''))
    loops = {}
    for r in M.runs.values():
        R.covered(r)
        for k, e in r.events:
            if k != 'backedge':
                continue
            key = (sname(e['fr'].fn), e['span'][1] if e['span'] else 0)
            l = loops.setdefault(key, {}).setdefault((r.fn.id, e['serial']), [])
            a, b = streams_of(E, SI, e['head']), dict(streams_of(E, SI, e['st']))
            res = [place(E, e['st'], b[c].args[2 + SI.i_stream], i.args[2 + SI.i_stream]) for c, i in a if c in b]
            if 'after' in res:
                l.append(('ok', {None: 'a character is consumed'}, e))
                continue
            d = descents(E, e)
            if d:
                l.append(('dec', d, e))
            elif res and all(x == 'same' for x in res) and stuck(E, SI, e):
                l.append(('bad', {}, e))
            else:
                l.append(('unk', {}, e))
    for (fn, line), groups in sorted(loops.items()):
        bad, unk, why = [], [], {}
        for l in groups.values():
            bad += [x for x in l if x[0] == 'bad']
            unk += [x for x in l if x[0] == 'unk']
            dec = [x for x in l if x[0] == 'dec']
            # what gets smaller must be the same thing on all edges that do not consume
            if dec and not set.intersection(*[set(x[1]) for x in dec]):
                unk += dec
            for x in l:
                for w in set(x[1].values()):
                    why[w] = why.get(w, 0) + 1
        for x in bad[:1]:
            R.violation('loop:%s' % fn, 'a path through a loop of %s repeats without consuming a character or shrinking anything' % fn, wh(E, x[2]))
        if unk and not bad:
            R.unknown('the loop of %s at line %s' % (fn, line), 'no progress found')
        if not bad and not unk:
            for w, n in sorted(why.items()):
                R.ok('paths through the loop of %s at line %s: %s' % (fn, line, w), n)
    reach(C, R, M, loops)


def stuck(E, SI, e):
    """The loop tries to read on where the input may have ended, or nothing at all differs in the next iteration."""
    h, s = e['head'], e['st']
    a, b = streams_of(E, SI, h), dict(streams_of(E, SI, s))
    if any(c in b and b[c].args[2 + SI.i_stream] is not i.args[2 + SI.i_stream] for c, i in a):
        return True
    return all(s.cells.get(c, t) is t for c, t in h.cells.items() if c[0] == 'L')


def reach(C, R, M, seen):
    """Loops and recursion of the functions loading reaches outside of the units above."""
    P, E = C.P, M.E
    g = M.g
    todo = [f.id for f in M.roots()]
    got = set()
    while todo:
        x = todo.pop()
        if x in got:
            continue
        got.add(x)
        todo += list(g.get(x, ()))
    names = {k[0] for k in seen}
    for i in sorted(got):
        f = P.fns[i]
        if not (f.local and f.dumped):
            continue
        if f.cfg().loops and sname(f) not in names:
            try:
                r = C.run(f)
            except Exception as x:
                R.unknown('loops of ' + sname(f), str(x))
                continue
            for k, e in r.events:
                if k == 'backedge':
                    if descents(r.E, e):
                        R.ok('the loop of %s advances' % sname(f))
                    else:
                        R.unknown('the loop of %s' % sname(f), 'no progress found')
    for c in pm.sccs(g):
        c = [i for i in c if i in got and i not in M.comp and P.fns[i].local and P.fns[i].dumped]
        for i in c:
            f = P.fns[i]
            if '{closure' in f.name:
                continue
            guard(R, 'recursion of ' + sname(f), recursion, C, R, f, set(c))


def recursion(C, R, f, scc):
    """Each call inside the cycle gets a part of an argument in some fixed place."""
    r = C.run(f)
    R.covered(r)
    E = r.E
    n = 0
    for k, e in r.events:
        if k not in ('rec_call', 'opaque') or e.get('fn') is None or e['fn'].id not in scc:
            continue
        n += 1
        down = []
        for a, p in zip(e['args'], r.args):
            x, y = E.deep(e['st'], a), E.deep(e['st'], p)
            y0 = y.args[0] if y.op == 'pref' else y
            x0 = x.args[0] if x.op == 'pref' else x
            down.append(part_of(x0, y0) or contains_part(x0, y0))
        if any(down):
            R.ok('%s calls %s on a part of its argument' % (sname(f), sname(e['fn'])))
        elif all(E.deep(e['st'], a) is E.deep(e['st'], p) for a, p in zip(e['args'], r.args)) and e['fn'].id == f.id:
            R.violation('recursion:%s' % sname(f), '%s calls itself with the same arguments' % sname(f), wh(E, e))
        else:
            R.unknown('recursion of %s' % sname(f), 'arguments are not seen to get smaller')
    if not n:
        R.ok('%s: no call of the cycle is made on any path' % sname(f))


def contains_part(x, y):
    """x is, up to a closure's captured variables, an element of y."""
    for z in closure(x):
        if z is not y and part_of(z, y) and z is x:
            return True
    return False


# C02 ------------------------------------------------------------------------------------------------
def rule_C02(C, R):
    R.rule = ('The recursive calls between the functions all recursion of the parser passes through form a graph whose '
              'nodes are these functions (split by their boolean mode). An assignment of one integer argument of each as '
              'the depth is sought so that no edge lowers or resets it, every cycle raises it, and every raising cycle has '
              'an edge that is only reached while it is at most a constant; above the constant every kind of nesting fails '
              'with the maximum-depth error.')
    M = C.parser()
    E, P = M.E, C.P
    hubs = [P.fns[h] for h in M.hubs]
    R.notes.append('recursion passes through: ' + ', '.join(sname(f) for f in hubs))
    rest = pm.acyclic_without(M.g, M.comp, set(M.hubs))
    (R.ok if rest else R.unknown)(*(['without these functions the call graph of the parser (%d functions) has no cycle' % len(M.comp)]
                                   + ([] if rest else ['call graph'])))
    cand = {f.id: [i for i in range(f.argc) if P.T[f.locals[i + 1]].get('k') == 'uint'] for f in hubs}
    if any(not v for v in cand.values()):
        f = [f for f in hubs if not cand[f.id]][0]
        return R.unknown(sname(f), 'recurses without an integer argument that could bound the depth')
    calls = []
    for f in hubs:
        r = M.runs.get(f.id)
        if r is None:
            continue
        R.covered(r)
        bi = [i for i in range(f.argc) if P.T[f.locals[i + 1]].get('k') == 'bool']
        for k, e in r.events:
            if k == 'hub_call':
                g = e['fn']
                bj = [i for i in range(g.argc) if P.T[g.locals[i + 1]].get('k') == 'bool']
                own = E.decide(e['st'], r.args[bi[0]]) if bi else False
                oth = E.decide(e['st'], e['args'][bj[0]]) if bj else False
                calls.append((f, g, own, oth, e, r))
    if not calls:
        return R.unknown('recursive calls', 'none found')
    import itertools
    tops = {}
    for r in M.runs.values():
        if r.fn.id in M.hubs:
            continue
        for k, e in r.events:
            if k == 'hub_call':
                for i in cand[e['fn'].id]:
                    h = E.bounds(e['st'], e['args'][i])[1]
                    o = tops.get((e['fn'].id, i), 0)
                    tops[e['fn'].id, i] = None if h is None or o is None else max(o, h)
    best = None
    ids = [f.id for f in hubs]
    for ch in itertools.product(*[cand[i] for i in ids]):
        dep = dict(zip(ids, ch))
        ts = [tops[i, dep[i]] for i in ids if (i, dep[i]) in tops]
        top = None if None in ts or not ts else max(ts)
        edges = []
        for f, g, own, oth, e, r in calls:
            p = r.args[dep[f.id]]
            a = E.deep(e['st'], e['args'][dep[g.id]])
            d = delta(a, p)
            lo, hi = E.bounds(e['st'], p)
            if type(d) is int and d < 0:
                # counting down: at most from the value the recursion is entered with
                hi = top if lo is not None and lo >= -d else None
            for x in ([own] if own is not None else [False, True]):
                for y in ([oth] if oth is not None else [False, True]):
                    edges.append(((f.id, x), (g.id, y), d, hi, e))
        bad = faults(edges)
        rank = (sum(1 for x in edges if x[2] is None or x[2] == 'const'), len(bad))
        if best is None or rank < best[0]:
            best = (rank, dep, edges, bad)
    rank, dep, edges, bad = best
    for f in hubs:
        n = [q[0] for q in f.names if q[1] == dep[f.id] + 1] if hasattr(f, 'names') else []
        R.notes.append('depth of %s: argument %d%s' % (sname(f), dep[f.id] + 1, ' (%s)' % n[0] if n else ''))
    for kind, text, e in bad:
        (R.violation(kind, text, wh(E, e)) if kind != 'unk' else R.unknown(text, 'depth argument not understood'))
    if bad:
        return
    his = [x[3] for x in edges if x[2] and x[3] is not None]
    K = max(his)
    if K > LIMIT:
        R.violation('limit', 'the parser may recurse %d levels deep' % K, [f.name for f in hubs])
    else:
        R.ok('recursion is at most %d levels deep' % K)
    for x in edges:
        R.ok('%s calls %s with depth %+d%s' % (owner_name(x[4]), sname(P.fns[x[1][0]]), x[2], '' if x[3] is None else ' (depth at most %d)' % x[3]))
    if any(x[2] < 0 for x in edges):
        R.notes.append('the depth counts down; the error beyond the limit is not examined')
    else:
        too_deep(C, R, M, dep, K)


def delta(a, p):
    if a is p:
        return 0
    if a.op == 'int':
        return 'const'
    from engine import split_add
    b, k = split_add(a)
    if b is p and k:
        return k
    return None


def faults(edges):
    """What is wrong with the depth along the cycles of the call graph."""
    out = []
    nodes = {x[0] for x in edges} | {x[1] for x in edges}

    def cyc(es):
        """Edges of es that lie on a cycle."""
        adj = {}
        for x in es:
            adj.setdefault(x[0], set()).add(x[1])
        reach = {}
        for n in nodes:
            s, w = set(), list(adj.get(n, ()))
            while w:
                m = w.pop()
                if m not in s:
                    s.add(m)
                    w += list(adj.get(m, ()))
            reach[n] = s
        return [x for x in es if x[0] in reach[x[1]] or x[0] == x[1]]
    done = set()

    def add(kind, key, text, e):
        if (kind, key) not in done:
            done.add((kind, key))
            out.append((kind if kind == 'unk' else kind + ':' + key, text, e))
    on = cyc(edges)
    for x in on:
        w = owner_name(x[4])
        if x[2] is None:
            add('unk', w, 'the depth passed by ' + w, x[4])
        elif x[2] == 'const':
            add('reset', w, '%s starts the depth anew in a nested call' % w, x[4])
        elif x[2] < 0 and any(y[2] is not None and y[2] != 'const' and y[2] > 0 for y in on):
            add('lower', w, '%s lowers the depth in a nested call' % w, x[4])
    if out:
        return out
    for x in cyc([x for x in edges if x[2] == 0]):
        w = owner_name(x[4])
        add('level', w, 'nesting through %s does not count as a level' % w, x[4])
    for x in cyc([x for x in edges if x[3] is None]):
        w = owner_name(x[4])
        add('unbounded', w, 'nesting through %s is not limited' % w, x[4])
    return out


def too_deep(C, R, M, dep, K):
    """Above the limit each kind of nesting is answered with the maximum-depth error."""
    P = C.P
    import lang
    vh = parse_rule.value_hub(C)
    for f in [P.fns[h] for h in M.hubs]:
        firsts = ['{', '[', '(', '<', '+', '-'] if vh and f.id == vh[0].id else [None]
        for ch in firsts:
            what = 'nesting by %s beyond the limit' % (ch or 'dotted access')
            guard(R, what, one_deep, C, R, M, f, dep[f.id], K, ch, what)


def one_deep(C, R, M, f, di, K, ch, what):
    LM = C.light_parser()
    P, SI = C.P, LM.SI
    lo = K + 1

    def setup(E, st, args, v):
        st.facts[args[di]] = ('I', lo, None)
        if ch:
            o = App('peek', v)
            st.facts[o] = ('V', frozenset([1]))
            st.facts[Fld(o, 1, 0)] = ('M', mask_of(ch))
            for i in range(f.argc):
                if P.T[f.locals[i + 1]].get('k') == 'bool':
                    st.facts[args[i]] = ('B', False)
    r = pm.stream_unit(LM, f, setup=setup)
    R.covered(r)
    E = r.E
    nested = [e for k, e in r.events if k == 'hub_call']
    if nested:
        R.violation('deeper:' + (ch or 'dot'), what + ' is not rejected', wh(E, nested[0]))
        return
    if not r.exits:
        return R.unknown(what, 'no exit')
    if ch is None:
        R.ok(what + ' makes no further call')
        return
    ok = [1 for st, v in r.exits if v.op == 'adt' and v.args[1] == 0]
    et = parse_rule.err_types(C)
    kinds = {parse_rule.kname(et[3], e['variant']) for k, e in r.events if k == 'agg' and e.get('adt') == et[3]['adt']}
    if ok:
        R.violation('accepted:' + ch, what + ' is accepted', [f.name])
    elif kinds == {'MaxDepth'}:
        R.ok(what + ' is the maximum-depth error')
    elif len(kinds) == 1:
        R.violation('error:' + ch, '%s is reported as %s' % (what, list(kinds)[0]), [f.name])
    else:
        R.unknown(what, 'errors %s' % sorted(kinds))


# C01 ------------------------------------------------------------------------------------------------
PANICKY = re.compile(r'(^|::)(unwrap\w*|expect\w*|remove|swap_remove|insert|insert_str|split_off|split_at\w*|split_first|drain|truncate|swap|'
                     r'copy_from_slice|clone_from_slice|from_digit|to_digit|step_by|chunks\w*|windows|rotate_\w+|index|index_mut|'
                     r'borrow|borrow_mut|replace_range|get_unchecked\w*|rem_euclid|div_euclid|div_rem|div_floor|mod_floor|'
                     r'gcd|lcm|recip|reduce|new|pow|range|copy_within|select_nth\w*|as_slice|advance_by|sqrt|nth_root|log2|'
                     r'unwrap_or_else_panic|exit|abort)$')
STOPS = ('peek', 'line', 'col', 'next', 'after', 'hub', 'hubout', 'pf')


def free(t):
    """The condition depends on nothing but inputs, places in the text and results of calls: no value was joined away."""
    if t.op in ('phi', 'old', 'stale', 'undef'):
        return False
    if t.op == 'app' and t.args[0] in STOPS:
        return True
    return all(free(x) for x in t.args if type(x) is Term)


def public_fns(C):
    P = C.P
    out = {}
    for i in P.items:
        if not i['exported'] or i['kind'] != 'fn' or '{' in i['name']:
            continue
        if i['generic']:
            n = i['name'].split('::', 1)[-1]
            for f in P.locals:
                if f.dumped and f.__dict__.get('def') == n and '{closure@/repo/' not in f.name:
                    out[f.id] = f
        elif i.get('inst') is not None and P.fns[i['inst']].dumped:
            out[i['inst']] = P.fns[i['inst']]
        else:
            out[i['name']] = None
    return out


def rule_C01(C, R):
    R.rule = ('Every site that can panic (failed assertion, overflow, index, unwrap, expect, panic!, borrow, division) in the '
              'functions reached from the public functions and from loading is an obligation: with arbitrary arguments and '
              'any document, no path reaches it with its condition. Private recursive functions are analysed with the '
              'lower bounds of their integer arguments that all their calls establish.')
    M = C.parser()
    P = C.P
    hits = []          # (unit name, E, event, user arguments)
    oks = {}
    nfns = set()
    for r in M.runs.values():
        R.covered(r)
        scan(C, M.E, r, hits, oks, ())
    for f in M.op_fns():
        if f.id not in M.comp:
            guard(R, 'operators in ' + sname(f), op_cases, C, R, f, hits, oks)
    pub = public_fns(C)
    reach_parser = reaching(M)
    done = {}
    work = []
    pre = {}
    for i, f in pub.items():
        if f is None:
            R.unknown(i, 'no code')
        elif i not in reach_parser:
            work.append(f)
    called = {}
    for r in M.runs.values():
        collect(C, M.E, r, called, pub, M)
    while work:
        f = work.pop(0)
        if f.id in done:
            continue
        try:
            r = C.run(f)
        except Exception as x:
            R.unknown(sname(f), str(x)[:200])
            continue
        done[f.id] = r
        R.covered(r)
        scan(C, r.E, r, hits, oks, r.args)
        collect(C, r.E, r, called, pub, M)
    private(C, R, called, pub, M, hits, oks)
    fixed = {}
    for r, E, e, args in hits:
        judge(C, R, M, r, E, e, args, fixed)
    sites(C, R, M, hits, fixed)
    std(C, R, M, list(M.runs.values()) + list(done.values()))


def op_cases(C, R, f, hits, oks):
    """An operator function, for each combination of operator and types of operands on its own."""
    import itertools
    vt = C.ty('Value')
    ats = f.locals[1:1 + f.argc]
    en = [(i, C.P.T[C.strip(t)]) for i, t in enumerate(ats) if C.strip(t) == vt or C.strip(t) in (C.ty('BinaryOp'), C.ty('UnaryOp'))]
    arr = [v[0] for v in C.P.T[vt]['vars']].index('Arr')
    for ks in itertools.product(*[range(len(T['vars'])) for i, T in en]):
        def setup(E, st, args):
            for (i, T), k in zip(en, ks):
                a = args[i]
                while a.op == 'pref':
                    a = a.args[0]
                E.assume_variant(st, a, frozenset([k]))
        vals = [k for (i, T), k in zip(en, ks) if C.strip(ats[i]) == vt]
        text = '%s of %s' % (sname(f), ', '.join(T['vars'][k][0] for (i, T), k in zip(en, ks)))
        try:
            r = C.run(f, setup, mode='eq+rel' if vals == [arr, arr] else 'eq')
        except Exception as x:
            R.unknown(text, str(x)[:200])
            continue
        R.covered(r)
        n = len(hits)
        scan(C, r.E, r, hits, oks, ())
        if len(hits) == n:
            R.ok(text + ' reaches no panic')


def result_contract(C, M, E, e, c):
    """The condition is on a part of the result of a function analysed on its own: no result of it meets the condition."""
    t, path = c, []
    while t.op in ('fld', 'unbox', 'pref'):
        if t.op == 'fld':
            path.append(t.args[1:])
        t = t.args[0]
    if not (t.op == 'app' and t.args[0] == 'pf' and path):
        return False
    want = E.get_variants(e['st'], c)
    fs = [f for f in C.type_fns() if f.name.rsplit('::', 1)[-1] == t.args[1].args[0] and f.argc == len(t.args) - 2]
    if want is None or len(fs) != 1:
        return False
    f = fs[0]

    def setup(E2, st, args):
        for a, b in zip(args, t.args[2:]):
            a = strip(a)
            b = strip(b)
            vs = E.get_variants(e['st'], b)
            if vs is not None:
                E2.assume_variant(st, a, frozenset(vs))
    key = ('contract', f.id, tuple(str(sorted(E.get_variants(e['st'], strip(b)) or ())) for b in t.args[2:]))
    if key not in C._cache:
        C._cache[key] = C.run(f, setup)
    r = C._cache[key]
    for st, v in r.exits:
        for var, i in reversed(path):
            v = strip(v)
            if v.op == 'adt' and var >= 0 and v.args[1] != var:
                v = None
                break
            v = Fld(v, var, i)
        if v is None:
            continue
        vs = r.E.get_variants(st, strip(v))
        if vs is None or vs & want:
            return False
    return bool(r.exits)


def strip(t):
    while t.op == 'pref' or t.op == 'app' and t.args[0] == 'unbox':
        t = t.args[0] if t.op == 'pref' else t.args[1]
    return t


def reaching(M):
    """Functions that (transitively) call the parser's recursion."""
    rev = {}
    for a, cs in M.g.items():
        for c in cs:
            rev.setdefault(c, set()).add(a)
    got, w = set(M.comp), list(M.comp)
    while w:
        x = w.pop()
        for p in rev.get(x, ()):
            if p not in got:
                got.add(p)
                w.append(p)
    return got


def scan(C, E, r, hits, oks, args):
    for k, e in r.events:
        if k == 'panic':
            hits.append((r, E, e, args))
        elif k == 'assert_ok':
            c = e.get('cond')
            oks[e['what']] = oks.get(e['what'], 0) + 1
            if args and c is not None and c.op == 'app' and c.args[0] == 'ovf' and c.args[1].args[0] == 'Add':
                # a number the caller chose freely
                for x in c.args[2:4]:
                    if x in args and E.bounds(e['st'], x)[1] is None:
                        hits.append((r, E, dict(e, what='assert:overflow', user=True), args))


def collect(C, E, r, called, pub, M):
    """Local functions that were not analysed in place: with the bounds of their integer arguments."""
    for k, e in r.events:
        if k in ('opaque', 'rec_call', 'pure_call'):
            f = e.get('fn')
            if f is None or not f.local or not f.dumped or f.id in pub or f.id in M.hubs or f.kind == 'Closure':
                continue
            if any(C.strip(t) == M.SI.ty for t in f.locals[1:1 + f.argc]):
                continue
            lo = {}
            for i in range(f.argc):
                if C.P.T[f.locals[i + 1]].get('k') == 'uint' and i < len(e['args']):
                    lo[i] = E.bounds(e['st'], e['args'][i])[0]
            called.setdefault(f.id, []).append((r.fn.id, lo))


def private(C, R, called, pub, M, hits, oks):
    """Recursive private functions: lower bounds of integer arguments by a fixpoint over all their calls."""
    P = C.P
    pre = {}
    runs = {}

    def meet(fid):
        out = {}
        l = called[fid]
        for i in l[0][1]:
            vs = [x[1].get(i) for x in l]
            out[i] = None if None in vs else min(vs)
        return out
    for rnd in range(12):
        changed = False
        for fid in sorted(called):
            p = meet(fid)
            if rnd > 6:
                p = {i: (v if pre.get(fid, {}).get(i) == v else None) for i, v in p.items()}
            if fid in runs and pre[fid] == p:
                continue
            pre[fid] = p
            f = P.fns[fid]

            def setup(E, st, args):
                for i, v in p.items():
                    if v is not None:
                        st.facts[args[i]] = ('I', v, None)
            try:
                runs[fid] = r = C.run(f, setup=setup)
            except Exception as x:
                R.unknown(sname(f), str(x)[:200])
                runs[fid] = None
                continue
            for k in list(called):
                called[k] = [x for x in called[k] if x[0] != fid or k == fid and False]
            new = {}
            collect(C, r.E, r, new, pub, M)
            for k, l in new.items():
                called.setdefault(k, [])
                called[k] += l
            changed = True
        called_empty = [k for k, l in called.items() if not l]
        for k in called_empty:
            del called[k]
        if not changed:
            break
    for fid, r in runs.items():
        if r is not None:
            R.covered(r)
            scan(C, r.E, r, hits, oks, ())


def cause(E, e):
    c = e.get('cond')
    if c is None:
        c = e['st'].gh.get('br')
    return c


def judge(C, R, M, r, E, e, args, fixed):
    w = wh(E, e)
    fn = local_frame(e)
    c = cause(E, e)
    if c is not None:
        c = E.deep(e['st'], c)
    why = accepted(C, M, E, e, c)
    key = (sname(fn), e['what'])
    if why:
        fixed.setdefault((fn.id, line_in(e, fn)), set()).add(why)
        return
    text = '%s can panic: %s' % (sname(fn), describe(e, c))
    if c is not None and (free(c) or collected(E, e, c)) and not opaque_part(c) and not examined(e, c):
        R.violation('%s:%s' % key, text, w)
    else:
        R.unknown(text, 'the condition is not understood exactly')


FIXED = {p + n for p in 'iu' for n in ('8', '16', '32', '64', '128', 'size')}


def collected(E, e, c):
    """A number of fixed width is read from text that a loop collects from the document, which nothing on the path bounds."""
    if not (c.op == 'app' and c.args[0] == 'parse' and str(c.args[1]).strip("'") in FIXED and c.args[2].op in ('phi', 'old')):
        return False
    a = c.args[2]
    for t, v in e['st'].facts.items():
        if t is c or t is a or v[0] == 'I' and v[2] is None:
            continue
        if t.op == 'app' and t.args[0] == 'isempty' and t.args[1] is a and v == ('B', False):
            continue
        for x in [t, *subterms(t)]:
            if x is a:
                return False
            if x.op in ('phi', 'old') and x.args[0] == a.args[0] and (v[0] == 'I' or t.op == 'app' and t.args[0] == 'lt') and counts(t, x):
                return False
    return True


def counts(t, x):
    """The fact t may bound how often the loop ran: x is a variable of the loop that is neither text nor a place in the input."""
    if t.op == 'app' and t.args[0] in ('len', 'isempty', 'peek', 'line', 'col'):
        return False
    p = x.args[1]
    return not (p and type(p[0]) is tuple and p[0] and str(p[0][0]).startswith('RC'))


def opaque_part(c):
    for x in opaque_calls(c):
        return True
    return False


def examined(e, c):
    """What the condition is about was given to a function without exact meaning on this path, and the path depends on the answer."""
    about = {x for x in c.args[1:] if type(x) is Term and x.op in ('sym', 'fld', 'app', 'unbox') and x.op != 'str'}
    if not about:
        return False
    for t in e['st'].facts:
        if t is c:
            continue
        for x in [t] + list(closure(t)):
            if x.op == 'app' and (x.args[0] in ('call', 'out', 'opaque') or x.args[0] in VIEWS) and any(y in about for y in closure(x)):
                return True
    return False


VIEWS = ('to_string', 'disp', 'signum', 'sign', 'abs', 'to_i64', 'to_u64', 'to_usize', 'to_u32', 'to_i32', 'to_f64', 'bits')


def describe(e, c):
    what = e['what'].replace('call ', '').replace('assert:', '')
    if e.get('user'):
        what = 'overflow of a number the caller chooses'
    return what


def local_frame(e):
    fr = e['fr']
    while fr.parent is not None and not (fr.fn.local and not fr.fn.foreign):
        fr = fr.parent
    return fr.fn


def line_in(e, fn):
    fr, sp = e['fr'], e.get('span')
    while fr.parent is not None and not (fr.fn.local and not fr.fn.foreign):
        sp = fr.span
        fr = fr.parent
    return tuple(sp[:3]) if sp else None


def accepted(C, M, E, e, c):
    """Conditions that cannot be met although the values alone would allow them."""
    if c is not None and c.op == 'app' and c.args[0] == 'pparent' and named_files(C, M, E, c.args[1]):
        return 'the path was opened as a file and read, so it has a parent'
    if c is not None and result_contract(C, M, E, e, c):
        return 'the function whose result this is never returns such a value for these arguments'
    if e['what'] == 'assert:overflow' and c is not None and c.op == 'app' and c.args[0] == 'ovf' and c.args[1].args[0] == 'Add' \
            and c.args[4].args[0] in ('usize', 'u64') and not e.get('user') and any(x.op == 'int' and x.args[0] < 2 ** 32 for x in c.args[2:4]):
        return 'a 64-bit counter that grows by small steps'
    return None


def named_files(C, M, E, t):
    """t is the path of the file of a character stream, and such streams are made only of files that were read."""
    if not (t.op == 'fld' and t.args[1] == 1 and t.args[0].op == 'sym' and str(t.args[0].args[0]).startswith('file:')):
        return False
    return named_streams(C, M)


def named_streams(C, M):
    r = C._cache.get('named_streams')
    if r is not None:
        return r
    SI, n, ok = M.SI, 0, True
    inner = C.P.T[SI.inner]['adt']
    for run in M.runs.values():
        E = M.E
        for k, e in run.events:
            if k != 'agg' or e['adt'] != inner:
                continue
            n += 1
            f = E.deep(e['st'], e['term'].args[2 + SI.i_file])
            if f.op == 'adt' and f.args[1] == 0:
                continue
            if not (f.op == 'adt' and f.args[1] == 1):
                ok = False
                continue
            p = f.args[2]
            rd = [t for t, v in e['st'].facts.items() if t.op == 'app' and str(t.args[0]).startswith('read:') and v == ('V', frozenset([0]))
                  and any(opened(x, p) for x in t.args[1:] if type(x) is Term)
                  or t.op == 'app' and t.args[0] in ('fs::read_to_string', 'fs::read') and v == ('V', frozenset([0])) and p in t.args[1:]]
            if not rd:
                ok = False
    r = ok and n > 0
    C._cache['named_streams'] = r
    return r


def opened(x, p):
    return x.op == 'fld' and x.args[1] == 0 and x.args[0].op == 'app' and str(x.args[0].args[0]).endswith('open') and x.args[0].args[1] is p


def sites(C, R, M, hits, fixed):
    """Obligations by site: all calls and assertions of the crate's own functions that can panic."""
    P = C.P
    bad = {(local_frame(e).id, line_in(e, local_frame(e))) for r, E, e, a in hits}
    n = 0
    for f in P.locals:
        if not f.dumped or f.foreign:
            continue
        for b in f.blocks:
            t = b[1]
            k = None
            if t[0] == 'assert' and t[3] != 'other':
                k = t[3]
            elif t[0] == 'call':
                i = t[1].get('inst')
                g = P.fns[i] if i is not None else None
                m = g.key if g is not None else str(t[1].get('def', ''))
                if PANICKY.search(m) or 'panic' in m:
                    k = m
            if k is None:
                continue
            key = (f.id, tuple(b[2][:3]) if b[2] else None)
            if key in bad and key not in fixed:
                continue
            n += 1
            if key in fixed:
                R.ok('%s line %s: %s' % (sname(f), b[2][1], sorted(fixed[key])[0]))
            else:
                R.ok('%s line %s (%s) is not reached with a panicking condition' % (sname(f), b[2][1] if b[2] else '?', k))


def std(C, R, M, runs):
    """Functions outside of the crate whose meaning is not modelled and that may panic."""
    seen = {}
    for r in runs:
        for k, e in r.events:
            if k == 'opaque' and (e.get('fn') is None or not e['fn'].local):
                n = e['fn'].key if e.get('fn') is not None else str(e.get('name'))
                if PANICKY.search(n):
                    seen.setdefault(n, (r, e))
    for n, (r, e) in sorted(seen.items()):
        R.unknown('a call of %s in %s' % (n, sname(local_frame(e))), 'not modelled; it may panic')
