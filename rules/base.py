"""Shared parts of all checks: the analysis context, results, comparison of terms, evidence."""
import json
import os
import re
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'engine'))

from term import *                                        # noqa
from engine import Engine, State, Unsupported, Budget, Call     # noqa
from models import Models                                 # noqa
from prog import Prog                                     # noqa
from unit import run_unit, entry_arg, CUR                 # noqa
import parser as pm                                       # noqa
import models                                             # noqa

FAIL = (Unsupported, Budget, RecursionError, KeyError, IndexError, AttributeError, TypeError, AssertionError, ValueError)


class Result:
    def __init__(self, pid):
        self.pid = pid
        self.ok_n = 0
        self.samples = []
        self.bad = []            # (key, text, where)
        self.unk = []            # (text, reason)
        self.notes = []
        self.fns = set()
        self.paths = 0
        self.sites = 0
        self.rule = ''
        self._keys = set()

    def ok(self, text, n=1):
        self.ok_n += n
        if len(self.samples) < 12 or (self.ok_n % 37 == 0 and len(self.samples) < 40):
            self.samples.append(text[:300])

    def violation(self, key, text, where=None):
        """key identifies the failing construct independently of line numbers."""
        if key in self._keys:
            return
        m = mystery(CUR[0]) if CUR[0] is not None else None
        if m is not None:
            return self.unknown(text, 'on a path that depends on a condition that is not understood: ' + show(m)[:80])
        self._keys.add(key)
        self.bad.append((key, text, where or []))

    def unknown(self, text, reason):
        t = (text, str(reason)[:300])
        if t not in self.unk:
            self.unk.append(t)

    def result(self, r, key, text, where=None, reason='values not comparable'):
        """r: 'eq' | 'ne' | 'unk'"""
        if r == 'eq':
            self.ok(text)
        elif r == 'ne':
            self.violation(key, text, where)
        else:
            self.unknown(text, reason)

    def covered(self, run):
        self.fns.add(run.fn.name)
        self.paths += len(run.exits)
        self.sites += len(run.events)


class Ctx:
    def __init__(self, facts):
        self.P = Prog(facts)
        self.engines = {}
        self._pm = None
        self._cache = {}

    # -- functions --------------------------------------------------------------------------------
    def fn(self, suffix):
        """The one local function with this canonical path suffix, e.g. 'Obj::get'."""
        r = [f for f in self.P.find(suffix) if '{' not in f.name]
        return r[0] if len(r) == 1 else None

    def tr(self, ty, trait, method, gen=None):
        """Trait method of a local (or foreign) type: ('Value', 'PartialEq', 'eq', 'bool')."""
        out = []
        for f in self.P.locals:
            c = f.canon
            if c[0] == 'T' and c[1] == trait and c[2] == method and c[3].rsplit('::', 1)[-1] == ty and '{' not in f.name:
                out.append(f)
        if gen is not None:
            out = [f for f in out if gen(f)]
        return out[0] if len(out) == 1 else None

    def methods(self, ty, trait=None):
        return [f for f in self.P.methods(ty, trait) if '{closure' not in f.name]

    def ty(self, name):
        return self.P.adt_ty(name)

    def var(self, tyname, v):
        return self.P.variant(self.ty(tyname), v)

    def adtname(self, tyname):
        return self.P.T[self.ty(tyname)]['adt']

    def adt(self, tyname, v, *fs):
        return Adt(self.adtname(tyname), self.var(tyname, v) if isinstance(v, str) else v, fs)

    # -- engines ----------------------------------------------------------------------------------
    def engine(self, mode='plain'):
        E = self.engines.get(mode)
        if E is None:
            E = Engine(self.P)
            E.models = Models(self.P)
            E.join_all_errs = False
            E.exit_limit = 400
            ab = E.models.abstract
            if 'eq' in mode.split('+'):
                for f in self.eq_fns():
                    ab[f.id] = pm.pure_call(f)
            if 'type' in mode.split('+'):
                for f in self.type_fns():
                    ab[f.id] = pm.pure_call(f)
            if 'rel' in mode.split('+'):
                for f in self.type_fns():
                    if self.strip(f.locals[1]) == self.ty('Type'):
                        ab[f.id] = pm.pure_call(f)
            if 'get' in mode.split('+'):
                for n in ('Obj::get', 'Obj::get_with_source'):
                    f = self.fn(n)
                    if f is not None:
                        ab[f.id] = pm.pure_call(f)
            if 'fmt' in mode.split('+'):
                for f in self.format_fns():
                    ab[f.id] = pm.pure_call(f, f.name)
            self.engines[mode] = E
        return E

    def eq_fns(self):
        """PartialEq::eq between two values of one local type."""
        r = []
        for f in self.P.locals:
            if f.canon[0] == 'T' and f.canon[1] == 'PartialEq' and f.canon[2] in ('eq', 'ne') and f.argc == 2 \
                    and f.locals[1] == f.locals[2]:
                t = self.P.T[f.locals[1]]
                if t.get('k') == 'ref' and self.P.T[t['e']].get('local'):
                    r.append(f)
        return r

    def strip(self, t):
        while self.P.T[t].get('k') == 'ref':
            t = self.P.T[t]['e']
        return t

    def type_fns(self):
        tt, vt = self.ty('Type'), self.ty('Value')
        r = []
        for f in self.P.locals:
            if not f.argc or '{' in f.name or f.canon[0] == 'T':
                continue
            ats = [self.strip(t) for t in f.locals[1:1 + f.argc]]
            if all(t == tt for t in ats) or (ats == [vt] and self.strip(f.locals[0]) == tt):
                r.append(f)
        return r

    def format_fns(self):
        return [f for f in self.P.locals if f.canon[0] == 'T' and f.canon[1] == 'Format' and f.canon[2] == 'format'
                and '{' not in f.name]

    def run(self, fn, setup=None, mode='plain', args=None, budget=3_000_000):
        E = self.engine(mode)
        st = State()
        if args is None:
            args = [entry_arg(E, st, i, fn.locals[i + 1], 'a%d' % i) for i in range(fn.argc)]
        if setup is not None:
            setup(E, st, args)
        E.stats['blocks'] = 0
        E.budget = budget
        E.precise = True
        r = run_unit(E, fn, args, st)
        r.E = E
        return r

    # -- parser -----------------------------------------------------------------------------------
    def light_parser(self):
        """The parser model without the fixpoint over the recursion (for functions outside of it)."""
        if getattr(self, '_lpm', None) is None:
            E = Engine(self.P)
            E.models = Models(self.P)
            self._lpm = pm.ParserModel(self.P, E)
        return self._lpm

    def stream_fns(self):
        M = self.light_parser()
        return [f for f in self.P.locals if f.dumped and '{' not in f.name and f.argc
                and any(self.strip(t) == M.SI.ty for t in f.locals[1:1 + f.argc])]

    def parser(self):
        if self._pm is None:
            E = Engine(self.P)
            E.models = Models(self.P)
            E.budget = 40_000_000
            M = pm.ParserModel(self.P, E)
            M.solve()
            self._pm = M
        if isinstance(self._pm, Exception):
            raise self._pm
        return self._pm


# comparison of terms --------------------------------------------------------------------------------
ALTER = re.compile(
    r'::(trim\w*|to_lowercase|to_uppercase|to_ascii_\w+|make_ascii_\w+|replace\w*|strip_\w+|split\w*|sort\w*|reverse|rev|'
    r'dedup\w*|truncate|remove|swap\w*|retain|drain|insert|push\w*|pop\w*|clear|abs|neg|round|floor|ceil|trunc|fract|'
    r'recip|pow|sqrt|min|max|clamp|wrapping_\w+|overflowing_\w+|saturating_\w+|rotate_\w+|rem_euclid|div_euclid|'
    r'skip|take|step_by|chunks|windows|filter|escape_\w+|repeat|char_indices|as_bytes|bytes|lines|to_f64|to_f32|from_f64|from_f32)$')


def opaque_calls(t):
    for x in [t] + list(closure(t)):
        if x.op == 'app' and x.args[0] in ('call', 'out', 'opaque'):
            yield x


def changed_by(t):
    """A library function in t that changes the content or order of what it is given."""
    for x in [t] + list(closure(t)):
        if x.op == 'app' and x.args[0] == 'call' and x.args[1].op == 'str' and ALTER.search('::' + x.args[1].args[0].rsplit('::', 1)[-1]):
            return x.args[1].args[0]
    return None


MYST = {}


def mystery(st):
    """A condition of the path that was decided by a library function without exact meaning."""
    for t, c in st.facts.items():
        if c[0] != 'B':
            continue
        m = MYST.get(t)
        if m is None:
            m = MYST[t] = any(strange(x) for x in opaque_calls(t))
        if m:
            return t
    return None


def part_scan(x):
    """A search through a constant part of a sequence: it says nothing about the rest."""
    if x.op != 'app' or x.args[0] not in ('call', 'pf') or x.args[1].op != 'str' or len(x.args) < 3:
        return False
    n = x.args[1].args[0].rsplit('::', 1)[-1]
    y = x.args[2]
    if type(y) is not Term:
        return False
    if n in ('any', 'all', 'find', 'position', 'find_map', 'rposition'):
        return part_scan(y) is None
    if n in ('take', 'skip', 'step_by') and len(x.args) > 3 and x.args[3].op == 'int':
        return None if x.args[3].args[0] > (1 if n == 'step_by' else 0) or n == 'take' else False
    if n in ('rev', 'map', 'enumerate', 'cloned', 'copied', 'iter', 'into_iter'):
        return part_scan(y)
    return False


def strange(x):
    n = str(x.args[1].args[0]) if x.args[0] == 'call' and x.args[1].op == 'str' else None
    if n is None or part_scan(x):
        return False
    return not n.startswith(('over::', '<over::')) and not ALTER.search('::' + n.rsplit('::', 1)[-1])


def tainted(t):
    """The term contains parts the analysis has no exact meaning for."""
    for x in [t] + list(closure(t)):
        if x.op == 'phi':
            return True
        if x.op == 'app' and x.args[0] == 'call':
            n = x.args[1].args[0] if x.args[1].op == 'str' else ''
            if not ALTER.search('::' + str(n).rsplit('::', 1)[-1]):
                return True
    return False


def fact_terms(st):
    return [k for k in st.facts]


STRUCTS = ('ratio', 'box', 'arc', 'bigint', 'Ref')


def cmp(E, s, a, b, depth=0):
    """Is term a (computed) equal to term b (required) in state s: 'eq', 'ne' or 'unk'."""
    if a is b:
        return 'eq'
    if depth > 12:
        return 'unk'
    if a.op == 'pref':
        return cmp(E, s, a.args[0], b, depth + 1)
    if b.op == 'pref':
        return cmp(E, s, a, b.args[0], depth + 1)
    if b.op == 'adt':
        if a.op == 'adt' and a.args[0] == b.args[0]:
            if a.args[1] != b.args[1]:
                return 'ne'
            return worst([cmp(E, s, x, y, depth + 1) for x, y in zip(a.args[2:], b.args[2:])])
        v = E.get_variants(s, a)
        if v is not None and b.args[1] not in v:
            return 'ne'
        if v is not None and len(v) == 1:
            return worst([cmp(E, s, Fld(a, b.args[1], i), y, depth + 1) for i, y in enumerate(b.args[2:])])
        return 'unk' if tainted(a) else 'ne'
    if a.op == 'adt':
        v = E.get_variants(s, b)
        if v is not None and a.args[1] not in v:
            return 'ne'
        if v is not None and len(v) == 1:
            return worst([cmp(E, s, x, Fld(b, a.args[1], i), depth + 1) for i, x in enumerate(a.args[2:])])
    if a.op == 'tup' and b.op == 'tup' and len(a.args) == len(b.args):
        return worst([cmp(E, s, x, y, depth + 1) for x, y in zip(a.args, b.args)])
    if a.op == 'app' and b.op == 'app' and a.args[0] == b.args[0] and len(a.args) == len(b.args) and a.args[0] in STRUCTS:
        return worst([cmp(E, s, x, y, depth + 1) for x, y in zip(a.args[1:], b.args[1:])
                      if type(x) is Term and type(y) is Term])
    if is_boolish(a) and is_boolish(b):
        return cmp_bool(E, s, a, b)
    try:
        d = E.decide(s, Eq(a, b))
    except Exception:
        d = None
    if d is True:
        return 'eq'
    if a.op in ('int', 'bool', 'char', 'str') and b.op == a.op:
        return 'ne'
    if tainted(a) or tainted(b):
        return 'unk'
    return 'ne'


def is_boolish(t):
    return t.op == 'bool' or (t.op == 'app' and t.args[0] in ('not', 'and', 'or', 'eq', 'chin', 'lt', 'le', 'isvar', 'seqeq', 'isempty'))


def cmp_bool(E, s, a, b):
    da, db = E.decide(s, a), E.decide(s, b)
    if da is not None and db is not None:
        return 'eq' if da == db else 'ne'
    res = 'eq'
    for x, y in ((True, False), (False, True)):
        s2 = s.copy()
        if E.assume(s2, a, x) is False:
            continue
        if E.assume(s2, b, y) is False:
            continue
        if E.decide(s2, a) is (not x) or E.decide(s2, b) is (not y):
            continue
        res = 'ne'
    if res == 'ne' and (tainted(a) or tainted(b)):
        return 'unk'
    return res


def worst(l):
    l = list(l)
    return 'ne' if 'ne' in l else ('unk' if 'unk' in l else 'eq')


# loops ----------------------------------------------------------------------------------------------
def at_path(cells, path):
    """The part of the memory named by the position of a phi."""
    t = cells.get(path[0])
    for i in path[1:]:
        if t is None:
            return None
        if t.op == 'pref':
            t = t.args[0]
            continue
        k = 2 + i if t.op == 'adt' else 1 + i if t.op == 'clo' else i if t.op in ('tup', 'app') else None
        if k is None or k >= len(t.args) or type(t.args[k]) is not Term:
            return None
        t = t.args[k]
    return t


def _positions(t, seq, ln, path, out):
    if t.op == 'app' and t.args[0] == 'it' and t.args[1] is seq:
        out.append((path + (2,), t.args[2]))
    elif t.op == 'app' and t.args[0] == 'rng' and (t.args[2] is ln):
        out.append((path + (1,), t.args[1]))
    elif t.op in ('app', 'tup', 'adt', 'clo') and not (t.op == 'app' and t.args[0] not in ('zip', 'mapit', 'enumit', 'dcl', 'chain', 'filterit', 'rev')):
        off = {'adt': 2, 'clo': 1}.get(t.op, 0)
        for i, x in enumerate(t.args[off:]):
            if type(x) is Term:
                _positions(x, seq, ln, path + (i,), out)


def iterations(E, e, seq):
    """Positions in seq that a loop edge advances: [(path of the position, position at the head, position afterwards)].
    For the entry of the loop the last two are the same."""
    ln = E.mklen(e['st'], seq)
    res = []
    for c, t in e['head'].cells.items():
        out = []
        n = e['st'].cells.get(c)
        if n is None:
            continue
        _positions(t, seq, ln, (c,), out)
        if t.op == 'phi' and c[0] == 'L' and any(q.op == 'app' and q.args[0] == 'lt' and q.args[1] is t and q.args[2] is ln for q in e['st'].facts):
            out.append(((c,), t))
        for path, pos in out:
            new = at_path(e['st'].cells, path)
            if new is not None and (new is not pos or path_phi(t)):
                res.append((path, pos, new))
    return res


def path_phi(t):
    return t.op == 'phi' or any(x.op == 'phi' for x in closure(t))


# running one check ----------------------------------------------------------------------------------
def extract():
    import fcntl
    b = os.path.join(HERE, 'build')
    os.makedirs(b, exist_ok=True)
    with open(os.path.join(b, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        fd, out = tempfile.mkstemp(suffix='.json', dir=b, prefix='facts-')
        os.close(fd)
        p = subprocess.run([os.path.join(HERE, 'tools', 'facts.sh'), out], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, stdin=subprocess.DEVNULL)
    if p.returncode != 0 or not os.path.getsize(out):
        os.unlink(out)
        raise SystemExit('cannot extract facts from /repo:\n' + p.stdout[-3000:])
    return out


def known(pid):
    r = []
    p = os.path.join(HERE, 'known_findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l:
                d = json.loads(l)
                if d.get('status') == 'known' and d['property'] == pid:
                    r.append(d)
    return r


def emit(R, ctx, t0, level, explanation, extra=None):
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    kn = {d['key']: d for d in known(R.pid)}
    new = [b for b in R.bad if b[0] not in kn]
    old = [b for b in R.bad if b[0] in kn]
    st = {}
    cov = {
        'explanation': explanation,
        'rule': R.rule or explanation,
        'obligations': R.ok_n + len(R.bad) + len(R.unk),
        'discharged': R.ok_n,
        'inconclusive': len(R.unk),
        'inconclusive_items': ['%s: %s' % u for u in R.unk[:40]],
        'functions_analysed': sorted(R.fns)[:200],
        'functions': len(R.fns),
        'paths': R.paths,
        'events': R.sites,
        'samples': R.samples,
        'notes': R.notes,
        'known_findings': [b[0] for b in old],
        'violations': [{'key': k, 'text': t, 'where': w} for k, t, w in new],
    }
    cov.update(extra or {})
    ev = {'property': R.pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'wall_s': round(time.time() - t0, 2)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', R.pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k, t, w in old:
        print('KNOWN-FINDING: property=%s %s' % (R.pid, t[:300]))
    print('%s: %d obligations discharged, %d inconclusive, %d violations, %d functions, %d paths' % (
        R.pid, R.ok_n, len(R.unk), len(new), len(R.fns), R.paths))
    for t, why in R.unk[:20]:
        print('INCONCLUSIVE: %s (%s)' % (t[:200], why[:200]))
    if new:
        rp = os.path.join(HERE, 'evidence', R.pid + '.violation.json')
        json.dump({'property': R.pid, 'violations': [{'key': k, 'text': t, 'where': w} for k, t, w in new]},
                  open(rp, 'w'), indent=1)
        for k, t, w in new[:20]:
            print('  %s\n    at %s' % (t[:600], '; '.join(map(str, w))[:600]))
        print('VIOLATION property=%s replay=%s' % (R.pid, rp))
        return 1
    return 0


def where_fn(fn):
    return [fn.name]


def guard(R, text, f, *a, **k):
    """Run one part of a rule; a failure of the analysis itself is inconclusive, never an alarm."""
    try:
        return f(*a, **k)
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        last = tb[-1] if tb else None
        R.unknown(text, 'analysis failed: %s: %s%s' % (type(e).__name__, e, ' at %s:%d' % (os.path.basename(last.filename), last.lineno) if last else ''))
        return None
