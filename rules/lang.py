"""C12 (field names) and C28 (numeric literals): automata extracted from the code against specification automata."""
from base import *
from fractions import Fraction
import auto
from auto import Auto, Unk, More, conform, text_of
from term import M_DIGIT, M_ALPHA

US, CARET, AT, COLON = ord('_'), ord('^'), ord('@'), ord(':')
RESERVED = ('@', 'null', 'true', 'false', 'Obj', 'Str', 'Arr', 'Tup')


def letter(a):
    return a == US or bool(M_ALPHA >> a & 1)


def digit(a):
    return 48 <= a < 58


def kind_of(a):
    if letter(a):
        return 'letter'
    if digit(a):
        return 'digit'
    if a < 128:
        return repr(chr(a))
    return 'other'


def valid_name(w):
    return bool(w) and letter(w[0]) and all(letter(a) or digit(a) for a in w)


class NameSpec:
    """A whole text is a valid field name."""
    start = 0
    empty = True
    masks = [M_DIGIT, M_ALPHA, mask_of('_')]

    def __init__(self, E):
        self.E = E

    def step(self, s, a):
        if s == 'bad':
            return s
        return 1 if letter(a) or (digit(a) and s == 1) else 'bad'

    def kind(self, w):
        for i, a in enumerate(w):
            if not (letter(a) or digit(a) and i):
                return 'with %s %s' % (kind_of(a), 'first' if i == 0 else 'inside')
        return 'valid' if w else 'empty'

    def judge(self, w, closed, e, env):
        if not closed and not any(not (letter(a) or digit(a) and i) for i, a in enumerate(w)):
            # decided without seeing the rest, which may be valid or not
            return 'ne', 'decided before the name was read to its end'
        if text_of(w) in RESERVED:
            return None
        want = valid_name(w)
        try:
            v = env.ev(e.value)
        except (Unk, More):
            return 'unk', 'result not understood'
        if v is want:
            return 'eq', ''
        return 'ne', 'a%s name is %s' % (' valid' if want else 'n invalid', 'accepted' if v else 'refused')


class FieldSpec:
    """The name of a field as read in a document: [ '@' ] name ':' ."""
    masks = [M_DIGIT, M_ALPHA, mask_of('_'), mask_of('^'), mask_of('@'), mask_of(':')]
    start = 0
    empty = False

    def __init__(self, C, E, fn, enum):
        self.C, self.E, self.fn, self.enum = C, E, fn, enum
        self.var = {n: C.P.variant(enum, n) for n in ('Parent', 'Global', 'Regular')}

    def step(self, s, a):
        if s in ('bad', 'end'):
            return s
        if s == 0 and a == AT:
            return '@'
        if s in (0, '@'):
            return 'name' if letter(a) else 'par' if a == CARET else 'bad'
        if a == COLON:
            return 'end'
        return s if letter(a) or digit(a) else 'bad'

    def kind(self, w):
        x = self.expect(w, True)
        if x is None:
            return 'unspecified'
        if x[0] == 'ok':
            return 'accept ' + x[2]
        return 'refuse ' + x[1]

    def expect(self, w, closed):
        g = bool(w) and w[0] == AT
        i = 1 if g else 0
        j = i
        while j < len(w) and (letter(w[j]) or digit(w[j]) and j > i or w[j] == CARET and j == i):
            j += 1
        if j == len(w):
            return None if not closed else ('end', w)
        if w[j] != COLON:
            return 'err', 'a character that cannot be part of a name'
        if j == i:
            return 'err', 'an empty name'
        n = w[i:j]
        if text_of(n) == '^' and not g:
            return 'ok', n, 'Parent'
        if n[0] == CARET:
            return 'err', "'^' as part of a name"
        if not g and text_of(n) in RESERVED:
            return 'err', 'a reserved word'
        if g and text_of(n) in RESERVED:
            return None
        return 'ok', w[:j], 'Global' if g else 'Regular'

    def judge(self, w, closed, e, env):
        if not w:
            return None
        x = self.expect(w, closed)
        E = self.E
        v = E.deep(e.st, e.value)
        k = env.lazy(v)
        if isinstance(k, Exception) or k[0] != 'adt':
            return 'unk', 'result not understood'
        err = k[2] == 1
        if x is None:
            # not (yet) decided by what was read
            if closed or err is False:
                return None
            g = w[:1] == (AT,)
            ok = w[1:] if g else w
            if valid_name(ok) or not ok:
                return 'ne', 'refused although it may be the beginning of a valid name'
            return None
        if x[0] == 'end':
            if err:
                return None
            p = self.payload(e, env, v)
            if p is None:
                return None
            return ('eq', '') if p[0] == w or p[0] == w[1:] and w[:1] == (AT,) else ('ne', 'the name becomes %r' % text_of(p[0]))
        if x[0] == 'err':
            return ('eq', '') if err else ('ne', 'accepted although it has ' + x[1])
        if err:
            return 'ne', 'refused although it is valid'
        p = self.payload(e, env, v)
        if p is None:
            return 'unk', 'result not understood'
        name, var = p
        want = x[1]
        if x[2] != 'Parent' and name != want and not (x[2] == 'Global' and name == want[1:]):
            return 'ne', 'the name becomes %r' % text_of(name)
        if self.var[x[2]] is not None and var != self.var[x[2]]:
            return 'ne', 'taken for another kind of field than %s' % x[2]
        return 'eq', ''

    def payload(self, e, env, v):
        try:
            b = v.args[2]
            if b.op != 'tup' or len(b.args) != 2:
                return None
            s = env.closed_string(b.args[0])
            return s, env.variant(b.args[1])
        except (Unk, More):
            return None


def words_of(A, spec_words):
    """Constants of the automaton and near misses of them, and long words for length constants."""
    ss, ns = A.consts()
    r = set()
    for s in set(ss) | set(spec_words):
        a = auto.atoms(s)
        r |= {a, a + (ord('x'),), a[:-1], (ord('x'),) + a, a + (ord('1'),)}
    for n in ns:
        for k in (n - 1, n, n + 1, n + 2):
            r.add((ord('x'),) * k)
    return r


def rule_C12(C, R):
    R.rule = ('The automaton of the field-name test and of the field reader (loop heads x control flags, guards over classes '
              'of characters, text accumulators) must agree with the specification automaton on every class of characters in '
              'every reachable pair of states; the checked constructor must have a positive test of every pair it stores.')
    guard(R, 'is_valid_field', name_test, C, R)
    guard(R, 'field reader', field_reader, C, R)
    guard(R, 'from_pairs', checked_ctor, C, R)


def name_test(C, R):
    f = C.fn('Obj::is_valid_field')
    if f is None:
        return R.unknown('field-name test', 'function not found')
    r = C.run(f)
    R.covered(r)
    A = Auto(r, lambda env: {Sym('a0'): ('s', env.word, not env.closed)})
    n = conform(A, NameSpec(r.E), R, 'is_valid_field', 'Obj::is_valid_field', sorted(words_of(A, ())))
    R.notes.append('field-name test: %d product states, %d transitions, %d inputs' % n)


def field_readers(C):
    out = []
    for f in C.stream_fns():
        t = C.P.T[f.locals[0]]
        if t.get('k') != 'adt' or not t['adt'].endswith('Result') or not t.get('args'):
            continue
        a = C.P.T[t['args'][0]]
        if a.get('k') == 'tuple' and len(a['es']) == 2:
            e0, e1 = (C.P.T[x] for x in a['es'])
            if e0.get('adt', '').endswith('String') and e1.get('kind') == 'enum' and C.P.variant(a['es'][1], 'Parent') is not None:
                out.append((f, a['es'][1]))
    return out


def field_reader(C, R):
    fs = field_readers(C)
    if len(fs) != 1:
        return R.unknown('field reader', '%d functions that read a field name' % len(fs))
    f, enum = fs[0]
    M = C.light_parser()

    def setup(E, st, args, v):
        E.assume_variant(st, App('peek', v), frozenset([1]))
    r = pm.stream_unit(M, f, setup)
    R.covered(r)
    A = Auto(r, lambda env: {r.version: ('pos', 0)})
    words = {w + x for w in words_of(A, RESERVED + ('^', '@^', '@a')) for x in ((COLON,), (COLON, 32))}
    n = conform(A, FieldSpec(C, r.E, f, enum), R, 'field-reader', 'field name', sorted(words))
    R.notes.append('field reader: %d product states, %d transitions, %d inputs' % n)


def checked_ctor(C, R):
    f = C.fn('Obj::from_pairs')
    t = C.fn('Obj::is_valid_field')
    if f is None or t is None:
        return R.unknown('checked constructor', 'function not found')
    E = C.engine('names')
    E.models.abstract[t.id] = pm.pure_call(t)
    r = C.run(f, mode='names')
    R.covered(r)
    a0 = Sym('a0')
    pt = C.adtname('Pair')
    test = App('pf', Str('is_valid_field'), Fld(E.ELEM, -1, 0))
    for s, v in r.exits:
        v = E.deep(s, v)
        if v.op != 'adt':
            R.unknown('Obj::from_pairs', 'result not understood')
            continue
        if v.args[1] == 0:
            ok = False
            for k, c in s.facts.items():
                if k.op == 'app' and k.args[0] == 'all' and k.args[1] is a0 and c == ('B', True) and norm_elem(E, k.args[3]) is norm_elem(E, test):
                    if E.decide(s, Lt(k.args[2], App('len', a0))) is False:
                        ok = True
            l, h = E.bounds(s, App('len', a0))
            if h == 0 or ok:
                R.ok('Obj::from_pairs stores pairs only after a positive name test of each of them')
            elif any(k.op == 'app' and 'is_valid_field' in repr(k) for k in s.facts) and \
                    not any(k.op == 'app' and k.args[0] == 'lt' and k.args[2] is App('len', a0) for k in s.facts):
                R.unknown('Obj::from_pairs', 'the test of the names has a form that is not understood')
            else:
                R.violation('from_pairs:unchecked', 'Obj::from_pairs can store pairs without a positive name test of every pair', where_fn(f))
            got = contents(E, s, v.args[2])
            if got is None or any(x.op == 'phi' for x in got):
                R.unknown('Obj::from_pairs keeps the given pairs', 'contents not understood')
            elif a0 in got:
                R.ok('Obj::from_pairs keeps the given pairs')
            else:
                R.violation('from_pairs:altered', 'Obj::from_pairs stores other pairs than the given ones', where_fn(f))
        else:
            e = v.args[2]
            name = e.args[2] if e.op == 'adt' and len(e.args) > 2 else None
            nm = C.var('OverError', 'InvalidFieldName')
            bad = [k for k, c in s.facts.items() if k.op == 'app' and k.args[0] == 'pf' and c == ('B', False)]
            if e.op == 'adt' and e.args[1] == nm and name is not None and any(k.args[2] is name for k in bad):
                R.ok('Obj::from_pairs refuses a pair by naming the invalid name')
            elif not bad:
                R.violation('from_pairs:refused', 'Obj::from_pairs can fail although no name was found invalid', where_fn(f))
            elif e.op == 'adt' and e.args[1] == nm and name is not None and not tainted(name):
                R.violation('from_pairs:wrong-name', 'Obj::from_pairs fails naming %s, which is not the name found invalid' % show(name)[:100], where_fn(f))
            else:
                R.unknown('Obj::from_pairs error', 'not understood: ' + show(e)[:100])


def norm_elem(E, t):
    return t


def contents(E, s, o):
    r = [o]
    work = [o]
    n = 0
    while work and n < 400:
        x = work.pop()
        n += 1
        for a in x.args:
            if type(a) is Term:
                r.append(a)
                work.append(a)
    return r


# C28 -----------------------------------------------------------------------------------------------
class NumSpec:
    """Digits with at most one separator, no two adjacent underscores, at least one digit."""
    masks = [M_DIGIT, mask_of('.'), mask_of(','), mask_of('_')]
    empty = False

    def pre(self, w):
        return bool(w) and (digit(w[0]) or w[0] in (46, 44))

    start = (False, False, False)      # separator seen, last was underscore, a digit seen

    def __init__(self, C, E):
        self.C, self.E = C, E
        self.int_v, self.frac_v = C.var('Value', 'Int'), C.var('Value', 'Frac')

    def step(self, s, a):
        if s in ('bad', 'end'):
            return s
        sep, und, dig = s
        if digit(a):
            return (sep, False, True)
        if a in (46, 44):
            return 'bad' if sep else (True, False, dig)
        if a == US:
            return 'bad' if und else (sep, True, dig)
        return 'end'

    def split(self, w):
        s = self.start
        for i, a in enumerate(w):
            s2 = self.step(s, a)
            if s2 in ('bad', 'end'):
                return s, i, s2
            s = s2
        return s, len(w), None

    def kind(self, w):
        s, i, k = self.split(w)
        if k == 'bad':
            return 'refuse ' + ('second separator' if w[i] != US else 'adjacent underscores')
        return 'accept' if s[2] else 'refuse without digits'

    def judge(self, w, closed, e, env):
        if not w or not (digit(w[0]) or w[0] in (46, 44)):
            return None
        s, i, k = self.split(w)
        if k is None and not closed:
            return 'ne', 'decided before the number ends'
        E = self.E
        v = E.deep(e.st, e.value)
        x = env.lazy(v)
        if isinstance(x, Exception) or x[0] != 'adt':
            return 'unk', 'result not understood'
        err = x[2] == 1
        if k == 'bad':
            return ('eq', '') if err else ('ne', 'accepted although it is not a number')
        if not s[2]:
            return ('eq', '') if err else ('ne', 'accepted although it has no digit')
        if err:
            if k == 'end' and not (w[i] in END):
                return None
            return 'ne', 'refused although it is a number'
        t = ''.join(chr(a) for a in w[:i] if a != US).replace(',', '.')
        if s[0]:
            p, q = t.split('.')
            want, var = Fraction(int(p or '0')) + (Fraction(int(q), 10 ** len(q)) if q else 0), self.frac_v
        else:
            want, var = int(t), self.int_v
        val = v.args[2]
        y = env.lazy(val)
        if isinstance(y, Exception) or y[0] != 'adt':
            return 'unk', 'value not understood: ' + show(val)[:80]
        if y[2] != var:
            return 'ne', 'read as another kind of value'
        z = y[3][0]
        for bad in narrow(val):
            return 'ne', 'the number passes through ' + bad
        if isinstance(z, Exception):
            return 'unk', 'value not understood: ' + show(val)[:80]
        if type(z) is tuple:
            z = z[1] if z[0] == 'q' else None
        if z is None:
            return 'unk', 'value not understood'
        return ('eq', '') if z == want else ('ne', 'read as %s' % z)


END = frozenset(ord(c) for c in ' \t\n\r)]}>#')
NARROW = ('f32', 'f64', 'u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize')


def narrow(t):
    for x in [t] + list(closure(t)):
        if x.op == 'app' and x.args[0] == 'parse' and x.args[1].args[0] in NARROW:
            yield x.args[1].args[0]
        elif x.op == 'app' and x.args[0] == 'call' and str(x.args[1].args[0]).rsplit('::', 1)[-1] in ('from_f64', 'from_f32', 'to_f64', 'from_float', 'approximate_float'):
            yield str(x.args[1].args[0]).rsplit('::', 1)[-1]


def numeric_readers(C):
    """Stream functions outside the recursion whose result is a Value and which build numbers."""
    M = C.light_parser()
    vt = C.ty('Value')
    out = []
    for f in C.stream_fns():
        t = C.P.T[f.locals[0]]
        if f.id in M.comp or t.get('k') != 'adt' or not t.get('args') or t['args'][0] != vt or not t['adt'].endswith('Result'):
            continue
        if any(C.strip(x) == vt for x in f.locals[1:1 + f.argc]):
            continue
        out.append(f)
    return out


def rule_C28(C, R):
    R.rule = ('The automaton of the numeric reader must agree with the specification automaton on every class of characters '
              'in every reachable pair of states, and the value built from its digit accumulators must be the exact number.')
    fs = []
    M = C.light_parser()
    for f in numeric_readers(C):
        r = guard(R, f.name, numeric_run, C, R, M, f)
        if r is not None:
            fs.append(r)
    if len(fs) != 1:
        return R.unknown('numeric reader', '%d functions that read a number' % len(fs))
    r = fs[0]
    R.covered(r)
    A = Auto(r, lambda env: {r.version: ('pos', 0)})
    bad = set()
    for s, v in r.exits:
        bad |= set(narrow(r.E.deep(s, v)))
        for k in s.facts:
            bad |= set(narrow(k))
    for b in sorted(bad):
        R.violation('numeric:narrow ' + b, 'the digits of a number literal pass through ' + b, where_fn(r.fn))
    R.ok('no part of the literal is parsed as a floating-point or fixed-width number')
    words = [auto.atoms(x) for x in (
        '0', '00', '007', '0.0', '1.50', '1,05', '10.010', '.5', '5.', ',5', '1_000', '1_0.0_1', '123456789012345678901234567890', '1' * 60,
        '0.' + '1' * 60, '0.' + '0' * 40 + '1', '18446744073709551616', '9223372036854775808', '0.1', '0.3', '100', '1000.0001', '1_', '1_.5', '1._5')]
    ss, ns = A.consts()
    for n in ns | {20, 40, 70, 140, 257, 300}:
        words += [auto.atoms('7' * k) for k in (n, n + 1)] + [auto.atoms('1.' + '3' * k) for k in (n, n + 1)]
    n = conform(A, NumSpec(C, r.E), R, 'numeric', 'number', words, depth=10)
    R.notes.append('numeric reader: %d product states, %d transitions, %d inputs' % n)


def numeric_run(C, R, M, f):
    def setup(E, st, args, v):
        E.assume_variant(st, App('peek', v), frozenset([1]))
        E.assume(st, ChIn(Fld(App('peek', v), 1, 0), M_DIGIT | mask_of('.,_')), True)
    r = pm.stream_unit(M, f, setup)
    iv = C.var('Value', 'Int')
    for s, v in r.exits:
        v = r.E.deep(s, v)
        if v.op == 'adt' and v.args[1] == 0:
            x = v.args[2]
            if x.op == 'adt' and x.args[1] == iv:
                return r
    return None


# C08 -----------------------------------------------------------------------------------------------
ESC = {ord(k): ord(v) for k, v in {'\\': '\\', '"': '"', "'": "'", '$': '$', 'n': '\n', 'r': '\r', 't': '\t'}.items()}
QUOTE, BACK = ord('"'), ord('\\')


def read_string(w):
    """The specification of the reader on the text after the opening quote: ('ok', text, used) | ('err',) | ('end',)."""
    out = []
    i = 0
    while i < len(w):
        a = w[i]
        if a == QUOTE:
            return 'ok', tuple(out), i + 1
        if a == BACK:
            if i + 1 == len(w):
                return ('end',)
            e = ESC.get(w[i + 1])
            if e is None:
                return ('err',)
            out.append(e)
            i += 2
        else:
            out.append(a)
            i += 1
    return ('end',)


class ReadSpec:
    start = 'open'
    empty = False
    masks = [mask_of(c) for c in '\\"\'$nrt'] + [mask_of('\n\r\t')]

    def __init__(self, C, E, version, deref):
        self.C, self.E, self.str_v, self.version, self.deref = C, E, C.var('Value', 'Str'), version, deref

    def pre(self, w):
        return bool(w) and w[0] == QUOTE

    def step(self, s, a):
        if s == 'open':
            return 'in'
        if s == 'esc':
            return 'in' if a in ESC else 'bad'
        if s == 'in':
            return 'esc' if a == BACK else 'end' if a == QUOTE else 'in'
        return s

    def kind(self, w):
        x = read_string(w[1:])
        if x[0] == 'ok':
            return 'text ' + '+'.join(sorted({('escape ' + repr(chr(w[i + 1]))) if a == BACK and i + 1 < len(w) else aname(a)
                                              for i, a in enumerate(w) if i and a not in (QUOTE,)}))[:60]
        return x[0]

    def judge(self, w, closed, e, env):
        x = read_string(w[1:])
        v = self.E.deep(e.st, e.value)
        k = env.lazy(v)
        if isinstance(k, Exception) or k[0] != 'adt':
            return 'unk', 'result not understood'
        err = k[2] == 1
        if x[0] == 'err':
            return ('eq', '') if err else ('ne', 'an unknown escape is accepted')
        if x[0] == 'end':
            if not closed:
                return 'ne', 'the text ends before its closing quote'
            return ('eq', '') if err else ('ne', 'a string without a closing quote is accepted')
        if err:
            return 'ne', 'refused'
        p = v.args[2]
        if p.op == 'adt' and len(p.args) > 2:
            if p.args[1] != self.str_v:
                return 'ne', 'read as another kind of value'
            p = p.args[2]
        try:
            t = env.closed_string(p)
        except (Unk, More):
            return 'unk', 'text not understood: ' + show(p)[:80]
        if t != x[1]:
            return 'ne', 'read as %r' % text_of(t)
        try:
            pos = env.ev(self.deref(e.st))
        except (Unk, More):
            return 'unk', 'position not understood'
        if pos[0] == 'pos' and pos[1] != x[2] + 1:
            return 'ne', '%d characters are consumed instead of %d' % (pos[1], x[2] + 1)
        return 'eq', ''


NAMES = {128: '<other space>', 129: '<other letter>', 130: '<other number>', 131: '<other control>', 132: '<other character>'}


def aname(a):
    return NAMES.get(a) or repr(chr(a))


class WriteSpec:
    start = None
    empty = True
    masks = [mask_of(c) for c in '\\"\'$nrt\n'] + [mask_of('\r'), mask_of('\t')]

    def __init__(self, E):
        self.E = E
        self.all_masks = self.masks

    def step(self, s, a):
        return a

    def kind(self, w):
        return '+'.join(sorted({aname(a) for a in w if a in (QUOTE, BACK, 36, 39, 10, 13, 9) or a >= 128 or a < 32} or {'plain text'}))

    def judge(self, w, closed, e, env):
        if not closed:
            return None
        try:
            t = env.closed_string(self.E.deep(e.st, e.value))
        except (Unk, More):
            return 'unk', 'text not understood: ' + show(e.value)[:120]
        if len(t) < 2 or t[0] != QUOTE:
            return 'ne', 'written without quotes as %s' % text_of(t)
        x = read_string(t[1:])
        if x[0] != 'ok':
            return 'ne', 'written as %s, which the reader refuses' % text_of(t)
        if x[2] != len(t) - 1:
            return 'ne', 'written as %s, which ends the string early' % text_of(t)
        if x[1] != w:
            return 'ne', 'written as %s, which is read as %r' % (text_of(t), text_of(x[1]))
        return 'eq', ''


def string_runs(C, M):
    g = pm.callgraph(C.P)
    cand = []
    vt = C.ty('Value')
    for f in C.stream_fns():
        if f.id in M.comp:
            continue
        rt = C.P.T[f.locals[0]]
        if not (rt.get('k') == 'adt' and rt['adt'].endswith('Result')) or any(C.strip(x) == vt for x in f.locals[1:1 + f.argc]):
            continue
        if rt['args'][0] != vt and not C.P.T[rt['args'][0]].get('adt', '').endswith('String'):
            continue

        def setup(E, st, args, v):
            E.assume_variant(st, App('peek', v), frozenset([1]))
            E.assume(st, ChIn(Fld(App('peek', v), 1, 0), mask_of('"')), True)
        try:
            r = pm.stream_unit(M, f, setup)
        except FAIL:
            continue
        for s, v in r.exits:
            v = r.E.deep(s, v)
            if v.op == 'adt' and v.args[1] == 0 and (v.args[2].op != 'adt' or v.args[2].args[1] == C.var('Value', 'Str')):
                cand.append((f, r))
                break
    return [(f, r) for f, r in cand if not any(f.id in reach(g, o.id) for o, _ in cand if o is not f)]


def reach(g, i):
    seen, work = set(), [i]
    while work:
        x = work.pop()
        for y in g.get(x, ()):
            if y not in seen:
                seen.add(y)
                work.append(y)
    return seen


def rule_C08(C, R):
    R.rule = ('Reader: a quote ends the string, a backslash with a documented character stands for that character, any other '
              'escape or the end of the input is an error, everything else stands for itself. Writer: what is written for a '
              'string is, read by that specification, the same string and ends with the written text.')
    guard(R, 'string reader', reader08, C, R)
    guard(R, 'string writer', writer08, C, R)


def reader08(C, R):
    M = C.light_parser()
    rs = string_runs(C, M)
    if len(rs) != 1:
        return R.unknown('string reader', '%d candidates' % len(rs))
    f, r = rs[0]
    R.covered(r)
    A = Auto(r, lambda env: {r.version: ('pos', 0)})
    si = [i for i, t in enumerate(f.locals[1:1 + f.argc]) if C.strip(t) == M.SI.ty][0]
    deref = lambda st: M.SI.version(r.E, st, r.args[si])
    sp = ReadSpec(C, r.E, r.version, deref)
    if C.P.T[f.locals[si + 1]].get('k') != 'ref':
        sp.deref = lambda st: None
    words = []
    for a in range(auto.NATOM):
        words += [(QUOTE, BACK, a, QUOTE, 32), (QUOTE, a, QUOTE, 32), (QUOTE, 65, BACK, a, a, QUOTE, 32)]
    pair = sorted(set(A.classes(sp.masks)[0]) | {9, 10, 13, 32, 36, 39, 48, 65, 110, BACK, 128})
    words += [(QUOTE, a, b, QUOTE, 32) for a in pair for b in pair] + [(QUOTE, 65, a, b, 65, QUOTE, 32) for a in pair for b in pair]
    ss, ns = A.consts()
    for s in ss:
        words.append((QUOTE,) + auto.atoms(s) + (QUOTE, 32))
    for n in ns | {70, 300}:
        words.append((QUOTE,) + (65,) * n + (QUOTE, 32))
    n = conform(A, sp, R, 'reader', 'string text', words)
    R.notes.append('string reader %s: %d product states, %d transitions, %d inputs' % ((f.name,) + n))


def writer08(C, R):
    ws = [f for f in C.format_fns() if f.canon[3].rsplit('::', 1)[-1] in ('String', 'str')]
    if len(ws) != 1:
        return R.unknown('string writer', '%d candidates' % len(ws))
    f = ws[0]
    r = C.run(f, mode='eq')
    R.covered(r)
    A = Auto(r, lambda env: {Sym('a0'): ('s', env.word, not env.closed)})
    words = [(a,) for a in range(auto.NATOM)] + [(a, b) for a in range(auto.NATOM) for b in (BACK, QUOTE, 110, 10, 36)] + \
        [(b, a) for a in range(auto.NATOM) for b in (BACK, QUOTE, 13, 36)]
    pair = sorted(set(A.classes(WriteSpec.masks)[0]) | {9, 10, 13, 32, 36, 39, 48, 65, 110, BACK, QUOTE, 128})
    words += [(a, b) for a in pair for b in pair]
    ss, ns = A.consts()
    words += [auto.atoms(s) for s in ss]
    for n in ns | {70, 300}:
        words += [(65,) * n, (QUOTE,) * n]
    n = conform(A, WriteSpec(r.E), R, 'writer', 'written string', words)
    R.notes.append('string writer %s: %d product states, %d transitions, %d inputs' % ((f.name,) + n))
