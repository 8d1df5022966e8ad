"""Interned immutable terms: the value domain of the abstract interpreter.

A term is a value number: two program values with the same term are equal. Terms are never evaluated
against concrete inputs; they are compared, decomposed and constrained by path facts.
"""


class Term:
    __slots__ = ('op', 'args', 'h', 'n', 'cl')

    def __init__(self, op, args, n):
        self.op = op
        self.args = args
        self.n = n
        self.h = n * 0x9E3779B97F4A7C15 & 0xFFFFFFFFFFFF
        self.cl = None

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    def __lt__(self, o):
        return self.n < o.n

    def __repr__(self):
        return show(self)


_tab = {}


def mk(op, *args):
    k = (op, args)
    t = _tab.get(k)
    if t is None:
        t = Term(op, args, len(_tab) + 1)
        _tab[k] = t
    return t


# constructors -----------------------------------------------------------------------------------
def Int(n):
    return mk('int', n)


def Bool(b):
    return mk('bool', bool(b))


TRUE = mk('bool', True)
FALSE = mk('bool', False)
UNIT = mk('tup')
ZERO = mk('int', 0)


def Char(c):
    return mk('char', c)


def Str(s):
    return mk('str', s)


def Sym(name):
    return mk('sym', name)


def Adt(name, variant, fields):
    return mk('adt', name, variant, *fields)


def Tup(fields):
    return mk('tup', *fields)


def Ref(cell, path=()):
    return mk('ref', cell, path)


def Pref(t):
    return mk('pref', t)


def App(name, *args):
    return mk('app', name, *args)


def subterms(t):
    return [a for a in t.args if type(a) is Term]


def contains(t, s):
    """Does term t mention term s?"""
    if t is s:
        return True
    return s in closure(t)


def closure(t):
    """All strict subterms of t (memoised)."""
    if t.cl is None:
        r = set()
        stack = [t]
        while stack:
            x = stack.pop()
            for a in x.args:
                if type(a) is Term and a not in r:
                    r.add(a)
                    if a.cl is not None:
                        r |= a.cl
                    else:
                        stack.append(a)
                elif type(a) is tuple:
                    for e in a:
                        if type(e) is Term and e not in r:
                            r.add(e)
                            stack.append(e)
                        elif type(e) is tuple:
                            for e2 in e:
                                if type(e2) is Term and e2 not in r:
                                    r.add(e2)
                                    stack.append(e2)
        t.cl = frozenset(r)
    return t.cl


def subst(t, m, memo=None):
    """Replace subterms by the mapping m (outermost match first)."""
    if memo is None:
        memo = {}
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    cl = closure(t)
    if len(m) < 8:
        if not any(k in cl for k in m):
            memo[t] = t
            return t
    elif cl.isdisjoint(m.keys()):
        memo[t] = t
        return t
    a2 = []
    for a in t.args:
        if type(a) is Term:
            a2.append(subst(a, m, memo))
        elif type(a) is tuple:
            a2.append(_subst_tuple(a, m, memo))
        else:
            a2.append(a)
    r = rebuild(t.op, a2)
    memo[t] = r
    return r


def _subst_tuple(a, m, memo):
    return tuple(subst(e, m, memo) if type(e) is Term else
                 (_subst_tuple(e, m, memo) if type(e) is tuple else e) for e in a)


def rebuild(op, args):
    f = SMART.get(op)
    if f is not None:
        return f(*args)
    if op == 'app':
        g = SMART_APP.get(args[0])
        if g is not None:
            return g(*args[1:])
    return mk(op, *args)


# smart constructors ------------------------------------------------------------------------------
def Fld(base, variant, idx):
    if base.op == 'adt':
        if variant < 0 or variant == base.args[1]:
            if idx + 2 < len(base.args):
                return base.args[idx + 2]
        return mk('fld', base, variant, idx)
    if base.op == 'tup':
        if idx < len(base.args):
            return base.args[idx]
    if base.op == 'clo':
        if idx + 1 < len(base.args):
            return base.args[idx + 1]
    return mk('fld', base, variant, idx)


def Unbox(t):
    if t.op == 'app' and t.args[0] in ('box', 'arc'):
        return t.args[-1]
    return mk('app', 'unbox', t)


def Deref(t):
    if t.op == 'pref':
        return t.args[0]
    return mk('deref', t)


def is_const(t):
    return t.op in ('int', 'bool', 'char', 'str', 'fn') or (t.op in ('adt', 'tup') and all(
        is_const(a) for a in t.args if type(a) is Term))


def split_add(t):
    """t = base + k."""
    if t.op == 'app' and t.args[0] == 'add' and t.args[2].op == 'int':
        return t.args[1], t.args[2].args[0]
    if t.op == 'int':
        return None, t.args[0]
    return t, 0


def Add(a, b):
    if a.op == 'int' and b.op == 'int':
        return Int(a.args[0] + b.args[0])
    if a.op == 'int':
        a, b = b, a
    if b.op == 'int':
        if b.args[0] == 0:
            return a
        base, k = split_add(a)
        k += b.args[0]
        return base if k == 0 else mk('app', 'add', base, Int(k))
    ba, ka = split_add(a)
    bb, kb = split_add(b)
    if ka or kb:
        return Add(Add(ba, bb), Int(ka + kb))
    if b < a:
        a, b = b, a
    return mk('app', 'add', a, b)


def Sub(a, b):
    if b.op == 'int':
        return Add(a, Int(-b.args[0]))
    ba, ka = split_add(a)
    bb, kb = split_add(b)
    if ba is bb:
        return Int(ka - kb)
    if ba is not None and ba.op == 'app' and ba.args[0] == 'add':
        x, y = ba.args[1], ba.args[2]
        if x is bb:
            return Add(y, Int(ka - kb))
        if y is bb:
            return Add(x, Int(ka - kb))
    return mk('app', 'sub', a, b)


def Not(t):
    if t.op == 'bool':
        return Bool(not t.args[0])
    if t.op == 'app':
        if t.args[0] == 'not':
            return t.args[1]
        if t.args[0] == 'chin':
            return ChIn(t.args[1], FULL & ~t.args[2])
        if t.args[0] == 'lt':
            return Le(t.args[2], t.args[1])
        if t.args[0] == 'le':
            return Lt(t.args[2], t.args[1])
    return mk('app', 'not', t)


def Lt(a, b):
    """a < b over the integers, normalised to (x - y) < k form with constants on one side."""
    d = _cmp_norm(a, b)
    if d is not None:
        x, y, k = d          # x < y + k
        if x is None and y is None:
            return Bool(0 < k)
        return mk('app', 'lt', x if x is not None else ZERO, Add(y, Int(k)) if y is not None else Int(k))
    return mk('app', 'lt', a, b)


def Le(a, b):
    d = _cmp_norm(a, b)
    if d is not None:
        x, y, k = d          # x <= y + k  <=> x < y + k + 1
        if x is None and y is None:
            return Bool(0 <= k)
        return Lt(x if x is not None else ZERO, Add(y, Int(k + 1)) if y is not None else Int(k + 1))
    return mk('app', 'le', a, b)


def _cmp_norm(a, b):
    ba, ka = split_add(a)
    bb, kb = split_add(b)
    if ba is bb:
        return None, None, kb - ka
    return ba, bb, kb - ka


def is_bool_app(t):
    return t.op == 'app' and t.args[0] in ('not', 'and', 'or', 'eq', 'chin', 'lt', 'le')


def Eq(a, b):
    if a is b:
        return TRUE
    if a.op in ('int', 'bool', 'char', 'str') and b.op in ('int', 'bool', 'char', 'str'):
        return Bool(a.args == b.args and a.op == b.op)
    if a.op == 'char' or b.op == 'char':
        if a.op == 'char':
            a, b = b, a
        m = char_mask(b.args[0])
        if m is not None:
            return ChIn(a, m)
    if a.op == 'str' or b.op == 'str':
        if a.op == 'str':
            a, b = b, a
        if a.op == 'app' and a.args[0] == 'chs':
            if len(b.args[0]) != 1:
                return FALSE
            m = char_mask(ord(b.args[0]))
            if m is not None:
                return ChIn(a.args[1], m)
        if a.op == 'app' and a.args[0] == 'cat':
            p = a.args[1]
            if p.op == 'str' and not b.args[0].startswith(p.args[0]):
                return FALSE
            if p.op == 'app' and p.args[0] == 'chs' and not b.args[0]:
                return FALSE
    if a.op == 'bool':
        a, b = b, a
    if b.op == 'bool':
        return a if b.args[0] else Not(a)
    if a.op == 'adt' and b.op == 'adt' and a.args[0] == b.args[0]:
        if a.args[1] != b.args[1]:
            return FALSE
        if len(a.args) == 2:
            return TRUE
        r = TRUE
        for x, y in zip(a.args[2:], b.args[2:]):
            r = And(r, Eq(x, y))
        return r
    if a.op == 'tup' and b.op == 'tup' and len(a.args) == len(b.args):
        r = TRUE
        for x, y in zip(a.args, b.args):
            r = And(r, Eq(x, y))
        return r
    d = _cmp_norm(a, b)
    if d is not None and (a.op == 'int' or b.op == 'int' or 'add' in (a.args[:1] + b.args[:1])):
        x, y, k = d
        if x is None and y is None:
            return Bool(k == 0)
        if x is None:
            return mk('app', 'eq', y, Int(-k))
        if y is None:
            return mk('app', 'eq', x, Int(k))
        if k and y < x:
            return mk('app', 'eq', y, Add(x, Int(-k)))
        if k:
            return mk('app', 'eq', x, Add(y, Int(k)))
        a, b = x, y
    if a.op in ('int', 'char', 'str', 'adt') or (b < a and b.op not in ('int', 'char', 'str', 'adt')):
        a, b = b, a
    return mk('app', 'eq', a, b)


def And(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE or a is b:
        return a
    if a.op == 'app' and b.op == 'app' and a.args[0] == 'chin' and b.args[0] == 'chin' and a.args[1] is b.args[1]:
        return ChIn(a.args[1], a.args[2] & b.args[2])
    if b < a:
        a, b = b, a
    return mk('app', 'and', a, b)


def Or(a, b):
    if a is TRUE or b is TRUE:
        return TRUE
    if a is FALSE:
        return b
    if b is FALSE or a is b:
        return a
    if a.op == 'app' and b.op == 'app' and a.args[0] == 'chin' and b.args[0] == 'chin' and a.args[1] is b.args[1]:
        return ChIn(a.args[1], a.args[2] | b.args[2])
    if b < a:
        a, b = b, a
    return mk('app', 'or', a, b)


# character classes -----------------------------------------------------------------------------------
# bits 0..127: the ASCII characters; above: classes of non-ASCII characters.
NA_WS, NA_ALPHA, NA_NUM, NA_CTRL, NA_OTHER = (1 << 128, 1 << 129, 1 << 130, 1 << 131, 1 << 132)
FULL = (1 << 133) - 1
ASCII = (1 << 128) - 1


def mask_of(s):
    m = 0
    for c in s:
        m |= 1 << ord(c)
    return m


M_DIGIT = mask_of('0123456789')
M_UPPER = mask_of('ABCDEFGHIJKLMNOPQRSTUVWXYZ')
M_LOWER = mask_of('abcdefghijklmnopqrstuvwxyz')
M_AALPHA = M_UPPER | M_LOWER
M_ALPHA = M_AALPHA | NA_ALPHA
M_WS = mask_of('\t\n\x0b\x0c\r ') | NA_WS
M_ACTRL = mask_of(''.join(chr(i) for i in range(32)) + '\x7f')


def char_mask(n):
    """The mask holding exactly code point n, or None when n is not ASCII."""
    return 1 << n if n < 128 else None


def range_mask(lo, hi):
    """Exact mask of code points lo..=hi, or None if a non-ASCII class would be split."""
    m = 0
    if lo < 128:
        for i in range(lo, min(hi, 127) + 1):
            m |= 1 << i
    if hi < 128:
        return m
    if lo <= 128 and hi >= 0x10FFFF:
        return m | (FULL & ~ASCII)
    return None


def ChIn(ch, mask):
    mask &= FULL
    if ch.op == 'char':
        m = char_mask(ch.args[0])
        if m is None:
            m = class_of(ch.args[0])
        return Bool(bool(m & mask))
    if mask == 0:
        return FALSE
    if mask == FULL:
        return TRUE
    return mk('app', 'chin', ch, mask)


def class_of(n):
    import unicodedata
    c = chr(n)
    if c.isspace() and n not in (0x1c, 0x1d, 0x1e, 0x1f):
        return NA_WS
    if c.isalpha():
        return NA_ALPHA
    cat = unicodedata.category(c)
    if cat[0] == 'N':
        return NA_NUM
    if cat == 'Cc':
        return NA_CTRL
    return NA_OTHER


def show_mask(m):
    names = []
    neg = bin(m & ASCII).count('1') > 64
    a = (ASCII & ~m) if neg else m & ASCII
    names.append(('^' if neg else '') + ''.join(chr(i) if 32 < i < 127 else '\\x%02x' % i for i in range(128) if a >> i & 1))
    for n, b in (('ws', NA_WS), ('alpha', NA_ALPHA), ('num', NA_NUM), ('ctrl', NA_CTRL), ('other', NA_OTHER)):
        if m & b:
            names.append('U:' + n)
    return '[' + ' '.join(names) + ']'


SMART = {'fld': Fld, 'deref': Deref}
SMART_APP = {'add': Add, 'sub': Sub, 'not': Not, 'lt': Lt, 'le': Le, 'eq': Eq, 'and': And, 'or': Or, 'chin': ChIn,
             'unbox': Unbox}


def short(n):
    return n.rsplit('::', 1)[-1] if isinstance(n, str) and '<' not in n else str(n)


def show(t, d=0):
    if type(t) is not Term:
        return str(t)
    if d > 14:
        return '…'
    o, a = t.op, t.args
    if o == 'int' or o == 'bool':
        return str(a[0])
    if o == 'char':
        return repr(chr(a[0]))
    if o == 'str':
        return repr(a[0])
    if o == 'sym':
        return '$' + str(a[0])
    if o == 'adt':
        return '%s#%s(%s)' % (short(a[0]), a[1], ', '.join(show(x, d + 1) for x in a[2:]))
    if o == 'tup':
        return '(%s)' % ', '.join(show(x, d + 1) for x in a)
    if o == 'fld':
        return '%s.%s%d' % (show(a[0], d + 1), '' if a[1] < 0 else '%d:' % a[1], a[2])
    if o == 'deref':
        return '*' + show(a[0], d + 1)
    if o == 'pref':
        return '&' + show(a[0], d + 1)
    if o == 'ref':
        return '&[%s%s]' % (a[0] if type(a[0]) is str else '/'.join(str(show(x, d + 1) if type(x) is Term else x) for x in a[0]), ''.join('.' + str(p) for p in a[1]))
    if o == 'app':
        if a[0] == 'chin':
            return '%s∈%s' % (show(a[1], d + 1), show_mask(a[2]))
        return '%s(%s)' % (short(a[0]), ', '.join(show(x, d + 1) for x in a[1:]))
    return '%s<%s>' % (o, ', '.join(show(x, d + 1) for x in a))
