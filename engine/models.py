"""Transfer functions for library functions.

A model is m(engine, call) -> [(state, value)] or None (no opinion: inline the body or treat as unknown).
Conventions: a box is App('box', x), an Arc App('arc', x); a String or str is a text term (Str constant or
App('cat', pieces)); a sequence is seq0 / push / pushf / popf / popb / concat / map / sym ...; a slice
iterator is App('it', seq, pos, byref); the n-th element is at(seq, n).
"""
import re
from term import *
from engine import Unsupported, Call

EMPTY = Str('')


# text --------------------------------------------------------------------------------------------
def Cat(*parts):
    out = []
    for p in parts:
        ps = p.args[1:] if p.op == 'app' and p.args[0] == 'cat' else (p,)
        for q in ps:
            if q.op == 'app' and q.args[0] == 'chs' and q.args[1].op == 'char':
                q = Str(chr(q.args[1].args[0]))
            if q.op == 'str':
                if not q.args[0]:
                    continue
                if out and out[-1].op == 'str':
                    out[-1] = Str(out[-1].args[0] + q.args[0])
                    continue
            out.append(q)
    if not out:
        return EMPTY
    if len(out) == 1:
        return out[0]
    return mk('app', 'cat', *out)


SMART_APP['cat'] = Cat


def Chs(c):
    return Str(chr(c.args[0])) if c.op == 'char' else mk('app', 'chs', c)


SMART_APP['chs'] = Chs


def Disp(tyname, x):
    if tyname in ('str', 'std::string::String', 'alloc::string::String'):
        return x
    if tyname == 'char':
        return Chs(x)
    if x.op == 'int':
        return Str(str(x.args[0]))
    return App('disp', Str(tyname), x)


# sequences ---------------------------------------------------------------------------------------
SEQ0 = App('seq0')


def Concat(a, b):
    if b is SEQ0:
        return a
    if a is SEQ0:
        return b
    if b.op == 'app' and b.args[0] == 'push':
        return App('push', Concat(a, b.args[1]), b.args[2])
    return mk('app', 'concat', a, b)


def seq_norm(t):
    """arr/seqlit literals become pushes."""
    if t.op == 'arr':
        s = SEQ0
        for x in t.args:
            s = App('push', s, x)
        return s
    return t


def PopF(q):
    # removing the front of push^n(...)
    if q.op == 'app' and q.args[0] == 'push':
        if q.args[1] is SEQ0:
            return SEQ0
        inner = PopF(q.args[1])
        return App('push', inner, q.args[2])
    return mk('app', 'popf', q)


def FrontOpt(q):
    if q.op == 'app' and q.args[0] == 'push':
        if q.args[1] is SEQ0:
            return Some(q.args[2])
        f = FrontOpt(q.args[1])
        if f.op == 'adt' and f.args[1] == 1:
            return f
    if q is SEQ0:
        return NONE
    return mk('app', 'frontopt', q)


def BackOpt(q):
    if q.op == 'app' and q.args[0] == 'push':
        return Some(q.args[2])
    if q is SEQ0:
        return NONE
    return mk('app', 'backopt', q)


def PopB(q):
    if q.op == 'app' and q.args[0] == 'push':
        return q.args[1]
    return mk('app', 'popb', q)


SMART_APP['concat'] = Concat
OPT = 'core::option::Option'
RES = 'core::result::Result'
NONE = Adt(OPT, 0, [])
ELEM = mk('sym', 'ELEM')


def Some(x):
    return Adt(OPT, 1, [x])


def Ok(x):
    return Adt(RES, 0, [x])


def Err(x):
    return Adt(RES, 1, [x])


class Models:
    def __init__(self, prog):
        global OPT, RES, NONE
        self.P = prog
        self.T = prog.T
        for t in prog.T:
            if t.get('k') == 'adt':
                if t['adt'].endswith('option::Option'):
                    OPT = t['adt']
                elif t['adt'].endswith('result::Result'):
                    RES = t['adt']
        NONE = Adt(OPT, 0, [])
        self.cache = {}
        self.abstract = {}        # fn id -> transfer function (per analysis configuration)
        self.derived_clone = set()
        for it in prog.items:
            if it['derived'] and it.get('inst') is not None and re.search(r'\bClone\b', it['trait']):
                self.derived_clone.add(it['inst'])
        self.char_next = None     # fn id of the character stream's Iterator::next

    def lookup(self, fn):
        a = self.abstract.get(fn.id)
        if a is not None:
            return a
        if fn.id in self.cache:
            return self.cache[fn.id]
        m = self.find(fn)
        self.cache[fn.id] = m
        return m

    def find(self, fn):
        if fn.id in self.derived_clone:
            return m_identity
        if fn.local:
            return None
        c = fn.canon
        if c[0] == 'T':
            tr, me, slf = c[1], c[2], c[3]
            m = TR.get((tr, me))
            if m is not None:
                return m
            m = TR.get((tr, '*'))
            if m is not None:
                return m
            return None
        p = c[1]
        parts = p.split('::')
        two = '::'.join(parts[-2:])
        # strip slice / primitive receivers: core::slice::[T]::iter
        if re.search(r'(\[.*\]|slice)::\w+$', p) or '[' in parts[-2] or parts[-2].endswith(']'):
            m = SL.get(parts[-1])
            if m is not None:
                return m
        m = IN.get(two)
        if m is not None:
            return m
        return IN.get('*::' + parts[-1])


TR, IN, SL = {}, {}, {}


def tr(*keys):
    def d(f):
        for k in keys:
            t, m = k.split('::')
            TR[(t, m)] = f
        return f
    return d


def inh(*keys):
    def d(f):
        for k in keys:
            IN[k] = f
        return f
    return d


def sl(*keys):
    def d(f):
        for k in keys:
            SL[k] = f
        return f
    return d


# helpers -----------------------------------------------------------------------------------------
def val(E, c, i):
    """The i-th argument with all references followed (one or more levels)."""
    t = c.args[i]
    n = 0
    while t.op in ('ref', 'pref') and n < 8:
        t = E.load_ref(c.st, t)
        n += 1
    if t.op == 'arr':
        t = seq_norm(t)
    return t


def content(E, c, i):
    """Content one level behind the i-th argument (a reference)."""
    t = c.args[i]
    if t.op in ('ref', 'pref'):
        return E.load_ref(c.st, t)
    if is_ref_ty(E, c, i):
        return E.load_ref(c.st, t)
    return t


def is_ref_ty(E, c, i):
    m = c.fn.muts
    return m is not None and i < len(m) and m[i] in (0, 1)


def one(c, v):
    return [(c.st, v)]


def pure(name):
    def f(E, c):
        args = [val(E, c, i) for i in range(len(c.args))]
        return [(c.st, E.wrap(App(name, *[E.deep(c.st, a) for a in args]), c.dty))]
    return f


def ret_ref(E, c, t):
    """Value for a result of type &T with content t."""
    return Pref(t)


def m_identity(E, c):
    return one(c, content(E, c, 0))


def deep1(E, c, t):
    return E.deep(c.st, t)


def branch_bool(E, c, t):
    """Return t as a boolean, decided if possible."""
    r = E.decide(c.st, t)
    return one(c, t if r is None else Bool(r))


def fresh(E, c, name, *args):
    return App(name, Int(E.fid(('fresh', c.site))), *args)


# pointers ----------------------------------------------------------------------------------------
@inh('Box::new', 'boxed::box_new')
def m_box_new(E, c):
    return one(c, App('box', c.args[0]))


@inh('Arc::new')
def m_arc_new(E, c):
    E.emit('arc_new', c.st, c.fr, span=c.span, content=c.args[0], fn=c.fn)
    return one(c, App('arc', c.args[0]))


@inh('Rc::new')
def m_rc_new(E, c):
    n = c.st.gh.get(('rc', c.site), 0)
    cell = ('RC', c.fr.fid, c.site[1])
    c.st.cells[cell] = c.args[0]
    return one(c, Ref(cell))


@inh('RefCell::new', 'Cell::new', 'Mutex::new')
def m_same(E, c):
    return one(c, c.args[0])


@inh('Arc::ptr_eq', 'Rc::ptr_eq', 'ptr::eq', 'ptr::addr_eq')
def m_ptr_eq(E, c):
    a, b = content(E, c, 0), content(E, c, 1)
    if a is b:
        return one(c, TRUE)
    if b < a:
        a, b = b, a
    return branch_bool(E, c, App('ptreq', a, b))


@inh('Arc::strong_count', 'Rc::strong_count')
def m_count(E, c):
    return one(c, App('strong_count', deep1(E, c, val(E, c, 0))))


def kind_of(slf):
    s = re.sub(r'^&(\'\w+ )?(mut )?', '', slf)
    m = re.match(r'(?:std|alloc|core)::(?:[a-z_0-9]+::)*([A-Za-z]\w*)', s)
    return m.group(1) if m else s


@tr('Deref::deref', 'DerefMut::deref_mut', 'AsRef::as_ref', 'AsMut::as_mut', 'Borrow::borrow', 'BorrowMut::borrow_mut')
def m_deref(E, c):
    k = kind_of(c.fn.canon[3])
    a = c.args[0]
    if k == 'Box':
        if a.op == 'ref':
            return one(c, Ref(a.args[0], a.args[1] + ('*b',)))
        return one(c, Pref(Unbox(E.load_ref(c.st, a))))
    if k == 'Arc':
        return one(c, Pref(Unbox(E.load_ref(c.st, a))))
    if k == 'Rc':
        v = E.load_ref(c.st, a)
        return one(c, v if v.op in ('ref', 'pref') else Pref(App('rcval', v)))
    if k in ('Ref', 'RefMut', 'MutexGuard'):
        v = E.load_ref(c.st, a)
        if v.op == 'app' and v.args[0] in ('Ref', 'RefMut'):
            return one(c, v.args[1])
        return None
    if k in ('String', 'Vec', 'PathBuf', 'str', 'Path', 'OsString', 'OsStr', 'ManuallyDrop') or k.startswith('['):
        if a.op in ('ref', 'pref'):
            return one(c, a)
        return one(c, Pref(E.load_ref(c.st, a)) if c.fn.canon[1] in ('Deref', 'AsRef', 'Borrow') else a)
    return None


@inh('RefCell::borrow', 'RefCell::borrow_mut', 'RefCell::get_mut')
def m_borrow(E, c):
    a = c.args[0]
    mut = 'mut' in c.fn.canon[1].rsplit('::', 1)[-1]
    cellref = a if a.op == 'ref' else Ref(('H', a))
    if c.fn.canon[1].endswith('get_mut'):
        return one(c, cellref)
    # dynamic borrow rules
    live = [b for b in c.st.bor if b.args[1] is cellref]
    if live and (mut or any(b.args[0] == 'RefMut' for b in live)):
        E.emit('panic', c.st, c.fr, what='RefCell already borrowed', span=c.span, cond=None, vals=[], block=c.site[1])
    else:
        E.emit('assert_ok', c.st, c.fr, what='refcell', span=c.span, cond=None)
    g = App('RefMut' if mut else 'Ref', cellref, Int(E.fid(('bor', c.site))))
    c.st.bor[g] = 1
    return one(c, g)


@tr('Clone::clone', 'ToOwned::to_owned')
def m_clone(E, c):
    slf = c.fn.canon[3]
    k = kind_of(slf)
    if c.fn.canon[2] != 'clone' and c.fn.canon[2] != 'to_owned':
        return None
    if k == 'Rc':
        return one(c, E.load_ref(c.st, c.args[0]))
    v = E.load_ref(c.st, c.args[0]) if c.args[0].op in ('ref', 'pref') or is_ref_ty(E, c, 0) else c.args[0]
    if 'Option' in slf or 'Result' in slf or slf.startswith('('):
        return one(c, v) if not c.fn.dumped or all_content(slf) else None
    return one(c, v)


def all_content(slf):
    return 'Peekable' not in slf


# conversions -------------------------------------------------------------------------------------
@tr('From::from', 'Into::into')
def m_from(E, c):
    if c.fn.dumped:
        return None
    tref, slf = c.fn.canon[4], c.fn.canon[3]
    m = re.search(r'From<(.*)>$', tref)
    src = m.group(1) if m else '?'
    k = kind_of(slf)
    if k in ('String', 'Box', 'Arc', 'Rc', 'PathBuf', 'OsString') and kind_of(src) in ('str', 'String', "&'a str", 'Box', 'Cow', '&str', 'PathBuf', 'Path', 'OsString') or k == 'String':
        v = val(E, c, 0)
        if src == 'char':
            return one(c, Chs(v))
        return one(c, v)
    if k == 'Box':
        return one(c, App('box', c.args[0]))
    if k == 'Arc':
        return one(c, App('arc', c.args[0]))
    if k == 'Vec':
        return one(c, val(E, c, 0))
    if src == slf:
        return one(c, c.args[0])
    if 'Ratio' in slf:
        if src.startswith('(') or 'Ratio' in src:
            return None
        return one(c, App('ratio', val(E, c, 0), App('bigint', Int(1))))
    if 'BigInt' in slf:
        v = val(E, c, 0)
        return one(c, App('bigint', v))
    if re.match(r'^[iu](\d+|size)$', slf) and re.match(r'^[iu](\d+|size)$|^char$|^bool$', src):
        v = val(E, c, 0)
        if src == 'char':
            return one(c, Int(v.args[0]) if v.op == 'char' else App('ord', v))
        if src == 'bool':
            return one(c, App('b2i', v))
        return one(c, v)
    if slf == 'char' and src == 'u8':
        return one(c, App('chr', val(E, c, 0)))
    return None


@tr('FnOnce::call_once', 'FnMut::call_mut', 'Fn::call')
def m_call(E, c):
    if c.fn.dumped:
        return None
    a = c.args[0]
    f = a
    while f.op in ('ref', 'pref'):
        f = E.load_ref(c.st, f)
    tup = c.args[1]
    n = len(tup.args) if tup.op == 'tup' else None
    if n is None:
        return None
    return E.call_closure(c.fr, a, list(tup.args), c.st, c.span, c.site, c.dty)


@tr('Default::default')
def m_default(E, c):
    if c.fn.dumped:
        return None
    k = kind_of(c.fn.canon[3])
    r = {'Vec': SEQ0, 'VecDeque': SEQ0, 'String': EMPTY, 'HashMap': App('map0'), 'HashSet': App('set0'),
         'BTreeMap': App('map0'), 'BTreeSet': App('set0'), 'bool': FALSE, 'usize': ZERO, 'u8': ZERO, 'u32': ZERO,
         'i32': ZERO, 'u64': ZERO, 'i64': ZERO, 'Option': NONE}.get(k)
    return None if r is None else one(c, r)


@inh('mem::take')
def m_take(E, c):
    v = E.load_ref(c.st, c.args[0])
    T = E.T[c.dty]
    k = T.get('adt', '').rsplit('::', 1)[-1]
    d = {'Vec': SEQ0, 'VecDeque': SEQ0, 'String': EMPTY, 'HashMap': App('map0'), 'HashSet': App('set0'), 'Option': NONE}.get(k)
    if T.get('k') == 'bool':
        d = FALSE
    elif T.get('k') in ('int', 'uint'):
        d = ZERO
    if d is None:
        return None
    E.store_ref(c.st, c.args[0], d)
    return one(c, v)


@inh('mem::replace')
def m_replace(E, c):
    v = E.load_ref(c.st, c.args[0])
    E.store_ref(c.st, c.args[0], c.args[1])
    return one(c, v)


@inh('mem::swap')
def m_swap(E, c):
    a, b = E.load_ref(c.st, c.args[0]), E.load_ref(c.st, c.args[1])
    E.store_ref(c.st, c.args[0], b)
    E.store_ref(c.st, c.args[1], a)
    return one(c, UNIT)


@inh('mem::drop', 'mem::forget')
def m_drop(E, c):
    E.release(c.st, c.args[0])
    return one(c, UNIT)


@inh('hint::must_use', 'hint::black_box', 'mem::transmute', 'intrinsics::transmute')
def m_id(E, c):
    return one(c, c.args[0])


# equality ----------------------------------------------------------------------------------------
@tr('PartialEq::eq', 'PartialEq::ne')
def m_eq(E, c):
    if c.fn.dumped:
        return None
    a, b = eqval(E, c, 0), eqval(E, c, 1)
    slf = c.fn.canon[3]
    if a.op == 'app' and b.op == 'app' and a.args[0] == b.args[0] == 'discr':
        return eq_discr(E, c, a.args[1], b.args[1])
    if kind_of(slf) == 'Box':
        # Box<T> == Box<T> is T == T
        a, b = Unbox(a), Unbox(b)
    elem = E.local_eq(c.fn)
    if elem is not None:
        if kind_of(slf) == 'Box':
            r = E.call_fn(c.fr, elem, [Pref(a), Pref(b)], c.st, c.span, c.site, c.dty, None)
            return [(s, Not(v) if c.fn.method == 'ne' else v) for s, v in r]
        e = App('seqeq', Str(elem.canon[3].rsplit('::', 1)[-1]), a, b) if a is not b else App('seqeq', Str(elem.canon[3].rsplit('::', 1)[-1]), a, b)
    else:
        e = Eq(a, b)
        if 'BigInt' in slf:
            zero = App('bigint', ZERO)
            zs = [App('ratio', zero, App('bigint', Int(1)))] if 'Ratio' in slf else [zero]
            if a in zs or b in zs:
                x = b if a in zs else a
                e = FALSE if nonzero(E, c.st, x) else App('iszero', x)
    if c.fn.method == 'ne':
        e = Not(e)
    return branch_bool(E, c, e)


def eqval(E, c, i):
    t = val(E, c, i)
    return E.deep(c.st, t)


def eq_discr(E, c, a, b):
    va, vb = E.get_variants(c.st, a), E.get_variants(c.st, b)
    if va is None or vb is None:
        T = E.T[c.fn.targs[0]] if c.fn.targs else {}
        T = E.T[T['args'][0]] if T.get('args') else {}
        if not T.get('vars'):
            return one(c, Eq(App('discr', a), App('discr', b)))
        al = frozenset(range(len(T['vars'])))
        va, vb = va or al, vb or al
    out = []
    yes = c.fn.method == 'eq'
    for i in sorted(va):
        for same, w in ((True, vb & {i}), (False, vb - {i})):
            s = c.st.copy()
            if w and E.assume_variant(s, a, frozenset([i])) and E.assume_variant(s, b, frozenset(w)):
                out.append((s, Bool(same is yes)))
    return out


@tr('PartialOrd::lt', 'PartialOrd::le', 'PartialOrd::gt', 'PartialOrd::ge')
def m_ord(E, c):
    if 'BigInt' in c.fn.canon[3] and not c.fn.local:
        a, b = eqval(E, c, 0), eqval(E, c, 1)
        m = c.fn.method
        e = App('cmp:lt', *((a, b) if m in ('lt', 'ge') else (b, a)))
        return branch_bool(E, c, Not(e) if m in ('le', 'ge') else e)
    if c.fn.dumped:
        return None
    a, b = eqval(E, c, 0), eqval(E, c, 1)
    T = E.T[c.fn.targs[0]] if c.fn.targs else {}
    while T.get('k') == 'ref':
        T = E.T[T['e']]
    if T.get('k') in ('uint', 'int'):
        m = c.fn.method
        return branch_bool(E, c, {'lt': lambda: Lt(a, b), 'le': lambda: Le(a, b), 'gt': lambda: Lt(b, a), 'ge': lambda: Le(b, a)}[m]())
    return one(c, App('cmp:' + c.fn.method, a, b))


@tr('Ord::min', 'Ord::max')
def m_minmax(E, c):
    a, b = c.args
    if E.T[c.dty].get('k') not in ('uint', 'int'):
        return None
    out = []
    s2 = c.st.copy()
    lo, hi = (a, b) if c.fn.method == 'min' else (b, a)
    for st, t, r in ((c.st, True, lo), (s2, False, hi)):
        if E.assume(st, Le(a, b), t) is not False:
            out.append((st, r))
    return out


# characters --------------------------------------------------------------------------------------
M_ANUM = M_ALPHA | M_DIGIT | NA_NUM
CH = {
    'is_alphabetic': M_ALPHA, 'is_whitespace': M_WS, 'is_numeric': M_DIGIT | NA_NUM, 'is_alphanumeric': M_ANUM,
    'is_control': M_ACTRL | NA_CTRL, 'is_ascii': ASCII, 'is_ascii_digit': M_DIGIT, 'is_ascii_alphabetic': M_AALPHA,
    'is_ascii_alphanumeric': M_AALPHA | M_DIGIT, 'is_ascii_uppercase': M_UPPER, 'is_ascii_lowercase': M_LOWER,
    'is_ascii_whitespace': mask_of('\t\n\x0c\r '), 'is_ascii_control': M_ACTRL,
    'is_ascii_punctuation': mask_of('!"#$%&\'()*+,-./:;<=>?@[\\]^_`{|}~'),
    'is_ascii_hexdigit': mask_of('0123456789abcdefABCDEF'), 'is_ascii_graphic': mask_of(''.join(map(chr, range(33, 127)))),
}


def m_char(name):
    mask = CH[name]

    def f(E, c):
        t = val(E, c, 0)
        if 'u8' in c.fn.canon[1].split('::')[-2]:
            return None
        return branch_bool(E, c, ChIn(t, mask))
    return f


for _n in CH:
    IN['char::' + _n] = m_char(_n)


@inh('char::is_digit')
def m_is_digit(E, c):
    r = c.args[1]
    if r.op != 'int':
        return None
    m = mask_of('0123456789'[:min(r.args[0], 10)])
    for i in range(10, r.args[0]):
        m |= mask_of(chr(87 + i) + chr(55 + i))
    return branch_bool(E, c, ChIn(val(E, c, 0), m))


@inh('char::to_digit')
def m_to_digit(E, c):
    r = c.args[1]
    if r.op != 'int' or r.args[0] > 10:
        return None
    ch = val(E, c, 0)
    m = mask_of('0123456789'[:r.args[0]])
    out = []
    s2 = c.st.copy()
    if E.assume(s2, ChIn(ch, m), True):
        out.append((s2, Some(App('digit', ch))))
    if E.assume(c.st, ChIn(ch, m), False):
        out.append((c.st, NONE))
    return out


@inh('char::len_utf8')
def m_len_utf8(E, c):
    return one(c, App('utf8len', val(E, c, 0)))


# strings -----------------------------------------------------------------------------------------
@inh('String::new')
def m_snew(E, c):
    return one(c, EMPTY)


@inh('String::with_capacity')
def m_scap(E, c):
    return one(c, EMPTY)


@inh('String::push')
def m_spush(E, c):
    s = E.load_ref(c.st, c.args[0])
    E.emit('str_push', c.st, c.fr, s=s, ch=c.args[1], ref=c.args[0], span=c.span)
    E.store_ref(c.st, c.args[0], Cat(s, Chs(c.args[1])))
    return one(c, UNIT)


@inh('String::push_str')
def m_spush_str(E, c):
    s = E.load_ref(c.st, c.args[0])
    E.store_ref(c.st, c.args[0], Cat(s, val(E, c, 1)))
    return one(c, UNIT)


@tr('AddAssign::add_assign')
def m_add_assign(E, c):
    if c.fn.dumped:
        return None
    if 'String' in c.fn.canon[3]:
        return m_spush_str(E, c)
    a = E.load_ref(c.st, c.args[0])
    r = arith(E, c, 'add', a, val(E, c, 1))
    E.store_ref(c.st, c.args[0], r)
    return one(c, UNIT)


@inh('String::as_str', 'String::as_mut_str', 'PathBuf::as_path', 'String::into_boxed_str', 'String::as_bytes', 'str::as_bytes',
     'Vec::as_slice', 'Vec::as_mut_slice', 'String::into_string', 'str::to_lowercase_')
def m_asref(E, c):
    return one(c, c.args[0])


@sl('as_bytes', 'to_vec', 'into_vec')
def m_sl_id(E, c):
    n = c.fn.method
    if n == 'to_vec':
        return one(c, val(E, c, 0))
    if n == 'into_vec':
        v = c.args[0]
        if v.op == 'app' and v.args[0] == 'box':
            v = v.args[1]
        return one(c, seq_norm(v) if v.op == 'arr' else v)
    return one(c, c.args[0])


@inh('boxed::box_assume_init_into_vec_unsafe', 'vec::from_box_array', 'slice::into_vec', '*::box_assume_init_into_vec_unsafe')
def m_box_vec(E, c):
    v = val(E, c, 0)
    while v.op == 'app' and v.args[0] in ('box',):
        v = v.args[1]
    while v.op == 'adt' and len(v.args) > 2 and type(v.args[-1]) is Term:
        v = v.args[-1]
    return one(c, seq_norm(v))


@inh('String::is_empty', 'str::is_empty')
def m_s_empty(E, c):
    s = val(E, c, 0)
    if s.op == 'str':
        return one(c, Bool(not s.args[0]))
    if s.op == 'app' and s.args[0] == 'cat':
        if any(p.op == 'str' or p.op == 'app' and p.args[0] == 'chs' for p in s.args[1:]):
            return one(c, FALSE)
    if s.op == 'app' and s.args[0] == 'chs':
        return one(c, FALSE)
    return branch_bool(E, c, App('isempty', deep1(E, c, s)))


@inh('String::len', 'str::len')
def m_s_len(E, c):
    s = val(E, c, 0)
    if s.op == 'str':
        return one(c, Int(len(s.args[0].encode())))
    return one(c, App('len', deep1(E, c, s)))


@inh('String::clear')
def m_s_clear(E, c):
    E.store_ref(c.st, c.args[0], EMPTY)
    return one(c, UNIT)


@inh('str::repeat')
def m_repeat(E, c):
    s = val(E, c, 0)
    n = c.args[1]
    if s.op == 'str' and n.op == 'int':
        return one(c, Str(s.args[0] * n.args[0]))
    return one(c, App('repeat', s, n))


@inh('str::chars')
def m_chars(E, c):
    return one(c, App('it', App('chars', deep1(E, c, val(E, c, 0))), ZERO, ZERO))


@inh('str::char_indices')
def m_char_ix(E, c):
    return one(c, App('enumit', App('it', App('chars', deep1(E, c, val(E, c, 0))), ZERO, ZERO), mk('app', 'byteix')))


@inh('str::bytes')
def m_bytes(E, c):
    return one(c, App('it', App('bytes', deep1(E, c, val(E, c, 0))), ZERO, ZERO))


def first_char(E, st, s):
    """(definitely nonempty first char term or None, definitely empty?)"""
    if s.op == 'str':
        return (Char(ord(s.args[0][0])), False) if s.args[0] else (None, True)
    if s.op == 'app' and s.args[0] == 'cat':
        p = s.args[1]
        if p.op == 'str':
            return Char(ord(p.args[0][0])), False
        if p.op == 'app' and p.args[0] == 'chs':
            return p.args[1], False
    if s.op == 'app' and s.args[0] == 'chs':
        return s.args[1], False
    return None, False


@inh('str::starts_with')
def m_starts(E, c):
    s = val(E, c, 0)
    p = c.args[1]
    while p.op in ('ref', 'pref'):
        p = E.load_ref(c.st, p)
    if p.op == 'char':
        ch, empty = first_char(E, c.st, s)
        if empty:
            return one(c, FALSE)
        if ch is not None:
            return branch_bool(E, c, Eq(ch, p))
    return branch_bool(E, c, App('starts_with', deep1(E, c, s), deep1(E, c, p)))


IN['str::ends_with'] = pure('ends_with')
IN['str::trim_end_matches'] = pure('trim_end_matches')
IN['str::trim_start_matches'] = pure('trim_start_matches')
IN['str::trim_matches'] = pure('trim_matches')
IN['str::trim'] = pure('trim')
IN['str::trim_end'] = pure('trim_end')
IN['str::trim_start'] = pure('trim_start')
IN['str::replace'] = pure('replace')
IN['str::to_lowercase'] = pure('lower')
IN['str::to_uppercase'] = pure('upper')
IN['str::to_ascii_lowercase'] = pure('alower')
IN['str::eq_ignore_ascii_case'] = pure('eqic')
IN['str::to_string'] = m_clone
IN['str::to_owned'] = m_clone
IN['str::find'] = pure('strfind')
IN['str::split'] = pure('split')
IN['str::lines'] = pure('lines')


@inh('str::contains')
def m_s_contains(E, c):
    s = val(E, c, 0)
    p = c.args[1]
    while p.op in ('ref', 'pref'):
        p = E.load_ref(c.st, p)
    a, b = deep1(E, c, s), deep1(E, c, p)
    if a.op == 'str' and a.args[0].isascii() and any(E.T[t].get('k') == 'char' for t in c.fn.targs if t in E.T or type(t) is int):
        return branch_bool(E, c, ChIn(b, mask_of(a.args[0])))
    return branch_bool(E, c, App('strcontains', a, b))


@inh('str::parse')
def m_parse(E, c):
    s = deep1(E, c, val(E, c, 0))
    T = E.T[c.dty]
    ok = E.T[T['args'][0]]['n'] if T.get('args') else '?'
    r = App('parse', Str(short_ty(ok)), s)
    return one(c, r)


@tr('FromStr::from_str')
def m_from_str(E, c):
    if c.fn.dumped:
        return None
    return m_parse(E, c)


def short_ty(n):
    n = re.sub(r"<'[a-z_]+>", '', n)
    return n.rsplit('::', 1)[-1] if '<' not in n else n


@tr('ToString::to_string')
def m_to_string(E, c):
    if c.fn.dumped and c.fn.local:
        return None
    T = strip_ty(E, c.fn.targs[0] if c.fn.targs else None) or c.fn.canon[3]
    return one(c, Disp(tyname(T), deep1(E, c, val(E, c, 0))))


def strip_ty(E, ti):
    if ti is None:
        return None
    t = E.T[ti]
    while t.get('k') == 'ref' or t.get('box') or t.get('k') == 'adt' and t['adt'].endswith('boxed::Box'):
        t = E.T[t['e']] if t.get('k') == 'ref' else E.T[t['args'][0]]
    return t['n']


def tyname(n):
    n = re.sub(r'^(&(\'\w+ )?(mut )?)+', '', n)
    n = n.replace('std::string::String', 'String').replace('alloc::string::String', 'String')
    if n in ('String', 'str', 'char'):
        return {'String': 'str'}.get(n, n)
    return short_ty(n) if '<' not in n else re.sub(r'\b\w+::', '', n)


# formatting --------------------------------------------------------------------------------------
@inh('Argument::new_display', 'Argument::new_debug', 'Argument::new_lower_hex', 'Argument::new_upper_hex',
     'Argument::new_octal', 'Argument::new_binary', 'Argument::new_pointer', 'Argument::new_lower_exp')
def m_arg(E, c):
    T = tyname(strip_ty(E, c.fn.targs[-1]) or '?')
    x = val(E, c, 0)
    while x.op == 'app' and x.args[0] == 'box':
        x = x.args[1]
    bx = E.T[c.fn.targs[-1]]
    t = bx
    ub = 0
    while True:
        if t.get('k') == 'ref':
            t = E.T[t['e']]
        elif t.get('k') == 'adt' and t['adt'].endswith('boxed::Box'):
            t = E.T[t['args'][0]]
            ub += 1
        else:
            break
    if ub and not (val(E, c, 0).op == 'app' and val(E, c, 0).args[0] == 'box'):
        x = Unbox(x)
    x = deep1(E, c, x)
    k = c.fn.method
    if k == 'new_display':
        d = Disp(T, x)
        return one(c, App('farg', Str('disp'), d))
    return one(c, App('farg', Str(k[4:]), App(k[4:], Str(T), x)))


def as_bytes(t):
    while t.op == 'pref':
        t = t.args[0]
    if t.op == 'bytes':
        return bytes(t.args[0])
    if t.op == 'arr':
        return bytes(x.args[0] for x in t.args)
    if t.op == 'str':
        return t.args[0].encode()
    return None


@inh('Arguments::new')
def m_args_new(E, c):
    tpl = as_bytes(c.args[0])
    args = c.args[1]
    while args.op in ('ref', 'pref'):
        args = E.load_ref(c.st, args)
    if tpl is None or args.op != 'arr':
        return None
    out = []
    i = 0
    k = 0
    while i < len(tpl):
        n = tpl[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            out.append(Str(tpl[i:i + n].decode()))
            i += n
        elif n == 0x80:
            ln = tpl[i] | tpl[i + 1] << 8
            out.append(Str(tpl[i + 2:i + 2 + ln].decode()))
            i += 2 + ln
        else:
            opts = []
            if n & 1:
                opts.append(int.from_bytes(tpl[i:i + 4], 'little'))
                i += 4
            if n & 2:
                opts.append(('w', int.from_bytes(tpl[i:i + 2], 'little')))
                i += 2
            if n & 4:
                opts.append(('p', int.from_bytes(tpl[i:i + 2], 'little')))
                i += 2
            if n & 8:
                k = int.from_bytes(tpl[i:i + 2], 'little')
                i += 2
            a = args.args[k]
            k += 1
            d = a.args[2] if a.op == 'app' and a.args[0] == 'farg' else App('fmtarg', a)
            if opts:
                d = App('fmtopt', Str(repr(opts)), d)
            out.append(d)
    return one(c, App('fmtargs', Cat(*out)))


@inh('Arguments::from_str', 'Arguments::new_const', 'Arguments::from_str_nonconst')
def m_args_str(E, c):
    return one(c, App('fmtargs', val(E, c, 0)))


def text_of(t):
    return t.args[1] if t.op == 'app' and t.args[0] == 'fmtargs' else App('fmttext', t)


@inh('fmt::format', 'string::format')
def m_format(E, c):
    return one(c, text_of(c.args[0]))


def write_to(E, c, text, fallible=True):
    old = E.load_ref(c.st, c.args[0])
    new = Cat(old, text)
    E.store_ref(c.st, c.args[0], new)
    if not fallible:
        return one(c, Ok(UNIT))
    return one(c, App('fmtres', Int(E.fid(('fmt', c.site)))))


@inh('Formatter::write_fmt')
def m_write_fmt(E, c):
    return write_to(E, c, text_of(c.args[1]))


@inh('Formatter::write_str', 'Formatter::pad')
def m_write_str(E, c):
    return write_to(E, c, val(E, c, 1))


@inh('Formatter::write_char')
def m_write_char(E, c):
    return write_to(E, c, Chs(val(E, c, 1)))


@tr('Write::write_str', 'Write::write_char', 'Write::write_fmt')
def m_w(E, c):
    if c.fn.dumped:
        return None
    if 'Formatter' in c.fn.canon[3] or 'String' in c.fn.canon[3]:
        k = c.fn.method
        t = text_of(c.args[1]) if k == 'write_fmt' else Chs(val(E, c, 1)) if k == 'write_char' else val(E, c, 1)
        return write_to(E, c, t, 'Formatter' in c.fn.canon[3])
    if c.fn.method == 'write_fmt':
        return io_write(E, c, text_of(c.args[1]))
    return None


@tr('Display::fmt', 'Debug::fmt')
def m_display(E, c):
    if c.fn.local:
        return None
    T = tyname(c.fn.canon[3])
    x = deep1(E, c, val(E, c, 0))
    t = Disp(T, x) if c.fn.trait == 'Display' else App('debug', Str(T), x)
    c2 = Call(c.fr, c.fn, [c.args[1]], c.st, c.span, c.site, c.dty, c.t)
    return write_to(E, c2, t)


# sequences ---------------------------------------------------------------------------------------
@inh('Vec::new', 'VecDeque::new', 'Vec::with_capacity', 'VecDeque::with_capacity')
def m_vnew(E, c):
    return one(c, SEQ0)


@inh('Vec::push', 'VecDeque::push_back')
def m_push(E, c):
    v = E.load_ref(c.st, c.args[0])
    E.emit('push', c.st, c.fr, seq=v, item=c.args[1], ref=c.args[0], span=c.span, fn=c.fn)
    E.store_ref(c.st, c.args[0], App('push', v, c.args[1]))
    return one(c, UNIT)


@inh('VecDeque::push_front')
def m_pushf(E, c):
    v = E.load_ref(c.st, c.args[0])
    E.emit('pushf', c.st, c.fr, seq=v, item=c.args[1], ref=c.args[0], span=c.span, fn=c.fn)
    E.store_ref(c.st, c.args[0], App('pushf', v, c.args[1]))
    return one(c, UNIT)


def popper(front):
    def f(E, c):
        q = E.load_ref(c.st, c.args[0])
        o = FrontOpt(q) if front else BackOpt(q)
        out = []
        if o.op == 'adt':
            E.store_ref(c.st, c.args[0], q if o.args[1] == 0 else (PopF(q) if front else PopB(q)))
            return one(c, o)
        vs = E.get_variants(c.st, o)
        if vs is None:
            lo, hi = E.bounds(c.st, E.mklen(c.st, q))
            vs = frozenset([1]) if lo and lo > 0 else frozenset([0]) if hi == 0 else frozenset([0, 1])
        for v in sorted(vs):
            s = c.st if v == max(vs) else c.st.copy()
            if E.assume_variant(s, o, frozenset([v])):
                if v == 1:
                    E.store_ref(s, c.args[0], PopF(q) if front else PopB(q))
                    out.append((s, Some(Fld(o, 1, 0))))
                else:
                    out.append((s, NONE))
        E.emit('pop', c.st, c.fr, seq=q, front=front, fn=c.fn, span=c.span)
        return out
    return f


IN['VecDeque::pop_front'] = popper(True)
IN['VecDeque::pop_back'] = popper(False)
IN['Vec::pop'] = popper(False)


@inh('Vec::remove', 'VecDeque::remove', 'Vec::swap_remove', 'Vec::drain', 'Vec::truncate', 'Vec::insert', 'Vec::dedup',
     'Vec::retain', 'Vec::sort', 'Vec::reverse', 'Vec::swap')
def m_vmut(E, c):
    k = c.fn.method
    v = E.load_ref(c.st, c.args[0])
    extra = [deep1(E, c, a) for a in c.args[1:]]
    if k == 'remove' and extra and extra[0] is ZERO and 'Vec::' in c.fn.key:
        # the front element
        o = FrontOpt(v)
        lo, hi = E.bounds(c.st, E.mklen(c.st, v))
        if not lo or lo < 1:
            E.emit('panic', c.st, c.fr, what='Vec::remove out of bounds', span=c.span, cond=None, vals=[], block=c.site[1])
        E.assume_variant(c.st, o, frozenset([1]))
        E.store_ref(c.st, c.args[0], PopF(v))
        return one(c, Fld(o, 1, 0))
    if k in ('remove', 'swap_remove', 'drain', 'insert', 'swap'):
        E.emit('panic', c.st, c.fr, what='Vec::%s out of bounds' % k, span=c.span, cond=None, vals=[v] + extra, block=c.site[1])
    E.store_ref(c.st, c.args[0], App('v' + k, v, *extra))
    return one(c, UNIT if E.T[c.dty].get('k') == 'tuple' else E.wrap(App('v' + k + '.r', v, *extra), c.dty))


@inh('VecDeque::front', 'VecDeque::back', 'Vec::first', 'Vec::last')
def m_front(E, c):
    q = E.load_ref(c.st, c.args[0])
    o = FrontOpt(q) if c.fn.method in ('front', 'first') else BackOpt(q)
    return opt_ref(E, c, o)


def opt_ref(E, c, o):
    """Option<&T> with the element term behind a reference."""
    if o.op == 'adt':
        return one(c, o if o.args[1] == 0 else Some(Pref(o.args[2])))
    out = []
    s = c.st.copy()
    if E.assume_variant(s, o, frozenset([1])):
        out.append((s, Some(Pref(Fld(o, 1, 0)))))
    if E.assume_variant(c.st, o, frozenset([0])):
        out.append((c.st, NONE))
    return out


@inh('Vec::len', 'VecDeque::len', 'HashMap::len', 'HashSet::len')
def m_vlen(E, c):
    return one(c, E.mklen(c.st, val(E, c, 0)))


@sl('len')
def m_sllen(E, c):
    return m_vlen(E, c)


@inh('Vec::is_empty', 'VecDeque::is_empty')
def m_vempty(E, c):
    ln = E.mklen(c.st, val(E, c, 0))
    return branch_bool(E, c, Eq(ln, ZERO))


@sl('is_empty')
def m_slempty(E, c):
    return m_vempty(E, c)


@sl('contains')
def m_sl_contains(E, c):
    q = seq_norm(deep1(E, c, val(E, c, 0)))
    els = []
    while q.op == 'app' and q.args[0] == 'push':
        els.append(deep1(E, c, strip_refs(E, c, q.args[2])))
        q = q.args[1]
    if q is not SEQ0 or len(els) > 64 or not all(x.op in ('str', 'char', 'int') for x in els):
        return None
    x = deep1(E, c, strip_refs(E, c, c.args[1]))
    if els and all(e.op == 'char' and e.args[0] < 128 for e in els):
        return branch_bool(E, c, ChIn(x, mask_of([chr(e.args[0]) for e in els])))
    out = []
    st = c.st
    for e in reversed(els):
        s2 = st.copy()
        if E.assume(s2, Eq(x, e), True) is not False:
            out.append((s2, TRUE))
        if E.assume(st, Eq(x, e), False) is False:
            return out
    return out + [(st, FALSE)]


def strip_refs(E, c, t):
    while t.op in ('ref', 'pref'):
        t = E.load_ref(c.st, t)
    return t


@inh('mem::discriminant')
def m_discriminant(E, c):
    return one(c, App('discr', deep1(E, c, val(E, c, 0))))


@sl('first', 'last')
def m_slfirst(E, c):
    return m_get_at(E, c, ZERO if c.fn.method == 'first' else Sub(E.mklen(c.st, val(E, c, 0)), Int(1)))


@inh('Vec::append')
def m_append(E, c):
    a, b = E.load_ref(c.st, c.args[0]), E.load_ref(c.st, c.args[1])
    E.store_ref(c.st, c.args[0], Concat(a, b))
    E.store_ref(c.st, c.args[1], SEQ0)
    return one(c, UNIT)


@inh('Vec::extend_from_slice')
def m_extend(E, c):
    E.store_ref(c.st, c.args[0], Concat(E.load_ref(c.st, c.args[0]), val(E, c, 1)))
    return one(c, UNIT)


@inh('Vec::clear', 'VecDeque::clear')
def m_vclear(E, c):
    E.store_ref(c.st, c.args[0], SEQ0)
    return one(c, UNIT)


@tr('Extend::extend')
def m_extend_it(E, c):
    if c.fn.dumped:
        return None
    v = E.load_ref(c.st, c.args[0])
    it = to_iter(E, c.st, c.args[1])
    seq = plain_seq(it)
    if seq is None:
        return collect_into(E, c, it, c.args[0])
    if 'String' in c.fn.canon[3]:
        E.store_ref(c.st, c.args[0], Cat(v, App('catall', seq)))
    else:
        E.store_ref(c.st, c.args[0], Concat(v, seq))
    return one(c, UNIT)


def plain_seq(it):
    if it.op == 'app' and it.args[0] == 'it' and it.args[2] is ZERO:
        return it.args[1]
    return None


def m_get_at(E, c, ix):
    v = val(E, c, 0)
    lt = Lt(ix, E.mklen(c.st, v))
    r = E.decide(c.st, lt)
    out = []
    if r is not False:
        s = c.st.copy() if r is None else c.st
        if r is not None or E.assume(s, lt, True):
            out.append((s, Some(Pref(E.at(v, ix)))))
    if r is not True:
        if r is not None or E.assume(c.st, lt, False):
            out.append((c.st, NONE))
    return out


@sl('get')
def m_slget(E, c):
    if c.args[1].op in ('adt',):
        return None
    return m_get_at(E, c, c.args[1])


IN['Vec::get'] = m_slget
IN['VecDeque::get'] = m_slget


@tr('Index::index', 'IndexMut::index_mut')
def m_index(E, c):
    if c.fn.dumped:
        return None
    k = kind_of(c.fn.canon[3])
    if k in ('Vec', 'VecDeque') or k.startswith('['):
        v, ix = val(E, c, 0), c.args[1]
        if ix.op == 'adt' or E.T[c.fn.targs[1] if len(c.fn.targs) > 1 else 0].get('k') == 'adt' and 'ops::' in E.T[c.fn.targs[1]].get('adt', ''):
            return range_index(E, c, v, ix)
        lt = Lt(ix, E.mklen(c.st, v))
        if E.decide(c.st, lt) is not True:
            E.emit('panic', c.st, c.fr, what='index out of bounds', span=c.span, cond=lt, vals=[v, ix], block=c.site[1])
            E.assume(c.st, lt, True)
        else:
            E.emit('assert_ok', c.st, c.fr, what='index', span=c.span, cond=lt)
        if c.fn.method == 'index_mut' and c.args[0].op == 'ref':
            return one(c, Ref(c.args[0].args[0], c.args[0].args[1] + (('i', ix),)))
        return one(c, Pref(E.at(v, ix)))
    if k in ('HashMap', 'BTreeMap'):
        m = val(E, c, 0)
        key = deep1(E, c, val(E, c, 1))
        o = App('mapget', m, key)
        if E.get_variants(c.st, o) != frozenset([1]):
            o2 = map_lookup(E, c.st, m, key)
            if o2 is not None and o2.op == 'adt' and o2.args[1] == 1:
                return one(c, Pref(o2.args[2]))
            if E.get_variants(c.st, o) != frozenset([1]):
                E.emit('panic', c.st, c.fr, what='missing map key', span=c.span, cond=o, vals=[m, key], block=c.site[1])
                E.assume_variant(c.st, o, frozenset([1]))
        else:
            E.emit('assert_ok', c.st, c.fr, what='map index', span=c.span, cond=o)
        return one(c, Pref(Fld(o, 1, 0)))
    if k in ('str', 'String') or k.startswith('['):
        return range_index(E, c, val(E, c, 0), c.args[1])
    return None


def range_index(E, c, v, ix):
    E.emit('panic', c.st, c.fr, what='slice index out of range', span=c.span, cond=None, vals=[v, ix], block=c.site[1])
    return one(c, Pref(App('slice', deep1(E, c, v), deep1(E, c, ix))))


# iterators ---------------------------------------------------------------------------------------
@sl('iter', 'iter_mut')
def m_iter(E, c):
    if c.fn.method == 'iter_mut':
        return None
    return one(c, App('it', val(E, c, 0), ZERO, Int(1)))


IN['Vec::iter'] = m_iter
IN['VecDeque::iter'] = m_iter


@inh('HashMap::iter', 'HashMap::keys', 'HashMap::values', 'HashSet::iter', 'HashMap::into_keys', 'HashMap::into_values')
def m_hash_iter(E, c):
    E.emit('hash_iter', c.st, c.fr, span=c.span, fn=c.fn)
    return one(c, App('it', App('hashseq', Str(c.fn.method), val(E, c, 0)), ZERO, Int(1)))


def to_iter(E, st, t):
    """Iterator value for something iterable."""
    byref = 0
    n = 0
    while t.op in ('ref', 'pref') and n < 6:
        x = E.load_ref(st, t)
        n += 1
        byref = 1
        t = x
    if t.op == 'app' and t.args[0] in ITS:
        return t
    if is_range(t):
        return App('rng', t.args[2], t.args[3])
    if t.op == 'arr':
        t = seq_norm(t)
    if t.op == 'adt' and t.args[0] == OPT:
        return App('it', SEQ0 if t.args[1] == 0 else App('push', SEQ0, t.args[2]), ZERO, Int(byref))
    if t.op == 'adt' and 'Range' in t.args[0]:
        return App('it', App('range', *t.args[2:]), ZERO, ZERO)
    return App('it', t, ZERO, Int(byref))


ITS = ('it', 'rng', 'zip', 'mapit', 'enumit', 'rev', 'filterit', 'chain', 'pk', 'dcl')


def is_range(a):
    return a.op == 'adt' and a.args[0].endswith('ops::Range') and len(a.args) == 4


@tr('IntoIterator::into_iter')
def m_into_iter(E, c):
    if c.fn.local:
        return None
    slf = c.fn.canon[3]
    a = c.args[0]
    if a.op == 'app' and a.args[0] in ITS:
        return one(c, a)
    if 'HashMap' in slf or 'HashSet' in slf:
        E.emit('hash_iter', c.st, c.fr, span=c.span, fn=c.fn)
        return one(c, App('it', App('hashseq', Str('into_iter'), val(E, c, 0)), ZERO, Int(1)))
    T = E.T[c.dty]
    n = T['n']
    if is_range(a) and not c.fn.dumped:
        return one(c, App('rng', a.args[2], a.args[3]))
    if a.op == 'adt' and a.args[0] == OPT and not c.fn.dumped:
        return one(c, to_iter(E, c.st, a))
    if re.search(r'\bVec(Deque)?\b|\[.*\]', slf):
        byref = slf.startswith('&')
        x = a
        while x.op in ('ref', 'pref'):
            x = E.load_ref(c.st, x)
        if x.op == 'deref' or True:
            return one(c, App('it', seq_norm(x), ZERO, Int(1 if byref else 0)))
    if c.fn.dumped:
        return None
    return one(c, a)          # iterators are their own IntoIter


def itset(E, c, new):
    E.store_ref(c.st, c.args[0], new)


def more(E, st, it):
    """Condition 'the iterator has another element' as a term, or None."""
    k = it.args[0]
    if k == 'it':
        return Lt(it.args[2], E.mklen(st, it.args[1]))
    if k == 'rng':
        return Lt(it.args[1], it.args[2])
    if k in ('mapit', 'enumit', 'dcl'):
        return more(E, st, it.args[1])
    if k == 'zip':
        return And(more(E, st, it.args[1]), more(E, st, it.args[2]))
    if k == 'rev':
        return Lt(it.args[2], E.mklen(st, it.args[1]))
    return None


def step(E, c, st, it):
    """Advance the iterator: [(state, newit, item or None at the end)]."""
    k = it.args[0]
    if k == 'rng':
        lo, hi = it.args[1], it.args[2]
        out = []
        cond = Lt(lo, hi)
        r = E.decide(st, cond)
        if r is not False:
            s = st.copy()
            if r or E.assume(s, cond, True):
                out.append((s, App('rng', Add(lo, Int(1)), hi), lo))
        if r is not True:
            s = st.copy()
            if r is False or E.assume(s, cond, False):
                out.append((s, it, None))
        return out
    if k in ('it', 'rev'):
        seq, pos, br = it.args[1], it.args[2], it.args[3]
        cond = Lt(pos, E.mklen(st, seq))
        out = []
        r = E.decide(st, cond)
        if r is not False:
            s = st.copy()
            if r or E.assume(s, cond, True):
                ix = pos if k == 'it' else Add(Sub(E.mklen(st, seq), pos), Int(-1))
                e = E.at(seq, ix)
                out.append((s, App(k, seq, Add(pos, Int(1)), br), Pref(e) if br is not ZERO else e))
        if r is not True:
            s = st.copy()
            if r is False or E.assume(s, cond, False):
                out.append((s, it, None))
        return out
    if k == 'enumit':
        res = []
        for s, ni, item in step(E, c, st, it.args[1]):
            if item is None:
                res.append((s, App('enumit', ni, it.args[2]), None))
            else:
                ix = it.args[2]
                res.append((s, App('enumit', ni, Add(ix, Int(1)) if ix.op != 'app' or ix.args[0] != 'byteix' else ix), Tup([ix if ix.op != 'app' or ix.args[0] != 'byteix' else App('byteix', it.args[1].args[2]), item])))
        return res
    if k == 'dcl':
        return [(s, App('dcl', ni), None if i is None else E.load_ref(s, i) if i.op in ('ref', 'pref') else i)
                for s, ni, i in step(E, c, st, it.args[1])]
    if k == 'zip':
        res = []
        for s, n1, i1 in step(E, c, st, it.args[1]):
            if i1 is None:
                res.append((s, App('zip', n1, it.args[2]), None))
                continue
            for s2, n2, i2 in step(E, c, s, it.args[2]):
                res.append((s2, App('zip', n1, n2), None if i2 is None else Tup([i1, i2])))
        return res
    if k == 'mapit':
        res = []
        for s, ni, i in step(E, c, st, it.args[1]):
            if i is None:
                res.append((s, App('mapit', ni, it.args[2]), None))
                continue
            for s2, v in E.call_closure(c.fr, it.args[2], [i], s, c.span, (c.site[0], c.site[1], 'map')):
                res.append((s2, App('mapit', ni, it.args[2]), v))
        return res
    if k == 'chain':
        res = []
        for s, ni, i in step(E, c, st, it.args[1]):
            if i is not None:
                res.append((s, App('chain', ni, it.args[2]), i))
            else:
                for s2, n2, i2 in step(E, c, s, it.args[2]):
                    res.append((s2, App('chain', ni, n2), i2))
        return res
    if k == 'filterit':
        return None
    return None


@tr('Iterator::next', 'DoubleEndedIterator::next_back')
def m_next(E, c):
    if c.fn.local:
        return None
    it = E.load_ref(c.st, c.args[0])
    if is_range(it) and c.fn.method != 'next_back':
        it = App('rng', it.args[2], it.args[3])
        E.store_ref(c.st, c.args[0], it)
    if it.op != 'app':
        return peek_next(E, c, it)
    if it.args[0] in ('pk',):
        return peek_next(E, c, it)
    if it.args[0] not in ITS or c.fn.method == 'next_back':
        return peek_next(E, c, it) if 'Peekable' in c.fn.canon[3] else None
    rs = step(E, c, c.st, it)
    if rs is None:
        return None
    out = []
    for s, ni, i in rs:
        c2 = Call(c.fr, c.fn, c.args, s, c.span, c.site, c.dty, c.t)
        itset(E, c2, ni)
        out.append((s, NONE if i is None else Some(i)))
    return out


# a Peekable is a stream version v: peek(v) is its next item, next(v) the version after it
def as_version(it):
    return it


def peek_next(E, c, it):
    if 'Peekable' not in c.fn.canon[3]:
        return None
    v = as_version(it)
    itset(E, c, App('next', v))
    return one(c, App('peek', v))


@inh('Peekable::peek')
def m_peek(E, c):
    it = E.load_ref(c.st, c.args[0])
    v = as_version(it)
    o = App('peek', v)
    return opt_ref(E, c, o)


@tr('Iterator::peekable')
def m_peekable(E, c):
    return one(c, App('stream0', c.args[0]))


def adapter(name):
    def f(E, c):
        it = c.args[0]
        if it.op in ('ref', 'pref'):
            return None
        if is_range(it):
            it = App('rng', it.args[2], it.args[3])
        if it.op != 'app' or it.args[0] not in ITS:
            return None
        if name == 'map':
            return one(c, App('mapit', it, c.args[1]))
        if name == 'filter':
            return one(c, App('filterit', it, c.args[1]))
        if name == 'enumerate':
            return one(c, App('enumit', it, ZERO))
        if name in ('cloned', 'copied'):
            return one(c, App('dcl', it))
        if name == 'rev':
            if it.args[0] == 'it' and it.args[2] is ZERO:
                return one(c, App('rev', it.args[1], ZERO, it.args[3]))
            return None
        if name == 'zip':
            return one(c, App('zip', it, to_iter(E, c.st, c.args[1])))
        if name == 'chain':
            return one(c, App('chain', it, to_iter(E, c.st, c.args[1])))
        if name == 'skip':
            if it.args[0] == 'it':
                return one(c, App('it', it.args[1], Add(it.args[2], c.args[1]), it.args[3]))
            return None
        if name == 'by_ref':
            return one(c, c.args[0])
        return None
    return f


for _n in ('map', 'filter', 'enumerate', 'cloned', 'copied', 'rev', 'zip', 'chain', 'skip'):
    TR[('Iterator', _n)] = adapter(_n)


# consumers: synthetic loops ------------------------------------------------------------------------
def run_loop(E, c, it, init, stepf):
    """Loop `it` with an accumulator. stepf(state, item, acc) -> [(state, 'cont', acc) | (state, 'ret', value)].
    Returns [(state, value, finished)]."""
    key = E.fid(('iterloop', c.fr.fid, c.site))
    ci, ca = ('C', key, 'it'), ('C', key, 'acc')
    site = ('loop', key, 0)
    st = c.st
    st.cells[ci] = it
    st.cells[ca] = init
    res = {'exits': []}

    def body(s):
        backs, exits = [], []
        cur, acc = s.cells[ci], s.cells[ca]
        rs = step(E, c, s, cur)
        if rs is None:
            raise Unsupported('iterator ' + repr(cur))
        for s1, ni, item in rs:
            if item is None:
                exits.append((s1, s1.cells[ca], True))
                continue
            s1.cells[ci] = ni
            for s2, kind, v in stepf(s1, item, acc):
                if kind == 'cont':
                    s2.cells[ca] = v
                    backs.append(s2)
                else:
                    exits.append((s2, v, False))
        res['exits'] = exits
        return backs, exits

    def keyf(s):
        a = s.cells[ca]
        k = (a.args[0],) if a.op == 'bool' else (a.args[1],) if a.op == 'adt' else ()
        return k + E.flag_key_frame(c.fr, s)
    entry = st.copy()
    heads = E.fixpoint(keyf(st), st, site, body, keyf, lambda s: None)
    out = []
    k0 = next(iter(heads))
    E.serial += 1
    serial = E.serial
    for k, h in heads.items():
        h1 = h.copy()
        if E.precise and not E.quiet:
            h1.gh[('from', site)] = k
            h1.gh['last'] = (serial, k)
        backs, _ = body(h1)
        out.extend(res['exits'])
        if not E.quiet:
            if k is k0:
                E.emit('loop_entry', entry, c.fr, loop=None, head=h, site=site, serial=serial, key=k, span=c.span)
            for s in backs:
                E.emit('iterback', s, c.fr, loop=None, head=h, site=site, serial=serial, key=k, to=keyf(s), span=c.span)
    for s, v, f in out:
        s.cells.pop(ci, None)
        s.cells.pop(ca, None)
    return out


def iter_arg(E, c):
    """(iterator term, by_mut_ref?)"""
    a = c.args[0]
    if is_range(a):
        return App('rng', a.args[2], a.args[3]), False
    if a.op == 'ref':
        t = E.load_ref(c.st, a)
        return (t, True) if t.op == 'app' and t.args[0] in ITS else (None, True)
    return (a, False) if a.op == 'app' and a.args[0] in ITS else (None, False)


def call_pred(E, c, s, args):
    """Apply the predicate closure, split into true/false outcomes: [(state, bool)]."""
    out = []
    for s2, v in E.call_closure(c.fr, c.args[1], args, s, c.span, (c.site[0], c.site[1], 'cl'), None):
        r = E.decide(s2, v)
        if r is not None:
            out.append((s2, r))
            continue
        s3 = s2.copy()
        if E.assume(s3, v, True):
            out.append((s3, True))
        if E.assume(s2, v, False):
            out.append((s2, False))
    return out


def filt(E, c, it, s, item, f):
    return f(s, item)


def consumer(kind):
    def f(E, c):
        if c.fn.local:
            return None
        it, mref = iter_arg(E, c)
        if it is None:
            return None
        flt = None
        if it.args[0] == 'filterit':
            flt, it = it.args[2], it.args[1]

        def guarded(g):
            if flt is None:
                return g

            def h(s, item, acc):
                out = []
                for s2, v in E.call_closure(c.fr, flt, [Pref(item)], s, c.span, (c.site[0], c.site[1], 'flt'), None):
                    for b in (True, False):
                        s3 = s2.copy()
                        if E.assume(s3, v, b):
                            out.extend(g(s3, item, acc) if b else [(s3, 'cont', acc)])
                return out
            return h
        if kind == 'any' or kind == 'all':
            want = kind == 'any'

            def g(s, item, acc):
                return [(s2, 'ret', Bool(b)) if b == want else (s2, 'cont', acc) for s2, b in call_pred(E, c, s, [item])]
            rs = run_loop(E, c, it, UNIT, guarded(g))
            return [(s, Bool(not want) if fin else v) for s, v, fin in rs]
        if kind in ('find', 'position'):
            def g(s, item, acc):
                o = []
                for s2, b in call_pred(E, c, s, [Pref(item)] if kind == 'find' else [item]):
                    if b:
                        o.append((s2, 'ret', Some(item if kind == 'find' else acc)))
                    else:
                        o.append((s2, 'cont', acc if kind == 'find' else Add(acc, Int(1))))
                return o
            rs = run_loop(E, c, it, UNIT if kind == 'find' else ZERO, guarded(g))
            return [(s, NONE if fin else v) for s, v, fin in rs]
        if kind == 'find_map':
            def g(s, item, acc):
                o = []
                for s2, v in E.call_closure(c.fr, c.args[1], [item], s, c.span, (c.site[0], c.site[1], 'cl'), None):
                    for s3, w in split_opt(E, s2, v):
                        o.append((s3, 'cont', acc) if w is None else (s3, 'ret', Some(w)))
                return o
            rs = run_loop(E, c, it, UNIT, guarded(g))
            return [(s, NONE if fin else v) for s, v, fin in rs]
        if kind == 'fold':
            def g(s, item, acc):
                return [(s2, 'cont', v) for s2, v in
                        E.call_closure(c.fr, c.args[2], [acc, item], s, c.span, (c.site[0], c.site[1], 'cl'), None)]
            rs = run_loop(E, c, it, c.args[1], guarded(g))
            return [(s, v) for s, v, fin in rs]
        if kind == 'for_each':
            def g(s, item, acc):
                return [(s2, 'cont', UNIT) for s2, v in
                        E.call_closure(c.fr, c.args[1], [item], s, c.span, (c.site[0], c.site[1], 'cl'), None)]
            rs = run_loop(E, c, it, UNIT, guarded(g))
            return [(s, UNIT) for s, v, fin in rs]
        if kind == 'try_for_each':
            return None
        if kind == 'count':
            if flt is None and it.args[0] == 'it' and it.args[2] is ZERO:
                return one(c, E.mklen(c.st, it.args[1]))
            rs = run_loop(E, c, it, ZERO, guarded(lambda s, i, a: [(s, 'cont', Add(a, Int(1)))]))
            return [(s, v) for s, v, fin in rs]
        if kind == 'last':
            rs = run_loop(E, c, it, NONE, guarded(lambda s, i, a: [(s, 'cont', Some(i))]))
            return [(s, v) for s, v, fin in rs]
        if kind == 'nth':
            if it.args[0] == 'it' and flt is None:
                c2 = Call(c.fr, c.fn, [Pref(it.args[1])] + c.args[1:], c.st, c.span, c.site, c.dty, c.t)
                return m_get_at(E, c2, Add(it.args[2], c.args[1]))
            return None
        if kind == 'collect':
            return collect(E, c, it, guarded)
        return None
    return f


def split_opt(E, st, v):
    """[(state, payload or None)] for an Option value."""
    if v.op == 'adt':
        return [(st, v.args[2] if v.args[1] == 1 else None)]
    out = []
    s = st.copy()
    if E.assume_variant(s, v, frozenset([1])):
        out.append((s, Fld(v, 1, 0)))
    if E.assume_variant(st, v, frozenset([0])):
        out.append((st, None))
    return out


def split_res(E, st, v):
    """[(state, is_ok, payload)] for a Result value."""
    if v.op == 'adt':
        return [(st, v.args[1] == 0, v.args[2])]
    out = []
    s = st.copy()
    if E.assume_variant(s, v, frozenset([0])):
        out.append((s, True, Fld(v, 0, 0)))
    if E.assume_variant(st, v, frozenset([1])):
        out.append((st, False, Fld(v, 1, 0)))
    return out


def collect(E, c, it, guarded):
    T = E.T[c.dty]
    a = T.get('adt', '')
    wrap = None
    if a.endswith('::Option') or a.endswith('::Result'):
        wrap = a.rsplit('::', 1)[-1]
        T = E.T[T['args'][0]]
        a = T.get('adt', '')
    base = a.rsplit('::', 1)[-1]
    if base in ('HashMap', 'HashSet', 'BTreeMap', 'BTreeSet'):
        return one(c, App('collect:' + base, deep1(E, c, it)))
    if wrap is None and base in ('Vec', 'VecDeque') and guarded(None) is None:
        seq = plain_seq(it if it.args[0] != 'dcl' else it.args[1])
        if seq is not None:
            return one(c, seq)
    init = EMPTY if base == 'String' else SEQ0
    # try to describe the result as an element-wise map
    tau = set()
    src = {'seq': None}

    def g(s, item, acc):
        def put(s2, x):
            if base == 'String':
                ty = x
                return (s2, 'cont', Cat(acc, Chs(x) if is_charish(E, s2, x) else x))
            return (s2, 'cont', App('push', acc, x))
        if wrap == 'Option':
            return [put(s2, w) if w is not None else (s2, 'ret', NONE) for s2, w in split_opt(E, s, item)]
        if wrap == 'Result':
            return [put(s2, w) if ok else (s2, 'ret', Err(w)) for s2, ok, w in split_res(E, s, item)]
        return [put(s, item)]
    rs = run_loop(E, c, it, init, guarded(g))
    W = (lambda v: Some(v)) if wrap == 'Option' else (lambda v: Ok(v)) if wrap == 'Result' else (lambda v: v)
    return [(s, W(v) if fin else v) for s, v, fin in rs]


def is_charish(E, st, x):
    return x.op == 'char' or x.op == 'app' and x.args[0] in ('at',) and x.args[1].op == 'app' and x.args[1].args[0] == 'chars' or E.get_mask(st, x) != FULL


def collect_into(E, c, it, ref):
    return None


for _n in ('any', 'all', 'find', 'position', 'find_map', 'fold', 'for_each', 'count', 'last', 'nth', 'collect'):
    TR[('Iterator', _n)] = consumer(_n)


@inh('Vec::from_iter', 'String::from_iter')
def m_from_iter(E, c):
    return consumer('collect')(E, c)


TR[('FromIterator', 'from_iter')] = lambda E, c: None if c.fn.dumped else consumer('collect')(E, c)


# maps and sets ------------------------------------------------------------------------------------
@inh('HashMap::new', 'BTreeMap::new', 'HashMap::with_capacity')
def m_mapnew(E, c):
    return one(c, App('map0'))


@inh('HashSet::new', 'BTreeSet::new', 'HashSet::with_capacity')
def m_setnew(E, c):
    return one(c, App('set0'))


def map_lookup(E, st, m, key):
    """Option term for m[key] if decidable syntactically."""
    n = 0
    while n < 50:
        n += 1
        if m.op == 'app' and m.args[0] == 'mput':
            e = Eq(m.args[2], key)
            r = E.decide(st, e)
            if r is True:
                return Some(m.args[3])
            if r is None:
                return None
            m = m.args[1]
        elif m.op == 'app' and m.args[0] == 'mdel':
            r = E.decide(st, Eq(m.args[2], key))
            if r is True:
                return NONE
            if r is None:
                return None
            m = m.args[1]
        elif m is App('map0') or m is App('set0'):
            return NONE
        else:
            return App('mapget', m, key)
    return None


def map_get(E, c):
    m = content(E, c, 0)
    key = deep1(E, c, val(E, c, 1))
    o = map_lookup(E, c.st, m, key) or App('mapget', m, key)
    return m, key, o


@inh('HashMap::get', 'BTreeMap::get', 'HashSet::get')
def m_map_get(E, c):
    m, key, o = map_get(E, c)
    E.emit('map_get', c.st, c.fr, map=m, key=key, fn=c.fn, span=c.span)
    return opt_ref(E, c, o)


@inh('HashMap::contains_key', 'HashSet::contains', 'BTreeMap::contains_key', 'BTreeSet::contains')
def m_map_contains(E, c):
    m, key, o = map_get(E, c)
    E.emit('map_get', c.st, c.fr, map=m, key=key, fn=c.fn, span=c.span)
    if o.op == 'adt':
        return one(c, Bool(o.args[1] == 1))
    out = []
    s = c.st.copy()
    if E.assume_variant(s, o, frozenset([1])):
        out.append((s, TRUE))
    if E.assume_variant(c.st, o, frozenset([0])):
        out.append((c.st, FALSE))
    return out


@inh('HashMap::insert', 'BTreeMap::insert', 'HashSet::insert', 'BTreeSet::insert')
def m_map_insert(E, c):
    m = E.load_ref(c.st, c.args[0])
    key = deep1(E, c, val(E, c, 1))
    v = c.args[2] if len(c.args) > 2 else UNIT
    E.emit('map_insert', c.st, c.fr, map=m, key=key, value=v, ref=c.args[0], fn=c.fn, span=c.span)
    o = map_lookup(E, c.st, m, key) or App('mapget', m, key)
    E.store_ref(c.st, c.args[0], App('mput', m, key, E.deep(c.st, v)))
    E.ghost_set(c.st, 'must:in', (m_root(m), key))
    if len(c.args) > 2:
        return one(c, o)
    # HashSet::insert returns whether the value is new
    if o.op == 'adt':
        return one(c, Bool(o.args[1] == 0))
    out = []
    s = c.st.copy()
    if E.assume_variant(s, o, frozenset([0])):
        out.append((s, TRUE))
    if E.assume_variant(c.st, o, frozenset([1])):
        out.append((c.st, FALSE))
    return out


@inh('HashMap::entry', 'BTreeMap::entry')
def m_map_entry(E, c):
    m = E.load_ref(c.st, c.args[0])
    key = deep1(E, c, val(E, c, 1))
    E.emit('map_get', c.st, c.fr, map=m, key=key, fn=c.fn, span=c.span)
    o = map_lookup(E, c.st, m, key) or App('mapget', m, key)
    T = E.T[c.dty]
    names = [v[0] for v in T['vars']]
    if sorted(names) != ['Occupied', 'Vacant']:
        raise Unsupported('map entry')
    out = []
    for name, k in (('Occupied', 1), ('Vacant', 0)):
        s = c.st.copy()
        if E.assume_variant(s, o, frozenset([k])):
            out.append((s, Adt(T['adt'], names.index(name), [App('entry', c.args[0], key)])))
    return out


@inh('VacantEntry::insert')
def m_vacant_insert(E, c):
    x = c.args[0]
    if not (x.op == 'app' and x.args[0] == 'entry'):
        raise Unsupported('vacant entry')
    ref, key = x.args[1], x.args[2]
    m = E.load_ref(c.st, ref)
    v = c.args[1]
    E.emit('map_insert', c.st, c.fr, map=m, key=key, value=v, ref=ref, fn=c.fn, span=c.span)
    E.store_ref(c.st, ref, App('mput', m, key, E.deep(c.st, v)))
    E.ghost_set(c.st, 'must:in', (m_root(m), key))
    return one(c, App('mapval', E.load_ref(c.st, ref), key))


@inh('OccupiedEntry::key', 'VacantEntry::key')
def m_entry_key(E, c):
    x = val(E, c, 0)
    if not (x.op == 'app' and x.args[0] == 'entry'):
        raise Unsupported('map entry')
    return one(c, Pref(x.args[2]))


def m_root(m):
    while m.op == 'app' and m.args[0] in ('mput', 'mdel'):
        m = m.args[1]
    return m


@inh('HashMap::remove', 'HashSet::remove', 'BTreeMap::remove', 'BTreeSet::remove', 'HashSet::take')
def m_map_remove(E, c):
    m = E.load_ref(c.st, c.args[0])
    key = deep1(E, c, val(E, c, 1))
    E.emit('map_remove', c.st, c.fr, map=m, key=key, ref=c.args[0], fn=c.fn, span=c.span)
    o = map_lookup(E, c.st, m, key) or App('mapget', m, key)
    E.store_ref(c.st, c.args[0], App('mdel', m, key))
    if 'Set' in c.fn.key:
        if o.op == 'adt':
            return one(c, Bool(o.args[1] == 1))
        return one(c, App('isvar', o, Int(1), Int(2)))
    return one(c, o)


@inh('HashMap::clear', 'HashSet::clear', 'HashMap::drain', 'HashMap::retain', 'HashSet::retain')
def m_map_clear(E, c):
    m = E.load_ref(c.st, c.args[0])
    E.emit('map_clear', c.st, c.fr, map=m, ref=c.args[0], fn=c.fn, span=c.span)
    E.store_ref(c.st, c.args[0], App('map:' + c.fn.method, m))
    return one(c, UNIT if E.T[c.dty].get('k') == 'tuple' else App('mapres', m))


# numbers -----------------------------------------------------------------------------------------
def arith(E, c, op, *args):
    args = [E.deep(c.st, a) for a in args]
    return App('n:' + op, *args)


def m_arith(op, n=2):
    def f(E, c):
        if c.fn.local or (c.fn.dumped and not c.fn.local and 'num_' not in c.fn.name and False):
            return None
        slf = c.fn.canon[3]
        if 'String' in slf and op == 'add':
            return one(c, Cat(val(E, c, 0), val(E, c, 1)))
        args = [val(E, c, i) for i in range(n)]
        if op in ('div', 'rem') and ('BigInt' in slf or 'Ratio' in slf):
            z = App('iszero', E.deep(c.st, args[1]))
            if not nonzero(E, c.st, E.deep(c.st, args[1])):
                E.emit('panic', c.st, c.fr, what='division by zero', span=c.span, cond=z, vals=args, block=c.site[1])
            else:
                E.emit('assert_ok', c.st, c.fr, what='div', span=c.span, cond=z)
        r = arith(E, c, op, *args)
        E.emit('arith', c.st, c.fr, op=op, args=args, ret=r, span=c.span, fn=c.fn)
        return one(c, r)
    return f


for _t, _m in (('Add', 'add'), ('Sub', 'sub'), ('Mul', 'mul'), ('Div', 'div'), ('Rem', 'rem')):
    TR[(_t, _m)] = m_arith(_m)
TR[('Neg', 'neg')] = m_arith('neg', 1)


@inh('Ratio::new', 'Ratio::new_raw')
def m_ratio(E, c):
    n, d = [deep1(E, c, val(E, c, i)) for i in (0, 1)]
    z = App('iszero', d)
    if not nonzero(E, c.st, d):
        E.emit('panic', c.st, c.fr, what='fraction with zero denominator', span=c.span, cond=z, vals=[n, d], block=c.site[1])
    else:
        E.emit('assert_ok', c.st, c.fr, what='denominator', span=c.span, cond=z)
    return one(c, App('ratio' if c.fn.method == 'new' else 'ratioraw', n, d))


def nonzero(E, st, d):
    zero = App('bigint', ZERO)
    for k in (App('iszero', d), Eq(d, zero), Eq(d, App('ratio', zero, App('bigint', Int(1))))):
        if E.decide(st, k) is False:
            return True
    for k in (App('is_positive', d), App('is_negative', d), App('cmp:lt', d, zero), App('cmp:lt', zero, d)):
        if E.decide(st, k) is True:
            return True
    if d.op == 'app':
        if d.args[0] == 'bigint' and d.args[1].op == 'int':
            return d.args[1].args[0] != 0
        if d.args[0] == 'pow':
            return nonzero(E, st, d.args[1])
    return False


@inh('Ratio::from_integer')
def m_from_integer(E, c):
    return one(c, App('ratio', deep1(E, c, val(E, c, 0)), App('bigint', Int(1))))


@tr('Zero::is_zero')
def m_is_zero(E, c):
    d = deep1(E, c, val(E, c, 0))
    if nonzero(E, c.st, d):
        return one(c, FALSE)
    return branch_bool(E, c, App('iszero', d))


@tr('Zero::zero')
def m_zero(E, c):
    return one(c, App('bigint', ZERO) if 'BigInt' in c.fn.canon[3] and 'Ratio' not in c.fn.canon[3] else App('ratio', App('bigint', ZERO), App('bigint', Int(1))))


@tr('One::one')
def m_one(E, c):
    return one(c, App('bigint', Int(1)) if 'Ratio' not in c.fn.canon[3] else App('ratio', App('bigint', Int(1)), App('bigint', Int(1))))


TR[('One', 'is_one')] = pure('isone')
IN['num_traits::pow'] = pure('pow')
IN['num_traits::pow::pow'] = pure('pow')
IN['pow::pow'] = pure('pow')
TR[('Pow', 'pow')] = pure('pow')
IN['BigInt::pow'] = pure('pow')
IN['Ratio::pow'] = pure('pow')


@inh('Ratio::denom', 'Ratio::numer')
def m_denom(E, c):
    return one(c, Pref(App(c.fn.method, deep1(E, c, val(E, c, 0)))))


IN['Ratio::is_integer'] = pure('isinteger')
IN['Ratio::reduced'] = pure('reduced')


@tr('FromPrimitive::*')
def m_from_prim(E, c):
    v = val(E, c, 0)
    if 'BigInt' in c.fn.canon[3] and 'Ratio' not in c.fn.canon[3] and c.fn.method not in ('from_f32', 'from_f64'):
        return one(c, Some(App('bigint', v)))
    return one(c, App(c.fn.method, v))


@tr('ToPrimitive::*')
def m_to_prim(E, c):
    m = c.fn.method
    x = deep1(E, c, val(E, c, 0))
    if x.op in ('int',):
        return None
    return one(c, App(m, x))


IN['BigInt::parse_bytes'] = pure('parse_bytes')
IN['BigInt::from_str_radix'] = pure('from_str_radix')
TR[('Num', 'from_str_radix')] = pure('from_str_radix')
for _n in ('is_negative', 'is_positive', 'abs', 'signum'):
    TR[('Signed', _n)] = pure(_n)


def m_checked(op):
    def f(E, c):
        a, b = c.args[0], c.args[1]
        if op == 'saturating_sub':
            if E.decide(c.st, Le(b, a)) is True:
                return one(c, Sub(a, b))
            return one(c, App('satsub', a, b))
        if op == 'saturating_add':
            return one(c, Add(a, b))
        if op == 'wrapping_add':
            return one(c, App('wrapadd', a, b))
        if op == 'wrapping_sub':
            return one(c, App('wrapsub', a, b))
        if op == 'checked_sub':
            out = []
            s = c.st.copy()
            if E.assume(s, Le(b, a), True):
                out.append((s, Some(Sub(a, b))))
            if E.assume(c.st, Le(b, a), False):
                out.append((c.st, NONE))
            return out
        if op == 'checked_add':
            s = c.st.copy()
            return [(s, Some(Add(a, b))), (c.st, NONE)]
        return None
    return f


for _n in ('saturating_sub', 'saturating_add', 'wrapping_add', 'wrapping_sub', 'checked_sub', 'checked_add'):
    for _t in ('usize', 'u64', 'u32', 'isize', 'i64', 'i32', 'num'):
        IN[_t + '::' + _n] = m_checked(_n)


# files and paths ----------------------------------------------------------------------------------
def effect_result(E, c, name, *args):
    r = App(name, *args)
    if getattr(E, 'precise', False):
        c.st.gh['io'] = c.st.gh.get('io', ()) + (r,)
    E.emit('io', c.st, c.fr, op=name, args=args, ret=r, span=c.span, fn=c.fn)
    return r


@inh('File::open', 'File::create', 'File::create_new', 'fs::read_to_string', 'fs::read', 'fs::write', 'fs::metadata',
     'fs::canonicalize', 'fs::remove_file', 'fs::create_dir', 'fs::create_dir_all', 'fs::rename', 'fs::copy',
     'fs::read_dir', 'fs::remove_dir_all', 'File::options')
def m_fs(E, c):
    args = [deep1(E, c, val(E, c, i)) for i in range(len(c.args))]
    name = c.fn.canon[1].split('::')[-2] + '::' + c.fn.method
    if name == 'fs::read_to_string':
        # one result stands for open + read
        return one(c, effect_result(E, c, 'fs::read_to_string', *args))
    return one(c, effect_result(E, c, name, *args))


@inh('File::metadata', 'File::sync_all', 'File::sync_data', 'File::set_len', 'File::set_permissions')
def m_file(E, c):
    return one(c, effect_result(E, c, 'File::' + c.fn.method, *[deep1(E, c, val(E, c, i)) for i in range(len(c.args))]))


IN['Metadata::len'] = pure('fsize')
IN['Metadata::is_file'] = pure('md_is_file')


@tr('Read::read_to_string', 'Read::read_to_end', 'Read::read', 'Read::read_exact')
def m_read(E, c):
    if c.fn.local:
        return None
    f = deep1(E, c, val(E, c, 0))
    old = E.load_ref(c.st, c.args[1])
    r = effect_result(E, c, 'read:' + c.fn.method, f)
    E.store_ref(c.st, c.args[1], Cat(old, App('filetext', Str(c.fn.method), f)))
    return one(c, r)


@inh('io::read_to_string')
def m_io_rts(E, c):
    f = deep1(E, c, val(E, c, 0))
    return one(c, effect_result(E, c, 'io::read_to_string', f))


def io_write(E, c, data):
    f = deep1(E, c, val(E, c, 0))
    return one(c, effect_result(E, c, 'write:' + c.fn.method, f, data))


@tr('Write::write_all', 'Write::write', 'Write::flush')
def m_write(E, c):
    if c.fn.local:
        return None
    return io_write(E, c, deep1(E, c, val(E, c, 1)) if len(c.args) > 1 else UNIT)


@inh('Path::new')
def m_path_new(E, c):
    a = c.args[0]
    return one(c, Pref(val(E, c, 0)))


IN['Path::join'] = pure('pjoin')
IN['Path::is_file'] = pure('is_file')
IN['Path::exists'] = pure('path_exists')
IN['Path::is_dir'] = pure('is_dir')
IN['Path::is_absolute'] = pure('is_absolute')
IN['Path::to_string_lossy'] = pure('lossy')
IN['Path::display'] = pure('pdisplay')
IN['Path::file_name'] = pure('pfile_name')
IN['Path::extension'] = pure('pext')
IN['PathBuf::from'] = m_identity


@inh('Path::to_path_buf', 'Path::as_os_str', 'PathBuf::into_os_string', 'PathBuf::as_os_str', 'Path::to_owned', 'PathBuf::into_boxed_path')
def m_ptpb(E, c):
    if E.T[c.dty].get('k') == 'ref':
        return one(c, c.args[0])
    return one(c, val(E, c, 0))


@inh('PathBuf::push')
def m_pb_push(E, c):
    old = E.load_ref(c.st, c.args[0])
    E.store_ref(c.st, c.args[0], App('pjoin', old, deep1(E, c, val(E, c, 1))))
    return one(c, UNIT)


@inh('Path::parent', 'Path::to_str', 'OsStr::to_str', 'Path::file_stem')
def m_path_opt(E, c):
    p = deep1(E, c, val(E, c, 0))
    o = App('p' + c.fn.method, p)
    return opt_ref(E, c, o)


@inh('Path::canonicalize')
def m_canon(E, c):
    return one(c, App('canonicalize', deep1(E, c, val(E, c, 0))))


IN['OsString::into_string'] = pure('os_into_string')
IN['PathBuf::to_str'] = m_path_opt


# atomics, statics ----------------------------------------------------------------------------------
@inh('Atomic::new', 'AtomicUsize::new')
def m_at_new(E, c):
    return one(c, App('atomic', c.args[0]))


@inh('Atomic::fetch_add', 'AtomicUsize::fetch_add')
def m_fetch_add(E, c):
    E.emit('fetch_add', c.st, c.fr, target=c.args[0], by=c.args[1], span=c.span, fn=c.fn)
    n = ('fetches',)
    k = c.st.gh.get('fetches', 0)
    c.st.gh['fetches'] = k + 1
    return one(c, App('fetched', deep1(E, c, c.args[0]), c.args[1], Int(E.fid(('fa', c.site))), Int(k)))


@inh('Lazy::get')
def m_lazy(E, c):
    # identify the static by the initialiser's type
    m = re.search(r'<(\S+) as (?:std|core)::ops::Deref>::deref::__static_ref_initialize', c.fn.name)
    name = m.group(1) if m else c.fn.name
    return one(c, Pref(App('lazy', Str(name.rsplit('::', 1)[-1] if m else name))))


@inh('LazyLock::force', 'OnceLock::get_or_init', 'OnceCell::get_or_init', 'LazyCell::force')
def m_lazylock(E, c):
    return one(c, Pref(App('lazy', deep1(E, c, val(E, c, 0)))))


# panics --------------------------------------------------------------------------------------------
def m_panic(E, c):
    E.emit('panic', c.st, c.fr, what='call ' + c.fn.key, span=c.span, cond=None, vals=list(c.args), block=c.site[1])
    return []


for _n in ('option::unwrap_failed', 'option::expect_failed', 'result::unwrap_failed', 'unwrap_failed::unwrap_failed_inner',
           'panicking::panic', 'panicking::panic_fmt', 'panicking::assert_failed', 'rt::begin_panic', 'rt::panic_fmt',
           'panicking::panic_display', 'panicking::panic_explicit', 'panicking::unreachable_display', 'rt::panic_display',
           'panicking::panic_bounds_check', 'panicking::panic_nounwind', 'panicking::panic_str_2015',
           'panic_const::panic_const_add_overflow', 'cell::panic_already_borrowed', 'process::abort', 'process::exit',
           'panicking::panic_cannot_unwind', 'panicking::assert_failed_inner', 'panicking::unreachable_unchecked',
           'option::expect_none_failed'):
    IN[_n] = m_panic
TR[('Formatter', '*')] = None
del TR[('Formatter', '*')]


def m_debug(E, c):
    return write_to(E, c, App('debug_fields'))


for _n in ('debug_struct_field1_finish', 'debug_struct_field2_finish', 'debug_struct_field3_finish', 'debug_struct_field4_finish',
           'debug_struct_field5_finish', 'debug_struct_fields_finish', 'debug_tuple_field1_finish', 'debug_tuple_field2_finish',
           'debug_tuple_field3_finish', 'debug_tuple_field4_finish', 'debug_tuple_field5_finish', 'debug_tuple_fields_finish',
           'debug_c_like_enum_write_str'):
    IN['Formatter::' + _n] = m_debug
