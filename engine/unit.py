"""Analysis units: a function with symbolic arguments, run through the engine."""
from term import *
from engine import Engine, State
from models import Models
from prog import Prog


def entry_arg(E, st, i, ty, name):
    T = E.T[ty]
    if T.get('k') == 'ref' or T.get('k') == 'ptr':
        base = Sym(name)
        if T.get('mut'):
            cell = ('A', i)
            st.cells[cell] = base
            return Ref(cell)
        it = E.T[T['e']]
        if it.get('k') == 'ref':
            return Pref(entry_arg(E, st, i, T['e'], name))
        return Pref(base)
    if T.get('k') == 'tuple':
        return Tup([entry_arg(E, st, i, t, name + '.%d' % j) for j, t in enumerate(T['es'])])
    if T.get('k') == 'closure':
        return mk('clo', ty, *[Sym(name + '.up%d' % j) for j in range(len(T.get('ups', ())))])
    if T.get('k') == 'uint':
        return Sym('u:' + name)
    return Sym(name)


CUR = [None]        # the state a rule is looking at


class Watched(list):
    """Exits or events; while a rule iterates over them, CUR holds the state of the current one."""

    def __iter__(self):
        prev = CUR[0]
        try:
            for x in list.__iter__(self):
                CUR[0] = x[1]['st'] if isinstance(x[1], dict) else x[0]
                yield x
        finally:
            CUR[0] = prev


class Run:
    """Result of a unit: exits [(state, value)], events."""

    def __init__(self, fn):
        self.fn = fn
        self.events = Watched()
        self.exits = Watched()


def run_unit(E, fn, args=None, st=None, collect=True, names=None):
    st = st or State()
    r = Run(fn)
    if args is None:
        args = [entry_arg(E, st, i, fn.locals[i + 1], names[i] if names else 'a%d' % i) for i in range(fn.argc)]
    r.args = args
    if collect:
        def hook(kind, s, fr, kw):
            kw = dict(kw)
            kw['st'] = s.copy()
            kw['fr'] = fr
            r.events.append((kind, kw))
        E.hooks.append(hook)
    try:
        outs, fr = E.run_fn(fn, args, st, None, 'unit', tag=names and tuple(names))
    finally:
        if collect:
            E.hooks.remove(hook)
    r.exits = Watched(outs)
    r.frame = fr
    return r


def make(path):
    P = Prog(path)
    E = Engine(P)
    E.models = Models(P)
    return P, E
