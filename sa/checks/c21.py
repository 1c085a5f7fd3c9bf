"""C21: sample path, time window, time step and observations are handed out only once they exist."""
from itertools import permutations
from .common import *
from .c13 import DYN, summarise_inverse

CLASSES = dict(DYN, base=('src.dynamics.stochastic_process', 'StochasticProcess', True))
MISSING = 'NotImplementedError'


def create(S, model):
    I = S.I
    mod, cls, single = CLASSES[model]
    for p in ('p', 'th', 'h'):
        POSITIVE.add(p)
    if model == 'base':
        return S.make(mod, cls)
    summarise_inverse(S)
    th = I.new_list([PyNum(sym('th%d' % k)) for k in range(3)]) if model == 'L63' else PyNum(sym('th'))
    return S.make(mod, cls, PyNum(sym('p')), th)


def read(S, o, name):
    """Outcome of reading an attribute."""
    I = S.I
    I.sinks.append([])
    try:
        v = I.getattr(o, name, None)
        return 'ok', v, I.sinks.pop()
    except AbsRaise as r:
        I.sinks.pop()
        return 'raise', r.exc.cls, r.where


def accesses(S, o):
    """Name of the access -> outcome."""
    out = {nm: read(S, o, nm) for nm in ('sample_path', 'time_window', 'time_step')}
    return out


def new_path(S, model, k):
    single = CLASSES[model][2]
    N = S.dim('N', 2)
    return S.I.arr('path%d' % k, (N,) if single else (N, E(3) if model == 'L63' else E(40)))


def new_window(S, k):
    N = S.dim('N', 2)
    a, h = sym('start%d' % k), sym('h')
    return S.I.new_arr(Array.make((N,), lambda i: a + i * h * (k + 1)))


def expect(S, o, model, tag, path, window, where):
    acc = accesses(S, o)
    for nm, have in (('sample_path', path), ('time_window', window), ('time_step', window)):
        if have is None:
            S.raises_r('%s: %s' % (tag, nm), acc[nm], MISSING, 'nothing is handed out before it exists', where)
            continue
        r = acc[nm]
        if r[0] == 'raise':
            S.violated('%s: %s' % (tag, nm), 'available once created', where, 'raises %s' % r[1])
            continue
        if r[2]:
            S.undecided('%s: %s' % (tag, nm), 'available once created', where, 'may raise %s' % r[2][0][0].cls)
            continue
        A = S.arr(have)
        if nm == 'time_step':
            # successive points of an equally spaced, increasing window
            S.eq('%s: %s' % (tag, nm), r[1], lambda: A.elem(E(1)) - A.elem(E(0)), 'the spacing of the window', where, ())
        else:
            S.eq('%s: %s' % (tag, nm), r[1], A.elem, 'what was set', where, A.shape)
    if path is None or window is None:
        for d, rn in ((PyNum(ONE), PyNum(sym('p'))), (PyNum(E(10 ** 6)), PyNum(sym('p')))):
            r = S.outcome(S.attr(o, 'collect_obs'), d, rn)
            S.raises_r('%s: observations' % tag, r, MISSING, 'no observations before path and window exist', where)


def scen(model, order):
    def f(S):
        S.I.ctx['arange_min'] = 2
        o = create(S, model)
        where = S.loc(S.I.get(*CLASSES[model][:2]))
        path = window = None
        expect(S, o, model, 'new', path, window, where)
        tag = 'new'
        for k, step in enumerate(order):
            tag = tag + ' > ' + step
            if step == 'path':
                path = new_path(S, model, k)
                S.I.setattr(o, 'sample_path', path, None)
            else:
                window = new_window(S, k)
                S.I.setattr(o, 'time_window', window, None)
            expect(S, o, model, tag, path, window, where)
    return Spec('%s: %s' % (model, ', '.join(order)), f)


def scen_two(model):
    """Two objects do not share paths or windows."""
    def f(S):
        a, b = create(S, model), create(S, model)
        where = S.loc(S.I.get(*CLASSES[model][:2]))
        S.I.setattr(a, 'sample_path', new_path(S, model, 0), None)
        S.I.setattr(a, 'time_window', new_window(S, 0), None)
        expect(S, b, model, 'another object', None, None, where)
    return Spec('%s: two objects' % model, f)


def scen_step_down(S):
    """The step is positive whatever the direction of the window."""
    o = create(S, 'base')
    where = S.loc(S.I.get(*CLASSES['base'][:2]))
    N = S.dim('N', 2)
    S.I.setattr(o, 'time_window', S.I.new_arr(Array.make((N,), lambda i: sym('start') - i * sym('h'))), None)
    r = read(S, o, 'time_step')
    if r[0] == 'raise':
        return S.violated('step', 'available once created', where, 'raises %s' % r[1])
    S.eq('step', r[1], lambda: sym('h'), 'the (positive) spacing', where, ())


def main(tier):
    orders = [('path',), ('window',), ('path', 'window'), ('window', 'path'), ('path', 'path', 'window', 'window'),
              ('window', 'window', 'path', 'path'), ('path', 'window', 'path', 'window')]
    specs = [scen(m, o) for m in CLASSES for o in orders]
    specs += [scen_two(m) for m in CLASSES] + [Spec('decreasing window', scen_step_down)]
    return run_check('C21', 'access before creation', specs, tier)
