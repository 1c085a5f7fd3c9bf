"""C10: the free energy is the sum of three terms of one posterior; what is stored and reported belongs to it."""
from .vg import *
from . import simw

STORED = (('mt', 'mt'), ('st', 'st'), ('lamt', 'lam'), ('psit', 'psi'), ('Efx', 'Efx'), ('Edf', 'Edf'))


def expect_call(S, W, name, d, k, wh, x, c):
    """Arguments of collaborator `name` in the evaluation number c at x."""
    at = lambda *i: W.A(x, *i)
    bt = lambda *i: W.B(x, *i)
    r = lambda n: (lambda *i: el('%s#%d' % (n, c), i))
    scal = lambda nm: ((lambda *i: sym(nm)) if W.single else (lambda *i: el(nm, i)))
    tab = {'at': (at, W.v2), 'linear_a': (at, W.v2), 'bt': (bt, W.v1), 'offset_b': (bt, W.v1),
           'm0': (scal('m0'), W.p1), 's0': (scal('s0'), W.p2), 'sigma': (scal('sigma'), W.p2),
           'm': (r('mt'), W.v1), 's': (r('st'), W.v2), 'dEsde_dm': (r('gem'), W.v1), 'dEsde_ds': (r('ges'), W.v2),
           'dEobs_dm': (r('gom'), W.v1), 'dEobs_ds': (r('gos'), W.v2)}
    rules = {'fwd': 'parameters of this evaluation, stored initial moments, system noise',
             'bwd': 'parameters and gradients of this evaluation', 'energy': 'parameters and moments of this evaluation',
             'lik': 'moments of this evaluation', 'lik.gradients': 'moments of this evaluation',
             'kl0': 'stored initial moments'}
    for p, v in d.items():
        if p in tab:
            S.eq('evaluation %d: %s(%s)' % (c, name, p), v, tab[p][0], rules.get(name, 'this evaluation'), wh, tab[p][1])


def check_eval(S, W, log, val_, out, x, c, where):
    seen = set()
    for name, d, k, pc, wh in log:
        expect_call(S, W, name, d, k, wh or where, x, c)
        seen.add(name)
    for n in ('fwd', 'bwd', 'energy', 'lik', 'lik.gradients', 'kl0'):
        if n == 'kl0' and c > 1:
            continue
        S.decide('evaluation %d: %s evaluated' % (c, n), True if n in seen else None, 'every part takes part', where,
                 'call not seen')
    S.eq('evaluation %d: free energy' % c, val_, lambda: sym('E0#1') + sym('Esde#%d' % c) + sym('Eobs#%d' % c),
         'E0 + Esde + Eobs of this evaluation', where, ())
    check_out(S, W, out, c, where)


def check_out(S, W, out, c, where):
    I = S.I
    o = I.obj(out) if isinstance(out, Ref) else None
    if o is None or o.kind != 'dict':
        return S.undecided('stored posterior', 'record of the last evaluation', where, repr(out)[:100])
    for key, nm in STORED:
        sh = W.v1 if key in ('mt', 'lamt', 'Efx') else W.v2
        if key not in o.d:
            S.violated('stored %s' % key, 'the record of the last evaluation holds it', where, 'missing')
            continue
        S.eq('evaluation %d: stored %s' % (c, key), o.d[key], lambda *i, nm=nm: el('%s#%d' % (nm, c), i),
             'belongs to the last evaluation', where, sh)
    for key in ('m0', 's0'):
        if key in o.d:
            S.eq('evaluation %d: stored %s' % (c, key), o.d[key],
                 (lambda *i, key=key: sym(key)) if W.single else (lambda *i, key=key: el(key, i)),
                 'the initial moments are kept', where, W.p1 if key == 'm0' else W.p2)


def scen_eval(single):
    def scen(S):
        N = S.dim('N', 2)
        D = ONE if single else S.dim('D', 2)
        W = World(S, single, N, D)
        o = W.make()
        where = S.loc(S.attr(o, 'free_energy'))
        xs = [S.I.arr(n, (W.L,)) for n in ('x1', 'x2', 'x3')]
        v = S.meth(o, 'free_energy', xs[0])
        check_eval(S, W, W.log, v, S.attr(o, 'arg_out'), 'x1', 1, where)
        W.log = []
        v = S.meth(o, 'free_energy', xs[1])
        check_eval(S, W, W.log, v, S.attr(o, 'arg_out'), 'x2', 2, where)
        # gradient with its own evaluation: state of its point
        W.log = []
        S.meth(o, 'gradient', xs[2], True)
        check_out(S, W, S.attr(o, 'arg_out'), 3, S.loc(S.attr(o, 'gradient')))
        W.log = []
        S.meth(o, 'gradient', xs[2])
        S.decide('gradient without evaluation', True if not W.log else None, 'uses the state of the last evaluation',
                 S.loc(S.attr(o, 'gradient')), 'evaluates: %s' % [l[0] for l in W.log])
        check_out(S, W, S.attr(o, 'arg_out'), 3, S.loc(S.attr(o, 'gradient')))
        # back at an earlier point: its own value and state again
        W.log = []
        v = S.meth(o, 'free_energy', xs[0])
        S.eq('evaluation again', v, lambda: sym('E0#1') + sym('Esde#1') + sym('Eobs#1'),
             'the value depends on the point only', where, ())
        check_out(S, W, S.attr(o, 'arg_out'), 1, where)
    return Spec('evaluations/%s' % ('1d' if single else 'nd'), scen,
                [{'N': 3}, {'N': 4}] if single else [{'N': 3, 'D': 2}], [{'N': 4}] if single else [{'N': 2, 'D': 2}])


def scen_grad_state(single):
    from . import c09

    def scen(S):
        """The gradient uses the state of the point it is asked for / of the last evaluation."""
        N = S.dim('N', 2)
        D = ONE if single else S.dim('D', 2)
        W = World(S, single, N, D)
        o = W.make()
        where = S.loc(S.attr(o, 'gradient'))
        x1, x2 = S.I.arr('x1', (W.L,)), S.I.arr('x2', (W.L,))
        S.meth(o, 'free_energy', x1)
        c09.check_grad(S, W, 'gradient that re-evaluates', S.meth(o, 'gradient', x2, True), 'x2', 2, where)
        c09.check_grad(S, W, 'gradient after it', S.meth(o, 'gradient', x2), 'x2', 2, where)
        S.meth(o, 'free_energy', x1)
        c09.check_grad(S, W, 'gradient at an earlier point', S.meth(o, 'gradient', x1), 'x1', 1, where)
    return Spec('state of the gradient/%s' % ('1d' if single else 'nd'), scen,
                [{'N': 3}, {'N': 4}] if single else [{'N': 3, 'D': 2}], [{'N': 4}] if single else [{'N': 2, 'D': 2}])


def main(tier):
    specs = [scen_eval(s) for s in (True, False)] + [scen_grad_state(s) for s in (True, False)]
    specs += simw.run_specs()
    return run_check('C10', 'free-energy pipeline', specs, tier)
