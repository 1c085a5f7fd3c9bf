"""C09: every slot of the gradient is the Lagrangian's derivative at its own time; one layout everywhere."""
from .vg import *
from . import c23, simw


def want_grad(W, x, c):
    """Reference gradient from the results of evaluation number c: (A slot, b slot)."""
    D, dt = W.D, sym('dt')
    e = lambda n, *i: el('%s#%d' % (n, c), i)
    if W.single:
        isg = sym('isig')
        db = lambda t: isg * (-e('Efx', t) - W.A(x, t) * e('mt', t) + W.B(x, t))
        da = lambda t: isg * (e('Edf', t) + W.A(x, t)) * e('st', t) - db(t) * e('mt', t)
        return (lambda t: dt * (da(t) - e('lam', t) * e('mt', t) - 2 * e('psi', t) * e('st', t)),
                lambda t: dt * (db(t) + e('lam', t)))
    isg = lambda i, j: el('isig', (i, j))

    def sm(f):
        v = fresh(ZERO, D, 'k')
        return Sum(v, D, f(ivar(v)))
    r = lambda t, k: -e('Efx', t, k) - sm(lambda l: W.A(x, t, k, l) * e('mt', t, l)) + W.B(x, t, k)
    db = lambda t, i: sm(lambda k: isg(i, k) * r(t, k))
    da = lambda t, i, j: sm(lambda k: isg(i, k) * sm(lambda l: (e('Edf', t, k, l) + W.A(x, t, k, l)) * e('st', t, l, j))) \
        - db(t, i) * e('mt', t, j)
    return (lambda t, i, j: dt * (da(t, i, j) - e('lam', t, i) * e('mt', t, j) -
                                  2 * sm(lambda k: e('psi', t, i, k) * e('st', t, k, j))),
            lambda t, i: dt * (db(t, i) + e('lam', t, i)))


def check_grad(S, W, name, g, x, c, where):
    ga, gb = want_grad(W, x, c)
    g = S.arr(g)
    if g.ndim != 1:
        return S.violated(name + '/shape', 'a vector', where, 'shape %s' % (g.shape,))
    S.eq(name + '/length', g.shape[0], lambda: W.L, 'as long as the parameter vector', where, ())
    N, D = W.N, W.D
    at = lambda t, *i: g.elem(t if W.single else t * D * D + i[0] * D + i[1])
    bt = lambda t, *i: g.elem(N * D * D + (t if W.single else t * D + i[0]))
    S.eq(name + '/A slots', Array.make(W.v2, at), ga, 'dt (dEsde/dA - lambda m^T - 2 Psi S) at its own time', where,
         W.v2)
    S.eq(name + '/b slots', Array.make(W.v1, bt), gb, 'dt (dEsde/db + lambda) at its own time', where, W.v1)


def scen_grad(single, eval_fun):
    def scen(S):
        N = S.dim('N', 2)
        D = ONE if single else S.dim('D', 2)
        W = World(S, single, N, D)
        o = W.make()
        x = S.I.arr('x', (W.L,))
        if not eval_fun:
            S.meth(o, 'free_energy', S.I.arr('x_old', (W.L,)))
            S.meth(o, 'free_energy', x)
        g = S.meth(o, 'gradient', x, eval_fun) if eval_fun else S.meth(o, 'gradient', x)
        where = S.loc(S.attr(o, 'gradient'))
        check_grad(S, W, 'gradient', g, 'x', 1 if eval_fun else 2, where)
    return Spec('gradient/%s/%s' % ('1d' if single else 'nd', 'own evaluation' if eval_fun else 'after evaluation'), scen,
                [{'N': 3}, {'N': 5}] if single else [{'N': 3, 'D': 2}, {'N': 2, 'D': 3}],
                [{'N': 4}] if single else [{'N': 2, 'D': 2}, {'N': 3, 'D': 2}, {'N': 2, 'D': 3}])


def scen_unpack(single):
    def scen(S):
        """The vector is unpacked with the same layout for the energy."""
        N = S.dim('N', 2)
        D = ONE if single else S.dim('D', 2)
        W = World(S, single, N, D)
        o = W.make()
        S.meth(o, 'free_energy', S.I.arr('x', (W.L,)))
        where = S.loc(S.attr(o, 'free_energy'))
        seen = set()
        for nm, d, k, pc, wh in W.log:
            for p, (f, sh, rule) in {'at': (W.A, W.v2, 'all A(t) first, row-major'), 'linear_a': (W.A, W.v2, 'all A(t) first, row-major'),
                                     'bt': (W.B, W.v1, 'all b(t) last'), 'offset_b': (W.B, W.v1, 'all b(t) last')}.items():
                if p in d and nm in ('fwd', 'bwd', 'energy'):
                    S.eq('%s receives %s' % (nm, p), d[p], lambda *i, f=f: f('x', *i), rule, wh or where, sh)
                    seen.add((nm, p))
        for q in (('fwd', 'at'), ('fwd', 'bt'), ('energy', 'linear_a'), ('energy', 'offset_b'), ('bwd', 'at')):
            if q not in seen:
                S.undecided('%s receives %s' % q, 'called', where, 'call not seen')
    return Spec('layout for the energy/%s' % ('1d' if single else 'nd'), scen,
                [{'N': 3}, {'N': 5}] if single else [{'N': 3, 'D': 2}, {'N': 2, 'D': 3}],
                [{'N': 4}] if single else [{'N': 2, 'D': 2}, {'N': 3, 'D': 2}, {'N': 2, 'D': 3}])


def main(tier):
    specs = [scen_grad(s, e) for s in (True, False) for e in (True, False)]
    specs += [scen_unpack(s) for s in (True, False)]
    specs += [c23.scen(s, 'observations inside', True) for s in (True, False)] + simw.run_specs(True)
    return run_check('C09', 'gradient assembly and layout', specs, tier)
