"""C07: the observation energy is the expected negative Gaussian log-likelihood; gradients are its derivatives."""
from .common import *
from . import c20

MOD, CLS = 'src.var_bayes.gaussian_like', 'GaussianLikelihood'
HALF = E(Fraction(1, 2))


def log2pi(S):
    return log(2 * sym('pi'))


def times_value(S, N, M, kind):
    return obs_times(S, N, M)


def scen_1d(operator, reassigned):
    def scen(S):
        I = S.I
        for p in ('R', 'R_old', 's'):
            POSITIVE.add(p)
        N, M = S.dim('N', 2), S.dim('M', 1)
        ts = obs_times(S, N, M)
        H = sym('H') if operator else ONE
        o = S.make(MOD, CLS, I.arr('y', (M,)), ts, sym('R_old' if reassigned else 'R'), *((H,) if operator else (None,)),
                   **{'single_dim': True})
        where = S.loc(S.attr(o, '__call__'))
        m, s = I.arr('m', (N,)), I.arr('s', (N,))
        if reassigned:
            S.call(o, I.arr('m_old', (N,)), I.arr('s_old', (N,)))
            S.meth(o, 'gradients', I.arr('m_old', (N,)), I.arr('s_old', (N,)))
            I.setattr(o, 'noise', sym('R'), None)
        R = sym('R')
        n = fresh(ZERO, M, 'n')
        tn = el('obs_t', (ivar(n),))
        x = el('~x', (ZERO,))
        r = el('y', (ivar(n),)) - H * x
        term = expect(r * r, '~x', lambda i: el('m', (tn,)), lambda i, j: el('s', (tn,)))
        en = Sum(n, M, HALF * term / R) + HALF * M * (log2pi(S) + log(R))
        S.eq('energy', S.call(o, m, s), lambda: en, 'expected negative log-likelihood', where, ())
        g = S.meth(o, 'gradients', m, s)
        where = S.loc(S.attr(o, 'gradients'))
        if not isinstance(g, tuple) or len(g) < 2:
            return S.violated('gradients', 'gradients in mean and covariance', where, repr(g)[:200])
        S.eq('gradient in m', g[0], lambda t: diff(en, fac1(el('m', (t,)))), 'exact derivative, zero elsewhere', where,
             (N,))
        S.eq('gradient in s', g[1], lambda t: diff(en, fac1(el('s', (t,)))), 'exact derivative, zero elsewhere', where,
             (N,))
    return Spec('1d/%s%s' % ('operator' if operator else 'no operator', '/noise assigned later' if reassigned else ''),
                scen, [{'N': 3, 'M': 1}, {'N': 5, 'M': 3}], [{'N': 5, 'M': 2}, {'N': 3, 'M': 3}])


def scen_nd(operator, reassigned):
    def scen(S):
        I = S.I
        N, M, D = S.dim('N', 2), S.dim('M', 1), S.dim('D', 1)
        O = S.dim('O', 1) if operator else D
        ts = obs_times(S, N, M)
        for p in ('R', 'R_old'):
            SYM_AXES[p] = (0, 1)
            val.SPD[p] = (0, 1)
        SYM_AXES['s'] = (1, 2)
        SYM_AXES['s_old'] = (1, 2)
        Rm = I.arr('R_old' if reassigned else 'R', (O, O))
        h = [I.arr('H', (O, D))] if operator else [None]
        o = S.make(MOD, CLS, I.arr('y', (M, O)), ts, Rm, *h, single_dim=False)
        where = S.loc(S.attr(o, '__call__'))
        m, s = I.arr('m', (N, D)), I.arr('s', (N, D, D))
        if reassigned:
            S.call(o, I.arr('m_old', (N, D)), I.arr('s_old', (N, D, D)))
            S.meth(o, 'gradients', I.arr('m_old', (N, D)), I.arr('s_old', (N, D, D)))
            I.setattr(o, 'noise', I.arr('R', (O, O)), None)
        lam = I.read(I.arr('R', (O, O))).lam()
        Hm = (lambda i, k: el('H', (i, k))) if operator else (lambda i, k: delta(i, k))
        n, i, j, k, l = (fresh(ZERO, b, c) for b, c in ((M, 'n'), (O, 'i'), (O, 'j'), (D, 'k'), (D, 'l')))
        tn = el('obs_t', (ivar(n),))
        iR = fn('inv', (lam,), (ivar(i), ivar(j)))
        res = lambda a, v: el('y', (ivar(n), ivar(a))) - Sum(v, D, Hm(ivar(a), ivar(v)) * el('m', (tn, ivar(v))))
        mean = res(i, k) * res(j, l)
        var = Sum(k, D, Sum(l, D, Hm(ivar(i), ivar(k)) * el('s', (tn, ivar(k), ivar(l))) * Hm(ivar(j), ivar(l))))
        en = HALF * Sum(n, M, Sum(i, O, Sum(j, O, iR * (mean + var)))) + \
            HALF * M * (O * log2pi(S) + fn('logdet', (lam,)))
        S.eq('energy', S.call(o, m, s), lambda: en, 'expected negative log-likelihood', where, ())
        g = S.meth(o, 'gradients', m, s)
        where = S.loc(S.attr(o, 'gradients'))
        if not isinstance(g, tuple) or len(g) < 2:
            return S.violated('gradients', 'gradients in mean and covariance', where, repr(g)[:200])
        S.eq('gradient in m', g[0], lambda t, a: diff(en, fac1(el('m', (t, a)))), 'exact derivative, zero elsewhere',
             where, (N, D))

        def ds(t, a, b):
            q = HALF * Sum(i, O, Sum(j, O, iR * Hm(ivar(i), a) * Hm(ivar(j), b)))
            return Sum(n, M, delta(t, tn) * q)
        S.eq('gradient in S', g[1], ds, 'exact derivative 0.5 H^T R^-1 H, zero elsewhere', where, (N, D, D))
    return Spec('nd/%s%s' % ('operator' if operator else 'no operator', '/noise assigned later' if reassigned else ''),
                scen, [{'N': 3, 'M': 2, 'D': 2, 'O': 1}, {'N': 4, 'M': 2, 'D': 2, 'O': 3}],
                [{'N': 3, 'M': 2, 'D': 2, 'O': 2}, {'N': 4, 'M': 1, 'D': 3, 'O': 2}])


def main(tier):
    specs = [f(o, r) for f in (scen_1d, scen_nd) for o in (True, False) for r in (False, True)]
    specs += c20.chol_specs() + c20.logdet_specs()
    return run_check('C07', 'observation energy', specs, tier)
