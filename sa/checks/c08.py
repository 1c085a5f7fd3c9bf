"""C08: the initial-state energy is KL(N(m0,S0) || N(mu0,tau0)); gradients plus the initial multipliers."""
from .common import *
from . import c20

MOD, CLS = 'src.var_bayes.prior_kl0', 'PriorKL0'
HALF = E(Fraction(1, 2))


def scen_1d(S):
    I = S.I
    for p in ('s0', 'tau0'):
        POSITIVE.add(p)
    m0, s0, mu, tau = sym('m0'), sym('s0'), sym('mu0'), sym('tau0')
    o = S.make(MOD, CLS, mu, tau, single_dim=True)
    where = S.loc(S.attr(o, '__call__'))
    d = m0 - mu
    kl = HALF * (log(tau) - log(s0) + (d * d + s0) / tau - 1)
    S.eq('energy', S.call(o, m0, s0), lambda: kl, 'KL( N(m0,s0) || N(mu0,tau0) )', where, ())
    S.eq('coinciding Gaussians', S.call(o, mu, tau), lambda: ZERO, 'zero when the Gaussians coincide', where, ())
    for nm in ('', ' again'):
        g = S.meth(o, 'gradients', m0, s0, sym('lam0'), sym('psi0'))
        where = S.loc(S.attr(o, 'gradients'))
        if not isinstance(g, tuple) or len(g) != 2:
            return S.violated('gradients', 'gradients in mean and variance', where, repr(g)[:200])
        S.eq('gradient in m0' + nm, g[0], lambda: sym('lam0') + diff(kl, fac1(m0)), 'derivative plus lambda(0)', where,
             ())
        S.eq('gradient in s0' + nm, g[1], lambda: sym('psi0') + diff(kl, fac1(s0)), 'derivative plus Psi(0)', where, ())
    S.eq('energy again', S.call(o, m0, s0), lambda: kl, 'the same after other evaluations', where, ())


def scen_nd(S):
    I = S.I
    D = S.dim('D', 1)
    for p in ('S0', 'T0'):
        SYM_AXES[p] = (0, 1)
        val.SPD[p] = (0, 1)
    SYM_AXES['psi0'] = (0, 1)
    m0, s0, mu, tau = I.arr('m0', (D,)), I.arr('S0', (D, D)), I.arr('mu0', (D,)), I.arr('T0', (D, D))
    o = S.make(MOD, CLS, mu, tau, single_dim=False)
    where = S.loc(S.attr(o, '__call__'))
    tl, sl = I.read(tau).lam(), I.read(s0).lam()
    i, j = fresh(ZERO, D, 'i'), fresh(ZERO, D, 'j')
    z = lambda v: el('m0', (E(v),)) - el('mu0', (E(v),))
    iT = lambda a, b: fn('inv', (tl,), (E(a), E(b)))
    kl = HALF * (fn('logdet', (tl,)) - fn('logdet', (sl,)) - D +
                 Sum(i, D, Sum(j, D, iT(ivar(i), ivar(j)) * (z(ivar(i)) * z(ivar(j)) + el('S0', (ivar(i), ivar(j)))))))
    S.eq('energy', S.call(o, m0, s0), lambda: kl, 'KL( N(m0,S0) || N(mu0,tau0) )', where, ())
    S.eq('coinciding Gaussians', S.call(o, mu, tau), lambda: ZERO, 'zero when the Gaussians coincide', where, ())
    lam0, psi0 = I.arr('lam0', (D,)), I.arr('psi0', (D, D))
    for nm in ('', ' again'):
        g = S.meth(o, 'gradients', m0, s0, lam0, psi0)
        where = S.loc(S.attr(o, 'gradients'))
        if not isinstance(g, tuple) or len(g) != 2:
            return S.violated('gradients', 'gradients in mean and covariance', where, repr(g)[:200])
        S.eq('gradient in m0' + nm, g[0], lambda a: el('lam0', (a,)) + Sum(i, D, iT(a, ivar(i)) * z(ivar(i))),
             'derivative plus lambda(0)', where, (D,))
        S.eq('gradient in S0' + nm, g[1], lambda a, b: el('psi0', (a, b)) + HALF * (iT(a, b) - fn('inv', (sl,), (a, b))),
             'derivative plus Psi(0)', where, (D, D))
    S.eq('energy again', S.call(o, m0, s0), lambda: kl, 'the same after other evaluations', where, ())


def main(tier):
    specs = [Spec('1d', scen_1d), Spec('nd', scen_nd, [{'D': 1}, {'D': 2}, {'D': 3}], [{'D': 2}, {'D': 3}])]
    specs += c20.chol_specs() + c20.logdet_specs()
    return run_check('C08', 'initial-state energy', specs, tier)
