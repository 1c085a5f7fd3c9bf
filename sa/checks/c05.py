"""C05: Lorenz-63 energy against the exact Gaussian expectation (Isserlis) and its formal derivatives."""
from .common import *
from . import c20

MOD, CLS = 'src.dynamics.lorenz_63', 'Lorenz63'


def drift(x, th):
    return [th(0) * (x(1) - x(0)), (th(1) - x(2)) * x(0) - x(1), x(0) * x(1) - th(2) * x(2)]


def gauss(e, t):
    return expect(e, '~x', lambda i: el('m', (t, i)), lambda i, j: el('s', (t, i[0], j[0])))


def pick(fs, i):
    """Component i of a list of three expressions."""
    e = ZERO
    for k, f in enumerate(fs):
        e = e + delta(i, E(k)) * f
    return e


def build(what, history):
    def scen(S):
        I = S.I
        POSITIVE.add('dt')
        N, M = S.dim('N', 2), S.dim('M', 1)
        dt = sym('dt')
        summarise_trapz(S)
        SYM_AXES['s'] = (1, 2)
        SYM_AXES['s_old'] = (1, 2)
        for q in ('Q', 'Q_old'):
            SYM_AXES[q] = (0, 1)
            val.SPD[q] = (0, 1)
        val.SPD['s'] = (1, 2)
        T = E(3)
        o = S.make(MOD, CLS, I.arr('Q_old' if history else 'Q', (T, T)), I.arr('theta_old' if history else 'theta', (T,)))
        where = S.loc(S.attr(o, 'energy'))
        I.setattr(o, 'time_window', grid(S, N, dt), None)
        if history:
            S.meth(o, 'energy', I.arr('a_old', (N, T, T)), I.arr('b_old', (N, T)), I.arr('m_old', (N, T)),
                   I.arr('s_old', (N, T, T)), obs_times(S, N, M))
            I.setattr(o, 'theta', I.arr('theta', (T,)), None)
            I.setattr(o, 'sigma', I.arr('Q', (T, T)), None)
        a, b, m, s = I.arr('a', (N, T, T)), I.arr('b', (N, T)), I.arr('m', (N, T)), I.arr('s', (N, T, T))
        r = S.meth(o, 'energy', a, b, m, s, obs_times(S, N, M))
        if not (isinstance(r, tuple) and len(r) == 3 and all(isinstance(x, tuple) for x in r[1:]) and
                len(r[1]) == 2 and len(r[2]) == 4):
            return S.violated('result', 'energy, drift averages, gradients', where, repr(r)[:200])
        lam = I.read(I.arr('Q', (T, T))).lam()
        iq = lambda i, j: fn('inv', (lam,), (E(i), E(j)))
        x = lambda i: el('~x', (E(i),))
        th = lambda i: el('theta', (E(i),))
        f = drift(x, th)

        def resid(t, i):
            return f[i] + sum((el('a', (t, E(i), E(j))) * x(j) for j in range(3)), ZERO) - el('b', (t, E(i)))
        tv = fresh(ZERO, N, 't')
        sq = []
        for i in range(3):
            q = resid(ivar(tv), i)
            sq.append(gauss(q * q, ivar(tv)))
        at = lambda e, t: subs(e, {tv: E(t)})
        en = sum((iq(i, i) * sq[i] for i in range(3)), ZERO) * E(Fraction(1, 2))
        if what == 'energy':
            S.eq('energy', r[0], lambda: trapezoid(N, dt, lambda t: at(en, t)),
                 'time integral of 0.5 sum_i (Sigma^-1)_ii E[(f + A x - b)_i^2]', where, ())
            S.eq('E[f]', r[1][0], lambda t, i: pick([at(gauss(g, ivar(tv)), t) for g in f], i), 'drift average', where,
                 (N, T))
            J = [[gauss(diff(f[i], fac1(x(j))), ivar(tv)) for j in range(3)] for i in range(3)]
            S.eq('E[df/dx]', r[1][1], lambda t, i, j: pick([pick([at(e, t) for e in row], j) for row in J], i),
                 'average of the drift Jacobian', where, (N, T, T))
        if what == 'gradients':
            dm = [diff(en, fac1(el('m', (ivar(tv), E(i))))) for i in range(3)]
            ds = [[diff(en, fac1(el('s', (ivar(tv), E(i), E(j))))) for j in range(3)] for i in range(3)]
            S.eq('gradient in m', r[2][0], lambda t, i: pick([at(e, t) for e in dm], i),
                 'exact derivative of the integrand', where, (N, T))
            S.eq('gradient in S', r[2][1], lambda t, i, j: pick([pick([at(e, t) for e in row], j) for row in ds], i),
                 'exact derivative of the integrand, half for each of two symmetric elements', where, (N, T, T))
            dth = [diff(en, fac1(th(i))) for i in range(3)]
            S.eq('gradient in theta', r[2][2], lambda i: trapezoid(N, dt, lambda t: pick([at(e, t) for e in dth], i)),
                 'exact derivative of the energy', where, (T,))

            def dsig(i, j):
                return -E(Fraction(1, 2)) * sum((iq2(i, k) * trapezoid(N, dt, lambda t: at(sq[k], t)) * iq2(k, j)
                                                for k in range(3)), ZERO)
            iq2 = lambda i, j: fn('inv', (lam,), (E(i), E(j)))
            S.eq('gradient in Sigma', r[2][3], dsig, '-0.5 Sigma^-1 diag(int E[r^2]) Sigma^-1', where, (T, T))
        S.samples.append('%s: energy = %s' % (S.name, str(r[0])[:300]))
    return Spec('%s%s' % (what, '/after another evaluation and new parameters' if history else ''), scen,
                [{'N': 3, 'M': 1}, {'N': 4, 'M': 2}], [{'N': 3, 'M': 2}])


def main(tier):
    specs = [build(w, h) for w in ('energy', 'gradients') for h in (False, True)]
    specs += c20.trapz_specs(tier) + c20.chol_specs()
    return run_check('C05', 'Lorenz-63 energy', specs, tier)
