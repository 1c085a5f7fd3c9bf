"""C04: Double-Well and Ornstein-Uhlenbeck energies against E_q[(f + a x - b)^2] / (2 sigma) and its derivatives."""
from .common import *
from . import c20

MODELS = {'dw': ('src.dynamics.double_well', 'DoubleWell'), 'ou': ('src.dynamics.ornstein_uhlenbeck',
                                                                   'OrnsteinUhlenbeck')}


def drift(which, x, th):
    return 4 * x * (th - x * x) if which == 'dw' else -th * x


def gauss(e, t):
    """Expectation over x ~ N(m[t], s[t])."""
    return expect(e, '~x', lambda i: el('m', (t,)), lambda i, j: el('s', (t,)))


def build(which, assigned):
    def scen(S):
        I = S.I
        for p in ('sigma', 'theta', 'dt', 'sigma_old', 'theta_old'):
            POSITIVE.add(p)
        N, M = S.dim('N', 2), S.dim('M', 1)
        sg, th, dt = sym('sigma'), sym('theta'), sym('dt')
        summarise_trapz(S)
        mod, cls = MODELS[which]
        o = S.make(mod, cls, sym('sigma_old') if assigned else sg, sym('theta_old') if assigned else th)
        where = S.loc(S.attr(o, 'energy'))
        if assigned:
            # an earlier evaluation with other arguments and parameters leaves no trace
            I.setattr(o, 'time_window', grid(S, N, dt), None)
            S.meth(o, 'energy', *([I.arr(n + '_old', (N,)) for n in 'abms'] + [obs_times(S, N, M)]))
            I.setattr(o, 'theta', th, None)
            I.setattr(o, 'sigma', sg, None)
        I.setattr(o, 'time_window', grid(S, N, dt), None)
        a, b, m, s = (I.arr(n, (N,)) for n in 'abms')
        r = S.meth(o, 'energy', a, b, m, s, obs_times(S, N, M))
        if not (isinstance(r, tuple) and len(r) == 3 and all(isinstance(x, tuple) for x in r[1:]) and
                len(r[1]) == 2 and len(r[2]) == 4):
            return S.violated('result', 'energy, drift averages, gradients', where, repr(r)[:200])
        x = el('~x', (ZERO,))
        f = drift(which, x, th)
        A = lambda t: el('a', (t,))
        B = lambda t: el('b', (t,))
        resid = lambda t: f + A(t) * x - B(t)
        integrand = lambda t: gauss(resid(t) * resid(t), t) * power(2 * sg, -1)
        dfdx = diff(f, fac1(x))
        S.eq('energy', r[0], lambda: trapezoid(N, dt, integrand), 'time integral of E[(f + a x - b)^2] / (2 sigma)',
             where, ())
        S.eq('E[f]', r[1][0], lambda t: gauss(f, t), 'drift average', where, (N,))
        S.eq('E[df/dx]', r[1][1], lambda t: gauss(dfdx, t), 'average of the drift derivative', where, (N,))

        def d(name):
            def g(t):
                e = integrand(t)
                v = fac1(el(name, (t,)))
                return diff(e, v)
            return g
        S.eq('gradient in m', r[2][0], d('m'), 'exact derivative of the integrand', where, (N,))
        S.eq('gradient in s', r[2][1], d('s'), 'exact derivative of the integrand', where, (N,))
        en = trapezoid(N, dt, integrand)
        S.eq('gradient in theta', r[2][2], lambda: diff(en, fac1(th)), 'exact derivative of the energy', where, ())
        S.eq('gradient in sigma', r[2][3], lambda: diff(en, fac1(sg)), 'exact derivative of the energy', where, ())
        S.samples.append('%s: energy = %s' % (S.name, str(r[0])[:300]))
    return Spec('%s%s' % (which, '/after another evaluation and new parameters' if assigned else ''), scen, [{'N': 3, 'M': 1}, {'N': 5, 'M': 2}],
                [{'N': 4, 'M': 2}])


def main(tier):
    specs = [build(w, a) for w in ('dw', 'ou') for a in (False, True)]
    specs += c20.trapz_specs(tier, (1,))
    return run_check('C04', 'DW and OU energies', specs, tier)
