"""C02: one step of the named method backwards for the adjoint equations plus the jump of the reached grid point."""
from ..core import *
from .c01 import METHODS, Vec, mm, tr, step


def build(method, cls, mod, single, what):
    def scen(S):
        alg.POSITIVE.add('dt')
        N = S.dim('N', 2)
        dt = sym('dt')
        I = S.I
        sh, D = ((), ONE) if single else ((), S.dim('D', 1))
        ode = S.make('src.var_bayes.bwd_ode', 'BwdOde', dt, method, single)
        where = S.loc(S.attr(S.make(mod, cls, dt, single), 'solve_bwd'))
        if single:
            v1, v2 = (N,), (N,)
        else:
            v1, v2 = (N, D), (N, D, D)
        A = I.arr('A', v2)
        em, es = I.arr('Em', v1), I.arr('Es', v2)
        jm, js = I.arr('Jm', v1), I.arr('Js', v2)
        out = S.call(ode, A, em, es, jm, js)
        if not isinstance(out, tuple) or len(out) != 2:
            return S.violated('result', 'the sweep returns both multipliers', where, 'returned %r' % (out,))
        k = 0 if what == 'lambda' else 1
        got = S.arr(out[k])
        rk = 0 if single else k + 1
        shape = (v1, v2)[k]
        en, jn = ('Em', 'Jm') if k == 0 else ('Es', 'Js')
        if got.ndim != len(shape):
            return S.violated('shape', 'one value per grid point', where, 'result has shape %s' % (got.shape,))
        coef = lambda t: (Vec(0 if single else 2, D, lambda *i: el('A', (t,) + i)),
                          Vec(rk, D, lambda *i: el(en, (t,) + i)))

        def rhs(c, y):
            a, e = c
            if single:
                return Vec(0, D, lambda: (k + 1) * a() * y() - e())
            if k == 0:
                return mm(y, a, D) - e
            return mm(y, a, D) + mm(tr(a, D), y, D) - e
        S.eq('value at the final time', Array.make(shape[1:], lambda *i: got.elem(N - 1, *i)),
             lambda *i: el(jn, (N - 1,) + i), 'final value is the observation gradient there', where, shape[1:],
             rec=True)
        S.decide('every grid point', got.shape == tuple(E(d) for d in shape), 'one value per grid point', where,
                 'shape %s' % (got.shape,))
        tv = fresh(ONE, N, 't')
        t = ivar(tv)
        y = Vec(rk, D, lambda *i: got.elem(t, *i))
        half = Fraction(1, 2)
        c1, c0 = coef(t), coef(t - 1)
        mid = tuple(Vec(p.rank, D, lambda *i, p=p, q=q: half * (p(*i) + q(*i))) for p, q in zip(c1, c0))
        nxt = step(method, y, rhs, c1, c0, mid, -dt)
        S.eq('step t -> t-1', Array.make(shape[1:], lambda *i: got.elem(t - 1, *i)),
             lambda *i: nxt(*i) + el(jn, (t - 1,) + i),
             'one %s step of the adjoint equation at the stage times plus the jump' % method, where, shape[1:],
             rec=True, extra_vars=(tv,))
    return scen


def main(tier):
    specs = []
    for cls, mod, name in METHODS:
        for single in (True, False):
            for what in ('lambda', 'psi'):
                b = [{'N': 3}, {'N': 5}] if single else [{'N': 3, 'D': 2}, {'N': 4, 'D': 3}]
                v = [{'N': 3}, {'N': 4}] if single else [{'N': 3, 'D': 2}, {'N': 3, 'D': 3}]
                specs.append(Spec('%s/%s/%s' % (cls, '1d' if single else 'nd', what),
                                  build(name, cls, mod, single, what), b, v))
    return run_check('C02', 'backward sweep', specs, tier)
