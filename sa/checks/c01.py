"""C01: one step of the named method for the moment equations, at every grid point, from the initial moments."""
from ..core import *

METHODS = (('Euler', 'src.numerics.euler', 'euler'), ('Heun', 'src.numerics.heun', 'heun'),
           ('RungeKutta2', 'src.numerics.runge_kutta2', 'rk2'), ('RungeKutta4', 'src.numerics.runge_kutta4', 'rk4'))


class Vec(object):
    """Component functions of the reference formulas: index tuple -> Expr."""

    def __init__(self, rank, D, f):
        self.rank, self.D, self.f = rank, D, f

    def __call__(self, *i):
        return self.f(*i)

    def __add__(self, o):
        return Vec(self.rank, self.D, lambda *i: self(*i) + o(*i))

    def __sub__(self, o):
        return Vec(self.rank, self.D, lambda *i: self(*i) - o(*i))

    def __rmul__(self, c):
        return Vec(self.rank, self.D, lambda *i: E(c) * self(*i))

    def by(self, c):
        return c * self if not isinstance(c, Expr) else Vec(self.rank, self.D, lambda *i: c * self(*i))

    def cache(self, tag):
        """Materialise (one normal form per element position)."""
        vs = [fresh(ZERO, self.D, 'm') for _ in range(self.rank)]
        body = E(self.f(*[ivar(v) for v in vs]))
        return Vec(self.rank, self.D, lambda *i: subs(body, dict(zip(vs, [E(x) for x in i]))))


def mm(a, b, D):
    """Matrix/vector products over component functions."""
    if a.rank == 2 and b.rank == 2:
        def f(i, j):
            k = fresh(ZERO, D, 'k')
            return Sum(k, D, a(i, ivar(k)) * b(ivar(k), j))
        return Vec(2, D, f)
    if a.rank == 2:
        def f(i):
            k = fresh(ZERO, D, 'k')
            return Sum(k, D, a(i, ivar(k)) * b(ivar(k)))
        return Vec(1, D, f)

    def f(j):
        k = fresh(ZERO, D, 'k')
        return Sum(k, D, a(ivar(k)) * b(ivar(k), j))
    return Vec(1, D, f)


def tr(a, D):
    return Vec(2, D, lambda i, j: a(j, i))


def step(method, y, rhs, t0, t1, mid, h):
    """One step of the method of size h for y' = rhs(stage, y); stages are the coefficient sets t0, mid, t1."""
    c = lambda v: v.cache('y')
    hh = h * E(Fraction(1, 2))
    if method == 'euler':
        return c(y + rhs(t0, y).by(h))
    if method == 'heun':
        k1 = c(rhs(t0, y))
        k2 = c(rhs(t1, c(y + k1.by(h))))
        return c(y + (k1 + k2).by(hh))
    if method == 'rk2':
        k1 = c(rhs(t0, y))
        return c(y + rhs(mid, c(y + k1.by(hh))).by(h))
    k1 = c(rhs(t0, y))
    k2 = c(rhs(mid, c(y + k1.by(hh))))
    k3 = c(rhs(mid, c(y + k2.by(hh))))
    k4 = c(rhs(t1, c(y + k3.by(h))))
    return c(y + (k1 + 2 * (k2 + k3) + k4).by(h * E(Fraction(1, 6))))


def build(method, cls, mod, single, what):
    def scen(S):
        alg.POSITIVE.add('dt')
        N = S.dim('N', 2)
        dt = sym('dt')
        if single:
            sh, D = (), ONE
        else:
            D = S.dim('D', 1)
        I = S.I
        ode = S.make('src.var_bayes.fwd_ode', 'FwdOde', dt, method, single)
        where = S.loc(S.attr(S.make(mod, cls, dt, single), 'solve_fwd'))
        SYM_AXES['S0'] = (0, 1)
        SYM_AXES['Q'] = (0, 1)
        if single:
            A, b = I.arr('A', (N,)), I.arr('b', (N,))
            m0, s0, q = sym('m0'), sym('S0'), sym('Q')
        else:
            A, b = I.arr('A', (N, D, D)), I.arr('b', (N, D))
            m0, s0, q = I.arr('m0', (D,)), I.arr('S0', (D, D)), I.arr('Q', (D, D))
        out = S.call(ode, A, b, m0, s0, q)
        if not isinstance(out, tuple) or len(out) != 2:
            return S.violated('result', 'the sweep returns means and covariances', where, 'returned %r' % (out,))
        rank = {'mean': 1, 'cov': 2}[what]
        got = S.arr(out[0 if what == 'mean' else 1])
        want_shape = (N,) if single else (N,) + (D,) * rank
        if single:
            atA = lambda t: Vec(0, D, lambda: el('A', (t,)))
            atb = lambda t: Vec(0, D, lambda: el('b', (t,)))
            mul = lambda a, y: Vec(0, D, lambda: a() * y())
            Q = Vec(0, D, lambda: q)
            init = (lambda: m0) if what == 'mean' else (lambda: s0)
            rk = 0
        else:
            atA = lambda t: Vec(2, D, lambda i, j: el('A', (t, i, j)))
            atb = lambda t: Vec(1, D, lambda i: el('b', (t, i)))
            Q = Vec(2, D, lambda i, j: el('Q', (i, j)))
            init = (lambda i: el('m0', (i,))) if what == 'mean' else (lambda i, j: el('S0', (i, j)))
            rk = rank

        def rhs(c, y):
            a, bb = c
            if single:
                if what == 'mean':
                    return Vec(0, D, lambda: bb() - a() * y())
                return Vec(0, D, lambda: Q() - 2 * a() * y())
            if what == 'mean':
                return bb - mm(a, y, D)
            return Q - mm(a, y, D) - mm(y, tr(a, D), D)

        half = Fraction(1, 2)
        if got.ndim != len(want_shape):
            return S.violated('shape', 'one value per grid point', where, 'result has shape %s' % (got.shape,))
        S.eq('initial value', Array.make(want_shape[1:], lambda *i: got.elem(ZERO, *i)),
             lambda *i: init(*i), 'value at t0 is the initial moment', where, want_shape[1:], rec=True)
        S.decide('every grid point', got.shape == tuple(E(d) for d in want_shape), 'one value per grid point', where,
                 'shape %s' % (got.shape,))
        tv = fresh(ZERO, N - 1, 't')
        t = ivar(tv)
        y = Vec(rk, D, lambda *i: got.elem(t, *i))
        mid = (Vec(0 if single else 2, D, lambda *i: half * (atA(t)(*i) + atA(t + 1)(*i))),
               Vec(0 if single else 1, D, lambda *i: half * (atb(t)(*i) + atb(t + 1)(*i))))
        nxt = step(method, y, rhs, (atA(t), atb(t)), (atA(t + 1), atb(t + 1)), mid, dt)
        S.eq('step t -> t+1', Array.make(want_shape[1:], lambda *i: got.elem(t + 1, *i)), lambda *i: nxt(*i),
             'one %s step of the moment equation at the stage times' % method, where, want_shape[1:], rec=True,
             extra_vars=(tv,))
        S.samples.append('%s: y(t+1) = %s' % (S.name, str(got.elem(t + 1, *[ZERO] * rk))[:200]))
    return scen


def main(tier):
    specs = []
    for cls, mod, name in METHODS:
        for single in (True, False):
            for what in ('mean', 'cov'):
                b = [{'N': 3}, {'N': 5}] if single else [{'N': 3, 'D': 2}, {'N': 4, 'D': 3}]
                v = [{'N': 3}, {'N': 4}] if single else [{'N': 3, 'D': 2}, {'N': 3, 'D': 3}]
                specs.append(Spec('%s/%s/%s' % (cls, '1d' if single else 'nd', what),
                                  build(name, cls, mod, single, what), b, v))
    return run_check('C01', 'forward sweep', specs, tier)
