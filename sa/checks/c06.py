"""C06: Lorenz-96 drift, Jacobian, averages and unscented energy/gradients."""
from .common import *
from . import c20

MOD, CLS = 'src.dynamics.lorenz_96', 'Lorenz96'


def l96(x, D, u):
    """Drift component i of the state x(i), cyclic indices."""
    return lambda i: (x(mod(i + 1, D)) - x(mod(i - 2, D))) * x(mod(i - 1, D)) - x(i) + u


def ut(S, g, K, m, s):
    """Unscented average of the K-vector g(x) (component functions) for mean m and covariance s (array values)."""
    def fun(it, args, kw, node):
        X = it.read(args[0])
        return it.new_arr(Array.make((X.shape[0], K), lambda j, d: g(lambda i: X.elem(j, i))(d)))
    r = S.call(S.get(U, 'ut_approx'), PyFn('g', fun), m, s)
    return S.arr(r[0])


def l96_value(V, f, env):
    """Evaluator of the opaque drift vector (its formula is decided in the drift scenario)."""
    x = V.mat(f.args[0], env)
    u = V.ev(f.args[1], env)
    i = int(V.ev(f.args[2], env))
    n = len(x)
    return (x[(i + 1) % n] - x[(i - 2) % n]) * x[(i - 1) % n] - x[i] + u


val.FUN['l96'] = l96_value


def opaque(x, D, u):
    """The drift vector of the state x as an opaque array."""
    lam = Array.make((D,), lambda i: x(i)).lam()
    return lambda i: fn('l96', (lam, u), (i,))


def summarise_drift(S, D):
    q = MOD + '.l96'
    f = func_of(S.I, q)
    if f is None:
        return

    def h(it, args, kwargs, node):
        v = bound_args(it, f, args, kwargs, node)
        names = [a.arg for a in f.node.args.args]
        if v is None or len(names) != 2:
            return real_call(it, q, f, args, kwargs, node)
        X = it.read(it.np.to_array(it, v[names[0]], node))
        u = it.read(it.np.to_array(it, v[names[1]], node))
        if u.ndim != 0 or X.ndim not in (1, 2) or X.shape[-1] != D:
            return real_call(it, q, f, args, kwargs, node)
        if X.ndim == 1:
            return it.new_arr(Array.make(X.shape, opaque(lambda i: X.elem(i), D, u.elem())))
        j0 = fresh(ZERO, X.shape[0], 'j')
        o = opaque(lambda i: X.elem(ivar(j0), i), D, u.elem())
        return it.new_arr(Array.make(X.shape, lambda j, i: subs(o(i), {j0: E(j)})))
    S.I.overrides[q] = h


def drift(S):
    I = S.I
    D = S.dim('D', 10)
    J = S.dim('J', 1)
    f = S.get(MOD, 'l96')
    where = S.loc(f)
    u = sym('theta')
    S.eq('single state', S.call(f, I.arr('x', (D,)), u), l96(lambda i: el('x', (i,)), D, u), 'L96 drift', where, (D,))
    S.eq('batch of states', S.call(f, I.arr('x', (J, D)), u),
         lambda j, i: l96(lambda k: el('x', (j, k)), D, u)(i), 'L96 drift of every row', where, (J, D))


def setup(S, history=False):
    I = S.I
    POSITIVE.add('dt')
    N, M, D = S.dim('N', 2), S.dim('M', 1), S.dim('D', 10)
    dt, u = sym('dt'), sym('theta')
    summarise_trapz(S)
    summarise_ut(S)
    summarise_drift(S, D)
    for q in ('Q', 'Q_old'):
        SYM_AXES[q] = (0, 1)
        val.SPD[q] = (0, 1)
    for q in ('s', 's_old'):
        SYM_AXES[q] = (1, 2)
        val.SPD[q] = (1, 2)
    o = S.make(MOD, CLS, I.arr('Q_old' if history else 'Q', (D, D)), sym('theta_old') if history else u, None, D)
    I.setattr(o, 'time_window', grid(S, N, dt), None)
    if history:
        S.meth(o, 'energy', I.arr('a_old', (N, D, D)), I.arr('b_old', (N, D)), I.arr('m_old', (N, D)),
               I.arr('s_old', (N, D, D)), obs_times(S, N, M))
        I.setattr(o, 'theta', u, None)
        I.setattr(o, 'sigma', I.arr('Q', (D, D)), None)
    return I, N, M, D, dt, u, o


def build(what, history=False):
    def scen(S):
        I, N, M, D, dt, u, o = setup(S, history)
        where = S.loc(S.attr(o, 'energy'))
        a, b, m, s = I.arr('a', (N, D, D)), I.arr('b', (N, D)), I.arr('m', (N, D)), I.arr('s', (N, D, D))
        r = S.meth(o, 'energy', a, b, m, s, obs_times(S, N, M))
        if not (isinstance(r, tuple) and len(r) == 3 and all(isinstance(x, tuple) for x in r[1:]) and
                len(r[1]) == 2 and len(r[2]) == 4):
            return S.violated('result', 'energy, drift averages, gradients', where, repr(r)[:200])
        lam = I.read(I.arr('Q', (D, D))).lam()
        iq = lambda i, j: fn('inv', (lam,), (E(i), E(j)))
        mi = lambda t: (lambda i: el('m', (t, i)))
        if what == 'averages':
            def ef(t, i):
                cov = lambda p, q: el('s', (t, p, q))
                p, n, n2 = mod(i - 1, D), mod(i + 1, D), mod(i - 2, D)
                return l96(mi(t), D, u)(i) + cov(n, p) - cov(n2, p)
            S.eq('E[f]', r[1][0], ef, 'exact Gaussian average of the drift', where, (N, D))

            def jac(t, i, j):
                x = mi(t)
                p, n, n2 = mod(i - 1, D), mod(i + 1, D), mod(i - 2, D)
                return (delta(j, n) - delta(j, n2)) * x(p) + (x(n) - x(n2)) * delta(j, p) - delta(i, j)
            S.eq('Jacobian', r[1][1], jac, 'derivative of the drift at the mean', where, (N, D, D))
            return
        tv = fresh(ZERO, N, 't')
        t = ivar(tv)
        mt = I.new_arr(Array.make((D,), lambda i: el('m', (t, i))))
        st = I.new_arr(Array.make((D, D), lambda i, j: el('s', (t, i, j))))

        def sqres(x):
            def g(i):
                k = fresh(ZERO, D, 'k')
                e = opaque(x, D, u)(i) + Sum(k, D, el('a', (t, i, ivar(k))) * x(ivar(k))) - el('b', (t, i))
                return e * e
            return g

        def v(x):
            k = fresh(ZERO, D, 'k')
            return Sum(k, D, iq(ivar(k), ivar(k)) * sqres(x)(ivar(k)))
        at = lambda e, tt: subs(e, {tv: E(tt)})
        ut1 = ut(S, sqres, D, mt, st)
        k = fresh(ZERO, D, 'k')
        en = Sum(k, D, iq(ivar(k), ivar(k)) * ut1.elem(ivar(k)))
        half = E(Fraction(1, 2))
        slam = I.read(st).lam()
        isv = lambda i, j: fn('inv', (slam,), (E(i), E(j)))
        if what == 'energy':
            S.eq('energy', r[0], lambda: trapezoid(N, dt, lambda tt: at(half * en, tt)),
                 'time integral of 0.5 sum_i (Sigma^-1)_ii UT[(f + A x - b)_i^2]', where, ())
        if what == 'gradient in m':
            def gm(x):
                def f(i):
                    q = fresh(ZERO, D, 'q')
                    return Sum(q, D, isv(i, ivar(q)) * x(ivar(q))) * v(x)
                return f
            ug = ut(S, gm, D, mt, st)
            q = fresh(ZERO, D, 'q')

            def want(tt, i):
                return at(half * (ug.elem(i) - en * Sum(q, D, isv(i, ivar(q)) * el('m', (t, ivar(q))))), tt)
            S.eq('gradient in m', r[2][0], want, '0.5 (UT[v S^-1 x] - UT[v] S^-1 m)', where, (N, D))
        if what == 'gradient in S':
            i0, j0 = fresh(ZERO, D, 'i'), fresh(ZERO, D, 'j')

            def gs(x):
                def f(_):
                    q, p = fresh(ZERO, D, 'q'), fresh(ZERO, D, 'p')
                    z = lambda c: x(c) - el('m', (t, c))
                    return (Sum(q, D, isv(ivar(i0), ivar(q)) * z(ivar(q))) *
                            Sum(p, D, isv(ivar(p), ivar(j0)) * z(ivar(p))) * v(x))
                return f
            ug = ut(S, gs, ONE, mt, st).elem(ZERO)
            quarter = E(Fraction(1, 4))

            def want(tt, i, j):
                return at(subs(quarter * (ug - en * isv(ivar(i0), ivar(j0))), {i0: E(i), j0: E(j)}), tt)
            S.eq('gradient in S', r[2][1], want, '0.25 (UT[v S^-1 (x-m)(x-m)^T S^-1] - UT[v] S^-1)', where, (N, D, D))
    return Spec(what + ('/after another evaluation and new parameters' if history else ''), scen,
                [{'N': 2, 'M': 1, 'D': 10}], [{'N': 3, 'M': 1, 'D': 10}])


def main(tier):
    specs = [Spec('drift', drift, [{'D': 10, 'J': 2}], [{'D': 10, 'J': 2}, {'D': 11, 'J': 2}])]
    specs += [build(w, h) for w in ('averages', 'energy', 'gradient in m', 'gradient in S') for h in (False, True)]
    specs += c20.trapz_specs(tier, (1,)) + c20.chol_specs() + c20.ut_specs()
    return run_check('C06', 'Lorenz-96', specs, tier)
