"""C20: the numerical utilities compute exactly what the inference relies on."""
from ..core import *

U = 'src.numerics.utilities'


# ------------------------------------------------------------------------------------------- trapezoid helper
def trapz_spec(M, first, last, rank):
    """M sorted distinct times; first: first time is the start of the interval; last: last time is its end."""
    def scen(S):
        I = S.I
        for k in range(M + 1):
            SYM_MIN['g%d' % k] = 0
        SYM_MIN['g0'] = 1
        SYM_MIN['r'] = 1
        o, cur = [], ZERO if first else sym('g0')
        for k in range(M):
            o.append(cur)
            cur = cur + 1 + sym('g%d' % (k + 1))
        N = o[-1] + 1 + (ZERO if last else sym('r')) if M else sym('r') + 1
        sh = (N,) if rank == 1 else (N, S.dim('D', 1))
        fx = I.arr('fx', sh)
        dx = sym('dx')
        f = S.get(U, 'my_trapz')
        where = S.loc(f)
        t = fresh(ZERO, N - 1, 't')
        half = E(Fraction(1, 2))

        def want(*i):
            v = fresh(ZERO, N - 1, 't')
            return Sum(v, N - 1, dx * half * (el('fx', (ivar(v),) + i) + el('fx', (ivar(v) + 1,) + i)))
        rule = 'integral over the whole interval however it is split'
        if M == 0:
            S.eq('no times', S.call(f, fx, dx), want, rule, where, sh[1:])
            S.eq('unit step', S.call(f, fx), lambda *i: subs_sym(want(*i), 'dx', ONE), rule, where, sh[1:])
            S.eq('times=None', S.call(f, fx, dx, None), want, rule, where, sh[1:])
            return
        S.eq('times given as a list', S.call(f, fx, dx, I.new_list(list(o)) if hasattr(I, 'new_list') else tuple(o)),
             want, rule, where, sh[1:])
        S.eq('times given as an array', S.call(f, fx, dx, I.np.to_array(I, tuple(o), None)), want, rule, where, sh[1:])
        S.eq('keywords', S.call(f, fx, dx=dx, obs_t=I.np.to_array(I, tuple(o), None)), want, rule, where, sh[1:])
    nm = 'my_trapz/%d times%s%s/%s' % (M, ' from start' if first else '', ' to end' if last else '',
                                       'scalar' if rank == 1 else 'vector')
    return Spec(nm, scen, [{'D': 2}] if rank == 2 else [], [{'D': 2}])


def subs_sym(e, name, by):
    return replace_atoms(e, lambda a: by if a.kind == 'sym' and a.name == name else None)


def trapz_specs(tier, ranks=(1, 2)):
    out = []
    for rank in ranks:
        out.append(trapz_spec(0, False, False, rank))
        top = 3 if tier == 'quick' else 6
        for M in range(1, top + 1):
            for first in (False, True):
                for last in (False, True):
                    if M == 1 and first and last:
                        continue
                    if rank == 2 and M > 2 and tier == 'quick':
                        continue
                    out.append(trapz_spec(M, first, last, rank))
    return out


# ------------------------------------------------------------------------------------------- inverse helper
def chol_scalar(S):
    I = S.I
    POSITIVE.add('x')
    f = S.get(U, 'chol_inv')
    where = S.loc(f)
    for nm, v in (('scalar', sym('x')), ('0-d array', I.np.to_array(I, sym('x'), None))):
        r = S.call(f, v)
        if not isinstance(r, tuple) or len(r) != 2:
            return S.violated('pair', 'returns the inverse and the inverse Cholesky factor', where, repr(r))
        S.eq('inverse of a %s' % nm, r[0], lambda: power(sym('x'), -1), 'inverse', where, ())
        S.eq('inverse Cholesky factor of a %s' % nm, r[1], lambda: power(sym('x'), Fraction(-1, 2)),
             'inverse of the lower Cholesky factor', where, ())


def chol_matrix(S):
    I = S.I
    D = S.dim('D', 1)
    SYM_AXES['X'] = (0, 1)
    val.SPD['X'] = (0, 1)
    X = I.arr('X', (D, D))
    f = S.get(U, 'chol_inv')
    where = S.loc(f)
    r = S.call(f, X)
    if not isinstance(r, tuple) or len(r) != 2:
        return S.violated('pair', 'returns the inverse and the inverse Cholesky factor', where, repr(r))
    lam = I.read(X).lam()
    S.eq('inverse', r[0], lambda i, j: fn('inv', (lam,), (i, j)), 'inverse', where, (D, D))
    S.eq('inverse Cholesky factor', r[1], lambda i, j: fn('invchol', (lam,), (i, j)),
         'inverse of the lower Cholesky factor', where, (D, D))


def chol_specs():
    return [Spec('chol_inv/scalar', chol_scalar), Spec('chol_inv/matrix', chol_matrix, [{'D': 1}, {'D': 2}, {'D': 3}],
                                                       [{'D': 2}, {'D': 3}])]


# ------------------------------------------------------------------------------------------- log-determinant
def logdet_spec(kind):
    def scen(S):
        I = S.I
        f = S.get(U, 'log_det')
        where = S.loc(f)
        rule = 'log-determinant'
        POSITIVE.add('x')
        if kind == 'scalar':
            for nm, v in (('scalar', sym('x')), ('0-d array', I.np.to_array(I, sym('x'), None))):
                S.eq(nm, S.call(f, v), lambda: log(sym('x')), rule, where, ())
        elif kind == 'diagonal':
            D = S.dim('D', 1)
            POSITIVE.add('d')

            def want():
                v = fresh(ZERO, D, 'k')
                return Sum(v, D, log(el('d', (ivar(v),))))
            S.eq('diagonal', S.call(f, I.arr('d', (D,))), want, rule, where, ())
        elif kind == 'matrix':
            D = S.dim('D', 1)
            SYM_AXES['X'] = (0, 1)
            val.SPD['X'] = (0, 1)
            X = I.arr('X', (D, D))
            lam = I.read(X).lam()
            S.eq('matrix', S.call(f, X), lambda: fn('logdet', (lam,)), rule, where, ())
        else:
            D, K = S.dim('D', 1), S.dim('K', 1)
            S.raises('more rows', f, [I.arr('X', (D + K, D))], 'RuntimeError', 'non-square input is refused')
            S.raises('more columns', f, [I.arr('X', (D, D + K))], 'RuntimeError', 'non-square input is refused')
    b = {'scalar': [], 'diagonal': [{'D': 1}, {'D': 3}], 'matrix': [{'D': 1}, {'D': 2}, {'D': 3}],
         'refuse': [{'D': 1, 'K': 1}, {'D': 2, 'K': 1}]}[kind]
    return Spec('log_det/' + kind, scen, b, b[-1:])


def logdet_specs():
    return [logdet_spec(k) for k in ('scalar', 'diagonal', 'matrix', 'refuse')]


# ------------------------------------------------------------------------------------------- unscented transform
def ut_inputs(S):
    I = S.I
    D = S.dim('D', 1)
    SYM_AXES['P'] = (0, 1)
    val.SPD['P'] = (0, 1)
    return I, D, I.arr('mu', (D,)), I.arr('P', (D, D))


def ut_points(S):
    I, D, mu, P = ut_inputs(S)
    f = S.get(U, 'ut_approx')
    where = S.loc(f)
    K = S.dim('K', 1)
    seen = []
    a1, a2 = sym('arg1'), sym('arg2')

    def probe(it, args, kw, node):
        seen.append((it.read(args[0]), tuple(args[1:]), kw))
        return it.new_arr(Array.make((2 * D + 1, K), lambda j, d: el('Y', (j, d))))
    r = S.call(f, PyFn('fun', probe), mu, P, a1, a2)
    if not isinstance(r, tuple) or len(r) != 2:
        return S.violated('pair', 'returns a mean and a covariance', where, repr(r))
    if not seen:
        return S.violated('evaluation', 'the function is evaluated at the sigma points', where, 'it is never called')
    chi, rest, kw = seen[0]
    S.decide('2D+1 points', chi.shape == (2 * D + 1, D), '2D+1 points of dimension D', where, 'shape %s' % (chi.shape,))
    S.decide('extra arguments', rest == (a1, a2) and not kw, 'extra arguments are passed on', where, repr(rest))
    # weights: the response of the mean to one output
    y = S.arr(r[0])
    if y.ndim != 1:
        return S.violated('shape of the mean', 'one value per output', where, 'shape %s' % (y.shape,))
    d0 = fresh(ZERO, K, 'd')
    j0 = fresh(ZERO, 2 * D + 1, 'j')
    mark = el('Y', (ivar(j0), ivar(d0)))
    ymean = y.elem(ivar(d0))

    def w(j):
        return subs(wj, {j0: E(j)})
    wj = diff(ymean, fac0(mark))
    jv = fresh(ZERO, 2 * D + 1, 'j')
    S.eqx('mean is a weighted mean', ymean, Sum(jv, 2 * D + 1, w(ivar(jv)) * el('Y', (ivar(jv), ivar(d0)))), [d0],
          'weighted mean of the output', where)
    S.eqx('weights sum to one', Sum(jv, 2 * D + 1, w(ivar(jv))), ONE, [], 'weights sum to one', where)
    d1 = fresh(ZERO, K, 'd')
    d2 = fresh(ZERO, K, 'd')

    def yc(j, d):
        k = fresh(ZERO, 2 * D + 1, 'j')
        return el('Y', (j, d)) - Sum(k, 2 * D + 1, w(ivar(k)) * el('Y', (ivar(k), d)))
    want = Sum(jv, 2 * D + 1, w(ivar(jv)) * yc(ivar(jv), ivar(d1)) * yc(ivar(jv), ivar(d2)))
    cv = S.arr(r[1])
    if cv.shape != (K, K):
        return S.violated('shape of the covariance', 'square over the outputs', where, 'shape %s' % (cv.shape,))
    S.eqx('weighted covariance', cv.elem(ivar(d1), ivar(d2)), want, [d1, d2], 'weighted covariance of the output', where)


def fac0(e):
    return list(atoms(e))[0] if len(atoms(e)) == 1 else [a for a in atoms(e) if a.kind == 'el'][0]


def ut_linear(S):
    I, D, mu, P = ut_inputs(S)
    f = S.get(U, 'ut_approx')
    where = S.loc(f)
    K = S.dim('K', 1)
    for nm in ('identity', 'affine'):
        def fun(it, args, kw, node):
            X = it.read(args[0])
            if nm == 'identity':
                return it.new_arr(X)

            def g(j, d):
                v = fresh(ZERO, D, 'k')
                return el('c', (d,)) + Sum(v, D, el('W', (d, ivar(v))) * X.elem(j, ivar(v)))
            return it.new_arr(Array.make((X.shape[0], K), g))
        r = S.call(f, PyFn('fun', fun), mu, P)
        n = D if nm == 'identity' else K

        def mean(d):
            if nm == 'identity':
                return el('mu', (d,))
            v = fresh(ZERO, D, 'k')
            return el('c', (d,)) + Sum(v, D, el('W', (d, ivar(v))) * el('mu', (ivar(v),)))

        def cov(a, b):
            if nm == 'identity':
                return el('P', (a, b))
            v, u = fresh(ZERO, D, 'k'), fresh(ZERO, D, 'l')
            return Sum(v, D, Sum(u, D, el('W', (a, ivar(v))) * el('P', (ivar(v), ivar(u))) * el('W', (b, ivar(u)))))
        S.eq('mean of an %s map' % nm, r[0], mean, 'exact for linear functions', where, (n,))
        S.eq('covariance of an %s map' % nm, r[1], cov, 'exact for linear functions', where, (n, n))


def ut_specs():
    b = [{'D': 1, 'K': 1}, {'D': 2, 'K': 2}, {'D': 3, 'K': 2}]
    return [Spec('ut_approx/points', ut_points, b, b[1:]), Spec('ut_approx/linear', ut_linear, b, b[1:])]


# ------------------------------------------------------------------------------------------- finite differences
def fd(scalar):
    def scen(S):
        I = S.I
        f = S.get(U, 'finite_diff')
        where = S.loc(f)
        D = ONE if scalar else S.dim('D', 2)
        x = sym('x') if scalar else I.arr('x', (D,))
        X = I.arr('x', (ONE,)) if scalar else x
        extra = sym('extra')

        def fun(it, args, kw, node):
            if len(args) != 2 or args[1] != extra:
                raise AbsRaise(ExcV('TypeError', ('extra argument not passed on',)), node)
            y = it.read(args[0])
            if y.ndim != 1:
                raise Undecided('function argument of %d dimensions' % y.ndim)
            v, u = fresh(ZERO, D, 'k'), fresh(ZERO, D, 'l')
            return Sum(v, D, el('a', (ivar(v),)) * y.elem(ivar(v))) + Sum(v, D, Sum(
                u, D, y.elem(ivar(v)) * el('B', (ivar(v), ivar(u))) * y.elem(ivar(u))))

        def want(xe):
            def g(i):
                u = fresh(ZERO, D, 'l')
                return el('a', (i,)) + Sum(u, D, (el('B', (i, ivar(u))) + el('B', (ivar(u), i))) * xe(ivar(u)))
            return g
        rule = 'central differences of every component (exact for quadratic functions)'
        if scalar:
            S.eq('scalar argument', S.call(f, PyFn('fun', fun), x, extra), lambda: want(lambda k: sym('x'))(ZERO), rule,
                 where, ())
            S.eq('one component', S.call(f, PyFn('fun', fun), X, extra), lambda: want(lambda k: el('x', (k,)))(ZERO),
                 rule, where, ())
        else:
            S.eq('vector argument', S.call(f, PyFn('fun', fun), x, extra), want(lambda k: el('x', (k,))), rule, where,
                 (D,))
    return Spec('finite_diff/' + ('scalar' if scalar else 'vector'), scen, [] if scalar else [{'D': 2}, {'D': 3}],
                [{'D': 3}])


def main(tier):
    specs = trapz_specs(tier) + chol_specs() + logdet_specs() + ut_specs() + [fd(True), fd(False)]
    return run_check('C20', 'numerical utilities', specs, tier)
