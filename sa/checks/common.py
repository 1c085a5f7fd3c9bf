"""Shared parts of the checks: modular summaries of the utilities (their own obligations are in c20), reference forms."""
from ..core import *
from ..core import reset_all

U = 'src.numerics.utilities'


def bound_args(I, f, args, kwargs, node):
    """Arguments by parameter name, or None when the signature is not the known one."""
    try:
        return I.bind(f, args, kwargs, node)
    except Undecided:
        return None


def real_call(I, q, f, args, kwargs, node):
    h = I.overrides.pop(q)
    try:
        return I.call_func(f, args, kwargs, node)
    finally:
        I.overrides[q] = h


def func_of(I, q):
    mod, _, nm = q.rpartition('.')
    try:
        f = I.get(mod, nm)
    except AbsRaise:
        return None
    return f if isinstance(f, FuncV) else None


def trapezoid(N, dt, g):
    """Trapezoidal sum of g(t), t = 0..N-1."""
    v = fresh(ZERO, N - 1, 't')
    return Sum(v, N - 1, dt * E(Fraction(1, 2)) * (g(ivar(v)) + g(ivar(v) + 1)))


def summarise_trapz(S, qual=U + '.my_trapz'):
    """my_trapz(fx, dx, obs_t) is the trapezoidal integral over the first axis (C20)."""
    I = S.I
    f = func_of(I, qual)
    if f is None:
        return

    def h(it, args, kwargs, node):
        v = bound_args(it, f, args, kwargs, node)
        if v is None or 'fx' not in v or 'dx' not in v:
            return real_call(it, qual, f, args, kwargs, node)
        a = it.np.to_array(it, v['fx'], node)
        A = it.read(a)
        if A.ndim < 1:
            raise AbsRaise(ExcV('IndexError', ('integrand is a scalar',)), node)
        dx = it.num(v['dx'])
        r = Array.make(A.shape[1:], lambda *i: trapezoid(A.shape[0], dx, lambda t: A.elem(t, *i)))
        return it.new_arr(r) if r.ndim else r.elem()
    I.overrides[qual] = h


def grid(S, N, dt, name='tk'):
    """A time window of N points t0 + k dt."""
    t0 = sym('t0')
    return S.I.new_arr(Array.make((N,), lambda k: t0 + k * dt))


def obs_times(S, N, M):
    """Sorted distinct time indices."""
    alg.EL_RANGE['obs_t'] = (ZERO, N)
    alg.EL_DISTINCT.add('obs_t') if hasattr(alg.EL_DISTINCT, 'add') else alg.EL_DISTINCT.__setitem__('obs_t', True)
    S.given['#obs_t'] = E(M)
    return S.I.arr('obs_t', (M,), dtype='int')


def fac1(e):
    a = [x for x in atoms(e)]
    return a[0] if len(a) == 1 else [x for x in a if x.kind == 'el'][0]


def summarise_ut(S, qual=U + '.ut_approx'):
    """ut_approx(fun, mean, cov, *args) averages fun over 2D+1 opaque points with opaque weights (C20)."""
    I = S.I
    f = func_of(I, qual)
    if f is None:
        return

    def h(it, args, kwargs, node):
        v = bound_args(it, f, args, kwargs, node)
        if v is None or not all(k in v for k in ('fun', 'x_bar', 'x_cov')):
            return real_call(it, qual, f, args, kwargs, node)
        rest = tuple(v.get(f.node.args.vararg.arg, ())) if f.node.args.vararg else ()
        mu, P = it.read(it.np.to_array(it, v['x_bar'], node)), it.read(it.np.to_array(it, v['x_cov'], node))
        if mu.ndim != 1 or P.ndim != 2:
            return real_call(it, qual, f, args, kwargs, node)
        D = mu.shape[0]
        n = 2 * D + 1
        ml, pl = mu.lam(), P.lam()
        chi = it.new_arr(Array.make((n, D), lambda j, d: fn('utx', (ml, pl), (j, d))))
        y = it.read(it.np.to_array(it, it.call(v['fun'], [chi] + list(rest), {}, node), node))
        if y.ndim != 2 or y.shape[0] != n:
            raise Undecided('unscented transform of an array of shape %s' % (y.shape,), node)
        w = lambda j: fn('utw', (D,), (j,))

        def mean(d):
            j = fresh(ZERO, n, 'j')
            return Sum(j, n, w(ivar(j)) * y.elem(ivar(j), d))
        K = y.shape[1]
        cov = Array.make((K, K), lambda a, b: unk('unscented covariance'))
        return it.new_arr(Array.make((K,), mean)), it.new_arr(cov)
    I.overrides[qual] = h
