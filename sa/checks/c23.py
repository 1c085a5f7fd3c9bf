"""C23: the starting vector of the optimiser is the documented smooth posterior through the observations."""
from .vg import *


def spline_value(V, f, env):
    """Cubic spline through the nodes; not-a-knot is the default of scipy.interpolate.CubicSpline."""
    bc = f.name.partition(':')[2] or 'not-a-knot'
    x, y = [float(v) for v in V.mat(f.args[0], env)], [float(v) for v in V.mat(f.args[1], env)]
    t = float(V.ev(f.args[2], env))
    n = len(x)
    if n < 2 or any(b - a <= 1e-9 for a, b in zip(x, x[1:])):
        raise val.Invalid('nodes not increasing')
    if bc == 'linear':
        i = min(max([0] + [k for k in range(n - 1) if x[k] <= t]), n - 2)
        return y[i] + (y[i + 1] - y[i]) * (t - x[i]) / (x[i + 1] - x[i])
    if bc == 'pchip':
        return pchip(x, y, t)
    if n < 4 and bc == 'not-a-knot':
        tot = 0.0
        for i in range(n):
            p = y[i]
            for j in range(n):
                if j != i:
                    p *= (t - x[j]) / (x[i] - x[j])
            tot += p
        return tot
    h = [b - a for a, b in zip(x, x[1:])]
    d = [(b - a) / k for a, b, k in zip(y, y[1:], h)]
    A = [[0.0] * n for _ in range(n)]
    r = [0.0] * n
    for i in range(1, n - 1):
        A[i][i - 1], A[i][i], A[i][i + 1] = h[i - 1], 2 * (h[i - 1] + h[i]), h[i]
        r[i] = 6 * (d[i] - d[i - 1])
    if bc == 'natural':
        A[0][0] = A[-1][-1] = 1.0
    elif bc == 'clamped':
        A[0][0], A[0][1], r[0] = 2 * h[0], h[0], 6 * d[0]
        A[-1][-1], A[-1][-2], r[-1] = 2 * h[-1], h[-1], -6 * d[-1]
    else:
        A[0][0], A[0][1], A[0][2] = h[1], -(h[0] + h[1]), h[0]
        A[-1][-1], A[-1][-2], A[-1][-3] = h[-2], -(h[-1] + h[-2]), h[-1]
    inv = val.inverse(A)
    m = [sum(a * b for a, b in zip(row, r)) for row in inv]
    i = max([0] + [k for k in range(n - 1) if x[k] <= t])
    i = min(i, n - 2)
    u = t - x[i]
    return y[i] + u * (d[i] - h[i] * (2 * m[i] + m[i + 1]) / 6) + u * u * m[i] / 2 + u ** 3 * (m[i + 1] - m[i]) / (6 * h[i])


def pchip(x, y, t):
    """Monotone piecewise cubic (scipy.interpolate.PchipInterpolator)."""
    n = len(x)
    h = [b - a for a, b in zip(x, x[1:])]
    d = [(b - a) / k for a, b, k in zip(y, y[1:], h)]
    if n == 2:
        return y[0] + d[0] * (t - x[0])
    m = [0.0] * n
    for k in range(1, n - 1):
        if d[k - 1] * d[k] > 0:
            w1, w2 = 2 * h[k] + h[k - 1], h[k] + 2 * h[k - 1]
            m[k] = (w1 + w2) / (w1 / d[k - 1] + w2 / d[k])

    def end(h0, h1, d0, d1):
        v = ((2 * h0 + h1) * d0 - h0 * d1) / (h0 + h1)
        if v * d0 <= 0:
            return 0.0
        return 3 * d0 if d0 * d1 < 0 and abs(v) > 3 * abs(d0) else v
    m[0], m[-1] = end(h[0], h[1], d[0], d[1]), end(h[-1], h[-2], d[-1], d[-2])
    i = min(max([0] + [k for k in range(n - 1) if x[k] <= t]), n - 2)
    u = t - x[i]
    c = (3 * d[i] - 2 * m[i] - m[i + 1]) / h[i]
    b = (m[i] - 2 * d[i] + m[i + 1]) / h[i] ** 2
    return y[i] + u * (m[i] + u * (c + u * b))


KINDS = {'CubicSpline': None, 'PchipInterpolator': 'pchip', 'interp1d': 'interp1d'}


def model_spline(S, known):
    """Interpolators as opaque functions of their nodes and their argument; nodes must increase strictly."""
    for k in KINDS:
        S.I.overrides['scipy.interpolate.' + k] = interpolator(S, known, k)


def interpolator(S, known, cls):
    for k in ('', ':natural', ':clamped', ':linear', ':pchip'):
        val.FUN['spline' + k] = spline_value
    params = {'CubicSpline': ('x', 'y', 'axis', 'bc_type', 'extrapolate'), 'PchipInterpolator': ('x', 'y', 'axis', 'extrapolate'),
              'interp1d': ('x', 'y', 'kind', 'axis')}[cls]

    def h(it, args, kwargs, node):
        v = dict(zip(params, args))
        v.update(kwargs)
        x = it.read(it.np.to_array(it, v['x'], node))
        y = it.read(it.np.to_array(it, v['y'], node))
        kind = {'CubicSpline': v.get('bc_type', 'not-a-knot'), 'PchipInterpolator': 'pchip',
                'interp1d': v.get('kind', 'linear')}[cls]
        if cls != 'interp1d' and (v.get('axis', ZERO) not in (ZERO, 0) or v.get('extrapolate') not in (None, True)) or \
                kind not in ('not-a-knot', 'natural', 'clamped', 'linear', 'pchip') or set(v) - set(params) or \
                cls == 'interp1d' and 'axis' in v and v['axis'] not in (ZERO, 0):
            raise Undecided('spline with other options', node)
        name = 'spline' if kind == 'not-a-knot' else 'spline:' + kind
        if x.ndim != 1 or y.ndim < 1:
            raise Undecided('spline nodes', node)
        n = x.shape[0]
        d = n - y.shape[0]
        if not d.is_zero():
            r, w = val.separate(n, y.shape[0], (), S.val_dims or [S.dims], it.DEFS, S.given)
            if r == 'differ':
                raise AbsRaise(ExcV('ValueError', ('length of y does not match length of x',)), node)
            raise Undecided('lengths of spline nodes', node)
        for a, b in ((ZERO, ONE), (n - 2, n - 1)):
            if known(x.elem(b) - x.elem(a)).is_zero():
                raise AbsRaise(ExcV('ValueError', ('x must be strictly increasing',)), node)
        xl = x.lam()

        def ev(it2, a2, k2, n2):
            t = it2.read(it2.np.to_array(it2, a2[0], n2))
            if len(a2) > 1 or k2:
                raise Undecided('spline derivative', n2)
            q = t.ndim
            r = Array.make(t.shape + y.shape[1:], lambda *i: fn(name, (
                xl, Array.make((n,), lambda c: y.elem(c, *i[q:])).lam(), t.elem(*i[:q])), ()))
            return it2.new_arr(r) if r.ndim else r.elem()
        return it.stub('spline', {}, {}, ev)
    return h


def scen(single, where_obs, layout=False, frame=None):
    """Observations strictly inside the window, or also at the first / last grid time."""
    first, last = 'first' in where_obs, 'last' in where_obs

    def run(S):
        I = S.I
        N = S.dim('N', 5)
        D = ONE if single else S.dim('D', 2)
        M = S.dim('M', 2)
        W = World(S, single, N, D, M)
        dt = sym('dt')
        lo, hi = (1 if first else 0), (1 if last else 0)
        alg.EL_RANGE['obs_t'] = (ZERO if first else ONE, N if last else N - 1)

        def value(V):
            """Strictly increasing indices; the end points are present exactly when the scenario says so."""
            def f(k):
                m, nn = int(V.ev(E(M), {})), int(V.ev(E(N), {}))
                if not 0 <= k < m:
                    raise val.Invalid('index')
                pool = sorted(range(1, nn - 1), key=lambda v: val.h01('%s|ob|%d' % (V.seed, v)))
                pool = pool[:m - lo - hi]
                if len(pool) < m - lo - hi:
                    raise val.Invalid('too few times')
                return ([0] * lo + sorted(pool) + [nn - 1] * hi)[k]
            return f
        val.EL_FUN['obs_t'] = value

        def known(e):
            e = E(e)

            def f(a):
                if a.kind == 'el' and a.name == 'obs_t':
                    if first and E(a.args[0]).is_zero():
                        return ZERO
                    if last and (E(a.args[0]) - M + 1).is_zero():
                        return N - 1
                return None
            return replace_atoms(e, f)
        n = M + 2 - lo - hi
        t0 = sym('t0')

        def nodes(n, sh, ob, y0, y1):
            def g(k, *i):
                k = E(k)
                return in_range(k, ONE, n - 1) * ob(k - 1 + sh, *i) + ge(-k) * y0(*i) + ge(k - n + 1) * y1(*i)
            return g
        X = nodes(n, lo, lambda k: t0 + dt * el('obs_t', (k,)), lambda: t0, lambda: t0 + dt * (N - 1))
        Y = nodes(n, lo, lambda k, *i: el('obs_y', (k,) + i), lambda *i: el('obs_y', (ZERO,) + i),
                  lambda *i: el('obs_y', (M - 1,) + i))
        full = Array.make((M + 2,), nodes(M + 2, 0, lambda k: t0 + dt * el('obs_t', (k,)), lambda: t0,
                                          lambda: t0 + dt * (N - 1)))

        def unique(it, A, node):
            v = fresh(ZERO, M + 2, 'u')
            if A.ndim != 1 or not (A.shape[0] - M - 2).is_zero():
                raise Undecided('unique', node)
            if not zero_on(A.elem(ivar(v)) - full.elem(ivar(v)), [v])[0] and \
                    val.separate(A.elem(ivar(v)), full.elem(ivar(v)), (v,), S.val_dims, it.DEFS, S.given)[0] != 'equal':
                if frame is None:
                    raise Undecided('unique of other values', node)
                u = it.new_arr(Array.make((n,), lambda k: unk('unique')))
                return (u, it.new_arr(Array.make((n,), lambda k: k + (1 - ge(-E(k))) * lo, 'int'))) if it.unique_kw else u
            kw = it.unique_kw
            if [k for k in kw if k not in ('return_index',)]:
                raise Undecided('unique options', node)
            out = it.new_arr(Array.make((n,), X))
            if 'return_index' not in kw:
                return out
            return out, it.new_arr(Array.make((n,), lambda k: k + (1 - ge(-E(k))) * lo, 'int'))
        I.ctx['unique'] = unique
        model_spline(S, known)
        o = W.make()
        where = S.loc(S.attr(o, 'initialization'))
        if frame is not None:
            # used by C16: the call itself writes to nothing that others hold
            return frame(S, W, o, where)
        g = S.arr(S.meth(o, 'initialization'))
        if g.ndim != 1:
            return S.violated('shape', 'a vector', where, 'shape %s' % (g.shape,))
        S.eq('length', g.shape[0], lambda: W.L, 'as long as the parameter vector', where, ())
        sp = lambda t, *i: fn('spline', (Array.make((n,), X).lam(), Array.make((n,), lambda k: Y(k, *i)).lam(),
                                         t0 + t * dt), ())
        A = lambda t, *i: g.elem(t if single else t * D * D + i[0] * D + i[1])
        B = lambda t, *i: g.elem(N * D * D + (t if single else t * D + i[0]))
        if layout:
            # slots of A hold no observation, slots of b do
            ix = lambda sh: [ivar(fresh(ZERO, d, 'x')) for d in sh]
            obs = lambda e: any(f.kind == 'fn' and f.name == 'spline' or f.kind == 'el' and f.name == 'obs_y'
                                for f in atoms(e))
            a, b = A(*ix(W.v2)), B(*ix(W.v1))
            S.decide('layout of A in the initial guess', None if has_unknown(a) else not obs(a),
                     'all A(t) first', where, str(a)[:300])
            S.decide('layout of b in the initial guess', None if has_unknown(b) else obs(b), 'all b(t) last', where,
                     str(b)[:300])
            return
        if single:
            wa = lambda t: 2 * sym('sigma')
            wb = sp
        else:
            wa = lambda t, i, j: delta(i, j) * 2 * el('sigma', (i, j))
            wb = lambda t, i: 2 * el('sigma', (i, i)) * sp(t, i) + \
                (1 - delta(t, N - 1)) * (sp(t + 1, i) - sp(t, i)) / dt
        S.eq('A', Array.make(W.v2, A), wa, 'Sigma / (2 * 0.25) at every time', where, W.v2)
        S.eq('b', Array.make(W.v1, B), wb, 'spline (1d); slope + A * value, A * value at the end (nd)', where, W.v1)
    return Spec('%s%s/%s' % ('initial guess/' if layout or frame else '', '1d' if single else 'nd', where_obs), run,
                [{'N': 6, 'M': 2}, {'N': 6, 'M': 3}] if single else [{'N': 5, 'M': 2, 'D': 2}],
                [{'N': 6, 'M': 2}, {'N': 7, 'M': 3}] if single else [{'N': 5, 'M': 2, 'D': 2}, {'N': 6, 'M': 3, 'D': 3}])


PLACES = ('observations inside', 'one at the first time', 'one at the last time', 'one at the first and one at the last time')


def specs():
    return [scen(s, w) for s in (True, False) for w in PLACES]


def main(tier):
    return run_check('C23', 'initial guess', specs(), tier)
