"""C14: sample paths are Euler-Maruyama paths with the model's drift and driving noise of covariance Sigma dt."""
from .common import *
from .c13 import DYN, summarise_inverse


def drift(model, D, th, mu=ZERO):
    """Drift component functions of the model equations: (state function) -> component function."""
    def l63(x):
        s, r, b = (th(k) for k in range(3))
        c = [s * (x(E(1)) - x(E(0))), x(E(0)) * (r - x(E(2))) - x(E(1)), x(E(0)) * x(E(1)) - b * x(E(2))]

        def f(i):
            out = ZERO
            for k in range(3):
                out = out + delta(i, E(k)) * c[k]
            return out
        return f

    def l96(x):
        return lambda i: (x(mod(i + 1, D)) - x(mod(i - 2, D))) * x(mod(i - 1, D)) - x(i) + th(0)
    return {'DW': lambda x: lambda: 4 * x() * (th(0) - x() * x()), 'L63': l63, 'L96': l96,
            'OU': lambda x: lambda: th(0) * (mu - x())}[model]


def split_draws(e):
    """(deterministic part, part with draws, names of the draws) of a polynomial."""
    a = b = ZERO
    names = set()
    for k, c in e.terms.items():
        t = Expr({k: c})
        ns = {f.name for f in deep_atoms(t) if f.kind == 'el' and f.name.startswith('~')}
        names |= ns
        if ns:
            b = b + t
        else:
            a = a + t
    return a, b, names


def deep_atoms(e):
    """All factors, also below sums and functions."""
    out, seen, todo = [], set(), [e]
    while todo:
        x = todo.pop()
        if isinstance(x, Lam):
            todo.append(x.body)
            continue
        if not isinstance(x, Expr):
            continue
        for f in atoms(x):
            if id(f) in seen:
                continue
            seen.add(id(f))
            out.append(f)
            for y in f.args:
                todo.append(y)
    return out


def gauss(e, names):
    """Expectation over independent standard normal draws."""
    for nm in sorted(names):
        e = expect(e, nm, lambda *i: ZERO, same)
    return e


def same(p, q):
    out = ONE
    for x, y in zip(p, q):
        out = out * delta(E(x), E(y))
    return out


def vanishes(S, e, vs):
    return not has_unknown(e) and val.separate(e, ZERO, vs, S.val_dims or [S.dims], S.I.DEFS, S.given)[0] == 'equal'


class Path(object):
    def __init__(self, S, model, noise):
        self.S, self.model, self.noise = S, model, noise
        self.mod, self.cls, self.single = DYN[model]
        self.mu = ZERO
        I = S.I
        for p in ('p', 'th', 'dt', 'dt_b', 'dt_c', 'v'):
            POSITIVE.add(p)
        summarise_inverse(S)
        D = self.D = ONE if self.single else E(3) if model == 'L63' else S.dim('D', 10)
        if self.single:
            sig = PyNum(sym('p'))
            self.sigma = lambda: sym('p')
        elif noise == 'scalar':
            sig = PyNum(sym('p'))
            self.sigma = lambda i, j: sym('p') * delta(i, j)
        elif noise == 'vector':
            sig = I.arr('v', (D,))
            self.sigma = lambda i, j: el('v', (i,)) * delta(i, j)
        else:
            SYM_AXES['Q'] = (0, 1)
            val.SPD['Q'] = (0, 1)
            sig = I.arr('Q', (D, D))
            self.sigma = lambda i, j: el('Q', (i, j))
        if model == 'L63':
            th = I.arr('th', (E(3),))
            self.th = lambda k: el('th', (E(k),))
        else:
            th = PyNum(sym('th'))
            self.th = lambda k: sym('th')
        I.ctx['pd'] = lambda I, lam: 'ok'
        if noise == 'matrix':
            I.ctx['anyall'] = self.anyall
        self.o = S.make(self.mod, self.cls, sig, th, *((PyNum(ZERO), D) if model == 'L96' else ()))
        self.where = S.loc(S.attr(self.o, 'make_trajectory'))

    def anyall(self, I, name, a):
        from .c13 import anyall_hook, SYMBOLIC
        SYMBOLIC['Q'] = (1,)
        return anyall_hook(I, name, a)

    def make(self, tag, mu=None):
        """Path on t0, t0 + dt, ..., t0 + (N-1) dt."""
        S = self.S
        N = S.dim('N' + tag, 2)
        t0, dt = sym('t0' + tag), sym('dt' + tag)
        tf = t0 + (N - 1) * dt
        S.meth(self.o, 'make_trajectory', PyNum(t0), PyNum(tf), PyNum(dt), *(() if mu is None else (PyNum(mu),)))
        self.mu = ZERO if mu is None else mu
        return N, t0, dt

    def check(self, tag, N, t0, dt, earlier=()):
        S, D, single = self.S, self.D, self.single
        where = self.where
        x = S.arr(S.attr(self.o, 'sample_path'))
        tk = S.arr(S.attr(self.o, 'time_window'))
        nm = tag or 'first'
        sh = () if single else (D,)
        S.eq('%s: window' % nm, tk, lambda k: t0 + k * dt, 'grid from t0 to tf in steps of dt', where, (N,))
        S.decide('%s: one value per grid point' % nm, x.ndim == 1 + len(sh) and all(
            (p - q).is_zero() for p, q in zip(x.shape, (tk.shape[0],) + sh)), 'path and window have the same length', where,
            'path %s, window %s' % (x.shape, tk.shape))
        if x.ndim != 1 + len(sh):
            return
        S.eq('%s: step' % nm, S.attr(self.o, 'time_step'), lambda: dt, 'spacing of the grid', where, ())
        tv, sv = fresh(ZERO, N - 1, 't'), fresh(ZERO, N - 1, 's')
        iv, jv = fresh(ZERO, D, 'i'), fresh(ZERO, D, 'j')
        ids, jds = (() if single else (ivar(iv),)), (() if single else (ivar(jv),))

        def noise(t, ix, out=False):
            f = drift(self.model, D, self.th, self.mu)(lambda *k: x.elem(t, *k))
            nxt = x.elem(t + 1, *ix)
            return (S.expand(nxt) if out else nxt) - x.elem(t, *ix) - f(*ix) * dt
        e, e2 = noise(ivar(tv), ids), noise(ivar(sv), jds)
        det, rnd, names = split_draws(e)
        vs = [tv] + ([] if single else [iv])
        if not zero_on(det, vs)[0] and not has_unknown(det):
            # one step written out: x[t+1] may stand for its own definition
            a, a2 = noise(ivar(tv), ids, True), noise(ivar(sv), jds, True)
            d2, r2, n2 = split_draws(a)
            if zero_on(d2, vs)[0] or vanishes(S, d2, vs) or not names and n2 or \
                    not vanishes(S, det, vs) and len(d2.terms) <= len(det.terms):
                e, e2, det, rnd, names = a, a2, d2, r2, n2
        if has_unknown(det) or has_unknown(rnd):
            return S.undecided('%s: increments' % nm, 'drift and noise', where, 'unknown construct')
        S.eqx('%s: drift' % nm, det, ZERO, vs, 'x[t+1] - x[t] - f(x[t]) dt is pure noise', where)
        paths = [f for f in deep_atoms(rnd) if f.kind == 'el' and f.name in S.I.DEFS]
        if paths:
            return S.undecided('%s: noise' % nm, 'noise independent of the state', where, 'noise depends on %s' % paths[0])
        kinds = {d[0]: d for d in S.I.draw_log}
        bad = [n for n in names if not n.startswith('~standard_normal')]
        if bad:
            return S.violated('%s: distribution' % nm, 'Gaussian noise', where, 'drawn as %s' % bad)
        S.eqx('%s: mean' % nm, gauss(rnd, names), ZERO, vs, 'the noise has mean zero', where)
        _, rnd2, names2 = split_draws(e2)
        cov = gauss(rnd * rnd2, names | names2)
        want = self.sigma(*(ids + jds)) * dt * delta(ivar(tv), ivar(sv))
        S.eqx('%s: covariance' % nm, cov, want, vs + [sv] + ([] if single else [jv]),
              'covariance Sigma dt, independent over time', where)
        x0 = S.expand(x.elem(ZERO, *jds))
        _, r0, n0 = split_draws(x0)
        n0 = {n for n in n0 if n.startswith('~standard_normal')}
        # an initial state may take any draw that the steps do not use
        S.eqx('%s: start' % nm, gauss(rnd * r0, names | n0) if poly_in(r0, n0) else ZERO, ZERO, vs + ([] if single else [jv]),
              'the noise of a step is independent of the initial state', where)
        rng = S.attr(self.o, 'rng')
        other = [n for n in sorted(names) if n not in kinds or not same_ref(kinds[n][2], rng)]
        S.decide('%s: generator' % nm, not other, 'drawn from the generator of the system', where, str(other))
        old = names & set(earlier)
        S.decide('%s: fresh draws' % nm, not old, 'each path uses fresh draws', where, str(old))
        return names

    def initial_free(self):
        pass


def poly_in(e, names):
    return not any(f.kind not in ('el', 'sum') and any(g.kind == 'el' and g.name in names for a in f.args if isinstance(a, Expr)
                                                       for g in deep_atoms(a)) for f in atoms(e))


def same_ref(a, b):
    return isinstance(a, Ref) and isinstance(b, Ref) and a.oid == b.oid


def scen(model, noise):
    def f(S):
        W = Path(S, model, noise)
        W.check('', *W.make(''))
    b = [{'N': 3, 'D': 10}] if model == 'L96' else [{'N': 3}]
    return Spec('%s/%s noise' % (model, noise), f, b, b)


def scen_again(model):
    """A second path on another window replaces both."""
    def f(S):
        W = Path(S, model, 'scalar')
        n1 = W.check('', *W.make(''))
        W.check('_b', *W.make('_b'), earlier=n1 or ())
    b = [{'N': 3, 'N_b': 4, 'D': 10}] if model == 'L96' else [{'N': 3, 'N_b': 4}]
    return Spec('%s/second path' % model, f, b, b)


def scen_changed(model):
    """The noise and drift in force are those at the time the path is made."""
    def f(S):
        W = Path(S, model, 'scalar')
        D = W.D
        POSITIVE.add('p_new')
        if W.single:
            S.I.setattr(W.o, 'sigma', PyNum(sym('p_new')), None)
            W.sigma = lambda: sym('p_new')
        else:
            S.I.setattr(W.o, 'sigma', S.I.new_arr(Array.make((D, D), lambda i, j: sym('p_new') * delta(i, j))), None)
            W.sigma = lambda i, j: sym('p_new') * delta(i, j)
        POSITIVE.add('th_new')
        if model == 'L63':
            S.I.setattr(W.o, 'theta', S.I.arr('th_new', (E(3),)), None)
            W.th = lambda k: el('th_new', (E(k),))
        else:
            S.I.setattr(W.o, 'theta', PyNum(sym('th_new')), None)
            W.th = lambda k: sym('th_new')
        W.check('', *W.make(''))
    b = [{'N': 3, 'D': 10}] if model == 'L96' else [{'N': 3}]
    return Spec('%s/changed parameters' % model, f, b, b)


def scen_mean(S):
    """OU around another mean, then around zero again."""
    W = Path(S, 'OU', 'scalar')
    n1 = W.check('', *W.make('', sym('mu')))
    n2 = W.check('_b', *W.make('_b'), earlier=n1 or ())
    W.check('_c', *W.make('_c', sym('mu2')), earlier=(n1 or set()) | (n2 or set()))


def main(tier):
    specs = []
    for m in DYN:
        specs += [scen(m, n) for n in (('scalar',) if DYN[m][2] else ('scalar', 'vector', 'matrix'))]
        specs += [scen_again(m), scen_changed(m)]
    b = [{'N': 3, 'N_b': 4, 'N_c': 2}]
    specs.append(Spec('OU/other mean', scen_mean, b, b))
    return run_check('C14', 'sample paths', specs, tier)
