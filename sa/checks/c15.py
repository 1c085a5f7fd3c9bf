"""C15: observations are noisy copies of the path at valid, distinct, increasing times."""
from .common import *
from .c14 import split_draws, deep_atoms, gauss, same_ref

CLS = ('src.dynamics.stochastic_process', 'StochasticProcess')


class Obs(object):
    """A process with a given path; sampling rate 1/dt = rate, density n."""

    def __init__(self, S, D, noise, cols=None, rate=None, n=None, path=True, window=True, t0=None):
        self.S, self.D, self.noise, self.cols = S, D, noise, cols
        I = S.I
        for p in ('r', 'rv'):
            POSITIVE.add(p)
        self.o = S.make(CLS[0], CLS[1], ONE, D is None)
        N = self.N = S.dim('N', 4)
        self.n = S.dim('n', 1 if rate is None or not callable(rate) else 2) if n is None else E(n)
        self.rate = self.n + S.dim('x', 0) if rate is None else rate(S, self.n) if callable(rate) else E(rate)
        self.dt = power(self.rate, -1)
        t0 = self.t0 = sym('t0') if t0 is None else E(t0)
        self.sh = () if D is None else (D,)
        if path:
            self.x = I.arr('x', (N,) + self.sh)
            I.setattr(self.o, 'sample_path', self.x, None)
        if window:
            self.tk = I.new_arr(Array.make((N,), lambda k: t0 + k * self.dt))
            I.setattr(self.o, 'time_window', self.tk, None)
        d = E(len(cols)) if cols is not None else D
        self.d = d
        if noise == 'scalar':
            self.rn = PyNum(sym('r'))
            self.cov = lambda *i: sym('r') * (delta(*i) if i else ONE)
        elif noise == 'vector':
            self.rn = I.arr('rv', (d,))
            self.cov = lambda i, j: el('rv', (i,)) * delta(i, j)
        elif noise == 'diagonal':
            self.rn = I.new_arr(Array.make((d, d), lambda i, j: el('rv', (i,)) * delta(i, j)))
            self.cov = lambda i, j: el('rv', (i,)) * delta(i, j)
        self.where = S.loc(S.attr(self.o, 'collect_obs'))
        self.mask = None
        if cols is not None:
            k = D.const()
            self.mask = I.new_list([j in cols for j in range(int(k))])

    def args(self):
        return [self.n, self.rn] + ([self.mask] if self.mask is not None else [])

    def check(self, tag=''):
        S, I, D, N = self.S, self.S.I, self.D, self.N
        where = self.where
        draws0 = len(I.draw_log)
        r = S.meth(self.o, 'collect_obs', *self.args())
        if not isinstance(r, tuple) or len(r) != 3:
            return S.decide('%sresult' % tag, False, 'times, values and noise are returned', where, repr(r))
        t, y, q = S.arr(r[0]), S.arr(r[1]), S.arr(r[2])
        # number of observations: density times the length of the window, rounded down
        M = M_int((N - 1) * self.dt * self.n)
        kv = fresh(ZERO, M, 'k')
        lv = fresh(ZERO, M, 'l')
        want = lambda k: M_int((k + 1) * N * power(M + 1, -1))
        S.eq('%stimes' % tag, t, want, 'equally spaced indices strictly between 0 and the size of the window', where, (M,))
        ids = [] if D is None else [fresh(ZERO, self.d, 'i')]
        jds = [] if D is None else [fresh(ZERO, self.d, 'j')]
        sh = () if D is None else (self.d,)
        ok = y.ndim == 1 + len(sh) and all((a - b).is_zero() for a, b in zip(y.shape, (t.shape[0],) + sh))
        if not ok and not (y.ndim == 1 + len(sh) and all(S_same(S, a, b) for a, b in zip(y.shape, (t.shape[0],) + sh))):
            S.decide('%sshape' % tag, False, 'one row of observed components per time', where, 'shape %s' % (y.shape,))
            return
        S.proved('%sshape' % tag, 'one row of observed components per time', where)
        comp = (lambda i: i) if self.cols is None else self.column
        e = y.elem(ivar(kv), *[ivar(v) for v in ids])
        e2 = y.elem(ivar(lv), *[ivar(v) for v in jds])
        det, rnd, names = split_draws(e)
        _, rnd2, names2 = split_draws(e2)
        vs = [kv] + ids
        pos = t.elem(ivar(kv)) if t.ndim == 1 else want(ivar(kv))
        if self.cols is None:
            val_want = el('x', (pos,) + tuple(ivar(v) for v in ids))
        else:
            val_want = ZERO
            for p, c in enumerate(self.cols):
                val_want = val_want + delta(ivar(ids[0]), E(p)) * el('x', (pos, E(c)))
        S.eqx('%svalues' % tag, det, val_want, vs, 'the path at the returned indices', where)
        bad = [m for m in sorted(names | names2) if not m.startswith('~standard_normal')]
        if bad:
            return S.violated('%sdistribution' % tag, 'Gaussian noise', where, 'drawn as %s' % bad)
        S.eqx('%snoise mean' % tag, gauss(rnd, names), ZERO, vs, 'noise of mean zero', where)
        c = gauss(rnd * rnd2, names | names2)
        iv = tuple(ivar(v) for v in ids) + tuple(ivar(v) for v in jds)
        S.eqx('%snoise covariance' % tag, c, self.cov(*iv) * delta(ivar(kv), ivar(lv)), vs + [lv] + jds,
              'noise of the configured covariance, independent over the observations', where)
        S.eq('%sreturned noise' % tag, q, self.cov, 'the covariance of the noise that was added', where, sh + sh)
        log = {d[0]: d for d in I.draw_log[draws0:]}
        rng = S.attr(self.o, 'rng')
        other = [m for m in sorted(names) if m not in log or not same_ref(log[m][2], rng)]
        S.decide('%sgenerator' % tag, not other, 'fresh draws from the generator of the process', where, str(other))
        S.eq('%spath kept' % tag, S.attr(self.o, 'sample_path'), lambda *i: el('x', i), 'the stored path is not modified', where,
             (N,) + self.sh)
        S.eq('%swindow kept' % tag, S.attr(self.o, 'time_window'), lambda k: self.t0 + k * self.dt,
             'the stored window is not modified', where, (N,))
        if isinstance(self.rn, PyNum) is False:
            S.eq('%snoise kept' % tag, self.rn, (lambda i: el('rv', (i,))) if self.noise == 'vector' else self.cov,
                 "the caller's noise is not modified", where, sh if self.noise == 'vector' else sh + sh)
        if self.mask is not None:
            S.decide('%smask kept' % tag, list(I.obj(self.mask).items) == [j in self.cols for j in range(int(D.const()))],
                     "the caller's mask is not modified", where, str(I.obj(self.mask).items))
        return names

    def column(self, i):
        return i


def S_same(S, a, b):
    r, _ = val.separate(a, b, (), S.val_dims or [S.dims], S.I.DEFS, S.given)
    return r != 'differ'


def M_int(e):
    from ..npmodel import to_int
    return to_int(e)


def scen(name, D, noise, cols=None, n_x=True, **kw):
    def f(S):
        d = None if D is None else S.dim('D', 2) if D == 'D' else E(D)
        W = Obs(S, d, noise, cols, **kw)
        W.check()
    b = dict({'N': 9}, **({'n': 2, 'x': 1} if n_x else {}), **({'D': 3} if D == 'D' else {}))
    bs = [dict(b, N=8), b] + ([dict(b, N=12, n=1, x=3), dict(b, N=6, n=3, x=0)] if n_x else [])
    return Spec(name, f, bs, bs)


def scen_twice(D, noise):
    """A second sample of the same path: same times and values, other draws."""
    def f(S):
        W = Obs(S, None if D is None else S.dim('D', 2), noise)
        a = W.check('first: ')
        b = W.check('second: ')
        if a is not None and b is not None:
            S.decide('fresh draws', not (set(a) & set(b)), 'each sample uses fresh draws', W.where, str(sorted(set(a) & set(b))))
    b = dict({'N': 9, 'n': 2, 'x': 1}, **({'D': 3} if D == 'D' else {}))
    return Spec('%s/two samples' % ('1D' if D is None else 'nD'), f, [b], [b])


def scen_nomask(D, mask):
    def f(S):
        W = Obs(S, None if D is None else S.dim('D', 2), 'scalar')
        base = W.args
        W.args = lambda: base() + [None if mask is None else S.I.new_list([])]
        W.check()
    b = dict({'N': 9, 'n': 2, 'x': 1}, **({'D': 3} if D == 'D' else {}))
    return Spec('%s/mask %s' % ('1D' if D is None else 'nD', 'None' if mask is None else '[]'), f, [b], [b])


def scen_refuse(D, rate, n, what, exc='ValueError', **kw):
    def f(S):
        d = None if D is None else S.dim('D', 2)
        W = Obs(S, d, 'scalar', rate=rate, n=n, **kw)
        S.raises('refused', S.attr(W.o, 'collect_obs'), W.args(), exc, 'refused')
        log = S.I.draw_log
        S.decide('nothing drawn', not log, 'a refused call draws nothing', W.where, str([x[0] for x in log]))
    b = dict({'N': 9, 'n': 4, 'x': 1}, **({'D': 3} if D == 'D' else {}))
    return Spec('%s/%s' % ('1D' if D is None else 'nD', what), f, [b], [b])


def main(tier):
    specs = []
    for D, dn in ((None, '1D'), ('D', 'nD')):
        for noise in (('scalar',) if D is None else ('scalar', 'vector', 'diagonal')):
            specs.append(scen('%s/%s noise' % (dn, noise), D, noise))
        specs += [scen_twice(D, 'scalar'), scen_nomask(D, None), scen_nomask(D, [])]
        # sampling rates that are not whole numbers
        for k in (1, 2, 3):
            specs.append(scen('%s/rate 10/3, density %d' % (dn, k), D, 'scalar', n_x=False, rate=Fraction(10, 3), n=k))
        for t0, w in ((Fraction(1, 2), '1/2'), (Fraction(-3, 2), '-3/2'), (Fraction(-50), '-50'), (Fraction(70), '70')):
            specs.append(scen('%s/rate 5, density 1, start %s' % (dn, w), D, 'scalar', n_x=False, rate=5, n=1, t0=t0))
        specs.append(scen_refuse(D, Fraction(10, 3), 4, 'density 4 at rate 10/3 is refused'))
        specs.append(scen_refuse(D, Fraction(1, 2), 1, 'density 1 at rate 1/2 is refused'))
        for k in (1, 2, 5, 100):
            specs.append(scen_refuse(D, k, k + 1, 'density %d at rate %d is refused' % (k + 1, k)))
            specs.append(scen('%s/rate %d, density %d' % (dn, k, k), D, 'scalar', n_x=False, rate=k, n=k))
        specs.append(scen_refuse(D, lambda S, n: n - 1, None, 'any density above the rate is refused'))
        for p, w in ((False, False), (True, False), (False, True)):
            specs.append(scen_refuse(D, None, None, 'no %s: refused' % ' and no '.join(
                [x for x, y in (('path', p), ('window', w)) if not y]), 'NotImplementedError', path=p, window=w))
    for d in (2, 3) if tier == 'quick' else (2, 3, 4):
        for m in range(1, 2 ** d):
            cols = tuple(j for j in range(d) if m >> j & 1)
            for noise in ('scalar', 'vector', 'diagonal'):
                specs.append(scen('nD/mask %s of %d, %s noise' % (cols, d, noise), d, noise, cols))
    for cols in ((0,), (3, 17, 39), tuple(range(0, 40, 2)), tuple(range(40))):
        specs.append(scen('nD/mask %s.. of 40' % (cols[:4],), 40, 'vector', cols))
    return run_check('C15', 'observations', specs, tier)
