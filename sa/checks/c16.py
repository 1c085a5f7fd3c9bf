"""C16: evaluations write to nothing that the caller or the collaborating objects hold."""
from .vg import *
from .c01 import METHODS
from . import c23, c03, c04, c05, c06, c07, c08, c20


class Frame(object):
    """Snapshot of everything that exists before an evaluation."""

    def __init__(self, S, roots, own=()):
        """roots: name -> value held by the caller; own: objects that may keep a record of their last evaluation."""
        self.S, self.I = S, S.I
        self.heap = {k: v.copy() for k, v in self.I.st.heap.items()}
        self.mods = {m.frame for m in self.I.mods.values() if m.frame is not None}
        self.own = {o.oid for o in own}
        self.names = {}
        seen, todo = set(), [(n, v) for n, v in roots.items()]
        while todo:
            n, v = todo.pop()
            for w, m in self.parts(v, n):
                if w in seen:
                    continue
                seen.add(w)
                self.names[w] = m
                o = self.heap.get(w)
                if o is None:
                    continue
                if o.kind in ('inst', 'stub'):
                    todo += [('%s.%s' % (m, a), x) for a, x in o.attrs.items()]
                elif o.kind in ('list', 'set'):
                    todo += [('%s[%d]' % (m, k), x) for k, x in enumerate(o.items)]
                elif o.kind == 'dict':
                    todo += [('%s[%r]' % (m, k), x) for k, x in o.d.items()]
        self.public = {n: self.props(v) for n, v in roots.items() if isinstance(v, Ref)}
        self.roots = roots

    def parts(self, v, n):
        if isinstance(v, (Ref, Arr)):
            return [(v.oid, n)]
        if isinstance(v, (tuple,)):
            return [p for k, x in enumerate(v) for p in self.parts(x, '%s[%d]' % (n, k))]
        return []

    def props(self, ref):
        """Values of the public properties and attributes of an object."""
        o = self.I.obj(ref)
        if o.kind != 'inst' or ref.oid in self.own:
            return {}
        out = {}
        names = [a for a in o.attrs if not a.startswith('_')]
        c = o.cls
        for k in getattr(c, 'mro', lambda: [c])() if callable(getattr(c, 'mro', None)) else [c]:
            names += [a for a, v in getattr(k, 'attrs', {}).items() if isinstance(v, PropV) and not a.startswith('_')]
        for a in sorted(set(names)):
            try:
                ok, v, _ = self.I.run(PyFn('get', lambda it, args, kw, node: it.getattr(ref, a, node)), [], {})
            except Undecided:
                continue
            if ok:
                v = self.value(v)
                if v is not None:
                    out[a] = v
        return out

    def value(self, v):
        if isinstance(v, (Arr, Array)):
            return self.I.read(v) if isinstance(v, Arr) else v
        if isinstance(v, (Expr, str, bool, type(None), tuple)):
            return v
        return None

    # ---- after the evaluation
    def check(self, tag, where):
        """Everything the caller holds is unchanged; True if nothing at all was written."""
        S, I = self.S, self.I
        strict = True
        bad = und = 0
        for oid, old in self.heap.items():
            new = I.st.heap.get(oid)
            if new is None or new is old:
                continue
            if old.kind == 'arr':
                if new.content is old.content or new.content.same(old.content):
                    continue
                strict = False
                if oid in self.names:
                    self.same(tag, self.names[oid], new.content, old.content, where)
            elif old.kind in ('list', 'set'):
                if not self.items(old.items, new.items):
                    strict = False
                    if oid in self.names and oid not in self.own and not self.private(self.names[oid]):
                        self.differs(tag, self.names[oid], old.items, new.items, where)
            elif old.kind == 'dict':
                if list(old.d) != list(new.d) or not self.items(old.d.values(), new.d.values()):
                    strict = False
                    if oid in self.names and oid not in self.own and not self.private(self.names[oid]):
                        self.differs(tag, self.names[oid], sorted(map(str, old.d)), sorted(map(str, new.d)), where)
            elif old.kind in ('inst', 'stub'):
                if list(old.attrs) != list(new.attrs) or not self.items(old.attrs.values(), new.attrs.values()):
                    strict = False
                    if old.kind == 'stub' and oid in self.names:
                        ch = sorted(a for a in new.attrs if a not in old.attrs or not self.items([old.attrs[a]], [new.attrs[a]]))
                        S.violated('%s: %s unchanged' % (tag, self.names[oid]), 'an evaluation does not write to it', where,
                                   'attribute %s is written' % ', '.join(ch))
            elif old.kind == 'frame' and oid in self.mods:
                if list(old.vars) != list(new.vars) or not self.items(old.vars.values(), new.vars.values()):
                    strict = False
        for n, v in self.roots.items():
            if not isinstance(v, Ref) or n not in self.public:
                continue
            now = self.props(v)
            for a, x in self.public[n].items():
                if a not in now:
                    S.undecided('%s: %s.%s unchanged' % (tag, n, a), 'an evaluation does not change it', where, 'not readable')
                elif isinstance(x, Array) and isinstance(now[a], Array):
                    self.same(tag, '%s.%s' % (n, a), now[a], x, where)
                elif not self.items([x], [now[a]]):
                    if isinstance(x, Expr) and isinstance(now[a], Expr):
                        S.eqx('%s: %s.%s unchanged' % (tag, n, a), now[a], x, [], 'an evaluation does not change it', where)
                    else:
                        S.violated('%s: %s.%s unchanged' % (tag, n, a), 'an evaluation does not change it', where,
                                   '%r became %r' % (x, now[a]))
        arrs = sorted(n for o, n in self.names.items() if self.heap.get(o) is not None and self.heap[o].kind == 'arr')
        S.proved('%s: frame' % tag, 'nothing else that the caller holds is written', where,
                 'effects', '%d objects, %d arrays: %s' % (len(self.names), len(arrs), ', '.join(arrs)))
        return strict

    def private(self, name):
        return any(p.startswith('_') for p in name.replace('[', '.').split('.')[1:])

    def items(self, a, b):
        a, b = list(a), list(b)
        return len(a) == len(b) and all(self.eq1(x, y) for x, y in zip(a, b))

    def eq1(self, x, y):
        if x is y:
            return True
        if isinstance(x, Expr) and isinstance(y, Expr):
            return x == y
        if isinstance(x, tuple) and isinstance(y, tuple):
            return self.items(x, y)
        if type(x) is not type(y):
            return False
        if isinstance(x, Array):
            return x.same(y)
        try:
            return bool(x == y)
        except Exception:
            return False

    def same(self, tag, name, new, old, where):
        nm = '%s: %s unchanged' % (tag, name)
        rule = 'an evaluation does not write to it'
        if new is old:
            return
        if len(new.shape) != len(old.shape) or any(not (p - q).is_zero() for p, q in zip(new.shape, old.shape)):
            return self.S.violated(nm, rule, where, 'shape %s became %s' % (old.shape, new.shape))
        vs = [fresh(ZERO, d) for d in old.shape]
        got, want = new.elem(*map(ivar, vs)), old.elem(*map(ivar, vs))
        if not (got == want):
            got = want + (got - want) * E(10 ** 6)              # a change too small to see is still a change
        self.S.eqx(nm, got, want, vs, rule, where)

    def differs(self, tag, name, old, new, where):
        nm = '%s: %s unchanged' % (tag, name)
        if any(isinstance(x, UnkV) for x in new):
            return self.S.undecided(nm, 'an evaluation does not write to it', where, 'unknown contents')
        self.S.violated(nm, 'an evaluation does not write to it', where, '%r became %r' % (old, new))


def leaves(S, v, name='result'):
    """(name, array or number) of everything in a result."""
    if isinstance(v, tuple):
        return [p for k, x in enumerate(v) for p in leaves(S, x, '%s[%d]' % (name, k))]
    if isinstance(v, Ref) and S.I.obj(v).kind == 'list':
        return [p for k, x in enumerate(S.I.obj(v).items) for p in leaves(S, x, '%s[%d]' % (name, k))]
    if isinstance(v, Ref) and S.I.obj(v).kind == 'dict':
        return [p for k, x in S.I.obj(v).d.items() for p in leaves(S, x, '%s[%r]' % (name, k))]
    if isinstance(v, (Arr, Array)) or isinstance(v, Expr):
        return [(name, v)]
    return []


def contents(S, v):
    return [(n, x, S.I.read(x) if isinstance(x, Arr) else x) for n, x in leaves(S, v)]


def unchanged(S, tag, snap, where):
    """Arrays that were handed out keep their contents."""
    for n, x, c in snap:
        if isinstance(x, Arr):
            now = S.I.read(x)
            if now is c or now.same(c):
                continue
            vs = [fresh(ZERO, d) for d in c.shape]
            S.eqx('%s: %s kept' % (tag, n), now.elem(*map(ivar, vs)), c.elem(*map(ivar, vs)), vs,
                  'a later evaluation does not overwrite an earlier result', where)
    S.proved('%s: results kept' % tag, 'a later evaluation does not overwrite an earlier result', where, 'effects',
             '%d arrays' % sum(isinstance(x, Arr) for _, x, _ in snap))


def equal(S, tag, a, b, where):
    """Two evaluations at the same point agree."""
    if len(a) != len(b):
        return S.violated('%s: same result' % tag, 'evaluating twice gives the same result', where,
                          '%d and %d values' % (len(a), len(b)))
    for (n, _, p), (_, _, q) in zip(a, b):
        nm = '%s: %s again' % (tag, n)
        rule = 'evaluating twice at the same point gives the same result'
        if isinstance(p, Array) and isinstance(q, Array):
            if p.ndim != q.ndim:
                S.violated(nm, rule, where, 'shapes %s and %s' % (p.shape, q.shape))
                continue
            vs = [fresh(ZERO, d) for d in p.shape]
            S.eqx(nm, q.elem(*map(ivar, vs)), p.elem(*map(ivar, vs)), vs, rule, where, rec=True)
        elif isinstance(p, Expr) and isinstance(q, Expr):
            S.eqx(nm, q, p, [], rule, where)


def history(S, tag, where, first, other, roots, own=()):
    """Evaluate at one point, at another, and at the first again."""
    F = Frame(S, roots, own)
    r1 = first()
    s1 = contents(S, r1)
    a = F.check(tag, where)
    G = Frame(S, roots, own)
    other()
    b = G.check(tag + ' elsewhere', where)
    unchanged(S, tag, s1, where)
    if a and b:
        S.proved('%s: repeatable' % tag, 'evaluating twice at the same point gives the same result', where, 'effects',
                 'no object that existed before is changed')
        return r1
    r2 = first()
    equal(S, tag, s1, contents(S, r2), where)
    return r1


# ------------------------------------------------------------------------------------------------ sweeps
def sweep(which, method, single):
    def run(S):
        I = S.I
        POSITIVE.add('dt')
        N = S.dim('N', 2)
        D = ONE if single else S.dim('D', 1)
        v1, v2 = ((N,), (N,)) if single else ((N, D), (N, D, D))
        p1, p2 = v1[1:], v2[1:]

        def v(n, sh):
            return I.arr(n, sh) if sh else sym(n)
        o = S.make('src.var_bayes.%s_ode' % which, 'FwdOde' if which == 'fwd' else 'BwdOde', sym('dt'), method, single)
        where = S.loc(S.attr(o, '__call__'))

        def inputs(t):
            if which == 'fwd':
                return {'A' + t: I.arr('A' + t, v2), 'b' + t: I.arr('b' + t, v1), 'm0' + t: v('m0' + t, p1),
                        's0' + t: v('s0' + t, p2), 'sigma' + t: v('sigma' + t, p2)}
            return {'A' + t: I.arr('A' + t, v2), 'dEsde_dm' + t: I.arr('gm' + t, v1), 'dEsde_ds' + t: I.arr('gs' + t, v2),
                    'dEobs_dm' + t: I.arr('om' + t, v1), 'dEobs_ds' + t: I.arr('os' + t, v2)}
        x, y = inputs(''), inputs('_other')
        history(S, 'sweep', where, lambda: S.call(o, *x.values()), lambda: S.call(o, *y.values()),
                dict(x, **dict(y, solver=o)))
    return Spec('%s sweep/%s/%s' % (which, method, '1D' if single else 'nD'), run, [{'N': 3, 'D': 2}])


# ------------------------------------------------------------------------------------------------ energies
def energy(model, mod, cls):
    single = model in ('DW', 'OU')

    def run(S):
        I = S.I
        for p in ('dt', 'sigma', 'theta'):
            POSITIVE.add(p)
        N, M = S.dim('N', 2), S.dim('M', 1)
        summarise_trapz(S)
        for t in () if single else ('', '_other'):
            SYM_AXES['s' + t] = (1, 2)
            val.SPD['s' + t] = (1, 2)
        SYM_AXES['Q'] = (0, 1)
        val.SPD['Q'] = (0, 1)
        if single:
            D = None
            o = S.make(mod, cls, sym('sigma'), sym('theta'))
        elif model == 'L63':
            D = E(3)
            o = S.make(mod, cls, I.arr('Q', (D, D)), I.arr('th', (D,)))
        else:
            D = S.dim('D', 10)
            summarise_ut(S)
            c06.summarise_drift(S, D)
            o = S.make(mod, cls, I.arr('Q', (D, D)), sym('theta'), None, D)
        g = grid(S, N, sym('dt'))
        I.setattr(o, 'time_window', g, None)
        where = S.loc(S.attr(o, 'energy'))
        sh = [(N,)] * 4 if single else [(N, D, D), (N, D), (N, D), (N, D, D)]
        ts = obs_times(S, N, M)

        def inputs(t):
            return {n + t: I.arr(n + t, h) for n, h in zip('abms', sh)}
        x, y = inputs(''), inputs('_other')
        history(S, 'energy', where, lambda: S.meth(o, 'energy', *(list(x.values()) + [ts])),
                lambda: S.meth(o, 'energy', *(list(y.values()) + [ts])), dict(x, **dict(y, model=o, obs_t=ts, window=g)))
    return Spec('energy/%s' % model, run, [{'N': 2, 'M': 1, 'D': 10}])


def drift_fn(mod, name, D):
    """The drift functions leave the state they are given alone."""
    def run(S):
        I = S.I
        d = S.dim('D', 10) if D is None else E(D)
        J = S.dim('J', 1)
        f = S.get(mod, name)
        where = S.loc(f)
        th = sym('th') if D is None else I.arr('th', (E(3),))
        for nm, sh in (('state', (d,)), ('batch', (J, d) if D is None else (d, J))):
            x, y = I.arr('x' + nm, sh), I.arr('y' + nm, sh)
            history(S, nm, where, lambda: S.call(f, x, th), lambda: S.call(f, y, th), {'x': x, 'y': y, 'th': th})
    return Spec('drift/%s' % name, run, [{'D': 10, 'J': 2}])


# ------------------------------------------------------------------------------------------------ likelihood, prior
def likelihood(single, operator):
    def run(S):
        I = S.I
        N, M = S.dim('N', 2), S.dim('M', 1)
        ts = obs_times(S, N, M)
        if single:
            POSITIVE.add('R')
            y = I.arr('y', (M,))
            R = sym('R')
            H = sym('H') if operator else None
            sh = ((N,), (N,))
        else:
            D = S.dim('D', 1)
            O = S.dim('O', 1) if operator else D
            SYM_AXES['R'] = (0, 1)
            val.SPD['R'] = (0, 1)
            y, R, H = I.arr('y', (M, O)), I.arr('R', (O, O)), I.arr('H', (O, D)) if operator else None
            sh = ((N, D), (N, D, D))
        o = S.make(c07.MOD, c07.CLS, y, ts, R, H, **{'single_dim': single})
        i1 = {'m': I.arr('m', sh[0]), 's': I.arr('s', sh[1])}
        i2 = {'m_other': I.arr('m_other', sh[0]), 's_other': I.arr('s_other', sh[1])}
        roots = dict(i1, **dict(i2, likelihood=o, values=y, times=ts, noise=R, operator=H))
        history(S, 'energy', S.loc(S.attr(o, '__call__')), lambda: S.call(o, *i1.values()), lambda: S.call(o, *i2.values()),
                roots)
        history(S, 'gradients', S.loc(S.attr(o, 'gradients')), lambda: S.meth(o, 'gradients', *i1.values()),
                lambda: S.meth(o, 'gradients', *i2.values()), roots)
    return Spec('likelihood/%s/%s' % ('1D' if single else 'nD', 'operator' if operator else 'no operator'), run,
                [{'N': 3, 'M': 2, 'D': 2, 'O': 2}])


def prior(single):
    def run(S):
        I = S.I
        if single:
            for p in ('s0', 'tau0', 's0_other'):
                POSITIVE.add(p)
            D = ONE
            sh = ((), ())
        else:
            D = S.dim('D', 1)
            for p in ('s0', 'tau0', 's0_other'):
                SYM_AXES[p] = (0, 1)
                val.SPD[p] = (0, 1)
            sh = ((D,), (D, D))

        def v(n, h):
            return I.arr(n, h) if h else sym(n)
        mu, tau = v('mu0', sh[0]), v('tau0', sh[1])
        o = S.make(c08.MOD, c08.CLS, mu, tau, **{'single_dim': single})
        i1 = {'m0': v('m0', sh[0]), 's0': v('s0', sh[1])}
        i2 = {'m0_other': v('m0_other', sh[0]), 's0_other': v('s0_other', sh[1])}
        g = {'lam0': v('lam0', sh[0]), 'psi0': v('psi0', sh[1])}
        roots = dict(i1, **dict(i2, **dict(g, prior=o, mu0=mu, tau0=tau)))
        history(S, 'energy', S.loc(S.attr(o, '__call__')), lambda: S.call(o, *i1.values()), lambda: S.call(o, *i2.values()),
                roots)
        history(S, 'gradients', S.loc(S.attr(o, 'gradients')),
                lambda: S.meth(o, 'gradients', *(list(i1.values()) + list(g.values()))),
                lambda: S.meth(o, 'gradients', *(list(i2.values()) + list(g.values()))), roots)
    return Spec('prior/%s' % ('1D' if single else 'nD'), run, [{'D': 2}])


# ------------------------------------------------------------------------------------------------ variational object
def starting(S, W, o, where):
    """The initial guess: writes to nothing, and a second call gives the same vector."""
    roots = {'obs_t': W.obs_t, 'obs_y': W.obs_y, 'm0': W.m0, 's0': W.s0, 'sigma': W.sigma, 'window': W.grid, 'model': W.model,
             'likelihood': W.lik, 'prior': W.kl0, 'fwd': W.fwd, 'bwd': W.bwd}
    call = lambda: S.meth(o, 'initialization')
    history(S, 'initial guess', where, call, call, roots, (o,))


def posterior(single, what):
    def run(S):
        I = S.I
        N = S.dim('N', 2)
        D = ONE if single else S.dim('D', 1)
        W = World(S, single, N, D)
        o = W.make()
        where = S.loc(S.attr(o, what))
        L = 2 * N if single else W.L
        x, y = I.arr('x', (L,)), I.arr('x_other', (L,))
        roots = {'x': x, 'x_other': y, 'obs_t': W.obs_t, 'obs_y': W.obs_y, 'm0': W.m0, 's0': W.s0, 'sigma': W.sigma,
                 'window': W.grid, 'model': W.model, 'likelihood': W.lik, 'prior': W.kl0, 'fwd': W.fwd, 'bwd': W.bwd}
        own = (o,)
        if what == 'free_energy':
            history(S, 'free energy', where, lambda: S.meth(o, 'free_energy', x), lambda: S.meth(o, 'free_energy', y), roots, own)
        elif what == 'gradient':
            S.meth(o, 'free_energy', y)
            history(S, 'gradient', where, lambda: S.meth(o, 'gradient', x, eval_fun=True),
                    lambda: S.meth(o, 'gradient', y, eval_fun=True), roots, own)
            S.meth(o, 'free_energy', x)
            F = Frame(S, roots, own)
            r = S.meth(o, 'gradient', x)
            s = contents(S, r)
            F.check('gradient of the last evaluation', where)
            r2 = S.meth(o, 'gradient', x)
            unchanged(S, 'gradient of the last evaluation', s, where)
            equal(S, 'gradient of the last evaluation', s, contents(S, r2), where)
        # results and the record of the last evaluation do not share memory with the parameter vector
        rec = S.attr(o, 'arg_out')
        shared = [n for n, v in leaves(S, rec, 'arg_out') + leaves(S, S.meth(o, 'gradient', x, eval_fun=True), 'gradient')
                  if isinstance(v, Arr) and v.oid in (x.oid, y.oid)]
        S.decide('no sharing', not shared, "results do not share memory with the caller's parameter vector", where,
                 ', '.join(shared))
    return Spec('%s/%s' % (what, '1D' if single else 'nD'), run, [{'N': 3, 'D': 2, 'M': 1}])


# ------------------------------------------------------------------------------------------------ moments, utilities
def moments(n):
    def run(S):
        I = S.I
        N = S.dim('n', 1)
        m, v = I.arr('m', (N,)), I.arr('v', (N,))
        g = S.make(c03.MOD, c03.CLS, m, v)
        roots = {'m': m, 'v': v, 'moments': g}
        history(S, 'moment', S.loc(S.attr(g, '__call__')), lambda: S.call(g, E(n)), lambda: S.call(g, E((n + 3) % 9)), roots)
        for d in ('dm', 'ds') if n else ():
            history(S, d, S.loc(S.attr(g, d)), lambda: S.meth(g, d, E(n)), lambda: S.meth(g, d, E(max(1, (n + 3) % 9))), roots)
    return Spec('moments/order %d' % n, run, [{'n': 2}])


def trapz(rank, given):
    def run(S):
        I = S.I
        N = S.dim('N', 6)
        sh = (N,) if rank == 1 else (N, S.dim('D', 1))
        f = S.get(c20.U, 'my_trapz')
        x, y = I.arr('fx', sh), I.arr('fx_other', sh)
        ts = None if given is None else I.new_list([E(2), E(4)]) if given == 'list' else \
            I.np.to_array(I, (E(2), E(4)), None)
        history(S, 'integral', S.loc(f), lambda: S.call(f, x, sym('dx'), ts), lambda: S.call(f, y, sym('dx'), ts),
                {'fx': x, 'fx_other': y, 'obs_t': ts})
    return Spec('my_trapz/%s/times %s' % ('scalar' if rank == 1 else 'vector', given), run, [{'N': 6, 'D': 2}])


def matrix_fn(name, kind):
    def run(S):
        I = S.I
        f = S.get(c20.U, name)
        if kind == 'matrix':
            D = S.dim('D', 1)
            for p in ('X', 'Y'):
                SYM_AXES[p] = (0, 1)
                val.SPD[p] = (0, 1)
            x, y = I.arr('X', (D, D)), I.arr('Y', (D, D))
        elif kind == 'vector':
            D = S.dim('D', 1)
            POSITIVE.add('X')
            POSITIVE.add('Y')
            x, y = I.arr('X', (D,)), I.arr('Y', (D,))
        else:
            POSITIVE.add('X')
            POSITIVE.add('Y')
            x, y = I.np.to_array(I, sym('X'), None), I.np.to_array(I, sym('Y'), None)
        history(S, name, S.loc(f), lambda: S.call(f, x), lambda: S.call(f, y), {'x': x, 'y': y})
    return Spec('%s/%s' % (name, kind), run, [{'D': 1}, {'D': 2}])


def unscented_indefinite(S):
    """A covariance whose Cholesky factorisation fails (its diagonal's does not)."""
    def hook(I, lam):
        n = lam.shape[0]
        i, j = fresh(ZERO, n, 'i'), fresh(ZERO, n, 'j')
        e = subs(lam.body, dict(zip(lam.vars, (ivar(i), ivar(j)))))
        off = replace_atoms(e, lambda a: ZERO if a.kind == 'dl' else None)
        return 'ok' if off.is_zero() else 'indef'
    S.I.ctx['pd'] = hook
    unscented(S)


def unscented(S):
    I, D, mu, P = c20.ut_inputs(S)
    SYM_AXES['P2'] = (0, 1)
    val.SPD['P2'] = (0, 1)
    mu2, P2 = I.arr('mu2', (D,)), I.arr('P2', (D, D))
    f = S.get(c20.U, 'ut_approx')
    K = S.dim('K', 1)

    def fun(it, args, kw, node):
        X = it.read(args[0])

        def g(j, d):
            v = fresh(ZERO, D, 'k')
            return el('c', (d,)) + Sum(v, D, el('W', (d, ivar(v))) * X.elem(j, ivar(v)))
        return it.new_arr(Array.make((X.shape[0], K), g))
    ex = I.arr('extra', (D,))
    history(S, 'average', S.loc(f), lambda: S.call(f, PyFn('fun', fun), mu, P, ex),
            lambda: S.call(f, PyFn('fun', fun), mu2, P2, ex), {'mean': mu, 'cov': P, 'mean2': mu2, 'cov2': P2, 'extra': ex})


def differences(S):
    I = S.I
    D = S.dim('D', 2)
    f = S.get(c20.U, 'finite_diff')
    x, y = I.arr('x', (D,)), I.arr('y', (D,))

    def fun(it, args, kw, node):
        z = it.read(args[0])
        v, u = fresh(ZERO, D, 'k'), fresh(ZERO, D, 'l')
        return Sum(v, D, Sum(u, D, z.elem(ivar(v)) * el('B', (ivar(v), ivar(u))) * z.elem(ivar(u))))
    ex = I.arr('extra', (D,))
    history(S, 'differences', S.loc(f), lambda: S.call(f, PyFn('fun', fun), x, ex),
            lambda: S.call(f, PyFn('fun', fun), y, ex), {'x': x, 'y': y, 'extra': ex})


def specs():
    specs = [sweep(w, m[2], s) for w in ('fwd', 'bwd') for m in METHODS for s in (True, False)]
    from .c13 import DYN
    specs += [energy(m, DYN[m][0], DYN[m][1]) for m in DYN]
    specs += [drift_fn('src.dynamics.lorenz_63', 'l63', 3), drift_fn('src.dynamics.lorenz_96', 'l96', None)]
    specs += [likelihood(s, o) for s in (True, False) for o in (True, False)]
    specs += [prior(s) for s in (True, False)]
    specs += [c23.scen(s, w, frame=starting) for s in (True, False) for w in c23.PLACES]
    specs += [posterior(s, w) for s in (True, False) for w in ('free_energy', 'gradient')]
    specs += [moments(n) for n in range(0, 9)]
    specs += [trapz(r, g) for r in (1, 2) for g in (None, 'list', 'array')]
    specs += [matrix_fn(f, k) for f, ks in (('chol_inv', ('scalar', 'matrix')), ('log_det', ('scalar', 'vector', 'matrix')))
              for k in ks]
    specs += [Spec('ut_approx', unscented, [{'D': 2, 'K': 2}]),
              Spec('ut_approx/factorisation fails', unscented_indefinite, [{'D': 2, 'K': 2}]),
              Spec('finite_diff', differences, [{'D': 2}])]
    return specs


def main(tier):
    return run_check('C16', 'evaluations modify nothing', specs(), tier)
