"""C13: the system noise is validated before it is stored, and the stored inverse belongs to the stored noise."""
from .common import *
from .. import npmodel
from ..npcall import const_matrix, sym_eigenvalues

DYN = {'DW': ('src.dynamics.double_well', 'DoubleWell', True), 'OU': ('src.dynamics.ornstein_uhlenbeck',
       'OrnsteinUhlenbeck', True), 'L63': ('src.dynamics.lorenz_63', 'Lorenz63', False),
       'L96': ('src.dynamics.lorenz_96', 'Lorenz96', False)}
# signs of the eigenvalues of a symmetric matrix symbol
SYMBOLIC = {'Kpd': (1,), 'Lpd': (1,), 'Kindef': (1, -1), 'Kneg': (-1,), 'Kzero': (1, 0)}


def signs_of(lam):
    """Signs of the eigenvalues, or None."""
    n = lam.shape[0]
    v, w = fresh(ZERO, n, 'q'), fresh(ZERO, n, 'q')
    i, j = ivar(v), ivar(w)
    if zero_on(lam.inst([i, j]) * (ONE - delta(i, j)), [v, w])[0]:
        if n.const() is not None and n.const() <= 12:
            ds = [lam.inst([E(k), E(k)]) for k in range(int(n.const()))]
        else:
            ds = [lam.inst([i, i])]
        out = set()
        for d in ds:
            out.add(0 if d.is_zero() else 1 if nonneg(d) and positive(d) else -1 if positive(-d) else None)
        return None if None in out else out
    C = const_matrix(lam)
    if C is not None and all(C[r][c] == C[c][r] for r in range(len(C)) for c in range(r)):
        return set((x > 0) - (x < 0) for x in sym_eigenvalues(C))
    scale = lam.inst([i, j])
    for nm, sg in SYMBOLIC.items():
        if {f.name for f in atoms(scale) if f.kind == 'el'} != {nm}:
            continue
        q = divide(scale, el(nm, (i, j)))
        if q is not None:
            s = 1 if positive(q) else -1 if positive(-q) else None
            return None if s is None else set(s * x for x in sg)
    return None


def positive(e):
    c = e.const()
    if c is not None:
        return c > 0
    return bool((ge(ZERO - e)).is_zero())


def divide(a, b):
    """a / b when that no longer mentions the array of b."""
    q = a * power(b, -1)
    return None if any(f.kind == 'el' for f in atoms(q)) else q


def pd_hook(I, lam):
    s = signs_of(lam)
    if s is None:
        return None
    return 'ok' if s == {1} else 'singular' if -1 not in s else 'indef'


def anyall_hook(I, name, a):
    """any / all over a condition on the eigenvalues of a matrix symbol."""
    eigs = [f for f in atoms(a.body) if f.kind == 'fn' and f.name == 'eig']
    if len(eigs) != 1 or a.ndim != 1:
        return None
    sg = signs_of(eigs[0].args[0])
    if sg is None:
        return None
    res = []
    for s in sg:
        POSITIVE.add('lambda')
        x = E(s) * sym('lambda')
        b = replace_atoms(a.body, lambda f: x if f is eigs[0] or f == eigs[0] else None)
        if b.fv & set(a.vars) or b.const() is None:
            return None
        res.append(b.const() != 0)
    return any(res) if name == 'any' else all(res)


def eye_with(D, changes):
    return [[Fraction(changes.get((i, j), 1 if i == j else 0)) for j in range(D)] for i in range(D)]


OKAY, BAD = 'accepted', 'refused'


def one_dim_kinds():
    return {'positive': (lambda S: PyNum(sym('p')), OKAY), 'positive numpy number': (lambda S: S.I.new_arr(
        Array.make((), lambda: sym('p2'))), OKAY), 'two': (lambda S: PyNum(E(2)), OKAY),
        'small': (lambda S: PyNum(E(Fraction(1, 10 ** 6))), OKAY),
        'zero': (lambda S: PyNum(ZERO), BAD), 'negative': (lambda S: PyNum(-sym('p3')), BAD),
        'slightly negative': (lambda S: PyNum(E(Fraction(-1, 10 ** 9))), BAD),
        'minus one': (lambda S: PyNum(E(-1)), BAD)}


def many_dim_kinds(ctor, concrete):
    def num(e):
        return lambda S, D: PyNum(E(e))

    def mat(nm):
        def f(S, D):
            SYM_AXES[nm] = (0, 1)
            if nm.endswith('pd'):
                val.SPD[nm] = (0, 1)
            return S.I.arr(nm, (D, D))
        return f

    def cm(ch, lists=False, size=None):
        def f(S, D):
            n = int(D.const()) + (size or 0)
            rows = eye_with(n, {(i % n, j % n): x for (i, j), x in ch.items()})
            v = S.I.new_list([S.I.new_list([PyNum(E(x)) for x in r]) for r in rows])
            return v if lists else S.I.np.to_array(S.I, v, None)
        return f

    def vec(vals, lists):
        def f(S, D):
            v = S.I.new_list([PyNum(E(x)) for x in vals(int(D.const()))])
            return v if lists else S.I.np.to_array(S.I, v, None)
        return f

    def vsym(S, D):
        POSITIVE.add('vp')
        return S.I.arr('vp', (D,))

    def shaped(*f):
        return lambda S, D: S.I.arr('odd', tuple(g(D) for g in f))
    k = {'matrix': (mat('Kpd'), OKAY), 'other matrix': (mat('Lpd'), OKAY), 'indefinite matrix': (mat('Kindef'), BAD),
         'negative definite matrix': (mat('Kneg'), BAD), 'singular matrix': (mat('Kzero'), BAD),
         'matrix of larger size': (shaped(lambda D: D + 1, lambda D: D + 1), BAD),
         'matrix of smaller size': (shaped(lambda D: D - 1, lambda D: D - 1), BAD),
         'tall matrix': (shaped(lambda D: D + 1, lambda D: D), BAD),
         'wide matrix': (shaped(lambda D: D, lambda D: D + 1), BAD),
         'stack of matrices': (shaped(lambda D: E(2), lambda D: D, lambda D: D), BAD)}
    sc = {'scalar': (lambda S, D: PyNum(sym('p')), OKAY), 'zero': (num(0), BAD), 'negative': (lambda S, D: PyNum(-sym('p3')), BAD),
          'numpy number': (lambda S, D: S.I.new_arr(Array.make((), lambda: sym('p2'))), OKAY),
          'vector': (vsym, OKAY)}
    if ctor:
        k.update(sc)
    else:
        k.update({'scalar': (sc['scalar'][0], BAD), 'vector': (vsym, BAD)})
    if concrete:
        k.update({'correlated': (cm({(0, 1): Fraction(1, 2), (1, 0): Fraction(1, 2), (2, 2): 3}), OKAY),
                  'small diagonal': (cm({(0, 0): Fraction(1, 10 ** 6), (1, 1): Fraction(1, 100)}), OKAY),
                  'indefinite with positive diagonal': (cm({(0, 1): 2, (1, 0): 2}), BAD),
                  'indefinite with positive determinant': (cm({(0, 0): -1, (1, 1): -2}), BAD),
                  'negative third element': (cm({(2, 2): -3}), BAD),
                  'singular correlated': (cm({(0, 1): 1, (1, 0): 1}), BAD),
                  'zero diagonal element': (cm({(2, 2): 0}), BAD),
                  'slightly negative element': (cm({(1, 1): Fraction(-1, 10 ** 9)}), BAD),
                  'not symmetric': (cm({(0, 1): Fraction(9, 10)}), BAD),
                  'slightly not symmetric': (cm({(0, 1): Fraction(1, 100)}), BAD),
                  'not symmetric below the diagonal': (cm({(2, 0): Fraction(1, 3)}), BAD),
                  'not symmetric, nearly so': (cm({(0, 1): Fraction(1, 2), (1, 0): Fraction(51, 100)}), BAD),
                  'not symmetric in the corner': (cm({(-1, 0): Fraction(1, 3)}), BAD),
                  'not symmetric in the last rows': (cm({(-2, -1): Fraction(1, 3)}), BAD),
                  'indefinite in the last rows': (cm({(-2, -1): 2, (-1, -2): 2}), BAD),
                  'negative at the end': (cm({(-1, -1): -1}), BAD), 'zero at the end': (cm({(-1, -1): 0}), BAD),
                  'larger unit matrix': (cm({}, size=1), BAD), 'smaller unit matrix': (cm({}, size=-1), BAD)})
        vk = {'list of numbers': (vec(lambda n: [k + 1 for k in range(n)], True), OKAY),
              'array of numbers': (vec(lambda n: [k + 1 for k in range(n)], False), OKAY),
              'vector with a negative': (vec(lambda n: [1] * (n - 1) + [-1], True), BAD),
              'vector with a zero': (vec(lambda n: [0] + [1] * (n - 1), True), BAD),
              'long vector': (vec(lambda n: [1] * (n + 1), True), BAD),
              'short vector': (vec(lambda n: [1] * (n - 1), True), BAD),
              'list of lists': (cm({(0, 1): Fraction(1, 4), (1, 0): Fraction(1, 4)}, True), OKAY)}
        if ctor:
            k.update(vk)
    return k


class Noise(object):
    """One object, its history, and what its noise must be."""
    def __init__(self, S, model, concrete=False):
        self.S, self.model = S, model
        self.mod, self.cls, self.single = DYN[model]
        for p in ('p', 'p2', 'p3', 'th'):
            POSITIVE.add(p)
        S.I.ctx['pd'] = pd_hook
        S.I.ctx['anyall'] = anyall_hook
        summarise_inverse(S)
        self.D = ONE if self.single else E(3) if model == 'L63' else E(10) if concrete else S.dim('D', 10)
        self.obj = None

    def ctor_args(self, v):
        S, I = self.S, self.S.I
        if self.model == 'L63':
            th = I.new_list([PyNum(sym('th%d' % k)) for k in range(3)])
        else:
            th = PyNum(sym('th'))
        kw = {'dim_d': self.D if self.D.const() is None else PyNum(self.D)} if self.model == 'L96' else {}
        return (v, th), kw

    def value(self, v):
        """The noise (scalar or matrix) that a configured value stands for."""
        S = self.S
        A = S.arr(v)
        if self.single:
            return Array.make((), lambda: A.elem())
        D = self.D
        if A.ndim == 0:
            return Array.make((D, D), lambda i, j: A.elem() * delta(i, j))
        if A.ndim == 1:
            return Array.make((D, D), lambda i, j: A.elem(i) * delta(i, j))
        return A

    def coherent(self, name, want):
        """The exposed noise is `want`; the exposed inverse is its inverse."""
        S, o = self.S, self.obj
        sg = S.attr(o, 'sigma')
        iv = S.attr(o, 'inverse_sigma')
        where = S.loc(S.I.get(self.mod, self.cls))
        S.eq(name + ': noise', sg, want.elem, 'the exposed noise is the last accepted one', where, want.shape)
        if self.single:
            S.eq(name + ': inverse', iv, lambda: power(want.elem(), -1), 'inverse of the exposed noise', where, ())
            return
        D = self.D
        i, j = fresh(ZERO, D, 'i'), fresh(ZERO, D, 'j')
        if zero_on(want.elem(ivar(i), ivar(j)) * (ONE - delta(ivar(i), ivar(j))), [i, j])[0]:
            ref = lambda i, j: delta(i, j) * power(want.elem(i, i), -1)
        else:
            lam = want.lam()
            ref = lambda i, j: fn('inv', (lam,), (i, j))
        S.eq(name + ': inverse', iv, ref, 'inverse of the exposed noise', where, (D, D))


def summarise_inverse(S):
    """chol_inv(x) is (x^-1, inverse Cholesky factor) (C20); a matrix that is not positive definite is refused."""
    I = S.I
    qual = U + '.chol_inv'
    f = func_of(I, qual)
    if f is None:
        return

    def h(it, args, kwargs, node):
        v = bound_args(it, f, args, kwargs, node)
        if v is None or 'x' not in v:
            return real_call(it, qual, f, args, kwargs, node)
        A = it.read(it.np.to_array(it, v['x'], node))
        if A.ndim != 2 or pd_hook(it, A.lam()) != 'ok':
            return real_call(it, qual, f, args, kwargs, node)
        lam = A.lam()
        n = A.shape[0]
        i, j = fresh(ZERO, n, 'i'), fresh(ZERO, n, 'j')
        if zero_on(A.elem(ivar(i), ivar(j)) * (ONE - delta(ivar(i), ivar(j))), [i, j])[0]:
            return (it.new_arr(Array.make((n, n), lambda i, j: delta(i, j) * power(A.elem(i, i), -1))),
                    it.new_arr(Array.make((n, n), lambda i, j: delta(i, j) * power(A.elem(i, i), Fraction(-1, 2)))))
        return (it.new_arr(Array.make((n, n), lambda i, j: fn('inv', (lam,), (i, j)))),
                it.new_arr(Array.make((n, n), lambda i, j: fn('invchol', (lam,), (i, j)))))
    I.overrides[qual] = h


def step_result(S, name, r, want, where):
    """Was the value accepted / refused as it must be?"""
    if r[0] == 'raise':
        if want == OKAY:
            S.violated(name, 'an admissible noise is accepted', where, 'raises %s at %s' % (r[1], r[2]))
        else:
            S.proved(name, 'an inadmissible noise is refused', where, 'always raises')
        return want == BAD
    part = r[2]
    if want == OKAY:
        if part:
            S.undecided(name, 'an admissible noise is accepted', where, 'may raise %s' % part[0][0].cls)
            return False
        S.proved(name, 'an admissible noise is accepted', where, 'no exception')
        return True
    tot = ZERO
    for x in part:
        tot = tot + x[1]
    if tot == ONE:
        S.proved(name, 'an inadmissible noise is refused', where, 'always raises')
    elif part:
        S.undecided(name, 'an inadmissible noise is refused', where, 'raises under a condition')
    else:
        S.violated(name, 'an inadmissible noise is refused', where, 'accepted')
    return False


def scen_ctor(model, kind, concrete=None):
    single = DYN[model][2]

    def scen(S):
        W = Noise(S, model, concrete)
        kinds = one_dim_kinds() if single else many_dim_kinds(True, True)
        mk, want = kinds[kind]
        v = mk(S) if single else mk(S, W.D)
        target = W.value(v) if want == OKAY else None
        f = S.I.get(W.mod, W.cls)
        a, kw = W.ctor_args(v)
        r = S.outcome(f, *a, **kw)
        if step_result(S, 'construction', r, want, S.loc(f)) and want == OKAY:
            W.obj = r[1]
            W.coherent('construction', target)
    return Spec('construct %s%s with %s' % (model, ' (D=10)' if concrete and model == 'L96' else '', kind), scen, *inst(model, concrete))


def inst(model, concrete):
    if model != 'L96' or concrete:
        return ()
    return ([{'D': 10}], [{'D': 10}])


def assign(S, o, name, v):
    """Outcome of an attribute assignment."""
    I = S.I
    I.sinks.append([])
    try:
        I.setattr(o, name, v, None)
        return 'ok', None, I.sinks.pop()
    except AbsRaise as r:
        I.sinks.pop()
        return 'raise', r.exc.cls, r.where


def scen_history(model, kinds, concrete):
    """Construct, then assign each kind in turn; after every step noise and inverse belong together."""
    single = DYN[model][2]

    def scen(S):
        W = Noise(S, model, concrete)
        first = PyNum(sym('p'))
        target = W.value(first)
        a, kw = W.ctor_args(first)
        W.obj = S.call(S.I.get(W.mod, W.cls), *a, **kw)
        table = one_dim_kinds() if single else many_dim_kinds(False, True)
        where = S.loc(S.I.get(W.mod, W.cls))
        for n, kind in enumerate(kinds):
            mk, want = table[kind]
            v = mk(S) if single else mk(S, W.D)
            val_ = W.value(v) if want == OKAY else None
            nm = '%d %s' % (n + 1, kind)
            r = assign(S, W.obj, 'sigma', v)
            if not step_result(S, nm, r, want, where):
                if want == BAD and r[0] != 'raise':
                    return
                if want == OKAY:
                    return
            if want == OKAY:
                target = val_
            W.coherent(nm, target)
    return Spec('assign %s%s: %s' % (model, ' (D=10)' if concrete and model == 'L96' else '', ', '.join(kinds)), scen, *inst(model, concrete))


def scen_in_place(model):
    """The noise is rescaled in place (`o.sigma *= 2`), or the caller's array is changed and assigned again."""
    def scen(S):
        import ast
        I = S.I
        W = Noise(S, model)
        first = PyNum(sym('p'))
        a, kw = W.ctor_args(first)
        target = W.value(first)
        W.obj = o = S.call(I.get(W.mod, W.cls), *a, **kw)
        where = S.loc(I.get(W.mod, W.cls))

        def scaled(t, c):
            return Array.make(t.shape, lambda *i: t.elem(*i) * c)

        def rescale(nm, t, c):
            cur = S.attr(o, 'sigma')
            new = I.aug(cur, ast.Mult(), PyNum(E(c)), None)
            r = assign(S, o, 'sigma', new)
            t = scaled(t, E(c))
            if step_result(S, nm, r, OKAY, where):
                W.coherent(nm, t)
            return t
        target = rescale('rescaled in place', target, 2)
        if W.single:
            mine = PyNum(sym('p2'))
        else:
            D = W.D
            mine = I.new_arr(Array.make((D, D), lambda i, j: sym('p2') * delta(i, j)))
        target = W.value(mine)
        if step_result(S, 'own array', assign(S, o, 'sigma', mine), OKAY, where):
            W.coherent('own array', target)
        mine = I.aug(mine, ast.Mult(), PyNum(E(3)), None)
        target = scaled(target, E(3))
        if step_result(S, 'own array changed', assign(S, o, 'sigma', mine), OKAY, where):
            W.coherent('own array changed', target)
        target = rescale('rescaled again', target, 5)
        if step_result(S, 'assigned again', assign(S, o, 'sigma', S.attr(o, 'sigma')), OKAY, where):
            W.coherent('assigned again', target)
    return Spec('in place %s' % model, scen, *inst(model, None))


def scen_ou_theta(S):
    W = Noise(S, 'OU')
    f = S.I.get(W.mod, W.cls)
    where = S.loc(f)
    for nm, v, want in (('positive', PyNum(sym('th')), OKAY), ('zero', PyNum(ZERO), BAD), ('negative', PyNum(-sym('th')), BAD),
                        ('slightly negative', PyNum(E(Fraction(-1, 10 ** 9))), BAD), ('one', PyNum(ONE), OKAY)):
        r = S.outcome(f, PyNum(sym('p')), v)
        if step_result(S, 'construction with a %s drift' % nm, r, want, where) and want == OKAY:
            S.eq('drift %s' % nm, S.attr(r[1], 'theta'), lambda: S.I.num(v), 'the configured drift', where, ())
    W.obj = o = S.call(f, PyNum(sym('p')), PyNum(sym('th')))
    cur = sym('th')
    for nm, e, want in (('zero', ZERO, BAD), ('negative', -sym('p2'), BAD), ('positive', sym('p2'), OKAY),
                        ('minus one', E(-1), BAD), ('two', E(2), OKAY), ('slightly negative', E(Fraction(-1, 10 ** 9)), BAD)):
        r = assign(S, o, 'theta', PyNum(e))
        step_result(S, 'assigning a %s drift' % nm, r, want, where)
        if want == OKAY:
            cur = e
        S.eq('drift after %s' % nm, S.attr(o, 'theta'), lambda c=cur: c, 'the last accepted drift', where, ())
        W.coherent('noise after a %s drift' % nm, Array.make((), lambda: sym('p')))


def scen_l96_dim(S):
    W = Noise(S, 'L96')
    f = S.I.get(W.mod, W.cls)
    where = S.loc(f)
    for d in range(1, 13):
        r = S.outcome(f, PyNum(sym('p')), PyNum(sym('th')), dim_d=PyNum(E(d)))
        step_result(S, 'dimension %d' % d, r, OKAY if d >= 10 else BAD, where)
    r = S.outcome(f, PyNum(sym('p')), PyNum(sym('th')))
    step_result(S, 'default dimension', r, OKAY, where)


def main(tier):
    specs = []
    for model in DYN:
        specs.append(scen_in_place(model))
        single = DYN[model][2]
        if single:
            specs += [scen_ctor(model, k) for k in one_dim_kinds()]
            specs.append(scen_history(model, tuple(one_dim_kinds()), None))
            specs.append(scen_history(model, ('negative', 'positive numpy number', 'zero', 'minus one', 'two', 'positive'), None))
        else:
            sy = many_dim_kinds(True, False)
            specs += [scen_ctor(model, k) for k in sy]
            specs += [scen_ctor(model, k, True) for k in many_dim_kinds(True, True) if k not in sy]
            sy = many_dim_kinds(False, False)
            specs.append(scen_history(model, tuple(sy), None))
            specs.append(scen_history(model, tuple(reversed(list(sy))), None))
            full = many_dim_kinds(False, True)
            specs.append(scen_history(model, tuple(k for k in full if k not in sy), True))
            for k in full:
                specs.append(scen_history(model, ('matrix', k, 'correlated', k, 'other matrix'), True))
    specs += [Spec('OU drift', scen_ou_theta), Spec('L96 dimension', scen_l96_dim)]
    return run_check('C13', 'noise validation and inverse', specs, tier)

