"""C03: the moment tables are the exact Gaussian moments and derivatives."""
from ..core import *

MOD, CLS = 'src.var_bayes.gaussian_moments', 'GaussianMoments'


def moment(n):
    """E[x^n], x ~ N(m, v) and its derivatives, as functions of the element index."""
    m, v = sym('~m'), sym('~v')
    x = sym('~x')
    e = ONE
    tot = ZERO
    # sum over pairings: E[x^n] = sum_k n!/(k! (n-2k)! 2^k) m^(n-2k) v^k
    from math import factorial as f
    for k in range(n // 2 + 1):
        tot = tot + E(Fraction(f(n), f(k) * f(n - 2 * k) * 2 ** k)) * power(m, n - 2 * k) * power(v, k)
    return tot


def at(e, sh):
    """Replace the symbols by the elements of the input arrays."""
    def f(*ix):
        mm, vv = (el('m', ix), el('v', ix))

        def g(a):
            if a.kind == 'sym' and a.name == '~m':
                return mm
            if a.kind == 'sym' and a.name == '~v':
                return vv
            return None
        return replace_atoms(e, g)
    return f


def fac0(e):
    return list(atoms(e))[0]


def derivative(n, which):
    e = moment(n)
    return diff(e, fac0(sym('~m' if which == 'dm' else '~v')))


def build(n):
    def scen(S):
        N = S.dim('n', 1)
        I = S.I
        g = S.make(MOD, CLS, I.arr('m', (N,)), I.arr('v', (N,)))
        for what in ('moment', 'dm', 'ds'):
            if what == 'moment':
                f = S.attr(g, '__call__')
            else:
                f = S.attr(g, what)
            where = S.loc(f)
            if what != 'moment' and n == 0:
                S.raises('%s order 0' % what, f, [E(0)], 'ValueError', 'orders outside the table are refused')
                continue
            r = S.outcome(f, E(n))
            if r[0] != 'ok':
                S.violated('%s order %d' % (what, n), 'order is in the table', where, 'raises %s' % r[1])
                continue
            want = moment(n) if what == 'moment' else derivative(n, what)
            S.eq('%s order %d' % (what, n), r[1], at(want, (N,)), 'exact Gaussian moment / derivative', where, (N,))
        if n in (1,):
            # default order and moments asked through the call operator
            S.eq('call', S.call(g), lambda i: ONE, 'default order of the moment is 0', where, (N,))
            S.eq('dm default', S.meth(g, 'dm'), lambda i: ONE, 'default order of the derivative is 1', where, (N,))
            S.eq('ds default', S.meth(g, 'ds'), lambda i: ZERO, 'default order of the derivative is 1', where, (N,))
    return scen


def scalar(S):
    """A scalar mean and variance are arrays of one element."""
    I = S.I
    g = S.make(MOD, CLS, sym('m'), sym('v'))
    m, v = sym('m'), sym('v')
    where = S.loc(S.attr(g, '__call__'))

    def f(e):
        return lambda i: replace_atoms(e, lambda a: {'~m': m, '~v': v}.get(a.name) if a.kind == 'sym' else None)
    for n in range(9):
        S.eq('scalar moment %d' % n, S.call(g, E(n)), f(moment(n)), 'exact Gaussian moment', where, (ONE,))


def refuse(S):
    N = S.dim('n', 1)
    I = S.I
    g = S.make(MOD, CLS, I.arr('m', (N,)), I.arr('v', (N,)))
    SYM_MIN['hi'] = 9
    SYM_MIN['lo'] = 1
    for what in ('__call__', 'dm', 'ds'):
        f = S.attr(g, what)
        S.raises('%s order >= 9' % what, f, [sym('hi')], 'ValueError', 'orders outside the table are refused')
        S.raises('%s order <= -1' % what, f, [-sym('lo')], 'ValueError', 'orders outside the table are refused')


def mismatch(S):
    I = S.I
    N, M = S.dim('n', 1), S.dim('k', 1)
    cls = S.get(MOD, CLS)
    for nm, a, b in (('lengths differ', (N,), (N + M,)), ('lengths differ the other way', (N + M,), (N,)),
                     ('ranks differ', (N, M), (N,)), ('transposed', (N, N + M), (N + M, N)),
                     ('scalar variance', (N + 1,), ())):
        bb = sym('v') if b == () else I.arr('v', b)
        S.raises('mismatch: %s' % nm, cls, [I.arr('m', a), bb], 'RuntimeError', 'shape mismatch is refused')


def main(tier):
    specs = [Spec('order%d' % n, build(n), [{'n': 1}, {'n': 3}], [{'n': 2}]) for n in range(9)]
    specs += [Spec('scalar', scalar), Spec('out of range', refuse, [{'n': 2}], [{'n': 2}]),
              Spec('mismatch', mismatch, [{'n': 2, 'k': 1}], [{'n': 2, 'k': 1}])]
    return run_check('C03', 'Gaussian moments', specs, tier)
