"""C22: names select their own implementation; unknown names and non-positive steps are refused."""
from itertools import product
from .common import *
from .c13 import DYN, step_result, OKAY, BAD

METHODS = {'euler': ('src.numerics.euler', 'Euler'), 'heun': ('src.numerics.heun', 'Heun'),
           'rk2': ('src.numerics.runge_kutta2', 'RungeKutta2'), 'rk4': ('src.numerics.runge_kutta4', 'RungeKutta4')}
SWEEPS = {'FwdOde': ('src.var_bayes.fwd_ode', 'solve_fwd', 5), 'BwdOde': ('src.var_bayes.bwd_ode', 'solve_bwd', 5)}
WRONG = ('', 'rk', 'rk3', 'rk24', 'euler2', 'eule', 'heuns', 'runge_kutta4', ' ')
WRONG_MODELS = ('', 'D', 'DW1', 'L', 'L6', 'L633', 'L69', 'Lorenz63', 'OUP', 'DoubleWell', 'DW OU')


def cases(name):
    return sorted({''.join(p) for p in product(*[{c.lower(), c.upper()} for c in name])})


def recorder(S, log, name):
    """A stand-in for the two sweeps of a solver: which one was asked, of which object, with which arguments."""
    def h(sweep):
        def g(it, args, kwargs, node):
            log.append((name, sweep, args[0] if args else None, list(args[1:]), dict(kwargs)))
            return StrV('result of %s.%s' % (name, sweep))
        return g
    return h


def scen_method(sweep, single):
    mod, meth, n = SWEEPS[sweep]

    def f(S):
        I = S.I
        POSITIVE.add('h')
        log = []
        for nm, (m, c) in METHODS.items():
            h = recorder(S, log, nm)
            I.overrides['%s.%s.solve_fwd' % (m, c)] = h('solve_fwd')
            I.overrides['%s.%s.solve_bwd' % (m, c)] = h('solve_bwd')
        k = I.get(mod, sweep)
        where = S.loc(k)
        for nm in METHODS:
            for text in cases(nm):
                args = (PyNum(sym('h')), text, single)
                r = S.outcome(k, *args)
                tag = '%s' % text
                if r[0] == 'raise':
                    S.violated(tag, 'every letter case is accepted', where, 'raises %s' % r[1])
                    continue
                if r[2]:
                    S.undecided(tag, 'every letter case is accepted', where, 'may raise')
                    continue
                o = r[1]
                del log[:]
                xs = [sym('arg%d' % j) for j in range(n)]
                v = S.outcome(o, *xs)
                if v[0] == 'raise' or not log:
                    S.decide(tag, None if v[0] == 'ok' and not log else False, 'the sweep uses the selected method', where, str(v[1])[:80])
                    continue
                S.decide(tag + ': method', [(a, b) for a, b, *_ in log] == [(nm, meth)], 'the method of that name, once', where,
                         'calls %s' % [(a, b) for a, b, *_ in log])
                S.decide(tag + ': result', v[1] == StrV('result of %s.%s' % (log[0][0], log[0][1])) or None,
                         'the result of the solver', where, repr(v[1])[:80])
                self_, a = log[0][2], log[0][3]
                if not log[0][4]:
                    ok = len(a) == n and all((I.num(x) - y).is_zero() for x, y in zip(a, xs))
                    S.decide(tag + ': arguments', ok, 'the arguments, in order', where, str(a)[:80])
                else:
                    got = sorted(str(I.num(x)) for x in list(a) + list(log[0][4].values()))
                    S.decide(tag + ': arguments', (got == sorted(map(str, xs))) or False, 'the arguments', where, str(got)[:80])
                S.eq(tag + ': step', S.attr(self_, 'dt'), lambda: sym('h'), 'the given step', where, ())
                S.decide(tag + ': dimensionality', S.attr(self_, 'single_dim') is single, 'the given dimensionality', where,
                         repr(S.attr(self_, 'single_dim')))
        # unknown names
        for text in WRONG + tuple(m + 'x' for m in METHODS) + tuple(m[::-1] for m in METHODS):
            S.raises('unknown name %r' % text, k, (PyNum(sym('h')), text, single), 'ValueError', 'refused')
        S.I.ctx['alien'] = 'other'
        S.raises('any other name', k, (PyNum(sym('h')), StrV('other'), single), 'ValueError', 'refused')
        S.raises('no name', k, (PyNum(sym('h')), None, single), 'ValueError', 'refused')
    return Spec('%s/%s' % (sweep, '1D' if single else 'nD'), f)


STEPS = {'zero': (lambda: ZERO, BAD), 'negative': (lambda: -sym('h'), BAD), 'slightly negative': (lambda: E(Fraction(-1, 10 ** 12)), BAD),
         'minus one': (lambda: E(-1), BAD), 'positive': (lambda: sym('h'), OKAY), 'tiny': (lambda: E(Fraction(1, 10 ** 9)), OKAY),
         'one': (lambda: ONE, OKAY), 'large': (lambda: E(100), OKAY)}


def scen_steps(single):
    def f(S):
        I = S.I
        POSITIVE.add('h')
        for st, (mk, want) in STEPS.items():
            for sweep, (mod, _, _) in SWEEPS.items():
                for nm in METHODS:
                    k = I.get(mod, sweep)
                    one(S, '%s/%s with a %s step' % (sweep, nm, st), k, (PyNum(mk()), nm, single), want)
            for nm, (m, c) in METHODS.items():
                one(S, '%s with a %s step' % (c, st), I.get(m, c), (PyNum(mk()), single), want)
            one(S, 'OdeSolver with a %s step' % st, I.get('src.numerics.ode_solver', 'OdeSolver'), (PyNum(mk()), single), want)
        # the constructor default is admissible
        r = S.outcome(I.get('src.numerics.ode_solver', 'OdeSolver'))
        step_result(S, 'OdeSolver default', r, OKAY, '?')
    return Spec('steps/%s' % ('1D' if single else 'nD'), f)


def one(S, name, k, args, want):
    where = S.loc(k)
    if want == BAD:
        return S.raises(name, k, args, 'ValueError', 'a step that is not positive is refused')
    r = S.outcome(k, *args)
    if step_result(S, name, r, OKAY, where):
        S.eq(name + ': value', S.attr(r[1], 'dt'), lambda: S.I.num(args[0]), 'the given step', where, ())


def scen_models(S):
    from . import simw
    I = S.I
    X = simw.SimWorld(S, 'DW', False)
    k = I.get(simw.MOD, simw.CLS)
    where = S.loc(k)
    for nm in simw.MODELS:
        X = simw.SimWorld(S, nm, False)
        for text in cases(nm):
            del X.log[:]
            o = X.sim('Sim')
            r = setup_named(S, X, o, text)
            if r[0] == 'raise':
                S.violated(text, 'every letter case is accepted', where, 'raises %s' % r[1])
                continue
            if r[2]:
                S.undecided(text, 'every letter case is accepted', where, 'may raise')
                continue
            made = [e[0] for e in X.log if e[0].startswith('model:')]
            S.decide(text + ': model', made == ['model:' + nm], 'the model of that name, once', where, str(made))
    I.ctx['alien'] = 'other'
    for text in WRONG_MODELS + (StrV('other'),):
        o = X.sim('Sim')
        del X.log[:]
        r = setup_named(S, X, o, text)
        S.raises_r('unknown model %r' % (text,), r, 'ValueError', 'refused', where)
        made = [e[0] for e in X.log if e[0].startswith('model:')]
        S.decide('unknown model %r: nothing is made' % (text,), not made, 'no model is made', where, str(made))


def setup_named(S, X, o, text):
    d = S.I.obj(X.params).d
    d['Model'] = text
    return S.outcome(S.attr(o, 'setup'), X.params, None)


def scen_pairing(model):
    """Both sweeps of one simulation are given the same method, step and dimensionality."""
    def f(S):
        from . import simw
        for text in ('Euler', 'HEUN', 'rk2', 'RK4'):
            reset_keep = S.I.overrides
            X = simw.SimWorld(S, model, False, method=text)
            o = X.sim('Sim')
            X.setup(o)
            where = S.loc(S.attr(o, 'run'))
            S.meth(o, 'run')
            f, b = X.calls('FwdOde'), X.calls('BwdOde')
            S.decide('%s: sweeps' % text, len(f) == 1 and len(b) == 1, 'one forward and one backward sweep', where, '')
            if not (len(f) == 1 and len(b) == 1):
                continue
            for side, e in (('forward', f[0]), ('backward', b[0])):
                d = e[1]
                S.decide('%s: %s method' % (text, side), isinstance(d.get('ode_method'), str) and
                         d['ode_method'].lower() == text.lower(), 'the configured method', e[2], repr(d.get('ode_method')))
                S.eq('%s: %s step' % (text, side), d.get('dt', UnkV('step')), lambda: sym('dt'), 'the configured step', e[2], ())
                S.decide('%s: %s dimensionality' % (text, side), d.get('single_dim', True) is X.single, 'the dimensionality of the model',
                         e[2], repr(d.get('single_dim')))
    return Spec('pairing/%s' % model, f)


def scen_flags(S):
    """Each dynamical system declares its own dimensionality."""
    from .c21 import create
    for m, (mod, cls, single) in DYN.items():
        o = create(S, m)
        S.decide(m, S.attr(o, 'single_dim') is single, 'one dimension or several', S.loc(S.I.get(mod, cls)), repr(S.attr(o, 'single_dim')))


def main(tier):
    specs = [scen_method(w, s) for w in SWEEPS for s in (True, False)]
    specs += [scen_steps(True), scen_steps(False), Spec('models', scen_models), Spec('dimensionality', scen_flags)]
    specs += [scen_pairing(m) for m in ('DW', 'OU', 'L63', 'L96')]
    return run_check('C22', 'registries and step guards', specs, tier)
