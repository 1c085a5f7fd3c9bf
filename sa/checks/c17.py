"""C17: provenance of every configuration value from the parameter file to the component that it configures."""
from .simw import *
from . import mainw


def same(S, name, got, want, rule, where, shape=None):
    """`got` is the configuration value `want` (scalar, array, list, string, None) unchanged."""
    if isinstance(want, (Expr, Arr, Array)) and not isinstance(want, bool):
        if isinstance(got, (str, StrV)) or got is None or isinstance(got, (bool, BoolV)):
            return S.violated(name, rule, where, 'receives %r' % (got,))
        if isinstance(want, Expr):
            return S.eq(name, got, lambda: want, rule, where, ())
        w = S.arr(want)
        return S.eq(name, got, w.elem, rule, where, w.shape)
    if isinstance(want, Ref) and got != want and isinstance(got, (Arr, Ref)) and S.I.obj(want).kind == 'list':
        return S.eq(name, got, S.arr(want), rule, where)
    if isinstance(got, (UnkV, StrV)):
        return S.undecided(name, rule, where, repr(got))
    if isinstance(want, str) and isinstance(got, str):
        return S.decide(name, got == want, rule, where, 'receives %r' % got)
    return S.decide(name, got == want and type(got) == type(want), rule, where, 'receives %r, expected %r' % (got, want))


def one(S, W, name, rule, where):
    c = W.calls(name)
    if not c:
        S.violated('%s is used' % name, rule, where, 'never called')
        return None
    if len(c) > 1 and not all(str(x[1]) == str(c[0][1]) for x in c):
        S.undecided('%s once' % name, rule, where, '%d calls' % len(c))
        return None
    return c[0]


def args(S, W, name, want, where):
    c = one(S, W, name, 'configured component', where)
    if c is None:
        return
    d = c[1]
    for p, w in want.items():
        if p not in d:
            S.undecided('%s(%s)' % (name, p), 'reaches its consumer', c[2] or where, 'not passed')
            continue
        if isinstance(w, tuple) and len(w) == 2 and callable(w[0]):
            S.eq('%s(%s)' % (name, p), d[p], w[0], 'reaches its consumer unchanged', c[2] or where, w[1])
        else:
            same(S, '%s(%s)' % (name, p), d[p], w, 'reaches its consumer unchanged', c[2] or where)


def scen(model, data, method, operator, prior, noise, seed):
    def run(S):
        kw = {}
        I = S.I
        op = {'none': None, 'mask': 'mask'}[operator]
        W = SimWorld(S, model, data, None, prior, noise, E(0) if seed == 'zero' else None, method)
        if op:
            W.raw['operator'] = I.new_list([ZERO, ONE])
            I.obj(I.obj(W.params).d['Observations']).d['operator'] = W.raw['operator']
        raw = W.raw
        mu_raw, tau_raw = raw['mu0'], raw['tau0']
        if isinstance(mu_raw, Ref):
            mu_raw, tau_raw = (Array.make((W.D,), lambda k, n=n: el(n, (k,))) for n in ('mu0', 'tau0'))
        o = W.sim()
        W.setup(o)
        where = S.loc(S.attr(o, 'setup'))
        S.meth(o, 'run')
        wr = S.loc(S.attr(o, 'run'))
        D, single = W.D, W.single
        up = model.upper()
        ctors = [e[0] for e in W.log if e[0].startswith('model:')]
        S.decide('model class', set(ctors) == {'model:' + up}, 'the configured model is built', where, str(ctors))
        args(S, W, 'model:' + up, {'sigma': raw['sys'], 'theta': raw['theta'], 'r_seed': raw['seed']}, where)
        args(S, W, 'make_trajectory', {'t0': raw['t0'], 'tf': raw['tf'], 'dt': raw['dt']}, where)
        if data:
            S.decide('observations', not W.calls('collect_obs') or None, 'given observations are used', where,
                     'observations are simulated')
            noise_w = (lambda: sym('noise_obs'), ()) if single else \
                ((lambda i, j: delta(i, j) * (sym('noise_obs') if noise == 'scalar' else el('noise_obs', (i,)))), (D, D))
            ot, oy = W.data
        else:
            args(S, W, 'collect_obs', {'n_obs': raw['density'], 'rn': raw['obs'], 'h_mask': raw['operator']}, where)
            noise_w = (lambda: sym('sim_noise'), ()) if single else (lambda i, j: el('sim_noise', (i, j)), (D, D))
            M = W.M
            ot, oy = I.arr('obs_t', (M,), dtype='int'), I.arr('sim_y', (M,) + W.v1[1:])
        lik = {'values': oy, 'times': ot, 'noise': noise_w, 'operator': raw['operator'], 'single_dim': single}
        args(S, W, 'GaussianLikelihood', lik, wr)
        for c in ('FwdOde', 'BwdOde'):
            args(S, W, c, {'dt': raw['dt'], 'ode_method': method, 'single_dim': single}, wr)
        if single:
            pri = {'mu0': raw['mu0'], 'tau0': raw['tau0'], 'single_dim': True}
        else:
            el_ = lambda v, *i: v if isinstance(v, Expr) else v.elem(*i[:v.ndim])
            pri = {'mu0': (lambda i: el_(mu_raw, i), (D,)), 'single_dim': False,
                   'tau0': (lambda i, j: delta(i, j) * el_(tau_raw, i, j), (D, D))}
        args(S, W, 'PriorKL0', pri, wr)
        vg = one(S, W, 'VarGP', 'one posterior', wr)
        if vg is None:
            return
        d = vg[1]
        objs = {'model': W.model, 'fwd_ode': 'FwdOde object', 'bwd_ode': 'BwdOde object',
                'likelihood': 'GaussianLikelihood object', 'kl0': 'PriorKL0 object'}
        for p, w in objs.items():
            v = d.get(p)
            if isinstance(w, str):
                okv = isinstance(v, Ref) and I.obj(v).kind == 'stub' and I.obj(v).name == w
            else:
                okv = v == w
            S.decide('VarGP(%s)' % p, okv or (None if isinstance(v, UnkV) else False), 'reaches its consumer', vg[2],
                     repr(v))
        same(S, 'VarGP(obs_t)', d.get('obs_t'), ot, 'the observations of the likelihood', vg[2])
        same(S, 'VarGP(obs_y)', d.get('obs_y'), oy, 'the observations of the likelihood', vg[2])
    nm = '%s/%s/%s/operator %s/prior %s/noise %s%s' % (model, 'given data' if data else 'simulated data', method,
                                                       operator, prior, noise, '/seed zero' if seed == 'zero' else '')
    one_d = MODELS[model.upper()][2]
    return Spec(nm, run, [{'N': 3, 'M': 2}] if one_d else [{'N': 3, 'D': 2, 'M': 2}], [{'N': 3, 'D': 2, 'M': 2}])


FILES = [('model %s' % m, {'Model': m, 'Ode-method': o}) for m, o in (('DW', 'Euler'), ('OU', 'heun'), ('L63', 'RK2'), ('L96', 'rk4'))]
FALSY = [('seed 0', {'Random-Seed': PyNum(ZERO)}), ('no seed', {'Random-Seed': None}), ('no name', {'Output_Name': None}),
         ('no name, no seed', {'Output_Name': None, 'Random-Seed': None}), ('a key more', {'Comment': None})]


def scen_required(S):
    """Every top-level key whose absence stops a simulation is refused by the program before anything runs."""
    I = S.I
    ok_missing = []
    for key in mainw.KEYS:
        reset_all()
        T = Scenario(S.name, S.mode, S.fixed, S.tier)
        W = SimWorld(T, 'DW', False)
        T.I.obj(W.params).d.pop(key)
        o = W.sim()
        T.I.key_log = []
        r = T.outcome(T.attr(o, 'setup'), W.params, None)
        used = r[0] == 'raise' or any(d == W.params and k == key for d, k in T.I.key_log)
        if key == 'Output_Name':
            used = True
        reset_all()
        T = Scenario(S.name, S.mode, S.fixed, S.tier)
        M = mainw.MainWorld(T, {'params': 'p.json'})
        T.I.obj(M.params).d.pop(key)
        try:
            f = T.I.get(mainw.SCRIPT, 'validate_input_parameters_file')
        except Undecided:
            f = None
        where = 'vgpa_main.py'
        name = 'missing %s' % key
        if f is not None:
            where = T.loc(f)
            r = T.outcome(f, 'p.json')
            if not used:
                S.proved(name, 'a setting that nothing reads need not be checked', where)
                continue
            tmp = len(T.obs)
            T.raises_r(name, r, 'ValueError', 'refused with ValueError', where)
            S.obs += T.obs[tmp:]
            for what, vals in FILES:
                T = Scenario(S.name, S.mode, S.fixed, S.tier)
                M = mainw.MainWorld(T, {'params': 'p.json'})
                T.I.obj(M.params).d.update(vals)
                T.I.obj(M.params).d.pop(key)
                tmp = len(T.obs)
                T.raises_r('%s, %s' % (name, what), T.outcome(T.I.get(mainw.SCRIPT, 'validate_input_parameters_file'), 'p.json'),
                           'ValueError', 'refused with ValueError', where)
                S.obs += T.obs[tmp:]
        else:
            outs = M.run()
            ran = [e for o in outs for e in o[2] if e[0] == 'sim' and e[1] != 'new']
            S.decide(name, None if not ran else False, 'refused before anything runs', where, str(ran)[:100])
    reset_all()
    T = Scenario(S.name, S.mode, S.fixed, S.tier)
    M = mainw.MainWorld(T, {'params': 'p.json'})
    f = T.I.get(mainw.SCRIPT, 'validate_input_parameters_file')
    r = T.outcome(f, 'p.json')
    S.decide('complete file', r[0] == 'ok' and (r[1] == M.params or None), 'a complete file is accepted and returned',
             T.loc(f), str(r[1])[:200])
    for what, vals in FILES + FALSY:
        reset_all()
        T = Scenario(S.name, S.mode, S.fixed, S.tier)
        M = mainw.MainWorld(T, {'params': 'p.json'})
        d = T.I.obj(M.params).d
        d.update(vals)
        before = dict(d)
        f = T.I.get(mainw.SCRIPT, 'validate_input_parameters_file')
        r = T.outcome(f, 'p.json')
        name = 'complete file, %s' % what
        if r[0] != 'ok':
            S.violated(name, 'a complete file is accepted', T.loc(f), 'raises %s at %s' % (r[1], r[2]))
        elif r[2]:
            S.undecided(name, 'a complete file is accepted', T.loc(f), 'raises %s under a condition' % r[2][0][0].cls)
        elif r[1] == M.params:
            S.decide(name, T.I.obj(M.params).d == before or None, 'a complete file is accepted and returned unchanged', T.loc(f),
                     str(T.I.obj(M.params).d)[:200])
        else:
            S.undecided(name, 'a complete file is accepted and returned', T.loc(f), str(r[1])[:200])


def scen_program(data):
    """The program hands the parameters and the two columns of the data file to the simulation."""
    def scen(S):
        W = mainw.MainWorld(S, {'params': 'p.json', 'data': 'd.csv' if data else None})
        outs = W.run()
        ok = [o for o in outs if mainw.status(o) == 0]
        if not ok:
            return S.undecided('program', 'runs', 'vgpa_main.py', 'see C18')
        st = [e for e in ok[0][2] if e[0] == 'sim' and e[1] == 'setup']
        if not st:
            return S.undecided('program', 'sets up the simulation', 'vgpa_main.py', 'see C18')
        d = st[0][2]
        where = 'vgpa_main.py'
        S.decide('parameters', d.get('params') == W.params or (None if isinstance(d.get('params'), UnkV) else False),
                 'the validated parameters reach the simulation', where, repr(d.get('params')))
        v = d.get('data')
        if not data:
            return S.decide('no data', v is None or (None if isinstance(v, UnkV) else False),
                            'observations are simulated', where, repr(v))
        rc = [e for e in ok[0][2] if e[0] == 'read_csv']
        cols = None
        if isinstance(v, tuple) and len(v) == 2 and all(isinstance(x, Opq) for x in v):
            cols = (v[0].path, v[1].path)
        S.decide('data columns', cols == ('csv[0]', 'csv[1]') or (None if cols is None and v is not None else False),
                 'times first, then values', where, repr(v))
    return Spec('program/%s' % ('data' if data else 'no data'), scen)


def main(tier):
    specs = []
    for model in MODELS:
        one_d = MODELS[model][2]
        for data in (False, True):
            for method in (('Euler', 'heun') if tier == 'quick' else ('Euler', 'heun', 'rk2', 'RK4')):
                for op in ('none',) if one_d else ('none', 'mask'):
                    for prior, noise in ((('scalar', 'scalar'),) if one_d else (('scalar', 'scalar'),
                                                                               ('vector', 'vector'))):
                        specs.append(scen(model, data, method, op, prior, noise, 'zero' if method == 'heun' else ''))
    specs.append(scen('l63', False, 'EULER', 'none', 'scalar', 'scalar', ''))
    specs.append(scen('dw', True, 'EULER', 'none', 'scalar', 'scalar', ''))
    specs.append(Spec('required keys', scen_required))
    specs += [scen_program(d) for d in (False, True)]
    return run_check('C17', 'configuration plumbing', specs, tier)
