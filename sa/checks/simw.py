"""A simulation whose components are recording stubs: constructor arguments, call order, results as atoms."""
from .common import *

MOD, CLS = 'src.var_bayes.simulation', 'Simulation'
MODELS = {'DW': ('src.dynamics.double_well', 'DoubleWell', True), 'OU': ('src.dynamics.ornstein_uhlenbeck',
          'OrnsteinUhlenbeck', True), 'L63': ('src.dynamics.lorenz_63', 'Lorenz63', False),
          'L96': ('src.dynamics.lorenz_96', 'Lorenz96', False)}
PARTS = {'FwdOde': ('src.var_bayes.fwd_ode', ('dt', 'ode_method', 'single_dim')),
         'BwdOde': ('src.var_bayes.bwd_ode', ('dt', 'ode_method', 'single_dim')),
         'GaussianLikelihood': ('src.var_bayes.gaussian_like', ('values', 'times', 'noise', 'operator', 'single_dim')),
         'PriorKL0': ('src.var_bayes.prior_kl0', ('mu0', 'tau0', 'single_dim')),
         'VarGP': ('src.var_bayes.variational', ('model', 'm0', 's0', 'fwd_ode', 'bwd_ode', 'likelihood', 'kl0',
                                                 'obs_y', 'obs_t')),
         'SCG': ('src.numerics.optim_scg', ('f', 'df', 'options'))}


class SimWorld(object):
    def __init__(self, S, model='DW', data=False, operator=None, prior='scalar', obs_noise='scalar', seed=None,
                 method='Euler', over=None, real=False):
        self.S, self.I = S, S.I
        I = S.I
        self.model_name = model
        self.single = MODELS[model.upper()][2] if model.upper() in MODELS else True
        single = self.single
        self.log = []                                  # (event name, dict of arguments, where)
        self.state = None                              # key of the last evaluated point
        N = self.N = S.dim('N', 3)
        lists = 'vector' in (prior, obs_noise) and not single
        if lists:                    # lists of numbers, as a parameter file gives them
            S.fixed.setdefault('D', 3)
            S.dims['D'] = S.fixed['D']
        D = self.D = ONE if single else S.dim('D', 2)
        M = self.M = S.dim('M', 1)
        self.v1, self.v2 = ((N,), (N,)) if single else ((N, D), (N, D, D))
        self.L = N * D * D + N * D
        alg.EL_RANGE['obs_t'] = (ZERO, N)
        alg.EL_DISTINCT.add('obs_t')
        S.given['#obs_t'] = E(M)
        self.atoms = {}
        POSITIVE.add('dt')
        POSITIVE.add('noise_sys')
        POSITIVE.add('noise_obs')
        POSITIVE.add('tau0')
        if lists:
            nl = lambda nm: I.new_list([el(nm, (E(k),)) for k in range(S.fixed['D'])])
        at = lambda nm, rank: nl(nm) if rank == 1 and lists else sym(nm) if rank == 0 else (I.arr(nm, (D,)) if rank == 1 else I.arr(nm, (D, D)))
        rk = {'scalar': 0, 'vector': 1, 'matrix': 2}
        self.raw = raw = {
            'theta': sym('theta') if single else I.new_list([el('theta', (E(k),)) for k in range(3)]) if model.upper() == 'L63' else
            sym('theta'),
            'sys': at('noise_sys', 1 if lists else 0), 'obs': at('noise_obs', rk[obs_noise]),
            't0': sym('t0'), 'tf': sym('tf'), 'dt': sym('dt'), 'seed': seed if seed is not None else sym('int:seed'),
            'density': sym('int:density'), 'operator': operator,
            'mu0': at('mu0', rk[prior]), 'tau0': at('tau0', 2 if prior == 'matrix' else rk[prior])}
        if over:
            raw.update(over)
        nd = I.new_dict
        self.params = nd({'Output_Name': 'run', 'Model': model, 'Ode-method': method, 'Random-Seed': raw['seed'],
                          'Time-window': nd({'t0': raw['t0'], 'tf': raw['tf'], 'dt': raw['dt']}),
                          'Noise': nd({'sys': raw['sys'], 'obs': raw['obs']}),
                          'Observations': nd({'density': raw['density'], 'operator': raw['operator']}),
                          'Drift': nd({'theta': raw['theta']}), 'Prior': nd({'tau0': raw['tau0'], 'mu0': raw['mu0']})})
        self.data = None
        if data:
            alg.EL_RANGE['given_t'] = (ZERO, N)
            alg.EL_DISTINCT.add('given_t')
            S.given['#given_t'] = E(M)
            self.data = (I.arr('given_t', (M,), dtype='int'), I.arr('given_y', (M,) + self.v1[1:]))
        for nm, (mod, cls, sg) in MODELS.items() if not real else ():
            I.overrides[mod + '.' + cls] = self.model_ctor(nm, sg)
        for cls, (mod, params) in PARTS.items():
            I.overrides[mod + '.' + cls] = self.part_ctor(cls, params)
        if not real:
            I.overrides['time.perf_counter'] = lambda it, a, k, n: unk('clock')

    # ---- recording
    def rec(self, name, params, args, kwargs, node):
        self.I.inject(name, node)
        d = dict(zip(params, args))
        d.update(kwargs)
        if len(args) > len(params):
            d['*'] = args[len(params):]
        self.log.append((name, d, self.I.where(node), self.I.st.pc))
        return d

    def calls(self, name):
        return [e for e in self.log if e[0] == name]

    def model_ctor(self, nm, single):
        def ctor(it, args, kwargs, node):
            self.rec('model:' + nm, ('sigma', 'theta', 'r_seed'), args, kwargs, node)
            POSITIVE.add('sigma_m')
            rng = it.stub('rng', {}, {'standard_normal': self.draw, 'normal': self.draw})
            attrs = {'single_dim': single, 'time_step': sym('grid_dt'), 'time_window': it.arr('window', (self.N,)),
                     'sample_path': it.arr('path', self.v1), 'rng': rng,
                     'sigma': sym('sigma_m') if single else it.arr('sigma_m', (self.D, self.D)),
                     'inverse_sigma': sym('isigma_m') if single else it.arr('isigma_m', (self.D, self.D))}
            self.model = it.stub('model', attrs, {'make_trajectory': self.m_traj, 'collect_obs': self.m_obs})
            return self.model
        return ctor

    def draw(self, it, args, kwargs, node):
        self.rec('draw', ('size',), args, kwargs, node)
        k = len(self.calls('draw'))
        size = args[0] if args else kwargs.get('size')
        if size is None:
            return sym('z%d' % k)
        sh = tuple(it.num(x) for x in size) if isinstance(size, tuple) else (it.num(size),)
        return it.arr('z%d' % k, sh)

    def m_traj(self, it, args, kwargs, node):
        self.rec('make_trajectory', ('t0', 'tf', 'dt'), args, kwargs, node)
        return None

    def m_obs(self, it, args, kwargs, node):
        self.rec('collect_obs', ('n_obs', 'rn', 'h_mask'), args, kwargs, node)
        M = self.M
        nz = sym('sim_noise') if self.single else it.arr('sim_noise', (self.D, self.D))
        return it.arr('obs_t', (M,), dtype='int'), it.arr('sim_y', (M,) + self.v1[1:]), nz

    def part_ctor(self, cls, params):
        def ctor(it, args, kwargs, node):
            d = self.rec(cls, params, args, kwargs, node)
            if cls == 'VarGP':
                return self.vgp(it, d)
            if cls == 'SCG':
                return self.scg(it, d)
            return it.stub(cls + ' object', {}, {'gradients': lambda i, a, k, n: UnkV('gradients')},
                           lambda i, a, k, n: UnkV('result of ' + cls))
        return ctor

    # ---- variational object
    def key(self, it, x, node):
        A = it.read(it.np.to_array(it, x, node))
        for nm in ('x_init', 'x_trial', 'x_opt'):
            B = it.arr(nm, (self.L,))
            if A.ndim == 1 and (A.shape[0] - self.L).is_zero():
                v = fresh(ZERO, self.L, 'p')
                if zero_on(A.elem(ivar(v)) - el(nm, (ivar(v),)), [v])[0]:
                    return nm
        return 'other point'

    def vgp(self, it, d):
        def fe(i, a, k, n):
            i.inject('free_energy', n)
            self.state = self.key(i, a[0], n)
            self.log.append(('free_energy', {'x': self.state}, i.where(n), i.st.pc))
            return sym('F(%s)' % self.state)

        def gr(i, a, k, n):
            i.inject('gradient', n)
            ev = a[1] if len(a) > 1 else k.get('eval_fun', False)
            kx = self.key(i, a[0], n)
            if ev is True:
                self.state = kx
            self.log.append(('gradient', {'x': kx, 'eval_fun': ev}, i.where(n), i.st.pc))
            return i.arr('G(%s)' % kx, (self.L,))

        def init(i, a, k, n):
            i.inject('initialization', n)
            self.log.append(('initialization', {}, i.where(n), i.st.pc))
            return i.arr('x_init', (self.L,))

        def out(i, a, k, n):
            s = self.state
            self.log.append(('arg_out', {'state': s}, i.where(n), i.st.pc))
            r = {'m0': sym('m0_' + str(s)) if self.single else i.arr('m0_' + str(s), (self.D,)),
                 's0': sym('s0_' + str(s)) if self.single else i.arr('s0_' + str(s), (self.D, self.D))}
            for key, sh in (('mt', self.v1), ('st', self.v2), ('Efx', self.v1), ('Edf', self.v2), ('lamt', self.v1),
                            ('psit', self.v2)):
                r[key] = i.arr('%s(%s)' % (key, s), sh)
            return i.new_dict(r)
        p = PyFn('property', out)
        self.vg = it.stub('VarGP object', {'arg_out': p, 'output': p}, {'free_energy': fe, 'gradient': gr,
                                                                       'initialization': init})
        return self.vg

    def scg(self, it, d):
        """The optimiser: evaluates objective and gradient, its last trial point was rejected."""
        def opt(i, a, k, n):
            self.rec('optimise', ('x0',), a, k, n)
            self.x0_key = self.key(i, a[0], n) if a else None
            xt = i.arr('x_trial', (self.L,))
            xo = i.arr('x_opt', (self.L,))
            g = i.call(d['df'], [xo], {'eval_fun': True}, n)
            fo = i.call(d['f'], [xo], {}, n)
            ft = i.call(d['f'], [xt], {}, n)
            self.probe = (fo, g, ft)
            return (xo, fo)

        return it.stub('SCG object', {'statistics': UnkV('statistics')}, {}, opt)

    # ---- running
    def sim(self, name='run'):
        return self.S.make(MOD, CLS, name)

    def setup(self, o):
        return self.S.meth(o, 'setup', self.params, self.data)

    def output(self, o):
        out = self.S.attr(o, 'output')
        return self.I.obj(out) if isinstance(out, Ref) else None


def slots(S, W, out, where):
    N, D, sg = W.N, W.D, W.single
    A = lambda t, *i: el('x_opt', (t,)) if sg else el('x_opt', (t * D * D + i[0] * D + i[1],))
    B = lambda t, *i: el('x_opt', (N + t,)) if sg else el('x_opt', (N * D * D + t * D + i[0],))
    for key, f, sh in (('at', A, W.v2), ('bt', B, W.v1)):
        if key in out.d:
            S.eq(key, out.d[key], f, 'returned parameters in the layout of the parameter vector', where, sh)
        else:
            S.violated(key, 'reported', where, 'missing')


def scen_run(model, data, layout=False):
    def scen(S):
        W = SimWorld(S, model, data)
        o = W.sim()
        W.setup(o)
        S.meth(o, 'run')
        where = S.loc(S.attr(o, 'run'))
        I = S.I
        out = W.output(o)
        if out is None or out.kind != 'dict':
            return S.undecided('results', 'results of the run', where, 'no dictionary')
        pr = getattr(W, 'probe', None)
        if pr is None:
            return S.undecided('optimised', 'the optimiser runs', where, 'not seen')
        if layout:
            return slots(S, W, out, where)
        S.eq('objective', pr[0], lambda: sym('F(x_opt)'), 'the free energy is what is minimised', where, ())
        S.eq('gradient', pr[1], lambda p: el('G(x_opt)', (p,)), 'its gradient is what the optimiser gets', where, (W.L,))
        S.decide('start', W.x0_key == 'x_init' or (None if W.x0_key is None else False),
                 'the optimiser starts from the initial guess', where, 'starts from %s' % W.x0_key)
        if 'fx' in out.d:
            S.eq('minimum', out.d['fx'], lambda: sym('F(x_opt)'), 'value of the returned parameters', where, ())
        else:
            S.violated('minimum', 'reported', where, 'missing')
        slots(S, W, out, where)
        for key, sh in (('mt', W.v1), ('st', W.v2), ('Efx', W.v1), ('Edf', W.v2), ('lamt', W.v1), ('psit', W.v2)):
            if key not in out.d:
                S.violated(key, 'reported', where, 'missing')
                continue
            S.eq(key, out.d[key], lambda *i, key=key: el('%s(x_opt)' % key, i), 'belongs to the returned parameters',
                 where, sh)
        # the objects that are optimised are connected to each other
        v = W.calls('VarGP')
        S.decide('one variational object', len(v) == 1 or None, 'one posterior is optimised', where, '%d' % len(v))
    return Spec('%s/%s/%s' % ('reported parameters' if layout else 'run', model, 'given data' if data else 'simulated data'), scen,
                [{'N': 3}] if MODELS[model][2] else [{'N': 3, 'D': 2}], [{'N': 3, 'D': 2, 'M': 2}])


def run_specs(layout=False):
    return [scen_run(m, d, layout) for m in ('DW', 'L63') for d in (False, True)]
