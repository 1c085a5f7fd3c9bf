"""A variational object around recording stubs: every collaborator's call and result is an atom of its own."""
from .common import *

MOD, CLS = 'src.var_bayes.variational', 'VarGP'


class World(object):
    """Stub collaborators; `log` holds (name, {argument: content}, call number) in call order."""

    def __init__(self, S, single, N, D, M=None, overlay=None):
        self.S, self.single, self.N, self.D = S, single, N, D
        self.I = I = S.I
        self.log = []
        self.count = {}
        v1, v2 = ((N,), (N,)) if single else ((N, D), (N, D, D))
        self.v1, self.v2 = v1, v2
        self.p1, self.p2 = v1[1:], v2[1:]
        self.L = N * D * D + N * D
        M = M if M is not None else S.dim('M', 1)
        self.M = M
        alg.EL_RANGE['obs_t'] = (ZERO, N)
        alg.EL_DISTINCT.add('obs_t')
        S.given['#obs_t'] = E(M)
        self.obs_t = I.arr('obs_t', (M,), dtype='int')
        self.obs_y = I.arr('obs_y', (M,) + self.p1)
        POSITIVE.add('dt')
        if single:
            POSITIVE.add('sigma')
            self.m0, self.s0, self.sigma = sym('m0'), sym('s0'), sym('sigma')
            self.inv_sigma = sym('isig')
        else:
            for p in ('s0', 'sigma'):
                SYM_AXES[p] = (0, 1)
                val.SPD[p] = (0, 1)
            self.m0, self.s0, self.sigma = I.arr('m0', (D,)), I.arr('s0', (D, D)), I.arr('sigma', (D, D))
            SYM_AXES['isig'] = (0, 1)
            self.inv_sigma = I.arr('isig', (D, D))
        self.grid = grid(S, N, sym('dt'))
        attrs = {'single_dim': bool(single), 'time_step': sym('dt'), 'time_window': self.grid,
                 'sample_path': I.arr('path', v1), 'sigma': self.sigma, 'inverse_sigma': self.inv_sigma}
        th = (2,) if not single else ()
        self.model = I.stub('model', attrs, {'energy': self.call('energy', ('linear_a', 'offset_b', 'm', 's', 'obs_t'),
                                                                 self.r_energy)})
        self.fwd = I.stub('fwd', {}, {}, self.call('fwd', ('at', 'bt', 'm0', 's0', 'sigma'), self.r_fwd))
        self.bwd = I.stub('bwd', {}, {}, self.call('bwd', ('at', 'dEsde_dm', 'dEsde_ds', 'dEobs_dm', 'dEobs_ds'),
                                                   self.r_bwd))
        self.lik = I.stub('lik', {}, {'gradients': self.call('lik.gradients', ('m', 's'), self.r_likg)},
                          self.call('lik', ('m', 's'), self.r_lik))
        self.kl0 = I.stub('kl0', {}, {'gradients': self.call('kl0.gradients', ('m0', 's0', 'lam0', 'psi0'),
                                                             lambda k: UnkV('kl0 gradients'))},
                          self.call('kl0', ('m0', 's0'), lambda k: sym('E0#%d' % k)))

    # ---- results of the k-th call
    def a(self, name, k, shape):
        return self.I.arr('%s#%d' % (name, k), shape)

    def r_fwd(self, k):
        if not self.single:
            SYM_AXES['st#%d' % k] = (1, 2)
        return self.a('mt', k, self.v1), self.a('st', k, self.v2)

    def r_bwd(self, k):
        return self.a('lam', k, self.v1), self.a('psi', k, self.v2)

    def r_lik(self, k):
        return sym('Eobs#%d' % k)

    def r_likg(self, k):
        return self.a('gom', k, self.v1), self.a('gos', k, self.v2), self.a('gor', k, self.p2)

    def r_energy(self, k):
        return (sym('Esde#%d' % k), (self.a('Efx', k, self.v1), self.a('Edf', k, self.v2)),
                (self.a('gem', k, self.v1), self.a('ges', k, self.v2), UnkV('dEsde_dth'), UnkV('dEsde_dSig')))

    def call(self, name, params, result):
        def h(it, args, kwargs, node):
            d = dict(zip(params, args))
            d.update(kwargs)
            d = {p: it.read(it.np.to_array(it, v, node)) if isinstance(v, (Arr, Ref, tuple, Expr)) else v
                 for p, v in d.items()}
            # a deterministic function: the same arguments give the same result
            key = str(sorted((p, v.lam().s if isinstance(v, Array) else str(v)) for p, v in d.items()))
            seen = self.count.setdefault(name, [])
            if key not in seen:
                seen.append(key)
            k = seen.index(key) + 1
            self.log.append((name, d, k, it.st.pc, it.where(node)))
            return result(k)
        return h

    def make(self):
        return self.S.make(MOD, CLS, self.model, self.m0, self.s0, self.fwd, self.bwd, self.lik, self.kl0, self.obs_y,
                           self.obs_t)

    # ---- reference layout
    def A(self, x, t, *i):
        return el(x, (t,)) if self.single else el(x, (t * self.D * self.D + i[0] * self.D + i[1],))

    def B(self, x, t, *i):
        o = self.N * self.D * self.D
        return el(x, (o + t,)) if self.single else el(x, (o + t * self.D + i[0],))
