"""C12: everything random comes from one generator created from the seed; nothing else can influence a run."""
from .simw import *
from . import simw, nondet, c16
from .c13 import summarise_inverse
from .vg import *
from .. import core

REPORTED = ('at', 'bt', 'fx', 'mt', 'st', 'Efx', 'Edf', 'lamt', 'psit', 'm0', 's0')
RULE = 'results depend on the parameters and the seeded generator only'


# ------------------------------------------------------------------------------------------------ sources
def install(I):
    """Nondeterministic library functions return values that are marked."""
    count = [0]

    def hook(it, name, args, kwargs, node):
        what = nondet.source(name)
        if what is None:
            return None
        count[0] += 1
        it.st.events.append(('source', name, it.where(node)))
        nm = '!%s#%d' % (name.replace('builtins.', ''), count[0])
        if name.startswith('numpy.random.'):
            last = name.split('.')[-1]
            if last in ('seed', 'set_state', 'shuffle'):
                return (None,)
            pos = {'standard_normal': 0, 'random': 0, 'random_sample': 0, 'normal': 2, 'uniform': 2, 'randint': 2}.get(last)
            if last in ('rand', 'randn'):
                size = tuple(args) if args else None
            elif pos is None and 'size' not in kwargs:
                return (UnkV(nm),)
            else:
                size = kwargs.get('size', args[pos] if pos is not None and len(args) > pos else None)
            lv = tuple(ivar(v) for v, _ in it.loopvars)
            if size is None:
                return (el(nm, lv),) if lv else (sym(nm),)
            sh = tuple(it.num(x) for x in (size if isinstance(size, tuple) else (size,)))
            return (it.new_arr(Array.make(sh, lambda *i: el(nm, lv + tuple(i)))),)
        if name.startswith(('time.', 'random.')) or name in ('builtins.id', 'builtins.hash', 'os.getpid', 'os.cpu_count'):
            return (sym(nm if name.startswith(('time.', 'random.')) and not name.endswith('_ns') else 'int:' + nm),)
        return (UnkV(nm),)
    I.ctx['source'] = hook


def atoms_below(S, e):
    """All factors of an expression, also those of the recurrences that it refers to."""
    from .c14 import deep_atoms
    out, todo, seen = [], [e], set()
    while todo:
        for f in deep_atoms(todo.pop()):
            out.append(f)
            if f.kind == 'el' and f.name in S.I.DEFS and f.name not in seen:
                seen.add(f.name)
                todo.append(S.I.DEFS[f.name][1])
    return out


def marked(f):
    return f.kind in ('el', 'sym') and (f.name.startswith(('!', 'int:!', '$uninit')) or f.name == 'int:$id')


def pretty(nm):
    nm = nm.replace('int:', '')
    return 'uninitialised memory' if nm.startswith('$uninit') else 'identity' if nm == '$id' else nm[1:].split('#')[0]


def seed_of(I, src):
    """('seed', value) or ('fresh',) or ('unknown',)."""
    for _ in range(6):
        if src is None:
            return ('fresh',)
        if isinstance(src, Expr):
            return ('seed', src)
        if isinstance(src, Ref) and I.obj(src).kind == 'stub':
            a = I.obj(src).attrs
            k = [x for x in ('entropy', 'src') if x in a]
            if k:
                src = a[k[0]]
                continue
        if isinstance(src, Ref) and I.obj(src).kind == 'list' and len(I.obj(src).items) == 1:
            src = I.obj(src).items[0]
            continue
        if isinstance(src, tuple) and len(src) == 1:
            src = src[0]
            continue
        return ('unknown',)
    return ('unknown',)


def from_seed(S, name, ref, seed, where):
    """The generator is created from the seed (None: from fresh entropy)."""
    I = S.I
    rule = 'one generator created from the seed' if seed is not None else 'a fresh generator without a seed'
    if not (isinstance(ref, Ref) and I.obj(ref).kind == 'stub'):
        return S.undecided(name, rule, where, repr(ref))
    k = seed_of(I, ref)
    if k[0] == 'unknown':
        return S.undecided(name, rule, where, 'unknown origin')
    if seed is None:
        return S.decide(name, k[0] == 'fresh', rule, where, 'created from %s' % (k[1] if len(k) > 1 else ''))
    if k[0] == 'fresh':
        return S.violated(name, rule, where, 'created without the seed')
    if k[1] == seed:
        return S.proved(name, rule, where)
    if marks(S, k[1]):
        return S.violated(name, rule, where, 'created from %s' % pretty(marks(S, k[1])[0]))
    if not (set(f.name for f in atoms_below(S, k[1]) if f.kind in ('sym', 'el'))
            & set(f.name for f in atoms_below(S, seed) if f.kind in ('sym', 'el'))) and atoms_below(S, seed):
        return S.violated(name, rule, where, 'created from %s' % k[1])
    S.eqx(name, k[1], seed, [], rule, where) if seed.const() is not None and k[1].const() is not None else \
        S.undecided(name, rule, where, 'created from %s' % k[1])


def marks(S, e):
    return sorted({f.name for f in atoms_below(S, e) if marked(f)})


def judge(S, name, v, gens, where):
    """A result depends on nothing but parameters and the generators in `gens`."""
    I = S.I
    if isinstance(v, (Arr, Array)):
        A = I.read(v) if isinstance(v, Arr) else v
        vs = [fresh(ZERO, d) for d in A.shape]
        es = [('', A.elem(*map(ivar, vs)), vs)] + [(' size', d, []) for d in A.shape if d.const() is None]
    elif isinstance(v, Expr):
        es = [('', v, [])]
    elif isinstance(v, UnkV):
        return S.undecided(name, RULE, where, repr(v))
    else:
        return
    for t, e, vs in es:
        direct = sorted({f.name for f in deep(e) if marked(f)})
        if direct:
            # replacing the marked values changes the result?
            e2 = replace_atoms(e, lambda f: el(f.name + "'", f.args) if f.kind == 'el' and marked(f) else
                               sym(f.name + "'") if f.kind == 'sym' and marked(f) else None)
            try:
                same = zero_on(e - e2, vs)[0]
            except AlgLimit:
                same = False
            if not same:
                r, w = val.separate(e, e2, vs, S.val_dims or [S.dims], I.DEFS, S.given)
                if r == 'differ':
                    S.violated(name + t, RULE, where, 'depends on %s' % ', '.join(map(pretty, direct)))
                    continue
                if r != 'equal':
                    S.undecided(name + t, RULE, where, 'may depend on %s (%s)' % (', '.join(map(pretty, direct)), w))
                    continue
        below = [m for m in marks(S, e) if m not in direct or m.startswith('$uninit')]
        hard = [m for m in below if not m.startswith('$uninit')]
        if hard:
            S.violated(name + t, RULE, where, 'depends on %s' % ', '.join(map(pretty, hard)))
            continue
        if below:
            r, w = uninit_matters(S, e, vs)
            if r == 'differ':
                S.violated(name + t, RULE, where, 'depends on uninitialised memory')
                continue
            if r != 'equal':
                S.undecided(name + t, RULE, where, 'may depend on uninitialised memory (%s)' % (w,))
                continue
        if has_unknown(e):
            S.undecided(name + t, RULE, where, 'unknown construct')
            continue
        drawn = sorted({f.name for f in atoms_below(S, e) if f.kind == 'el' and f.name.startswith('~')})
        log = {d[0]: d for d in I.draw_log}
        bad = [n for n in drawn if n in log and not (isinstance(log[n][2], Ref) and log[n][2].oid in gens)]
        if bad:
            S.violated(name + t, 'random numbers come from the generator of the model', log[bad[0]][4],
                       'drawn from another generator at %s' % log[bad[0]][4])
            continue
        S.proved(name + t, RULE, where, 'provenance', '%d draws' % len(drawn))


def uninit_matters(S, e, vs):
    """Evaluate a result with two contents of the memory that was not set."""
    # what is computed without it takes any value
    defs = {k: d for k, d in S.I.DEFS.items() if any(m.startswith('$uninit') for m in marks(S, d[1]))}

    def prime(x):
        return replace_atoms(x, lambda f: el(f.name + "'", f.args) if f.kind == 'el' and (
            f.name.startswith('$uninit') or f.name in defs) else
            sym(f.name + "'") if f.kind == 'sym' and f.name.startswith('$uninit') else None)
    for k, (pv, b) in list(defs.items()):
        defs[k + "'"] = (pv, prime(b))
    return val.separate(e, prime(e), vs, S.val_dims or [S.dims], defs, S.given)


def deep(e):
    from .c14 import deep_atoms
    return deep_atoms(e)


# ------------------------------------------------------------------------------------------------ whole runs
def results(S, W, o, log0):
    """(name, value) of everything that the run computes or hands on."""
    I = S.I
    out = []
    md = S.attr(o, 'm_data')
    if isinstance(md, Ref) and I.obj(md).kind == 'dict':
        out += [('m_data[%r]' % k, v) for k, v in I.obj(md).d.items()]
    rs = S.attr(o, 'output')
    if isinstance(rs, Ref) and I.obj(rs).kind == 'dict':
        out += [('output[%r]' % k, v) for k, v in I.obj(rs).d.items() if k in REPORTED]
    mo = I.obj(md).d.get('model') if isinstance(md, Ref) and I.obj(md).kind == 'dict' else None
    if mo is not None:
        out += [('model.%s' % k, S.attr(mo, k)) for k in ('sample_path', 'time_window', 'sigma', 'inverse_sigma', 'theta')
                if has(S, mo, k)]
    for nm, d, w, pc in W.log[log0:]:
        out += [('%s(%s)' % (nm, k), v) for k, v in d.items()]
    flat = []
    for n, v in out:
        flat += c16.leaves(S, v, n)
    return mo, flat


def has(S, o, name):
    I = S.I
    try:
        I.getattr(o, name, None)
        return True
    except (AbsRaise, Undecided):
        return False


def world(S, model, data, seed, noise):
    """A run of the real model between recording stand-ins of the other components."""
    I = S.I
    for p in ('noise_sys', 'noise_obs', 'tau0', 'theta', 'th'):
        POSITIVE.add(p)
    N = S.dim('N', 4)
    n = E(2)
    rate = S.dim('r', 2)
    t0, dt = sym('t0'), power(rate, -1)
    over = {'t0': PyNum(t0), 'tf': PyNum(t0 + (N - 1) * dt), 'dt': PyNum(dt), 'density': n}
    summarise_inverse(S)
    I.ctx['pd'] = lambda I, lam: 'ok'
    if model in ('L63', 'L96'):
        S.fixed['D'] = S.dims['D'] = 3 if model == 'L63' else 40
    W = SimWorld(S, model, data, None, 'scalar', 'scalar', seed, 'Euler', over, real=True)
    if seed is None:
        I.obj(W.params).d['Random-Seed'] = None
        W.raw['seed'] = None
    install(I)
    return W


def whole(model, data, seed, noise='scalar', same=False):
    def run(S):
        I = S.I
        sd = {'zero': E(0), 'number': E(42), 'any': sym('int:seed'), 'none': None}[seed]
        W = world(S, model, data, sd, noise)
        F = c16.Frame(S, {'params': W.params, 'data': W.data})
        runs = []
        for k in ('first run', 'second run'):
            I.ctx['set_reversed'] = k != 'first run'
            d0, l0 = len(I.draw_log), len(W.log)
            if k == 'first run' or not same:
                o = W.sim()
            W.setup(o)
            S.meth(o, 'run')
            where = S.loc(S.attr(o, 'setup'))
            mo, flat = results(S, W, o, l0)
            if mo is None:
                return S.undecided('model', RULE, where, 'no model')
            rng = S.attr(mo, 'rng')
            from_seed(S, '%s: generator' % k, rng, sd, where)
            gens = {rng.oid} if isinstance(rng, Ref) else set()
            for n, v in flat:
                judge(S, '%s: %s' % (k, n), v, gens, where)
            log = I.draw_log[d0:]
            runs.append((rng, log, flat))
        (g1, l1, f1), (g2, l2, f2) = runs
        S.decide('own generator', None if not isinstance(g1, Ref) or not isinstance(g2, Ref) else g1.oid != g2.oid,
                 'every run starts with a new generator', where, 'the generator of an earlier run is continued')
        s1 = [(d[1], tuple(d[3])) for d in l1]
        s2 = [(d[1], tuple(d[3])) for d in l2]
        if s1 != s2:
            S.violated('same draws', 'a repeated run draws the same numbers', where, '%s, then %s' % (s1, s2)) if \
                len(s1) != len(s2) or [a for a, _ in s1] != [a for a, _ in s2] else \
                S.undecided('same draws', 'a repeated run draws the same numbers', where, '%s, then %s' % (s1, s2))
        else:
            S.proved('same draws', 'a repeated run draws the same numbers', where, 'provenance', str(s1))
            repeat(S, f1, f2, {b[0]: a[0] for a, b in zip(l1, l2)}, where)
        F.check('parameters', where)
    return Spec('run%s/%s/%s/seed %s' % (' twice with one object' if same else '', model,
                                         'given data' if data else 'simulated data', seed), run,
                [{'N': 8, 'r': 3}])


def repeat(S, f1, f2, draws, where):
    """The second run has the results of the first one, for the same draws."""
    I = S.I
    names = {}

    def ren(f):
        if f.kind == 'el' and f.name in draws:
            return el(draws[f.name], tuple(replace_atoms(x, ren) if isinstance(x, Expr) else x for x in f.args))
        if f.kind == 'el' and f.name in I.DEFS:
            return el(defn(f.name), tuple(replace_atoms(x, ren) if isinstance(x, Expr) else x for x in f.args))
        return None

    def defn(n):
        if n not in names:
            names[n] = n + "'"
            vs, b = I.DEFS[n]
            b = replace_atoms(b, ren)
            for k in sorted(old):
                if len(I.DEFS[k][0]) == len(vs):
                    w = I.DEFS[k][1]
                    x = subs(b, dict(zip(vs, map(ivar, I.DEFS[k][0]))))
                    x = replace_atoms(x, lambda f: el(k, f.args) if f.kind == 'el' and f.name == n + "'" else None)
                    if x == w:
                        names[n] = k
                        return k
            I.DEFS[n + "'"] = (vs, b)
        return names[n]
    old = {f.name for n, v in f1 for A in [S.arr(v) if isinstance(v, (Arr, Array)) else None] if A is not None
           for f in atoms_below(S, A.elem(*[ivar(fresh(ZERO, d)) for d in A.shape])) if f.kind == 'el' and f.name in I.DEFS}
    a, b = dict(f1), dict(f2)
    bad = []
    count = 0
    for n in a:
        if n not in b:
            bad.append(n)
            continue
        p, q = a[n], b[n]
        if isinstance(p, (Arr, Array)) and isinstance(q, (Arr, Array)):
            p, q = S.arr(p), S.arr(q)
            if p.ndim != q.ndim:
                S.violated('again: ' + n, 'a repeated run gives the same result', where, 'shapes %s and %s' % (p.shape, q.shape))
                continue
            vs = [fresh(ZERO, d) for d in p.shape]
            x, y = p.elem(*map(ivar, vs)), replace_atoms(q.elem(*map(ivar, vs)), ren)
        elif isinstance(p, Expr) and isinstance(q, Expr):
            vs, x, y = [], p, replace_atoms(q, ren)
        else:
            continue
        count += 1
        if x == y:
            continue
        S.eqx('again: ' + n, y, x, vs, 'a repeated run gives the same result', where, rec=True)
    S.decide('again: keys', not bad or False, 'a repeated run gives the same results', where, str(bad))
    S.proved('again', 'a repeated run gives the same result', where, 'provenance', '%d results' % count)


# ------------------------------------------------------------------------------------------------ models on their own
def alone(model, seed):
    """Two objects of a class, each with its own seed; paths and observations come from their own generators."""
    def run(S):
        from .c14 import Path
        I = S.I
        install(I)
        sd = {'zero': E(0), 'any': sym('int:seed'), 'none': None}[seed]
        mod, cls, single = DYNAMICS[model]
        for p in ('p', 'th', 'dt', 'r'):
            POSITIVE.add(p)
        summarise_inverse(S)
        I.ctx['pd'] = lambda I, lam: 'ok'
        th = I.arr('th', (E(3),)) if model == 'L63' else PyNum(sym('th'))
        made = []
        for k, s in (('one', sd), ('two', sd)):
            a = ((PyNum(sym('p')), th) if model != 'base' else ())
            o = S.make(mod, cls, *a, r_seed=s) if s is not None or k == 'two' else S.make(mod, cls, *a)
            where = S.loc(S.attr(o, '__init__'))
            g = S.attr(o, 'rng')
            from_seed(S, '%s: generator' % k, g, sd, where)
            made.append((o, g))
            if model != 'base':
                N = S.dim('N', 4)
                dt = power(E(3), -1)
                t0 = sym('t0')
                d0 = len(I.draw_log)
                S.meth(o, 'make_trajectory', PyNum(t0), PyNum(t0 + (N - 1) * dt), PyNum(dt))
                r = S.meth(o, 'collect_obs', E(2), PyNum(sym('r')))
                S.decide('%s: same generator' % k, same_ref(S.attr(o, 'rng'), g), 'one generator for the life of the object', where,
                         'replaced by another one')
                gens = {g.oid} if isinstance(g, Ref) else set()
                for n, v in [('path', S.attr(o, 'sample_path')), ('window', S.attr(o, 'time_window'))] + c16.leaves(S, r, 'obs'):
                    judge(S, '%s: %s' % (k, n), v, gens, where)
        S.decide('own generator', made[0][1].oid != made[1][1].oid, 'every object has its own generator', where, 'shared')
        for k, (o, g) in zip(('one', 'two'), made):
            S.decide('%s: kept' % k, same_ref(S.attr(o, 'rng'), g), 'one generator for the life of the object', where, 'replaced')
    return Spec('model/%s/seed %s' % (model, seed), run, [{'N': 7}])


def same_ref(a, b):
    return isinstance(a, Ref) and isinstance(b, Ref) and a.oid == b.oid


DYNAMICS = dict({k: (v[0], v[1], v[2]) for k, v in MODELS.items()}, base=('src.dynamics.stochastic_process', 'StochasticProcess', True))


# ------------------------------------------------------------------------------------------------ everything else
def pure(spec):
    """The evaluations of the inference draw nothing and read nothing but their arguments."""
    def run(S):
        I = S.I
        install(I)
        seen = []
        rec, meth, call = S.record, S.meth, S.call

        def note(nm, v):
            seen.extend(c16.contents(S, v) if isinstance(v, (tuple, Ref)) else
                        [(nm, v, I.read(v) if isinstance(v, Arr) else v)] if isinstance(v, (Arr, Array, Expr)) else [])
            return v
        S.meth = lambda o, name, *a, **k: note(name, meth(o, name, *a, **k))
        S.call = lambda f, *a, **k: note('result', call(f, *a, **k))
        S.record = lambda name, status, *a, **k: rec(name, status, *a, **k) if name.endswith('/run') else None
        try:
            spec.fn(S)
        finally:
            S.record, S.meth, S.call = rec, meth, call
        names = {}
        for n, x, c in seen:
            names[n] = names.get(n, 0) + 1
            judge(S, n if names[n] == 1 else '%s (%d)' % (n, names[n]), c, set(), spec.name)
    return Spec('pure/' + spec.name, run, spec.bounded, spec.val)


def main(tier):
    specs = [whole(m, d, 'any') for m in MODELS for d in (False, True)]
    specs += [whole(m, False, s) for m in ('DW', 'L63') for s in ('zero', 'number', 'none')]
    specs += [whole(m, d, 'any', same=True) for m, d in (('OU', False), ('L63', False), ('DW', True))]
    specs += [alone(m, s) for m in DYNAMICS for s in ('zero', 'any', 'none')]
    from . import c23
    specs += [pure(s) for s in c16.specs() + c23.specs()]
    specs += [Spec('sources', nondet.scan, [])]
    return run_check('C12', 'a run with a given seed is reproducible', specs, tier)
