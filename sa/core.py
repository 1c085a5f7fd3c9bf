"""Check framework: scenarios, obligations, verdicts, evidence."""
import ast
import json
import os
import sys
import time
import traceback
import signal
from . import alg, val
from .alg import *
from .values import *
from .interp import Interp, exc_matches

ROOT = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Broken(Exception):
    """A definite violation found while the scenario was being set up."""

    def __init__(self, where, what):
        Exception.__init__(self, what)
        self.where, self.what = where, what


class Scenario(object):
    """One analysis context: an interpreter over the current tree, input atoms, and the obligations decided in it."""

    def __init__(self, name, mode, dims, tier):
        self.name, self.mode, self.fixed, self.tier = name, mode, dict(dims or {}), tier
        self.obs = []
        self.val_dims = []
        self.given = {}
        self.samples = []
        reset_all()
        self.I = Interp(ROOT)
        self.dims = {}

    # ---- inputs
    def dim(self, name, minimum=1):
        if name in self.fixed:
            self.dims[name] = self.fixed[name]
            return E(self.fixed[name])
        SYM_MIN[name] = minimum
        return sym(name)

    def get(self, mod, name):
        try:
            return self.I.get(mod, name)
        except AbsRaise as r:
            raise Broken(r.where or mod, 'module does not import: %s' % r.exc.cls)

    def make(self, mod, cls, *args, **kw):
        return self.call(self.get(mod, cls), *args, **kw)

    def call(self, f, *args, **kw):
        """Call that must return normally."""
        ok, v, raised = self.I.run(f, list(args), kw)
        if not ok:
            raise Broken(v.where or self.loc(f), 'admissible call raises %s%s' % (v.exc.cls, v.exc.args and
                                                                                  ' (%s)' % (v.exc.args[0],) or ''))
        self.raised = raised
        return v

    def meth(self, o, name, *args, **kw):
        return self.call(self.attr(o, name), *args, **kw)

    def attr(self, o, name):
        try:
            self.I.sinks.append([])
            v = self.I.getattr(o, name, None)
            return v
        except AbsRaise as r:
            raise Broken(r.where or name, 'reading .%s raises %s' % (name, r.exc.cls))
        finally:
            self.raised = self.I.sinks.pop()

    def outcome(self, f, *args, **kw):
        """('ok', value, raised) or ('raise', exception class, where)."""
        ok, v, raised = self.I.run(f, list(args), kw)
        if ok:
            return 'ok', v, raised
        return 'raise', v.exc.cls, v.where

    def loc(self, f):
        g = f.func if isinstance(f, BoundV) else f
        g = g.func if isinstance(g, (StaticV, ClassMethodV)) else g
        if isinstance(g, FuncV):
            m = self.I.mods.get(g.module)
            p = os.path.relpath(m.path, ROOT) if m else g.module
            return '%s:%s (%s)' % (p, g.node.lineno, g.qual)
        if isinstance(g, ClassV):
            m = self.I.mods.get(g.module)
            return '%s:%s (%s)' % (os.path.relpath(m.path, ROOT) if m else g.module, g.node.lineno, g.name)
        return str(g)

    # ---- obligations
    def record(self, name, status, rule, where, detail='', how=''):
        self.obs.append({'name': name, 'status': status, 'rule': rule, 'where': where, 'detail': str(detail)[:int(os.environ.get('RESID', '1500'))],
                         'how': how, 'mode': self.mode})
        return status == 'proved'

    def proved(self, name, rule, where, how='normal form', detail=''):
        return self.record(name, 'proved', rule, where, detail, how)

    def violated(self, name, rule, where, detail):
        if self.I.taken:
            # only if some admissible data satisfy the conditions of this path
            r, w = val.separate(ZERO, ONE, (), self.val_dims or [self.dims], self.I.DEFS, self.given)
            if r != 'differ':
                return self.undecided(name, rule, where, 'path not shown to be possible; ' + str(detail))
            detail = '%s; on the path with %s' % (detail, '; '.join('%s = %s' % (k[:120], v) for k, v in self.I.taken))
        return self.record(name, 'violated', rule, where, detail)

    def undecided(self, name, rule, where, detail):
        return self.record(name, 'undecided', rule, where, detail)

    def decide(self, name, cond, rule, where, detail=''):
        """cond: True / False / None"""
        if cond is None:
            return self.undecided(name, rule, where, detail)
        return self.proved(name, rule, where, 'rule') if cond else self.violated(name, rule, where, detail)

    def arr(self, v):
        if isinstance(v, Array):
            return v
        if isinstance(v, UnkV):
            raise Undecided('unknown value: %s' % v.reason)
        if isinstance(v, (tuple, Ref)) and not isinstance(v, Arr):
            return self.I.read(self.I.np.to_array(self.I, v, None))
        if v is None or isinstance(v, (str, StrV)):
            raise Broken('?', 'a number was expected, found %r' % (v,))
        return self.I.read(v)

    def eq(self, name, got, want, rule, where, shape=None, ranges=None, rec=False, extra_vars=()):
        """The value `got` equals `want` (Expr, array value or function of the index) everywhere."""
        try:
            g = self.arr(got)
        except Broken as b:
            return self.violated(name, rule, where, b.what)
        except Undecided as u:
            return self.undecided(name, rule, where, u.reason)
        if callable(want) and not isinstance(want, Expr):
            wf, wsh = want, shape
        else:
            w = self.arr(want)
            wf, wsh = w.elem, w.shape
        if wsh is not None:
            wsh = tuple(E(d) for d in wsh)
            # a leading axis of length one and 0-d arrays are compared exactly
            if len(g.shape) != len(wsh):
                return self.violated(name, rule, where, 'result has %d dimensions, %d expected' % (len(g.shape),
                                                                                                   len(wsh)))
            for a, b in zip(g.shape, wsh):
                d = a - b
                if not d.is_zero():
                    if has_unknown(d):
                        return self.undecided(name, rule, where, 'shape %s' % d)
                    r, wit = val.separate(a, b, (), self.val_dims or [self.dims], self.I.DEFS, self.given)
                    if r == 'differ':
                        return self.violated(name, rule, where, 'axis of length %s, expected %s' % (a, b))
                    if r == 'unknown':
                        return self.undecided(name, rule, where, 'shape %s vs %s' % (a, b))
        vs = []
        for i, d in enumerate(wsh or g.shape):
            lo, hi = ZERO, d
            if ranges and i in ranges:
                lo, hi = ranges[i]
            vs.append(fresh(lo, hi, 'x'))
        ix = [ivar(v) for v in vs]
        ge_, we_ = g.elem(*ix), E(wf(*ix))
        return self.eqx(name, ge_, we_, list(vs) + list(extra_vars), rule, where, rec)

    def expand(self, e):
        D = self.I.DEFS

        def f(g):
            if g.kind == 'el' and g.name in D:
                vs, b = D[g.name]
                return subs(b, dict(zip(vs, g.args)))
            return None
        return replace_atoms(e, f)

    def eqx(self, name, got, want, vs, rule, where, rec=False):
        if has_unknown(got):
            # unknown parts may still cancel
            d = got - want
            if has_unknown(d):
                return self.undecided(name, rule, where, 'unknown construct: %s' % _first_unknown(d))
        try:
            ok, wit = zero_on(got - want, vs)
            if not ok and rec:
                for l, r in ((1, 0), (0, 1), (1, 1)):
                    a = self.expand(got) if l else got
                    b = self.expand(want) if r else want
                    ok, w2 = zero_on(a - b, vs)
                    if ok:
                        break
            if not ok:
                ok, w2 = zero_on(alg.prefix_sums(got - want), vs)
        except (AlgLimit, RecursionError) as x:
            ok, wit = False, ((), 'algebra limit %s' % x)
        if ok:
            return self.proved(name, rule, where)
        r, w = val.separate(got, want, vs, self.val_dims or [self.dims], self.I.DEFS, self.given)
        if r == 'equal':
            return self.proved(name, rule, where, 'identity test on %d instances of the normal form' % w)
        if r == 'unknown':
            return self.undecided(name, rule, where, '%s; residual %s' % (w, str(wit[1])[:int(os.environ.get("RESID","300"))]))
        return self.violated(name, rule, where, 'separating valuation %s; got: %s ; expected: %s' % (
            json.dumps(w, default=str), str(got)[:500], str(want)[:500]))

    def raises(self, name, f, args, want, rule, kw=None):
        """The call must raise exception class `want` (or a subclass)."""
        where = self.loc(f)
        try:
            r = self.outcome(f, *args, **(kw or {}))
        except Undecided as u:
            return self.undecided(name, rule, where, u.reason)
        return self.raises_r(name, r, want, rule, where)

    def raises_r(self, name, r, want, rule, where):
        ws = want if isinstance(want, tuple) else (want,)
        if r[0] == 'raise':
            if any(exc_matches(r[1], w) for w in ws):
                return self.proved(name, rule, where, 'always raises')
            return self.violated(name, rule, where, 'raises %s at %s, expected %s' % (r[1], r[2], '/'.join(ws)))
        part = [x for x in r[2] if any(exc_matches(x[0].cls, w) for w in ws)]
        tot = ZERO
        for x in part:
            tot = tot + x[1]
        if tot == ONE:
            return self.proved(name, rule, where, 'always raises')
        if part and tot.const() is None:
            return self.undecided(name, rule, where, 'raises under condition %s' % tot)
        if self.maybe(r[1]):
            return self.undecided(name, rule, where, 'unknown outcome')
        return self.violated(name, rule, where, 'returns normally, expected %s' % '/'.join(ws))

    def maybe(self, v):
        return isinstance(v, UnkV)


def _first_unknown(e):
    for f in atoms(e):
        if f.kind == 'unk':
            return f.name
    return ''


def reset_all():
    alg.reset()
    val.SPD.clear()
    val.EL_FUN.clear()
    val.ASSUME.clear()
    try:
        alg.SIGN_FACTS.clear()
    except AttributeError:
        pass


# ------------------------------------------------------------------------------------------------ running
class Spec(object):
    """A scenario to run: function(Scenario), symbolic dimensions first, bounded instances as a fall-back."""

    def __init__(self, name, fn, bounded=(), val=(), always_bounded=False, limit=None):
        self.name, self.fn, self.bounded, self.val = name, fn, list(bounded), list(val)
        self.always_bounded = always_bounded
        self.limit = limit


def run_mode(spec, mode, dims, tier):
    """Run a scenario; where joining the two sides of a condition lost a value, both sides are followed separately."""
    t0 = time.time()
    r, I = run_once(spec, mode, dims, tier, {})
    und = lambda q: any(o['status'] == 'undecided' for o in q['obs'])
    if mode == 'symbolic' and und(r) and spec.bounded:
        r['more'] = other_sizes(spec, I)
    if not (und(r) and I.joins and I.conds):
        return r
    # split on the conditions that were met, those nearest to the loss first
    runs, todo, n = [], [({}, r, I)], 1
    while todo and n < (25 if tier == 'quick' else 80) and time.time() - t0 < 150:
        asm, q, J = todo.pop()
        new = [k for k in J.conds if k not in asm]
        if not (und(q) and J.joins and new and len(asm) < 6):
            runs.append(q)
            continue
        for v in (True, False):
            b = dict(asm)
            b[new[-1] if len(asm) % 2 == 0 else new[0]] = v
            q2, J2 = run_once(spec, mode, dims, tier, b)
            n += 1
            if not J2.taken and len(b) == 1:
                return r                     # the condition is not met again: nothing to gain
            todo.append((b, q2, J2))
    full = not todo
    runs += [q for _, q, _ in todo]
    by = {}
    order = []
    for q in runs:
        for o in q['obs']:
            if o['name'] not in by:
                by[o['name']] = []
                order.append(o['name'])
            by[o['name']].append(o)
    obs = []
    for nm in order:
        for st in ('violated', 'undecided', 'proved'):
            x = [o for o in by[nm] if o['status'] == st]
            if x:
                obs.append(dict(x[0], how=x[0]['how'] or 'case distinction'))
                break
    r['obs'] = obs
    r['visited'] = sorted({v for q in runs for v in q['visited']} | set(r['visited']))
    r['notes'] = sorted(set(r['notes']) | {'%d paths' % len(runs)})
    r['wall'] = round(time.time() - t0, 2)
    return r


def other_sizes(spec, I):
    """Instances which give the conditions on sizes that were met a truth value they have on no given instance."""
    out = []
    base = {d: k for d, k in spec.bounded[0].items() if isinstance(k, int)}
    for c in I.cond_e.values():
        names = {f.name for f in atoms(c) if f.kind == 'sym'}
        if not names or not names <= set(base) or any(f.kind in ('el', 'fn') for f in atoms(c)):
            continue

        def truth(d):
            try:
                return bool(round(val.Valuation(0, d, {}, {}).ev(c, {})))
            except (val.Invalid, val.Unknown, KeyError, TypeError, ValueError):
                return None
        have = {truth(d) for d in list(spec.bounded) + out}
        if None in have or len(have) > 1:
            continue
        for d in sorted(names):
            for k in range(val.SYM_MIN.get(d, 1), 41):
                x = dict(base, **{d: k})
                if 'N' in x and d != 'N' and k > base[d]:
                    x['N'] = max(x['N'], k + 4)
                if truth(x) not in have | {None}:
                    out.append(x)
                    break
            else:
                continue
            break
    return out[:3]


def run_once(spec, mode, dims, tier, assume):
    t0 = time.time()
    S = Scenario(spec.name, mode, dims, tier)
    S.I.assume = assume
    val.ASSUME[:] = [S.I]
    S.val_dims = [dict(d, **(dims or {})) for d in (spec.val or [{}])]
    sys.setrecursionlimit(6000)
    try:
        spec.fn(S)
    except Broken as b:
        S.violated(spec.name + '/run', 'admissible input is processed', b.where, b.what)
    except Undecided as u:
        S.record(spec.name + '/run', 'undecided', 'analysis', getattr(u, 'where', '?'), u.reason)
    except AbsRaise as r:
        S.violated(spec.name + '/run', 'admissible input is processed', r.where, 'raises %s' % r.exc.cls)
    except (AlgLimit, RecursionError, MemoryError) as x:
        S.record(spec.name + '/run', 'undecided', 'analysis', '?', '%s: %s' % (type(x).__name__, x))
    except Exception as x:
        S.record(spec.name + '/run', 'undecided', 'analysis', '?', 'internal: %s' % traceback.format_exc()[-1200:])
    return {'name': spec.name, 'mode': mode, 'dims': dims, 'obs': S.obs, 'visited': sorted(S.I.visited),
            'calls': len(S.I.calls), 'notes': sorted(set(S.I.notes)), 'samples': S.samples[:3],
            'wall': round(time.time() - t0, 2)}, S.I


def _child(spec, mode, dims, tier, w):
    try:
        r = run_mode(spec, mode, dims, tier)
        data = json.dumps(r, default=str).encode()
    except BaseException as x:       # noqa
        data = json.dumps({'name': spec.name, 'mode': mode, 'dims': dims, 'visited': [], 'calls': 0, 'notes': [],
                           'samples': [], 'wall': 0,
                           'obs': [{'name': spec.name + '/run', 'status': 'undecided', 'rule': 'analysis',
                                    'where': '?', 'detail': 'internal: %r' % (x,), 'how': '', 'mode': mode}]}).encode()
    with os.fdopen(w, 'wb') as f:
        f.write(data)
    os._exit(0)


def run_all(jobs, tier, limit, workers=8):
    """jobs: [(spec, mode, dims)] -> results, each in a forked process with a time limit."""
    import select
    results = {}
    queue = list(enumerate(jobs))
    active = {}
    while queue or active:
        while queue and len(active) < workers:
            i, (spec, mode, dims) = queue.pop(0)
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                for a in active.values():
                    try:
                        os.close(a[1])
                    except OSError:
                        pass
                _child(spec, mode, dims, tier, w)
            os.close(w)
            active[i] = [pid, r, time.time(), b'', spec.limit or limit]
        rl = {a[1]: i for i, a in active.items()}
        ready, _, _ = select.select(list(rl), [], [], 0.5)
        for fd in ready:
            i = rl[fd]
            d = os.read(fd, 1 << 16)
            if d:
                active[i][3] += d
                continue
            os.close(fd)
            os.waitpid(active[i][0], 0)
            try:
                results[i] = json.loads(active[i][3].decode())
            except ValueError:
                results[i] = None
            if results[i] is None:
                results[i] = _dead(jobs[i], 'analysis process died')
            del active[i]
        for i in list(active):
            a = active[i]
            if time.time() - a[2] > a[4]:
                os.kill(a[0], signal.SIGKILL)
                os.waitpid(a[0], 0)
                os.close(a[1])
                results[i] = _dead(jobs[i], 'time limit of %d s' % a[4])
                del active[i]
    return [results[i] for i in range(len(jobs))]


def _dead(job, why):
    spec, mode, dims = job
    return {'name': spec.name, 'mode': mode, 'dims': dims, 'visited': [], 'calls': 0, 'notes': [], 'samples': [],
            'wall': 0, 'obs': [{'name': spec.name + '/run', 'status': 'undecided', 'rule': 'analysis', 'where': '?',
                                'detail': why, 'how': '', 'mode': mode}]}


def load_findings(pid):
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.isfile(p):
        with open(p, encoding='utf-8') as f:
            for l in f:
                l = l.strip()
                if l.startswith('finding: property=%s obligation=' % pid):
                    rest = l.split('obligation=', 1)[1]
                    key, _, text = rest.partition(' ')
                    out.append((key, text))
    return out


def run_check(pid, title, specs, tier, limit=None, workers=8, extra=None):
    t0 = time.time()
    limit = limit or (300 if tier == 'quick' else 600)
    jobs = [(s, 'symbolic', None) for s in specs]
    if tier == 'thorough':
        jobs += [(s, 'bounded', d) for s in specs for d in s.bounded]
    else:
        jobs += [(s, 'bounded', s.bounded[0]) for s in specs if s.always_bounded and s.bounded]
    results = run_all(jobs, tier, limit, workers)
    # fall-back: scenarios with undecided obligations are analysed on bounded instances
    if tier == 'quick':
        again = []
        for s in specs:
            rs = [r for r in results if r['name'] == s.name]
            if any(o['status'] == 'undecided' for r in rs if r['mode'] == 'symbolic' for o in r['obs']) and s.bounded:
                done = [r['dims'] for r in rs if r['mode'] == 'bounded']
                more = [d for r in rs for d in r.get('more', ()) if d not in s.bounded]
                again += [(s, 'bounded', d) for d in list(s.bounded) + more if d not in done]
        if again:
            jobs += again
            results += run_all(again, tier, limit, workers)
    obs = {}
    order = []
    for r in results:
        for o in r['obs']:
            k = r['name'] + ': ' + o['name']
            if k not in obs:
                obs[k] = []
                order.append(k)
            obs[k].append((r, o))
    viol, und, prov, bnd = [], [], [], []
    for k in order:
        st = [o['status'] for _, o in obs[k]]
        scen = obs[k][0][0]['name']
        if 'violated' in st:
            r, o = [x for x in obs[k] if x[1]['status'] == 'violated'][0]
            viol.append((k, r, o))
        elif any(o['status'] == 'proved' and r['mode'] == 'symbolic' and not o['how'].startswith('identity')
                 for r, o in obs[k]):
            prov.append((k, obs[k][0]))
        elif 'proved' in st:
            bnd.append((k, obs[k][0]))
        else:
            und.append((k, obs[k][0]))
    # an undecided symbolic run whose bounded instances ran through is subsumed by them
    clean = {r['name'] for r in results if r['mode'] == 'bounded' and not any(o['name'].endswith('/run')
                                                                             for o in r['obs'])}
    und = [(k, x) for k, x in und if not (k.endswith('/run') and x[0]['name'] in clean)]
    findings = load_findings(pid)
    known = []
    new = []
    for k, r, o in viol:
        hit = [t for key, t in findings if key == k.replace(' ', '')]
        (known if hit else new).append((k, r, o))
    for k, r, o in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    visited = sorted({v for r in results for v in r['visited']})
    wall = round(time.time() - t0, 2)
    replay = os.path.join(VERIF, 'evidence', 'replay-%s.json' % pid)
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'proof'
          if not bnd and not und else 'other',
          'coverage': {
              'obligations': len(order), 'discharged': len(prov) + len(bnd),
              'checker_cmd': 'python3 -m sa.run %s --%s' % (pid, tier),
              'trusted_base': ['sa/alg.py (normal forms)', 'sa/interp.py, sa/loops.py (transfer functions)',
                               'sa/npmodel.py, sa/npfun.py, sa/npcall.py, sa/pyfun.py (library models)',
                               'sa/val.py (refutation of unequal normal forms)', 'sa/checks/%s.py (the rules)' % pid.lower()],
              'explanation': 'abstract interpretation of the current source; symbolic dimensions unless listed as bounded',
              'proved_for_all_sizes': len(prov), 'proved_on_instances': len(bnd), 'undecided': len(und),
              'functions_analysed': visited, 'calls_resolved': sum(r['calls'] for r in results),
              'scenarios': [{'name': r['name'], 'mode': r['mode'], 'dims': r['dims'], 'wall_s': r['wall'],
                             'obligations': len(r['obs'])} for r in results],
              'rules': sorted({o['rule'] for r in results for o in r['obs']}),
              'obligation_list': [{'obligation': k, 'status': 'violated' if any(k == v[0] for v in viol) else
                                   ('undecided' if any(k == v[0] for v in und) else 'proved'),
                                   'where': obs[k][0][1]['where'], 'how': obs[k][0][1]['how'],
                                   'detail': obs[k][0][1]['detail'][:300] if obs[k][0][1]['status'] != 'proved' else ''}
                                  for k in order],
              'notes': sorted({n for r in results for n in r['notes']})[:40],
              'samples': [s for r in results for s in r['samples']][:6]},
          'assumptions': (extra or {}).get('assumptions', ['real arithmetic (rounding is not modelled)',
                                                          'inputs have the documented shapes']),
          'wall_s': wall, 'violations': len(new)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s %s: %d obligations, %d proved for all sizes, %d on instances, %d undecided, %d violated; '
          '%d functions analysed, %.1f s' % (pid, title, len(order), len(prov), len(bnd), len(und), len(viol),
                                             len(visited), wall))
    for k, (r, o) in und:
        print('UNDECIDED property=%s %s at %s: %s' % (pid, k, o['where'], o['detail'][-300:].replace('\n', ' | ')))
    if new:
        with open(replay, 'w') as f:
            json.dump([{'obligation': k, 'rule': o['rule'], 'where': o['where'], 'detail': o['detail'],
                        'mode': r['mode'], 'dims': r['dims'],
                        'replay': 'python3 -m sa.run %s --%s' % (pid, tier)} for k, r, o in new], f, indent=1)
        for k, r, o in new:
            print('%s: %s [%s] rule: %s; %s' % (o['where'], k, r['mode'], o['rule'], o['detail'][:600]))
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        return 1
    return 0
