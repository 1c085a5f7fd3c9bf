"""C11: the optimiser never moves uphill and returns a point with its own value.

The objective and the gradient are unknown functions.  The optimiser's source is interpreted over value numbers (which
point a number is the objective value of), sign facts (what an accepted trial point satisfies) and aliases (which array
is the caller's).  The main loop is brought to a fixpoint, so what is proved holds for every number of iterations; a
violation is reported for a sequence of branch outcomes that some objective really takes.
"""
import os
import time
from ..core import *
from .. import core, vn
from ..vn import Undec, Valuation, same, sign, implies, P, atom as vatom, var as vvar
from ..scg import Program, Stop, paths, ZERO as Z0

PATH, CLS = 'src/numerics/optim_scg.py', 'SCG'


def F(p):
    return vvar(vatom('F', 'F', (vn.expand(p),)))


def pair(r):
    """(point, value, note) of a returned pair."""
    v = r.outcome[1]
    if not isinstance(v, tuple) or len(v) != 2:
        raise Undec('the optimiser returns %r' % (v,))
    return r.val(v[0]), r.val(v[1])


def leq(a, b, facts):
    """True if a <= b is implied."""
    d = a - b
    return same(a, b) or implies(sign(d, facts), '<=') or implies(sign(vn.expand(d), facts), '<=')


class Obl(object):
    """Obligations by name: proved unless something failed."""

    def __init__(self):
        self.bad = {}
        self.count = {}

    def put(self, name, ok, where, detail=''):
        self.count[name] = self.count.get(name, 0) + 1
        if not ok:
            self.bad.setdefault(name, []).append((where, detail))


NAMES = {
    'value': ('the returned value is the objective at the returned point', 'value numbering'),
    'match': ('a gradient that relies on the last evaluation is taken at the point of that evaluation',
              'value numbering of the last evaluated point'),
    'input': ('the starting vector is not written to', 'alias analysis'),
    'uphill': ('the objective at the point held after an iteration is not larger than before it', 'sign analysis'),
    'limit': ('at most max_it iterations', 'trip count'),
    'runs': ('every admissible run returns', 'reachable failures'),
}


def events(r, O):
    for e in r.events:
        if e[0] == 'G':
            _, where, p, last = e
            O.put('match', last is not None and same(p, last), where,
                  'gradient at %s after an evaluation at %s' % (str(p)[:200], str(last)[:200]))
        elif e[0] == 'input':
            O.put('input', False, e[1], 'write to the starting vector')
    O.count['input'] = O.count.get('input', 0) + 1


def fixpoint(prog, O, visited, stat):
    """Joined head states, then one iteration and the way out from each of them."""
    flags = prog.flags()
    heads = {}
    work = []

    def arrive(s):
        k = s.key(flags)
        if k not in heads:
            heads[k] = s
            work.append(k)
            if len(heads) > 60:
                raise Undec('more than 60 kinds of loop states')
            return
        j, ch = heads[k].join(s)
        if ch:
            heads[k] = j
            if k not in work:
                work.append(k)

    n = 0
    entry = []
    for r in paths(lambda d: prog.run(d)):
        n += 1
        visited |= r.visited
        if r.outcome[0] == 'head':
            entry.append(r)
            arrive(r.outcome[1])
        elif r.outcome[0] == 'return':
            finish(r, None, O, 'before the loop')
        elif r.outcome[0] == 'crash':
            O.put('runs', False, r.outcome[1][1], r.outcome[1][0])
        events(r, O)
        if r.bound is not None:
            d = r.bound - vvar(vatom('in', 'nit'))
            O.put('limit', implies(sign(d, {}), '<='), r.where(r.loop_seen), 'trip count %s' % r.bound)
        elif r.loop_seen is not None:
            O.put('limit', False, r.where(r.loop_seen), 'a loop without a fixed trip count')
    if not entry:
        return
    pre = entry[0].dec
    rounds = 0
    while work:
        k = work.pop(0)
        rounds += 1
        if rounds > 400:
            raise Undec('no fixpoint after 400 rounds')
        h = heads[k]
        for r in paths(lambda d: prog.run(pre + d[len(pre):] if len(d) >= len(pre) else pre, head=h, action='enter')):
            if r.outcome[0] == 'back':
                arrive(r.outcome[1])
    stat['heads'], stat['rounds'] = len(heads), rounds

    def outs(s):
        """(point, value, facts) of the ways out of the loop from state s."""
        res = []
        for r in paths(lambda d: prog.run(pre + d[len(pre):] if len(d) >= len(pre) else pre, head=s, action='exit')):
            if r.outcome[0] == 'return':
                res.append((r,) + pair(r))
            elif r.outcome[0] == 'crash':
                O.put('runs', False, r.outcome[1][1], r.outcome[1][0])
        return res

    nback = 0
    for k, h in heads.items():
        at = outs(h)
        for r, x, fx in at:
            finish(r, None, O, 'after the last iteration')
        pts = {vn.expand(x) for _, x, _ in at}
        p = pts.pop() if len(pts) == 1 else None
        for r in paths(lambda d: prog.run(pre + d[len(pre):] if len(d) >= len(pre) else pre, head=h, action='enter')):
            visited |= r.visited
            n += 1
            events(r, O)
            if r.outcome[0] == 'crash':
                O.put('runs', False, r.outcome[1][1], r.outcome[1][0])
            elif r.outcome[0] == 'return':
                finish(r, p, O, 'inside the loop')
            elif r.outcome[0] == 'back':
                nback += 1
                for q, x, fx in outs(r.outcome[1]):
                    O.put('uphill', p is not None and leq(F(x), F(p), r.facts), r.where(r.loop_seen),
                          'moves from %s to %s' % (str(p)[:200], str(vn.expand(x))[:200]))
    O.put('runs', True, '')
    stat['paths'] = n
    stat['back'] = nback


def finish(r, p, O, where):
    try:
        x, fx = pair(r)
    except Undec as u:
        O.put('value', False, r.where(), str(u))
        return
    O.put('value', same(fx, F(x)), r.where(), 'returns the point %s with the value %s (%s)' % (
        str(vn.expand(x))[:200], str(fx)[:200], where))
    if p is not None:
        O.put('uphill', leq(F(x), F(p), r.facts), r.where(), 'returns %s from %s' % (str(vn.expand(x))[:200], str(p)[:200]))


# ------------------------------------------------------------------------------------------------ counterexamples
def feasible(r, tries, test, seed):
    """A valuation that follows the path of r and for which test(valuation) is true."""
    for k in range(tries):
        v = Valuation('%s %d' % (seed, k), n=1 + k % 3)
        try:
            ok = True
            for rel, p, out in r.path:
                if rel == 'bool':
                    continue
                x = v.num(p)
                if isinstance(x, list):
                    raise Undec('vector condition')
                if not {'<': x < 0, '<=': x <= 0, '>': x > 0, '>=': x >= 0, '==': x == 0, '!=': x != 0}[rel]:
                    ok = False
                    break
            if ok and test(v):
                return v
        except (ArithmeticError, ValueError):
            continue
    return None


def describe(r, v):
    return 'max_it=%s, %d branch outcomes (%s), objective values %s, seed %r' % (
        r.nit, len(r.path), '; '.join('%s %s 0' % (str(p)[:60], rel) for rel, p, _ in r.path[-4:]),
        ['%.3g' % x for x in list(v.f.values())[:6]], v.seed)


def far(a, b):
    u = a if isinstance(a, list) else [a]
    w = b if isinstance(b, list) else [b]
    return max(abs(x - y) for x, y in zip(u, w)) > 1e-6 * (1e-9 + max(abs(t) for t in u + w))


def refute(prog, K, budget, want=None, tries=300):
    """Unrolled runs with iteration limit 0..K: name -> (where, detail) of a violation that some objective shows."""
    found = {}
    t0 = time.time()
    ends = {}
    n = 0
    for nit in range(K + 1):
        try:
            for r in paths(lambda d: prog.run(d, nit=nit, display=False), limit=6000):
                n += 1
                if time.time() - t0 > budget:
                    return found, n, nit
                if r.outcome[0] in ('head', 'back', 'infeasible'):
                    continue

                def hit(name, where, detail, test):
                    if name in found or want is not None and name not in want:
                        return
                    v = feasible(r, tries, test, '%s %d %d' % (name, nit, n))
                    if v is not None:
                        found[name] = (where, '%s; %s' % (detail, describe(r, v)))
                if r.outcome[0] == 'crash':
                    hit('runs', r.outcome[1][1], r.outcome[1][0], lambda v: True)
                for e in r.events:
                    if e[0] == 'G' and (e[3] is None or not same(e[2], e[3])):
                        hit('match', e[1], 'gradient at %s after an evaluation at %s' % (str(e[2])[:200], str(e[3])[:200]),
                            lambda v: e[3] is None or far(v.num(e[2]), v.num(e[3])))
                    elif e[0] == 'input':
                        hit('input', e[1], 'the starting vector becomes %s' % str(e[3])[:200],
                            lambda v: far(v.num(e[2]), v.num(e[3])))
                if r.loop_entries > nit or r.outcome[0] == 'long':
                    hit('limit', PATH, '%d iterations with max_it=%d' % (r.loop_entries, nit), lambda v: True)
                if r.outcome[0] != 'return':
                    continue
                x, fx = pair(r)
                if not same(fx, F(x)):
                    hit('value', r.where(), 'returns the point %s with the value %s' % (
                        str(vn.expand(x))[:200], str(fx)[:200]), lambda v: far(v.num(fx), v.num(F(x))))
                marks = r.iter_marks
                if r.loop_entries == nit:
                    ends.setdefault(nit, {})[tuple(r.dec)] = x
                # the point held at the head of each iteration is what the run returns with a smaller limit
                held = []
                for j, m in enumerate(marks):
                    held.append(ends.get(j, {}).get(tuple(r.dec[:m])))
                held.append(x)
                for a, b in zip(held, held[1:]):
                    if a is not None and b is not None and not leq(F(b), F(a), r.facts):
                        hit('uphill', r.where(), 'moves from %s to %s' % (str(vn.expand(a))[:200], str(vn.expand(b))[:200]),
                            lambda v: v.num(F(b)) > v.num(F(a)) + 1e-6 * abs(v.num(F(a))))
                if want is not None and all(w in found for w in want):
                    return found, n, nit
        except Undec as u:
            raise
    return found, n, K


def scenario(S):
    """Fixpoint, then refutation of what it leaves open."""
    vn.reset()
    prog = Program(core.ROOT, PATH, CLS)
    loc = '%s:%d (%s.__call__)' % (PATH, prog.method('__call__').lineno, CLS)
    O, visited, stat = Obl(), set(), {}
    why = None
    try:
        fixpoint(prog, O, visited, stat)
    except (Undec, RecursionError) as u:
        why = str(u)
    S.I.visited |= visited
    todo = [k for k in NAMES if k in O.bad or why]
    K, budget = (3, 150) if S.tier == 'quick' else (4, 500)
    found, n, upto = {}, 0, -1
    rwhy = None
    try:
        # short unrolled runs always, longer ones for what is still open
        found, n, upto = refute(prog, 1, 60)
        todo = [k for k in todo if k not in found]
        if todo:
            f2, n, upto = refute(prog, K, budget, want=todo)
            for k in f2:
                found.setdefault(k, f2[k])
    except (Undec, RecursionError) as u:
        rwhy = str(u)
    S.samples.append('heads %s, fixpoint rounds %s, paths %s; unrolled paths %d up to max_it=%d' % (
        stat.get('heads'), stat.get('rounds'), stat.get('paths'), n, upto))
    for k, (rule, how) in NAMES.items():
        if k in found:
            S.violated(k, rule, found[k][0], found[k][1])
        elif why is None and k not in O.bad:
            S.proved(k, rule, loc, how, '%d places' % O.count.get(k, 0))
        elif rwhy is None and upto >= 1 and k == 'limit' and why is None:
            S.proved(k, rule, loc, 'identity: unrolled for max_it up to %d' % upto)
        else:
            d = O.bad.get(k, [(loc, '')])[0]
            S.undecided(k, rule, d[0], '%s %s %s' % (why or '', d[1], rwhy or ''))


def main(tier):
    return run_check('C11', 'Optimiser', [Spec('optimiser', scenario, limit=600)], tier,
                     extra={'assumptions': ['real arithmetic (rounding and NaN are not modelled)',
                                            'the objective is a function of the point, and the gradient of the point '
                                            'and the last evaluation']})
