"""Valuations of normal forms: a difference of two normal forms is reported only if some admissible assignment of
small dimensions and pseudo-random atom values separates them (polynomial identity test of the extracted formulas; the
analysed program itself is not run)."""
import hashlib
import math
import time
from . import alg
from .alg import *
from fractions import Fraction


class Invalid(Exception):
    """The assignment leaves the domain of the expression."""


class Unknown(Exception):
    """The expression contains an unknown."""


FUN = {}          # function name -> evaluator(valuation, factor, environment)
EL_FUN = {}       # array name -> function(valuation) -> value at an index
ASSUME = []       # [(interpreter)]: its assumptions restrict the valuations
SPD = {}          # array name -> (axis, axis): symmetric positive definite in these axes
MAXOPS = 400000
SPECIAL_S = 8        # seconds for trying special data, per obligation


def h01(key):
    d = hashlib.md5(key.encode()).digest()
    return int.from_bytes(d[:7], 'big') / float(1 << 56)


NUMBERS = {'pi': math.pi, 'e': math.e, 'euler_gamma': 0.5772156649015329}


class Valuation(object):
    def __init__(self, seed, dims, defs=None, given=None, mode=None):
        self.mode = mode or ('plain',)
        self.over = mode[1] if mode and mode[0] == 'solve' else {}
        self.seen = {}
        self.seed, self.dims, self.defs, self.given = seed, dict(dims), defs or {}, given or {}
        self.memo = {}
        self.mats = {}
        self.ops = 0
        self.depth = 0

    # ---- atoms
    def rnd(self, key):
        m = self.mode[0]
        if m == 'zero' and key.split('[')[0] == self.mode[1]:
            return 0
        if m in ('const', 'near'):
            key = key.split('[')[0]
        x = h01('%s|%s' % (self.seed, key))
        if m == 'near':
            return 0.7 + 1e-9 * x
        if m == 'scale of' and key.split('[')[0] == self.mode[1]:
            return self.mode[2] * (Fraction(int(x * 256), 256) * 2 - 1)
        if m in ('scale', 'positive', 'negative'):
            x = Fraction(int(x * 256), 256)
            x = x * 12 / 5 - Fraction(6, 5) + Fraction(3 if x >= 0.5 else -3, 20)
            return x * self.mode[1] if m == 'scale' else abs(x) if m == 'positive' else -abs(x)
        return 2.4 * x - 1.2 + (0.15 if x >= 0.5 else -0.15)

    def posrnd(self, key):
        m = self.mode[0]
        if m in ('const', 'near'):
            key = key.split('[')[0]
        x = h01('%s|%s' % (self.seed, key))
        if m == 'near':
            return 0.7 + self.mode[1] * x
        if m == 'scale':
            return (Fraction(2, 5) + Fraction(3, 2) * Fraction(int(x * 256), 256)) * self.mode[1]
        return 0.4 + 1.5 * x

    def sym(self, name):
        if name in self.given:
            v = self.given[name]
            return v() if callable(v) else v
        if name in self.dims:
            return self.dims[name]
        if name in NUMBERS:
            return NUMBERS[name]
        if name in SYM_MIN:
            v = SYM_MIN[name]
            return int(v) + int(3 * h01('%s|d|%s' % (self.seed, name)))
        if self.over and (name, ()) in self.over:
            return self.over[name, ()]
        if name in alg.POSITIVE:
            return self.posrnd(name)
        if name.startswith('int:'):
            return int(5 * h01('%s|%s' % (self.seed, name)))
        return self.rnd(name)

    def el(self, name, idx):
        if name in self.given:
            return self.given[name](*idx)
        if name in EL_FUN:
            return EL_FUN[name](self)(*idx)
        if name in self.defs:
            key = (name, idx)
            if key not in self.memo:
                if self.depth > 600:
                    raise Unknown('recurrence too deep')
                vs, body = self.defs[name]
                self.memo[key] = None
                self.depth += 1
                try:
                    self.memo[key] = self.ev(body, dict(zip(vs, idx)))
                finally:
                    self.depth -= 1
                    if self.memo[key] is None:
                        del self.memo[key]
            if self.memo[key] is None:
                raise Unknown('circular recurrence')
            return self.memo[key]
        if name in SPD:
            a, b = SPD[name]
            i, j = idx[a], idx[b]
            rest = tuple(x for k, x in enumerate(idx) if k not in (a, b))
            n = 9
            if self.mode[0] in ('diagonal', 'near') and i != j:
                return 0
            if self.mode[0] in ('identity', 'near'):
                return (0.8 + h01('%s|%s' % (self.seed, name)) if self.mode[0] == 'identity' else 0.7) * (i == j)
            g = lambda p, q: 0.35 * self.rnd('%s|%s|%d|%d' % (name, rest, p, q))
            return sum(g(i, q) * g(j, q) for q in range(n)) + (0.9 if i == j else 0.0)
        if name in alg.SYM_AXES:
            a, b = alg.SYM_AXES[name]
            if idx[b] < idx[a]:
                l = list(idx)
                l[a], l[b] = l[b], l[a]
                idx = tuple(l)
        if self.over and (name, idx) in self.over:
            return self.over[name, idx]
        m = self.mode
        if len(m) > 1 and name == m[1] and idx and name not in alg.EL_RANGE:
            if m[0] == 'zero at':
                if idx[0] == m[2]:
                    return 0
            elif m[0] == 'steady':
                idx = (0,) + idx[1:]
            elif m[0] == 'steady at':
                if idx[0] == m[2] + 1:
                    idx = (m[2],) + idx[1:]
            elif m[0] == 'same':
                return self.el(m[2], idx)
            elif m[0] == 'same at':
                if idx[0] == m[3]:
                    return self.el(m[2], idx)
        mk = ('el', name, idx)
        if mk in self.memo:
            return self.memo[mk]
        r = self.memo[mk] = self.el_new(name, idx)
        return r

    def el_new(self, name, idx):
        key = '%s%s' % (name, list(idx))
        if name in alg.EL_DISTINCT and len(idx) == 1:
            lo, hi = alg.EL_RANGE[name]
            lo, hi = int(self.ev(lo, {})), int(self.ev(hi, {}))
            cnt = self.given.get('#' + name)
            m = int(self.ev(cnt, {})) if cnt is not None else hi - lo
            # a strictly increasing choice of m values
            pool = sorted(range(lo, hi), key=lambda v: h01('%s|%s|%d' % (self.seed, name, v)))[:m]
            pool.sort()
            if not 0 <= idx[0] < len(pool):
                raise Invalid('index')
            return pool[idx[0]]
        if name in alg.EL_RANGE:
            lo, hi = alg.EL_RANGE[name]
            lo, hi = int(self.ev(lo, {})), int(self.ev(hi, {}))
            if hi <= lo:
                raise Invalid('empty range')
            return lo + int((hi - lo) * h01('%s|%s' % (self.seed, key)))
        if name in alg.POSITIVE:
            return self.posrnd(key)
        if name.startswith('int:'):
            return int(6 * h01('%s|%s' % (self.seed, key)))
        return self.rnd(key)

    # ---- matrices
    def mat(self, lam, env):
        sh = [int(self.ev(d, env)) for d in lam.shape]
        key = (lam.s, tuple(env.get(v) for v in sorted(lam.fv)))
        if key in self.mats:
            return self.mats[key]

        def rec(k, e):
            if k == len(sh):
                return self.ev(lam.body, e)
            out = []
            for i in range(sh[k]):
                out.append(rec(k + 1, dict(e, **{lam.vars[k]: i})))
            return out
        m = rec(0, dict(env))
        self.mats[key] = m
        return m

    def matfn(self, name, lam, env):
        key = (name, lam.s, tuple(env.get(v) for v in sorted(lam.fv)))
        if key not in self.mats:
            m = self.mat(lam, env)
            if name == 'inv':
                r = inverse(m)
            elif name == 'chol':
                r = cholesky(m)
            elif name == 'invchol':
                r = inverse(cholesky(m))
            self.mats[key] = r
        return self.mats[key]

    # ---- expressions
    def ev(self, e, env):
        tot = 0
        for (sums, facs), c in e.terms.items():
            if sums:
                v = self.sum(sums, facs, env)
            else:
                v = self.prod(facs, env)
            if v:
                tot = tot + (int(c) if c.denominator == 1 else float(c)) * v
        return tot

    def sum(self, sums, facs, env):
        """A sum of products: independent parts are summed separately, and each part once per assignment it depends
        on."""
        sv = {v for v, _ in sums}
        out, inn = [], []
        for fx in facs:
            (inn if fx[0].fv & sv else out).append(fx)
        p = self.prod(out, env) if out else 1
        if not p:
            return 0
        # parts connected by variables
        comps = []
        for v, hi in sums:
            c = [{v} | (hi.fv & sv), [(v, hi)], []]
            for d in [d for d in comps if d[0] & c[0]]:
                comps.remove(d)
                c = [c[0] | d[0], d[1] + c[1], c[2] + d[2]]
            comps.append(c)
        for fx in inn:
            use = fx[0].fv & sv
            hit = [d for d in comps if d[0] & use]
            c = hit[0]
            for d in hit[1:]:
                comps.remove(d)
                c[0] |= d[0]
                c[1] += d[1]
                c[2] += d[2]
            c[2].append(fx)
        for vs, sm, fs in comps:
            if len(sm) > 1:
                order = {v: k for k, (v, _) in enumerate(sums)}
                sm.sort(key=lambda x: order[x[0]])
            q = self.part(tuple(sm), tuple(fs), env)
            if not q:
                return 0
            p = p * q
        return p

    def part(self, sums, facs, env):
        fv = set()
        for f, _ in facs:
            fv |= f.fv
        for v, hi in sums:
            fv |= hi.fv
        fv -= {v for v, _ in sums}
        key = ('part', sums, facs, tuple((v, env.get(v)) for v in sorted(fv)))
        if key in self.memo:
            return self.memo[key]
        (v, hi), rest = sums[0], sums[1:]
        n = self.ev(hi, env)
        tot = 0
        for i in range(int(n)):
            e = dict(env)
            e[v] = i
            tot = tot + (self.sum(rest, facs, e) if rest else self.prod(facs, e))
        self.memo[key] = tot
        return tot

    def prod(self, facs, env):
        self.ops += 1
        if self.ops > MAXOPS:
            raise Unknown('too large')
        p = 1
        later = []
        for f, x in facs:
            if f.kind in ('dl', 'ge', 'cd'):
                b = self.fac(f, env)
                self.seen.setdefault(f, set()).add(bool(b))
                if not b:
                    return 0
            else:
                later.append((f, x))
        for f, x in later:
            b = self.fac(f, env)
            if x == 1:
                p = p * b
            else:
                x = float(x) if not isinstance(x, int) else x
                if isinstance(x, float) and b < 0:
                    raise Invalid('root of a negative number')
                if b == 0 and x < 0:
                    raise Invalid('division by zero')
                try:
                    p = p * b ** x
                except OverflowError:
                    raise Invalid('overflow')
        return p

    def fac(self, f, env):
        k = f.kind
        if k == 'ivar':
            if f.name in env:
                return env[f.name]
            lo, hi = VR.get(f.name, (ZERO, E(2)))
            a, b = int(self.ev(lo, env)), int(self.ev(hi, env))
            if b <= a:
                raise Invalid('empty index range')
            return a + int((b - a) * h01('%s|iv|%s' % (self.seed, f.name)))
        if k == 'sym':
            return self.sym(f.name)
        if k == 'el':
            idx = []
            for a in f.args:
                x = self.ev(a, env)
                if isinstance(x, float):
                    if x != int(x):
                        raise Unknown('fractional index')
                    x = int(x)
                idx.append(x)
            return self.el(f.name, tuple(idx))
        if k == 'unk':
            raise Unknown(f.name)
        if k == 'dl':
            x = self.ev(f.args[0], env)
            if f.name == 'mod':
                return 1 if round(x) % int(self.ev(f.args[1], env)) == 0 else 0
            return 1 if abs(x) < 1e-9 else 0
        if k == 'ge':
            return 1 if self.ev(f.args[0], env) > -1e-9 else 0
        if k == 'mod':
            return int(self.ev(f.args[0], env)) % int(self.ev(f.args[1], env))
        if k == 'fdv':
            return int(self.ev(f.args[0], env)) // int(self.ev(f.args[1], env))
        if k == 'pw':
            return self.ev(f.args[0], env)
        if k == 'cd':
            if f.name == 'pos':
                return 1 if self.ev(f.args[0], env) > 0 else 0
            if f.name == 'eq0':
                return 1 if abs(self.ev(f.args[0], env)) < 1e-12 else 0
            if f.name == 'isclose':
                x, y, rt, at = ([self.ev(a, env) for a in f.args] + [1e-5, 1e-8])[:4]
                return 1 if abs(x - y) <= at + rt * abs(y) else 0
            if f.name in ('allclose', 'array_equal') and len(f.args) >= 2:
                x, y = [flat(self.mat(a, env)) for a in f.args[:2]]
                if len(x) != len(y):
                    raise Unknown('broadcast comparison')
                if f.name == 'array_equal':
                    return 1 if all(abs(p - q) < 1e-12 for p, q in zip(x, y)) else 0
                rt, at = ([self.ev(a, env) for a in f.args[2:]] + [1e-5, 1e-8])[:2]
                return 1 if all(abs(p - q) <= at + rt * abs(q) for p, q in zip(x, y)) else 0
            if f.name in ('all', 'exists'):
                m = self.mat(f.args[0], env)
                fl = flat(m)
                return 1 if (all(fl) if f.name == 'all' else any(fl)) else 0
            return 1 if h01('%s|%s|%s' % (self.seed, f.name, self.argkey(f.args, env))) < 0.5 else 0
        if k == 'fn':
            return self.fn(f, env)
        raise Unknown(k)

    def argkey(self, args, env):
        out = []
        for a in args:
            if isinstance(a, Expr):
                out.append('%.7g' % (float(self.ev(a, env)) + 0.0))
            elif isinstance(a, Lam):
                out.append(','.join('%.7g' % (float(x) + 0.0) for x in flat(self.mat(a, env))))
            else:
                out.append(str(a))
        return '|'.join(out)

    def fn(self, f, env):
        n = f.name
        if n in ('inv', 'chol', 'invchol') and len(f.args) == 3 and isinstance(f.args[0], Lam):
            m = self.matfn(n, f.args[0], env)
            return m[int(self.ev(f.args[1], env))][int(self.ev(f.args[2], env))]
        if n in FUN:
            return FUN[n](self, f, env)
        if n == 'utw' and len(f.args) == 2:
            D, j = self.ev(f.args[0], env), self.ev(f.args[1], env)
            return 1.05 / 2.05 if j == 0 else 1.0 / (4.1 * D)
        if n == 'utx' and len(f.args) == 4:
            key = ('utx', f.args[0].s, f.args[1].s, tuple(env.get(v) for v in sorted(f.args[0].fv | f.args[1].fv)))
            if key not in self.mats:
                mu, P = self.mat(f.args[0], env), self.mat(f.args[1], env)
                D = len(mu)
                L = cholesky([[2.05 * D * x for x in r] for r in P])
                self.mats[key] = [list(mu)] + [[mu[d] + sg * L[d][i] for d in range(D)] for sg in (1, -1)
                                               for i in range(D)]
            return self.mats[key][int(self.ev(f.args[2], env))][int(self.ev(f.args[3], env))]
        if n == 'logdet':
            m = self.mat(f.args[0], env)
            d = det(m)
            if d <= 0:
                raise Invalid('log of a non-positive determinant')
            return math.log(d)
        if n.startswith('arr') and len(f.args) == 1 and isinstance(f.args[0], Lam) and n[3:] in ('max', 'min'):
            fl = flat(self.mat(f.args[0], env))
            return max(fl) if n[3:] == 'max' else min(fl)
        if len(f.args) == 1 and isinstance(f.args[0], Expr):
            x = self.ev(f.args[0], env)
            if n in ('abs', 'sign'):
                self.seen.setdefault(f, set()).add(x >= 0)
            try:
                if n == 'log':
                    if x <= 0:
                        raise Invalid('log')
                    return math.log(x)
                g = {'exp': math.exp, 'abs': abs, 'sin': math.sin, 'cos': math.cos, 'tan': math.tan,
                     'tanh': math.tanh, 'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc,
                     'fix': math.trunc, 'rint': round, 'round': round, 'int:round': round, 'expm1': math.expm1,
                     'float32': lambda v: v + 1e-3 * self.rnd('f32'), 'sign': lambda v: (v > 0) - (v < 0),
                     'arctan': math.atan, 'sinh': math.sinh, 'cosh': math.cosh, 'cbrt': lambda v: v ** (1 / 3.)
                     if v >= 0 else -(-v) ** (1 / 3.)}.get(n)
                if g is not None:
                    return g(x)
            except OverflowError:
                raise Invalid('overflow')
        if len(f.args) == 2 and all(isinstance(a, Expr) for a in f.args):
            x, y = self.ev(f.args[0], env), self.ev(f.args[1], env)
            if n in ('max', 'maximum', 'min', 'minimum'):
                self.seen.setdefault(f, set()).add(x >= y)
                return max(x, y) if n.startswith('max') else min(x, y)
            if n == 'pow':
                if x <= 0:
                    raise Invalid('pow')
                return x ** y
            if n == 'fmod':
                if not y:
                    raise Invalid('modulo zero')
                return x % y
        raise Unknown('value of %s' % n)


def flat(m):
    if isinstance(m, list):
        out = []
        for x in m:
            out += flat(x)
        return out
    return [m]


def inverse(m):
    n = len(m)
    a = [list(map(float, r)) + [1.0 if i == j else 0.0 for j in range(n)] for i, r in enumerate(m)]
    for c in range(n):
        p = max(range(c, n), key=lambda r: abs(a[r][c]))
        if abs(a[p][c]) < 1e-9:
            raise Invalid('singular')
        a[c], a[p] = a[p], a[c]
        d = a[c][c]
        a[c] = [x / d for x in a[c]]
        for r in range(n):
            if r != c and a[r][c]:
                k = a[r][c]
                a[r] = [x - k * y for x, y in zip(a[r], a[c])]
    return [r[n:] for r in a]


def cholesky(m):
    n = len(m)
    l = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1):
            s = m[i][j] - sum(l[i][k] * l[j][k] for k in range(j))
            if i == j:
                if s <= 1e-12:
                    raise Invalid('not positive definite')
                l[i][i] = math.sqrt(s)
            else:
                l[i][j] = s / l[j][j]
    return l


def det(m):
    n = len(m)
    a = [list(map(float, r)) for r in m]
    d = 1.0
    for c in range(n):
        p = max(range(c, n), key=lambda r: abs(a[r][c]))
        if abs(a[p][c]) < 1e-12:
            return 0.0
        if p != c:
            a[c], a[p] = a[p], a[c]
            d = -d
        d *= a[c][c]
        for r in range(c + 1, n):
            k = a[r][c] / a[c][c]
            a[r] = [x - k * y for x, y in zip(a[r], a[c])]
    return d


def _walk(e, out, defs, seen):
    for f in atoms(e):
        if f in seen:
            continue
        seen.add(f)
        out.append(f)
        if f.kind == 'el' and f.name in defs:
            _walk(defs[f.name][1], out, defs, seen)


PIECEWISE = ('max', 'min', 'maximum', 'minimum', 'abs', 'sign')


def conditions(e, defs):
    """The conditions (and piecewise functions) in an expression which depend on data, the names of the data in them,
    numbers in conditions on sizes and indices, the expressions whose sign decides them, and whether there are any on
    sizes."""
    fs = []
    _walk(e, fs, defs, set())
    data, names, nums, basics, sizes = [], [], set(), [], False
    for f in sorted(fs, key=str):
        if f.kind not in ('cd', 'ge', 'dl') and not (f.kind == 'fn' and f.name in PIECEWISE):
            continue
        inner = []
        for a in f.args:
            if isinstance(a, Expr):
                _walk(a, inner, defs, set())
            elif isinstance(a, Lam):
                _walk(a.body, inner, defs, set())
        nm = [g.name for g in inner if g.kind == 'el' or g.kind == 'sym' and g.name not in SYM_MIN and not g.name.startswith('int:')]
        fn = [g for g in inner if g.kind == 'fn']
        if nm or fn and f.kind != 'fn':
            data.append(f)
            for n in nm:
                if n not in names:
                    names.append(n)
            if f.kind in ('ge', 'dl') or f.name in ('pos', 'eq0', 'abs', 'sign'):
                basics.append(f.args[0])
            elif len(f.args) > 1 and isinstance(f.args[0], Expr) and isinstance(f.args[1], Expr):
                basics.append(f.args[0] - f.args[1])
        elif f.kind in ('ge', 'dl', 'fn') and f.name != 'mod':
            sizes = sizes or any(g.kind == 'sym' and g.name in SYM_MIN for g in inner)
            for a in f.args:
                if isinstance(a, Expr):
                    for (sm, fc), c in a.terms.items():
                        if not sm and not fc and 6 < abs(c) < 4000:
                            nums.add(int(abs(c)))
    return data, names, sorted(nums), basics, sizes


def solutions(e, mk):
    """Values of one datum in `e` which bring it to zero, above, and below."""
    els = [f for f in sorted(atoms(e), key=str) if f.kind == 'el' or f.kind == 'sym' and f.name not in SYM_MIN]
    fv = sorted(e.fv)
    for f in els[:4]:
        if f.name in SPD or f.name.startswith('int:') or f.name.startswith('$'):
            continue
        for env in ([dict.fromkeys(fv, 0), dict.fromkeys(fv, 1), {v: k for k, v in enumerate(fv)}] if fv else [{}]):
            if f.kind == 'el' and f.name in alg.EL_RANGE:
                continue
            try:
                V = mk({})
                if f.kind == 'el' and f.name in V.defs or f.name in V.given or f.name in EL_FUN:
                    continue
                key = (f.name, tuple(int(V.ev(a, env)) for a in f.args))
                if f.name in alg.SYM_AXES:
                    a, b = alg.SYM_AXES[f.name]
                    l = list(key[1])
                    if l[b] < l[a]:
                        l[a], l[b] = l[b], l[a]
                    key = (f.name, tuple(l))
                y = [mk({key: x}).ev(e, env) for x in (0, 1, 2)]
                k = y[1] - y[0]
                roots = []
                if k and abs(y[2] - y[1] - k) < 1e-9 * (1 + abs(k)):
                    if isinstance(y[0], int) and isinstance(k, int) and y[0] % k == 0:
                        roots = [-y[0] // k + d for d in (0, 1, -1)]
                    else:
                        roots = [(t - y[0]) / k for t in (0, 1, -1)]
                        if roots[0] == int(roots[0]):
                            roots[0] = int(roots[0])
                for x in roots + [r * roots[0] for r in (0.5, 2) if roots and roots[0]] + [0]:
                    if f.name in alg.POSITIVE and x <= 0:
                        continue
                    yield {key: x}
            except (Invalid, Unknown, KeyError, RecursionError, OverflowError, ZeroDivisionError, TypeError):
                continue


def separate(e1, e2, vars_, dims_list, defs=None, given=None, trials=6):
    """Compare two normal forms on small instances.
    ('equal', count) | ('differ', witness) | ('unknown', reason)"""
    stat = {'n': 0, 'reason': 'no admissible instance', 'seen': {}}
    assumptions = [(c, v) for I in ASSUME for (k, v), c in I.taken.items()]

    def attempt(dims, seed, mode=None, inst=None):
        V = Valuation(seed, dims, defs, given, mode)
        try:
            for c, b in assumptions:
                if bool(round(V.ev(c, {}))) != b:
                    raise Invalid('assumption')
            for idx in (inst or instances)(V, vars_):
                a, b = V.ev(e1, idx), V.ev(e2, idx)
                if isinstance(a, complex) or isinstance(b, complex) or a != a or b != b:
                    raise Invalid('not a number')
                stat['n'] += 1
                if abs(a - b) > 1e-7 * (1.0 + abs(a) + abs(b)):
                    return 'differ', dict({'dims': dims, 'seed': seed, 'index': dict(idx), 'got': a, 'expected': b},
                                          **({'data': [str(x) for x in mode]} if mode else {}))
        except Invalid as x:
            stat['reason'] = str(x)
        except Unknown as x:
            return 'unknown', str(x)
        except (RecursionError, OverflowError, ZeroDivisionError) as x:
            stat['reason'] = type(x).__name__
        finally:
            for f, v in V.seen.items():
                stat['seen'].setdefault(f, set()).update(v)
        return None

    tot = e1 - e2
    for again in (False, True):
        r = None
        for dims in dims_list:
            for seed in range(trials):
                r = attempt(dims, seed)
                if r and not (assumptions and r[0] == 'unknown'):
                    break
                r = None
                if stat['n'] >= 400:
                    break
            if r:
                break
        if r and (again or r[0] != 'unknown'):
            return r
        if stat['n'] and not r:
            break
        e1, e2 = tot, ZERO           # what the two sides share need not have a value
    data, names, nums, basics, sizes = conditions(tot, defs or {})
    for c, b in assumptions:
        d2, n2, m2, b2, s2 = conditions(c, defs or {})
        data += d2 or [None]
        names += [n for n in n2 if n not in names]
        nums += m2
        basics += b2
        sizes = sizes or s2
    t0 = time.time()
    # conditions on data: special data which make them true or false
    if data:
        free = [n for n in names if n not in alg.POSITIVE and n not in SPD][:8]
        near = [n for n in names if n not in SPD][:8]
        modes = [('zero', n) for n in free] + [('scale of', n, k) for n in free for k in (100000, Fraction(1, 10000))]
        modes += [('scale', 1000), ('scale', 1000000), ('scale', Fraction(1, 1000)), ('const',), ('positive', 0),
                  ('negative', 0), ('diagonal',), ('identity',), ('near', 1e-3), ('near', 1e-7)]
        modes += [('zero at', n, r) for n in free for r in (1, 0, 2)] + [('steady', n) for n in near]
        modes += [('steady at', n, r) for n in near for r in (0, 1)]
        for n in near[:4]:
            for m in near[:4]:
                if n != m and (n in alg.POSITIVE) == (m in alg.POSITIVE):
                    modes += [('same', n, m), ('same at', n, m, 0), ('same at', n, m, 1)]
        for dims in dims_list[:2]:
            for mode in modes:
                for seed in range(2):
                    if time.time() - t0 > SPECIAL_S:
                        break
                    r = attempt(dims, seed, mode)
                    if r and r[0] == 'differ':
                        return r
        dims = dims_list[0]
        tried = set()
        for e in basics[:12]:
            for over in solutions(e, lambda o: Valuation(0, dims, defs, given, ('solve', o))):
                key = str(over)
                if key in tried or time.time() - t0 > 2 * SPECIAL_S:
                    continue
                tried.add(key)
                r = attempt(dims, 0, ('solve', over))
                if r and r[0] == 'differ':
                    r[1]['data'] = 'with %s' % ', '.join('%s%s = %s' % (n, list(i) or '', x) for (n, i), x in over.items())
                    return r
    # conditions on sizes: other small sizes, one at a time
    if sizes:
        for d in sorted(dims_list[0]):
            for k in (1, 2, 3, 4, 5, 7):
                if isinstance(dims_list[0][d], int) and d in SYM_MIN and k >= SYM_MIN[d] and k != dims_list[0][d] and \
                        time.time() - t0 < 3 * SPECIAL_S:
                    r = attempt(dict(dims_list[0], **{d: k}), 0)
                    if r and r[0] == 'differ':
                        return r
    # conditions on sizes and indices: sizes beyond the numbers in them
    for c in nums[:6]:
        for d in sorted(dims_list[0]):
            if isinstance(dims_list[0][d], int) and (d in 'NMTn' or c <= 16) and time.time() - t0 < 4 * SPECIAL_S:
                r = attempt(dict(dims_list[0], **{d: c + 3}), 0, None, lambda V, vs: edges(V, vs, c))
                if r and r[0] == 'differ':
                    return r
    if stat['n'] == 0:
        return 'unknown', stat['reason']
    for f in data if not assumptions else ():
        if len(stat['seen'].get(f, ())) == 1:
            return 'unknown', 'condition never %s: %s' % ('met' if False in stat['seen'][f] else 'failed', f)
    return 'equal', stat['n']


def edges(V, vars_, c):
    """A few index assignments around the number c."""
    envs = [{}]
    for v in vars_:
        lo, hi = VR.get(v, (ZERO, E(2)))
        out = []
        for e in envs:
            a, b = int(V.ev(lo, e)), int(V.ev(hi, e))
            for i in sorted({a, c - 1, c, c + 1, b - 1}):
                if a <= i < b:
                    out.append(dict(e, **{v: i}))
        envs = out[:40]
    return envs


def instances(V, vars_, limit=60):
    """Index assignments of the free variables."""
    envs = [{}]
    for v in vars_:
        lo, hi = VR.get(v, (ZERO, E(2)))
        out = []
        for e in envs:
            a, b = int(V.ev(lo, e)), int(V.ev(hi, e))
            for i in range(a, b):
                x = dict(e)
                x[v] = i
                out.append(x)
        if len(out) > limit:
            out = sorted(out, key=lambda x: h01('%s%s' % (V.seed, sorted(x.items()))))[:limit]
        envs = out
    return envs
