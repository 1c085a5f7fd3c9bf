"""Terms of the value-numbering analysis: polynomials over interned atoms, signs, joins, valuations.

Scalars and one-dimensional vectors are both polynomials over a commutative ring (vectors multiply elementwise); an atom
is an input, a value F(p) or G(p) of the objective or its gradient at the point p, a sum over a vector monomial, the name
of a longer polynomial, another function of terms, or the symbol of a join.
"""
import math
import random
from fractions import Fraction


class Atom(object):
    __slots__ = ('kind', 'name', 'args', 'sort', 'id', 'defn')

    def __repr__(self):
        if self.kind == 'name':
            return '<%s>' % self.defn
        if self.args:
            return '%s(%s)' % (self.name, ', '.join(map(str, self.args)))
        return self.name


class Undec(Exception):
    pass


_tab = {}
_list = []


def reset():
    _tab.clear()
    del _list[:]


def atom(kind, name, args=(), sort='s', defn=None):
    key = (kind, name, args, sort, defn)
    a = _tab.get(key)
    if a is None:
        a = Atom()
        a.kind, a.name, a.args, a.sort, a.defn = kind, name, args, sort, defn
        a.id = len(_list)
        _tab[key] = a
        _list.append(a)
    return a


def fresh(name, sort='s'):
    return var(atom('phi', '%s#%d' % (name, len(_list)), (), sort))


class P(object):
    """A polynomial: {((atom, exponent), ...): coefficient}."""
    __slots__ = ('t', 'h')

    def __init__(self, t):
        self.t = {k: v for k, v in t.items() if v}
        self.h = None

    def __hash__(self):
        if self.h is None:
            self.h = hash(frozenset(self.t.items()))
        return self.h

    def __eq__(self, o):
        return isinstance(o, P) and self.t == o.t

    def __ne__(self, o):
        return not self == o

    @property
    def sort(self):
        return 'v' if any(a.sort == 'v' for k in self.t for a, _ in k) else 's'

    def const(self):
        if not self.t:
            return 0
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def __add__(self, o):
        t = dict(self.t)
        for k, v in o.t.items():
            t[k] = t.get(k, 0) + v
        return P(t)

    def scale(self, c):
        return P({k: v * c for k, v in self.t.items()})

    def __neg__(self):
        return P({k: -v for k, v in self.t.items()})

    def __sub__(self, o):
        t = dict(self.t)
        for k, v in o.t.items():
            t[k] = t.get(k, 0) - v
        return P(t)

    def __repr__(self):
        if not self.t:
            return '0'
        out = []
        for k, v in sorted(self.t.items(), key=lambda x: tuple((a.id, e) for a, e in x[0])):
            s = '*'.join('%r%s' % (a, '' if e == 1 else '^%s' % e) for a, e in k)
            out.append(('%s' % v if not k else ('' if v == 1 else '-' if v == -1 else '%s*' % v) + s))
        return ' + '.join(out)


def small(c):
    return c.numerator if c.denominator == 1 else c


def C(c):
    if isinstance(c, float):
        if c != c or c in (math.inf, -math.inf):
            return var(atom('in', 'inf' if c > 0 else '-inf' if c < 0 else 'nan'))
        c = Fraction(repr(c))
    return P({(): small(c)})


ZERO, ONE = C(0), C(1)


def var(a, e=1):
    return P({((a, small(Fraction(e)) if e != 1 else 1),): 1})


def _mono_mul(k, l):
    d = {}
    for a, e in k + l:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: x[0].id))


def name(p):
    """p as a multiple of one atom (short polynomials are left alone)."""
    if len(p.t) <= 1:
        return p
    k = min(p.t, key=lambda k: tuple((a.id, e) for a, e in k))
    c = p.t[k]
    q = p.scale(small(Fraction(1) / c)) if c != 1 else p
    return var(atom('name', 'n', (), p.sort, q)).scale(c)


def mul(p, q):
    if len(p.t) > 1 and len(q.t) > 1:
        p, q = name(p), name(q)
    # a longer scalar is named, a longer vector is expanded
    if len(p.t) > 1 and q.const() is None and p.sort == 's':
        p = name(p)
    if len(q.t) > 1 and p.const() is None and q.sort == 's':
        q = name(q)
    t = {}
    for k, a in p.t.items():
        for l, b in q.t.items():
            m = _mono_mul(k, l)
            t[m] = t.get(m, 0) + a * b
    return P(t)


def inv(p):
    p = name(p)
    if not p.t:
        raise Undec('division by zero')
    (k, c), = p.t.items()
    return P({tuple((a, -e) for a, e in k): small(Fraction(1) / c)})


def power(p, e):
    e = Fraction(e)
    if e.denominator == 1 and e >= 0:
        r = ONE
        if e > 1 and len(p.t) > 1:
            p = name(p)
        for _ in range(int(e)):
            r = mul(r, p)
        return r
    p = name(p)
    if not p.t:
        return ZERO
    (k, c), = p.t.items()
    if e.denominator == 1:
        return P({tuple((a, x * int(e)) for a, x in k): small(Fraction(c) ** int(e))})
    cc = C(c)
    if c != 1:
        if c > 0:
            c = Fraction(c)
            r = Fraction(math.isqrt(c.numerator), 1) / math.isqrt(c.denominator)
            if e == Fraction(1, 2) and r * r == c:
                cc = C(r)
            else:
                cc = var(atom('fn', 'pow', (C(c), C(e))))
        else:
            return var(atom('fn', 'pow', (p, C(e)), p.sort))
    # the square root of a square is an absolute value
    t = []
    for a, x in k:
        y = small(Fraction(x) * e)
        if x.denominator == 1 and x % 2 == 0 and y.denominator == 1 and y % 2:
            if sign(var(a), {}) in ('+', '0+', '0'):
                t.append((a, y))
            else:
                t.append((atom('fn', 'abs', (var(a),), a.sort), y))
        else:
            t.append((a, y))
    return mul(cc, P({tuple(sorted(t, key=lambda x: x[0].id)): 1}))


def total(p, dim=None):
    """Sum over the elements of a vector."""
    t = ZERO
    for k, c in p.t.items():
        sc = tuple(x for x in k if x[0].sort == 's')
        ve = tuple(x for x in k if x[0].sort == 'v')
        if not ve:
            if dim is None:
                raise Undec('sum of a scalar')
            t = t + mul(P({sc: c}), dim)
            continue
        t = t + mul(P({sc: c}), var(atom('fn', 'sum', (P({ve: 1}),))))
    return t


def dot(p, q):
    if p.sort == 's' or q.sort == 's':
        return mul(p, q)
    same = p == q or p == -q
    if same or len(p.t) > 2 and len(q.t) > 2:
        p, q = name(p), name(q)
    t = ZERO
    for k, a in p.t.items():
        for l, b in q.t.items():
            t = t + total(P({_mono_mul(k, l): a * b}))
    return t


def expand(p, depth=0):
    """Names replaced by their definitions (where they occur linearly)."""
    if depth > 30:
        return p
    out = ZERO
    ch = False
    for k, c in p.t.items():
        hit = [i for i, (a, e) in enumerate(k) if a.kind == 'name' and e == 1]
        if not hit:
            out = out + P({k: c})
            continue
        ch = True
        i = hit[0]
        rest = P({k[:i] + k[i + 1:]: c})
        d = k[i][0].defn
        t = ZERO
        for l, b in d.t.items():
            m = {}
            (r, rc), = rest.t.items()
            m[_mono_mul(r, l)] = rc * b
            t = t + P(m)
        out = out + t
    return expand(out, depth + 1) if ch else p


def same(p, q):
    return p == q or expand(p - q).const() == 0


# ------------------------------------------------------------------------------------------------ signs
NEG = {'+': '-', '-': '+', '0+': '0-', '0-': '0+', '0': '0', '!': '!', None: None}


def smul(a, b):
    if a == '0' or b == '0':
        return '0'
    if a is None or b is None:
        return None
    if a == '!' or b == '!':
        return '!' if a in '!+-' and b in '!+-' and len(a) == len(b) == 1 else None
    neg = ('-' in a) != ('-' in b)
    strict = '0' not in a and '0' not in b
    return ('-' if neg else '+') if strict else ('0-' if neg else '0+')


def sadd(a, b):
    if a == '0':
        return b
    if b == '0':
        return a
    if a is None or b is None or '!' in (a, b):
        return None
    if ('-' in a) != ('-' in b):
        return None
    return a if '0' not in a else b if '0' not in b else a


def smeet(a, b):
    """Both facts hold."""
    if a is None:
        return b
    if b is None or a == b:
        return a
    s = {a, b}
    if '0' in s:
        return '0'
    if s == {'0+', '0-'}:
        return '0'
    if s == {'0+', '!'} or '+' in s:
        return '+'
    if s == {'0-', '!'} or '-' in s:
        return '-'
    return a


def sjoin(a, b):
    if a == b:
        return a
    if a is None or b is None:
        return None
    s = {a, b}
    if s <= {'+', '0', '0+'}:
        return '0+'
    if s <= {'-', '0', '0-'}:
        return '0-'
    if s <= {'+', '-', '!'}:
        return '!'
    return None


def implies(s, rel):
    return s is not None and s in {'<=': ('-', '0-', '0'), '<': ('-',), '>=': ('+', '0+', '0'), '>': ('+',),
                                   '==': ('0',), '!=': ('+', '-', '!')}[rel]


class Facts(dict):
    """Known signs; answers are remembered until something new is learnt."""

    def __init__(self, *a):
        dict.__init__(self, *a)
        self.cache = {}

    def __setitem__(self, k, v):
        if self.get(k) != v:
            self.cache.clear()
        dict.__setitem__(self, k, v)


def atom_sign(a, facts, depth=0):
    s = facts.get(var(a))
    if a.kind == 'in' and a.name in POS:
        s = smeet(s, POS[a.name])
    if a.kind == 'fn':
        if a.name in ('abs', 'amax_abs', 'norm'):
            s = smeet(s, '0+')
        elif a.name == 'sum':
            (k, c), = a.args[0].t.items()
            if all(e.denominator == 1 and e % 2 == 0 or implies(atom_sign(b, facts, depth + 1), '>=')
                   for b, e in k):
                s = smeet(s, '0+')
        elif a.name == 'amax':
            if implies(sign(a.args[0], facts, depth + 1), '>='):
                s = smeet(s, '0+')
        elif a.name in ('max', 'min') and depth < 4:
            x, y = (sign(q, facts, depth + 1) for q in a.args)
            if a.name == 'max':
                if '+' in (x, y):
                    s = smeet(s, '+')
                elif implies(x, '>=') or implies(y, '>='):
                    s = smeet(s, '0+')
                else:
                    s = smeet(s, sjoin(x, y))
            else:
                if '-' in (x, y):
                    s = smeet(s, '-')
                elif implies(x, '<=') or implies(y, '<='):
                    s = smeet(s, '0-')
                else:
                    s = smeet(s, sjoin(x, y))
        elif a.name == 'pow':
            if implies(sign(a.args[0], facts, depth + 1), '>'):
                s = smeet(s, '+')
    if a.kind == 'name' and s is None and depth < 4:
        s = sign(a.defn, facts, depth + 1)
    return s


POS = {'eps': '+', 'inf': '+', '-inf': '-', 'dim': '+', 'tiny': '+', 'x_tol': '0+', 'f_tol': '0+', 'nit': '0+',
       'tol': '+'}


def mono_sign(k, c, facts, depth=0):
    s = '+' if c > 0 else '-'
    for a, e in k:
        b = atom_sign(a, facts, depth)
        if e.denominator == 1 and e % 2 == 0:
            b = '+' if b in ('+', '-', '!') else '0' if b == '0' else '0+'
        elif e.denominator != 1:
            b = '+' if b in ('+', '!') else '0+'
        s = smul(s, b)
    return s


def sign(p, facts, depth=0):
    """The sign of a scalar polynomial, or None."""
    if depth == 0 and isinstance(facts, Facts):
        if p in facts.cache:
            return facts.cache[p]
        r = _sign(p, facts, 0)
        facts.cache[p] = r
        return r
    return _sign(p, facts, depth)


def _sign(p, facts, depth):
    c = p.const()
    if c is not None:
        return '+' if c > 0 else '-' if c < 0 else '0'
    f = facts.get(p)
    if f is None and facts:
        f = NEG[facts.get(-p)]
    s = '0'
    for k, v in p.t.items():
        s = sadd(s, mono_sign(k, v, facts, depth))
        if s is None:
            break
    s = smeet(f, s)
    if s in ('+', '-', '0') or depth > 3:
        return s
    if len(p.t) > 1:
        # a fact about the same polynomial up to scale
        q = name(p)
        (k, v), = q.t.items()
        g = facts.get(var(k[0][0]))
        if g is not None:
            s = smeet(s, g if v > 0 else NEG[g])
        # divided by a factor of known sign
        for a in {a for k in p.t for a, e in k if e < 0}:
            b = atom_sign(a, facts, 9)
            if b in ('+', '-'):
                m = -min((e for k in p.t for x, e in k if x is a))
                r = P({_mono_mul(k, ((a, m),)): v for k, v in p.t.items()})
                x = sign(r, facts, depth + 1)
                if b == '-' and m % 2:
                    x = NEG[x]
                s = smeet(s, x)
    if s in ('+', '-', '0') or depth > 2 or len(p.t) < 2:
        return s
    mine = {a for k in p.t for a, e in k}
    # linear combinations with known facts
    for q, g in facts.items():
        if g in (None, '!') or q == p:
            continue
        if len(q.t) < 2:
            # a name stands for its definition, which has the fact itself
            if q not in p.t and not any(q.t.keys() & p.t.keys()):
                continue
        if mine.isdisjoint(a for k in q.t for a, e in k):
            continue
        sh = {(): [k for k in q.t if k in p.t]}
        if depth == 0 and len(q.t) > 1 and len(q.t) * len(p.t) <= 9:
            for k in q.t:
                for l in p.t:
                    m = _mono_mul(k, tuple((a, -e) for a, e in l))
                    if m and m not in sh and mono_sign(m, 1, facts, 9) == '+':
                        sh[m] = [k]
        for m, ks in sh.items():
            pm = p if not m else P({_mono_mul(k, m): v for k, v in p.t.items()})
            for c in {small(Fraction(pm.t[k]) / q.t[k]) for k in ks}:
                r = pm - q.scale(c)
                if len(r.t) > max(len(p.t), len(q.t)):
                    continue
                s = smeet(s, sadd(g if c > 0 else NEG[g], _sign(r, facts, depth + 2)))
        if s in ('+', '-', '0'):
            return s
    return s


def expand1(p):
    out = ZERO
    for k, c in p.t.items():
        if len(k) == 1 and k[0][1] == 1 and k[0][0].kind == 'name':
            out = out + k[0][0].defn.scale(c)
        else:
            out = out + P({k: c})
    return out


def learn(p, s, facts, depth=0):
    """Add the fact that p has sign s."""
    if s is None or p.const() is not None or depth > 4:
        return
    old = facts.get(p)
    facts[p] = smeet(old, s)
    if len(p.t) == 1:
        (k, c), = p.t.items()
        # the sign of the one factor that is not known
        rest = '+' if c > 0 else '-'
        open_ = []
        for a, e in k:
            b = atom_sign(a, facts)
            odd = e.denominator == 1 and e % 2
            if not odd:
                if e.denominator == 1 and b in ('+', '-', '!'):
                    b = '+'
                else:
                    b = '0+' if b != '+' else '+'
            if b in ('+', '-'):
                rest = smul(rest, b)
            else:
                open_.append((a, e, odd))
        if len(open_) == 1 and len(k) >= 1:
            a, e, odd = open_[0]
            g = smul(rest, s)
            if e < 0 and g in ('0+', '0-', '0') and not odd:
                g = None
            if not odd:
                g = '!' if g in ('+', '-') else '0' if g in ('0', '0-') else None
            if g is not None and not (len(k) == 1 and c == 1 and e == 1):
                learn(var(a), g, facts, depth + 1)
            if len(k) == 1 and e == 1 and a.kind == 'name':
                learn(a.defn, g, facts, depth + 1)
        elif s in ('+', '-', '!'):
            for a, e, odd in open_:
                facts[var(a)] = smeet(facts.get(var(a)), '!')
    else:
        if depth < 3 and len(p.t) < 6:
            # what this says about each part
            for k, c in p.t.items():
                if not k:
                    continue
                rest = P({l: -v for l, v in p.t.items() if l != k})
                g = sadd(s, _sign(rest, facts, 2))
                m = P({k: c})
                if g is not None and smeet(g, _sign(m, facts, 2)) != _sign(m, facts, 2):
                    learn(m, g, facts, depth + 1)
        q = name(p)
        (k, c), = q.t.items()
        if facts.get(var(k[0][0])) is None or depth == 0:
            facts[var(k[0][0])] = smeet(facts.get(var(k[0][0])), s if c > 0 else NEG[s])


# ------------------------------------------------------------------------------------------------ joins
class Join(object):
    """Anti-unification of two states: equal terms stay, unequal ones get a symbol, the same one for the same pair."""

    def __init__(self, fa, fb):
        self.fa, self.fb = fa, fb
        self.memo = {}
        self.new = {}

    def term(self, a, b):
        if a == b and not self.touched(a):
            return a
        k = (a, b) if a.sort == b.sort == 's' else (expand(a), expand(b))
        if k in self.memo:
            return self.memo[k]
        r = self._term(a, b)
        self.memo[k] = r
        return r

    def touched(self, a):
        return False

    def _term(self, a, b):
        if a == b:
            return a
        if len(a.t) == 1 and len(b.t) == 1:
            (k, c), = a.t.items()
            (l, d), = b.t.items()
            if c == d and len(k) == len(l) == 1 and k[0][1] == l[0][1]:
                x, y = k[0][0], l[0][0]
                if x.kind in ('F', 'G') and x.kind == y.kind:
                    r = self.term(x.args[0], y.args[0])
                    return P({((atom(x.kind, x.name, (r,), x.sort), k[0][1]),): c})
        if -a in [m[0] for m in self.memo if m[1] == -b]:
            return -self.memo[(-a, -b)]
        if a.sort != b.sort and not (a.const() is not None or b.const() is not None):
            raise Undec('a scalar and a vector meet')
        s = 'v' if 'v' in (a.sort, b.sort) else 's'
        f = fresh('phi', s)
        self.new[f] = (a, b)
        return f

    def facts(self):
        """Facts that hold on both sides."""
        out = Facts()
        for f, (a, b) in self.new.items():
            if f.sort == 's':
                s = sjoin(sign(a, self.fa), sign(b, self.fb))
                if s is not None:
                    out[f] = s
        for p, s in self.fa.items():
            o = self.fb.get(p)
            if o is not None:
                j = sjoin(s, o)
                if j is not None:
                    out[p] = j
        return out


# ------------------------------------------------------------------------------------------------ valuations
class Valuation(object):
    """Numbers for the inputs, the objective values and the gradients (unrelated random functions of the point)."""

    def __init__(self, seed, inputs=None, n=2):
        self.r = random.Random(seed)
        self.n = n
        self.seed = seed
        self.f, self.g = {}, {}
        self.v = {}
        self.fixed = inputs or {}
        self.scale = 10 ** self.r.uniform(-3, 1)
        self.memo = {}

    def num(self, p):
        r = self.memo.get(p)
        if r is not None:
            return r
        vec = p.sort == 'v'
        tot = [0.0] * self.n if vec else 0.0
        for k, c in p.t.items():
            x = float(c)
            v = None
            for a, e in k:
                y = self.at(a)
                e = float(e)
                if a.sort == 'v':
                    z = [_pow(t, e) for t in y]
                    v = z if v is None else [s * t for s, t in zip(v, z)]
                else:
                    x = x * _pow(y, e)
            if vec:
                v = [1.0] * self.n if v is None else v
                tot = [s + x * t for s, t in zip(tot, v)]
            else:
                tot = tot + x
        self.memo[p] = tot
        return tot

    def point(self, p):
        x = self.num(p)
        if not isinstance(x, list):
            x = [x] * self.n
        if any(t != t for t in x):
            raise ArithmeticError('nan')
        return tuple(float('%.9g' % t) for t in x)

    def at(self, a):
        r = self.v.get(a)
        if r is None:
            r = self.v[a] = self._at(a)
        return r

    def _at(self, a):
        R = self.r
        if a.kind == 'name':
            return self.num(a.defn)
        if a.kind == 'F':
            k = self.point(a.args[0])
            if k not in self.f:
                self.f[k] = random.Random('%s F %r' % (self.seed, k)).gauss(0, 1) * (
                    1 if random.Random('%s q %r' % (self.seed, k)).random() < 0.7 else 1e-6)
            return self.f[k]
        if a.kind == 'G':
            k = self.point(a.args[0])
            if k not in self.g:
                q = random.Random('%s G %r' % (self.seed, k))
                sc = 10 ** q.uniform(-2, 1)
                if q.random() < 0.15:
                    sc = 10 ** q.uniform(-9, -5)
                self.g[k] = [q.gauss(0, sc) for _ in range(self.n)]
            return self.g[k]
        if a.kind in ('in', 'phi'):
            if a.name in self.fixed:
                return self.fixed[a.name]
            if a.sort == 'v':
                return [R.gauss(0, 1) for _ in range(self.n)]
            if a.name == 'inf':
                return math.inf
            if a.name == '-inf':
                return -math.inf
            if a.name == 'eps':
                return 10 ** R.uniform(-16, -1)
            if a.name in ('x_tol', 'f_tol', 'tol'):
                return 10 ** R.uniform(-8, 1.5)
            if a.name == 'dim':
                return float(self.n)
            if a.name == 'tiny':
                return 1e-300
            return R.gauss(0, 1)
        if a.kind == 'fn':
            n = a.name
            x = [self.num(q) for q in a.args]
            if n == 'sum':
                return sum(x[0])
            if n == 'abs':
                return [abs(t) for t in x[0]] if isinstance(x[0], list) else abs(x[0])
            if n == 'amax':
                return max(x[0])
            if n == 'amin':
                return min(x[0])
            if n in ('max', 'min'):
                f = max if n == 'max' else min
                if isinstance(x[0], list) or isinstance(x[1], list):
                    u = x[0] if isinstance(x[0], list) else [x[0]] * self.n
                    w = x[1] if isinstance(x[1], list) else [x[1]] * self.n
                    return [f(s, t) for s, t in zip(u, w)]
                return f(x[0], x[1])
            if n == 'pow':
                return [_pow(t, x[1]) for t in x[0]] if isinstance(x[0], list) else _pow(x[0], x[1])
            if n == 'mod':
                return x[0] % x[1]
            if n == 'floor':
                return float(math.floor(x[0]))
            if n == 'sign':
                return float((x[0] > 0) - (x[0] < 0))
            if n == 'log':
                return math.log(x[0])
            if n == 'exp':
                return math.exp(x[0])
            if n.startswith('el:'):
                return x[0][0] if isinstance(x[0], list) else x[0]
        raise Undec('no valuation of %r' % a)


def _pow(x, e):
    if e == 1:
        return x
    if x == 0 and e < 0:
        raise ArithmeticError('division by zero')
    if x < 0 and e != int(e):
        raise ArithmeticError('root of a negative number')
    return x ** int(e) if e == int(e) else x ** e
