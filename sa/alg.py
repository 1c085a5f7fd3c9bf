"""Algebraic value-numbering domain.

Normal forms: polynomials with rational coefficients whose monomials are products of interned *factors* (atoms),
optionally under bound sums.  Nothing here looks at the analysed program.
"""
from fractions import Fraction
from itertools import permutations, count
from math import isqrt

_fresh = count()


class AlgLimit(Exception):
    """An expression grew beyond what the domain handles: the obligation becomes undecided."""


# Lower bounds of dimension symbols (context dependent, set by the checks) and ranges of index variables/elements.
SYM_MIN = {}
VR = {}          # index variable -> (lo Expr, hi Expr), hi exclusive
LAMC = {}         # memo of the recognisers of matrix shapes (diagonal, scalar multiple, symmetric)
EL_RANGE = {}    # array name -> (lo Expr, hi Expr) of its integer elements
SYM_AXES = {}    # array name -> (axis, axis) in which it is symmetric
EL_DISTINCT = set()   # integer array names whose elements are pairwise distinct
POSITIVE = set()      # scalar symbols / arrays known to be strictly positive
MAX_TERMS = 60000


def reset():
    SYM_MIN.clear()
    VR.clear()
    EL_RANGE.clear()
    LAMC.clear()
    SYM_AXES.clear()
    EL_DISTINCT.clear()
    POSITIVE.clear()
    Fac.table.clear()
    _subs_cache.clear()
    Fac.lamcache.clear()


class Lam(object):
    """Closed array abstraction used as argument of an uninterpreted function: shape and body over '#h_i'."""
    __slots__ = ('shape', 'vars', 'body', 's', 'fv', 'height')

    def __init__(self, shape, vars_, body, height):
        self.shape, self.vars, self.body, self.height = shape, vars_, body, height
        self.s = 'L(' + ','.join(str(d) for d in shape) + ';' + ','.join(vars_) + ':' + str(body) + ')'
        fv = set(body.fv) - set(vars_)
        for d in shape:
            fv |= d.fv
        self.fv = frozenset(fv)

    def __str__(self):
        return self.s

    def __eq__(self, o):
        return isinstance(o, Lam) and o.s == self.s

    def __hash__(self):
        return hash(self.s)

    def inst(self, idx):
        return subs(self.body, dict(zip(self.vars, idx)))


def mk_lam(shape, vars_, body):
    h = 1 + height(body)
    new = tuple('#%d_%d' % (h, i) for i in range(len(vars_)))
    for v, d in zip(new, shape):
        VR[v] = (ZERO, d)
    # canonical '#' names are closed; ranges are refreshed whenever they are opened
    b = subs(body, {v: ivar(n) for v, n in zip(vars_, new)})
    return Lam(tuple(shape), new, b, h)


class Fac(object):
    __slots__ = ('kind', 'name', 'args', 's', 'fv', 'h')
    table = {}
    lamcache = {}

    def __new__(cls, kind, name, args=()):
        s = kind + ':' + name
        if args:
            s += '[' + ','.join(str(a) for a in args) + ']'
        f = cls.table.get(s)
        if f is not None:
            return f
        f = object.__new__(cls)
        f.kind, f.name, f.args, f.s = kind, name, args, s
        fv = set()
        if kind == 'ivar':
            fv.add(name)
        h = 0
        for a in args:
            if isinstance(a, (Expr, Lam)):
                fv |= a.fv
                h = max(h, height(a))
        f.fv = frozenset(fv)
        f.h = h
        cls.table[s] = f
        return f

    def __repr__(self):
        return self.s

    def __reduce__(self):
        return (Fac, (self.kind, self.name, self.args))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


INDICATORS = ('dl', 'ge', 'cd')


class Expr(object):
    __slots__ = ('terms', '_s', '_fv', '_hash', '_h')

    def __init__(self, terms):
        if len(terms) > MAX_TERMS:
            raise AlgLimit('expression too large')
        self.terms = terms
        self._s = None
        self._fv = None
        self._hash = None
        self._h = None

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __str__(self):
        if self._s is None:
            if not self.terms:
                self._s = '0'
            else:
                self._s = ' + '.join(sorted(_term_str(k, c) for k, c in self.terms.items()))
        return self._s

    __repr__ = __str__

    @property
    def fv(self):
        if self._fv is None:
            out = set()
            for (sums, facs) in self.terms:
                for f, _ in facs:
                    out |= f.fv
                for v, hi in sums:
                    out |= hi.fv
                for v, _ in sums:
                    out.discard(v)
            self._fv = frozenset(out)
        return self._fv

    def __eq__(self, o):
        return isinstance(o, Expr) and self.terms == o.terms

    def __hash__(self):
        if self._hash is None:
            self._hash = hash(str(self))
        return self._hash

    # -- arithmetic ---------------------------------------------------------------------------------------------
    def __add__(self, o):
        o = E(o)
        if not o.terms:
            return self
        if not self.terms:
            return o
        t = dict(self.terms)
        for k, c in o.terms.items():
            n = t.get(k, 0) + c
            if n:
                t[k] = n
            else:
                t.pop(k, None)
        return Expr(t)

    __radd__ = __add__

    def __neg__(self):
        return Expr({k: -c for k, c in self.terms.items()})

    def __sub__(self, o):
        return self + (-E(o))

    def __rsub__(self, o):
        return E(o) + (-self)

    def __mul__(self, o):
        o = E(o)
        if not o.terms or not self.terms:
            return ZERO
        c = o.const()
        if c is not None:
            return self.scale(c)
        c = self.const()
        if c is not None:
            return o.scale(c)
        if len(self.terms) * len(o.terms) > MAX_TERMS:
            raise AlgLimit('product too large')
        acc = {}
        for k1, c1 in self.terms.items():
            for k2, c2 in o.terms.items():
                _acc(acc, _mul_terms(k1, k2), c1 * c2)
        return Expr({k: c for k, c in acc.items() if c})

    __rmul__ = __mul__

    def scale(self, c):
        if c == 1:
            return self
        if c == 0:
            return ZERO
        return Expr({k: v * c for k, v in self.terms.items()})

    def __truediv__(self, o):
        return self * power(E(o), Fraction(-1))

    def __rtruediv__(self, o):
        return E(o) * power(self, Fraction(-1))

    def __pow__(self, n):
        return power(self, Fraction(n))

    # -- queries ------------------------------------------------------------------------------------------------
    def const(self):
        """Rational value if constant, else None."""
        if not self.terms:
            return Fraction(0)
        if len(self.terms) == 1:
            (k, c), = self.terms.items()
            if k == UNIT:
                return c
        return None

    def single(self):
        """The factor f if the expression is exactly 1*f**1, else None."""
        if len(self.terms) == 1:
            (k, c), = self.terms.items()
            if c == 1 and not k[0] and len(k[1]) == 1 and k[1][0][1] == 1:
                return k[1][0][0]
        return None

    def is_zero(self):
        return not self.terms


UNIT = ((), ())


def height(x):
    """Nesting height of bound variables, for capture-free canonical names."""
    if isinstance(x, Lam):
        return x.height
    if x._h is None:
        h = 0
        for (sums, facs) in x.terms:
            for f, _ in facs:
                h = max(h, f.h)
            if sums:
                h = max(h, int(sums[0][0][1:].split('_')[0]))
            for _, hi in sums:
                h = max(h, height(hi))
        x._h = h
    return x._h


def _term_str(k, c):
    sums, facs = k
    s = str(c) if c.denominator == 1 else '%d/%d' % (c.numerator, c.denominator)
    for v, hi in sums:
        s += ' S{%s<%s}' % (v, hi)
    for f, e in facs:
        s += '*' + f.s + ('' if e == 1 else '^' + str(e))
    return s


def _acc(acc, terms, c):
    for k, v in terms.items():
        n = acc.get(k, 0) + v * c
        if n:
            acc[k] = n
        else:
            acc.pop(k, None)


def E(x):
    if isinstance(x, Expr):
        return x
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, int):
        return Expr({UNIT: Fraction(x)}) if x else ZERO
    if isinstance(x, Fraction):
        return Expr({UNIT: x}) if x else ZERO
    if isinstance(x, float):
        return E(Fraction(repr(x)))
    raise TypeError(type(x))


ZERO = Expr({})
ONE = Expr({UNIT: Fraction(1)})


def fac(f, e=1):
    return Expr({((), ((f, e),)): Fraction(1)})


def sym(name):
    return fac(Fac('sym', name))


def ivar(name):
    return fac(Fac('ivar', name))


def fresh(lo, hi, tag='i'):
    """A fresh index variable ranging over [lo, hi)."""
    n = '%%%s%d' % (tag, next(_fresh))
    VR[n] = (E(lo), E(hi))
    return n


def unk(reason):
    return fac(Fac('unk', '%s@%d' % (reason, next(_fresh))))


def has_unknown(e, _seen=None):
    return 'unk:' in str(e)


# ---------------------------------------------------------------------------------------------------------------
#  factor constructors
# ---------------------------------------------------------------------------------------------------------------

def el(name, idx):
    idx = tuple(E(i) for i in idx)
    ax = SYM_AXES.get(name)
    if ax is not None:
        a, b = ax
        if str(idx[b]) < str(idx[a]):
            idx = list(idx)
            idx[a], idx[b] = idx[b], idx[a]
            idx = tuple(idx)
    return fac(Fac('el', name, idx))


def lin_sign_normal(e):
    """Choose between e and -e canonically."""
    n = -e
    return e if str(e) <= str(n) else n


def delta(a, b=None):
    """[a == b] for integer expressions."""
    d = E(a) if b is None else E(a) - E(b)
    return delta_diff(d)


def _strip_mod(d):
    """If d contains top-level mod(e, n) atoms (all with one n) return (d with mods opened, n)."""
    n = None
    out = ZERO
    for (sums, facs), c in d.terms.items():
        m = [f for f, _ in facs if f.kind == 'mod']
        if m:
            if sums or len(facs) != 1 or facs[0][1] != 1 or abs(c) != 1:
                return None
            if n is not None and n != m[0].args[1]:
                return None
            n = m[0].args[1]
            out = out + m[0].args[0].scale(c)
        else:
            out = out + Expr({(sums, facs): c})
    return (out, n) if n is not None else None


def delta_diff(d):
    c = d.const()
    if c is not None:
        return ONE if c == 0 else ZERO
    if nonneg(d - 1) or nonneg(-d - 1):
        return ZERO
    f = d.single()
    if f is not None and f.kind == 'mod':
        return delta_mod(f.args[0], f.args[1])
    sm = _strip_mod(d)
    if sm is not None:
        # [mod(a) == b] with 0 <= b < n  <=>  a - b = 0 (mod n); check that the non-mod rest lies in the range
        e, n = sm
        pos, neg = ZERO, ZERO
        ok = True
        nm = 0
        for (sums, facs), c in d.terms.items():
            if any(f.kind == 'mod' for f, _ in facs):
                nm += 1
        rest = ZERO
        for (sums, facs), c in d.terms.items():
            if not any(f.kind == 'mod' for f, _ in facs):
                rest = rest + Expr({(sums, facs): c})
        if nm == 1:
            sgn = [c for (s_, fs), c in d.terms.items() if any(f.kind == 'mod' for f, _ in fs)][0]
            other = rest.scale(-sgn)
            ok = bool(nonneg(other) and nonneg(n - 1 - other))
        elif nm == 2:
            ok = rest.is_zero()
        else:
            ok = False
        if ok:
            return delta_mod(e, n)
    # distinct integer arrays: obs_t[a] == obs_t[b] <=> a == b
    if len(d.terms) == 2:
        items = list(d.terms.items())
        fs = []
        for (sums, facs), c in items:
            if not sums and len(facs) == 1 and facs[0][1] == 1 and facs[0][0].kind == 'el':
                fs.append((facs[0][0], c))
        if len(fs) == 2 and fs[0][1] == -fs[1][1] and fs[0][0].name == fs[1][0].name \
                and fs[0][0].name in EL_DISTINCT and len(fs[0][0].args) == 1:
            return delta_diff(fs[0][0].args[0] - fs[1][0].args[0])
    d = _primitive(d)
    return fac(Fac('dl', '', (lin_sign_normal(d),)))


def _primitive(d):
    """Divide by the (positive) content so that proportional integer equations coincide."""
    from math import gcd
    num, den = 0, 1
    for c in d.terms.values():
        num = gcd(num, c.numerator)
        den = den * c.denominator // gcd(den, c.denominator)
    if num == 0:
        return d
    return d.scale(Fraction(den, num))


def delta_mod(e, n):
    """[e = 0 (mod n)]"""
    e = reduce_mod(e, n)
    c = e.const()
    if c is not None:
        if c == 0:
            return ONE
        if nonneg(n - 1 - abs(int(c))):
            return ZERO
    return fac(Fac('dl', 'mod', (lin_sign_normal(e), n)))


def reduce_mod(e, n):
    """Open nested mods with the same modulus and drop multiples of n."""
    out = ZERO
    for (sums, facs), c in e.terms.items():
        if not sums and len(facs) == 1 and facs[0][1] == 1 and facs[0][0].kind == 'mod' \
                and facs[0][0].args[1] == n and c.denominator == 1:
            out = out + facs[0][0].args[0].scale(c)
        else:
            out = out + Expr({(sums, facs): c})
    nc = n.const()
    if nc is not None and nc.denominator == 1 and nc > 0:
        k = out.terms.get(UNIT, Fraction(0))
        if k.denominator == 1:
            k2 = k % nc
            out = out - E(k) + E(Fraction(k2))
        return out
    q, r = divide_terms(out, n)
    return r


def divide_terms(e, n):
    """(q, r) with e = n*q + r, q collecting the terms of e that are integer multiples of the monomial n."""
    if len(n.terms) == 2:
        # n = x + c: match the terms by the leading (non-constant) one
        ks = [k for k in n.terms if k != UNIT]
        if len(ks) == 1:
            lead = Expr({ks[0]: n.terms[ks[0]]})
            q, r = divide_terms(e, lead)
            return q, e - n * q
        return ZERO, e
    if len(n.terms) != 1:
        return ZERO, e
    (nk, nc), = n.terms.items()
    if nk[0]:
        return ZERO, e
    need = dict(nk[1])
    q, r = {}, {}
    for (sums, facs), c in e.terms.items():
        d = dict(facs)
        cc = c / nc
        if not sums and cc.denominator == 1 and all(d.get(f, 0) >= x for f, x in need.items()):
            rest = tuple((f, x - need.get(f, 0)) for f, x in facs if x != need.get(f, 0))
            q[((), rest)] = cc
        else:
            r[(sums, facs)] = c
    return Expr(q), Expr(r)


def fdiv(e, n):
    """floor(e / n) for integers, n > 0."""
    e, n = E(e), E(n)
    c, nc = e.const(), n.const()
    if nc is not None and nc == 1:
        return e
    if c is not None and nc is not None and nc > 0:
        return E(Fraction(c // nc))
    q, r = divide_terms(e, n)
    if nonneg(r) and nonneg(n - 1 - r):
        return q
    return q + fac(Fac('fdv', '', (r, n)))


def mod(e, n):
    e, n = E(e), E(n)
    e = reduce_mod(e, n)
    if nonneg(e) and nonneg(n - 1 - e):
        return e
    c, nc = e.const(), n.const()
    if c is not None and nc is not None and nc > 0:
        return E(c % nc)
    if c is not None and c < 0 and nonneg(n + E(c)):
        return n + E(c)
    # substituting by region: e in [n, 2n) etc. is left to the case splits of the comparison
    return fac(Fac('mod', '', (e, n)))


def ge(e):
    """[e >= 0] for integer-valued e."""
    e = E(e)
    if nonneg(e):
        return ONE
    if nonneg(-e - 1):
        return ZERO
    return fac(Fac('ge', '', (_primitive_floor(e),)))


def _primitive_floor(e):
    """Scale an integer inequality e >= 0 with a common factor in the non-constant part."""
    from math import gcd
    g, den = 0, 1
    for k, c in e.terms.items():
        den = den * c.denominator // gcd(den, c.denominator)
    e = e.scale(Fraction(den))
    for k, c in e.terms.items():
        if k != UNIT:
            g = gcd(g, abs(c.numerator))
    if g > 1:
        c0 = e.terms.get(UNIT, Fraction(0))
        rest = e - E(c0)
        return rest.scale(Fraction(1, g)) + E(Fraction(int(c0) // g))
    return e


def cond(name, args=()):
    return fac(Fac('cd', name, tuple(args)))


def in_range(x, lo, hi):
    x = E(x)
    return ge(x - lo) * ge(E(hi) - 1 - x)


MATRIX_FN = ('inv', 'chol', 'invchol')


def _lam_scalar(lam):
    k = ('scal', lam.s)
    if k not in LAMC:
        LAMC[k] = _lam_scalar1(lam)
    return LAMC[k]


def _lam_scalar1(lam):
    """Split the body of a matrix Lam into (scalar independent of the bound indices, Lam of the rest)."""
    terms = lam.body.terms
    if not terms:
        return None
    common = None
    bound = set(lam.vars)
    for (sums, facs), c in terms.items():
        d = {f: e for f, e in facs if not (f.fv & bound) and f.kind in ('sym', 'pw', 'fn', 'el', 'ivar')
             and not any(f.fv & {v} for v, _ in sums)}
        if common is None:
            common = d
        else:
            common = {f: e for f, e in common.items() if d.get(f) == e}
    cs = list(terms.values())
    coef = cs[0] if len(cs) == 1 else Fraction(1)
    if not common and coef == 1:
        return None
    if coef <= 0:
        coef = Fraction(1)
        if not common:
            return None
    sc = E(coef)
    for f, e in common.items():
        sc = sc * Expr({((), ((f, e),)): Fraction(1)})
    rest = {}
    for (sums, facs), c in terms.items():
        k = (sums, tuple((f, e) for f, e in facs if f not in common))
        rest[k] = rest.get(k, 0) + c / coef
    return sc, mk_lam(lam.shape, lam.vars, Expr(rest))


def fn(name, args=(), idx=()):
    """Uninterpreted function application; args are Expr / Lam, idx the element index of an array-valued one."""
    args = tuple(args)
    idx = tuple(E(i) for i in idx)
    if name in MATRIX_FN and len(args) == 1 and isinstance(args[0], Lam):
        lam = args[0]
        # identity / diagonal matrices
        r = _diag_body(lam)
        if r is not None:
            d = r
            g = {'inv': -1, 'chol': Fraction(1, 2), 'invchol': Fraction(-1, 2)}[name]
            return delta(idx[0], idx[1]) * power(subs(d, {lam.vars[0]: idx[0]}), Fraction(g))
        sp = _lam_scalar(lam)
        if sp is not None:
            sc, rest = sp
            g = {'inv': -1, 'chol': Fraction(1, 2), 'invchol': Fraction(-1, 2)}[name]
            return power(sc, Fraction(g)) * fn(name, (rest,), idx)
        if name == 'inv':
            f1 = lam.body.single()
            if f1 is not None and f1.kind == 'fn' and f1.name in ('chol', 'invchol', 'inv') and len(f1.args) == 3:
                back = {'chol': 'invchol', 'invchol': 'chol', 'inv': None}[f1.name]
                a, b = ivar(lam.vars[0]), ivar(lam.vars[1])
                if f1.args[1:] in ((a, b), (b, a)):
                    i, j = idx if f1.args[1] == a else (idx[1], idx[0])
                    return fn(back, (f1.args[0],), (i, j)) if back else f1.args[0].inst((i, j))
        if name == 'inv' and _lam_symmetric(lam) and str(idx[1]) < str(idx[0]):
            idx = (idx[1], idx[0])
    if name == 'logdet' and isinstance(args[0], Lam):
        lam = args[0]
        n = lam.shape[0]
        f1 = lam.body.single()
        if f1 is not None and f1.kind == 'fn' and f1.name in ('chol', 'invchol') and len(f1.args) == 3 \
                and set(map(str, f1.args[1:])) == set(str(ivar(x)) for x in lam.vars):
            return fn('logdet', (f1.args[0],)).scale(Fraction(1 if f1.name == 'chol' else -1, 2))
        if f1 is not None and f1.kind == 'fn' and f1.name == 'inv':
            k = len(f1.args) - 2
            if f1.args[k:] in ((ivar(lam.vars[0]), ivar(lam.vars[1])), (ivar(lam.vars[1]), ivar(lam.vars[0]))):
                return -fn('logdet', (f1.args[0],))
        d = _diag_body(lam)
        if d is not None:
            v = fresh(0, n)
            return Sum(v, n, log(subs(d, {lam.vars[0]: ivar(v)})))
        sp = _lam_scalar(lam)
        if sp is not None:
            sc, rest = sp
            return n * log(sc) + fn('logdet', (rest,))
    if name == 'log':
        return log(args[0])
    return fac(Fac('fn', name, args + idx))


def _diag_body(lam):
    k = ('diag', lam.s)
    if k not in LAMC:
        LAMC[k] = _diag_body1(lam)
    return LAMC[k]


def _diag_body1(lam):
    """d with lam = diag(d) if every term of the body carries delta(#0,#1); d is over #0."""
    if len(lam.vars) != 2:
        return None
    dfac = delta(ivar(lam.vars[0]), ivar(lam.vars[1])).single()
    out = {}
    for (sums, facs), c in lam.body.terms.items():
        if not any(f is dfac for f, _ in facs):
            return None
        out[(sums, tuple(x for x in facs if x[0] is not dfac))] = c
    if not out:
        return None
    e = Expr(out)
    return subs(e, {lam.vars[1]: ivar(lam.vars[0])})


def _lam_symmetric(lam):
    k = ('sym', lam.s)
    if k not in LAMC:
        LAMC[k] = _lam_symmetric1(lam)
    return LAMC[k]


def _lam_symmetric1(lam):
    if len(lam.vars) != 2:
        return False
    a, b = lam.vars
    t = fresh(0, lam.shape[0])
    sw = subs(subs(lam.body, {a: ivar(t)}), {b: ivar(a)})
    sw = subs(sw, {t: ivar(b)})
    return sw == lam.body


def log(e):
    e = E(e)
    if e == ONE:
        return ZERO
    if len(e.terms) == 1:
        (k, c), = e.terms.items()
        sums, facs = k
        if not sums and c > 0:
            out = ZERO
            if c != 1:
                out = out + _logc(c)
            for f, x in facs:
                if f.kind in INDICATORS:
                    return fac(Fac('fn', 'log', (e,)))
            for f, x in facs:
                if f.kind == 'pw':
                    out = out + fac(Fac('fn', 'log', (f.args[0],))).scale(Fraction(x))
                elif f.kind == 'fn' and f.name == 'exp':
                    out = out + f.args[0].scale(Fraction(x))
                else:
                    out = out + fac(Fac('fn', 'log', (fac(f),))).scale(Fraction(x))
            return out
    return fac(Fac('fn', 'log', (e,)))


def _logc(c):
    """log of a positive rational as a combination of logs of primes."""
    out = ZERO
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        p = 2
        while n > 1 and p < 1000:
            k = 0
            while n % p == 0:
                n //= p
                k += 1
            if k:
                out = out + fac(Fac('fn', 'log', (E(p),))).scale(Fraction(s * k))
            p += 1
        if n > 1:
            out = out + fac(Fac('fn', 'log', (E(n),))).scale(Fraction(s))
    return out


def _root_rat(c, q):
    """Exact q-th root of a positive rational or None."""
    if q == 2:
        a, b = isqrt(c.numerator), isqrt(c.denominator)
        if a * a == c.numerator and b * b == c.denominator:
            return Fraction(a, b)
    return None


def power(e, n):
    e = E(e)
    n = Fraction(n)
    if n == 1:
        return e
    if n == 0:
        return ONE
    if not e.terms:
        if n > 0:
            return ZERO
        return unk('zero-division')
    if len(e.terms) == 1:
        (k, c), = e.terms.items()
        sums, facs = k
        if not sums:
            if n.denominator == 1:
                out = E(c ** int(n))
            elif c > 0:
                r = _root_rat(c, n.denominator)
                if r is not None:
                    out = E(r ** n.numerator)
                else:
                    w, fr = divmod(n, 1)
                    out = E(c ** int(w)) * fac(Fac('pw', '', (E(c),)), fr)
            else:
                return fac(Fac('pw', '', (e,)), n)
            for f, x in facs:
                if f.kind in INDICATORS:
                    if n < 0:
                        return fac(Fac('pw', '', (e,)), n)
                    out = out * fac(f)
                else:
                    y = Fraction(x) * n
                    if f.kind == 'pw':
                        out = out * _pwf(f.args[0], y)
                    elif n.denominator != 1 and Fraction(x) % 2 == 0 and y % 2 != 0 and not _positive(f):
                        # sqrt(x**2) is |x|
                        out = out * power(fac(Fac('fn', 'abs', (fac(f),))), y)
                    else:
                        out = out * fac(f, _ex(y))
            return out
    if n.denominator == 1 and n > 0:
        if n > 12:
            return fac(Fac('pw', '', (e,)), n)
        out = e
        for _ in range(int(n) - 1):
            out = out * e
        return out
    return _pwf(e, n)


def _ex(y):
    return int(y) if y.denominator == 1 else y


def _positive(f):
    return f.name in POSITIVE


def _pwf(base, n):
    """base**n for a multi-term base, with the (positive) leading coefficient split off."""
    n = Fraction(n)
    c = base.const()
    if c is not None:
        if n.denominator == 1:
            return E(c ** int(n))
        w, fr = divmod(n, 1)
        return E(c ** int(w)) * fac(Fac('pw', '', (E(c),)), fr)
    if n.denominator == 1 and n > 0:
        return power(base, n)
    if n.denominator != 1 and n > 1:
        w, fr = divmod(n, 1)
        return power(base, w) * _pwf(base, fr)
    # content
    ks = sorted(base.terms, key=lambda k: _term_str(k, Fraction(1)))
    lead = base.terms[ks[0]]
    if lead < 0 and n.denominator != 1:
        lead = -lead
    sc = ONE
    if lead != 1:
        base = base.scale(1 / lead)
        sc = power(E(lead), n)
    return sc * fac(Fac('pw', '', (base,)), _ex(n))


# ---------------------------------------------------------------------------------------------------------------
#  products of terms
# ---------------------------------------------------------------------------------------------------------------

def _open(key):
    """Rename the bound variables of a term to fresh names; returns (sums, facs)."""
    sums, facs = key
    if not sums:
        return [], list(facs)
    m = {}
    out = []
    for v, hi in sums:
        hi = subs(hi, {a: b for a, b in m.items()}) if m else hi
        n = fresh(0, hi, 's')
        m[v] = ivar(n)
        out.append((n, hi))
    nf = []
    for f, e in facs:
        if f.fv & m.keys():
            g = subs_fac(f, m)
            gs = g.single()
            if gs is None:
                raise AlgLimit('rename of bound variable is not a renaming')
            nf.append((gs, e))
        else:
            nf.append((f, e))
    return out, nf


def _mul_terms(k1, k2):
    if k1 == UNIT:
        return {k2: Fraction(1)}
    if k2 == UNIT:
        return {k1: Fraction(1)}
    s1, f1 = _open(k1) if k1[0] else ([], list(k1[1]))
    s2, f2 = _open(k2) if k2[0] else ([], list(k2[1]))
    if not s1 and not s2:
        return _norm([], f1 + f2)
    return _norm(s1 + s2, f1 + f2)


def _norm(sums, facs):
    """Normalise a monomial: list of open sums and list of (Fac, exponent).  Returns a dict of terms."""
    d = {}
    for f, e in facs:
        if f in d:
            if f.kind in INDICATORS:
                continue
            d[f] = d[f] + e
        else:
            d[f] = 1 if f.kind in INDICATORS else e
    coef = Fraction(1)
    for f in list(d):
        e = d[f]
        if e == 0:
            del d[f]
            continue
        if isinstance(e, Fraction) and e.denominator == 1:
            d[f] = int(e)
        if f.kind == 'pw':
            e = Fraction(d[f])
            base = f.args[0]
            c = base.const()
            if e.denominator == 1 and (c is not None or e > 0):
                del d[f]
                rest = _close(sums, Fraction(1), d)
                p = power(base, e)
                # sums were closed around the rest: reopen through multiplication only if base is free of them
                if any(base.fv & {v} for v, _ in sums):
                    return _close_expr(sums, Expr(_plain(d)) * p).terms
                return (Expr(rest) * p).terms
            if c is not None and (e > 1 or e < 0):
                w, fr = divmod(e, 1)
                coef *= c ** int(w)
                if fr:
                    d[f] = fr
                else:
                    del d[f]
    return _scale(_close(sums, Fraction(1), d), coef)


def _scale(terms, c):
    if c == 1:
        return terms
    return {k: v * c for k, v in terms.items()}


def _plain(d):
    return {((), tuple(sorted(((f, e) for f, e in d.items()), key=lambda x: (x[0].s, x[1])))): Fraction(1)}


def _lin(e, v):
    """(a, b) with e = a*v + b, a a non-zero rational and v not in b; else None."""
    a = None
    rest = {}
    for (sums, facs), c in e.terms.items():
        touched = [f for f, _ in facs if v in f.fv]
        if not touched:
            rest[(sums, facs)] = c
            continue
        if len(facs) == 1 and not sums and facs[0][0].kind == 'ivar' and facs[0][1] == 1:
            a = c
        else:
            return None
    if a is None:
        return None
    return a, Expr(rest)


def _close(sums, coef, d):
    """Normal form of  coef * Sum_{sums} prod(d).  sums: list of (fresh var, hi)."""
    # ---- contradictions / redundancies between indicators
    ges = [f for f in d if f.kind == 'ge']
    for i, f in enumerate(ges):
        for g in ges[i + 1:]:
            if f not in d or g not in d:
                continue
            a, b = f.args[0], g.args[0]
            if nonneg(-(a + b) - 1):
                return {}
            if nonneg(a - b):
                del d[f]
            elif nonneg(b - a):
                del d[g]
            elif (a + b).is_zero():
                # a >= 0 and -a >= 0: equality
                del d[f]
                del d[g]
                return _close_expr(sums, Expr(_plain(d)) * delta_diff(a)).terms
    bound = {v for v, _ in sums}
    # ---- delta elimination
    for f in list(d):
        if f.kind != 'dl':
            continue
        if f.name == 'mod':
            x, n = f.args
            for v, hi in sums:
                if v in x.fv and hi == n:
                    l = _lin(x, v)
                    if l is not None and abs(l[0]) == 1:
                        sol = mod((-l[1]).scale(1 / l[0]), n)
                        return _eliminate(sums, d, f, v, hi, sol, False)
            continue
        x = f.args[0]
        for v, hi in sums:
            if v in x.fv:
                l = _lin(x, v)
                if l is not None and abs(l[0]) == 1:
                    sol = (-l[1]).scale(1 / l[0])
                    return _eliminate(sums, d, f, v, hi, sol, True)
                # Sum over v of [obs[v] == j]: keep
    # free deltas: propagate the equality into the other factors (largest variable is replaced)
    for f in list(d):
        if f.kind != 'dl':
            continue
        x = f.args[0]
        cands = sorted((g.name for (s_, fs), c in x.terms.items() if not s_ and len(fs) == 1 and fs[0][1] == 1
                        and fs[0][0].kind == 'ivar' and abs(c) == 1 for g in (fs[0][0],) if g.name not in bound),
                       reverse=True)
        for v in cands:
            l = _lin(x, v)
            if l is None or (l[1].fv & bound):
                continue
            if f.name == 'mod':
                n = f.args[1]
                r = VR.get(v)
                if r is None or not r[0].is_zero() or r[1] != n:
                    continue
                sol = mod((-l[1]).scale(1 / l[0]), n)
                if v in sol.fv:
                    continue
            else:
                sol = (-l[1]).scale(1 / l[0])
            if any(v in g.fv for g in d if g is not f):
                keep = {g: e for g, e in d.items() if g is f or v not in g.fv}
                prod = ONE
                for g, e in d.items():
                    if g is not f and v in g.fv:
                        prod = prod * power_sub(g, e, {v: sol})
                return _close_expr(sums, Expr(_plain(keep)) * prod).terms
            break
        else:
            # replace an integer array element, e.g. [obs_t[n] - i] with i a compound: nothing to do
            continue
    # ---- range indicators on bound variables
    for i, (v, hi) in enumerate(sums):
        for f in list(d):
            if f.kind == 'ge' and v in f.fv:
                l = _lin(f.args[0], v)
                if l is None or abs(l[0]) != 1:
                    continue
                a, b = l
                others = {x for x, _ in sums if x != v}
                if b.fv & others:
                    continue
                if a == 1:      # v >= -b
                    lo = -b
                    if nonneg(lo):           # shift the range
                        if nonneg(lo - hi):
                            return {}
                        del d[f]
                        nv = fresh(0, hi - lo, 's')
                        prod = ONE
                        for g, e in d.items():
                            prod = prod * (power_sub(g, e, {v: ivar(nv) + lo}) if v in g.fv else fac(g, e))
                        ns = list(sums)
                        ns[i] = (nv, hi - lo)
                        return _scale(_close_expr(ns, prod).terms, coef)
                else:           # v <= b
                    nh = b + 1
                    if nonneg(hi - nh):
                        if nonneg(-nh):
                            return {}
                        del d[f]
                        ns = list(sums)
                        nv = fresh(0, nh, 's')
                        prod = ONE
                        for g, e in d.items():
                            prod = prod * (power_sub(g, e, {v: ivar(nv)}) if v in g.fv else fac(g, e))
                        ns[i] = (nv, nh)
                        return _scale(_close_expr(ns, prod).terms, coef)
    # ---- contractions of a matrix with its inverse / factors
    for v, hi in sums:
        occ = [(f, e) for f, e in d.items() if v in f.fv]
        tot = sum(e if e == 2 else 1 for _, e in occ)
        pair = None
        if len(occ) == 2 and occ[0][1] == 1 and occ[1][1] == 1:
            pair = (occ[0][0], occ[1][0])
        elif len(occ) == 1 and occ[0][1] == 2:
            pair = (occ[0][0], occ[0][0])
        if pair:
            r = _contract(pair[0], pair[1], v, hi)
            if r is None and pair[0] is not pair[1]:
                r = _contract(pair[1], pair[0], v, hi)
            if r is not None:
                keep = {g: e for g, e in d.items() if v not in g.fv}
                ns = [s for s in sums if s[0] != v]
                return _scale(_close_expr(ns, Expr(_plain(keep)) * r).terms, coef)
    # ---- sum of the logarithms of a Cholesky diagonal
    for v, hi in sums:
        occ = [(f, e) for f, e in d.items() if v in f.fv]
        if len(occ) == 1 and occ[0][1] == 1 and occ[0][0].kind == 'fn' and occ[0][0].name == 'log':
            g = occ[0][0].args[0].single() if isinstance(occ[0][0].args[0], Expr) else None
            if g is not None and g.kind == 'fn' and g.name in ('chol', 'invchol') and len(g.args) == 3 \
                    and g.args[1] == ivar(v) and g.args[2] == ivar(v) and g.args[0].shape[0] == hi \
                    and v not in g.args[0].fv:
                r = fn('logdet', (g.args[0],)).scale(Fraction(1 if g.name == 'chol' else -1, 2))
                keep = {h: e for h, e in d.items() if v not in h.fv}
                ns = [s for s in sums if s[0] != v]
                return _scale(_close_expr(ns, (Expr(_plain(keep)) if keep else ONE) * r).terms, coef)
    # ---- concrete or vacuous sums
    for i, (v, hi) in enumerate(sums):
        if not any(v in f.fv for f in d) and not any(v in h.fv for _, h in sums):
            ns = sums[:i] + sums[i + 1:]
            return _scale((_wrap(_close(ns, Fraction(1), dict(d))) * hi).terms, coef)
        c = hi.const()
        if c is not None and c <= 12:
            out = ZERO
            ns = sums[:i] + sums[i + 1:]
            keep = {g: e for g, e in d.items() if v not in g.fv}
            dep = [(g, e) for g, e in d.items() if v in g.fv]
            for j in range(int(c)):
                prod = Expr(_plain(keep)) if keep else ONE
                for g, e in dep:
                    prod = prod * power_sub(g, e, {v: E(j)})
                    if prod.is_zero():
                        break
                if not prod.is_zero():
                    out = out + _close_expr([(a, subs(b, {v: E(j)})) for a, b in ns], prod)
            return _scale(out.terms, coef)
    if not sums:
        return {((), tuple(sorted(d.items(), key=lambda x: x[0].s))): coef}
    return {_canon(sums, d): coef}


def _wrap(terms):
    return Expr({k: c for k, c in terms.items() if c})


def _eliminate(sums, d, f, v, hi, sol, check):
    del d[f]
    ns = [s for s in sums if s[0] != v]
    prod = in_range(sol, 0, hi) if check else ONE
    for g, e in d.items():
        prod = prod * (power_sub(g, e, {v: sol}) if v in g.fv else fac(g, e))
    return _close_expr(ns, prod).terms


def power_sub(g, e, m):
    return power(subs_fac(g, m), e)


def _close_expr(sums, e):
    """Close the open sums around every term of e."""
    if not sums:
        return e
    acc = {}
    for k, c in e.terms.items():
        s, fs = _open(k) if k[0] else ([], list(k[1]))
        d = dict(fs)
        _acc(acc, _close(list(sums) + s, Fraction(1), d), c)
    return _wrap(acc)


def _matpos(f, v):
    """Positions (argument index) at which the bare variable v occurs in f (only as a whole index)."""
    iv = ivar(v)
    pos = [i for i, a in enumerate(f.args) if isinstance(a, Expr) and a == iv]
    if len(pos) != 1:
        return None
    if any(v in a.fv for i, a in enumerate(f.args) if i != pos[0]):
        return None
    return pos[0]


def _contract(f, g, v, hi):
    p = _matpos(f, v)
    q = _matpos(g, v)
    if p is None or q is None:
        return None
    if f.kind == 'fn' and g.kind == 'fn' and f.name == g.name and f.name in ('chol', 'invchol') \
            and f.args[0] == g.args[0]:
        lam = f.args[0]
        if f.name == 'chol' and p == 2 and q == 2:
            return lam.inst((f.args[1], g.args[1]))
        if f.name == 'invchol' and p == 1 and q == 1:
            return fn('inv', (lam,), (f.args[2], g.args[2]))
        return None
    if f.kind == 'fn' and f.name == 'inv':
        lam = f.args[0]
        other = f.args[2] if p == 1 else f.args[1]
        b = lam.body.single()
        if b is None or b.kind != g.kind or b.name != g.name or len(b.args) != len(g.args):
            return None
        sy = _lam_symmetric(lam)
        vs = [ivar(x) for x in lam.vars]
        try:
            pos = [[i for i, a in enumerate(b.args) if a == w][0] for w in vs]
        except IndexError:
            return None
        if any(b.args[i] != g.args[i] for i in range(len(b.args)) if i not in pos):
            return None
        # inv[o, v] * X[v, w] -> delta(o, w);  inv[v, o] * X[w, v] -> delta(o, w)
        if q not in pos:
            return None
        w = g.args[pos[1] if q == pos[0] else pos[0]]
        ok = sy or (p == 2 and q == pos[0]) or (p == 1 and q == pos[1])
        if not ok:
            return None
        return delta(other, w)
    return None


def _canon(sums, d):
    """Canonical names for the bound variables of one term."""
    h = 1
    for f in d:
        h = max(h, f.h + 1)
    for _, hi in sums:
        h = max(h, height(hi) + 1)
    n = len(sums)
    names = ['$%d_%d' % (h, i) for i in range(n)]
    if n == 1:
        perms = [(0,)]
        order = [0]
    else:
        # invariants of each variable
        sig = []
        for v, hi in sums:
            m = {x: ivar('*') for x, _ in sums}
            m[v] = ivar('!')
            parts = []
            for f, e in d.items():
                if v in f.fv:
                    parts.append('%s^%s' % (subs_fac(f, m), e))
            sig.append((str(hi), tuple(sorted(parts))))
        order = sorted(range(n), key=lambda i: sig[i])
        groups = []
        for i in order:
            if groups and sig[groups[-1][-1]] == sig[i]:
                groups[-1].append(i)
            else:
                groups.append([i])
        perms = [[]]
        tot = 1
        for g in groups:
            from math import factorial
            tot *= factorial(len(g))
        if tot > 720:
            perms = [order]
        else:
            for g in groups:
                perms = [p + list(q) for p in perms for q in permutations(g)]
    best = None
    for p in perms:
        m = {}
        for j, i in enumerate(p):
            m[sums[i][0]] = ivar(names[j])
            VR[names[j]] = (ZERO, sums[i][1])
        fs = []
        for f, e in d.items():
            if f.fv & m.keys():
                g = subs_fac(f, m).single()
                if g is None:
                    raise AlgLimit('canonical renaming changed a factor')
                fs.append((g, e))
            else:
                fs.append((f, e))
        fs.sort(key=lambda x: (x[0].s, x[1]))
        ss = tuple((names[j], subs(sums[i][1], m)) for j, i in enumerate(p))
        s = '|'.join('%s^%s' % (f.s, e) for f, e in fs) + '~' + '|'.join(str(x[1]) for x in ss)
        if best is None or s < best[0]:
            best = (s, (ss, tuple(fs)))
    return best[1]


# ---------------------------------------------------------------------------------------------------------------
#  substitution
# ---------------------------------------------------------------------------------------------------------------
_subs_cache = {}


def subs(e, m):
    """Substitute index variables (name -> Expr)."""
    m = {k: v for k, v in m.items() if k in e.fv}
    if not m:
        return e
    out = ZERO
    acc = {}
    for k, c in e.terms.items():
        sums, facs = k
        hit = any(f.fv & m.keys() for f, _ in facs) or any(hi.fv & m.keys() for _, hi in sums)
        if not hit:
            _acc(acc, {k: Fraction(1)}, c)
            continue
        s, fs = _open(k) if sums else ([], list(facs))
        keep = []
        prod = ONE
        for f, x in fs:
            if f.fv & m.keys():
                prod = prod * power(subs_fac(f, m), x)
            else:
                keep.append((f, x))
        if keep:
            prod = prod * Expr({((), tuple(sorted(keep, key=lambda x: x[0].s))): Fraction(1)})
        s = [(v, subs(hi, m)) for v, hi in s]
        for v, hi in s:
            VR[v] = (ZERO, hi)
        _acc(acc, _close_expr(s, prod).terms, c)
    return _wrap(acc)


def subs_arg(a, m):
    if isinstance(a, Expr):
        return subs(a, m)
    if isinstance(a, Lam):
        mm = {k: v for k, v in m.items() if k in a.fv}
        if not mm:
            return a
        shape = tuple(subs(d, mm) for d in a.shape)
        new = [fresh(0, d) for d in shape]
        b = subs(a.body, {v: ivar(n) for v, n in zip(a.vars, new)})
        b = subs(b, mm)
        return mk_lam(shape, new, b)
    return a


def subs_fac(f, m):
    if not (f.fv & m.keys()):
        return fac(f)
    if f.kind == 'ivar':
        return m[f.name]
    args = tuple(subs_arg(a, m) for a in f.args)
    return rebuild(f, args)


def rebuild(f, args):
    k = f.kind
    if k == 'el':
        return el(f.name, args)
    if k == 'dl':
        return delta_mod(args[0], args[1]) if f.name == 'mod' else delta_diff(args[0])
    if k == 'ge':
        return ge(args[0])
    if k == 'mod':
        return mod(args[0], args[1])
    if k == 'fdv':
        return fdiv(args[0], args[1])
    if k == 'cd':
        return rebuild_cond(f.name, args)
    if k == 'pw':
        return power1(args[0])
    if k == 'fn':
        if f.name in MATRIX_FN:
            return fn(f.name, args[:-2], args[-2:])
        return fn(f.name, args)
    return fac(f)


def power1(base):
    return base


def rebuild_cond(name, args):
    if name == 'pos':
        return pos(args[0])
    if name == 'eq0':
        return eq0(args[0])
    return cond(name, args)


def resimplify(e):
    """Rebuild e bottom-up (after ranges or minima have changed)."""
    acc = ZERO
    for k, c in e.terms.items():
        s, fs = _open(k) if k[0] else ([], list(k[1]))
        prod = ONE
        for f, x in fs:
            prod = prod * power(_resimp_fac(f), x)
        s = [(v, resimplify(hi)) for v, hi in s]
        for v, hi in s:
            VR[v] = (ZERO, hi)
        acc = acc + _close_expr(s, prod).scale(c)
    return acc


def _resimp_fac(f):
    if not f.args:
        return fac(f)
    args = []
    for a in f.args:
        if isinstance(a, Expr):
            args.append(resimplify(a))
        elif isinstance(a, Lam):
            new = [fresh(0, d) for d in a.shape]
            b = subs(a.body, {v: ivar(n) for v, n in zip(a.vars, new)})
            args.append(mk_lam(a.shape, new, resimplify(b)))
        else:
            args.append(a)
    return rebuild(f, tuple(args))


def replace_atoms(e, fun):
    """Map every factor through fun(Fac) -> Expr or None (None: recurse into the arguments)."""
    acc = ZERO
    for k, c in e.terms.items():
        s, fs = _open(k) if k[0] else ([], list(k[1]))
        prod = ONE
        for f, x in fs:
            prod = prod * power(_replace_fac(f, fun), x)
        s = [(v, replace_atoms(hi, fun)) for v, hi in s]
        for v, hi in s:
            VR[v] = (ZERO, hi)
        acc = acc + _close_expr(s, prod).scale(c)
    return acc


def _replace_fac(f, fun):
    r = fun(f)
    if r is not None:
        return E(r)
    if not f.args:
        return fac(f)
    args = []
    changed = False
    for a in f.args:
        if isinstance(a, Expr):
            b = replace_atoms(a, fun)
        elif isinstance(a, Lam):
            new = [fresh(0, d) for d in a.shape]
            body = subs(a.body, {v: ivar(n) for v, n in zip(a.vars, new)})
            b = mk_lam(tuple(replace_atoms(d, fun) for d in a.shape), new, replace_atoms(body, fun))
        else:
            b = a
        changed = changed or b is not a
        args.append(b)
    return rebuild(f, tuple(args))


def atoms(e, out=None):
    """All factors occurring anywhere in e."""
    if out is None:
        out = set()
    if isinstance(e, Lam):
        atoms(e.body, out)
        for d in e.shape:
            atoms(d, out)
        return out
    for (sums, facs) in e.terms:
        for _, hi in sums:
            atoms(hi, out)
        for f, _ in facs:
            if f not in out:
                out.add(f)
                for a in f.args:
                    if isinstance(a, (Expr, Lam)):
                        atoms(a, out)
    return out


# ---------------------------------------------------------------------------------------------------------------
#  sums
# ---------------------------------------------------------------------------------------------------------------

def Sum(v, hi, body, lo=ZERO):
    """Sum of body over v in [lo, hi)."""
    lo, hi = E(lo), E(hi)
    if not lo.is_zero():
        nv = fresh(0, hi - lo, 's')
        body = subs(body, {v: ivar(nv) + lo})
        v, hi = nv, hi - lo
    if nonneg(-hi):
        return ZERO
    if body.is_zero():
        return ZERO
    if v not in body.fv:
        return body * hi
    # split at breakpoints of indicators nested in arguments
    bps = _nested_breaks(body, v)
    pts = []
    for b in bps:
        if nonneg(b - 1) and nonneg(hi - 1 - b):
            pts.append(b)
    pts = _sort_points(pts)
    if pts:
        edges = [ZERO] + pts + [hi]
        out = ZERO
        for a, b in zip(edges, edges[1:]):
            nv = fresh(0, b - a, 's')
            out = out + Sum1(nv, b - a, subs(body, {v: ivar(nv) + a}))
        return out
    return Sum1(v, hi, body)


def Sum1(v, hi, body):
    nv = fresh(0, hi, 's')
    body = subs(body, {v: ivar(nv)})
    return _close_expr([(nv, hi)], body)


def _sort_points(pts):
    out = []
    for p in pts:
        if any(p == q for q in out):
            continue
        i = 0
        ok = True
        while i < len(out):
            if nonneg(out[i] - p):
                break
            if not nonneg(p - out[i]):
                ok = False
                break
            i += 1
        if ok:
            out.insert(i, p)
    return out


def breaks(e, v, deep=True, top=True, out=None):
    """Break points of e as a function of index variable v (first index of a new region)."""
    if out is None:
        out = []
    if isinstance(e, Lam):
        breaks(e.body, v, deep, True, out)
        return out
    for (sums, facs) in e.terms:
        for f, _ in facs:
            if v not in f.fv:
                continue
            if top and f.kind in ('ge', 'dl') and f.name != 'mod':
                l = _lin(f.args[0], v)
                if l is not None and not _bound_in(l[1]):
                    a, b = l
                    r = (-b).scale(1 / a)
                    if abs(a) != 1:
                        continue
                    if f.kind == 'ge':
                        out.append(r if a > 0 else r + 1)
                    else:
                        out.append(r)
                        out.append(r + 1)
            if f.kind == 'mod' or (f.kind == 'dl' and f.name == 'mod'):
                # wrap-around points of mod(v + c, n)
                l = _lin(f.args[0], v)
                if l is not None and abs(l[0]) == 1 and not _bound_in(l[1]) and f.kind == 'mod':
                    a, b = l
                    n = f.args[1]
                    lo, hi = VR.get(v, (None, None))
                    if lo is None:
                        continue
                    top_, bot = (b + hi - 1, b + lo) if a > 0 else (b - lo, b - hi + 1)
                    if not (nonneg(3 * n - 1 - top_) and nonneg(bot + n)):
                        continue        # a split at the first wrap-around points would not resolve it
                    for k in (0, 1, 2):
                        r = ((n.scale(Fraction(k))) - b).scale(1 / a)
                        out.append(r)
                        if a < 0:
                            out.append(r + 1)
            if deep:
                for a in f.args:
                    if isinstance(a, (Expr, Lam)) and v in a.fv:
                        breaks(a, v, True, True, out)
    return out


def _bound_in(e):
    return any(x[0] in '$#' for x in e.fv)


def _nested_breaks(e, v):
    out = []
    for (sums, facs) in e.terms:
        for f, _ in facs:
            if v in f.fv and f.kind in ('fn', 'pw', 'el', 'cd'):
                for a in f.args:
                    if isinstance(a, (Expr, Lam)) and v in a.fv:
                        breaks(a, v, True, True, out)
    return [b for b in out if not _bound_in(b) and v not in b.fv]


# ---------------------------------------------------------------------------------------------------------------
#  signs of integer expressions
# ---------------------------------------------------------------------------------------------------------------

def _plain_nonneg(e):
    """A sum of products of factors that are not negative."""
    for (sums, facs), c in e.terms.items():
        if sums or c < 0:
            return False
        for f, x in facs:
            if f.kind == 'fn' and f.name in ('abs', 'floor') and (f.name == 'abs' or _plain_nonneg(f.args[0])):
                continue
            if f.kind == 'sym' and (f.name in POSITIVE or SYM_MIN.get(f.name, -1) >= 0):
                continue
            if f.kind == 'pw' and isinstance(f.args[0], Expr) and _plain_nonneg(f.args[0]):
                continue
            return False
    return True


def nonneg(e, depth=0):
    """True if e >= 0 can be shown for all admissible indices and dimensions; None/False otherwise."""
    e = E(e)
    c = e.const()
    if c is not None:
        return c >= 0
    if depth == 0 and len(e.fv) == 1 and any(f.kind == 'dl' for f in _top_atoms(e)):
        # a table over an index of constant range
        v, = e.fv
        lo, hi = VR.get(v, (None, None))
        lo, hi = (None if x is None else x.const() for x in (lo, hi))
        if lo is not None and hi is not None and hi - lo <= 64:
            return all(nonneg(subs(e, {v: E(lo + k)}), 1) for k in range(int(hi - lo))) or None
    if depth > 8 or len(e.terms) > 14:
        return None
    # a floored quotient: between (r - n + 1)/n and r/n
    for f in _top_atoms(e):
        if f.kind == 'fdv' and f.args[1].const() is not None and f.args[1].const() > 0:
            sp = _split_lin(e, f)
            if sp is None:
                return None
            a, b = sp
            r, n = f.args
            k = 1 / n.const()
            if nonneg(a, depth + 1):
                return bool(nonneg(a * (r - n + 1).scale(k) + b, depth + 1) or
                            nonneg(r, depth + 1) and nonneg(b, depth + 1)) or None
            if nonneg(-a, depth + 1):
                return nonneg(a * r.scale(k) + b, depth + 1)
            return None
        if f.kind == 'fdv' and nonneg(f.args[1] - 1, depth + 2):
            sp = _split_lin(e, f)
            if sp is None:
                return None
            a, b = sp
            r, n = f.args
            if nonneg(-a, depth + 1):
                return nonneg(a * r + b * n, depth + 1)
            if nonneg(a, depth + 1):
                return bool(nonneg(a * (r - n + 1) + b * n, depth + 1) or
                            nonneg(r, depth + 1) and nonneg(b, depth + 1)) or None
            return None
        if f.kind == 'fn' and f.name == 'floor' and len(f.args) == 1 and isinstance(f.args[0], Expr):
            sp = _split_lin(e, f)
            if sp is None:
                return None
            a, b = sp
            return bool(nonneg(a, depth + 1) and nonneg(b, depth + 1) and _plain_nonneg(f.args[0])) or None
    # ranged atoms: index variables, integer array elements, mods
    cand = None
    for (sums, facs), c in e.terms.items():
        if sums:
            return None
        for f, x in facs:
            if f.kind == 'ivar' or f.kind == 'mod' or (f.kind == 'el' and f.name in EL_RANGE):
                if cand is None or f.s > cand.s:
                    cand = f
            elif f.kind == 'sym' and f.name in SYM_MIN:
                pass
            elif f.kind in ('ge', 'dl') and depth < 6:
                # a 0/1 factor: both cases
                off = Expr({k: v for k, v in e.terms.items() if all(g is not f for g, _ in k[1])})
                on = replace_atoms(e, lambda g, f=f: ONE if g is f else None)
                if not nonneg(off, depth + 1) and not (
                        f.kind == 'ge' and depth < 4 and nonneg(off + f.args[0] + 1, depth + 2)):
                    return None
                return bool(nonneg(on, depth + 1) or
                            f.kind == 'ge' and depth < 4 and nonneg(on - f.args[0], depth + 2)) or None
            else:
                return None
    # prefer variables whose range depends on other variables
    if cand is not None:
        fs = [f for f in _top_atoms(e) if f.kind in ('ivar', 'mod') or (f.kind == 'el' and f.name in EL_RANGE)]
        for f in sorted(fs, key=lambda f: f.s, reverse=True):
            r = frange(f)
            if r is None:
                return None
            sp = _split_lin(e, f)
            if sp is None:
                continue
            a, b = sp
            lo, hi = r
            if nonneg(a, depth + 1):
                t = a * lo + b
            elif nonneg(-a, depth + 1):
                t = a * (hi - 1) + b
            else:
                continue
            if f in _top_atoms(t):
                continue
            if nonneg(t, depth + 1):
                return True
        return None
    # polynomial in dimensions only
    m = {}
    for (sums, facs), c in e.terms.items():
        for f, x in facs:
            if x != int(x) or x < 0:
                return None
            m[f.name] = SYM_MIN[f.name]
    sh = _shift_dims(e, m)
    return all(c >= 0 for c in sh.values()) or None


def _top_atoms(e):
    return {f for (s, fs) in e.terms for f, _ in fs}


def frange(f):
    if f.kind == 'ivar':
        return VR.get(f.name)
    if f.kind == 'mod':
        return (ZERO, f.args[1])
    if f.kind == 'el':
        return EL_RANGE.get(f.name)
    return None


def _split_lin(e, f):
    a, b = {}, {}
    for (sums, facs), c in e.terms.items():
        hit = [x for g, x in facs if g is f]
        if not hit:
            b[(sums, facs)] = c
        elif hit[0] == 1:
            a[(sums, tuple(y for y in facs if y[0] is not f))] = c
        else:
            return None
    return Expr(a), Expr(b)


def _shift_dims(e, m):
    """Coefficients of e after dim -> dim' + min, as a dict monomial -> coefficient."""
    out = {}
    from math import comb
    for (sums, facs), c in e.terms.items():
        poly = {(): c}
        for f, x in facs:
            mn = m[f.name]
            new = {}
            for mono, cc in poly.items():
                for j in range(int(x) + 1):
                    mm = mono + ((f.name, j),) if j else mono
                    new[mm] = new.get(mm, 0) + cc * comb(int(x), j) * Fraction(mn) ** (int(x) - j)
            poly = new
        for k, v in poly.items():
            k = tuple(sorted(k))
            out[k] = out.get(k, 0) + v
    return out


# ---------------------------------------------------------------------------------------------------------------
#  real-valued conditions
# ---------------------------------------------------------------------------------------------------------------

def _posnorm(e):
    """Divide by the absolute leading coefficient (the sign of e is unchanged)."""
    if e.is_zero():
        return e
    ks = sorted(e.terms, key=lambda k: _term_str(k, Fraction(1)))
    return e.scale(1 / abs(e.terms[ks[0]]))


SIGN_FACTS = {}   # str(Expr) -> '+', '-', '0'


def sign_of(e):
    c = e.const()
    if c is not None:
        return '+' if c > 0 else ('-' if c < 0 else '0')
    s = SIGN_FACTS.get(str(_posnorm(e)))
    if s:
        return s
    s = SIGN_FACTS.get(str(_posnorm(-e)))
    if s:
        return {'+': '-', '-': '+', '0': '0'}[s]
    if len(e.terms) == 1:
        (k, c), = e.terms.items()
        if not k[0]:
            r = 1 if c > 0 else -1
            for f, x in k[1]:
                fx = SIGN_FACTS.get(str(fac(f)))
                if f.name in POSITIVE or (f.kind == 'sym' and SYM_MIN.get(f.name, 0) > 0):
                    fx = '+'
                if fx is None and isinstance(x, int) and x % 2 == 0:
                    return None
                if fx == '0':
                    return '0' if x > 0 else None
                if fx == '-':
                    if not isinstance(x, int):
                        return None
                    r = r * (-1) ** x
                elif fx != '+':
                    return None
            return '+' if r > 0 else '-'
    else:
        # sum of terms of one sign
        ss = {sign_of(Expr({k: c})) for k, c in e.terms.items()}
        if None not in ss:
            ss.discard('0')
            if ss == {'+'}:
                return '+'
            if ss == {'-'}:
                return '-'
            if not ss:
                return '0'
    return None


def pos(e):
    """[e > 0] for a real-valued expression."""
    s = sign_of(e)
    if s is not None:
        return ONE if s == '+' else ZERO
    return cond('pos', (_posnorm(e),))


def eq0(e):
    s = sign_of(e)
    if s is not None:
        return ONE if s == '0' else ZERO
    return cond('eq0', (lin_sign_normal(_posnorm(e)),))


# ---------------------------------------------------------------------------------------------------------------
#  calculus
# ---------------------------------------------------------------------------------------------------------------

def diff(e, f0, symmetric=None):
    """Formal derivative of e with respect to the atom f0 (a 'sym' or an 'el' factor).

    For an array symmetric in two axes the derivative is the symmetrised one (half to each of the two elements).
    """
    acc = ZERO
    for k, c in e.terms.items():
        s, fs = _open(k) if k[0] else ([], list(k[1]))
        for i, (f, x) in enumerate(fs):
            df = _dfac(f, f0)
            if df.is_zero():
                continue
            prod = df.scale(Fraction(x)) * (fac(f, _ex(Fraction(x) - 1)) if x != 1 else ONE)
            for j, (g, y) in enumerate(fs):
                if j != i:
                    prod = prod * fac(g, y)
            acc = acc + _close_expr(s, prod).scale(c)
    return acc


def _dfac(f, f0):
    if f is f0 and f.kind == 'sym':
        return ONE
    if f.kind == 'el' and f0.kind == 'el' and f.name == f0.name:
        r = ONE
        for a, b in zip(f.args, f0.args):
            r = r * delta(a, b)
        ax = SYM_AXES.get(f.name)
        if ax is not None:
            args = list(f.args)
            args[ax[0]], args[ax[1]] = args[ax[1]], args[ax[0]]
            q = ONE
            for a, b in zip(args, f0.args):
                q = q * delta(a, b)
            r = (r + q).scale(Fraction(1, 2))
        return r
    if f.kind in ('sym', 'ivar', 'el', 'dl', 'ge', 'mod'):
        return ZERO
    if not any(_mentions(a, f0) for a in f.args):
        return ZERO
    if f.kind == 'pw':
        return diff(f.args[0], f0)
    if f.kind == 'fn':
        if f.name == 'log':
            return diff(f.args[0], f0) / f.args[0]
        if f.name == 'exp':
            return diff(f.args[0], f0) * fac(f)
        if f.name == 'logdet':
            lam = f.args[0]
            a, b = fresh(0, lam.shape[0]), fresh(0, lam.shape[0])
            d = diff(lam.inst((ivar(a), ivar(b))), f0)
            return Sum(a, lam.shape[0], Sum(b, lam.shape[0], fn('inv', (lam,), (ivar(b), ivar(a))) * d))
        if f.name == 'inv':
            lam = f.args[0]
            i, j = f.args[1], f.args[2]
            a, b = fresh(0, lam.shape[0]), fresh(0, lam.shape[0])
            d = diff(lam.inst((ivar(a), ivar(b))), f0)
            return -Sum(a, lam.shape[0], Sum(b, lam.shape[0], fn('inv', (lam,), (i, ivar(a))) * d
                                             * fn('inv', (lam,), (ivar(b), j))))
    return unk('derivative of ' + f.kind + ':' + f.name)


def _mentions(a, f0):
    if isinstance(a, (Expr, Lam)):
        return any(g.kind == f0.kind and g.name == f0.name for g in atoms(a))
    return False


def expect(e, name, mean, cov):
    """Gaussian expectation (Isserlis) of a polynomial in el(name, (i,)); mean(i), cov(i, j) give Exprs."""
    acc = ZERO
    for k, c in e.terms.items():
        s, fs = _open(k) if k[0] else ([], list(k[1]))
        xs = []
        rest = ONE
        for f, x in fs:
            if f.kind == 'el' and f.name == name:
                if x != int(x) or x < 0:
                    return unk('expectation of a negative power')
                xs.extend([f.args] * int(x))
            else:
                if any(isinstance(a, (Expr, Lam)) and any(g.kind == 'el' and g.name == name for g in atoms(a))
                       for a in f.args):
                    return unk('expectation of a non-polynomial')
                rest = rest * fac(f, x)
        acc = acc + _close_expr(s, rest * _isserlis(xs, mean, cov)).scale(c)
    return acc


def _isserlis(xs, mean, cov):
    if not xs:
        return ONE
    a, rest = xs[0], xs[1:]
    out = mean(*a) * _isserlis(rest, mean, cov)
    for i in range(len(rest)):
        out = out + cov(a, rest[i]) * _isserlis(rest[:i] + rest[i + 1:], mean, cov)
    return out


# ---------------------------------------------------------------------------------------------------------------
#  comparison by regions
# ---------------------------------------------------------------------------------------------------------------

class with_range(object):
    def __init__(self, v, lo, hi):
        self.v, self.r = v, (E(lo), E(hi))

    def __enter__(self):
        self.old = VR.get(self.v)
        VR[self.v] = self.r

    def __exit__(self, *a):
        if self.old is None:
            VR.pop(self.v, None)
        else:
            VR[self.v] = self.old


def zero_on(e, vars_, depth=0, desc=()):
    """Decide e == 0 for all values of the free index variables (within their ranges) by case split on the index
    regions and equalities that occur.  Returns (True, None) or (False, (region, residual))."""
    if e.is_zero():
        return True, None
    if depth > 40:
        return False, (desc, e)
    # 1. split variable ranges at break points
    for v in vars_:
        if v not in e.fv:
            continue
        lo, hi = VR[v]
        pts = [b for b in breaks(e, v) if v not in b.fv and not any(x[0] in '$#' for x in b.fv)
               and not (b.fv & set(vars_))]
        pts = [b for b in pts if nonneg(b - lo - 1) and nonneg(hi - 1 - b)]
        pts = _sort_points(pts)
        if pts:
            edges = [lo] + pts + [hi]
            for a, b in zip(edges, edges[1:]):
                if (b - a) == ONE:
                    r = subs(e, {v: a})
                    d = desc + ('%s = %s' % (v, a),)
                    ok, w = zero_on(resimplify(r), vars_, depth + 1, d)
                else:
                    with with_range(v, a, b):
                        nv = fresh(a, b, 'r')
                        r = subs(e, {v: ivar(nv)})
                        d = desc + ('%s in [%s, %s)' % (v, a, b),)
                        ok, w = zero_on(resimplify(r), [nv if x == v else x for x in vars_], depth + 1, d)
                if not ok:
                    return ok, w
            return True, None
    # 2. equalities between free indices
    for f in sorted(atoms(e), key=lambda f: f.s):
        if f.kind == 'dl' and not any(x[0] in '$#' for x in f.fv) and f.fv & set(vars_):
            # case "not equal": the indicator is 0
            r0 = replace_atoms(e, lambda g: ZERO if g is f else None)
            ok, w = zero_on(r0, vars_, depth + 1, desc + ('not ' + f.s,))
            if not ok:
                return ok, w
            x = f.args[0]
            for v in sorted(f.fv & set(vars_), reverse=True):
                l = _lin(x, v)
                if l is None or abs(l[0]) != 1:
                    continue
                sol = (-l[1]).scale(1 / l[0])
                if f.name == 'mod':
                    sol = mod(sol, f.args[1])
                r1 = resimplify(subs(e, {v: sol}))
                return zero_on(r1, [x_ for x_ in vars_ if x_ != v], depth + 1, desc + (f.s,))
            r1 = replace_atoms(e, lambda g: ONE if g is f else None)
            return zero_on(r1, vars_, depth + 1, desc + (f.s,))
    # 3. opaque conditions
    for f in sorted(atoms(e), key=lambda f: f.s):
        if f.kind in ('cd', 'ge') and not any(x[0] in '$#' for x in f.fv):
            for val, nm in ((ZERO, 'not '), (ONE, '')):
                r = replace_atoms(e, lambda g: val if g is f else None)
                ok, w = zero_on(r, vars_, depth + 1, desc + (nm + f.s,))
                if not ok:
                    return ok, w
            return True, None
    # 4. clear denominators
    c = clear_denominators(e)
    if c is not None:
        if c.is_zero():
            return True, None
        return False, (desc, c)
    return False, (desc, e)


def clear_denominators(e):
    """Multiply by powers of 'pw' bases with negative exponents (non-zero for admissible values)."""
    for _ in range(6):
        worst = {}
        for (sums, facs), c in e.terms.items():
            if sums:
                continue
            for f, x in facs:
                if f.kind == 'pw' and x < 0:
                    worst[f] = min(worst.get(f, 0), x)
        if not worst:
            return e
        f = sorted(worst, key=lambda f: f.s)[0]
        x = worst[f]
        out = ZERO
        for (sums, facs), c in e.terms.items():
            cur = dict(facs).get(f, 0)
            y = Fraction(cur) - Fraction(x)
            rest = Expr({(sums, tuple(z for z in facs if z[0] is not f)): c})
            out = out + rest * power(f.args[0], y)
        if out.is_zero():
            return out
        e = out
    return e


def prefix_sums(e):
    """Sum_{v<n} c * g[v + s] written with the prefix sums G of g:  c * (G[s+n] - G[s]).  Needs n >= 0."""
    out = ZERO
    for k, c in e.terms.items():
        sums, fs = k
        if len(sums) == 1:
            v, n = sums[0]
            hit = [(f, x) for f, x in fs if v in f.fv]
            if len(hit) == 1 and hit[0][0].kind == 'el' and hit[0][1] == 1 and nonneg(n):
                f = hit[0][0]
                pos_ = [i for i, a in enumerate(f.args) if v in a.fv]
                l = _lin(f.args[pos_[0]], v) if len(pos_) == 1 else None
                if l is not None and l[0] == 1:
                    rest = ONE
                    for g, x in fs:
                        if g is not f:
                            rest = rest * fac(g, x)

                    def G(at):
                        a = list(f.args)
                        a[pos_[0]] = at
                        return el('prefix%d:%s' % (pos_[0], f.name), tuple(a))
                    out = out + (G(l[1] + n) - G(l[1])) * rest.scale(c)
                    continue
        out = out + Expr({k: c})
    return out
