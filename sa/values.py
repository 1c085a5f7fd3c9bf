"""Abstract values and heap objects of the interpreter."""
import math
from .alg import (EL_DISTINCT, power, fac, Expr, E, ZERO, ONE, ivar, fresh, subs, el, mk_lam, Sum, nonneg, unk, fdiv, mod, ge, in_range,
                  delta, SYM_MIN, EL_RANGE, has_unknown)


class Undecided(Exception):
    """The construct is outside what the analyser models: the obligation is undecided."""

    def __init__(self, reason, node=None):
        Exception.__init__(self, reason)
        self.reason, self.node = reason, node


class AbsRaise(Exception):
    """The analysed program definitely raises at this point."""

    def __init__(self, exc, node=None, where=None):
        Exception.__init__(self, str(exc))
        self.exc, self.node, self.where = exc, node, where


class ExcV(object):
    """An abstract exception instance: dotted class name."""

    def __init__(self, cls, args=()):
        self.cls, self.args = cls, args

    def __repr__(self):
        return '%s(...)' % self.cls

    def __deepcopy__(self, memo):
        return self


class PyNum(Expr):
    """A plain Python number (it has no array attributes); arithmetic yields ordinary expressions."""
    __slots__ = ('pytype',)

    def __init__(self, e, pytype='float'):
        Expr.__init__(self, e.terms)
        self.pytype = pytype


class BoolV(object):
    """A truth value that is not known: 0/1-valued expression."""

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return 'BoolV(%s)' % self.e

    def __eq__(self, o):
        return isinstance(o, BoolV) and o.e == self.e

    def __hash__(self):
        return hash(self.e)


class StrV(object):
    """A string of unknown contents (key identifies equal ones)."""

    def __init__(self, key):
        self.key = key

    def __repr__(self):
        return 'StrV(%s)' % (self.key,)

    def __eq__(self, o):
        return isinstance(o, StrV) and o.key == self.key

    def __hash__(self):
        return hash(self.key)


class UnkV(object):
    def __init__(self, reason):
        self.reason = reason

    def __repr__(self):
        return 'UnkV(%s)' % self.reason


class Picked(object):
    """Elements of an array selected by a mask: the whole array and the mask (same leading shape)."""
    def __init__(self, full, mask):
        self.full, self.mask = full, mask

    def __repr__(self):
        return 'Picked(...)'


class Opq(object):
    """An opaque value identified by a provenance path, e.g. params['Noise']['sys']."""

    def __init__(self, path, kind=None):
        self.path, self.kind = path, kind

    def __repr__(self):
        return 'Opq(%s)' % self.path

    def __eq__(self, o):
        return isinstance(o, Opq) and o.path == self.path

    def __hash__(self):
        return hash(self.path)


class Ref(object):
    """Reference to a heap object (list, dict, set, instance, stub, rng, frame)."""

    def __init__(self, oid):
        self.oid = oid

    def __repr__(self):
        return 'Ref(%d)' % self.oid

    def __eq__(self, o):
        return isinstance(o, Ref) and o.oid == self.oid

    def __hash__(self):
        return hash(('ref', self.oid))


class View(object):
    """Index map of an array view: shape, index variables, base index expressions."""

    def __init__(self, shape, vars_, idx):
        self.shape, self.vars, self.idx = tuple(shape), tuple(vars_), tuple(idx)


class Arr(object):
    """Handle of an array: heap storage + optional view."""

    def __init__(self, oid, view=None):
        self.oid, self.view = oid, view

    def __repr__(self):
        return 'Arr(%d%s)' % (self.oid, ',view' if self.view else '')

    def __eq__(self, o):
        return isinstance(o, Arr) and o.oid == self.oid and o.view is self.view

    def __hash__(self):
        return hash(('arr', self.oid))


class Array(object):
    """Immutable array contents: shape and normal form of the element at index vars."""
    __slots__ = ('shape', 'vars', 'body', 'dtype')

    def __init__(self, shape, vars_, body, dtype='float'):
        self.shape, self.vars, self.body, self.dtype = tuple(E(d) for d in shape), tuple(vars_), body, dtype

    @staticmethod
    def make(shape, f, dtype='float'):
        """Build from a function of index expressions."""
        shape = tuple(E(d) for d in shape)
        vs = tuple(fresh(ZERO, d) for d in shape)
        return Array(shape, vs, E(f(*[ivar(v) for v in vs])), dtype)

    def elem(self, *idx):
        m = {v: E(i) for v, i in zip(self.vars, idx)}
        return subs(self.body, m)

    @property
    def ndim(self):
        return len(self.shape)

    def map(self, f, dtype=None):
        return Array.make(self.shape, lambda *i: f(self.elem(*i)), dtype or self.dtype)

    def lam(self):
        vs = tuple(fresh(ZERO, d) for d in self.shape)
        return mk_lam(self.shape, vs, self.elem(*[ivar(v) for v in vs]))

    def size(self):
        n = ONE
        for d in self.shape:
            n = n * d
        return n

    def __repr__(self):
        return 'Array(%s; %s)' % (', '.join(map(str, self.shape)), self.body)

    def __deepcopy__(self, memo):
        return self

    def same(self, o):
        if self.shape != o.shape:
            return False
        return self.body == o.elem(*[ivar(v) for v in self.vars])


class ArrObj(object):
    kind = 'arr'

    def __init__(self, content, ext=None):
        self.content = content       # Array
        self.ext = ext               # name if it belongs to the caller
        self.writes = []             # (lineno, function) of every write

    def copy(self):
        o = ArrObj(self.content, self.ext)
        o.writes = list(self.writes)
        return o


class LoopSeg(object):
    """Items appended by a summarised loop: count copies of the template over index variable var."""

    def __init__(self, var, count, items):
        self.var, self.count, self.items = var, count, items


class ListObj(object):
    kind = 'list'

    def __init__(self, items):
        self.items = list(items)
        self.ext = None
        self.writes = []

    def copy(self):
        o = ListObj(self.items)
        o.ext, o.writes = self.ext, list(self.writes)
        return o


class DictObj(object):
    kind = 'dict'

    def __init__(self, d=None, ext=None, path=None):
        self.d = dict(d or {})        # python constants (hashable) -> value
        self.ext = ext
        self.path = path              # opaque default provenance: missing keys yield Opq(path[key])
        self.generic = []             # (key template, value) written for every element of an opaque iteration
        self.writes = []
        self.reads = []

    def copy(self):
        o = DictObj(self.d, self.ext, self.path)
        o.generic, o.writes, o.reads = list(self.generic), list(self.writes), list(self.reads)
        return o


class SetObj(object):
    kind = 'set'

    def __init__(self, items):
        self.items = list(items)
        self.ext = None
        self.writes = []

    def copy(self):
        o = SetObj(self.items)
        o.ext, o.writes = self.ext, list(self.writes)
        return o


class InstObj(object):
    kind = 'inst'

    def __init__(self, cls, attrs=None, ext=None):
        self.cls = cls
        self.attrs = dict(attrs or {})
        self.ext = ext
        self.writes = []              # (attr, lineno, function)

    def copy(self):
        o = InstObj(self.cls, self.attrs, self.ext)
        o.writes = list(self.writes)
        return o


class StubObj(object):
    """An environment object: attributes and python callables standing for its methods."""
    kind = 'stub'

    def __init__(self, name, attrs=None, methods=None, call=None):
        self.name, self.attrs, self.methods, self.call = name, dict(attrs or {}), dict(methods or {}), call
        self.writes = []
        self.ext = name

    def copy(self):
        o = StubObj(self.name, self.attrs, self.methods, self.call)
        o.writes = list(self.writes)
        return o


class FrameObj(object):
    kind = 'frame'

    def __init__(self, parent, vars_=None, name=''):
        self.vars = dict(vars_ or {})
        self.parent = parent          # oid of the enclosing function frame or None
        self.name = name
        self.writes = []
        self.ext = None

    def copy(self):
        return FrameObj(self.parent, self.vars, self.name)


class FuncV(object):
    def __init__(self, node, module, closure, qual, defaults=(), kwdefaults=None, cls=None, deco=()):
        self.node, self.module, self.closure, self.qual = node, module, closure, qual
        self.defaults, self.kwdefaults, self.cls, self.deco = defaults, kwdefaults or {}, cls, deco

    def __repr__(self):
        return 'FuncV(%s)' % self.qual


class BoundV(object):
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_

    def __repr__(self):
        return 'BoundV(%r)' % (self.func,)


class ClassV(object):
    def __init__(self, name, module, bases, ns, node):
        self.name, self.module, self.bases, self.ns, self.node = name, module, bases, ns, node

    def __repr__(self):
        return 'ClassV(%s.%s)' % (self.module, self.name)

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassV):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def lookup(self, name):
        for c in self.mro():
            if name in c.ns:
                return c.ns[name], c
        return None, None

    def ext_base(self):
        for c in self.mro():
            for b in c.bases:
                if isinstance(b, ExtV) and b.name not in ('object', 'builtins.object'):
                    return b.name
        return None


class PropV(object):
    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class StaticV(object):
    def __init__(self, func):
        self.func = func


class ClassMethodV(object):
    def __init__(self, func):
        self.func = func


class ModV(object):
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'ModV(%s)' % self.name


class ExtV(object):
    """An external (library / builtin) name."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'ExtV(%s)' % self.name

    def __eq__(self, o):
        return isinstance(o, ExtV) and o.name == self.name

    def __hash__(self):
        return hash(('ext', self.name))


class PyFn(object):
    """A transfer function implemented in the analyser: call(interp, args, kwargs, node) -> value."""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return 'PyFn(%s)' % self.name


class MethV(object):
    """Method of an abstract builtin value (array, list, dict, str, rng ...)."""

    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def __repr__(self):
        return 'MethV(%r.%s)' % (self.obj, self.name)


class SuperV(object):
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class SliceV(object):
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class IterV(object):
    """A lazy iterable: ('concrete', list) or ('sym', count, getter)."""

    def __init__(self, kind, items=None, count=None, getter=None):
        self.kind, self.items, self.count, self.getter = kind, items, count, getter


class KeysV(IterV):
    """The keys of a dictionary: an iterable that takes part in set operations."""


INT_FN = {'floor', 'trunc', 'ceil', 'int', 'fdiv'}


def is_int(e):
    """Whether an expression is integer-valued for certain."""
    from fractions import Fraction
    for (sums, facs), c in e.terms.items():
        if c.denominator != 1:
            return False
        for f, x in facs:
            if x != int(x) or x < 0:
                return False
            if f.kind in ('ivar', 'mod', 'fdv', 'dl', 'ge', 'cd'):
                continue
            if f.kind == 'sym' and (f.name in SYM_MIN or f.name.startswith('int:')):
                continue
            if f.kind == 'el' and (f.name in EL_RANGE or f.name.startswith('int:')):
                continue
            if f.kind == 'fn' and f.name in INT_FN:
                continue
            return False
    return True


def quotient(e):
    """(num, den) with e = num / den, both integer-valued for certain and den >= 1; None if that cannot be shown."""
    e = E(e)
    need, lcm = {}, 1
    for (sums, facs), c in e.terms.items():
        lcm = lcm * c.denominator // math.gcd(lcm, c.denominator)
        for f, x in facs:
            if x < 0:
                if sums or x != int(x):
                    return None
                need[f] = max(need.get(f, 0), -int(x))
    den = ONE
    for f, k in need.items():
        b = f.args[0] if f.kind == 'pw' else fac(f)
        if not (is_int(b) and nonneg(b - 1)):
            return None
        den = den * power(b, k)
    num = ZERO
    for (sums, facs), c in e.terms.items():
        d = dict(facs)
        t = Expr({(sums, tuple((f, x) for f, x in facs if f not in need)): c * lcm})
        for f, k in need.items():
            b = f.args[0] if f.kind == 'pw' else fac(f)
            t = t * power(b, k + int(d.get(f, 0)))
        num = num + t
    if not is_int(num):
        return None
    return num, den.scale(lcm)


def rational_floor(e):
    """floor(e) as an integer quotient, or None."""
    q = quotient(e)
    if q is None:
        return None
    return q[0] if q[1] == ONE else fdiv(*q)


def rational_nonneg(e):
    q = quotient(e)
    return q is not None and bool(nonneg(q[0]))


def strictly_increasing(A):
    """Whether a one-dimensional array of numbers is strictly increasing for certain."""
    if A.ndim != 1:
        return False
    n = intval(A.shape[0])
    if n is not None and n <= 64:
        c = [A.elem(E(k)).const() for k in range(n)]
        if None not in c:
            return all(p < q for p, q in zip(c, c[1:]))
    v = fresh(ZERO, A.shape[0] - 1, 'u')
    a, b = A.elem(ivar(v)), A.elem(ivar(v) + 1)
    if is_int(b - a) and nonneg(b - a - 1):
        return True
    f = a.single()
    if f is not None and f.kind == 'el' and f.name in EL_DISTINCT and f.args == (ivar(v),):
        return True         # observation times are given in increasing order
    if f is not None and f.kind == 'fdv' and v not in f.args[1].fv:
        # floors of values at least one apart
        d = subs(f.args[0], {v: ivar(v) + 1}) - f.args[0] - f.args[1]
        return bool(nonneg(f.args[1] - 1)) and bool(nonneg(d))
    return False


def intval(v):
    """Python int of a constant expression or None."""
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, Expr):
        c = v.const()
        if c is not None and c.denominator == 1:
            return int(c)
    return None
