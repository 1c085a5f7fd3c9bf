"""Library transfer functions: numpy / scipy functions, array attributes and methods."""
import ast
from fractions import Fraction
from .alg import *
from .values import *
from . import npmodel as M

NAN = object()


def arg(args, kw, pos, name, default=None):
    if pos is not None and len(args) > pos:
        return args[pos]
    return kw.get(name, default)


def axis_of(I, v, ndim, node):
    if v is None:
        return None
    k = intval(v)
    if k is None:
        raise Undecided('axis', node)
    if not -ndim <= k < ndim:
        raise AbsRaise(ExcV('AxisError'), node)
    return k % ndim


def reduce_sum(I, a, axis, node, keepdims=False):
    """Sum over one axis (or all: None, or a tuple)."""
    if axis is None:
        axes = list(range(a.ndim))
    elif isinstance(axis, tuple):
        axes = sorted(axis_of(I, x, a.ndim, node) for x in axis)
    else:
        axes = [axis_of(I, axis, a.ndim, node)]
    out = [d for i, d in enumerate(a.shape) if i not in axes]
    if keepdims:
        out = [ONE if i in axes else d for i, d in enumerate(a.shape)]

    def f(*i):
        i = list(i)
        full, vs = [], []
        p = 0
        for k in range(a.ndim):
            if k in axes:
                v = fresh(ZERO, a.shape[k], 'd')
                vs.append((v, a.shape[k]))
                full.append(ivar(v))
                if keepdims:
                    p += 1
            else:
                full.append(i[p])
                p += 1
        e = a.elem(*full)
        for v, d in vs:
            e = Sum(v, d, e)
        return e
    return Array.make(out, f, 'num' if a.dtype in ('int', 'bool') else a.dtype)


def unary(I, v, f, node, dtype=None):
    if isinstance(v, UnkV):
        return v
    a = M.as_array(I, v, node)
    return M.wrap(I, a.map(f, dtype))


def absx(e):
    s = sign_of(e)
    if s == '+':
        return e
    if s == '0':
        return ZERO
    if s == '-':
        return -e
    if is_int(e) and nonneg(e):
        return e
    if is_int(e) and nonneg(-e):
        return -e
    if rational_nonneg(e):
        return e
    if rational_nonneg(-e):
        return -e
    return fac(Fac('fn', 'abs', (lin_sign_normal(e),)))


def ufn(name):
    def f(e):
        c = e.const()
        if name == 'exp':
            if c == 0:
                return ONE
            g = e.single()
            if g is not None and g.kind == 'fn' and g.name == 'log':
                return g.args[0]
            return fac(Fac('fn', 'exp', (e,)))
        if name == 'log':
            if c is not None and c <= 0:
                return unk('log of a non-positive constant')
            return log(e)
        if name == 'sqrt':
            if c is not None and c < 0:
                return unk('sqrt of a negative constant')
            return power(e, Fraction(1, 2))
        if name == 'square':
            return e * e
        if name in ('abs', 'absolute', 'fabs'):
            return absx(e)
        if name == 'negative':
            return -e
        if name == 'reciprocal':
            return M.divide(ONE, e)
        if name in ('floor', 'ceil', 'rint', 'trunc', 'round', 'fix'):
            if is_int(e):
                return e
            if c is not None:
                import math
                return E({'floor': math.floor, 'ceil': math.ceil}.get(name, lambda x: int(x) if name in
                                                                         ('trunc', 'fix') else round(x))(c))
            if name == 'floor':
                f = rational_floor(e)
                if f is not None:
                    return f
            if name == 'ceil':
                f = rational_floor(-e)
                if f is not None:
                    return -f
            if name in ('trunc', 'fix'):
                return M.to_int(e)
            return fac(Fac('fn', name, (e,)))
        if name == 'log2':
            return log(e) / log(E(2))
        if name == 'log10':
            return log(e) / log(E(10))
        if name == 'log1p':
            return log(ONE + e)
        if name == 'sign':
            s = sign_of(e)
            if s:
                return E({'+': 1, '-': -1, '0': 0}[s])
        if name in ('conj', 'conjugate', 'real', 'positive'):
            return e
        return fac(Fac('fn', name, (e,)))
    return f


UNARY = ('exp', 'log', 'sqrt', 'square', 'abs', 'absolute', 'fabs', 'negative', 'reciprocal', 'floor', 'ceil', 'rint',
         'trunc', 'fix', 'log2', 'log10', 'log1p', 'sign', 'sin', 'cos', 'tan', 'tanh', 'sinh', 'cosh', 'arctan',
         'expm1', 'conj', 'conjugate', 'real', 'positive', 'cbrt')

BINARY = {'add': 'Add', 'subtract': 'Sub', 'multiply': 'Mult', 'divide': 'Div', 'true_divide': 'Div', 'power': 'Pow',
          'float_power': 'Pow', 'floor_divide': 'FloorDiv', 'mod': 'Mod', 'remainder': 'Mod', 'less': 'Lt',
          'less_equal': 'LtE', 'greater': 'Gt', 'greater_equal': 'GtE', 'equal': 'Eq', 'not_equal': 'NotEq',
          'logical_and': 'BitAnd', 'logical_or': 'BitOr', 'logical_xor': 'BitXor'}


def maxmin(name, a, b):
    d = a - b
    if is_int(d) and nonneg(d) or sign_of(d) in ('+', '0'):
        return a if name == 'max' else b
    if is_int(d) and nonneg(-d) or sign_of(d) == '-':
        return b if name == 'max' else a
    if is_int(a) and is_int(b):
        return (b + d * ge(d)) if name == 'max' else (a - d * ge(d))
    return fac(Fac('fn', name, tuple(sorted((a, b), key=str))))


def dtype_of(I, v, node, default='float'):
    if v is None:
        return default
    if isinstance(v, ExtV):
        n = v.name.split('.')[-1]
        if n.startswith('int') or n.startswith('uint') or n in ('long',):
            return 'int'
        if n.startswith('bool'):
            return 'bool'
        if n.startswith('float') or n == 'double':
            return 'float32' if n in ('float32', 'float16', 'half', 'single') else 'float'
        if n.startswith('object'):
            return 'object'
        return 'num'
    if isinstance(v, str):
        if v.lstrip('<>=|') in ('int', 'int64', 'int32', 'int16', 'int8', 'i', 'i8', 'i4', 'i2', 'i1', 'l', 'uint', 'u4', 'u8'):
            return 'int'
        if v in ('bool', '?'):
            return 'bool'
        if v.lstrip('<>=|') in ('float32', 'float16', 'f4', 'f', 'f2', 'e', 'single', 'half'):
            return 'float32'
        return 'float'
    if isinstance(v, StrV) or isinstance(v, UnkV):
        return 'num'
    if isinstance(v, PyFn) and v.name.startswith('dtype:'):
        return v.name[6:]
    return 'num'


def cast(a, dt):
    if dt == 'int' and a.dtype != 'int':
        return Array.make(a.shape, lambda *i: M.to_int(a.elem(*i)), 'int')
    if dt == 'bool' and a.dtype != 'bool':
        return Array.make(a.shape, lambda *i: ONE - (delta(a.elem(*i), ZERO) if is_int(a.elem(*i))
                                                     else eq0(a.elem(*i))), 'bool')
    if dt == 'float32':
        return Array.make(a.shape, lambda *i: fac(Fac('fn', 'float32', (a.elem(*i),))), 'float')
    return Array(a.shape, a.vars, a.body, dt if dt in ('int', 'bool', 'float', 'num') else a.dtype)


def full(I, shape, val, node, dt):
    sh = M.shape_arg(I, shape, node)
    for d in sh:
        if nonneg(-d - 1):
            raise AbsRaise(ExcV('ValueError', ('negative dimensions',)), node)
    return M.wrap2(I, Array.make(sh, lambda *i: val, dt))


def lam_of(I, v, node):
    a = M.as_array(I, v, node)
    if a.ndim != 2:
        if a.ndim < 2:
            raise AbsRaise(ExcV('LinAlgError', ('matrix expected',)), node)
        raise Undecided('stacked matrices', node)
    M.same_dim(I, a.shape[0], a.shape[1], node, 'square matrix')
    return a.lam()


def matfn(I, name, v, node, transpose=False):
    lam = lam_of(I, v, node)
    n = lam.shape[0]
    return Array.make((n, n), lambda i, j: fn(name, (lam,), (j, i) if transpose else (i, j)))


def pd_check(I, lam, node, what):
    """Positive definiteness context of a matrix that is factorised."""
    h = I.ctx.get('pd')
    if h is None:
        return
    r = h(I, lam)
    if r in ('indef', 'singular'):
        raise AbsRaise(ExcV('LinAlgError', (what,)), node)


def solve(I, a, b, node):
    lam = lam_of(I, a, node)
    B = M.as_array(I, b, node)
    n = lam.shape[0]
    if B.ndim == 0:
        raise AbsRaise(ExcV('ValueError', ('solve',)), node)
    if B.ndim > 2:
        raise Undecided('stacked right-hand sides', node)
    M.same_dim(I, n, B.shape[0], node, 'linear system')
    v = fresh(ZERO, n, 'd')
    k = ivar(v)
    return M.wrap(I, Array.make(B.shape, lambda i, *r: Sum(v, n, fn('inv', (lam,), (i, k)) * B.elem(k, *r))))


def concat(I, arrs, axis, node):
    As = [M.as_array(I, x, node) for x in arrs]
    if not As:
        raise AbsRaise(ExcV('ValueError', ('need at least one array',)), node)
    nd = As[0].ndim
    if nd == 0 or any(a.ndim != nd for a in As):
        raise AbsRaise(ExcV('ValueError', ('concatenate: dimensions differ',)), node)
    ax = axis_of(I, E(axis), nd, node)
    for a in As[1:]:
        for k in range(nd):
            if k != ax:
                M.same_dim(I, a.shape[k], As[0].shape[k], node, 'concatenate')
    tot = ZERO
    parts = []
    for a in As:
        parts.append((tot, a))
        tot = tot + a.shape[ax]
    sh = list(As[0].shape)
    sh[ax] = tot

    def f(*i):
        e = ZERO
        for st, a in parts:
            if a.shape[ax].is_zero():
                continue
            q = i[ax] - st
            ii = list(i)
            ii[ax] = q
            w = in_range(q, ZERO, a.shape[ax])
            if w.is_zero():
                continue
            e = e + w * a.elem(*ii)
        return e
    ds = {a.dtype for a in As}
    return M.wrap(I, Array.make(sh, f, ds.pop() if len(ds) == 1 else ('float' if 'float' in ds else 'num')))


def seq_items(I, v, node):
    """Concrete items of a sequence of arrays."""
    if isinstance(v, (Arr, Array)):
        a = M.as_array(I, v)
        k = intval(a.shape[0])
        if k is None:
            raise Undecided('symbolic sequence of arrays', node)
        return [M.getitem(I, v, E(j), node) for j in range(k)]
    it = I.to_iter(v, node)
    if it.kind == 'concrete':
        return it.items
    raise Undecided('symbolic sequence of arrays', node)


def at_least(I, v, n, node):
    a = M.as_array(I, v, node)
    if a.ndim >= n:
        return v if isinstance(v, Arr) else M.wrap2(I, a)
    if isinstance(v, Arr) and n == 2 and a.ndim == 1:
        return M.reshape_view(I, v, (ONE, a.shape[0]), node)
    if n == 1:
        return M.wrap2(I, Array.make((ONE,), lambda i: a.elem(), a.dtype))
    if n == 2:
        if a.ndim == 0:
            return M.wrap2(I, Array.make((ONE, ONE), lambda i, j: a.elem(), a.dtype))
        return M.wrap2(I, Array.make((ONE, a.shape[0]), lambda i, j: a.elem(j), a.dtype))
    raise Undecided('atleast_%dd' % n, node)


def roll(I, a, shift, axis, node):
    A = M.as_array(I, a, node)
    s = I.num(shift) if not isinstance(shift, tuple) else None
    if s is None:
        raise Undecided('roll by a tuple', node)
    if axis is None:
        if A.ndim == 1:
            axis = ZERO
        else:
            n = A.size()
            fl = M.reshape(I, A, (n,), node)
            r = Array.make((n,), lambda i: fl.elem(mod(i - s, n)), A.dtype)
            return M.wrap(I, M.reshape(I, r, A.shape, node))
    ax = axis_of(I, axis, A.ndim, node)
    n = A.shape[ax]

    def f(*i):
        i = list(i)
        i[ax] = mod(i[ax] - s, n)
        return A.elem(*i)
    return M.wrap(I, Array.make(A.shape, f, A.dtype))


def linspace(I, args, kw, node):
    a, b = I.num(arg(args, kw, 0, 'start')), I.num(arg(args, kw, 1, 'stop'))
    num = I.num(arg(args, kw, 2, 'num', E(50)))
    endpoint = arg(args, kw, 3, 'endpoint', True)
    dt = dtype_of(I, kw.get('dtype'), node)
    if not isinstance(endpoint, bool) or arg(args, kw, 4, 'retstep', False) is not False:
        raise Undecided('linspace options', node)
    den = num - 1 if endpoint else num
    # with a single point the step is irrelevant
    r = Array.make((num,), lambda i: a + i * (b - a) / den if not den.is_zero() else a)
    if dt == 'int':
        r = Array.make((num,), lambda i: r_floor(a + i * (b - a) / den) if not den.is_zero() else a, 'int')
    return M.wrap(I, r)


def r_floor(e):
    if is_int(e):
        return e
    f = rational_floor(e)
    if f is not None:
        return f
    return fac(Fac('fn', 'floor', (e,)))


def arange(I, args, kw, node):
    if len(args) == 1:
        a, b, s = ZERO, I.num(args[0]), ONE
    else:
        a, b = I.num(arg(args, kw, 0, 'start', ZERO)), I.num(arg(args, kw, 1, 'stop'))
        s = I.num(arg(args, kw, 2, 'step', ONE))
    isint = is_int(a) and is_int(b) and is_int(s)
    if isint:
        c = s.const()
        d = b - a
        if c is not None and c > 0:
            n = d if c == 1 else fdiv(d + s - 1, s)
            if nonneg(-d):
                n = ZERO
            elif not nonneg(d):
                raise Undecided('arange length', node)
        elif c is not None and c < 0:
            n = -d if c == -1 else fdiv(-d - s - 1, -s)
            if nonneg(d):
                n = ZERO
            elif not nonneg(-d):
                raise Undecided('arange length', node)
        else:
            raise Undecided('arange step', node)
        dt = 'int' if not any(isinstance(x, PyNum) and x.pytype == 'float' for x in args) else 'num'
    else:
        q = (b - a) * power(s, -1)
        c = q.terms.get(UNIT, Fraction(0))
        if is_int(q - E(c)) and (nonneg(q) or nonneg(q - E(c))):
            # commensurate end points: exact number of steps
            n = q - E(c) + E(-(-c.numerator // c.denominator))
            if nonneg(n):
                return M.wrap(I, Array.make((n,), lambda i: a + i * s, 'float'))
        name = 'int:arange(%s; %s; %s)' % (a, b, s)
        SYM_MIN.setdefault(name, I.ctx.get('arange_min', 2))
        n = sym(name)
        dt = 'float'
    return M.wrap(I, Array.make((n,), lambda i: a + i * s, dt))


def uninit(I, shape, node):
    k = I.ctx.get('uninit', 0)
    I.ctx['uninit'] = k + 1
    nm = '$uninit%d' % k
    lv = tuple(ivar(v) for v, _ in I.loopvars)
    return M.wrap2(I, Array.make(shape, lambda *i: el(nm, lv + tuple(i))))


def np_bool(I, name, v, axis, node):
    a = M.as_array(I, v, node)
    h = I.ctx.get('anyall')
    if h is not None:
        r = h(I, name, a)
        if r is not None:
            return r
    if axis is not None:
        raise Undecided('any/all over an axis', node)
    b = a.body
    if a.dtype != 'bool':
        b = cast(a, 'bool').body if False else ONE - (eq0(b) if not is_int(b) else delta(b, ZERO))
    if not (b.fv & set(a.vars)):
        return I.mkbool(b)
    if all(d.const() is not None and d.const() <= 12 for d in a.shape):
        c = cast(a, 'bool')
        idx = [[]]
        for d in a.shape:
            idx = [i + [E(j)] for i in idx for j in range(int(d.const()))]
        acc = ONE
        for i in idx:
            e = c.elem(*i)
            acc = acc * (e if name == 'all' else ONE - e)
        return I.mkbool(acc if name == 'all' else ONE - acc)
    bb = Array(a.shape, a.vars, b, 'bool')
    e = bb if name == 'all' else bb.map(lambda x: ONE - x)
    # all(x): no index with 1 - x
    r = cond('all', (e.lam(),))
    return I.mkbool(r if name == 'all' else ONE - r)


def norm(I, args, kw, node):
    a = M.as_array(I, args[0], node)
    o = arg(args, kw, 1, 'ord')
    ax = arg(args, kw, 2, 'axis')
    if o is None or intval(o) == 2 and a.ndim == 1 or o == 'fro':
        r = reduce_sum(I, a.map(lambda e: e * e), ax, node)
        return M.wrap(I, r.map(lambda e: power(e, Fraction(1, 2))))
    if intval(o) == 1 and a.ndim == 1:
        return M.wrap(I, reduce_sum(I, a.map(absx), ax, node))
    raise Undecided('norm', node)


def argreduce(I, name, a, axis, node):
    if name in ('max', 'min') and axis is None:
        if all(d.const() is not None and d.const() <= 12 for d in a.shape):
            idx = [[]]
            for d in a.shape:
                idx = [i + [E(j)] for i in idx for j in range(int(d.const()))]
            r = a.elem(*idx[0])
            for i in idx[1:]:
                r = maxmin(name, r, a.elem(*i))
            return r
        b = a.body
        if not (b.fv & set(a.vars)):
            return b
        return fac(Fac('fn', 'arr' + name, (a.lam(),)))
    if axis is None:
        return fac(Fac('fn', 'int:' + name if name.startswith('arg') else 'arr' + name, (a.lam(),)))
    ax = axis_of(I, axis, a.ndim, node)
    n = intval(a.shape[ax])
    if name in ('max', 'min') and n is not None and 1 <= n <= 12:
        def f(*i):
            g = lambda j: a.elem(*(i[:ax] + (E(j),) + i[ax:]))
            r = g(0)
            for j in range(1, n):
                r = maxmin(name, r, g(j))
            return r
        return M.wrap(I, Array.make(a.shape[:ax] + a.shape[ax + 1:], f, a.dtype))
    if name in ('max', 'min'):
        def f(*i):
            v = fresh(ZERO, a.shape[ax])
            return fac(Fac('fn', 'arr' + name, (Array((a.shape[ax],), (v,), a.elem(*(i[:ax] + (ivar(v),) + i[ax:])),
                                                      a.dtype).lam(),)))
        return M.wrap(I, Array.make(a.shape[:ax] + a.shape[ax + 1:], f, a.dtype))
    raise Undecided(name, node)


def diagx(I, v, k, node):
    a = M.as_array(I, v, node)
    if k and a.ndim == 1:
        n = a.shape[0] + abs(k)
        q = E(max(k, 0))
        return M.wrap(I, Array.make((n, n), lambda i, j: delta(i + k, j) * ge(j - q) * ge(i + min(k, 0)) *
                                    a.elem(i + min(k, 0)), a.dtype))
    if k and a.ndim == 2 and (a.shape[0] - a.shape[1]).is_zero() and nonneg(a.shape[0] - abs(k)):
        return M.wrap(I, Array.make((a.shape[0] - abs(k),), lambda i: a.elem(i + max(-k, 0), i + max(k, 0)), a.dtype))
    if k:
        raise Undecided('off-diagonal', node)
    if a.ndim == 1:
        n = a.shape[0]
        return M.wrap(I, Array.make((n, n), lambda i, j: delta(i, j) * a.elem(i), a.dtype))
    if a.ndim == 2:
        n = a.shape[0]
        if a.shape[0] != a.shape[1]:
            M.same_dim(I, a.shape[0], a.shape[1], node, 'diagonal')
        return M.wrap(I, Array.make((n,), lambda i: a.elem(i, i), a.dtype))
    raise AbsRaise(ExcV('ValueError', ('diag',)), node)


def diff_(I, a, n, axis, node):
    ax = axis_of(I, axis, a.ndim, node)
    for _ in range(n):
        sh = list(a.shape)
        sh[ax] = sh[ax] - 1
        b = a

        def f(*i, b=b):
            j = list(i)
            j[ax] = j[ax] + 1
            return b.elem(*j) - b.elem(*i)
        a = Array.make(sh, f, a.dtype)
    return M.wrap(I, a)


def trapz(I, args, kw, node):
    y = M.as_array(I, args[0], node)
    x = arg(args, kw, 1, 'x')
    dx = arg(args, kw, 2, 'dx', ONE)
    axis = arg(args, kw, 3, 'axis', E(-1))
    if y.ndim == 0:
        raise AbsRaise(ExcV('IndexError', ('trapezoid of a scalar',)), node)
    ax = axis_of(I, axis, y.ndim, node)
    n = y.shape[ax]
    sh = [d for i, d in enumerate(y.shape) if i != ax]
    X = None
    if x is not None:
        X = M.as_array(I, x, node)
        if X.ndim != 1:
            raise Undecided('trapezoid over matrix abscissae', node)
        M.same_dim(I, X.shape[0], n, node, 'trapezoid')
        step = lambda k: X.elem(k + 1) - X.elem(k)
    else:
        D = M.as_array(I, dx, node)
        if D.ndim:
            raise Undecided('trapezoid dx', node)
        step = lambda k: D.body
    v = fresh(ZERO, n - 1, 'q')
    k = ivar(v)

    def f(*i):
        i = list(i)
        a = y.elem(*(i[:ax] + [k] + i[ax:]))
        b = y.elem(*(i[:ax] + [k + 1] + i[ax:]))
        return Sum(v, n - 1, step(k) * (a + b)).scale(Fraction(1, 2))
    return M.wrap(I, Array.make(sh, f))


def tile(I, v, reps, node):
    a = M.as_array(I, v, node)
    r = M.shape_arg(I, reps, node)
    n = max(len(r), a.ndim)
    r = (ONE,) * (n - len(r)) + tuple(r)
    sh = (ONE,) * (n - a.ndim) + a.shape

    def f(*i):
        j = [mod(x, d) if rr != ONE else x for x, d, rr in zip(i, sh, r)]
        return a.elem(*[j[n - a.ndim + k] for k in range(a.ndim)])
    return M.wrap(I, Array.make([x * y for x, y in zip(sh, r)], f, a.dtype))


def repeat(I, v, reps, axis, node):
    a = M.as_array(I, v, node)
    r = I.num(reps)
    if axis is None:
        a = M.reshape(I, a, (a.size(),), node)
        axis = ZERO
    ax = axis_of(I, axis, a.ndim, node)
    sh = list(a.shape)
    sh[ax] = sh[ax] * r

    def f(*i):
        i = list(i)
        i[ax] = fdiv(i[ax], r)
        return a.elem(*i)
    return M.wrap(I, Array.make(sh, f, a.dtype))


def where3(I, c, x, y, node):
    C, X, Y = (M.as_array(I, v, node) for v in (c, x, y))
    if C.dtype != 'bool' and not (C.ndim == 0 and isinstance(c, (bool, BoolV))):
        C = cast(C, 'bool')
    sh = M.bshape(I, [C.shape, X.shape, Y.shape], node)

    def f(*i):
        w = M.bget(C, i)
        return w * M.bget(X, i) + (ONE - w) * M.bget(Y, i)
    return M.wrap(I, Array.make(sh, f, M.rdtype('Add', X, Y)))


def copy_of(I, v, node, dt=None):
    a = M.as_array(I, v, node)
    if dt:
        a = cast(a, dt)
    return M.wrap(I, Array(a.shape, a.vars, a.body, a.dtype))


def new_axis(I, v, axis, node):
    a = M.as_array(I, v, node)
    k = intval(axis)
    nd = a.ndim + 1
    k = k % nd
    sh = list(a.shape)
    sh.insert(k, ONE)
    if isinstance(v, Arr):
        return M.reshape_view(I, v, tuple(sh), node)
    return M.wrap(I, Array.make(sh, lambda *i: a.elem(*[x for p, x in enumerate(i) if p != k]), a.dtype))


def vstack(I, items, node):
    return concat(I, [at_least(I, x, 2, node) for x in items], 0, node)


def hstack(I, items, node):
    items = [at_least(I, x, 1, node) for x in items]
    nd = M.as_array(I, items[0]).ndim
    return concat(I, items, 0 if nd == 1 else 1, node)


def stack(I, items, axis, node):
    return concat(I, [new_axis(I, x, axis, node) for x in items], intval(axis), node)


def loopseg_stack(I, v, axis, node):
    """np.array/stack/vstack/concatenate of a list that contains loop segments."""
    items = I.obj(v).items if isinstance(v, Ref) and I.obj(v).kind == 'list' else v
    return any(isinstance(x, LoopSeg) for x in items) if isinstance(items, (list, tuple)) else False
