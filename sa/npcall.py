"""Dispatch of library calls, array attributes and methods, Python builtins, random generators."""
import ast
from fractions import Fraction
from .alg import *
from .values import *
from . import npmodel as M
from .npfun import *
from .npfun import r_floor

NP = {}
EXT_OPAQUE = ('json', 'pandas', 'pathlib', 'h5py', 'time', 'argparse', 'logging', 'os', 'warnings', 'sys', 'datetime',
              'io', 'pickle', 'csv', 'shutil', 'tempfile', 'random', 'uuid', 'secrets', 'threading', 'multiprocessing',
              'concurrent', 'asyncio', 'matplotlib', 'traceback', 'gc', 'platform', 'socket', 'subprocess', 'glob',
              'copy', 'typing', 'contextlib', 'collections', 'stub', 'dataclasses', 'enum', 'abc', 're', 'string',
              'functools', 'itertools', 'types', 'inspect', 'numba', 'zlib', 'hashlib', 'locale', 'signal', 'atexit')


def npf(*names):
    def deco(f):
        for n in names:
            NP[n] = f
        return f
    return deco


# ---------------------------------------------------------------------------------------------- attributes
def ext_attr(I, dotted):
    if dotted in I.overrides and not callable(I.overrides[dotted]):
        return I.overrides[dotted]
    n = dotted.replace('numpy.', '').replace('math.', '')
    if dotted in ('sys.maxsize', 'sys.float_info', 'sys.byteorder'):
        return UnkV(dotted)
    if dotted in ('numpy.pi', 'math.pi', 'scipy.pi', 'numpy.e', 'math.e', 'numpy.euler_gamma'):
        POSITIVE.add(dotted.split('.')[-1])
        return sym(dotted.split('.')[-1])
    if dotted in ('numpy.newaxis',):
        return None
    if dotted in ('numpy.inf', 'math.inf', 'numpy.nan', 'math.nan', 'numpy.NaN', 'numpy.Inf'):
        return sym('float:' + dotted.split('.')[-1].lower())
    if dotted in ('sys.argv',):
        return Opq('sys.argv')
    return ExtV(dotted)


def arr_attr(I, a, name, node):
    sh = M.arr_shape(I, a)
    if name == 'T':
        return M.transpose_view(I, a, None, node)
    if name == 'shape':
        return tuple(sh)
    if name == 'ndim':
        return E(len(sh))
    if name == 'size':
        n = ONE
        for d in sh:
            n = n * d
        return n
    if name == 'dtype':
        d = I.obj(a).content.dtype
        return PyFn('dtype:' + d, lambda *x: UnkV('dtype call'))
    if name in ('real',):
        return a
    if name == 'flat':
        return M.reshape_view(I, a, (I.read(a).size(),), node)
    if name in ('base', 'data', 'flags', 'strides', 'nbytes', 'itemsize', 'imag', 'ctypes'):
        return UnkV('array attribute ' + name)
    if name in METHODS:
        return MethV(a, name)
    raise AbsRaise(ExcV('AttributeError', (name,)), node)


def scalar_attr(I, o, name, node):
    if isinstance(o, PyNum) or isinstance(o, bool):
        if name in ('real', 'numerator'):
            return o
        if name in ('is_integer', 'conjugate', 'bit_length', 'as_integer_ratio', 'imag', 'denominator'):
            return MethV(o, name)
        raise AbsRaise(ExcV('AttributeError', (name,)), node)
    if name == 'shape':
        return ()
    if name == 'ndim':
        return ZERO
    if name == 'size':
        return ONE
    if name in ('T', 'real'):
        return o
    if name == 'dtype':
        return UnkV('dtype of a scalar')
    if name in METHODS or name in ('is_integer', 'bit_length'):
        return MethV(o, name)
    raise AbsRaise(ExcV('AttributeError', (name,)), node)


def r_(I, name, idx, node):
    items = idx if isinstance(idx, tuple) else (idx,)
    out = []
    for x in items:
        if isinstance(x, SliceV):
            args = [x.lo if x.lo is not None else ZERO, x.hi]
            if x.step is not None:
                args.append(x.step)
            out.append(arange(I, args, {}, node))
        elif isinstance(x, str):
            raise Undecided('np.r_ directive', node)
        else:
            out.append(x)
    if name == 'numpy.r_':
        return concat(I, [at_least(I, x, 1, node) for x in out], 0, node)
    return lib.np_c_(I, idx, node)


# ---------------------------------------------------------------------------------------------- numpy functions
def _mk_unary(n):
    f = ufn(n)

    def g(I, a, kw, node):
        v = a[0]
        A = M.as_array(I, v, node)
        dt = A.dtype if n in ('abs', 'absolute', 'fabs', 'square', 'negative', 'sign', 'conj', 'positive') else 'float'
        r = A.map(f, dt)
        if len(a) > 1:
            kw = dict(kw, out=a[1])
        return out_arg(I, r, kw, node)
    return g


def out_arg(I, r, kw, node):
    o = kw.get('out')
    if isinstance(o, tuple):
        o = o[0]
    if isinstance(o, Arr):
        if kw.get('where') is not None and kw.get('where') is not True:
            w = M.broadcast(I, M.as_array(I, kw['where'], node), r.shape, node)
            old = I.read(o)
            r0 = r
            r = Array.make(r0.shape, lambda *i: w.elem(*i) * r0.elem(*i) + (ONE - w.elem(*i)) * old.elem(*i), r0.dtype)
        M.store_all(I, o, r, node)
        return o
    if kw.get('where') is not None and kw.get('where') is not True:
        raise Undecided('ufunc where=', node)
    return M.wrap(I, r)


for _n in UNARY:
    NP[_n] = _mk_unary(_n)


def _mk_binary(n):
    def g(I, a, kw, node):
        r = M.elementwise(I, BINARY[n], a[0], a[1], node)
        if len(a) > 2:
            kw = dict(kw, out=a[2])
        return out_arg(I, M.as_array(I, r), kw, node) if kw else r
    return g


for _n in BINARY:
    NP[_n] = _mk_binary(_n)


@npf('maximum', 'fmax')
def _maximum(I, a, kw, node, nm='max'):
    if len(a) > 2:
        kw = dict(kw, out=a[2])
    A, B = M.as_array(I, a[0], node), M.as_array(I, a[1], node)
    sh = M.bshape(I, [A.shape, B.shape], node)
    return out_arg(I, Array.make(sh, lambda *i: maxmin(nm, M.bget(A, i), M.bget(B, i)), M.rdtype('Add', A, B)), kw,
                   node)


@npf('minimum', 'fmin')
def _minimum(I, a, kw, node):
    return _maximum(I, a, kw, node, 'min')


@npf('clip')
def _clip(I, a, kw, node):
    v = a[0]
    lo, hi = arg(a, kw, 1, 'a_min', kw.get('min')), arg(a, kw, 2, 'a_max', kw.get('max'))
    out = arg(a, kw, 3, 'out')
    if lo is not None:
        v = _maximum(I, [v, lo], {}, node)
    if hi is not None:
        v = _maximum(I, [v, hi], {}, node, 'min')
    if v is a[0] and isinstance(v, Arr):
        v = copy_of(I, v, node)
    return v if out is None else out_arg(I, M.as_array(I, v, node), {'out': out}, node)


@npf('logical_not', 'invert')
def _lnot(I, a, kw, node):
    A = cast(M.as_array(I, a[0], node), 'bool')
    return M.wrap(I, A.map(lambda e: ONE - e))


@npf('zeros')
def _zeros(I, a, kw, node):
    return full(I, arg(a, kw, 0, 'shape'), ZERO, node, dtype_of(I, arg(a, kw, 1, 'dtype'), node))


@npf('ones')
def _ones(I, a, kw, node):
    return full(I, arg(a, kw, 0, 'shape'), ONE, node, dtype_of(I, arg(a, kw, 1, 'dtype'), node))


@npf('full')
def _full(I, a, kw, node):
    v = arg(a, kw, 1, 'fill_value')
    A = M.as_array(I, v, node)
    if A.ndim:
        sh = M.shape_arg(I, arg(a, kw, 0, 'shape'), node)
        return M.wrap(I, M.broadcast(I, A, sh, node))
    return full(I, arg(a, kw, 0, 'shape'), A.body, node, dtype_of(I, arg(a, kw, 2, 'dtype'), node, 'num'))


@npf('empty')
def _empty(I, a, kw, node):
    return uninit(I, M.shape_arg(I, arg(a, kw, 0, 'shape'), node), node)


def _like(I, a, kw, node, val):
    A = M.as_array(I, a[0], node)
    dt = dtype_of(I, kw.get('dtype', a[1] if len(a) > 1 else None), node, A.dtype)
    sh = A.shape if kw.get('shape') is None else M.shape_arg(I, kw['shape'], node)
    if val is None:
        return uninit(I, sh, node)
    return M.wrap(I, Array.make(sh, lambda *i: val, dt))


NP['zeros_like'] = lambda I, a, kw, node: _like(I, a, kw, node, ZERO)
NP['ones_like'] = lambda I, a, kw, node: _like(I, a, kw, node, ONE)
NP['empty_like'] = lambda I, a, kw, node: _like(I, a, kw, node, None)
NP['full_like'] = lambda I, a, kw, node: _like(I, [a[0]] + list(a[2:]), kw, node,
                                               I.num(arg(a, kw, 1, 'fill_value')))


@npf('eye', 'identity')
def _eye(I, a, kw, node):
    n = M.dim_arg(I, arg(a, kw, 0, 'N', kw.get('n')), node)
    m = arg(a, kw, 1, 'M')
    k = arg(a, kw, 2, 'k', ZERO)
    m = n if m is None or isinstance(m, ExtV) else M.dim_arg(I, m, node)
    kk = I.num(k)
    dt = dtype_of(I, arg(a, kw, 3, 'dtype'), node)
    return M.wrap(I, Array.make((n, m), lambda i, j: delta(i + kk, j), dt if dt in ('int', 'bool') else 'float'))


@npf('diag')
def _diag(I, a, kw, node):
    return diagx(I, a[0], intval(arg(a, kw, 1, 'k', ZERO)), node)


@npf('diagflat')
def _diagflat(I, a, kw, node):
    A = M.as_array(I, a[0], node)
    return diagx(I, M.reshape(I, A, (A.size(),), node), 0, node)


@npf('diagonal')
def _diagonal(I, a, kw, node):
    A = M.as_array(I, a[0], node)
    if A.ndim == 3 and intval(arg(a, kw, 2, 'axis1', ZERO)) == 1 and intval(arg(a, kw, 3, 'axis2', ONE)) == 2:
        return M.wrap(I, Array.make(A.shape[:2], lambda i, j: A.elem(i, j, j)))
    if A.ndim != 2:
        raise Undecided('diagonal', node)
    return diagx(I, a[0], intval(arg(a, kw, 1, 'offset', ZERO)), node)


@npf('trace')
def _trace(I, a, kw, node):
    A = M.as_array(I, a[0], node)
    if A.ndim == 2 and len(a) == 1 and not kw:
        return M.wrap(I, reduce_sum(I, M.as_array(I, diagx(I, A, 0, node)), None, node))
    if A.ndim == 3 and intval(kw.get('axis1')) == 1 and intval(kw.get('axis2')) == 2:
        n = A.shape[1]
        v = fresh(ZERO, n, 'd')
        return M.wrap(I, Array.make(A.shape[:1], lambda i: Sum(v, n, A.elem(i, ivar(v), ivar(v)))))
    raise Undecided('trace', node)


@npf('dot')
def _dot(I, a, kw, node):
    r = M.dot(I, a[0], a[1], node)
    return out_arg(I, M.as_array(I, r), kw, node) if kw.get('out') is not None else r


@npf('matmul')
def _matmul(I, a, kw, node):
    r = M.matmul(I, a[0], a[1], node)
    return out_arg(I, M.as_array(I, r), kw, node) if kw.get('out') is not None else r


@npf('multi_dot')
def _multi(I, a, kw, node):
    xs = seq_items(I, a[0], node)
    r = xs[0]
    for x in xs[1:]:
        r = M.dot(I, r, x, node)
    return r


@npf('vdot')
def _vdot(I, a, kw, node):
    A, B = M.as_array(I, a[0], node), M.as_array(I, a[1], node)
    A, B = M.reshape(I, A, (A.size(),), node), M.reshape(I, B, (B.size(),), node)
    return M.dot(I, A, B, node)


@npf('inner')
def _inner(I, a, kw, node):
    A, B = M.as_array(I, a[0], node), M.as_array(I, a[1], node)
    if A.ndim == 0 or B.ndim == 0:
        return M.elementwise(I, 'Mult', A, B, node)
    n = A.shape[-1]
    M.same_dim(I, n, B.shape[-1], node, 'inner')
    v = fresh(ZERO, n, 'd')
    k = A.ndim - 1
    return M.wrap(I, Array.make(A.shape[:-1] + B.shape[:-1],
                                lambda *i: Sum(v, n, A.elem(*(list(i[:k]) + [ivar(v)]))
                                               * B.elem(*(list(i[k:]) + [ivar(v)])))))


@npf('outer')
def _outer(I, a, kw, node):
    A, B = M.as_array(I, a[0], node), M.as_array(I, a[1], node)
    A = A if A.ndim == 1 else M.reshape(I, A, (A.size(),), node)
    B = B if B.ndim == 1 else M.reshape(I, B, (B.size(),), node)
    r = Array.make((A.shape[0], B.shape[0]), lambda i, j: A.elem(i) * B.elem(j))
    return out_arg(I, r, kw, node)


@npf('tensordot')
def _tensordot(I, a, kw, node):
    ax = arg(a, kw, 2, 'axes', E(2))
    A, B = M.as_array(I, a[0], node), M.as_array(I, a[1], node)
    if isinstance(ax, (tuple, Ref)):
        pair = seq_items(I, ax, node)
        la = [intval(x) for x in (seq_items(I, pair[0], node) if isinstance(pair[0], (tuple, Ref)) else [pair[0]])]
        lb = [intval(x) for x in (seq_items(I, pair[1], node) if isinstance(pair[1], (tuple, Ref)) else [pair[1]])]
    else:
        k = intval(ax)
        la, lb = list(range(A.ndim - k, A.ndim)), list(range(k))
    la, lb = [x % A.ndim for x in la], [x % B.ndim for x in lb]
    import string
    s1 = list(string.ascii_letters[:A.ndim])
    s2 = list(string.ascii_letters[A.ndim:A.ndim + B.ndim])
    for x, y in zip(la, lb):
        s2[y] = s1[x]
    out = [c for i, c in enumerate(s1) if i not in la] + [c for i, c in enumerate(s2) if i not in lb]
    return M.einsum(I, '%s,%s->%s' % (''.join(s1), ''.join(s2), ''.join(out)), [A, B], node)


@npf('einsum')
def _einsum(I, a, kw, node):
    if not isinstance(a[0], str):
        raise Undecided('einsum form', node)
    return M.einsum(I, a[0], a[1:], node)


@npf('kron')
def _kron(I, a, kw, node):
    A, B = M.as_array(I, a[0], node), M.as_array(I, a[1], node)
    if A.ndim != 2 or B.ndim != 2:
        raise Undecided('kron', node)
    return M.wrap(I, Array.make((A.shape[0] * B.shape[0], A.shape[1] * B.shape[1]),
                                lambda i, j: A.elem(fdiv(i, B.shape[0]), fdiv(j, B.shape[1]))
                                * B.elem(mod(i, B.shape[0]), mod(j, B.shape[1]))))


@npf('sum', 'nansum')
def _sum(I, a, kw, node):
    v = a[0]
    if isinstance(v, IterV) or isinstance(v, Ref) and I.obj(v).kind != 'list':
        return bi_sum(I, [v], {}, node)
    A = M.as_array(I, v, node)
    if kw.get('where', True) is not True:
        W = M.broadcast(I, M.as_array(I, kw['where'], node), A.shape, node)
        A0 = A
        A = Array.make(A0.shape, lambda *i: W.elem(*i) * A0.elem(*i), A0.dtype)
        kw = {k: x for k, x in kw.items() if k != 'where'}
    r = reduce_sum(I, A, arg(a, kw, 1, 'axis'), node, kw.get('keepdims', False) is True)
    return out_arg(I, r, kw, node)


@npf('mean', 'average')
def _mean(I, a, kw, node):
    A = M.as_array(I, a[0], node)
    ax = arg(a, kw, 1, 'axis')
    w = kw.get('weights')
    if w is not None:
        W = M.as_array(I, w, node)
        if W.ndim != 1 or ax is None and A.ndim != 1:
            raise Undecided('weighted average', node)
        k = axis_of(I, ax if ax is not None else ZERO, A.ndim, node)
        prod = Array.make(A.shape, lambda *i: A.elem(*i) * W.elem(i[k]))
        tot = reduce_sum(I, W, None, node).body
        return M.wrap(I, reduce_sum(I, prod, E(k), node).map(lambda e: e / tot))
    n = A.size() if ax is None else A.shape[axis_of(I, ax, A.ndim, node)]
    r = reduce_sum(I, A, ax, node, kw.get('keepdims', False) is True)
    return M.wrap(I, r.map(lambda e: e / n, 'float'))


@npf('prod')
def _prod(I, a, kw, node):
    A = M.as_array(I, a[0], node)
    ax = arg(a, kw, 1, 'axis')
    if ax is not None:
        ax = axis_of(I, ax, A.ndim, node)
        n = intval(A.shape[ax])
        if n is None or n > 12:
            raise Undecided('prod', node)

        def f(*i):
            e = ONE
            for j in range(n):
                e = e * A.elem(*(i[:ax] + (E(j),) + i[ax:]))
            return e
        return M.wrap(I, Array.make(A.shape[:ax] + A.shape[ax + 1:], f, A.dtype))
    if all(d.const() is not None and d.const() <= 12 for d in A.shape):
        idx = [[]]
        for d in A.shape:
            idx = [i + [E(j)] for i in idx for j in range(int(d.const()))]
        e = ONE
        for i in idx:
            e = e * A.elem(*i)
        return e
    raise Undecided('prod', node)


@npf('cumsum')
def _cumsum(I, a, kw, node):
    A = M.as_array(I, a[0], node)
    ax = arg(a, kw, 1, 'axis')
    if ax is None:
        A = M.reshape(I, A, (A.size(),), node)
        ax = ZERO
    k = axis_of(I, ax, A.ndim, node)
    n = A.shape[k]

    def f(*i):
        v = fresh(ZERO, n, 'd')
        j = list(i)
        j[k] = ivar(v)
        return Sum(v, n, ge(i[k] - ivar(v)) * A.elem(*j))
    return M.wrap(I, Array.make(A.shape, f, A.dtype))


@npf('diff')
def _diff(I, a, kw, node):
    A = M.as_array(I, a[0], node)
    pre, app = kw.get('prepend'), kw.get('append')
    if pre is not None or app is not None:
        if A.ndim != 1:
            raise Undecided('diff of a padded matrix', node)
        A = M.as_array(I, concat(I, [at_least(I, x, 1, node) for x in (pre, I.new_arr(A), app) if x is not None], 0, node))
    return diff_(I, A, intval(arg(a, kw, 1, 'n', ONE)), arg(a, kw, 2, 'axis', E(-1)), node)


@npf('gradient')
def _gradient(I, a, kw, node):
    A = M.as_array(I, a[0], node)
    ax = kw.get('axis')
    if len(a) > 2 or ax is None and A.ndim != 1 or kw.get('edge_order', ONE) not in (ONE, 1) or isinstance(ax, tuple):
        raise Undecided('gradient', node)
    h = ONE
    if len(a) > 1:
        H = M.as_array(I, a[1], node)
        if H.ndim:
            raise Undecided('gradient with uneven spacing', node)
        h = H.elem()
    ax = axis_of(I, ax, A.ndim, node) if ax is not None else 0
    n = A.shape[ax]
    if not nonneg(n - 2):
        raise Undecided('gradient of few values', node)

    def f(*i):
        at = lambda k: A.elem(*[k if p == ax else x for p, x in enumerate(i)])
        k = i[ax]
        d0, d1 = ge(-k), ge(k - n + 1)
        return (d0 * (at(ONE) - at(ZERO)) + d1 * (at(n - 1) - at(n - 2)) +
                (ONE - d0 - d1) * (at(k + 1) - at(k - 1)).scale(Fraction(1, 2))) / h
    return M.wrap(I, Array.make(A.shape, f))


@npf('trapezoid', 'trapz')
def _trapz(I, a, kw, node):
    return trapz(I, a, kw, node)


@npf('atleast_1d', 'atleast_2d')
def _atleast(I, a, kw, node, n=1):
    rs = [at_least(I, x, n, node) for x in a]
    return rs[0] if len(rs) == 1 else tuple(rs)


NP['atleast_1d'] = lambda I, a, kw, node: _atleast(I, a, kw, node, 1)
NP['atleast_2d'] = lambda I, a, kw, node: _atleast(I, a, kw, node, 2)


@npf('asarray', 'asanyarray', 'ascontiguousarray', 'asfortranarray')
def _asarray(I, a, kw, node):
    v = arg(a, kw, 0, 'a')
    dt = arg(a, kw, 1, 'dtype')
    if isinstance(v, Arr):
        if dt is not None and dtype_of(I, dt, node) != I.read(v).dtype and not (
                dtype_of(I, dt, node) == 'float' and I.read(v).dtype == 'num'):
            return copy_of(I, v, node, dtype_of(I, dt, node))
        return v
    return _array(I, a, kw, node)


@npf('array')
def _array(I, a, kw, node):
    v = arg(a, kw, 0, 'object', kw.get('a'))
    dt = arg(a, kw, 1, 'dtype')
    if v is None:
        raise Undecided('array of None', node)
    if isinstance(v, UnkV):
        return v
    if isinstance(v, Ref) and I.obj(v).kind == 'stub' and '__array__' in I.obj(v).methods:
        r = I.obj(v).methods['__array__'](I, [dt], {}, node)
        return copy_of(I, r, node) if isinstance(r, Arr) else r
    if isinstance(v, IterV):
        raise Undecided('array of an iterator', node)
    d = dtype_of(I, dt, node, None)
    if kw.get('copy') is False and isinstance(v, Arr):
        return v
    nd = intval(kw.get('ndmin')) if kw.get('ndmin') is not None else 0
    if isinstance(v, PyNum) or isinstance(v, (bool, BoolV)):
        v = E(I.num(v)) * ONE + ZERO
        v = Expr(v.terms)
    if isinstance(v, Expr):
        r = v
        if d in ('int', 'float32', 'bool'):
            r = cast(Array((), (), v), d).body
        return at_least(I, r, nd, node) if nd else r
    r = copy_of(I, M.to_array(I, v, node) if not isinstance(v, (Arr, Array)) else v, node, d)
    return at_least(I, r, nd, node) if nd else r


@npf('copy')
def _copy(I, a, kw, node):
    if isinstance(a[0], (Expr, bool)):
        return Expr(I.num(a[0]).terms)
    return copy_of(I, a[0], node)


@npf('hstack')
def _hstack(I, a, kw, node):
    return hstack(I, _seq(I, a[0], node), node)


def _seq(I, v, node):
    """Items to stack; a single symbolic segment is turned into one array-valued item with a new axis removed."""
    return seq_items(I, v, node)


def _sym_seq(I, v):
    items = I.obj(v).items if isinstance(v, Ref) and I.obj(v).kind == 'list' else v
    return isinstance(items, (list, tuple)) and any(isinstance(x, LoopSeg) for x in items)


@npf('vstack', 'row_stack')
def _vstack(I, a, kw, node):
    if _sym_seq(I, a[0]):
        A = M.as_array(I, a[0], node)
        if A.ndim == 2:
            return M.wrap(I, A)
        raise Undecided('vstack of a symbolic list', node)
    return vstack(I, _seq(I, a[0], node), node)


@npf('stack')
def _stack(I, a, kw, node):
    ax = arg(a, kw, 1, 'axis', ZERO)
    if _sym_seq(I, a[0]):
        if intval(ax) == 0:
            return M.wrap(I, M.as_array(I, a[0], node))
        raise Undecided('stack of a symbolic list', node)
    return stack(I, _seq(I, a[0], node), ax, node)


@npf('column_stack')
def _cstack(I, a, kw, node):
    xs = []
    for x in _seq(I, a[0], node):
        A = M.as_array(I, x, node)
        xs.append(new_axis(I, x, ONE, node) if A.ndim == 1 else x)
    return concat(I, xs, 1, node)


@npf('concatenate')
def _concat(I, a, kw, node):
    ax = arg(a, kw, 1, 'axis', ZERO)
    if _sym_seq(I, a[0]):
        items = I.obj(a[0]).items if isinstance(a[0], Ref) else a[0]
        A = M.as_array(I, a[0], node)
        if A.ndim >= 2 and intval(ax) == 0:
            return M.wrap(I, M.reshape(I, A, (A.shape[0] * A.shape[1],) + A.shape[2:], node))
        raise Undecided('concatenation of a symbolic list', node)
    xs = _seq(I, a[0], node)
    if ax is None:
        xs = [M.wrap(I, M.reshape(I, M.as_array(I, x, node), (M.as_array(I, x, node).size(),), node)) for x in xs]
        ax = ZERO
    nd = M.as_array(I, xs[0], node).ndim
    if nd == 0:
        raise AbsRaise(ExcV('ValueError', ('zero-dimensional arrays cannot be concatenated',)), node)
    return concat(I, xs, axis_of(I, ax, nd, node), node)


@npf('append')
def _append(I, a, kw, node):
    ax = arg(a, kw, 2, 'axis')
    x, y = M.as_array(I, a[0], node), M.as_array(I, a[1], node)
    if ax is None:
        x, y = M.reshape(I, x, (x.size(),), node), M.reshape(I, y, (y.size(),), node)
        return concat(I, [x, y], 0, node)
    return concat(I, [x, y], axis_of(I, ax, x.ndim, node), node)


@npf('tile')
def _tile(I, a, kw, node):
    return tile(I, a[0], arg(a, kw, 1, 'reps'), node)


@npf('repeat')
def _repeat(I, a, kw, node):
    return repeat(I, a[0], arg(a, kw, 1, 'repeats'), arg(a, kw, 2, 'axis'), node)


@npf('roll')
def _roll(I, a, kw, node):
    return roll(I, a[0], arg(a, kw, 1, 'shift'), arg(a, kw, 2, 'axis'), node)


@npf('flip', 'flipud', 'fliplr')
def _flip(I, a, kw, node):
    A = M.as_array(I, a[0], node)
    ax = arg(a, kw, 1, 'axis')
    axes = range(A.ndim) if ax is None else [axis_of(I, ax, A.ndim, node)]
    return M.wrap(I, Array.make(A.shape, lambda *i: A.elem(*[A.shape[k] - 1 - x if k in axes else x
                                                             for k, x in enumerate(i)]), A.dtype))


NP['flipud'] = lambda I, a, kw, node: _flip(I, [a[0], ZERO], {}, node)
NP['fliplr'] = lambda I, a, kw, node: _flip(I, [a[0], ONE], {}, node)


@npf('ravel')
def _ravel(I, a, kw, node):
    if isinstance(a[0], Arr):
        return M.reshape_view(I, a[0], (I.read(a[0]).size(),), node, arg(a, kw, 1, 'order', 'C'))
    A = M.as_array(I, a[0], node)
    return M.wrap(I, M.reshape(I, A, (A.size(),), node))


@npf('reshape')
def _reshape(I, a, kw, node):
    sh = arg(a, kw, 1, 'newshape', kw.get('shape'))
    if isinstance(a[0], Arr):
        return M.reshape_view(I, a[0], sh, node, arg(a, kw, 2, 'order', 'C'))
    return M.wrap(I, M.reshape(I, M.as_array(I, a[0], node), sh, node, arg(a, kw, 2, 'order', 'C')))


@npf('transpose', 'permute_dims')
def _transpose(I, a, kw, node):
    p = arg(a, kw, 1, 'axes')
    if p is not None:
        p = [intval(x) for x in M.shape_arg(I, p, node)]
    v = a[0] if isinstance(a[0], Arr) else M.wrap(I, M.as_array(I, a[0], node))
    return M.transpose_view(I, v, p, node)


@npf('swapaxes')
def _swapaxes(I, a, kw, node):
    v = a[0] if isinstance(a[0], Arr) else M.wrap(I, M.as_array(I, a[0], node))
    n = len(M.arr_shape(I, v))
    p = list(range(n))
    x, y = axis_of(I, a[1], n, node), axis_of(I, a[2], n, node)
    p[x], p[y] = p[y], p[x]
    return M.transpose_view(I, v, p, node)


@npf('moveaxis')
def _moveaxis(I, a, kw, node):
    v = a[0] if isinstance(a[0], Arr) else M.wrap(I, M.as_array(I, a[0], node))
    n = len(M.arr_shape(I, v))
    s, d = axis_of(I, a[1], n, node), axis_of(I, a[2], n, node)
    p = [k for k in range(n) if k != s]
    p.insert(d, s)
    return M.transpose_view(I, v, p, node)


@npf('squeeze')
def _squeeze(I, a, kw, node):
    if not isinstance(a[0], Arr):
        return a[0]
    sh = M.arr_shape(I, a[0])
    ax = arg(a, kw, 1, 'axis')
    k = None if ax is None else axis_of(I, ax, len(sh), node)
    if k is not None and sh[k] != ONE:
        raise AbsRaise(ExcV('ValueError', ('squeeze',)), node)
    for d in sh:
        if d != ONE and not nonneg(d - 2) and k is None:
            I.notes.append('squeeze of an axis that may have length one at %s' % I.where(node))
    new = tuple(d for i, d in enumerate(sh) if not (d == ONE if k is None else i == k))
    return M.reshape_view(I, a[0], new, node)


@npf('expand_dims')
def _expand(I, a, kw, node):
    return new_axis(I, a[0], arg(a, kw, 1, 'axis'), node)


@npf('broadcast_to')
def _bto(I, a, kw, node):
    return M.wrap(I, M.broadcast(I, M.as_array(I, a[0], node), M.shape_arg(I, a[1], node), node))


@npf('take')
def _take(I, a, kw, node):
    A = M.as_array(I, a[0], node)
    ax = arg(a, kw, 2, 'axis')
    arr = I.new_arr(A) if A.ndim else A
    if ax is None:
        arr = M.wrap(I, M.reshape(I, A, (A.size(),), node))
        ax = ZERO
    k = axis_of(I, ax, A.ndim, node)
    ix = a[1]
    if isinstance(ix, (tuple, Ref)):
        ix = M.to_array(I, ix, node)
    r = M.getitem(I, arr, tuple([SliceV(None, None, None)] * k + [ix]), node)
    return copy_of(I, r, node) if isinstance(r, Arr) else r


@npf('where')
def _where(I, a, kw, node):
    if len(a) == 3:
        return where3(I, a[0], a[1], a[2], node)
    raise Undecided('where with one argument', node)


@npf('any')
def _any(I, a, kw, node):
    return np_bool(I, 'any', a[0], arg(a, kw, 1, 'axis'), node)


@npf('all')
def _all(I, a, kw, node):
    return np_bool(I, 'all', a[0], arg(a, kw, 1, 'axis'), node)


@npf('isfinite')
def _isfinite(I, a, kw, node):
    return M.wrap(I, M.as_array(I, a[0], node).map(lambda e: ONE if not has_unknown(e) else cond('isfinite', (e,)),
                                                   'bool'))


@npf('isnan', 'isinf')
def _isnan(I, a, kw, node):
    return M.wrap(I, M.as_array(I, a[0], node).map(lambda e: ZERO, 'bool'))


def _tols(I, a, kw):
    """Tolerances, if given (relative, absolute)."""
    r, t = arg(a, kw, 2, 'rtol'), arg(a, kw, 3, 'atol')
    if r is None and t is None:
        return ()
    return (E(Fraction(1, 100000)) if r is None else I.num(r), E(Fraction(1, 100000000)) if t is None else I.num(t))


@npf('isclose')
def _isclose(I, a, kw, node):
    A, B = M.as_array(I, a[0], node), M.as_array(I, a[1], node)
    sh = M.bshape(I, [A.shape, B.shape], node)
    tol = _tols(I, a, kw)
    r = Array.make(sh, lambda *i: cond('isclose', (M.bget(A, i), M.bget(B, i)) + tol) if M.bget(A, i) != M.bget(B, i)
                   else ONE, 'bool')
    if not sh:
        return I.mkbool(r.body)
    return M.wrap(I, r)


@npf('array_equal')
def _array_equal(I, a, kw, node):
    return _allclose(I, a, kw, node, 'array_equal')


@npf('allclose')
def _allclose(I, a, kw, node, name='allclose'):
    tols = _tols(I, a, kw) if name == 'allclose' else (ZERO, ZERO)
    A, B = M.as_array(I, a[0], node), M.as_array(I, a[1], node)
    if A.ndim == B.ndim and A.shape == B.shape and A.same(B):
        return True
    if A.ndim == B.ndim and all((x - y).is_zero() for x, y in zip(A.shape, B.shape)):
        vs = [fresh(ZERO, d, 'q') for d in A.shape]
        ix = [ivar(v) for v in vs]
        if zero_on(A.elem(*ix) - B.elem(*ix), vs)[0]:
            return True
        if all(d.const() is not None and d.const() <= 12 for d in A.shape):
            ok = _const_close(A, B, tols)
            if ok is not None:
                return ok
    if name == 'array_equal':
        if A.ndim != B.ndim:
            return False
        return BoolV(cond(name, (A.lam(), B.lam())))
    try:
        sh = M.bshape(I, [A.shape, B.shape], node)
        A, B = [Array.make(sh, lambda *i, X=X: M.bget(X, i)) for X in (A, B)]
    except Undecided:
        pass
    return BoolV(cond('allclose', (A.lam(), B.lam()) + tols))


@npf('isscalar')
def _isscalar(I, a, kw, node):
    v = a[0]
    if isinstance(v, (PyNum, bool, str, StrV)):
        return True
    if isinstance(v, Expr):
        if v.const() is not None:
            return True
        return BoolV(cond('isscalar', (v,)))
    if isinstance(v, Opq):
        return BoolV(cond('isscalar:' + v.path))
    return False


@npf('ndim')
def _ndim(I, a, kw, node):
    return E(M.as_array(I, a[0], node).ndim)


@npf('shape')
def _shape(I, a, kw, node):
    return tuple(M.as_array(I, a[0], node).shape)


@npf('size')
def _size(I, a, kw, node):
    A = M.as_array(I, a[0], node)
    ax = arg(a, kw, 1, 'axis')
    return A.size() if ax is None else A.shape[axis_of(I, ax, A.ndim, node)]


@npf('max', 'amax')
def _max(I, a, kw, node):
    return argreduce(I, 'max', M.as_array(I, a[0], node), arg(a, kw, 1, 'axis'), node)


@npf('min', 'amin')
def _min(I, a, kw, node):
    return argreduce(I, 'min', M.as_array(I, a[0], node), arg(a, kw, 1, 'axis'), node)


@npf('argmax')
def _argmax(I, a, kw, node):
    return argreduce(I, 'argmax', M.as_array(I, a[0], node), arg(a, kw, 1, 'axis'), node)


@npf('argmin')
def _argmin(I, a, kw, node):
    return argreduce(I, 'argmin', M.as_array(I, a[0], node), arg(a, kw, 1, 'axis'), node)


@npf('linspace')
def _linspace(I, a, kw, node):
    return linspace(I, a, kw, node)


@npf('arange')
def _arange(I, a, kw, node):
    return arange(I, a, kw, node)


@npf('round', 'around', 'round_')
def _round(I, a, kw, node):
    d = arg(a, kw, 1, 'decimals', ZERO)
    d = I.num(d)

    def f(e):
        if is_int(e) and nonneg(d):
            return e
        if d.is_zero():
            return ufn('rint')(e)
        return fac(Fac('fn', 'round', (e, d)))
    return unary(I, a[0], f, node)


@npf('triu', 'tril')
def _triu(I, a, kw, node, up=True):
    A = M.as_array(I, a[0], node)
    k = I.num(arg(a, kw, 1, 'k', ZERO))
    return M.wrap(I, Array.make(A.shape, lambda i, j: (ge(j - i - k) if up else ge(i + k - j)) * A.elem(i, j),
                                A.dtype))


NP['triu'] = lambda I, a, kw, node: _triu(I, a, kw, node, True)
NP['tril'] = lambda I, a, kw, node: _triu(I, a, kw, node, False)


@npf('fill_diagonal')
def _filld(I, a, kw, node):
    A = I.read(a[0])
    v = M.as_array(I, a[1], node)
    r = Array.make(A.shape, lambda i, j: delta(i, j) * M.bget(v, [i]) + (ONE - delta(i, j)) * A.elem(i, j), A.dtype)
    M.store_all(I, a[0], r, node)
    return None


@npf('finfo')
def _finfo(I, a, kw, node):
    POSITIVE.add('eps_float')
    return I.stub('finfo', {'eps': sym('eps_float'), 'tiny': sym('float:tiny'), 'max': sym('float:max'),
                            'min': sym('float:min')})


for _t in ('float64', 'float_', 'double', 'int64', 'int32', 'intp', 'bool_', 'int_'):
    NP[_t] = (lambda t: lambda I, a, kw, node: M.wrap(I, cast(M.as_array(I, a[0], node), dtype_of(I, t, node)))
              if a else ZERO)(_t.rstrip('_'))


@npf('seterr', 'set_printoptions', 'errstate')
def _ignore(I, a, kw, node):
    return UnkV('numpy setting')


@npf('unique')
def _unique(I, a, kw, node):
    A = M.as_array(I, a[0], node)
    h = I.ctx.get('unique')
    if h is not None:
        I.unique_kw = {k: v for k, v in kw.items() if v not in (None, False)}
        for k, v in zip(('return_index', 'return_inverse', 'return_counts', 'axis'), a[1:]):
            I.unique_kw[k] = v
        return h(I, A, node)
    if len(a) == 1 and not any(v not in (None, False) for v in kw.values()):
        k = intval(A.shape[0]) if A.ndim == 1 else None
        if k is not None:
            c = [A.elem(E(j)).const() for j in range(k)]
            if None not in c:
                u = [E(x) for x in sorted(set(c))]

                def pick(j):
                    r = ZERO
                    for q, x in enumerate(u):
                        r = r + delta(j, E(q)) * x
                    return r
                return I.new_arr(Array.make((E(len(u)),), pick, A.dtype))
        if strictly_increasing(A):
            return I.new_arr(A)
    raise Undecided('unique', node)


@npf('sort')
def _sort(I, a, kw, node):
    h = I.ctx.get('sort')
    if h is not None:
        return h(I, M.as_array(I, a[0], node), node)
    A = M.as_array(I, a[0], node)
    if strictly_increasing(A) and len(a) == 1 and kw.get('kind') is None:
        return I.new_arr(A)
    raise Undecided('sort', node)


@npf('ix_')
def _ix(I, a, kw, node):
    out = []
    for k, x in enumerate(a):
        A = M.as_array(I, x, node)
        sh = [ONE] * len(a)
        sh[k] = A.shape[0]
        out.append(M.wrap2(I, Array.make(sh, lambda *i, A=A, k=k: A.elem(i[k]), 'int')))
    return tuple(out)


@npf('argsort', 'searchsorted', 'cov',
     'histogram', 'convolve', 'vectorize', 'select',
     'isin', 'fromiter', 'lexsort', 'digitize', 'resize', 'pad')
def _unsupported(I, a, kw, node):
    raise Undecided('library function not modelled', node)


# linear algebra ---------------------------------------------------------------------------------------------------
def np_cholesky(I, a, kw, node):
    lam = lam_of(I, a[0], node)
    pd_check(I, lam, node, 'cholesky')
    up = kw.get('upper', False)
    return M.wrap(I, matfn(I, 'chol', a[0], node, transpose=up is True))


def sp_cholesky(I, a, kw, node):
    lam = lam_of(I, a[0], node)
    pd_check(I, lam, node, 'cholesky')
    lower = arg(a, kw, 1, 'lower', False)
    if not isinstance(lower, bool):
        raise Undecided('cholesky(lower=?)', node)
    return M.wrap(I, matfn(I, 'chol', a[0], node, transpose=not lower))


def np_inv(I, a, kw, node):
    lam_of(I, a[0], node)
    return M.wrap(I, matfn(I, 'inv', a[0], node))


def np_solve(I, a, kw, node):
    return solve(I, a[0], a[1], node)


def solve_triangular(I, a, kw, node):
    A = M.as_array(I, a[0], node)
    tr = arg(a, kw, 2, 'trans', ZERO)
    lower = arg(a, kw, 3, 'lower', False)
    b = A.elem(ivar(A.vars[0]), ivar(A.vars[1]))
    g = b.single()
    i0, i1 = ivar(A.vars[0]), ivar(A.vars[1])
    ok = False
    if g is not None and g.kind == 'fn' and g.name in ('chol', 'invchol') and len(g.args) == 3:
        if g.args[1:] == (i0, i1):
            ok = lower is True
        elif g.args[1:] == (i1, i0):
            ok = lower is False
    if not ok:
        raise Undecided('triangular solve', node)
    if intval(tr) == 1 or tr in ('T', 'C'):
        A0 = A
        A = Array.make(A.shape[::-1], lambda i, j: A0.elem(j, i))
    return solve(I, A, a[1], node)


def cho_factor(I, a, kw, node):
    lower = arg(a, kw, 1, 'lower', False)
    lam = lam_of(I, a[0], node)
    pd_check(I, lam, node, 'cho_factor')
    return (M.wrap(I, matfn(I, 'chol', a[0], node, transpose=lower is not True)), lower)


def cho_solve(I, a, kw, node):
    c, low = a[0]
    C = M.as_array(I, c, node)
    n = C.shape[0]

    def f(i, j):
        v = fresh(ZERO, n, 'd')
        k = ivar(v)
        return Sum(v, n, C.elem(i, k) * C.elem(j, k) if low is True else C.elem(k, i) * C.elem(k, j))
    return solve(I, Array.make((n, n), f), a[1], node)


def const_det(C):
    n, d = len(C), Fraction(1)
    R = [list(map(Fraction, r)) for r in C]
    for c in range(n):
        p = next((r for r in range(c, n) if R[r][c] != 0), None)
        if p is None:
            return Fraction(0)
        if p != c:
            R[c], R[p], d = R[p], R[c], -d
        d *= R[c][c]
        for r in range(c + 1, n):
            q = R[r][c] / R[c][c]
            R[r] = [x - q * y for x, y in zip(R[r], R[c])]
    return d


def np_det(I, a, kw, node):
    lam = lam_of(I, a[0], node)
    C = const_matrix(lam)
    if C is not None and len(C) == len(C[0]):
        return E(const_det(C))
    h = I.ctx.get('pd')
    if h is not None and h(I, lam) not in ('ok', None):
        raise Undecided('determinant of a matrix that is not positive definite', node)
    return ufn('exp')(fn('logdet', (lam_of(I, a[0], node),)))


def np_slogdet(I, a, kw, node):
    return (ONE, fn('logdet', (lam_of(I, a[0], node),)))


def _const_close(A, B, tols=()):
    rt, at = [t.const() for t in tols] or [Fraction(1, 10 ** 5), Fraction(1, 10 ** 8)]
    if rt is None or at is None:
        return None
    idx = [[]]
    for d in A.shape:
        idx = [i + [E(j)] for i in idx for j in range(int(d.const()))]
    for i in idx:
        x, y = A.elem(*i).const(), B.elem(*i).const()
        if x is None or y is None:
            return None
        if abs(x - y) > at + rt * abs(y):
            return False
    return True


def const_matrix(lam):
    """The entries of a constant matrix of known size, or None."""
    n, m = (d.const() for d in lam.shape)
    if n is None or m is None or n > 12 or m > 12:
        return None
    out = [[lam.inst([E(i), E(j)]).const() for j in range(int(m))] for i in range(int(n))]
    return out if all(x is not None for r in out for x in r) else None


def sym_eigenvalues(A):
    """Eigenvalues of a constant symmetric matrix (Jacobi rotations; exact number of zeros by elimination)."""
    import math
    n = len(A)
    B = [list(map(Fraction, r)) for r in A]
    rank = 0
    rows = [r[:] for r in B]
    for c in range(n):
        p = next((r for r in range(rank, n) if rows[r][c] != 0), None)
        if p is None:
            continue
        rows[rank], rows[p] = rows[p], rows[rank]
        for r in range(rank + 1, n):
            q = rows[r][c] / rows[rank][c]
            rows[r] = [x - q * y for x, y in zip(rows[r], rows[rank])]
        rank += 1
    F = [[float(x) for x in r] for r in B]
    for _ in range(60):
        off = sum(F[i][j] ** 2 for i in range(n) for j in range(n) if i != j)
        if off < 1e-26:
            break
        for p in range(n):
            for q in range(p + 1, n):
                if abs(F[p][q]) < 1e-300:
                    continue
                th = (F[q][q] - F[p][p]) / (2 * F[p][q])
                t = (1 if th >= 0 else -1) / (abs(th) + math.sqrt(th * th + 1))
                c = 1 / math.sqrt(t * t + 1)
                s = t * c
                for k in range(n):
                    F[k][p], F[k][q] = c * F[k][p] - s * F[k][q], s * F[k][p] + c * F[k][q]
                for k in range(n):
                    F[p][k], F[q][k] = c * F[p][k] - s * F[q][k], s * F[p][k] + c * F[q][k]
    ev = sorted((F[i][i] for i in range(n)), key=abs)
    return [Fraction(0)] * (n - rank) + [Fraction(x).limit_denominator(10 ** 12) for x in ev[n - rank:]]


def np_eigvals(I, a, kw, node):
    lam = lam_of(I, a[0], node)
    n = lam.shape[0]
    v, w = fresh(ZERO, n, 'q'), fresh(ZERO, n, 'q')
    i, j = ivar(v), ivar(w)
    if zero_on(lam.inst([i, j]) * (ONE - delta(i, j)), [v, w])[0]:
        return M.wrap(I, Array.make((n,), lambda i: lam.inst([i, i])))
    C = const_matrix(lam)
    if C is not None:
        k = len(C)
        if all(C[r][c] == 0 for r in range(k) for c in range(r)) or all(C[c][r] == 0 for r in range(k) for c in range(r)):
            return M.wrap(I, I.read(M.to_array(I, tuple(E(C[r][r]) for r in range(k)), node)))
        if all(C[r][c] == C[c][r] for r in range(k) for c in range(r)):
            return M.wrap(I, I.read(M.to_array(I, tuple(E(x) for x in sym_eigenvalues(C)), node)))
    return M.wrap(I, Array.make((lam.shape[0],), lambda i: fac(Fac('fn', 'eig', (lam, i)))))


def np_norm(I, a, kw, node):
    return norm(I, a, kw, node)


LINALG = {'inv': np_inv, 'pinv': np_inv, 'solve': np_solve, 'det': np_det, 'slogdet': np_slogdet,
          'eigvals': np_eigvals, 'eigvalsh': np_eigvals, 'norm': np_norm, 'multi_dot': _multi,
          'solve_triangular': solve_triangular, 'cho_factor': cho_factor, 'cho_solve': cho_solve}


# random generators ----------------------------------------------------------------------------------------------
def same_mask(masks):
    return all(m.same(masks[0]) for m in masks[1:])


def picked_call(I, name, last, args, kw, node):
    """Element-wise functions of selected elements; sums and counts of them."""
    ps = [x for x in args if isinstance(x, Picked)]
    if not ps or not same_mask([p.mask for p in ps]):
        raise Undecided('boolean mask', node)
    whole = [I.new_arr(x.full) if isinstance(x, Picked) else x for x in args]
    if (last in UNARY or last in BINARY or last in ('maximum', 'minimum', 'where', 'clip')) and not kw and \
            all(isinstance(x, Picked) or not isinstance(x, (Arr, Array)) or I.read(x).ndim == 0 for x in args):
        return Picked(M.as_array(I, ext_call(I, name, whole, kw, node), node), ps[0].mask)
    p = ps[0]
    if len(args) == 1 and not kw and last in ('sum', 'size', 'asarray', 'array', 'count_nonzero', 'mean', 'any', 'all'):
        return picked_method(I, p, {'asarray': 'copy', 'array': 'copy'}.get(last, last), [], {}, node)
    raise Undecided('boolean mask', node)


def picked_method(I, p, name, a, kw, node):
    k = p.mask.ndim
    w = lambda *i: p.mask.elem(*i[:k])
    f = p.full
    tot = lambda g: M.wrap(I, Array.make((), lambda: reduce_sum(I, Array.make(f.shape, g), None, node).elem()))
    if a or kw:
        raise Undecided('boolean mask', node)
    if name == 'copy':
        return p
    if name == 'sum':
        return tot(lambda *i: w(*i) * f.elem(*i))
    if name == 'size' or name == 'count_nonzero' and f.dtype == 'bool':
        return tot(lambda *i: w(*i) * (ONE if name == 'size' else f.elem(*i)))
    if name == 'mean':
        n = I.num(tot(lambda *i: w(*i)))
        return I.num(tot(lambda *i: w(*i) * f.elem(*i))) * power(n, -1)
    if name in ('any', 'all') and f.dtype == 'bool':
        q = I.new_arr(Array.make(f.shape, lambda *i: w(*i) * f.elem(*i) + (ONE - w(*i)) * (1 if name == 'all' else 0), 'bool'))
        return call_method(I, q, name, [], {}, node)
    raise Undecided('boolean mask', node)


def copied(I, v, deep, memo, node):
    """copy.copy / copy.deepcopy of a value."""
    if isinstance(v, (Arr, Array)):
        if isinstance(v, Arr):
            k = (v.oid, str(v.view.idx) if v.view else None)
            if k not in memo:
                memo[k] = copy_of(I, v, node)
            return memo[k]
        return v
    if isinstance(v, tuple) and type(v) is tuple:
        return tuple(copied(I, x, True, memo, node) for x in v) if deep else v
    if not isinstance(v, Ref):
        return v
    if v.oid in memo:
        return memo[v.oid]
    o = I.obj(v)
    sub = (lambda x: copied(I, x, True, memo, node)) if deep else (lambda x: x)
    if o.kind == 'stub':
        if o.name != 'rng':
            raise Undecided('copy of %s' % o.name, node)
        r = memo[v.oid] = make_rng(I, o.attrs.get('src'))
        return r
    if o.kind == 'inst':
        if o.cls.lookup('__copy__')[0] is not None or o.cls.lookup('__deepcopy__')[0] is not None or \
                o.cls.lookup('__reduce__')[0] is not None or o.cls.lookup('__getstate__')[0] is not None:
            raise Undecided('copy of %s' % o.cls.name, node)
        r = memo[v.oid] = Ref(I.new(type(o)(o.cls, {})))
        I.obj(r).attrs.update({k: sub(x) for k, x in o.attrs.items()})
        return r
    if o.kind == 'list':
        r = memo[v.oid] = Ref(I.new(type(o)([])))
        I.obj(r).items.extend(sub(x) for x in o.items)
        return r
    if o.kind == 'dict' and not o.generic:
        r = memo[v.oid] = Ref(I.new(type(o)({}, None, o.path)))
        I.obj(r).d.update({k: sub(x) for k, x in o.d.items()})
        return r
    return call_method(I, v, 'copy', [], {}, node)


def make_rng(I, src):
    ref = I.stub('rng', {'src': src})
    o = I.obj(ref)

    def meth(kind, shape_pos, nm='size'):
        def f(I, a, kw, node):
            return draw(I, ref, kind, a, kw, shape_pos, node)
        return f
    o.methods.update({'standard_normal': meth('standard_normal', 0), 'random': meth('random', 0),
                      'normal': meth('normal', 2), 'uniform': meth('uniform', 2), 'integers': meth('integers', 2),
                      'multivariate_normal': meth('multivariate_normal', 2), 'choice': meth('choice', 1),
                      'spawn': lambda I, a, kw, node: UnkV('spawn'), 'shuffle': lambda I, a, kw, node: None,
                      'exponential': meth('exponential', 1), 'poisson': meth('poisson', 1),
                      'permutation': meth('permutation', 1)})
    return ref


def draw(I, rng, kind, a, kw, pos, node):
    size = arg(a, kw, pos, 'size')
    sh = () if size is None else M.shape_arg(I, size, node)
    k = I.draws
    I.draws += 1
    name = '~%s%d' % (kind, k)
    I.draw_log.append((name, kind, rng, sh, I.where(node), tuple(v for v, _ in I.loopvars)))
    lv = tuple(ivar(v) for v, _ in I.loopvars)
    if kind == 'normal':
        loc = M.as_array(I, arg(a, kw, 0, 'loc', ZERO), node)
        sc = M.as_array(I, arg(a, kw, 1, 'scale', ONE), node)
        base = M.bshape(I, [loc.shape, sc.shape, sh], node)
        nm = '~standard_normal%d' % k
        I.draw_log[-1] = (nm,) + I.draw_log[-1][1:]
        return M.wrap(I, Array.make(base, lambda *i: M.bget(loc, i) + M.bget(sc, i) * el(nm, lv + tuple(i))))
    if kind == 'multivariate_normal':
        mean = M.as_array(I, arg(a, kw, 0, 'mean'), node)
        lam = lam_of(I, arg(a, kw, 1, 'cov'), node)
        n = lam.shape[0]
        nm = '~standard_normal%d' % k
        I.draw_log[-1] = (nm,) + I.draw_log[-1][1:]

        def f(*i):
            v = fresh(ZERO, n, 'd')
            return mean.elem(i[-1]) + Sum(v, n, fn('chol', (lam,), (i[-1], ivar(v)))
                                          * el(nm, lv + tuple(i[:-1]) + (ivar(v),)))
        return M.wrap(I, Array.make(tuple(sh) + (n,), f))
    return M.wrap(I, Array.make(sh, lambda *i: el(name, lv + tuple(i))))


from .pyfun import BUILTINS, METHODS, call_method, bi_sum, RANDOM    # noqa: E402


def method(I, obj, name, args, kw, node):
    return call_method(I, obj, name, args, kw, node)


def _has_opaque(args, kw):
    return any(isinstance(x, Opq) for x in list(args) + list(kw.values()))


class UsedList(list):
    """Positional arguments; records which of them a model looked at."""
    def __init__(self, it):
        list.__init__(self, it)
        self.used = set()

    def __getitem__(self, k):
        if isinstance(k, slice):
            self.used |= set(range(len(self))[k])
        else:
            self.used.add(k % len(self) if len(self) else 0)
        return list.__getitem__(self, k)

    def __iter__(self):
        self.used |= set(range(len(self)))
        return list.__iter__(self)

    def __add__(self, o):
        return list(iter(self)) + o

    def __radd__(self, o):
        return o + list(iter(self))


class UsedDict(dict):
    """Keyword arguments; records which of them a model looked at."""
    def __init__(self, d):
        dict.__init__(self, d)
        self.used = set()

    def get(self, k, d=None):
        self.used.add(k)
        return dict.get(self, k, d)

    def __getitem__(self, k):
        self.used.add(k)
        return dict.__getitem__(self, k)

    def __contains__(self, k):
        self.used.add(k)
        return dict.__contains__(self, k)

    def _all(self):
        self.used |= set(dict.keys(self))

    def pop(self, k, *d):
        self.used.add(k)
        return dict.pop(self, k, *d)

    def items(self):
        self._all()
        return dict.items(self)

    def keys(self):
        self._all()
        return dict.keys(self)

    def values(self):
        self._all()
        return dict.values(self)

    def __iter__(self):
        self._all()
        return dict.__iter__(self)


ALL_IGNORED = ('print', 'finfo', 'getattr', 'next', 'isinstance', 'issubclass', 'hasattr', 'setattr', 'zip', 'dict', 'open', 'seterr', 'set_printoptions', 'errstate', 'exit', 'quit', 'hash', 'id', 'format', 'repr')
NO_EFFECT = ('order', 'casting', 'subok', 'check_finite', 'like', 'device')


def used(I, name, f, args, kw, node):
    """Apply a model; arguments that it does not look at make the result undecided."""
    a, k = UsedList(args), UsedDict(kw)
    r = f(I, a, k, node)
    if name.split('.')[-1] in ALL_IGNORED:
        return r
    left = [x for x in dict.keys(k) if x not in k.used and x not in NO_EFFECT]
    left += [str(i) for i in range(len(a)) if i not in a.used]
    left = [x for x in left if not (x == 'dtype' and dtype_of(I, kw[x], node) in ('float', 'num')
                                    or x in kw and kw[x] is None)]
    if left:
        raise Undecided('argument %s of %s' % (', '.join(left), name), node)
    return r


def ext_call(I, name, args, kw, node):
    parts = name.split('.')
    top, last = parts[0], parts[-1]
    if top == 'builtins':
        f = BUILTINS.get(last)
        if f is None:
            raise Undecided('builtin %s' % last, node)
        return used(I, name, f, args, kw, node)
    if name in RANDOM:
        return RANDOM[name](I, args, kw, node)
    if name.startswith('numpy.random'):
        I.st.events.append(('random', name, I.where(node)))
        return UnkV(name)
    if top in ('numpy', 'math') and args and args[0] is None:
        if last in ('take', 'diff'):
            raise AbsRaise(ExcV('ValueError', ('%s of None' % last,)), node)
        if last in ('abs', 'absolute', 'sqrt', 'exp', 'log', 'floor', 'ceil', 'negative', 'square', 'sin', 'cos'):
            raise AbsRaise(ExcV('TypeError', ('%s of None' % last,)), node)
    if top in ('numpy', 'scipy', 'math'):
        vals = list(args) + list(kw.values())
        for v in vals:
            if isinstance(v, UnkV):
                return v
        if any(isinstance(v, Picked) for v in vals):
            return picked_call(I, name, last, args, kw, node)
        if _has_opaque(args, kw):
            I.st.events.append(('call', name, tuple(args), tuple(sorted(kw.items(), key=lambda x: x[0])),
                                getattr(node, 'lineno', 0)))
            return Opq('%s(%s)' % (name, ', '.join([I.pstr(a) for a in args]
                                                   + ['%s=%s' % (k, I.pstr(v)) for k, v in sorted(kw.items())])))
        if 'linalg' in parts:
            if last == 'cholesky':
                return used(I, name, np_cholesky if top == 'numpy' else sp_cholesky, args, kw, node)
            if last in LINALG:
                return used(I, name, LINALG[last], args, kw, node)
            raise Undecided('%s' % name, node)
        if top == 'numpy' and len(parts) == 3 and (parts[1] in BINARY or parts[1] in ('maximum', 'minimum')):
            return lib.ufunc_method(I, parts[1], last, args, kw, node)
        if last in NP and len(parts) > 2 and parts[1] not in ('linalg', 'core', 'lib', 'integrate', 'ma'):
            raise Undecided('library function %s' % name, node)
        if last in NP and (top in ('numpy', 'math') or last in ('trapezoid', 'trapz')):
            return used(I, name, NP[last], args, kw, node)
        if top == 'math' and last == 'isqrt':
            raise Undecided(name, node)
        raise Undecided('library function %s' % name, node)
    r = lib.py_call(I, name, args, kw, node) if name not in ('typing.cast',) else None
    if r is not None:
        return r[0]
    if top in EXT_OPAQUE:
        if name in ('sys.exit',):
            raise AbsRaise(ExcV('SystemExit', tuple(args)), node)
        if name in ('copy.copy', 'copy.deepcopy'):
            return copied(I, args[0], name == 'copy.deepcopy', {}, node)
        if name == 'contextlib.suppress':
            pats = [x.name.replace('builtins.', '') if isinstance(x, ExtV) else x.name if isinstance(x, ClassV) else '?'
                    for x in args]

            def leave(it, aa, kk, nn):
                from .interp import exc_matches
                e = aa[1] if len(aa) > 1 else None
                return e is not None and any(exc_matches(e.cls, q) for q in pats)
            return I.stub('suppress', {}, {'__enter__': lambda it, aa, kk, nn: None, '__exit__': leave})
        if name == 'typing.cast':
            return args[1]
        I.st.events.append(('call', name, tuple(args), tuple(sorted(kw.items(), key=lambda x: x[0])),
                            getattr(node, 'lineno', 0)))
        return Opq('%s(%s)' % (name, ', '.join([I.pstr(a) for a in args]
                                               + ['%s=%s' % (k, I.pstr(v)) for k, v in sorted(kw.items())])))
    raise Undecided('external function %s' % name, node)


from . import lib     # noqa: E402
