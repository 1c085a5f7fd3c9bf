"""Models of further library functions: numpy on fixed-size arguments, functools, itertools, operator, collections."""
from fractions import Fraction
from .alg import *
from .values import *
from . import npmodel as M
from .npfun import *
from . import npcall as C
from .npcall import npf, NP, BINARY, out_arg

FIXED = 64


def fixed(I, v, node, what):
    """(array, list of its elements in C order) of an array of constant shape."""
    A = v if isinstance(v, Array) else M.as_array(I, v, node)
    idx = [()]
    for d in A.shape:
        k = intval(d)
        if k is None or k > FIXED:
            raise Undecided(what, node)
        idx = [i + (E(j),) for i in idx for j in range(k)]
    if len(idx) > FIXED:
        raise Undecided(what, node)
    return A, [A.elem(*i) for i in idx]


def from_list(I, L, dtype='float'):
    L = list(L)

    def f(i):
        c = i.const()
        if c is not None and 0 <= c < len(L):
            return L[int(c)]
        r = ZERO
        for p, e in enumerate(L):
            r = r + delta(i, E(p)) * e
        return r
    return Array.make((E(len(L)),), f, dtype)


def wrapl(I, L, dtype='float'):
    return I.new_arr(from_list(I, L, dtype))


@npf('count_nonzero')
def _count(I, a, kw, node):
    A = M.as_array(I, a[0], node)
    if len(a) > 1 or kw:
        raise Undecided('count_nonzero', node)
    B = cast(A, 'bool')
    return reduce_sum(I, Array(B.shape, B.vars, B.body, 'int'), None, node).elem()


@npf('copyto')
def _copyto(I, a, kw, node):
    w = arg(a, kw, 3, 'where', True)
    if w is True:
        M.setitem(I, a[0], Ellipsis, a[1], node)
        return None
    old = I.read(a[0])
    W = M.broadcast(I, M.as_array(I, w, node), old.shape, node)
    V = M.broadcast(I, M.as_array(I, a[1], node), old.shape, node)
    M.store_all(I, a[0], Array.make(old.shape, lambda *i: W.elem(*i) * V.elem(*i) + (ONE - W.elem(*i)) * old.elem(*i),
                                    old.dtype), node)
    return None


@npf('putmask')
def _putmask(I, a, kw, node):
    V = M.as_array(I, a[2], node)
    old = I.read(a[0])
    if V.ndim and (V.ndim != old.ndim or any(not (p - q).is_zero() for p, q in zip(V.shape, old.shape))):
        raise Undecided('putmask', node)
    return _copyto(I, [a[0], a[2]], {'where': a[1]}, node)


@npf('place')
def _place(I, a, kw, node):
    if M.as_array(I, a[2], node).ndim:
        raise Undecided('place', node)
    return _copyto(I, [a[0], a[2]], {'where': a[1]}, node)


@npf('put')
def _put(I, a, kw, node):
    if len(a) > 3 or kw:
        raise Undecided('put', node)
    if not isinstance(a[0], Arr):
        raise Undecided('put', node)
    flat = M.reshape_view(I, a[0], (I.read(a[0]).size(),), node)
    M.setitem(I, flat, a[1] if not isinstance(a[1], Expr) else a[1], a[2], node)
    return None


@npf('nan_to_num')
def _nan_to_num(I, a, kw, node):
    """Admissible values are finite."""
    if arg(a, kw, 1, 'copy', True) is True:
        return copy_of(I, a[0], node) if isinstance(a[0], (Arr, Array)) else a[0]
    return a[0]


@npf('diag_indices')
def _diag_indices(I, a, kw, node):
    n = M.dim_arg(I, a[0], node)
    k = intval(arg(a, kw, 1, 'ndim', E(2)))
    return tuple(I.new_arr(Array.make((n,), lambda i: i, 'int')) for _ in range(k))


@npf('diag_indices_from')
def _diag_indices_from(I, a, kw, node):
    A = M.as_array(I, a[0], node)
    return tuple(I.new_arr(Array.make((A.shape[0],), lambda i: i, 'int')) for _ in A.shape)


def _tri(upper, from_):
    def f(I, a, kw, node):
        if from_:
            sh = M.as_array(I, a[0], node).shape
            n, m, k = intval(sh[0]), intval(sh[1]), intval(arg(a, kw, 1, 'k', ZERO))
        else:
            n, k = intval(a[0]), intval(arg(a, kw, 1, 'k', ZERO))
            m = intval(arg(a, kw, 2, 'm', a[0]))
        if n is None or m is None or k is None or n * m > FIXED:
            raise Undecided('triangle indices', node)
        L = [(i, j) for i in range(n) for j in range(m) if (j - i >= k if upper else j - i <= k)]
        return tuple(wrapl(I, [E(p[q]) for p in L], 'int') for q in (0, 1))
    return f


for _n, _u, _f in (('triu_indices', True, False), ('tril_indices', False, False), ('triu_indices_from', True, True),
                   ('tril_indices_from', False, True)):
    NP[_n] = _tri(_u, _f)


@npf('cumprod')
def _cumprod(I, a, kw, node):
    A, L = fixed(I, a[0], node, 'cumprod')
    if A.ndim != 1 and arg(a, kw, 1, 'axis') is not None:
        raise Undecided('cumprod', node)
    out, p = [], ONE
    for e in L:
        p = p * e
        out.append(p)
    return wrapl(I, out, A.dtype)


@npf('trunc', 'fix')
def _trunc(I, a, kw, node):
    A = M.as_array(I, a[0], node)
    return out_arg(I, A.map(M.to_int, 'float'), kw, node)


@npf('split', 'array_split', 'vsplit')
def _split(I, a, kw, node):
    A = M.as_array(I, a[0], node)
    ax = arg(a, kw, 2, 'axis', ZERO)
    if ax != ZERO:
        raise Undecided('split', node)
    n = A.shape[0]
    if isinstance(a[1], Expr):
        k, m = intval(a[1]), intval(n)
        if k is None or m is None or k < 1 or m % k:
            raise Undecided('split', node)
        cuts = [E(m // k * j) for j in range(1, k)]
    else:
        cuts = seq_items(I, a[1], node)
        if not all(isinstance(c, Expr) and is_int(c) and nonneg(c) and nonneg(n - c) for c in cuts) or \
                not all(nonneg(d - c) for c, d in zip(cuts, cuts[1:])):
            raise Undecided('split', node)
    out = []
    for lo, hi in zip([ZERO] + cuts, cuts + [n]):
        out.append(M.getitem(I, a[0], SliceV(lo, hi, None), node))
    return I.new_list(out)


@npf('cross')
def _cross(I, a, kw, node):
    A, B = M.as_array(I, a[0], node), M.as_array(I, a[1], node)
    if A.shape != (E(3),) or B.shape != (E(3),):
        raise Undecided('cross', node)
    g = lambda i, j: A.elem(E(i)) * B.elem(E(j)) - A.elem(E(j)) * B.elem(E(i))
    return wrapl(I, [g(1, 2), g(2, 0), g(0, 1)])


@npf('hypot')
def _hypot(I, a, kw, node):
    s = C.ext_call(I, 'numpy.square', [a[0]], {}, node)
    t = C.ext_call(I, 'numpy.square', [a[1]], {}, node)
    import ast
    return C.ext_call(I, 'numpy.sqrt', [I.binop(ast.Add(), s, t, node)], {}, node)


@npf('var', 'std')
def _var(I, a, kw, node, what='var'):
    if len(a) > 2 or set(kw) - {'axis', 'ddof'}:
        raise Undecided('variance', node)
    A = M.as_array(I, a[0], node)
    ax = arg(a, kw, 1, 'axis')
    n = A.size() if ax is None else A.shape[axis_of(I, ax, A.ndim, node)]
    m = C.ext_call(I, 'numpy.mean', [I.new_arr(A)], dict(axis=ax, keepdims=True), node)
    import ast
    d = I.binop(ast.Sub(), I.new_arr(A), m, node)
    s = C.ext_call(I, 'numpy.sum', [I.binop(ast.Mult(), d, d, node)], dict(axis=ax), node)
    return I.binop(ast.Div(), s, PyNum(n - I.num(kw.get('ddof', ZERO))), node)


NP['std'] = lambda I, a, kw, node: C.ext_call(I, 'numpy.sqrt', [_var(I, a, kw, node)], {}, node)
NP['var'] = _var


@npf('matrix_power')
def _matrix_power(I, a, kw, node):
    k = intval(a[1])
    if k is None or not 1 <= k <= 6:
        raise Undecided('matrix_power', node)
    r = a[0]
    for _ in range(k - 1):
        r = M.matmul(I, r, a[0], node)
    return r if k > 1 else copy_of(I, r, node)


C.LINALG['matrix_power'] = _matrix_power


@npf('delete')
def _delete(I, a, kw, node):
    A = M.as_array(I, a[0], node)
    n = intval(A.shape[0]) if A.ndim == 1 else None
    ax = arg(a, kw, 2, 'axis')
    if n is None or n > FIXED or ax not in (None, ZERO):
        raise Undecided('delete', node)
    ks = [intval(x) for x in ([a[1]] if isinstance(a[1], Expr) else seq_items(I, a[1], node))]
    if None in ks or any(not -n <= k < n for k in ks):
        raise Undecided('delete', node)
    ks = {k % n for k in ks}
    return wrapl(I, [A.elem(E(i)) for i in range(n) if i not in ks], A.dtype)


@npf('insert')
def _insert(I, a, kw, node):
    A = M.as_array(I, a[0], node)
    V = M.as_array(I, a[2], node)
    k = intval(a[1]) if isinstance(a[1], Expr) else None
    if A.ndim != 1 or k is None or k < 0 or V.ndim > 1 or arg(a, kw, 3, 'axis') not in (None, ZERO):
        raise Undecided('insert', node)
    V1 = V if V.ndim else Array.make((ONE,), lambda i: V.elem(), V.dtype)
    K = E(k)
    if not nonneg(A.shape[0] - k):
        raise Undecided('insert', node)
    parts = [Array.make((K,), lambda i: A.elem(i), A.dtype), V1,
             Array.make((A.shape[0] - K,), lambda i: A.elem(i + K), A.dtype)]
    return concat(I, [I.new_arr(x) for x in parts if not x.shape[0].is_zero()], 0, node)


@npf('block')
def _block(I, a, kw, node):
    def rec(v, depth):
        if isinstance(v, Ref) and not isinstance(v, Arr) and I.obj(v).kind == 'list':
            sub = [rec(x, depth + 1) for x in I.obj(v).items]
            deep = max(d for _, d in sub)
            arrs = [at_least(I, x, deep - depth, node) for x, _ in sub]
            return (concat(I, arrs, -(deep - depth), node) if len(arrs) > 1 else arrs[0]), deep
        return v, depth
    return rec(a[0], 0)[0]


@npf('meshgrid')
def _meshgrid(I, a, kw, node):
    if len(a) != 2 or set(kw) - {'indexing'} or kw.get('indexing', 'xy') not in ('xy', 'ij'):
        raise Undecided('meshgrid', node)
    x, y = M.as_array(I, a[0], node), M.as_array(I, a[1], node)
    if kw.get('indexing', 'xy') == 'xy':
        sh = (y.shape[0], x.shape[0])
        return I.new_list([I.new_arr(Array.make(sh, lambda i, j: x.elem(j), x.dtype)),
                           I.new_arr(Array.make(sh, lambda i, j: y.elem(i), y.dtype))])
    sh = (x.shape[0], y.shape[0])
    return I.new_list([I.new_arr(Array.make(sh, lambda i, j: x.elem(i), x.dtype)),
                       I.new_arr(Array.make(sh, lambda i, j: y.elem(j), y.dtype))])


@npf('polyval')
def _polyval(I, a, kw, node):
    cs = seq_items(I, a[0], node)
    X = M.as_array(I, a[1], node)
    cs = [I.num(c) for c in cs]

    def f(*i):
        r = ZERO
        for c in cs:
            r = r * X.elem(*i) + c
        return r
    return M.wrap(I, Array.make(X.shape, f))


@npf('fsum')
def _fsum(I, a, kw, node):
    return C.bi_sum(I, a, kw, node)


@npf('apply_along_axis')
def _along(I, a, kw, node):
    A = M.as_array(I, a[2], node)
    ax = axis_of(I, a[1], A.ndim, node)
    if A.ndim != 2 or kw:
        raise Undecided('apply_along_axis', node)
    n = intval(A.shape[1 - ax])
    if n is None or not 1 <= n <= FIXED:
        raise Undecided('apply_along_axis', node)
    rows = [I.call(a[0], [I.new_arr(Array.make((A.shape[ax],), lambda j, i=i: A.elem(E(i), j) if ax else A.elem(j, E(i)),
                                               A.dtype))] + list(a[3:]), {}, node) for i in range(n)]
    r = [M.as_array(I, x, node) for x in rows]
    if any(x.ndim != r[0].ndim for x in r):
        raise Undecided('apply_along_axis', node)
    return stack_rows(I, r, 0 if ax else r[0].ndim)


def stack_rows(I, r, axis):
    def f(*i):
        k = i[axis]
        rest = i[:axis] + i[axis + 1:]
        out = ZERO
        for p, x in enumerate(r):
            out = out + delta(k, E(p)) * x.elem(*rest)
        return out
    sh = list(r[0].shape)
    sh.insert(axis, E(len(r)))
    return I.new_arr(Array.make(tuple(sh), f))


@npf('interp')
def _interp(I, a, kw, node):
    h = I.ctx.get('np.interp')
    if h is not None:
        return h(I, a, kw, node)
    raise Undecided('library function not modelled', node)


@npf('median', 'percentile')
def _median(I, a, kw, node):
    raise Undecided('library function not modelled', node)


@npf('ptp')
def _ptp(I, a, kw, node):
    import ast
    return I.binop(ast.Sub(), C.ext_call(I, 'numpy.max', a, kw, node), C.ext_call(I, 'numpy.min', a, kw, node), node)


@npf('flatnonzero', 'nonzero', 'argwhere')
def _nonzero(I, a, kw, node, last='nonzero'):
    A, L = fixed(I, cast(M.as_array(I, a[0], node), 'bool'), node, 'nonzero')
    c = [e.const() for e in L]
    if A.ndim != 1 or None in c:
        raise Undecided('nonzero', node)
    return wrapl(I, [E(i) for i, x in enumerate(c) if x], 'int')


NP['flatnonzero'] = _nonzero
NP['nonzero'] = lambda I, a, kw, node: (_nonzero(I, a, kw, node),)


def _argwhere(I, a, kw, node):
    raise Undecided('argwhere', node)


NP['argwhere'] = _argwhere


def np_c_(I, idx, node):
    items = idx if isinstance(idx, tuple) else (idx,)
    cols = []
    for x in items:
        if isinstance(x, (SliceV, str)):
            raise Undecided('np.c_', node)
        A = M.as_array(I, x, node)
        if A.ndim == 0:
            A0 = A
            A = Array.make((ONE, ONE), lambda i, j: A0.elem(), A.dtype)
        elif A.ndim == 1:
            A1 = A
            A = Array.make((A.shape[0], ONE), lambda i, j, A1=A1: A1.elem(i), A.dtype)
        cols.append(I.new_arr(A))
    return concat(I, cols, -1, node)


# ---------------------------------------------------------------------------------------------- ufunc methods
def ufunc_method(I, uf, last, a, kw, node):
    f = BINARY.get(uf)
    if last != 'reduce' and f is None:
        raise Undecided('%s.%s' % (uf, last), node)
    if last == 'outer' and len(a) == 2 and not kw:
        A, B = M.as_array(I, a[0], node), M.as_array(I, a[1], node)
        k = A.ndim
        A2 = I.new_arr(Array.make(A.shape + tuple(ONE for _ in B.shape), lambda *i: A.elem(*i[:k]), A.dtype))
        return M.elementwise(I, f, A2, a[1], node)
    if last == 'reduce' and uf in ('add', 'logical_or', 'logical_and', 'maximum', 'minimum', 'multiply') and \
            not set(kw) - {'axis', 'keepdims'} and len(a) <= 2:
        kw = dict(kw)
        kw['axis'] = arg(a, kw, 1, 'axis', ZERO)
        return C.ext_call(I, 'numpy.' + {'add': 'sum', 'logical_or': 'any', 'logical_and': 'all', 'maximum': 'max',
                                         'minimum': 'min', 'multiply': 'prod'}[uf], [a[0]], kw, node)
    if last == 'accumulate' and uf in ('add', 'multiply') and len(a) == 1 and not kw:
        return C.ext_call(I, 'numpy.cumsum' if uf == 'add' else 'numpy.cumprod', [a[0]],
                          {'axis': ZERO}, node)
    if last == 'at' and len(a) in (2, 3):
        if isinstance(a[1], (tuple, SliceV)) or not isinstance(a[0], Arr):
            raise Undecided('ufunc.at', node)
        if isinstance(a[1], Expr):
            ks, vs = [a[1]], [a[2]]
        else:
            ks = seq_items(I, a[1], node)
            V = M.as_array(I, a[2], node)
            if V.ndim > 1 or any(not isinstance(k, Expr) for k in ks):
                raise Undecided('ufunc.at', node)
            vs = [V.elem(E(j)) if V.ndim and not V.shape[0] == ONE else V.elem(*[ZERO] * V.ndim) for j in range(len(ks))]
        for k, v in zip(ks, vs):
            cur = M.getitem(I, a[0], k, node)
            M.setitem(I, a[0], k, M.elementwise(I, f, cur, v, node), node)
        return None
    raise Undecided('%s.%s' % (uf, last), node)


# ---------------------------------------------------------------------------------------------- Python libraries
PURE = ('functools', 'itertools', 'operator', 'collections', 'types', 'enum', 're', 'string', 'dataclasses', 'numba',
        'inspect', 'statistics', 'decimal', 'fractions', 'heapq', 'bisect', 'zlib', 'hashlib', 'typing', 'abc')
PY = {}


def py(*names):
    def deco(f):
        for n in names:
            PY[n] = f
        return f
    return deco


def concrete(I, v, node, what):
    it = I.to_iter(v, node)
    if it.kind == 'concrete':
        return list(it.items)
    c = intval(it.count) if it.kind == 'sym' else None
    if c is not None and c <= FIXED:
        return [it.getter(E(j)) for j in range(c)]
    raise Undecided(what, node)


@py('functools.reduce')
def _reduce(I, a, kw, node):
    L = concrete(I, a[1], node, 'functools.reduce')
    if len(a) > 2 or 'initial' in kw:
        L = [a[2] if len(a) > 2 else kw['initial']] + L
    if not L:
        raise AbsRaise(ExcV('TypeError', ('reduce() of empty iterable with no initial value',)), node)
    r = L[0]
    for x in L[1:]:
        r = I.call(a[0], [r, x], {}, node)
    return r


@py('functools.partial')
def _partial(I, a, kw, node):
    f, pre, pk = a[0], list(a[1:]), dict(kw)
    return PyFn('partial', lambda it, aa, kk, nd: it.call(f, pre + list(aa), dict(pk, **kk), nd))


@py('itertools.chain')
def _chain(I, a, kw, node):
    its = [I.to_iter(x, node) for x in a]
    if all(i.kind == 'concrete' for i in its):
        return IterV('concrete', [x for i in its for x in i.items])
    return IterV('concrete', [x for v in a for x in concrete(I, v, node, 'itertools.chain')])


@py('itertools.chain.from_iterable')
def _chain_from(I, a, kw, node):
    return _chain(I, concrete(I, a[0], node, 'itertools.chain'), {}, node)


@py('itertools.product', 'itertools.combinations', 'itertools.permutations', 'itertools.combinations_with_replacement')
def _product(I, a, kw, node, name='product'):
    import itertools as it
    L = [concrete(I, x, node, 'itertools.product') for x in a]
    r = intval(kw.get('repeat', ONE))
    if r is None or set(kw) - {'repeat'}:
        raise Undecided('itertools.product', node)
    n = 1
    for x in L:
        n *= max(1, len(x)) ** r
    if n > 4096:
        raise Undecided('itertools.product', node)
    return IterV('concrete', [tuple(x) for x in it.product(*L, repeat=r)])


def _choose(name):
    def f(I, a, kw, node):
        import itertools as it
        L = concrete(I, a[0], node, 'itertools.' + name)
        k = intval(arg(a, kw, 1, 'r', E(len(L))))
        if k is None or len(L) > 12:
            raise Undecided('itertools.' + name, node)
        return IterV('concrete', [tuple(x) for x in getattr(it, name)(L, k)])
    return f


for _n in ('combinations', 'permutations', 'combinations_with_replacement'):
    PY['itertools.' + _n] = _choose(_n)


@py('itertools.repeat')
def _repeat(I, a, kw, node):
    n = arg(a, kw, 1, 'times')
    if n is None:
        raise Undecided('itertools.repeat without end', node)
    return IterV('sym', count=I.num(n), getter=lambda j: a[0])


@py('itertools.accumulate')
def _accumulate(I, a, kw, node):
    import ast
    L = concrete(I, a[0], node, 'itertools.accumulate')
    f = arg(a, kw, 1, 'func')
    if kw.get('initial') is not None:
        L = [kw['initial']] + L
    out = L[:1]
    for x in L[1:]:
        out.append(I.binop(ast.Add(), out[-1], x, node) if f is None else I.call(f, [out[-1], x], {}, node))
    return IterV('concrete', out)


@py('itertools.islice')
def _islice(I, a, kw, node):
    L = concrete(I, a[0], node, 'itertools.islice')
    ix = [None if x is None else intval(x) for x in a[1:]]
    if any(x is not None and i is None for x, i in zip(a[1:], ix)):
        raise Undecided('itertools.islice', node)
    return IterV('concrete', L[slice(*ix)])


@py('itertools.starmap')
def _starmap(I, a, kw, node):
    it = I.to_iter(a[1], node)
    call = lambda x: I.call(a[0], list(x) if isinstance(x, tuple) else seq_items(I, x, node), {}, node)
    if it.kind == 'concrete':
        return IterV('concrete', [call(x) for x in it.items])
    if it.kind == 'sym':
        return IterV('sym', count=it.count, getter=lambda j: call(it.getter(j)))
    raise Undecided('itertools.starmap', node)


@py('itertools.pairwise')
def _pairwise(I, a, kw, node):
    it = I.to_iter(a[0], node)
    if it.kind == 'concrete':
        return IterV('concrete', [tuple(x) for x in zip(it.items, it.items[1:])])
    if it.kind == 'sym' and nonneg(it.count - 1):
        return IterV('sym', count=it.count - 1, getter=lambda j: (it.getter(j), it.getter(j + 1)))
    raise Undecided('itertools.pairwise', node)


def _op(ast_name):
    def f(I, a, kw, node):
        import ast
        return I.binop(getattr(ast, ast_name)(), a[0], a[1], node)
    return f


for _n, _a in (('add', 'Add'), ('sub', 'Sub'), ('mul', 'Mult'), ('truediv', 'Div'), ('floordiv', 'FloorDiv'), ('mod', 'Mod'),
               ('pow', 'Pow'), ('matmul', 'MatMult'), ('and_', 'BitAnd'), ('or_', 'BitOr')):
    PY['operator.' + _n] = _op(_a)


def _cmp(ast_name):
    def f(I, a, kw, node):
        import ast
        return I.compare(getattr(ast, ast_name)(), a[0], a[1], node)
    return f


for _n, _a in (('lt', 'Lt'), ('le', 'LtE'), ('gt', 'Gt'), ('ge', 'GtE'), ('eq', 'Eq'), ('ne', 'NotEq'), ('is_', 'Is'),
               ('is_not', 'IsNot')):
    PY['operator.' + _n] = _cmp(_a)


@py('operator.neg')
def _neg(I, a, kw, node):
    import ast
    return I.binop(ast.Mult(), E(-1), a[0], node)


@py('operator.not_')
def _not(I, a, kw, node):
    return I.not_(I.truth(a[0], node))


@py('operator.getitem')
def _getitem(I, a, kw, node):
    return I.getitem(a[0], a[1], node)


@py('operator.setitem')
def _setitem(I, a, kw, node):
    I.setitem(a[0], a[1], a[2], node)


@py('operator.itemgetter')
def _itemgetter(I, a, kw, node):
    ks = list(a)
    g = lambda it, aa, kk, nd: it.getitem(aa[0], ks[0], nd) if len(ks) == 1 else tuple(it.getitem(aa[0], k, nd) for k in ks)
    return PyFn('itemgetter', g)


@py('operator.attrgetter')
def _attrgetter(I, a, kw, node):
    if not all(isinstance(x, str) for x in a):
        raise Undecided('attrgetter', node)

    def one(it, o, s, nd):
        for p in s.split('.'):
            o = it.getattr(o, p, nd)
        return o
    return PyFn('attrgetter', lambda it, aa, kk, nd: one(it, aa[0], a[0], nd) if len(a) == 1 else
                tuple(one(it, aa[0], s, nd) for s in a))


@py('operator.methodcaller')
def _methodcaller(I, a, kw, node):
    return PyFn('methodcaller', lambda it, aa, kk, nd: it.call(it.getattr(aa[0], a[0], nd), list(a[1:]), dict(kw), nd))


@py('collections.OrderedDict')
def _odict(I, a, kw, node):
    return C.BUILTINS['dict'](I, a, kw, node)


@py('types.SimpleNamespace')
def _namespace(I, a, kw, node):
    if a:
        raise Undecided('SimpleNamespace', node)
    return I.stub('SimpleNamespace', dict(kw))


def py_call(I, name, args, kw, node):
    """(result,) of a modelled function of a Python library, None if the library is not a pure one."""
    f = PY.get(name)
    if f is not None:
        if any(isinstance(x, UnkV) for x in list(args) + list(kw.values())):
            I.taint(args, kw)
            return (UnkV('argument of %s' % name),)
        return (f(I, args, kw, node),)
    if name.split('.')[0] in PURE:
        raise Undecided('library function %s' % name, node)
    return None
