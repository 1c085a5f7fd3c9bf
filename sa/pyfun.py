"""Python builtins and methods of builtin values."""
from fractions import Fraction
from .alg import *
from .values import *
from . import npmodel as M
from .npfun import (arg, axis_of, reduce_sum, cast, dtype_of, copy_of, absx, maxmin, argreduce, np_bool, concat)

BUILTINS = {}
METHODS = {}
RANDOM = {}


def bi(*names):
    def deco(f):
        for n in names:
            BUILTINS[n] = f
        return f
    return deco


@bi('range')
def _range(I, a, kw, node):
    vals = [I.num(x) for x in a]
    for v in vals:
        if not is_int(v):
            if v.const() is not None:
                raise AbsRaise(ExcV('TypeError', ('range of a float',)), node)
            raise Undecided('range(%s)' % v, node)
    lo, hi, st = (ZERO, vals[0], ONE) if len(vals) == 1 else (vals[0], vals[1], vals[2] if len(vals) > 2 else ONE)
    c = st.const()
    if c is None or c == 0:
        raise Undecided('range step', node)
    d = (hi - lo) if c > 0 else (lo - hi)
    s = abs(int(c))
    n = d if s == 1 else fdiv(d + (s - 1), E(s))
    if nonneg(-d):
        n = ZERO
    elif not nonneg(d):
        raise Undecided('range of unknown length %s' % d, node)
    k = intval(n)
    if k is not None and k <= 40:
        return IterV('concrete', [lo + st * j for j in range(k)])
    return IterV('sym', count=n, getter=lambda j: lo + st * j)


@bi('len')
def _len(I, a, kw, node):
    v = a[0]
    if isinstance(v, Arr):
        return M.arr_shape(I, v)[0]
    if isinstance(v, (tuple, str)):
        return E(len(v))
    if isinstance(v, IterV):
        return E(len(v.items)) if v.kind == 'concrete' else v.count
    if isinstance(v, Ref):
        o = I.obj(v)
        if o.kind in ('list', 'set'):
            return M.list_len(I, o)
        if o.kind == 'dict':
            if o.path is not None:
                return sym('int:len(%s)' % o.path)
            return E(len(o.d))
        if o.kind == 'inst' and o.cls.lookup('__len__')[0] is not None:
            return I.call(I.getattr(v, '__len__', node), [], {}, node)
    if isinstance(v, (Opq, StrV)):
        return sym('int:len(%s)' % (v.path if isinstance(v, Opq) else str(v.key)))
    if isinstance(v, UnkV):
        return v
    raise AbsRaise(ExcV('TypeError', ('len()',)), node)


@bi('enumerate')
def _enumerate(I, a, kw, node):
    st = I.num(arg(a, kw, 1, 'start', ZERO))
    it = I.to_iter(a[0], node)
    if it.kind == 'concrete':
        return IterV('concrete', [(st + j, x) for j, x in enumerate(it.items)])
    if it.kind == 'generic':
        return IterV('generic', getter=lambda: (sym('int:position'), it.getter()))
    return IterV('sym', count=it.count, getter=lambda j: (st + j, it.getter(j)))


@bi('zip')
def _zip(I, a, kw, node):
    its = [I.to_iter(x, node) for x in a]
    if all(i.kind == 'concrete' for i in its):
        return IterV('concrete', [tuple(x) for x in zip(*[i.items for i in its])])
    if any(i.kind == 'generic' for i in its):
        raise Undecided('zip of an opaque collection', node)
    cs = [E(len(i.items)) if i.kind == 'concrete' else i.count for i in its]
    n = cs[0]
    for c in cs[1:]:
        if c == n or nonneg(c - n):
            continue
        if nonneg(n - c):
            n = c
        else:
            raise Undecided('zip of different lengths %s, %s' % (n, c), node)

    def get(j):
        out = []
        for i in its:
            if i.kind == 'concrete':
                k = intval(j)
                out.append(i.items[k] if k is not None else M.list_item(I, ListObj(i.items), j, node))
            else:
                out.append(i.getter(j))
        return tuple(out)
    k = intval(n)
    if k is not None and k <= 40:
        return IterV('concrete', [get(E(j)) for j in range(k)])
    return IterV('sym', count=n, getter=get)


@bi('reversed')
def _reversed(I, a, kw, node):
    it = I.to_iter(a[0], node)
    if it.kind == 'concrete':
        return IterV('concrete', it.items[::-1])
    if it.kind == 'generic':
        return it
    return IterV('sym', count=it.count, getter=lambda j: it.getter(it.count - 1 - j))


@bi('iter')
def _iter(I, a, kw, node):
    return I.to_iter(a[0], node)


@bi('next')
def _next(I, a, kw, node):
    it = a[0]
    if isinstance(it, IterV) and it.kind == 'concrete' and it.items:
        return it.items.pop(0)
    raise Undecided('next()', node)


@bi('map')
def _map(I, a, kw, node):
    its = I.to_iter(a[1], node) if len(a) == 2 else _zip(I, a[1:], {}, node)
    call = (lambda x: I.call(a[0], [x], {}, node)) if len(a) == 2 else (lambda x: I.call(a[0], list(x), {}, node))
    if its.kind == 'concrete':
        return IterV('concrete', [call(x) for x in its.items])
    return IterV('sym', count=its.count, getter=lambda j: call(its.getter(j)))


@bi('sorted')
def _sorted(I, a, kw, node):
    h = I.ctx.get('sorted')
    if h is not None:
        r = h(I, a[0], kw, node)
        if r is not None:
            return r
    if isinstance(a[0], Ref) and I.obj(a[0]).kind == 'set' and not kw and len(I.obj(a[0]).items) == 1 and \
            isinstance(I.obj(a[0]).items[0], LoopSeg):
        return I.new_list(list(I.obj(a[0]).items))      # its elements are in increasing order
    it = I.to_iter(a[0], node)
    if kw.get('key') is None and it.kind == 'concrete':
        rev = kw.get('reverse', False) is True
        if all(isinstance(x, str) for x in it.items):
            return I.new_list(sorted(it.items, reverse=rev))
        if all(isinstance(x, Expr) and x.const() is not None for x in it.items):
            return I.new_list(sorted(it.items, key=lambda x: x.const(), reverse=rev))
    if it.kind == 'generic':
        return it
    if kw.get('key') is None and kw.get('reverse', False) is False and isinstance(a[0], Arr):
        A = I.read(a[0])
        if strictly_increasing(A):
            return a[0]
    raise Undecided('sorted', node)


@bi('list')
def _list(I, a, kw, node):
    if not a:
        return I.new_list([])
    v = a[0]
    if isinstance(v, (Opq, UnkV)):
        return v
    it = I.to_iter(v, node)
    if it.kind == 'concrete':
        return I.new_list(it.items)
    if it.kind == 'generic':
        return it
    k = fresh(ZERO, it.count, 'k')
    return I.new_list([LoopSeg(k, it.count, [I._freeze(it.getter(ivar(k)))])])


@bi('tuple')
def _tuple(I, a, kw, node):
    if not a:
        return ()
    it = I.to_iter(a[0], node)
    if it.kind == 'concrete':
        return tuple(it.items)
    return _list(I, a, kw, node)


@bi('set', 'frozenset')
def _set(I, a, kw, node):
    it = I.to_iter(a[0], node) if a else None
    if it is not None and it.kind != 'concrete':
        if it.kind == 'sym' and not isinstance(a[0], IterV) and strictly_increasing(M.as_array(I, a[0], node)):
            k = fresh(ZERO, it.count, 'k')
            return Ref(I.new(SetObj([LoopSeg(k, it.count, [I._freeze(it.getter(ivar(k)))])])))
        raise Undecided('set of an unknown number of elements', node)
    items = it.items if a else []
    out = []
    for x in items:
        if not any(I.key(x) == I.key(y) for y in out):
            out.append(x)
    return Ref(I.new(SetObj(out)))


@bi('dict')
def _dict(I, a, kw, node):
    d = {}
    if a:
        v = a[0]
        if isinstance(v, Ref) and I.obj(v).kind == 'dict':
            o = I.obj(v)
            r = Ref(I.new(o.copy()))
            I.obj(r).ext = None
            I.obj(r).d.update(kw)
            return r
        if isinstance(v, Opq):
            return v
        for x in I.to_iter(v, node).items:
            k, y = I.to_iter(x, node).items
            d[I.key(k)] = y
    d.update(kw)
    return I.new_dict(d)


@bi('sum')
def bi_sum(I, a, kw, node):
    start = arg(a, kw, 1, 'start', ZERO)
    it = I.to_iter(a[0], node)
    import ast
    if it.kind == 'concrete':
        acc = start
        for x in it.items:
            acc = I.binop(ast.Add(), acc, x, node)
        return acc
    if it.kind == 'sym':
        k = fresh(ZERO, it.count, 'k')
        I.loopvars.append((k, it.count))
        try:
            x = M.as_array(I, it.getter(ivar(k)), node)
        finally:
            I.loopvars.pop()
        r = Array.make(x.shape, lambda *i: Sum(k, it.count, x.elem(*i)))
        return M.elementwise(I, 'Add', start, r, node)
    raise Undecided('sum', node)


def _extreme(nm):
    def f(I, a, kw, node):
        if len(a) == 1:
            it = I.to_iter(a[0], node)
            if it.kind != 'concrete':
                return argreduce(I, nm, M.as_array(I, a[0], node), None, node)
            items = it.items
        else:
            items = a
        r = I.num(items[0])
        for x in items[1:]:
            r = maxmin(nm, r, I.num(x))
        return r
    return f


BUILTINS['max'] = _extreme('max')
BUILTINS['min'] = _extreme('min')


@bi('abs')
def _abs(I, a, kw, node):
    A = M.as_array(I, a[0], node)
    return M.wrap(I, A.map(absx))


@bi('round')
def _round(I, a, kw, node):
    e = I.num(a[0])
    if is_int(e):
        return e
    c = e.const()
    nd = arg(a, kw, 1, 'ndigits')
    if c is not None and (nd is None or intval(nd) is not None):
        return E(round(c) if nd is None else Fraction(round(c, intval(nd))))
    return fac(Fac('fn', 'int:round', (e,))) if nd is None else fac(Fac('fn', 'round', (e, I.num(nd))))


@bi('pow')
def _pow(I, a, kw, node):
    return M.elementwise(I, 'Pow', a[0], a[1], node) if isinstance(a[0], Arr) else M.pow_(I.num(a[0]), I.num(a[1]))


@bi('divmod')
def _divmod(I, a, kw, node):
    x, y = I.num(a[0]), I.num(a[1])
    return (M.elem_op('FloorDiv', x, y), M.elem_op('Mod', x, y))


@bi('int')
def _int(I, a, kw, node):
    v = a[0] if a else ZERO
    if isinstance(v, str):
        try:
            return E(int(v))
        except ValueError:
            raise AbsRaise(ExcV('ValueError'), node)
    if isinstance(v, (Opq, StrV, UnkV)):
        return Opq('int(%s)' % I.pstr(v)) if not isinstance(v, UnkV) else v
    e = M.to_int(I.num(v))
    f = e.single()
    if f is not None and f.kind == 'fn' and f.name == 'trunc':
        g = f.args[0].single() if isinstance(f.args[0], Expr) else None
        if g is not None and g.kind == 'fn' and g.name in ('floor', 'ceil', 'rint', 'trunc'):
            return fac(g)
    return e


@bi('float')
def _float(I, a, kw, node):
    v = a[0] if a else ZERO
    if isinstance(v, str):
        try:
            x = float(v)
        except ValueError:
            raise AbsRaise(ExcV('ValueError'), node)
        if x != x or x in (float('inf'), float('-inf')):
            return sym('float:' + v)
        return E(x)
    if isinstance(v, (Opq, StrV)):
        return Opq('float(%s)' % I.pstr(v))
    if isinstance(v, UnkV):
        return v
    if isinstance(v, Arr):
        return I.num(v)
    return I.num(v)


@bi('bool')
def _bool(I, a, kw, node):
    return I.truth(a[0], node) if a else False


@bi('repr')
def _repr(I, a, kw, node):
    return StrV(('repr', str(a[0]))) if a and isinstance(a[0], ExcV) else _str(I, a, kw, node)


@bi('str', 'format')
def _str(I, a, kw, node):
    v = a[0] if a else ''
    if isinstance(v, (str, StrV)):
        return v
    if v is None or isinstance(v, bool):
        return str(v)
    if isinstance(v, Expr) and v.const() is not None and v.const().denominator == 1:
        return str(int(v.const()))
    if isinstance(v, Opq):
        return StrV(('str', v.path))
    if isinstance(v, ExcV) and not v.args:
        return ''
    if isinstance(v, ExcV) and len(v.args) == 1 and isinstance(v.args[0], str) and v.cls != 'KeyError':
        return v.args[0]
    return StrV(('str', str(v)))


@bi('print')
def _print(I, a, kw, node):
    I.st.events.append(('print', tuple(str(x) for x in a), I.where(node)))
    return None


@bi('isinstance')
def _isinstance(I, a, kw, node):
    v, t = a
    if isinstance(t, tuple):
        r = False
        for x in t:
            r = I.or_(r, _isinstance(I, [v, x], {}, node))
        return r
    if isinstance(v, UnkV):
        return BoolV(unk('isinstance'))
    if isinstance(t, ClassV):
        if isinstance(v, Ref) and I.obj(v).kind == 'inst':
            return t in I.obj(v).cls.mro()
        return False
    if isinstance(t, ExtV):
        n = t.name.split('.')[-1]
        if isinstance(v, bool) or isinstance(v, BoolV):
            return n in ('bool', 'int', 'bool_')
        if isinstance(v, Arr):
            return n == 'ndarray'
        if isinstance(v, PyNum):
            return n in (v.pytype, 'Number', 'Real')
        if isinstance(v, Expr):
            if n in ('str', 'list', 'tuple', 'dict', 'set', 'bytes', 'NoneType'):
                return False
            if is_int(v) and v.const() is not None and n in ('int', 'Number', 'Integral'):
                return True
            return BoolV(cond('isinstance:%s' % n, (v,)))
        if isinstance(v, (str, StrV)):
            return n == 'str'
        if v is None:
            return n == 'NoneType'
        if isinstance(v, tuple):
            return n in ('tuple', 'Sequence')
        if isinstance(v, Ref):
            k = I.obj(v).kind
            if k in ('list', 'dict', 'set'):
                return n == k or n in ('Sequence', 'Mapping') and (k == 'list') == (n == 'Sequence')
            if k == 'stub':
                return BoolV(cond('isinstance:%s:%s' % (I.obj(v).name, n)))
        if isinstance(v, Opq):
            return BoolV(cond('isinstance:%s:%s' % (v.path, n)))
        return False
    return BoolV(unk('isinstance'))


@bi('issubclass')
def _issub(I, a, kw, node):
    if isinstance(a[0], ClassV) and isinstance(a[1], ClassV):
        return a[1] in a[0].mro()
    return BoolV(unk('issubclass'))


@bi('hasattr')
def _hasattr(I, a, kw, node):
    try:
        v = I.getattr(a[0], a[1], node)
    except AbsRaise:
        return False
    if isinstance(v, UnkV):
        return BoolV(unk('hasattr'))
    return True


@bi('getattr')
def _getattr(I, a, kw, node):
    if not isinstance(a[1], str):
        return UnkV('getattr of a computed name')
    try:
        return I.getattr(a[0], a[1], node)
    except AbsRaise as r:
        if len(a) > 2 and r.exc.cls == 'AttributeError':
            return a[2]
        raise


@bi('setattr')
def _setattr(I, a, kw, node):
    if not isinstance(a[1], str):
        raise Undecided('setattr of a computed name', node)
    I.setattr(a[0], a[1], a[2], node)
    return None


@bi('callable')
def _callable(I, a, kw, node):
    return isinstance(a[0], (FuncV, BoundV, PyFn, ClassV, ExtV, MethV))


@bi('type')
def _type(I, a, kw, node):
    v = a[0]
    if isinstance(v, Ref) and I.obj(v).kind == 'inst':
        return I.obj(v).cls
    if isinstance(v, Arr):
        return ExtV('numpy.ndarray')
    return UnkV('type()')


@bi('id', 'hash')
def _id(I, a, kw, node):
    I.st.events.append(('nondet', 'id/hash', I.where(node)))
    return sym('int:$id')


@bi('any')
def _any(I, a, kw, node):
    return _anyall(I, 'any', a, node)


@bi('all')
def _all(I, a, kw, node):
    return _anyall(I, 'all', a, node)


def _anyall(I, nm, a, node):
    if isinstance(a[0], Arr):
        return np_bool(I, nm, a[0], None, node)
    it = I.to_iter(a[0], node)
    if it.kind == 'concrete':
        r = nm == 'all'
        for x in it.items:
            t = I.truth(x, node)
            r = I.and_(r, t) if nm == 'all' else I.or_(r, t)
        return r
    if it.kind == 'generic':
        t = I.truth(it.getter(), node)
        return t
    k = fresh(ZERO, it.count, 'k')
    t = I.truth(it.getter(ivar(k)), node)
    if isinstance(t, bool):
        return t
    x = Array((it.count,), (k,), t.e, 'bool')
    return np_bool(I, nm, x, None, node)


@bi('slice')
def _slice(I, a, kw, node):
    if len(a) == 1:
        return SliceV(None, a[0], None)
    return SliceV(a[0], a[1], a[2] if len(a) > 2 else None)


@bi('open')
def _open(I, a, kw, node):
    I.st.events.append(('call', 'open', tuple(a), tuple(sorted(kw.items())), getattr(node, 'lineno', 0)))
    return Opq('open(%s)' % ', '.join(I.pstr(x) for x in a), 'method')


@bi('exit', 'quit')
def _exit(I, a, kw, node):
    raise AbsRaise(ExcV('SystemExit', tuple(a)), node)


@bi('object')
def _object(I, a, kw, node):
    return I.stub('object')


@bi('vars', 'globals', 'locals', 'eval', 'exec', 'compile', '__import__', 'input', 'chr', 'ord', 'filter', 'delattr',
    'dir', 'complex', 'bytes', 'bytearray', 'memoryview')
def _unsup(I, a, kw, node):
    raise Undecided('builtin not modelled', node)


@bi('property')
def _property(I, a, kw, node):
    return PropV(a[0] if a else kw.get('fget'), a[1] if len(a) > 1 else kw.get('fset'))


@bi('staticmethod')
def _static(I, a, kw, node):
    return StaticV(a[0])


@bi('classmethod')
def _classm(I, a, kw, node):
    return ClassMethodV(a[0])


# ---------------------------------------------------------------------------------------------- array methods
def _np(name):
    from . import npcall
    return npcall.NP[name]


def fwd(*names):
    for n in names:
        METHODS[n] = (lambda nm: lambda I, o, a, kw, node: _np(nm)(I, [o] + a, kw, node))(n)


fwd('dot', 'sum', 'mean', 'prod', 'cumsum', 'trace', 'diagonal', 'take', 'repeat', 'squeeze', 'swapaxes', 'clip',
    'round', 'argmax', 'argmin', 'conj', 'any', 'all')


def meth(*names):
    def deco(f):
        for n in names:
            METHODS[n] = f
        return f
    return deco


@meth('max')
def m_max(I, o, a, kw, node):
    return argreduce(I, 'max', M.as_array(I, o), arg(a, kw, 0, 'axis'), node)


@meth('min')
def m_min(I, o, a, kw, node):
    return argreduce(I, 'min', M.as_array(I, o), arg(a, kw, 0, 'axis'), node)


@meth('copy', '__copy__', '__deepcopy__')
def m_copy(I, o, a, kw, node):
    return copy_of(I, o, node)


@meth('flatten')
def m_flatten(I, o, a, kw, node):
    A = M.as_array(I, o)
    if arg(a, kw, 0, 'order', 'C') != 'C':
        return M.wrap(I, M.reshape(I, A, (A.size(),), node, arg(a, kw, 0, 'order')))
    if A.ndim == 1:
        return copy_of(I, o, node)
    return M.wrap(I, M.reshape(I, A, (A.size(),), node))


@meth('ravel')
def m_ravel(I, o, a, kw, node):
    if not isinstance(o, Arr):
        return M.wrap2(I, Array.make((ONE,), lambda i: o))
    A = I.read(o)
    if A.ndim == 1:
        return o
    return M.reshape_view(I, o, (A.size(),), node, arg(a, kw, 0, 'order', 'C'))


@meth('reshape')
def m_reshape(I, o, a, kw, node):
    sh = a[0] if len(a) == 1 else tuple(a)
    if not a:
        sh = kw.get('shape')
    if isinstance(o, Arr):
        return M.reshape_view(I, o, sh, node, kw.get('order', 'C'))
    return M.wrap(I, M.reshape(I, M.as_array(I, o), sh, node))


@meth('transpose')
def m_transpose(I, o, a, kw, node):
    if not a or a[0] is None:
        return M.transpose_view(I, o, None, node)
    p = a[0] if len(a) == 1 and not isinstance(a[0], Expr) else tuple(a)
    return M.transpose_view(I, o, [intval(x) for x in M.shape_arg(I, p, node)], node)


@meth('astype')
def m_astype(I, o, a, kw, node):
    dt = dtype_of(I, arg(a, kw, 0, 'dtype'), node)
    if kw.get('copy', True) is not True and isinstance(o, Arr):
        have = I.read(o).dtype
        if kw['copy'] is not False:
            raise Undecided('astype', node)
        if dt == have or {dt, have} <= {'float', 'num'}:
            return o
    return copy_of(I, o, node, dt)


@meth('item')
def m_item(I, o, a, kw, node):
    A = M.as_array(I, o)
    if a:
        if len(a) == 1 and A.ndim == 1:
            return M.getitem(I, o, a[0], node)
        if len(a) == A.ndim:
            return M.getitem(I, o, tuple(a), node)
        if len(a) == 1 and isinstance(a[0], Expr):
            return M.getitem(I, M.wrap(I, M.reshape(I, A, (A.size(),), node)), a[0], node)
        raise Undecided('item()', node)
    for d in A.shape:
        if d != ONE:
            raise AbsRaise(ExcV('ValueError', ('item() of an array of size %s' % A.size(),)), node)
    return A.elem(*[ZERO] * A.ndim)


@meth('tolist')
def m_tolist(I, o, a, kw, node):
    if not isinstance(o, Arr):
        return o
    A = I.read(o)
    k = intval(A.shape[0])
    if k is not None and k <= 40:
        return I.new_list([m_tolist(I, M.getitem(I, M.wrap(I, A), E(j), node), [], {}, node)
                           if A.ndim > 1 else A.elem(E(j)) for j in range(k)])
    v = fresh(ZERO, A.shape[0], 'k')
    it = A.elem(ivar(v)) if A.ndim == 1 else Array.make(A.shape[1:], lambda *i: A.elem(ivar(v), *i), A.dtype)
    return I.new_list([LoopSeg(v, A.shape[0], [it])])


@meth('fill')
def m_fill(I, o, a, kw, node):
    v = I.num(a[0])
    c = I.read(o)
    M.store_all(I, o, Array.make(c.shape, lambda *i: v, c.dtype), node)
    return None


@meth('setflags')
def m_setflags(I, o, a, kw, node):
    return None


@meth('sort', 'partition', 'resize', 'put', 'itemset')
def m_inplace(I, o, a, kw, node, what=None):
    if isinstance(o, Arr):
        c = I.read(o)
        if c.ndim == 1 and not a and not kw and strictly_increasing(c):
            I.obj(o).writes.append(I.where(node))
            return None
        M.store_all(I, o, Array.make(c.shape, lambda *i: unk('in-place method'), c.dtype), node)
    return None


@meth('view')
def m_view(I, o, a, kw, node):
    if a or kw or not isinstance(o, Arr):
        raise Undecided('array method not modelled', node)
    return M.getitem(I, o, Ellipsis, node)


@meth('std', 'var')
def m_var(I, o, a, kw, node):
    raise Undecided('array method not modelled', node)


METHODS['var'] = lambda I, o, a, kw, node: _np('var')(I, [o] + a, kw, node)
METHODS['std'] = lambda I, o, a, kw, node: _np('std')(I, [o] + a, kw, node)


@meth('nonzero', 'argsort', 'searchsorted', 'cumprod', 'ptp', 'compress', 'choose', 'byteswap',
      'tobytes', 'dump')
def m_unsup(I, o, a, kw, node):
    raise Undecided('array method not modelled', node)


# ---------------------------------------------------------------------------------------------- other methods
def call_method(I, o, name, a, kw, node):
    if isinstance(o, (Arr, Expr, bool, BoolV)):
        if name in ('is_integer',):
            return is_int(I.num(o))
        f = METHODS.get(name)
        if f is None:
            raise AbsRaise(ExcV('AttributeError', (name,)), node)
        for x in list(a) + list(kw.values()):
            if isinstance(x, UnkV):
                return x
        from .npcall import used
        return used(I, name, lambda I2, a2, k2, n2: f(I2, o, a2, k2, n2), a, kw, node)
    if isinstance(o, str):
        return str_method(I, o, name, a, kw, node)
    if isinstance(o, StrV):
        if name in ('startswith', 'endswith', 'isdigit', 'isalpha', 'isnumeric'):
            return BoolV(cond('str.%s:%s:%s' % (name, o.key, ','.join(map(str, a)))))
        if name == 'split':
            return UnkV('split of an unknown string')
        h = I.ctx.get('str_method')
        if h is not None:
            r = h(I, o, name, a, node)
            if r is not None:
                return r
        return StrV((name, o.key) + tuple(str(x) for x in a))
    if isinstance(o, tuple):
        if name == 'index':
            for k, x in enumerate(o):
                if I.compare_eq(x, a[0]) is True:
                    return E(k)
            raise Undecided('tuple.index', node)
        return E(sum(1 for x in o if I.compare_eq(x, a[0]) is True))
    if isinstance(o, Ref):
        b = I.obj(o)
        if b.kind == 'list':
            return list_method(I, o, b, name, a, kw, node)
        if b.kind == 'dict':
            return dict_method(I, o, b, name, a, kw, node)
        if b.kind == 'set':
            return set_method(I, o, b, name, a, kw, node)
    if isinstance(o, UnkV):
        return o
    raise Undecided('method %s of %r' % (name, o), node)


def str_method(I, o, name, a, kw, node):
    if name == 'format':
        args = []
        for x in a:
            if isinstance(x, str):
                args.append(x)
            elif isinstance(x, Expr) and x.const() is not None and x.const().denominator == 1:
                args.append(int(x.const()))
            else:
                return StrV(('format', o) + tuple(str(x) for x in a))
        try:
            return o.format(*args)
        except Exception:
            return StrV(('format', o) + tuple(map(str, args)))
    if name == 'join':
        try:
            it = I.to_iter(a[0], node)
        except Undecided:
            return StrV(('join', o))
        if it.kind == 'concrete' and all(isinstance(x, str) for x in it.items):
            return o.join(it.items)
        return StrV(('join', o))
    args = []
    for x in a:
        if isinstance(x, (str, tuple)):
            args.append(x)
        elif intval(x) is not None:
            args.append(intval(x))
        elif x is None:
            args.append(None)
        else:
            return StrV((name, o) + tuple(str(x) for x in a))
    f = getattr(str, name, None)
    if f is None:
        raise AbsRaise(ExcV('AttributeError', (name,)), node)
    r = f(o, *args)
    if isinstance(r, list):
        return I.new_list(r)
    if isinstance(r, bool) or isinstance(r, str):
        return r
    if isinstance(r, int):
        return E(r)
    if isinstance(r, tuple):
        return r
    return StrV((name, o))


def list_method(I, ref, b, name, a, kw, node):
    w = I.where(node)
    if name == 'append':
        b.items.append(a[0])
        b.writes.append((None, w))
        return None
    if name == 'extend':
        M.list_extend(I, b, a[0], node)
        return None
    if name == 'insert':
        k = intval(a[0])
        if k is None or (k != 0 and any(isinstance(x, LoopSeg) for x in b.items)):
            raise Undecided('insert', node)
        b.items.insert(k, a[1])
        b.writes.append((None, w))
        return None
    if name == 'pop':
        k = intval(a[0]) if a else -1
        if k is None or any(isinstance(x, LoopSeg) for x in b.items):
            raise Undecided('pop', node)
        if not b.items:
            raise AbsRaise(ExcV('IndexError'), node)
        b.writes.append((None, w))
        return b.items.pop(k)
    if name == 'copy':
        return I.new_list(b.items)
    if name == 'clear':
        b.items = []
        b.writes.append((None, w))
        return None
    if name == 'reverse':
        if any(isinstance(x, LoopSeg) for x in b.items):
            out = []
            for x in reversed(b.items):
                if isinstance(x, LoopSeg):
                    if len(x.items) != 1:
                        raise Undecided('reverse', node)
                    v = fresh(ZERO, x.count, 'k')
                    out.append(LoopSeg(v, x.count, [M.subst_val(I, x.items[0], {x.var: x.count - 1 - ivar(v)})]))
                else:
                    out.append(x)
            b.items = out
        else:
            b.items.reverse()
        b.writes.append((None, w))
        return None
    if name == 'index':
        for k, x in enumerate(b.items):
            if I.compare_eq(x, a[0]) is True:
                return E(k)
        raise Undecided('list.index', node)
    if name == 'count':
        return E(sum(1 for x in b.items if I.compare_eq(x, a[0]) is True))
    if name == 'sort':
        if all(isinstance(x, str) for x in b.items):
            b.items.sort(reverse=kw.get('reverse', False) is True)
            return None
        raise Undecided('sort', node)
    raise Undecided('list method %s' % name, node)


def dict_method(I, ref, b, name, a, kw, node):
    w = I.where(node)
    if name in ('get', 'pop', 'setdefault') and a and I.key_log is not None:
        I.key_log.append((ref, I.key(a[0])))
    if name == 'get':
        k = I.key(a[0])
        if k in b.d:
            return b.d[k]
        d = a[1] if len(a) > 1 else kw.get('default')
        if b.path is not None:
            b.reads.append(('maybe', k))
            hook = I.ctx.get('missing_keys')
            if hook is not None and (b.path, k) in hook:
                return d
            return Opq('%s[%s]' % (b.path, k.key if isinstance(k, StrV) else k))
        return d
    if name in ('keys', 'values', 'items'):
        if b.path is not None:
            key = StrV('%s.key' % b.path)
            val = Opq('%s[%s.key]' % (b.path, b.path))
            return IterV('generic', getter=lambda: {'keys': key, 'values': val, 'items': (key, val)}[name])
        if name == 'keys':
            return KeysV('concrete', [I.unkey(k) for k in b.d])
        if name == 'values':
            return IterV('concrete', list(b.d.values()))
        return IterV('concrete', [(I.unkey(k), v) for k, v in b.d.items()])
    if name == 'update':
        if a:
            v = a[0]
            if isinstance(v, Ref) and I.obj(v).kind == 'dict':
                o = I.obj(v)
                b.d.update(o.d)
                b.generic += o.generic
                if o.path is not None:
                    b.generic.append((StrV('%s.key' % o.path), Opq('%s[%s.key]' % (o.path, o.path))))
            elif isinstance(v, Opq):
                b.generic.append((StrV('%s.key' % v.path), Opq('%s[%s.key]' % (v.path, v.path))))
            else:
                it = I.to_iter(v, node)
                if it.kind != 'concrete':
                    raise Undecided('dict.update', node)
                for x in it.items:
                    k, y = I.to_iter(x, node).items
                    b.d[I.key(k)] = y
        b.d.update(kw)
        b.writes.append(('*', w))
        return None
    if name == 'setdefault':
        k = I.key(a[0])
        if k in b.d:
            return b.d[k]
        if b.path is not None:
            raise Undecided('setdefault', node)
        b.d[k] = a[1] if len(a) > 1 else None
        b.writes.append((k, w))
        return b.d[k]
    if name == 'pop':
        k = I.key(a[0])
        b.writes.append((k, w))
        if k in b.d:
            return b.d.pop(k)
        if b.path is not None:
            return Opq('%s[%s]' % (b.path, k))
        if len(a) > 1:
            return a[1]
        raise AbsRaise(ExcV('KeyError', (k,)), node)
    if name == 'copy':
        r = Ref(I.new(b.copy()))
        I.obj(r).ext = None
        return r
    if name == 'clear':
        b.d = {}
        b.generic = []
        b.path = None
        b.writes.append(('*', w))
        return None
    raise Undecided('dict method %s' % name, node)


def set_method(I, ref, b, name, a, kw, node):
    import ast
    if name == 'add':
        if not any(I.key(x) == I.key(a[0]) for x in b.items):
            b.items.append(a[0])
        return None
    if name in ('discard', 'remove'):
        b.items = [x for x in b.items if I.key(x) != I.key(a[0])]
        return None
    if name == 'copy':
        return Ref(I.new(SetObj(b.items)))
    other = a[0]
    if isinstance(other, Ref) and I.obj(other).kind == 'dict' and I.obj(other).path is not None:
        d = I.obj(other)
        if name in ('issubset', 'difference'):
            res = []
            for x in b.items:
                c = I.contains(other, x, node)
                if c is False:
                    res.append(x)
                elif c is not True:
                    raise Undecided('set method', node)
            return (not res) if name == 'issubset' else Ref(I.new(SetObj(res)))
        raise Undecided('set method %s' % name, node)
    if isinstance(other, IterV) and other.kind == 'generic':
        raise Undecided('set method on opaque keys', node)
    items = I.to_iter(other, node).items
    ka = {I.key(x): x for x in b.items}
    kb = {I.key(x): x for x in items}
    if name == 'issubset':
        return set(ka) <= set(kb)
    if name == 'issuperset':
        return set(ka) >= set(kb)
    if name == 'isdisjoint':
        return not (set(ka) & set(kb))
    if name == 'update':
        b.items = list({**ka, **kb}.values())
        return None
    if name == 'union':
        return Ref(I.new(SetObj(list({**ka, **kb}.values()))))
    if name == 'intersection':
        return Ref(I.new(SetObj([x for k, x in ka.items() if k in kb])))
    if name == 'difference':
        return Ref(I.new(SetObj([x for k, x in ka.items() if k not in kb])))
    raise Undecided('set method %s' % name, node)


# ---------------------------------------------------------------------------------------------- random
def _default_rng(I, a, kw, node):
    from .npcall import make_rng
    seed = arg(a, kw, 0, 'seed')
    I.st.events.append(('rng', 'default_rng', seed, I.where(node)))
    return make_rng(I, seed)


def _seedseq(I, a, kw, node):
    e = arg(a, kw, 0, 'entropy')
    return I.stub('SeedSequence', {'entropy': e})


def _bitgen(I, a, kw, node):
    s = arg(a, kw, 0, 'seed')
    return I.stub('BitGenerator', {'entropy': s})


def _generator(I, a, kw, node):
    from .npcall import make_rng
    I.st.events.append(('rng', 'Generator', a[0], I.where(node)))
    return make_rng(I, a[0])


for _m in ('numpy.random.',):
    RANDOM[_m + 'default_rng'] = _default_rng
    RANDOM[_m + 'SeedSequence'] = _seedseq
    RANDOM[_m + 'Generator'] = _generator
    RANDOM[_m + 'RandomState'] = _generator
    for _b in ('PCG64', 'MT19937', 'Philox', 'SFC64', 'PCG64DXSM'):
        RANDOM[_m + _b] = _bitgen
