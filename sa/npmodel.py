"""Transfer functions of arrays: indexing, broadcasting, products, reshaping.  Library tables are in npfun/pyfun."""
import ast
from fractions import Fraction
from .alg import *
from .alg import divide_terms, _lin
from .values import *


# ------------------------------------------------------------------------------------------------ helpers
def as_array(I, v, node=None):
    if isinstance(v, Array):
        return v
    if isinstance(v, (Ref, tuple)):
        v = to_array(I, v, node)
    if isinstance(v, UnkV):
        return Array((), (), unk(v.reason))
    return I.read(v)


def wrap(I, a):
    return I.new_arr(a)


def wrap2(I, a):
    """Allocate also for 0-d contents only when there is an axis."""
    return I.new_arr(a)


def differs(a, b):
    d = a - b
    return bool(nonneg(d - 1) or nonneg(-d - 1))


def same_dim(I, a, b, node, what='shape'):
    if a == b:
        return
    if has_unknown(a) or has_unknown(b):
        raise Undecided('unknown dimension', node)
    if any(f.kind == 'fn' or f.kind == 'cd' or f.name.startswith('int:') for f in atoms(a - b)):
        raise Undecided('dimensions %s and %s' % (a, b), node)
    raise AbsRaise(ExcV('ValueError', ('%s mismatch: %s and %s' % (what, a, b),)), node)


def bshape(I, shapes, node):
    n = max(len(s) for s in shapes)
    out = []
    for i in range(n):
        d = ONE
        for s in shapes:
            j = i - (n - len(s))
            if j < 0 or s[j] == ONE:
                continue
            if d == ONE:
                d = s[j]
            else:
                same_dim(I, d, s[j], node, 'broadcast')
        out.append(d)
    return tuple(out)


def bget(a, idx):
    """Element of a at broadcast index idx."""
    k = len(idx) - a.ndim
    return a.elem(*[ZERO if a.shape[i] == ONE else idx[k + i] for i in range(a.ndim)])


def broadcast(I, a, shape, node):
    sh = bshape(I, [a.shape, shape], node)
    if len(sh) != len(shape):
        raise AbsRaise(ExcV('ValueError', ('broadcast',)), node)
    for x, y in zip(sh, shape):
        if x != y:
            same_dim(I, x, y, node, 'broadcast')
    if a.shape == tuple(shape):
        return a
    return Array.make(shape, lambda *i: bget(a, i), a.dtype)


def to_int(e):
    if is_int(e):
        return e
    c = e.const()
    if c is not None:
        return E(int(c))
    f = rational_floor(e)
    if f is not None:
        if rational_nonneg(e):
            return f
        if rational_nonneg(-e):
            return -rational_floor(-e)
    return fac(Fac('fn', 'trunc', (e,)))


def dim_arg(I, v, node):
    """A dimension given as a value."""
    e = I.num(v)
    c = e.const()
    if c is not None and c.denominator != 1:
        raise AbsRaise(ExcV('TypeError', ('dimension',)), node)
    return e


def shape_arg(I, v, node):
    if isinstance(v, tuple):
        return tuple(dim_arg(I, x, node) for x in v)
    if isinstance(v, Ref) and I.obj(v).kind == 'list':
        return tuple(dim_arg(I, x, node) for x in I.obj(v).items)
    if isinstance(v, Arr):
        c = I.read(v)
        k = intval(c.shape[0])
        if c.ndim == 1 and k is not None:
            return tuple(c.elem(E(j)) for j in range(k))
    return (dim_arg(I, v, node),)


# ------------------------------------------------------------------------------------------------ element ops
def pow_(a, b):
    c = b.const()
    if c is not None and c.denominator <= 12:
        return power(a, c)
    if a.const() == 0:
        return unk('0**x')
    return fac(Fac('fn', 'pow', (a, b)))


def divide(a, b):
    if b.is_zero():
        return unk('division by zero')
    return a / b


def _cmp(op, a, b):
    d = a - b
    if is_int(d):
        if op == 'Lt':
            return ge(-d - 1)
        if op == 'LtE':
            return ge(-d)
        if op == 'Gt':
            return ge(d - 1)
        if op == 'GtE':
            return ge(d)
        if op == 'Eq':
            return delta(a, b)
        return ONE - delta(a, b)
    if op == 'Gt':
        return pos(d)
    if op == 'Lt':
        return pos(-d)
    if op == 'GtE':
        return ONE - pos(-d)
    if op == 'LtE':
        return ONE - pos(d)
    if op == 'Eq':
        return eq0(d)
    return ONE - eq0(d)


def elem_op(op, a, b):
    if op == 'Add':
        return a + b
    if op == 'Sub':
        return a - b
    if op == 'Mult':
        return a * b
    if op == 'Div':
        return divide(a, b)
    if op == 'Pow':
        return pow_(a, b)
    if op == 'FloorDiv':
        if is_int(a) and is_int(b):
            if nonneg(b - 1):
                return fdiv(a, b)
        elif a.const() is not None and b.const():
            return E(a.const() // b.const())
        q = divide(a, b)
        f = rational_floor(q)
        return f if f is not None else fac(Fac('fn', 'floor', (q,)))
    if op == 'Mod':
        if is_int(a) and is_int(b) and nonneg(b - 1):
            return mod(a, b)
        if a.const() is not None and b.const():
            return E(a.const() % b.const())
        return fac(Fac('fn', 'fmod', (a, b)))
    if op in ('Lt', 'LtE', 'Gt', 'GtE', 'Eq', 'NotEq'):
        return _cmp(op, a, b)
    if op == 'BitAnd':
        return a * b
    if op == 'BitOr':
        return a + b - a * b
    if op == 'BitXor':
        return a + b - (a * b).scale(2)
    raise Undecided('operator %s' % op)


def scalar_op(I, op, a, b, node):
    if op == 'Div' and b.is_zero() or op in ('FloorDiv', 'Mod') and b.is_zero():
        raise AbsRaise(ExcV('ZeroDivisionError'), node)
    if op in ('LShift', 'RShift') and a.const() is not None and b.const() is not None:
        return E(int(a.const()) << int(b.const()) if op == 'LShift' else int(a.const()) >> int(b.const()))
    r = elem_op(op, a, b)
    if isinstance(a, PyNum) and isinstance(b, PyNum):
        return r
    return r


def scalar_cmp(I, op, a, b):
    return I.mkbool(_cmp(op, a, b))


def rdtype(op, a, b):
    if op in ('Lt', 'LtE', 'Gt', 'GtE', 'Eq', 'NotEq'):
        return 'bool'
    if op in ('BitAnd', 'BitOr', 'BitXor') and a.dtype == b.dtype == 'bool':
        return 'bool'
    if op == 'Div':
        return 'float'
    ds = {a.dtype, b.dtype}
    if 'float' in ds:
        return 'float'
    if 'num' in ds:
        return 'num'
    if ds <= {'int', 'bool'}:
        # a scalar expression that happens to be integer valued may be a float
        if a.ndim == 0 or b.ndim == 0:
            x = a if a.ndim == 0 else b
            return 'int' if op in ('Add', 'Sub', 'Mult', 'Mod', 'FloorDiv') and is_int(x.body) else 'num'
        return 'int'
    return 'float'


def elementwise(I, op, a, b, node):
    A, B = as_array(I, a, node), as_array(I, b, node)
    sh = bshape(I, [A.shape, B.shape], node)
    return wrap(I, Array.make(sh, lambda *i: elem_op(op, bget(A, i), bget(B, i)), rdtype(op, A, B)))


# ------------------------------------------------------------------------------------------------ products
def matmul(I, a, b, node, op='matmul'):
    if isinstance(a, UnkV):
        return a
    if isinstance(b, UnkV):
        return b
    A, B = as_array(I, a, node), as_array(I, b, node)
    if A.ndim == 0 or B.ndim == 0:
        if op == 'matmul':
            raise AbsRaise(ExcV('ValueError', ('matmul of a scalar',)), node)
        return elementwise(I, 'Mult', A, B, node)
    n = A.shape[-1]
    m = B.shape[0] if B.ndim == 1 else B.shape[-2]
    same_dim(I, n, m, node, 'matrix product')
    v = fresh(ZERO, n, 'd')
    k = ivar(v)
    if A.ndim == 1 and B.ndim == 1:
        return Sum(v, n, A.elem(k) * B.elem(k))
    if op == 'matmul' and (A.ndim > 2 or B.ndim > 2):
        ba, bb = A.shape[:-2] if A.ndim > 1 else (), B.shape[:-2] if B.ndim > 1 else ()
        bs = bshape(I, [ba, bb], node) if ba or bb else ()
        nb = len(bs)

        def sub(X, lead, mats):
            nbx = X.ndim - len(mats)
            li = [ZERO if X.shape[j] == ONE else lead[nb - nbx + j] for j in range(nbx)]
            return X.elem(*(li + mats))
        out = list(bs)
        if A.ndim > 1:
            out.append(A.shape[-2])
        if B.ndim > 1:
            out.append(B.shape[-1])

        def f(*i):
            lead, rest = list(i[:nb]), list(i[nb:])
            am = [rest.pop(0), k] if A.ndim > 1 else [k]
            bm = [k, rest.pop(0)] if B.ndim > 1 else [k]
            return Sum(v, n, sub(A, lead, am) * sub(B, lead, bm))
        return wrap(I, Array.make(out, f))
    na, nb_ = A.ndim - 1, B.ndim - 1
    sh = A.shape[:-1] + (B.shape[:-2] + B.shape[-1:] if B.ndim > 1 else ())

    def g(*i):
        ai = list(i[:na]) + [k]
        bi = list(i[na:])
        bi = [k] if B.ndim == 1 else bi[:-1] + [k] + bi[-1:]
        return Sum(v, n, A.elem(*ai) * B.elem(*bi))
    return wrap(I, Array.make(sh, g))


def dot(I, a, b, node):
    return matmul(I, a, b, node, 'dot')


def einsum(I, spec, ops, node):
    spec = spec.replace(' ', '')
    if '...' in spec:
        raise Undecided('einsum ellipsis', node)
    if '->' in spec:
        ins, out = spec.split('->')
    else:
        ins = spec
        out = ''.join(sorted(c for c in set(ins.replace(',', '')) if ins.count(c) == 1))
    ins = ins.split(',')
    As = [as_array(I, o, node) for o in ops]
    if len(ins) != len(As):
        raise AbsRaise(ExcV('ValueError', ('einsum operands',)), node)
    dim = {}
    for s, A in zip(ins, As):
        if len(s) != A.ndim:
            raise AbsRaise(ExcV('ValueError', ('einsum subscripts',)), node)
        for c, d in zip(s, A.shape):
            if c in dim and dim[c] != d:
                if dim[c] == ONE or d == ONE:
                    raise Undecided('einsum broadcasting', node)
                same_dim(I, dim[c], d, node, 'einsum')
            dim.setdefault(c, d)

    def f(*i):
        m = dict(zip(out, i))
        sums = []
        for c in dim:
            if c not in m:
                v = fresh(ZERO, dim[c], 'e')
                sums.append((v, dim[c]))
                m[c] = ivar(v)
        e = ONE
        for s, A in zip(ins, As):
            e = e * A.elem(*[m[c] for c in s])
        for v, hi in sums:
            e = Sum(v, hi, e)
        return e
    return wrap(I, Array.make([dim[c] for c in out], f))


# ------------------------------------------------------------------------------------------------ indexing
def norm_index(I, i, n, node):
    """Non-negative form of index i on an axis of length n."""
    if not is_int(i):
        c = i.const()
        if c is not None or not any(f.kind in ('fn', 'unk') for f in atoms(i)):
            if c is not None and c.denominator == 1:
                pass
            else:
                raise AbsRaise(ExcV('IndexError', ('non-integer index %s' % i,)), node)
        raise Undecided('index %s' % i, node)
    if nonneg(i):
        r = i
    elif nonneg(-i - 1):
        r = n + i
        if nonneg(-r - 1):
            raise AbsRaise(ExcV('IndexError', ('index %s of an axis of length %s' % (i, n),)), node)
    else:
        if not nonneg(i + n):
            w = _edge(I, i, lambda x: nonneg(-(x + n) - 1))
            if w and I.st.pc == ONE:
                raise AbsRaise(ExcV('IndexError', ('index %s of an axis of length %s' % (i, n),)), node)
            if I.st.pc == ONE:
                raise Undecided('index %s of an axis of length %s' % (i, n), node)
        # Python semantics: negative indices count from the end
        return mod(i, n)
    if nonneg(n - 1 - r):
        return r
    if nonneg(r - n):
        raise AbsRaise(ExcV('IndexError', ('index %s of an axis of length %s' % (i, n),)), node)
    if I.st.pc == ONE:
        if _edge(I, r, lambda x: nonneg(x - n)):
            raise AbsRaise(ExcV('IndexError', ('index %s of an axis of length %s' % (i, n),)), node)
        I.notes.append('index %s of an axis of length %s not shown to be in range at %s' % (i, n, I.where(node)))
    return r


def _edge(I, i, test):
    """Whether some iteration of the active loops makes test(i) true for certain."""
    cands = [i]
    for v, n in I.loopvars:
        cands += [subs(c, {v: ZERO}) for c in cands if v in c.fv] + [subs(c, {v: n - 1}) for c in cands if v in c.fv]
    return any(test(c) for c in cands)


def slice_bounds(I, s, n, node):
    """(start, step, length) of a slice on an axis of length n."""
    step = E(1) if s.step is None else I.num(s.step)
    st = step.const()
    if st is None or st.denominator != 1 or st == 0:
        raise Undecided('slice step', node)
    st = int(st)

    def clip(v, lo, hi):
        if nonneg(v - hi):
            return hi
        if nonneg(lo - v):
            return lo
        if nonneg(hi - v) and nonneg(v - lo):
            return v
        raise Undecided('slice bound %s on an axis of length %s' % (v, n), node)

    def val(x):
        e = I.num(x)
        if not is_int(e):
            if e.const() is not None:
                raise AbsRaise(ExcV('TypeError', ('slice indices must be integers',)), node)
            raise Undecided('slice bound', node)
        if nonneg(-e - 1):
            e = n + e
        elif not nonneg(e):
            if nonneg(e + 1):
                pass
            raise Undecided('slice bound %s' % e, node)
        return e
    if st > 0:
        lo = ZERO if s.lo is None else clip(val(s.lo), ZERO, n)
        hi = n if s.hi is None else clip(val(s.hi), ZERO, n)
        d = hi - lo
        if nonneg(-d):
            ln = ZERO
        elif nonneg(d):
            ln = d if st == 1 else fdiv(d + (st - 1), E(st))
        else:
            raise Undecided('slice [%s:%s]' % (lo, hi), node)
        return lo, st, ln
    lo = n - 1 if s.lo is None else clip(val(s.lo), E(-1), n - 1)
    if s.hi is None:
        hi = E(-1)
    else:
        hi = clip(val(s.hi), E(-1), n - 1)
    d = lo - hi
    if nonneg(-d):
        ln = ZERO
    elif nonneg(d):
        ln = d if st == -1 else fdiv(d + (-st - 1), E(-st))
    else:
        raise Undecided('slice [%s:%s:%s]' % (lo, hi, st), node)
    return lo, st, ln


def index_map(I, shape, index, node):
    """(shape, vars, base index expressions, fancy?) of an index expression; None for a boolean mask."""
    if not isinstance(index, tuple):
        index = (index,)
    index = list(index)
    # lists become arrays; boolean masks are reported separately
    for p, x in enumerate(index):
        if isinstance(x, Ref) and I.obj(x).kind in ('list',) or isinstance(x, tuple):
            index[p] = to_array(I, x, node)
        elif isinstance(x, (UnkV, Opq)):
            raise Undecided('unknown index', node)
        elif isinstance(x, BoolV) or isinstance(x, bool):
            raise Undecided('boolean index', node)
    # constant masks select fixed positions
    p = ax = 0
    while p < len(index) and index[p] is not Ellipsis:
        x = index[p]
        if isinstance(x, (Arr, Array)) and ax < len(shape):
            A = as_array(I, x, node)
            k = intval(A.shape[0]) if A.ndim == 1 and A.dtype == 'bool' else None
            if k is not None:
                if differs(shape[ax], A.shape[0]):
                    raise AbsRaise(ExcV('IndexError', ('boolean index did not match',)), node)
                c = [A.elem(E(j)).const() for j in range(k)]
                if None not in c and (shape[ax] - k).is_zero():
                    hit = [E(j) for j in range(k) if c[j]]

                    def pick(j, hit=hit):
                        st = hit[1] - hit[0] if len(hit) > 1 else ZERO
                        if hit and all(y == hit[0] + st * q for q, y in enumerate(hit)):
                            return hit[0] + st * j
                        r = ZERO
                        for q, y in enumerate(hit):
                            r = r + delta(j, E(q)) * y
                        return r
                    index[p] = Array.make((E(len(hit)),), pick, 'int')
        ax += x is not None
        p += 1
    nidx = sum(1 for x in index if x is not None and x is not Ellipsis)
    nidx += sum(as_array(I, x).ndim - 1 for x in index if isinstance(x, (Arr, Array))
                and as_array(I, x).dtype == 'bool')
    if nidx > len(shape):
        raise AbsRaise(ExcV('IndexError', ('too many indices',)), node)
    ell = [p for p, x in enumerate(index) if x is Ellipsis]
    fill = [SliceV(None, None, None)] * (len(shape) - nidx)
    if ell:
        index[ell[0]:ell[0] + 1] = fill
    else:
        index = index + fill
    out, vs, base = [], [], []
    fancy = []
    ax = 0
    for x in index:
        if x is None:
            out.append(('new', ONE))
            continue
        n = shape[ax]
        if isinstance(x, SliceV):
            lo, st, ln = slice_bounds(I, x, n, node)
            v = fresh(ZERO, ln)
            out.append(('sl', ln, v))
            base.append(lo + ivar(v).scale(st))
        elif isinstance(x, (Arr, Array)):
            A = as_array(I, x, node)
            if A.dtype == 'bool':
                return None
            out.append(('fx', len(fancy)))
            fancy.append((ax, A))
            base.append(None)
        else:
            i = norm_index(I, I.num(x), n, node)
            out.append(('int', i))
            base.append(i)
        ax += 1
    isf = bool(fancy)
    if isf:
        # integers take part in advanced indexing
        fsh = bshape(I, [A.shape for _, A in fancy], node)
        fvs = [fresh(ZERO, d) for d in fsh]
        for axis, A in fancy:
            base[axis] = norm_index(I, bget(A, [ivar(v) for v in fvs]), shape[axis], node)
        kinds = [o[0] for o in out]
        adv = [p for p, k in enumerate(kinds) if k in ('fx', 'int')]
        contiguous = adv == list(range(adv[0], adv[-1] + 1)) or not any(
            kinds[p] in ('sl', 'new') for p in range(adv[0], adv[-1] + 1))
        rs, rv = [], []
        placed = False
        if not contiguous:
            rs += list(fsh)
            rv += fvs
            placed = True
        for p, o in enumerate(out):
            if o[0] in ('fx', 'int'):
                if not placed:
                    rs += list(fsh)
                    rv += fvs
                    placed = True
            elif o[0] == 'sl':
                rs.append(o[1])
                rv.append(o[2])
            else:
                rs.append(ONE)
                rv.append(fresh(ZERO, ONE))
        return tuple(rs), tuple(rv), tuple(base), True
    rs, rv = [], []
    for o in out:
        if o[0] == 'sl':
            rs.append(o[1])
            rv.append(o[2])
        elif o[0] == 'new':
            rs.append(ONE)
            rv.append(fresh(ZERO, ONE))
    return tuple(rs), tuple(rv), tuple(base), False


def arr_shape(I, a):
    return a.view.shape if a.view is not None else I.obj(a).content.shape


def getitem(I, a, index, node):
    if isinstance(a, Array):
        a = I.new_arr(a)
    m = index_map(I, arr_shape(I, a), index, node)
    if m is None:
        return _mask_get(I, a, index, node)
    shape, vs, base, fancy = m
    if not fancy:
        if a.view is not None:
            mm = dict(zip(a.view.vars, base))
            base = tuple(subs(i, mm) for i in a.view.idx)
        if not shape:
            return I.obj(a).content.elem(*base)
        return Arr(a.oid, View(shape, vs, base))
    c = I.read(a)
    r = Array(shape, vs, c.elem(*base), c.dtype)
    return wrap(I, r)


def _mask_get(I, a, index, node):
    ix = index[0] if isinstance(index, tuple) and len(index) == 1 else index
    if isinstance(ix, tuple):
        raise Undecided('boolean mask', node)
    c = I.read(a)
    m = as_array(I, ix, node)
    if m.ndim > c.ndim or any(not (p - q).is_zero() for p, q in zip(m.shape, c.shape)):
        raise Undecided('boolean mask', node)
    return Picked(c, m)


def _repeated(shape, vs, base):
    """[(value index, position)] of a store through constant indices in which a position occurs twice, else None."""
    ks = [()]
    for d in shape:
        n = intval(d)
        if n is None or n * len(ks) > 256:
            return None
        ks = [k + (E(j),) for k in ks for j in range(n)]
    out = []
    for k in ks:
        m = dict(zip(vs, k))
        at = [subs(e, m).const() for e in base]
        if None in at:
            return None
        out.append((k, tuple(int(x) for x in at)))
    return out if len({at for _, at in out}) < len(out) else None


def setitem(I, a, index, val, node):
    m = index_map(I, arr_shape(I, a), index, node)
    if isinstance(val, UnkV):
        V = Array((), (), unk(val.reason))
    elif val is None:
        raise AbsRaise(ExcV('TypeError', ('None stored into an array',)), node)
    elif isinstance(val, Opq):
        V = Array((), (), sym(val.path))
    elif isinstance(val, Picked):
        ix = index[0] if isinstance(index, tuple) and len(index) == 1 else index
        if m is not None or isinstance(ix, tuple) or not as_array(I, ix, node).same(val.mask) or \
                len(val.full.shape) != len(arr_shape(I, a)):
            raise Undecided('boolean mask', node)
        old, w, k = I.read(a), val.mask, val.mask.ndim
        new = val.full
        if old.dtype == 'int' and new.dtype != 'int':
            raise Undecided('boolean mask', node)
        _replace(I, a, Array.make(old.shape, lambda *i: w.elem(*i[:k]) * new.elem(*i) +
                                  (ONE - w.elem(*i[:k])) * old.elem(*i), old.dtype), node)
        return
    else:
        V = as_array(I, val, node)
    if m is None:
        ix = index[0] if isinstance(index, tuple) and len(index) == 1 else index
        if isinstance(ix, tuple):
            raise Undecided('boolean mask', node)
        M = as_array(I, ix, node)
        if V.ndim == 0:
            old = I.read(a)
            k = M.ndim

            def f(*i):
                w = M.elem(*i[:k])
                return w * V.body + (ONE - w) * old.elem(*i)
            _replace(I, a, Array.make(old.shape, f, old.dtype), node)
            return
        raise Undecided('boolean mask', node)
    shape, vs, base, fancy = m
    # extra leading length-one axes of the value are dropped
    while V.ndim > len(shape) and V.shape[0] == ONE:
        V0 = V
        V = Array.make(V0.shape[1:], lambda *i: V0.elem(ZERO, *i), V0.dtype)
    V = broadcast(I, V, shape, node)
    o = I.obj(a)
    old = o.content
    if a.view is not None:
        mm = dict(zip(a.view.vars, base))
        base = tuple(subs(i, mm) for i in a.view.idx)
    vb = V.elem(*[ivar(v) for v in vs])
    if old.dtype == 'int' and not is_int(vb):
        vb = to_int(vb)
    if old.dtype == 'bool' and V.dtype != 'bool' and vb.const() not in (0, 1):
        vb = unk('stored into a boolean array')

    dup = _repeated(shape, vs, base) if fancy else None
    if dup is not None:              # repeated positions: the last store counts
        cells = {}
        for k, at in dup:
            cells[at] = subs(vb, dict(zip(vs, k)))

        def h(*i):
            r, w = ZERO, ONE
            for at, e in cells.items():
                d = ONE
                for x, y in zip(i, at):
                    d = d * delta(x, E(y))
                r, w = r + d * e, w - d
            return r + w * old.elem(*i)
        o.content = Array.make(old.shape, h, old.dtype)
        o.writes.append(I.where(node))
        return

    def g(*i):
        w = ONE
        for x, y in zip(i, base):
            w = w * delta(x, y)
        wv = w * vb
        for v, d in zip(vs, shape):
            w = Sum(v, d, w)
            wv = Sum(v, d, wv)
        return wv + (ONE - w) * old.elem(*i)
    o.content = Array.make(old.shape, g, old.dtype)
    o.writes.append(I.where(node))


def _replace(I, a, content, node):
    """Overwrite the whole contents seen through handle a."""
    o = I.obj(a)
    if a.view is None:
        o.content = content
        o.writes.append(I.where(node))
        return
    setitem(I, a, Ellipsis, I.new_arr(content), node)


def store_all(I, a, content, node):
    sh = arr_shape(I, a)
    content = broadcast(I, content, sh, node)
    o = I.obj(a)
    if o.content.dtype == 'int' and not is_int(content.body):
        if content.dtype == 'float' or not all(f.kind in ('fn',) for f in atoms(content.body)):
            raise AbsRaise(ExcV('TypeError', ('cannot cast float to int in place',)), node)
    if a.view is None:
        o.content = Array(content.shape, content.vars, content.body, o.content.dtype)
        o.writes.append(I.where(node))
    else:
        setitem(I, a, Ellipsis, I.new_arr(content), node)


# ------------------------------------------------------------------------------------------------ reshape
def flat_index(shape, idx):
    f = ZERO
    for d, i in zip(shape, idx):
        f = f * d + i
    return f


def unflatten(shape, p):
    """Indices of flat position p."""
    out = []
    rest = p
    for k in range(len(shape)):
        stride = ONE
        for d in shape[k + 1:]:
            stride = stride * d
        if k == 0:
            q = fdiv(rest, stride)
        else:
            q = fdiv(rest, stride)
        out.append(q)
        rest = mod(rest, stride) if stride != ONE else ZERO
    return out


def resolve_shape(I, size, shape, node):
    shape = list(shape)
    neg = [i for i, d in enumerate(shape) if d.const() == -1]
    if neg:
        rest = ONE
        for i, d in enumerate(shape):
            if i != neg[0]:
                rest = rest * d
        if rest == ONE:
            shape[neg[0]] = size
        else:
            q, r = divide_terms(size, rest)
            if not r.is_zero():
                q = exact_div(size, rest)
                if q is None:
                    raise Undecided('reshape of %s into %s' % (size, shape), node)
            shape[neg[0]] = q
    n = ONE
    for d in shape:
        n = n * d
    if n != size:
        same_dim(I, n, size, node, 'reshape')
    return tuple(shape)


def exact_div(a, b):
    """a / b for polynomials when exact."""
    r = a / b
    if all(x > 0 and f.kind != 'pw' for (s, fs) in r.terms for f, x in fs):
        return r
    # polynomial long division in one variable ordering is overkill here: try simple factor candidates
    for f in atoms(a):
        if f.kind == 'sym':
            c = fac(f)
            for k in (-2, -1, 0, 1, 2):
                if b * (c + k) == a:
                    return c + k
    return None


def reshape(I, a, shape, node, order='C'):
    shape = shape_arg(I, shape, node) if not (isinstance(shape, tuple) and all(isinstance(d, Expr) for d in shape)) \
        else shape
    shape = resolve_shape(I, a.size(), shape, node)
    if shape == a.shape and order == 'C':
        return a
    if order not in ('C', None):
        if order != 'F':
            raise Undecided('reshape order', node)
        rs, ra = tuple(reversed(shape)), tuple(reversed(a.shape))
        return Array.make(shape, lambda *i: a.elem(*reversed(unflatten(ra, flat_index(rs, tuple(reversed(i)))))),
                          a.dtype)
    return Array.make(shape, lambda *i: a.elem(*_reindex(a.shape, shape, i)), a.dtype)


def _reindex(old, new, idx):
    """Index into shape old for index idx of shape new (same size), peeling equal leading/trailing axes."""
    old_, new_, idx_ = list(old), list(new), list(idx)
    # drop unit axes of the new shape
    pairs = [(d, i) for d, i in zip(new_, idx_) if d != ONE]
    new_, idx_ = [d for d, _ in pairs], [i for _, i in pairs]
    pos_ = [k for k, d in enumerate(old_) if d != ONE]
    od = [old_[k] for k in pos_]
    lead, trail = [], []
    while od and new_ and od[0] == new_[0]:
        lead.append(idx_.pop(0))
        od.pop(0)
        new_.pop(0)
    while od and new_ and od[-1] == new_[-1]:
        trail.insert(0, idx_.pop())
        od.pop()
        new_.pop()
    mid = unflatten(od, flat_index(new_, idx_)) if od else []
    vals = lead + mid + trail
    out = [ZERO] * len(old_)
    for k, v in zip(pos_, vals):
        out[k] = v
    return out


def contiguous(I, a):
    """Whether the elements seen through a view lie in memory in C order (None: not known)."""
    v = a.view
    off = lambda sh, ix: sum_linear(sh, ix)
    e = off(I.obj(a).content.shape, v.idx) - off(v.shape, [ivar(x) for x in v.vars])
    return not (e.fv & set(v.vars))


def sum_linear(sh, ix):
    r = ZERO
    for d, i in zip(sh, ix):
        r = r * d + i
    return r


def reshape_view(I, a, shape, node, order='C'):
    """Reshape that keeps aliasing with the array a (numpy returns a view of contiguous data)."""
    shape = shape_arg(I, shape, node) if not (isinstance(shape, tuple) and all(isinstance(d, Expr) for d in shape)) \
        else shape
    if isinstance(a, Expr):
        c = I.read(a)
        return wrap(I, reshape(I, c, shape, node))
    osh = arr_shape(I, a)
    size = ONE
    for d in osh:
        size = size * d
    shape = resolve_shape(I, size, shape, node)
    if order not in ('C', None):
        return wrap(I, reshape(I, I.read(a), shape, node, order))
    if a.view is not None and [d for d in osh if d != ONE] != [d for d in shape if d != ONE] and not contiguous(I, a):
        return wrap(I, reshape(I, I.read(a), shape, node))
    vs = tuple(fresh(ZERO, d) for d in shape)
    base = _reindex(osh, shape, [ivar(v) for v in vs])
    if a.view is not None:
        mm = dict(zip(a.view.vars, base))
        base = [subs(i, mm) for i in a.view.idx]
    if not shape:
        return I.obj(a).content.elem(*base)
    return Arr(a.oid, View(shape, vs, base))


def transpose_view(I, a, perm, node):
    if isinstance(a, Expr):
        return a
    osh = arr_shape(I, a)
    n = len(osh)
    if perm is None:
        perm = list(range(n))[::-1]
    perm = [p % n for p in perm]
    if sorted(perm) != list(range(n)):
        raise AbsRaise(ExcV('ValueError', ('axes',)), node)
    shape = tuple(osh[p] for p in perm)
    vs = tuple(fresh(ZERO, d) for d in shape)
    base = [None] * n
    for k, p in enumerate(perm):
        base[p] = ivar(vs[k])
    if a.view is not None:
        mm = dict(zip(a.view.vars, base))
        base = [subs(i, mm) for i in a.view.idx]
    return Arr(a.oid, View(shape, vs, base))


# ------------------------------------------------------------------------------------------------ lists
def subst_val(I, v, m):
    """Substitute index variables inside a value."""
    if isinstance(v, Expr):
        return subs(v, m)
    if isinstance(v, BoolV):
        return I.mkbool(subs(v.e, m))
    if isinstance(v, Array):
        r = Array(tuple(subs(d, m) for d in v.shape), v.vars, v.body, v.dtype)
        vs = tuple(fresh(ZERO, d) for d in r.shape)
        b = subs(v.body, dict(m, **{a: ivar(b) for a, b in zip(v.vars, vs)}))
        return Array(r.shape, vs, b, v.dtype)
    if isinstance(v, Arr) and v.view is not None:
        w = v.view
        sh = tuple(subs(d, m) for d in w.shape)
        vs = tuple(fresh(ZERO, d) for d in sh)
        mm = dict(m, **{a: ivar(b) for a, b in zip(w.vars, vs)})
        return Arr(v.oid, View(sh, vs, [subs(i, mm) for i in w.idx]))
    if isinstance(v, tuple):
        return tuple(subst_val(I, x, m) for x in v)
    if isinstance(v, LoopSeg):
        return LoopSeg(v.var, subs(v.count, m), [subst_val(I, x, {k: e for k, e in m.items() if k != v.var})
                                                for x in v.items])
    return v


def seg_item(I, seg, k, j):
    v = subst_val(I, seg.items[k], {seg.var: j})
    if isinstance(v, Array):
        return I.new_arr(v)
    return v


def list_len(I, o):
    n = ZERO
    for x in o.items:
        n = n + (x.count * len(x.items) if isinstance(x, LoopSeg) else ONE)
    return n


def list_extend(I, o, v, node):
    it = I.to_iter(v, node)
    if it.kind == 'concrete':
        o.items.extend(it.items)
    elif it.kind == 'sym':
        k = fresh(ZERO, it.count, 'k')
        o.items.append(LoopSeg(k, it.count, [I._freeze(it.getter(ivar(k)))]))
    else:
        raise Undecided('extension by an opaque collection', node)
    o.writes.append((None, I.where(node)))


def list_item(I, o, i, node):
    if all(not isinstance(x, LoopSeg) for x in o.items) and o.items and all(x == o.items[0] for x in o.items[1:]):
        return o.items[0]
    if len(o.items) == 1 and isinstance(o.items[0], LoopSeg) and len(o.items[0].items) == 1:
        seg = o.items[0]
        return seg_item(I, seg, 0, norm_index(I, i, seg.count, node))
    # a concrete prefix / suffix position
    if nonneg(i):
        p = ZERO
        for x in o.items:
            if isinstance(x, LoopSeg):
                n = x.count * len(x.items)
                if nonneg(i - p) and nonneg(p + n - 1 - i) and len(x.items) == 1:
                    return seg_item(I, x, 0, i - p)
                p = p + n
            else:
                if i == p:
                    return x
                p = p + 1
    elif nonneg(-i - 1):
        p = ZERO
        for x in reversed(o.items):
            n = x.count * len(x.items) if isinstance(x, LoopSeg) else ONE
            if not isinstance(x, LoopSeg):
                if i == -(p + 1):
                    return x
            elif len(x.items) == 1 and nonneg(-i - 1 - p) and nonneg(p + n + i):
                return seg_item(I, x, 0, p + n + i)
            p = p + n
    A = to_array(I, tuple(o.items), node)
    return getitem(I, A, i, node)


def to_array(I, v, node, dtype=None):
    """Array value of a (nested) sequence."""
    if isinstance(v, Arr):
        return v
    items = v if isinstance(v, tuple) else (I.obj(v).items if isinstance(v, Ref) and I.obj(v).kind == 'list' else None)
    if items is None:
        if isinstance(v, Ref) and I.obj(v).kind == 'stub' and '__array__' in I.obj(v).methods:
            return I.obj(v).methods['__array__'](I, [dtype], {}, node)
        if isinstance(v, Ref) and I.obj(v).kind in ('set', 'dict', 'inst', 'stub'):
            raise Undecided('array of %s' % I.obj(v).kind, node)
        return I.num(v)
    if not items:
        return I.new_arr(Array.make((ZERO,), lambda i: ZERO))
    segs = []       # (start, count, var or None, [Array])
    p = ZERO
    proto = None
    for x in items:
        if isinstance(x, LoopSeg):
            arrs = [as_array(I, y, node) for y in x.items]
            segs.append((p, x.count, x.var, arrs))
            p = p + x.count * len(arrs)
            cand = arrs[0]
        else:
            if isinstance(x, (UnkV, Opq, str, StrV)) or x is None:
                raise Undecided('array of %r' % (x,), node)
            cand = as_array(I, x, node)
            if isinstance(x, (bool, BoolV)):
                cand = Array((), (), cand.body, 'bool')
            segs.append((p, ONE, None, [cand]))
            p = p + 1
        if proto is None:
            proto = cand
    for _, _, _, arrs in segs:
        for a in arrs:
            if a.ndim != proto.ndim:
                raise AbsRaise(ExcV('ValueError', ('inhomogeneous shape',)), node)
            for d1, d2 in zip(a.shape, proto.shape):
                same_dim(I, d1, d2, node, 'inhomogeneous')

    def f(i, *rest):
        e = ZERO
        for st, cnt, var, arrs in segs:
            m = len(arrs)
            for r, a in enumerate(arrs):
                if var is None:
                    e = e + delta(i, st) * a.elem(*rest)
                elif m == 1:
                    q = i - st
                    e = e + in_range(q, ZERO, cnt) * subs(a.elem(*rest), {var: q})
                else:
                    nv = fresh(ZERO, cnt)
                    e = e + Sum(nv, cnt, delta(i, st + ivar(nv) * m + r) * subs(a.elem(*rest), {var: ivar(nv)}))
        return e
    ds = {a.dtype for s in segs for a in s[3]}
    dt = 'float' if 'float' in ds else ('bool' if ds == {'bool'} else
                                        ('int' if ds == {'int'} and proto.ndim else 'num'))
    return I.new_arr(Array.make((p,) + proto.shape, f, dt))


from .npcall import r_, arr_attr, scalar_attr, ext_attr, ext_call, method    # noqa: E402,F401
