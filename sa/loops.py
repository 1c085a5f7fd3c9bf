"""Summaries of loops over symbolic ranges.

The body is analysed once for an arbitrary iteration k; what it reads from earlier iterations is represented by START
atoms '@..'(k, idx).  The recurrences so obtained are solved in closed form (additive, last value, row-by-row writes)
or kept as definitional recurrence atoms 'R..' (Interp.DEFS).
"""
from .alg import *
from .alg import _lin
from .values import *
from itertools import count as _count

_uid = _count()
MAXPASS = 6


class Leaf(object):
    """One loop-carried component."""

    def __init__(self, loc, path, sort, name, shape=(), entry=None, dtype='float'):
        self.loc, self.path, self.sort, self.name = loc, path, sort, name
        self.shape, self.entry, self.dtype = tuple(shape), entry, dtype     # entry: function of idx -> Expr
        self.end = None                                                    # function of idx -> Expr
        self.guess = None                                                  # constant increment
        self.const = True


def flatten(v, path=()):
    if isinstance(v, tuple):
        out = []
        for i, x in enumerate(v):
            out += flatten(x, path + (i,))
        return out
    return [(path, v)]


def tree_get(v, path):
    for i in path:
        if not isinstance(v, tuple) or i >= len(v):
            return None
        v = v[i]
    return v


def tree_set(v, path, x):
    if not path:
        return x
    return v[:path[0]] + (tree_set(v[path[0]], path[1:], x),) + v[path[0] + 1:]


def same_view(a, b):
    if a is b:
        return True
    if a is None or b is None or a.shape != b.shape:
        return False
    m = {x: ivar(y) for x, y in zip(b.vars, a.vars)}
    return len(a.idx) == len(b.idx) and all(x == subs(y, m) for x, y in zip(a.idx, b.idx))


def same_leaf(a, b):
    if a is b:
        return True
    if isinstance(a, Arr) and isinstance(b, Arr):
        return a.oid == b.oid and same_view(a.view, b.view)
    if isinstance(a, Expr) and isinstance(b, Expr):
        return a == b
    if isinstance(a, (bool, str, type(None))) or isinstance(b, (bool, str, type(None))):
        return type(a) is type(b) and a == b
    try:
        return type(a) is type(b) and bool(a == b)
    except Exception:
        return False


def slots(o):
    """Mutable name/value slots of a heap object."""
    if o.kind == 'frame':
        return o.vars
    if o.kind in ('inst', 'stub'):
        return o.attrs
    if o.kind == 'dict':
        return o.d
    return None


def same_items(a, b):
    return len(a) == len(b) and all(x is y or (not isinstance(x, LoopSeg) and not isinstance(y, LoopSeg)
                                               and same_leaf(x, y)) for x, y in zip(a, b))


class Carried(object):
    """The set of changed locations of one loop and their START representation."""

    def __init__(self, I, entry, k, n):
        self.I, self.entry, self.k, self.n = I, entry, k, n
        self.leaves = {}       # (loc, path) -> Leaf      loc = (oid, key) or (oid, '$content')
        self.other = set()     # locations whose carried value is not represented
        self.lists = {}        # oid -> 'append' | 'seq'
        self.startoids = {}
        self.seqleaf = {}      # oid of a list in 'seq' mode -> Leaf

    def install(self, st):
        I, k = self.I, ivar(self.k)
        self.startoids = {}
        for (loc, path), lf in self.leaves.items():
            oid, key = loc
            if lf.sort == 'list':
                continue
            if lf.sort == 'arr':
                if lf.const:
                    continue
                o = st.heap[oid]
                o.content = Array.make(lf.shape, lambda *i, lf=lf: el(lf.name, (k,) + i), lf.dtype)
                continue
            s = slots(st.heap[oid])
            if lf.sort in ('num', 'bool'):
                if lf.guess is not None:
                    v = lf.entry() + k * lf.guess
                else:
                    v = el(lf.name, (k,))
                if lf.sort == 'bool':
                    v = BoolV(v)
            else:       # array handle
                noid = I.next_oid
                I.next_oid += 1
                st.heap[noid] = ArrObj(Array.make(lf.shape, lambda *i, lf=lf: el(lf.name, (k,) + i), lf.dtype))
                self.startoids[noid] = lf
                v = Arr(noid)
            s[key] = tree_set(s[key], path, v)
        for loc in self.other:
            oid, key = loc
            s = slots(st.heap[oid])
            if s is not None:
                if not isinstance(s.get(key), (FuncV, ClassV)):
                    s[key] = UnkV('loop-carried %s' % (key,))
            elif st.heap[oid].kind in ('list', 'set'):
                st.heap[oid].items = [UnkV('loop-carried list')]
        for oid, mode in self.lists.items():
            o = st.heap[oid]
            if mode == 'append':
                o.items = list(o.items) + [LoopSeg(fresh(ZERO, k, 'k'), k, [UnkV('list under construction')])]
            else:
                lf = self.seqleaf[oid]
                p = fresh(ZERO, lf.base + k, 'k')
                if lf.shape:
                    it = Array.make(lf.shape, lambda *i: el(lf.name, (k, ivar(p)) + i), lf.dtype)
                else:
                    it = el(lf.name, (k, ivar(p)))
                o.items = [LoopSeg(p, lf.base + k, [it])]
        for noid in self.startoids:
            pass

    def add(self, loc, path, v0, v1, stv0, stv1):
        """Register a changed component; returns False when it cannot be represented."""
        I = self.I
        name = '@%d_%s' % (next(_uid), loc[1] if isinstance(loc[1], str) else loc[0])
        if isinstance(v0, (bool, BoolV)) and isinstance(v1, (bool, BoolV)):
            self.leaves[(loc, path)] = Leaf(loc, path, 'bool', name, (), lambda: I.num(v0))
            return True
        if isinstance(v0, Expr) and isinstance(v1, (Expr, BoolV, bool)):
            lf = Leaf(loc, path, 'num', ('int:' + name) if is_int(v0) and is_int(I.num(v1)) else name, (), lambda: v0)
            d = I.num(v1) - v0
            if d.const() is not None and d.const() != 0:
                lf.guess = d
            self.leaves[(loc, path)] = lf
            return True
        if isinstance(v0, (Arr, Expr)) and isinstance(v1, Arr) or isinstance(v0, Arr) and isinstance(v1, Expr):
            c0, c1 = I.read(v0, stv0), I.read(v1, stv1)
            if c0.shape == c1.shape and c0.shape:
                dt = c0.dtype if c0.dtype == c1.dtype else 'float'
                self.leaves[(loc, path)] = Leaf(loc, path, 'handle', name, c0.shape, lambda *i: c0.elem(*i), dt)
                return True
        return False


class AbandonPass(Exception):
    pass


def summarise(I, n, getter, target, body, flow, node, test=None):
    if not nonneg(n):
        if nonneg(-n):
            return
        raise Undecided('number of iterations %s' % n, node)
    entry = I.st
    pc0 = entry.pc
    k = fresh(ZERO, n, 'k')
    C = Carried(I, entry, k, n)
    from .interp import Flow
    save = (I.draws, len(I.draw_log), len(I.notes), dict(I.fault_count))
    base_oids = set(entry.heap)
    defs0 = set(I.DEFS)
    for attempt in range(MAXPASS + 1):
        if attempt == MAXPASS:
            raise Undecided('loop did not stabilise', node)
        I.draws = save[0]
        del I.draw_log[save[1]:]
        del I.notes[save[2]:]
        I.fault_count = dict(save[3])
        for d in set(I.DEFS) - defs0:
            del I.DEFS[d]
        st = entry.copy()
        st.pc = ONE
        st.events = []
        C.install(st)
        start = st.copy()
        I.st = st
        fl = Flow()
        I.loopvars.append((k, n))
        try:
            if target is not None:
                I.assign(target, getter(ivar(k)), node)
            I.exec_block(body, fl)
            alive = list(fl.conts)
            if I.st is not None:
                alive.append((I.st.pc, I.st))
            end = I._join(alive) if alive else None
        finally:
            I.loopvars.pop()
            I.st = entry
        if end is None:
            break
        if not _discover(I, C, entry, start, end):
            break
    if fl.brks or fl.rets:
        raise Undecided('early exit from a symbolic loop', node)
    always = ONE if nonneg(n - 1) else ge(n - 1)
    if end is None:
        for e, p, s, w in fl.raises:
            flow.raises.append((e, pc0 * always, s, w))
        if always == ONE:
            I.st = None
        return
    S = Solver(I, C, end, node)
    S.solve()
    for e, p, s, w in fl.raises:
        p = S.resolve(p)
        if p != ONE and k in p.fv:
            p = cond('exists', (mk_lam((n,), (k,), p),))
        flow.raises.append((e, pc0 * always * p, s, w))
    S.finish(entry, pc0, base_oids)
    for d in set(I.DEFS) - defs0:
        vs, b = I.DEFS[d]
        I.DEFS[d] = (vs, S.resolve(b))
    I.st = S.out


def _discover(I, C, entry, start, end):
    """Record locations that differ between the start and the end of the pass and are not yet represented."""
    new = False
    for oid, o0 in entry.heap.items():
        if oid not in end.heap:
            continue
        s0, s1 = start.heap[oid], end.heap[oid]
        k = o0.kind
        if k == 'arr':
            if not s1.content.same(s0.content):
                key = ((oid, '$content'), ())
                if key not in C.leaves:
                    if s1.content.shape != o0.content.shape:
                        raise Undecided('array changes its shape in a loop')
                    lf = Leaf((oid, '$content'), (), 'arr', '@%d_a%d' % (next(_uid), oid), o0.content.shape,
                              (lambda c: lambda *i: c.elem(*i))(o0.content), s1.content.dtype)
                    lf.const = False
                    C.leaves[key] = lf
                    new = True
            continue
        if k in ('list', 'set'):
            if oid in C.lists:
                if C.lists[oid] == 'append':
                    pre = s0.items
                    if not same_items(s1.items[:len(pre)], pre):
                        C.lists.pop(oid)
                        C.other.add((oid, '$items'))
                        new = True
                    elif any(_unk_list(I, x, end) for x in s1.items[len(pre):]):
                        if not _make_seq(I, C, oid, o0, s1.items[len(pre):], entry, end):
                            raise Undecided('list read while it is built in a loop')
                        new = True
                else:
                    pre = s0.items
                    if not same_items(s1.items[:len(pre)], pre) or len(s1.items) != len(pre) + 1:
                        raise Undecided('list recurrence')
                continue
            if (oid, '$items') in C.other:
                continue
            if not same_items(s1.items, s0.items):
                if k == 'list' and same_items(s1.items[:len(s0.items)], s0.items):
                    C.lists[oid] = 'append'
                else:
                    C.other.add((oid, '$items'))
                new = True
            continue
        m0, ms, m1 = slots(o0), slots(s0), slots(s1)
        for key, v1 in m1.items():
            if key not in m0 or (isinstance(key, str) and key.startswith('$')):
                continue
            loc = (oid, key)
            if loc in C.other:
                continue
            v0, vs = m0[key], ms[key]
            f0, fs, f1 = flatten(v0), dict(flatten(vs)), dict(flatten(v1))
            if [p for p, _ in f0] != list(f1):
                C.other.add(loc)
                new = True
                continue
            for path, x0 in f0:
                xs, x1 = fs.get(path), f1[path]
                if same_leaf(xs, x1):
                    continue
                kk = (loc, path)
                if kk in C.leaves:
                    lf = C.leaves[kk]
                    if lf.sort in ('num', 'bool'):
                        if not isinstance(x1, (Expr, bool, BoolV)):
                            if isinstance(x1, Arr) and not I.read(x1, end).shape:
                                continue
                            del C.leaves[kk]
                            C.other.add(loc)
                            new = True
                        elif lf.guess is not None and I.num(x1) != I.num(xs) + lf.guess:
                            lf.guess = None
                            lf.nog = True
                            new = True
                        elif lf.name.startswith('int:') and not is_int(I.num(x1)):
                            lf.name = lf.name[4:]
                            new = True
                    elif lf.sort == 'handle':
                        if not isinstance(x1, (Arr, Expr)) or I.read(x1, end).shape != lf.shape:
                            del C.leaves[kk]
                            C.other.add(loc)
                            new = True
                    continue
                if not C.add(loc, path, x0, x1, entry, end):
                    C.other.add(loc)
                    for z in [z for z in C.leaves if z[0] == loc]:
                        del C.leaves[z]
                new = True
    return new


def _unk_list(I, x, st):
    if isinstance(x, Arr):
        try:
            x = I.read(x, st)
        except Undecided:
            return True
    if isinstance(x, UnkV):
        return 'list under construction' in x.reason
    if isinstance(x, Expr):
        return 'list under construction' in str(x)
    if isinstance(x, Array):
        return 'list under construction' in str(x.body)
    if isinstance(x, Arr):
        return True
    return False


def _make_seq(I, C, oid, o0, extra, entry, end):
    if len(extra) != 1 or not o0.items or any(isinstance(x, LoopSeg) for x in o0.items):
        return False
    try:
        cs = [I.read(x, entry) for x in o0.items]
    except Undecided:
        return False
    if any(c.shape != cs[0].shape for c in cs):
        return False

    def ent(p, *i):
        e = ZERO
        for j, c in enumerate(cs):
            e = e + delta(p, E(j)) * c.elem(*i)
        return e
    lf = Leaf((oid, '$items'), (), 'list', '@%d_l%d' % (next(_uid), oid), cs[0].shape, ent,
              'float' if any(c.dtype == 'float' for c in cs) else cs[0].dtype)
    lf.base = E(len(cs))
    C.lists[oid] = 'seq'
    C.seqleaf[oid] = lf
    C.leaves[((oid, '$items'), ())] = lf
    return True


class Solver(object):
    def __init__(self, I, C, end, node):
        self.I, self.C, self.end, self.node = I, C, end, node
        self.k, self.n = C.k, C.n
        self.map = {}          # START name -> function(j, *idx)
        self.final = {}        # leaf key -> function(*idx)
        self.names = {}
        self.params = tuple(v for v, _ in I.loopvars)
        for key, lf in C.leaves.items():
            self.names[lf.name] = key

    # ---- START atoms
    def starts(self, e):
        out = set()
        for f in atoms(e):
            if f.kind == 'el' and f.name in self.names:
                out.add(f.name)
        return out

    def resolve(self, e):
        if '@' not in str(e):
            return e

        def fun(f):
            if f.kind == 'el' and f.name in self.map:
                args = [self.resolve(a) for a in f.args]
                return self.map[f.name](*args)
            return None
        return replace_atoms(e, fun)

    def endval(self, lf):
        """(index vars, end-of-iteration element)"""
        I, end = self.I, self.end
        oid, key = lf.loc
        if lf.sort == 'arr':
            c = end.heap[oid].content
            return c.vars, c.body
        if lf.sort == 'list':
            it = end.heap[oid].items[-1]
            c = I.read(it, end) if not isinstance(it, Array) else it
            p = fresh(ZERO, lf.base + self.n, 'p')
            # the list as an array indexed by position
            own = el(lf.name, (ivar(self.k), ivar(p)) + tuple(ivar(v) for v in c.vars))
            d = delta(ivar(p), lf.base + ivar(self.k))
            return (p,) + tuple(c.vars), own + d * (c.body - own)
        v = tree_get(slots(end.heap[oid])[key], lf.path)
        if lf.sort in ('num', 'bool'):
            return (), I.num(v)
        c = I.read(v, end)
        return c.vars, c.body

    def solve(self):
        todo = {}
        for key, lf in self.C.leaves.items():
            if lf.guess is not None:
                self.map[lf.name] = lambda j, lf=lf: lf.entry() + j * lf.guess
                self.final[key] = lambda lf=lf: lf.entry() + self.n * lf.guess
                continue
            todo[key] = (lf,) + self.endval(lf)
        for lf in self.C.startoids.values():
            pass
        for oid, lf in self.C.startoids.items():
            if oid in self.end.heap and self.end.heap[oid].writes:
                # the carried array is modified in place: only harmless if nobody else holds it
                self.I.notes.append('array %s is carried and modified in place' % (lf.loc[1],))
        while todo:
            done = []
            for key, (lf, vs, e) in list(todo.items()):
                e = self.resolve(e)
                todo[key] = (lf, vs, e)
                oth = self.starts(e) - {lf.name}
                if oth:
                    continue
                if self.solve_one(key, lf, vs, e):
                    done.append(key)
                    del todo[key]
                    break
            if done:
                continue
            if todo:
                self.solve_group(todo)
                break

    # ---- closed forms
    def own_free(self, e, name):
        return name not in self.starts(e)

    def solve_one(self, key, lf, vs, e):
        k, n = self.k, self.n
        own = el(lf.name, (ivar(k),) + tuple(ivar(v) for v in vs))
        d = e - own
        if self.own_free(d, lf.name):
            def at(j, *idx):
                i = fresh(ZERO, j, 'q')
                return lf.entry(*idx) + Sum(i, j, subs(d, dict({k: ivar(i)}, **dict(zip(vs, idx)))))
            self.map[lf.name] = at
            self.final[key] = lambda *idx: at(n, *idx)
            return True
        if self.own_free(e, lf.name):
            def at(j, *idx):
                m = dict(zip(vs, idx))
                v = subs(e, dict({k: j - 1}, **m))
                z = delta(j, ZERO)
                g = ge(j - 1)
                out = ZERO
                if not z.is_zero():
                    out = out + z * lf.entry(*idx)
                if not g.is_zero():
                    out = out + g * v
                return out
            self.map[lf.name] = at
            self.final[key] = lambda *idx: at(n, *idx)
            return True
        if lf.sort in ('arr', 'list'):
            L = self.link(lf, vs, d)
            if L is not None:
                self.rows(key, lf, vs, d, L)
                return True
            if lf.sort == 'list':
                raise Undecided('list recurrence', self.node)
        self.sequence(key, lf, vs, e)
        return True

    def solve_group(self, todo):
        """Mutually dependent components: sequences and row recurrences are introduced together."""
        pend = []
        for key, (lf, vs, e) in todo.items():
            own = el(lf.name, (ivar(self.k),) + tuple(ivar(v) for v in vs))
            d = e - own
            L = self.link(lf, vs, d) if lf.sort in ('arr', 'list') else None
            if L is not None:
                pend.append(self.rows(key, lf, vs, d, L, True))
            else:
                if lf.sort == 'list':
                    raise Undecided('list recurrence', self.node)
                pend.append(self.sequence(key, lf, vs, e, True))
        for f in pend:
            f()

    def newname(self):
        return 'R%d' % next(_uid)

    def sequence(self, key, lf, vs, e, defer=False):
        """c[0] = entry, c[j + 1] = e(j)."""
        R = self.newname()
        P = tuple(ivar(p) for p in self.params)
        self.map[lf.name] = lambda j, *idx: el(R, P + (j,) + tuple(idx))
        self.final[key] = lambda *idx: el(R, P + (self.n,) + tuple(idx))

        def define():
            b = self.resolve(e)
            jv = fresh(ZERO, self.n + 1, 'j')
            ws = tuple(fresh(ZERO, d) for d in lf.shape)
            m = {v: ivar(w) for v, w in zip(vs, ws)}
            m[self.k] = ivar(jv) - 1
            body = delta(ivar(jv), ZERO) * lf.entry(*[ivar(w) for w in ws]) + ge(ivar(jv) - 1) * subs(b, m)
            pv = tuple(fresh(VR[p][0], VR[p][1], 'P') for p in self.params)
            body = subs(body, {p: ivar(q) for p, q in zip(self.params, pv)})
            self.I.DEFS[R] = (pv + (jv,) + ws, body)
        if defer:
            return define
        define()

    def link(self, lf, vs, d):
        """Axis and map (axis, alpha, beta) with every changed element satisfying idx[axis] = alpha*k + beta, or
        ('own',) when each row is written once and only its own old value is read."""
        k = self.k
        best = None
        terms = list(d.terms.items())
        for a, v in enumerate(vs):
            cand = None
            ok = True
            for (sums, facs), c in terms:
                hit = None
                for f, _ in facs:
                    if f.kind == 'dl' and not f.name and v in f.fv and k in f.fv:
                        x = f.args[0]
                        lv = _lin(x, v)
                        if lv is None or abs(lv[0]) != 1:
                            continue
                        r = (-lv[1]).scale(1 / lv[0])        # v = r(k)
                        hit = r
                        break
                if hit is None or (cand is not None and hit != cand):
                    ok = False
                    break
                cand = hit
            if ok and cand is not None:
                l = _lin(cand, k)
                if l is not None and abs(l[0]) == 1 and not (l[1].fv & set(vs)):
                    return (a, l[0], l[1])
                s = cand.single()
                if s is not None and s.kind == 'el' and s.name in EL_DISTINCT and s.args == (ivar(k),):
                    best = (a, None, cand)
        if best is not None:
            # only reads of the own row are representable
            for (sums, facs), c in terms:
                for f in atoms(Expr({(sums, facs): c})):
                    if f.kind == 'el' and f.name == lf.name:
                        rest = Expr({(sums, tuple(x for x in facs if x[0] is not f)): c})
                        if (f, 1) not in facs:
                            return None
                        own = el(lf.name, (ivar(k),) + tuple(ivar(v) for v in vs))
                        if not (rest * (fac(f) - own)).is_zero():
                            return None
            return best
        return None

    def rows(self, key, lf, vs, d, L, defer=False):
        a, al, be = L
        k, n = self.k, self.n
        R = self.newname()
        P = tuple(ivar(p) for p in self.params)
        state = {'rec': True}

        def at(j, *idx):
            if al is None:
                return lf.entry(*idx)
            w = (idx[a] - be).scale(1 / al)
            g = ge(j - 1 - w)          # rows that are never written keep their entry value in R as well
            out = ZERO
            if not g.is_zero():
                out = out + g * el(R, P + tuple(idx))
            if g != ONE:
                out = out + (ONE - g) * lf.entry(*idx)
            return out
        self.map[lf.name] = at
        self.final[key] = lambda *idx: el(R, P + tuple(idx)) if state['rec'] else state['f'](*idx)

        def define():
            b = self.resolve(d)

            def f(*idx):
                i = fresh(ZERO, n, 'q')
                return lf.entry(*idx) + Sum(i, n, subs(b, dict({k: ivar(i)}, **dict(zip(vs, idx)))))
            if not any(g.kind == 'el' and g.name == R for g in atoms(b)) and not defer:
                state['rec'] = False
                state['f'] = f
            sh = lf.shape if lf.sort == 'arr' else (lf.base + n,) + lf.shape
            ws = tuple(fresh(ZERO, x) for x in sh)
            body = f(*[ivar(w) for w in ws])
            pv = tuple(fresh(VR[p][0], VR[p][1], 'P') for p in self.params)
            body = subs(body, {p: ivar(q) for p, q in zip(self.params, pv)})
            self.I.DEFS[R] = (pv + ws, body)
        if defer:
            return define
        define()
        if not state['rec']:
            # START reads of other components refer to the closed form directly
            def at2(j, *idx):
                if al is None:
                    return at(j, *idx)
                w = (idx[a] - be).scale(1 / al)
                g = ge(j - 1 - w)
                return g * state['f'](*idx) + (ONE - g) * lf.entry(*idx)
            self.map[lf.name] = at2
        return None

    # ---- state after the loop
    def value(self, v, st):
        """Resolve a value at the end of the last iteration."""
        I = self.I
        m = {self.k: self.n - 1}
        if isinstance(v, Expr):
            e = subs(self.resolve(v), m)
            if isinstance(v, PyNum):
                return PyNum(e, v.pytype) if e is not v else v
            return e
        if isinstance(v, BoolV):
            return I.mkbool(subs(self.resolve(v.e), m))
        if isinstance(v, tuple):
            return tuple(self.value(x, st) for x in v)
        if isinstance(v, Arr):
            if v.view is not None:
                w = v.view
                return Arr(v.oid, View(tuple(subs(self.resolve(d), m) for d in w.shape), w.vars,
                                       [subs(self.resolve(i), m) for i in w.idx]))
            return v
        if isinstance(v, Array):
            return Array(v.shape, v.vars, subs(self.resolve(v.body), m), v.dtype)
        if isinstance(v, LoopSeg):
            return LoopSeg(v.var, subs(self.resolve(v.count), m), [self.value(x, st) for x in v.items])
        return v

    def keep_k(self, v):
        """Resolve START atoms, keep the loop variable (list templates, events)."""
        I = self.I
        if isinstance(v, Expr):
            return self.resolve(v)
        if isinstance(v, BoolV):
            return BoolV(self.resolve(v.e))
        if isinstance(v, tuple):
            return tuple(self.keep_k(x) for x in v)
        if isinstance(v, Array):
            return Array(v.shape, v.vars, self.resolve(v.body), v.dtype)
        return v

    def finish(self, entry, pc0, base_oids):
        I, C, end = self.I, self.C, self.end
        out = end
        # appended lists: templates are frozen at the end of the pass
        frozen = {}
        I.st = end
        for oid, mode in C.lists.items():
            pre = len(entry.heap[oid].items)
            extra = end.heap[oid].items[pre + 1:] if mode == 'append' else None
            if extra is not None:
                frozen[oid] = [self.keep_k(I._freeze(x)) for x in extra]
        sl = set(C.leaves) | set()
        for oid, o in list(out.heap.items()):
            if oid not in base_oids:
                # allocated in the body (or START storage): contents of the last iteration
                if o.kind == 'arr':
                    c = o.content
                    if '@' in str(c.body) or self.k in c.body.fv or any(self.k in d.fv for d in c.shape):
                        m = {self.k: self.n - 1}
                        sh = tuple(subs(self.resolve(d), m) for d in c.shape)
                        vs = tuple(fresh(ZERO, d) for d in sh)
                        b = subs(self.resolve(c.body), dict(m, **{a: ivar(b) for a, b in zip(c.vars, vs)}))
                        o.content = Array(sh, vs, b, c.dtype)
                elif o.kind in ('list', 'set'):
                    o.items = [self.value(x, end) for x in o.items]
                else:
                    s = slots(o)
                    if s:
                        for kk in list(s):
                            s[kk] = self.value(s[kk], end)
                continue
            if o.kind in ('arr', 'list', 'set'):
                continue
            s, s0 = slots(o), slots(entry.heap[oid])
            for kk in list(s):
                if isinstance(kk, str) and kk.startswith('$'):
                    continue
                if kk not in s0:
                    s[kk] = self.value(s[kk], end)
                elif (oid, kk) in C.other:
                    v = s[kk]
                    s[kk] = self.value(v, end) if nonneg(self.n - 1) else UnkV('loop-carried value')
        for (loc, path), lf in C.leaves.items():
            oid, key = loc
            fin = self.final[(loc, path)]
            if lf.sort == 'arr':
                dt = out.heap[oid].content.dtype
                out.heap[oid].content = Array.make(lf.shape, lambda *i: fin(*i), dt)
                continue
            if lf.sort == 'list':
                kv = fresh(ZERO, self.n, 'k')
                pos = lf.base + ivar(kv)
                it = Array.make(lf.shape, lambda *i: fin(pos, *i), lf.dtype) if lf.shape else fin(pos)
                out.heap[oid].items = list(entry.heap[oid].items) + [LoopSeg(kv, self.n, [it])]
                continue
            s = slots(out.heap[oid])
            if lf.sort == 'bool':
                v = I.mkbool(fin())
            elif lf.sort == 'num':
                v = fin()
            else:
                noid = I.next_oid
                I.next_oid += 1
                out.heap[noid] = ArrObj(Array.make(lf.shape, lambda *i: fin(*i), lf.dtype))
                v = Arr(noid)
                # the same object as before when the end value aliases storage is not tracked
            s[key] = tree_set(s[key], path, v)
        for oid, items in frozen.items():
            kv = fresh(ZERO, self.n, 'k')
            M = I.np
            out.heap[oid].items = list(entry.heap[oid].items) + [
                LoopSeg(kv, self.n, [M.subst_val(I, x, {self.k: ivar(kv)}) for x in items])]
        for loc in C.other:
            oid, key = loc
            if key == '$items':
                out.heap[oid].items = [UnkV('list modified in a loop')]
        ev = [self.keep_k(x) if isinstance(x, tuple) else x for x in end.events]
        out.events = list(entry.events)
        if ev:
            out.events += [('loop', self.k, self.n)] + ev + [('endloop', self.k)]
        out.pc = pc0
        self.out = out


# ------------------------------------------------------------------------------------------------ while
def summarise_while(I, s, flow):
    """Counted while loops: the trip count follows from an induction variable in the condition."""
    from .interp import Flow
    entry = I.st
    big = sym('trip-count')
    SYM_MIN['trip-count'] = 1
    k = fresh(ZERO, big, 'k')
    save = (I.draws, len(I.draw_log), len(I.notes), dict(I.fault_count), set(I.DEFS))
    guesses = {}
    for attempt in range(3):
        st = entry.copy()
        st.pc = ONE
        for (oid, key), d in guesses.items():
            v = slots(st.heap[oid])[key]
            slots(st.heap[oid])[key] = I.num(v) + ivar(k) * d
        start = st.copy()
        I.st = st
        fl = Flow()
        try:
            t = I.truth(I.ev(s.test), s)
        finally:
            pass
        if t is True or t is False:
            if attempt:
                I.st = entry
                raise Undecided('while condition does not depend on an induction variable', s)
            cnt = None
        else:
            cnt = _trip(t.e, k)
        if cnt is not None and attempt:
            I.st = entry
            if not nonneg(cnt):
                raise Undecided('trip count %s' % cnt, s)
            break
        # assumed true inside the body
        I.loopvars.append((k, big))
        try:
            I.exec_block(s.body, fl)
            alive = list(fl.conts)
            if I.st is not None:
                alive.append((I.st.pc, I.st))
            if not alive:
                raise Undecided('while loop', s)
            end = I._join(alive)
        finally:
            I.loopvars.pop()
            I.st = entry
            I.draws = save[0]
            del I.draw_log[save[1]:]
            del I.notes[save[2]:]
            I.fault_count = dict(save[3])
            for d in set(I.DEFS) - save[4]:
                del I.DEFS[d]
        guesses = {}
        for oid, o0 in entry.heap.items():
            m0 = slots(o0)
            if m0 is None or oid not in end.heap:
                continue
            m1 = slots(end.heap[oid])
            for key, v0 in m0.items():
                v1 = m1.get(key)
                if isinstance(v0, Expr) and isinstance(v1, Expr):
                    ms = slots(start.heap[oid])[key]
                    d = I.num(v1) - I.num(ms)
                    if d.const() is not None and d.const() != 0:
                        guesses[(oid, key)] = d
        if not guesses:
            raise Undecided('while loop without an induction variable', s)
    else:
        I.st = entry
        raise Undecided('while loop', s)
    summarise(I, cnt, None, None, s.body, flow, s)


def _trip(e, k):
    """Number of iterations of `while e` for an indicator e over the iteration number k."""
    f = e.single()
    if f is not None and f.kind == 'ge':
        l = _lin(f.args[0], k)
        if l is not None and l[0] < 0:
            b, a = l[1], -l[0]
            if a == 1:
                return b + 1
            if nonneg(b) or nonneg(b + 1):
                return fdiv(b + int(a) if a.denominator == 1 else b, E(int(a)))
    g = (ONE - e).single()
    if g is not None and g.kind == 'dl' and not g.name:
        l = _lin(g.args[0], k)
        if l is not None and abs(l[0]) == 1:
            c = (-l[1]).scale(1 / l[0])
            if nonneg(c):
                return c
    if g is not None and g.kind == 'ge':
        l = _lin(g.args[0], k)
        if l is not None and l[0] > 0:
            # continue while a*k + b < 0
            b, a = -l[1], l[0]
            if a == 1:
                return b
    return None
