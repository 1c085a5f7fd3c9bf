"""Value-numbering abstract interpreter for an iterative optimiser (class with __init__(f, df, options), __call__(x0)).

A run follows one sequence of branch outcomes through the syntax tree; branches decided by the known sign facts have only
one outcome.  The main loop is analysed in one of two ways: from abstract head states that are joined to a fixpoint
(proofs for every number of iterations), or unrolled for a small iteration limit (counterexamples).
"""
import ast
import os
from fractions import Fraction
from .vn import *
from . import vn


class Stop(Exception):
    """The run ends here (loop head reached, infeasible outcome)."""

    def __init__(self, kind, data=None):
        Exception.__init__(self, kind)
        self.kind, self.data = kind, data


class Crash(Exception):
    def __init__(self, what, where):
        Exception.__init__(self, what)
        self.what, self.where = what, where


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Arr(object):
    __slots__ = ('ref',)

    def __init__(self, ref):
        self.ref = ref


class DictV(Arr):
    __slots__ = ()


class ObjV(Arr):
    __slots__ = ()


class ListV(Arr):
    __slots__ = ()


class Slot(object):
    """A table of the run's history: written by index, never read back exactly."""
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n


class Ext(object):
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


class Meth(object):
    __slots__ = ('obj', 'name')

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class Fn(object):
    __slots__ = ('node', 'self', 'mod', 'env')

    def __init__(self, node, self_, mod, env=None):
        self.node, self.self, self.mod, self.env = node, self_, mod, env


class RangeV(object):
    __slots__ = ('lo', 'hi', 'step', 'enum')

    def __init__(self, lo, hi, step=1, enum=None):
        self.lo, self.hi, self.step, self.enum = lo, hi, step, enum


class Cond(object):
    """p rel 0, or a named boolean."""
    __slots__ = ('rel', 'p')

    def __init__(self, rel, p):
        self.rel, self.p = rel, p


class VCond(Cond):
    """Elementwise comparison of a vector."""
    __slots__ = ()


FLIP = {'<': '>=', '>=': '<', '>': '<=', '<=': '>', '==': '!=', '!=': '=='}
SIGN_OF = {'<': '-', '>=': '0+', '>': '+', '<=': '0-', '==': '0', '!=': '!'}


class Module(object):
    def __init__(self, path):
        self.path = path
        with open(path, encoding='utf-8') as f:
            self.tree = ast.parse(f.read())
        self.names = {}
        for n in ast.walk(self.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    self.names[a.asname or a.name.split('.')[0]] = Ext(a.name if a.asname else a.name.split('.')[0])
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    self.names[a.asname or a.name] = ('from', n.module or '', a.name)
        for n in self.tree.body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                self.names[n.name] = n
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                self.names[n.targets[0].id] = ('const', n.value)


class Run(object):
    """One run of the analysed method along one sequence of branch outcomes."""

    def __init__(self, prog, decisions, nit, head=None, action=None, opaque_bools=()):
        self.prog, self.nit = prog, nit
        self.dec, self.pos = list(decisions), 0
        self.new = 0
        self.frames, self.heap, self.facts, self.bools = [], {}, Facts(), {}
        self.last = None
        self.nref = 0
        self.path, self.events = [], []
        self.head, self.action = head, action
        self.loop_seen = None
        self.loop_entries = 0
        self.depth = 0
        self.steps = 0
        self.cur = None
        self.visited = set()
        self.iter_marks = []
        self.pending = None
        self.bound = None

    # ------------------------------------------------------------------------------------------------ state
    def alloc(self, v, cls=Arr):
        self.nref += 1
        self.heap[self.nref] = v
        return cls(self.nref)

    def snapshot(self):
        """Frames and heap with canonical reference numbers."""
        ren = {}
        heap = {}

        def go(v):
            if isinstance(v, Arr):
                k = v.ref
                if k not in ren:
                    ren[k] = len(ren) + 1
                    h = self.heap[k]
                    heap[ren[k]] = None
                    if isinstance(h, dict):
                        heap[ren[k]] = {a: go(h[a]) for a in sorted(h, key=str)}
                    elif isinstance(h, list):
                        heap[ren[k]] = [go(a) for a in h]
                    elif isinstance(h, tuple):
                        heap[ren[k]] = h
                    else:
                        heap[ren[k]] = h
                return type(v)(ren[k])
            if isinstance(v, tuple):
                return tuple(go(x) for x in v)
            if isinstance(v, Fn):
                return Fn(v.node, go(v.self) if v.self is not None else None, v.mod, v.env)
            if isinstance(v, Meth):
                return Meth(go(v.obj), v.name)
            return v

        frames = []
        for f in self.frames:
            frames.append({k: go(f[k]) for k in sorted(f)})
        return Snap(frames, heap, Facts(self.facts), self.last, dict(self.bools))

    def load(self, s):
        if len(s.frames) != len(self.frames):
            raise Undec('different call depth at the loop')
        for f, g in zip(self.frames, s.frames):
            f.clear()
            f.update(g)
        self.heap = {k: (dict(v) if isinstance(v, dict) else list(v) if isinstance(v, list) else v)
                     for k, v in s.heap.items()}
        self.nref = max(self.heap, default=0) + 100
        self.facts = Facts(s.facts)
        self.bools = dict(s.bools)
        self.last = s.last
        self.inputs = {self.frames[0]['%x0'].ref}
        self.path = []
        self.events = []

    def where(self, node=None):
        n = node if node is not None and hasattr(node, 'lineno') else self.cur
        fn = self.fnstack[-1] if getattr(self, 'fnstack', None) else None
        return '%s:%s (%s)' % (os.path.relpath(fn.mod.path, self.prog.root) if fn else '?', getattr(n, 'lineno', '?'),
                               fn.node.name if fn and hasattr(fn.node, 'name') else '?')

    # ------------------------------------------------------------------------------------------------ branching
    def choose(self):
        if self.pos < len(self.dec):
            d = self.dec[self.pos]
        else:
            d = True
            self.dec.append(d)
        self.pos += 1
        return d

    def truth(self, v, node=None):
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, str):
            return bool(v)
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, (DictV, ListV)):
            return len(self.heap[v.ref]) > 0
        if isinstance(v, (ObjV, Fn, Ext, Meth)):
            return True
        if isinstance(v, P):
            v = Cond('!=', v)
        if isinstance(v, VCond):
            raise Undec('truth of a vector')
        if isinstance(v, Arr):
            raise Undec('truth of an array')
        if isinstance(v, Cond):
            if v.rel == 'bool':
                k = v.p
                if k in self.bools:
                    return self.bools[k]
                d = self.choose()
                self.bools[k] = d
                self.path.append(('bool', v.p, d))
                return d
            s = sign(v.p, self.facts)
            if implies(s, v.rel):
                return True
            if implies(s, FLIP[v.rel]):
                return False
            d = self.choose()
            rel = v.rel if d else FLIP[v.rel]
            self.path.append((rel, v.p, True))
            m = smeet(sign(v.p, self.facts), SIGN_OF[rel])
            learn(v.p, m, self.facts)
            return d
        raise Undec('truth of %r' % type(v).__name__)

    # ------------------------------------------------------------------------------------------------ values
    def val(self, v):
        """The polynomial of a numeric value."""
        if isinstance(v, P):
            return v
        if isinstance(v, bool):
            return ONE if v else ZERO
        if isinstance(v, (DictV, ObjV, ListV)):
            raise Undec('a number was expected')
        if isinstance(v, Arr):
            h = self.heap[v.ref]
            if isinstance(h, Slot):
                return vn.fresh('table', 'v')
            return h
        if isinstance(v, Cond) and not isinstance(v, VCond):
            return ONE if self.truth(v) else ZERO
        raise Undec('a number was expected, not %s' % type(v).__name__)

    def wrap(self, p):
        """A fresh array for a vector, the number itself for a scalar."""
        return self.alloc(p) if p.sort == 'v' else p

    def settle(self, v):
        if isinstance(v, Cond) and not isinstance(v, VCond):
            return self.truth(v)
        if isinstance(v, P) and v.sort == 's' and v.const() is None:
            s = sign(v, self.facts)
            v = name(v) if len(v.t) > 1 else v
            if s is not None and v not in self.facts:
                learn(v, s, self.facts)
        return name(v) if isinstance(v, P) and len(v.t) > 1 else v

    def write(self, ref, p, node):
        h = self.heap[ref]
        if isinstance(h, tuple):
            raise Undec('write')
        if ref in self.inputs and h != p:
            self.events.append(('input', self.where(node), h, p))
        self.heap[ref] = name(p) if p.sort == 'v' else p

    # ------------------------------------------------------------------------------------------------ objective
    def objective(self, p, node):
        p = expand(p)
        self.evaluated()
        self.last = p
        self.events.append(('F', self.where(node), p))
        return var(atom('F', 'F', (p,)))

    def gradient(self, p, fresh_state, node):
        p = expand(p)
        self.evaluated()
        if fresh_state:
            self.last = p
            self.events.append(('GF', self.where(node), p))
        else:
            self.events.append(('G', self.where(node), p, self.last))
        return self.alloc(var(atom('G', 'G', (p,), 'v')))

    # ------------------------------------------------------------------------------------------------ statements
    def call_fn(self, fn, args, kw, node):
        if self.depth > 12:
            raise Undec('call depth')
        n = fn.node
        a = n.args
        env = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        if fn.self is not None:
            args = [fn.self] + list(args)
        kw = dict(kw)
        for k, v in zip(pos, args):
            env[k] = v
        extra = args[len(pos):]
        if a.vararg:
            env[a.vararg.arg] = tuple(extra)
        elif extra:
            raise Crash('too many arguments for %s' % getattr(n, 'name', 'lambda'), self.where(node))
        names = pos + [x.arg for x in a.kwonlyargs]
        for k in list(kw):
            if k in names:
                env[k] = kw.pop(k)
        if a.kwarg:
            env[a.kwarg.arg] = self.alloc(dict(kw), DictV)
        elif kw:
            raise Crash('unexpected argument %s' % sorted(kw), self.where(node))
        self.fnstack.append(fn)
        self.depth += 1
        try:
            dn = a.args[len(a.args) - len(a.defaults):] if a.defaults else []
            for x, d in zip(dn, a.defaults):
                if x.arg not in env:
                    env[x.arg] = self.expr(d, {})
            for x, d in zip(a.kwonlyargs, a.kw_defaults):
                if x.arg not in env and d is not None:
                    env[x.arg] = self.expr(d, {})
            miss = [k for k in names if k not in env]
            if miss:
                raise Crash('missing argument %s' % miss, self.where(node))
            if isinstance(n, ast.Lambda):
                env = dict(fn.env or {}, **env)
                return self.expr(n.body, env)
            if fn.env is not None:
                env['%closure'] = fn.env
            self.visited.add('%s (%s)' % (n.name, os.path.relpath(fn.mod.path, self.prog.root)))
            self.frames.append(env)
            try:
                self.block(n.body, env)
                return None
            except Ret as r:
                return r.v
            finally:
                self.frames.pop()
        finally:
            self.depth -= 1
            self.fnstack.pop()

    def block(self, stmts, env):
        for s in stmts:
            self.stmt(s, env)

    def stmt(self, s, env):
        self.cur = s
        self.steps += 1
        if self.steps > 20000:
            raise Undec('step limit')
        t = type(s)
        if t is ast.Expr:
            if not isinstance(s.value, ast.Constant):
                self.expr(s.value, env)
        elif t is ast.Assign:
            v = self.settle(self.expr(s.value, env))
            for x in s.targets:
                self.assign(x, v, env)
        elif t is ast.AnnAssign:
            if s.value is not None:
                self.assign(s.target, self.settle(self.expr(s.value, env)), env)
        elif t is ast.AugAssign:
            self.augment(s, env)
        elif t is ast.If:
            if quiet(s):
                return
            if self.truth(self.expr(s.test, env), s):
                self.block(s.body, env)
            else:
                self.block(s.orelse, env)
        elif t is ast.Return:
            raise Ret(self.expr(s.value, env) if s.value is not None else None)
        elif t in (ast.For, ast.While):
            self.loop(s, env)
        elif t is ast.Break:
            raise Brk()
        elif t is ast.Continue:
            raise Cont()
        elif t is ast.Pass or t in (ast.Import, ast.ImportFrom, ast.Global):
            pass
        elif t is ast.With:
            for it in s.items:
                v = self.expr(it.context_expr, env)
                if not (isinstance(v, Ext) and v.name.startswith('@ctx')):
                    raise Undec('with statement')
            self.block(s.body, env)
        elif t is ast.Try:
            self.block(s.body, env)
            self.block(s.orelse, env)
            self.block(s.finalbody, env)
        elif t is ast.Assert:
            if not self.truth(self.expr(s.test, env), s):
                raise Crash('assertion fails', self.where(s))
        elif t is ast.Raise:
            raise Crash('raises %s' % ast.unparse(s.exc) if s.exc else 'raise', self.where(s))
        elif t is ast.FunctionDef:
            env[s.name] = Fn(s, None, self.fnstack[-1].mod, env)
        elif t is ast.Delete:
            for x in s.targets:
                if isinstance(x, ast.Name):
                    env.pop(x.id, None)
                else:
                    raise Undec('del')
        else:
            raise Undec('statement %s' % t.__name__)

    def assign(self, x, v, env):
        if isinstance(x, ast.Name):
            env[x.id] = v
        elif isinstance(x, (ast.Tuple, ast.List)):
            vs = self.items(v)
            star = [i for i, e in enumerate(x.elts) if isinstance(e, ast.Starred)]
            if star:
                raise Undec('starred target')
            if len(vs) != len(x.elts):
                raise Crash('unpacking %d values into %d names' % (len(vs), len(x.elts)), self.where(x))
            for e, w in zip(x.elts, vs):
                self.assign(e, self.settle(w), env)
        elif isinstance(x, ast.Attribute):
            o = self.expr(x.value, env)
            if not isinstance(o, ObjV):
                raise Undec('attribute of %s' % type(o).__name__)
            self.heap[o.ref][x.attr] = v
        elif isinstance(x, ast.Subscript):
            o = self.expr(x.value, env)
            if isinstance(o, DictV):
                self.heap[o.ref][self.key(self.expr(x.slice, env))] = v
                return
            if isinstance(o, ListV):
                i = self.expr(x.slice, env)
                c = i.const() if isinstance(i, P) else None
                if c is None:
                    raise Undec('list index')
                self.heap[o.ref][int(c)] = v
                return
            if isinstance(o, Arr):
                h = self.heap[o.ref]
                if isinstance(h, Slot):
                    if not isinstance(x.slice, ast.Slice):
                        self.index(self.val(self.expr(x.slice, env)), h.n, x)
                    return
                if isinstance(x.slice, ast.Slice) and x.slice.lower is x.slice.upper is x.slice.step is None or \
                        isinstance(x.slice, ast.Constant) and x.slice.value is Ellipsis:
                    p = self.val(v)
                    self.write(o.ref, p if p.sort == 'v' else mul(p, vn.fresh('ones', 'v')), x)
                    return
                # part of a vector: its value is not known any more
                self.write(o.ref, vn.fresh('part', 'v'), x)
                return
            raise Undec('item of %s' % type(o).__name__)
        else:
            raise Undec('target %s' % type(x).__name__)

    def index(self, i, n, node):
        c, m = i.const(), n.const()
        if c is not None and m is not None and not -m <= c < m:
            raise Crash('index %s of a table of length %s' % (c, m), self.where(node))

    def key(self, k):
        if isinstance(k, P):
            k = k.const()
        if isinstance(k, (str, Fraction, bool)) or k is None:
            return k
        raise Undec('dictionary key')

    def items(self, v):
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, ListV):
            return list(self.heap[v.ref])
        if isinstance(v, DictV):
            return list(self.heap[v.ref])
        raise Undec('sequence of %s' % type(v).__name__)

    def augment(self, s, env):
        x = s.target
        if isinstance(x, ast.Name):
            cur = self.name(x.id, env, x)
        elif isinstance(x, ast.Attribute):
            o = self.expr(x.value, env)
            cur = self.getattr(o, x.attr, x)
        else:
            o = self.expr(x.value, env)
            if isinstance(o, Arr) and type(o) is Arr and isinstance(self.heap[o.ref], Slot):
                self.expr(s.value, env)
                if not isinstance(x.slice, ast.Slice):
                    self.index(self.val(self.expr(x.slice, env)), self.heap[o.ref].n, x)
                return
            cur = self.item(o, x.slice, env, x)
        v = self.expr(s.value, env)
        if isinstance(cur, Arr) and type(cur) is Arr:
            if isinstance(self.heap[cur.ref], Slot):
                return
            r = self.binop(s.op, cur, v, s)
            self.write(cur.ref, self.val(r), s)
            if not isinstance(x, ast.Name):
                self.assign(x, cur, env)
            return
        if isinstance(cur, ListV):
            self.heap[cur.ref].extend(self.items(v))
            return
        self.assign(x, self.settle(self.binop(s.op, cur, v, s)), env)

    # ------------------------------------------------------------------------------------------------ loops
    def loop(self, s, env):
        it = None
        if isinstance(s, ast.For):
            it = self.expr(s.iter, env)
            if not isinstance(it, RangeV):
                try:
                    vs = self.items(it)
                except Undec:
                    raise Undec('loop over %s' % type(it).__name__)
                return self.unrolled(s, vs, env)
            n = it.hi - it.lo
            if it.step != 1:
                raise Undec('range with a step')
            c = n.const()
            if c is not None and (self.nit is not None or it.hi == it.lo):
                evs = len(self.events)
                vals = [self.rng_val(it, C(int(it.lo.const() if it.lo.const() is not None else 0) + i)) if
                        it.lo.const() is not None else self.rng_val(it, it.lo + C(i)) for i in range(max(0, int(c)))]
                return self.unrolled(s, vals, env, main=self.is_main(s))
            if c is not None and not self.is_main(s):
                return self.unrolled(s, [self.rng_val(it, it.lo + C(i)) for i in range(int(c))], env)
        elif self.nit is not None or not self.is_main(s):
            k = 0
            while self.truth(self.expr(s.test, env), s):
                k += 1
                if self.is_main(s):
                    self.enter()
                if k > 12:
                    raise Stop('long')
                try:
                    self.block(s.body, env)
                except Brk:
                    return
                except Cont:
                    pass
            self.block(s.orelse, env)
            return
        if self.nit is not None and isinstance(s, ast.For):
            # a trip count that no limit fixes: pass by pass, each one under the condition that there is another
            k = 0
            while self.truth(Cond('>', n - C(k)), s):
                self.enter()
                self.assign(s.target, self.rng_val(it, it.lo + C(k)), env)
                k += 1
                if k > 12:
                    raise Stop('long')
                try:
                    self.block(s.body, env)
                except Brk:
                    return
                except Cont:
                    pass
                if self.loop_entries > self.nit:
                    raise Stop('long')
            self.block(s.orelse, env)
            return
        # ---- one abstract iteration
        if self.loop_seen is not None:
            raise Undec('a second loop of unknown length')
        self.loop_seen = s
        if isinstance(s, ast.For):
            self.bound = it.hi - it.lo
        if self.head is None:
            raise Stop('head', self.snapshot())
        self.load(self.head)
        if self.action == 'exit':
            if isinstance(s, ast.While) and self.truth(self.expr(s.test, env), s):
                raise Stop('infeasible')
            self.block(s.orelse, env)
            return
        if isinstance(s, ast.While):
            if not self.truth(self.expr(s.test, env), s):
                raise Stop('infeasible')
        else:
            j = vn.fresh('j')
            self.facts[j - it.lo] = '0+'
            self.facts[it.hi - j - ONE] = '0+'
            if it.lo == ZERO:
                self.facts[j] = '0+'
            self.assign(s.target, self.rng_val(it, j), env)
        try:
            self.block(s.body, env)
        except Brk:
            return
        except Cont:
            pass
        raise Stop('back', self.snapshot())

    def is_main(self, s):
        return self.prog.is_main(s)

    def enter(self):
        """A pass of the main loop begins; it counts once it evaluates something."""
        self.pending = self.pos

    def evaluated(self):
        if self.pending is not None:
            self.iter_marks.append(self.pending)
            self.loop_entries += 1
            self.pending = None

    def rng_val(self, it, i):
        if it.enum is None:
            return i
        return (i + it.enum[0], it.enum[1] if len(it.enum) > 1 else i)

    def unrolled(self, s, vs, env, main=False):
        for v in vs:
            if main:
                self.enter()
            self.assign(s.target, v, env)
            try:
                self.block(s.body, env)
            except Brk:
                return
            except Cont:
                pass
        self.block(s.orelse, env)

    # ------------------------------------------------------------------------------------------------ expressions
    def name(self, k, env, node):
        e = env
        while e is not None:
            if k in e:
                return e[k]
            e = e.get('%closure')
        mod = self.fnstack[-1].mod
        if k in mod.names:
            return self.prog.resolve(mod, k, self)
        if k in BUILTIN:
            return Ext('builtins.' + k)
        raise Crash('name %s is not defined' % k, self.where(node))

    def expr(self, n, env):
        t = type(n)
        if t is ast.Name:
            return self.name(n.id, env, n)
        if t is ast.Constant:
            v = n.value
            if isinstance(v, bool) or v is None or isinstance(v, str):
                return v
            if isinstance(v, (int, float)):
                return C(v)
            return Ext('@const')
        if t is ast.Attribute:
            return self.getattr(self.expr(n.value, env), n.attr, n)
        if t is ast.BinOp:
            return self.binop(n.op, self.expr(n.left, env), self.expr(n.right, env), n)
        if t is ast.UnaryOp:
            v = self.expr(n.operand, env)
            if isinstance(n.op, ast.Not):
                if isinstance(v, Cond) and v.rel != 'bool' and not isinstance(v, VCond):
                    return Cond(FLIP[v.rel], v.p)
                return not self.truth(v, n)
            p = self.val(v)
            return self.wrap(-p) if isinstance(n.op, ast.USub) else self.wrap(p) if isinstance(n.op, ast.UAdd) else \
                self._un()
        if t is ast.BoolOp:
            v = None
            for k, x in enumerate(n.values):
                v = self.expr(x, env)
                if k == len(n.values) - 1:
                    return v
                if self.truth(v, n) != isinstance(n.op, ast.And):
                    return v if not isinstance(v, Cond) else not isinstance(n.op, ast.And)
            return v
        if t is ast.Compare:
            left = self.expr(n.left, env)
            res = None
            for op, r in zip(n.ops, n.comparators):
                right = self.expr(r, env)
                c = self.compare(op, left, right, n)
                left = right
                if len(n.ops) == 1:
                    return c
                if not self.truth(c, n):
                    return False
                res = c
            return True if res is not None else res
        if t is ast.IfExp:
            return self.expr(n.body if self.truth(self.expr(n.test, env), n) else n.orelse, env)
        if t is ast.Call:
            return self.call(n, env)
        if t is ast.Tuple:
            out = []
            for e in n.elts:
                if isinstance(e, ast.Starred):
                    out += self.items(self.expr(e.value, env))
                else:
                    out.append(self.settle(self.expr(e, env)))
            return tuple(out)
        if t is ast.List:
            return self.alloc([self.settle(self.expr(e, env)) for e in n.elts], ListV)
        if t is ast.Dict:
            return self.alloc({self.key(self.expr(k, env)): self.settle(self.expr(v, env))
                               for k, v in zip(n.keys, n.values)}, DictV)
        if t is ast.Subscript:
            return self.item(self.expr(n.value, env), n.slice, env, n)
        if t is ast.JoinedStr:
            return 'text'
        if t is ast.Lambda:
            return Fn(n, None, self.fnstack[-1].mod, env)
        if t is ast.NamedExpr:
            v = self.settle(self.expr(n.value, env))
            self.assign(n.target, v, env)
            return v
        raise Undec('expression %s' % t.__name__)

    def _un(self):
        raise Undec('operator ~')

    def item(self, o, sl, env, node):
        if isinstance(o, tuple) or isinstance(o, ListV):
            vs = self.items(o)
            if isinstance(sl, ast.Slice):
                lo = self.expr(sl.lower, env).const() if sl.lower is not None else None
                hi = self.expr(sl.upper, env).const() if sl.upper is not None else None
                return tuple(vs[None if lo is None else int(lo):None if hi is None else int(hi)])
            i = self.val(self.expr(sl, env)).const()
            if i is None:
                raise Undec('index')
            if not -len(vs) <= i < len(vs):
                raise Crash('index %s of %d items' % (i, len(vs)), self.where(node))
            return vs[int(i)]
        if isinstance(o, DictV):
            k = self.key(self.expr(sl, env))
            h = self.heap[o.ref]
            if k not in h:
                raise Crash('key %s' % k, self.where(node))
            return h[k]
        if isinstance(o, Arr):
            h = self.heap[o.ref]
            if isinstance(h, Slot):
                return vn.fresh('entry')
            if isinstance(sl, ast.Slice) and sl.lower is sl.upper is sl.step is None:
                return o
            if isinstance(sl, ast.Constant) and isinstance(sl.value, int) or isinstance(sl, ast.UnaryOp):
                return var(atom('fn', 'el:' + ast.unparse(sl), (h,)))
        if isinstance(o, P) and isinstance(sl, ast.Tuple) and not sl.elts:
            return o
        raise Undec('item of %s' % type(o).__name__)

    def compare(self, op, a, b, node):
        t = type(op)
        if t in (ast.Is, ast.IsNot):
            if isinstance(a, Cond):
                a = self.truth(a)
            if isinstance(b, Cond):
                b = self.truth(b)
            if a is None or b is None or isinstance(a, bool) and isinstance(b, bool):
                r = a is b
            elif isinstance(a, Arr) and isinstance(b, Arr):
                r = a.ref == b.ref
            else:
                r = a is b
            return r if t is ast.Is else not r
        if t in (ast.In, ast.NotIn):
            r = self.key(a) in [self.key(x) for x in self.items(b)]
            return r if t is ast.In else not r
        if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
            r = a == b if type(a) is type(b) else False
            return r if t is ast.Eq else not r
        p = self.val(a) - self.val(b)
        rel = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!='}[t]
        if p.sort == 'v':
            return VCond(rel, p)
        return Cond(rel, p)

    def binop(self, op, a, b, node):
        t = type(op)
        if isinstance(a, str) or isinstance(b, str):
            return 'text'
        if isinstance(a, (tuple, ListV)) and isinstance(b, (tuple, ListV)) and t is ast.Add:
            return tuple(self.items(a) + self.items(b))
        if t in (ast.BitAnd, ast.BitOr):
            x = self.truth(a)
            y = self.truth(b)
            return (x and y) if t is ast.BitAnd else (x or y)
        p, q = self.val(a), self.val(b)
        if t is ast.Add:
            r = self.sum2(p, q)
        elif t is ast.Sub:
            r = self.sum2(p, -q)
        elif t is ast.Mult:
            r = mul(p, q)
        elif t is ast.Div:
            if q.const() == 0:
                raise Crash('division by zero', self.where(node))
            r = mul(p, inv(q)) if len(p.t) < 2 or q.const() is not None or p.sort == 'v' else mul(name(p), inv(q))
        elif t is ast.Pow:
            c = q.const()
            r = power(p, c) if c is not None else var(atom('fn', 'pow', (p, q), p.sort))
        elif t is ast.MatMult:
            r = dot(p, q)
        elif t is ast.Mod:
            c, d = p.const(), q.const()
            r = C(c % d) if c is not None and d else var(atom('fn', 'mod', (p, q)))
        elif t is ast.FloorDiv:
            c, d = p.const(), q.const()
            r = C(c // d) if c is not None and d else var(atom('fn', 'floor', (mul(p, inv(q)),)))
        else:
            raise Undec('operator %s' % t.__name__)
        return self.wrap(r)

    def sum2(self, p, q):
        if p.sort != q.sort and p.const() != 0 and q.const() != 0 and len(p.t) and len(q.t):
            # a scalar added to every element
            p, q = (p, q) if p.sort == 'v' else (q, p)
            return p + mul(q, var(atom('in', 'ones', (), 'v')))
        return p + q

    def getattr(self, o, k, node):
        if isinstance(o, ObjV):
            h = self.heap[o.ref]
            if k in h:
                return h[k]
            m = self.prog.method(k)
            if m is not None:
                deco = [ast.unparse(d) for d in m.decorator_list]
                if 'staticmethod' in deco:
                    return Fn(m, None, self.prog.mod)
                if 'classmethod' in deco:
                    return Fn(m, Ext('@class'), self.prog.mod)
                if 'property' in deco:
                    return self.call_fn(Fn(m, o, self.prog.mod), [], {}, node)
                return Fn(m, o, self.prog.mod)
            c = self.prog.classvar(k)
            if c is not None:
                return self.settle(self.expr(c, {}))
            if k in ('__class__', '__name__', '__dict__'):
                return Ext('@class')
            raise Crash('no attribute %s' % k, self.where(node))
        if isinstance(o, Ext):
            if o.name == '@class':
                if k in ('__name__', '__qualname__'):
                    return 'text'
                m = self.prog.method(k)
                if m is not None:
                    return Fn(m, None if 'classmethod' not in [ast.unparse(d) for d in m.decorator_list] else o,
                              self.prog.mod)
                c = self.prog.classvar(k)
                if c is not None:
                    return self.settle(self.expr(c, {}))
                raise Undec('class attribute %s' % k)
            if o.name == '@finfo':
                if k == 'eps':
                    return var(atom('in', 'eps'))
                return var(atom('in', 'tiny'))
            full = o.name + '.' + k
            if full in ('numpy.inf', 'math.inf'):
                return C(float('inf'))
            if full in ('numpy.nan', 'math.nan'):
                return C(float('nan'))
            if full in ('numpy.pi', 'math.pi'):
                return C(3.141592653589793)
            if full == 'sys.float_info':
                return Ext('@finfo')
            return Ext(full)
        if isinstance(o, DictV) or isinstance(o, ListV) or isinstance(o, str):
            return Meth(o, k)
        if isinstance(o, (P, Arr)):
            if k == 'T':
                return o
            if k == 'size':
                return self.dim(o)
            if k == 'shape':
                return (self.dim(o),) if self.val(o).sort == 'v' else ()
            if k == 'ndim':
                return C(1 if self.val(o).sort == 'v' else 0)
            if k == 'dtype':
                return Ext('@dtype')
            if k == 'real':
                return o
            return Meth(o, k)
        raise Undec('attribute %s of %s' % (k, type(o).__name__))

    def dim(self, o):
        if type(o) is Arr and isinstance(self.heap[o.ref], Slot):
            return self.heap[o.ref].n
        return var(atom('in', 'dim')) if self.val(o).sort == 'v' else ONE

    # ------------------------------------------------------------------------------------------------ calls
    def call(self, n, env):
        f = self.expr(n.func, env)
        args, kw = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                args += self.items(self.expr(a.value, env))
            else:
                args.append(self.expr(a, env))
        for k in n.keywords:
            v = self.expr(k.value, env)
            if k.arg is None:
                kw.update(self.heap[v.ref])
            else:
                kw[k.arg] = v
        return self.apply(f, args, kw, n)

    def apply(self, f, args, kw, n):
        if isinstance(f, Fn):
            return self.call_fn(f, args, kw, n)
        if isinstance(f, Ext):
            if f.name == '@F':
                return self.objective(self.val(args[0]), n)
            if f.name == '@G':
                e = kw.get('eval_fun', args[1] if len(args) > 1 else False)
                return self.gradient(self.val(args[0]), self.truth(e, n), n)
            return self.ext(f.name, args, kw, n)
        if isinstance(f, Meth):
            return self.method(f.obj, f.name, args, kw, n)
        raise Undec('call of %s' % type(f).__name__)

    def method(self, o, k, args, kw, n):
        if isinstance(o, DictV):
            h = self.heap[o.ref]
            if k == 'get':
                kk = self.key(args[0])
                return h.get(kk, args[1] if len(args) > 1 else None)
            if k == 'update':
                if args:
                    h.update(self.heap[args[0].ref])
                h.update({a: self.settle(b) for a, b in kw.items()})
                return None
            if k == 'setdefault':
                return h.setdefault(self.key(args[0]), args[1] if len(args) > 1 else None)
            if k == 'keys':
                return tuple(h)
            if k == 'values':
                return tuple(h.values())
            if k == 'items':
                return tuple((a, b) for a, b in h.items())
            if k == 'copy':
                return self.alloc(dict(h), DictV)
            if k == 'pop':
                kk = self.key(args[0])
                if kk in h:
                    return h.pop(kk)
                if len(args) > 1:
                    return args[1]
                raise Crash('key %s' % kk, self.where(n))
            raise Undec('dict.%s' % k)
        if isinstance(o, ListV):
            if k == 'append':
                self.heap[o.ref].append(self.settle(args[0]))
                return None
            raise Undec('list.%s' % k)
        if isinstance(o, str):
            return 'text'
        if k in ('copy', 'flatten', 'astype'):
            return self.copy(o)
        if k in ('ravel', 'reshape', 'squeeze', 'view', 'transpose'):
            return o
        if k in ('item', '__float__'):
            return self.val(o)
        if k == 'fill':
            self.write(o.ref, mul(self.val(args[0]), var(atom('in', 'ones', (), 'v'))), n)
            return None
        if k in ('dot', 'sum', 'max', 'min', 'any', 'all', 'mean'):
            return self.ext('numpy.' + k, [o] + list(args), kw, n)
        raise Undec('method %s' % k)

    def copy(self, o):
        if type(o) is Arr and isinstance(self.heap[o.ref], Slot):
            return self.alloc(Slot(self.heap[o.ref].n))
        p = self.val(o)
        return self.wrap(p)

    def fnv(self, nm, ps, sort='s'):
        return var(atom('fn', nm, tuple(ps), sort))

    def vabs(self, p):
        if p.sort == 's':
            s = sign(p, self.facts)
            if implies(s, '>='):
                return p
            if implies(s, '<='):
                return -p
        p = name(p)
        c = p.const()
        if c is not None:
            return C(abs(c))
        (k, c), = p.t.items()
        out = C(abs(c))
        for a, e in k:
            b = var(a, e)
            out = mul(out, b if a.sort == 's' and implies(sign(b, self.facts), '>=') or
                      e.denominator == 1 and e % 2 == 0 else
                      var(atom('fn', 'abs', (var(a),), a.sort), e))
        return out

    def amax(self, p):
        """Largest element; scalar factors of known sign come out."""
        if p.sort == 's':
            return p
        if len(p.t) == 1:
            (k, c), = p.t.items()
            sc = tuple(x for x in k if x[0].sort == 's')
            ve = tuple(x for x in k if x[0].sort == 'v')
            f = P({sc: c})
            if implies(sign(f, self.facts), '>='):
                return mul(f, self.fnv('amax', [P({ve: 1})]))
        return self.fnv('amax', [name(p)])

    def ext(self, nm, args, kw, n):
        base = nm.split('.')[-1]
        root = nm.split('.')[0]
        if 'out' in kw:
            o = kw.pop('out')
            r = self.ext(nm, args, kw, n)
            self.write(o.ref, self.val(r), n)
            return o
        if root == 'builtins' and base == 'print':
            return None
        if base in ('print', 'warn', 'info', 'debug', 'warning') and root in ('logging', 'warnings', 'builtins'):
            return None
        if root == 'time':
            return vn.fresh('clock')
        if base in ('errstate', 'catch_warnings'):
            return Ext('@ctx')
        if base in ('simplefilter', 'filterwarnings', 'seterr'):
            return None
        if root == 'builtins':
            if base == 'range':
                ps = [self.val(a) for a in args]
                if len(ps) == 1:
                    return RangeV(ZERO, ps[0])
                st = ps[2].const() if len(ps) > 2 else 1
                return RangeV(ps[0], ps[1], st)
            if base == 'enumerate':
                s = self.val(args[1]) if len(args) > 1 else self.val(kw['start']) if 'start' in kw else ZERO
                if isinstance(args[0], RangeV):
                    r = args[0]
                    return RangeV(ZERO, r.hi - r.lo, r.step, (s,))
                return tuple((s + C(i), v) for i, v in enumerate(self.items(args[0])))
            if base in ('float', 'int'):
                if isinstance(args[0], str):
                    return C(float(args[0]))
                return self.val(args[0])
            if base == 'bool':
                return self.truth(args[0], n)
            if base == 'len':
                o = args[0]
                if isinstance(o, (tuple, ListV, DictV)):
                    return C(len(self.items(o)))
                if isinstance(o, str):
                    return C(len(o))
                return self.dim(o)
            if base in ('str', 'repr', 'format', 'type', 'id'):
                return 'text'
            if base in ('isinstance', 'callable', 'hasattr'):
                return Cond('bool', 'isinstance %d' % getattr(n, 'lineno', 0)) if base != 'callable' else True
            if base in ('tuple', 'list'):
                return tuple(self.items(args[0])) if args else ()
            if base == 'dict':
                d = dict(self.heap[args[0].ref]) if args else {}
                d.update(kw)
                return self.alloc(d, DictV)
            if base in ('any', 'all'):
                vs = [self.truth(v) for v in self.items(args[0])]
                return any(vs) if base == 'any' else all(vs)
            if base == 'round':
                return self.val(args[0])
            if base in ('max', 'min') and len(args) > 1:
                r = self.val(args[0])
                for a in args[1:]:
                    r = self.maxmin(base, r, self.val(a))
                return r
            if base == 'sum' and type(args[0]) is not Arr:
                r = ZERO
                for v in self.items(args[0]):
                    r = r + self.val(v)
                return r
        if base in ('copy', 'deepcopy', 'array', 'flatten') and root in ('numpy', 'copy'):
            return self.copy(args[0])
        if base in ('asarray', 'atleast_1d', 'ravel', 'ascontiguousarray', 'asfarray', 'squeeze', 'reshape', 'float64',
                    'transpose', 'asanyarray', 'array_like'):
            return args[0]
        if base in ('zeros', 'ones', 'empty', 'full'):
            s = args[0]
            s = s[0] if isinstance(s, tuple) else s
            p = self.val(s)
            if p == var(atom('in', 'dim')):
                c = ZERO if base == 'zeros' else ONE if base == 'ones' else self.val(args[1]) if base == 'full' else \
                    None
                return self.alloc(mul(c, var(atom('in', 'ones', (), 'v'))) if c is not None and c.t else
                                  var(atom('in', 'zero vector', (), 'v')) if c is not None else vn.fresh('empty', 'v'))
            return self.alloc(Slot(p))
        if base in ('zeros_like', 'ones_like', 'empty_like', 'full_like'):
            return self.alloc(vn.fresh(base, 'v'))
        if base == 'finfo':
            return Ext('@finfo')
        if base in ('nextafter', 'spacing'):
            return vn.fresh('tiny')
        if base in ('dot', 'inner', 'vdot', 'matmul'):
            return self.wrap(dot(self.val(args[0]), self.val(args[1])))
        if base in ('add', 'subtract', 'multiply', 'divide', 'true_divide', 'mod', 'remainder', 'power', 'fmod'):
            op = {'add': ast.Add, 'subtract': ast.Sub, 'multiply': ast.Mult, 'divide': ast.Div,
                  'true_divide': ast.Div, 'mod': ast.Mod, 'remainder': ast.Mod, 'power': ast.Pow, 'fmod': ast.Mod}[base]
            return self.binop(op(), args[0], args[1], n)
        if base == 'negative':
            return self.wrap(-self.val(args[0]))
        if base == 'square':
            return self.wrap(power(self.val(args[0]), 2))
        if base == 'sqrt':
            return self.wrap(power(self.val(args[0]), Fraction(1, 2)))
        if base in ('abs', 'absolute', 'fabs'):
            return self.wrap(self.vabs(self.val(args[0])))
        if base == 'sign':
            p = self.val(args[0])
            s = sign(p, self.facts)
            if s in ('+', '-', '0'):
                return C({'+': 1, '-': -1, '0': 0}[s])
            return self.fnv('sign', [p])
        if base == 'sum':
            p = self.val(args[0])
            return total(p) if p.sort == 'v' else p
        if base == 'mean':
            p = self.val(args[0])
            return mul(total(p), inv(var(atom('in', 'dim')))) if p.sort == 'v' else p
        if base == 'norm':
            p = self.val(args[0])
            if p.sort == 's':
                return self.vabs(p)
            if len(args) > 1 or 'ord' in kw:
                o = args[1] if len(args) > 1 else kw['ord']
                c = o.const() if isinstance(o, P) else None
                if isinstance(o, P) and o == C(float('inf')):
                    return self.amax(self.vabs(p))
                if c == 1:
                    return total(self.vabs(p))
                if c != 2:
                    raise Undec('norm')
            return power(dot(p, p), Fraction(1, 2))
        if base in ('max', 'amax', 'nanmax'):
            return self.amax(self.val(args[0]))
        if base in ('min', 'amin'):
            return -self.amax(-self.val(args[0]))
        if base in ('maximum', 'minimum', 'fmax', 'fmin'):
            p, q = self.val(args[0]), self.val(args[1])
            if 'v' in (p.sort, q.sort):
                return self.wrap(self.fnv('max' if 'max' in base else 'min', [p, q], 'v'))
            return self.maxmin('max' if 'max' in base else 'min', p, q)
        if base == 'clip':
            r = self.val(args[0])
            lo, hi = args[1], args[2]
            if lo is not None:
                r = self.maxmin('max', r, self.val(lo))
            if hi is not None:
                r = self.maxmin('min', r, self.val(hi))
            return r
        if base in ('isclose', 'allclose'):
            p = self.val(args[0]) - self.val(args[1])
            if p.sort == 'v':
                p = self.amax(self.vabs(p))
            else:
                p = self.vabs(p)
            return Cond('<=', p - var(atom('in', 'tol')))
        if base in ('array_equal', 'array_equiv'):
            p = expand(self.val(args[0]) - self.val(args[1]))
            if p.const() == 0:
                return True
            return Cond('==', dot(p, p))
        if base in ('isnan', 'isinf'):
            self.val(args[0])
            return False
        if base == 'isfinite':
            self.val(args[0])
            return True
        if base in ('any', 'all'):
            c = args[0]
            if isinstance(c, bool):
                return c
            if isinstance(c, VCond):
                return self.anyall(base, c)
            if isinstance(c, Cond):
                return c
            p = self.val(c)
            if p.sort == 's':
                return Cond('!=', p)
            return self.anyall(base, VCond('!=', p))
        if base in ('less', 'less_equal', 'greater', 'greater_equal', 'equal', 'not_equal'):
            op = {'less': ast.Lt, 'less_equal': ast.LtE, 'greater': ast.Gt, 'greater_equal': ast.GtE, 'equal': ast.Eq,
                  'not_equal': ast.NotEq}[base]
            return self.compare(op(), args[0], args[1], n)
        if base == 'logical_and':
            return self.truth(args[0]) and self.truth(args[1])
        if base == 'logical_or':
            return self.truth(args[0]) or self.truth(args[1])
        if base == 'logical_not':
            return not self.truth(args[0])
        if base == 'where':
            if isinstance(args[0], VCond):
                raise Undec('where')
            return args[1] if self.truth(args[0]) else args[2]
        if base == 'copyto':
            self.write(args[0].ref, self.val(args[1]), n)
            return None
        if base == 'size':
            return self.dim(args[0])
        if base == 'ndim':
            return C(1 if self.val(args[0]).sort == 'v' else 0)
        raise Undec('function %s' % nm)

    def anyall(self, base, c):
        p = c.p
        if base == 'any':
            if c.rel in ('>', '>='):
                return Cond(c.rel, self.amax(p))
            if c.rel in ('<', '<='):
                return Cond('>' if c.rel == '<' else '>=', self.amax(-p))
            if c.rel == '!=':
                return Cond('>', dot(name(p), name(p)))
        else:
            if c.rel in ('<', '<='):
                return Cond(c.rel, self.amax(p))
            if c.rel in ('>', '>='):
                return Cond('<' if c.rel == '>' else '<=', self.amax(-p))
            if c.rel == '==':
                return Cond('<=', dot(name(p), name(p)))
        raise Undec('any/all')

    def maxmin(self, nm, p, q):
        s = sign(p - q, self.facts)
        if implies(s, '>='):
            return p if nm == 'max' else q
        if implies(s, '<='):
            return q if nm == 'max' else p
        p, q = name(p), name(q)
        return self.fnv(nm, sorted([p, q], key=str))


BUILTIN = {'range', 'enumerate', 'float', 'int', 'bool', 'len', 'str', 'repr', 'format', 'type', 'id', 'isinstance',
           'callable', 'hasattr', 'tuple', 'list', 'dict', 'any', 'all', 'round', 'max', 'min', 'sum', 'print', 'abs',
           'ValueError', 'RuntimeError', 'StopIteration', 'Exception', 'TypeError', 'zip'}


class Snap(object):
    def __init__(self, frames, heap, facts, last, bools):
        self.frames, self.heap, self.facts, self.last, self.bools = frames, heap, facts, last, bools

    def key(self, flags):
        """Partition: shape of the state and the values of its flags."""
        def tag(v, top, nm=None):
            if isinstance(v, P):
                c = v.const()
                return ('n', v.sort, c if top and nm in flags and c is not None else None)
            if isinstance(v, bool) or v is None:
                return ('c', v)
            if isinstance(v, Arr):
                return (type(v).__name__, v.ref)
            if isinstance(v, tuple):
                return ('t',) + tuple(tag(x, False) for x in v)
            if isinstance(v, Slot):
                return ('slot',)
            return (type(v).__name__, getattr(v, 'name', None) if isinstance(v, Ext) else None)
        out = []
        for f in self.frames:
            out.append(tuple((k, tag(v, True, k)) for k, v in sorted(f.items()) if k != '%closure'))
        for r, h in sorted(self.heap.items()):
            if isinstance(h, dict):
                out.append((r, tuple((k, tag(v, True, k)) for k, v in sorted(h.items(), key=str))))
            elif isinstance(h, list):
                out.append((r, len(h), tuple(tag(v, False) for v in h)))
            else:
                out.append((r, tag(h, False)))
        out.append(self.last is None)
        return tuple(out)

    def walk(self, o, f):
        """The state with every pair of polynomials combined by f."""
        def go(a, b):
            if isinstance(a, P):
                return f(a, b)
            if isinstance(a, tuple):
                return tuple(go(x, y) for x, y in zip(a, b))
            if isinstance(a, Slot):
                return Slot(f(a.n, b.n))
            return a
        frames = [{k: go(a[k], b[k]) if k != '%closure' else a[k] for k in a} for a, b in zip(self.frames, o.frames)]
        heap = {}
        for r, h in self.heap.items():
            g = o.heap[r]
            if isinstance(h, dict):
                heap[r] = {k: go(h[k], g[k]) for k in h}
            elif isinstance(h, list):
                heap[r] = [go(x, y) for x, y in zip(h, g)]
            else:
                heap[r] = go(h, g)
        last = self.last if self.last is None else f(self.last, o.last)
        return frames, heap, last

    def join(self, o):
        """(joined state, whether it differs from self)"""
        J = Join(self.facts, o.facts)
        frames, heap, last = self.walk(o, J.term)
        facts = J.facts()
        # unchanged if every new symbol stands for a symbol of self, one to one
        ren = {}
        changed = False
        seen = set()
        for f, (a, b) in J.new.items():
            k = None
            if len(a.t) == 1:
                (m, c), = a.t.items()
                if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'phi':
                    k = m[0][0]
            if k is None or k in seen:
                changed = True
                break
            seen.add(k)
            ren[f] = a
        if not changed:
            # a symbol of self that survived elsewhere unpaired would be a lost correlation
            if any(a in seen for t in _terms(frames, heap, last) for a in _atoms(t) if a.kind == 'phi' and a in seen):
                changed = True
        bools = {k: v for k, v in self.bools.items() if o.bools.get(k) is v}
        s = Snap(frames, heap, facts, last, bools)
        if not changed:
            # same shape: compare the facts after renaming
            fa = Facts()
            for p, x in facts.items():
                fa[ren.get(p, p)] = x
            weaker = any(fa.get(p) != x for p, x in self.facts.items())
            if not weaker and bools == self.bools:
                return self, False
            return Snap(self.frames, self.heap, fa, self.last, bools), True
        return s, True


def _atoms(p, seen=None):
    seen = set() if seen is None else seen
    for k in p.t:
        for a, e in k:
            if a in seen:
                continue
            seen.add(a)
            if a.defn is not None:
                _atoms(a.defn, seen)
            for q in a.args:
                if isinstance(q, P):
                    _atoms(q, seen)
    return seen


def _terms(frames, heap, last):
    out = []

    def go(v):
        if isinstance(v, P):
            out.append(v)
        elif isinstance(v, tuple):
            for x in v:
                go(x)
    for f in frames:
        for v in f.values():
            go(v)
    for h in heap.values():
        if isinstance(h, dict):
            for v in h.values():
                go(v)
        elif isinstance(h, list):
            for v in h:
                go(v)
        else:
            go(h)
    if last is not None:
        out.append(last)
    return out


def quiet(s):
    """A branch that only prints."""
    def ok(b):
        return all(isinstance(x, ast.Pass) or isinstance(x, ast.Expr) and (
            isinstance(x.value, ast.Constant) or isinstance(x.value, ast.Call) and isinstance(
                x.value.func, ast.Name) and x.value.func.id == 'print') or
            isinstance(x, ast.If) and quiet(x) for x in b)
    for n in ast.walk(s.test):
        if isinstance(n, ast.NamedExpr) or isinstance(n, ast.Call) and not (
                isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == 'np'):
            return False
    return ok(s.body) and ok(s.orelse)


class Program(object):
    """The class under analysis and the modules it uses."""

    def __init__(self, root, path, cls):
        self.root = root
        self.mods = {}
        self.mod = self.module(os.path.join(root, path))
        self.cls = self.mod.names.get(cls)
        if not isinstance(self.cls, ast.ClassDef):
            raise Undec('class %s not found in %s' % (cls, path))
        self.methods = {n.name: n for n in self.cls.body if isinstance(n, ast.FunctionDef)}
        self.vars = {n.targets[0].id: n.value for n in self.cls.body
                     if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name)}
        self._main = {}

    def module(self, path):
        if path not in self.mods:
            self.mods[path] = Module(path)
        return self.mods[path]

    def method(self, k):
        return self.methods.get(k)

    def classvar(self, k):
        return self.vars.get(k)

    def resolve(self, mod, k, run):
        v = mod.names[k]
        if isinstance(v, Ext):
            return v
        if isinstance(v, ast.FunctionDef):
            return Fn(v, None, mod)
        if isinstance(v, ast.ClassDef):
            return Ext('@class') if v is self.cls else Ext('class ' + v.name)
        if v[0] == 'const':
            return run.settle(run.expr(v[1], {}))
        p = os.path.join(self.root, v[1].replace('.', '/') + '.py')
        if os.path.isfile(p):
            m = self.module(p)
            if v[2] in m.names:
                return self.resolve(m, v[2], run)
            raise Crash('cannot import %s' % v[2], p)
        return Ext(v[1] + '.' + v[2])

    def is_main(self, s):
        """Loops that (possibly through helpers) evaluate the objective."""
        if s not in self._main:
            self._main[s] = any(isinstance(n, ast.Call) for b in s.body for n in ast.walk(b)
                                if isinstance(n, ast.Call) and self._evaluates(n, 0, set()))
        return self._main[s]

    def _evaluates(self, call, depth, seen):
        f = call.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == 'self':
            if f.attr in self.methods:
                m = self.methods[f.attr]
                if m in seen or depth > 4:
                    return False
                seen.add(m)
                return any(self._evaluates(n, depth + 1, seen) for n in ast.walk(m) if isinstance(n, ast.Call))
            return True
        if isinstance(f, ast.Name):
            # a local alias of the objective, or a local function
            v = self.mod.names.get(f.id)
            return not (f.id in BUILTIN or isinstance(v, (Ext, tuple)) or isinstance(v, ast.FunctionDef))
        return False

    def flags(self):
        """Names that are tested against constants, or tested bare."""
        out = set()
        for m in list(self.methods.values()) + [n for n in self.mod.tree.body if isinstance(n, ast.FunctionDef)]:
            for n in ast.walk(m):
                if isinstance(n, ast.Compare):
                    xs = [n.left] + n.comparators
                    if any(isinstance(x, ast.Constant) or isinstance(x, ast.UnaryOp) and isinstance(
                            x.operand, ast.Constant) for x in xs) and all(
                                isinstance(o, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)) for o in n.ops):
                        out |= {x.id if isinstance(x, ast.Name) else x.attr for x in xs
                                if isinstance(x, (ast.Name, ast.Attribute))}
                for t in ([n.test] if isinstance(n, (ast.If, ast.While, ast.IfExp)) else
                          n.values if isinstance(n, ast.BoolOp) else
                          [n.operand] if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not) else []):
                    if isinstance(t, ast.UnaryOp):
                        t = t.operand
                    if isinstance(t, ast.Name):
                        out.add(t.id)
                    elif isinstance(t, ast.Attribute):
                        out.add(t.attr)
        return out

    # ------------------------------------------------------------------------------------------------ one run
    def run(self, decisions, nit=None, head=None, action=None, display=None, options=None, method='__call__'):
        """Construct the optimiser and call it; returns the run with its outcome."""
        r = Run(self, decisions, nit, head, action)
        r.fnstack = []
        r.inputs = set()
        r.outcome = None
        try:
            o = r.alloc({}, ObjV)
            opt = r.alloc({'max_it': C(nit) if nit is not None else var(atom('in', 'nit')),
                           'x_tol': var(atom('in', 'x_tol')), 'f_tol': var(atom('in', 'f_tol')),
                           'display': Cond('bool', 'display') if display is None else display}, DictV)
            fn = self.method('__init__')
            dummy = Fn(fn, o, self.mod)
            r.fnstack.append(dummy)
            r.call_fn(dummy, [Ext('@F'), Ext('@G'), opt], {}, fn)
            x0 = r.alloc(var(atom('in', 'x0', (), 'v')))
            r.inputs.add(x0.ref)
            keep = {'%x0': x0, '%self': o}
            r.frames.append(keep)
            m = self.method(method)
            v = r.call_fn(Fn(m, o, self.mod), [x0], {}, m)
            r.outcome = ('return', v)
            r.final = {k: keep[k] for k in keep}
        except Stop as s:
            r.outcome = (s.kind, s.data)
        except Crash as c:
            r.outcome = ('crash', (c.what, c.where))
        return r


def paths(run, limit=4000):
    """All runs over the branch outcomes: run(decisions) -> Run."""
    stack = [[]]
    n = 0
    while stack:
        d = stack.pop()
        n += 1
        if n > limit:
            raise Undec('more than %d paths' % limit)
        r = run(d)
        yield r
        for i in range(len(r.dec) - 1, len(d) - 1, -1):
            if r.dec[i] is True:
                stack.append(r.dec[:i] + [False])
