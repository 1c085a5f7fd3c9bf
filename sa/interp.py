"""Abstract interpreter over the Python syntax tree.

Branches are joined, loops are summarised once, calls are resolved within the analysed tree; library calls go through
the transfer functions of npmodel.  The analysed program is only ever parsed.
"""
import ast
import builtins
import os
from .alg import *
from .alg import _lin
from .values import *

MAX_DEPTH = 60
UNROLL = 40
SIMPLE = (ast.Name, ast.Constant, ast.Compare, ast.BoolOp, ast.UnaryOp, ast.cmpop, ast.boolop, ast.unaryop, ast.expr_context)

BUILTIN_EXC = {n for n in dir(builtins) if isinstance(getattr(builtins, n), type)
               and issubclass(getattr(builtins, n), BaseException)}


def exc_matches(name, pattern):
    """Whether exception class `name` is caught by `except pattern`."""
    if name == pattern:
        return True
    base = {'LinAlgError': 'ValueError', 'JSONDecodeError': 'ValueError'}
    n = name.split('.')[-1]
    p = pattern.split('.')[-1]
    if n == p:
        return True
    if n in base:
        n = base[n]
    a, b = getattr(builtins, n, None), getattr(builtins, p, None)
    if isinstance(a, type) and isinstance(b, type):
        return issubclass(a, b)
    if b in (Exception, BaseException) and a is None:
        return True
    return False


class State(object):
    def __init__(self):
        self.heap = {}
        self.pc = ONE
        self.events = []
        self.facts = []

    def copy(self):
        s = State()
        s.heap = {k: v.copy() for k, v in self.heap.items()}
        s.pc = self.pc
        s.events = list(self.events)
        s.facts = list(self.facts)
        return s


class Flow(object):
    def __init__(self):
        self.rets, self.brks, self.conts, self.raises = [], [], [], []


class Module(object):
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.frame = None
        self.done = False


def leaves_early(body):
    return any(isinstance(n, ast.Break) for b in body for n in ast.walk(b))


class Interp(object):
    def __init__(self, root, extra=None):
        self.assume = {}         # conditions whose truth value is fixed in this run
        self.taken = {}
        self.conds = []          # conditions that were met
        self.cond_e = {}
        self.joins = 0           # values that could not be joined
        self.root = root
        self.mods = {}
        self.st = State()
        self.next_oid = 1
        self.frames = []            # stack of (frame oid, module name, FuncV)
        self.sinks = [[]]
        self.extra = dict(extra or {})      # module name -> source text (reference snippets)
        self.overrides = {}         # qualified function/class name -> PyFn
        self.DEFS = {}              # recurrence arrays
        self.calls = []             # log of resolved calls (qual, lineno)
        self.visited = set()        # functions analysed
        self.notes = []             # undecided constructs
        self.reads_opq = []
        self.key_log = None              # [(dictionary, key)] of every key that is looked up
        self.loopvars = []          # stack of active summarised loop variables
        self.draws = 0
        self.draw_log = []
        self.fault = None           # predicate(dotted external name, count) -> exception name or None
        self.fault_count = {}
        self.script = None          # module run as the program
        self.script_flow = None
        self.depth = 0
        self.ctx = {}
        self.exc_facts = []
        self.alloc_site = {}
        from . import npmodel
        self.np = npmodel

    # ------------------------------------------------------------------ heap
    def new(self, obj):
        oid = self.next_oid
        self.next_oid += 1
        self.st.heap[oid] = obj
        return oid

    def new_arr(self, content, ext=None):
        if not content.shape:
            return content.body
        return Arr(self.new(ArrObj(content, ext)))

    def obj(self, ref):
        return self.st.heap[ref.oid]

    def arr(self, name, shape, dtype='float', ext=True):
        """An input array with elements el(name, idx)."""
        return self.new_arr(Array.make(shape, lambda *i: el(name, i), dtype), name if ext else None)

    def new_list(self, items):
        return Ref(self.new(ListObj(items)))

    def new_dict(self, d, ext=None, path=None):
        return Ref(self.new(DictObj(d, ext, path)))

    def stub(self, name, attrs=None, methods=None, call=None):
        return Ref(self.new(StubObj(name, attrs, methods, call)))

    def read(self, a, st=None):
        """Array contents of a value (scalars become 0-d arrays)."""
        st = st or self.st
        if isinstance(a, Arr):
            base = st.heap[a.oid].content
            if a.view is None:
                return base
            v = a.view
            vs = tuple(fresh(ZERO, d) for d in v.shape)
            m = {x: ivar(y) for x, y in zip(v.vars, vs)}
            return Array(v.shape, vs, base.elem(*[subs(i, m) for i in v.idx]), base.dtype)
        if isinstance(a, Array):
            return a
        e = self.num(a)
        return Array((), (), e, 'int' if is_int(e) else 'float')

    def num(self, v):
        """Scalar expression of a value."""
        if isinstance(v, Expr):
            return v
        if isinstance(v, bool):
            return ONE if v else ZERO
        if isinstance(v, BoolV):
            return v.e
        if isinstance(v, UnkV):
            return unk(v.reason)
        if isinstance(v, Opq):
            return sym(v.path)
        if isinstance(v, Arr):
            c = self.read(v)
            if c.size().const() == 1:
                return c.elem(*[ZERO] * c.ndim)
        raise Undecided('not a number: %r' % (v,))

    def is_numeric(self, v):
        return isinstance(v, (Expr, bool, BoolV))

    # ------------------------------------------------------------------ modules
    def modpath(self, name):
        p = os.path.join(self.root, *name.split('.'))
        if os.path.isfile(p + '.py'):
            return p + '.py'
        if os.path.isfile(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py')
        return None

    def is_internal(self, name):
        if name in self.extra:
            return True
        return self.modpath(name) is not None or os.path.isdir(os.path.join(self.root, *name.split('.')))

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if name in self.extra:
            src, path = self.extra[name], '<reference %s>' % name
        else:
            path = self.modpath(name)
            if path is None:
                raise Undecided('module %s not found' % name)
            with open(path, encoding='utf-8') as f:
                src = f.read()
        m = Module(name, path, ast.parse(src, path))
        self.mods[name] = m
        m.frame = self.new(FrameObj(None, {'__name__': '__main__' if name == self.script else name}, '<module %s>' % name))
        saved = self.frames
        st_dead = self.st
        self.frames = [(m.frame, name, None)]
        flow = Flow()
        try:
            self.exec_block(m.tree.body, flow)
        finally:
            self.frames = saved
        if name == self.script:
            self.script_flow = flow
        if self.st is None:
            self.st = st_dead
            if name == self.script:
                return m
            if flow.raises:
                del self.mods[name]
                raise AbsRaise(flow.raises[0][0], None)
            raise Undecided('module %s does not import' % name)
        m.done = True
        return m

    def get(self, modname, attr):
        m = self.load(modname)
        v = self.st.heap[m.frame].vars.get(attr)
        if v is None:
            raise Undecided('anchor %s.%s not found' % (modname, attr))
        return v

    # ------------------------------------------------------------------ names
    def lookup(self, name, node=None):
        oid = self.frames[-1][0]
        while oid is not None:
            fr = self.st.heap[oid]
            if name in fr.vars:
                return fr.vars[name]
            oid = fr.parent
        mod = self.mods[self.frames[-1][1]]
        fr = self.st.heap[mod.frame]
        if name in fr.vars:
            return fr.vars[name]
        if hasattr(builtins, name):
            return ExtV('builtins.' + name)
        raise AbsRaise(ExcV('NameError', (name,)), node)

    def assign_name(self, name, val):
        oid, modname, fv = self.frames[-1]
        fr = self.st.heap[oid]
        g = fr.vars.get('$global')
        if g and name in g:
            mf = self.st.heap[self.mods[modname].frame]
            mf.vars[name] = val
            mf.writes.append((name, modname))
            return
        nl = fr.vars.get('$nonlocal')
        if nl and name in nl:
            o = fr.parent
            while o is not None:
                f2 = self.st.heap[o]
                if name in f2.vars:
                    f2.vars[name] = val
                    return
                o = f2.parent
        fr.vars[name] = val

    def where(self, node=None):
        mod = self.mods.get(self.frames[-1][1]) if self.frames else None
        p = mod.path if mod else '?'
        if p.startswith(self.root):
            p = os.path.relpath(p, self.root)
        fv = self.frames[-1][2] if self.frames else None
        ln = getattr(node, 'lineno', None)
        return '%s:%s (%s)' % (p, ln if ln else '?', fv.qual if fv else '<module>')

    # ------------------------------------------------------------------ statements
    def exec_block(self, stmts, flow):
        for s in stmts:
            if self.st is None:
                return
            self.exec_stmt(s, flow)

    def exec_stmt(self, s, flow):
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            raise Undecided('statement %s' % type(s).__name__, s)
        self.sinks.append([])
        try:
            m(s, flow)
        except AbsRaise as r:
            if r.where is None:
                r.where = self.where(r.node or s)
            flow.raises.append((r.exc, self.st.pc if self.st else ONE, self.st, r.where))
            self.st = None
        except Undecided as u:
            if u.node is None:
                u.node = s
            if not hasattr(u, 'where'):
                u.where = self.where(s)
            raise
        except (AlgLimit, RecursionError) as u:
            u = Undecided('%s' % (u,) or 'recursion', s)
            u.where = self.where(s)
            raise u
        finally:
            for r in self.sinks.pop():
                flow.raises.append(r)

    def x_Pass(self, s, flow):
        pass

    def x_Expr(self, s, flow):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value)

    def x_Import(self, s, flow):
        for a in s.names:
            if self.is_internal(a.name):
                self.load(a.name)
                top = a.name.split('.')[0]
                self.assign_name(a.asname or top, ModV(a.name if a.asname else top))
            else:
                self.assign_name(a.asname or a.name.split('.')[0], ExtV(a.name if a.asname else a.name.split('.')[0]))

    def x_ImportFrom(self, s, flow):
        base = s.module or ''
        if s.level:
            cur = self.frames[-1][1].split('.')
            mod = self.mods[self.frames[-1][1]]
            pk = cur if mod.path.endswith('__init__.py') else cur[:-1]
            pk = pk[:len(pk) - (s.level - 1)] if s.level > 1 else pk
            base = '.'.join(pk + ([s.module] if s.module else []))
        for a in s.names:
            if self.is_internal(base):
                sub = base + '.' + a.name
                if self.modpath(base) is not None:
                    m = self.load(base)
                    fr = self.st.heap[m.frame]
                    if a.name == '*':
                        for k, v in list(fr.vars.items()):
                            if not k.startswith('_'):
                                self.assign_name(k, v)
                        continue
                    if a.name in fr.vars:
                        self.assign_name(a.asname or a.name, fr.vars[a.name])
                        continue
                    if not m.done:
                        self.assign_name(a.asname or a.name, UnkV('circular import of %s' % sub))
                        continue
                if self.is_internal(sub):
                    self.load(sub)
                    self.assign_name(a.asname or a.name, ModV(sub))
                    continue
                raise AbsRaise(ExcV('ImportError', (sub,)), s)
            self.assign_name(a.asname or a.name, ExtV(base + '.' + a.name))

    def x_FunctionDef(self, s, flow):
        self.assign_name(s.name, self.make_func(s))

    def x_AsyncFunctionDef(self, s, flow):
        self.assign_name(s.name, UnkV('async function'))

    def make_func(self, s, cls=None, prefix=''):
        oid, modname, fv = self.frames[-1]
        fr = self.st.heap[oid]
        closure = None if fr.name.startswith('<module') or fr.name.startswith('<class') else oid
        if fr.name.startswith('<class'):
            closure = fr.parent if fr.parent is not None and not self.st.heap[fr.parent].name.startswith('<module') \
                else None
        name = getattr(s, 'name', '<lambda>')
        q = (fr.name[7:-1] + '.' + name) if fr.name.startswith('<class') else name
        if closure is not None and fv is not None:
            q = fv.qual + '.' + name
        args = s.args
        defaults = [self.ev(d) for d in args.defaults]
        kwd = {a.arg: self.ev(d) for a, d in zip(args.kwonlyargs, args.kw_defaults) if d is not None}
        f = FuncV(s, modname, closure, q, defaults, kwd)
        v = f
        for d in reversed(getattr(s, 'decorator_list', [])):
            v = self.decorate(d, v, s)
        return v

    IGNORED_DECO = ('numba.njit', 'numba.jit', 'functools.wraps', 'numba.vectorize', 'typing.no_type_check',
                    'abc.abstractmethod', 'typing.override')

    def decorate(self, d, v, s):
        if isinstance(d, ast.Attribute) and d.attr in ('setter', 'getter', 'deleter') and isinstance(d.value, ast.Name):
            cur = self.st.heap[self.frames[-1][0]].vars.get(d.value.id)
            if isinstance(cur, PropV):
                if d.attr == 'setter':
                    return PropV(cur.fget, v)
                if d.attr == 'getter':
                    return PropV(v, cur.fset)
                return cur
            # property of a base class, e.g. @Base.prop.setter
        if isinstance(d, ast.Attribute) and d.attr in ('setter', 'getter') and isinstance(d.value, ast.Attribute):
            try:
                cv = self.ev(d.value.value)
                p, _ = cv.lookup(d.value.attr)
                if isinstance(p, PropV):
                    return PropV(p.fget, v) if d.attr == 'setter' else PropV(v, p.fset)
            except Exception:
                pass
        dv = self.ev(d.func) if isinstance(d, ast.Call) else self.ev(d)
        if isinstance(dv, ExtV):
            n = dv.name
            if n == 'builtins.property':
                return PropV(v)
            if n == 'builtins.classmethod':
                return ClassMethodV(v)
            if n == 'builtins.staticmethod':
                return StaticV(v)
            if n in self.IGNORED_DECO or n.startswith('numba.'):
                return v
            if n.startswith('functools.') and n.split('.')[-1] in ('lru_cache', 'cache', 'cached_property'):
                self.notes.append('cached function %s at %s' % (getattr(s, 'name', '?'), self.where(s)))
                if n.endswith('cached_property'):
                    return PropV(v)
                return v
            return UnkV('decorator ' + n)
        if isinstance(d, ast.Call):
            dv = self.call(dv, [self.ev(a) for a in d.args], {k.arg: self.ev(k.value) for k in d.keywords}, d)
        return self.call(dv, [v], {}, d)

    def x_ClassDef(self, s, flow):
        bases = [self.ev(b) for b in s.bases]
        fr = FrameObj(self.frames[-1][0], {}, '<class %s>' % s.name)
        oid = self.new(fr)
        self.frames.append((oid, self.frames[-1][1], None))
        fl = Flow()
        try:
            self.exec_block(s.body, fl)
        finally:
            self.frames.pop()
        flow.raises += fl.raises
        if self.st is None:
            return
        ns = dict(self.st.heap[oid].vars)
        c = ClassV(s.name, self.frames[-1][1], bases, ns, s)
        for v in ns.values():
            for f in ((v.fget, v.fset) if isinstance(v, PropV) else
                      ((v.func,) if isinstance(v, (StaticV, ClassMethodV)) else (v,))):
                if isinstance(f, FuncV) and f.cls is None:
                    f.cls = c
        self.assign_name(s.name, c)

    def x_Return(self, s, flow):
        v = self.ev(s.value) if s.value is not None else None
        flow.rets.append((self.st.pc, self.st, v))
        self.st = None

    def x_Assign(self, s, flow):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v, s)

    def x_AnnAssign(self, s, flow):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value), s)

    def x_AugAssign(self, s, flow):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, s)
            v = self.ev(s.value)
            self.assign_name(t.id, self.aug(cur, s.op, v, s))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            cur = self.getattr(o, t.attr, s)
            v = self.ev(s.value)
            self.setattr(o, t.attr, self.aug(cur, s.op, v, s), s)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            i = self.ev_index(t.slice)
            cur = self.getitem(o, i, s)
            v = self.ev(s.value)
            if isinstance(o, Arr) and isinstance(cur, Arr):
                # in-place on a view or on a fancy-indexed copy: both end up as an element-wise store
                r = self.binop(s.op, cur, v, s)
                self.setitem(o, i, r, s)
                return
            self.setitem(o, i, self.aug(cur, s.op, v, s), s)
        else:
            raise Undecided('augmented target', s)

    def aug(self, cur, op, v, node):
        if isinstance(cur, Arr):
            r = self.binop(op, cur, v, node)
            rc, cc = self.read(r), self.read(cur)
            if rc.shape != cc.shape:
                if len(rc.shape) > len(cc.shape):
                    raise AbsRaise(ExcV('ValueError', ('non-broadcastable output operand',)), node)
            self.np.store_all(self, cur, rc, node)
            return cur
        if isinstance(cur, Ref):
            o = self.obj(cur)
            if o.kind == 'list' and isinstance(op, ast.Add):
                self.np.list_extend(self, o, v, node)
                return cur
            if o.kind in ('set', 'dict') and isinstance(op, ast.BitOr):
                if o.kind == 'dict' and isinstance(v, Ref) and self.obj(v).kind == 'dict':
                    o.d.update(self.obj(v).d)
                    o.writes.append((None, self.where(node)))
                    return cur
        return self.binop(op, cur, v, node)

    def x_Delete(self, s, flow):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.st.heap[self.frames[-1][0]].vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value)
                k = self.ev_index(t.slice)
                if isinstance(o, Ref) and self.obj(o).kind == 'stub' and '__delitem__' in self.obj(o).methods:
                    self.obj(o).methods['__delitem__'](self, [k], {}, s)
                elif isinstance(o, Ref) and self.obj(o).kind == 'dict' and self.hashable(k):
                    self.obj(o).d.pop(self.key(k), None)
                    self.obj(o).writes.append((k, self.where(s)))
                else:
                    raise Undecided('del', s)
            else:
                raise Undecided('del', s)

    def x_Global(self, s, flow):
        self.st.heap[self.frames[-1][0]].vars.setdefault('$global', frozenset())
        fr = self.st.heap[self.frames[-1][0]]
        fr.vars['$global'] = fr.vars['$global'] | frozenset(s.names)

    def x_Nonlocal(self, s, flow):
        fr = self.st.heap[self.frames[-1][0]]
        fr.vars['$nonlocal'] = fr.vars.get('$nonlocal', frozenset()) | frozenset(s.names)

    def x_Assert(self, s, flow):
        c = self.test(s.test)
        if c is True:
            return
        if c is False:
            raise AbsRaise(ExcV('AssertionError'), s)
        flow.raises.append((ExcV('AssertionError'), self.st.pc * (ONE - c.e), self.st.copy(), self.where(s)))

    def x_Raise(self, s, flow):
        if s.exc is None:
            cur = self.ctx.get('handling')
            raise AbsRaise(cur if cur else ExcV('RuntimeError'), s)
        v = self.ev(s.exc)
        if isinstance(v, ExtV):
            v = ExcV(v.name.replace('builtins.', ''))
        elif isinstance(v, ClassV):
            v = ExcV(self.exc_base(v))
        if not isinstance(v, ExcV):
            v = ExcV('unknown')
        raise AbsRaise(v, s)

    def exc_base(self, c):
        for k in c.mro():
            for b in k.bases:
                if isinstance(b, ExtV):
                    return b.name.replace('builtins.', '')
        return c.name

    def x_If(self, s, flow):
        c = self.test(s.test)
        if c is True:
            self.exec_block(s.body, flow)
            return
        if c is False:
            self.exec_block(s.orelse, flow)
            return
        self.branch(c.e, lambda: self.exec_block(s.body, flow), lambda: self.exec_block(s.orelse, flow))

    def assumed(self, c):
        """The truth value that is assumed for a condition in this run (None: both are followed and joined)."""
        if c.fv or has_unknown(c) or any(f.kind == 'cd' and (f.name.startswith('truth:') or f.name in ('none', 'strcmp', 'isscalar')) for f in atoms(c)):
            return None
        k = str(c)
        if k not in self.conds:
            self.conds.append(k)
            self.cond_e[k] = c
        v = self.assume.get(k)
        if v is None:
            v = self.assume.get(str(ONE - c))
            v = None if v is None else not v
        if v is not None and (k, v) not in self.taken:
            self.taken[(k, v)] = c
        return v

    def branch(self, c, then, other):
        v = self.assumed(c)
        if v is not None:
            (then if v else other)()
            return
        base = self.st
        pc0 = base.pc
        s1 = base.copy()
        s2 = base
        s1.pc = pc0 * c
        s2.pc = pc0 * (ONE - c)
        n0 = 0
        self.st = s1
        then()
        r1 = self.st
        self.st = s2
        other()
        r2 = self.st
        if r1 is None:
            if r2 is not None and not self._returned(s1):
                pass
            self.st = r2
        elif r2 is None:
            self.st = r1
        else:
            pcs = r1.pc + r2.pc
            self.st = r1
            self.st = self.merge([(c, r1), (ONE - c, r2)])
            self.st.pc = pcs

    def _returned(self, s):
        return False

    def x_With(self, s, flow, first=0):
        managed = None
        for pos, it in enumerate(s.items[first:], first):
            v = self.ev(it.context_expr)
            o = self.obj(v) if isinstance(v, Ref) else None
            if o is not None and (o.kind == 'stub' and '__exit__' in o.methods or
                                  o.kind == 'inst' and o.cls.lookup('__exit__')[0] is not None):
                managed = v
            if isinstance(v, Opq):
                self.st.events.append(('enter', v.path, getattr(s, 'lineno', 0)))
                w = v
            elif isinstance(v, Ref) and self.obj(v).kind == 'stub':
                w = v
                if '__enter__' in self.obj(v).methods:
                    w = self.call(self.getattr(v, '__enter__', s), [], {}, s)
            elif isinstance(v, Ref) and self.obj(v).kind == 'inst':
                w = self.call(self.getattr(v, '__enter__', s), [], {}, s)
            else:
                w = UnkV('context manager')
            if it.optional_vars is not None:
                self.assign(it.optional_vars, w, s)
            if managed is not None:
                break
        if managed is None:
            self.exec_block(s.body, flow)
            return
        inner = Flow()
        if pos + 1 < len(s.items):
            self.x_With(s, inner, pos + 1)
        else:
            self.exec_block(s.body, inner)

        def leave(st, exc):
            self.st = st
            e = [None] * 3 if exc is None else [exc.cls and ExtV('builtins.' + exc.cls), exc, UnkV('traceback')]
            return self.call(self.getattr(managed, '__exit__', s), e, {}, s)
        done = []
        if self.st is not None:
            leave(self.st, None)
            done.append((self.st.pc, self.st))
        for lst, name in ((inner.rets, 'rets'), (inner.brks, 'brks'), (inner.conts, 'conts')):
            for item in lst:
                leave(item[1], None)
                getattr(flow, name).append((item[0], self.st) + tuple(item[2:]))
        for exc, pc, st, where in inner.raises:
            r = leave(st, exc)
            self.st.pc = pc
            t = self.truth(r, s) if r is not None else False
            if t is True:
                done.append((pc, self.st))
            elif t is False:
                flow.raises.append((exc, pc, self.st, where))
            else:
                raise Undecided('context manager that may swallow an exception', s)
        if not done:
            self.st = None
        elif len(done) == 1:
            self.st = done[0][1]
        else:
            self.st = self.merge(done)
            tot = ZERO
            for pc, _ in done:
                tot = tot + pc
            self.st.pc = tot

    def x_Try(self, s, flow):
        inner = Flow()
        self.exec_block(s.body, inner)
        done = []          # (pc, state) of normal completion
        if self.st is not None:
            if s.orelse:
                self.exec_block(s.orelse, inner2 := Flow())
                flow.rets += inner2.rets
                flow.brks += inner2.brks
                flow.conts += inner2.conts
                flow.raises += inner2.raises
            if self.st is not None:
                done.append((self.st.pc, self.st))
        pend_raises, pend = [], Flow()
        for exc, pc, st, where in inner.raises:
            handler = None
            for h in s.handlers:
                pats = []
                if h.type is None:
                    pats = ['BaseException']
                else:
                    self.st = st
                    tv = self.ev(h.type)
                    for t in (tv if isinstance(tv, tuple) else (tv,)):
                        if isinstance(t, ExtV):
                            pats.append(t.name.replace('builtins.', ''))
                        elif isinstance(t, ClassV):
                            pats.append(t.name)
                            pats.append('$' + t.name)
                        else:
                            pats.append('?')
                if any(exc_matches(exc.cls, p) for p in pats):
                    handler = h
                    break
            if handler is None:
                pend.raises.append((exc, pc, st, where))
                continue
            self.st = st
            self.st.pc = pc
            if handler.name:
                self.assign_name(handler.name, exc)
            old = self.ctx.get('handling')
            self.ctx['handling'] = exc
            self.exec_block(handler.body, pend)
            self.ctx['handling'] = old
            if self.st is not None:
                done.append((self.st.pc, self.st))
        pend.rets += inner.rets
        pend.brks += inner.brks
        pend.conts += inner.conts
        if s.finalbody:
            new = Flow()
            out = []
            for pc, st in done:
                self.st = st
                self.exec_block(s.finalbody, new)
                if self.st is not None:
                    out.append((self.st.pc, self.st))
            done = out
            for lst, name in ((pend.rets, 'rets'), (pend.brks, 'brks'), (pend.conts, 'conts')):
                for item in lst:
                    self.st = item[1]
                    self.exec_block(s.finalbody, new)
                    if self.st is not None:
                        getattr(new, name).append((item[0], self.st) + tuple(item[2:]))
            for exc, pc, st, where in pend.raises:
                self.st = st
                self.exec_block(s.finalbody, new)
                if self.st is not None:
                    new.raises.append((exc, pc, self.st, where))
            pend = new
        flow.rets += pend.rets
        flow.brks += pend.brks
        flow.conts += pend.conts
        flow.raises += pend.raises
        if not done:
            self.st = None
        elif len(done) == 1:
            self.st = done[0][1]
        else:
            self.st = self.merge(done)
            tot = ZERO
            for pc, _ in done:
                tot = tot + pc
            self.st.pc = tot

    def x_Break(self, s, flow):
        flow.brks.append((self.st.pc, self.st))
        self.st = None

    def x_Continue(self, s, flow):
        flow.conts.append((self.st.pc, self.st))
        self.st = None

    def x_Match(self, s, flow):
        subj = self.ev(s.subject)
        self._match(subj, s.cases, flow, s)

    def _match(self, subj, cases, flow, s):
        if not cases:
            return
        c = cases[0]
        p = c.pattern
        conds = None
        if isinstance(p, ast.MatchValue):
            conds = self.compare_eq(subj, self.ev(p.value))
        elif isinstance(p, ast.MatchOr) and all(isinstance(q, ast.MatchValue) for q in p.patterns):
            conds = False
            for q in p.patterns:
                conds = self.or_(conds, self.compare_eq(subj, self.ev(q.value)))
        elif isinstance(p, ast.MatchSingleton):
            conds = self.compare_is(subj, p.value)
        elif isinstance(p, ast.MatchAs) and p.pattern is None:
            if p.name:
                self.assign_name(p.name, subj)
            conds = True
        else:
            raise Undecided('match pattern', s)
        if c.guard is not None:
            conds = self.and_(conds, self.test(c.guard))
        if conds is True:
            self.exec_block(c.body, flow)
        elif conds is False:
            self._match(subj, cases[1:], flow, s)
        else:
            self.branch(conds.e, lambda: self.exec_block(c.body, flow),
                        lambda: self._match(subj, cases[1:], flow, s))

    # ------------------------------------------------------------------ merging
    def merge(self, items):
        """Join states; items: [(weight, state)], weights are disjoint indicators adding up to one."""
        if len(items) == 1:
            return items[0][1]
        ws = [w for w, _ in items]
        sts = [s for _, s in items]
        out = State()
        oids = []
        for s in sts:
            for o in s.heap:
                if o not in out.heap:
                    out.heap[o] = None
        self._mergeout = out
        pending = []
        for o in list(out.heap):
            have = [(w, s.heap[o]) for w, s in items if o in s.heap]
            if len(have) == 1:
                out.heap[o] = have[0][1]
                continue
            objs = [x for _, x in have]
            first = objs[0].copy()
            for x in objs[1:]:
                for wr in x.writes:
                    if wr not in first.writes:
                        first.writes.append(wr)
            out.heap[o] = first
            pending.append((o, have))
        for o, have in pending:
            first = out.heap[o]
            objs = [x for _, x in have]
            hw = [w for w, _ in have]
            hs = [s for w, s in items if o in s.heap]
            k = first.kind
            if k == 'arr':
                if any(not x.content.same(objs[0].content) for x in objs[1:]):
                    first.content = self._merge_arrays(hw, [x.content for x in objs])
            elif k == 'frame':
                first.vars = self._merge_dict(hw, [x.vars for x in objs], hs, out)
            elif k == 'inst':
                first.attrs = self._merge_dict(hw, [x.attrs for x in objs], hs, out)
            elif k == 'stub':
                first.attrs = self._merge_dict(hw, [x.attrs for x in objs], hs, out)
            elif k == 'dict':
                first.d = self._merge_dict(hw, [x.d for x in objs], hs, out)
            elif k in ('list', 'set'):
                if any(len(x.items) != len(first.items) for x in objs):
                    first.items = [UnkV('list of varying length')]
                    self.joins += 1
                else:
                    first.items = [self._merge_vals(hw, [x.items[i] for x in objs], hs, out)
                                   for i in range(len(first.items))]
        evs = [s.events for s in sts]
        n = 0
        while all(len(e) > n for e in evs) and all(e[n] == evs[0][n] for e in evs):
            n += 1
        out.events = list(evs[0][:n])
        for e in evs:
            for x in e[n:]:
                out.events.append(('maybe', x, 0))
        return out

    def _merge_arrays(self, ws, cs):
        sh = cs[0].shape
        if any(c.shape != sh for c in cs):
            return Array.make(sh, lambda *i: unk('array of varying shape'))
        dt = cs[0].dtype if all(c.dtype == cs[0].dtype for c in cs) else 'float'

        def f(*i):
            e = ZERO
            for w, c in zip(ws, cs):
                e = e + w * c.elem(*i)
            return e
        return Array.make(sh, f, dt)

    def _merge_dict(self, ws, ds, sts, out):
        keys = []
        for d in ds:
            for k in d:
                if k not in keys:
                    keys.append(k)
        r = {}
        for k in keys:
            if all(k in d for d in ds):
                r[k] = self._merge_vals(ws, [d[k] for d in ds], sts, out)
            else:
                r[k] = UnkV('maybe undefined')
                self.joins += 1
        return r

    def _merge_vals(self, ws, vals, sts, out):
        v0 = vals[0]
        if all(v is v0 or (type(v) is type(v0) and self._veq(v, v0)) for v in vals[1:]):
            return v0
        if all(isinstance(v, (bool, BoolV)) for v in vals):
            e = ZERO
            for w, v in zip(ws, vals):
                e = e + w * self.num(v)
            return self.mkbool(e)
        if all(self.is_numeric(v) for v in vals):
            e = ZERO
            for w, v in zip(ws, vals):
                e = e + w * self.num(v)
            return e
        if all(isinstance(v, tuple) for v in vals) and len({len(v) for v in vals}) == 1:
            return tuple(self._merge_vals(ws, [v[i] for v in vals], sts, out) for i in range(len(v0)))
        if all(isinstance(v, (Arr, Expr)) for v in vals):
            cs = [self.read(v, s) for v, s in zip(vals, sts)]
            if len({c.shape for c in cs}) == 1:
                oid = self.next_oid
                self.next_oid += 1
                out.heap[oid] = ArrObj(self._merge_arrays(ws, cs))
                return Arr(oid)
            big = max(cs, key=lambda c: c.ndim)
            if all(not c.shape or c.shape == big.shape for c in cs):
                # a number on one side, an array on the other: the number stands for an array of this shape
                oid = self.next_oid
                self.next_oid += 1
                cs = [c if c.shape == big.shape else Array.make(big.shape, lambda *i, c=c: c.elem(), c.dtype) for c in cs]
                out.heap[oid] = ArrObj(self._merge_arrays(ws, cs))
                return Arr(oid)
        self.joins += 1
        return UnkV('join of different values')

    def _veq(self, a, b):
        try:
            return bool(a == b)
        except Exception:
            return False

    def mkbool(self, e):
        c = e.const()
        if c is not None:
            return bool(c)
        return BoolV(e)

    # ------------------------------------------------------------------ assignment
    def assign(self, t, v, node):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, node)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value), t.attr, v, node)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            i = self.ev_index(t.slice)
            self.setitem(o, i, v, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, node)
        else:
            raise Undecided('assignment target', node)

    def unpack(self, elts, v, node):
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        n = len(elts)
        if isinstance(v, UnkV):
            for e in elts:
                self.assign(e, UnkV(v.reason), node)
            return
        if isinstance(v, Opq):
            for i, e in enumerate(elts):
                self.assign(e, Opq('%s[%d]' % (v.path, i)), node)
            return
        it = self.to_iter(v, node, want=n if not star else None)
        if it.kind != 'concrete':
            # symbolic length: only exact unpacking of a dimension known to be equal is possible
            raise Undecided('unpacking of symbolic length', node)
        items = it.items
        if star:
            s = star[0]
            if len(items) < n - 1:
                raise AbsRaise(ExcV('ValueError', ('not enough values to unpack',)), node)
            k = len(items) - (n - 1)
            for e, x in zip(elts[:s], items[:s]):
                self.assign(e, x, node)
            self.assign(elts[s].value, self.new_list(items[s:s + k]), node)
            for e, x in zip(elts[s + 1:], items[s + k:]):
                self.assign(e, x, node)
            return
        if len(items) != n:
            raise AbsRaise(ExcV('ValueError', ('unpack',)), node)
        for e, x in zip(elts, items):
            self.assign(e, x, node)

    # ------------------------------------------------------------------ iteration protocol
    def to_iter(self, v, node, want=None):
        if isinstance(v, IterV):
            return v
        if isinstance(v, (tuple, list)):
            return IterV('concrete', list(v))
        if isinstance(v, str):
            return IterV('concrete', list(v))
        if isinstance(v, Arr):
            c = self.read(v)
            n = c.shape[0]
            k = intval(n)
            if k is not None and (k <= UNROLL or want == k):
                return IterV('concrete', [self.np.getitem(self, v, E(j), node) for j in range(k)])
            if want is not None and k is None and len(c.shape) >= 1:
                pass
            return IterV('sym', count=n, getter=lambda j: self.np.getitem(self, v, j, node))
        if isinstance(v, Ref):
            o = self.obj(v)
            if o.kind == 'list':
                if any(isinstance(x, LoopSeg) for x in o.items):
                    if len(o.items) == 1 and len(o.items[0].items) == 1:
                        seg = o.items[0]
                        return IterV('sym', count=seg.count,
                                     getter=lambda j: self.np.seg_item(self, seg, 0, j))
                    raise Undecided('iteration over a partly symbolic list', node)
                return IterV('concrete', list(o.items))
            if o.kind == 'set':
                if any(isinstance(x, LoopSeg) for x in o.items):
                    raise Undecided('order of a set', node)
                return IterV('concrete', sorted(o.items, key=str, reverse=bool(self.ctx.get('set_reversed')))
                             if self.ctx.get('set_sorted', True) else o.items)
            if o.kind == 'dict':
                if o.path is not None:
                    return IterV('generic', getter=lambda: StrV('%s.key' % o.path))
                return IterV('concrete', [self.unkey(k) for k in o.d])
            if o.kind == 'inst':
                f, c = o.cls.lookup('__iter__')
                if f is not None:
                    return self.to_iter(self.call(self.getattr(v, '__iter__', node), [], {}, node), node)
            if o.kind == 'stub' and '__iter__' in o.methods:
                return self.to_iter(o.methods['__iter__'](self, [], {}, node), node)
        if isinstance(v, Opq):
            return IterV('generic', getter=lambda: StrV('%s.key' % v.path))
        if isinstance(v, UnkV):
            raise Undecided('iteration over unknown (%s)' % v.reason, node)
        raise Undecided('iteration over %r' % (v,), node)

    # ------------------------------------------------------------------ loops
    def x_For(self, s, flow):
        itv = self.ev(s.iter)
        it = self.to_iter(itv, s)
        self.loop_over(it, s.target, s.body, s.orelse, flow, s)

    def loop_over(self, it, target, body, orelse, flow, node):
        if it.kind == 'concrete':
            self._concrete_loop(it.items, target, body, orelse, flow, node)
            return
        if it.kind == 'generic':
            if orelse and leaves_early(body):
                raise Undecided('else of a loop that may be left early', node)
            self._generic_loop(it, target, body, flow, node)
            if self.st is not None:
                self.exec_block(orelse, flow)
            return
        c = intval(it.count)
        if c is not None and c <= UNROLL:
            self._concrete_loop([it.getter(E(j)) for j in range(max(c, 0))], target, body, orelse, flow, node)
            return
        from .loops import summarise
        if orelse and leaves_early(body):
            raise Undecided('else of a loop that may be left early', node)
        summarise(self, it.count, it.getter, target, body, flow, node)
        if self.st is not None:
            self.exec_block(orelse, flow)

    def _concrete_loop(self, items, target, body, orelse, flow, node):
        pc0 = self.st.pc
        self.st.pc = ONE
        exits = []
        inner = Flow()
        for x in items:
            if self.st is None:
                break
            fl = Flow()
            if target is not None:
                self.assign(target, x, node)
            self.exec_block(body, fl)
            inner.rets += fl.rets
            inner.raises += fl.raises
            exits += fl.brks
            alive = list(fl.conts)
            if self.st is not None:
                alive.append((self.st.pc, self.st))
            if not alive:
                self.st = None
                break
            self.st = self._join(alive)
        if self.st is not None and orelse:
            fl = Flow()
            self.exec_block(orelse, fl)
            inner.rets += fl.rets
            inner.raises += fl.raises
            exits += fl.brks
        if self.st is not None:
            exits.append((self.st.pc, self.st))
        flow.rets += [(pc0 * p, s_, v) for p, s_, v in inner.rets]
        flow.raises += [(e, pc0 * p, s_, w) for e, p, s_, w in inner.raises]
        if not exits:
            self.st = None
            return
        self.st = self._join(exits)
        self.st.pc = pc0 * self.st.pc

    def _join(self, items):
        """Join states with their path conditions (relative to a common entry)."""
        if len(items) == 1:
            return items[0][1]
        tot = ZERO
        for p, _ in items:
            tot = tot + p
        st = self.merge(items)
        st.pc = tot
        return st

    def _generic_loop(self, it, target, body, flow, node):
        """One pass for an arbitrary element of an opaque collection ('for all')."""
        self.st.events.append(('foreach', node.lineno, 0))
        if target is not None:
            self.assign(target, it.getter(), node)
        fl = Flow()
        pc0 = self.st.pc
        self.st.pc = ONE
        pre = self.st.copy()
        self.exec_block(body, fl)
        flow.raises += fl.raises
        flow.rets += fl.rets
        if fl.brks or fl.rets:
            self.notes.append('early exit from a loop over an opaque collection at %s' % self.where(node))
            self.st_early = True
        alive = list(fl.conts) + list(fl.brks)
        if self.st is not None:
            alive.append((self.st.pc, self.st))
        if not alive:
            self.st = pre
            self.st.pc = pc0
            return
        self.st = self._join(alive)
        self.st.pc = pc0
        self.st.events.append(('endforeach', node.lineno, 0))

    def x_While(self, s, flow):
        # concrete conditions: iterate while decided (constant trip counts)
        from .loops import summarise_while
        n = 0
        pc0 = self.st.pc
        first = self.truth_static(s.test)
        if first is False:
            self.exec_block(s.orelse, flow)
            return
        if self._const_while(s, flow):
            return
        if s.orelse and leaves_early(s.body):
            raise Undecided('else of a loop that may be left early', s)
        summarise_while(self, s, flow)
        if self.st is not None:
            self.exec_block(s.orelse, flow)

    def truth_static(self, test):
        return self.test(test)

    def _const_while(self, s, flow):
        """Iterate a loop whose condition stays constant-valued, on a copy; False if it does not."""
        save = self.st
        self.st = save.copy()
        fl = Flow()
        exits = []
        ok = True
        nd = self.next_oid
        for _ in range(UNROLL):
            try:
                c = self.test(s.test)
            except AbsRaise:
                ok = False
                break
            if c is False:
                if s.orelse:
                    f2 = Flow()
                    self.exec_block(s.orelse, f2)
                    fl.rets += f2.rets
                    fl.raises += f2.raises
                    flow.brks += f2.brks
                    flow.conts += f2.conts
                if self.st is not None:
                    exits.append((self.st.pc, self.st))
                break
            if c is not True:
                ok = False
                break
            f2 = Flow()
            try:
                self.exec_block(s.body, f2)
            except (AlgLimit, Undecided):
                ok = False
                break
            fl.rets += f2.rets
            fl.raises += f2.raises
            exits += f2.brks
            alive = list(f2.conts)
            if self.st is not None:
                alive.append((self.st.pc, self.st))
            if not alive:
                break
            self.st = self._join(alive)
        else:
            ok = False
        if not ok:
            self.st = save
            return False
        flow.rets += fl.rets
        flow.raises += fl.raises
        self.st = self._join(exits) if exits else None
        return True

    # ------------------------------------------------------------------ expressions
    def ev(self, n):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Undecided('expression %s' % type(n).__name__, n)
        return m(n)

    def e_Constant(self, n):
        v = n.value
        if v is None or isinstance(v, (bool, str)):
            return v
        if isinstance(v, int):
            return E(v)
        if isinstance(v, float):
            if v != v or v in (float('inf'), float('-inf')):
                return sym('float:' + repr(v))
            return E(v)
        if v is Ellipsis:
            return Ellipsis
        if isinstance(v, bytes):
            return StrV(('bytes', v))
        raise Undecided('constant', n)

    def e_Name(self, n):
        return self.lookup(n.id, n)

    def e_Tuple(self, n):
        out = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                it = self.to_iter(self.ev(e.value), n)
                if it.kind == 'concrete':
                    out.extend(it.items)
                else:
                    v = fresh(ZERO, it.count, 'k')
                    out.append(LoopSeg(v, it.count, [it.getter(ivar(v))]))
            else:
                out.append(self.ev(e))
        return tuple(out)

    def e_List(self, n):
        return self.new_list(self.e_Tuple(n))

    def e_Set(self, n):
        return Ref(self.new(SetObj(self.e_Tuple(n))))

    def e_Dict(self, n):
        d = {}
        extra = None
        for k, v in zip(n.keys, n.values):
            if k is None:
                o = self.ev(v)
                if isinstance(o, Ref) and self.obj(o).kind == 'dict' and self.obj(o).path is None:
                    d.update(self.obj(o).d)
                else:
                    raise Undecided('** of an unknown mapping', n)
                continue
            kv = self.ev(k)
            d[self.key(kv)] = self.ev(v)
        return self.new_dict(d)

    def key(self, k):
        """A hashable python key for a constant value."""
        if isinstance(k, Expr):
            c = k.const()
            if c is not None:
                return int(c) if c.denominator == 1 else c
            return ('expr', str(k))
        if isinstance(k, tuple):
            return tuple(self.key(x) for x in k)
        if k is None or isinstance(k, (str, bool)):
            return k
        if isinstance(k, (StrV, Opq)):
            return k
        raise Undecided('unhashable key %r' % (k,))

    def alien(self, k):
        """A string assumed to differ from every string constant, in any letter case."""
        root = self.ctx.get('alien')
        if root is None or not isinstance(k, StrV):
            return False
        x = k.key
        while isinstance(x, tuple) and len(x) == 2 and x[0] in ('lower', 'upper', 'casefold', 'title', 'capitalize', 'swapcase'):
            x = x[1]
        return x == root

    def hashable(self, k):
        try:
            self.key(k)
            return True
        except Undecided:
            return False

    def unkey(self, k):
        if isinstance(k, bool) or k is None or isinstance(k, (str, StrV, Opq)):
            return k
        if isinstance(k, tuple):
            return tuple(self.unkey(x) for x in k)
        return E(k)

    def e_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                try:
                    x = self.ev(v.value)
                except Undecided:
                    x = UnkV('format')
                if isinstance(x, str) and v.format_spec is None:
                    parts.append(x)
                else:
                    k = x.const() if isinstance(x, Expr) else None
                    if k is not None and k.denominator == 1 and v.format_spec is None:
                        parts.append(str(int(k)))
                    else:
                        parts.append(('v', str(x)))
        if all(isinstance(p, str) for p in parts):
            return ''.join(parts)
        return StrV(tuple(parts))

    def e_FormattedValue(self, n):
        return StrV(('fmt', str(self.ev(n.value))))

    def e_Lambda(self, n):
        return self.make_func(n)

    def e_IfExp(self, n):
        c = self.test(n.test)
        if c is True:
            return self.ev(n.body)
        if c is False:
            return self.ev(n.orelse)
        v = self.assumed(c.e)
        if v is not None:
            return self.ev(n.body if v else n.orelse)
        return self.fork(c, lambda: self.ev(n.body), lambda: self.ev(n.orelse), n)

    def fork(self, c, f1, f2, n):
        """f1 where c holds, f2 elsewhere; an exception of one side leaves the other one."""
        res = {}

        def run(k, f):
            try:
                res[k] = (f(), self.st)
            except AbsRaise as r:
                self.sinks[-1].append((r.exc, self.st.pc, self.st, r.where or self.where(n)))
                self.st = None
        base = self.st
        pc0 = base.pc
        s1, s2 = base.copy(), base
        s1.pc, s2.pc = pc0 * c.e, pc0 * (ONE - c.e)
        self.st = s1
        run(1, f1)
        self.st = s2
        run(2, f2)
        if 1 not in res and 2 not in res:
            self.st = base
            raise AbsRaise(ExcV('Exception'), n)
        if 1 not in res or 2 not in res:
            v, st = res.get(1) or res.get(2)
            self.st = st
            self.st.pc = pc0
            return v
        (v1, t1), (v2, t2) = res[1], res[2]
        out = self.merge([(c.e, t1), (ONE - c.e, t2)])
        val = self._merge_vals([c.e, ONE - c.e], [v1, v2], [t1, t2], out)
        out.pc = pc0
        self.st = out
        return val

    def e_NamedExpr(self, n):
        v = self.ev(n.value)
        self.assign(n.target, v, n)
        return v

    def e_Starred(self, n):
        raise Undecided('starred expression', n)

    def e_Await(self, n):
        raise Undecided('await', n)

    def e_Yield(self, n):
        raise Undecided('generator function', n)

    e_YieldFrom = e_Yield

    def test(self, n):
        """The truth of an expression in a test; the operands of `and`, `or` and `not` are tests themselves."""
        if isinstance(n, ast.BoolOp):
            return self.boolop(n, n.values, True)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return self.not_(self.test(n.operand))
        return self.truth(self.ev(n), n)

    def e_BoolOp(self, n):
        return self.boolop(n, n.values, False)

    def boolop(self, n, es, testing):
        e, rest = es[0], es[1:]
        if not rest:
            return self.test(e) if testing else self.ev(e)
        v = self.test(e) if testing else self.ev(e)
        is_and = isinstance(n.op, ast.And)
        t = self.truth(v, n)
        if isinstance(t, bool):
            return self.boolop(n, rest, testing) if t is is_and else v
        if isinstance(v, BoolV) and all(isinstance(y, SIMPLE) for x in rest for y in ast.walk(x)):
            w = self.boolop(n, rest, testing)
            if isinstance(w, (bool, BoolV)):
                return self.and_(t, w) if is_and else self.or_(t, w)
            return self._merge_vals([t.e, ONE - t.e], [w, v] if is_and else [v, w], [self.st] * 2, self.st)
        f = [lambda: self.boolop(n, rest, testing), lambda: not is_and if isinstance(v, BoolV) else v]
        return self.fork(t, f[0] if is_and else f[1], f[1] if is_and else f[0], n)

    def and_(self, a, b):
        if a is False or b is False:
            return False
        if a is True:
            return b
        if b is True:
            return a
        return self.mkbool(a.e * b.e)

    def or_(self, a, b):
        return self.not_(self.and_(self.not_(a), self.not_(b)))

    def not_(self, a):
        if isinstance(a, bool):
            return not a
        return self.mkbool(ONE - a.e)

    def e_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            return self.not_(self.test(n.operand))
        v = self.ev(n.operand)
        if isinstance(v, UnkV):
            return v
        if isinstance(v, Picked) and isinstance(n.op, ast.USub):
            return Picked(v.full.map(lambda e: -e), v.mask)
        if isinstance(n.op, ast.USub):
            if isinstance(v, Arr):
                c = self.read(v)
                return self.new_arr(c.map(lambda e: -e))
            return -self.num(v)
        if isinstance(n.op, ast.UAdd):
            return self.new_arr(self.read(v)) if isinstance(v, Arr) else self.num(v)
        if isinstance(n.op, ast.Invert):
            if isinstance(v, Arr) and self.read(v).dtype == 'bool':
                return self.new_arr(self.read(v).map(lambda e: ONE - e))
            if isinstance(v, (bool, BoolV)):
                return self.not_(v)
        raise Undecided('unary operator', n)

    def e_BinOp(self, n):
        return self.binop(n.op, self.ev(n.left), self.ev(n.right), n)

    def binop(self, op, a, b, node):
        if isinstance(a, UnkV):
            return a
        if isinstance(b, UnkV):
            return b
        if isinstance(a, KeysV) or isinstance(b, KeysV):
            a, b = self.key_sets(a, b)
        if isinstance(a, Picked) or isinstance(b, Picked):
            ps = [x for x in (a, b) if isinstance(x, Picked)]
            if isinstance(op, ast.MatMult) or not all(x.mask.same(ps[0].mask) for x in ps) or \
                    any(isinstance(x, (Arr, Array)) and self.read(x).ndim for x in (a, b)):
                raise Undecided('boolean mask', node)
            r = self.binop(op, *[self.new_arr(x.full) if isinstance(x, Picked) else x for x in (a, b)], node)
            return Picked(self.read(r), ps[0].mask)
        if isinstance(op, ast.MatMult):
            return self.np.matmul(self, a, b, node)
        if isinstance(a, str) or isinstance(a, StrV) or isinstance(b, (str, StrV)):
            if isinstance(a, str) and isinstance(b, str) and isinstance(op, ast.Add):
                return a + b
            if isinstance(op, (ast.Add, ast.Mod, ast.Mult)):
                return StrV((type(op).__name__, str(a), str(b)))
            if isinstance(op, ast.Div):
                return StrV(('Div', str(a), str(b)))
            raise Undecided('string operator', node)
        if isinstance(a, tuple) and isinstance(b, tuple) and isinstance(op, ast.Add):
            return a + b
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, tuple) and intval(y) is not None:
                    return x * intval(y)
                if isinstance(x, Ref) and self.obj(x).kind == 'list' and self.is_numeric(y):
                    k = intval(y)
                    items = self.obj(x).items
                    if k is not None and k <= UNROLL:
                        return self.new_list(items * max(k, 0))
                    yv = self.num(y)
                    if len(items) == 1:
                        v = fresh(ZERO, yv, 'k')
                        return self.new_list([LoopSeg(v, yv, list(items))])
                    raise Undecided('repetition of a list', node)
        if isinstance(a, Ref) and isinstance(b, Ref) and isinstance(op, ast.Add):
            oa, ob = self.obj(a), self.obj(b)
            if oa.kind == 'list' and ob.kind == 'list':
                return self.new_list(oa.items + ob.items)
        if isinstance(a, Ref) and isinstance(b, Ref):
            oa, ob = self.obj(a), self.obj(b)
            if oa.kind == 'set' and ob.kind == 'set':
                ka = {self.key(x): x for x in oa.items}
                kb = {self.key(x): x for x in ob.items}
                if isinstance(op, ast.Sub):
                    r = [x for k, x in ka.items() if k not in kb]
                elif isinstance(op, ast.BitAnd):
                    r = [x for k, x in ka.items() if k in kb]
                elif isinstance(op, ast.BitOr):
                    r = list({**ka, **kb}.values())
                else:
                    raise Undecided('set operator', node)
                return Ref(self.new(SetObj(r)))
            if oa.kind == 'dict' and ob.kind == 'dict' and isinstance(op, ast.BitOr):
                return self.new_dict({**oa.d, **ob.d})
        if isinstance(a, Ref) and self.obj(a).kind in ('list',):
            a = self.np.to_array(self, a, node)
        if isinstance(b, Ref) and self.obj(b).kind in ('list',):
            b = self.np.to_array(self, b, node)
        if isinstance(a, tuple):
            a = self.np.to_array(self, a, node)
        if isinstance(b, tuple):
            b = self.np.to_array(self, b, node)
        if isinstance(a, Opq) and a.kind == 'path' or isinstance(b, Opq) and b.kind == 'path':
            return Opq('(%s %s %s)' % (self.pstr(a), type(op).__name__, self.pstr(b)), 'path')
        for x, y, nm in ((a, b, 'l'), (b, a, 'r')):
            if isinstance(x, Ref) and self.obj(x).kind == 'inst':
                dn = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__', 'Div': '__truediv__'}.get(
                    type(op).__name__)
                f, _ = self.obj(x).cls.lookup(dn) if dn else (None, None)
                if f is not None and nm == 'l':
                    return self.call(self.getattr(x, dn, node), [y], {}, node)
        if isinstance(a, Arr) or isinstance(b, Arr):
            return self.np.elementwise(self, type(op).__name__, a, b, node)
        return self.np.scalar_op(self, type(op).__name__, self.num(a), self.num(b), node)

    def pstr(self, v):
        if isinstance(v, Opq):
            return v.path
        return str(v)

    def e_Compare(self, n):
        left = self.ev(n.left)
        acc = True
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(r)
            c = self.compare(op, left, right, n)
            if len(n.ops) == 1:
                return c
            acc = self.and_(acc, self.truth(c, n))
            if acc is False:
                return False
            left = right
        return acc

    def compare(self, op, a, b, node):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.compare_is(a, b)
            return r if isinstance(op, ast.Is) else self.not_(r)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a, node)
            return r if isinstance(op, ast.In) else self.not_(r)
        if isinstance(a, UnkV) or isinstance(b, UnkV):
            return BoolV(unk('comparison with unknown'))
        if isinstance(a, KeysV) or isinstance(b, KeysV):
            a, b = self.key_sets(a, b)
        if isinstance(a, Arr) or isinstance(b, Arr):
            return self.np.elementwise(self, type(op).__name__, a, b, node)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.compare_eq(a, b)
            return r if isinstance(op, ast.Eq) else self.not_(r)
        if isinstance(a, (str, StrV)) or isinstance(b, (str, StrV)):
            if isinstance(a, str) and isinstance(b, str):
                return {'Lt': a < b, 'Gt': a > b, 'LtE': a <= b, 'GtE': a >= b}[type(op).__name__]
            return BoolV(cond('strcmp', (E(0),)))
        if isinstance(a, Ref) and isinstance(b, Ref) and self.obj(a).kind == self.obj(b).kind == 'set':
            ka = {self.key(x) for x in self.obj(a).items}
            kb = {self.key(x) for x in self.obj(b).items}
            return {'Lt': ka < kb, 'Gt': ka > kb, 'LtE': ka <= kb, 'GtE': ka >= kb}[type(op).__name__]
        return self.np.scalar_cmp(self, type(op).__name__, self.num(a), self.num(b))

    def compare_is(self, a, b):
        if a is None or b is None:
            x = b if a is None else a
            if x is None:
                return True
            if isinstance(x, UnkV):
                return BoolV(unk('is None'))
            if isinstance(x, Opq) and x.kind == 'maybe':
                return BoolV(cond('none:' + x.path))
            return False
        if isinstance(a, bool) and isinstance(b, bool):
            return a is b
        if isinstance(b, bool) or isinstance(a, bool):
            x, y = (a, b) if isinstance(b, bool) else (b, a)
            if isinstance(x, BoolV):
                return x if y else self.not_(x)
            return False
        if type(a) is not type(b):
            if isinstance(a, UnkV) or isinstance(b, UnkV):
                return BoolV(unk('is'))
            return False
        return self._veq(a, b)

    def key_sets(self, a, b):
        """Keys of dictionaries as sets."""
        return [Ref(self.new(SetObj(x.items))) if isinstance(x, IterV) and x.kind == 'concrete' else
                Ref(self.new(SetObj(list(x)))) if isinstance(x, tuple) else x for x in (a, b)]

    def compare_eq(self, a, b):
        if isinstance(a, UnkV) or isinstance(b, UnkV):
            return BoolV(unk('== with unknown'))
        if a is None or b is None:
            return a is None and b is None
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isinstance(a, (str, StrV)) or isinstance(b, (str, StrV)):
            if isinstance(a, (Expr,)) or isinstance(b, Expr):
                return False
            if a == b:
                return True
            if self.alien(a) and isinstance(b, str) or self.alien(b) and isinstance(a, str):
                return False
            if isinstance(a, (StrV, Opq)) or isinstance(b, (StrV, Opq)):
                return BoolV(cond('streq:%s:%s' % tuple(sorted((str(a), str(b))))))
            return False
        if isinstance(a, tuple) or isinstance(b, tuple):
            if not (isinstance(a, tuple) and isinstance(b, tuple)):
                return False
            if len(a) != len(b):
                return False
            r = True
            for x, y in zip(a, b):
                r = self.and_(r, self.compare_eq(x, y))
            return r
        if self.is_numeric(a) and self.is_numeric(b):
            return self.np.scalar_cmp(self, 'Eq', self.num(a), self.num(b))
        if isinstance(a, Opq) and isinstance(b, Opq) and a == b:
            return True
        if isinstance(a, Opq) or isinstance(b, Opq):
            return BoolV(cond('eq:%s:%s' % tuple(sorted((str(a), str(b))))))
        if isinstance(a, Ref) and isinstance(b, Ref):
            oa, ob = self.obj(a), self.obj(b)
            if a == b:
                return True
            if oa.kind == ob.kind == 'list':
                return self.compare_eq(tuple(oa.items), tuple(ob.items))
            if oa.kind == ob.kind == 'set':
                return {self.key(x) for x in oa.items} == {self.key(x) for x in ob.items}
        return self._veq(a, b)

    def contains(self, c, x, node):
        if isinstance(c, (tuple, list)):
            r = False
            for y in c:
                r = self.or_(r, self.compare_eq(x, y))
            return r
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(c, Ref):
            o = self.obj(c)
            if o.kind in ('list', 'set'):
                return self.contains(tuple(o.items), x, node)
            if o.kind == 'dict':
                k = self.key(x)
                if self.key_log is not None:
                    self.key_log.append((c, k))
                if k in o.d:
                    return True
                if o.path is not None:
                    o.reads.append(('in', k))
                    hook = self.ctx.get('missing_keys')
                    if hook is not None and (o.path, k) in hook:
                        return False
                    if isinstance(k, (StrV, Opq)):
                        return BoolV(cond('in:%s:%s' % (o.path, k)))
                    return True
                if self.alien(k):
                    return False
                if isinstance(k, (StrV, Opq)):
                    return BoolV(cond('in:%s' % (k,)))
                return False
            if o.kind == 'stub' and '__contains__' in o.methods:
                return self.truth(o.methods['__contains__'](self, [x], {}, node), node)
            if o.kind == 'inst' and o.cls.lookup('__contains__')[0] is not None:
                return self.truth(self.call(self.getattr(c, '__contains__', node), [x], {}, node), node)
        if isinstance(c, Opq):
            return BoolV(cond('in:%s:%s' % (c.path, x)))
        if isinstance(c, MethV) or isinstance(c, IterV):
            it = c if isinstance(c, IterV) else None
            if it is not None and it.kind == 'concrete':
                return self.contains(tuple(it.items), x, node)
        if isinstance(c, Arr):
            return BoolV(unk('membership in an array'))
        return BoolV(unk('membership'))

    def truth(self, v, node=None):
        """True / False / BoolV"""
        if isinstance(v, bool):
            return v
        if isinstance(v, BoolV):
            return v
        if v is None:
            return False
        if isinstance(v, str):
            return len(v) > 0
        if isinstance(v, Expr):
            c = v.const()
            if c is not None:
                return c != 0
            if nonneg(v - 1) or nonneg(-v - 1):
                return True
            if all(f.kind in ('cd', 'ge', 'dl') for (s_, fs) in v.terms for f, _ in fs) and is_int(v) \
                    and self._is01(v):
                return BoolV(v)
            if is_int(v):
                return self.not_(self.mkbool(delta(v, ZERO)))
            return self.not_(self.mkbool(eq0(v)))
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, Ref):
            o = self.obj(v)
            if o.kind in ('list', 'set'):
                if any(isinstance(x, LoopSeg) for x in o.items):
                    return self.not_(self.mkbool(delta(self.np.list_len(self, o), ZERO)))
                return len(o.items) > 0
            if o.kind == 'dict':
                if o.path is not None and not o.d:
                    return BoolV(cond('truth:' + o.path))
                return len(o.d) > 0
            if o.kind == 'inst':
                f, _ = o.cls.lookup('__bool__')
                if f is not None:
                    return self.truth(self.call(self.getattr(v, '__bool__', node), [], {}, node))
                f, _ = o.cls.lookup('__len__')
                if f is not None:
                    return self.truth(self.call(self.getattr(v, '__len__', node), [], {}, node))
            return True
        if isinstance(v, StrV):
            return True if self.ctx.get('strings_nonempty', True) else BoolV(cond('truth:%s' % (v.key,)))
        if isinstance(v, Opq):
            return BoolV(cond('truth:' + v.path))
        if isinstance(v, UnkV):
            return BoolV(unk('truth of unknown'))
        if isinstance(v, Arr):
            c = self.read(v)
            if c.size().const() == 1:
                return self.truth(c.elem(*[ZERO] * c.ndim))
            raise AbsRaise(ExcV('ValueError', ('truth value of an array is ambiguous',)), node)
        return True

    def _is01(self, e):
        return (e * e) == e

    # comprehension -------------------------------------------------------------------------------------------
    def e_ListComp(self, n):
        items = self._comp(n.generators, lambda: self.ev(n.elt), n)
        return self.new_list(items)

    def e_GeneratorExp(self, n):
        items = self._comp(n.generators, lambda: self.ev(n.elt), n)
        if any(isinstance(x, LoopSeg) for x in items):
            if len(items) == 1 and len(items[0].items) == 1:
                seg = items[0]
                return IterV('sym', count=seg.count, getter=lambda j: self.np.seg_item(self, seg, 0, j))
            return self.new_list(items)
        return IterV('concrete', items)

    def e_SetComp(self, n):
        return Ref(self.new(SetObj(self._comp(n.generators, lambda: self.ev(n.elt), n))))

    def e_DictComp(self, n):
        items = self._comp(n.generators, lambda: (self.ev(n.key), self.ev(n.value)), n)
        d = {}
        generic = []
        for it in items:
            if isinstance(it, LoopSeg):
                raise Undecided('symbolic dict comprehension', n)
            k, v = it
            if isinstance(k, StrV):
                generic.append((k, v))
            else:
                d[self.key(k)] = v
        r = self.new_dict(d)
        self.obj(r).generic = generic
        return r

    def _comp(self, gens, elt, node):
        fr = FrameObj(self.frames[-1][0], {}, '<comp>')
        if self.st.heap[self.frames[-1][0]].name.startswith('<module'):
            fr.parent = self.frames[-1][0]
        oid = self.new(fr)
        self.frames.append((oid, self.frames[-1][1], self.frames[-1][2]))
        try:
            return self._comp_rec(gens, elt, node)
        finally:
            self.frames.pop()

    def _comp_rec(self, gens, elt, node):
        if not gens:
            return [elt()]
        g = gens[0]
        it = self.to_iter(self.ev(g.iter), node)
        out = []
        if it.kind == 'sym':
            c = intval(it.count)
            if c is not None and c <= UNROLL:
                it = IterV('concrete', [it.getter(E(j)) for j in range(c)])
        if it.kind == 'concrete':
            for x in it.items:
                self.assign(g.target, x, node)
                ok = True
                for c in g.ifs:
                    t = self.test(c)
                    if t is False:
                        ok = False
                        break
                    if t is not True:
                        raise Undecided('filtered comprehension', node)
                if ok:
                    out.extend(self._comp_rec(gens[1:], elt, node))
            return out
        if it.kind == 'generic':
            self.assign(g.target, it.getter(), node)
            if g.ifs:
                self.notes.append('filter on an opaque collection at %s' % self.where(node))
                raise Undecided('filtered comprehension over an opaque collection', node)
            return self._comp_rec(gens[1:], elt, node)
        if g.ifs:
            raise Undecided('filtered comprehension', node)
        v = fresh(ZERO, it.count, 'k')
        self.assign(g.target, it.getter(ivar(v)), node)
        self.loopvars.append((v, it.count))
        try:
            inner = self._comp_rec(gens[1:], elt, node)
        finally:
            self.loopvars.pop()
        inner = [self._freeze(x) for x in inner]
        return [LoopSeg(v, it.count, inner)]

    def _freeze(self, x):
        """Values inside loop templates must not depend on later mutations."""
        if isinstance(x, Arr):
            return self.read(x)
        if isinstance(x, tuple):
            return tuple(self._freeze(y) for y in x)
        return x

    # subscripts / attributes -----------------------------------------------------------------------------------
    def e_Slice(self, n):
        return SliceV(self.ev(n.lower) if n.lower else None, self.ev(n.upper) if n.upper else None,
                      self.ev(n.step) if n.step else None)

    def ev_index(self, n):
        if isinstance(n, ast.Tuple):
            return tuple(self.ev(e) for e in n.elts)
        return self.ev(n)

    def e_Subscript(self, n):
        return self.getitem(self.ev(n.value), self.ev_index(n.slice), n)

    def getitem(self, o, i, node):
        if isinstance(o, UnkV):
            return o
        if isinstance(o, Arr):
            return self.np.getitem(self, o, i, node)
        if isinstance(o, Opq):
            return Opq('%s[%s]' % (o.path, i if isinstance(i, str) else self.pstr(i)))
        if isinstance(o, tuple):
            if isinstance(i, SliceV):
                return o[self._pyslice(i)]
            k = intval(i)
            if k is None:
                raise Undecided('symbolic tuple index', node)
            if not -len(o) <= k < len(o):
                raise AbsRaise(ExcV('IndexError'), node)
            return o[k]
        if isinstance(o, (str,)):
            if isinstance(i, SliceV):
                return o[self._pyslice(i)]
            k = intval(i)
            if k is not None and -len(o) <= k < len(o):
                return o[k]
            raise Undecided('string index', node)
        if isinstance(o, StrV):
            return StrV(('idx', o.key, str(i)))
        if isinstance(o, Ref):
            b = self.obj(o)
            if b.kind == 'list':
                if isinstance(i, SliceV):
                    if any(isinstance(x, LoopSeg) for x in b.items):
                        return self.np.getitem(self, self.np.to_array(self, o, node), i, node)
                    return self.new_list(b.items[self._pyslice(i)])
                k = intval(i)
                if k is not None and not any(isinstance(x, LoopSeg) for x in b.items):
                    if not -len(b.items) <= k < len(b.items):
                        raise AbsRaise(ExcV('IndexError'), node)
                    return b.items[k]
                return self.np.list_item(self, b, self.num(i), node)
            if b.kind == 'dict':
                k = self.key(i)
                if self.key_log is not None:
                    self.key_log.append((o, k))
                if k in b.d:
                    return b.d[k]
                if b.path is not None:
                    b.reads.append(('get', k))
                    hook = self.ctx.get('missing_keys')
                    if hook is not None and (b.path, k) in hook:
                        raise AbsRaise(ExcV('KeyError', (k,)), node)
                    v = Opq('%s[%s]' % (b.path, k.key if isinstance(k, StrV) else k))
                    return v
                if self.alien(k) and not any(isinstance(x, (StrV, Opq)) for x in b.d):
                    raise AbsRaise(ExcV('KeyError', (k,)), node)
                if isinstance(k, (StrV, Opq)) and any(isinstance(x, (StrV, Opq)) for x in b.d):
                    raise Undecided('symbolic dict key', node)
                if isinstance(k, (StrV, Opq)):
                    return UnkV('symbolic dict key')
                raise AbsRaise(ExcV('KeyError', (k,)), node)
            if b.kind == 'inst':
                f, _ = b.cls.lookup('__getitem__')
                if f is not None:
                    return self.call(self.getattr(o, '__getitem__', node), [i], {}, node)
            if b.kind == 'stub' and '__getitem__' in b.methods:
                return b.methods['__getitem__'](self, [i], {}, node)
        if isinstance(o, Expr):
            if i is Ellipsis or i == ():
                return o
            if i == (None,) or i is None:
                return self.new_arr(Array.make((ONE,), lambda k: o))
            raise AbsRaise(ExcV('IndexError'), node)
        if isinstance(o, ExtV):
            if o.name in ('numpy.r_', 'numpy.c_'):
                return self.np.r_(self, o.name, i, node)
            return UnkV('subscript of ' + o.name)
        raise Undecided('subscript of %r' % (o,), node)

    def _pyslice(self, s):
        def g(x):
            if x is None:
                return None
            k = intval(x)
            if k is None:
                raise Undecided('symbolic slice of a sequence')
            return k
        return slice(g(s.lo), g(s.hi), g(s.step))

    def setitem(self, o, i, v, node):
        if isinstance(o, Arr):
            self.np.setitem(self, o, i, v, node)
            return
        if isinstance(o, Ref):
            b = self.obj(o)
            w = self.where(node)
            if b.kind == 'list':
                k = intval(i) if not isinstance(i, SliceV) else None
                if k is not None and not any(isinstance(x, LoopSeg) for x in b.items):
                    if not -len(b.items) <= k < len(b.items):
                        raise AbsRaise(ExcV('IndexError'), node)
                    b.items[k] = v
                    b.writes.append((k, w))
                    return
                raise Undecided('symbolic list store', node)
            if b.kind == 'dict':
                k = self.key(i)
                if isinstance(k, (StrV, Opq)):
                    b.generic.append((k, v))
                b.d[k] = v
                b.writes.append((k, w))
                return
            if b.kind == 'inst':
                self.call(self.getattr(o, '__setitem__', node), [i, v], {}, node)
                return
            if b.kind == 'stub' and '__setitem__' in b.methods:
                b.methods['__setitem__'](self, [i, v], {}, node)
                return
        if isinstance(o, UnkV):
            return
        if isinstance(o, Opq):
            self.st.events.append(('setitem', o.path, str(i), v))
            return
        raise Undecided('store into %r' % (o,), node)

    def e_Attribute(self, n):
        return self.getattr(self.ev(n.value), n.attr, n)

    def getattr(self, o, name, node):
        if isinstance(o, UnkV):
            return o
        if isinstance(o, Picked):
            from .npcall import picked_method
            if name == 'size':
                return picked_method(self, o, 'size', [], {}, node)
            return PyFn(name, lambda it, a, kw, nd: picked_method(it, o, name, a, kw, nd))
        if isinstance(o, ModV):
            if o.name in self.mods and name in self.st.heap[self.mods[o.name].frame].vars:
                return self.st.heap[self.mods[o.name].frame].vars[name]
            if self.is_internal(o.name + '.' + name):
                self.load(o.name + '.' + name)
                return ModV(o.name + '.' + name)
            raise AbsRaise(ExcV('AttributeError', (name,)), node)
        if isinstance(o, ExtV):
            return self.np.ext_attr(self, o.name + '.' + name)
        if isinstance(o, Opq):
            return Opq('%s.%s' % (o.path, name), 'method')
        if isinstance(o, Ref):
            b = self.obj(o)
            if b.kind == 'inst':
                if name == '__class__':
                    return b.cls
                if name == '__dict__':
                    return self.new_dict(b.attrs)
                d, c = b.cls.lookup(name)
                if isinstance(d, PropV):
                    if d.fget is None:
                        raise AbsRaise(ExcV('AttributeError', (name,)), node)
                    return self.call(BoundV(d.fget, o), [], {}, node)
                if name in b.attrs:
                    return b.attrs[name]
                if d is not None:
                    if isinstance(d, FuncV):
                        return BoundV(d, o)
                    if isinstance(d, StaticV):
                        return d.func
                    if isinstance(d, ClassMethodV):
                        return BoundV(d.func, b.cls)
                    return d
                if any(isinstance(x, UnkV) for k in b.cls.mro() for x in k.bases):
                    return UnkV('attribute of unknown base')
                g, _ = b.cls.lookup('__getattr__')
                if g is not None:
                    return self.call(BoundV(g, o), [name], {}, node)
                raise AbsRaise(ExcV('AttributeError', (name,)), node)
            if b.kind == 'stub':
                if name == '__class__':
                    return ExtV('stub.' + b.name)
                if name in b.attrs:
                    v = b.attrs[name]
                    if isinstance(v, PyFn) and v.name == 'property':
                        return v.fn(self, [], {}, node)
                    return v
                if name in b.methods:
                    return PyFn('%s.%s' % (b.name, name), b.methods[name])
                return UnkV('attribute %s of %s' % (name, b.name))
            return MethV(o, name)
        if isinstance(o, ClassV):
            if name == '__name__':
                return o.name
            if name == '__slots__' and name not in o.ns:
                return ()
            d, c = o.lookup(name)
            if isinstance(d, StaticV):
                return d.func
            if isinstance(d, ClassMethodV):
                return BoundV(d.func, o)
            if d is None:
                if name in ('__module__', '__doc__', '__qualname__'):
                    return o.name
                raise AbsRaise(ExcV('AttributeError', (name,)), node)
            return d
        if isinstance(o, SuperV):
            b = self.obj(o.self_) if isinstance(o.self_, Ref) else None
            mro = b.cls.mro() if b is not None else o.cls.mro()
            i = mro.index(o.cls) + 1 if o.cls in mro else 0
            for c in mro[i:]:
                if name in c.ns:
                    d = c.ns[name]
                    if isinstance(d, FuncV):
                        return BoundV(d, o.self_)
                    if isinstance(d, PropV):
                        return self.call(BoundV(d.fget, o.self_), [], {}, node)
                    if isinstance(d, ClassMethodV):
                        return BoundV(d.func, o.self_)
                    if isinstance(d, StaticV):
                        return d.func
                    return d
            if name == '__init__':
                return PyFn('object.__init__', lambda it, a, k, n: None)
            if name == '__setattr__':
                def sa(it, a, k, n, ref=o.self_):
                    it.obj(ref).attrs[a[0]] = a[1]
                    it.obj(ref).writes.append((a[0], it.where(n)))
                return PyFn('object.__setattr__', sa)
            raise AbsRaise(ExcV('AttributeError', (name,)), node)
        if isinstance(o, PropV) and name in ('fget', 'fset'):
            return o.fget if name == 'fget' else o.fset
        if isinstance(o, FuncV):
            if name in ('__name__', '__qualname__'):
                return o.qual.split('.')[-1]
            return UnkV('function attribute')
        if isinstance(o, Arr):
            return self.np.arr_attr(self, o, name, node)
        if isinstance(o, Expr) or isinstance(o, (bool, BoolV)):
            return self.np.scalar_attr(self, o, name, node)
        if isinstance(o, (str, StrV)):
            return MethV(o, name)
        if isinstance(o, ExcV):
            return self.exc_attr(o, name, node)
        if isinstance(o, tuple) and name in ('index', 'count'):
            return MethV(o, name)
        if o is None:
            raise AbsRaise(ExcV('AttributeError', (name,)), node)
        if isinstance(o, MethV) or isinstance(o, PyFn) or isinstance(o, BoundV):
            return UnkV('attribute of a function')
        raise Undecided('attribute %s of %r' % (name, o), node)

    def exc_attr(self, o, name, node):
        """Attributes of an exception: what its class defines, from the arguments that it was made with."""
        if name == 'args':
            return tuple(o.args)
        c = getattr(builtins, o.cls, None) or {'LinAlgError': ValueError, 'JSONDecodeError': None}.get(o.cls, None)
        if not isinstance(c, type) or name in getattr(o, 'attrs', ()):
            return UnkV('exception attribute')
        if not hasattr(c, name):
            raise AbsRaise(ExcV('AttributeError', ("'%s' object has no attribute '%s'" % (o.cls, name),)), node)
        if issubclass(c, SystemExit) and name == 'code':
            return o.args[0] if len(o.args) == 1 else tuple(o.args) if o.args else None
        if issubclass(c, OSError) and name in ('errno', 'strerror', 'filename', 'filename2'):
            k = ('errno', 'strerror', 'filename', None, 'filename2').index(name)
            return o.args[k] if 2 <= len(o.args) <= 5 and k < len(o.args) else None
        if name == '__class__':
            return ExtV('builtins.' + o.cls)
        return UnkV('exception attribute')

    def setattr(self, o, name, v, node):
        if isinstance(o, Ref):
            b = self.obj(o)
            if b.kind == 'inst':
                d, c = b.cls.lookup(name)
                if isinstance(d, PropV):
                    if d.fset is None:
                        raise AbsRaise(ExcV('AttributeError', (name,)), node)
                    self.call(BoundV(d.fset, o), [v], {}, node)
                    return
                sa, _ = b.cls.lookup('__setattr__')
                if isinstance(sa, FuncV):
                    self.call(BoundV(sa, o), [name, v], {}, node)
                    return
                b.attrs[name] = v
                b.writes.append((name, self.where(node)))
                return
            if b.kind == 'stub':
                b.attrs[name] = v
                b.writes.append((name, self.where(node)))
                return
        if isinstance(o, Arr) and name == 'shape':
            c = self.read(o)
            r = self.np.reshape(self, c, v, node)
            self.obj(o).content = r
            return
        if isinstance(o, UnkV):
            return
        if isinstance(o, ClassV):
            o.ns[name] = v
            self.st.events.append(('classattr', o.name, name))
            return
        if isinstance(o, (ModV, ExtV)):
            self.st.events.append(('modattr', o.name, name))
            return
        raise Undecided('attribute store on %r' % (o,), node)

    # calls -----------------------------------------------------------------------------------------------------
    def e_Call(self, n):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == 'super':
            if not n.args:
                fv = self.frames[-1][2]
                oid = self.frames[-1][0]
                fr = self.st.heap[oid]
                first = fv.node.args.args[0].arg if fv and fv.node.args.args else None
                return SuperV(fv.cls, fr.vars.get(first))
            a = [self.ev(x) for x in n.args]
            return SuperV(a[0], a[1] if len(a) > 1 else None)
        f = self.ev(n.func)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                if isinstance(v, UnkV):
                    raise Undecided('* of unknown', n)
                if isinstance(v, Opq):
                    args.append(Opq('*' + v.path))
                    continue
                it = self.to_iter(v, n)
                if it.kind != 'concrete':
                    raise Undecided('* of symbolic length', n)
                args.extend(it.items)
            else:
                args.append(self.ev(a))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                v = self.ev(k.value)
                if isinstance(v, Ref) and self.obj(v).kind == 'dict' and self.obj(v).path is None:
                    kw.update(self.obj(v).d)
                else:
                    raise Undecided('** of an unknown mapping', n)
            else:
                kw[k.arg] = self.ev(k.value)
        return self.call(f, args, kw, n)

    def call(self, f, args, kwargs, node=None):
        if isinstance(f, UnkV):
            self.taint(args, kwargs)
            return UnkV('call of unknown (%s)' % f.reason)
        if isinstance(f, PyFn):
            return f.fn(self, list(args), dict(kwargs), node)
        if isinstance(f, FuncV):
            return self.call_func(f, list(args), dict(kwargs), node)
        if isinstance(f, BoundV):
            return self.call(f.func, [f.self_] + list(args), kwargs, node)
        if isinstance(f, StaticV):
            return self.call(f.func, args, kwargs, node)
        if isinstance(f, ClassV):
            return self.instantiate(f, list(args), dict(kwargs), node)
        if isinstance(f, ExtV):
            return self.ext_call(f.name, list(args), dict(kwargs), node)
        if isinstance(f, MethV):
            return self.np.method(self, f.obj, f.name, list(args), dict(kwargs), node)
        if isinstance(f, Opq):
            return self.opq_call(f, args, kwargs, node)
        if isinstance(f, Ref):
            b = self.obj(f)
            if b.kind == 'inst':
                d, _ = b.cls.lookup('__call__')
                if d is not None:
                    return self.call(BoundV(d, f), args, kwargs, node)
            if b.kind == 'stub' and b.call is not None:
                return b.call(self, list(args), dict(kwargs), node)
        if f is None or isinstance(f, (Expr, str, tuple)):
            raise AbsRaise(ExcV('TypeError', ('not callable',)), node)
        raise Undecided('call of %r' % (f,), node)

    def taint(self, args, kwargs):
        """Unknown code may modify the mutable objects it receives."""
        for a in list(args) + list(kwargs.values()):
            if isinstance(a, Arr):
                o = self.obj(a)
                sh = o.content.shape
                o.content = Array.make(sh, lambda *i: unk('passed to unknown code'))
                if o.ext:
                    self.notes.append('%s passed to unknown code' % o.ext)
            elif isinstance(a, Ref) and self.obj(a).kind == 'list':
                pass

    def opq_call(self, f, args, kwargs, node):
        desc = '%s(%s)' % (f.path, ', '.join([self.pstr(a) for a in args]
                                             + ['%s=%s' % (k, self.pstr(v)) for k, v in sorted(kwargs.items())]))
        self.inject(f.path, node)
        self.st.events.append(('call', f.path, tuple(args), tuple(sorted(kwargs.items(), key=lambda x: x[0])),
                               getattr(node, 'lineno', 0)))
        return Opq(desc)

    def inject(self, name, node):
        """Fault injection at a call boundary."""
        if self.fault is None:
            return
        k = self.fault_count.get(name, 0)
        self.fault_count[name] = k + 1
        e = self.fault(name, k)
        if e:
            text = 'injected at %s' % name
            e, _, form = e.partition('(')       # "Name", "Name()" without arguments, "Name(2)" with an error number
            raise AbsRaise(ExcV(e, {'': (text,), ')': (), '2)': (E(2), text)}[form]), node)

    def ext_call(self, name, args, kwargs, node):
        if name in self.overrides:
            return self.overrides[name](self, args, kwargs, node)
        if 'source' in self.ctx:
            r = self.ctx['source'](self, name, args, kwargs, node)
            if r is not None:
                return r[0]
        base = name.replace('builtins.', '')
        if base in BUILTIN_EXC:
            return ExcV(base, tuple(args))
        if base.split('.')[-1] == 'LinAlgError':
            return ExcV('LinAlgError', tuple(args))
        self.inject(name, node)
        return self.np.ext_call(self, name, args, kwargs, node)

    def instantiate(self, c, args, kwargs, node):
        q = c.module + '.' + c.name
        if q in self.overrides:
            return self.overrides[q](self, args, kwargs, node)
        eb = c.ext_base()
        if eb is not None:
            b = eb.replace('builtins.', '')
            if b in BUILTIN_EXC:
                return ExcV(b, tuple(args))
            if b.split('.')[-1] in ('NamedTuple', 'tuple'):
                raise Undecided('named tuple class', node)
            if b.split('.')[-1] not in ('ABC', 'Generic', 'Protocol'):
                return UnkV('instance of a subclass of ' + eb)
        r = Ref(self.new(InstObj(c)))
        init, ic = c.lookup('__init__')
        if init is not None:
            self.call(BoundV(init, r), args, kwargs, node)
        elif any(isinstance(k, ast.Name) and k.id == 'dataclass' or
                 isinstance(k, ast.Call) and getattr(k.func, 'id', '') == 'dataclass'
                 for k in c.node.decorator_list):
            fields = [s for s in c.node.body if isinstance(s, ast.AnnAssign)]
            names = [s.target.id for s in fields]
            o = self.obj(r)
            for nm in names:
                if nm in c.ns:
                    o.attrs[nm] = c.ns[nm]
            for nm, v in zip(names, args):
                o.attrs[nm] = v
            for k, v in kwargs.items():
                o.attrs[k] = v
        return r

    def bind(self, f, args, kwargs, node):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        if len(args) > len(names):
            if a.vararg is None:
                raise AbsRaise(ExcV('TypeError', ('too many arguments',)), node)
            vals[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None:
            vals[a.vararg.arg] = ()
        for n, v in zip(names, args):
            vals[n] = v
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kwargs.items():
            if k in names or k in kwonly:
                if k in vals:
                    raise AbsRaise(ExcV('TypeError', ('multiple values',)), node)
                vals[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise AbsRaise(ExcV('TypeError', ('unexpected keyword %s' % k,)), node)
        if a.kwarg is not None:
            vals[a.kwarg.arg] = self.new_dict(extra)
        d = f.defaults
        for n, v in zip(names[len(names) - len(d):], d):
            vals.setdefault(n, v)
        for k, v in f.kwdefaults.items():
            vals.setdefault(k, v)
        for n in names + kwonly:
            if n not in vals:
                raise AbsRaise(ExcV('TypeError', ('missing argument %s' % n,)), node)
        return vals

    def call_func(self, f, args, kwargs, node):
        q = f.module + '.' + f.qual
        if q in self.overrides:
            self.calls.append((q, getattr(node, 'lineno', 0)))
            return self.overrides[q](self, args, kwargs, node)
        if self.depth >= MAX_DEPTH:
            raise Undecided('call depth', node)
        vals = self.bind(f, args, kwargs, node)
        self.visited.add(q)
        self.calls.append((q, getattr(node, 'lineno', 0)))
        oid = self.new(FrameObj(f.closure, vals, f.qual))
        self.frames.append((oid, f.module, f))
        pc0 = self.st.pc
        self.st.pc = ONE
        flow = Flow()
        self.depth += 1
        base = self.st
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.ev(f.node.body)
                flow.rets.append((self.st.pc, self.st, v))
                self.st = None
            else:
                self.exec_block(f.node.body, flow)
                if self.st is not None:
                    flow.rets.append((self.st.pc, self.st, None))
        finally:
            self.frames.pop()
            self.depth -= 1
            if self.st is None:
                self.st = base
        raises = [(e, pc0 * p, s, w) for e, p, s, w in flow.raises]
        if not flow.rets:
            if not raises:
                raise Undecided('function never returns', node)
            for r in raises[1:]:
                self.sinks[-1].append(r)
            e, p, s, w = raises[0]
            if s is not None:
                self.st = s
                self.st.pc = pc0
            raise AbsRaise(e, node, w)
        self.sinks[-1].extend(raises)
        if len(flow.rets) == 1:
            p, s, v = flow.rets[0]
            s.pc = pc0
            self.st = s
            return v
        ws = [p for p, _, _ in flow.rets]
        tot = ZERO
        for w in ws:
            tot = tot + w
        if tot != ONE:
            # other outcomes raise: conditions are relative to normal return; use nested choice
            ws = self._renorm(ws)
        sts = [s for _, s, _ in flow.rets]
        out = self.merge(list(zip(ws, sts)))
        v = self._merge_vals(ws, [v for _, _, v in flow.rets], sts, out)
        out.pc = pc0
        self.st = out
        return v

    def _renorm(self, ws):
        """Make disjoint weights add up to one by letting the last one take the remainder."""
        tot = ZERO
        for w in ws[:-1]:
            tot = tot + w
        return list(ws[:-1]) + [ONE - tot]

    def run(self, f, args=(), kwargs=None, node=None):
        """Entry point: returns (value or None, [exceptions]) ; value is RAISES if no normal outcome."""
        self.sinks.append([])
        try:
            v = self.call(f, list(args), dict(kwargs or {}), node)
            ok = True
        except AbsRaise as r:
            v, ok = r, False
        raised = self.sinks.pop()
        return ok, v, raised
