"""Sources of nondeterminism: names, and a flow analysis of every reference to one of them in the repository."""
import ast
import os

CTOR = ('default_rng', 'SeedSequence', 'Generator', 'RandomState', 'PCG64', 'PCG64DXSM', 'MT19937', 'Philox', 'SFC64',
        'BitGenerator')
CLOCK = ('time.time', 'time.perf_counter', 'time.monotonic', 'time.process_time', 'time.thread_time', 'time.time_ns',
         'time.perf_counter_ns', 'time.monotonic_ns', 'time.process_time_ns', 'time.localtime', 'time.gmtime', 'time.strftime',
         'time.ctime', 'time.asctime', 'datetime.datetime.now', 'datetime.datetime.utcnow', 'datetime.datetime.today',
         'datetime.date.today', 'os.times', 'timeit.default_timer')
IDENTITY = ('os.getpid', 'os.getppid', 'os.getlogin', 'os.uname', 'os.cpu_count', 'os.getloadavg', 'builtins.id',
            'builtins.hash', 'platform.node', 'socket.gethostname', 'threading.get_ident', 'threading.get_native_id',
            'threading.active_count', 'sys.getrefcount', 'gc.get_count', 'tempfile.mktemp', 'tempfile.gettempprefix')
RANDOM = ('random.', 'secrets.', 'uuid.uuid1', 'uuid.uuid4', 'os.urandom', 'numpy.random.', 'scipy.stats.')
CONCURRENT = ('threading.Thread', 'threading.Timer', 'multiprocessing.', 'concurrent.', 'asyncio.', 'numba.prange',
              'joblib.')
DISPLAY = ('builtins.print', 'logging.', 'warnings.warn', 'sys.stdout.', 'sys.stderr.', 'tqdm.')


def kind(name):
    """Kind of a nondeterministic library name, or None."""
    if name.startswith('numpy.random.') and name.split('.')[-1] in CTOR:
        return None
    if name.startswith('random.') and name.split('.')[-1] in ('Random',):
        return None
    if name in CLOCK:
        return 'clock'
    if name in IDENTITY:
        return 'identity'
    if any(name == r or r.endswith('.') and name.startswith(r) for r in RANDOM):
        if name.startswith('scipy.stats.') and not name.endswith('.rvs'):
            return None
        if name in ('random.', 'numpy.random.'):
            return None
        return 'random'
    if any(name == r or r.endswith('.') and name.startswith(r) for r in CONCURRENT):
        return 'concurrency'
    return None


def source(name):
    return kind(name) if kind(name) != 'concurrency' else None


class File(object):
    def __init__(self, root, rel):
        self.rel = rel
        with open(os.path.join(root, rel), encoding='utf-8') as f:
            self.tree = ast.parse(f.read(), rel)
        self.alias = {}
        self.parent = {}
        for n in ast.walk(self.tree):
            for c in ast.iter_child_nodes(n):
                self.parent[c] = n
            if isinstance(n, ast.Import):
                for a in n.names:
                    self.alias[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
            elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
                for a in n.names:
                    self.alias[a.asname or a.name] = n.module + '.' + a.name

    def dotted(self, n):
        """Library name that an expression refers to."""
        parts = []
        while isinstance(n, ast.Attribute):
            parts.append(n.attr)
            n = n.value
        if not isinstance(n, ast.Name):
            return None
        base = self.alias.get(n.id)
        if base is None:
            if parts or n.id not in ('id', 'hash', 'print', 'input'):
                return None
            base = 'builtins.' + n.id
        return '.'.join([base] + parts[::-1])

    def owner(self, n):
        """Innermost function around a node (None: module level)."""
        n = self.parent.get(n)
        while n is not None and not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            n = self.parent.get(n)
        return n

    def where(self, n):
        o = self.owner(n)
        while isinstance(o, ast.Lambda):
            o = self.owner(o)
        return '%s:%d%s' % (self.rel, n.lineno, ' (%s)' % o.name if o is not None else '')


def files(root):
    out = []
    for base, dirs, names in os.walk(root):
        dirs[:] = sorted(d for d in dirs if d not in ('tests', '__pycache__', '.git', 'build', 'dist') and not d.startswith('.'))
        for n in sorted(names):
            if n.endswith('.py') and not n.startswith(('test_', 'conftest', 'setup')):
                out.append(os.path.relpath(os.path.join(base, n), root))
    return out


class Flow(object):
    """Flow of one source: names, attributes, parameters and results of functions that carry it; and where it ends."""

    def __init__(self, fs, f, node, knd):
        self.fs, self.knd = fs, knd
        self.seeds = [(f, node)]
        self.locals = set()           # (file, function, name)
        self.attrs = set()
        self.funcs = set()            # simple names of functions whose result carries it
        self.sinks = []               # (what, file, node)
        done = set()
        todo = [(f, node)]
        while todo:
            f, n = todo.pop()
            if (f.rel, id(n)) in done:
                continue
            done.add((f.rel, id(n)))
            todo += self.step(f, n)

    def uses(self, pred):
        return [(f, n) for f in self.fs for n in ast.walk(f.tree) if pred(f, n)]

    def name(self, f, fn, nm):
        if (f.rel, id(fn), nm) in self.locals:
            return []
        self.locals.add((f.rel, id(fn), nm))
        out = []
        for n in ast.walk(fn if fn is not None else f.tree):
            if isinstance(n, ast.Name) and n.id == nm and isinstance(n.ctx, ast.Load):
                out.append((f, n))
        return out

    def target(self, f, t, out):
        if isinstance(t, ast.Name):
            fn = f.owner(t)
            while isinstance(fn, ast.Lambda):
                fn = f.owner(fn)
            out += self.name(f, fn, t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.target(f, x, out)
        elif isinstance(t, ast.Starred):
            self.target(f, t.value, out)
        elif isinstance(t, ast.Attribute):
            if t.attr not in self.attrs:
                self.attrs.add(t.attr)
                out += self.uses(lambda g, n: isinstance(n, ast.Attribute) and n.attr == t.attr and isinstance(n.ctx, ast.Load))
        else:
            self.sinks.append(('stored', f, t))

    def step(self, f, n):
        out = []
        p = f.parent.get(n)
        while p is not None:
            if isinstance(p, ast.Call):
                nm = f.dotted(p.func)
                if n is p.func or (isinstance(n, ast.Attribute) and n is p.func):
                    n, p = p, f.parent.get(p)                   # result of calling it
                    continue
                if nm is not None and any(nm == d or d.endswith('.') and nm.startswith(d) for d in DISPLAY):
                    self.sinks.append(('display', f, p))
                    return out
                if nm is not None and nm.split('.')[-1] in CTOR or nm in ('numpy.random.seed',):
                    self.sinks.append(('seed', f, p))
                    return out
                simple = p.func.attr if isinstance(p.func, ast.Attribute) else getattr(p.func, 'id', None)
                defs = [(g, d) for g in self.fs for d in ast.walk(g.tree)
                        if isinstance(d, ast.FunctionDef) and d.name == simple] if nm is None or nm.startswith('src.') else []
                if defs:
                    for g, d in defs:
                        out += self.param(g, d, p, n)
                    return out
                if isinstance(p.func, ast.Attribute) and p.func.attr in ('append', 'extend', 'update', 'add', 'insert', 'write'):
                    if p.func.attr == 'write':
                        self.sinks.append(('display', f, p))
                    elif isinstance(p.func.value, ast.Name):
                        self.target(f, p.func.value, out)
                    else:
                        self.sinks.append(('stored', f, p))
                    return out
            elif isinstance(p, ast.keyword):
                pass
            elif isinstance(p, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.NamedExpr)):
                for t in (p.targets if isinstance(p, ast.Assign) else [p.target]):
                    self.target(f, t, out)
                if not isinstance(p, ast.NamedExpr):
                    return out
            elif isinstance(p, (ast.If, ast.While, ast.IfExp, ast.Assert)):
                if isinstance(p, (ast.If, ast.While)) and n is p.test:
                    quiet = all(self.quiet(f, s) for s in p.body + p.orelse) and not isinstance(p, ast.While)
                    self.sinks.append(('display' if quiet else 'control', f, p))
                    return out
                if isinstance(p, ast.IfExp) and n is p.test:
                    pass                                        # the value chosen carries it
                if isinstance(p, ast.Assert):
                    self.sinks.append(('control', f, p))
                    return out
            elif isinstance(p, (ast.For,)) and n is p.iter:
                self.sinks.append(('control', f, p))
                return out
            elif isinstance(p, ast.Return):
                fn = f.owner(p)
                if isinstance(fn, ast.FunctionDef) and fn.name not in self.funcs:
                    self.funcs.add(fn.name)
                    out += self.uses(lambda g, m: isinstance(m, ast.Call) and (
                        isinstance(m.func, ast.Name) and m.func.id == fn.name or
                        isinstance(m.func, ast.Attribute) and m.func.attr == fn.name))
                return out
            elif isinstance(p, ast.Raise):
                self.sinks.append(('display', f, p))
                return out
            elif isinstance(p, ast.Subscript) and isinstance(p.ctx, ast.Store):
                self.sinks.append(('stored', f, p))
                return out
            elif isinstance(p, ast.Lambda):
                self.sinks.append(('argument', f, p))
                return out
            elif isinstance(p, ast.withitem):
                if p.optional_vars is not None:
                    self.target(f, p.optional_vars, out)
                return out
            elif isinstance(p, ast.Expr):
                self.sinks.append(('unused', f, p))
                return out
            elif isinstance(p, ast.stmt):
                self.sinks.append(('argument', f, p))
                return out
            n, p = p, f.parent.get(p)
        return out

    def param(self, g, d, call, n):
        names = [a.arg for a in d.args.posonlyargs + d.args.args]
        if names[:1] in (['self'], ['cls']):
            names = names[1:]
        for k, a in enumerate(call.args):
            if a is n:
                return self.name(g, d, names[k]) if k < len(names) else []
        for k in call.keywords:
            if k is n or k.value is n:
                return self.name(g, d, k.arg) if k.arg else []
        self.sinks.append(('argument', g, d))
        return []

    def quiet(self, f, s):
        """A statement without effect on results: display, or a name that carries this source anyway."""
        if isinstance(s, ast.Pass):
            return True
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            return True
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
            nm = f.dotted(s.value.func)
            return nm is not None and any(nm == d or d.endswith('.') and nm.startswith(d) for d in DISPLAY)
        if isinstance(s, ast.Assign):
            fn = f.owner(s)
            return all(isinstance(t, ast.Name) and ((f.rel, id(fn), t.id) in self.locals
                                                    or any(kind(f.dotted(c) or '') == 'clock' for c in ast.walk(s.value)))
                       for t in s.targets)
        return False


def races(f, loop):
    """Writes of a parallel loop to places that every iteration shares."""
    vs = {n.id for n in ast.walk(loop.target) if isinstance(n, ast.Name)}
    dep = set(vs)
    for _ in range(3):
        for s in ast.walk(loop):
            if isinstance(s, ast.Assign) and any(isinstance(x, ast.Name) and x.id in dep for x in ast.walk(s.value)):
                dep |= {t.id for t in s.targets if isinstance(t, ast.Name)}
    out = []
    for s in ast.walk(loop):
        ts = s.targets if isinstance(s, ast.Assign) else [s.target] if isinstance(s, ast.AugAssign) else []
        for t in ts:
            if isinstance(t, ast.Subscript) and not any(isinstance(x, ast.Name) and x.id in dep for x in ast.walk(t.slice)):
                out.append(t)
    return out


def scan(S):
    root = S.I.root
    fs = [File(root, r) for r in files(root)]
    rule = 'no source of nondeterminism reaches a result'
    count = 0
    for f in fs:
        for n in ast.walk(f.tree):
            if isinstance(n, ast.For) and isinstance(n.iter, ast.Call) and (f.dotted(n.iter.func) or '').endswith('numba.prange'):
                for t in races(f, n):
                    S.violated('parallel loop %s' % f.where(n), 'iterations of a parallel loop write to different places',
                               f.where(t), 'every iteration writes to %s' % ast.unparse(t))
                S.proved('parallel loop %s' % f.where(n), 'iterations of a parallel loop write to different places', f.where(n))
            if not isinstance(n, (ast.Name, ast.Attribute)) or not isinstance(n.ctx, ast.Load):
                continue
            if isinstance(f.parent.get(n), ast.Attribute):
                continue
            nm = f.dotted(n)
            if nm is None:
                continue
            last = nm.split('.')[-1]
            if nm.startswith('numpy.random.') and last in CTOR:
                creation(S, fs, f, n, nm)
                count += 1
                continue
            k = kind(nm)
            if k is None or k == 'concurrency' and nm.endswith('prange'):
                continue
            count += 1
            tag = '%s at %s' % (nm.replace('builtins.', ''), f.where(n))
            if k == 'concurrency':
                S.undecided(tag, rule, f.where(n), 'concurrency')
                continue
            if not isinstance(f.parent.get(n), ast.Call) and k == 'identity' and nm.startswith('builtins.'):
                S.undecided(tag, rule, f.where(n), 'passed on as a function')
                continue
            fl = Flow(fs, f, n, k)
            bad = [s for s in fl.sinks if s[0] in ('control', 'seed')]
            if k in ('random', 'identity'):
                bad += [s for s in fl.sinks if s[0] in ('stored', 'argument')]
            if bad:
                S.violated(tag, rule, f.where(n), 'it decides %s at %s' % (
                    {'control': 'which statements run', 'seed': 'a seed', 'stored': 'stored data', 'argument': 'a value'}[bad[0][0]],
                    bad[0][1].where(bad[0][2])))
                continue
            soft = [s for s in fl.sinks if s[0] in ('stored', 'argument')]
            if soft:
                S.undecided(tag, rule, f.where(n), 'it reaches %s' % soft[0][1].where(soft[0][2]))
                continue
            S.proved(tag, rule, f.where(n), 'flow', 'ends in %s' % ', '.join(sorted({s[1].where(s[2]) for s in fl.sinks})))
    S.proved('all references', rule, ', '.join(f.rel for f in fs), 'enumeration', '%d files, %d references' % (len(fs), count))


def creation(S, fs, f, n, nm):
    """A generator is created with a seed, or where no seed is given."""
    p = f.parent.get(n)
    rule = 'generators are created from the seed of the run'
    tag = '%s at %s' % (nm, f.where(n))
    if not isinstance(p, ast.Call) or p.func is not n:
        return S.proved(tag, rule, f.where(n), 'reference only')
    last = nm.split('.')[-1]
    if last in ('Generator',):
        return S.proved(tag, rule, f.where(n), 'decided by its bit generator')
    none = not p.args and not p.keywords or p.args and isinstance(p.args[0], ast.Constant) and p.args[0].value is None
    if not none:
        return S.proved(tag, rule, f.where(n), 'created with an argument; decided by the run scenarios')
    fn = f.owner(n)
    scope = fn if fn is not None else f.tree
    others = [c for c in ast.walk(scope) if isinstance(c, ast.Call) and (f.dotted(c.func) or '').split('.')[-1] in CTOR
              and (f.dotted(c.func) or '').startswith('numpy.random.') and c is not p and (c.args or c.keywords)]
    if others:
        return S.proved(tag, rule, f.where(n), 'alternative to a seeded creation; decided by the run scenarios')
    draws = isinstance(f.parent.get(p), ast.Attribute)
    if isinstance(f.parent.get(p), ast.Assign) and all(isinstance(t, ast.Name) for t in f.parent[p].targets):
        nms = {t.id for t in f.parent[p].targets}
        draws = any(isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name)
                    and c.func.value.id in nms for c in ast.walk(scope))
    if draws:
        return S.violated(tag, rule, f.where(n), 'numbers are drawn from a generator without the seed')
    S.undecided(tag, rule, f.where(n), 'created without a seed')
