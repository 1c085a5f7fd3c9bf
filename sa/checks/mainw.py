"""The command line program with recording stand-ins for its environment (files, argument parser, data reader)."""
from .common import *

SCRIPT = 'vgpa_main'
KEYS = ('Output_Name', 'Model', 'Ode-method', 'Time-window', 'Noise', 'Observations', 'Drift', 'Prior', 'Random-Seed')
PURE = {'print', 'len', 'str', 'repr', 'int', 'float', 'isinstance', 'set', 'list', 'dict', 'tuple', 'sorted', 'range',
        'enumerate', 'zip', 'type', 'bool', 'any', 'all', 'format', 'getattr', 'hasattr', 'callable', 'super', 'id',
        'min', 'max', 'sum', 'abs', 'map', 'filter', 'numpy.isscalar', 'numpy.shape', 'numpy.ndim', 'iter', 'next', 'object', 'property', 'vars', 'issubclass'}


class MainWorld(object):
    def __init__(self, S, argv, params=None, stub_sim=True):
        self.S, self.I = S, S.I
        I = S.I
        self.argv = argv
        self.params = params if params is not None else self.default_params()
        self.stub_sim = stub_sim
        I.overrides['sys.argv'] = I.new_list(['vgpa_main.py'] + ['--%s=%s' % kv for kv in argv.items()
                                                                 if kv[1] is not None])
        I.overrides['argparse.ArgumentParser'] = self.parser
        for n in ('json.load', 'json.loads'):
            I.overrides[n] = self.load(n)
        I.overrides['pandas.read_csv'] = self.read_csv
        if stub_sim:
            I.overrides['src.var_bayes.simulation.Simulation'] = self.simulation
        I.ctx['set_sorted'] = True

    def default_params(self):
        nd = self.I.new_dict
        d = {k: Opq("params['%s']" % k) for k in KEYS}
        d['Output_Name'] = Opq("params['Output_Name']", 'str')
        return nd(d)

    def ev(self, *e):
        self.I.st.events.append(e)

    def load(self, name):
        def h(it, args, kwargs, node):
            it.inject(name, node)
            self.ev('load', name, tuple(args))
            return self.params
        return h

    def parser(self, it, args, kwargs, node):
        opts = {}

        def add(i, a, k, n):
            dest = k.get('dest')
            if dest is None:
                longs = [x for x in a if isinstance(x, str) and x.startswith('--')] or [x for x in a]
                dest = longs[0].lstrip('-').replace('-', '_') if longs and isinstance(longs[0], str) else None
            if dest is not None:
                names = [x.lstrip('-') for x in a if isinstance(x, str)]
                opts[dest] = (names, k.get('default'), k.get('required', False))
            return UnkV('argument')

        def parse(i, a, k, n):
            at = {}
            for dest, (names, dflt, req) in opts.items():
                v = dflt
                for nm in names:
                    if self.argv.get(nm) is not None:
                        v = self.argv[nm]
                if v is None and req is True:
                    raise AbsRaise(ExcV('SystemExit', (E(2),)), n)
                if v is not None and '!type' in opts:
                    pass
                at[dest] = v
            return i.stub('arguments', at)
        grp = {'add_argument': add}
        grp['add_argument_group'] = lambda i, a, k, n: i.stub('group', {}, {'add_argument': add})
        grp['add_mutually_exclusive_group'] = grp['add_argument_group']
        grp['parse_args'] = parse
        grp['print_help'] = lambda i, a, k, n: None
        grp['print_usage'] = lambda i, a, k, n: None

        def error(i, a, k, n):
            raise AbsRaise(ExcV('SystemExit', (E(2),)), n)
        grp['error'] = error
        return it.stub('parser', {}, grp)

    def read_csv(self, it, args, kwargs, node):
        it.inject('pandas.read_csv', node)
        self.ev('read_csv', tuple(args), dict(kwargs))
        names = kwargs.get('names')
        cols = None
        if names is not None:
            cols = list(names) if isinstance(names, tuple) else list(it.obj(names).items) if isinstance(names, Ref) and \
                it.obj(names).kind == 'list' else [UnkV('names')]
        cut = ''
        for k, v in sorted(kwargs.items()):
            c = v.const() if isinstance(v, Expr) else v.e.const() if isinstance(v, PyNum) else v
            if k in ('names', 'dtype', 'engine', 'float_precision', 'low_memory', 'encoding', 'memory_map', 'skipinitialspace',
                     'skip_blank_lines', 'comment', 'cache_dates', 'na_filter', 'verbose', 'filepath_or_buffer'):
                continue
            if k in ('skiprows', 'skipfooter') and c in (0, None) or k in ('nrows', 'header', 'usecols') and c is None or \
                    k in ('sep', 'delimiter') and v in (',', None) or k == 'index_col' and c in (None, False):
                continue
            if k in ('skiprows', 'skipfooter', 'nrows', 'header') and c is not None and not isinstance(c, (UnkV, Ref, tuple)):
                cut = 'without some rows: '
                continue
            raise Undecided('argument %s of read_csv' % k, node)
        if names is None and 'header' not in kwargs:
            cut = 'without the first row: '

        def label(i, x):
            x = i.pstr(x) if not isinstance(x, (Expr, PyNum)) else x
            if cols is not None and any(isinstance(c, UnkV) for c in cols):
                raise Undecided('names of the columns', node)
            if cols is None:
                return x
            for p, c in enumerate(cols):
                if c == x:
                    return p
            raise AbsRaise(ExcV('KeyError', (x,)), node)

        def col(i, a, k, n):
            v = Opq('csv[%s%s]' % (cut, label(i, a[0])))
            return i.stub('column', {'values': v},
                          {'to_numpy': lambda ii, aa, kk, nn: v, '__array__': lambda ii, aa, kk, nn: v})
        return it.stub('frame', {}, {'__getitem__': col})

    def simulation(self, it, args, kwargs, node):
        it.inject('Simulation', node)
        nm = args[0] if args else kwargs.get('name')
        self.ev('sim', 'new', nm)

        def step(what):
            def h(i, a, k, n):
                i.inject('Simulation.' + what, n)
                d = dict(zip(('params', 'data'), a))
                d.update(k)
                self.ev('sim', what, d)
                return None
            return h
        return it.stub('Simulation object', {'name': nm, 'output': UnkV('output')},
                       {w: step(w) for w in ('setup', 'run', 'save')})

    # ---- running the program
    def run(self):
        """[(kind, detail, events, pc)]: every way in which the program can end."""
        I = self.I
        I.script = SCRIPT
        I.script_flow = None
        try:
            I.load(SCRIPT)
            live = I.st if I.script_flow is None or I.script_flow else I.st
        except AbsRaise as r:
            return [('raise', r.exc, list(I.st.events), ONE, r.where)]
        out = []
        fl = I.script_flow
        for exc, pc, st, where in fl.raises:
            out.append(('raise', exc, list(st.events), pc, where))
        tot = ZERO
        for o in out:
            tot = tot + o[3]
        if not (ONE - tot).is_zero():
            out.append(('end', None, list(I.st.events), ONE - tot, None))
        return out


def status(o):
    """Exit status class of an outcome: 0, 1 (any non-zero), or None (unknown)."""
    kind, exc = o[0], o[1]
    if kind == 'end':
        return 0
    if exc.cls != 'SystemExit':
        return 1
    a = exc.args[0] if exc.args else None
    if a is None:
        return 0
    if isinstance(a, (str, StrV)):
        return 1
    if isinstance(a, bool):
        return 1 if a else 0
    if isinstance(a, Expr):
        c = a.const()
        return None if c is None else (0 if c == 0 else 1)
    if isinstance(a, ExcV):
        return 1
    return None


def completed(events):
    return any(e[0] == 'print' and any('complet' in x.lower() for x in e[1]) for e in flatten(events))


def flatten(events):
    out = []
    for e in events:
        out.append(e)
        if e and e[0] == 'if' and len(e) > 2:
            for x in e[2:]:
                if isinstance(x, list):
                    out += flatten(x)
    return out
