"""A stand-in for h5py files: datasets written and read are recorded with their keys and values."""
from .common import *


class H5World(object):
    def __init__(self, S, content=None, files=None):
        self.S, self.I = S, S.I
        self.files = files if files is not None else {}   # name -> {key: array}: files that exist already
        self.opened = []                 # (path, mode)
        self.written = []                # (key, value, kwargs, where, pc)
        self.content = content or {}     # key -> array or scalar
        S.I.overrides['h5py.File'] = self.open

    def path(self, v):
        """File name of a path value."""
        if isinstance(v, str):
            return v
        if isinstance(v, Opq):
            p = v.path
            while p.startswith('pathlib.Path(') and p.endswith(')'):
                p = p[len('pathlib.Path('):-1]
            return p
        return repr(v)

    def open(self, it, args, kwargs, node):
        it.inject('h5py.File', node)
        mode = args[1] if len(args) > 1 else kwargs.get('mode', 'r')
        name = self.path(args[0] if args else kwargs.get('name'))
        self.opened.append((name, mode, it.st.pc))
        if not isinstance(mode, str):
            raise Undecided('mode of a file', node)
        if mode in ('w-', 'x') and name in self.files:
            raise AbsRaise(ExcV('FileExistsError', (E(17), 'file exists')), node)
        if mode not in ('r', 'r+') and (it.st.pc - ONE).is_zero():
            if mode != 'a' or name not in self.files:
                self.files[name] = {}
                self.written = [w for w in self.written if w[5] != name]
        content = self.content if mode in ('r', 'r+') and name not in self.files else self.files.get(name, {})
        state = {'open': True}

        def need(what):
            if not state['open']:
                raise AbsRaise(ExcV('ValueError', ('file is closed: %s' % what,)), None)

        def write(key, val_, kw, n):
            need('write')
            if mode in ('r',):
                raise AbsRaise(ExcV('OSError', ('file opened for reading',)), n)
            it.inject('h5py.write', n)
            if isinstance(key, str) and key in content:
                if not (it.st.pc - ONE).is_zero():
                    raise Undecided('dataset written under several conditions', n)
                raise AbsRaise(ExcV('ValueError', ('dataset exists',)), n)
            A = it.read(it.np.to_array(it, val_, n)) if not isinstance(val_, (Opq, UnkV)) else None
            if A is not None and A.ndim == 0 and kw.get('compression') is not None:
                raise AbsRaise(ExcV('TypeError', ("Scalar datasets don't support chunk/filter options",)), n)
            if A is not None and kw.get('dtype') is not None:
                A = it.read(NP_CAST(it, it.new_arr(A), kw['dtype'], n))
            if A is not None and kw.get('scaleoffset') is not None and A.dtype != 'int':
                A = it.read(NP_CAST(it, it.new_arr(A), 'float32', n))      # a lossy filter
            self.written.append((key, A if A is not None else val_, kw, it.where(n), it.st.pc, name))
            if isinstance(key, str):
                content[key] = it.new_arr(A) if A is not None else val_
            return UnkV('dataset')

        def delete(i, a, k, n):
            need('delete')
            if isinstance(a[0], str):
                if a[0] not in content:
                    raise AbsRaise(ExcV('KeyError', (a[0],)), n)
                if not (i.st.pc - ONE).is_zero():
                    raise Undecided('deletes a dataset under a condition', n)
                del content[a[0]]
                self.written = [w for w in self.written if (w[0], w[5]) != (a[0], name)]
                return None
            raise Undecided('deletes a computed dataset', n)

        def create(i, a, k, n):
            key = a[0] if a else k.get('name')
            d = dict(zip(('name', 'shape', 'dtype', 'data'), a))
            d.update(k)
            if 'data' not in d:
                raise Undecided('dataset without data', n)
            sh = d.get('shape')
            if sh is not None and isinstance(sh, tuple) and not isinstance(d['data'], (Opq, UnkV)):
                A = i.read(i.np.to_array(i, d['data'], n))
                tot = ONE
                for x in sh:
                    tot = tot * i.num(x)
                if not (tot - A.size()).is_zero():
                    raise AbsRaise(ExcV('ValueError', ('shape does not match the data',)), n)
                if len(sh) != A.ndim or not all((i.num(x) - y).is_zero() for x, y in zip(sh, A.shape)):
                    d['data'] = i.np.wrap(i, i.np.reshape(i, A, sh, n))
            return write(key, d['data'], d, n)

        def item(i, a, k, n):
            need('read')
            key = a[0]
            if isinstance(key, str):
                if key not in content:
                    raise AbsRaise(ExcV('KeyError', (key,)), n)
                return self.dataset(content[key])
            return UnkV('item of a file')
        keys = lambda i, a, k, n: KeysV('concrete', sorted(content))

        def close(i, a, k, n):
            state['open'] = False
            return None
        ref = it.stub('h5file', {}, {
            'create_dataset': create, '__setitem__': lambda i, a, k, n: write(a[0], a[1], {}, n), '__getitem__': item,
            '__iter__': keys, '__delitem__': delete,
            '__contains__': lambda i, a, k, n: a[0] in content if isinstance(a[0], str) else UnkV('key'), 'keys': keys, 'items': lambda i, a, k, n: tuple((c, self.dataset(content[c])) for c in content),
            'values': lambda i, a, k, n: tuple(self.dataset(content[c]) for c in content), 'close': close,
            'flush': lambda i, a, k, n: None, '__len__': lambda i, a, k, n: E(len(content)),
            '__exit__': close})
        it.obj(ref).methods['__enter__'] = lambda i, a, k, n: ref
        return ref

    def dataset(self, v):

        def conv(i, a, k, n):
            dt = a[0] if a else None
            nm = dt.name if isinstance(dt, ExtV) else dt
            if nm in ('builtins.object', 'numpy.object_', 'object', 'O'):
                raise AbsRaise(ExcV('OSError', ('no appropriate function for conversion path',)), n)
            if dt is not None:
                return i.np.to_array(i, NP_CAST(i, v, dt, n), n)
            return v

        def item(i, a, k, n):
            if a and isinstance(a[0], tuple) and not a[0] or a and a[0] is Ellipsis:
                return v
            return i.getitem(v, a[0], n)
        A = self.I.read(v)
        return self.I.stub('dataset', {'shape': tuple(A.shape), 'ndim': E(A.ndim), 'size': A.size(), 'value': v},
                           {'__array__': conv, '__getitem__': item})


def NP_CAST(i, v, dt, n):
    from .. import npcall
    return npcall.NP['array'](i, [v, dt], {}, n)
