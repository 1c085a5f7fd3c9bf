"""C19: saving writes one dataset per result, loading returns every dataset under its key."""
from .h5w import *

MOD = 'src.var_bayes.simulation'


def entries(S, which):
    I = S.I
    n, d = S.dim('n', 1), S.dim('d', 1)
    e = {'fx': sym('v_fx'), 'at': I.arr('v_at', (n, d, d)), 'bt': I.arr('v_bt', (n, d)), 'mt': I.arr('v_mt', (n,)),
         'm0': PyNum(sym('v_m0')), 'tau': I.arr('v_tau', ()), 'other key': I.arr('v_other', (n, d, 2, n)),
         'last': sym('v_last')}
    if which == 'one scalar':
        return {'fx': e['fx']}
    if which == 'one array':
        return {'bt': e['bt']}
    if which == 'other order':
        return dict(reversed(list(e.items())))
    if which == '0-d':
        return {'zero': I.new_arr(Array.make((), lambda: sym('v_zero'))), 'fx': e['fx']}
    if which == 'similar keys':
        return {k: I.arr('v_%d' % j, (n, d)[:1 + j % 2]) for j, k in enumerate(
            ('mt', 'mt_2', 'Mt', 'MT', 'm', 'm t', 'mt-2', 'mt.2', '2', '02', 'a', 'ab', 'abc', '_mt', 'mt_', 'Ψ', 'mt_2_3'))}
    e.pop('tau')
    return e


def check_written(S, W, want, where, name, snap):
    op = W.opened
    S.decide('one file', len(op) == 1, 'one file is written', where, str([o[:2] for o in op]))
    if op:
        S.decide('file name', op[0][0] == name or (None if 'unk' in op[0][0] else False),
                 'named after the simulation', where, op[0][0])
    keys = [k[0] for k in W.written]
    for k in want:
        hit = [x for x in W.written if x[0] == k]
        if not hit:
            S.decide('written %s' % k, None if any(not isinstance(q, str) for q in keys) else False,
                     'every result is written', where, 'keys %s' % keys)
            continue
        key, v, kw, wh, pc, _ = hit[0]
        if not (pc - ONE).is_zero():
            # some admissible results keep it from being written?
            S.eqx('written %s' % k, pc, ONE, [], 'every result is written, whatever its values are', wh)
            continue
        w = snap[k]
        A = v if isinstance(v, Array) else S.arr(v)
        if w.ndim == 0:
            if A.ndim == 1:
                S.eq('value of %s' % k, A, lambda i, w=w: w.elem(), 'the same value', wh, (1,))
            else:
                S.eq('value of %s' % k, A, lambda w=w: w.elem(), 'the same value', wh, ())
        else:
            S.eq('value of %s' % k, A, w.elem, 'the same values and shape', wh, w.shape)
    extra = [k for k in list(keys) + list(W.files.get(name, ())) if k not in want]
    S.decide('nothing else', not extra or (None if any(not isinstance(q, str) for q in extra) else False),
             'no other dataset in the file', where, str(extra))


def scen_save(which, name, file, exists=None):
    def scen(S):
        e = entries(S, which)
        old = {'older': ['older'], 'same': list(e), 'mixed': ['older', 'fx']}.get(exists)
        W = H5World(S, files={file: {k: S.I.new_arr(S.arr(S.I.arr('old_' + k, (S.dim('k', 1),)))) for k in old}}
                    if old else None)
        o = S.make(MOD, 'Simulation', name)
        snap = {k: S.arr(v) for k, v in e.items()}
        S.I.setattr(o, 'output', S.I.new_dict(e), None)
        S.meth(o, 'save')
        where = S.loc(S.attr(o, 'save'))
        check_written(S, W, list(e), where, file, snap)
        out = S.I.obj(S.attr(o, 'output'))
        S.decide('results kept', set(out.d) == set(e), 'the results stay available', where, str(list(out.d)))
        W.opened = []
        S.meth(o, 'save')
        check_written(S, W, list(e), where, file, snap)
    return Spec('save/%s/%s%s' % (which, name, '/file exists: ' + exists if exists else ''), scen)


def scen_empty(S):
    W = H5World(S)
    o = S.make(MOD, 'Simulation', 'empty')
    S.meth(o, 'save')
    S.decide('nothing to save', not W.opened, 'no file is written', S.loc(S.attr(o, 'save')), str(W.opened))


def scen_run_save(model):
    """Everything that a run reports is written."""
    def scen(S):
        from . import simw
        X = simw.SimWorld(S, model, False)
        W = H5World(S)
        o = X.sim('Sim')
        X.setup(o)
        S.meth(o, 'run')
        out = X.output(o)
        snap = {k: S.arr(v) for k, v in out.d.items()}
        S.meth(o, 'save')
        check_written(S, W, list(snap), S.loc(S.attr(o, 'save')), 'Sim.h5', snap)
    return Spec('run and save/%s' % model, scen, [{'N': 3, 'D': 2}], [{'N': 3, 'D': 2}])


def scen_load(which):
    def scen(S):
        I = S.I
        e = entries(S, which)
        cont = {k: I.new_arr(S.arr(v) if S.arr(v).ndim else Array.make((ONE,), lambda i, v=v: S.arr(v).elem()))
                for k, v in e.items()}
        W = H5World(S, cont)
        f = I.get(MOD, 'load')
        where = S.loc(f)
        r = S.call(f, 'name.h5')
        S.decide('file', [o[0] for o in W.opened] == ['name.h5'] and W.opened[0][1] == 'r',
                 'the given file is read', where, str(W.opened))
        if not isinstance(r, Ref) or I.obj(r).kind != 'dict':
            return S.undecided('result', 'a dictionary', where, repr(r))
        d = I.obj(r).d
        S.decide('keys', set(d) == set(cont), 'every dataset under its own key', where, str(sorted(map(str, d))))
        for k, v in cont.items():
            if k in d:
                w = I.read(v)
                if isinstance(d[k], Ref) and I.obj(d[k]).kind == 'stub':
                    S.violated('value of %s' % k, 'values are read before the file is closed', where, 'a dataset handle')
                    continue
                S.eq('value of %s' % k, d[k], w.elem, 'the same values', where, w.shape)
    return Spec('load/%s' % which, scen)


def scen_load_none(S):
    H5World(S)
    f = S.I.get(MOD, 'load')
    S.raises('no file name', f, (), ('RuntimeError', 'ValueError', 'TypeError'), 'a file name is required')
    S.raises('file name None', f, (None,), ('RuntimeError', 'ValueError', 'TypeError'), 'a file name is required')


def main(tier):
    specs = [scen_save(w, 'run', 'run.h5') for w in ('all', 'one scalar', 'one array', 'other order', '0-d', 'similar keys')]
    specs += [scen_save(w, 'run', 'run.h5', x) for w in ('all', 'one array') for x in ('older', 'same', 'mixed')]
    specs += [scen_save('all', ' My run ', 'My_run.h5'), scen_save('one array', 'run_0.25.v1', 'run_0.25.v1.h5'),
              scen_save('one array', 'A  b', 'A__b.h5'), Spec('empty', scen_empty), Spec('load nothing', scen_load_none)]
    specs += [scen_load(w) for w in ('all', 'one scalar', 'one array', 'other order', 'similar keys')]
    specs += [scen_run_save(m) for m in ('DW', 'L63')]
    return run_check('C19', 'saving and loading', specs, tier)
