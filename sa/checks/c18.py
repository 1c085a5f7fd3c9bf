"""C18: every failure of the program's main sequence ends in a non-zero exit status; success does each step once."""
from .mainw import *

KINDS = ('Exception', 'ValueError', 'KeyError', 'OSError', 'RuntimeError', 'LinAlgError', 'MemoryError',
         'NotImplementedError', 'TypeError', 'ZeroDivisionError', 'AttributeError', 'IndexError', 'FileNotFoundError',
         'JSONDecodeError', 'FloatingPointError', 'PermissionError', 'EOFError', 'UnicodeDecodeError',
         'Exception()', 'AssertionError()', 'MemoryError()', 'OSError(2)', 'FileNotFoundError(2)')
PATH = 'vgpa_main.py'


def check_failed(S, name, outs, rule, detail='', reached=ONE):
    for o in outs:
        if not (reached - ONE).is_zero() and (o[3] - (ONE - reached)).is_zero():
            continue                 # the runs that do not reach the failing call
        st = status(o)
        if completed(o[2]):
            return S.violated(name, rule, PATH, '%s: reports completion' % detail)
        if st == 0 and (o[3] - ONE).is_zero():
            return S.violated(name, rule, PATH, '%s: the program ends with status 0' % detail)
        if st is None or st == 0:
            return S.undecided(name, rule, PATH, 'exit status not known (%s)' % (o[1],))
    return S.proved(name, rule, PATH, 'exceptional flow')


def scen_faults(data, real=None):
    """One failure at every call of the program, of every kind."""
    def scen(S):
        from .simw import SimWorld

        def world(T):
            argv = {'params': 'p.json', 'data': 'd.csv' if data else None}
            if real:
                W = SimWorld(T, real, False)
                W.I.ctx['sim_faults'] = True
                return MainWorld(T, argv, W.params, stub_sim=False)
            return MainWorld(T, argv)

        def fresh_scenario():
            reset_all()
            T = Scenario(S.name, S.mode, S.fixed, S.tier)
            return T
        seen = []
        T = fresh_scenario()
        W = world(T)
        T.I.fault = lambda nm, k, T=T: (seen.append((nm, k)) if all(
            m.done or n == SCRIPT for n, m in T.I.mods.items()) else None, None)[1]
        outs = W.run()
        bad = [o for o in outs if status(o) != 0]
        S.decide('undisturbed run', None if bad and has_unknown_outcome(bad) else not bad,
                 'the undisturbed program ends with status 0', PATH, 'ends with %s' % [(o[1], o[4]) for o in bad])
        if bad:
            return
        points = []
        for nm, k in seen:
            if nm.replace('builtins.', '') in PURE or (nm, k) in points:
                continue
            if real and nm.startswith('numpy.') and k > 0:
                continue
            points.append((nm, k))
        if real:                     # of repeated calls: the first and the last
            last = dict(points)
            points = [p for p in points if p[1] in (0, last[p[0]])]
        S.decide('fault points', len(points) >= 4 or None, 'calls of the main sequence found', PATH, str(points)[:300])
        kinds = KINDS if not real else ('Exception', 'ValueError', 'KeyError', 'LinAlgError', 'OSError', 'AssertionError()')
        S.samples.append({'points': ['%s#%d' % p for p in points], 'kinds': list(kinds)})
        for nm, k in points:
            for kd in kinds:
                T = fresh_scenario()
                W = world(T)
                hit = []
                T.I.fault = lambda n, c, nm=nm, k=k, kd=kd, T=T: (hit.append(T.I.st.pc), kd)[1] if (n, c) == (nm, k) else None
                label = '%s at call %d of %s' % (kd, k + 1, nm)
                try:
                    outs = W.run()
                except Undecided as u:
                    S.undecided(label, 'failure is reported', PATH, u.reason)
                    continue
                if not hit:
                    continue
                check_failed(S, label, outs, 'a failure ends with non-zero status and no completion message', label,
                             hit[0])
        S.I.visited |= T.I.visited
    return Spec('faults/%s%s' % ('data' if data else 'no data', '/real simulation %s' % real if real else ''), scen,
                limit=400)


def has_unknown_outcome(outs):
    return any(status(o) is None for o in outs)


def scen_success(data):
    def scen(S):
        W = MainWorld(S, {'params': 'p.json', 'data': 'd.csv' if data else None})
        outs = W.run()
        ok = [o for o in outs if status(o) == 0]
        bad = [o for o in outs if status(o) != 0]
        if bad or len(ok) != 1:
            return S.decide('success', None if has_unknown_outcome(outs) else False,
                            'a successful run ends with status zero', PATH, str([(o[0], o[1], o[4]) for o in outs])[:300])
        ev = ok[0][2]
        steps = [e[1] for e in ev if e[0] == 'sim']
        S.decide('order of the steps', steps == ['new', 'setup', 'run', 'save'],
                 'set up, run and save once each in this order', PATH, str(steps))
        last = max([i for i, e in enumerate(ev) if e[0] == 'sim'] or [-1])
        comp = [i for i, e in enumerate(ev) if e[0] == 'print' and any('complet' in x.lower() for x in e[1])]
        S.decide('completion', all(i > last for i in comp), 'completion is reported only after saving', PATH, str(comp))
        S.decide('completion reported', True if comp else None, 'completion is reported', PATH, 'no message')
        new = [e for e in ev if e[0] == 'sim' and e[1] == 'new']
        nm = new[0][2] if new else None
        S.decide('name', isinstance(nm, Opq) and nm.path == "params['Output_Name']" or
                 (None if isinstance(nm, (UnkV, StrV)) else False), 'the configured name', PATH, repr(nm))
        st = [e for e in ev if e[0] == 'sim' and e[1] == 'setup']
        if st:
            p = st[0][2].get('params')
            S.decide('parameters', p == W.params or (None if isinstance(p, UnkV) else False),
                     'the parameters of the file', PATH, repr(p))
    return Spec('success/%s' % ('data' if data else 'no data'), scen)


def scen_missing(key):
    def scen(S):
        W = MainWorld(S, {'params': 'p.json', 'data': None})
        S.I.obj(W.params).d.pop(key)
        outs = W.run()
        name = 'missing %s' % key
        for o in outs:
            if any(e[0] == 'sim' and e[1] in ('run', 'save') for e in o[2]):
                return S.violated(name, 'an incomplete file is refused', PATH, 'the simulation runs')
        check_failed(S, name, outs, 'an incomplete parameter file is a failure', name)
    return Spec('incomplete/%s' % key, scen)


def scen_none(argv):
    def scen(S):
        W = MainWorld(S, argv)
        outs = W.run()
        for o in outs:
            if any(e[0] == 'sim' for e in o[2]):
                return S.violated('no parameter file', 'nothing runs', PATH, 'the simulation runs')
        check_failed(S, 'no parameter file', outs, 'a parameter file must be given', 'no --params')
    return Spec('not given/%s' % ('data only' if argv else 'no arguments'), scen)


def main(tier):
    specs = [scen_faults(False), scen_faults(True), scen_faults(False, 'DW'), scen_faults(False, 'L63'),
             scen_success(False), scen_success(True), scen_none({}), scen_none({'data': 'd.csv'})]
    specs += [scen_missing(k) for k in KEYS]
    return run_check('C18', 'exit status of the command line program', specs, tier)
