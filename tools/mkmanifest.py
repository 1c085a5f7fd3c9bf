"""Writes MANIFEST.json from the checks present and properties.jsonl."""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = 'abstract interpretation of the source over array normal forms'
T = {
    'C01': (AI + ' (loop recurrences vs one-step schemes)', 'proof'),
    'C02': (AI + ' (loop recurrences vs one-step schemes with jumps)', 'proof'),
    'C03': (AI + ' (Gaussian moment algebra)', 'proof'),
    'C04': (AI + ' (expectation vs energy, symbolic derivative vs gradient)', 'proof'),
    'C05': (AI + ' (expectation vs energy, symbolic derivative vs gradient)', 'proof'),
    'C06': (AI + ' (stencil, Jacobian, derivative under the unscented average)', 'proof'),
    'C07': (AI + ' (expectation vs energy, symbolic derivative vs gradient)', 'proof'),
    'C08': (AI + ' (KL divergence vs energy, symbolic derivative vs gradient)', 'proof'),
    'C09': (AI + ' (index provenance of every gradient slot)', 'proof'),
    'C10': (AI + ' (provenance of every call argument and stored result)', 'proof'),
    'C11': (AI + ' (value-pair relation and acceptance guards over all paths)', 'proof'),
    'C12': ('effect analysis: provenance of every random draw, whole-program nondeterminism scan', 'proof'),
    'C13': ('typestate analysis by abstract interpretation over noise classes', 'proof'),
    'C14': (AI + ' (draws as atoms, covariance by expectation)', 'proof'),
    'C15': (AI + ' (draws as atoms, index-set facts)', 'proof'),
    'C16': ('effect and alias analysis by abstract interpretation', 'proof'),
    'C17': ('provenance dataflow from configuration keys to consumers', 'proof'),
    'C18': ('exceptional-flow analysis of the entry point', 'proof'),
    'C19': ('dataflow from results to file keys and back', 'proof'),
    'C20': (AI + ' (definitions of the utilities)', 'proof'),
    'C21': ('typestate analysis: access before creation', 'proof'),
    'C22': ('constant propagation through registries and guards', 'proof'),
    'C23': (AI + ' (initial guess vs documented form)', 'proof'),
}
NOTE = ('Decided from the source for every input and every size; where the note in evidence says "on instances", the '
        'identity was decided for the listed sizes only. Real arithmetic, numpy/scipy operations modelled by their '
        'documented meaning; floating-point rounding is not covered.')
NA = {
    'N01': 'A statement about the limit of a nonlinear floating-point iteration; no static argument in reach bounds it.',
    'N02': 'Positive definiteness along the sweep depends on the runtime values of A, S0 and dt (explicit schemes lose it for '
           'large steps); not a property of the source.',
    'N03': 'Accuracy of the unscented average depends on runtime moments; the exact rule used is decided by C20 and C06.',
    'N04': 'The code differentiates the continuous Lagrangian and then discretises; equality with the discrete derivative '
           'holds only up to O(dt), a runtime quantity. The exact pieces are decided by C01, C02, C04-C09.',
    'N05': 'Whether np.arange hits tf depends on floating-point rounding of the runtime values t0, tf, dt.',
}
ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(ROOT, 'sa/checks', i.lower() + '.py')):
        t, lv = T[i]
        checks.append({'property': i, 'quick_cmd': 'python3 -m sa.run %s --quick' % i,
                       'thorough_cmd': 'python3 -m sa.run %s --thorough' % i, 'technique': t, 'level': lv,
                       'level_note': NOTE})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'Check under construction; not claimed yet.')})
json.dump({'version': 1, 'setup_cmd': 'python3 -m compileall -q sa', 'checks': checks, 'not_applicable': na},
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
