"""seeded.py [ids]: every planted bug applies, passes the tests, is demonstrated, and is caught (or not) by its check."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = json.load(open('/opt/vp/BASELINE.json'))


def sh(cmd, cwd, env=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, env=dict(os.environ, **(env or {})))


def one(name, checks):
    d = os.path.join(VERIF, 'seeded', name)
    meta = json.load(open(d + '/meta.json'))
    w = tempfile.mkdtemp(prefix='seed_')
    try:
        r = w + '/r'
        shutil.copytree('/repo', r, ignore=shutil.ignore_patterns('.git'))
        out = [name, meta['property']]
        out.append('clean %d' % sh('bash %s/demo.sh' % d, r).returncode)
        a = sh('git init -q . && git apply %s/patch.diff' % d, r)
        if a.returncode:
            return out + ['does not apply ' + a.stderr[:100]]
        out.append('patched %d' % sh('bash %s/demo.sh' % d, r).returncode)
        t = sh('/opt/venv/bin/python -m pytest -q -p no:cacheprovider src/tests 2>&1 | tail -1', r)
        out.append(t.stdout.strip()[:60])
        if checks:
            for c in ([meta['property']] if checks == ['own'] else checks):
                q = sh('python3 -m sa.run %s --quick' % c, VERIF, {'VERIF_REPO': r})
                out.append('%s %s' % (c, 'CAUGHT' if q.returncode == 1 and 'VIOLATION property=%s' % c in q.stdout
                                      else 'quiet' if q.returncode == 0 else 'rc %d' % q.returncode))
        return out
    finally:
        shutil.rmtree(w)


if __name__ == '__main__':
    args = sys.argv[1:]
    checks = ['own']
    if '--checks' in args:
        k = args.index('--checks')
        checks = args[k + 1].split(',') if args[k + 1] else []
        args = args[:k]
    names = args or sorted(os.listdir(os.path.join(VERIF, 'seeded')))
    with ThreadPoolExecutor(2) as ex:
        for r in ex.map(lambda n: one(n, checks), names):
            print(' | '.join(r), flush=True)
