"""Run planted changes against the checks.

mutate.py MUTANTS.py [id-prefix ...]

MUTANTS.py defines M = [(id, property, file, old, new), ...] with file
relative to crowddynamics/.  Each is applied in a scratch copy of /repo
(under /tmp, removed afterwards) and judged with the check of its property,
run from a scratch copy of /verif."""
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

PY = '/opt/venv/bin/python'


def one(m):
    mid, prop, path, old, new = m
    tmp = tempfile.mkdtemp(prefix='mut_')
    try:
        repo, verif = tmp + '/repo', tmp + '/verif'
        shutil.copytree('/repo', repo, symlinks=True,
                        ignore=shutil.ignore_patterns('.git'))
        shutil.copytree('/verif', verif, symlinks=True,
                        ignore=shutil.ignore_patterns('.git', 'seeded',
                                                      'evidence'))
        pairs = [(old, new)] if isinstance(old, str) else list(zip(old, new))
        paths = [path] * len(pairs) if isinstance(path, str) else path
        if len(paths) != len(pairs): paths = [path if isinstance(path, str) else path[0]] * len(pairs)
        for f, (o, n) in zip(paths, pairs):
            f = repo + '/crowddynamics/' + f
            with open(f) as fp:
                src = fp.read()
            if src.count(o) != 1:
                return mid, prop, 'BAD-PATTERN %d' % src.count(o), ''
            with open(f, 'w') as fp:
                fp.write(src.replace(o, n))
        out = ''
        codes = []
        for pr in prop.split(','):
            p = subprocess.run(
                [PY, verif + '/check.py', 'run', pr, '--tier', 'quick',
                 '--jobs', '3'], cwd=verif, env=dict(os.environ,
                                                   DSIM_REPO=repo),
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900)
            codes.append('%s=%d' % (pr, p.returncode))
            lines = p.stdout.decode().splitlines()
            out += ' | '.join(l for l in lines[1:4])[:260] + ' '
        return mid, prop, ' '.join(codes), out
    finally:
        shutil.rmtree(tmp)


if __name__ == '__main__':
    M = runpy.run_path(sys.argv[1])['M']
    want = sys.argv[2:]
    todo = [m for m in M if not want or any(m[0].startswith(w) for w in want)]
    assert len(set(m[0] for m in M)) == len(M)
    with ThreadPoolExecutor(4) as ex:
        for mid, prop, code, out in ex.map(one, todo):
            flag = 'caught' if '=1' in code else '***MISSED' if '=0' in code \
                else '!!!' + code
            print('%-22s %-10s %-10s %s' % (mid, code, flag, out[:230]))
            sys.stdout.flush()
