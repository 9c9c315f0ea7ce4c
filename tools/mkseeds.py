"""Build and verify planted bugs.

mkseeds.py DEFS.py [ids...]   writes seeded/<id>/ from definitions
mkseeds.py --verify [ids...]  in a scratch copy: applies, builds, tests, demo

DEFS.py defines S = [dict(id, property, file, edits=[(old, new)...], stubs,
needs, what, demo)]; file relative to /repo/crowddynamics (or edits as
(file, old, new))."""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, 'seeded')

DEMO_SH = '''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export PYTHONPATH="$PWD:$here%s"
cd "$here"
exec /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def copy_repo(tmp):
    subprocess.check_call(['git', 'clone', '-q', '/repo', tmp + '/repo'])
    return tmp + '/repo'


def make(s):
    d = os.path.join(SEEDED, s['id'])
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)
    tmp = tempfile.mkdtemp(prefix='seed_')
    try:
        repo = copy_repo(tmp)
        for e in s['edits']:
            f, old, new = e if len(e) == 3 else (s['file'],) + tuple(e)
            f = os.path.join(repo, 'crowddynamics', f)
            with open(f) as fp:
                src = fp.read()
            assert src.count(old) == 1, (s['id'], f, src.count(old), old)
            with open(f, 'w') as fp:
                fp.write(src.replace(old, new))
        diff = subprocess.check_output(['git', 'diff'], cwd=repo)
        with open(os.path.join(d, 'patch.diff'), 'wb') as fp:
            fp.write(diff)
    finally:
        shutil.rmtree(tmp)
    stubs = s.get('stubs')
    with open(os.path.join(d, 'demo.sh'), 'w') as fp:
        fp.write(DEMO_SH % (':$here/stubs' if stubs else ''))
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    with open(os.path.join(d, 'demo.py'), 'w') as fp:
        fp.write(s['demo'].lstrip('\n'))
    if stubs:
        shutil.copytree(os.path.join(VERIF, 'dsim/stubs'),
                        os.path.join(d, 'stubs'),
                        ignore=shutil.ignore_patterns('__pycache__'))
    with open(os.path.join(d, 'meta.json'), 'w') as fp:
        json.dump({'property': s['property'], 'needs': s['needs'],
                   'what_it_breaks': s['what']}, fp, indent=1)


def sh(cmd, cwd):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, timeout=300)


def tests(repo):
    """The stable tests, as in /opt/vp/test.sh but on a scratch copy."""
    with open('/opt/vp/BASELINE.json') as fp:
        stable = len(json.load(fp)['stable'])
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
               PYTHONPATH=repo)
    p = subprocess.run(
        ['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p',
         'no:cacheprovider', '--noconftest', '-o', 'addopts=',
         '--benchmark-disable',
         'crowddynamics/core/tests/test_block_list.py',
         'crowddynamics/core/tests/test_block_list_benchmark.py',
         'crowddynamics/simulation/tests/test_base.py',
         'crowddynamics/tests/test_io.py'], cwd=repo, env=env,
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    out = p.stdout.decode()
    return p.returncode or (0 if '%d passed' % stable in out else 99), out


def verify(sid):
    d = os.path.join(SEEDED, sid)
    tmp = tempfile.mkdtemp(prefix='seed_')
    try:
        repo = copy_repo(tmp)
        demo = tmp + '/demo'
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns(
            '*.diff', '*.patch', 'meta.json'))
        clean = sh(['bash', demo + '/demo.sh'], repo)
        ap = sh(['git', 'apply', d + '/patch.diff'], repo)
        trc, tout = tests(repo)
        bad = sh(['bash', demo + '/demo.sh'], repo)
        ok = clean.returncode == 0 and ap.returncode == 0 and \
            bad.returncode != 0 and trc == 0
        msg = '' if ok else 'clean=%d %s\napply=%d tests=%d %s\nbad=%d' % (
            clean.returncode, clean.stdout.decode()[-800:], ap.returncode,
            trc, tout[-600:] if trc else '', bad.returncode)
        last = (bad.stdout.decode().strip().splitlines() or [''])[-1][:90]
        return sid, ok, msg or last
    finally:
        shutil.rmtree(tmp)


def caught(sid):
    """Run the property's quick check on a scratch copy with the patch."""
    d = os.path.join(SEEDED, sid)
    with open(d + '/meta.json') as fp:
        prop = json.load(fp)['property']
    tmp = tempfile.mkdtemp(prefix='seed_')
    try:
        repo = copy_repo(tmp)
        sh(['git', 'apply', d + '/patch.diff'], repo)
        verif = tmp + '/verif'
        shutil.copytree(VERIF, verif, ignore=shutil.ignore_patterns(
            '.git', 'seeded', 'evidence'))
        p = subprocess.run(
            ['/opt/venv/bin/python', verif + '/check.py', 'run', prop,
             '--tier', 'quick', '--jobs', '3'], cwd=verif,
            env=dict(os.environ, DSIM_REPO=repo, VERIF_SEED='1'),
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        lines = [l for l in p.stdout.decode().splitlines()
                 if 'VIOLATION' in l or 'HARNESS' in l]
        return sid, p.returncode == 1, '%s rc=%d %s' % (
            prop, p.returncode, ' | '.join(lines)[:120])
    finally:
        shutil.rmtree(tmp)


if __name__ == '__main__':
    if sys.argv[1] in ('--verify', '--caught'):
        fn = verify if sys.argv[1] == '--verify' else caught
        ids = sorted(i for i in os.listdir(SEEDED) if not sys.argv[2:] or
                     any(i.startswith(a) for a in sys.argv[2:]))
        with ThreadPoolExecutor(3) as ex:
            for sid, ok, msg in ex.map(fn, ids):
                print('%-28s %s %s' % (sid, 'ok' if ok else '***NO', msg))
                sys.stdout.flush()
    else:
        for s in runpy.run_path(sys.argv[1])['S']:
            if not sys.argv[2:] or any(s['id'].startswith(a)
                                       for a in sys.argv[2:]):
                make(s)
                print('made', s['id'])
