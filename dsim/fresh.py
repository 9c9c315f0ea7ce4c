"""One run of a scenario in an interpreter of its own, with a given hash
seed: python -m dsim.fresh ID  (plan as JSON on stdin, result as JSON)."""
import json
import os
import subprocess
import sys

from dsim import env


def outcome(prop, plan, hashseed, timeout=100):
    e = dict(os.environ, PYTHONHASHSEED=str(hashseed), DSIM_REPO=env.REPO,
             PYTHONPATH=env.VERIF)
    p = subprocess.run([sys.executable, '-m', 'dsim.fresh', prop],
                       input=json.dumps(plan).encode(), env=e, timeout=timeout,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    lines = p.stdout.decode().strip().split('\n')
    if p.returncode or not lines[-1].startswith('{'):
        from dsim.core import HarnessError
        raise HarnessError('fresh interpreter: %s' % p.stderr.decode()[-2000:])
    return json.loads(lines[-1])


def main(prop):
    from dsim import core, runner
    plan = json.load(sys.stdin)
    scn = runner.scenarios()[prop]
    scn.prepare()
    core.reset_world(plan)
    try:
        out = scn.fresh(plan)
    except Exception as exc:
        out = {'raised': '%s: %s' % (type(exc).__name__, exc)}
    print(json.dumps(out))


if __name__ == '__main__':
    main(sys.argv[1])
