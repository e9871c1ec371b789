#!/usr/bin/env python3
"""plant.py ID...: confirms planted bugs in scratch copies of /repo (see seeded/).

For each: the patch applies to HEAD, the stable tests still pass, demo.sh passes without
and fails with it. With --check, also runs the property's quick check on the patched copy."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

SEEDED = '/verif/seeded'


def sh(cmd, cwd, **env):
    return subprocess.run(cmd, cwd=cwd, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', TZ='UTC', **env),
                          capture_output=True, text=True, timeout=900)


def stable(d):
    out = d + '.json'
    script = open('/opt/vp/test.sh').read().replace('/repo', d)
    f = d + '.sh'
    open(f, 'w').write(script)
    sh(['bash', f, out], d, PYTHONPATH=d)
    base = json.load(open('/opt/vp/BASELINE.json'))
    res = json.load(open(out))
    os.remove(out)
    os.remove(f)

    def passed(x):
        for k in ('stable', 'passed', 'pass', 'passing', 'tests'):
            if isinstance(x.get(k), list):
                return set(x[k])
        return {k for k, v in x.items() if v in ('passed', 'pass', True)}
    return sorted(passed(base) - passed(res))


def one(id, check):
    p = os.path.join(SEEDED, id)
    prop = json.load(open(f'{p}/meta.json'))['property']
    d = tempfile.mkdtemp(prefix='plant-')
    demo = tempfile.mkdtemp(prefix='demo-')
    try:
        subprocess.run(['cp', '-a', '/repo/.', d], check=True)
        sh(['git', 'checkout', '-q', '--', '.'], d)
        shutil.copytree(p, demo, dirs_exist_ok=True)
        r0 = sh(['bash', f'{demo}/demo.sh'], d)
        if r0.returncode:
            return f'{id}: DEMO FAILS ON CLEAN TREE {r0.stdout[-600:]} {r0.stderr[-800:]}'
        r = sh(['git', 'apply', f'{p}/patch.diff'], d)
        if r.returncode:
            return f'{id}: PATCH DOES NOT APPLY {r.stderr}'
        r1 = sh(['bash', f'{demo}/demo.sh'], d)
        if not r1.returncode:
            return f'{id}: DEMO PASSES WITH PATCH'
        miss = stable(d)
        if miss:
            return f'{id}: TESTS FAIL {miss[:3]}'
        msg = f'{id}: counts; demo: {(r1.stdout + r1.stderr).strip().splitlines()[-1][:150]}'
        if check:
            r = sh(['/verif/check.py', prop], '/verif', VERIF_REPO=d, EVIDENCE_DIR=d + '-ev')
            out = [x for x in r.stdout.splitlines() if x.startswith(('VIOLATION', 'OK', 'KNOWN'))]
            msg += f'\n    {prop} exit {r.returncode}: {" | ".join(x[:120] for x in out[-3:])}'
        return msg
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(demo, ignore_errors=True)


if __name__ == '__main__':
    ids = [a for a in sys.argv[1:] if not a.startswith('--')] or sorted(os.listdir(SEEDED))
    check = '--check' in sys.argv
    with ThreadPoolExecutor(1 if check else 6) as ex:
        for line in ex.map(lambda i: one(i, check), ids):
            print(line, flush=True)
