#!/usr/bin/env python3
"""Makes and tests planted bugs.  seed.py make SPECFILE | seed.py test ID... | seed.py check ID..."""
import json
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, 'seeded')
REPO = '/repo'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def clean():
    assert not sh('git -C /repo status --porcelain').stdout.strip(), 'repo not clean'


def revert():
    sh('git -C /repo checkout -- .')


def bug(id, prop, needs, breaks, edits, demo):
    clean()
    try:
        for f, old, new in edits:
            path = os.path.join(REPO, f)
            s = open(path, encoding='utf-8', newline='').read()
            crlf = '\r\n' in s
            if crlf:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(path, 'w', encoding='utf-8', newline='').write(s.replace(old, new))
        diff = subprocess.run('git -C /repo diff', shell=True, capture_output=True).stdout
    finally:
        revert()
    d = os.path.join(SEED, id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    open(os.path.join(d, 'demo.py'), 'w').write(demo)
    shutil.copy(os.path.join(HERE, 'tools/demo/demolib.py'), d)
    open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" LANG=C.UTF-8\n'
                                                'exec timeout 250 /opt/vp/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)


def demo(id):
    return sh('bash %s/%s/demo.sh' % (SEED, id), cwd=REPO)


def test(id, tests=True):
    clean()
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    meta = json.load(open(os.path.join(SEED, id, 'meta.json')))
    out = {'id': id, 'property': meta['property']}
    try:
        r = sh('git -C /repo apply %s/%s/patch.diff' % (SEED, id))
        assert r.returncode == 0, r.stderr
        if tests:
            sh('bash /opt/vp/test.sh /tmp/seed_out.json')
            ok = set(json.load(open('/tmp/seed_out.json'))['passed'])
            out['tests'] = not (stable - ok) or sorted(stable - ok)
            r = demo(id)
            out['demo_bug'] = r.returncode
            if r.returncode == 0:
                out['demo_out'] = (r.stdout + r.stderr)[-500:]
        out.update(check(id, meta))
    finally:
        revert()
    if tests:
        sh('bash /opt/vp/build.sh')
        r = demo(id)
        out['demo_clean'] = r.returncode
        if r.returncode:
            out['demo_out'] = (r.stdout + r.stderr)[-1500:]
    good = out['check'] == 1 and (not tests or out['tests'] is True and out['demo_bug'] != 0 and out['demo_clean'] == 0)
    print('OK  ' if good else 'BAD ', json.dumps(out, ensure_ascii=False), flush=True)
    return good


def check(id, meta):
    t = time.time()
    r = sh('/opt/vp/venv/bin/python check.py %s' % meta['property'], cwd=HERE, env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
    v = [l for l in r.stdout.split('\n') if l.startswith('violation')]
    return {'check': r.returncode, 'check_s': round(time.time() - t), 'why': (v or r.stdout.split('\n')[-3:] + [r.stderr[-300:]])[0][:200]}


if __name__ == '__main__':
    if sys.argv[1] == 'make':
        exec(compile(open(sys.argv[2]).read(), sys.argv[2], 'exec'))
    else:
        ids = sys.argv[2:] or sorted(os.listdir(SEED))
        bad = [i for i in ids if not test(i, sys.argv[1] == 'test')]
        print('bad:', bad)
