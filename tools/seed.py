#!/usr/bin/env python3
"""seed.py ID...: confirm planted bugs: demo passes on /repo, fails with the patch, tests pass, and say which check fires.
seed.py --checks ID...: only run the checks against a patched copy."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'


def sh(cmd, cwd=REPO, env=None, timeout=900):
    e = dict(os.environ, **(env or {}))
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def failing():
    fd, out = tempfile.mkstemp()
    sh('bash /opt/vp/test.sh %s' % out)
    d = json.load(open(out))
    os.unlink(out)
    base = json.load(open('/opt/vp/BASELINE.json'))
    names = base.get('stable') or base.get('tests') or base.get('passed')
    passed = set(d.get('passed') or [k for k, v in d.get('tests', {}).items() if v in ('passed', 'pass', True)])
    return [n for n in names if n not in passed]


def demo(sd):
    d = tempfile.mkdtemp()
    for f in os.listdir(sd):
        if not f.endswith(('.diff', '.patch')) and f != 'meta.json':
            shutil.copy(os.path.join(sd, f), d)
    rc, out = sh('bash %s/demo.sh' % d, timeout=300)
    shutil.rmtree(d)
    return rc, out


def checks(sd, prop, everything=False):
    d = tempfile.mkdtemp()
    sh('git archive HEAD | tar -x -C %s' % d)
    rc, out = sh('git apply --unsafe-paths --directory=%s %s/patch.diff' % (d, sd), cwd='/')
    if rc:
        rc, out = sh('patch -p1 < %s/patch.diff' % sd, cwd=d)
        assert rc == 0, out
    man = json.load(open(os.path.join(ROOT, 'MANIFEST.json')))
    ids = [c['property'] for c in man['checks']]
    hits = []
    for i in ids if everything else [prop]:
        rc, out = sh('python3 check.py %s' % i, cwd=ROOT, env={'SA_REPO': d})
        if rc:
            hits.append('%s(rc=%d)' % (i, rc))
            if i == prop or rc != 1:
                print('     ' + '\n     '.join(out.strip().splitlines()[-4:])[:900])
    shutil.rmtree(d)
    return hits


def main():
    args = sys.argv[1:]
    only = '--checks' in args
    every = '--all' in args
    ids = [a for a in args if not a.startswith('-')] or sorted(os.listdir(os.path.join(ROOT, 'seeded')))
    for i in ids:
        sd = os.path.join(ROOT, 'seeded', i)
        prop = json.load(open(os.path.join(sd, 'meta.json')))['property']
        msg = []
        if not only:
            assert sh('git status --porcelain -uno')[1] == '', 'repo dirty'
            sh('bash /opt/vp/build.sh')
            rc, out = demo(sd)
            msg.append('clean demo ' + ('ok' if rc == 0 else 'BAD %d %s' % (rc, out[-400:])))
            rc, out = sh('git apply %s/patch.diff' % sd)
            if rc:
                print(i, 'PATCH DOES NOT APPLY', out)
                continue
            try:
                rc, out = sh('bash /opt/vp/build.sh')
                msg.append('build ' + ('ok' if rc == 0 else 'BAD ' + out[-400:]))
                f = failing()
                msg.append('tests ' + ('ok' if not f else 'BAD %s' % f[:3]))
                rc, out = demo(sd)
                msg.append('patched demo ' + ('fails: ' + out.strip()[-120:].replace('\n', ' | ') if rc else 'BAD passes'))
            finally:
                sh('git checkout -- .')
                sh('bash /opt/vp/build.sh')
        h = checks(sd, prop, every)
        print('%s [%s] %s; caught by %s' % (i, prop, '; '.join(msg), h or 'NOTHING'), flush=True)


if __name__ == '__main__':
    main()
