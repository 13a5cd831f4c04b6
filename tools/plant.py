"""plant.py SPEC.py [id ...]: make seeded/<id> from a spec and validate it.
SPEC defines BUGS = {id: dict(prop, edits=[(file, old, new)], demo, needs,
what)}. demo is Python source run with the repository on sys.path."""
import json, os, subprocess, sys, runpy
REPO = '/repo'
SEED = '/verif/seeded'
spec = runpy.run_path(sys.argv[1])['BUGS']
ids = sys.argv[2:] or list(spec)
DEMO = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **k)


def base():
    return set(json.load(open('/opt/vp/BASELINE.json')).get('stable') or
               json.load(open('/opt/vp/BASELINE.json')).get('passed') or
               json.load(open('/opt/vp/BASELINE.json')).get('tests'))


for i in ids:
    b = spec[i]
    assert sh('git -C %s status --porcelain -uno' % REPO).stdout == ''
    d = os.path.join(SEED, i)
    os.makedirs(d, exist_ok=True)
    open(d + '/demo.sh', 'w').write(DEMO)
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.py', 'w').write(b['demo'])
    json.dump({'property': b['prop'], 'needs': b['needs'],
               'what_it_breaks': b['what']}, open(d + '/meta.json', 'w'),
              indent=1)
    res = []
    try:
        r = sh('bash /opt/vp/build.sh')
        r = sh('bash %s/demo.sh' % d, cwd=REPO, timeout=300)
        res.append('clean-demo=%d' % r.returncode)
        if r.returncode:
            print(r.stdout[-800:])
        for f, old, new in b['edits']:
            p = os.path.join(REPO, f)
            s = open(p, encoding='utf-8').read()
            assert s.count(old) == 1, (i, f, s.count(old), old)
            open(p, 'w', encoding='utf-8').write(s.replace(old, new))
        open(d + '/patch.diff', 'w').write(
            sh('git -C %s diff' % REPO).stdout)
        r = sh('bash /opt/vp/build.sh')
        res.append('build=%d' % r.returncode)
        r = sh('bash %s/demo.sh' % d, cwd=REPO, timeout=300)
        res.append('bug-demo=%d' % r.returncode)
        if os.environ.get('NOTEST') is None:
            sh('bash /opt/vp/test.sh /tmp/w/plant.json')
            o = json.load(open('/tmp/w/plant.json'))
            now = set(o.get('stable') or o.get('passed') or o.get('tests'))
            res.append('missing=%d %s' % (len(base() - now),
                                          sorted(base() - now)[:3]))
        r = sh('cd /verif && timeout 900 python3 check.py %s' % b['prop'])
        res.append('CHECK=%d' % r.returncode)
        out = r.stdout
    finally:
        sh('git -C %s checkout -- .' % REPO)
    print(i, b['prop'], *res, flush=True)
    print('    ' + '\n    '.join(x[:160] for x in out.splitlines()
          if 'rule' not in x[:7] and 'KNOWN' not in x)[:900], flush=True)
sh('bash /opt/vp/build.sh')
