'''
Plants a bug: makes seeded/<id>/ from a description, after confirming that the
change builds, passes the stable tests and that the demonstration tells the
trees apart. Usage: plant.py FILE [ID...], where FILE defines a list BUGS of
dicts with id, property, file(s), edits, demo, needs, breaks; without
arguments after plant.py --run [ID...] it runs the quick check of the property
of each planted bug and prints which catch it.
'''
import json
import os
import subprocess
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, 'seeded')
WORK = '/tmp/plant.%d' % os.getpid()  # /repo itself is never touched
REPO = WORK + '/causets'
BASE = '90980a5'
DEMO = '''#!/bin/sh
PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True,
                          **kw)


def undo():
    sh('git -C %s checkout -- .' % REPO)


def edit(fn, pairs):
    p = os.path.join(REPO, fn)
    with open(p, newline='') as f:
        s = f.read()
    for a, b in pairs:
        if '\r\n' in s:
            a, b = a.replace('\n', '\r\n'), b.replace('\n', '\r\n')
        if s.count(a) != 1:
            return 'text found %d times: %r' % (s.count(a), a)
        s = s.replace(a, b)
    with open(p, 'w', newline='') as f:
        f.write(s)
    return ''


def original(fn):
    '''lines the change removes that are not of the original repository'''
    d = sh('git -C %s diff -U0 -- %s' % (REPO, fn)).stdout
    bad = []
    for h in d.splitlines():
        if h.startswith('@@'):
            a = h.split()[1][1:].split(',')
            n = int(a[1]) if len(a) > 1 else 1
            if n:
                b = sh('git -C %s blame -s -L %s,+%d HEAD -- %s'
                       % (REPO, a[0], n, fn)).stdout
                bad += [x for x in b.splitlines()
                        if BASE not in x.split()[0]]
    return bad


ENV = dict(os.environ, PYTHONPATH=WORK, MPLBACKEND='Agg',
           MPLCONFIGDIR='/opt/venv/mplconfig', PYTHONDONTWRITEBYTECODE='1',
           PYTHONHASHSEED='0')


def tests():
    '''as /opt/vp/test.sh, in the copy'''
    r = sh('/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=60'
           ' --rootdir=%s --continue-on-collection-errors --disable-warnings'
           ' --tb=short -rA --pyargs causets' % WORK, cwd=WORK, env=ENV)
    bad = [x for x in r.stdout.splitlines()
           if x.startswith(('FAILED', 'ERROR'))]
    n = len([x for x in r.stdout.splitlines() if x.startswith('PASSED')])
    return '' if n >= 28 and not bad else 'tests: %d pass %s' % (n, bad)


def plant(bug):
    d = os.path.join(SEEDED, bug['id'])
    undo()
    for fn, pairs in bug['edits'].items():
        e = edit(fn, pairs)
        if e:
            return e
    bad = [x for fn in bug['edits'] for x in original(fn)]
    patch = subprocess.run('git -C %s diff' % REPO, shell=True,
                           capture_output=True).stdout
    os.makedirs(d, exist_ok=True)
    with open(d + '/patch.diff', 'wb') as f:
        f.write(patch)
    with open(d + '/demo.sh', 'w') as f:
        f.write(DEMO)
    os.chmod(d + '/demo.sh', 0o755)
    with open(d + '/demo.py', 'w') as f:
        f.write(bug['demo'].strip('\n') + '\n')
    with open(d + '/meta.json', 'w') as f:
        json.dump({'property': bug['property'], 'needs': bug['needs'],
                   'what_it_breaks': bug['breaks']}, f, indent=1)
    e = tests()
    if not e:
        r = sh('timeout 300 %s/demo.sh' % d, cwd=REPO, env=ENV)
        if r.returncode == 0:
            e = 'demo passes with the change'
        else:
            print('   demo:', (r.stderr or r.stdout).strip().splitlines()[-1:])
    undo()
    if not e:
        r = sh('timeout 300 %s/demo.sh' % d, cwd=REPO, env=ENV)
        if r.returncode:
            e = 'demo fails without: ' + r.stderr[-300:]
    if not e and bad:
        return 'WARNING not original: %s' % bad
    return e


def check(name):
    d = os.path.join(SEEDED, name)
    with open(d + '/meta.json') as f:
        prop = json.load(f)['property']
    undo()
    r = sh('git -C %s apply --whitespace=nowarn %s/patch.diff' % (REPO, d))
    if r.returncode:
        return 'patch does not apply: ' + r.stderr
    try:
        r = sh('VERIF_SEED=1 VERIF_TIER=quick VERIF_REPO=%s VERIF_OUT=%s/out '
               'python3 check.py %s --tier quick --seed 1'
               % (REPO, WORK, prop), cwd=ROOT)
    finally:
        undo()
    out = r.stdout.splitlines()
    v = [i for i, x in enumerate(out) if x.startswith('VIOLATION property=%s '
                                                      % prop)]
    if r.returncode == 1 and v:
        return 'caught: ' + out[v[0] + 1].strip()[:150]
    return 'MISSED (exit %d) %s' % (r.returncode,
                                    (out or [''])[-1] + r.stderr[-200:])


if __name__ == '__main__':
    os.makedirs(WORK)
    sh('cp -a /repo ' + REPO)
    undo()
    if sys.argv[1] == '--run':
        for name in sys.argv[2:] or sorted(os.listdir(SEEDED)):
            print(name, check(name), flush=True)
    else:
        ns = {}
        with open(sys.argv[1]) as f:
            exec(f.read(), ns)
        for bug in ns['BUGS']:
            if len(sys.argv) > 2 and bug['id'] not in sys.argv[2:]:
                continue
            e = plant(bug)
            print(bug['id'], e or 'planted', flush=True)
            if e and not e.startswith('WARNING'):
                sh('rm -r %s/%s' % (SEEDED, bug['id']))
            elif '-n' not in sys.argv:
                print('  ', check(bug['id']), flush=True)
    sh('rm -rf ' + WORK)
