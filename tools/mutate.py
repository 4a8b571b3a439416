'''
Small mutations of the code, to look for blind spots of the checks:
  mutate.py list                 counts the mutations per file
  mutate.py run OUT N SEED J [FILE[:FUNCTION]...]
Takes N random mutations, keeps those with which the stable tests pass, runs
the quick checks that may notice (see WHO) and writes one line each to OUT.
Surviving ones are read by a person: equivalent, or a check to strengthen.
'''
import ast
import json
import os
import random
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ['calculations.py', 'causet.py', 'causetevent.py',
         'causetplotting.py', 'colorschemes.py', 'embeddedcauset.py',
         'shapes.py', 'spacetimes.py', 'sprinkledcauset.py']
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=',
       ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not',
       ast.IsNot: 'is'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.BitAnd: '|',
       ast.BitOr: '&', ast.Pow: '*', ast.Mod: '+', ast.FloorDiv: '*'}
ATTR = {'_prec': '_succ', '_succ': '_prec', '_lprec': '_lsucc',
        '_lsucc': '_lprec', 'Past': 'Future', 'Future': 'Past',
        'PastCard': 'FutureCard', 'FutureCard': 'PastCard',
        'LinkPast': 'LinkFuture', 'LinkFuture': 'LinkPast',
        'PresentOrPast': 'Past', 'PresentOrFuture': 'Future',
        'minimum': 'maximum', 'maximum': 'minimum', 'update': 'add'}
NAME = {'min': 'max', 'max': 'min', 'any': 'all', 'all': 'any'}
SKIP = set()
FUN = [('isChain isPath isAntichain', 'C09'),
       ('CentralAntichain', 'C15'),
       ('Layers LayerNumbers layered', 'C12'),
       ('Ranks RankNumbers Rank', 'C11'), ('Paths Paths_find', 'C10'),
       ('SmallestIntervalCard DistanceMatrix Antipaths Antipaths_find', 'C16'),
       ('disjoint isDisjoint', 'C14'),
       ('sortedByLabels sortedByCausality', 'C13'),
       ('PastMatrix FutureMatrix LinkPastMatrix LinkFutureMatrix saveAsCSV '
        'FromPastMatrix FromFutureMatrix FromTextFile', 'C07'),
       ('FromPermutation NewChain NewAntichain NewSimplex NewFence NewCrown',
        'C06'),
       ('LinkCount link unlink LinkCountOf', 'C03'),
       ('copy CoordinatesDim Position', 'C23'), ('disjoin', 'C04'),
       ('Causality isCausal', 'C19'),
       ('ConePlotter conePlotter coneplotter', 'C26'),
       ('LengthScale Density Intensity', 'C21'),
       ('RectangleEdge CircleEdge EllipseEdge BiconeEdge CylinderCutEdge '
        'CuboidSurface CubeSurface BallSurface CylinderSurface '
        'OpenConeSurface', 'C33'),
       ('__repr__ __str__', 'C35')]
WHO = {'calculations.py': ['C28', 'C31'],
       'causet.py': ['C05', 'C08', 'C17', 'C02', 'C01', 'C03'],
       'causetevent.py': ['C03', 'C02', 'C01', 'C23', 'C08', 'C04'],
       'causetplotting.py': ['C25', 'C34', 'C26', 'C27', 'C29'],
       'colorschemes.py': ['C27', 'C34'],
       'embeddedcauset.py': ['C18', 'C24', 'C05', 'C21'],
       'shapes.py': ['C22', 'C20', 'C24', 'C29', 'C33', 'C30', 'C21'],
       'spacetimes.py': ['C32', 'C19', 'C26', 'C24', 'C18'],
       'sprinkledcauset.py': ['C21', 'C20', 'C30', 'C24']}


def mutants(fn, src):
    '''(function, line, start, end, new text)'''
    tree = ast.parse(src)
    starts = [0]
    for ln in src.splitlines(True):
        starts.append(starts[-1] + len(ln))
    out = []

    def pos(n):
        return (starts[n.lineno - 1] + n.col_offset,
                starts[n.end_lineno - 1] + n.end_col_offset)

    def sub(n, old, new, lo, hi):
        '''the operator between two operands'''
        k = src.find(old, lo, hi)
        if k >= 0:
            out.append((fun[-1], n.lineno, k, k + len(old), new))
    fun = ['']
    sym = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=',
           ast.Eq: '==', ast.NotEq: '!=', ast.In: 'in', ast.NotIn: 'not in',
           ast.Is: 'is', ast.IsNot: 'is not', ast.Add: '+', ast.Sub: '-',
           ast.Mult: '*', ast.Div: '/', ast.BitAnd: '&', ast.BitOr: '|',
           ast.Pow: '**', ast.Mod: '%', ast.FloorDiv: '//'}

    def body(stmts):
        for s in stmts:
            visit(s)

    def visit(n):
        if isinstance(n, ast.FunctionDef):
            if n.name in SKIP:
                return
            fun.append(n.name)
            for d in n.args.defaults + n.args.kw_defaults:
                if d is not None:
                    visit(d)
            b = n.body
            if isinstance(b[0], ast.Expr) and \
                    isinstance(b[0].value, ast.Constant):
                b = b[1:]
            body(b)
            fun.pop()
            return
        if isinstance(n, ast.Raise):
            return
        if isinstance(n, ast.AnnAssign):
            if n.value is not None:
                visit(n.value)
            return
        a, b = pos(n) if hasattr(n, 'lineno') else (0, 0)
        if len(fun) > 1:
            if isinstance(n, ast.Compare):
                lo = pos(n.left)[1]
                for op, c in zip(n.ops, n.comparators):
                    if type(op) in CMP:
                        sub(n, sym[type(op)], CMP[type(op)], lo, pos(c)[0])
                    lo = pos(c)[1]
            elif isinstance(n, ast.BinOp) and type(n.op) in BIN and \
                    not (isinstance(n.left, (ast.Constant, ast.JoinedStr)) and
                         isinstance(getattr(n.left, 'value', 0), str)):
                sub(n, sym[type(n.op)], BIN[type(n.op)], pos(n.left)[1],
                    pos(n.right)[0])
            elif isinstance(n, ast.BoolOp):
                w = 'and' if isinstance(n.op, ast.And) else 'or'
                for x, y in zip(n.values, n.values[1:]):
                    sub(n, w, 'or' if w == 'and' else 'and', pos(x)[1],
                        pos(y)[0])
            elif isinstance(n, ast.UnaryOp):
                if isinstance(n.op, ast.Not):
                    out.append((fun[-1], n.lineno, a, a + 3, ''))
                elif isinstance(n.op, ast.USub):
                    out.append((fun[-1], n.lineno, a, a + 1, '+'))
            elif isinstance(n, ast.Constant):
                v = n.value
                if v is True or v is False:
                    out.append((fun[-1], n.lineno, a, b, str(not v)))
                elif isinstance(v, int):
                    out.append((fun[-1], n.lineno, a, b, str(v + 1)))
                    if v > 0:
                        out.append((fun[-1], n.lineno, a, b, str(v - 1)))
                elif isinstance(v, float):
                    out.append((fun[-1], n.lineno, a, b, repr(v * 1.5 + .1)))
            elif isinstance(n, ast.Attribute) and n.attr in ATTR:
                out.append((fun[-1], n.lineno, b - len(n.attr), b,
                            ATTR[n.attr]))
            elif isinstance(n, ast.Name) and n.id in NAME:
                out.append((fun[-1], n.lineno, a, b, NAME[n.id]))
            if isinstance(n, (ast.If, ast.IfExp, ast.While)):
                c, d = pos(n.test)
                if not isinstance(n, ast.While):
                    out.append((fun[-1], n.lineno, c, d, 'True'))
                out.append((fun[-1], n.lineno, c, d, 'False'))
            if isinstance(n, (ast.Expr, ast.AugAssign, ast.Delete,
                              ast.Continue, ast.Break)) or \
                    isinstance(n, ast.Return) and n.value is None:
                out.append((fun[-1], n.lineno, a, b, 'pass'))
            if isinstance(n, ast.Assign) and \
                    isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
                out.append((fun[-1], n.lineno, a, b, 'pass'))
        for c in ast.iter_child_nodes(n):
            visit(c)
    visit(tree)
    good = []
    for m in out:
        try:
            ast.parse(src[:m[2]] + m[4] + src[m[3]:])
            good.append(m)
        except SyntaxError:
            pass
    return good


def load(repo, fn):
    with open(os.path.join(repo, fn), newline='') as f:
        return f.read()


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True,
                          **kw)


def who(fn, fun):
    first = [p for names, p in FUN if fun in names.split()]
    return first + [p for p in WHO[fn] if p not in first]


def one(args):
    k, fn, m, most = args
    work = '/tmp/mut/w%d' % os.getpid() + '_%d' % k
    repo = work + '/causets'
    os.makedirs(work)
    try:
        sh('cp -a /repo ' + repo)
        src = load(repo, fn)
        old = src[m[2]:m[3]]
        with open(os.path.join(repo, fn), 'w', newline='') as f:
            f.write(src[:m[2]] + m[4] + src[m[3]:])
        res = {'k': k, 'file': fn, 'fun': m[0], 'line': m[1], 'old': old,
               'new': m[4],
               'text': src.splitlines()[m[1] - 1].strip()[:100]}
        env = dict(os.environ, PYTHONPATH=work, MPLBACKEND='Agg',
                   MPLCONFIGDIR='/opt/venv/mplconfig',
                   PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
        r = sh('timeout 120 /opt/venv/bin/python -m pytest -q -x '
               '-p no:cacheprovider --timeout=30 --rootdir=%s '
               '--disable-warnings --tb=no -rA --pyargs causets' % work,
               cwd=work, env=env)
        n = len([x for x in r.stdout.splitlines() if x.startswith('PASSED')])
        if n < 28:
            res['state'] = 'tests'
            return res
        res['state'] = 'SURVIVED'
        res['ran'] = []
        for p in who(fn, m[0])[:most]:
            r = sh('VERIF_SHARDS=3 VERIF_REPO=%s VERIF_OUT=%s/out timeout 600 '
                   'python3 check.py %s --tier quick --seed 1'
                   % (repo, work, p), cwd=ROOT)
            res['ran'].append('%s:%d' % (p, r.returncode))
            if r.returncode == 1:
                res['state'] = 'caught'
                break
            if r.returncode != 0:
                res['err'] = (r.stdout + r.stderr)[-300:]
        return res
    finally:
        sh('rm -rf ' + work)


def main():
    if sys.argv[1] == 'list':
        for fn in FILES:
            print(fn, len(mutants(fn, load('/repo', fn))))
        return
    out, n, seed, jobs = sys.argv[2], *map(int, sys.argv[3:6])
    pick = sys.argv[6:]
    A = []
    for fn in FILES:
        for m in mutants(fn, load('/repo', fn)):
            if not pick or fn in pick or fn + ':' + m[0] in pick:
                A.append((fn, m))
    rng = random.Random(seed)
    rng.shuffle(A)
    A = [(k, fn, m, 4) for k, (fn, m) in enumerate(A[:n])]
    with ThreadPoolExecutor(jobs) as ex, open(out, 'a') as f:
        for res in ex.map(one, A):
            f.write(json.dumps(res) + '\n')
            f.flush()


if __name__ == '__main__':
    main()
