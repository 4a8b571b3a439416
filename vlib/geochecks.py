'''
Checks of the geometry: C18-C22, C24, C26. The exact causal structures are in
Spacetimes.tla, regions and volumes in Shapes.tla.
'''
import itertools
import json

SPACETIME_CFG = '''SPECIFICATION Spec
CONSTANTS
  T = %d
  X = %d
  MM <- Spaces
INVARIANTS Reflexive AntiSym Transitive3 TimeOrder RadiusOrder HorizonOrder
'''


def spacetime_theorems(run):
    run.model_check('SpacetimeMC', SPACETIME_CFG % (2, run.pick(4, 6)),
                    'the causal structures of all spacetimes are partial '
                    'orders on the lattices')


# ---------------------------------------------------------------------------
# lattices

def scale(rng):
    return rng.choice([1.0, 0.5, 2.0, 0.1, 0.25, 0.37, 1.7])


def flat(rng, d=None, periodic=None):
    d = d or rng.choice([2, 2, 3, 3, 4, 5, 1])
    per = [0] * (d - 1)
    if periodic or (periodic is None and rng.random() < 0.5):
        per = [rng.choice([0, 3, 4, 5, 6, 7]) for _ in per]
        if rng.random() < 0.4 and per:
            per = [rng.choice([3, 4, 5, 7, 8])] * len(per)
        elif rng.random() < 0.15:  # switches nothing on
            per = [-k if rng.random() < 0.5 else k for k in per]
            if per and rng.random() < 0.5:
                per[0] = -rng.randint(3, 7)
    return {'k': 'flat', 'd': d, 'per': per,
            'form': rng.choice(['float', 'tuple', 'default'])
            if len(set(per)) <= 1 and d > 1 else
            ('default' if d == 1 else 'tuple')}


def flat_point(rng, m, w=None):
    w = w or rng.choice([2, 3, 6, 12])
    return [rng.randint(-w, w) for _ in range(m['d'])]


def ds(rng, d=None):
    return {'k': 'dS', 'd': d or rng.choice([2, 2, 3, 3, 4]),
            'R': rng.choice([3, 5, 5, 7, 10])}


def ds_point(rng, m, beyond=0.06):
    R = m['R']
    while True:
        w = R if rng.random() < 0.9 else R + 2
        x = [rng.randint(-w, w) for _ in range(m['d'] - 1)]
        if rng.random() < 0.3:
            x = [0 if rng.random() < 0.6 else c for c in x]
        n = sum(c * c for c in x)
        if n < R * R or (n > R * R and rng.random() < beyond):
            return [rng.randint(-2, 2)] + x


ANGLES = [(3, 5, 4), (4, 5, 5), (1, 2, 0), (5, 13, 3), (1, 3, 3), (1, 4, 3)]


def ads(rng, d=None):
    p, q, _ = rng.choice([a for a in ANGLES if a[2] and a[1] < 10])
    return {'k': 'AdS', 'd': d or rng.choice([2, 2, 3, 3, 4]),
            'R': rng.choice([2, 3, 4, 5]), 'p': p, 'q': q}


def ads_point(rng, m):
    w = 4 if m['d'] < 4 else 3
    return [rng.choice([0, 1, 2, 3, 0, 1, 2, 3, 5, 8, -1, -2])] + \
        [rng.randint(-w, w) for _ in range(m['d'] - 1)]


def bh(rng, k=None):
    return {'k': k or rng.choice(['EF', 'S']), 'd': 2,
            'form': rng.choice(['default', 'named'])}


def bh_point(rng, m):
    q = rng.choice([8, 12, 14, 15, 17, 18, 20, 24, 32, 48])
    if m['k'] == 'EF' and rng.random() < 0.15:  # on the horizon
        q = 16
    return [rng.randint(-40, 40), rng.choice([0, 0, 16, -16, 32, -32, 48,
                                              rng.randint(-40, 40)]),
            rng.choice([1, 1, 1, -1]), q]


LATTICE = {'flat': (flat, flat_point), 'dS': (ds, ds_point),
           'AdS': (ads, ads_point), 'EF': (lambda r: bh(r, 'EF'), bh_point),
           'S': (lambda r: bh(r, 'S'), bh_point)}


def lightlike(rng, m, p):
    '''a point on or next to the light cone of p, if easily found'''
    if m['k'] == 'flat':
        v = rng.choice([(5, 3, 4), (13, 5, 12), (1, 1, 0), (2, 2, 0),
                        (3, 1, 2, 2), (7, 2, 3, 6), (5, 4, 3), (9, 4, 4, 7)])
        d = m['d'] - 1
        if len([x for x in v[1:] if x]) > d:
            v = (1, 1)
        x = list(v[1:])[:d] + [0] * max(0, d - len(v) + 1)
        rng.shuffle(x)
        x = [rng.choice([1, -1]) * c for c in x]
        t = v[0] * rng.choice([1, -1]) + rng.choice([0, 0, 0, 1, -1])
        per = [rng.randint(-2, 2) * k for k in m['per']]
        return [p[0] + t] + [a + b + c for a, b, c in zip(p[1:], x, per)]
    if m['k'] in ('EF', 'S'):
        def lg(q):
            return abs(q - 16).bit_length() - 1
        q = rng.choice([8, 12, 14, 15, 17, 18, 20, 24, 32, 48])
        ef = m['k'] == 'EF'
        if p[3] == 16 or rng.random() < 0.5:  # ingoing
            a = p[3] - q
            b = 0 if ef else 16 * (lg(p[3]) - lg(q))
        else:
            a = q - p[3]
            b = (32 if ef else 16) * (lg(q) - lg(p[3]))
        return [p[0] + a + rng.choice([0, 0, 1, -1]), p[1] + b, p[2], q]
    return None


def simultaneous(rng, k, m, p, q):
    '''the place of p at the time of q'''
    return q[:2] + p[2:] if k in ('EF', 'S') else q[:1] + p[1:]


def lattice_case(rng, k, n):
    make, point = LATTICE[k]
    m = make(rng)
    pts = []
    while len(pts) < n:
        p = None
        if pts and rng.random() < 0.5:
            p = lightlike(rng, m, rng.choice(pts))
        if p is None and pts and rng.random() < 0.3:
            p = list(rng.choice(pts))      # same place, other time
            p[0] = point(rng, m)[0]
        if p is None and pts and rng.random() < 0.25:
            p = simultaneous(rng, k, m, point(rng, m), rng.choice(pts))
        pts.append(p or point(rng, m))
    sc = scale(rng)
    return {'m': m, 'pts': pts, 'sc': sc,
            't0': rng.choice([0.0, 0.0, 0.3, -1.1]) * sc}


def far(rng, case):
    '''
    Translates the events of a flat spacetime far from the origin (by powers
    of two, and with a power of two as unit, so that no number is rounded).
    '''
    m = case['m']
    if m['k'] == 'flat' and rng.random() < 0.3:
        case['sc'] = 2.0 ** -rng.choice([0, 4, 8, 12])
        o = [0.0, 2.0 ** 10, 2.0 ** 20, -2.0 ** 20, 2.0 ** 26]
        case['off'] = [rng.choice(o)] * m['d'] if rng.random() < 0.4 else \
            [rng.choice(o) for _ in range(m['d'])]
    return case


def check_C19(run):
    spacetime_theorems(run)
    rng = run.rng('C19')
    cases = []
    # whole small lattices: every pair of points
    for d, w in ((1, 4), (2, 3), (3, 1), (4, 1)):
        for per in ([0] * (d - 1), [3] * (d - 1), [4] + [0] * (d - 2),
                    [0] * (d - 2) + [5]):
            if len(per) != d - 1:
                continue
            pts = [list(p) for p in itertools.product(
                *([range(-w, w + 1)] + [range(-w, w + 1)] * (d - 1)))]
            rng.shuffle(pts)
            m = {'k': 'flat', 'd': d, 'per': per,
                 'form': 'tuple' if d > 1 else 'default'}
            cases.append({'m': m, 'pts': pts[:run.pick(60, 200)], 'sc': 1.0,
                          't0': 0.0})
    for k in LATTICE:
        for _ in range(run.pick(120, 1500)):
            cases.append(far(rng, lattice_case(rng, k, run.pick(14, 20))))
    for k in LATTICE:
        for _ in range(run.pick(20, 200)):
            m = LATTICE[k][0](rng)
            if m['d'] < 2 or any(m.get('per', [])):
                m = LATTICE['dS'][0](rng)
            cases.append({'m': {'k': 'any'}, 'sp': m, 'sc': scale(rng),
                          'n': run.pick(16, 30),
                          'seed': rng.randint(0, 10 ** 6)})
    run.validate('causality_driver', 'CausalityTrace', cases)
    run.assumptions += ['points of the lattices of Spacetimes.tla and random '
                        'points; the tolerance of rounding errors (1e-12) is '
                        'below the distance of lattice points to light cones']


def clauses_C19(case, driver, bad):
    for kind, i, j in bad['c']:
        k = (case.get('sp') or case['m'])['k']
        text = '%s: %s of %s' % (kind, json.dumps(case.get('sp')
                                                  or case['m']), k)
        if i and case.get('pts'):
            text += ' at %s, %s' % (case['pts'][i - 1], case['pts'][j - 1])
        yield 'C19', '%s/%s' % (kind, k), text


# ---------------------------------------------------------------------------
# C18

def on_ray(m, p, q):
    if m['k'] not in ('EF', 'S'):
        return False

    def lg(r):
        return (abs(r - 16).bit_length() - 1) * 16

    def vu(x):
        L = lg(x[3])
        if m['k'] == 'EF':
            return (x[0] + x[3], x[1]), (x[0] - x[3], x[1] - 2 * L)
        return (x[0] + x[3], x[1] + L), (x[0] - x[3], x[1] - L)
    a, b = vu(p), vu(q)
    return a[0] == b[0] or a[1] == b[1]


def same(m, p, q):
    if m['k'] != 'flat':
        return p == q
    return p[0] == q[0] and all(
        (a - b) % k == 0 if k > 0 else a == b
        for a, b, k in zip(p[1:], q[1:], m['per']))


def usable(m, pts, p):
    return not any(same(m, p, q) or on_ray(m, p, q) for q in pts)


def distinct_points(rng, k, n):
    make, point = LATTICE[k]
    m = make(rng)
    pts = []
    for _ in range(40 * n):
        if len(pts) >= n:
            break
        p = None
        if pts and rng.random() < 0.35:
            p = lightlike(rng, m, rng.choice(pts))
        p = p or (ds_point(rng, m, 0.0) if k == 'dS' else point(rng, m))
        if pts and rng.random() < 0.2:
            p = simultaneous(rng, k, m, p, rng.choice(pts))
        if usable(m, pts, p):
            pts.append(p)
    return m, pts


FORMATS = [[], [], ['e', ''], ['', ''], ['x', 'y'], ['a ', '!'],
           ['e', '', 3], ['', ';', 2], ['x', '', 0]]


def embedded_history(rng, k, n, steps):
    m, pts = distinct_points(rng, k, n + 2)
    spare, pts = pts[n:], pts[:n]
    h, mem, used, gone = [], [], 0, []
    for s in range(steps):
        ops = []
        if used < len(pts):
            ops += ['create'] * 4
        if mem:
            ops += ['discard', 'relate', 'relabel']
        if s and spare and used:
            ops += ['embed']
        if s:
            ops += ['add']
        if not ops:
            break
        op = rng.choice(ops) if s else 'create'
        if op == 'create':
            j = min(len(pts) - used, rng.choice([0, 1, 1, 2, 3, 5, 8]))
            a = {'op': 'create', 'pts': pts[used:used + j],
                 'fmt': rng.choice(FORMATS),
                 'relate': rng.random() < 0.7,
                 'via': rng.choice(['list', 'array', 'rows', 'tuples']),
                 'kw': rng.random() < 0.3}
            if s == 0:
                a['new'] = rng.choice(['coordinates', 'sprinkled', 'plain'])
                if a['new'] == 'coordinates':
                    a['fmt'], a['relate'] = [], True
            mem += list(range(used + 1, used + j + 1))
            used += j
        elif op == 'discard':
            S = [x for x in mem if rng.random() < rng.choice([0.2, 0.5])]
            a = {'op': 'discard', 's': S, 'via': rng.choice(['set', 'list'])}
            mem = [x for x in mem if x not in S]
            gone += S
        elif op == 'embed':
            a = {'op': 'embed', 'e': rng.randint(1, used), 'pt': spare.pop(),
                 'dis': rng.random() < 0.3}
        elif op == 'add':
            j = min(len(pts) - used, rng.choice([0, 0, 1, 2]))
            S = [x for x in gone if rng.random() < 0.5]
            if rng.random() < 0.2:
                S += mem[:1]
            a = {'op': 'add', 'pts': pts[used:used + j], 's': S,
                 'via': rng.choice(['set', 'list'])}
            new = list(range(used + 1, used + j + 1))
            gone = [x for x in gone if x not in S]
            mem = sorted(set(mem) | set(S)) + new
            used += j
        elif op == 'relate':
            a = {'op': 'relate', 'link': rng.random() < 0.6}
        else:
            a = {'op': 'relabel', 'dim': 1 if m['k'] in ('EF', 'S')
                 else rng.randint(1, m['d']), 'desc': rng.random() < 0.5,
                 'kw': rng.random() < 0.5}
            if m['k'] in ('EF', 'S'):
                continue
        a['obs'] = rng.random() < 0.6
        h.append(a)
    if h:
        h[-1]['obs'] = True
    sc = scale(rng)
    return far(rng, {'m': m, 'sc': sc, 't0': rng.choice([0.0, 0.2]) * sc,
                     'steps': h, 'h': rng.randint(0, 10 ** 6)})


def large_embedded(rng, n):
    '''a history with many more events than the others'''
    m = flat(rng, rng.randint(2, 4), periodic=rng.random() < 0.2)
    pts = []
    while len(pts) < n:
        p = flat_point(rng, m, rng.choice([9, 30]))
        if p not in pts and usable(m, pts, p):
            pts.append(p)
    few = rng.randint(1, n - 1)
    h = [{'op': 'create', 'pts': pts[:-few], 'fmt': rng.choice(FORMATS),
          'relate': rng.random() < 0.5, 'via': 'list', 'new': 'plain'},
         {'op': 'create', 'pts': pts[-few:], 'fmt': [],
          'relate': rng.random() < 0.5, 'via': 'array'},
         {'op': 'relate', 'link': rng.random() < 0.6},
         {'op': 'relabel', 'dim': rng.randint(1, m['d']),
          'desc': rng.random() < 0.5}]
    for a in h:
        a['obs'] = False
    h[-1]['obs'] = True
    sc = scale(rng)
    return far(rng, {'m': m, 'sc': sc, 't0': 0.0, 'steps': h,
                     'h': rng.randint(0, 10 ** 6)})


EMB_CFG = '''SPECIFICATION Spec
CONSTANTS
  MM <- MMv
  Pts <- PtsV
  N = %d
  More = %s
  Every = %d
  Emit = %s
VIEW View
INVARIANTS TypeOK OrderInv Sound
PROPERTIES CompleteAfterRelate DiscardKeeps
'''


def check_C18(run):
    spacetime_theorems(run)
    rng = run.rng('C18')
    n = run.pick(3, 4)
    hist = run.generate('EmbeddedMC', EMB_CFG % (n, 'FALSE', 1, 'TRUE'),
                        'HIST',
                        'histories of embedded causets with %d events' % n)
    more = run.generate('EmbeddedMC', EMB_CFG % (
        n - 1, 'TRUE', run.pick(1, 20), 'TRUE'), 'HIST',
        'the same with events that are added or embedded anew')
    more = [x for x in more if any(a['op'] in ('add', 'embed')
                                   for a in x['h'])]
    if run.tier == 'quick':
        run.model_check('EmbeddedMC', EMB_CFG % (3, 'TRUE', 1, 'FALSE'),
                        'histories of embedded causets keep the relations in '
                        'order')
    if len(more) > run.pick(1500, 20000):
        more = rng.sample(more, run.pick(1500, 20000))
    if len(hist) > run.pick(2500, 40000):
        hist = rng.sample(hist, run.pick(2500, 40000))
    cases = []
    for x in hist + more:
        steps = [dict(a) for a in x['h']]
        for a in steps:
            a['via'] = rng.choice(['list', 'array'])
            a['obs'] = rng.random() < 0.7
        steps[-1]['obs'] = True
        cases.append({'m': x['m'], 'sc': scale(rng), 't0': 0.0,
                      'steps': steps, 'h': rng.randint(0, 10 ** 6)})
    for k in LATTICE:
        for _ in range(run.pick(120, 1500)):
            cases.append(embedded_history(rng, k, rng.choice([6, 10, 14]),
                                          rng.randint(1, 8)))
    for _ in range(run.pick(2, 16)):
        cases.append(large_embedded(rng, rng.randint(105, 140)))
    flat2 = {'k': 'flat', 'd': 2, 'per': [0], 'form': 'default'}
    perms = [list(p) for j in range(1, run.pick(5, 6))
             for p in itertools.permutations(range(1, j + 1))]
    for _ in range(run.pick(40, 400)):
        P = list(range(1, rng.randint(5, 14)))
        rng.shuffle(P)
        perms.append(P)
    for P in perms + [[]]:
        cases.append({'m': flat2, 'sc': 1.0, 't0': 0.0, 'steps': [
            {'op': 'perm', 'perm': P, 'fmt': rng.choice(FORMATS),
             'radius': rng.choice([1.0, 1.0, 2.0, 0.3, 7.5])}],
            'h': rng.randint(0, 10 ** 6)})
    run.validate('embedded_driver', 'EmbeddedTrace', cases)
    run.assumptions += ['no two members are the same event of the spacetime; '
                        'no two events on one light ray of a black hole']


def clauses_C18(case, driver, bad):
    a = case['steps'][bad['step'] - 1]
    for c in bad['c']:
        yield 'C18', '%s/%s' % (a['op'], c), '%s after %s in %s' % (
            c, json.dumps(a)[:300], json.dumps(case['m']))


# ---------------------------------------------------------------------------
# C20, C21, C22

BALL = {0: (1, 1, 0), 1: (2, 1, 0), 2: (1, 1, 1), 3: (4, 3, 1), 4: (1, 2, 2),
        5: (8, 15, 2), 6: (1, 6, 3)}
SHAPES = ['ball', 'bicone', 'diamond', 'cylinder', 'cube', 'cuboid']


def vol_units(a):
    '''denominator and power of pi of the volume (checked by the spec)'''
    d = a['d']
    hollow = 'hollow' in a['has'] and a['h'] > 0
    if a['name'] == 'ball':
        n, m, k = BALL[d]
        return [m * (10 ** d if hollow else 1), k]
    if a['name'] == 'cylinder':
        n, m, k = BALL[d - 1]
        return [m * (10 ** (d - 1) if hollow else 1), k]
    if a['name'] in ('bicone', 'diamond'):
        n, m, k = BALL[d - 1]
        return [m * d * (10 ** d if hollow else 1), k]
    return [1, 0]


def shape_request(rng, d=None, name=None, sprinkle=False):
    name = name or rng.choice(SHAPES)
    d = d or rng.choice([1, 2, 2, 3, 3, 4, 5, 6])
    a = {'name': name, 'd': d, 'has': [], 'c': [], 'r': 1, 'h': 0, 'dur': 2,
         'edge': 1, 'edges': [], 'as': rng.choice(['list', 'array', 'tuple'])}
    if rng.random() < 0.7:
        a['has'].append('center')
        a['c'] = [rng.randint(-6, 6) for _ in range(d)]
        if rng.random() < 0.2:  # far away from the origin
            a['c'] = [x * rng.choice([1, 10**2, 10**4, 10**6])
                      for x in a['c']]
    big = 3 if d > 4 else 6
    if name in ('ball', 'bicone', 'diamond', 'cylinder'):
        if rng.random() < 0.75:
            a['has'].append('radius')
            a['r'] = rng.randint(1, big)
        # the pipe of a one-dimensional cylinder has no extent to be hollow in
        if rng.random() < 0.6 and not (name == 'cylinder' and d == 1):
            a['has'].append('hollow')
            a['h'] = rng.choice([0, 1, 2, 3, 5, 5, 7, 9]) if d < 5 else \
                rng.choice([0, 5, 8])
            a['r'] = min(a['r'], 3 if d < 5 else 2)
    if name == 'cylinder' and rng.random() < 0.7:
        a['has'].append('duration')
        a['dur'] = rng.randint(1, 7) if not sprinkle else rng.randint(1, 5)
    if name == 'cube' and rng.random() < 0.7:
        a['has'].append('edge')
        a['edge'] = rng.randint(1, 8)
    if name == 'cuboid' and rng.random() < 0.8:
        a['has'].append('edges')
        a['edges'] = [rng.randint(1, 8) for _ in range(d)]
    rng.shuffle(a['has'])
    return a


def other_region(rng, a):
    '''the region of a causet that is sprinkled into another shape'''
    if rng.random() < 0.2:
        return {}
    return shape_request(rng, a['d'], rng.choice([a['name'], None]), True)


def full_units(a):
    '''default lengths are 1, so the unit has to be 1 when one is used'''
    need = {'ball': 'radius', 'bicone': 'radius', 'diamond': 'radius',
            'cylinder': 'radius', 'cube': 'edge', 'cuboid': 'edges'}
    return need.get(a['name'], '') in a['has']


def unit(rng, a):
    return rng.choice([1.0, 1.0, 0.5, 0.25, 0.1, 3.7, 12.5, 0.01,
                       1e-3]) \
        if full_units(a) else 1.0


def spoil(rng, a):
    '''an invalid request (or rarely an unusual valid one)'''
    how = rng.choice(['d', 'name', 'center', 'radius', 'hollow', 'duration',
                      'edge', 'edges', 'edges0'])
    if how == 'd':
        a['d'] = rng.choice([0, -1, -3])
        a['has'] = [x for x in a['has'] if x not in ('center', 'edges')]
    elif how == 'name':
        a['name'] = rng.choice(['sphere', '', 'Ball', 'cone', 'rectangle'])
    elif how == 'center':
        n = rng.choice([a['d'] + 1, a['d'] + 2, max(0, a['d'] - 1)])
        a['has'] = list(set(a['has']) | {'center'})
        a['c'] = [0] * n
    else:
        # every parameter is checked if (and only if) the shape has it
        key = 'edges' if how == 'edges0' else how
        a['has'] = list(set(a['has']) | {key})
        if how == 'radius':
            a['r'] = rng.choice([0, -1, -2])
            if 'duration' not in a['has'] and a['name'] == 'cylinder':
                pass
        elif how == 'hollow':
            a['h'] = rng.choice([10, 11, -1, 25])
        elif how == 'duration':
            a['dur'] = rng.choice([0, -1])
        elif how == 'edge':
            a['edge'] = rng.choice([0, -1])
        elif how == 'edges':
            n = rng.choice([a['d'] + 1, max(0, a['d'] - 1)])
            a['edges'] = [1] * n
        else:
            a['edges'] = [1] * a['d']
            a['edges'][rng.randrange(a['d'])] = rng.choice([0, -2])
    return a


def check_C22(run):
    rng = run.rng('C22')
    cases = []

    def add(a, u):
        valid = a['d'] in range(1, 7) and a['name'] in SHAPES
        dims = []
        if valid:
            for _ in range(4):
                k = rng.randint(1, a['d'])
                D = rng.sample(range(1, a['d'] + 1), k)
                # "largest edge" of the time axis of a cylinder on its own is
                # not documented
                if not (a['name'] == 'cylinder' and D == [1]):
                    dims.append(D)
        cases.append({'op': 'shape', 'a': a, 'u': u, 'dims': dims,
                      'early': rng.random() < 0.5,
                      'vol': vol_units(a) if valid else [1, 0]})
    for name in SHAPES:
        for d in range(1, 7):
            for _ in range(run.pick(20, 250)):
                a = shape_request(rng, d, name)
                add(a, unit(rng, a))
    for _ in range(run.pick(300, 3000)):
        a = spoil(rng, shape_request(rng))
        add(a, 1.0)
    run.validate('shape_driver', 'ShapeTrace', cases)
    run.assumptions += ['dimensions 1 to 6; lengths are small multiples of a '
                        'unit, relative tolerance 1e-5']


def clauses_C22(case, driver, bad):
    for c in bad['c']:
        yield 'C22', '%s/%s' % (c, case['a']['name']), \
            '%s of %s' % (c, json.dumps(case['a']))


def check_C20(run):
    rng = run.rng('C20')
    cases = []

    def add(op, a, n, many, **kw):
        st = rng.choice(['flat', 'flat', 'none', 'dS', 'AdS']) \
            if a['d'] > 1 else 'flat'
        c = {'op': op, 'a': a, 'u': unit(rng, a), 'n': n, 'many': many,
             'via': rng.choice(['region', 'region', 'shape']), 'st': st,
             'pre': rng.choice([0, 0, 0, 1, 2]), 'seed': rng.randint(0, 10**6)}
        if c['via'] == 'region':
            c['pre'] = 0
        c['region'] = other_region(rng, a)
        c.update(kw)
        cases.append(c)
    for name in SHAPES:
        for d in range(1, 7):
            for _ in range(run.pick(7, 60)):
                a = shape_request(rng, d, name, True)
                add('sprinkle', a, rng.choice([0, 1, 1, 2, 5, 9, 17]), False)
            for _ in range(run.pick(3, 12)):
                a = shape_request(rng, d, name, True)
                add('sprinkle', a, run.pick(600, 1500), True)
            a = shape_request(rng, d, name, True)
            add('intensify', a, rng.choice([0, 1, 4, 10]), False)
            add('intensify', a, 400, True)
            add(rng.choice(['sprinkle', 'intensify']), a,
                rng.choice([-1, -2, -100]), False)
    run.validate('shape_driver', 'ShapeTrace', cases, timeout=850)
    run.assumptions += ['dimensions 1 to 6']


def clauses_C20(case, driver, bad):
    for c in bad['c']:
        yield 'C20', '%s/%s' % (c, case['a']['name']), \
            '%s: %s of %d into %s' % (c, case['op'], case['n'],
                                      json.dumps(case['a']))


def check_C30(run):
    rng = run.rng('C30')
    run.model_check('UniformMC', 'SPECIFICATION Spec\nCONSTANT Deep = %s\n'
                  'INVARIANT Agree\n' % run.pick('FALSE', 'TRUE'),
                  'shares of the parts against counted cells')
    cases = []

    def add(op, a, how, n, **kw):
        cases.append(dict({
            'op': op, 'a': a, 'u': unit(rng, a), 'how': how, 'n': n,
            'via': rng.choice(['region', 'region', 'shape']),
            'st': rng.choice(['flat', 'flat', 'none', 'dS', 'AdS'])
            if a['d'] > 1 else 'flat',
            'region': other_region(rng, a),
            'seed': rng.choice([rng.randint(0, 10**6)] * 3 + [None])}, **kw))
    big = run.pick(2000, 4000)
    for name in SHAPES:
        for d in range(1, 7):
            for k in range(run.pick(2, 8)):
                a = shape_request(rng, d, name, True)
                if k == 0 and 'hollow' in a['has']:
                    a['has'].remove('hollow')
                    a['h'] = 0
                add('even', a, 'sprinkle', [big])
        for _ in range(run.pick(2, 8)):
            a = shape_request(rng, None, name, True)
            n = rng.choice([1, 2, 7])
            add('split', a, 'sprinkle', [n] * (big // 2 // n))
            add('split', a, 'intensify', [big // 2])
    for _ in range(run.pick(6, 40)):
        for how in ('intensify', 'new'):
            q = rng.choice([1, 3, 4, 10, 40, 90] +
                           ([200, 400] if how != 'new' else []))
            add('numbers', shape_request(rng, rng.choice([2, 3]), None, True),
                how, 200, q=q)
    # large numbers, in the plane
    for how in ('intensify', 'new'):
        for q in [2000, 4400] + run.pick([], [1004, 3000, 8000, 16000]):
            add('numbers', shape_request(rng, 2, 'bicone', True), how, 320,
                q=q)
    run.validate('uniform_driver', 'UniformTrace', cases, timeout=850)
    run.assumptions += ['judged at six standard deviations: a deviation of '
                        'some percent of a share is not seen']


def clauses_C30(case, driver, bad):
    for c in bad['c']:
        yield 'C30', '%s/%s' % (c, case['a']['name']), \
            '%s: %s of %s into %s' % (c, case['how'], case['n'][:1]
                                      if case['op'] != 'numbers'
                                      else case['q'] / 4,
                                      json.dumps(case['a']))


SPR_CFG = '''SPECIFICATION Spec
CONSTANTS
  N = %d
  Depth = %d
  Emit = %s
VIEW View
INVARIANTS TypeOK Certain
PROPERTIES Emptied Direction
'''


def intensity_history(rng, plain):
    h = []
    card = 0
    shrink = 0
    if not plain and rng.random() < 0.5:
        if rng.random() < 0.6:
            h.append({'op': 'new card', 'n': rng.randint(0, 6)})
        else:
            h.append({'op': 'new intensity', 'q': rng.randint(0, 20)})
    ops = ['create', 'create', 'add', 'discard', 'misfit create']
    if not plain:
        ops += ['sprinkle', 'sprinkle', 'intensify', 'reject',
                'misfit sprinkle', 'misfit intensify']
    for _ in range(rng.randint(1, 9)):
        op = rng.choice(ops)
        via = rng.choice(['set', 'list', 'array'])
        if op == 'reject':
            h.append({'op': 'sprinkle', 'n': -rng.randint(1, 9)}
                     if rng.random() < 0.5 else
                     {'op': 'intensify', 'q': -rng.randint(1, 9)})
        elif op.startswith('misfit'):
            h.append({'op': op, 'n': rng.randint(1, 3), 'via': via,
                      'q': rng.randint(0, 9), 'by': rng.choice([-1, 1, 2])})
        elif op == 'intensify':
            h.append({'op': op, 'q': rng.randint(0, 24)})
        elif op == 'discard':
            if shrink >= 3:
                continue
            shrink += 1
            h.append({'op': op, 'n': -1, 'p': rng.random(),
                      'other': rng.randint(0, 2), 'via': via})
        elif op == 'add':
            h.append({'op': op, 'n': rng.randint(0, 4), 'old': 0,
                      'via': via})
        else:
            h.append({'op': op, 'n': rng.randint(0, 5), 'via': via})
    # numbers to discard depend on what is certainly there
    certain = 0
    for a in h:
        if a['op'] in ('sprinkle', 'create', 'add', 'new card'):
            certain += max(0, a['n'])
            if a['op'] == 'add':
                a['old'] = rng.randint(0, min(2, certain - a['n']))
        elif a['op'] == 'discard':
            a['n'] = int(round(a.pop('p') * certain))
            certain -= a['n']
    return h


def check_C21(run):
    rng = run.rng('C21')
    hist = run.generate('GenSprinkling', SPR_CFG % (run.pick(3, 4),
                                                    run.pick(4, 5), 'TRUE'),
                        'HIST', 'histories of sprinkled causets')
    if len(hist) > run.pick(3000, 40000):
        hist = rng.sample(hist, run.pick(3000, 40000))
    cases = []

    def add(steps, plain):
        d = rng.choice([1, 2, 2, 3, 4])
        a = shape_request(rng, d, None, True)
        cases.append({'a': a, 'u': unit(rng, a), 'plain': plain,
                      'steps': steps, 'seed': rng.randint(0, 10 ** 6)})
    for h in hist:
        # the specification fixes the outcome of every draw; the real one
        # differs, so numbers of discarded events are limited to certain ones
        certain = 0
        steps = []
        for a in h:
            a = dict(a)
            if a['op'] in ('sprinkle', 'create', 'add'):
                certain += max(0, a['n'])
                if a['op'] == 'add':
                    a['old'] = min(a['old'], certain - a['n'])
            elif a['op'] == 'discard':
                a['n'] = min(a['n'], certain)
                certain -= a['n']
            a['via'] = rng.choice(['set', 'list', 'array'])
            steps.append(a)
        add(steps, False)
    for _ in range(run.pick(600, 6000)):
        add(intensity_history(rng, False), False)
    for _ in range(run.pick(200, 2000)):
        add(intensity_history(rng, True), True)
    run.validate('intensity_driver', 'SprinklingTrace', cases)
    run.assumptions += ['at most three discards that remove a part, so that '
                        'the intensity is a fraction with small terms']


def clauses_C21(case, driver, bad):
    a = case['steps'][bad['step'] - 1]
    for c in bad['c']:
        yield 'C21', '%s/%s' % (a['op'], c), '%s after %s (%s)' % (
            c, json.dumps(case['steps'][:bad['step']])[-400:],
            'plain' if case['plain'] else 'sprinkled')


# ---------------------------------------------------------------------------
# C24

CON_CFG = '''SPECIFICATION Spec
CONSTANTS
  D = %d
  Emit = %s
INVARIANTS Emitted OneDim Redundant
'''


def check_C24(run):
    rng = run.rng('C24')
    reqs = run.generate('GenConstruct', CON_CFG % (run.pick(3, 4), 'TRUE'),
                        'REQ', 'construction requests')
    rng.shuffle(reqs)
    cases = []
    for q in reqs[:run.pick(16000, len(reqs))]:
        cls = 'E'
        if q['crd']['k'] == 'none' and rng.random() < 0.5:
            cls = 'S'
        cases.append({'q': q, 'cls': cls, 'kw': rng.random() < 0.5})
    run.notes['construction_requests'] = len(reqs)
    run.validate('construct_driver', 'ConstructTrace', cases)


OBJ_CFG = '''SPECIFICATION Spec
CONSTANTS
  D = %d
  Emit = TRUE
INVARIANTS Emitted Fits
'''


def check_C32(run):
    rng = run.rng('C32')
    reqs = run.generate('GenSpacetimeObjects', OBJ_CFG % run.pick(4, 5),
                        'REQ', 'spacetime requests')
    run.notes['spacetime_requests'] = len(reqs)
    cases = []
    for _ in range(run.pick(2, 20)):
        rng.shuffle(reqs)
        # half of the objects of a sequence are of one class
        k = 0
        while k < len(reqs):
            n = rng.randint(1, 5)
            qs = reqs[k:k + n]
            k += n
            if rng.random() < 0.5:
                qs.append(dict(rng.choice(qs)))
            cases.append({'q': qs, 'kw': [rng.random() < 0.5 for _ in qs],
                          'use': rng.random() < 0.5})
    run.validate('spacetime_driver', 'SpacetimeObjectsTrace', cases)


def clauses_C32(case, driver, bad):
    for j, c in bad['c']:
        q = case['q'][j - 1]
        yield 'C32', '%s/%s' % (q['cls'], c), '%s of %s' % (c, json.dumps(q))


def clauses_C24(case, driver, bad):
    q = case['q']
    for c in bad['c']:
        yield 'C24', '%s/%s/%s/%s' % (c, q['st']['k'], q['sh']['k'],
                                      q['crd']['k']), \
            '%s: %s' % (c, json.dumps(q))
