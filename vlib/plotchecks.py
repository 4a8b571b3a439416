'''Checks of plots (C25) and drawn light cones (C26).'''
import itertools
import json
from . import geochecks

# ---------------------------------------------------------------------------
# C25


def crds(rng, n, d, w):
    return [[rng.randint(-w, w) for _ in range(d)] for _ in range(n)]


def distinct(rng, n, d, w):
    P = set()
    while len(P) < n:
        P.add(tuple(rng.randint(-w, w) for _ in range(d)))
    P = [list(p) for p in P]
    rng.shuffle(P)
    return P


def some_past(rng, n):
    p = rng.choice([0.1, 0.3, 0.6, 1.0, 0.0])
    return [[j for j in range(1, i + 1) if rng.random() < p]
            for i in range(n)]


def closed(past):
    '''transitive closure: the past of every event'''
    P = []
    for i, S in enumerate(past):
        T = set(S)
        for j in S:
            T |= P[j - 1]
        P.append(T)
    return [sorted(T) for T in P]


def beside(rng):
    '''ends of a link and a point near it, not on it but nearly: in some
    projection, or with a cross product that has a special form'''
    while True:
        b = [rng.randint(-4, 4) for _ in range(3)]
        e = [rng.randint(min(0, x), max(0, x)) for x in b]
        f = [x - y for x, y in zip(b, e)]
        x = [e[1] * f[2] - e[2] * f[1], e[2] * f[0] - e[0] * f[2],
             e[0] * f[1] - e[1] * f[0]]
        if any(x) and (0 in x or sum(x) == 0 or x[0] + x[1] == x[2] or
                       x[0] - x[1] == x[2] or x[1] - x[0] == x[2]):
            break
    a = [rng.randint(-2, 2) for _ in range(3)]
    return [a, [x + y for x, y in zip(a, b)], [x + y for x, y in zip(a, e)]]


def how(rng):
    k = rng.choice(['on', 'on', 'on', 'off', 'empty', 'dict'])
    return k


def plot_case(rng, kind=None, dyn=None, switches=None):
    kind = kind or rng.choice(['list', 'list', 'list', 'causet', 'causet',
                               'event', 'diagram'])
    dyn = rng.random() < 0.45 if dyn is None else dyn
    if kind == 'diagram':
        dyn = False
    d = 2 if kind == 'diagram' else rng.choice([2, 2, 3, 3, 4])
    n = rng.choice([1, 2, 3, 4, 5, 6, 8, 0 if kind == 'list' else 3])
    w = rng.choice([1, 2, 3, 5])
    line = False
    if kind == 'event':
        n = rng.randint(1, 4)
    if kind == 'causet':
        n = min(n, (2 * w + 1) ** d)
        C = distinct(rng, n, d, w)
    else:
        C = crds(rng, n, d, w)
        line = rng.random() < 0.3
        if line:  # many events on one line
            a, b = crds(rng, 2, d, 2)
            C = [[x + k * z for x, z in
                  zip(a, b)] for k in rng.sample(range(-3, 8), n)]
        n = len(C)
    past = closed(some_past(rng, n))
    near = kind == 'list' and d > 2 and rng.random() < 0.3
    if near:  # a link in space with points close to it
        line = True
        C = [x + [rng.randint(-2, 2)] * (d - 3) for x in beside(rng)]
        C += crds(rng, rng.choice([0, 0, 1, 2]), d, w)
        n = len(C)
        past = closed([[], [1]] + [[j for j in range(1, i + 1)
                                    if rng.random() < 0.2]
                                   for i in range(2, n)])
    nd = 3 if d > 2 and rng.random() < 0.4 else 2
    dims = rng.sample(range(d), nd)
    defdims = False
    if rng.random() < 0.4:
        dims = [1, 0]
        defdims = rng.random() < 0.5
    if near:
        dims = rng.sample(range(3), 3)
        defdims = False
        dyn = False
    nd = len(dims)
    ids = list(range(1, n + 1))
    shown = ids
    if kind == 'event':
        shown = [rng.choice(ids)]
    elif kind != 'causet':
        shown = rng.sample(ids, n if near else
                           rng.choice([n, n, max(0, n - 1), n // 2]))
    hows = {k: how(rng) for k in ('events', 'links', 'labels')}
    if switches:
        hows.update({k: v for k, v in zip(('events', 'links', 'labels'),
                                          switches)})
    amax = 1000
    hd = {}
    for k, v in hows.items():
        if v != 'dict':
            hd[k] = v
        elif k == 'events':
            hd[k] = {'markersize': 3.0, 'markerfacecolor': 'cs:green'}
            if dyn and rng.random() < 0.6:
                amax = rng.choice([500, 250, 800])
                hd[k]['alpha'] = amax / 1000.0
        elif k == 'links':
            hd[k] = {'linewidth': 1.0, 'color': 'red'}
        else:
            hd[k] = {'color': 'cs:red'}
    fade = rng.choice(['linear', 'exponential', 'intensity'])
    depth = 2 if fade == 'exponential' else rng.choice([1, 2, 3, 4, 6])
    depth *= rng.choice([1, -1])
    labs = ['None', '7', 'a', 'b c', '7', '0', '-2', 'x']
    q = {'kind': kind, 'crd': C, 'past': past, 'causal': kind == 'causet',
         'shown': shown, 'lab': [rng.choice(labs) for _ in ids],
         'dims': dims, 'events': hows['events'] != 'off',
         'links': hows['links'] != 'off', 'labels': hows['labels'] != 'off',
         'dyn': dyn, 'depth': depth, 'fade': fade, 'amax': amax, 'lim': []}
    q['u'] = rng.choice([[1, 1], [1, 2], [1, 4], [2, 1]])
    case = {'q': q, 'u': q['u'][0] / q['u'][1], 'how': hd,
            'defdims': defdims, 'explicit': rng.random() < 0.5, 'gap': 0,
            'fadekw': rng.random() < 0.5, 'limits': '',
            'center': [rng.randint(-2, 2) for _ in range(d)],
            'edges': [2 * rng.randint(1, 6) for _ in range(d)],
            'linked': [i for i in ids if rng.random() < 0.4],
            'mine': rng.random() < 0.9,
            'via': rng.choice(['plot', 'Plotter']),
            'form': rng.choice(['float', 'list', 'pair', 'array', 'int',
                                'single'])}
    if kind == 'diagram' and case['via'] == 'plot' and defdims:
        pass
    if rng.random() < (0.9 if near else 0.5 if line else 0.15):
        case['gap'] = rng.choice([2.0, 5.0])
    q['gap'] = case['gap'] > 0
    x = rng.random()
    if x < 0.15:
        case['limits'] = 'dict'
        q['lim'] = [[1000 * (-rng.randint(1, 9)), 1000 * rng.randint(1, 9)]
                    for _ in dims]
    elif x < 0.4 and kind == 'causet':
        case['limits'] = 'shape'
        m = max(case['edges'][i] for i in dims)
        q['lim'] = [[1000 * case['center'][i] - 500 * e,
                     1000 * case['center'][i] + 500 * e]
                    for i in dims for e in [m if nd == 3 else
                                            case['edges'][i]]]
    if dyn:
        T = list(range(-w - 1, w + 2))
        case['times'] = [rng.choice(T) for _ in range(
            1 if case['via'] == 'plot' else rng.choice([1, 2, 3]))]
    else:
        case['times'] = [0] if rng.random() < 0.7 else [rng.randint(-2, 2)]
        if case['via'] == 'Plotter' and rng.random() < 0.3:
            case['times'] *= 2
    return case


def check_C25(run):
    rng = run.rng('C25')
    cases = []
    # all switches in all modes
    for kind in ('list', 'causet', 'event', 'diagram'):
        for sw in itertools.product(('on', 'off', 'empty', 'dict'), repeat=3):
            for dyn in (False, True):
                if not (kind == 'diagram' and dyn):
                    cases.append(plot_case(rng, kind, dyn, sw))
    for _ in range(run.pick(1800, 20000)):
        cases.append(plot_case(rng))
    # diagrams of all small permutations
    for n in range(run.pick(5, 6)):
        for p in itertools.permutations(range(1, n + 1)):
            cases.append({'q': {'kind': 'permutation', 'perm': list(p)},
                          'u': 1.0, 'mine': rng.random() < 0.9})
    for _ in range(run.pick(20, 200)):
        p = list(range(1, rng.randint(5, 9)))
        rng.shuffle(p)
        cases.append({'q': {'kind': 'permutation', 'perm': p}, 'u': 1.0,
                      'mine': True})
    run.validate('plot_driver', 'PlotTrace', cases)
    run.assumptions += ['what is drawn is read from the artists of the axes, '
                        'not from pixels']


def clauses_C25(case, driver, bad):
    q = case['q']
    for c in bad['c']:
        yield 'C25', '%s/%s/%s' % (q['kind'], 'dynamic' if q.get('dyn')
                                   else 'static', c), \
            '%s in call %s of %s' % (c, bad['step'], json.dumps(case)[:700])




# ---------------------------------------------------------------------------
# C26

CONE_SPACES = ('flat', 'flat', 'periodic', 'dS', 'dS', 'EF', 'S')


def cone_time(rng, m, o, sign):
    '''a time slice, mostly on the side of the cone'''
    s = sign if rng.random() < 0.85 else -sign
    if m['k'] in ('EF', 'S'):
        a = rng.choice([0, 0, 1, 1, 1]) * rng.randint(4, 60)
        return [o[0] + s * a, o[1] if rng.random() < 0.7 else
                o[1] + s * rng.choice([0, 8, 16])]
    if m['k'] == 'dS':
        return [o[0] + s * rng.choice([0, 1, 1, 2])]
    return [o[0] + s * rng.choice([0, 1, 1, 2, 3, 4, 5])]


def cone_case(rng, kind=None):
    kind = kind or rng.choice(CONE_SPACES)
    n = rng.choice([1, 1, 1, 2, 3])
    sc = geochecks.scale(rng)
    if kind in ('flat', 'periodic'):
        d = rng.choice([2, 2, 3, 3, 4, 5])
        per = [0] * (d - 1)
        if kind == 'periodic':
            per = [rng.choice([0, 4, 5, 6, 7]) for _ in per]
        m = {'k': 'flat', 'd': d, 'per': per, 'form': 'tuple'
             if len(set(per)) > 1 else rng.choice(['float', 'tuple'])}
        ev = [[rng.randint(-2, 2) for _ in range(d)] for _ in range(n)]
    elif kind == 'dS':
        d = rng.choice([2, 2, 3, 3, 4])
        m = {'k': 'dS', 'd': d, 'R': rng.choice([5, 7, 10])}
        ev = [geochecks.ds_point(rng, m) for _ in range(n)]
        for e in ev:
            e[0] = rng.randint(-1, 1)
    else:
        d = 2
        m = geochecks.bh(rng, kind)
        ev = [geochecks.bh_point(rng, m) for _ in range(n)]
        ev = [e if e[3] not in (15, 17) else e[:3] + [e[3] + (1 if e[3] > 16
              else -1)] for e in ev]
    nd = 3 if d > 2 and rng.random() < 0.4 else 2
    dims = rng.sample(range(d), nd)
    if d > 2 and rng.random() < 0.3 and kind == 'dS':
        dims = [1, 2]
        nd = 2
        rng.shuffle(dims)
    if kind == 'dS':
        if nd == 3 and 0 not in dims:  # not implemented
            dims = [rng.choice([1, 2]), 3, 0]
            rng.shuffle(dims)
        for e in ev:                   # see Cones.tla: Shows
            for i in range(1, d):
                if i not in dims:
                    e[i] = 0
    sides = rng.choice([[1], [-1], [-1, 1]])
    sides = [{'sign': s, 'ts': cone_time(rng, m, rng.choice(ev), s)}
             for s in sides]
    if len(sides) == 2 and rng.random() < 0.4:
        sides[1]['ts'] = list(sides[0]['ts'])
    if 0 not in dims and len(sides) == 2:
        sides[1]['ts'] = list(sides[0]['ts'])
    fade, depth, u, amax = '', 0, [1, 1], 100
    via = rng.choice(['direct', 'direct', 'plot', 'Plotter', 'causet'])
    if kind == 'dS' and via == 'causet' and len(set(map(tuple, ev))) < n:
        via = 'plot'
    if via != 'direct':
        amax = rng.choice([100, 100, 500, 1000, 250])
        fade = rng.choice(['', 'linear', 'exponential', 'intensity'])
        if m['k'] in ('EF', 'S'):
            fade = rng.choice(['', 'linear'])
            if fade and any(x[1] for x in ev):
                for x in ev:
                    x[1] = 0
            if fade:
                for s in sides:
                    s['ts'][1] = 0
        elif kind == 'dS' and fade == 'intensity':
            fade = 'linear'
        if fade == 'intensity':
            u = rng.choice([[1, 1], [1, 2], [2, 1]])
            sc = u[0] / u[1]
            amax = 100 if rng.random() < 0.5 else amax
        elif fade == 'linear':
            depth = rng.choice([1, 2, 3, 5])
            if m['k'] in ('EF', 'S'):
                depth *= 13
        elif fade == 'exponential':
            depth = 2
    for s in sides:  # the opacity of the past and the future cones
        s['amax'] = amax
    if via != 'direct' and len(sides) == 2 and rng.random() < 0.5 and \
            not (fade == 'intensity' and amax == 100):
        sides[1]['amax'] = rng.choice([100, 300, 800])
    pts = []
    bh = m['k'] in ('EF', 'S')
    for e in ev:
        Y = []
        for _ in range(40 if bh else 10 if nd == 3 and 0 not in dims else 22):
            x = list(e)
            if bh:
                x = geochecks.bh_point(rng, m)
                if rng.random() < 0.8:
                    x[2] = e[2]
                if rng.random() < 0.7:
                    x[0] = e[0] + rng.randint(-60, 60)
                    x[1] = e[1]
                if x[3] in (15, 17):
                    x[3] += 1 if x[3] > 16 else -1
            else:
                for i in dims:
                    if i and kind == 'dS':
                        x[i] = rng.randint(-m['R'], m['R'])
                    elif i:
                        w = abs(m['per'][i - 1]) or rng.choice([2, 6])
                        x[i] = e[i] + rng.randint(-w, w)
                    else:
                        w = 3 if kind == 'dS' else 6
                        x[0] = e[0] + rng.randint(-w, w)
                if 0 not in dims:
                    x[0] = sides[0]['ts'][0]
                if kind == 'dS' and sum(c * c for c in x[1:]) >= m['R']**2:
                    continue
            Y.append(x)
        pts.append(Y)
    q = {'m': m, 'dims': dims, 'ev': ev, 'pts': pts, 'fade': fade,
         'depth': depth, 'amax': amax, 'u': u}
    off = []  # away from the origin
    if m['k'] == 'flat' and rng.random() < 0.25:
        off = [rng.choice([0, 100, 1024, -5000, 30000]) for _ in range(d)]
    return {'q': q, 'sc': sc, 'sides': sides, 'via': via, 'off': off,
            'explicit': rng.random() < 0.5, 'mine': rng.random() < 0.9,
            'tform': rng.choice('0012') + rng.choice('lla'),
            'samples': rng.choice([1, 1, 1, 0, -1, 160, 257])}


def check_C26(run):
    rng = run.rng('C26')
    cases = [cone_case(rng, k) for k in
             ('flat', 'periodic', 'dS', 'EF', 'S')
             for _ in range(run.pick(300, 2500))]
    run.validate('cone_driver', 'ConeTrace', cases)
    run.assumptions += ['points within 2 to 6 percent of the length unit of '
                        'the drawn edge are not judged; polygons are read as '
                        'the matplotlib renderer splits them into outlines']


def clauses_C26(case, driver, bad):
    q = case['q']
    for c in bad['c']:
        yield 'C26', '%s/%s/%dd' % (c, q['m']['k'], len(q['dims'])), \
            '%s of %s' % (c, json.dumps({k: v for k, v in case.items()
                                         if k != 'q'}) +
                          json.dumps({k: v for k, v in q.items()
                                      if k != 'pts'}))[:900]


# ---------------------------------------------------------------------------
# C29

def shape_points(rng, a, dims, n):
    '''points in tenths relative to the centre, many of them on walls'''
    r = a['r'] if 'radius' in a['has'] else 1
    h = a['h'] if 'hollow' in a['has'] else 0
    dur = a['dur'] if 'duration' in a['has'] else 2 * r
    box = a['name'] in ('cube', 'cuboid')
    edges = [a['edge'] if 'edge' in a['has'] else 1] * a['d'] \
        if a['name'] == 'cube' else \
        a['edges'] if 'edges' in a['has'] else [1] * a['d']
    half = [5 * edges[i] if box else 5 * dur
            if a['name'] == 'cylinder' and i == 0 else 10 * r for i in dims]
    k = len(dims)
    t = dims.index(0) if 0 in dims else -1
    P = [[0] * k]
    for _ in range(n):
        x = rng.random()
        if x < 0.4 or (x < 0.7 and box):
            p = [rng.randint(-w - 4, w + 4) for w in half]
            if box and rng.random() < 0.5:
                i = rng.randrange(k)
                p[i] = rng.choice([1, -1]) * half[i]
        else:
            R = rng.choice([10 * r, 10 * r, h * r]) or 10 * r
            m = k if t < 0 or a['name'] == 'ball' else k - 1
            v = rng.choice([(1, 0, 0), (0.6, 0.8, 0), (-0.6, 0.8, 0),
                            (2 / 3, 2 / 3, 1 / 3), (0, -1, 0),
                            (-1 / 3, 2 / 3, -2 / 3)])[:m] if m > 1 else \
                (rng.choice([1, -1]),)
            v = list(v) + [0] * (m - len(v))
            rng.shuffle(v)
            if m == k:
                p = [int(round(R * c)) for c in v]
            else:
                if a['name'] == 'bicone' or a['name'] == 'diamond':
                    T = rng.randint(0, R)
                    if rng.random() < 0.5:
                        T -= (R - T) % 5 if T >= (R - T) % 5 else 0
                    R -= T
                else:
                    T = rng.choice([half[t], rng.randint(0, half[t])])
                    if rng.random() < 0.3:
                        R = rng.randint(0, 10 * r)
                p = [int(round(R * c)) for c in v]
                p.insert(t, rng.choice([T, -T]))
        P.append(p)
    return P


def shapeplot_case(rng, name, d, k):
    a = geochecks.shape_request(rng, d, name)
    dims = rng.sample(range(d), k)
    u = geochecks.unit(rng, a)
    return {'a': a, 'u': u, 'dims': dims, 'mine': rng.random() < 0.9,
            'opacity': rng.choice([0, 0, 100, 500, 1000]),
            'again': rng.random() < 0.3,
            'pts': shape_points(rng, a, dims, 40 if k == 2 else 25)}


def check_C29(run):
    rng = run.rng('C29')
    cases = [shapeplot_case(rng, name, d, k) for name in geochecks.SHAPES
             for d in range(2, 6) for k in (2, 3) if k <= d
             for _ in range(run.pick(18, 150))]
    run.validate('shapeplot_driver', 'DrawnShapeTrace', cases)
    run.assumptions += ['curved outlines are polygons: points within half a '
                        'percent of the radius of a curved wall, but not on '
                        'it, are not judged']


def clauses_C29(case, driver, bad):
    a = case['a']
    for c in bad['c']:
        yield 'C29', '%s/%s/%dd' % (c, a['name'], len(case['dims'])), \
            '%s of %s in %s' % (c, json.dumps(a), case['dims'])


# ---------------------------------------------------------------------------
# C33

BUILDERS = ['RectangleEdge', 'CircleEdge', 'EllipseEdge', 'BiconeEdge',
            'CylinderCutEdge', 'CuboidSurface', 'CubeSurface', 'BallSurface',
            'CylinderSurface', 'OpenConeSurface']


def builder_case(rng, fn):
    ball = fn == 'BallSurface'
    s = rng.choice([0, -1, -1, 6, 7, 8, 12, 17, 24, 36, 64, 128] +
                   ([] if ball else [3, 4, 5]))
    e = rng.randint(1, 9)
    if fn == 'OpenConeSurface' and rng.random() < 0.5:
        e = -e
    return {'a': {'fn': fn, 'r': rng.randint(1, 9), 'w': rng.randint(1, 9),
                  'e': e, 'h': rng.choice([0, 0, 2, 3, 5, 8, 9]),
                  'c': [rng.randint(-9, 9) for _ in range(3)],
                  'z': rng.choice([0, 1, 2, 2]), 's': s,
                  'giveh': rng.random() < 0.5, 'givez': rng.random() < 0.5,
                  'gives': rng.random() < 0.5},
            'u': rng.choice([1.0, 0.5, 2.0, 0.37, 3.1])}


def check_C33(run):
    rng = run.rng('C33')
    cases = []
    for fn in BUILDERS:
        for _ in range(run.pick(12 if fn == 'BallSurface' else 40,
                                150 if fn == 'BallSurface' else 600)):
            cases.append(builder_case(rng, fn))
    rng.shuffle(cases)
    run.validate('edges_driver', 'EdgesTrace', cases)


def clauses_C33(case, driver, bad):
    for c in bad['c']:
        yield 'C33', '%s/%s' % (c, case['a']['fn']), '%s of %s' % (
            c, json.dumps(case['a']))


# ---------------------------------------------------------------------------
# C34

PLOTCOLOURS = ['black', 'gray', 'red', 'blue', 'green', 'cyan', 'yellow',
               'orange', 'core']
ENTRIES = {
    'links': {'linewidth': [0.5, 1.0, 3.0], 'linestyle': ['--', ':', '-.'],
              'color': 'colour', 'marker': ['s', 'x', '^'],
              'markersize': [1.0, 4.5], 'markeredgecolor': 'colour',
              'markerfacecolor': 'colour', 'alpha': [0.5, 0.25],
              'zorder': [1.0, 7.0], 'markeredgewidth': [0.5, 2.0]},
    'labels': {'verticalalignment': ['bottom', 'center', 'top'],
               'horizontalalignment': ['left', 'center', 'right'],
               'color': 'colour', 'fontsize': [6.0, 14.0],
               'rotation': [30.0, 90.0], 'alpha': [0.5], 'zorder': [9.0]},
    'cones2': {'edgecolor': 'colour', 'facecolor': 'colour',
               'alpha': [0.05, 0.3, 1.0], 'linewidth': [0.5, 2.0],
               'linestyle': ['--', ':'], 'zorder': [0.0, 2.0]},
    'cones3': {'color': 'colour', 'alpha': [0.05, 0.3, 1.0],
               'linewidth': [0.5]}}
ENTRIES['events'] = dict(ENTRIES['links'])


def setting(rng, key, values):
    '''(value, token of the specification)'''
    if values == 'colour':
        if rng.random() < 0.5:
            c = rng.choice(PLOTCOLOURS)
            return 'cs:' + c, {'k': 'cs', 'v': c}
        c = rng.choice(['#ff0000', '#00ff7f', '#123456', 'none'])
        return c, {'k': 'plain', 'v': 'c:' + c}
    v = rng.choice(values)
    return v, {'k': 'plain', 'v': 's:' + v if isinstance(v, str)
               else '%.4f' % v}


def setting_shape(rng, d):
    name = rng.choice(['ball', 'bicone', 'cylinder', 'cube', 'cuboid'])
    return {'name': name, 'r': 10000 * rng.randint(1, 6) // 2 * 2,
            'dur': 10000 * rng.randint(1, 9),
            'e': [10000 * rng.randint(1, 9) for _ in range(d)],
            'c': [5000 * rng.randint(-8, 8) for _ in range(d)]}


def setting_request(rng, plot):
    dims = rng.choice([[1, 0], [1, 0], [0, 1], [1, 2], [2, 1], [0, 1, 2],
                       [1, 2, 0], [2, 0, 1], [1, 2, 3]])
    x = rng.random()
    if not plot and x < 0.05:
        dims = rng.choice([[1], [0], [0, 1, 2, 3], []])
    three = len(dims) == 3
    kw, groups = {}, []
    for g in ('links', 'events', 'labels', 'pastcones', 'futurecones'):
        kind = rng.choice(['absent', 'absent', 'on', 'off', 'dict', 'dict'])
        d = []
        if kind in ('on', 'off'):
            kw[g] = kind == 'on'
        elif kind == 'dict':
            kw[g] = {}
            T = ENTRIES[g if g in ENTRIES else
                        'cones3' if three else 'cones2']
            n = rng.choice([0, 1, 1, 2, 3, len(T)])
            for k in rng.sample(sorted(T), min(n, len(T))):
                kw[g][k], t = setting(rng, k, T[k])
                d.append([k, t])
        groups.append([g, {'k': kind, 'd': d}])
    opts = []

    def opt(key, p, values):
        if rng.random() < p:
            v = rng.choice(values)
            kw[key] = v
            opts.append([key, '[%s]' % ','.join('s:' + x for x in v)
                         if isinstance(v, list) else 's:' + (v or 'None')
                         if isinstance(v, str) else '%.4f' % v])
    opt('aspect', 0.4, [['auto', 'box'], ['equal', 'datalim'],
                        ['equal', 'box'], ['auto', 'datalim']])
    opt('conetimefade', 0.9 if plot else 0.4, [''] * 6 + ['linear',
                                                          'intensity'])
    opt('conetimedepth', 0.3, [1.0, 2.5, 0.0])
    if not plot:
        opt('timedepth', 0.4, [1.0, -2.0, 0.5])
        opt('timefade', 0.4, ['linear', 'exponential', 'intensity'])
    gap = rng.random() < 0.15
    if gap:
        kw['linkgapsize'] = rng.choice([1.0, 3.5])
    elif rng.random() < 0.2:
        kw['linkgapsize'] = 0.0
    q = {'dims': dims, 'givedims': dims != [1, 0] or rng.random() < 0.5,
         'groups': groups, 'opts': opts, 'gap': gap, 'limkind': '',
         'lim': [], 'hasshape': False, 'shape': {}, 'causet': False,
         'passshape': False, 'kw': kw}
    if plot:
        q['causet'] = rng.random() < 0.5
    x = rng.random()
    if x < 0.35:
        q['limkind'] = 'given'
        q['lim'] = [sorted(rng.sample(range(-90000, 90000, 2500), 2))
                    for _ in dims[:3]]
        kw['axislim'] = {k: [y / 1e4 for y in v] for k, v in
                         zip(('xlim', 'ylim', 'zlim'), q['lim'])}
    if x > 0.2 and x < 0.75 and dims:
        q['hasshape'] = True
        q['shape'] = setting_shape(rng, max(max(dims), 2) + 1)
        if x > 0.35 and rng.random() < 0.7:
            q['limkind'] = 'shape'
            kw['axislim'] = 'shape'
        # the shape of a causet does not have to be passed
        q['passshape'] = not q['causet'] or rng.random() < 0.3
    if len(dims) == 2 and q['limkind'] and 'aspect' in kw and \
            kw['aspect'][1] == 'datalim':
        kw['aspect'] = ['auto', 'box']
        q['opts'] = [x for x in opts if x[0] != 'aspect'] + \
            [['aspect', '[s:auto,s:box]']]
    return q


def setting_case(rng, plots):
    steps = []
    for _ in range(rng.choice([1, 2, 3])):
        if rng.random() < 0.35:
            kw = {p: rng.choice(['cs:' + rng.choice(PLOTCOLOURS), '#ff0000',
                                 '#00ffff'])
                  for p in rng.sample(['links', 'linksedge', 'linksface',
                                       'eventsedge', 'eventsface',
                                       'conesedge', 'conesface'],
                                      rng.randint(0, 4))}
            steps.append({'op': 'colours', 'kw': kw,
                          'name': rng.choice(['', 'matplotlib',
                                              'UniYork', 'UniYork',
                                              'ImperialLondon',
                                              'Nowhere'])})
        plot = plots and rng.random() < 0.7
        steps.append({'op': 'plot' if plot else 'param',
                      'q': setting_request(rng, plot)})
    return {'steps': steps}


def check_C34(run):
    run.model_check('SettingsMC', '''SPECIFICATION Spec
CONSTANT MaxCalls = %d
INVARIANTS StateInv GroupInv
''' % run.pick(2, 3), 'calls of setDefaultColors in any order, each group of '
                    'settings in every state')
    rng = run.rng('C34')
    cases = [setting_case(rng, False)
             for _ in range(run.pick(1500, 20000))]
    cases += [setting_case(rng, True) for _ in range(run.pick(250, 2500))]
    rng.shuffle(cases)
    run.validate('settings_driver', 'SettingsTrace', cases)


def clauses_C34(case, driver, bad):
    for c in bad['c']:
        yield 'C34', c, '%s in %s' % (c, json.dumps(case['steps']))


# ---------------------------------------------------------------------------
# C35

LABELS = [('none', ''), ('none', ''), ('int', '0'), ('int', '7'),
          ('int', '12'), ('int', '-3'), ('str', ''), ('str', 'a b'),
          ('str', '7'), ('str', "it's"), ('str', '#1'), ('float', '1.5'),
          ('float', '0.0'), ('float', '-2.25'), ('str', 'Event')]
NUMBERS = ['0.0', '0.5', '-1.25', '3.0', '1e-07', '100.0', '-0.125']


def printed_events(rng):
    steps, n = [], 0

    def lab():
        k, v = rng.choice(LABELS)
        return {'k': k, 'v': v}
    for _ in range(rng.randint(3, 18)):
        op = rng.choice(['new', 'new', 'new', 'link', 'unlink', 'label',
                         'disjoin', 'print', 'print', 'print', 'causet'])
        if n == 0:
            op = 'new'
        elif n >= 7 and op == 'new':
            op = 'print'
        if op == 'new':
            k = rng.choice([0, 1, 1, 2, 2, 3, 4])
            has = rng.random() < 0.4
            steps.append({
                'op': op, 'past': sorted(rng.sample(range(1, n + 1),
                                                    min(k, n))),
                'lab': lab(), 'explicit': rng.random() < 0.5,
                'cls': rng.choice(['CausetEvent'] * 4 + ['Special']),
                'crd': {'has': has, 'c': [rng.choice(NUMBERS) for _ in range(
                    rng.randint(1, 4))] if has else []}})
            n += 1
        elif op == 'causet':
            m = sorted(rng.sample(range(1, n + 1), rng.randint(0, min(n, 4))))
            steps.append({'op': op, 'members': m})
        else:
            steps.append({'op': op, 'e': rng.randint(1, n)})
            if op == 'label':
                steps[-1]['lab'] = lab()
    steps += [{'op': 'print', 'e': e + 1} for e in range(n)]
    return {'kind': 'events', 'steps': steps}


def printed_object(rng):
    def number(zero=False, top=9000):
        return rng.choice([0, 0] if zero and rng.random() < 0.3 else
                          [125 * rng.randint(1, top // 125),
                           rng.randint(1, top), 1000])
    if rng.random() < 0.5:
        k = rng.choice(['flat', 'flat', 'dS', 'AdS', 'EF', 'S'])
        d = 2 if k in ('EF', 'S') else rng.randint(2, 5)
        form, v = rng.choice(['default', 'named']), [number()]
        if k == 'flat':
            d = rng.randint(1, 5)
            form = rng.choice(['default', 'float', 'tuple']) if d > 1 \
                else 'default'
            v = [0] if form == 'default' else [number(True)] \
                if form == 'float' else \
                [number(True) for _ in range(d - 2)] + [number()]
        return {'kind': 'spacetime', 'q': {
            'k': k, 'd': str(d), 'n': d - 1, 'v': v, 'form': form}}
    d = rng.randint(1, 5)
    form = rng.choice(['default', 'centre', 'centre'])
    radius = number()
    return {'kind': 'shape', 'q': {
        'name': rng.choice(['ball', 'bicone', 'diamond', 'cylinder', 'cube',
                            'cuboid']),
        'd': str(d), 'form': form, 'center': [
            0 if form == 'default' else rng.choice([1, -1]) * number(True)
            for _ in range(d)],
        'radius': radius, 'hollow': number(True, 990) % 1000,
        'duration': number(), 'edge': number(),
        'edges': [number() for _ in range(d)]}}


def check_C35(run):
    run.model_check('PrintedMC', '''SPECIFICATION Spec
CONSTANT MaxEvents = %d
INVARIANTS LabelInv LinkInv NewInv OneForm BareForm
VIEW View
CHECK_DEADLOCK FALSE
''' % run.pick(2, 3), 'histories of creating, linking, labelling and '
                    'disjoining, the printed form of every event')
    rng = run.rng('C35')
    cases = [printed_events(rng) for _ in range(run.pick(1500, 20000))]
    cases += [printed_object(rng) for _ in range(run.pick(800, 8000))]
    rng.shuffle(cases)
    run.validate('printed_driver', 'PrintedTrace', cases)


def clauses_C35(case, driver, bad):
    for c in bad['c']:
        yield 'C35', '%s/%s' % (case['kind'], c), '%s in %s' % (
            c, json.dumps(case['steps'] if case['kind'] == 'events'
                          else case['q']))
