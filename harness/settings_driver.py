'''Requests plot settings and draws with them, see SettingsTrace.tla.'''
import os
os.environ['MPLBACKEND'] = 'Agg'
import copy  # noqa: E402
from base import run, guarded  # noqa: E402
import numpy as np  # noqa: E402
from matplotlib.figure import Figure  # noqa: E402
from matplotlib.backends.backend_agg import FigureCanvasAgg  # noqa: E402
import matplotlib.colors as mcolors  # noqa: E402
from causets import colorschemes as cs  # noqa: E402
from causets import causetplotting as cplt  # noqa: E402
from causets.causetevent import CausetEvent  # noqa: E402
from causets.embeddedcauset import EmbeddedCauset  # noqa: E402
from causets.shapes import CoordinateShape  # noqa: E402
from causets.spacetimes import FlatSpacetime  # noqa: E402

INIT = dict(cplt.default_colors)
SCHEMES = copy.deepcopy(cs.ColorSchemes)
COLOURS = {'color', 'markeredgecolor', 'markerfacecolor', 'edgecolor',
           'facecolor'}
GROUPS = ('links', 'events', 'labels', 'pastcones', 'futurecones')
KEYS = {'links': ['linewidth', 'linestyle', 'color', 'marker', 'markersize',
                  'markeredgecolor', 'markerfacecolor', 'alpha', 'zorder',
                  'markeredgewidth'],
        'labels': ['verticalalignment', 'horizontalalignment', 'color',
                   'fontsize', 'rotation', 'alpha', 'zorder'],
        'pastcones': ['edgecolor', 'facecolor', 'alpha', 'linewidth',
                      'linestyle', 'zorder']}
KEYS['events'] = KEYS['links']
KEYS['futurecones'] = KEYS['pastcones']


def canon(c):
    if isinstance(c, str) and c == 'none':
        return 'c:none'
    try:
        x = mcolors.to_rgba(c)
    except ValueError:
        return 'c:invalid'
    return 'c:none' if x[3] == 0.0 else 'c:' + mcolors.to_hex(x)


def tok(key, v):
    if key in COLOURS:
        return canon(v)
    if v is None:
        return 's:unset'
    if isinstance(v, str):
        if key in ('linestyle', 'marker', 'conetimefade') and \
                v.strip().lower() in ('', 'none'):
            v = 'None'
        return 's:' + v
    if isinstance(v, (bool, np.bool_)):
        return 'b:%s' % bool(v)
    if isinstance(v, (list, tuple, np.ndarray)):
        return '[%s]' % ','.join(tok('', x) for x in v)
    if isinstance(v, dict):
        return '{%s}' % ','.join('%s=%s' % (k, tok(k, v[k]))
                                 for k in sorted(v))
    return '%.4f' % (float(v) + 0.0)


def fix(x):
    return int(round(1e4 * float(x)))


def colour(s):
    return {'k': 'cs', 'v': s[3:]} if s.startswith('cs:') \
        else {'k': 'plain', 'v': canon(s)}


def keywords(q):
    kw = copy.deepcopy(q['kw'])
    if q['givedims']:
        kw['dims'] = list(q['dims'])
    if q['limkind'] == 'given':
        kw['axislim'] = {k: tuple(v) for k, v in kw['axislim'].items()}
    if q['hasshape'] and q['passshape']:
        kw['shape'] = make_shape(q)
    return kw


def make_shape(q):
    s = q['shape']
    p = {'center': [x / 1e4 for x in s['c']]}
    if s['name'] == 'cube':
        p['edge'] = s['r'] / 1e4
    elif s['name'] == 'cuboid':
        p['edges'] = [x / 1e4 for x in s['e']]
    else:
        p['radius'] = s['r'] / 1e4
        if s['name'] == 'cylinder':
            p['duration'] = s['dur'] / 1e4
    return CoordinateShape(len(s['c']), s['name'], **p)


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and \
            all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and \
            all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, CoordinateShape):
        return True
    return type(a) is type(b) and a == b


def copy_of(kw):
    return {k: v if isinstance(v, CoordinateShape) else copy.deepcopy(v)
            for k, v in kw.items()}


def pairs(d):
    return [[k, tok(k, d[k])] for k in sorted(d)]


def limits(lim):
    return [[fix(x) for x in lim[k]] for k in ('xlim', 'ylim', 'zlim')
            if k in lim]


def param(q, step):
    kw = keywords(q)
    old = copy_of(kw)
    P = cplt.plot_parameters(**kw)
    step['kept'] = same(old, kw)
    lim = P.get('axislim')
    return {'groups': [[g, pairs(P[g])] for g in GROUPS if g in P],
            'opts': pairs({k: P[k] for k in
                           ('aspect', 'conetimefade', 'conetimedepth',
                            'timedepth', 'timefade') if k in P}),
            'dims': list(P['dims']),
            'lim': limits(lim) if isinstance(lim, dict) else
            [] if lim is None else [[0, 0]]}


def flat(x):
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in flat(y)]
    return [] if x is None else [x]


def draw(q, step):
    three = len(q['dims']) == 3
    fig = FigureCanvasAgg(Figure()).figure
    ax = fig.add_subplot(projection='3d' if three else None)
    kw = keywords(q)
    old = copy_of(kw)
    d = max(list(q['dims']) + [2]) + 1
    if q['hasshape']:
        d = len(q['shape']['c'])
    X = [[0.0] * d, [1.0, 0.25] + [0.0] * (d - 2),
         [2.5, -0.5] + [0.0] * (d - 2)]
    S = FlatSpacetime(d)
    if q['causet']:
        E = EmbeddedCauset(S, make_shape(q) if q['hasshape'] else None,
                           coordinates=X)
        H = cplt.plot(E, ax, time=[-1.0, 4.0], **kw)
    else:
        a = CausetEvent(label=1, coordinates=X[0])
        b = CausetEvent(label=2, past={a}, coordinates=X[1])
        c = CausetEvent(label='c', past={b, a}, coordinates=X[2])
        H = cplt.plot([a, b, c], ax, S, time=[-1.0, 4.0], **kw)
    step['kept'] = same(old, kw)
    artists = []
    for g in GROUPS:
        if g not in H:
            continue
        look = []
        if not (three and g.endswith('cones')):
            for x in flat(H[g]):
                if not hasattr(x, 'get_zorder'):
                    look.append([['kind', 's:no artist']])
                    continue
                look.append([[k, tok(k, getattr(x, 'get_' + k)())]
                             for k in KEYS[g] if hasattr(x, 'get_' + k)])
        look = [x for i, x in enumerate(look) if x not in look[:i]]
        artists.append([g, look])
    asp = ax.get_aspect()
    asp = 'equal' if asp in (1, 1.0, 'equal') else asp
    lim = [ax.get_xlim(), ax.get_ylim()] + ([ax.get_zlim()] if three else [])
    return {'artists': artists, 'aspect': tok('', [asp, ax.get_adjustable()]),
            'lim': [[fix(x) for x in y] for y in lim]}


def main(case):
    cplt.setDefaultColors('matplotlib', **INIT)
    steps = []
    for s in case['steps']:
        s = dict(s)
        if s['op'] == 'colours':
            opt = [s['name']] if s['name'] else []
            _, s['err'] = guarded(
                lambda: cplt.setDefaultColors(*opt, **s['kw']))
            s['over'] = [[k, colour(v)] for k, v in s['kw'].items()]
        else:
            s['kept'] = True
            f = param if s['op'] == 'param' else draw
            s['res'], s['err'] = guarded(lambda: f(s['q'], s))
            if s['err']:
                s['res'] = {}
            q = dict(s['q'])
            del q['kw']
            s['q'] = q
        steps.append(s)
    return {'id': case['id'], 'steps': steps,
            'schemes': {n: {k: canon(v) for k, v in S.items()}
                        for n, S in SCHEMES.items()},
            'init': [[k, colour(v)] for k, v in INIT.items()]}


if __name__ == '__main__':
    run(main)
