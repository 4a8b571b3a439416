'''Histories of colour schemes and default colours, see Colours.tla.'''
import os
os.environ['MPLBACKEND'] = 'Agg'
import copy  # noqa: E402
from base import run, guarded  # noqa: E402
from matplotlib.figure import Figure  # noqa: E402
from matplotlib.backends.backend_agg import FigureCanvasAgg  # noqa: E402
import matplotlib.colors as mcolors  # noqa: E402
from causets import colorschemes as cs  # noqa: E402
from causets import causetplotting as cplt  # noqa: E402
from causets.causetevent import CausetEvent  # noqa: E402
from causets.spacetimes import FlatSpacetime  # noqa: E402

INIT = dict(cplt.default_colors)
PART = {'links': ('links', 'color'), 'linksedge': ('links', 'markeredgecolor'),
        'linksface': ('links', 'markerfacecolor'),
        'eventsedge': ('events', 'markeredgecolor'),
        'eventsface': ('events', 'markerfacecolor'),
        'conesedge': ('cones', 'edgecolor'),
        'conesface': ('cones', 'color')}


def split(s):
    return {'k': 'cs', 'v': s[3:]} if s.startswith('cs:') \
        else {'k': 'plain', 'v': s}


def join(c):
    return 'cs:' + c['v'] if c['k'] == 'cs' else c['v']


SCHEMES = copy.deepcopy(cs.ColorSchemes)
VALID = {n: {k: bool(mcolors.is_color_like(v)) for k, v in S.items()}
         for n, S in SCHEMES.items()}


def hexa(x):
    try:
        return mcolors.to_hex(x)
    except ValueError:
        return 'invalid'


def name_of(table):
    for n in cs.ColorSchemes:
        if table is cs.ColorSchemes[n]:
            return n
    for n in cs.ColorSchemes:
        if table == cs.ColorSchemes[n]:
            return n
    return ''


def first(x):
    return x[0] if isinstance(x, (list, tuple)) else x


def plot(a, three):
    ax = FigureCanvasAgg(Figure()).figure.add_subplot(
        projection='3d' if three else None)
    kw = {}
    for part, c in a['own'].items():
        group, key = PART[part]
        if group == 'cones':
            kw.setdefault('pastcones', {})[key] = join(c)
        else:
            kw.setdefault(group, {})[key] = join(c)
    if 'pastcones' not in kw:
        kw['pastcones'] = {} if three else True
    if three:  # the plain colour, without the effect of illumination
        kw['pastcones']['shade'] = False
    kw['futurecones'] = copy.deepcopy(kw['pastcones'])
    p = CausetEvent(coordinates=[0.0, 0.1, 0.0])
    f = CausetEvent(past={p}, coordinates=[1.0, 0.2, 0.0])
    h = cplt.plot([p, f], ax, FlatSpacetime(3), time=[-1.0, 2.0],
                  dims=[1, 2, 0] if three else [1, 0], **kw)
    link = first([x for x in h['links'] if x is not None][0])
    res = {'links': hexa(link.get_color()),
           'linksedge': hexa(link.get_markeredgecolor()),
           'linksface': hexa(link.get_markerfacecolor())}
    for e in h['events']:
        e = first(e)
        for part, c in (('eventsedge', e.get_markeredgecolor()),
                        ('eventsface', e.get_markerfacecolor())):
            if hexa(c) != res.get(part, hexa(c)):
                res[part] = 'differs'
            else:
                res[part] = hexa(c)
    if three:
        ax.M = ax.get_proj()
    if len([x for k in ('pastcones', 'futurecones')
            for x in h[k] if x is not None]) < 2:
        res['conesface' if three else 'conesedge'] = 'missing'
    for cone in (ax.collections if three else ax.patches):
        if three:
            cone.do_3d_projection()
        for c in ([tuple(cone.get_facecolor()[0])] if three
                  else [cone.get_edgecolor()]):
            part = 'conesface' if three else 'conesedge'
            if hexa(c) != res.get(part, hexa(c)):
                res[part] = 'differs'
            else:
                res[part] = hexa(c)
    return res


def main(case):
    cplt.setDefaultColors('matplotlib', **INIT)
    strings = {v for S in SCHEMES.values() for v in S.values()}
    steps = []
    other = [12, None, [0.5, 0.5, 0.5, 1.0], 'xcs:blue', 'CS:blue', 0.5]

    def act(a):
        op = a['op']
        name = a.get('name', '')
        opt = [] if not name else [name]
        if op == 'set':
            cs.setGlobalColorScheme(name)
        elif op == 'default':
            kw = {k: join(c) for k, c in a['def'].items()}
            cplt.setDefaultColors(*opt, **kw)
        elif op == 'pick':
            return dict(cs.pickColorScheme(name))
        elif op == 'get':
            return dict(cs.getGlobalColorScheme())
        elif op == 'color':
            return [cs.getColor(join(c), *opt) for c in a['cs']]
        elif op == 'list':
            r = cs.convertColorsInList([join(c) for c in a['cs']], *opt)
            return list(r)
        elif op == 'dict':
            D = {'k%d' % i: join(c) for i, c in enumerate(a['cs'])}
            for i, x in enumerate(other):
                D['o%d' % i] = x
            r = cs.convertColorsInDict(D, *opt)
            if set(r) != {'k%d' % i for i in range(len(a['cs']))} | \
                    {'o%d' % i for i in range(len(other))} or \
                    any(r['o%d' % i] != x or type(r['o%d' % i]) is not type(x)
                        for i, x in enumerate(other)):
                return ['other entries changed']
            return [r['k%d' % i] for i in range(len(a['cs']))]
        elif op == 'plot':
            return plot(a, a.get('three', False))
        return {}

    for a in case['steps']:
        res, err = guarded(lambda: act(a))
        cur, err2 = guarded(lambda: name_of(cs.getGlobalColorScheme()))
        steps.append({'act': a, 'res': res if not err else {},
                      'err': err or err2, 'cur': cur or ''})
        for c in list(a.get('own', {}).values()) + \
                list(a.get('def', {}).values()):
            if c['k'] != 'cs':
                strings.add(c['v'])
    for v in INIT.values():
        if not v.startswith('cs:'):
            strings.add(v)
    return {'id': case['id'], 'steps': steps, 'schemes': SCHEMES,
            'init': {k: split(v) for k, v in INIT.items()},
            'valid': VALID, 'hex': {s: hexa(s) for s in strings}}


if __name__ == '__main__':
    run(main)
