'''Draws light cones and records which lattice points they cover.'''
import os
os.environ['MPLBACKEND'] = 'Agg'
import math  # noqa: E402
import warnings  # noqa: E402
from base import run, guarded, BadResult  # noqa: E402
import numpy as np  # noqa: E402
import matplotlib.pyplot as plt  # noqa: E402
from matplotlib.figure import Figure  # noqa: E402
from matplotlib.backends.backend_agg import FigureCanvasAgg  # noqa: E402
from causets import causetplotting as cplt  # noqa: E402
from causets.causetevent import CausetEvent  # noqa: E402
from causets.embeddedcauset import EmbeddedCauset  # noqa: E402
from causality_driver import spacetime, coordinates  # noqa: E402
import geometry as geo  # noqa: E402
warnings.simplefilter('ignore')

# relative distance from the edge below which a point is left open; the
# curved edges of black holes are sampled along the radius
TOL = {'flat': 0.03, 'dS': 0.02, 'EF': 0.06, 'S': 0.06}


def time_of(m, sc, ts, off=None):
    if m['k'] in ('EF', 'S'):
        return (ts[0] + ts[1] * math.log(2.0)) * sc / 16
    return coordinates(m, sc, [ts[0]] + [0] * (m['d'] - 1), 0.0, off)[0]


def in_solids(tris, p, tol):
    near = [t for t, lo, hi in tris
            if (p >= lo - tol).all() and (p <= hi + tol).all()]
    if any(geo.triangle_distance(t, p) < tol for t in near):
        return 2
    return 1 if any(geo.solid(t, p) > 0.5 for t in near) else 0


def cone(handle, dims, X, tol, strict):
    '''codes of all points X (per event) and the number of wrong edges
    (strict: no sampling across the horizon)'''
    if isinstance(handle, list):  # surfaces
        if len(dims) != 3 or not handle:
            raise BadResult('surface')
        taxis = dims.index(0) if 0 in dims else -1
        tris = []
        if taxis < 0:
            for S in handle:
                t = geo.triangles(S)
                tris.append((t, t.min(axis=(0, 1)), t.max(axis=(0, 1))))

        def code(x):
            p = np.array([x[i] for i in dims], dtype=float)
            if taxis < 0:
                return in_solids(tris, p, tol)
            rings = [geo.cut(S, taxis, p[taxis], 1e-9 * (1 + abs(p[taxis])))
                     for S in handle]
            return geo.covers([r for r in rings if r is not None],
                              np.delete(p, taxis), tol)
        return [[code(x) for x in Y] for Y in X], geo.repeated(handle)
    if len(dims) != 2:
        raise BadResult('patch')
    rings, edges = geo.subpaths(handle)
    return [[geo.covers(rings, [x[i] for i in dims], tol) for x in Y]
            for Y in X], geo.repeated(rings) + \
        (geo.spurs(rings, edges, tol / 4) if strict else 0)


def main(case):
    q, sc = case['q'], case['sc']
    m, dims = q['m'], list(q['dims'])
    three = len(dims) == 3
    tol = TOL[m['k']] * sc
    off = [x * sc for x in case['off']] if case.get('off') else None
    E = [coordinates(m, sc, x, 0.0, off) for x in q['ev']]
    X = [[coordinates(m, sc, x, 0.0, off) for x in Y] for Y in q['pts']]
    out = {'id': case['id'], 'q': q, 'sides': [], 'extra': 0, 'kept': True,
           'alphas': []}
    sides = case['sides']
    ts = [time_of(m, sc, s['ts'], off) for s in sides]

    def draw():
        M = spacetime(m, sc)
        if case['mine']:
            ax = FigureCanvasAgg(Figure()).figure.add_subplot(
                projection='3d' if three else None)
        else:
            plt.close('all')
            plt.figure()
            ax = None
        PAR = []
        for s in sides:
            PAR.append({})
            if case['explicit'] or s['amax'] != 100:
                PAR[-1]['alpha'] = s['amax'] / 1000.0
        if case['via'] == 'direct':
            H = []
            for s, t, params in zip(sides, ts, PAR):
                n = case['samples']
                f = M.ConePlotter(dims, dict(params), s['sign'], ax,
                                  **({'samplingsize': n} if n != 1 else {}))
                arr = [np.array(x) for x in E]
                H.append([h for h in [f(x, t) for x in arr]
                          if h is not None])
                out['kept'] = out['kept'] and \
                    all(list(a) == b for a, b in zip(arr, E))
        else:
            kw = {'dims': dims, 'events': False, 'links': False,
                  'labels': False}
            for s, params in zip(sides, PAR):
                kw['futurecones' if s['sign'] > 0 else 'pastcones'] = \
                    dict(params) if params or case['explicit'] else True
            if q['fade'] == '' or q['fade'] != 'intensity' or \
                    case['explicit']:
                kw['conetimefade'] = q['fade']
            if q['depth']:
                kw['conetimedepth'] = q['depth'] * (
                    time_of(m, sc, [1, 0]) - time_of(m, sc, [0, 0]))
            form = case['tform']
            time = list(ts)
            if len(set(ts)) == 1:
                time = [ts[0]] * int(form[0]) or ts[0]
            if form[1] == 'a':
                time = np.array(time)
            ev = [CausetEvent(coordinates=x, label=i + 1)
                  for i, x in enumerate(E)]
            target, st = ev, M
            if case['via'] == 'causet':
                target = EmbeddedCauset(M)
                target.create(np.array(E), relate=False)
                st = None
            elif len(ev) == 1 and case['explicit']:
                target = ev[0]
            before = [list(e.Coordinates) for e in target] \
                if target is not ev[0] else []
            if case['via'] == 'Plotter':
                h = cplt.Plotter(target, ax, st, **kw)(time)
            else:
                h = cplt.plot(target, ax, st, time=time, **kw)
            if before:
                out['kept'] = before == [list(e.Coordinates)
                                         for e in target]
            H = [h['futurecones' if s['sign'] > 0 else 'pastcones']
                 for s in sides]
        ax = ax or plt.gca()
        geo.check_axes(ax, three)
        rec = []
        for s, hs, params in zip(sides, H, PAR):
            cones = []
            for h in hs:
                codes, spur = cone(h, dims, X, tol, m['k'] != 'S')
                a = -1
                if not three:
                    a = h.get_alpha()
                    a = 1000000 if a is None else int(round(1e6 * float(a)))
                    if case['via'] == 'direct' and not params:
                        a = -1
                    out['extra'] += -1
                cones.append({'codes': codes, 'spur': spur, 'alpha': a})
            rec.append({'sign': s['sign'], 'ts': s['ts'],
                        'amax': s['amax'], 'cones': cones})
        out['sides'] = rec
        if three:
            n = sum(len(h) for hs in H for h in hs)
            out['extra'] = len(ax.collections) - n
            al = [h.get_alpha() for h in ax.collections]
            if case['via'] != 'direct' or all(PAR):
                out['alphas'] = [1000000 if x is None else
                                 int(round(1e6 * float(x))) for x in al]
        else:
            out['extra'] += len(ax.patches)
        return True
    _, out['err'] = guarded(draw, 60.0)
    return out


if __name__ == '__main__':
    run(main)
