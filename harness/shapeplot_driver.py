'''Plots coordinate shapes and records what is drawn.'''
import os
os.environ['MPLBACKEND'] = 'Agg'
import warnings  # noqa: E402
from base import run, guarded, BadResult  # noqa: E402
import numpy as np  # noqa: E402
import matplotlib.pyplot as plt  # noqa: E402
from matplotlib.figure import Figure  # noqa: E402
from matplotlib.backends.backend_agg import FigureCanvasAgg  # noqa: E402
from causets.shapes import CoordinateShape  # noqa: E402
from shape_driver import kwargs  # noqa: E402
import geometry as geo  # noqa: E402
warnings.simplefilter('ignore')
TOL = 0.06  # tenths of the length unit


def tell(S):
    '''everything the shape tells about itself'''
    return [S.Dim, S.Name, [float(x) for x in S.Center], str(S), repr(S),
            [[float(x) for x in S.Limits(i)] for i in range(S.Dim)],
            float(S.MaxEdgeHalf(list(range(S.Dim)))), float(S.Volume)]


def main(case):
    a, u, dims = case['a'], case['u'], list(case['dims'])
    three = len(dims) == 3
    out = dict(case)
    out.update({'codes': [], 'spur': 0, 'count': 1, 'alpha': 50,
                'wanted': 50, 'same': True})

    def draw():
        S = CoordinateShape(a['d'], a['name'], **kwargs(a, u))
        ax = None
        if case['mine']:
            ax = FigureCanvasAgg(Figure()).figure.add_subplot(
                projection='3d' if three else None)
        else:
            plt.close('all')
            plt.figure()
        kw = {}
        if case['opacity']:
            kw['alpha'] = case['opacity'] / 1000.0
            out['wanted'] = case['opacity']
        if case['again']:  # the shape has been drawn before
            other = FigureCanvasAgg(Figure()).figure.add_subplot(
                projection='3d' if three else None)
            S.plot(list(dims), other)
        h = S.plot(list(dims), ax, **kw)
        ax = ax or plt.gca()
        geo.check_axes(ax, three)
        out['same'] = tell(S) == \
            tell(CoordinateShape(a['d'], a['name'], **kwargs(a, u)))
        c = a['c'] if 'center' in a['has'] else [0] * a['d']
        P = [np.array([(c[i] + x / 10.0) * u for i, x in zip(dims, p)])
             for p in case['pts']]
        tol = TOL * u / 10
        if three:
            out['count'] = 1 if len(ax.collections) == len(h) > 0 else 0
            out['alpha'] = int(round(1000 * ax.collections[0].get_alpha()))
            out['spur'] = geo.repeated(h)
            tri = np.concatenate([geo.triangles(X) for X in h])
            out['codes'] = [2 if geo.triangle_distance(tri, p) < tol else 0
                            for p in P]
        else:
            out['count'] = len(ax.patches)
            if ax.patches[0] is not h:
                raise BadResult('patch')
            out['alpha'] = int(round(1000 * h.get_alpha()))
            rings, edges = geo.subpaths(h)
            out['codes'] = [geo.covers(rings, p, tol) for p in P]
            out['spur'] = geo.spurs(rings, edges, tol) + geo.repeated(rings)
        return True
    _, out['err'] = guarded(draw, 60.0)
    return out


if __name__ == '__main__':
    run(main)
