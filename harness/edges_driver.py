'''Calls the builders of outlines and surfaces and records their points.'''
import contextlib
import os
os.environ['MPLBACKEND'] = 'Agg'
from base import run, guarded, BadResult  # noqa: E402
import numpy as np  # noqa: E402
from causets import shapes  # noqa: E402


def num(x):
    if not np.isfinite(x) or abs(x) > 100:
        raise BadResult('number')
    return int(round(1e4 * float(x)))


@contextlib.contextmanager
def poisoned():
    '''Memory that a builder leaves unwritten shows up as a wild number.'''
    empty = np.empty

    def filled(*args, **kwargs):
        A = empty(*args, **kwargs)
        if A.dtype.kind in 'fiuc':
            A.fill(97531)
        return A
    np.empty = filled
    try:
        yield
    finally:
        np.empty = empty


def main(case):
    a, u = case['a'], case['u']
    out = dict(case)
    out.update({'P': [], 'kept': True})

    def call():
        fn = getattr(shapes, a['fn'])
        flat = a['fn'].endswith('Edge')
        c = np.array(a['c'][:2 if flat else 3]) * u
        arrays = [c]
        r, w, e, h = a['r'] * u, a['w'] * u, a['e'] * u, a['h'] / 10.0
        kw = {}
        args = {'RectangleEdge': (c[0], c[1], w, e),
                'CircleEdge': (c, r), 'EllipseEdge': (c, np.array([r, w])),
                'BiconeEdge': (c, r), 'CylinderCutEdge': (c, r, e),
                'CuboidSurface': (c, np.array([r, w, e])),
                'CubeSurface': (c, r), 'BallSurface': (c, r),
                'CylinderSurface': (c, r, e),
                'OpenConeSurface': (c, r, e)}[a['fn']]
        arrays += [x for x in args if isinstance(x, np.ndarray)]
        old = [x.copy() for x in arrays]
        if a['h'] or a['giveh']:
            kw['hollow'] = h
        if a['z'] != 2 or a['givez']:
            kw['zaxis'] = a['z']
        if a['s'] > 0 or a['gives']:
            kw['samplingsize'] = a['s']
        take = {'CircleEdge': 'hs', 'EllipseEdge': 'hs', 'BiconeEdge': 'h',
                'CylinderCutEdge': 'h', 'BallSurface': 's',
                'CylinderSurface': 'hzs', 'OpenConeSurface': 'zs'}
        kw = {k: v for k, v in kw.items() if k[0] in take.get(a['fn'], '')}
        with poisoned():
            R = fn(*args, **kw)
        out['kept'] = all(np.array_equal(x, y) for x, y in zip(arrays, old))
        if flat:
            if not isinstance(R, np.ndarray) or R.ndim != 2 or \
                    R.shape[1] != 2:
                raise BadResult('not a matrix of two columns')
            out['P'] = [[] if np.all(np.isnan(p)) else
                        [num(x) for x in (p - c) / u] for p in R]
        else:
            if not isinstance(R, list):
                raise BadResult('not a list')
            for S in R:
                X = np.broadcast_arrays(*S)
                if len(X) != 3 or X[0].ndim != 2:
                    raise BadResult('not three matrices')
                M = (np.stack(X, axis=2) - c) / u
                out['P'].append([[[num(x) for x in p] for p in row]
                                 for row in M])
        return True
    _, out['err'] = guarded(call)
    return out


if __name__ == '__main__':
    run(main)
