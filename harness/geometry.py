'''What drawn patches and surfaces cover.'''
import numpy as np
from matplotlib.path import Path
from matplotlib.transforms import Affine2D
from base import BadResult


def subpaths(patch):
    '''
    The closed outlines that are filled, and the drawn edges, of a matplotlib
    patch, exactly as the renderer sees them.
    '''
    # curves are resolved to a fraction of a pixel: enlarge first
    V = patch.get_patch_transform().transform(patch.get_path().vertices)
    V = V[np.isfinite(V).all(axis=1)]
    if not V.size:
        return [], []
    zoom = 2000.0 / max(np.ptp(V, axis=0).max(), 1e-300)
    path = patch.get_path().cleaned(
        transform=patch.get_patch_transform() + Affine2D().scale(zoom),
        remove_nans=True, curves=False)
    path = Path(path.vertices / zoom, path.codes)
    rings, edges, cur = [], [], []
    for v, c in zip(path.vertices, path.codes):
        if c in (0, 1):
            if len(cur) > 1:
                rings.append(np.array(cur))
            cur = [v] if c == 1 else []
        elif c == 2:
            if cur:
                edges.append((len(rings), cur[-1], v))
            cur.append(v)
        elif c == 79 and cur:
            edges.append((len(rings), cur[-1], cur[0]))
            rings.append(np.array(cur))
            cur = [cur[0]]
    if len(cur) > 1:
        rings.append(np.array(cur))
    for r in rings:
        if not np.isfinite(r).all() or np.abs(r).max() > 1e8:
            raise BadResult('coordinates of the outline')
    return rings, edges


def winding(ring, q):
    '''winding number of the closed polygon around q'''
    a = ring - q
    b = np.roll(a, -1, axis=0)
    cross = a[:, 0] * b[:, 1] - a[:, 1] * b[:, 0]
    up = (a[:, 1] <= 0) & (b[:, 1] > 0) & (cross > 0)
    down = (a[:, 1] > 0) & (b[:, 1] <= 0) & (cross < 0)
    return int(up.sum() - down.sum())


def distance(ring, q, closed=True):
    a = ring if closed else ring[:-1]
    b = np.roll(ring, -1, axis=0) if closed else ring[1:]
    d = b - a
    n = (d * d).sum(axis=1)
    s = np.clip(((q - a) * d).sum(axis=1) / np.where(n > 0, n, 1.0), 0, 1)
    return np.sqrt((((a + s[:, None] * d) - q)**2).sum(axis=1)).min()


def covers(rings, q, tol):
    '''0: outside, 1: inside, 2: too close to the outline'''
    q = np.array(q, dtype=float)
    if any(distance(r, q) < tol for r in rings):
        return 2
    return 1 if sum(winding(r, q) for r in rings) != 0 else 0


def spurs(rings, edges, tol):
    '''
    number of long edges that do not separate the inside of their outline
    from its outside
    '''
    n = 0
    for k, a, b in edges:
        d = b - a
        length = np.sqrt((d * d).sum())
        if length < 4 * tol or k >= len(rings):
            continue
        normal = np.array([-d[1], d[0]]) / length * tol / 2
        m = a + 0.437 * d
        if (winding(rings[k], m + normal) != 0) == \
                (winding(rings[k], m - normal) != 0):
            n += 1
    return n


def grids(surface):
    X, Y, Z = np.broadcast_arrays(*[np.atleast_2d(np.asarray(
        c, dtype=float)) for c in surface])
    G = np.stack([X, Y, Z], axis=-1)
    if not np.isfinite(G).all() or np.abs(G).max() > 1e8:
        raise BadResult('coordinates of the surface')
    return G


def cut(surface, axis, t, tol):
    '''closed polygon of the surface at the level t of axis, or None'''
    G = grids(surface)
    T = G[..., axis]
    if np.ptp(T, axis=1).max() > tol:
        G = np.swapaxes(G, 0, 1)
        T = G[..., axis]
    if np.ptp(T, axis=1).max() > tol:
        raise BadResult('surface has no level lines')
    T = T[:, 0]
    G = np.delete(G, axis, axis=-1)
    for i in range(len(T) - 1):
        a, b = T[i], T[i + 1]
        if a != b and min(a, b) - tol <= t <= max(a, b) + tol:
            s = min(max((t - a) / (b - a), 0.0), 1.0)
            return G[i] * (1 - s) + G[i + 1] * s
    return None


def triangles(surface):
    G = grids(surface)
    a, b = G[:-1, :-1].reshape(-1, 3), G[1:, :-1].reshape(-1, 3)
    c, d = G[1:, 1:].reshape(-1, 3), G[:-1, 1:].reshape(-1, 3)
    return np.concatenate([np.stack([a, b, c], axis=1),
                           np.stack([a, c, d], axis=1)])


def solid(tri, q):
    '''part of the full solid angle at q that is covered by the triangles'''
    a, b, c = [tri[:, i] - q for i in range(3)]
    la, lb, lc = [np.sqrt((x * x).sum(axis=1)) for x in (a, b, c)]
    num = (a * np.cross(b, c)).sum(axis=1)
    den = la * lb * lc + (a * b).sum(axis=1) * lc + \
        (b * c).sum(axis=1) * la + (c * a).sum(axis=1) * lb
    return abs(2 * np.arctan2(num, den).sum()) / (4 * np.pi)


def triangle_distance(tri, q):
    '''distance of q from the nearest triangle'''
    a, b, c = tri[:, 0], tri[:, 1], tri[:, 2]
    best = np.inf
    for x, y in ((a, b), (b, c), (c, a)):
        d = y - x
        n = (d * d).sum(axis=1)
        s = np.clip(((q - x) * d).sum(axis=1) / np.where(n > 0, n, 1.0), 0, 1)
        best = min(best, (((x + s[:, None] * d) - q)**2).sum(axis=1).min())
    nrm = np.cross(b - a, c - a)
    n2 = (nrm * nrm).sum(axis=1)
    ok = n2 > 1e-30
    if ok.any():
        a, b, c, nrm, n2 = a[ok], b[ok], c[ok], nrm[ok], n2[ok]
        h = ((q - a) * nrm).sum(axis=1) / n2
        p = q - h[:, None] * nrm

        def side(u, v):
            return (np.cross(v - u, p - u) * nrm).sum(axis=1) >= 0
        inside = side(a, b) & side(b, c) & side(c, a)
        if inside.any():
            best = min(best, (h[inside]**2 * n2[inside]).min())
    return np.sqrt(best)


def repeated(shapes):
    '''number of outlines or surfaces that are drawn more than once'''
    A = [np.array(np.broadcast_arrays(*x) if isinstance(x, tuple) else x,
                  dtype=float) for x in shapes]
    return sum(1 for i in range(len(A)) for j in range(i)
               if A[i].shape == A[j].shape and
               np.allclose(A[i], A[j], 1e-9, 1e-12, equal_nan=True))


def check_axes(ax, three):
    '''3D plots need axes in space, others in the plane'''
    if hasattr(ax, 'get_zlim') != three:
        raise BadResult('axes')
