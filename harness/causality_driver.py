'''
Asks Spacetime.Causality() of the real code about all ordered pairs of the
points of a case (see CausalityTrace.tla).
'''
import math
import random
from base import run, guarded, as_bool
import numpy as np
from causets import spacetimes as stm


def spacetime(m, sc):
    '''spacetime object of the lattice description m with length scale sc'''
    k = m['k']
    if k == 'flat':
        per = [float(p * sc) for p in m['per']]
        form = m.get('form', 'tuple')
        if all(p <= 0 for p in m['per']) and form != 'tuple':
            return stm.FlatSpacetime(m['d'])
        if form == 'float' and len(set(per)) == 1:
            return stm.FlatSpacetime(m['d'], period=per[0])
        return stm.FlatSpacetime(m['d'], period=tuple(per))
    if k == 'dS':
        return stm.deSitterSpacetime(m['d'], r_dS=sc)
    if k == 'AdS':
        return stm.AntideSitterSpacetime(m['d'], r_AdS=sc)
    if k in ('EF', 'S'):
        if k == 'EF' and m.get('form') == 'default':
            return stm.BlackHoleSpacetime(2, r_S=sc)
        return stm.BlackHoleSpacetime(2, r_S=sc, metric={
            'EF': 'Eddington-Finkelstein', 'S': 'Schwarzschild'}[k])
    raise ValueError(k)


def coordinates(m, sc, p, t0=0.0, off=None):
    '''real coordinates of the lattice point p, off: a translation (flat)'''
    k = m['k']
    if off:
        return [c * sc + o for c, o in zip(p, off)]
    if k == 'flat':
        return [c * sc + (t0 if i == 0 else 0.0) for i, c in enumerate(p)]
    if k == 'dS':
        return [p[0] * sc * math.log(2.0) + t0] + \
            [x * sc / m['R'] for x in p[1:]]
    if k == 'AdS':
        return [p[0] * sc * math.acos(m['p'] / m['q']) + t0] + \
            [x * sc / m['R'] for x in p[1:]]
    return [(p[0] + p[1] * math.log(2.0)) * sc / 16 + t0,
            p[2] * p[3] * sc / 16]


def code(f, x, y):
    r, err = guarded(lambda: f(x, y))
    if err or not isinstance(r, tuple) or len(r) != 2:
        return -1, err
    try:
        return 2 * as_bool(r[0]) + as_bool(r[1]), ''
    except Exception:
        return -1, ''


def random_points(case):
    rng = random.Random(case['seed'])
    m, sc = case['sp'], case['sc']
    k = m['k']
    pts = []
    for _ in range(case['n']):
        if k in ('EF', 'S'):
            r = rng.choice([rng.uniform(0.05, 0.95), rng.uniform(1.05, 3.0)])
            pts.append([rng.uniform(-2, 2) * sc,
                        rng.choice([1, 1, 1, -1]) * r * sc])
        else:
            d = m['d'] - 1
            v = np.array([rng.gauss(0, 1) for _ in range(d)])
            v *= rng.random()**(1 / d) / np.sqrt(sum(v * v)) * sc
            if k == 'AdS':
                v *= 2
            t = rng.uniform(-1, 1) * (3.0 if k == 'AdS' else 1.2) * sc
            pts.append([t] + list(v))
    return pts


def main(case):
    m, sc = case['m'], case['sc']
    out = {'id': case['id'], 'm': m, 'err': '', 'args': True}
    if m['k'] == 'any':
        pts = random_points(case)
        M, err = guarded(lambda: spacetime(case['sp'], sc))
        order = sorted(range(len(pts)), key=lambda i: pts[i][0])
        out['time'] = [order.index(i) for i in range(len(pts))]
        if case['sp']['k'] == 'S':  # the time does not decide inside
            out['time'] = [0] * len(pts)
        out['pts'] = []
    else:
        pts = [coordinates(m, sc, p, case['t0'], case.get('off'))
               for p in case['pts']]
        M, err = guarded(lambda: spacetime(m, sc))
        out['pts'] = case['pts']
        out['time'] = []
    if err:
        out['err'] = err
        return out
    f, err = guarded(M.Causality)
    if err:
        out['err'] = err
        return out
    arr = [np.array(p) for p in pts]
    out['res'] = []
    for x in arr:
        row = []
        for y in arr:
            c, err = code(f, x, y)
            row.append(c)
            out['err'] = out['err'] or err
        out['res'].append(row)
    out['args'] = all(list(a) == p for a, p in zip(arr, pts))
    return out


if __name__ == '__main__':
    run(main)
