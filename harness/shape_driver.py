'''
Records what CoordinateShape objects tell about themselves and where sprinkled
events lie, see ShapeTrace.tla.
'''
import math
from base import run, guarded, BadResult
import numpy as np
from order_driver import label_out
from causets.shapes import CoordinateShape
from causets.embeddedcauset import EmbeddedCauset
from causets.sprinkledcauset import SprinkledCauset
from causets import spacetimes as stm

Q = 10000


def kwargs(a, u):
    k = {}
    has = a['has']
    if 'center' in has:
        k['center'] = [x * u for x in a['c']]
        if a.get('as') == 'array':
            k['center'] = np.array(k['center'])
        elif a.get('as') == 'tuple':
            k['center'] = tuple(k['center'])
    if 'radius' in has:
        k['radius'] = a['r'] * u
    if 'hollow' in has:
        k['hollow'] = a['h'] / 10
    if 'duration' in has:
        k['duration'] = a['dur'] * u
    if 'edge' in has:
        k['edge'] = a['edge'] * u
    if 'edges' in has:
        k['edges'] = [x * u for x in a['edges']]
        if a.get('as') == 'array':
            k['edges'] = np.array(k['edges'])
    return k


def make(a, u):
    '''a shape; the collections it was made from are changed afterwards'''
    kw = kwargs(a, u)
    S = CoordinateShape(a['d'], a['name'], **kw)
    for x in kw.values():
        if isinstance(x, (list, np.ndarray)):
            for i in range(len(x)):
                x[i] = 77 * u
    return S


def halves(x, u):
    '''length as number of half units'''
    v = float(x) / (u / 2)
    if not math.isfinite(v) or abs(v - round(v)) > 1e-4 * max(1, abs(v)):
        raise BadResult('not a multiple: %r' % v)
    return int(round(v))


def vec(x, u):
    return [halves(v, u) for v in np.asarray(x).ravel()]


def shape(case):
    a, u = case['a'], case['u']
    out = dict(case)
    out['err'] = ''
    out['res'] = {}
    S, err = guarded(lambda: make(a, u))
    if err:
        out['err'] = err
        return out

    def record():
        r = {'dim': int(S.Dim), 'name': S.Name, 'radius': 0, 'hollow': 0,
             'duration': 0, 'edge': 0, 'edges': []}
        vols = []
        if case['early']:
            vols.append(S.Volume)
        r['c'] = vec(S.Center, u)
        if S.Name in ('ball', 'bicone', 'cylinder'):
            r['radius'] = halves(S.Parameter('radius'), u)
            h = float(S.Parameter('hollow')) * 10
            r['hollow'] = int(round(h)) if abs(h - round(h)) < 1e-5 else -1
        if S.Name == 'cylinder':
            r['duration'] = halves(S.Parameter('duration'), u)
        if S.Name == 'cube':
            r['edge'] = halves(S.Parameter('edge'), u)
        if S.Name == 'cuboid':
            r['edges'] = vec(S.Parameter('edges'), u)
        r['limits'] = [[halves(x, u) for x in S.Limits(i)]
                       for i in range(S.Dim)]
        r['outside'] = [guarded(lambda: S.Limits(i))[1]
                        for i in (-1, S.Dim)]
        r['maxedge'] = [2 * halves(S.MaxEdgeHalf([i - 1 for i in D]), u)
                        for D in case['dims']]
        # lengths in half units: the maximal edge is twice its half
        r['maxedge'] = [x // 2 for x in r['maxedge']]
        vols += [S.Volume, S.Volume]
        r['volume'] = []
        den, pi = case['vol']
        for V in vols:
            x = float(V) / (math.pi**pi * u**S.Dim) * den
            if not math.isfinite(x) or abs(x) > 2e9:
                raise BadResult('volume')
            n = int(round(x))
            r['volume'].append([n, min(10**9, int(abs(x - n) / max(1, n)
                                                  * 1e9))])
        return r
    r, err = guarded(record)
    out['res'], out['err'] = r if not err else {}, err
    return out


def ints(x, limit):
    if not math.isfinite(x):
        return limit
    return int(max(-limit, min(limit, round(x))))


def relative(S, a, u, e):
    '''position of an event relative to the requested shape'''
    crd = [float(x) for x in e.Coordinates]
    c = [x * u for x in a['c']] if 'center' in a['has'] else [0.0] * a['d']
    r = (a['r'] if 'radius' in a['has'] else 1) * u
    ext = [r] * a['d']
    if a['name'] == 'cylinder':
        ext[0] = (a['dur'] * u if 'duration' in a['has'] else 2 * r) / 2
    elif a['name'] == 'cube':
        ext = [(a['edge'] if 'edge' in a['has'] else 1) * u / 2] * a['d']
    elif a['name'] == 'cuboid':
        ext = [x * u / 2 for x in (a['edges'] if 'edges' in a['has']
                                   else [1] * a['d'])]
    if len(crd) != a['d']:
        return [0] * len(crd)
    return [ints((x - y) / z * Q, 30000) for x, y, z in zip(crd, c, ext)]


def spacetime(case):
    d = case['a']['d']
    return {'flat': lambda: stm.FlatSpacetime(d),
            'dS': lambda: stm.deSitterSpacetime(d, r_dS=50.0),
            'AdS': lambda: stm.AntideSitterSpacetime(d),
            'none': lambda: None}[case.get('st', 'flat')]()


def region(case):
    '''shape of the causet when another shape is sprinkled into'''
    r = case.get('region')
    return 'cuboid' if not r else \
        CoordinateShape(r['d'], r['name'], **kwargs(r, case['u']))


def coordset(S):
    return sorted((str(label_out(e.Label)), tuple(float(x) for x in
                                                  e.Coordinates)) for e in S)


def sprinkle_once(case, seed):
    a, u = case['a'], case['u']
    S = make(a, u)
    if case['via'] == 'shape':     # the shape of the region is another one
        C = SprinkledCauset(dim=a['d'], spacetime=spacetime(case),
                            shape=region(case))
    else:
        C = SprinkledCauset(spacetime=spacetime(case), shape=S)
    if case['many']:
        # the relations do not matter here and are costly for many events
        C.relate = lambda *args, **kwargs: None
    if case['pre']:
        C.create([[0.001 * (i + 1)] * a['d'] for i in range(case['pre'])])
    old = set(C)
    before = C.Card
    kw = {'rng': np.random.default_rng(seed)}
    if case['via'] == 'shape':
        kw['shape'] = S
    n = case['n'] * case.get('scale', 1)
    oldI = C.Intensity

    def call():
        if case['op'] == 'sprinkle':
            return C.sprinkle(n, **kw)
        return C.intensify(float(n), **kw)
    new, err = guarded(call, 60.0)
    if err:
        return {'err': err, 'before': before, 'card': C.Card,
                'kept': set(C) == old and C.Intensity == oldI, 'new': set(),
                'labels': True, 'S': S}
    if not isinstance(new, set):
        raise BadResult('not a set')
    mem = set(C)
    labels = sorted(e.Label for e in new) == \
        list(range(before + 1, before + len(new) + 1))
    return {'err': '', 'before': before, 'card': C.Card, 'new': new, 'S': S,
            'kept': mem == old | new and not (old & new), 'labels': labels}


def sprinkle(case):
    out = dict(case)
    out.update({'err': '', 'before': 0, 'card': 0, 'kept': True, 'pts': [],
                'labels': True, 'slack': 0, 'equal': True, 'differ': True})
    r, err = guarded(lambda: sprinkle_once(case, case['seed']), 120.0)
    if err:
        out['err'] = err
        return out
    for k in ('err', 'before', 'card', 'kept', 'labels'):
        out[k] = r[k]
    if r['err']:
        return out
    new = sorted(r['new'], key=lambda e: e.Label)
    out['pts'] = [relative(r['S'], case['a'], case['u'], e) for e in new]
    # positions are recorded with finite resolution: few may coincide
    out['slack'] = len(new) * len(new) // 4000 + 1
    if not case['many']:
        def again():
            r2 = sprinkle_once(case, case['seed'])
            r3 = sprinkle_once(case, case['seed'] + 1)
            return r2['new'], r3['new']
        x, err = guarded(again, 120.0)
        if err:
            out['err'] = err
            return out
        out['equal'] = coordset(x[0]) == coordset(r['new'])
        if new:
            out['differ'] = coordset(x[1]) != coordset(r['new'])
    return out


def main(case):
    return shape(case) if case['op'] == 'shape' else sprinkle(case)


if __name__ == '__main__':
    run(main)
