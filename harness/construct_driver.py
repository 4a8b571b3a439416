'''Constructs embedded causets as requested by GenConstruct.tla.'''
from base import run, guarded
import numpy as np
from causets.shapes import CoordinateShape
from causets.embeddedcauset import EmbeddedCauset
from causets.sprinkledcauset import SprinkledCauset
from causets import spacetimes as stm


def spacetime(s):
    if s['k'] == 'none':
        return None
    if s['k'] == 'name':
        return s['name']
    d = s['d']
    return {'flat': lambda: stm.FlatSpacetime(d),
            'periodic': lambda: stm.FlatSpacetime(d, period=2.0),
            'dS': lambda: stm.deSitterSpacetime(d, r_dS=2.0),
            'AdS': lambda: stm.AntideSitterSpacetime(d),
            'black hole': lambda: stm.BlackHoleSpacetime(d)}[s['name']]()


def shape(s):
    if s['k'] == 'none':
        return None
    if s['k'] == 'name':
        return s['name']
    return CoordinateShape(s['d'], s['name'], center=[0.5] * s['d'])


def coordinates(c):
    n = [0]

    def row(d):
        n[0] += 1
        return [0.1 * n[0]] + [0.3 + 0.01 * n[0]] * (d - 1)
    k = c['k']
    if k == 'none':
        return None
    if k == 'flat array':
        return np.array([0.1, 0.2])
    if k == 'cube array':
        return np.zeros((2, 2, 2))
    rows = [row(d) for d in c['rows']]
    if k == 'array':
        return np.array(rows).reshape(len(rows), c['d'])
    if k == 'arrays':
        return [np.array(r) for r in rows]
    if k == 'tuple':
        return tuple(tuple(r) for r in rows)
    return rows


def main(case):
    q = case['q']
    out = {'id': case['id'], 'q': q, 'err': '', 'res': {}}
    st, sh, crd = spacetime(q['st']), shape(q['sh']), coordinates(q['crd'])
    kw = {}
    if st is not None or case['kw']:
        kw['spacetime'] = st
    if sh is not None or case['kw']:
        kw['shape'] = sh
    if q['dim'] != -1 or case['kw']:
        kw['dim'] = q['dim']
    if case['cls'] == 'S':
        def make():
            return SprinkledCauset(**kw)
    else:
        if crd is not None or case['kw']:
            kw['coordinates'] = crd

        def make():
            return EmbeddedCauset(**kw)

    def record():
        C = make()
        S, M = C.Shape, C.Spacetime
        same = (M is st or q['st']['k'] != 'obj') and \
            (S is sh or q['sh']['k'] != 'obj')
        unit = True
        if S is not sh:
            unit = all(float(x) == 0.0 for x in S.Center) and \
                len(S.Center) == S.Dim
            if S.Name in ('ball', 'bicone', 'cylinder'):
                unit = unit and float(S.Parameter('radius')) == 1.0 and \
                    float(S.Parameter('hollow')) == 0.0
            if S.Name == 'cylinder':
                unit = unit and float(S.Parameter('duration')) == 2.0
            if S.Name == 'cube':
                unit = unit and float(S.Parameter('edge')) == 1.0
            if S.Name == 'cuboid':
                unit = unit and [float(x) for x in S.Parameter('edges')] \
                    == [1.0] * S.Dim
        if M is not st and M.Name == 'flat':
            unit = unit and not M.Parameter('isPeriodic')
        n = int(C.Card)
        # coordinates of another dimension are rejected later, too
        errs = []
        for d in {C.Dim + 1, max(C.Dim - 1, 1)} - {C.Dim}:
            _, e = guarded(lambda: C.create([[0.1] * C.Dim, [0.2] * d]))
            errs.append(e)
            _, e = guarded(lambda: C.create(np.full((1, d), 0.1)))
            errs.append(e)
        return {'late': errs, 'kept': int(C.Card) == n, 'd': int(C.Dim), 'std': int(M.Dim), 'shd': int(S.Dim),
                'st': M.Name, 'sh': S.Name, 'same': bool(same),
                'unit': bool(unit), 'n': n,
                'crd': sorted({int(e.CoordinatesDim) for e in C})}
    out['res'], out['err'] = guarded(record)
    if out['err']:
        out['res'] = {}
    return out


if __name__ == '__main__':
    run(main)
