'''Constructs spacetime objects as requested by SpacetimeObjects.tla.'''
from base import run, guarded
import numpy as np
from causets import spacetimes as stm


def make(q, kw):
    v = [x / 4 for x in q['v']]
    k = q['k']
    arg = {'none': lambda: None, 'float': lambda: v[0],
           'int': lambda: int(v[0]), 'tuple': lambda: tuple(v),
           'list': lambda: v, 'array': lambda: np.array(v)}[k]()
    cls, key = {'flat': (stm.FlatSpacetime, 'period'),
                'dS': (stm.deSitterSpacetime, 'r_dS'),
                'AdS': (stm.AntideSitterSpacetime, 'r_AdS'),
                'black hole': (stm.BlackHoleSpacetime, 'r_S')}[q['cls']]
    opt = {'metric': q['m']} if q['m'] else {}
    if k == 'none':
        return cls(q['d'], **opt)
    if kw:
        return cls(dim=q['d'], **{key: arg}, **opt)
    return cls(q['d'], arg, *opt.values())


def observe(q, M):
    key = {'dS': 'r_dS', 'AdS': 'r_AdS', 'black hole': 'r_S'}
    per = False
    if q['cls'] == 'flat':
        per = bool(M.Parameter('isPeriodic'))
        v = list(M.Parameter('period')) if per else []
    else:
        v = [M.Parameter(key[q['cls']])]
    S = M.DefaultShape()
    unit = [float(x) for x in S.Center] == [0.0] * S.Dim
    if S.Name == 'cube':
        unit = unit and float(S.Parameter('edge')) == 1.0
    else:
        unit = unit and float(S.Parameter('radius')) == 1.0 and \
            float(S.Parameter('hollow')) == 0.0
        if S.Name == 'cylinder':
            unit = unit and float(S.Parameter('duration')) == 2.0
    repr(M)
    return {'d': int(M.Dim), 'name': str(M.Name), 'metric': str(M.MetricName),
            'v': [int(round(4 * float(x))) if float(8 * x).is_integer() and
                  float(4 * x).is_integer() else 10**6 for x in v],
            'periodic': per, 'shape': str(S.Name), 'sd': int(S.Dim),
            'unit': bool(unit), 'str': str(M)}


def use(q, M):
    '''using an object does not change what it tells'''
    x = np.array([0.1] * M.Dim)
    y = np.array([0.4] + [0.2] * (M.Dim - 1))
    M.Causality()(x, y)
    if q['cls'] not in ('AdS',) and M.Dim == 2:
        M.ConePlotter([1, 0], {}, 1.0)


def main(case):
    out = {'id': case['id'], 'q': case['q'], 'o': []}
    objs = []
    for q, kw in zip(case['q'], case['kw']):
        objs.append(guarded(lambda: make(q, kw)))
    if case['use']:
        for q, (M, err) in zip(case['q'], objs):
            if not err:
                guarded(lambda: use(q, M))
    for q, (M, err) in zip(case['q'], objs):
        res = {}
        if not err:
            res, err = guarded(lambda: observe(q, M))
        out['o'].append({'err': err, 'res': res if not err else {}})
    return out


if __name__ == '__main__':
    run(main)
