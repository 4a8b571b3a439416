'''
Records where sprinkled events lie and how many there are, see
UniformTrace.tla.
'''
from base import run, guarded
import numpy as np
from shape_driver import kwargs, region as causet_region
from shape_driver import relative, spacetime
from causets.shapes import CoordinateShape
from causets.sprinkledcauset import SprinkledCauset


def region(case):
    a, u = case['a'], case['u']
    S = CoordinateShape(a['d'], a['name'], **kwargs(a, u))
    if case['via'] == 'shape':  # the shape of the region is another one
        C = SprinkledCauset(dim=a['d'], spacetime=spacetime(case),
                            shape=causet_region(case))
        return S, C, {'shape': S}
    return S, SprinkledCauset(spacetime=spacetime(case), shape=S), {}


def generator(case, kw):
    '''a generator of the case, or the default one of the method'''
    if case['seed'] is not None:
        kw['rng'] = np.random.default_rng(case['seed'])
    return kw


def points(case):
    S, C, kw = region(case)
    # the relations do not matter here and are costly for many events
    C.relate = lambda *args, **kwargs: None
    kw = generator(case, kw)
    pts = []
    for n in case['n']:
        if case['how'] == 'intensify':
            new = C.intensify(float(n), **kw)
        else:
            new = C.sprinkle(n, **kw)
        pts += [relative(S, case['a'], case['u'], e)
                for e in sorted(new, key=lambda e: e.Label)]
    return pts[:4000]


class Loose(SprinkledCauset):
    '''the relations do not matter here and are costly for many events'''

    def relate(self, *args, **kwargs):
        pass


def numbers(case):
    q = case['q']
    # no overflow of the sums
    top, low = 3 * q // 4 + 100, 0
    if q > 1000:
        far = int(10 + 6 * (q / 4)**0.5)
        top, low = q // 4 + far, q // 4 - far
    r = []
    if q > 1000:
        kw = generator(case, {})
        for _ in range(case['n']):
            if case['how'] == 'new':
                n = Loose(dim=2, intensity=q / 4).Card
            else:
                n = len(Loose(dim=2).intensify(q / 4, **kw))
            r.append(max(low, min(n, top)))
        return r
    if case['how'] == 'new':
        for _ in range(case['n']):
            S = CoordinateShape(case['a']['d'], case['a']['name'],
                                **kwargs(case['a'], case['u']))
            r.append(SprinkledCauset(intensity=q / 4, shape=S).Card)
        return [min(k, top) for k in r]
    _, C, kw = region(case)
    C.relate = lambda *args, **kwargs: None
    kw = generator(case, kw)
    for _ in range(case['n']):
        r.append(len(C.intensify(q / 4, **kw)))
    return [min(k, top) for k in r]


def main(case):
    out = {'id': case['id'], 'op': case['op'], 'a': case['a'], 'k': [],
           'pts': [], 'q': case.get('q', 0)}
    f = numbers if case['op'] == 'numbers' else points
    r, out['err'] = guarded(lambda: f(case), 240.0)
    if not out['err']:
        out['k' if case['op'] == 'numbers' else 'pts'] = r
    return out


if __name__ == '__main__':
    run(main)
