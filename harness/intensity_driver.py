'''
Executes histories of the `Sprinkling` specification on SprinkledCauset (or
EmbeddedCauset) and records the account after every step.
'''
import math
from base import run, guarded, BadResult
import numpy as np
from causets.causetevent import CausetEvent
from causets.shapes import CoordinateShape
from causets.embeddedcauset import EmbeddedCauset
from causets.sprinkledcauset import SprinkledCauset
from shape_driver import kwargs

K = 10000


def fixed(x, scale):
    x = float(x)
    if not math.isfinite(x) or abs(x * scale) > 2e9:
        return 2000000000
    return int(round(x * scale))


class World(object):

    def __init__(self, case):
        a, u = case['a'], case['u']
        self.rng = np.random.default_rng(case['seed'])
        self.case = case
        self.S = CoordinateShape(a['d'], a['name'], **kwargs(a, u))
        self.C = None
        self.n = 0

    def coords(self, n, dim=None):
        r = []
        for _ in range(n):
            self.n += 1
            r.append([0.001 * self.n] * (dim or self.S.Dim))
        return r

    def misfit(self, a):
        '''a dimension that is not the one of the causet'''
        d = self.S.Dim + a.get('by', 1)
        d = d if d > 0 else self.S.Dim + 1
        return d, CoordinateShape(d, self.S.Name)

    def start(self, **kw):
        if self.case['plain']:
            self.C = EmbeddedCauset(shape=self.S)
        else:
            self.C = SprinkledCauset(shape=self.S, **kw)

    def do(self, a):
        op = a['op']
        if op == 'new card':
            return self.start(card=a['n'])
        if op == 'new intensity':
            return self.start(intensity=a['q'] / 4)
        C = self.C
        if op == 'sprinkle':
            C.sprinkle(a['n'], rng=self.rng)
        elif op == 'intensify':
            C.intensify(a['q'] / 4, rng=self.rng)
        elif op == 'create':
            X = self.coords(a['n'])
            C.create(np.array(X).reshape(len(X), self.S.Dim)
                     if a.get('via') == 'array' else X)
        elif op == 'add':
            new = [CausetEvent(label=0, coordinates=x)
                   for x in self.coords(a['n'])]
            old = sorted(C, key=id)[:a['old']]
            C.add(set(new + old) if a.get('via') == 'set' else new + old)
        elif op == 'misfit sprinkle':
            C.sprinkle(a['n'], rng=self.rng, shape=self.misfit(a)[1])
        elif op == 'misfit intensify':
            C.intensify(a['q'] / 4, shape=self.misfit(a)[1], rng=self.rng)
        elif op == 'misfit create':
            # only some rows may be of another dimension
            X = self.coords(a['n'], self.misfit(a)[0])
            if a.get('via') == 'set' and len(X) > 1:
                X[1:] = self.coords(len(X) - 1)
            C.create(np.array(X) if a.get('via') == 'array' else X)
        elif op == 'discard':
            L = sorted(C, key=lambda e: tuple(e.Coordinates))[:a['n']]
            L += [CausetEvent(label=0, coordinates=x)
                  for x in self.coords(a['other'])]
            C.discard(set(L) if a.get('via') == 'set' else L)
        else:
            raise BadResult(op)

    def snapshot(self):
        C, d = self.C, self.S.Dim
        V = float(C.Shape.Volume)
        den = float(C.Density)
        card = len(set(C))
        if card != C.Card:
            raise BadResult('Card')
        I = float(C.Intensity) if not self.case['plain'] else 0.0
        empty = (C.Card == 0) if self.case['plain'] else I <= 0.0
        if self.case['plain'] and empty:
            L = fixed(C.LengthScale, 10**6)
        elif empty:  # the length scale diverges without intensity
            L = 0
        else:
            L = fixed(float(C.LengthScale)**d * den, 10**6)
        return {'card': card, 'intensity': fixed(I, K),
                'density': fixed(den * V, K), 'length': L}


ZERO = {'card': 0, 'intensity': 0, 'density': 0, 'length': 0}


def main(case):
    w = World(case)
    out = []
    steps = case['steps']
    if not steps[0]['op'].startswith('new'):
        w.start()
    for a in steps:
        _, err = guarded(lambda: w.do(a))
        post, e2 = ZERO, ''
        if w.C is not None:
            post, e2 = guarded(w.snapshot)
        if e2:
            err, post = 'snapshot ' + e2, ZERO
        out.append({'act': a, 'err': err, 'post': post})
        if w.C is None:
            break
    return {'id': case['id'], 'plain': case['plain'], 'steps': out}


if __name__ == '__main__':
    run(main)
