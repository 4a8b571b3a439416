'''
Executes histories of the `Embedded` specification on the real
EmbeddedCauset (or SprinkledCauset) and records the outcome of every step.
'''
from base import run, guarded, BadResult
from causality_driver import spacetime, coordinates
import numpy as np
from order_driver import label_out, reset_hash
from causets.causetevent import CausetEvent
from causets.embeddedcauset import EmbeddedCauset
from causets.sprinkledcauset import SprinkledCauset


class World(object):

    def __init__(self, case):
        self.case = case
        self.m, self.sc, self.t0 = case['m'], case['sc'], case['t0']
        self.off = case.get('off')
        self.pts = []      # lattice points in the order of their creation
        self.real = []     # their real coordinates
        self.ids = {}      # id(event) -> number
        self.ev = {}       # number -> event
        self.C = None
        self.linked = False

    def matrix(self, pts, via):
        rows = [coordinates(self.m, self.sc, p, self.t0, self.off)
                for p in pts]
        if via == 'list':
            return rows, [list(r) for r in rows]
        if via == 'rows':
            return rows, [np.array(r) for r in rows]
        if via == 'tuples':
            return rows, [tuple(r) for r in rows]
        return rows, np.array(rows).reshape(len(rows), self.m['d'])

    def register(self, first, events):
        '''numbers of new events by the coordinates they were created with'''
        ret = []
        for e in events:
            if not isinstance(e, CausetEvent):
                raise BadResult('not an event')
            i = self.ids.get(id(e))
            if i is None:
                crd = [float(x) for x in e.Coordinates]
                i = 0
                for k in range(first, len(self.real)):
                    if self.real[k] == crd and k + 1 not in self.ev:
                        i = k + 1
                        self.ev[i] = e
                        self.ids[id(e)] = i
                        break
            ret.append(i)
        return sorted(ret)

    def snapshot(self, links):
        C = self.C
        evs = sorted(((self.ids.get(id(e), 0), e) for e in C),
                     key=lambda x: x[0])

        al = sorted(set(self.ev) | {i for i, _ in evs})
        known = [self.ev[i] for i in al if i in self.ev]

        def rel(S):
            return sorted(self.ids.get(id(x), 0) for x in S)

        def crd(i, e):
            v = [float(x) for x in e.Coordinates]
            if i and v == self.real[i - 1]:
                return self.pts[i - 1]
            return [999999] * self.m['d']
        r = {'ev': [i for i, _ in evs],
             'crd': [crd(i, e) for i, e in evs],
             'lab': [label_out(e.Label) for _, e in evs],
             'al': al, 'past': [rel(e.Past) for e in known],
             'fut': [rel(e.Future) for e in known],
             'links': links, 'lp': [], 'lf': []}
        if links:
            r['lp'] = [rel(e.LinkPast) for e in known]
            r['lf'] = [rel(e.LinkFuture) for e in known]
        return r


def label_format(fmt):
    if not fmt:
        return None
    field = '{}' if len(fmt) == 2 else '{:0%dd}' % fmt[2] if fmt[2] else '{0}'
    return fmt[0] + field + fmt[1]


def spoil(arg):
    '''the caller uses the given collection for something else'''
    for r in arg:
        if isinstance(r, (list, np.ndarray)):
            for i in range(len(r)):
                r[i] = 12345.0


def do(w, a):
    op = a['op']
    if op == 'create':
        first = len(w.real)
        rows, arg = w.matrix(a['pts'], a.get('via', 'list'))
        w.pts += a['pts']
        w.real += rows
        fmt = label_format(a['fmt'])
        if w.C is None:
            M = spacetime(w.m, w.sc)
            if a.get('new') == 'coordinates':
                w.C = EmbeddedCauset(spacetime=M, coordinates=arg)
                spoil(arg)
                return w.register(first, w.C)
            if a.get('new') == 'sprinkled':
                w.C = SprinkledCauset(spacetime=M)
            else:
                w.C = EmbeddedCauset(M)
        kw = {}
        if fmt is not None or a.get('kw'):
            kw['labelFormat'] = fmt
        if not a['relate'] or a.get('kw'):
            kw['relate'] = a['relate']
        S = w.C.create(arg, **kw)
        spoil(arg)
        if not isinstance(S, set):
            raise BadResult('not a set')
        return w.register(first, S)
    if w.C is None:
        w.C = EmbeddedCauset(spacetime(w.m, w.sc))
    if op == 'discard':
        S = {w.ev[i] for i in a['s']}
        w.C.discard(S if a.get('via') != 'list' else list(S))
    elif op == 'relate':
        w.C.relate(link=a['link'])
    elif op == 'add':
        S = [w.ev[i] for i in a['s']]
        rows, _ = w.matrix(a['pts'], 'list')
        for pt, row in zip(a['pts'], rows):
            e = CausetEvent(coordinates=row)
            w.pts.append(pt)
            w.real.append(row)
            w.ids[id(e)] = len(w.real)
            w.ev[len(w.real)] = e
            S.append(e)
        w.C.add(set(S) if a.get('via') != 'list' else S)
    elif op == 'embed':
        rows, _ = w.matrix([a['pt']], 'list')
        w.pts[a['e'] - 1], w.real[a['e'] - 1] = a['pt'], rows[0]
        if a.get('dis'):
            w.ev[a['e']].disembed()
            w.ev[a['e']].embed(rows[0])
        else:
            w.ev[a['e']].embed(rows[0], reembed=True)
    elif op == 'relabel':
        kw = {}
        if a['dim'] != 1 or a.get('kw'):
            kw['dim'] = a['dim'] - 1
        if a['desc'] or a.get('kw'):
            kw['descending'] = a['desc']
        w.C.relabel(**kw)
    return []


def perm(a):
    P = a['perm']
    fmt = label_format(a['fmt'])
    kw = {}
    if fmt is not None:
        kw['labelFormat'] = fmt
    if a['radius'] != 1.0:
        kw['radius'] = a['radius']
    P2 = list(P)
    C = EmbeddedCauset.FromPermutation(P2, **kw)
    if P2 != list(P):
        raise BadResult('changed an argument')
    spoil([P2])
    n = len(P)
    evs = list(C)
    ids = {id(e): k + 1 for k, e in enumerate(evs)}
    unit = a['radius'] / n / 2 if n else 1.0

    def crd(e):
        v = [float(x) / unit for x in e.Coordinates]
        if len(v) != 2 or any(abs(x - round(x)) > 1e-6 for x in v):
            return [999999, 999999]
        return [int(round(x)) for x in v]

    def rel(S):
        return sorted(ids.get(id(x), 0) for x in S)
    S = C.Shape
    inside = S.Name == 'bicone' and S.Dim == 2 and C.Dim == 2 and \
        abs(float(S.Parameter('radius')) - a['radius']) < 1e-6 * a['radius'] \
        and C.Spacetime.Dim == 2 and C.Spacetime.Name == 'flat'
    return {'ev': [k + 1 for k in range(len(evs))],
            'al': [k + 1 for k in range(len(evs))],
            'crd': [crd(e) for e in evs],
            'lab': [label_out(e.Label) for e in evs],
            'past': [rel(e.Past) for e in evs],
            'fut': [rel(e.Future) for e in evs],
            'lp': [], 'lf': [], 'links': False, 'inside': bool(inside)}


NONE = {'ev': [], 'al': [], 'crd': [], 'lab': [], 'past': [], 'fut': [], 'lp': [],
        'lf': [], 'links': False, 'inside': False}


def main(case):
    if reset_hash:
        reset_hash(case.get('h', 1))
    w = World(case)
    out = []
    for a in case['steps']:
        rec = {'act': a, 'ret': [], 'post': NONE}
        if a['op'] == 'perm':
            post, err = guarded(lambda: perm(a))
        else:
            ret, err = guarded(lambda: do(w, a))
            post = NONE
            if not err:
                rec['ret'] = ret
                post, err = guarded(lambda: w.snapshot(a.get('obs', True)))
        rec['err'] = err
        if not err:
            rec['post'] = post
        out.append(rec)
        if err:
            break
    return {'id': case['id'], 'm': case['m'], 'steps': out}


if __name__ == '__main__':
    run(main)
