'''Draws plots with matplotlib (without a display) and records the artists.'''
import os
os.environ['MPLBACKEND'] = 'Agg'
import math  # noqa: E402
import warnings  # noqa: E402
from base import run, guarded, BadResult  # noqa: E402
import numpy as np  # noqa: E402
import matplotlib.colors as mcolors  # noqa: E402
import matplotlib.pyplot as plt  # noqa: E402
from matplotlib.figure import Figure  # noqa: E402
from matplotlib.backends.backend_agg import FigureCanvasAgg  # noqa: E402
from geometry import check_axes  # noqa: E402
from causets import causetplotting as cplt  # noqa: E402
from causets.causetevent import CausetEvent  # noqa: E402
from causets.causet import Causet  # noqa: E402
from causets.embeddedcauset import EmbeddedCauset  # noqa: E402
from causets.shapes import CoordinateShape  # noqa: E402
from causets.spacetimes import FlatSpacetime  # noqa: E402
warnings.simplefilter('ignore')
K = 1000


def label(s):
    return None if s == 'None' else int(s) if s.lstrip('-').isdigit() else s


class Reader(object):
    '''what has been added to the axes since the last call'''

    def __init__(self, ax, three, unit):
        self.ax, self.three, self.u = ax, three, unit
        self.seen = set()
        self.keep = []

    def num(self, x):
        x = float(x) / self.u * K
        if not math.isfinite(x) or abs(x) > 1e8:
            raise BadResult('coordinate')
        return int(round(x))

    def point(self, x):
        return [self.num(c) for c in x]

    def new(self):
        A = [a for L in (self.ax.lines, self.ax.texts, self.ax.collections,
                         self.ax.patches) for a in L
             if id(a) not in self.seen]
        self.seen.update(map(id, A))
        self.keep += A
        return A

    @staticmethod
    def visible(c):
        try:
            return mcolors.to_rgba(c)[3] > 0.0
        except ValueError:
            return False

    def line(self, a, out):
        if self.three:
            data = np.array(a.get_data_3d(), dtype=float).T
        else:
            data = np.array(a.get_data(orig=True), dtype=float).T
        alpha = a.get_alpha()
        alpha = 1.0 if alpha is None else float(alpha)
        hasline = str(a.get_linestyle()) not in ('None', '', ' ') and \
            a.get_linewidth() > 0.0 and alpha > 0.0
        n = len(data)
        every = a.get_markevery()
        idx = list(range(n)) if every is None else \
            [i for i in every] if isinstance(every, (list, tuple)) else \
            list(range(0, n, every)) if isinstance(every, int) else []
        if a.get_marker() in ('None', '', ' ', None) or alpha <= 0.0 or \
                not (self.visible(a.get_markeredgecolor()) or
                     self.visible(a.get_markerfacecolor())) or \
                a.get_markersize() <= 0.0:
            idx = []
        if not a.get_visible():
            return
        if hasline and n > 1:
            out['extra'] += len(idx)
            out['dots'] += [{'x': self.point(data[i]),
                             'o': self.point(data[0] if i else data[-1])}
                            for i in idx]
            piece = []
            for x in list(data) + [None]:
                if x is None or np.isnan(x).any():
                    if len(piece) > 1:
                        out['segs'].append([self.point(piece[0]),
                                            self.point(piece[-1])])
                        self.straight(piece)
                    piece = []
                else:
                    piece.append(x)
        else:
            for i in idx:
                out['marks'].append({'x': self.point(data[i]),
                                     'a': int(round(alpha * 1e6))})

    @staticmethod
    def straight(piece):
        a, b = np.array(piece[0]), np.array(piece[-1])
        for x in piece[1:-1]:
            d = abs(np.linalg.norm(x - a) + np.linalg.norm(b - x) -
                    np.linalg.norm(b - a))
            if d > 1e-6:
                raise BadResult('line is not straight')

    def read(self):
        out = {'marks': [], 'segs': [], 'texts': [], 'extra': 0, 'dots': []}
        for a in self.new():
            if hasattr(a, 'get_markevery'):
                self.line(a, out)
            elif hasattr(a, 'get_text'):
                if a.get_visible():
                    x = a.get_position_3d() if self.three and \
                        hasattr(a, 'get_position_3d') else a.get_position()
                    if self.three and len(x) == 2:
                        x = (a._x, a._y, a._z)
                    out['texts'].append({'x': self.point(x),
                                         's': str(a.get_text()).strip()})
            elif hasattr(a, 'get_offsets') and hasattr(a, 'get_segments'):
                for s in a.get_segments():
                    out['segs'].append([self.point(s[0]), self.point(s[-1])])
            elif hasattr(a, 'get_offsets'):
                O = a._offsets3d if hasattr(a, '_offsets3d') \
                    else np.array(a.get_offsets()).T
                al = a.get_alpha()
                for i, x in enumerate(np.array(O).T):
                    v = 1.0 if al is None else al if np.ndim(al) == 0 \
                        else al[i]
                    out['marks'].append({'x': self.point(x),
                                         'a': int(round(float(v) * 1e6))})
        return out


def axes(three, mine):
    if mine:
        return FigureCanvasAgg(Figure()).figure.add_subplot(
            projection='3d' if three else None)
    plt.close('all')
    plt.figure()
    return None


def switch(v):
    return dict(v) if isinstance(v, dict) else \
        {'on': True, 'off': False, 'empty': {}}[v]


def state(ev, num):
    return [(type(e.Label), e.Label, sorted(num.get(id(x), -1)
                                            for x in e.Past),
             sorted(num.get(id(x), -1) for x in e.Future),
             [float(c) for c in e.Coordinates] if e.isEmbedded else None,
             [float(c) for c in e.Position]) for e in ev]


def flat(h):
    return [x for x in h if x is not None]


def artists(h):
    '''ids of the artists in a (nested) collection of handles'''
    if isinstance(h, (list, tuple, set)):
        return [i for x in h for i in artists(x)]
    return [] if h is None else [id(h)]


def named(h):
    '''the artists that a result names, per entry'''
    return {k: sorted(artists(h[k])) for k in ('events', 'links', 'labels')
            if k in h}


def events(case):
    q, u = case['q'], case['u']
    ev = []
    for i, x in enumerate(q['crd']):
        kw = {'coordinates' if q['kind'] != 'diagram' else 'position':
              [u * c for c in x]}
        kw['label'] = label(q['lab'][i])
        kw['past'] = [ev[p - 1] for p in q['past'][i]]
        ev.append(CausetEvent(**kw))
    return ev


def permutation(case):
    q = case['q']
    out = {'id': case['id'], 'q': q, 'calls': []}

    def record():
        P = q['perm']
        C = Causet.FromPermutation(P)
        S = C.sortedByLabels()
        ax = axes(False, case['mine'])
        L, P2 = list(S), list(P)
        h = cplt.plotDiagram(L, P2, ax)
        if P2 != list(P) or [id(e) for e in L] != [id(e) for e in S]:
            raise BadResult('changed an argument')
        r = Reader(ax or plt.gca(), False, 1.0).read()
        num = {id(e): i + 1 for i, e in enumerate(S)}
        r['pos'] = [[int(round(K * float(x))) for x in e.Position] for e in S]
        r['past'] = [sorted(num[id(x)] for x in e.Past) for e in S]
        flat(h['events'])
        return r
    r, err = guarded(record)
    r = r or {'pos': [], 'past': [], 'marks': []}
    r['err'] = err
    out['calls'].append(r)
    return out


def arguments(box):
    '''the given collections, which belong to the caller'''
    E = box['E']
    return [id(e) for e in E] if isinstance(E, list) else 0, repr(box['kw'])


def main(case):
    q, u = case['q'], case['u']
    if q['kind'] == 'permutation':
        return permutation(case)
    three = len(q['dims']) == 3
    out = {'id': case['id'], 'q': q, 'calls': []}
    box = {'results': []}

    def prepare():
        kw = {'dims': list(q['dims'])}
        if case['defdims']:
            kw.pop('dims')
        for k in ('events', 'links', 'labels'):
            v = switch(case['how'][k])
            if v is not True or case['explicit']:
                kw[k] = v
        if case['gap']:
            kw['linkgapsize'] = case['gap']
        if q['dyn']:
            kw['timedepth'] = u * q['depth']
            if case['fadekw'] or q['fade'] != 'linear':
                kw['timefade'] = q['fade']
        if case['limits'] == 'dict':
            kw['axislim'] = {k + 'lim': (u * l[0] / K, u * l[1] / K)
                             for k, l in zip('xyz', q['lim'])}
        elif case['limits'] == 'shape':
            kw['axislim'] = 'shape'
        d = len(q['crd'][0]) if q['crd'] else 4
        st = FlatSpacetime(d)
        if q['kind'] == 'causet':
            box['C'] = EmbeddedCauset(
                st, CoordinateShape(
                    d, 'cuboid', center=[u * c for c in case['center']],
                    edges=[u * x for x in case['edges']]))
            ev = []
            for i, x in enumerate(q['crd']):
                ev += list(box['C'].create([[u * c for c in x]]))
                ev[-1].Label = label(q['lab'][i])
            E = box['C']
        else:
            ev = events(case)
            E = [ev[i - 1] for i in q['shown']]
            if q['kind'] == 'event':
                E = E[0]
        num = {id(e): i + 1 for i, e in enumerate(ev)}
        for i in case['linked']:
            ev[i - 1].link()
        box['ev'], box['num'], box['E'], box['kw'] = ev, num, E, kw
        box['st'] = None if q['kind'] in ('diagram', 'causet') else st
        box['ax'] = axes(three, case['mine'])
        box['before'] = state(ev, num)
        box['args'] = arguments(box)
        if case['via'] == 'Plotter':
            if q['kind'] == 'causet' and case['explicit']:
                box['P'] = cplt.Plotter(E, box['ax'], **kw)
            else:
                box['P'] = cplt.Plotter(E, box['ax'], box['st'], **kw)
    _, err = guarded(prepare)

    def call(t):
        kw = dict(box['kw'])
        t2 = u * t
        forms = {'float': t2, 'list': [t2], 'pair': [t2, t2 + u],
                 'array': np.array([t2, t2]), 'single': np.float32(t2),
                 'int': int(t2) if t2 == int(t2) else t2}
        a = forms[case['form']]
        a2 = repr(a)
        if case['via'] == 'Plotter':
            h = box['P'](a)
        else:
            if case['form'] != 'float' or t != 0 or case['explicit']:
                kw['time'] = a
            if q['kind'] == 'diagram':
                h = cplt.plotDiagram(box['E'], plotAxes=box['ax'], **kw)
            else:
                h = cplt.plot(box['E'], box['ax'], box['st'], **kw)
        ax = box['ax'] or plt.gca()
        check_axes(ax, three)
        if 'reader' not in box:
            box['reader'] = Reader(ax, three, u)
        old = set(box['reader'].seen)
        r = box['reader'].read()
        n = named(h)
        r['own'] = all(i in box['reader'].seen and i not in old
                       for v in n.values() for i in v)
        box['results'].append((h, n))
        r['handles'] = {k: len(flat(h[k])) if k in h else -1
                        for k in ('events', 'links', 'labels')}
        r['lim'] = []
        if q['lim']:
            L = [ax.get_xlim(), ax.get_ylim()] + \
                ([ax.get_zlim()] if three else [])
            r['lim'] = [box['reader'].point(x) for x in L]
        r['kept'] = state(box['ev'], box['num']) == box['before'] and \
            arguments(box) == box['args'] and repr(a) == a2
        r['stay'] = all(named(h) == n for h, n in box['results'])
        return r

    for t in case['times']:
        r, e = (0, err) if err else guarded(lambda: call(t))
        if e:
            r = {'marks': [], 'segs': [], 'texts': [], 'extra': 0, 'lim': [],
                 'handles': {'events': -1, 'links': -1, 'labels': -1},
                 'kept': True, 'own': True, 'stay': True}
        r['t'] = t
        r['err'] = e
        out['calls'].append(r)
    return out


if __name__ == '__main__':
    run(main)
