'''Prints events, causets, spacetimes and shapes, see Printed.tla.'''
import re
import numpy as np
from base import run, guarded, BadResult
from causets.causetevent import CausetEvent
from causets.causet import Causet
from causets.shapes import CoordinateShape
from causets import spacetimes as sp


class Special(CausetEvent):
    pass


CLASSES = {'CausetEvent': CausetEvent, 'Special': Special}


def label(x):
    return {'none': lambda v: None, 'int': int, 'float': float,
            'str': str}[x['k']](x['v'])


def make(ev, s):
    kw = {}
    if s['lab']['k'] != 'none' or s['explicit']:
        kw['label'] = label(s['lab'])
    if s['past'] or s['explicit']:
        kw['past'] = {ev[i - 1] for i in s['past']}
    if s['crd']['has']:
        c = [float(x) for x in s['crd']['c']]
        kw['coordinates'] = np.array(c) if s['explicit'] else c
    ev.append(CLASSES[s['cls']](**kw))


def state(ev):
    num = {id(e): i for i, e in enumerate(ev)}
    return [(type(e.Label), e.Label, sorted(num[id(x)] for x in e.Past),
             sorted(num[id(x)] for x in e.Future)) for e in ev]


def text(x):
    if not isinstance(x, str):
        raise BadResult('no text')
    return x


def printed(ev, s):
    before = state(ev)
    e = ev[s['e'] - 1]
    s['short'] = text(str(e))
    s['full'] = text(repr(e))
    s['kept'] = before == state(ev) and str(e) == s['short'] and \
        repr(e) == s['full'] and '{}|{!r}'.format(e, e) == \
        s['short'] + '|' + s['full']
    return True


def causet(ev, s):
    C = Causet()
    C.add({ev[i - 1] for i in s['members']})
    before = state(ev)
    s['full'], s['short'] = text(repr(C)), text(str(C))
    s['texts'] = [text(repr(ev[i - 1])) for i in s['members']]
    s['kept'] = before == state(ev) and C.Card == len(s['members'])
    return True


def events(case):
    ev = []
    for s in case['steps']:
        def do():
            if s['op'] == 'new':
                make(ev, s)
            elif s['op'] == 'label':
                ev[s['e'] - 1].Label = label(s['lab'])
            elif s['op'] == 'print':
                printed(ev, s)
            elif s['op'] == 'causet':
                causet(ev, s)
            else:
                getattr(ev[s['e'] - 1], s['op'])()
        _, s['err'] = guarded(do)
        if s['err']:
            if s['op'] in ('print', 'causet'):
                s.update({'short': '', 'full': '', 'texts': [], 'kept': True})
                s.pop('members', None)
                s['members'] = []
            else:  # not a matter of printing
                return dict(case, steps=[])
    return case


NUMBER = r'[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?'


def numbers(x):
    x = re.sub(r'dtype=\w+', '', x)
    return [int(round(1000 * float(y))) for y in re.findall(NUMBER, x)]


def parse(r, names):
    '''class, dimension, words and named numbers of a full form'''
    m = re.match(r'^(\w+)\((\d+)', r)
    if not m or not r.endswith(')'):
        raise BadResult('form')
    rest = r[m.end():]
    keys = [(x.start(), x.end(), x.group(1)) for x in re.finditer(
        r"(?<![\w'])'?(%s)'?\s*[=:]" % '|'.join(names), rest)]
    params = []
    for i, (a, b, k) in enumerate(keys):
        end = keys[i + 1][0] if i + 1 < len(keys) else len(rest)
        params.append([k, numbers(rest[b:end])])
    return {'cls': m.group(1), 'dim': m.group(2), 'params': params,
            'words': sorted(set(re.findall(r'[A-Za-z_][\w-]*', rest)))}


def spacetime(q):
    d, v = int(q['d']), [x / 1000.0 for x in q['v']]
    if q['k'] == 'flat':
        if q['form'] == 'default':
            return sp.FlatSpacetime(d)
        return sp.FlatSpacetime(d, period=v[0] if q['form'] == 'float'
                                else tuple(v))
    if q['k'] in ('EF', 'S'):
        m = {'EF': 'Eddington-Finkelstein', 'S': 'Schwarzschild'}[q['k']]
        if q['form'] == 'default' and q['k'] == 'EF':
            return sp.BlackHoleSpacetime(d, v[0])
        return sp.BlackHoleSpacetime(d, r_S=v[0], metric=m)
    cls = sp.deSitterSpacetime if q['k'] == 'dS' else \
        sp.AntideSitterSpacetime
    return cls(d, v[0])


def shape(q):
    kw = {}
    if q['form'] != 'default':
        kw['center'] = [x / 1000.0 for x in q['center']]
    for k in ('radius', 'hollow', 'duration', 'edge'):
        kw[k] = q[k] / 1000.0
    kw['edges'] = [x / 1000.0 for x in q['edges']]
    return CoordinateShape(int(q['d']), q['name'], **kw)


NAMES = {'spacetime': ['period', 'r_dS', 'r_AdS', 'r_S'],
         'shape': ['center', 'radius', 'hollow', 'duration', 'edges', 'edge']}


def objects(case):
    out = dict(case, short='', cls='', dim='', params=[], words=[], kept=True)

    def do():
        x = (spacetime if case['kind'] == 'spacetime' else shape)(case['q'])
        out['short'] = text(str(x))
        r = text(repr(x))
        out.update(parse(r, NAMES[case['kind']]))
        if case['kind'] == 'spacetime':
            x.Causality()
        else:
            x.Volume, x.Limits(0), x.MaxEdgeHalf([0])
        out['kept'] = repr(x) == r and str(x) == out['short']
        return True
    _, out['err'] = guarded(do)
    return out


def main(case):
    return events(case) if case['kind'] == 'events' else objects(case)


if __name__ == '__main__':
    run(main)
