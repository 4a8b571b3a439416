'''Histories of single events and their copies, see Events.tla.'''
import random
from base import run, guarded, BadResult
import numpy as np
from causets.causetevent import CausetEvent


def label(s):
    return None if s == 'n' else int(s[1:]) if s[0] == 'i' else \
        float(s[1:]) if s[0] == 'f' else s[1:]


def labname(x):
    if x is None:
        return 'n'
    if isinstance(x, bool):
        return 'bool'
    if isinstance(x, (int, np.integer)):
        return 'i%d' % x
    if isinstance(x, str):
        return 's' + x
    if isinstance(x, float):
        return 'f%r' % x
    return type(x).__name__


def strname(s):
    '''the label that is shown by str(event)'''
    if s == '#Event':
        return 'n'
    if s[:2] == "#'" and s[-1] == "'":
        return 's' + s[2:-1]
    return 'i' + s[1:]


class Source(object):
    '''the collections passed as arguments; they are changed afterwards'''

    def __init__(self, rng):
        self.rng = rng

    def make(self, values):
        values = [0.5 * v for v in values]
        k = self.rng.randrange(5)
        if k == 0:
            self.last = list(values)
            return self.last
        if k == 1:
            self.last = np.array(values)
            return self.last
        self.last = None
        if k == 2:
            return tuple(values)
        if k == 3:
            return (v for v in values)
        return {i: 0 for i in values} if len(set(values)) == len(values) \
            else tuple(values)

    def spoil(self):
        if self.last is not None and len(self.last) > 0:
            self.last[0] = 321.0
            if isinstance(self.last, list):
                self.last.append(7.0)
        self.last = None


def half(v):
    return [int(round(2 * float(x))) if float(2 * x).is_integer() else 9999
            for x in v]


def observe(e, num):
    o = {'lab': labname(e.Label), 'emb': bool(e.isEmbedded),
         'str': '' if e.Label in (0, '') or isinstance(e.Label, float) else strname(str(e)),
         'dim': int(e.CoordinatesDim), 'pos': half(e.Position),
         'crd': [], 'err': '', 'linked': bool(e.hasBeenLinked()),
         'lp': [], 'lf': [], 'odd': False}
    try:
        o['crd'] = half(e.Coordinates)
    except AttributeError:
        o['err'] = 'AttributeError'
    S = [e.Past, e.Future]
    if o['linked']:
        S += [e.LinkPast, e.LinkFuture]
    for k, s in zip(('past', 'future', 'lp', 'lf'), S):
        if any(id(x) not in num for x in s):
            o['odd'] = True
        o[k] = sorted(num[id(x)] for x in s if id(x) in num)
    return o


def main(case):
    rng = random.Random(case['seed'])
    src = Source(rng)
    ev = []
    out = {'id': case['id'], 'steps': []}

    def act(a):
        src.last = None
        op = a['op']
        if op == 'new':
            kw = {}
            past = [ev[p - 1] for p in a['past']]
            if past or rng.random() < 0.5:
                kw['past'] = rng.choice([set, list, tuple])(past)
            if a['lab'] != 'n' or rng.random() < 0.5:
                kw['label'] = label(a['lab'])
            if a['emb']:
                kw['coordinates'] = src.make(a['crd'])
            first = src.last
            if a['haspos']:
                kw['position'] = src.make(a['pos'])
            second = src.last
            try:
                ev.append(CausetEvent(**kw))
            finally:
                for x in (first, second):
                    src.last = x
                    src.spoil()
            return
        e = ev[a['e'] - 1]
        try:
            if op == 'embed':
                c = src.make(a['crd'])
                if a['reembed'] or rng.random() < 0.5:
                    e.embed(c, reembed=a['reembed'])
                else:
                    e.embed(c)
            elif op == 'embed nothing':
                e.embed(None, reembed=a['reembed'])
            elif op == 'disembed':
                e.disembed()
            elif op == 'position':
                e.Position = src.make(a['pos'])
            elif op == 'write':
                if a['what'] == 'crd':
                    e.Coordinates[0] = a['v'] / 2
                else:
                    e.Position[0] = a['v'] / 2
            elif op == 'label':
                e.Label = label(a['lab'])
            elif op == 'copy':
                c = e.copy()
                if type(c) is not CausetEvent or c is e:
                    raise BadResult('copy')
                ev.append(c)
            elif op == 'link':
                e.link()
            elif op == 'unlink':
                if e.hasBeenLinked():
                    e.unlink()
        finally:
            src.spoil()

    for a in case['steps']:
        _, err = guarded(lambda: act(a))
        num = {id(e): i + 1 for i, e in enumerate(ev)}
        post, e2 = guarded(lambda: [observe(e, num) for e in ev])
        out['steps'].append({'act': a, 'err': err or e2, 'post': post or []})
        if len(ev) != len(post or []):
            break
    return out


if __name__ == '__main__':
    run(main)
