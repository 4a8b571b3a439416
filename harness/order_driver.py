'''
Executes histories of the `Histories`/`OrderTrace` specification on the real
Causet and CausetEvent classes and records the outcome of every step.
'''
import io
import math
import os
import random
import sys
import tempfile
from base import (run, guarded, BadResult, errname, patch_hash, as_int,
                  as_bool)
import numpy as np
from causets.causetevent import CausetEvent
from causets.causet import Causet
from causets.embeddedcauset import EmbeddedCauset
from causets.sprinkledcauset import SprinkledCauset

reset_hash = patch_hash(CausetEvent, 1)
SCRATCH = os.environ.get('VERIF_SCRATCH', tempfile.gettempdir())


def label_in(s):
    '''Labels are written as strings: i:5, s:foo, f:0.5, n:'''
    kind, _, val = s.partition(':')
    return {'i': lambda: int(val), 's': lambda: val,
            'f': lambda: float(val), 'n': lambda: None}[kind]()


def label_out(x):
    if x is None:
        return 'n:'
    if isinstance(x, str):
        return 's:' + x
    if isinstance(x, (bool, np.bool_)):
        return 'b:' + str(bool(x))
    if isinstance(x, (int, np.integer)):
        return 'i:%d' % int(x)
    if isinstance(x, (float, np.floating)):
        return 'f:' + repr(float(x))
    return 'o:' + type(x).__name__


class World(object):

    def __init__(self):
        self.ev = {}     # id -> event
        self.ids = {}    # id(event) -> id
        self.cs = {}     # id -> causet
        self.made = []
        self.given = None  # the answers to be changed by the caller (for C17)
        self.known = []  # ids of registered events in order
        self.rnd = random.Random(1)

    def call(self, f, *args, **opts):
        '''
        Calls f with optional arguments, given in their order with their value
        and documented default: those that have it may be left out.
        '''
        kw, gap = {}, False
        for name, (val, dflt) in opts.items():
            if type(val) is type(dflt) and val == dflt and \
                    self.rnd.random() < 0.5:
                gap = True
            elif gap:
                kw[name] = val
            else:
                args += (val,)
        return f(*args, **kw)

    def maybe(self, a):
        '''the optional argument unlink, whose default is False'''
        return {} if not a['unlink'] and self.rnd.random() < 0.5 \
            else {'unlink': a['unlink']}

    def reg(self, i, e):
        self.ev[i] = e
        self.ids[id(e)] = i
        self.known.append(i)

    def eid(self, e):
        if not isinstance(e, CausetEvent):
            raise BadResult('not an event: ' + type(e).__name__)
        return self.ids.get(id(e), 0)

    def out_set(self, S):
        if not isinstance(S, (set, frozenset)):
            raise BadResult('not a set: ' + type(S).__name__)
        return self.answer(S, sorted(self.eid(e) for e in S))

    def out_list(self, L):
        if not isinstance(L, (list, tuple, np.ndarray)):
            raise BadResult('not a list: ' + type(L).__name__)
        return self.answer(L, [self.eid(e) for e in L])

    def answer(self, obj, out):
        '''remembers what was returned, keeps what was read from it'''
        if self.given is not None:
            self.given.append(obj)
        return out

    def spoil(self):
        '''the caller changes the answers, which are the caller's own'''
        for obj in self.given:
            if isinstance(obj, np.ndarray):
                obj.fill(0)
            elif isinstance(obj, (set, list)):
                obj.clear()
        self.given = None

    def S(self, ids):
        return self.keep({self.ev[i] for i in ids})

    def L(self, ids):
        return self.keep([self.ev[i] for i in ids])

    def keep(self, obj):
        '''remembers the collections passed as arguments (for C17)'''
        self.made.append((obj, obj.copy()))
        return obj

    def args_kept(self):
        return all(len(o) == len(c) and o == c for o, c in self.made)

    def reuse_args(self):
        '''the caller goes on to use its collections for something else'''
        kept = self.args_kept()
        for o, _ in self.made:
            if isinstance(o, (set, list)):
                o.clear()
        del self.made[:]
        return kept

    def coll(self, ids, kind):
        if kind == 'list':
            return self.L(ids)
        if kind == 'tuple':
            return tuple(self.L(ids))
        if kind == 'iter':
            return iter(self.L(ids))
        if kind == 'frozenset':
            return frozenset(self.S(ids))
        if kind == 'causet':
            C = Causet(set())
            C.add(self.S(ids))
            return C
        if kind == 'dict':
            return {e: None for e in self.L(ids)}
        return self.S(ids)

    def snapshot(self):
        def rel(S):
            try:
                return sorted(self.eid(x) for x in S)
            except BadResult:
                return [0]
        evs = [self.ev[i] for i in self.known]
        return {'ev': list(self.known),
                'past': [rel(e.Past) for e in evs],
                'fut': [rel(e.Future) for e in evs],
                'hl': [bool(e.hasBeenLinked()) for e in evs],
                'lab': [label_out(e.Label) for e in evs],
                'emb': [repr(list(e.Coordinates)) if e.isEmbedded else '-'
                        for e in evs],
                'pos': [repr([float(x) for x in e.Position]) for e in evs],
                'cs': [[c, rel(set(C))] for c, C in sorted(self.cs.items())]}


# ---------------------------------------------------------------------------
# actions

def matrix_in(rows, dtype):
    M = np.array(rows)
    if M.ndim != 2:
        M = M.reshape((len(rows), 0 if not rows else len(rows[0])))
    return M.astype(dtype)


def newborn(w, C, ids):
    '''registers the events of a generated causet, ordered by `ids` labels'''
    evs = sorted(C, key=lambda e: (str(type(e.Label)), str(e.Label)))
    base = len(w.known)
    for k, e in enumerate(evs):
        if id(e) not in w.ids:
            w.reg(base + k + 1, e)


CLASSES = {'EmbeddedCauset': EmbeddedCauset,
           'SprinkledCauset': SprinkledCauset}


def do_action(w, a):
    op = a['op']
    if op == 'create':
        kw = {}
        if a['past'] or a.get('kw', 0) & 1:
            kw['past'] = w.coll(a['past'], a.get('pk', 'set'))
        if a['future'] or a.get('kw', 0) & 2:
            kw['future'] = w.coll(a['future'], a.get('fk', 'set'))
        if a['lab'] != 'n:':
            kw['label'] = label_in(a['lab'])
        w.reg(a['id'], CausetEvent(**kw))
    elif op == 'causet':
        C = Causet(w.S(a['s']))
        if a.get('cls', 'Causet') != 'Causet':
            D = CLASSES[a['cls']]()
            D.add(C)
            C = D
        w.cs[a['c']] = C
    elif op == 'merge':
        p, f = w.coll(a['p'], a['pk']), w.coll(a['f'], a['fk'])
        w.cs[a['c']] = Causet.merge(p, f, disjoint=a['disjoint']) \
            if a['disjoint'] else Causet.merge(p, f)
    elif op == 'add':
        w.cs[a['c']].add(w.coll(a['s'], a.get('k', 'set')), **w.maybe(a))
    elif op == 'discard':
        w.cs[a['c']].discard(w.cs[a['c']] if a['k'] == 'self' else
                             w.coll(a['s'], a['k']), **w.maybe(a))
    elif op == 'disjoin':
        w.ev[a['e']].disjoin()
    elif op == 'link':
        w.ev[a['e']].link()
    elif op == 'unlink':
        w.ev[a['e']].unlink()
    elif op == 'linkc':
        w.cs[a['c']].link()
    elif op == 'unlinkc':
        w.cs[a['c']].unlink()
    elif op == 'touch':
        e = w.ev[a['e']]
        if a['m'] in ('isPastLink', 'isFutureLink', 'isLinkedTo'):
            getattr(e, a['m'])(e)
        else:
            getattr(e, a['m'])
    elif op == 'relabel':
        w.ev[a['e']].Label = label_in(a['lab'])
    elif op == 'family':
        return do_family(w, a)
    elif op == 'frommatrix':
        return do_frommatrix(w, a)
    elif op == 'nop':
        pass
    else:
        raise RuntimeError('unknown action ' + op)


def do_family(w, a):
    fam, args = a['fam'], a['args']
    kw = {}
    if a.get('fmt') is not None and a['fmt'] != '-':
        kw['labelFormat'] = a['fmt']
    if fam == 'perm':
        C = Causet.FromPermutation(w.keep(list(args)), **kw)
    elif fam == 'chain':
        C = Causet.NewChain(args[0], **kw)
    elif fam == 'antichain':
        C = Causet.NewAntichain(args[0], **kw)
    elif fam == 'simplex':
        C = Causet.NewSimplex(args[0]) if args[1] == 2 else \
            Causet.NewSimplex(args[0], bool(args[1]))
    elif fam == 'fence':
        C = w.call(Causet.NewFence, args[0], height=(args[1], 1),
                   closed=(bool(args[2]), True))
    elif fam == 'fence0':
        C = Causet.NewFence(args[0])
    elif fam == 'crown':
        C = Causet.NewCrown(*args)
    if type(C) is not Causet:
        raise BadResult('not a Causet')
    w.cs[a['c']] = C
    newborn(w, C, None)


def by_label(w, C, a):
    evs = sorted(C, key=lambda e: e.Label)
    if [e.Label for e in evs] != list(range(1, len(evs) + 1)):
        raise BadResult('labels are not 1..n')
    w.cs[a['c']] = C
    for e in evs:
        w.reg(len(w.known) + 1, e)


def do_frommatrix(w, a):
    dtype = {'bool': bool, 'int': int, 'float': float,
             'uint8': np.uint8, 'int8': np.int8}[a['dtype']]
    how = a['how']
    if how in ('past', 'future'):
        M = np.zeros((len(a['rows']), a['cols']), dtype=dtype)
        for i, row in enumerate(a['rows']):
            for j, x in enumerate(row):
                M[i, j] = x
        if a.get('order') == 'F':
            M = np.asfortranarray(M)
        M2 = M.copy()
        C = Causet.FromPastMatrix(M) if how == 'past' \
            else Causet.FromFutureMatrix(M)
        if not np.array_equal(M, M2):
            raise BadResult('changed an argument')
    else:  # text
        delim = a['delim']
        fn = os.path.join(SCRATCH, 'm%d.csv' % os.getpid())
        with open(fn, 'w') as f:
            for row in a['rows']:
                f.write(delim.join(str(x) for x in row) + '\n')
        kw = {} if delim == ',' else {'delimiter': delim}
        if a.get('stream'):
            with open(fn) as g:
                C = Causet.FromTextFile(g, how == 'textpast', **kw)
        elif how == 'textpast' and a.get('dflt'):
            C = Causet.FromTextFile(fn, **kw)
        else:
            C = Causet.FromTextFile(fn, how == 'textpast', **kw)
    by_label(w, C, a)


# ---------------------------------------------------------------------------
# queries

def q_rel(w, a):
    evs = [w.ev[i] for i in w.known]

    def bits(x, y):
        return as_bool(x < y) + 2 * as_bool(x <= y) + 4 * as_bool(x > y) + \
            8 * as_bool(x >= y) + 16 * as_bool(x.isCausalTo(y)) + \
            32 * as_bool(x.isSpacelikeTo(y))
    return [[bits(x, y) for y in evs] for x in evs]


def q_cones(w, a):
    r = []
    for i in w.known:
        e = w.ev[i]
        r.append({'s': [w.out_set(e.Past), w.out_set(e.Future),
                        w.out_set(e.Cone), w.out_set(e.PresentOrPast),
                        w.out_set(e.PresentOrFuture)],
                  'n': [as_int(e.PastCard), as_int(e.FutureCard),
                        as_int(e.ConeCard)]})
    return r


def q_spacelike(w, a):
    S = w.S(a['s'])
    return [{'s': w.out_set(w.ev[i].Spacelike(S)),
             'n': as_int(w.ev[i].SpacelikeCard(S))} for i in w.known]


LINKPROPS = ['LinkPast', 'LinkFuture', 'LinkCone']
LINKCARDS = ['LinkPastCard', 'LinkFutureCard', 'LinkConeCard']


def q_lk(w, a):
    '''one link query; a lazily linked event may be linked by any of them'''
    e, m = w.ev[a['e']], a['m']
    if m in LINKPROPS:
        return {'s': w.out_set(getattr(e, m)), 'n': 0}
    elif m in LINKCARDS:
        return {'s': [], 'n': as_int(getattr(e, m))}
    f = w.ev[a['f']]
    if m == 'isLink':
        return {'s': [], 'n': int(as_bool(CausetEvent.isLink(e, f)))}
    return {'s': [], 'n': int(as_bool(getattr(e, m)(f)))}


def q_links(w, a):
    r = []
    for i in w.known:
        e = w.ev[i]
        r.append({'s': [w.out_set(getattr(e, m)) for m in LINKPROPS],
                  'n': [as_int(getattr(e, m)) for m in LINKCARDS]})
    return r


def q_islink(w, a):
    evs = [w.ev[i] for i in w.known]
    return [[as_bool(x.isPastLink(y)) + 2 * as_bool(x.isFutureLink(y)) +
             4 * as_bool(x.isLinkedTo(y)) +
             (8 * as_bool(CausetEvent.isLink(x, y)) if x < y else 0)
             for y in evs] for x in evs]


def q_linkcount(w, a):
    C = w.cs[a['c']]
    S = w.S(a['s'])
    return [as_int(C.LinkCount()), as_int(C.LinkCount(S)),
            as_int(CausetEvent.LinkCountOf(S))]


def q_member(w, a):
    C = w.cs[a['c']]
    return {'in': [as_bool(w.ev[i] in C) for i in w.known],
            'iter': sorted(w.eid(e) for e in C),
            'n': [as_int(C.Card), as_int(Causet.len(C))]}


def q_setops(w, a):
    C = w.cs[a['c']]
    k = a['k']

    def X():
        return w.cs[a['d']] if k == 'other' else w.coll(a['s'], k)
    fs = [lambda: C - X(), lambda: X() - C, lambda: C | X(), lambda: X() | C,
          lambda: C & X(), lambda: X() & C, lambda: C ^ X(), lambda: X() ^ C,
          lambda: C.difference(X()), lambda: C.union(X()),
          lambda: C.intersection(X()), lambda: C.symmetric_difference(X())]
    if k == 'dict':  # dictionaries have operators of their own
        fs = [f for i, f in enumerate(fs) if i not in (1, 3, 5, 7)]
    return [w.out_set(f()) for f in fs]


def q_find(w, a):
    C = w.cs[a['c']]
    labs = [label_in(s) for s in a['labs']]
    r = {'any': [w.eid(e) for e in C.findAny(*labs)],
         'all': w.out_set(C.findAll(*labs)), 'find': []}
    for lab in labs:
        try:
            r['find'].append(w.eid(C.find(lab)))
        except ValueError:
            r['find'].append(-1)
    return r


def q_region(w, a):
    S = w.S(a['s'])
    r = []
    for f, dflt in ((Causet.PastOf, False), (Causet.FutureOf, False),
                    (Causet.ConeOf, True)):
        for present in (False, True):
            for intersect in (False, True):
                r.append(w.out_set(w.call(
                    f, S, includePresent=(present, dflt),
                    intersect=(intersect, False))))
    return r


def q_spaceto(w, a):
    return w.out_set(w.cs[a['c']].SpacelikeTo(w.S(a['s'])))


def q_inf(w, a):
    C = w.cs[a['c']]
    S = w.S(a['s'])
    return {'s': [w.out_set(C.PastInf), w.out_set(C.FutureInf),
                  w.out_set(Causet.PastInfOf(S)),
                  w.out_set(Causet.FutureInfOf(S))],
            'n': [as_int(C.PastInfCard), as_int(C.FutureInfCard),
                  as_int(Causet.PastInfCardOf(S)),
                  as_int(Causet.FutureInfCardOf(S))]}


def q_interval(w, a):
    r = []
    for i, j in a['pairs']:
        x, y = w.ev[i], w.ev[j]
        r.append({'s': [w.out_set(Causet.Interval(x, y)),
                        w.out_set(Causet.Interval(x, y, True)),
                        w.out_set(Causet.Interval(x, y, False)),
                        w.out_set(Causet.PerimetralEvents(x, y)),
                        w.out_set(Causet.InternalEvents(x, y))],
                  'n': [as_int(Causet.IntervalCard(x, y)),
                        as_int(Causet.IntervalCard(x, y, True)),
                        as_int(Causet.IntervalCard(x, y, False)),
                        as_int(Causet.PerimetralEventCount(x, y)),
                        as_int(Causet.InternalEventCount(x, y))]})
    return r


def q_chain(w, a):
    C = w.cs[a['c']]
    if a['k'] == 'none':
        return [as_bool(C.isChain()), as_bool(C.isAntichain()),
                as_bool(C.isPath())]
    if a['k'] == 'iter':
        return [as_bool(C.isChain(iter(w.L(a['s'])))),
                as_bool(C.isAntichain(iter(w.L(a['s'])))),
                as_bool(C.isPath(iter(w.L(a['s']))))]
    return [as_bool(f(w.coll(a['s'], a['k'])))
            for f in (C.isChain, C.isAntichain, C.isPath)]


def q_paths(w, a):
    x, y = w.ev[a['a']], w.ev[a['b']]
    m = a['m']
    if m == 'bad':
        try:
            list(Causet.Paths(x, y, [2.5, {4}][a['lo'] % 2]))
        except ValueError:
            return [[0]]
        return [[-1]]
    if m == 'dflt':
        it = Causet.Paths(x, y)
    elif m in ('any', 'min', 'max', 'timegeo'):
        it = Causet.Paths(x, y, m)
    elif m == 'int':
        it = Causet.Paths(x, y, a['lo'])
    else:
        it = Causet.Paths(x, y, length=[a['lo'], a['hi']])
    return [w.out_list(p) for p in it]


def rank_out(x):
    if isinstance(x, float) and math.isinf(x) and x > 0:
        return -1
    return as_int(x)


def q_rank(w, a):
    evs = [w.ev[i] for i in w.known]
    return [[rank_out(x.Rank(y)) for y in evs] for x in evs]


def q_ranks(w, a):
    S = w.S(a['s'])
    if a['dflt']:
        return w.out_set(Causet.Ranks(S, a['lo']))
    return w.out_set(Causet.Ranks(S, a['lo'], a['hi']))


def q_ranknums(w, a):
    L = w.L(a['s'])
    r = w.call(Causet.RankNumbers, L, reverse=(bool(a['rev']), False))
    if not isinstance(r, list):
        raise BadResult('not a list')
    return [as_int(x) for x in r]


def q_layers(w, a):
    S = w.S(a['s'])
    if a['dflt']:
        return w.out_set(Causet.Layers(S, a['lo']))
    return w.out_set(Causet.Layers(S, a['lo'], a['hi']))


def q_layernums(w, a):
    L = w.L(a['s'])
    r = w.call(Causet.LayerNumbers, L, reverse=(bool(a['rev']), False))
    if not isinstance(r, list):
        raise BadResult('not a list')
    return [as_int(x) for x in r]


def opt_set(w, a):
    return None if a['none'] else w.S(a['s'])


def q_layered(w, a):
    C = w.cs[a['c']]
    r = w.call(C.layered, eventSet=(opt_set(w, a), None),
               reverse=(bool(a['rev']), False))
    if not isinstance(r, list) or len(r) > 1000:
        raise BadResult('not a list')
    return [w.out_set(x) for x in r]


def q_sortc(w, a):
    return w.out_list(w.call(w.cs[a['c']].sortedByCausality,
                             eventSet=(opt_set(w, a), None),
                             reverse=(bool(a['rev']), False)))


def q_sortl(w, a):
    return w.out_list(w.call(w.cs[a['c']].sortedByLabels,
                             eventSet=(opt_set(w, a), None),
                             reverse=(bool(a['rev']), False)))


def q_disjoint(w, a):
    C = w.cs[a['c']]
    S = opt_set(w, a)
    r = C.disjoint() if S is None else C.disjoint(S)
    if not isinstance(r, list):
        raise BadResult('not a list')
    b = C.isDisjoint() if S is None else C.isDisjoint(S)
    return {'s': [w.out_set(x) for x in r], 'b': as_bool(b)}


def q_central(w, a):
    C = w.cs[a['c']]
    return w.out_set(C.CentralAntichain() if a['e'] == 0
                     else C.CentralAntichain(w.ev[a['e']]))


def q_smallest(w, a):
    C = w.cs[a['c']]
    kw = {}
    if a['sg']:
        kw['searching'] = w.S(a['s'])
    if a['ig']:
        kw['intersecting'] = w.S(a['i'])
    return as_int(C.SmallestIntervalCard(w.ev[a['a']], w.ev[a['b']], **kw))


def q_smalls(w, a):
    C = w.cs[a['c']]
    kw = {}
    if a['sg']:
        kw['searching'] = w.S(a['s'])
    if a['ig']:
        kw['intersecting'] = w.S(a['i'])
    return [[as_int(C.SmallestIntervalCard(w.ev[i], w.ev[j], **kw))
             for j in a['es']] for i in a['es']]


def mat_out(w, M):
    if not isinstance(M, np.ndarray) or M.ndim != 2:
        raise BadResult('not a matrix')
    return w.answer(M, [[as_int(x) if not isinstance(x, (bool, np.bool_)) else int(x)
             for x in row] for row in M.tolist()])


def q_dist(w, a):
    C = w.cs[a['c']]
    L = w.L(a['s'])
    if a['k'] == 'tuple':
        L = tuple(L)
    elif a['k'] == 'array':
        L = np.array(L, dtype=object)
    kw = {}
    if a['counting'] != 'dflt':
        kw['counting'] = a['counting']
    if a['rec'] != 2:
        kw['recursive'] = bool(a['rec'])
    if a['counting'] not in ('dflt', 'ziczac', 'intersection'):
        try:
            C.DistanceMatrix(L, **kw)
        except ValueError:
            return [[0]]
        return [[-1]]
    return mat_out(w, C.DistanceMatrix(L, **kw))


def q_antipaths(w, a):
    C = w.cs[a['c']]
    L = w.L(a['s'])
    kw = {}
    if a['given'] == 'dist':
        kw['distances'] = C.DistanceMatrix(L, recursive=True)
    elif a['given'] == 'inter':
        kw['distances'] = C.DistanceMatrix(L, counting='intersection')
    along = {'list': L, 'tuple': tuple(L), 'set': set(L),
             'iter': iter(list(L))}[a['k']]
    r = []
    for p in C.Antipaths(w.ev[a['a']], w.ev[a['b']], along, **kw):
        r.append(w.out_list(p))
        if len(r) > 5000:
            raise BadResult('more than 5000 antipaths')
    return r


DT = {'bool': bool, 'int': int, 'float': float, 'uint8': np.uint8}


def q_matrix(w, a):
    C = w.cs[a['c']]
    dt = a['dtype']
    if a['none']:
        L = C.sortedByCausality()
        kw = {}
    else:
        L = w.L(a['s'])
        kw = {'l': L}
    d = [] if dt == 'dflt' else [DT[dt]]

    def call(f):
        if a['none']:
            M = f() if not d else f(dtype=d[0])
        else:
            M = f(list(L)) if not d else f(list(L), d[0])
        want = d[0] if d else bool
        if M.dtype != np.dtype(want):
            raise BadResult('dtype %s' % M.dtype)
        return mat_out(w, M)
    return {'ord': [w.eid(e) for e in L],
            'm': [call(C.PastMatrix), call(C.FutureMatrix),
                  call(C.LinkPastMatrix), call(C.LinkFutureMatrix)]}


def q_roundtrip(w, a):
    '''save and load, or matrix out and in; past lists in label order'''
    C = w.cs[a['c']]
    L = C.sortedByCausality()
    how = a['how']
    if how == 'csv':
        fn = os.path.join(SCRATCH, 'r%d.csv' % os.getpid())
        C.saveAsCSV(fn)
        D = Causet.FromTextFile(fn)
    elif how == 'csvfuture':
        fn = os.path.join(SCRATCH, 'r%d.csv' % os.getpid())
        C.saveAsCSV(fn)
        D = Causet.FromTextFile(fn, False)
    elif how == 'past':
        D = Causet.FromPastMatrix(C.PastMatrix())
    elif how == 'future':
        D = Causet.FromFutureMatrix(C.FutureMatrix())
    elif how == 'linkpast':
        D = Causet.FromPastMatrix(C.LinkPastMatrix())
    elif how == 'linkfuture':
        D = Causet.FromFutureMatrix(C.LinkFutureMatrix())
    elif how == 'cross':
        D = Causet.FromFutureMatrix(C.PastMatrix())
    evs = sorted(D, key=lambda e: e.Label)
    if [e.Label for e in evs] != list(range(1, len(L) + 1)):
        raise BadResult('labels are not 1..n')
    pos = {id(e): k + 1 for k, e in enumerate(evs)}
    return {'ord': [w.eid(e) for e in L],
            'past': [sorted(pos.get(id(x), 0) for x in e.Past) for e in evs],
            'fut': [sorted(pos.get(id(x), 0) for x in e.Future) for e in evs]}


def q_repr(w, a):
    for i in w.known:
        str(w.ev[i])
        repr(w.ev[i])
    for C in w.cs.values():
        repr(C)
    return 0


def q_copy(w, a):
    '''copies of all events: label, past, future and links of each copy'''
    r = []
    for i in w.known:
        e = w.ev[i]
        c = e.copy()
        hl = [as_bool(e.hasBeenLinked()), as_bool(c.hasBeenLinked())]
        r.append({'new': c is not e, 'lab': label_out(c.Label),
                  's': [w.out_set(c.Past), w.out_set(c.Future)],
                  'l': [w.out_set(c.LinkPast), w.out_set(c.LinkFuture)],
                  'emb': as_bool(c.isEmbedded), 'hl': hl,
                  'cls': type(c).__name__})
    return r


# these ask an event for its own past, future or links, too
OWNED = ('cones', 'lk', 'links', 'copy')
QUERIES = {k[2:]: v for k, v in list(globals().items()) if k[:2] == 'q_'}


def canon(o, r):
    '''results of repeated queries are compared without irrelevant order'''
    if o in ('paths', 'antipaths'):
        return sorted(r)
    if o == 'disjoint':
        return sorted(r['s']), r['b']
    if o == 'copy':
        return [(x['lab'], x['s'], x['l']) for x in r]
    return r


def main(case):
    if reset_hash:
        reset_hash(case.get('h', 1))
    w = World()
    w.rnd.seed(case.get('h', 1))
    out = []
    for st in case['steps']:
        _, err = guarded(lambda: do_action(w, st['act']))
        if not w.reuse_args():
            err = err or 'changed an argument'
        act = st['act']
        rec = {'act': act, 'err': err, 'q': []}
        snap, serr = guarded(w.snapshot)
        if serr:
            rec['err'] = 'snapshot ' + serr
            snap = World().snapshot()
        rec['post'] = snap
        for q in st.get('q', []):
            del w.made[:]
            if case.get('pure') and q['o'] not in OWNED:
                w.given = []
            r, e = guarded(lambda: QUERIES[q['o']](w, q))
            d = dict(q)
            d['r'], d['err'] = r, e
            if w.given is not None:
                w.spoil()
            if case.get('pure'):
                d['same'] = True
                if not e:
                    r2, e2 = guarded(lambda: QUERIES[q['o']](w, q))
                    d['same'] = bool(not e2 and
                                     canon(q['o'], r2) == canon(q['o'], r))
                s2, serr = guarded(w.snapshot)
                ok = not serr
                if ok:
                    s1, s2 = dict(snap), dict(s2)
                    s1.pop('hl'), s2.pop('hl')
                    ok = s1 == s2
                d['kept'] = ok
                d['args'] = w.args_kept()
            rec['q'].append(d)
        # did the queries change the observable state?
        rec['chg'] = False
        if rec['q']:
            s2, serr = guarded(w.snapshot)
            if not serr and any(s2[k] != snap[k]
                                for k in ('ev', 'past', 'fut', 'cs', 'lab')):
                rec['chg'], rec['post2'] = True, s2
        out.append(rec)
    return {'id': case['id'], 'steps': out}


if __name__ == '__main__':
    run(main)
