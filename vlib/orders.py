'''
Generation of histories for the order core (C01-C17): behaviours taken from
the specification and seeded random histories. `Hist` mirrors the state of
Histories.tla only to stay inside the domain of the operations; the verdict is
left to OrderTrace.tla (which reports PRE if this mirror were wrong).
'''
import itertools

TOUCH = ['LinkPast', 'LinkFuture', 'LinkCone', 'LinkPastCard',
         'LinkFutureCard', 'LinkConeCard', 'isPastLink', 'isFutureLink',
         'isLinkedTo']
COLL = ['set', 'list', 'tuple', 'frozenset', 'iter']


class Hist(object):

    def __init__(self, rng):
        self.rng = rng
        self.past = {}
        self.cs = {}
        self.steps = []
        self.labkind = rng.choice(['int', 'int', 'str', 'dup', 'float',
                                   'some', 'none'])
        self.lab = {}

    @property
    def E(self):
        return sorted(self.past)

    def fut(self, e):
        return {x for x in self.past if e in self.past[x]}

    def down(self, P):
        return set(P).union(*[self.past[p] for p in P]) if P else set()

    def up(self, F):
        return set(F).union(*[self.fut(f) for f in F]) if F else set()

    def act(self, **a):
        self.steps.append({'act': a, 'q': []})
        return self.steps[-1]

    def ask(self, *qs):
        for q in qs:
            if q is not None:
                self.steps[-1]['q'].append(q)

    def newlabel(self, e):
        k = self.labkind
        r = self.rng
        if k == 'int':
            return 'i:%d' % e
        if k == 'str':
            return 's:' + r.choice(['a', 'b', 'B', 'z', '10', '9', '']) + str(e)
        if k == 'dup':
            return 'i:%d' % r.randint(-1, 3)
        if k == 'float':
            return r.choice(['f:%.1f' % (r.randint(-5, 5) + 0.5),
                             'i:%d' % r.randint(-5, 5)])
        if k == 'some':
            return 'n:' if r.random() < 0.4 else 'i:%d' % r.randint(0, 9)
        return 'n:'

    def create(self, P, F, **kw):
        r = self.rng
        e = len(self.past) + 1
        P, F = set(P), set(F)
        D, U = self.down(P), self.up(F)
        assert not D & U
        for x in U:
            self.past[x] |= D | {e}
        self.past[e] = set(D)
        self.lab[e] = self.newlabel(e)
        a = {'op': 'create', 'id': e, 'past': sorted(P), 'future': sorted(F),
             'lab': self.lab[e], 'kw': r.randint(0, 3),
             'pk': r.choice(COLL), 'fk': r.choice(COLL)}
        if r.random() < 0.2:
            a['pk'] = 'causet' if self.closed(P) else a['pk']
        a.update(kw)
        self.act(**a)
        return e

    def closed(self, S):
        S = set(S)
        return all(self.past[e] <= S and self.fut(e) <= S for e in S)

    def closure(self, S):
        S = set(S)
        while True:
            T = self.down(S) | self.up(S)
            if T == S:
                return S
            S = T

    def causet(self, S):
        c = len(self.cs) + 1
        self.cs[c] = self.closure(S)
        # a causet that can be embedded is a causet as well
        self.act(op='causet', c=c, s=sorted(S), cls=self.rng.choice(
            ['Causet'] * 5 + ['EmbeddedCauset', 'SprinkledCauset']))
        return c

    def merge(self, P, F, disjoint=False):
        c = len(self.cs) + 1
        P, F = set(P), set(F)
        if not disjoint:
            for f in F:
                self.past[f] |= P
        self.cs[c] = P | F
        ks = COLL + ['causet']
        self.act(op='merge', c=c, p=sorted(P), f=sorted(F), disjoint=disjoint,
                 pk=self.rng.choice(ks), fk=self.rng.choice(ks))
        return c

    def add(self, c, S, unlink=False):
        self.cs[c] = self.cs[c] | set(S)
        self.act(op='add', c=c, s=sorted(S), unlink=unlink,
                 k=self.rng.choice(COLL + ['dict']))

    def discard(self, c, S, unlink=False):
        S = set(S)
        k = self.rng.choice(COLL + ['dict'])
        if S == self.cs[c] and self.rng.random() < 0.5:
            k = 'self'  # the causet is discarded from itself
        self.cs[c] = self.cs[c] - S
        self.act(op='discard', c=c, s=sorted(S), unlink=unlink, k=k)

    def disjoin(self, e):
        for x in self.past:
            self.past[x].discard(e)
        self.past[e] = set()
        self.act(op='disjoin', e=e)

    def event(self, op, e):
        self.act(op=op, e=e)

    def touch(self, e, m=None):
        self.act(op='touch', e=e, m=m or self.rng.choice(TOUCH))

    def relabel(self, e):
        self.lab[e] = self.newlabel(e)
        self.act(op='relabel', e=e, lab=self.lab[e])

    def on(self, op, c):
        self.act(op=op, c=c)

    # -- helpers -------------------------------------------------------------
    def subset(self, S, p=None):
        p = self.rng.choice([0.1, 0.3, 0.5, 0.8, 1.0]) if p is None else p
        return [x for x in sorted(S) if self.rng.random() < p]

    def lt(self, a, b):
        return a in self.past[b]

    def antichain(self, S):
        '''a random maximal antichain in S'''
        S = list(S)
        self.rng.shuffle(S)
        A = []
        for x in S:
            if all(not self.lt(x, y) and not self.lt(y, x) for y in A):
                A.append(x)
        return A

    def convex(self, S):
        S = set(S)
        return S | {x for x in self.past for a in S for b in S
                    if self.lt(a, x) and self.lt(x, b)}

    def case(self, **kw):
        c = {'h': self.rng.randint(0, 10 ** 6), 'steps': self.steps}
        c.update(kw)
        return c


# ---------------------------------------------------------------------------
# behaviours of the specification

def from_behaviour(rng, acts):
    '''replays the operations of a behaviour printed by GenHistories'''
    H = Hist(rng)
    for a in acts:
        op = a['op']
        if op == 'create':
            assert a['id'] == len(H.past) + 1
            H.create(a['past'], a['future'])
        elif op == 'causet':
            H.causet(a['s'])
        elif op == 'merge':
            H.merge(a['p'], a['f'], a['disjoint'])
        elif op == 'add':
            H.add(a['c'], a['s'], a['unlink'])
        elif op == 'discard':
            H.discard(a['c'], a['s'], a['unlink'])
        elif op == 'disjoin':
            H.disjoin(a['e'])
        elif op in ('link', 'unlink'):
            H.event(op, a['e'])
        elif op in ('linkc', 'unlinkc'):
            H.on(op, a['c'])
        elif op == 'touch':
            H.touch(a['e'])
        else:
            raise ValueError(op)
    return H


CFG = '''SPECIFICATION Spec
CONSTANTS N = %d K = %d Touch = {%s} Emit = %s
VIEW View
INVARIANTS TypeOK OrderInv CoverInv ClosureInv
'''


def histories(run, n, k, what, limit=None, touch='"LinkPast"'):
    '''every transition of GenHistories with n events and k causets'''
    acts = run.generate('GenHistories', CFG % (n, k, touch, 'TRUE'), 'HIST',
                        what)
    rng = run.rng('histories', n, k)
    if limit is not None and len(acts) > limit:
        acts = rng.sample(acts, limit)
    return [from_behaviour(rng, a) for a in acts]


def simulated(run, n, k, num, depth, limit, what):
    '''random behaviours of GenHistories'''
    cfg = (CFG % (n, k, '"LinkPast"', 'TRUE')).replace('VIEW View\n', '')
    acts = run.generate('GenHistories', cfg, 'HIST', what,
                        extra=['-simulate', 'num=%d' % num,
                               '-depth', str(depth)],
                        seed=run.seed + 17)
    # TLC prints every successor of every state of a behaviour
    rng = run.rng('simulated', n, k)
    acts = rng.sample(acts, min(len(acts), limit))
    return [from_behaviour(rng, a) for a in acts]


def posets(run, n):
    '''all naturally labelled orders of 0..n events: [past sets], from TLC'''
    cfg = 'SPECIFICATION Spec\nCONSTANTS N = %d Emit = TRUE\n' % n
    return [[set(p) for p in v] for v in
            run.generate('Posets', cfg, 'POSET',
                         'all naturally labelled orders up to %d events' % n)]


def build(H, past, order=None, style=None):
    '''
    Creates events so that the relation becomes the given one (past[k] is the
    set of 1-based predecessors of event k + 1). The events may be inserted in
    any order, naming the past and future that already exist, either fully,
    or by the covering events only. Returns new id of each event.
    '''
    rng = H.rng
    n = len(past)
    order = list(order or range(1, n + 1))
    style = style or rng.choice(['full', 'links', 'random'])
    ids = {}
    done = set()
    for x in order:
        P = {y for y in done if y in past[x - 1]}
        F = {y for y in done if x in past[y - 1]}
        if style != 'full':
            mP = {y for y in P if not any(y in past[z - 1] for z in P)}
            mF = {y for y in F if not any(z in past[y - 1] for z in F)}
            if style == 'links':
                P, F = mP, mF
            else:
                P = mP | {y for y in P if rng.random() < 0.5}
                F = mF | {y for y in F if rng.random() < 0.5}
        ids[x] = H.create({ids[y] for y in P}, {ids[y] for y in F})
        done.add(x)
        if rng.random() < 0.1:
            H.touch(rng.choice(H.E))
        elif rng.random() < 0.05:
            H.event('link', rng.choice(H.E))
    return ids


# ---------------------------------------------------------------------------
# random orders

def close(past):
    n = len(past)
    for k in range(n):
        for i in range(n):
            if k + 1 in past[i]:
                past[i] |= past[k]
    return past


def rank_calls(past):
    '''
    How many pairs of events are met when the ranks of all pairs are searched
    from both ends without a memory (as the code does), at most: the search
    time is no property of the system, so that orders with many parallel
    branches are left out where it grows exponentially.
    '''
    n = len(past)
    E = sorted(range(1, n + 1), key=lambda e: len(past[e - 1]))
    fut = {e: set() for e in E}
    for e in E:
        for p in past[e - 1]:
            fut[p].add(e)
    lp = {e: {p for p in past[e - 1] if not fut[p] & past[e - 1]} for e in E}
    lf = {e: {f for f in fut[e] if e in lp[f]} for e in E}
    calls, total = {}, 0.0
    for b in E:
        for a in reversed([x for x in E if x in past[b - 1]]):
            if a in lp[b] or lf[a] & lp[b]:
                k = 1.0
            else:
                k = 1.0 + sum(calls.get((x, y), 1.0)
                              for x in lf[a] for y in lp[b])
            calls[a, b] = k
            total += k
    return total


def random_order(rng, n, kind=None):
    '''past sets of a random order of n events of varied kind'''
    kind = kind or rng.choice(['perm', 'perm', 'dag', 'dag', 'sparse', 'layers',
                       'fence', 'union', 'chainish', 'kr', 'tree', 'grid',
                       'detour'])
    past = [set() for _ in range(n)]
    if kind == 'perm':
        v = list(range(n))
        rng.shuffle(v)
        past = [{j + 1 for j in range(i) if v[j] < v[i]} for i in range(n)]
    elif kind in ('dag', 'sparse', 'chainish'):
        p = {'dag': rng.choice([0.2, 0.35, 0.5]), 'sparse': 0.12,
             'chainish': 0.75}[kind]
        past = [{j + 1 for j in range(i) if rng.random() < p}
                for i in range(n)]
    elif kind in ('layers', 'kr'):
        h = 3 if kind == 'kr' else rng.randint(2, max(2, n // 2))
        lay = sorted(rng.randint(1, h) for _ in range(n))
        p = rng.choice([0.3, 0.6, 0.9])
        past = [{j + 1 for j in range(i) if lay[j] == lay[i] - 1 and
                 rng.random() < p} for i in range(n)]
    elif kind == 'fence':
        w = max(2, n // rng.choice([2, 3]))
        past = [{j + 1 for j in range(i)
                 if j // w == i // w - 1 and (i - j) % w in (0, 1)}
                for i in range(n)]
    elif kind == 'union':
        cut = rng.randint(1, n - 1) if n > 1 else 1
        a, b = random_order(rng, cut), random_order(rng, n - cut)
        past = a + [{x + cut for x in p} for p in b]
    elif kind == 'tree':
        up = rng.random() < 0.5
        past = [({rng.randint(1, i)} if i else set()) for i in range(n)]
        if not up:
            rev = [set() for _ in range(n)]
            for i, p in enumerate(past):
                for j in p:
                    rev[n - j].add(n - i)
            past = rev
    elif kind == 'detour':  # arms of different lengths meet again
        ends = [0] if n else []
        k = 1
        while k < n:
            arms = []
            for _ in range(rng.randint(1, 3)):
                a = rng.choice(ends)
                for _ in range(rng.randint(0, 3)):
                    if k < n - 1:
                        past[k].add(a + 1)
                        a, k = k, k + 1
                arms.append(a)
            past[k] |= {a + 1 for a in arms}
            ends = [k] + rng.sample(arms, rng.randint(0, 1))
            k += 1
    elif kind == 'grid':
        w = rng.randint(2, 4)
        pos = [(i // w, i % w) for i in range(n)]
        past = [{j + 1 for j in range(n) if j != i and
                 pos[j][0] <= pos[i][0] and pos[j][1] <= pos[i][1]}
                for i in range(n)]
    return close(past)


def random_history(rng, n, length, weights=None):
    '''a random history of all operations'''
    H = Hist(rng)
    w = {'create': 6, 'link': 1, 'unlink': 1, 'touch': 3, 'disjoin': 1,
         'merge': 1, 'causet': 1, 'add': 1, 'discard': 1, 'linkc': 1,
         'unlinkc': 0.4, 'relabel': 0.3}
    w.update(weights or {})
    ops = sorted(w)
    if rng.random() < 0.5 and n > 3:
        build(H, random_order(rng, rng.randint(2, n - 1)))
    while len(H.steps) < length:
        op = rng.choices(ops, [w[o] for o in ops])[0]
        E = H.E
        if op == 'create' and len(E) < n:
            p = rng.choice([0.05, 0.2, 0.4])
            P = set(H.subset(E, p))
            D = H.down(P)
            cand = [x for x in E if x not in D and
                    not H.up([x]) & D]
            F = set(H.subset(cand, rng.choice([0, 0, 0.2, 0.5])))
            if H.down(P) & H.up(F):
                F = set()
            H.create(P, F)
        elif op in ('link', 'unlink') and E:
            H.event(op, rng.choice(E))
        elif op == 'touch' and E:
            H.touch(rng.choice(E))
        elif op == 'relabel' and E:
            H.relabel(rng.choice(E))
        elif op == 'disjoin' and E:
            e = rng.choice(E)
            if rng.random() < 0.6:  # an event in the middle
                mid = [x for x in E if H.past[x] and H.fut(x)]
                e = rng.choice(mid) if mid else e
            H.disjoin(e)
        elif op == 'merge' and len(E) > 1 and len(H.cs) < 3:
            parts = []
            left = set(E)
            while left:
                C = H.closure({min(left)})
                parts.append(sorted(C))
                left -= C
            rng.shuffle(parts)
            k = rng.randint(0, len(parts))
            m = rng.randint(k, len(parts))
            H.merge(sum(parts[:k], []), sum(parts[k:m], []),
                    rng.random() < 0.3)
        elif op == 'causet' and len(H.cs) < 3:
            H.causet(H.subset(E, rng.choice([0.1, 0.3, 1])))
        elif op in ('add', 'discard') and H.cs:
            getattr(H, op)(rng.choice(sorted(H.cs)), H.subset(E),
                           rng.random() < 0.3)
        elif op in ('linkc', 'unlinkc') and H.cs:
            H.on(op, rng.choice(sorted(H.cs)))
        else:
            if len(E) >= n and not H.cs:
                H.causet(H.subset(E))
    return H
