'''
Checks of the order core: C01-C17 (and the copy part of C23). Each property is
decided by the same pipeline: model checking of the specification, behaviours
of the specification and random histories replayed on the real code, and
validation of the recorded runs with OrderTrace.tla.
'''
import itertools
import json

from . import orders
from .orders import Hist, build, random_order, random_history, rank_calls

# ---------------------------------------------------------------------------
# queries


def subs(H, p=None):
    return H.subset(H.E, p)


def nonempty(H, S=None):
    S = list(S if S is not None else H.E)
    T = H.subset(S)
    return T or ([H.rng.choice(S)] if S else [])


def cid(H):
    return H.rng.choice(sorted(H.cs))


def need_cs(H):
    if not H.cs:
        H.causet(H.E)
        if H.rng.random() < 0.3 and H.E:
            H.discard(1, H.subset(H.E, 0.2))
    elif H.rng.random() < 0.3 and H.E and len(H.cs) < 4:
        H.causet(H.subset(H.E, 0.5))


def q_C01(H):
    return []


def q_C02(H):
    return [{'o': 'rel'}, {'o': 'cones'}, {'o': 'spacelike', 's': subs(H)},
            {'o': 'spacelike', 's': subs(H, 1.0)}]


def some_lk(H, k):
    r = H.rng
    qs = []
    for _ in range(k):
        m = r.choice(orders.TOUCH + ['isLink'])
        qs.append({'o': 'lk', 'm': m, 'e': r.choice(H.E),
                   'f': r.choice(H.E)})
    return qs


def q_C03(H):
    qs = some_lk(H, H.rng.randint(0, 3)) if H.E else []
    tail = [{'o': 'links'}, {'o': 'islink'}]
    if H.cs:
        tail.append({'o': 'linkcount', 'c': cid(H), 's': subs(H)})
        # derived queries that go through the links
        tail.append({'o': 'matrix', 'c': cid(H), 'none': False,
                     's': H.subset(H.E), 'dtype': 'dflt'})
    H.rng.shuffle(tail)
    return qs + tail


def q_C04(H):
    return [{'o': 'links'}, {'o': 'rel'}] + \
        ([{'o': 'islink'}] if H.rng.random() < 0.3 else [])


def q_C05(H):
    r = H.rng
    qs = []
    for c in sorted(H.cs):
        qs.append({'o': 'member', 'c': c})
        k = r.choice(orders.COLL + ['dict', 'other', 'causet'])
        qs.append({'o': 'setops', 'c': c, 'k': k, 'd': cid(H),
                   's': subs(H)})
        labs = sorted(set(r.choice(list(H.lab.values()) or ['i:1'])
                          for _ in range(3))) + ['s:no', 'i:77']
        qs.append({'o': 'find', 'c': c, 'labs': r.sample(labs, 3)})
    return qs


def q_C07(H):
    r = H.rng
    qs = []
    c = cid(H)
    M = sorted(H.cs[c])
    s = H.subset(r.choice([M, H.E]), 0.9 if len(H.E) > 60 else None)
    r.shuffle(s)
    qs.append({'o': 'matrix', 'c': c, 'none': False, 's': s,
               'dtype': r.choice(['dflt', 'bool', 'int', 'float', 'uint8'])})
    qs.append({'o': 'matrix', 'c': c, 'none': True, 's': [],
               'dtype': r.choice(['dflt', 'bool', 'int', 'float', 'uint8'])})
    # read back: needs a causet that is convex (links) and not empty
    if M and set(M) == H.convex(M):
        for how in r.sample(['csv', 'csvfuture', 'past', 'future', 'linkpast',
                             'linkfuture', 'cross'], 3):
            qs.append({'o': 'roundtrip', 'c': c, 'how': how})
    return qs


def q_C08(H):
    r = H.rng
    qs = [{'o': 'region', 's': subs(H), 'd': r.random() < 0.5},
          {'o': 'region', 's': subs(H, 0.2), 'd': r.random() < 0.5},
          {'o': 'region', 's': [], 'd': r.random() < 0.5}]
    E = H.E
    pairs = list(itertools.product(E, E))
    if len(pairs) > 30:
        rel = [p for p in pairs if H.lt(*p)]
        pairs = r.sample(pairs, 10) + r.sample(rel, min(20, len(rel)))
    qs.append({'o': 'interval', 'pairs': [list(p) for p in pairs]})
    for c in sorted(H.cs):
        qs.append({'o': 'inf', 'c': c, 's': subs(H)})
        qs.append({'o': 'spaceto', 'c': c, 's': subs(H)})
        qs.append({'o': 'spaceto', 'c': c, 's': subs(H, 0.15)})
    return qs


def a_chain(H):
    r = H.rng
    E = H.E
    r.shuffle(E)
    ch = []
    for x in E:
        if all(H.lt(x, y) or H.lt(y, x) for y in ch):
            ch.append(x)
    return ch


def a_path(H):
    '''events along links, sometimes with one left out'''
    r = H.rng
    if not H.E:
        return []
    x = r.choice(H.E)
    path = [x]
    while True:
        F = H.fut(path[-1])
        L = [y for y in F if not any(H.lt(z, y) for z in F)]
        if not L or r.random() < 0.15:
            break
        path.append(r.choice(sorted(L)))
    if len(path) > 2 and r.random() < 0.4:
        path.pop(r.randint(1, len(path) - 2))
    r.shuffle(path)
    return path


def q_C09(H):
    r = H.rng
    qs = []
    for c in sorted(H.cs):
        qs.append({'o': 'chain', 'c': c, 'k': 'none', 's': []})
    c = cid(H)
    for s in (subs(H), subs(H, 0.3), a_chain(H), a_path(H), a_path(H),
              H.antichain(H.E), []):
        k = r.choice(['set', 'list', 'tuple', 'frozenset', 'iter'])
        qs.append({'o': 'chain', 'c': c, 'k': k, 's': s})
    return qs


def all_subsets_chain(H):
    c = cid(H)
    return [{'o': 'chain', 'c': c, 'k': 'set', 's': list(s)}
            for n in range(len(H.E) + 1)
            for s in itertools.combinations(H.E, n)]


def path_count(H, a, b):
    n = {a: 1}
    D = H.past[b] | {b}
    for x in sorted(D & set(H.fut(a)), key=lambda x: len(H.past[x])):
        n[x] = sum(n.get(y, 0) for y in H.past[x]
                   if not any(y in H.past[z] for z in H.past[x]))
    return n.get(b, 0)


def q_C10(H, most=60):
    r = H.rng
    E = H.E
    pairs = list(itertools.product(E, E))
    if len(pairs) > most:
        rel = [p for p in pairs if H.lt(*p)]
        pairs = r.sample(pairs, 4) + r.sample(rel, min(most - 4, len(rel)))
    qs = []
    if len(E) > 14:  # there may be very many paths
        pairs = [p for p in pairs if path_count(H, *p) <= 300]
    for a, b in pairs:
        m = r.choice(['dflt', 'any', 'int', 'range', 'min', 'max', 'timegeo',
                      'int', 'range'])
        if r.random() < 0.03:
            m = 'bad'
        lo = r.randint(0, 5)
        qs.append({'o': 'paths', 'a': a, 'b': b, 'm': m, 'lo': lo,
                   'hi': r.randint(max(0, lo - 1), 6)})
    return qs


def q_C11(H):
    r = H.rng
    qs = [{'o': 'rank'}]
    for _ in range(5):
        lo = r.randint(-3, 3)
        s = H.antichain(subs(H)) if r.random() < 0.6 else subs(H)
        qs.append({'o': 'ranks', 's': s, 'lo': lo,
                   'hi': r.randint(lo - 1, 4), 'dflt': r.random() < 0.4})
    for _ in range(3):  # sets that are not antichains
        s = a_chain(H)[:r.randint(2, 3)]
        lo = r.randint(-5, 5)
        qs.append({'o': 'ranks', 's': s, 'lo': lo,
                   'hi': r.randint(lo, lo + 1), 'dflt': r.random() < 0.7})
    for _ in range(3):
        s = subs(H)
        r.shuffle(s)
        qs.append({'o': 'ranknums', 's': s, 'rev': r.random() < 0.5,
                   'd': r.random() < 0.5})
    return qs


def q_C12(H):
    r = H.rng
    qs = []
    for _ in range(6):
        lo = r.randint(-4, 4)
        s = H.antichain(subs(H)) if r.random() < 0.6 else subs(H)
        qs.append({'o': 'layers', 's': s, 'lo': lo,
                   'hi': r.randint(lo - 1, 6), 'dflt': r.random() < 0.4})
    for _ in range(3):
        s = subs(H)
        r.shuffle(s)
        qs.append({'o': 'layernums', 's': s, 'rev': r.random() < 0.5,
                   'd': r.random() < 0.5})
    for c in sorted(H.cs):
        for rev in (False, True):
            M = H.cs[c]
            if M == H.convex(M):
                qs.append({'o': 'layered', 'c': c, 'none': True, 's': [],
                           'rev': rev})
            s = sorted(H.convex(subs(H, 0.4)))
            qs.append({'o': 'layered', 'c': c, 'none': False, 's': s,
                       'rev': rev})
    return qs


def labkey(s):
    t, v = s[0], s[2:]
    return v if t == 's' else float(v)


def q_C13(H):
    r = H.rng
    qs = []
    labs = sorted({x for x in H.lab.values() if x != 'n:'}, key=labkey)
    for c in sorted(H.cs):
        for none in (True, False):
            s = [] if none else subs(H)
            for rev in (False, True):
                qs.append({'o': 'sortc', 'c': c, 'none': none, 's': s,
                           'rev': rev})
                qs.append({'o': 'sortl', 'c': c, 'none': none, 's': s,
                           'rev': rev, 'labord': labs})
    return qs


def q_C14(H):
    qs = []
    for c in sorted(H.cs):
        qs.append({'o': 'disjoint', 'c': c, 'none': True, 's': []})
        for p in (0.3, 0.6, None):
            qs.append({'o': 'disjoint', 'c': c, 'none': False,
                       's': subs(H, p)})
    return qs


def q_C15(H):
    r = H.rng
    qs = []
    for c in sorted(H.cs):
        qs.append({'o': 'central', 'c': c, 'e': 0})
        for e in r.sample(H.E, min(4, len(H.E))):
            qs.append({'o': 'central', 'c': c, 'e': e})
    return qs


def q_C16(H):
    r = H.rng
    qs = []
    c = cid(H)
    E = H.E
    for _ in range(6):
        if not E:
            break
        qs.append({'o': 'smallest', 'c': c, 'a': r.choice(E),
                   'b': r.choice(E), 'sg': r.random() < 0.6, 's': subs(H),
                   'ig': r.random() < 0.5, 'i': subs(H)})
    if len(E) > 1:  # all pairs of some events
        k = 8 if len(E) <= 12 else 5 if len(E) <= 24 else 2
        L = r.sample(E, min(k, len(E)))
        qs.append({'o': 'smalls', 'c': c, 'es': L, 'sg': r.random() < 0.3,
                   's': subs(H), 'ig': r.random() < 0.3, 'i': subs(H)})
    M = sorted(H.cs[c])
    if not H.closed(M):  # antichains are meant within the whole order
        M = E
    for _ in range(2):
        A = H.antichain(M)
        if len(A) > 2 and r.random() < 0.15:
            A = A[1:]  # not maximal
        qs.append({'o': 'dist', 'c': c, 's': A, 'rec': r.choice([0, 1, 2]),
                   'counting': r.choice(['dflt', 'ziczac', 'intersection'] * 5
                                        + ['zigzag', 'Intersection', '']),
                   'k': r.choice(['list', 'tuple', 'array'])})
    if len(A) > 1:
        for _ in range(3):
            a, b = r.choice(A), r.choice(A)
            qs.append({'o': 'antipaths', 'c': c, 'a': a, 'b': b, 's': A,
                       'given': r.choice(['none', 'dist', 'inter']),
                       'k': r.choice(['list', 'tuple', 'iter'])})
    if r.random() < 0.3 and len(E) > 1:
        qs.append({'o': 'antipaths', 'c': c, 'a': r.choice(E),
                   'b': r.choice(E), 's': A, 'given': 'none', 'k': 'list'})
    return qs


def q_C17(H):
    r = H.rng
    qs = []
    for f in (q_C02, q_C03, q_C05, q_C07, q_C08, q_C09, q_C10, q_C11, q_C12,
              q_C13, q_C14, q_C15, q_C16):
        Q = f(H)
        qs += r.sample(Q, min(3, len(Q)))
    qs += [{'o': 'repr'}, {'o': 'copy'}]
    r.shuffle(qs)
    return qs


def q_C23(H):
    return [{'o': 'copy'}]


QUERY = {k[2:]: v for k, v in list(globals().items()) if k[:3] == 'q_C'}
PROPERTY_OF_QUERY = {
    'rel': 'C02', 'cones': 'C02', 'spacelike': 'C02', 'lk': 'C03',
    'links': 'C03', 'islink': 'C03', 'linkcount': 'C03', 'member': 'C05',
    'setops': 'C05', 'find': 'C05', 'region': 'C08', 'spaceto': 'C08',
    'inf': 'C08', 'interval': 'C08', 'chain': 'C09', 'paths': 'C10',
    'rank': 'C11', 'ranks': 'C11', 'ranknums': 'C11', 'layers': 'C12',
    'layernums': 'C12', 'layered': 'C12', 'sortc': 'C13', 'sortl': 'C13',
    'disjoint': 'C14', 'central': 'C15', 'smallest': 'C16', 'smalls': 'C16',
    'dist': 'C16',
    'antipaths': 'C16', 'matrix': 'C07', 'roundtrip': 'C07', 'repr': 'C17',
    'copy': 'C23'}
ACTION = {'create': ['C01'], 'merge': ['C01'], 'causet': ['C01'],
          'disjoin': ['C04'], 'add': ['C05'], 'discard': ['C05'],
          'link': ['C03'], 'unlink': ['C03'], 'linkc': ['C03'],
          'unlinkc': ['C03'], 'touch': ['C03', 'C17'], 'relabel': ['C23'],
          'family': ['C06'], 'frommatrix': ['C07'], 'nop': []}


def clauses(case, driver, bad):
    '''the properties that a BAD record of OrderTrace contradicts'''
    if driver == 'family_driver':
        for c in bad['c']:
            yield 'C06', 'large/%s/%s' % (case['a']['fam'], c), \
                '%s of %s' % (c, json.dumps(case['a']))
        return
    step = case['steps'][bad['step'] - 1]
    op = step['act']['op']
    for s in bad['state']:
        props = list(ACTION[op])
        if s == 'members' and op in ('causet', 'merge'):
            props = ['C05', 'C01']
        if s in ('link-flag', 'unlink-flag'):
            props = ['C03']
        for p in props:
            yield p, 'state/%s/%s' % (op, s), \
                'after %s: %s' % (json.dumps(step['act']), s)
    disjoined = any(x['act']['op'] == 'disjoin'
                    for x in case['steps'][:bad['step']])
    for k, what in bad['q']:
        q = step['q'][k - 1]
        o = q['o']
        props = [PROPERTY_OF_QUERY[o]]
        if disjoined and o in ('rel', 'cones', 'lk', 'links', 'islink'):
            props.append('C04')
        if what == 'impure':
            props = ['C17']
        text = '%s answer of %s' % (what, json.dumps(q))
        if case.get('rec'):
            text += ' recorded %s' % json.dumps(case['rec'])[:300]
        for p in props:
            key = 'query/%s/%s' % (o, what)
            if o == 'lk':
                key += '/' + q['m']
            yield p, key, text


# ---------------------------------------------------------------------------
# case sets

def poset_cases(run, prop, n, copies, limit=None, full=None):
    '''all orders of up to n events, built in random insertion orders'''
    rng = run.rng(prop, 'posets', n)
    P = orders.posets(run, n)
    if limit is not None and len(P) > limit:
        small = [p for p in P if len(p) < n]
        big = [p for p in P if len(p) == n]
        small = rng.sample(small, min(len(small), limit // 2))
        P = small + rng.sample(big, max(0, min(len(big),
                                               limit - len(small))))
    cases = []
    for past in P:
        for _ in range(copies):
            H = Hist(rng)
            order = list(range(1, len(past) + 1))
            if rng.random() < 0.7:
                rng.shuffle(order)
            build(H, past, order)
            need_cs(H)
            H.ask(*(full or QUERY[prop])(H))
            cases.append(H.case(pure=prop == 'C17'))
    return cases


MAX_CALLS = 2e5  # for a second of search


def random_cases(run, prop, count, nmin, nmax, events=None):
    '''random larger orders with all operations'''
    rng = run.rng(prop, 'random')
    cases = []
    for _ in range(count):
        n = rng.randint(nmin, nmax)
        H = Hist(rng)
        order = list(range(1, n + 1))
        rng.shuffle(order)
        detour = prop in ('C10', 'C11') and rng.random() < 0.4
        P = random_order(rng, n, 'detour' if detour else None)
        while prop == 'C11' and rank_calls(P) > MAX_CALLS:
            P = random_order(rng, n)
        build(H, P, order)
        if rng.random() < 0.3:
            H.disjoin(rng.choice(H.E))
        need_cs(H)
        if n > 20 and prop in ('C02', 'C03', 'C05') and \
                rng.random() < (0.9 if n > 60 else 0.5):
            H.on('linkc', cid(H))
        H.ask(*QUERY[prop](H))
        cases.append(H.case(pure=prop == 'C17'))
    return cases


def large_cases(run, quick=24, thorough=400):
    '''orders that are too large for the tests of small numbers'''
    return random_cases(run, run.prop, run.pick(quick, thorough), 24,
                        run.pick(42, 60)) + \
        random_cases(run, run.prop, run.pick(3, 16), 65, run.pick(72, 130)) \
        + huge_cases(run, run.pick(1, 4))


def huge_cases(run, count):
    '''long orders of more than 256 events that are chains with some pairs of
    events side by side'''
    rng = run.rng(run.prop, 'huge')
    cases = []
    for _ in range(count):
        n = rng.randint(258, 275)
        pair = set()
        for i in range(1, n):
            if i - 1 not in pair and rng.random() < (
                    0.004 if run.prop in ('C10', 'C11') else 0.05):
                pair.add(i)
        past = [set(range(1, i if i in pair else i + 1)) for i in range(n)]
        order = list(range(1, n + 1))
        if rng.random() < 0.5:
            rng.shuffle(order)
        H = Hist(rng)
        build(H, past, order)
        need_cs(H)
        if run.prop in ('C02', 'C03', 'C05'):
            H.on('linkc', cid(H))
        H.ask(*QUERY[run.prop](H))
        cases.append(H.case(pure=run.prop == 'C17'))
    return cases


def history_cases(run, prop, count, nmin, nmax, lmin, lmax, every=0.25,
                  weights=None):
    '''random histories, asked at the end and at random points between'''
    rng = run.rng(prop, 'history')
    cases = []
    for _ in range(count):
        n = rng.randint(nmin, nmax)
        H = Hist(rng)
        H = random_history(rng, n, rng.randint(lmin, lmax), weights)
        # queries at random points need the state at that point
        G = replay(rng, H, prop, every)
        need_cs(G)
        G.ask(*QUERY[prop](G))
        cases.append(G.case(pure=prop == 'C17'))
    return cases


def replay(rng, H, prop, every):
    G = Hist(rng)
    G.labkind = H.labkind
    for st in H.steps:
        a = st['act']
        op = a['op']
        if op == 'create':
            G.create(a['past'], a['future'])
            G.lab[a['id']] = a['lab']
            G.steps[-1]['act'] = a
        elif op in ('causet',):
            G.causet(a['s'])
        elif op == 'merge':
            G.merge(a['p'], a['f'], a['disjoint'])
        elif op in ('add', 'discard'):
            getattr(G, op)(a['c'], a['s'], a['unlink'])
        elif op == 'disjoin':
            G.disjoin(a['e'])
        elif op == 'relabel':
            G.lab[a['e']] = a['lab']
            G.act(**a)
        else:
            G.act(**a)
        if G.E and G.cs and rng.random() < every:
            Q = QUERY[prop](G)
            G.ask(*rng.sample(Q, min(len(Q), 4)))
        elif G.E and rng.random() < every / 2:
            G.ask(*some_lk(G, 1))
    return G


def spec_cases(run, prop, hists):
    cases = []
    for H in hists:
        if prop in ('C05',) and not H.cs:
            continue
        H.ask(*QUERY[prop](H))
        cases.append(H.case())
    return cases


def small_spec(run):
    run.model_check('GenHistories', orders.CFG % (3, 1, '"LinkPast"', 'FALSE')
                    + 'PROPERTY Monotone\n',
                    'state machine of all operations, 3 events, 1 causet: '
                    'order axioms, cover, closure, effect of every operation')


def link_memory(run, n=3, ops='"create","link","unlink","linkc","disjoin",'
                '"merge"'):
    run.model_check('LinkMemory', '''SPECIFICATION Spec
CONSTANTS N = %d Relate = TRUE Repair = TRUE Relink = TRUE
 Ops = {%s}
INVARIANTS OrderInv LinkInv EffectInv
''' % (n, ops), 'link memory at implementation level, %d events, every set '
        'iteration order' % n, heap='12g')


def theorems(run, n=4):
    run.model_check('Posets', '''SPECIFICATION Spec
CONSTANTS N = %d Emit = FALSE
INVARIANTS OrderOK IntervalThm PathThm LayerThm ComponentThm CentralThm DistanceThm
''' % n, 'definitions checked against each other on all orders up to %d '
        'events' % n)


# property -> (theorem, events in quick tier, in thorough tier, bounded)
ALGORITHMS = {
    'C09': [('CountingThm', 5, 6, 'FALSE')],
    'C10': [('PathThm', 4, 5, 'TRUE')],
    'C11': [('RankThm', 4, 5, 'TRUE')],
    'C12': [('LayeredThm', 5, 6, 'FALSE')],
    'C13': [('SortThm', 5, 6, 'FALSE')],
    'C14': [('DisjointThm', 5, 6, 'FALSE')],
    'C15': [('CentralGreedyThm', 5, 6, 'FALSE')],
    'C16': [('MatrixThm', 5, 6, 'FALSE')],
}


def algorithms(run):
    for thm, quick, thorough, bounded in ALGORITHMS.get(run.prop, ()):
        n = run.pick(quick, thorough)
        run.model_check('Algorithms', '''SPECIFICATION Spec
CONSTANTS N = %d
 Bounded = %s
INVARIANT %s
''' % (n, bounded, thm), 'steps of the algorithm against its meaning (%s), '
                        'all orders of up to %d events' % (thm, n))


OT = ('order_driver', 'OrderTrace')


def check_C01(run):
    small_spec(run)
    link_memory(run)
    cases = spec_cases(run, 'C01', orders.histories(
        run, run.pick(3, 4), 0, 'every transition without causets',
        run.pick(2500, None)))
    cases += spec_cases(run, 'C01', orders.histories(
        run, 3, 1, 'every transition with one causet', run.pick(2500, None)))
    cases += spec_cases(run, 'C01', orders.simulated(
        run, 6, 3, run.pick(60, 1000), 14, run.pick(1500, 30000),
        'random behaviours'))
    cases += large_cases(run)
    cases += history_cases(run, 'C01', run.pick(400, 8000), 4, 14, 8, 30)
    run.validate(*OT, cases)


def check_C02(run):
    small_spec(run)
    theorems(run)
    cases = poset_cases(run, 'C02', run.pick(5, 6), run.pick(2, 2))
    cases += large_cases(run)
    cases += history_cases(run, 'C02', run.pick(400, 5000), 3, 12, 6, 25)
    run.validate(*OT, cases)


def check_C03(run):
    small_spec(run)
    link_memory(run)
    if not run.quick:
        link_memory(run, 4, '"create","link","disjoin"')
    cases = spec_cases(run, 'C03', orders.histories(
        run, run.pick(3, 4), 0, 'every transition without causets',
        run.pick(2500, None)))
    cases += spec_cases(run, 'C03', orders.histories(
        run, 3, 1, 'every transition with one causet', run.pick(2500, None)))
    cases += spec_cases(run, 'C03', orders.simulated(
        run, 6, 3, run.pick(60, 1000), 16, run.pick(1500, 30000),
        'random behaviours'))
    cases += large_cases(run)
    cases += history_cases(run, 'C03', run.pick(900, 10000), 4, 12, 8, 30)
    run.validate(*OT, cases)


def check_C04(run):
    small_spec(run)
    link_memory(run)
    H = [h for h in orders.histories(run, run.pick(3, 4), 0,
                                     'every transition without causets')
         if any(s['act']['op'] == 'disjoin' for s in h.steps)]
    H = run.rng('C04').sample(H, min(len(H), run.pick(1500, 20000)))
    cases = spec_cases(run, 'C04', H)
    # every event of every order, all / no / some events linked
    rng = run.rng('C04', 'posets')
    P = orders.posets(run, run.pick(4, 5))
    for past in P:
        for e in range(1, len(past) + 1):
            for mode in ('all', 'none', 'some', 'causet'):
                H = Hist(rng)
                order = list(range(1, len(past) + 1))
                rng.shuffle(order)
                ids = build(H, past, order)
                if mode == 'causet':
                    H.causet(H.E)
                    H.on('linkc', 1)
                for x in H.E:
                    if mode == 'all' or (mode == 'some' and
                                         rng.random() < 0.5):
                        H.touch(x)
                H.disjoin(ids[e])
                H.ask(*q_C04(H))
                if rng.random() < 0.4:
                    f = rng.choice(H.E)
                    H.disjoin(f)
                    H.ask(*q_C04(H))
                if rng.random() < 0.3:
                    H.create(H.subset(H.E), [])
                    H.ask(*q_C04(H))
                cases.append(H.case())
    for _ in range(run.pick(24, 300)):  # large orders
        H = Hist(rng)
        n = rng.randint(20, run.pick(32, 50))
        order = list(range(1, n + 1))
        rng.shuffle(order)
        build(H, random_order(rng, n), order)
        if rng.random() < 0.5:
            H.causet(H.E)
            H.on('linkc', 1)
        for k in range(rng.randint(1, 4)):
            mid = [x for x in H.E if H.past[x] and H.fut(x)]
            if mid:
                H.disjoin(rng.choice(mid))
                H.ask(*q_C04(H))
        cases.append(H.case())
    cases += history_cases(run, 'C04', run.pick(400, 6000), 5, 14, 10, 30,
                           weights={'disjoin': 4, 'touch': 5})
    run.validate(*OT, cases)


def check_C05(run):
    small_spec(run)
    cases = spec_cases(run, 'C05', orders.histories(
        run, 3, 1, 'every transition with one causet', run.pick(2500, None)))
    cases += spec_cases(run, 'C05', orders.simulated(
        run, 5, 3, run.pick(60, 1000), 16, run.pick(1500, 30000),
        'random behaviours'))
    cases += large_cases(run)
    cases += history_cases(run, 'C05', run.pick(700, 8000), 3, 10, 8, 30,
                           weights={'add': 5, 'discard': 5, 'causet': 4,
                                    'merge': 3, 'create': 5})
    run.validate(*OT, cases)


def family(fam, args, fmt='-', labs=()):
    return {'steps': [{'act': {'op': 'family', 'c': 1, 'fam': fam,
                               'args': list(args), 'fmt': fmt,
                               'labs': list(labs)},
                       'q': [{'o': 'rel'}, {'o': 'links'},
                             {'o': 'member', 'c': 1}]}], 'h': 1}


def check_C06(run):
    rng = run.rng('C06')
    cases = []

    def labelled(fam, n, args, dflt=True):
        fmts = ['-'] if not dflt else ['-', '', 'e{}', '{:.1f}', 'x{:03d}']
        for f in fmts if n <= 4 else rng.sample(fmts, min(2, len(fmts))):
            if f == '':
                if n > 6:
                    continue
                cases.append(family(fam, args, f))
                continue
            labs = ['i:%d' % k for k in range(1, n + 1)] if f == '-' else \
                ['s:' + f.format(k) for k in range(1, n + 1)]
            cases.append(family(fam, args, f, labs))

    for n in range(0, run.pick(5, 6)):
        for P in itertools.permutations(range(1, n + 1)):
            labelled('perm', n, P)
    for _ in range(run.pick(150, 2000)):
        P = list(range(1, rng.randint(6, 13) + 1))
        rng.shuffle(P)
        labelled('perm', len(P), P)
    for n in range(0, run.pick(9, 16)):
        labelled('chain', n, [n])
        labelled('antichain', n, [n])
    for n in (rng.randint(258, 270), rng.randint(65, 100)):
        P = list(range(1, n + 1))
        for i in range(n // 8):
            j = rng.randint(1, n - 1)
            P[j - 1], P[j] = P[j], P[j - 1]
        labelled('perm', n, P)
        labelled('chain', n, [n])
        labelled('antichain', n, [n])
    for d in range(0, run.pick(5, 6)):
        for central in (0, 1, 2):
            cases.append(family('simplex', [d, central]))

    def fence(fam, length, height, closed, args):
        n = max(0, (height + 1) * length) if length > 0 and height >= 0 else 0
        cases.append(family(fam, args, '-',
                            ['i:%d' % k for k in range(1, n + 1)]))
    for length in range(-1, run.pick(8, 11)):
        for height in range(-1, run.pick(5, 7)):
            for closed in (1, 0):
                fence('fence', length, height, closed,
                      [length, height, closed])
        fence('fence0', length, 1, 1, [length])
        fence('crown', length, 1, 1, [length])
    fence('crown', 3, 1, 1, [])
    for c in cases:
        c['h'] = rng.randint(0, 10 ** 6)
    run.validate(*OT, cases)
    large_families(run, rng)


def large_families(run, rng):
    '''members too large for the general state machine'''
    A = [('simplex', [d, c]) for d in range(5, run.pick(8, 9))
         for c in (0, 1)]
    A += [('simplex', [d, rng.randint(0, 1)])
          for d in run.pick([9], [9, 10])]
    A += [('chain', [n]) for n in run.pick([30], [30, 60, 120])]
    A += [('antichain', [n]) for n in run.pick([40], [40, 90, 200])]
    for _ in range(run.pick(6, 40)):
        P = list(range(1, rng.randint(15, run.pick(40, 70))))
        rng.shuffle(P)
        A.append(('perm', P))
    A += [('fence', [rng.randint(2, 24), rng.randint(2, run.pick(6, 12)), c])
          for _ in range(run.pick(6, 40)) for c in (0, 1)]
    run.validate('family_driver', 'FamilyTrace',
                 [{'a': {'fam': f, 'args': x}} for f, x in A], shards=8)


def matrix_case(rng, rows, cols):
    how = rng.choice(['past', 'future', 'textpast', 'textfuture', 'past',
                      'textpast'])
    a = {'op': 'frommatrix', 'c': 1, 'how': how, 'rows': rows, 'cols': cols,
         'dtype': rng.choice(['bool', 'int', 'float', 'uint8', 'int8']),
         'delim': rng.choice([',', ',', ';', ' ', '\t']),
         'order': rng.choice('CF'), 'stream': rng.random() < 0.2,
         'dflt': rng.random() < 0.5}
    if how == 'future':
        pass
    if how.startswith('text') and (not rows or not cols):
        a['how'] = how[4:]
    return {'h': rng.randint(0, 10 ** 6), 'steps': [
        {'act': a, 'q': [{'o': 'rel'}, {'o': 'links'},
                         {'o': 'member', 'c': 1}]}]}


def check_C07(run):
    theorems(run, 3)
    rng = run.rng('C07')
    cases = []
    # every square logical matrix of up to 3 events
    for n in range(1, 4):
        for bits in itertools.product([0, 1], repeat=n * n):
            rows = [list(bits[i * n:(i + 1) * n]) for i in range(n)]
            cases.append(matrix_case(rng, rows, n))
    for k in range(run.pick(724, 8400)):
        n = rng.randint(2, 9) if k % 30 else rng.randint(20, 40)
        kind = rng.random()
        if kind < 0.6:  # consistent, in any order of the events
            past = random_order(rng, n)
            if rng.random() < 0.5:  # links or something between
                past = [{y for y in p
                         if rng.random() < 0.4 or
                         not any(y in past[z - 1] for z in p)} for p in past]
            perm = list(range(n))
            rng.shuffle(perm)
            rows = [[0] * n for _ in range(n)]
            for i in range(n):
                for j in past[i]:
                    rows[perm[i]][perm[j - 1]] = 1
        else:
            p = rng.choice([0.05, 0.15, 0.3])
            rows = [[int(rng.random() < p) for _ in range(n)]
                    for _ in range(n)]
            if n > 9:
                rows = [[x * (rng.random() < 0.2) for x in r] for r in rows]
        m = rng.choice([n, n, n, rng.randint(1, n)])
        if rng.random() < 0.15:  # more rows than columns
            k = rng.randint(1, n)
            cases.append(matrix_case(rng, [r[:k] for r in rows], k))
        else:
            cases.append(matrix_case(rng, rows[:m], n))
    cases += poset_cases(run, 'C07', run.pick(4, 5), run.pick(3, 3))
    cases += random_cases(run, 'C07', run.pick(250, 3000), 5, 11)
    cases += large_cases(run, 8, 100)
    run.validate(*OT, cases)


def standard(n_quick, n_thorough, copies, rnd, big, hist=(0, 0), model=4):
    def check(run):
        theorems(run, model)
        algorithms(run)
        prop = run.prop
        cases = poset_cases(run, prop, run.pick(n_quick, n_thorough), copies,
                            limit=run.pick(900, 12000))
        cases += random_cases(run, prop, run.pick(*rnd), *big)
        cases += large_cases(run)
        if run.pick(*hist):
            cases += history_cases(run, prop, run.pick(*hist), 4, 10, 6, 24)
        run.validate(*OT, cases)
    return check


check_C08 = standard(5, 6, 2, (200, 3000), (6, 14), (200, 2000))
check_C10 = standard(5, 6, 2, (200, 3000), (6, 13), (100, 1000))
check_C11 = standard(5, 6, 3, (250, 3000), (6, 14), (100, 1000))
check_C12 = standard(5, 6, 3, (250, 3000), (6, 14), (100, 1000))
check_C13 = standard(5, 6, 2, (300, 3000), (6, 14), (200, 2000))
check_C14 = standard(5, 6, 3, (300, 3000), (6, 16), (200, 2000))
check_C15 = standard(5, 6, 3, (300, 3000), (6, 16), (150, 1500))
check_C16 = standard(5, 6, 3, (300, 3000), (6, 15), (100, 1000))
check_C17 = standard(5, 6, 1, (250, 2500), (5, 11), (150, 1500), 3)


def check_C09(run):
    theorems(run)
    algorithms(run)
    cases = poset_cases(run, 'C09', 4, 2, full=all_subsets_chain)
    if not run.quick:
        cases += poset_cases(run, 'C09', 5, 1, full=all_subsets_chain)
    cases += poset_cases(run, 'C09', 5, 2, limit=run.pick(400, None))
    cases += random_cases(run, 'C09', run.pick(300, 3000), 5, 14)
    cases += large_cases(run)
    cases += history_cases(run, 'C09', run.pick(200, 2000), 4, 10, 6, 24)
    run.validate(*OT, cases)


CHECKS = {k[6:]: v for k, v in list(globals().items()) if k[:7] == 'check_C'}
