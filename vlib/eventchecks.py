'''
Checks of single events (C23), colours (C27) and harmonic numbers (C28).
'''
import json

# ---------------------------------------------------------------------------
# C23

EVENT_CFG = '''SPECIFICATION Spec
CONSTANTS
  N = %d
  Depth = %d
  Emit = %s
INVARIANTS TypeOK
PROPERTIES Frame Frozen Kept
'''


def event_history(rng):
    h = []
    n = 0
    originals = []

    def crd():
        return [rng.randint(-9, 9) for _ in range(rng.randint(1, 4))]
    for _ in range(rng.randint(4, 25)):
        op = rng.choice(['new', 'new', 'embed', 'embed', 'embed nothing',
                         'disembed', 'position', 'position', 'label', 'copy',
                         'copy', 'link', 'unlink', 'write'])
        if not n:
            op = 'new'
        lab = rng.choice(['n', 'i1', 'i12', 'i-3', 'sabc', 's', 'i0', 's1.5',
                          'f1.5', 'f-2.0'])
        pos = [rng.randint(-9, 9)
               for _ in range(rng.choice([2, 2, 2, 2, 0, 1, 3]))]
        if op == 'new':
            k = rng.randint(0, min(3, len(originals)))
            haspos = rng.random() < 0.5
            a = {'op': op, 'past': sorted(rng.sample(originals, k)),
                 'lab': lab, 'emb': rng.random() < 0.5, 'crd': crd(),
                 'haspos': haspos, 'pos': pos}
            if not (haspos and len(pos) != 2):
                n += 1
                originals.append(n)
        else:
            e = rng.randint(1, n)
            a = {'op': op, 'e': e}
            if op == 'embed':
                a.update({'crd': crd(), 'reembed': rng.random() < 0.4})
            elif op == 'embed nothing':
                a.update({'reembed': rng.random() < 0.5})
            elif op == 'position':
                a['pos'] = pos
            elif op == 'write':
                a.update({'what': rng.choice(['crd', 'pos', 'pos']),
                          'v': rng.randint(10, 15)})
            elif op == 'label':
                a['lab'] = lab
            elif op == 'copy':
                n += 1
            elif op in ('link', 'unlink'):
                a['e'] = rng.choice(originals)
        h.append(a)
    return h


def check_C23(run):
    rng = run.rng('C23')
    hist = run.generate('GenEvents', EVENT_CFG % (3, run.pick(3, 3), 'TRUE'),
                        'HIST', 'histories of single events')
    if len(hist) > run.pick(6000, 60000):
        hist = rng.sample(hist, run.pick(6000, 60000))
    # whether the written value shows is seen in the recording only
    cases = [{'steps': [{k: v for k, v in a.items() if k != 'took'}
                        for a in h], 'seed': rng.randint(0, 10 ** 6)}
             for h in hist]
    for _ in range(run.pick(800, 8000)):
        cases.append({'steps': event_history(rng),
                      'seed': rng.randint(0, 10 ** 6)})
    run.validate('event_driver', 'EventTrace', cases)


def clauses_C23(case, driver, bad):
    a = case['steps'][bad['step'] - 1]
    for c in bad['c']:
        yield 'C23', '%s/%s' % (a['op'], c), '%s after %s' % (
            c, json.dumps(case['steps'][:bad['step']])[-600:])


# ---------------------------------------------------------------------------
# C27

COLOUR_CFG = '''SPECIFICATION Spec
CONSTANTS
  Depth = %d
  Emit = %s
INVARIANTS TypeOK LastSet
PROPERTIES Passive
'''
KEYS = ['core', 'black', 'gray', 'grey', 'white', 'purple', 'blue', 'cyan',
        'green', 'lime', 'yellow', 'orange', 'red', 'pink', 'darkblue',
        'violet', 'navy', 'raspberry', 'nokey', '', 'cs:blue']
PLAIN = ['red', 'tab:blue', '#123456', 'k', 'blue', 'CORE', 'xcs:blue', 'none']
DRAWN = ['red', 'tab:blue', '#123456', 'k', 'lime', '#fedcba']
PARTS = ['links', 'linksedge', 'linksface', 'eventsedge', 'eventsface',
         'conesedge', 'conesface']
COMMON = KEYS[:14]


def colour(rng, drawn=False):
    if rng.random() < 0.7:
        return {'k': 'cs', 'v': rng.choice(COMMON if drawn else KEYS)}
    return {'k': 'plain', 'v': rng.choice(DRAWN if drawn else PLAIN)}


def colour_step(rng):
    name = rng.choice(['matplotlib', 'UniYork', 'ImperialLondon',
                       'ImperialLondon', 'UniYork', 'nonsense', 'uniyork'])
    op = rng.choice(['set', 'default', 'pick', 'get', 'color', 'dict', 'list',
                     'plot'])
    a = {'op': op}
    if op in ('set', 'pick'):
        a['name'] = name
    elif op == 'default':
        a['name'] = rng.choice([name, name, name, ''])
        a['def'] = {p: colour(rng, True) for p in
                    rng.sample(PARTS, rng.choice([0, 0, 1, 2, 7]))}
    elif op in ('color', 'dict', 'list'):
        a['name'] = rng.choice([name, '', ''])
        n = 1 if op == 'color' else rng.randint(0, 6)
        a['cs'] = [colour(rng) for _ in range(n)]
        if rng.random() < 0.6:
            a['cs'] = [c if c['k'] != 'cs' or c['v'] in COMMON else
                       {'k': 'cs', 'v': rng.choice(COMMON)} for c in a['cs']]
    elif op == 'plot':
        a['own'] = {p: colour(rng, True) for p in
                    rng.sample(PARTS, rng.choice([0, 0, 0, 1, 2]))}
        a['three'] = rng.random() < 0.4
        # the other dimension knows other parameters of a cone
        a['own'].pop('conesedge' if a['three'] else 'conesface', None)
    return a


def check_C27(run):
    rng = run.rng('C27')
    hist = run.generate('GenColours', COLOUR_CFG % (run.pick(2, 3), 'TRUE'),
                        'HIST', 'histories of colour schemes')
    hist = [h for h in hist if h]
    if len(hist) > run.pick(1500, 20000):
        hist = rng.sample(hist, run.pick(1500, 20000))
    rng.shuffle(hist)
    cases = []
    for i in range(0, len(hist), 10):
        steps = []
        for h in hist[i:i + 10]:
            # every history starts from the first scheme
            steps.append({'op': 'default', 'name': 'matplotlib', 'def': {
                p: {'k': 'cs', 'v': v} for p, v in zip(
                    PARTS, ['blue', 'blue', 'cyan', 'black', 'core', 'yellow',
                            'yellow'])}})
            for a in h:
                a = dict(a)
                for k in ('own', 'def'):
                    if k in a and not a[k]:
                        a[k] = {}
                if a['op'] == 'plot' and rng.random() < 0.3:
                    a['three'] = True
                steps.append(a)
        cases.append({'steps': steps})
    for _ in range(run.pick(150, 1500)):
        cases.append({'steps': [colour_step(rng) for _ in range(12)]})
    run.validate('colour_driver', 'ColourTrace', cases)


def clauses_C27(case, driver, bad):
    a = case['steps'][bad['step'] - 1]
    for c in bad['c']:
        yield 'C27', '%s/%s' % ('table' if c[:6] in ('scheme', 'colour')
                                and ' ' in c else a['op'], c), \
            '%s after %s' % (c, json.dumps(case['steps'][:bad['step']])[-600:])


# ---------------------------------------------------------------------------
# C28

def check_C28(run):
    rng = run.rng('C28')
    N = run.pick(700, 2000)
    cases = []
    for approx in [None, 100, 20, 21, 50, 64, 128, 256, 500, 1000, 5000,
                   rng.randint(20, 100), rng.randint(100, 700)]:
        for typ in (False, True):
            first = approx is None
            n = N if not first else run.pick(1500, 2000)
            # the doubling step is exact enough from 1000 on
            chain = [1000, 1024, 1250, 1500] if n > 1000 else []
            cases.append({'N': n, 'approx': approx, 'numpy': typ,
                          'fractions': first and not typ,
                          'single': [0, 1, 2, 19, 20, 21, 99, 100, 101,
                                     rng.randint(0, n)],
                          'chains': chain,
                          'vectors': [1000, 1024] if chain else [],
                          'big': run.pick(300000, 1100000)})
    for n in (0, 1, 2, 3):
        cases.append({'N': n, 'approx': rng.choice([None, 20, 100]),
                      'numpy': False, 'fractions': True, 'single': [0, n],
                      'chains': [], 'vectors': [], 'big': 1})
    run.validate('harmonic_driver', 'HarmonicTrace', cases)
    run.assumptions += ['the fractions are compared modulo two primes above '
                        '46000; a difference hides with probability 10^-9']


def clauses_C28(case, driver, bad):
    for c in bad['c']:
        yield 'C28', c, '%s at n=%s, approximate=%s' % (
            c, bad['step'], case['approx'])




# ---------------------------------------------------------------------------
# C31

NEWTON_CFG = '''SPECIFICATION Spec
CONSTANTS W = %d
  Emit = %s
INVARIANTS Restricted Bounded Rooted IsRoot
PROPERTY Ends
'''


def newton_problem(rng):
    w = rng.choice([3, 5, 8, 14])
    lo = rng.randint(-8, 2)
    n = w + 1
    return {'lo': lo, 'hi': lo + w,
            'step': [rng.choice([0, 1, -1, 2, -2, rng.randint(-w, w)])
                     for _ in range(n)],
            'fd': [rng.choice([1, -1, 2, 3, -5, 0 if rng.random() < 0.3
                               else 4]) for _ in range(n)],
            'x0': lo + rng.randint(0, w), 'p': rng.choice([1, 1, 2, 3]),
            'hasmin': rng.random() < 0.5, 'xmin': lo + rng.randint(-2, 2),
            'hasmax': rng.random() < 0.5, 'xmax': lo + w + rng.randint(-2, 2),
            'n': rng.choice([0, 1, 2, 3, 5, 10, 50]),
            'dflt': rng.choice([-99, 0, 77])}


def check_C31(run):
    rng = run.rng('C31')
    probs = run.generate('GenNewton', NEWTON_CFG % (1, 'TRUE'), 'PROB',
                         'all problems on two places: restriction, roots, '
                         'termination')
    if run.tier == 'thorough':
        run.model_check('GenNewton', NEWTON_CFG % (2, 'FALSE'),
                        'all problems on three places')
    probs += [newton_problem(rng) for _ in range(run.pick(8000, 80000))]
    cases = [{'op': 'table', 'q': q, 'y': rng.choice([0, 0, 5, -3]),
              'kw': rng.random() < 0.5} for q in probs]
    for e in (1, 2, 3):
        for r in range(1, 30):
            for x0 in (0.5, 0.9, 1.0, 1.6):
                cases.append({'op': 'power', 'e': e, 'r': r, 'x0': x0,
                              'm': rng.choice([1, -1, 0.1, -7]),
                              'lim': rng.random() < 0.5})
    run.validate('newton_driver', 'NewtonTrace', cases)
    run.assumptions += ['functions given at integer places, and powers']


def clauses_C31(case, driver, bad):
    for c in bad['c']:
        yield 'C31', '%s/%s' % (c, case['op']), '%s of %s' % (
            c, json.dumps(case))
