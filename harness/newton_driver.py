'''
Runs NewtonsMethod on the problems of Newton.tla.
'''
import math
from base import run, guarded, BadResult
from causets.calculations import NewtonsMethod


def table(case):
    q = case['q']
    lo, hi, y = q['lo'], q['hi'], case['y']
    asked = []

    def at(x):
        k = int(round(x))
        if abs(x - k) > 1e-6:
            raise BadResult('asked between the places: %r' % x)
        asked.append(k)
        return k

    def fprime(x):
        k = at(x)
        return float(q['fd'][k - lo]) if lo <= k <= hi else 1.0

    def f(x):
        k = at(x)
        step = k - lo if k < lo else k - hi if k > hi else q['step'][k - lo]
        return fprime(x) * step + y
    kw = {}
    if q['hasmin']:
        kw['xmin'] = float(q['xmin'])
    if q['hasmax']:
        kw['xmax'] = float(q['xmax'])
    if y or case['kw']:
        kw['y'] = float(y)
    r = NewtonsMethod(f, fprime, float(q['x0']), precission=float(q['p']),
                      maxIterations=q['n'], default=float(q['dflt']), **kw)
    r = float(r) * 2
    if not math.isfinite(r) or abs(r - round(r)) > 1e-6:
        raise BadResult('result %r' % r)
    # after the start no place beyond the limits is asked for
    a, b = q['xmin'] + q['p'], q['xmax'] - q['p']
    kept = all(x == q['x0'] or ((not q['hasmin'] or x >= a) and
                                (not q['hasmax'] or x <= b))
               for x in asked) or (q['hasmin'] and q['hasmax'] and a > b)
    return int(round(r)), kept


def power(case):
    e, r, m = case['e'], case['r'], case['m']
    kw = {}
    if case['lim']:
        kw = {'xmin': 0.0, 'xmax': 2.0 * r}
    x = NewtonsMethod(lambda x: m * x ** e, lambda x: m * e * x ** (e - 1),
                      case['x0'] * r, y=m * float(r) ** e, **kw)
    x = float(x)
    if not math.isfinite(x) or abs(x) > 2000:
        raise BadResult('result %r' % x)
    return int(round(x * 10**6)), True


def main(case):
    r, err = guarded(lambda: table(case) if case['op'] == 'table'
                     else power(case))
    return dict(case, err=err, res=0 if err else r[0],
                kept=True if err else r[1])


if __name__ == '__main__':
    run(main)
