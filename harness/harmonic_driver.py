'''Records harmonic numbers as fixed point numbers, see HarmonicTrace.tla.'''
import math
from fractions import Fraction
from base import run, guarded, BadResult
import numpy as np
from causets import calculations as calc

PRIMES = (46327, 46337)


def fixed(x):
    x = float(x)
    if not math.isfinite(x) or abs(x) > 1e5:
        raise BadResult('not finite')
    v = int(math.floor(Fraction(x) * 10 ** 16))
    return [v // 10 ** 16] + [v // 10 ** (4 * k) % 10 ** 4
                              for k in (3, 2, 1, 0)]


def residues(x):
    if not isinstance(x, (Fraction, int)):
        raise BadResult('not a fraction')
    x = Fraction(x)
    return [y for p in PRIMES for y in (x.numerator % p, x.denominator % p)]


def main(case):
    N, approx = case['N'], case['approx']
    out = {'id': case['id'], 'approx': approx or 100, 'err': '', 'scalar': [],
           'vector': [], 'frac': [], 'chains': []}
    kw = {} if approx is None else {'approximate': approx}
    typ = np.int64 if case['numpy'] else int

    def record():
        scalar = [fixed(calc.HarmonicNumber(typ(n), **kw))
                  for n in range(N + 1)]
        V = calc.HarmonicNumbers(N, **kw)
        if len(V) != N + 1:
            raise BadResult('length')
        vector = [fixed(x) for x in V]
        F = calc.HarmonicNumberFractions(N)
        if len(F) != N + 1:
            raise BadResult('length')
        fr = [residues(x) for x in F]
        if case['fractions']:
            fr = [residues(calc.HarmonicNumberFraction(n)) + fr[n]
                  for n in range(N + 1)]
        else:
            fr = [x + x for x in fr]
        # single values must be what the whole vector says
        for n in case['single']:
            W = calc.HarmonicNumbers(n, **kw)
            if len(W) != n + 1 or any(abs(W - V[:n + 1]) > 1e-12):
                raise BadResult('vectors of different length differ')
        chains = []
        for a in case['chains']:
            if a <= N:
                h = []
                n = a
                while n < 4 * 10 ** 15:
                    h.append(fixed(calc.HarmonicNumber(typ(n), **kw)))
                    n *= 2
                chains.append({'a': a, 'h': h})
        for a in case['vectors']:
            # a 2^j below a bound, read from the vector function
            big = calc.HarmonicNumbers(case['big'], **kw)
            h = []
            n = a
            while n <= case['big']:
                h.append(fixed(big[n]))
                n *= 2
            chains.append({'a': a, 'h': h})
        return scalar, vector, fr, chains
    r, out['err'] = guarded(record)
    if not out['err']:
        out['scalar'], out['vector'], out['frac'], out['chains'] = r
    return out


if __name__ == '__main__':
    run(main)
