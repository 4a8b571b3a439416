'''
Common part of all drivers. Runs under the interpreter of the repository
(/opt/venv/bin/python) and talks to the real code only through its public
interface. The caller puts a directory with a link `causets -> /repo` first in
PYTHONPATH.
'''
import json
import math
import os
import random
import signal
import sys
import traceback


class Timeout(BaseException):
    pass


class BadResult(Exception):
    pass


def _alarm(*_):
    raise Timeout()


class cpu_limit(object):
    '''Limits the CPU time (not the wall time) of a block.'''

    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        signal.signal(signal.SIGVTALRM, _alarm)
        signal.setitimer(signal.ITIMER_VIRTUAL, self.seconds)

    def __exit__(self, *_):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        return False


def errname(ex):
    return type(ex).__name__


LIMIT = 10.0       # CPU seconds for one call
MAX_TIMEOUTS = 4   # later calls fail at once: the verdict is clear by then
_timeouts = [0]


def guarded(f, limit=LIMIT):
    '''(result, error name) of a call of the code under test'''
    if _timeouts[0] >= MAX_TIMEOUTS:
        return 0, 'Timeout'
    try:
        with cpu_limit(limit):
            return f(), ''
    except Timeout:
        _timeouts[0] += 1
        return 0, 'Timeout'
    except BadResult as ex:
        return 0, 'BadResult ' + str(ex)
    except RecursionError:
        return 0, 'RecursionError'
    except Exception as ex:
        return 0, errname(ex)


def patch_hash(cls, seed):
    '''
    Gives every instance a reproducible pseudo-random hash so that sets of
    them are iterated in orders that depend on the seed only. Identity
    comparison is left alone. Does nothing if the class has a hash of its own.
    '''
    if '__hash__' in cls.__dict__ or '__eq__' in cls.__dict__:
        return False
    rng = random.Random(seed)
    table = {}
    keep = []

    def _hash(self):
        h = table.get(id(self))
        if h is None:
            h = rng.getrandbits(16)
            table[id(self)] = h
            keep.append(self)  # ids must not be reused
        return h

    cls.__hash__ = _hash

    def reset(newseed):
        rng.seed(newseed)
        table.clear()
        del keep[:]
    return reset


def as_int(x):
    if isinstance(x, bool):
        raise BadResult('bool instead of int')
    try:
        i = int(x)
    except (OverflowError, ValueError, TypeError):
        raise BadResult('not an integer')
    if i != x:
        raise BadResult('not an integer')
    if abs(i) > 2000000000:
        raise BadResult('integer out of range')
    return i


def as_bool(x):
    if x is True or x is False or type(x).__name__ in ('bool_', 'bool'):
        return bool(x)
    raise BadResult('not a boolean: ' + type(x).__name__)


def run(main):
    '''main(case) -> recorded case; reads and writes ndjson files.'''
    src, dst = sys.argv[1], sys.argv[2]
    with open(src) as f, open(dst, 'w') as g:
        for line in f:
            line = line.strip()
            if line:
                g.write(json.dumps(main(json.loads(line)),
                                   separators=(',', ':')) + '\n')
