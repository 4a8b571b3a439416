'''
Common machinery of all checks: running TLC, driving the real code, validating
the recorded behaviours with a trace specification, reporting.
'''
import concurrent.futures as cf
import itertools
import json
import os
import random
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import threading
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, 'spec')
HARNESS = os.path.join(ROOT, 'harness')
OUT = os.environ.get('VERIF_OUT', os.path.join(ROOT, 'out'))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
TLAJARS = '/opt/veriftools/tla/tla2tools.jar:' \
    '/opt/veriftools/tla/CommunityModules-deps.jar'
SHARDS = int(os.environ.get('VERIF_SHARDS') or min(8, os.cpu_count() or 1))


class CheckError(Exception):
    '''The check itself failed; never reported as a violation.'''


class Case(dict):
    pass


class Run(object):

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier != 'thorough'
        self.start = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.steps = 0
        self.models = []       # model checking runs
        self.bads = []         # (Case, driver, trace module, bad record)
        self.samples = []
        self.notes = {}
        self.assumptions = []
        self.known = load_known(prop)
        self.known_hit = {}
        self.lock = threading.Lock()
        self.tmp = tempfile.mkdtemp(prefix='verif-%s-' % prop)
        os.chmod(self.tmp, 0o755)
        self.imp = os.path.join(self.tmp, 'imp')
        os.mkdir(self.imp)
        os.symlink(REPO, os.path.join(self.imp, 'causets'))
        self.spec = os.path.join(self.tmp, 'spec')
        shutil.copytree(SPEC, self.spec)
        self.counter = itertools.count(1)

    def rng(self, *salt):
        return random.Random(json.dumps([self.seed, *salt]))

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    # -- TLC ----------------------------------------------------------------
    def tlc(self, module, cfg, env=None, workers=1, heap='2g', timeout=800,
            extra=(), seed=None):
        timeout *= self.pick(1, 4)
        k = next(self.counter)
        base = os.path.join(self.tmp, 'tlc%d' % k)
        os.mkdir(base)
        cfgfile = os.path.join(base, module + '.cfg')
        with open(cfgfile, 'w') as f:
            f.write(cfg)
        cmd = ['java', '-XX:+UseSerialGC' if workers == 1 else
               '-XX:+UseParallelGC', '-Xss64m', '-Xmx' + heap,
               '-Djava.io.tmpdir=' + base,
               '-cp', TLAJARS, 'tlc2.TLC', '-nowarning', '-config', cfgfile,
               '-metadir', os.path.join(base, 'meta'), '-deadlock',
               '-workers', str(workers)]
        if seed is not None:
            cmd += ['-seed', str(seed)]
        cmd += list(extra) + [os.path.join(self.spec, module + '.tla')]
        e = dict(os.environ)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=self.spec, env=e, text=True,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               timeout=timeout, preexec_fn=die_with_parent)
        except subprocess.TimeoutExpired:
            raise CheckError('TLC timed out: ' + module)
        finally:
            shutil.rmtree(base, ignore_errors=True)
        return p.returncode, p.stdout, p.stderr

    def count(self, out):
        m = re.findall(r'(\d+) states generated, (\d+) distinct', out)
        if not m:
            m = re.findall(r'(\d+) states generated', out)
            return (int(m[-1]), 0) if m else (0, 0)
        return int(m[-1][0]), int(m[-1][1])

    def model_check(self, module, cfg, what, workers=None, heap='6g',
                    timeout=800, extra=()):
        '''Checks the specification itself. A failure is an error of ours.'''
        t = time.time()
        rc, out, err = self.tlc(module, cfg, workers=workers or SHARDS,
                                heap=heap, timeout=timeout, extra=extra)
        gen, dist = self.count(out)
        if rc != 0 or 'No error has been found' not in out:
            raise CheckError('model checking of %s failed (%d)\n%s\n%s' %
                             (module, rc, out[-3000:], err[-1000:]))
        with self.lock:
            self.states += dist
            self.transitions += gen
            self.models.append({'module': module, 'what': what,
                                'distinct_states': dist, 'generated': gen,
                                'wall_s': round(time.time() - t, 1)})

    def generate(self, module, cfg, tag, what, workers=1, heap='4g',
                 timeout=800, extra=(), seed=None, ok_rc=(0,)):
        '''Collects the values printed as "TAG json" by a specification.'''
        t = time.time()
        rc, out, err = self.tlc(module, cfg, workers=workers, heap=heap,
                                timeout=timeout, extra=extra, seed=seed)
        if rc not in ok_rc:
            raise CheckError('generation with %s failed (%d)\n%s\n%s' %
                             (module, rc, out[-3000:], err[-1000:]))
        vals = [json.loads(s[len(tag) + 1:]) for s in printed(out)
                if s.startswith(tag + ' ')]
        gen, dist = self.count(out)
        with self.lock:
            self.states += dist
            self.transitions += gen
            self.models.append({'module': module, 'what': what,
                                'distinct_states': dist, 'generated': gen,
                                'behaviours': len(vals),
                                'wall_s': round(time.time() - t, 1)})
        return vals

    # -- real code ----------------------------------------------------------
    def drive(self, driver, src, dst, env=None, timeout=600):
        timeout *= self.pick(1, 4)
        e = {k: v for k, v in os.environ.items()
             if not k.startswith('PYTHON')}
        e.update({'PYTHONPATH': self.imp + ':' + HARNESS,
                  'PYTHONDONTWRITEBYTECODE': '1', 'MPLBACKEND': 'Agg',
                  'PYTHONHASHSEED': str(self.seed % 1000), 'OMP_NUM_THREADS':
                  '1', 'OPENBLAS_NUM_THREADS': '1', 'PYTHONWARNINGS': 'ignore',
                  'MPLCONFIGDIR': os.path.join(self.tmp, 'mpl'),
                  'HOME': self.tmp,
                  'VERIF_SCRATCH': self.tmp})
        e.update(env or {})

        def limits():
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            os.umask(0o022)
            die_with_parent()
        try:
            p = subprocess.run([PY, os.path.join(HARNESS, driver + '.py'),
                                src, dst], env=e, cwd=self.tmp, text=True,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               timeout=timeout, preexec_fn=limits)
        except subprocess.TimeoutExpired:
            raise CheckError('driver timed out: ' + driver)
        if p.returncode != 0:
            raise CheckError('driver %s failed (%d)\n%s' %
                             (driver, p.returncode, p.stderr[-3000:]))

    def validate(self, driver, module, cases, cfg=None, env=None, heap='3g',
                 shards=None, timeout=800):
        '''
        Runs the cases on the real code and validates the recorded behaviours
        with the trace specification. Collects BAD records.
        '''
        cases = list(cases)
        if not cases:
            return
        shards = max(1, min(shards or SHARDS, len(cases) // 8 + 1))
        for k, c in enumerate(cases):
            c['id'] = 'c%d' % k
        parts = [cases[k::shards] for k in range(shards)]
        stamp = next(self.counter)

        def work(k):
            src = os.path.join(self.tmp, 'in%d-%d.ndjson' % (stamp, k))
            dst = os.path.join(self.tmp, 'tr%d-%d.ndjson' % (stamp, k))
            with open(src, 'w') as f:
                for c in parts[k]:
                    f.write(json.dumps(c, separators=(',', ':')) + '\n')
            self.drive(driver, src, dst, env)
            bads, pre, total, gen, dist = [], [], 0, 0, 0
            while True:
                n = sum(1 for _ in open(dst))
                rc, out, err = self.tlc(module, cfg or 'SPECIFICATION Spec\n',
                                        env={'TRACE': dst}, heap=heap,
                                        timeout=timeout)
                lines = printed(out)
                pre += [s for s in lines if s.startswith('PRE ')]
                bads += [json.loads(s[4:]) for s in lines
                         if s.startswith('BAD ')]
                g, d = self.count(out)
                gen, dist = gen + g, dist + d
                if rc == 0 and 'DONE %d' % n in lines and n:
                    total += n
                    break
                # A recorded result that has not even the form that the
                # specification can be evaluated on: go on with the others.
                k = undefined(out)
                if not k or k > n:
                    total = -1
                    break
                with open(dst) as f:
                    rest = f.readlines()
                bads.append({'id': json.loads(rest[k - 1])['id'],
                             'malformed': reason(out)})
                total += k
                if k == n or sum('malformed' in b for b in bads) >= 3:
                    break
                with open(dst, 'w') as f:
                    f.writelines(rest[k:])
            if total < 0:
                keep = os.path.join(OUT, 'failed-%s.ndjson' % self.prop)
                os.makedirs(OUT, exist_ok=True)
                shutil.copy(dst, keep)
                raise CheckError('trace validation with %s failed (%d), '
                                 'trace %s\n%s\n%s' %
                                 (module, rc, keep, out[-3000:], err[-1000:]))
            os.remove(src)
            os.remove(dst)
            return total, gen, dist, bads, pre
        with cf.ThreadPoolExecutor(shards) as ex:
            res = list(ex.map(work, range(shards)))
        byid = {c['id']: c for c in cases}
        pre = [s for r in res for s in r[4]]
        if pre and not any(r[3] for r in res):
            # Without a contradicted clause that could explain it, the
            # generated calls are at fault.
            raise CheckError('behaviour outside the specification: %s %s'
                             % (pre[0], module))
        for n, gen, dist, bads, _ in res:
            self.traces += n
            self.states += dist
            self.transitions += gen
            for b in bads:
                self.bads.append((byid[b['id']], driver, module, b))
        for c in cases[:1] + cases[len(cases) // 2:len(cases) // 2 + 1]:
            if len(self.samples) < 6:
                self.samples.append(shorten(c))

    # -- verdict ------------------------------------------------------------
    def finish(self, clauses):
        '''
        clauses(case, driver, bad) -> iterable of (property, key, text) of the
        properties that a BAD record contradicts.
        '''
        found = {}
        other = {}
        for case, driver, module, bad in self.bads:
            if 'malformed' in bad:
                named = [(self.prop, 'malformed ' + module,
                          'a recorded result has no meaning in %s: %s'
                          % (module, bad['malformed']))]
            else:
                named = clauses(case, driver, bad)
            for prop, key, text in named:
                if prop != self.prop:
                    other[prop] = other.get(prop, 0) + 1
                    continue
                size = len(json.dumps(case))
                k = self.is_known(key, case, bad)
                if k is not None:
                    self.known_hit[k] = self.known_hit.get(k, 0) + 1
                elif key not in found or size < found[key][0]:
                    found[key] = (size, case, driver, module, bad, text)
        for k in self.known:
            if k['kind'] == 'finding':
                print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        code = 0
        n = 0
        for key in sorted(found):
            size, case, driver, module, bad, text = found[key]
            n += 1
            if n <= 5:
                path = self.replay_file(n, case, driver, module, bad, text)
                print('VIOLATION property=%s replay=%s' % (self.prop, path))
                print('  ' + text)
            code = 1
        if n > 5:
            print('  ... and %d further kinds of violation' % (n - 5))
        self.evidence(n, other)
        print('%s %s: %d states, %d traces, %d kinds of violation, %.1f s' %
              (self.prop, self.tier, self.states, self.traces, n,
               time.time() - self.start))
        return code

    def is_known(self, key, case, bad):
        for i, k in enumerate(self.known):
            if k['kind'] == 'finding' and k.get('key') == key:
                return i
        return None

    def replay_file(self, n, case, driver, module, bad, text):
        d = os.path.join(OUT, 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%d.json' % (self.prop, n))
        c = dict(case)
        if 'step' in bad and isinstance(c.get('steps'), list):
            c['steps'] = c['steps'][:bad['step']]
        with open(path, 'w') as f:
            json.dump({'property': self.prop, 'driver': driver,
                       'module': module, 'bad': bad, 'text': text,
                       'case': c}, f, indent=1)
        return path

    def evidence(self, violations, other):
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces,
               'samples': self.samples or [self.models],
               'model_runs': self.models}
        cov.update(self.notes)
        if other:
            cov['clauses_of_other_properties_contradicted'] = other
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed,
              'level': 'model_checking', 'coverage': cov,
              'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.start, 2),
              'violations': violations}
        d = os.path.join(ROOT if 'VERIF_OUT' not in os.environ else OUT,
                         'evidence')
        os.makedirs(d, exist_ok=True)
        fn = os.path.join(d, self.prop + '.json')
        with open(fn + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(fn + '.tmp', fn)


def undefined(out):
    '''the number of the case that TLC could not evaluate, or 0'''
    if 'The behavior up to this point is' not in out or \
            'OutOfMemory' in out or 'StackOverflow' in out:
        return 0
    k = re.findall(r'^(?:/\\ )?ci = (\d+)$', out, re.M)
    return int(k[-1]) if k else 0


def reason(out):
    m = re.search(r'(Attempted to [^\n]*|Reason:\n[^\n]*)', out)
    return ' '.join(m.group(1).split())[:200] if m else 'not defined'


def printed(out):
    '''The strings printed with PrintT.'''
    r = []
    for line in out.splitlines():
        if line.startswith('"') and line.endswith('"'):
            try:
                r.append(json.loads(line))
            except ValueError:
                pass
    return r


def shorten(c, limit=1500):
    s = json.dumps(c, separators=(',', ':'))
    return c if len(s) <= limit else s[:limit] + '...'


def load_known(prop):
    '''
    known_findings.txt: lines "finding: property=<id> key=<clause> <what>" for
    defects that are reported but not repaired; "fixed: ..." lines suppress
    nothing.
    '''
    r = []
    try:
        with open(os.path.join(ROOT, 'known_findings.txt')) as f:
            for line in f:
                m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line)
                if m and m.group(1) == prop:
                    r.append({'kind': 'finding', 'key': m.group(2),
                              'what': m.group(3).strip()})
    except IOError:
        pass
    return r


def die_with_parent():
    import ctypes
    import signal
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)
