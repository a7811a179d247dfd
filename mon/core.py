# encoding: utf-8
"""Driver of the runtime monitors: cases, verdicts, evidence, replay.

A property module defines

    PROP      property id
    RULE      how cases are made and when a case counts as non-trivial
    SCENARIOS list of (name, function(ctx)); case i runs scenario i % len
    QUICK, THOROUGH  number of cases per tier
    REQUIRED  names of monitor events which a conclusive run has to contain
              (optional; every scenario name is required anyway)

A scenario drives the real code in /repo and reports what it observes to
`ctx`.  `ctx.check`/`ctx.close` are the oracles.  A failing oracle -- or an
exception raised by the code under test on an input inside the documented
contract -- ends the case with a violation.
"""
from __future__ import division, print_function

import collections
import gc
import hashlib
import json
import os
import resource
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MPNUM_REPO', '/repo')
PYTHON = '/opt/venv/bin/python'


class Violation(Exception):
    pass


class NoResult(BaseException):
    """The case used up its CPU time"""


# CPU time per case.  Cases need a few seconds at most; a case which is still
# running after this time is reported as a non-terminating operation.
CASE_CPU_S = 240


# Memory per case.  Cases need some ten megabytes; one which takes more than
# this is reported like a non-terminating operation (and before the operating
# system ends the process).
CASE_MEMORY = 2 << 30


def resident():
    with open('/proc/self/statm') as f:
        return int(f.read().split()[1]) * resource.getpagesize()


class Watch(object):
    """Limits CPU time and memory of a case"""

    def __init__(self):
        signal.signal(signal.SIGPROF, self.look)

    def start(self):
        self.used, self.memory = time.process_time(), resident()
        signal.setitimer(signal.ITIMER_PROF, .5, .5)

    def stop(self):
        signal.setitimer(signal.ITIMER_PROF, 0)

    def look(self, signum, frame):
        if time.process_time() - self.used > CASE_CPU_S:
            raise NoResult('{} s of CPU time'.format(CASE_CPU_S))
        if resident() - self.memory > CASE_MEMORY:
            gc.collect()
            if resident() - self.memory > CASE_MEMORY:
                raise NoResult('{} MB of memory'.format(CASE_MEMORY >> 20))


class Inconclusive(Exception):
    """The case could not be judged (e.g. ill-conditioned input)"""


def stable_seed(*parts):
    digest = hashlib.sha256(repr(parts).encode('utf8')).digest()
    return int.from_bytes(digest[:4], 'little')


class Ctx(object):
    """One case: source of randomness, event log and oracle"""

    def __init__(self, prop, seed, case, tier, known=()):
        import numpy as np
        self.np = np
        self.prop, self.seed, self.case, self.tier = prop, seed, case, tier
        self.rng = np.random.RandomState(stable_seed(prop, seed, case))
        self.events = collections.Counter()
        self.log = []
        self.sig = []
        self.known_keys = known
        self.known_hits = collections.OrderedDict()
        self.nontrivial = False
        # Some cases use numpy integers throughout
        self.numpy_ints = stable_seed(prop, seed, case, 'int') % 8 == 0
        if self.numpy_ints:
            self.event('numpy_ints')
        self.thorough = tier == 'thorough'

    # -- random choices --------------------------------------------------
    def randint(self, lo, hi):
        """Integer in [lo, hi] (both included)"""
        x = int(self.rng.randint(lo, hi + 1))
        return self.np.int64(x) if self.numpy_ints else x

    def chance(self, p):
        return self.rng.rand() < p

    def pick(self, seq):
        seq = list(seq)
        return seq[int(self.rng.randint(len(seq)))]

    # -- event log -------------------------------------------------------
    def event(self, name, n=1):
        self.events[name] += int(n)

    def note(self, **kw):
        self.log.append(kw)

    def signature(self, *parts):
        """Add to the description of the case (for counting distinct cases)"""
        self.sig.append(repr(parts))

    # -- oracles ---------------------------------------------------------
    def fail(self, msg, **info):
        raise Violation(msg + (' ' + repr(info) if info else ''))

    def check(self, cond, msg, **info):
        self.events['checks'] += 1
        if not cond:
            self.fail(msg, **info)

    def close(self, got, ref, msg, scale=0.0, rtol=1e-8, atol=0.0, **info):
        """max |got - ref| <= rtol * max(scale, max |ref|) + atol"""
        np = self.np
        self.events['checks'] += 1
        got, ref = np.asarray(got), np.asarray(ref)
        if got.shape != ref.shape:
            self.fail(msg + ': shape differs', got=got.shape, expected=ref.shape,
                      **info)
        if ref.size == 0:
            return
        if not np.isfinite(got).all():
            if np.isfinite(ref).all():
                self.fail(msg + ': not finite', **info)
            raise Inconclusive('reference not finite')
        err = float(abs(got - ref).max())
        mag = float(abs(ref).max())
        if not err <= rtol * max(scale, mag) + atol:
            self.fail(msg, err=err, magnitude=mag, scale=float(scale), **info)

    def raises(self, exc, fun, msg, **info):
        """`fun` must refuse its input with one of the exceptions `exc`"""
        self.events['checks'] += 1
        try:
            fun()
        except exc:
            self.event('refusals')
            return
        self.fail(msg + ': accepted', **info)

    def known(self, key, msg):
        """A deviation with the given mechanism key has been observed"""
        if key in self.known_keys:
            self.known_hits[key] = msg
        else:
            self.fail(msg, finding=key)


def load_known():
    """Keys of known findings per property: {prop: {key: text}}"""
    known = collections.defaultdict(dict)
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith('finding:'):
                    fields = dict(w.split('=', 1) for w in line.split()[1:3])
                    known[fields['property']][fields['key']] = line
    return known


def prepare_process():
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    warnings.simplefilter('ignore')
    import numpy as np
    np.seterr(all='ignore')
    import mpnum
    where = os.path.realpath(mpnum.__file__)
    assert where.startswith(os.path.realpath(REPO) + os.sep), where


def run_case(mod, seed, case, tier, known):
    """Run one case; returns (status, ctx, message)"""
    import numpy as np
    name, fun = mod.SCENARIOS[case % len(mod.SCENARIOS)]
    ctx = Ctx(mod.PROP, seed, case, tier, known)
    ctx.scenario = name
    ctx.signature(name)
    np.random.seed(stable_seed('global', mod.PROP, seed, case))
    try:
        fun(ctx)
    except NoResult as e:
        return 'violation', ctx, 'no result within {}\n{}'.format(
            e, traceback.format_exc()[-2500:])
    except Inconclusive as e:
        return 'inconclusive', ctx, str(e)
    except Violation as e:
        return 'violation', ctx, str(e)
    except Exception as e:   # the code under test failed on a valid input
        if isinstance(e, MemoryError):
            return 'inconclusive', ctx, 'memory'
        return 'violation', ctx, 'unexpected {}: {}\n{}'.format(
            type(e).__name__, e, traceback.format_exc()[-2500:])
    ctx.event('scenario:' + name)
    return 'ok', ctx, ''


def worker(mod, seed, tier, index, of, n_cases, deadline, out):
    prepare_process()
    watch = Watch()
    known = load_known()[mod.PROP]
    events = collections.Counter()
    sigs = set()
    nontrivial = set()
    samples, violations, inconclusive, known_hits = [], [], [], {}
    n = 0

    def save():
        with open(out + '.new', 'w') as f:
            json.dump({'n': n, 'events': dict(events), 'sigs': sorted(sigs),
                       'nontrivial': sorted(nontrivial), 'samples': samples,
                       'violations': violations, 'inconclusive': inconclusive,
                       'known': known_hits}, f, default=repr)
        os.rename(out + '.new', out)

    for case in range(index, n_cases, of):
        if time.time() > deadline:
            events['stopped_by_time'] += 1
            break
        with open(out + '.case', 'w') as f:
            f.write(str(case))
        watch.start()
        status, ctx, msg = run_case(mod, seed, case, tier, known)
        watch.stop()
        n += 1
        events.update(ctx.events)
        known_hits.update(ctx.known_hits)
        sig = hashlib.md5('|'.join(ctx.sig).encode('utf8')).hexdigest()
        sigs.add(sig)
        if ctx.nontrivial and status != 'inconclusive':
            nontrivial.add(sig)
        if status == 'ok' and ctx.nontrivial and len(samples) < 2 \
                and (case // of) % 7 == index % 7:
            samples.append({'case': case, 'scenario': ctx.scenario,
                            'description': ctx.sig, 'log': ctx.log[:6]})
        if status == 'violation':
            violations.append({'case': case, 'scenario': ctx.scenario,
                               'message': msg, 'description': ctx.sig,
                               'log': ctx.log[-40:]})
            save()
            if len(violations) >= 3 or msg.startswith('no result within'):
                break
        elif status == 'inconclusive':
            inconclusive.append({'case': case, 'message': msg})
    save()


def child_env():
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
               OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1',
               LC_ALL='C.UTF-8')
    env.pop('PYTHONPATH', None)
    return env


def run_check(mod, tier, seed, n_workers=None, n_cases=None):
    t0 = time.time()
    n_cases = n_cases or (mod.THOROUGH if tier == 'thorough' else mod.QUICK)
    n_workers = n_workers or min(8, os.cpu_count() or 4, n_cases)
    # Generous watchdog: a run which stops here is still judged on what it saw.
    budget = 3000 if tier == 'thorough' else 420
    deadline = t0 + budget
    tmp = tempfile.mkdtemp(prefix='mpnum_mon_')
    try:
        procs = []
        for k in range(n_workers):
            out = os.path.join(tmp, 'w{}.json'.format(k))
            err = open(os.path.join(tmp, 'w{}.err'.format(k)), 'w')
            env = child_env()
            # Never use byte code left behind by an older working tree.
            env['PYTHONPYCACHEPREFIX'] = os.path.join(tmp, 'pyc')
            p = subprocess.Popen(
                [PYTHON, '-B', os.path.join(VERIF, 'mon', 'check.py'), mod.PROP,
                 '--worker', '{},{},{},{}'.format(k, n_workers, n_cases, deadline),
                 '--out', out, '--tier', tier, '--seed', str(seed)],
                stdout=err, stderr=err, env=env, cwd=tmp)
            procs.append((p, out, err))
        results, broken = [], []
        guards = [Guard(p.pid, out + '.case') for p, out, _ in procs]
        while any(p.poll() is None for p, _, _ in procs):
            time.sleep(.2)
            late = time.time() > deadline + 240
            for (p, out, _), guard in zip(procs, guards):
                if p.poll() is None and (guard.look() or late):
                    p.kill()
                    p.wait()
        for (p, out, err), guard in zip(procs, guards):
            err.close()
            if p.returncode != 0 or not os.path.exists(out):
                with open(err.name) as f:
                    broken.append('worker ended with {}: '.format(
                        p.returncode) + f.read()[-3000:])
                if p.returncode in CRASHES:
                    again = repeat(mod, tier, seed, out + '.case', tmp)
                    if again and again[1] in CRASHES:
                        results.append(lost(again[0], 'the interpreter crashes'
                                            ' (signal {})'.format(-again[1])))
                elif guard.why == 'time':
                    results.append(lost(guard.case, 'no result within {} s of '
                                        'CPU time'.format(CASE_CPU_S)))
                elif guard.why == 'memory':
                    again = repeat(mod, tier, seed, out + '.case', tmp)
                    if again and again[1] == 'memory':
                        results.append(lost(again[0], 'no result within {} MB '
                                            'of memory'.format(MEMORY >> 20)))
            if os.path.exists(out):
                # (also what an interrupted worker has already seen)
                with open(out) as f:
                    results.append(json.load(f))
        return finish(mod, tier, seed, results, broken, time.time() - t0, n_cases)
    finally:
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)


CRASHES = tuple(-getattr(signal, x) for x in (
    'SIGSEGV', 'SIGABRT', 'SIGFPE', 'SIGBUS', 'SIGILL'))


# Limits for operations which do not come back to the interpreter loop, seen
# from outside of the process
MEMORY = 3300 << 20


class Guard(object):
    def __init__(self, pid, path=None):
        self.pid, self.path = pid, path
        self.case, self.begin, self.why = None, 0., None

    def look(self):
        """True if the process has to be ended"""
        try:
            with open('/proc/{}/statm'.format(self.pid)) as f:
                memory = int(f.read().split()[1]) * resource.getpagesize()
            with open('/proc/{}/stat'.format(self.pid)) as f:
                stat = f.read().rsplit(')', 1)[1].split()
            cpu = (int(stat[11]) + int(stat[12])) / os.sysconf('SC_CLK_TCK')
            if self.path is not None:
                with open(self.path) as f:
                    case = int(f.read())
                if case != self.case:
                    self.case, self.begin = case, cpu
        except (OSError, IOError, ValueError, IndexError):
            return False
        if memory > MEMORY:
            self.why = 'memory'
        elif cpu - self.begin > CASE_CPU_S + 20:
            self.why = 'time'
        return self.why is not None


def repeat(mod, tier, seed, path, cwd):
    """Run a case again which ended the interpreter; (case, how it ended)"""
    try:
        with open(path) as f:
            case = int(f.read())
        env = child_env()
        env['PYTHONPYCACHEPREFIX'] = os.path.join(cwd, 'pyc')
        p = subprocess.Popen(
            [PYTHON, '-B', os.path.join(VERIF, 'mon', 'check.py'), mod.PROP,
             '--one', str(case), '--tier', tier, '--seed', str(seed)],
            stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env,
            cwd=cwd)
    except (OSError, IOError, ValueError):
        return None
    guard, end = Guard(p.pid), time.time() + 100
    while p.poll() is None:
        time.sleep(.05)
        if guard.look() or time.time() > end:
            p.kill()
            p.wait()
            return case, guard.why
    return case, p.returncode


def lost(case, message):
    return {'n': 1, 'events': {}, 'sigs': [], 'nontrivial': [], 'samples': [],
            'inconclusive': [], 'known': {}, 'violations': [{
                'case': case, 'scenario': '', 'description': [], 'log': [],
                'message': message}]}


def finish(mod, tier, seed, results, broken, wall, n_cases):
    events = collections.Counter()
    sigs, nontrivial = set(), set()
    samples, violations, inconclusive, known = [], [], [], {}
    n = 0
    for r in results:
        n += r['n']
        events.update(r['events'])
        sigs.update(r['sigs'])
        nontrivial.update(r['nontrivial'])
        samples += r['samples']
        violations += r['violations']
        inconclusive += r['inconclusive']
        known.update(r['known'])
    violations.sort(key=lambda v: v['case'])
    evdir = os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    required = ['scenario:' + name for name, _ in mod.SCENARIOS]
    required += list(getattr(mod, 'REQUIRED', ()))
    if getattr(mod, 'SCENARIOS_OPTIONAL', None):
        required = [r for r in required if r[9:] not in mod.SCENARIOS_OPTIONAL]
    missing = [r for r in required if events[r] == 0]
    evidence = {
        'property': mod.PROP, 'tier': tier, 'seed': seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': n,
            'distinct_nontrivial': len(nontrivial),
            'rule': mod.RULE,
            'samples': samples[:6],
            'distinct_cases': len(sigs),
            'oracle_checks': events['checks'],
            'monitor_events': {k: v for k, v in sorted(events.items())},
            'inconclusive_cases': len(inconclusive),
            'inconclusive_examples': inconclusive[:3],
            'monitors_not_reached': missing,
            'known_findings_seen': sorted(known),
            'violation_messages': [v['message'][:400] for v in violations[:3]],
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(wall, 2),
        'violations': len(violations),
    }
    with open(os.path.join(evdir, mod.PROP + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, default=repr, sort_keys=True)
        f.write('\n')
    for key in sorted(known):
        print('KNOWN-FINDING: property={} {}: {}'.format(
            mod.PROP, key, known[key]))
    print('{}: {} cases, {} distinct non-trivial, {} oracle checks, '
          '{} inconclusive, {:.1f} s'.format(
              mod.PROP, n, len(nontrivial), events['checks'],
              len(inconclusive), wall))
    if violations:
        v = violations[0]
        rdir = os.path.join(evdir, 'replay')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '{}_{}_{}.json'.format(
            mod.PROP, seed, v['case']))
        with open(path, 'w') as f:
            json.dump({'property': mod.PROP, 'seed': seed, 'tier': tier,
                       'violations': violations}, f, indent=1, default=repr)
        print('  scenario {} case {}: {}'.format(
            v['scenario'], v['case'], v['message'][:2500]))
        print('VIOLATION property={} replay={}'.format(mod.PROP, path))
        return 1
    if broken:
        print('check broken: ' + broken[0])
        return 3
    if missing or n == 0 or len(inconclusive) > 0.2 * n:
        print('INCONCLUSIVE: monitors not reached: {}; {} of {} cases '
              'inconclusive'.format(missing, len(inconclusive), n))
        return 4
    return 0


def replay(mod, path):
    with open(path) as f:
        data = json.load(f)
    prepare_process()
    known = load_known()[mod.PROP]
    rc = 0
    for v in data['violations']:
        status, ctx, msg = run_case(mod, data['seed'], v['case'],
                                    data['tier'], known)
        print(v['case'], status, msg)
        print('  case:', ctx.sig)
        for entry in ctx.log:
            print('   ', entry)
        rc = max(rc, int(status == 'violation'))
    return rc
