"""Common machinery of the checks: case generation, isolated parallel execution of the
real code, monitors, three-valued verdicts, evidence, replay files, known findings.

A property module (checks/<ID>_*.py) defines

  PROPERTY   the id
  RULE       evidence 'rule' text
  FAMILIES   {name: Family(gen, run, quick=N, thorough=M)}
             gen(rng) -> JSON-able spec ; run(spec, mon) executes it with monitors
  REQUIRED   {counter: minimum} counters that have to have been reached (else inconclusive)
  ASSUMPTIONS list of str

A monitor observation is mon.check(name, ok, detail) / mon.close(name, a, b, ...).
"""
import collections
import hashlib
import io
import json
import math
import multiprocessing
import os
import random
import signal
import sys
import time
import traceback
import warnings

import numpy as np

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get('PHASOR_REPO', '/repo'))


class Family(object):
    def __init__(self, gen, run, quick, thorough, timeout=120):
        self.gen = gen
        self.run = run
        self.quick = quick
        self.thorough = thorough
        self.timeout = timeout


class Rng(random.Random):
    """random.Random with the helpers the generators use; every draw is JSON-able."""

    def uni(self, a, b):
        return self.uniform(a, b)

    def log(self, a, b):
        return math.exp(self.uniform(math.log(a), math.log(b)))

    def slog(self, a, b):
        return self.log(a, b) * self.choice([-1, 1])

    def chance(self, p):
        return self.random() < p

    def cplx(self, mag=1.0):
        return [self.uniform(-mag, mag), self.uniform(-mag, mag)]

    def gaussl(self, n):
        return [self.gauss(0, 1) for _ in range(n)]


class CaseTimeout(Exception):
    pass


class Skip(Exception):
    """The case is outside the property's domain (counted, never a verdict)."""


class Monitor(object):
    """Collects observations of one case."""

    def __init__(self):
        self.counts = collections.Counter()
        self.violations = []
        self.maxdev = {}

    def event(self, name, n=1):
        self.counts[name] += n

    def check(self, name, ok, detail=''):
        self.counts['mon:' + name] += 1
        if not bool(ok):
            if callable(detail):
                detail = detail()
            self.violations.append((name, str(detail)[:1500]))
            return False
        return True

    def close(self, name, got, want, rtol=1e-6, atol=0.0, scale=None, detail='', key=None):
        """elementwise |got-want| <= atol + rtol*scale; scale defaults to max(|got|,|want|).
        NaN anywhere is a violation unless both are non-finite the same way."""
        g = np.asarray(got)
        w = np.asarray(want)
        try:
            g = g.astype(complex)
            w = w.astype(complex)
            g, w = np.broadcast_arrays(g, w)
        except Exception as E:
            return self.check(name, False, 'not numeric/broadcastable: {0!r} vs {1!r} ({2}) {3}'.format(
                _short(got), _short(want), E, detail))
        if scale is None:
            sc = np.maximum(abs(g), abs(w))
        else:
            sc = abs(np.asarray(scale)) + np.zeros(g.shape)
        with np.errstate(all='ignore'):
            dev = abs(g - w)
            lim = atol + rtol * sc
            ok = (dev <= lim) & np.isfinite(g) & np.isfinite(w)
            if ok.size and np.all(ok):
                rel = float(np.max(np.where(lim > 0, dev / np.where(lim > 0, lim, 1), 0)))
                if rel > self.maxdev.get(name, -1):
                    self.maxdev[name] = rel
        if ok.size == 0:
            return self.check(name, g.shape == w.shape, 'empty')
        if np.all(ok):
            self.counts['mon:' + name] += 1
            return True
        idx = np.unravel_index(int(np.argmax(~ok)), ok.shape) if ok.shape else ()
        return self.check(
            name, False,
            lambda: '{4} got {0!r} want {1!r} (tol {2:.3g}, at {3}) {5}'.format(
                complex(g[idx]), complex(w[idx]), float(np.broadcast_to(lim, g.shape)[idx]), idx,
                '' if key is None else key, detail() if callable(detail) else detail))


def _short(x):
    s = repr(x)
    return s if len(s) < 200 else s[:200] + '...'


def in_repo(tb):
    """does the traceback pass through the code under test?"""
    for fs in traceback.extract_tb(tb):
        if os.path.realpath(fs.filename).startswith(REPO + os.sep):
            return True
    return False


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(family, spec, timeout, mon=None):
    mon = mon or Monitor()
    out = io.StringIO()
    old = sys.stdout, sys.stderr
    status = 'ok'
    err = None
    np.random.seed(12345)
    random.seed(12345)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(timeout))
    t0 = time.time()
    try:
        sys.stdout = sys.stderr = out
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with np.errstate(all='ignore'):
                family.run(spec, mon)
    except CaseTimeout:
        status = 'timeout'
    except Skip as E:
        status = 'skip'
        mon.counts['skip:' + str(E)[:60]] += 1
        mon.violations = []
    except BaseException as E:
        if isinstance(E, (KeyboardInterrupt, SystemExit, MemoryError)):
            status = 'timeout'
        elif in_repo(E.__traceback__) or isinstance(E, RecursionError):
            # a workload that is valid on the documented interface ended in an exception
            status = 'crash'
            mon.violations.append((
                'no_exception',
                ''.join(traceback.format_exception_only(type(E), E)).strip()[:300] + ' @ ' + _where(E.__traceback__)))
        elif isinstance(E, (OSError, AssertionError, ImportError)):
            status = 'harness-error'
            err = traceback.format_exc()
        else:
            # the code under test handed back something a monitor cannot read (wrong type or
            # shape, missing entry): never happens on the interface the property is stated for
            status = 'crash'
            mon.violations.append((
                'readable_result',
                ''.join(traceback.format_exception_only(type(E), E)).strip()[:300] + ' @ ' + traceback.format_exc()[-600:]))
    finally:
        signal.alarm(0)
        sys.stdout, sys.stderr = old
    return status, mon, err, time.time() - t0


def _where(tb):
    fs = [f for f in traceback.extract_tb(tb) if os.path.realpath(f.filename).startswith(REPO + os.sep)]
    return ' <- '.join('{0}:{1}:{2}'.format(os.path.relpath(f.filename, REPO), f.lineno, f.name) for f in reversed(fs[-3:]))


def _worker(args):
    module, fam, specs, deadline = args
    import importlib
    mod = importlib.import_module(module)
    family = mod.FAMILIES[fam]
    res = []
    for i, spec in specs:
        if time.time() > deadline:
            res.append((fam, i, 'not-run', {}, [], {}, None, 0))
            continue
        status, mon, err, dt = run_case(family, spec, family.timeout)
        res.append((fam, i, status, dict(mon.counts), mon.violations[:8], mon.maxdev, err, dt))
    return res


def canonical(spec):
    return json.dumps(spec, sort_keys=True)


def known_findings(prop):
    """open findings of this property: list of {id, family, monitor, match, text}"""
    path = os.path.join(HERE, 'KNOWN_FINDINGS.json')
    try:
        data = json.load(open(path))
    except IOError:
        return []
    return [f for f in data.get('findings', []) if f['property'] == prop]


def main(module, prop, tier, seed, replay=None):
    import importlib
    t0 = time.time()
    mod = importlib.import_module(module)
    if replay:
        return do_replay(mod, prop, replay)

    budget = 400 if tier == 'quick' else 780
    deadline = t0 + budget
    jobs = []
    specs_by = {}
    nproc = int(os.environ.get('VERIF_JOBS', '0')) or min(8, os.cpu_count() or 1)
    for fam in sorted(mod.FAMILIES):
        family = mod.FAMILIES[fam]
        n = family.quick if tier == 'quick' else family.thorough
        specs = []
        for i in range(n):
            rng = Rng('{0}/{1}/{2}/{3}'.format(prop, fam, seed, i))
            specs.append((i, json.loads(json.dumps(family.gen(rng)))))
        specs_by[fam] = dict(specs)
        nchunk = max(1, min(len(specs), nproc * 6))
        for c in range(nchunk):
            part = specs[c::nchunk]
            if part:
                jobs.append((module, fam, part, deadline))

    results = []
    ctx = multiprocessing.get_context('fork')
    # interleave the families so that the budget, if it strikes, thins all of them
    jobs.sort(key=lambda j: (j[2][0][0], j[1]))
    pool = ctx.Pool(nproc, maxtasksperchild=8)
    try:
        it = pool.imap_unordered(_worker, jobs)
        for _ in range(len(jobs)):
            try:
                results.extend(it.next(timeout=max(1, deadline + 60 - time.time())))
            except multiprocessing.TimeoutError:
                break
    finally:
        pool.terminate()
        pool.join()
    return report(mod, prop, tier, seed, results, specs_by, time.time() - t0)


def report(mod, prop, tier, seed, results, specs_by, wall):
    counts = collections.Counter()
    by_status = collections.Counter()
    fam_counts = collections.defaultdict(collections.Counter)
    maxdev = {}
    viol = []
    errs = []
    nontrivial = set()
    samples = []
    for fam, i, status, cts, vs, mdev, err, dt in sorted(results, key=lambda r: (r[0], r[1])):
        by_status[status] += 1
        fam_counts[fam][status] += 1
        counts.update(cts)
        for k, v in mdev.items():
            maxdev[k] = max(v, maxdev.get(k, -1))
        nmon = sum(v for k, v in cts.items() if k.startswith('mon:'))
        if status in ('ok', 'crash') and nmon:
            spec = specs_by[fam][i]
            h = hashlib.sha1(canonical([fam, spec]).encode()).hexdigest()
            if h not in nontrivial and len([s for s in samples if s['family'] == fam]) < 1 and len(samples) < 8:
                s = canonical(spec)
                samples.append({'family': fam, 'index': i,
                                'spec': spec if len(s) < 3000 else s[:3000] + '...',
                                'observations': nmon})
            nontrivial.add(h)
        if err:
            errs.append((fam, i, err))
        for name, detail in vs:
            viol.append((fam, i, name, detail))

    kf = known_findings(prop)
    known_hit = collections.OrderedDict()
    fresh = []
    for v in viol:
        fam, i, name, detail = v
        hit = None
        for f in kf:
            if f.get('family') in (None, fam) and f['monitor'] == name and f.get('match', '') in detail:
                hit = f
                break
        if hit is not None:
            known_hit.setdefault(hit['id'], (hit, []))[1].append(v)
        else:
            fresh.append(v)

    evals = by_status['ok'] + by_status['crash']
    evdir = os.path.join(HERE, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    ev = {
        'property': prop,
        'tier': tier,
        'seed': seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': evals,
            'distinct_nontrivial': len(nontrivial),
            'rule': mod.RULE,
            'samples': samples or [{'none': True}],
            'families': {f: dict(c) for f, c in sorted(fam_counts.items())},
            'monitor_observations': {k[4:]: v for k, v in sorted(counts.items()) if k.startswith('mon:')},
            'events': {k: v for k, v in sorted(counts.items()) if not k.startswith('mon:')},
            'closest_pass_as_fraction_of_tolerance': {k: float('%.3g' % v) for k, v in sorted(maxdev.items())},
            'case_status': dict(by_status),
            'known_finding_hits': {k: len(v[1]) for k, v in known_hit.items()},
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(wall, 2),
        'violations': len(fresh),
    }
    with open(os.path.join(evdir, prop + '.json'), 'w') as F:
        json.dump(ev, F, indent=1, sort_keys=True)
        F.write('\n')

    for f in kf:
        print('KNOWN-FINDING: property={0} {1}'.format(prop, f['text']))

    if os.environ.get('VERIF_DEBUG'):
        for k, v in sorted(fam_counts.items()):
            print('  family', k, dict(v))
        tot = collections.Counter()
        for fam, i, status, cts, vs, mdev, err, dt in results:
            tot[fam] += dt
        print('  cpu', {k: round(v, 1) for k, v in tot.items()})
        for k, v in sorted(counts.items()):
            print('   ', k, v, round(maxdev.get(k[4:], -1), 5))
        for v in viol[:int(os.environ.get('VERIF_DEBUG'))]:
            print('  V', v)

    if fresh:
        seen = set()
        printed = 0
        repdir = os.path.join(evdir, 'replay')
        os.makedirs(repdir, exist_ok=True)
        for fam, i, name, detail in fresh:
            if (fam, name) in seen:
                continue
            seen.add((fam, name))
            path = os.path.join(repdir, '{0}-{1}-{2}.json'.format(prop, fam, i))
            with open(path, 'w') as F:
                json.dump({'property': prop, 'family': fam, 'index': i, 'seed': seed,
                           'monitor': name, 'detail': detail, 'spec': specs_by[fam][i]}, F, indent=1)
            print('  monitor {0} in family {1}, case {2}: {3}'.format(name, fam, i, detail[:600]))
            print('VIOLATION property={0} replay={1}'.format(prop, path))
            printed += 1
            if printed >= 10:
                break
        print('{0}: {1} violations over {2} executions'.format(prop, len(fresh), evals))
        return 1

    problems = []
    if errs:
        problems.append('harness error in {0} cases, first ({1} #{2}):\n{3}'.format(
            len(errs), errs[0][0], errs[0][1], errs[0][2]))
    for name, low in getattr(mod, 'REQUIRED', {}).items():
        if counts[name] < low:
            problems.append('monitor event {0} seen {1} < {2} times'.format(name, counts[name], low))
    lost = by_status['timeout'] + by_status['not-run']
    total = sum(len(s) for s in specs_by.values())
    if total and (len(results) - lost) < 0.5 * total:
        problems.append('only {0} of {1} cases finished'.format(len(results) - lost, total))
    if problems:
        print('INCONCLUSIVE property={0}'.format(prop))
        for p in problems:
            print('  ' + p)
        return 2
    print('{0} [{1}]: held on {2} executions ({3} distinct non-trivial), {4} monitor observations, {5:.1f} s'.format(
        prop, tier, evals, len(nontrivial), sum(v for k, v in counts.items() if k.startswith('mon:')), wall))
    return 0


def do_replay(mod, prop, replay):
    data = json.load(open(replay))
    family = mod.FAMILIES[data['family']]
    status, mon, err, dt = run_case(family, data['spec'], 600)
    print('replay', data['family'], status, dict(mon.counts))
    if err:
        print(err)
        return 2
    for name, detail in mon.violations:
        print('  ', name, detail)
    if mon.violations:
        print('VIOLATION property={0} replay={1}'.format(prop, replay))
        return 1
    return 0
