"""
Drives the suites of one check with Hypothesis, sharded over worker processes.

A suite is a Hypothesis strategy for *cases* (plain JSON-able data: arguments, or a list of
operations for a history) and a function run(case, info) that executes the case against the code in
/repo and raises Violation (or anything else) if the property does not hold. run() classifies its
case by calling info(...): info.nontrivial() marks it non-trivial, info.tag('x') counts classes.
A failing case is shrunk by Hypothesis and becomes the replay file.
"""
import hashlib
import importlib
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')     # only tools/ set this; registered commands use /repo
HYP = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
SHRINK_BUDGET = 45
WORKERS = 8


class Violation(AssertionError):
    """The property does not hold."""


class HarnessError(Exception):
    """Something is wrong with the harness or its environment; never a violation."""


def fail(msg, *args):
    raise Violation(msg + ''.join('\n    %s' % (a if isinstance(a, str) else repr(a)) for a in args))


def check(cond, msg, *args):
    if not cond:
        fail(msg, *args)


def same(got, want):
    """Strict deep equality: a bool is not a number, a str is not a number; int and float may mix."""
    if isinstance(got, bool) or isinstance(want, bool):
        return isinstance(got, bool) and isinstance(want, bool) and got == want
    if isinstance(got, dict) and isinstance(want, dict):
        return got.keys() == want.keys() and all(same(got[k], want[k]) for k in want)
    if isinstance(got, (list, tuple)) and isinstance(want, (list, tuple)):
        return len(got) == len(want) and all(same(a, b) for a, b in zip(got, want))
    return got == want


def eq(got, want, what):
    if not same(got, want):
        fail(what, 'got:  %r' % (got,), 'want: %r' % (want,))


class Suite:
    def __init__(self, name, strategy, run, quick, thorough=None, weight=None):
        self.name, self.strategy, self.run = name, strategy, run
        self.quick, self.thorough = quick, thorough or quick * 20


class Info:
    def __init__(self):
        self.is_nontrivial, self.tags = False, []

    def nontrivial(self, cond=True):
        self.is_nontrivial = self.is_nontrivial or bool(cond)

    def tag(self, *names):
        self.tags.extend(names)


def load(prop):
    for p in (REPO, ROOT):
        if p not in sys.path:
            sys.path.insert(0, p)
    if HYP not in sys.path:
        sys.path.append(HYP)
    import logging
    import warnings
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    # Silence the 'fingerprint' banners of the code under test
    return importlib.import_module('pbt.checks.%s' % prop.lower())


def _is_env_error(err):
    import errno
    if isinstance(err, (MemoryError, HarnessError)):
        return True
    return isinstance(err, OSError) and err.errno in (errno.EMFILE, errno.ENFILE, errno.ENOMEM,
                                                      errno.ENOSPC, errno.EADDRNOTAVAIL)


CASE_LIMIT = 90     # seconds; no case takes more than a few


class Hang(BaseException):
    """A case does not end. Not an Exception, so that the code under test does not swallow it."""


def _alarm(signum, frame):
    raise Hang('the case does not end')


def execute(suite, case):
    """Run one case; returns the Info. Exceptions propagate."""
    info = Info()
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_LIMIT, 10)
    try:
        suite.run(json.loads(json.dumps(case)), info)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return info


def describe(err):
    tb = traceback.extract_tb(err.__traceback__)
    where = [f for f in tb if f.filename.startswith(REPO)] or list(tb)
    loc = '%s:%s' % (where[-1].filename, where[-1].lineno) if where else '?'
    if isinstance(err, (Violation, Hang)):
        return str(err)
    return 'unexpected %s: %s (at %s)' % (type(err).__name__, err, loc)


def drive(suite, seed, n):
    """Search for a failing case. Returns a dict with the statistics and the failure, if any."""
    from hypothesis import given, settings, seed as hseed, HealthCheck, Phase, Verbosity
    from hypothesis import errors as herr
    st = dict(evaluations=0, nontrivial=set(), samples=[], tags={}, failure=None, unreproduced=0,
              unshrunk=0)
    last = {}

    @hseed(seed)
    @settings(max_examples=n, database=None, deadline=None, report_multiple_bugs=False,
              suppress_health_check=list(HealthCheck), print_blob=False, verbosity=Verbosity.quiet,
              phases=[Phase.generate, Phase.shrink], derandomize=False)
    @given(suite.strategy)
    def test(case):
        key = json.dumps(case, sort_keys=True)
        if last and time.monotonic() - last['t0'] > SHRINK_BUDGET and key != last['key']:
            return      # stop shrinking: only the case that we have counts
        try:
            info = execute(suite, case)
        except BaseException as err:
            if _is_env_error(err) or isinstance(err, (KeyboardInterrupt, SystemExit)):
                last['env'] = err
                raise
            if isinstance(err, (herr.StopTest, herr.UnsatisfiedAssumption)):
                raise
            if not last:
                last['t0'] = time.monotonic()
            last.update(case=case, key=key, msg=describe(err), tb=traceback.format_exc())
            raise
        if not last:
            st['evaluations'] += 1
            for t in set(info.tags):
                st['tags'][t] = st['tags'].get(t, 0) + 1
            if info.is_nontrivial:
                h = hashlib.blake2b(key.encode(), digest_size=8).digest()
                if h not in st['nontrivial'] and len(st['samples']) < 40:
                    st['samples'].append(case)
                st['nontrivial'].add(h)

    try:
        test()
    except BaseException as err:
        if 'env' in last:
            raise last['env']
        if not last.get('case') and 'key' not in last:
            raise HarnessError('hypothesis: %s: %s' % (type(err).__name__, err)) from err
        # Only believe a failure that can be reproduced
        for _ in range(4):
            try:
                execute(suite, last['case'])
            except BaseException as err2:
                if _is_env_error(err2):
                    raise
                st['failure'] = dict(suite=suite.name, case=last['case'], message=describe(err2),
                                     traceback=traceback.format_exc())
                break
        else:
            st['unreproduced'] += 1
            st['unrep_msg'] = last['msg'] + '\n' + last['tb']
    st['nontrivial'] = list(st['nontrivial'])
    return st


def _worker(prop, shard, seed, tier, only, conn):
    try:
        sys.stdout = open(os.devnull, 'w')
        mod = load(prop)
        results = {}
        for suite in mod.SUITES:
            if only and suite.name != only:
                continue
            n = suite.quick if tier == 'quick' else suite.thorough
            share = n // WORKERS + (1 if shard < n % WORKERS else 0)
            if not share:
                continue
            s = int.from_bytes(hashlib.blake2b(('%s/%s/%s/%s' % (prop, suite.name, seed, shard)).encode(),
                                               digest_size=6).digest(), 'big')
            t = time.time()
            results[suite.name] = r = drive(suite, s, share)
            for i in range(1, 4):
                if not r['unreproduced'] or r['failure'] or r['evaluations'] >= share:
                    break
                # the search ended early because of a failure that cannot be reproduced: go on with other cases
                r2 = drive(suite, s + i, share - r['evaluations'])
                for k in ('evaluations', 'unreproduced', 'unshrunk'):
                    r[k] += r2[k]
                r['nontrivial'] = list(set(r['nontrivial']) | set(r2['nontrivial']))
                r['samples'] += r2['samples']
                for k, v in r2['tags'].items():
                    r['tags'][k] = r['tags'].get(k, 0) + v
                r['failure'] = r2['failure']
            results[suite.name]['wall'] = time.time() - t
            if results[suite.name]['failure']:
                break
        conn.send(('ok', results))
    except BaseException:
        conn.send(('error', traceback.format_exc()))
    conn.close()
    from pbt import certs
    certs.cleanup()
    os._exit(0)


def known_findings(prop):
    path = os.path.join(ROOT, 'known_findings.jsonl')
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line and not line.startswith('#') and not line.startswith('fixed:'):
                e = json.loads(line)
                if e['property'] == prop:
                    out.append(e)
    return out


def replay(prop, path):
    mod = load(prop)
    data = json.load(open(path))
    suite = [s for s in mod.SUITES if s.name == data['suite']][0]
    try:
        execute(suite, data['case'])
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as err:
        traceback.print_exc()
        print(describe(err))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    print('the property holds on this case')
    return 0


def main(prop, only=None):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    mod = load(prop)
    rule = mod.RULE
    ctx = multiprocessing.get_context('fork')
    procs = []
    for shard in range(WORKERS):
        r, w = ctx.Pipe(False)
        p = ctx.Process(target=_worker, args=(prop, shard, seed, tier, only, w))
        p.start()
        w.close()
        procs.append((p, r))
    results, errors = [], []
    for p, r in procs:
        try:
            kind, val = r.recv()
        except EOFError:
            kind, val = 'error', 'worker died'
        (results if kind == 'ok' else errors).append(val)
        p.join()
    failures, total, nontriv, samples, tags, per_suite, unrep = [], 0, set(), [], {}, {}, 0
    for res in results:
        for name, st in res.items():
            total += st['evaluations']
            nontriv.update((name, bytes(h)) for h in st['nontrivial'])
            ps = per_suite.setdefault(name, dict(evaluations=0, distinct_nontrivial=0, wall_max_s=0.0))
            ps['evaluations'] += st['evaluations']
            ps['wall_max_s'] = round(max(ps['wall_max_s'], st['wall']), 1)
            for t, c in st['tags'].items():
                tags.setdefault(name, {})[t] = tags.get(name, {}).get(t, 0) + c
            samples += [(name, c) for c in st['samples'][:3]]
            unrep += st['unreproduced']
            if st['unreproduced']:
                print('note: a failure could not be reproduced and is not reported: %s' % st['unrep_msg'],
                      file=sys.stderr)
            if st['failure']:
                failures.append(st['failure'])
    for name, _ in nontriv:
        per_suite[name]['distinct_nontrivial'] += 1
    chosen, seen = [], {}
    for name, c in samples:
        if seen.get(name, 0) < 2 and len(json.dumps(c)) < 4000:
            seen[name] = seen.get(name, 0) + 1
            chosen.append(dict(suite=name, case=c))
    evidence = dict(
        property=prop, tier=tier, seed=seed, level='exploration',
        coverage=dict(evaluations=total, distinct_nontrivial=len(nontriv), rule=rule, samples=chosen,
                      suites=per_suite, classes=tags, unreproduced_failures=unrep),
        assumptions=list(getattr(mod, 'ASSUMPTIONS', [])) or
        ['the oracle in pbt/checks/%s.py states the property faithfully' % prop.lower()],
        wall_s=round(time.time() - t0, 1), violations=len(failures))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    if not only:
        with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
            json.dump(evidence, f, indent=1)
    if os.environ.get('PBT_VERBOSE'):
        print(json.dumps(dict(suites=per_suite, classes=tags), indent=1))
    if failures:
        failures.sort(key=lambda f: len(json.dumps(f['case'])))
        f = failures[0]
        os.makedirs(os.path.join(ROOT, 'replay'), exist_ok=True)
        path = os.path.join(ROOT, 'replay', '%s-%s.json' % (prop, f['suite']))
        with open(path, 'w') as fh:
            json.dump(dict(property=prop, **f), fh, indent=1)
        print('%s [%s]: %s' % (prop, f['suite'], f['message']))
        print('case: %s' % json.dumps(f['case'])[:3000])
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if errors:
        print('\n'.join(errors), file=sys.stderr)
        return 2
    for e in known_findings(prop):
        suite = [s for s in mod.SUITES if s.name == e['suite']][0]
        try:
            execute(suite, e['case'])
        except Exception:
            print('KNOWN-FINDING: property=%s %s' % (prop, e['what']))
    print('%s: held on %d cases (%d distinct non-trivial) in %.1f s' %
          (prop, total, len(nontriv), time.time() - t0))
    return 0
