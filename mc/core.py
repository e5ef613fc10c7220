"""Shared machinery of the checks: bounded-exhaustive explorer, evidence, replay.

A check module (checks/<ID>.py) provides

    PID          property id
    TITLE        one line
    BOUNDS       {tier: text}: the bounds of the enumeration
    cases(tier)  -> list of JSON-serialisable case descriptors.  The list *is* the
                 bounded space: it is enumerated completely, never sampled.
    run_case(case, mon)   explores one case on the real library (imported from /repo)
    ISOLATE      (optional) True: every case starts in a freshly forked process
                 which has imported the library but has not used it yet
    finish(total, tier)   (optional) vacuity guards over the merged counters

The monitor counts what was really explored:
    mon.state(key)   a distinct state of the explored space was reached
    mon.trans(n)     n transitions (operations on the real code) were taken
    mon.trace(n)     n complete traces were replayed on the implementation and
                     compared with the reference model
    mon.check(ok, label, detail)   the oracle; a failure is a violation
"""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known_findings.json')
CASE_LIMIT_S = 420          # a case takes seconds; only a hang gets here


class Abort(Exception):
    """Raised to leave a case early, after a violation was recorded."""


class Mon:
    def __init__(self, case, max_viol=12):
        self.case = case
        self._states = set()
        self.transitions = 0
        self.traces = 0
        self.checks = 0
        self.violations = []
        self.max_viol = max_viol
        self.samples = []
        self.outcomes = set()

    def state(self, *key):
        h = hashlib.blake2b(repr(key).encode(), digest_size=12).digest()
        new = h not in self._states
        if new:
            self._states.add(h)
        return new

    def trans(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, *key):
        """Distinct outcomes seen, used by the vacuity guards."""
        self.outcomes.add(repr(key)[:200])

    def sample(self, x):
        if len(self.samples) < 2:
            self.samples.append(x)

    def check(self, ok, label, detail=None):
        self.checks += 1
        if not ok:
            self.violations.append({'label': label, 'detail': _short(detail() if callable(detail) else detail)})
            if len(self.violations) >= self.max_viol:
                raise Abort()
        return bool(ok)

    def fail(self, label, detail=None):
        self.check(False, label, detail)


def _short(d, n=1500):
    s = d if isinstance(d, str) else repr(d)
    return s if len(s) <= n else s[:n] + '...'


def _alarm(signum, frame):
    raise TimeoutError('case did not finish within %d s' % CASE_LIMIT_S)


def _seed():
    # every case starts from the same random state: nothing an oracle sees depends on VERIF_SEED
    import random
    import numpy
    random.seed(0)
    numpy.random.seed(0)
    if 'torch' in sys.modules:
        sys.modules['torch'].manual_seed(0)


def _exec_case(mod, case):
    mon = Mon(case)
    _seed()
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_LIMIT_S)
    try:
        mod.run_case(case, mon)
    except Abort:
        pass
    except BaseException as e:     # the library failed on an in-scope input
        if isinstance(e, (KeyboardInterrupt, SystemExit, MemoryError)):
            raise
        mon.violations.append({'label': 'exception:' + type(e).__name__,
                               'detail': _short(''.join(traceback.format_exception(e))[-1500:])})
    finally:
        signal.alarm(0)
    return {'case': case, 'states': len(mon._states), 'transitions': mon.transitions,
            'traces': mon.traces, 'checks': mon.checks, 'violations': mon.violations,
            'samples': mon.samples, 'outcomes': sorted(mon.outcomes)[:200], 'wall': time.time() - t0}


_MOD = None


def _init(name):
    """Worker: import the library (so that forks of the worker are warm) but use nothing of it."""
    global _MOD
    null = os.open(os.devnull, os.O_WRONLY)      # the library prints notices; results travel through the pool
    os.dup2(null, 1)
    _MOD = importlib.import_module('checks.' + name)


def _work(job):
    idx, case = job
    if getattr(_MOD, 'ISOLATE', False):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                res = _exec_case(_MOD, case)
                with os.fdopen(w, 'wb') as f:
                    f.write(json.dumps(res, default=str).encode())
            except BaseException:
                code = 1
                traceback.print_exc()
            os._exit(code)
        os.close(w)
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        os.waitpid(pid, 0)
        if not data:
            return idx, {'case': case, 'states': 0, 'transitions': 0, 'traces': 0, 'checks': 0, 'samples': [],
                         'outcomes': [], 'wall': 0,
                         'violations': [{'label': 'crash', 'detail': 'the process running this case died'}]}
        return idx, json.loads(data)
    return idx, _exec_case(_MOD, case)


def load_known(pid):
    try:
        with open(KNOWN) as f:
            d = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in d.get('findings', []) if k['property'] == pid]


def _matches(k, case, v):
    """A known finding names the exact case and the exact oracle that fails."""
    return k['case'] == json.loads(json.dumps(case)) and k['label'] == v['label']


def fork_eval(fn, *args):
    """Run fn(*args) in a forked copy of this process; return its JSON-able result.

    This is the explorer's snapshot: the child inherits the whole state of the library (all
    of its caches) and whatever it does is undone when it exits."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                res = {'ok': fn(*args)}
            except BaseException as e:
                res = {'exc': type(e).__name__, 'msg': str(e)[:800], 'tb': traceback.format_exc()[-1200:]}
            with os.fdopen(w, 'wb') as f:
                f.write(json.dumps(res, default=str).encode())
        except BaseException:
            code = 1
        os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        return {'exc': 'ProcessDied', 'msg': '', 'tb': ''}
    return json.loads(data)


def main(name, argv):
    mod = importlib.import_module('checks.' + name)
    pid = mod.PID
    tier = os.environ.get('VERIF_TIER', 'quick')
    replay = None
    only = None
    it = iter(argv)
    for a in it:
        if a == '--replay':
            replay = next(it)
        elif a in ('quick', 'thorough'):
            tier = a
        elif a == '--only':
            only = next(it)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    if replay:
        with open(replay) as f:
            rec = json.load(f)
        res = _exec_case(mod, rec['case'])
        print(json.dumps(res, indent=1, default=str))
        sys.exit(1 if res['violations'] else 0)

    cases = [json.loads(json.dumps(c)) for c in mod.cases(tier)]
    if only:
        cases = [c for c in cases if only in json.dumps(c)]
    jobs = list(enumerate(cases))
    if hasattr(mod, 'cost'):
        jobs.sort(key=lambda j: -mod.cost(j[1]))
    nproc = int(os.environ.get('MC_PROCS', '0')) or min(8, os.cpu_count() or 1)
    results = [None] * len(cases)
    ctx = mp.get_context('spawn')
    with ctx.Pool(min(nproc, max(1, len(cases))), initializer=_init, initargs=(name,)) as pool:
        for idx, res in pool.imap_unordered(_work, jobs, chunksize=getattr(mod, 'CHUNK', 1)):
            results[idx] = res
            if os.environ.get('MC_VERBOSE'):
                print('%7.1fs %s %d viol' % (res['wall'], json.dumps(res['case'])[:150], len(res['violations'])))
            if res['violations'] and os.environ.get('MC_FAILFAST'):       # development only: stop at the first one
                break
    results = [r for r in results if r is not None]
    tot = {k: sum(r[k] for r in results) for k in ('states', 'transitions', 'traces', 'checks')}
    outcomes = set()
    for r in results:
        outcomes.update(r['outcomes'])
    known = load_known(pid)
    viol, reported = [], {}
    for r in results:
        for v in r['violations']:
            hit = next((k for k in known if _matches(k, r['case'], v)), None)
            if hit is None:
                viol.append((r['case'], v))
            else:
                reported[hit['what']] = True
    if not only:
        guard = getattr(mod, 'finish', None)
        if guard:
            msg = guard(tot, outcomes, tier)
            if msg and not viol:
                # a vacuity guard failing means that the exploration did not cover what it claims
                print('HARNESS-ERROR: ' + msg)
                sys.exit(3)
    samples = []
    for r in results:
        for s in r['samples']:
            if len(samples) < 6:
                samples.append(s)
    if not samples:
        samples = [r['case'] for r in results[:3]]
    os.makedirs(EVID, exist_ok=True)
    ev = {'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed,
          'level': 'model_checking',
          'coverage': {'states': tot['states'], 'transitions': tot['transitions'],
                       'traces_validated_against_impl': tot['traces'],
                       'oracle_evaluations': tot['checks'], 'cases': len(cases),
                       'distinct_outcomes': len(outcomes),
                       'bounds': mod.BOUNDS.get(tier, mod.BOUNDS['quick']),
                       'exhaustive': not viol and not only, 'samples': samples},
          'assumptions': getattr(mod, 'ASSUMPTIONS', []),
          'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for what in sorted(reported):
        print('KNOWN-FINDING: property=%s %s' % (pid, what))
    if viol:
        rdir = os.path.join(EVID, 'replay')
        os.makedirs(rdir, exist_ok=True)
        seen = set()
        for i, (case, v) in enumerate(viol[:50]):
            path = os.path.join(rdir, '%s-%d.json' % (pid, i))
            with open(path, 'w') as f:
                json.dump({'property': pid, 'case': case, 'violation': v,
                           'how': 'bash /verif/run.sh %s --replay %s' % (name, path)}, f, indent=1, default=str)
            if v['label'] in seen:
                continue
            seen.add(v['label'])
            print('VIOLATION property=%s replay=%s' % (pid, path))
            print('  case %s\n  oracle %s: %s' % (json.dumps(case)[:400], v['label'], v['detail'][:700]))
        print('%d violations; states %d transitions %d' % (len(viol), tot['states'], tot['transitions']))
        sys.exit(1)
    print('OK property=%s tier=%s cases=%d states=%d transitions=%d traces=%d checks=%d wall=%.1fs' % (
        pid, tier, len(cases), tot['states'], tot['transitions'], tot['traces'], tot['checks'], time.time() - t0))
    sys.exit(0)


if __name__ == '__main__':
    main(sys.argv[1], sys.argv[2:])
