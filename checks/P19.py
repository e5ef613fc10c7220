"""P19: persisting the stencil cache never changes or corrupts results.

Model: a process has a set `mem` of operators which it need not discretise any more, every file a set of operators, or is
missing.  compute k: mem += k; store p: p = mem; load p: mem += p; new: mem = {}.  All traces of the model up to the bound
are replayed on the implementation, every process being a fork of a process which has only imported the library.

Crashes and concurrency act on the libc calls of the process (mc/fs.c): the process which stores is ended (or runs into a
full disk) before every step and after every byte of every write; two or three processes are interleaved at every step."""
import hashlib
import itertools
import json
import os
import shutil
import sys
import numpy as np
import sympy
from mc import fs
fs.ensure()
import torch
from e2cnn import diffops, nn, gspaces
from mc.core import fork_eval

PID = 'P19'
TITLE = 'Persisting the stencil cache never changes or corrupts results'
BOUNDS = {
    'quick': 'all sequences of length <=5 over {compute a, compute b, store, load, new process} and of length <=4 with a second file without directory; all ordered pairs of 27 operators '
             'through a file; R2Diffop layers: all sequences of length <=3 over {4 cache modes x 2 layers, new process}, and every mode over an incomplete file; truncation of the file at every byte; storing ended, and running into a full disk, at every step '
             'and (ended, over an older file) every byte, over a missing file, an older one and an incomplete one; all interleavings (preemption bound 6) of two storing processes, and of a storing and a loading process',
    'thorough': 'sequences of length <=6 (<=5 with two files); layers of length <=4; crash points at every byte for all of them, with a larger cache; all interleavings of two processes, preemption bound 4 for three (two storing, one loading)',
}
ASSUMPTIONS = ['rename replaces a file atomically (POSIX); the loss of data which the operating system has accepted but not yet written to the disk is not modelled',
               'processes, not threads of one process, share the file', 'rbf is not installed: the methods gauss and rbffd raise, which is part of the compared outcome']
ISOLATE = True


# ------------------------------------------------------------------------------------------------- operations

def grid(n, dil=1.):
    ax = (np.arange(n) - (n - 1) / 2) * dil
    return np.stack(np.meshgrid(ax, -ax, indexing='xy')).reshape(2, -1)


def compute(d):
    """Outcome of one computation: a digest of the exact values, or the kind of error."""
    kind = d[0]
    try:
        if kind == 'laplace':
            _, power, n, dil, disc = d
            x = diffops.LaplaceProfile(power, diffops.DiscretizationArgs(**disc)).sample(grid(n, dil))
        elif kind == 'cn':
            _, N, i, o, n, dil, disc = d
            gs = gspaces.Rot2dOnR2(N)
            x = diffops.diffops_CN_act_R2(gs.irrep(i), gs.irrep(o), max_power=0, max_frequency=2, discretization=diffops.DiscretizationArgs(**disc)).sample(grid(n, dil))
        elif kind == 'poly':
            _, coeff, n, dil = d
            x = diffops.DiffopBasis.sample(Raw([np.array(coeff, dtype=float).reshape(1, 1, -1)]), grid(n, dil))
    except Exception as e:
        return 'raises ' + type(e).__name__
    x = np.ascontiguousarray(x)
    return hashlib.blake2b(x.tobytes(), digest_size=12).hexdigest() + str(x.shape)


class Raw(diffops.DiffopBasis):
    def __getitem__(self, i):
        return {'order': 0, 'idx': i}


def discretisations(fn, *args):
    """How often the finite difference weights are worked out while fn runs."""
    n = [0]

    def prof(frame, event, arg):
        if event == 'call' and frame.f_code.co_name == 'finite_diff_weights' and 'sympy' in frame.f_code.co_filename:
            n[0] += 1
    sys.setprofile(prof)
    try:
        r = fn(*args)
    finally:
        sys.setprofile(None)
    return r, n[0]


KA = ['cn', 4, 1, 1, 3, 1., {}]
KB = ['laplace', 1, 3, 1., {}]
KC = ['laplace', 2, 5, .5, {}]
KEYS = {'a': KA, 'b': KB, 'c': KC}


def segment(ops, base):
    """Execute the operations of one process."""
    os.chdir(base)
    out = []
    for op in ops:
        if op in KEYS:
            r, n = discretisations(compute, KEYS[op])
            out.append([r, n])
        elif op[:2] == 'st':
            diffops.store_cache(*(path(op),) if path(op) else ())
            out.append(None)
        elif op[:2] == 'ld':
            diffops.load_cache(*(path(op),) if path(op) else ())
            out.append(None)
    return out


def path(op):
    return {'': None, 'q': 'other.pickle', 'r': 'x/y/z.pickle'}[op[2:]]


def scratch(tag):
    d = os.path.join(os.environ.get('VERIF_SCRATCH', '/tmp'), 'p19-%s-%d' % (tag, os.getpid()))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def wipe(d):
    for x in os.listdir(d):
        p = os.path.join(d, x)
        shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)


def snapshot(base):
    return [(f, open(os.path.join(base, f), 'rb').read()) for f, _ in digest_dir(base)]


def restore(base, snap):
    wipe(base)
    for f, data in snap:
        os.makedirs(os.path.dirname(os.path.join(base, f)), exist_ok=True)
        with open(os.path.join(base, f), 'wb') as h:
            h.write(data)


_want = {}


def want(key):
    k = json.dumps(key)
    if k not in _want:
        _want[k] = fork_eval(compute, key)['ok']
    return _want[k]


# ------------------------------------------------------------------------------------------------- sequences

def replay(seq, base, mon):
    wipe(base)
    mem, files = set(), {}
    segs = [[]]
    for op in seq:
        if op == 'new':
            segs.append([])
        else:
            segs[-1].append(op)
    for seg in segs:
        mem = set()
        r = fork_eval(segment, seg, base)
        if not mon.check('ok' in r, 'operation-fails', lambda: (seq, seg, r)):
            return
        for op, res in zip(seg, r['ok']):
            mon.trans()
            if op in KEYS:
                mon.check(res[0] == want(KEYS[op]), 'result-changed', lambda: (seq, seg, op))
                mon.check(op not in mem or res[1] == 0, 'stored-operator-is-not-available', lambda: (seq, seg, op, sorted(mem)))
                mon.outcome('available', op in mem)
                mem.add(op)
            elif op[:2] == 'st':
                files[op[2:]] = set(mem)
            else:
                mem |= files.get(op[2:], set())
            mon.state(sorted(mem), sorted((k, sorted(v)) for k, v in files.items()))
    mon.trace()


def case_seq(c, mon):
    base = scratch('seq')
    al = c['al']
    for k in range(c['depth'] + 1 - len(c['pre'])):
        for rest in itertools.product(al, repeat=k):
            seq = c['pre'] + list(rest)
            # 'new' directly after 'new', or at the ends, adds nothing
            if any(a == b == 'new' for a, b in zip(seq, seq[1:])) or seq[0] == 'new' or seq[-1] == 'new':
                continue
            # only observable if the last operation is a computation
            if seq[-1] not in KEYS:
                continue
            replay(seq, base, mon)
    shutil.rmtree(base)


# ------------------------------------------------------------------------------------------------- pairs of operators

PAIRS = [KA, KB, KC, ['laplace', 1, 5, 1., {}], ['laplace', 1, 3, .5, {}], ['laplace', 1, 3, 2., {}], ['laplace', 0, 3, 1., {}], ['cn', 4, 1, 1, 5, 1., {}], ['cn', 4, 1, 1, 3, 2., {}], ['cn', 4, 0, 1, 3, 1., {}],
         ['laplace', 1, 3, 1., {'method': 'gauss', 'smoothing': 1.}], ['laplace', 1, 3, 1., {'method': 'rbffd'}], ['laplace', 1, 3, 1., {'method': 'nonsense'}], ['laplace', 1, 3, 1., {'smoothing': 2.}],
         ['laplace', 1, 3, 1., {'angle_offset': .3}], ['laplace', 1, 3, 1., {'phi': 'phs3'}],
         ['poly', [1., 0., 0.], 3, 1.], ['poly', [0., 0., 1.], 3, 1.], ['poly', [0., 1., 0.], 3, 1.], ['poly', [1., 0., 1.], 3, 1.], ['poly', [1., 0., 1. + 1e-6], 3, 1.], ['poly', [-1., 0., 0.], 3, 1.],
         ['poly', [1., 0.], 3, 1.], ['poly', [1.], 3, 1.], ['poly', [1., 0., 0., 0.], 5, 1.], ['poly', [1., 0., 0., 0., 0.], 5, 1.], ['poly', [0., 0., 1., 0., 0.], 5, 1.]]


def pair_proc(base, first, load, then, store):
    os.chdir(base)
    out = []
    if load:
        diffops.load_cache('c.pickle')
    for k in first + then:
        out.append(compute(k))
    if store:
        diffops.store_cache('c.pickle')
    return out


def case_pairs(c, mon):
    base = scratch('pairs')
    a = PAIRS[c['i']]
    ref_a = want(a)
    for b in PAIRS:
        wipe(base)
        r1 = fork_eval(pair_proc, base, [a], False, [b], True)
        mon.check(r1.get('ok') == [ref_a, want(b)], 'result-depends-on-other-operator', lambda: (a, b, r1, ref_a, want(b)))
        wipe(base)
        fork_eval(pair_proc, base, [a], False, [], True)
        r2 = fork_eval(pair_proc, base, [], True, [b, a], True)
        mon.check(r2.get('ok') == [want(b), ref_a], 'result-depends-on-stored-operator', lambda: (a, b, r2, want(b), ref_a))
        r3 = fork_eval(pair_proc, base, [], True, [a, b], False)
        mon.check(r3.get('ok') == [ref_a, want(b)], 'result-depends-on-stored-operators', lambda: (a, b, r3, ref_a, want(b)))
        mon.state('pair', c['i'], repr(b))
        mon.trans(6)
        mon.trace(3)
        mon.outcome('raises', want(b).startswith('raises'))
    shutil.rmtree(base)


# ------------------------------------------------------------------------------------------------- layers

LAYERS = [dict(fin=[1], fout=[1, 0], kernel_size=3), dict(fin=[0, 1], fout=[0], kernel_size=5)]
MODES = [False, True, 'load', 'store']


def layer(i, mode):
    d = LAYERS[i]
    gs = gspaces.Rot2dOnR2(4)
    m = nn.R2Diffop(nn.FieldType(gs, [gs.irrep(k) for k in d['fin']]), nn.FieldType(gs, [gs.irrep(k) for k in d['fout']]), kernel_size=d['kernel_size'], cache=mode, recompute=True, bias=False)
    with torch.no_grad():
        m.weights.copy_(torch.arange(1., m.weights.numel() + 1))
    x = torch.arange(float(m.in_type.size * 49)).sin().view(1, -1, 7, 7)
    y = m(nn.GeometricTensor(x, m.in_type)).tensor
    return hashlib.blake2b(y.detach().numpy().tobytes(), digest_size=12).hexdigest() + str(tuple(y.shape))


def digest_dir(base):
    out = []
    for r, ds, fsn in os.walk(base):
        for f in fsn:
            with open(os.path.join(r, f), 'rb') as h:
                out.append((os.path.relpath(os.path.join(r, f), base), hashlib.blake2b(h.read()).hexdigest()))
    return sorted(out)


def layer_segment(ops, base):
    os.chdir(base)
    out = []
    for i, mode in ops:
        before = digest_dir(base)
        r, n = discretisations(layer, i, mode)
        out.append([r, n, digest_dir(base) == before])
    return out


def case_layers(c, mon):
    base = scratch('layers')
    al = [[i, m] for i in range(len(LAYERS)) for m in MODES] + ['new']
    ref = [fork_eval(layer_segment, [[i, False]], base)['ok'][0][0] for i in range(len(LAYERS))]
    for k in range(c['depth']):
        for rest in itertools.product(al, repeat=k):
            seq = [c['first']] + list(rest)
            if seq[-1] == 'new' or any(a == b == 'new' for a, b in zip(seq, seq[1:])):
                continue
            wipe(base)
            file = None
            segs = [[]]
            for op in seq:
                segs.append([]) if op == 'new' else segs[-1].append(op)
            for seg in segs:
                mem = set()
                r = fork_eval(layer_segment, seg, base)
                if not mon.check('ok' in r, 'layer-fails', lambda: (seq, seg, r)):
                    break
                for (i, mode), (res, n, untouched) in zip(seg, r['ok']):
                    mon.trans()
                    mon.check(res == ref[i], 'layer-changed', lambda: (seq, seg, i, mode))
                    if mode in (True, 'load') and file is not None:
                        mem |= file
                    mon.check(i not in mem or n == 0, 'stored-layer-is-not-available', lambda: (seq, seg, i, mode))
                    mon.outcome('layer-available', i in mem)
                    mem.add(i)
                    if mode in (True, 'store'):
                        file = set(mem)
                        mon.check(os.path.isdir(base) and len(digest_dir(base)) > 0, 'layer-does-not-store', lambda: (seq, i, mode))
                    else:
                        mon.check(untouched, 'layer-writes-the-cache', lambda: (seq, i, mode))
                    mon.state('layer', sorted(mem), sorted(file or ()), file is None)
            mon.trace()
    shutil.rmtree(base)


def torn_segment(base, i, mode):
    os.chdir(base)
    try:
        return ['ok', layer(i, mode)]
    except Exception as e:
        return ['raises', type(e).__name__]


def case_torn_layers(c, mon):
    """A layer which only stores, or does not use the file, does not depend on what is in it; one which loads may raise."""
    base = scratch('tornlayers')
    for i in range(len(LAYERS)):
        ref = fork_eval(layer_segment, [[i, False]], base)['ok'][0][0]
        for mode in MODES:
            for cut in (0, 1, 2, 10, None):
                wipe(base)
                fork_eval(layer_segment, [[1 - i, 'store']], base)
                for f, _ in digest_dir(base):
                    p = os.path.join(base, f)
                    os.truncate(p, os.path.getsize(p) // 2 if cut is None else cut)
                before = digest_dir(base)
                r = fork_eval(torn_segment, base, i, mode)['ok']
                mon.trans()
                mon.trace()
                mon.state('torn-layer', i, mode, cut)
                mon.outcome('torn-layer', r[0])
                mon.check(r == ['ok', ref] or (mode in (True, 'load') and r[0] == 'raises'), 'layer-depends-on-incomplete-file', lambda: (i, mode, cut, r))
                if mode in (False, 'load'):
                    mon.check(digest_dir(base) == before, 'layer-writes-the-cache', lambda: (i, mode, cut))
                if mode == 'store':
                    r = fork_eval(layer_segment, [[i, 'load']], base)
                    mon.check('ok' in r and r['ok'][0][:2] == [ref, 0], 'stored-layer-is-not-available', lambda: (i, mode, cut, r))
    shutil.rmtree(base)


# ------------------------------------------------------------------------------------------------- truncation and crashes

FILE = 'd/c.pickle'


def fill(base, keys, load=False):
    os.chdir(base)
    if load:
        diffops.load_cache(FILE)
    for k in keys:
        compute(KEYS[k])
    diffops.store_cache(FILE)


def aftermath(base, keys):
    """What a new process sees: load (which may raise), then all results, then store and one more process."""
    os.chdir(base)
    try:
        diffops.load_cache(FILE)
        err = None
    except Exception as e:
        err = type(e).__name__
    out = {'err': err, 'res': [], 'n': []}
    for k in keys:
        r, n = discretisations(compute, KEYS[k])
        out['res'].append(r)
        out['n'].append(n)
    diffops.store_cache(FILE)
    return out


def examine(base, keys, available, mon, what, may_raise=True, retry=True):
    """available: keys which have to be served from the file (or None: nothing is demanded)."""
    r = fork_eval(aftermath, base, keys)
    mon.trans()
    if not mon.check('ok' in r, 'store-fails-after-crash', lambda: (what, r)):
        return
    r = r['ok']
    mon.check(may_raise or r['err'] is None, 'load-fails', lambda: (what, r))
    mon.check(r['res'] == [want(KEYS[k]) for k in keys], 'wrong-result-after-load', lambda: (what, r))
    for k in available or ():
        if k in keys:
            mon.check(r['n'][keys.index(k)] == 0, 'stored-operators-are-lost', lambda: (what, k, r))
    mon.outcome('load-after-crash', r['err'])
    if retry:      # a complete store afterwards repairs everything
        r = fork_eval(aftermath, base, keys)['ok']
        mon.trans()
        mon.check(r['err'] is None and r['n'] == [0] * len(keys) and r['res'] == [want(KEYS[k]) for k in keys], 'store-after-crash', lambda: (what, r))


def case_trunc(c, mon):
    base = scratch('trunc')
    fork_eval(fill, base, c['keys'])
    files = [f for f, _ in digest_dir(base)]
    mon.check(files == [FILE], 'files', files)
    p = os.path.join(base, FILE)
    data = open(p, 'rb').read()
    for n in range(c['part'], len(data) + 1, c['parts']):
        with open(p, 'wb') as f:
            f.write(data[:n])
        full = n == len(data)
        examine(base, c['all'], c['keys'] if full else None, mon, ('truncated', n, len(data)), may_raise=not full, retry=n % 7 == 0)
        mon.state('trunc', n)
        mon.trace()
    mon.sample({'file bytes': len(data), 'truncations': 'every byte'})
    shutil.rmtree(base)


def prepare(base, c):
    """The file before the crash."""
    wipe(base)
    if c['old'] != 'none':
        fork_eval(fill, base, ['b'])
    p = os.path.join(base, FILE)
    if c['old'] == 'torn':
        with open(p, 'r+b') as f:
            f.truncate(os.path.getsize(p) // 2)


def storing(base, keys):
    os.chdir(base)
    diffops.store_cache(FILE)


def case_crash(c, mon):
    base = scratch('crash')
    mode = fs.KILL if c['mode'] == 'kill' else fs.FULL
    keys = c['keys']

    os.chdir(base)
    for k in keys:                    # this process has computed the operators; it forks the one which stores
        compute(KEYS[k])
    # the processes which look at the result must not have computed anything: they fork from a sibling (HELPER)
    HELPER('prepare', base, c)
    snap = snapshot(base)
    r = fs.controlled(lambda: storing(base, keys), base, fs.COUNT)
    mon.check('ok' in r, 'store-fails', lambda: r)
    log = r['log']
    points = []
    for s, (op, size) in enumerate(log):
        if op == 'write':
            points += [(s, b) for b in range(size) if c['bytes'] == 'all' or b < 3 or b >= size - 3 or b % 64 == 0]
        else:
            points.append((s, 0))
    mon.check(any(op == 'write' for op, _ in log), 'harness-no-write-seen', lambda: log)
    for s, b in points[c['part']::c['parts']]:
        restore(base, snap)
        again = (lambda: [compute(KEYS[k]) for k in keys]) if mode == fs.FULL else None
        r = fs.controlled(lambda: storing(base, keys), base, mode, s, b, again)
        what = (c['old'], c['mode'], s, log[s], b)
        if mode == fs.KILL:
            mon.check(r.get('killed') == 137, 'harness-not-killed', lambda: (what, r))
        else:
            mon.check('log' in r, 'process-died', lambda: (what, r))
            # the process lives on: its own results are still right
            mon.check(r.get('after', {}).get('ok') == [want(KEYS[k]) for k in keys], 'wrong-result-after-failed-store', lambda: (what, r))
            if 'ok' in r and log[s][0] == 'write':
                mon.fail('failed-store-is-silent', lambda: (what, r))
        # what has to be in the file: the new cache if storing it was reported as a success, else the old one
        av = keys if 'ok' in r else ['b'] if c['old'] == 'full' else None
        HELPER('examine', base, c['all'], av, mon, what, av is None, b % 16 == 0)
        mon.state('crash', c['old'], c['mode'], s, b)
        mon.trace()
    mon.sample({'steps of a store': log, 'crash points': len(points)})
    shutil.rmtree(base)


def make_helper():
    """A process which has not computed anything, from which the observers are forked."""
    req_r, req_w = os.pipe()
    rsp_r, rsp_w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(req_w)
        os.close(rsp_r)
        fin, fout = os.fdopen(req_r, 'r'), os.fdopen(rsp_w, 'w')
        for line in fin:
            name, args = json.loads(line)
            rec = Recorder()
            try:
                if name == 'examine':
                    base, keys, av, what, may, retry = args
                    examine(base, keys, av, rec, what, may, retry)
                else:
                    globals()[name](*args)
                out = {'checks': rec.checks, 'trans': rec.n, 'outcomes': rec.outcomes}
            except BaseException as e:
                out = {'error': repr(e)}
            fout.write(json.dumps(out, default=str) + '\n')
            fout.flush()
        os._exit(0)
    os.close(req_r)
    os.close(rsp_w)
    fout, fin = os.fdopen(req_w, 'w'), os.fdopen(rsp_r, 'r')

    def helper(name, *args):
        mon = None
        if name == 'examine':
            base, keys, av, mon, what, may, retry = args
            args = (base, keys, av, what, may, retry)
        fout.write(json.dumps([name, args], default=str) + '\n')
        fout.flush()
        r = json.loads(fin.readline())
        if 'error' in r:
            raise RuntimeError(r['error'])
        if mon is not None:
            mon.trans(r['trans'])
            for o in r['outcomes']:
                mon.outcome(*o)
            for ok, label, detail in r['checks']:
                mon.check(ok, label, detail)
    return helper


HELPER = None


class Recorder:
    def __init__(self):
        self.checks, self.n, self.outcomes = [], 0, []

    def check(self, ok, label, detail=None):
        self.checks.append([bool(ok), label, None if ok else repr(detail() if callable(detail) else detail)[:1200]])
        return bool(ok)

    def trans(self, n=1):
        self.n += n

    def outcome(self, *k):
        self.outcomes.append(list(k))


# ------------------------------------------------------------------------------------------------- interleavings

def case_inter(c, mon):
    base = scratch('inter')
    # each process computes before the interleaving starts: its steps are those of store or load alone
    actors = [fs.Actor(lambda p=p: [compute(KEYS[k]) for k in p[1]], lambda p=p: act(base, p), base) for p in c['procs']]
    sets = [set(p[1]) for p in c['procs'] if p[0] == 'w']
    if c['old']:
        sets_old = [{'b'}]
    else:
        sets_old = [set()]

    wipe(base)
    if c['old']:
        fork_eval(fill, base, ['b'])
    snap = snapshot(base)
    setup = lambda: restore(base, snap)

    def judge(chosen, res, ops):
        mon.trace()
        mon.state(tuple(chosen))
        for p, r in zip(c['procs'], res):
            if not mon.check('ok' in r, 'store-fails' if p[0] == 'w' else 'load-fails', lambda: (c['procs'], chosen, ops, r)):
                continue
            got = r['ok']
            if p[0] == 'r':
                mon.check(got['res'] == [want(KEYS[k]) for k in ('a', 'b', 'c')], 'wrong-result-when-interleaved', lambda: (c['procs'], chosen, ops, got))
                served = {k for k, n in zip('abc', got['n']) if n == 0}
                mon.check(any(s | set(p[1]) <= served for s in sets + sets_old), 'load-sees-a-mixture', lambda: (c['procs'], chosen, ops, sorted(served)))
        # the file which is left is the one of a process which stored
        r = fork_eval(aftermath, base, ['a', 'b', 'c'])
        mon.check('ok' in r and r['ok']['err'] is None and r['ok']['res'] == [want(KEYS[k]) for k in ('a', 'b', 'c')], 'file-broken-by-interleaving', lambda: (c['procs'], chosen, ops, r))
        if 'ok' in r:
            served = {k for k, n in zip('abc', r['ok']['n']) if n == 0}
            mon.check(any(s <= served for s in sets), 'file-lost-by-interleaving', lambda: (c['procs'], chosen, ops, sorted(served)))

    n, t, b = fs.interleavings(actors, setup, judge, c['bound'], c['budget'])
    mon.trans(t)
    mon.outcome('bound', b)
    for a in actors:
        a.stop()
    mon.sample({'processes': c['procs'], 'schedules': n, 'preemption bound completed': b})
    shutil.rmtree(base)


def act(base, p):
    os.chdir(base)
    (diffops.store_cache if p[0] == 'w' else diffops.load_cache)(FILE)
    out = {'res': [], 'n': []}
    for k in ('a', 'b', 'c') if p[0] == 'r' else ():
        r, n = discretisations(compute, KEYS[k])
        out['res'].append(r)
        out['n'].append(n)
    return out


# -------------------------------------------------------------------------------------------------

def cases(tier):
    q = tier == 'quick'
    out = []
    al = ['a', 'b', 'st', 'ld', 'new']
    for x in itertools.product([o for o in al if o != 'new'], al):
        out.append({'k': 'seq', 'al': al, 'pre': list(x), 'depth': 5 if q else 6})
    al2 = ['a', 'b', 'st', 'ld', 'stq', 'ldq', 'new']
    for x in itertools.product([o for o in al2 if o != 'new'], al2):
        out.append({'k': 'seq', 'al': al2, 'pre': list(x), 'depth': 4 if q else 5})
    out.append({'k': 'seq', 'al': ['a', 'str', 'ldr', 'new'], 'pre': ['a'], 'depth': 4})
    out += [{'k': 'pairs', 'i': i} for i in range(len(PAIRS))]
    out += [{'k': 'layers', 'first': [i, m], 'depth': 3 if q else 4} for i in range(len(LAYERS)) for m in MODES]
    out.append({'k': 'torn_layers'})
    big = ['a', 'b'] if q else ['a', 'b', 'c']
    parts = 16
    out += [{'k': 'trunc', 'keys': big, 'all': ['a', 'b', 'c'], 'part': i, 'parts': parts} for i in range(parts)]
    for old in ('none', 'full', 'torn'):
        for mode in ('kill', 'full'):
            out += [{'k': 'crash', 'old': old, 'mode': mode, 'bytes': 'all' if not q or (old, mode) == ('full', 'kill') else 'some', 'keys': ['a'] if q else big, 'all': ['b', 'a'] if q else ['b', 'a', 'c'], 'part': i, 'parts': parts // 2} for i in range(parts // 2)]
    for old in (0, 1):
        for procs in ([['w', 'a'], ['w', 'ab']], [['w', 'ab'], ['w', 'a']], [['w', 'ab'], ['w', 'c']], [['w', 'ab'], ['r', '']], [['w', 'c'], ['r', 'a']]):
            out.append({'k': 'inter', 'old': old, 'procs': procs, 'bound': 6 if q else 40, 'budget': 2500 if q else 100000})
    if not q:
        out.append({'k': 'inter', 'old': 1, 'procs': [['w', 'ab'], ['w', 'c'], ['r', '']], 'bound': 4, 'budget': 30000})
        out.append({'k': 'inter', 'old': 0, 'procs': [['w', 'ab'], ['w', 'c'], ['w', 'a']], 'bound': 4, 'budget': 30000})
    return out


def cost(c):
    return {'inter': 9, 'crash': 5, 'trunc': 4, 'seq': 3, 'layers': 8, 'torn_layers': 7, 'pairs': 1}[c['k']]


def run_case(c, mon):
    global HELPER
    for n in (1, 2, 3, 5):       # warm sympy up (not the library), so that the processes forked from here start fast
        sympy.finite_diff_weights(n - 1, [x - (n - 1) / 2 for x in range(n)], 0)
    for k in (PAIRS if c['k'] == 'pairs' else list(KEYS.values())):       # reference outcomes, each from a process which has computed nothing
        want(k)
        mon.check(k not in KEYS.values() or not want(k).startswith('raises'), 'computation-fails', lambda: (k, want(k)))
    if c['k'] == 'crash':
        HELPER = make_helper()
    globals()['case_' + c['k']](c, mon)
    mon.sample({k: v for k, v in c.items()})


def finish(tot, outcomes, tier):
    for o in (('available', True), ('available', False), ('layer-available', True), ('raises', True), ('load-after-crash', None)):
        if repr(o) not in outcomes:
            return 'never reached: %r' % (o,)
