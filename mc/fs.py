"""Processes whose file system steps are controlled by the explorer (see fs.c)."""
import ctypes
import json
import os
import re
import signal
import subprocess
import sys
import traceback

COUNT, KILL, FULL, SCHED = 1, 2, 3, 4
_lib = None


def ensure():
    """Compile the shim and restart this process with it, unless that has already happened."""
    global _lib
    so = os.environ.get('VERIF_FS_SHIM')
    if not so:
        scr = os.environ.get('VERIF_SCRATCH') or '/tmp'
        so = os.path.join(scr, 'fs-%d.so' % os.getpid())
        src = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'fs.c')
        subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-w', '-o', so, src, '-ldl'], check=True)
        os.environ['VERIF_FS_SHIM'] = so
        os.environ['LD_PRELOAD'] = so
        sys.stdout.flush()
        os.execv(sys.executable, [sys.executable, '-m', 'mc.core'] + sys.argv[1:])
    _lib = ctypes.CDLL(so)
    _lib.vp_log.restype = ctypes.c_char_p
    _lib.vp_arm.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_int, ctypes.c_long, ctypes.c_int, ctypes.c_int]


def _call(fn, args):
    try:
        return {'ok': fn(*args)}
    except BaseException as e:
        return {'exc': type(e).__name__, 'msg': str(e)[:300], 'tb': traceback.format_exc()[-800:]}


def controlled(fn, prefix, mode, step=-1, tear=0, after=None):
    """Run fn() in a forked process, armed; then after() in the same process, not armed any more.
    Returns {'ok'|'exc'|'killed': .., 'log': [(op, size)], 'after': ..}"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            _lib.vp_arm(prefix.encode(), mode, step, tear, -1, -1)
            res = _call(fn, ())
            _lib.vp_disarm()
            res['log'] = [(l.split()[0], int(l.split()[1])) for l in _lib.vp_log().decode().splitlines()]
            if after is not None:
                res['after'] = _call(after, ())
            os.write(w, json.dumps(res, default=str).encode())
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    st = os.waitpid(pid, 0)[1]
    if not data:
        return {'killed': os.waitstatus_to_exitcode(st)}
    return json.loads(data)


class Actor:
    """A process prepared once (prepare() runs in it, not controlled); each run() forks it, and the fork executes fn()
    stopping before each of its steps."""

    def __init__(self, prepare, fn, prefix):
        a, self.to = os.pipe()       # explorer -> process
        c, d = os.pipe()             # process -> explorer
        cmd_r, self.cmd = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(self.to)
                os.close(c)
                os.close(self.cmd)
                prepare()
                while os.read(cmd_r, 1):
                    pid = os.fork()
                    if pid == 0:
                        try:
                            _lib.vp_arm(prefix.encode(), SCHED, -1, 0, a, d)
                            res = _call(fn, ())
                            _lib.vp_disarm()
                            data = json.dumps(res, default=str).encode()
                            data = b'\0' + len(data).to_bytes(8, 'big') + data
                            while data:
                                data = data[os.write(d, data):]
                        finally:
                            os._exit(0)
                    if os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1]) != 0:
                        os.write(d, b'\1')
            finally:
                os._exit(0)
        os.close(a)
        os.close(d)
        os.close(cmd_r)
        self.frm = c

    def start(self):
        self.ops = ''
        self.paths = []
        self.result = None
        os.write(self.cmd, b'r')
        self._wait()

    def _read(self, n):
        x = b''
        while len(x) < n:
            y = os.read(self.frm, n - len(x))
            if not y:
                break
            x += y
        return x

    def _wait(self):
        ch = self._read(1)
        if ch == b'\0':
            self.result = json.loads(self._read(int.from_bytes(self._read(8), 'big')))
        elif ch in (b'\1', b''):
            self.result = {'exc': 'ProcessDied', 'msg': ''}
        else:
            line = b''
            while (x := self._read(1)) not in (b'\n', b''):
                line += x
            self.pending = (ch.decode(), os.path.normpath(line.decode()))

    def go(self):
        self.ops += self.pending[0]
        self.paths.append(self.pending)
        os.write(self.to, b'g')
        self._wait()

    def stop(self):
        for fd in (self.cmd, self.to, self.frm):
            os.close(fd)
        os.kill(self.pid, signal.SIGKILL)
        os.waitpid(self.pid, 0)


def run_schedule(ps, schedule, private=()):
    """Follow the schedule, then go on without preemptions.  Steps in `private` (pairs of process, kind of step) are taken at
    once, they are not choices.  Returns choices, enabled sets, results, steps."""
    for p in ps:
        p.start()
    chosen, enabled = [], []
    cur = None
    while True:
        for i, p in enumerate(ps):
            while p.result is None and (i, _norm(*p.pending)) in private:
                p.go()
        en = [i for i, p in enumerate(ps) if p.result is None]
        if not en:
            break
        k = len(chosen)
        if k < len(schedule):
            i = schedule[k]
            if i not in en:
                raise RuntimeError('schedule %s cannot be replayed' % (schedule,))
        else:
            i = cur if cur in en else en[0]
        chosen.append(i)
        enabled.append(en)
        ps[i].go()
        cur = i
    return chosen, enabled, [p.result for p in ps], [p.paths for p in ps]


def _norm(op, path):
    return op + re.sub('[0-9]+', '#', path)


def private_steps(paths):
    """Steps on files which no other process touches: they commute with all steps of the others."""
    out = set()
    for i, mine in enumerate(paths):
        others = {x for j, o in enumerate(paths) if j != i for _, x in o}
        for k, (op, x) in enumerate(mine):
            if op != 'R' and x != '?' and x not in others:
                out.add((i, _norm(op, x)))
    return out


def preemptions(chosen, enabled):
    n = 0
    for k in range(1, len(chosen)):
        if chosen[k] != chosen[k - 1] and chosen[k - 1] in enabled[k]:
            n += 1
    return n


def interleavings(actors, setup, judge, bound, budget=100000):
    """All schedules with at most `bound` preemptions, fewer preemptions first; stops deepening when the budget is used
    up.  Returns (schedules, transitions, bound completed)."""
    setup()
    first = run_schedule(actors, [])
    private = private_steps(first[3])
    while True:
        try:
            return _interleavings(actors, setup, judge, bound, budget, private)
        except _NotPrivate:
            private = set()


class _NotPrivate(Exception):
    """In some schedule two processes touched the same file after all, or the steps of a process changed."""


def _interleavings(actors, setup, judge, bound, budget, private):
    done = 0
    trans = 0
    level = [[]]
    seen = set()
    for b in range(bound + 1):
        nxt = []
        stack = list(level)
        while stack:
            sched = stack.pop()
            setup()
            try:
                chosen, enabled, res, paths = run_schedule(actors, sched, private)
            except RuntimeError:
                for a in actors:
                    while a.result is None:
                        a.go()
                if private:
                    raise _NotPrivate()
                raise
            if {(i, _norm(*x)) for i, p in enumerate(paths) for x in p} & private - private_steps(paths):
                raise _NotPrivate()
            ops = [''.join(op for op, _ in p) for p in paths]
            done += 1
            trans += len(chosen)
            judge(chosen, res, ops)
            for k in range(len(sched), len(chosen)):
                for a in enabled[k]:
                    if a != chosen[k]:
                        alt = chosen[:k] + [a]
                        if tuple(alt) in seen:
                            continue
                        seen.add(tuple(alt))
                        p = preemptions(alt, enabled[:k + 1])
                        if p <= b:
                            stack.append(alt)
                        elif p <= bound:
                            nxt.append(alt)
        if not nxt:
            return done, trans, 'all'
        if done + len(nxt) > budget:
            return done, trans, b
        level = nxt
    return done, trans, bound
