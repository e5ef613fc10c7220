"""P09: all sequences of operations up to the depth bound on two layers of the same kind, on the real layers, in lockstep
with a model that only remembers the parameters and the mode of each layer."""
import copy
import io
import math
import numpy as np
import torch
from mc import ref, spaces
from checks.P08 import ref_conv, ref_tconv, unit_filters, impulses
from e2cnn import nn

PID = 'P09'
BOUNDS = {
    'quick': 'R2Conv, R2Conv with groups and no bias, R2ConvTransposed with groups, R2Diffop, sequential of two convolutions; all sequences of up to 3 (from 4 initial states, one with weights that are not trained) of 14 operations {train, eval, forward, assign weights, optimiser step, save, load, load into the other layer, load directly, export, copy, train/eval/assign of the other layer}, up to 4 of the 8 operations on one layer; every sequence ends with the comparison of all layers, copies, exports and newly loaded layers',
    'thorough': 'one operation more',
}
ASSUMPTIONS = ['weights are changed in training mode and parameters are saved and loaded in evaluation mode, as documented']
TECHNIQUE = 'explicit-state exploration of all operation sequences up to a depth on the real layers, with a reference model in lockstep'

OPS = ['tA', 'eA', 'fA', 'uA', 'sA', 'S', 'LA', 'LB', 'LD', 'X', 'C', 'tB', 'eB', 'uB']
OPS_A = ['tA', 'eA', 'fA', 'uA', 'S', 'LA', 'X', 'C']
CONFIGS = ['conv', 'conv_groups', 'tconv', 'diff', 'seq']
INITS = ['fresh', 'evaleval', 'evaltrain', 'frozen']


def cases(tier):
    d = 3 if tier == 'quick' else 4
    out = []
    for c in CONFIGS:
        for i in INITS:
            for o in OPS:
                for p in (['-'] if tier == 'quick' else OPS):
                    out.append({'cfg': c, 'init': i, 'ops': OPS, 'first': [o] if p == '-' else [o, p], 'depth': d})
    for c in CONFIGS[:4]:
        for o in OPS_A:
            for p in OPS_A:
                out.append({'cfg': c, 'init': 'fresh', 'ops': OPS_A, 'first': [o, p], 'depth': d + 1})
    return out


def cost(c):
    return 2 if c['cfg'] == 'seq' else 1


def build(cfg):
    gs = spaces.build(['fliprot', 4, None, .5])
    tr, v, s = gs.trivial_repr, gs.irrep(1, 1), gs.irrep(1, 0)
    if cfg == 'conv':
        return nn.R2Conv(nn.FieldType(gs, [v, tr]), nn.FieldType(gs, [tr, v, tr]), 3, padding=1)
    if cfg == 'conv_groups':
        return nn.R2Conv(nn.FieldType(gs, [v, v]), nn.FieldType(gs, [s, v, s, v]), 3, stride=2, groups=2, padding=1, padding_mode='circular', bias=False)
    if cfg == 'tconv':
        return nn.R2ConvTransposed(nn.FieldType(gs, [v, v]), nn.FieldType(gs, [tr, v, tr, v]), 3, padding=1, stride=2, groups=2)
    if cfg == 'diff':
        return nn.R2Diffop(nn.FieldType(gs, [v, tr]), nn.FieldType(gs, [tr, v]), kernel_size=3)
    if cfg == 'seq':
        m = nn.FieldType(gs, [v, tr])
        return nn.SequentialModule(nn.R2Conv(m, nn.FieldType(gs, [tr, v]), 3), nn.R2Conv(nn.FieldType(gs, [tr, v]), m, 3, bias=False))


def convs(L):
    return [L] if not isinstance(L, nn.SequentialModule) else [m for m in L.children()]


class World:
    """Reference: unit filters and bias maps of each convolution (constants of the configuration)."""

    def __init__(self, cfg):
        self.cfg = cfg
        L = build(cfg)
        L.train()
        self.in_type = L.in_type
        self.U, self.Bm, self.par = [], [], []
        for c in convs(L):
            self.U.append(unit_filters(c))
            cols = []
            if c.bias is not None:
                for i in range(c.bias.numel()):
                    c.bias.data.zero_()
                    c.bias.data[i] = 1.
                    cols.append(c.expand_parameters()[1].detach().double().numpy().copy())
            self.Bm.append(np.array(cols).T if cols else None)
        self.x = np.array([[math.sin(1 + i * .37 + j) for i in range(self.in_type.size * 25)] for j in range(2)]).reshape(2, self.in_type.size, 5, 5)
        self.xt = torch.tensor(self.x).float()
        self._exp = {}

    def params(self, v):
        """Parameter values of version v, for every convolution."""
        out = []
        for k, U in enumerate(self.U):
            w = np.array([math.sin(1.3 * i + 7 * v + k) for i in range(len(U))], dtype=np.float32)
            b = None if self.Bm[k] is None else np.array([math.cos(2.1 * i + v) for i in range(self.Bm[k].shape[1])], dtype=np.float32)
            out.append((w, b))
        return out

    def expected(self, params):
        key = tuple((w.tobytes(), None if b is None else b.tobytes()) for w, b in params)
        if key not in self._exp:
            x = self.x
            for k, (w, b) in enumerate(params):
                F = np.einsum('n,nabyx->abyx', w.astype(float), self.U[k], optimize=True)
                bias = None if b is None else self.Bm[k] @ b.astype(float)
                if self.cfg == 'tconv':
                    x = ref_tconv(x, F, bias, 3, 1, 2, 1, 2, 0)
                elif self.cfg == 'conv_groups':
                    x = ref_conv(x, F, bias, 3, 1, 'circular', 2, 1, 2)
                elif self.cfg == 'conv':
                    x = ref_conv(x, F, bias, 3, 1, 'zeros', 1, 1, 1)
                else:
                    x = ref_conv(x, F, bias, 3, 0, 'zeros', 1, 1, 1)
            if len(self._exp) > 5000:
                self._exp.clear()
            self._exp[key] = x
        return self._exp[key]


def get_params(L):
    return [(c.weights.detach().numpy().copy(), None if c.bias is None else c.bias.detach().numpy().copy()) for c in convs(L)]


def set_params(L, P):
    with torch.no_grad():
        for c, (w, b) in zip(convs(L), P):
            c.weights.copy_(torch.tensor(w))
            if b is not None:
                c.bias.copy_(torch.tensor(b))


def same(P, Q):
    return all(np.array_equal(w, x) and (b is None) == (y is None) and (b is None or np.array_equal(b, y)) for (w, b), (x, y) in zip(P, Q))


class Disabled(Exception):
    pass


class Run:
    def __init__(self, W, init, mon):
        self.W, self.mon = W, mon
        self.L = {'A': build(W.cfg), 'B': build(W.cfg)}
        self.P = {'A': W.params(1), 'B': W.params(2)}       # the model: parameters ...
        self.mode = {'A': True, 'B': True}                  # ... and mode (training?)
        for n in 'AB':
            set_params(self.L[n], self.P[n])
        self.saved = None
        self.exports, self.copies = [], []
        self.v = 2
        if init == 'evaleval':
            self.op('eA'), self.op('eB')
        elif init == 'evaltrain':
            self.op('eA'), self.op('tB')
        elif init == 'frozen':
            for c in convs(self.L['A']):
                c.weights.requires_grad_(False)

    def fwd(self, L):
        return L(nn.GeometricTensor(self.W.xt, self.W.in_type)).tensor

    def op(self, o):
        L, P, mode = self.L, self.P, self.mode
        n = o[1:]
        if o[0] == 't' and n:
            L[n].train()
            mode[n] = True
        elif o[0] == 'e':
            L[n].eval()
            mode[n] = False
        elif o[0] == 'f':
            self.compare('A', 'forward')
        elif o[0] == 'u':
            if not mode[n]:
                raise Disabled
            self.v += 1
            P[n] = self.W.params(self.v)
            set_params(L[n], P[n])
        elif o == 'sA':
            if not mode['A']:
                raise Disabled
            if not any(p.requires_grad for p in L['A'].parameters()):
                raise Disabled
            opt = torch.optim.SGD(L['A'].parameters(), lr=.01)
            opt.zero_grad()
            (self.fwd(L['A']) ** 2).mean().backward()
            opt.step()
            new = get_params(L['A'])
            self.mon.check(not same(new, P['A']), 'step-changes-weights', None)
            P['A'] = new
        elif o == 'S':
            if mode['A']:
                raise Disabled
            f = io.BytesIO()
            torch.save(L['A'].state_dict(), f)
            self.saved = (f.getvalue(), P['A'])
        elif o in ('LA', 'LB'):
            n = o[1]
            if self.saved is None or mode[n]:
                raise Disabled
            L[n].load_state_dict(torch.load(io.BytesIO(self.saved[0])))
            P[n] = self.saved[1]
        elif o == 'LD':
            if mode['A'] or mode['B']:
                raise Disabled
            L['B'].load_state_dict(L['A'].state_dict())
            P['B'] = P['A']
        elif o == 'X':
            self.exports.append((L['A'].export(), P['A']))
            mode['A'] = False
        elif o == 'C':
            self.copies.append((copy.deepcopy(L['A']), P['A'], mode['A']))

    def compare(self, n, what):
        y = self.fwd(self.L[n]).detach().double().numpy()
        self.outcheck(y, self.P[n], what + '-' + n)
        return y

    def outcheck(self, y, P, label):
        want = self.W.expected(P)
        self.mon.check(y.shape == want.shape and ref.close(y, want, 2e-4 * max(1., np.abs(want).max())), label,
                       lambda: (self.hist, np.abs(y - want).max() if y.shape == want.shape else (y.shape, want.shape)))

    def key(self):
        return (self.W.cfg, self.mode['A'], self.mode['B'], _k(self.P['A']), _k(self.P['B']), self.saved and _k(self.saved[1]),
                tuple(_k(p) for _, p in self.exports), tuple((_k(p), t) for _, p, t in self.copies))

    def final(self):
        mon = self.mon
        for n in 'AB':
            mon.check(self.L[n].training == self.mode[n], 'mode-' + n, lambda: (self.hist, self.L[n].training))
            mon.check(same(get_params(self.L[n]), self.P[n]), 'parameters-' + n, lambda: self.hist)
        for n in 'BA':
            y = self.compare(n, 'output')
            if not self.mode[n]:
                z = self.fwd(self.L[n]).detach().double().numpy()
                mon.check(np.array_equal(y, z), 'repeatable-' + n, lambda: self.hist)
        for m, p in self.exports:
            self.outcheck(m(self.W.xt).detach().double().numpy(), p, 'exported')
        for m, p, mode in self.copies:
            mon.check(m.training == mode and same(get_params(m), p), 'copy-parameters', lambda: self.hist)
            self.outcheck(self.fwd(m).detach().double().numpy(), p, 'copied')
            m.train(not mode)
            self.outcheck(self.fwd(m).detach().double().numpy(), p, 'copied-other-mode')
        if self.saved is not None:
            N = build(self.W.cfg)
            N.load_state_dict(torch.load(io.BytesIO(self.saved[0])))
            mon.check(same(get_params(N), self.saved[1]), 'loaded-parameters', lambda: self.hist)
            N.eval()
            self.outcheck(self.fwd(N).detach().double().numpy(), self.saved[1], 'loaded-into-new')
        # finally switch every layer once more: nothing may be stale
        for n in 'AB':
            for mode in (not self.mode[n], self.mode[n]):
                self.L[n].train(mode)
                self.compare(n, 'after-train' if mode else 'after-eval')


def _k(P):
    return hash(tuple((w.tobytes(), None if b is None else b.tobytes()) for w, b in P))


def run_case(c, mon):
    W = World(c['cfg'])
    dead = set()

    def go(seq):
        r = Run(W, c['init'], mon)
        r.hist = (c['init'],) + seq
        for i, o in enumerate(seq):
            try:
                r.op(o)
            except Disabled:
                dead.add(seq[:i + 1])
                return False
            mon.trans()
        r.final()
        mon.state(r.key())
        mon.trace()
        mon.outcome(*[bool(x) for x in (r.saved, r.exports, r.copies, r.mode['A'], r.mode['B'])])
        return True

    def rec(seq):
        if any(seq[:i] in dead for i in range(1, len(seq) + 1)):
            return
        if not go(seq):
            return
        if len(seq) < c['depth']:
            for o in c['ops']:
                rec(seq + (o,))
    f = tuple(c['first'])
    if len(f) == 2 and f[1] == c['ops'][0]:
        go(f[:1])
    rec(f)
    mon.sample({'configuration': c['cfg'], 'initial': c['init'], 'sequences starting with': c['first'], 'depth': c['depth']})


def finish(tot, outcomes, tier):
    if len(outcomes) < 16:
        return 'too few reachable combinations: %s' % sorted(outcomes)
