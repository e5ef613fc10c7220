"""P13: batch normalisations: all sequences of operations up to a depth, in lockstep with a statistics model, and
equivariance and independence of the samples in every state reached."""
import copy
import itertools
import math
import numpy as np
import torch
from mc import ref, reprs, spaces
from mc.core import Abort
from e2cnn import nn

PID = 'P13'
BOUNDS = {
    'quick': '4 classes x field lists (single, repeated, interleaved, several sizes; changed bases for the generic class) x (momentum {0.1, 0.5, none}, affine, eps {1e-5, 0.3}) (4 combinations, every value of each; x tracking); all sequences of up to 3 operations (4, with two batches and without copying, for one configuration per class) over {train, eval, forward of 3 batches with different shapes, reset statistics, reset parameters, assign parameters, save and load into a new layer, copy}; in every state reached by up to 2 operations: equivariance in both modes under generators (under all group elements in the initial state) and independence of the samples in evaluation',
    'thorough': 'all 12 combinations of the parameters; all sequences of up to 4 operations for every configuration (5 for one per class); every state up to 3 operations for equivariance under all group elements and independence',
}
ASSUMPTIONS = ['float32 tensors on the CPU']
TECHNIQUE = 'explicit-state exploration of all operation sequences on the real modules in lockstep with a statistics model'

TR, REG = ['trivial'], ['regular']


def I(*a):
    return ['irrep'] + list(a)


C2, C3, C4, D3, D4 = ['rot', 2, None], ['rot', 3, None], ['rot', 4, None], ['fliprot', 3, None, 0.], ['fliprot', 4, None, .5]
SO2, O2 = ['rot', -1, 2], ['fliprot', -1, 2, .5]
IND = lambda sid, i: ['ind', sid, i]
LISTS = {
    'InnerBatchNorm': [(C4, [REG, TR, REG, TR, REG]), (C4, [REG]), (C4, [REG, TR, REG]), (C4, [TR, ['quot', 2], REG, ['quot', 2], TR]), (D3, [['quot', [None, 3]], REG, TR, REG]), (C2, [REG, ['sum', [REG, TR], 'rt'], REG])],
    'NormBatchNorm': [(D4, [I(1, 1), I(1, 0), I(1, 1), I(1, 0), I(1, 1)]), (C4, [I(1)]), (C4, [I(1), I(2), I(1)]), (O2, [I(1, 0), I(1, 1), I(1, 2), I(1, 0), I(1, 0)]), (D4, [I(1, 1), ['sum', [I(1, 1), I(0, 2)], 's'], I(1, 1), I(0, 2)]), (SO2, [I(1), I(2), I(2)])],
    'InducedNormBatchNorm': [(D4, [IND([None, 4], [1]), IND([None, 2], [1]), IND([None, 4], [1]), IND([None, 2], [1]), IND([None, 4], [1])]), (D4, [IND([None, 4], [1])]), (D4, [IND([None, 4], [1]), IND([None, 2], [1]), IND([None, 4], [1])]), (O2, [IND([None, -1], [1]), IND([None, -1], [2])]), (C4, [IND(2, [1]), IND(2, [1])]), (D3, [IND([0, 1], [1]), IND([None, 3], [1]), IND([0, 1], [1])])],
    'GNormBatchNorm': [(D4, [I(1, 1), TR, I(1, 1), TR, I(1, 1)]), (C4, [REG]), (C4, [REG, I(1), TR, REG]), (O2, [I(1, 1), I(0, 0), I(1, 0), I(1, 1)]), (D3, [TR, REG, ['quot', [0, 1]], TR, I(1, 1)]), (C3, [['sumcob', [I(1), TR, TR], 'house', 'h'], TR, ['sumcob', [I(1), TR, TR], 'house', 'h']]), (C4, [['sumcob', [REG, I(1)], 'shear', 'q'], I(2)])],
}
OPS = ['train', 'eval', 'A', 'B', 'C', 'stats', 'params', 'assign', 'load', 'copy']
SHAPES = {'A': (2, 2, 2), 'B': (3, 1, 2), 'C': (2, 1, 1)}


def cases(tier):
    out = []
    for cls, ls in LISTS.items():
        for k, (s, f) in enumerate(ls):
            cfgs = [(m, a, e, True) for m in (.1, .5, None) for a in (True, False) for e in (1e-5, .3)]
            if cls == 'InnerBatchNorm':
                cfgs += [(.1, a, 1e-5, False) for a in (True, False)]
            for m, a, e, t in cfgs:
                deep = k == 2 and (m, a, e) == (None, True, .3) and t
                d = 4 if deep else 3 if k else 2        # the first lists hold three separate runs of one size
                if tier == 'quick' and t and (m, a, e) not in ((.1, True, 1e-5), (.5, True, .3), (.5, False, 1e-5), (None, True, .3)):
                    continue
                out.append({'cls': cls, 's': s, 'f': f, 'momentum': m, 'affine': a, 'eps': e, 'track': t, 'depth': d + (tier != 'quick'), 'probe': 2 + (tier != 'quick')})
    return out


def cost(c):
    return 10 ** c['depth'] * (len(c['f']) + 2)


def field(gs, d):
    return reprs.build(gs.fibergroup, d)


# ---------------------------------------------------------------------------------------------------- reference model
class Model:
    def __init__(self, c, t):
        self.c = c
        self.t = t
        self.cls = c['cls']
        self.training = True
        self.reps = t.representations
        off = np.cumsum([0] + [r.size for r in self.reps])
        self.off = off
        self.slots = []           # (field, list of channels in the working basis, has mean)
        self.cob = []
        for k, r in enumerate(self.reps):
            if self.cls == 'GNormBatchNorm':
                p = 0
                self.cob.append((np.array(r.change_of_basis), np.linalg.inv(r.change_of_basis)))
                for i in r.irreps:
                    ir = r.group.irreps[i]
                    triv = ir.size == 1 and all(abs(float(ir(e)[0, 0]) - 1) < 1e-9 for e in r.group.testing_elements())
                    self.slots.append((k, list(range(off[k] + p, off[k] + p + ir.size)), triv))
                    p += ir.size
            else:
                self.cob.append(None)
                self.slots.append((k, list(range(off[k], off[k + 1])), self.cls == 'InnerBatchNorm'))
        self.reset(True)

    def reset(self, params):
        n = len(self.slots)
        self.mean, self.var, self.count = np.zeros(n), np.ones(n), 0
        if params:
            self.weight, self.bias = np.ones(n), np.zeros(n)

    def clone(self):
        m = copy.copy(self)
        for a in ('mean', 'var', 'weight', 'bias'):
            setattr(m, a, getattr(self, a).copy())
        return m

    def to(self, x, inv):
        y = x.copy()
        for k, q in enumerate(self.cob):
            if q is not None:
                s = slice(self.off[k], self.off[k + 1])
                y[:, s] = np.einsum('ds,bsxy->bdxy', q[1] if inv else q[0], x[:, s])
        return y

    def sub(self, k):
        """Size of the vectors whose norm is normalised."""
        r = self.reps[k]
        if self.cls == 'InducedNormBatchNorm':
            return SUB[repr(self.c['f'][k])]
        return r.size

    def forward(self, x):
        c = self.c
        y = self.to(x.astype(np.float64), True)
        out = y.copy()
        stats = []
        for j, (k, ch, hasmean) in enumerate(self.slots):
            v = y[:, ch]
            b, n, h, w = v.shape
            if self.cls == 'InnerBatchNorm':
                N = v.size
                mu, var = v.mean(), v.var()
                unb = var * N / (N - 1)
            else:
                N = b * h * w * (n // self.sub(k) if self.cls == 'InducedNormBatchNorm' else 1)
                mu = v.mean() if hasmean else 0.
                unb = var = ((v ** 2).mean() - mu ** 2) * (N / (N - 1) if N > 1 else 1)
            stats.append((mu, var, unb))
        if self.training and c['track']:
            self.count += 1
            a = 1. / self.count if c['momentum'] is None else c['momentum']
            for j, (mu, var, unb) in enumerate(stats):
                self.mean[j] += a * (mu - self.mean[j])
                self.var[j] += a * (unb - self.var[j])
        batch = (self.training or not c['track'])
        for j, (k, ch, hasmean) in enumerate(self.slots):
            mu, var, unb = stats[j]
            if self.cls in ('NormBatchNorm', 'InducedNormBatchNorm') or not batch:
                mu, var = self.mean[j], self.var[j]      # the norm classes always use the accumulated statistics
            o = (y[:, ch] - mu) / math.sqrt(var + c['eps']) * self.weight[j]
            if hasmean:
                o = o + self.bias[j]
            out[:, ch] = o
        return self.to(out, False)

    def key(self):
        return (self.training, self.count, tuple(self.mean.round(6)), tuple(self.var.round(6)), tuple(self.weight), tuple(self.bias))


SUB = {}


def sub_size(gs, d):
    sg = gs.fibergroup.subgroup(ref.sid(d[1]))[0]
    return sg.irrep(*d[2]).size


def gen(shape, c, k):
    b, h, w = shape
    n = b * c * h * w
    i = np.arange(n)
    return (1.5 * np.sin(.9 * i + .31 * k + .0137 * i * i) + .4 * np.cos(.05 * i)).reshape(b, c, h, w).astype(np.float32)


def near(a, b, tol=2e-4):
    if a.shape != b.shape:
        return False
    return bool((np.abs(a - b) <= tol * (1 + np.abs(b))).all())


def run_case(c, mon):
    torch.set_num_threads(1)
    gs = spaces.build(c['s'])
    if c['cls'] == 'InducedNormBatchNorm':
        for d in c['f']:
            SUB[repr(d)] = sub_size(gs, d)
    t = nn.FieldType(gs, [field(gs, d) for d in c['f']])
    X = {k: gen(SHAPES[k], t.size, i) for i, k in enumerate('ABC')}
    GX = {k: nn.GeometricTensor(torch.tensor(x), t) for k, x in X.items()}
    kw = dict(eps=c['eps'], momentum=c['momentum'], affine=c['affine'])
    if c['cls'] == 'InnerBatchNorm':
        kw['track_running_stats'] = c['track']
    default = dict(eps=1e-5, momentum=.1, affine=True, track_running_stats=True)          # as documented
    kw = {k: v for k, v in kw.items() if v != default[k]}
    new = lambda: getattr(nn, c['cls'])(t, **kw)
    m0, r0 = new(), Model(c, t)

    # ---- which parameter belongs to which field?  found by changing one entry at a time
    probe = X['A']
    m0.eval()
    r0.training = False
    slots = {}
    params = list(m0.named_parameters())
    for name, p in params:
        for i in range(p.numel()):
            old = p.data.view(-1)[i].item()
            p.data.view(-1)[i] = old + 1
            y = m0(GX['A']).tensor.detach().numpy()
            p.data.view(-1)[i] = old
            hits = []
            for j in range(len(r0.slots)):
                for what in ('weight', 'bias'):
                    if what == 'bias' and not r0.slots[j][2]:
                        continue
                    r = r0.clone()
                    getattr(r, what)[j] += 1
                    if near(y, r.forward(probe)):
                        hits.append((what, j))
            if not mon.check(len(hits) == 1, 'parameter-scope', lambda: 'parameter %s[%d] does not act on exactly one statistic: %s' % (name, i, hits)):
                raise Abort()
            slots[(name, i)] = hits[0]
    want = {('weight', j) for j in range(len(r0.slots))} | {('bias', j) for j, s in enumerate(r0.slots) if s[2]}
    if not mon.check(sorted(slots.values()) == sorted(want if c['affine'] else []), 'parameters', lambda: 'parameters act on %s' % sorted(slots.values())):
        raise Abort()
    m0.train()
    r0.training = True
    els = [e for e in ref.elements(spaces.group(c['s']), 6)][1:]
    moved = {(k, e): GX[k].transform_fibers(e) for k in X for e in els}
    rho = {e: np.array(t.representation(e)) for e in els}

    gens = [els[0]] + [e for e in els if isinstance(e, tuple) and e[0] == 1][:1]

    def assign(m, r):
        for name, p in m.named_parameters():
            for i in range(p.numel()):
                what, j = slots[(name, i)]
                v = 1.5 + .25 * j if what == 'weight' else .3 * j - .7
                p.data.view(-1)[i] = v
                getattr(r, what)[j] = v

    def apply(op, m, r):
        """-> module after the operation (or None if not applicable); the model is changed in place."""
        if op == 'train':
            m.train()
            r.training = True
        elif op == 'eval':
            m.eval()
            r.training = False
        elif op in X:
            y = m(GX[op])
            z = r.forward(X[op])
            mon.trace()
            mon.check(y.type == t, 'output-type')
            mon.check(near(y.tensor.detach().numpy(), z), 'output', lambda: 'after %s: forward(%s) differs from the model by %.3g\n%s' % (list(path), op, np.abs(y.tensor.detach().numpy() - z).max(), (y.tensor.detach().numpy().ravel()[:8], z.ravel()[:8])))
            mon.check(np.array_equal(GX[op].tensor.numpy(), X[op]), 'input-changed')
        elif op == 'stats':
            m.reset_running_stats()
            r.reset(False)
        elif op == 'params':
            m.reset_parameters()
            r.reset(True)
        elif op == 'assign':
            assign(m, r)
        elif op == 'load':
            n = new()
            n.train(m.training)
            sd = {k: v.clone() for k, v in m.state_dict().items()}
            n.load_state_dict(sd)
            return n
        elif op == 'copy':
            return copy.deepcopy(m)
        return m

    path = []

    def inspect(m, r):
        """Equivariance in both modes and independence of the samples in this state."""
        for mode in (True, False):
            for k in ('A', 'C') if not path else ('A',):
                base = copy.deepcopy(m).train(mode)
                y = base(GX[k]).tensor.detach().numpy()
                after = None
                for e in els if c['probe'] > 2 or not path else gens:
                    g = copy.deepcopy(m).train(mode) if mode else base
                    z = g(moved[k, e])
                    mon.trans()
                    mon.check(near(z.tensor.detach().numpy(), np.einsum('dc,bcxy->bdxy', rho[e], y), 5e-4), 'equivariance', lambda: 'state %s, training %s, element %s' % (path, mode, e))
                    if mode and c['track']:
                        g.eval()
                        if after is None:
                            base.eval()
                            after = base(GX['B']).tensor.detach().numpy()
                        mon.check(near(g(GX['B']).tensor.detach().numpy(), after, 5e-4), 'statistics-not-invariant', lambda: 'state %s element %s' % (path, e))
        if c['track']:
            ev = copy.deepcopy(m).eval()
            for k in 'AB':
                y = ev(GX[k]).tensor.detach().numpy()
                mon.check(np.array_equal(ev(GX[k]).tensor.detach().numpy(), y), 'not-deterministic', lambda: 'state %s' % (path,))
                for i in range(len(y)):
                    one = ev(nn.GeometricTensor(GX[k].tensor[i:i + 1], t)).tensor.detach().numpy()
                    mon.check(near(one[0], y[i], 1e-5), 'depends-on-other-samples', lambda: 'state %s' % (path,))

    def explore(m, r, depth):
        mon.state(tuple(path), r.key())
        if len(path) <= c['probe'] and (not path or path[-1] not in ('copy', 'load')):
            key = r.key()
            if key not in inspected:
                inspected.add(key)
                inspect(m, r)
        if depth == 0:
            return
        for op in ops:
            if op in ('copy',) and len(path) == c['depth'] - 1:
                continue
            m2, r2 = copy.deepcopy(m), r.clone()
            path.append(op)
            mon.trans()
            m2 = apply(op, m2, r2)
            if depth == 1 and op not in X:
                # the last operation has to be observed
                apply('A', copy.deepcopy(m2), r2.clone())
            explore(m2, r2, depth - 1)
            path.pop()

    ops = [o for o in OPS if o not in ('C', 'copy')] if c['depth'] > 3 and c['probe'] == 2 else OPS
    inspected = set()
    explore(m0, r0, c['depth'])
    mon.outcome(c['cls'], len(t))
    mon.sample({'cls': c['cls'], 'fields': c['f'], 'space': c['s'], 'momentum': c['momentum'], 'depth': c['depth']})
