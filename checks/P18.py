"""P18: weight initialisation.  The random generator is the environment: its draws are intercepted at the dispatcher of
torch and enumerated (all unit draws, all ones, zeros, negated), which determines the covariance of the weights exactly.
Which input and output irreducible field a weight connects is read off the filter it expands to, not off the attributes
which the initialisation itself uses."""
import itertools
import json
import numpy as np
import torch
from scipy.linalg import block_diag
from torch.utils._python_dispatch import TorchDispatchMode
from e2cnn import nn
from mc import ref, reprs, spaces, zoo

PID = 'P18'
TITLE = 'Weight initialisation has its documented scale and structure'
BOUNDS = {
    'quick': '7 symmetry spaces x all ordered pairs of field lists in an alphabet of lists of up to 4 fields (interleaved, repeated, changed bases) x kernel sizes 1, 3, 5 x convolution, transposed convolution and '
             'differential operator layers; all unit draws of the generator; delta-orthogonal initialisation for 3 states of the generators',
    'thorough': '11 symmetry spaces, more field lists, kernel sizes up to 7, 6 states of the generators',
}
ASSUMPTIONS = ['changes of basis in the delta-orthogonal part are orthogonal', 'odd kernel sizes for the delta-orthogonal part (even kernels have no central pixel)',
               'the random numbers come from torch (any of its normal generators)']
CHUNK = 2

TR, REG = ['trivial'], ['regular']


def I(*a):
    return ['irrep'] + list(a)


class Draws(TorchDispatchMode):
    """Replaces every standard normal number drawn by torch: unit(k) is the k-th draw."""

    def __init__(self, unit):
        super().__init__()
        self.unit, self.n = unit, 0

    def take(self, t):
        v = torch.tensor([float(self.unit(self.n + i)) for i in range(t.numel())], dtype=t.dtype).reshape(t.shape)
        self.n += t.numel()
        return v

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        name = str(func)
        if name.startswith('aten.randn'):
            out = func(*args, **kwargs)
            return out.copy_(self.take(out))
        if name.startswith('aten.normal_'):
            a = list(args) + [kwargs.get('mean', 0.), kwargs.get('std', 1.)][len(args) - 1:]
            return args[0].copy_(a[1] + a[2] * self.take(args[0]))
        if name.startswith('aten.normal'):
            out = func(*args, **kwargs)
            mean, std = (list(args) + [kwargs.get('std', 1.)])[:2]
            return out.copy_(mean + std * self.take(out))
        return func(*args, **kwargs)


def lists(s):
    """Field lists on a space."""
    g = spaces.group(s)
    if g[0] == 'C':
        N = g[1]
        if N == 1:
            return [[TR], [TR, TR, TR]]
        v = I(1)
        w = I(N // 2) if N > 2 else I(1)
        L = [[TR], [v], [TR, v], [v, TR, v], [REG], [REG, TR, v, REG], [v, w, TR], [['sumcob', [v, I(0)], 'house', 'q'], TR]]
        if N % 2 == 0 and N > 2:
            L += [[['quot', 2], REG], [TR, ['quot', 2], TR, ['quot', 2]]]
        return L
    if g[0] == 'D':
        v = I(1, 1) if g[1] > 2 else I(1, 1)
        L = [[TR], [v], [I(1, 0), TR], [v, TR, v], [REG], [TR, REG, I(1, 0), v], [['quot', [None, g[1]]], v], [['sumcob', [v, I(0, 0)], 'house', 'q'], I(1, 0), I(1, 0)]]
        return L
    if g[0] == 'SO2':
        return [[I(0)], [I(1)], [I(2), I(0), I(1)], [I(1), I(0), I(1)], [['sumcob', [I(1), I(0)], 'house', 'q'], I(0)]]
    return [[I(0, 0)], [I(1, 1)], [I(1, 2), I(1, 0), I(0, 0)], [I(1, 1), I(0, 0), I(1, 1)], [['induced', [None, -1], [1]], I(0, 0)], [['sumcob', [I(1, 1), I(0, 0)], 'house', 'q'], I(1, 0), I(1, 1)]]


def cases(tier):
    sp = [['triv'], ['flip', .5], ['rot', 3, None], ['rot', 4, None], ['rot', -1, 2], ['fliprot', 4, None, .5], ['fliprot', -1, 2, .5]]
    if tier != 'quick':
        sp += [['rot', 2, None], ['rot', 8, None], ['fliprot', 3, None, 0.], ['fliprot', 2, None, .25]]
    out = []
    for s in sp:
        n = len(lists(s))
        for i, j in itertools.product(range(n), repeat=2):
            out.append({'s': s, 'i': i, 'j': j, 'tier': tier})
    return out


def cost(c):
    return c['i'] + c['j']


def irreps_of(t):
    """[(kind, start, size)] of the irreducible fields of a type, in irreps coordinates."""
    out, p = [], 0
    for r in t.representations:
        for name in r.irreps:
            n = r.group.irreps[name].size
            out.append((name, p, n))
            p += n
    return out


def irreps_filter(be, w, ti, to):
    """The filter of the weights w in irreps coordinates."""
    K = be(w).detach().numpy().astype(float)
    Qo = np.linalg.inv(block_diag(*[r.change_of_basis for r in to.representations]))
    Qi = block_diag(*[r.change_of_basis for r in ti.representations])
    return np.einsum('ab,bcs,cd->ads', Qo, K.reshape(K.shape[0], K.shape[1], -1), Qi)


def layers(ti, to, tier):
    ks = (1, 3, 5) if tier == 'quick' else (1, 3, 4, 5, 7)
    for k in ks:
        yield 'R2Conv', dict(kernel_size=k)
    yield 'R2ConvTransposed', dict(kernel_size=3)
    yield 'R2Diffop', dict(kernel_size=3)
    if tier != 'quick':
        yield 'R2Diffop', dict(kernel_size=5)
        yield 'R2Conv', dict(kernel_size=3, dilation=2)
    yield 'R2Conv', dict(kernel_size=3, basis_filter=lambda a: a.get('frequency', 0) <= 1)


def he(be, unit, cache):
    w = torch.full((be.dimension(),), 7.)
    with Draws(unit) as d:
        nn.init.generalized_he_init(w, be, cache=cache)
    return w.double().numpy(), d.n


def run_case(c, mon):
    al = lists(c['s'])
    ti, to = zoo.ftype(c['s'], al[c['i']]), zoo.ftype(c['s'], al[c['j']])
    for kind, kw in layers(ti, to, c['tier']):
        label = lambda *a: (c['s'], al[c['i']], al[c['j']], kind, {k: str(v)[:20] for k, v in kw.items()}) + a
        try:
            m = getattr(nn, kind)(ti, to, initialize=False, **kw)
        except ValueError as e:
            if 'basis' in str(e).lower():
                mon.outcome('empty', kind)
                continue
            raise
        be = m.basisexpansion
        n = be.dimension()
        if n == 0:
            continue
        mon.outcome('layer', kind)
        # which irreducible fields does each weight connect?
        ii, oo = irreps_of(ti), irreps_of(to)
        conn = []
        F = [irreps_filter(be, torch.eye(n)[w], ti, to) for w in range(n)]
        for w in range(n):
            nz = [(a, b) for a, (_, p, s) in enumerate(oo) for b, (_, q, t) in enumerate(ii) if np.abs(F[w][p:p + s, q:q + t]).max() > 1e-4]
            if not mon.check(len(nz) == 1, 'a-weight-connects-one-pair', lambda: label(w, nz)):
                break
            conn.append(nz[0])
        if len(conn) < n:
            continue
        kinds, count = {}, {}
        for a, b in conn:
            kinds.setdefault(a, set()).add(ii[b][0])
            count[a, ii[b][0]] = count.get((a, ii[b][0]), 0) + 1
        var = np.array([1. / (len(kinds[a]) * count[a, ii[b][0]]) for a, b in conn])
        # all unit draws: the covariance of the weights
        for cache in (False, True):
            ones, total = he(be, lambda k: 1., cache)
            mon.check(total >= n, 'draws', lambda: label(total, n))
            cols = range(total) if not cache or c['tier'] != 'quick' else ()
            A = np.stack([he(be, lambda k, j=j: float(k == j), cache)[0] for j in cols], 1) if len(cols) else None
            mon.trans(len(cols) + 3)
            mon.trace(len(cols) + 1)
            mon.state(*label(cache, n))
            if A is not None:
                for j in cols:
                    mon.state(*label(cache, j))
                cov = A @ A.T
                mon.check(np.abs(cov - np.diag(var)).max() < 1e-4, 'covariance', lambda: label('expected', var[:12], 'got', np.diag(cov)[:12], 'off-diagonal', np.abs(cov - np.diag(np.diag(cov))).max()))
            mon.check(np.abs(ones ** 2 - var).max() < 1e-4, 'variance', lambda: label('cache', cache, 'expected', var[:12], 'got', (ones ** 2)[:12]))
            mon.check(np.abs(he(be, lambda k: 0., cache)[0]).max() == 0 and np.abs(he(be, lambda k: -1., cache)[0] + ones).max() < 1e-6, 'zero-mean', lambda: label(cache))
            for a in kinds:
                mon.check(abs(sum(ones[w] ** 2 for w in range(n) if conn[w][0] == a) - 1) < 1e-4, 'sums-to-one', lambda: label(a))
        # the default initialisation of the layer is this one
        with Draws(lambda k: 1.):
            m2 = getattr(nn, kind)(ti, to, **kw)
        mon.trans()
        mon.check(np.abs(m2.weights.detach().double().numpy() ** 2 - var).max() < 1e-4, 'default-initialisation', lambda: label('expected', var[:12], 'got', (m2.weights.detach().numpy() ** 2)[:12]))
        # determined by the state of the generator
        r = []
        for k in (0, 0, 1):
            torch.manual_seed(k)
            w = torch.zeros(n)
            nn.init.generalized_he_init(w, be)
            r.append(w)
        mon.check(torch.equal(r[0], r[1]) and not torch.equal(r[0], r[2]), 'generator', lambda: label())
        if 'basis_filter' in kw or kw['kernel_size'] % 2 == 0:
            continue
        delta(be, ti, to, F, conn, ii, oo, mon, label, c['tier'])


def delta(be, ti, to, F, conn, ii, oo, mon, label, tier):
    n = be.dimension()
    S = F[0].shape[-1]
    mid = S // 2
    for seed in range(3 if tier == 'quick' else 6):
        r = []
        for _ in range(2):
            np.random.seed(seed)
            torch.manual_seed(seed)
            w = torch.full((n,), 3.)
            nn.init.deltaorthonormal_init(w, be)
            r.append(w)
        mon.check(torch.equal(*r), 'generator-delta', lambda: label(seed))
        K = irreps_filter(be, r[0], ti, to)
        mon.trans()
        mon.trace()
        mon.state(*label('delta', seed))
        off = np.delete(K, mid, axis=-1)
        mon.check(off.size == 0 or np.abs(off).max() < 1e-4, 'zero-away-from-centre', lambda: label(np.abs(off).max()))
        M = K[:, :, mid]
        for ka in sorted({x[0] for x in oo}):
            rows = [p + t for (nm, p, s) in oo if nm == ka for t in range(s)]
            for kb in sorted({x[0] for x in ii}):
                cols = [p + t for (nm, p, s) in ii if nm == kb for t in range(s)]
                B = M[np.ix_(rows, cols)]
                if ka != kb:
                    mon.check(np.abs(B).max() < 1e-4, 'different-kinds-are-not-mixed', lambda: label(ka, kb, B))
                    continue
                G = B @ B.T if len(rows) <= len(cols) else B.T @ B
                mon.check(np.abs(G - np.eye(len(G))).max() < 1e-3, 'isometry', lambda: label(ka, len(rows), len(cols), np.round(G, 3).tolist()))
                mon.outcome('isometry', 'wide' if len(rows) < len(cols) else 'tall' if len(rows) > len(cols) else 'square', len(B) > 1)


def finish(tot, outcomes, tier):
    for k in ('R2Conv', 'R2ConvTransposed', 'R2Diffop'):
        if repr(('layer', k)) not in outcomes:
            return 'no layer of class ' + k
    for k in ('wide', 'tall', 'square'):
        if repr(('isometry', k, True)) not in outcomes:
            return 'no %s isometry' % k
