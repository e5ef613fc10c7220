"""P14: pooling, upsampling, masking and dropout: every configuration in the bound against the definition written out with
loops, under all fiber transformations and all lattice symmetries; dropout for every mask outcome."""
import itertools
import math
import numpy as np
import torch
from mc import ref, reprs, spaces, zoo
from e2cnn import nn

PID = 'P14'
BOUNDS = {
    'quick': '9 modules x all configurations of kernel size {1,2,3,(2,3)}, stride {default,1,2,(2,1),3}, padding, dilation, ceiling mode, sigma, output size, scale, interpolation mode, mask size 3-8 and margin over contiguous and interleaved field lists; images of 5x5, 6x6, 6x7 pixels: every impulse for the linear modules, generic, negative and mixed images for the others; all group elements on the fibers, all quarter turns and reflections whenever the sampling grid is symmetric; dropout with probability {0, 0.25, 0.5, 0.9, 1}, in place or not, all keep/drop outcomes of up to 4 fields',
    'thorough': 'also 4 field lists per module instead of 2 and images of 7x7, 8x8, 7x5 pixels',
}
ASSUMPTIONS = ['float32 tensors on the CPU', 'no ties between the norms compared by norm pooling']
TECHNIQUE = 'exhaustive enumeration of module configurations x images x symmetries on the real modules, against definitions written out with loops'

MODS = ['PointwiseMaxPool', 'PointwiseMaxPoolAntialiased', 'PointwiseAvgPool', 'PointwiseAvgPoolAntialiased', 'PointwiseAdaptiveAvgPool', 'PointwiseAdaptiveMaxPool', 'NormMaxPool', 'R2Upsampling']
LINEAR = {'PointwiseAvgPool', 'PointwiseAvgPoolAntialiased', 'PointwiseAdaptiveAvgPool', 'R2Upsampling', 'MaskModule'}
TR, REG, I = zoo.TR, zoo.REG, zoo.I


def entries(tier):
    out = [d for d in zoo.zoo(tier) if d['m'] in MODS]
    for s, f in zoo.ANY + zoo.POINTWISE:
        for S in range(1, 9):
            for mg in (0., 2., 20., 50.):
                out.append(zoo.entry('MaskModule', s, f, S=S, margin=mg))
    for s, f in ((zoo.D4, [REG]), (zoo.C2, [REG, TR, REG])):
        for k, st in itertools.product([1, 2, 3], [1, 2]):
            out.append(zoo.entry('PointwiseMaxPool', s, f, kernel_size=k, stride=st, padding=0, dilation=1, ceil_mode=False))
            out.append(zoo.entry('PointwiseMaxPoolAntialiased', s, f, kernel_size=k, stride=st, padding=0, ceil_mode=False, sigma=.6))
    for s, f in ((zoo.D4, [I(1, 1), TR, I(1, 1), I(0, 2), I(1, 1)]), (zoo.SO2, [I(1), I(2), I(0)])):
        for k, st, p in itertools.product([1, 2, 3], [1, 2], [0, 1]):
            if 2 * p <= k:
                out.append(zoo.entry('NormMaxPool', s, f, kernel_size=k, stride=st, padding=p, dilation=1, ceil_mode=False))
    return out


DROPF = [(zoo.C4, [I(1), TR, I(1), TR, I(1)]), (zoo.D4, [TR, REG, TR, REG, TR]), (zoo.C4, [REG]), (zoo.C4, [I(1), TR, I(1)]), (zoo.C4, [TR, REG, TR]), (zoo.D4, [I(1, 1), I(1, 1), TR]), (zoo.O2, [I(1, 1), I(0, 0), I(1, 2), I(1, 0)]), (zoo.C4, [REG, TR, ['quot', 2], TR])]


def cases(tier):
    es = entries(tier)
    n = 24
    out = [{'kind': 'fun', 'tier': tier, 'part': es[i:i + n]} for i in range(0, len(es), n)]
    for s, f in DROPF:
        for cls in ('FieldDropout', 'PointwiseDropout'):
            for p in (0., .25, .5, .9, 1.):
                for ip in (False, True):
                    out.append({'kind': 'drop', 'cls': cls, 's': s, 'f': f, 'p': p, 'inplace': ip})
    return out


# ------------------------------------------------------------------------------------------------- definitions
def pair(x):
    return tuple(x) if isinstance(x, (list, tuple)) else (x, x)


def out_size(n, k, s, p, d, ceil):
    o = (n + 2 * p - d * (k - 1) - 1) / s
    o = (math.ceil(o) if ceil else math.floor(o)) + 1
    if ceil and (o - 1) * s >= n + p:
        o -= 1                      # a window has to start inside the image or its leading margin
    return o


def windows(shape, k, s, p, d, ceil):
    k, s, p, d = pair(k), pair(k if s is None else s), pair(p), pair(d)
    axes = []
    for n, kk, ss, pp, dd in zip(shape, k, s, p, d):
        axes.append([[i * ss - pp + j * dd for j in range(kk)] for i in range(out_size(n, kk, ss, pp, dd, ceil))])
    return axes


def maxpool(x, k, s, p, d=1, ceil=False):
    ay, ax = windows(x.shape[2:], k, s, p, d, ceil)
    H, W = x.shape[2:]
    y = np.full(x.shape[:2] + (len(ay), len(ax)), -np.inf)
    for a, wy in enumerate(ay):
        for b, wx in enumerate(ax):
            for i in wy:
                for j in wx:
                    if 0 <= i < H and 0 <= j < W:
                        y[:, :, a, b] = np.maximum(y[:, :, a, b], x[:, :, i, j])
    return y


def avgpool(x, k, s, p, ceil=False):
    ay, ax = windows(x.shape[2:], k, s, p, 1, ceil)
    H, W = x.shape[2:]
    ph, pw = pair(p)
    y = np.zeros(x.shape[:2] + (len(ay), len(ax)))
    for a, wy in enumerate(ay):
        for b, wx in enumerate(ax):
            n = 0
            for i in wy:
                for j in wx:
                    if i < H + ph and j < W + pw:        # the margin counts, what lies beyond it does not
                        n += 1
                        if 0 <= i < H and 0 <= j < W:
                            y[:, :, a, b] += x[:, :, i, j]
            y[:, :, a, b] /= n
    return y


def conv(x, f, s, p):
    s, p = pair(s), pair(p)
    H, W = x.shape[2:]
    k = len(f)
    xp = np.zeros(x.shape[:2] + (H + 2 * p[0], W + 2 * p[1]))
    xp[:, :, p[0]:p[0] + H, p[1]:p[1] + W] = x
    oh, ow = (xp.shape[2] - k) // s[0] + 1, (xp.shape[3] - k) // s[1] + 1
    y = np.zeros(x.shape[:2] + (oh, ow))
    for i in range(k):
        for j in range(k):
            y += f[i, j] * xp[:, :, i:i + (oh - 1) * s[0] + 1:s[0], j:j + (ow - 1) * s[1] + 1:s[1]]
    return y


def gauss(n, sigma):
    c = (n - 1) / 2.
    g = np.array([[math.exp(-((i - c) ** 2 + (j - c) ** 2) / (2 * sigma ** 2)) for j in range(n)] for i in range(n)])
    return g / g.sum()


def adaptive(x, o, fn):
    o = pair(o)
    H, W = x.shape[2:]
    y = np.zeros(x.shape[:2] + o)
    for a in range(o[0]):
        for b in range(o[1]):
            y[:, :, a, b] = fn(x[:, :, a * H // o[0]:-(-(a + 1) * H // o[0]), b * W // o[1]:-(-(b + 1) * W // o[1])])
    return y


def resize(x, o, scale, mode, align):
    """scale: None if the output size was given"""
    M = []
    for n, m in zip(x.shape[2:], o):
        A = np.zeros((m, n))
        for i in range(m):
            r = n / m if scale is None else 1. / scale
            if mode == 'nearest':
                A[i, min(int(math.floor(i * r + 1e-9)), n - 1)] = 1
                continue
            if align:
                src = i * (n - 1) / (m - 1) if m > 1 else 0.
            else:
                src = max((i + .5) * r - .5, 0.)
            lo = min(int(src), n - 1)
            hi = min(lo + 1, n - 1)
            t = src - lo
            A[i, lo] += 1 - t
            A[i, hi] += t
        M.append(A)
    return np.einsum('ai,bcij,dj->bcad', M[0], x, M[1])


def model(d, t, x):
    m, kw = d['m'], d['kw']
    if m == 'PointwiseMaxPool':
        return maxpool(x, kw['kernel_size'], kw['stride'], kw['padding'], kw['dilation'], kw['ceil_mode'])
    if m == 'PointwiseAvgPool':
        return avgpool(x, kw['kernel_size'], kw['stride'], kw['padding'], kw['ceil_mode'])
    if m == 'PointwiseMaxPoolAntialiased':
        n = 2 * int(round(4 * kw['sigma'])) + 1
        st = kw['kernel_size'] if kw['stride'] is None else kw['stride']
        return conv(maxpool(x, kw['kernel_size'], 1, kw['padding'], 1, kw['ceil_mode']), gauss(n, kw['sigma']), st, tuple(p + n // 2 for p in pair(kw['padding'])))
    if m == 'PointwiseAvgPoolAntialiased':
        n = 2 * int(round(3 * kw['sigma'])) + 1
        return conv(x, gauss(n, kw['sigma']), kw['stride'], n // 2 if kw['padding'] is None else kw['padding'])
    if m == 'PointwiseAdaptiveAvgPool':
        return adaptive(x, kw['output_size'], lambda w: w.mean((2, 3)))
    if m == 'PointwiseAdaptiveMaxPool':
        return adaptive(x, kw['output_size'], lambda w: w.max((2, 3)))
    if m == 'NormMaxPool':
        out, c = [], 0
        for r in t.representations:
            v = x[:, c:c + r.size]
            c += r.size
            n = np.sqrt((v ** 2).sum(1, keepdims=True))
            ay, ax = windows(x.shape[2:], kw['kernel_size'], kw['stride'], kw['padding'], kw['dilation'], kw['ceil_mode'])
            y = np.zeros(v.shape[:2] + (len(ay), len(ax)))
            for a, wy in enumerate(ay):
                for b, wx in enumerate(ax):
                    pts = [(i, j) for i in wy for j in wx if 0 <= i < x.shape[2] and 0 <= j < x.shape[3]]
                    for k in range(len(x)):
                        i, j = max(pts, key=lambda q: n[k, 0, q[0], q[1]])
                        y[k, :, a, b] = v[k, :, i, j]
            out.append(y)
        return np.concatenate(out, 1)
    if m == 'R2Upsampling':
        sc = kw.get('scale_factor')
        o = pair(kw['size']) if sc is None else tuple(int(math.floor(n * sc)) for n in x.shape[2:])
        return resize(x, o, sc, kw['mode'], kw['align_corners'])
    if m == 'MaskModule':
        S = kw['S']
        c = (S - 1) / 2.
        R2 = (c * (1 - kw['margin'] / 100.)) ** 2
        M = np.array([[math.exp(min(0., (R2 - (i - c) ** 2 - (j - c) ** 2) / 4.)) for j in range(S)] for i in range(S)])
        return x * M
    raise KeyError(m)


def symmetric(d, S):
    """Does the sampling grid of this configuration map to itself under quarter turns and reflections?"""
    m, kw = d['m'], d['kw']
    iso = all(not isinstance(v, list) or v[0] == v[1] for v in kw.values())
    if not iso:
        return False
    if m == 'MaskModule':
        return True
    if m.startswith('PointwiseAdaptive'):
        return True
    if m == 'R2Upsampling':
        if kw['mode'] == 'nearest':
            sc = kw.get('scale_factor')
            return sc is not None and float(sc).is_integer()
        sc = kw.get('scale_factor')
        return sc is None or kw['align_corners'] or float(S * sc).is_integer()
    if m == 'PointwiseAvgPoolAntialiased':
        n = 2 * int(round(3 * kw['sigma'])) + 1
        p = n // 2 if kw['padding'] is None else pair(kw['padding'])[0]
        return (S + 2 * p - n) % pair(kw['stride'])[0] == 0
    k, p = pair(kw['kernel_size'])[0], pair(kw['padding'])[0]
    st = k if kw['stride'] is None else pair(kw['stride'])[0]
    if m == 'PointwiseMaxPoolAntialiased':
        return (S + 2 * p - k + 2 * p) % st == 0
    dd = pair(kw.get('dilation', 1))[0]
    return (S + 2 * p - dd * (k - 1) - 1) % st == 0


def feasible(d, hw):
    kw = d['kw']
    if 'S' in kw:
        return hw == (kw['S'], kw['S'])
    if 'kernel_size' in kw:
        k, p, dd = pair(kw['kernel_size']), pair(kw['padding']), pair(kw.get('dilation', 1))
        return all(n + 2 * a >= b * (c - 1) + 1 for n, a, b, c in zip(hw, p, dd, k))
    if 'sigma' in kw:
        n = 2 * int(round(3 * kw['sigma'])) + 1
        p = pair(n // 2 if kw['padding'] is None else kw['padding'])
        return all(a + 2 * b >= n for a, b in zip(hw, p))
    return True


def images(d, c, hw):
    """Linear modules: all impulses of one channel pattern, which determine the map; others: images covering signs and orders."""
    H, W = hw
    n = 2 * c * H * W
    i = np.arange(n)
    g = (2 * np.sin(.9 * i + .0137 * i * i)).reshape(2, c, H, W)
    if d['m'] in LINEAR:
        imp = np.zeros((H * W, c, H, W))
        for j in range(H * W):
            imp[j, :, j // W, j % W] = np.arange(1, c + 1)
        return [g, imp]
    ramp = (np.arange(n) * 7919 % n / n - .3712345).reshape(2, c, H, W)
    return [g, -np.abs(g) - .1, ramp]


def near(a, b, tol=1e-4):
    return a.shape == b.shape and bool((np.abs(a - b) <= tol * (1 + np.abs(b))).all())


def run_fun(c, mon):
    sizes = [(5, 5), (6, 6), (6, 7)] + ([] if c['tier'] == 'quick' else [(7, 7), (8, 8), (7, 5)])
    for d in c['part']:
        m, ts = zoo.build(d)
        t = ts[0]
        mon.state(d['m'], d['s'], d['f'], d['kw'])
        g = spaces.group(d['s'])
        els = ref.elements(g, 8)
        rho = {e: np.array(t.representation(e)) for e in els}
        done = 0
        for hw in ([(d['kw']['S'],) * 2] if 'S' in d['kw'] else [q for q in sizes if feasible(d, q)] or [(9, 9)]):
            if not feasible(d, hw):
                continue
            for k, x in enumerate(images(d, t.size, hw)):
                xt = torch.tensor(x, dtype=torch.float32)
                x = xt.numpy().astype(np.float64)
                keep = xt.clone()

                def go(a):
                    mon.trans()
                    y = m(nn.GeometricTensor(torch.tensor(a, dtype=torch.float32), t))
                    assert y.type == t
                    return y.tensor.detach().numpy()
                for mode in (True, False):
                    m.train(mode)
                    y = m(nn.GeometricTensor(xt, t))
                    mon.trans()
                    mon.trace()
                    z = model(d, t, x)
                    ok = mon.check(near(y.tensor.detach().numpy(), z), 'definition', lambda: '%s on %s images (training %s): %s' % (d, hw, mode, (y.tensor.shape, z.shape, np.abs(y.tensor.detach().numpy() - z).max() if y.tensor.shape == z.shape else None)))
                    mon.check(y.type == t, 'type', d)
                    mon.check(torch.equal(xt, keep), 'input-changed', d)
                y = y.tensor.detach().numpy()
                done += 1
                if x.shape[0] > 2:
                    continue
                for e in els[1:]:
                    if not mon.check(near(go(np.einsum('dc,bcij->bdij', rho[e], x)), np.einsum('dc,bcij->bdij', rho[e], y), 1e-3), 'fiber-equivariance', lambda: (d, hw, e)):
                        break
                if hw[0] == hw[1] and symmetric(d, hw[0]):
                    for e in els[1:]:
                        P = spaces.plane(d['s'], e)
                        if not spaces.is_lattice(P):
                            continue
                        mon.outcome('lattice', d['m'])
                        A = lambda v: np.einsum('dc,bcij->bdij', rho[e], spaces.grid_perm(P, v))
                        if not mon.check(near(go(A(x)), A(y), 1e-3), 'lattice-equivariance', lambda: (d, hw, e)):
                            break
        assert done, d


# ---------------------------------------------------------------------------------------------------------- dropout
def run_drop(c, mon):
    t = zoo.ftype(c['s'], c['f'])
    p = c['p']
    try:
        m = getattr(nn, c['cls'])(t, p=p, inplace=c['inplace'])
    except AssertionError:
        mon.check(c['cls'] == 'PointwiseDropout' and not all('pointwise' in r.supported_nonlinearities for r in t.representations), 'refused', c)
        mon.outcome('refused')
        return
    off = np.cumsum([0] + [r.size for r in t.representations])
    n = len(t) if c['cls'] == 'FieldDropout' else t.size
    if c['cls'] == 'PointwiseDropout':
        off = np.arange(t.size + 1)
    b, h, w = 2, 4, 4
    i = np.arange(b * t.size * h * w)
    x0 = torch.tensor((np.sin(i) + 1.5) * (-1.) ** (i // 3), dtype=torch.float32).reshape(b, t.size, h, w)
    kept = dropped = 0
    patterns, marg = set(), np.zeros((n, 2))
    nb = {(k, ax): set() for k in range(n) for ax in range(3)}
    for seed in range(40):
        torch.manual_seed(seed)
        m.train()
        x = x0.clone()
        y = m(nn.GeometricTensor(x, t))
        mon.trans()
        mon.check(y.type == t, 'type')
        v = y.tensor.detach()
        if c['inplace']:
            mon.check(torch.equal(v, x), 'not-in-place', lambda: 'the input does not hold the result')
        else:
            mon.check(torch.equal(x, x0), 'input-changed')
            mon.check(v.data_ptr() != x.data_ptr() or torch.equal(v, x0), 'aliased')
        mask = np.zeros((n, b, h, w), dtype=int)
        ok = True
        for k in range(n):
            a, o = x0[:, off[k]:off[k + 1]].numpy(), v[:, off[k]:off[k + 1]].numpy()
            zero = (o == 0).all(1)
            full = (np.abs(o - a / (1 - p if p < 1 else 1)) <= 1e-4 * np.abs(o) + 1e-6).all(1)
            ok = mon.check(bool((zero | full).all()), 'partial-drop', lambda: (c, 'field %d: neither dropped nor kept and rescaled' % k)) and ok
            mask[k] = full & ~zero
        if not ok:
            return
        mon.trace()
        patterns |= {tuple(q) for q in mask.reshape(n, -1).T}
        for k in range(n):
            for ax in range(3):
                u, l = np.moveaxis(mask[k], ax, 0)[1:].ravel(), np.moveaxis(mask[k], ax, 0)[:-1].ravel()
                nb[k, ax] |= set(zip(u.tolist(), l.tolist()))
        marg[:, 0] += mask.reshape(n, -1).sum(1)
        marg[:, 1] += mask[0].size
        for q in patterns:
            mon.state(q)
        # evaluation: identity
        m.eval()
        x = x0.clone()
        y = m(nn.GeometricTensor(x, t))
        mon.trans()
        mon.check(torch.equal(y.tensor, x0) and torch.equal(x, x0) and y.type == t, 'eval-not-identity', c)
    if p == 0.:
        mon.check(patterns == {(1,) * n}, 'p=0-drops', lambda: len(patterns))
    elif p == 1.:
        mon.check(patterns == {(0,) * n}, 'p=1-keeps', lambda: len(patterns))
    else:
        if n <= 4:
            expected = 1280 * min(p, 1 - p) ** n
            if expected > 30:
                mon.check(len(patterns) == 2 ** n, 'fields-not-independent', lambda: 'outcomes seen: %s' % sorted(patterns))
        if .25 <= p <= .75:
            mon.check(all(len(v) == 4 for v in nb.values()), 'points-not-independent', lambda: {k: sorted(v) for k, v in nb.items() if len(v) < 4})
        frac = 1 - marg[:, 0] / marg[:, 1]
        sd = math.sqrt(p * (1 - p) / marg[0, 1])
        mon.check(bool((np.abs(frac - p) < 8 * sd).all()), 'drop-frequency', lambda: (p, frac))
    mon.outcome(c['cls'], p)


def run_case(c, mon):
    torch.set_num_threads(1)
    if c['kind'] == 'fun':
        run_fun(c, mon)
    else:
        run_drop(c, mon)


def finish(tot, outcomes, tier):
    for m in MODS + ['MaskModule']:
        if repr(('lattice', m)) not in outcomes:
            return 'no symmetric configuration of ' + m
    for cls in ('FieldDropout', 'PointwiseDropout'):
        for p in (0., .25, .5, .9, 1.):
            if repr((cls, p)) not in outcomes:
                return 'dropout %s %s not explored' % (cls, p)
