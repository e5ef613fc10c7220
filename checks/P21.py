"""P21: states are layers (every combination of the arguments that select kernels); for each, the unit filters are compared,
ring by ring and frequency by frequency, with the equivariant kernels computed by averaging over the group."""
import math
import numpy as np
from mc import ref, reprs, spaces
from checks.P05 import offset_dim
from checks.P06 import poly, evaluate, grid, XI
from checks.P08 import unit_filters
from e2cnn import nn

PID = 'P21'
BOUNDS = {
    'quick': 'R2Conv, R2ConvTransposed, R2Diffop; 17 symmetry spaces (trivial, flips on 3 axes, C_2,3,4,6,8, SO(2), D_2,3,4,8 and O(2), several axes); all ordered pairs of up to four irreps, regular and changed-basis representations; default arguments for kernel sizes 1..7; explicit rings (unordered, between the pixels), widths (one or one per ring), cutoffs (factors 0..3, functions), dilations 1..3, aliased frequencies 0..2, filters on frequency and radius; operators of order 0..4, Laplacian powers 0..2',
    'thorough': 'kernel sizes 1..9, all factors and offsets for all kernel sizes, all irreps up to eight per space, operators of order up to 6',
}
ASSUMPTIONS = ['single precision arithmetic: spans are compared up to 1e-3 relative',
               'a kernel that vanishes on the sampling grid (less than 1e-6) has no weight',
               'the default cutoff is the one used without dilation; with dilation an explicit cutoff is given']
CHUNK = 2
SP = [['triv'], ['flip', 0.], ['flip', .5], ['flip', .3], ['rot', 2, None], ['rot', 3, None], ['rot', 4, None], ['rot', 6, None], ['rot', 8, None], ['rot', -1, 3],
      ['fliprot', 2, None, .5], ['fliprot', 3, None, .5], ['fliprot', 4, None, .25], ['fliprot', 4, None, 0.], ['fliprot', 8, None, .3], ['fliprot', -1, 3, 0.], ['fliprot', -1, 3, .25]]

CUT = {'const0': lambda r: 0., 'const3': lambda r: 3 if r > 0 else 0, 'const2': lambda r: 2, 'shift': lambda r: r + .5, 'inner': lambda r: max(0., 3. - r)}
FILTERS = {'even': lambda d: abs(int(d['frequency'])) % 2 == 0, 'outer': lambda d: d['radius'] > .9, 'both': lambda d: d['radius'] < 1.5 or abs(int(d['frequency'])) != 1,
           'low': lambda d: d['order'] != 1, 'harmonic': lambda d: d['order'] == abs(int(d['frequency']))}


def cases(tier):
    q = tier == 'quick'
    args = [{'k': k} for k in range(1, 8 if q else 10)]
    for f in (0., .5, 1., 1.5, 2., 3.):
        for k in ((5,) if q else (3, 4, 5, 7)):
            args.append({'k': k, 'cut': f})
    args += [{'k': 3, 'cut': 2., 'd': 2}, {'k': 5, 'cut': 1., 'd': 2}, {'k': 4, 'cut': .5, 'd': 3}, {'k': 3, 'cut': 'const2', 'd': 3}]
    for c in CUT:
        args.append({'k': 5, 'cut': c, 'rings': [0., 1., 2.], 'sigma': .5})
    args += [{'k': 5, 'cut': 1., 'rings': [2., 0., 1.], 'sigma': [.4, .3, .8]},
             {'k': 4, 'cut': 'const2', 'rings': [.7, 1.6], 'sigma': [.4, .7]},
             {'k': 2, 'cut': 'const2', 'rings': [.7], 'sigma': .6},
             {'k': 3, 'cut': 2., 'rings': [1.2, .4]},
             {'k': 3, 'rings': [0., 1., 1.3]},
             {'k': 5, 'rings': [1., 2.]}, {'k': 5, 'sigma': .7}, {'k': 5, 'sigma': [.3, .5, .9]}]
    for f in ('even', 'outer', 'both'):
        args.append({'k': 5, 'filter': f})
        args.append({'k': 5, 'filter': f, 'cut': 1.5, 'rings': [0., 1.1, 2.]})
    for o in ((0, 1) if q else (0, 1, 2, 3)):
        args.append({'k': 5, 'off': o, 'cut': 'const3', 'rings': [1., 2.], 'sigma': .6})
        args.append({'k': 7, 'off': o, 'cut': 2., 'rings': [1., 2.3], 'sigma': .6})
    out = []
    for s in SP:
        for L in ('conv', 'tconv'):
            for a in args:
                if 'off' in a and s[0] in ('triv', 'flip'):
                    continue
                out.append({'L': L, 's': s, 'a': a, 'q': q})
        for n in range(5 if q else 7):
            for p in (None, 0, 1):
                out.append({'L': 'diff', 's': s, 'a': {'order': n, 'power': p}, 'q': q})
            out.append({'L': 'diff', 's': s, 'a': {'order': n, 'power': None, 'acc': 4}, 'q': q})
            for f in ('even', 'low', 'harmonic'):
                out.append({'L': 'diff', 's': s, 'a': {'order': n, 'power': None, 'filter': f}, 'q': q})
    return out


def cost(c):
    return c['a'].get('k', 3) ** 2 * (3 if c['s'][0] == 'fliprot' else 1)


def alphabet(c, gs):
    g = spaces.group(c['s'])
    ids = reprs.irrep_ids(g)
    if c['q'] and len(ids) > 4:
        ids = [ids[0], ids[1], ids[len(ids) // 2], ids[-1]]
    G = gs.fibergroup
    ir = [G.irrep(*i) for i in ids[:8]]
    pairs = [(a, b) for a in ir for b in ir]
    if c['q'] and len(pairs) > 9:
        pairs = [p for n, p in enumerate(pairs) if n % 2 == 0 or p[0] is not p[1] and n % 3 == 0]
    n = g[1] * (2 if g[0] == 'D' else 1)
    skew = reprs.build(G, ['sumcob', [['irrep'] + reprs.irrep_ids(g)[-1], ['irrep'] + reprs.irrep_ids(g)[0]], 'shear', 'skew21'])
    if g[0] in 'CD' and n <= 4:
        pairs.append((G.regular_representation, G.regular_representation))
    pairs.append((skew, ir[-1]))
    pairs.append((ir[0], skew))
    return pairs


INV = {}


def invariants(s, ri, ro, m):
    """All (A, B) such that A cos(m phi) + B sin(m phi) is equivariant, by averaging over the group."""
    key = (repr(s), id(ri), id(ro), m)
    if key in INV:
        return INV[key][0]
    els = ref.elements(spaces.group(s), 64)
    n = ro.size * ri.size
    P = np.zeros((2 * n, 2 * n))
    for e in els:
        h = spaces.plane(s, e).T
        al, ep = math.atan2(h[1, 0], h[0, 0]), round(np.linalg.det(h))
        Q = np.array([[math.cos(m * al), math.sin(m * al)], [-ep * math.sin(m * al), ep * math.cos(m * al)]])
        R = np.kron(ro(e), np.linalg.inv(ri(e)).T)
        P += np.kron(Q, R)
    P /= len(els)
    if m == 0:
        P = P[:n, :n]
    u, sv, _ = np.linalg.svd(P)
    k = int((sv > 1e-6).sum())
    out = u[:, :k].T.reshape(k, 2 if m else 1, ro.size, ri.size)
    INV[key] = (out, ri, ro)
    return out


def sampled(inv, m, pts, radial):
    """(kernels, o, i, points); an angular part vanishes at the origin."""
    r = np.hypot(pts[0], pts[1])
    phi = np.arctan2(pts[1], pts[0])
    c, s = np.cos(m * phi), np.sin(m * phi)
    if m:
        c, s = np.where(r < 1e-9, 0, c), np.where(r < 1e-9, 0, s)
    K = np.einsum('koi,p->koip', inv[:, 0], c)
    if m:
        K = K + np.einsum('koi,p->koip', inv[:, 1], s)
    return K * radial(r)


def span(X):
    X = X.reshape(len(X), int(np.prod(X.shape[1:])))
    if len(X) == 0 or np.abs(X).max() == 0:
        return np.zeros((0, X.shape[1]))
    u, s, v = np.linalg.svd(X, full_matrices=False)
    return v[s > 1e-4 * s[0]]


def same_span(A, B):
    return len(A) == len(B) and (len(A) == 0 or np.abs(A - (A @ B.T) @ B).max() < 1e-3)


def settings(a):
    k, d = a['k'], a.get('d', 1)
    rings = a.get('rings')
    given = {}
    if rings is None:
        rings = [float(i * d) for i in range((k + 1) // 2)]
    else:
        given['rings'] = list(rings)
    sg = a.get('sigma')
    if sg is None:
        sigma = [.6] * (len(rings) - 1) + [.4]
        sigma = [.005 if r == 0 else x for r, x in zip(rings, sigma)]
    else:
        given['sigma'] = sg
        sigma = [sg] * len(rings) if isinstance(sg, float) else list(sg)
    c = a.get('cut')
    if c is None:
        cut = lambda r: 0 if r == 0 else min(2 * r, 2 if r == k // 2 else 2 * r - (r + 1) % 2)
    elif isinstance(c, float):
        cut = lambda r: c * r
        given['frequencies_cutoff'] = c
    else:
        cut = CUT[c]
        given['frequencies_cutoff'] = cut
    if 'filter' in a:
        given['basis_filter'] = FILTERS[a['filter']]
    if 'off' in a:
        given['maximum_offset'] = a['off']
    return k, d, rings, sigma, cut, given


def make(L, gs, ri, ro, k, **kw):
    ti, to = nn.FieldType(gs, [ri]), nn.FieldType(gs, [ro])
    try:
        m = {'conv': nn.R2Conv, 'tconv': nn.R2ConvTransposed, 'diff': nn.R2Diffop}[L](ti, to, k, bias=False, initialize=False, **kw)
    except ValueError as e:
        if 'empty' in str(e):
            return None
        raise
    return m.train() if m.weights.numel() else None


def run_case(c, mon):
    gs = spaces.build(c['s'])
    for ri, ro in alphabet(c, gs):
        tag = (ri.name, ro.name)
        mon.state(tag, sorted(c['a'].items(), key=repr))
        mon.trans()
        if c['L'] == 'diff':
            operators(c, gs, ri, ro, tag, mon)
        else:
            kernels(c, gs, ri, ro, tag, mon)


def kernels(c, gs, ri, ro, tag, mon):
    s, a = c['s'], c['a']
    k, d, rings, sigma, cut, given = settings(a)
    L = make(c['L'], gs, ri, ro, k, dilation=d, **given)
    pts = grid(k, d)
    if L is None:
        U, infos = np.zeros((0, ro.size, ri.size, k * k)), []
    else:
        U = unit_filters(L)
        if c['L'] == 'tconv':
            U = U.transpose(0, 2, 1, 3, 4)
        U = U.reshape(len(U), ro.size, ri.size, k * k)
        infos = list(L.basisexpansion.get_basis_info())
        mon.check(len(infos) == len(U), 'descriptions', lambda: (tag, len(infos), len(U)))
        for i, f in enumerate(infos):
            mon.check(any(abs(f['radius'] - r) < 1e-6 for r in rings), 'unknown-ring', lambda: (tag, i, f['radius'], rings))
    for r, sg in zip(rings, sigma):
        mine = [i for i, f in enumerate(infos) if abs(f['radius'] - r) < 1e-6]
        top = int(math.floor(cut(r) + 1e-9))
        mon.check(all(abs(int(infos[i]['frequency'])) <= cut(r) + 1e-9 for i in mine), 'above-cutoff', lambda: (tag, r, cut(r), [infos[i]['frequency'] for i in mine]))
        if 'off' in a:
            G = gs.fibergroup
            cont = s[0] in ('rot', 'fliprot') and s[1] == -1
            if not cont:
                dim = sum(offset_dim(s, G, x, y, top, a['off']) for x in ri.irreps for y in ro.irreps)
                mon.check(len(mine) == dim, 'offset-dimension', lambda: (tag, r, len(mine), dim))
        for m in range(top + 1):
            idx = [i for i in mine if abs(int(infos[i]['frequency'])) == m]
            wanted = 'filter' not in a or FILTERS[a['filter']]({'frequency': m, 'radius': r})
            R = sampled(invariants(s, ri, ro, m), m, pts, lambda x: np.exp(-.5 * ((x - r) / sg) ** 2)) if wanted else np.zeros((0, ro.size, ri.size, k * k))
            size = np.abs(R).max() if R.size else 0
            mon.trans()
            if 1e-10 < size < 1e-4:
                mon.outcome('nearly vanishing')
                continue
            W, S = span(U[idx]), span(R) if size >= 1e-4 else np.zeros((0, R[0].size if len(R) else ro.size * ri.size * k * k))
            if 'off' in a:
                ok = len(W) == 0 or len(W) <= len(S) and np.abs(W - (W @ S.T) @ S).max() < 1e-3
                mon.check(ok, 'kernel-space', lambda: (tag, r, m, len(W), len(S)))
            else:
                mon.check(same_span(W, S), 'kernel-space', lambda: (tag, 'ring', r, 'width', sg, 'frequency', m, 'layer', len(W), 'reference', len(S)))
                mon.check(len(idx) <= len(R), 'redundant-weights', lambda: (tag, r, m, len(idx), len(R)))
            mon.outcome(c['L'], m, len(S) > 0)
    mon.trace(1)


def operators(c, gs, ri, ro, tag, mon):
    s, a = c['s'], c['a']
    n, p = a['order'], a['power']
    kw = {'maximum_order': n}
    if p is not None:
        kw['maximum_power'] = p
    if 'acc' in a:
        kw['accuracy'] = a['acc']
    if 'filter' in a:
        kw['basis_filter'] = FILTERS[a['filter']]
    L = make('diff', gs, ri, ro, None, **kw)
    if L is None:
        K, infos = None, []
    else:
        k = L.kernel_size
        U = unit_filters(L)
        K = evaluate(poly(U.reshape(len(U), ro.size, ri.size, -1), grid(k), k), XI)
        infos = list(L.basisexpansion.get_basis_info())
        mon.check(len(infos) == len(U), 'descriptions', lambda: (tag, len(infos), len(U)))
    seen = 0
    for o in range(n + 1):
        for q in range(o // 2 + 1):
            m = o - 2 * q
            wanted = (p is None or q <= p) and ('filter' not in a or FILTERS[a['filter']]({'order': o, 'frequency': m}))
            idx = [i for i, f in enumerate(infos) if int(f['order']) == o and abs(int(f['frequency'])) == m]
            seen += len(idx)
            R = sampled(invariants(s, ri, ro, m), m, XI, lambda x: x ** o) if wanted else np.zeros((0, ro.size, ri.size, XI.shape[1]))
            W = span(K[idx]) if idx else np.zeros((0, R.shape[1] * R.shape[2] * R.shape[3]))
            S = span(R)
            mon.trans()
            mon.check(same_span(W, S) and len(idx) == len(R), 'operator-space', lambda: (tag, 'order', o, 'frequency', m, 'layer', len(W), len(idx), 'reference', len(S), len(R)))
            mon.outcome('diff', o, len(S) > 0)
    mon.check(seen == len(infos), 'unknown-operators', lambda: (tag, seen, len(infos)))
    mon.trace(1)


def finish(tot, outcomes, tier):
    if len(outcomes) < 15:
        return 'the exploration met too few outcomes: %s' % sorted(outcomes)
