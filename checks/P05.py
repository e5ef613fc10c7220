"""P05: every pair of representations of every space within the bounds is a state; for each, the whole basis is sampled
and compared with the space of equivariant kernels computed from characters and from the documented frequencies."""
import math
import numpy as np
from scipy.linalg import block_diag
from mc import ref, reprs, spaces
from e2cnn.kernels import EmptyBasisException

PID = 'P05'
BOUNDS = {
    'quick': 'trivial, flips on 4 axes, C_N N<=8,12, SO(2), D_N N<=6,8 on 4 axes, O(2) on 4 axes (frequencies <=3); all ordered pairs of irreps, and regular/quotient/induced/changed-basis pairs; maximum frequency 0..5, maximum offset 0..2, both limits together; 1-3 rings; all group elements x 41 points including the origin',
    'thorough': 'C_N N<=16, D_N N<=12 on 8 axes, frequencies <=6; maximum frequency 0..9, maximum offset 0..3; all pairs of the larger alphabet',
}
ASSUMPTIONS = ['continuous groups are evaluated on a 12-lattice of angles plus generic angles']
CHUNK = 2


def cases(tier):
    q = tier == 'quick'
    F = 3 if q else 6
    axes = [0., .5, .25, .3] if q else [0., .5, .25, .3, .75, 1 / 3., .9, 1.2]
    sp = [['triv']] + [['flip', a] for a in axes]
    sp += [['rot', n, None] for n in ([2, 3, 4, 5, 6, 7, 8, 12] if q else range(2, 17))] + [['rot', -1, F]]
    sp += [['fliprot', n, None, a] for n in ([2, 3, 4, 5, 6, 8] if q else range(2, 13)) for a in axes]
    sp += [['fliprot', -1, F, a] for a in axes]
    out = []
    for s in sp:
        cont = s[0] in ('rot', 'fliprot') and s[1] == -1
        if cont:
            lims = [[None, None]]
        else:
            n = s[1] if s[0] in ('rot', 'fliprot') else 1
            fr = sorted(set(([0, 1, 2, 3, 5] if q else range(10)) if q is False else [0, 1, 2, 3, 5]) | {n})
            lims = [[f, None] for f in fr] + [[None, o] for o in ((0, 1, 2) if q else (0, 1, 2, 3))]
            lims += [[f, o] for f in ((2, 5) if q else (1, 3, 5, 8)) for o in (0, 1)]
        for lim in lims:
            out.append({'kind': 'irreps', 's': s, 'lim': lim})
        for lim in ([[None, None]] if cont else [[3, None], [None, 1]]):
            out.append({'kind': 'fields', 's': s, 'lim': lim, 'all': not q})
    return out


def cost(c):
    g = spaces.group(c['s'])
    return (g[1] + 1) * (4 if g[0] in ('D', 'O2') else 1) * (3 if c['kind'] == 'irreps' else 2)


def elements(s):
    g = spaces.group(s)
    els = ref.elements(g, 12)
    if g[0] == 'SO2':
        els += [0.7, 2.9]
    if g[0] == 'O2':
        els += [(0, .7), (1, 2.9)]
    return els


def points():
    yy, xx = np.mgrid[-2:3, -2:3]
    P = [(float(x), float(-y)) for y, x in zip(yy.ravel(), xx.ravel())]
    P += [(1.3 * math.cos(t), 1.3 * math.sin(t)) for t in (0.1, 1.1, 2.3, 3.9, 5.0)]
    P += [(0.4 * math.cos(t), 0.4 * math.sin(t)) for t in (0.5, 1.7, 2.6, 4.2, 5.6, 0.05)]
    P += [(2.2 * math.cos(t), 2.2 * math.sin(t)) for t in (0.3, 1.9, 3.3, 4.9, 6.1)]
    return np.array(P).T


PTS = points()
M = 128
CIRC = np.array([[math.cos(ref.TWO_PI * i / M), math.sin(ref.TWO_PI * i / M)] for i in range(M)]).T


def fun_char(m, F):
    """Character of the functions on the circle with frequencies <= F."""
    if np.linalg.det(m) < 0:
        return 1.
    t = math.atan2(m[1, 0], m[0, 0])
    return 1. + 2 * sum(math.cos(k * t) for k in range(1, F + 1))


def expected_dim(s, ri, ro, F):
    """Dimension of the equivariant kernels on a circle with frequencies <= F, from characters."""
    g = spaces.group(s)
    els = ref.elements(g, 64)
    tot = sum(np.trace(ri(e)) * np.trace(ro(e)) * fun_char(spaces.plane(s, e), F) for e in els) / len(els)
    return int(round(tot))


def freq_sign(s, name, grp):
    at = grp.irreps[name].attributes
    return at['frequency'], at.get('flip_frequency', 0), grp.irreps[name].size


def offset_dim(s, grp, i, o, F, T):
    """Number of kernels with the documented frequencies k + t N, |t| <= T (and at most F) between irreps."""
    g = spaces.group(s)
    n, fi, si = freq_sign(s, i, grp)
    m, fo, so = freq_sign(s, o, grp)
    flips = s[0] in ('flip', 'fliprot')
    if s[0] == 'flip':
        N, fi, fo, n, m = 1, n, m, 0, 0
    elif s[0] == 'triv':
        N = 1
    else:
        N = g[1]
    def mus(k):
        return [k + t * N for t in range(-T, T + 1) if F is None or abs(k + t * N) <= F]
    if si == 2 and so == 2:
        c = len(mus(m - n)) + len(mus(m + n))
        return c if flips else 2 * c
    if si == 2 or so == 2:
        c = len(mus(m + n))
        return c if flips else 2 * c
    c = 0
    for mu in mus(m - n):
        if mu < 0:
            continue
        if flips:
            c += 1 if mu > 0 or (fi + fo) % 2 == 0 else 0
        else:
            c += 2 if mu > 0 else 1
    return c


def build(gs, ri, ro, rings, sigma, lim):
    kw = {}
    if lim[0] is not None:
        kw['maximum_frequency'] = lim[0]
    if lim[1] is not None:
        kw['maximum_offset'] = lim[1]
    try:
        return gs.build_kernel_basis(ri, ro, sigma, rings, **kw)
    except EmptyBasisException:
        return None


def examine(mon, s, gs, di, do, ri, ro, lim, rings, sigma, tag):
    grp = gs.fibergroup
    B = build(gs, ri, ro, list(rings), sigma, lim)
    mon.trans()
    mon.state(tag)
    # expected dimension per ring
    if lim[1] is None:
        if lim[0] is None:
            F = max(grp.irreps[a].attributes['frequency'] for a in ri.irreps) + max(grp.irreps[a].attributes['frequency'] for a in ro.irreps)
        else:
            F = lim[0]
        dim = expected_dim(s, ri, ro, F)
    else:
        dim = sum(offset_dim(s, grp, a, b, lim[0], lim[1]) for a in ri.irreps for b in ro.irreps)
    got = 0 if B is None else len(B)
    if not mon.check(got == dim * len(rings), 'dimension', lambda: (tag, 'got', got, 'expected', dim * len(rings))):
        if B is None:
            return
    if B is None:
        mon.outcome('empty')
        return
    mon.check(B.dim == got and tuple(B.shape) == (ro.size, ri.size), 'shape', lambda: (tag, B.dim, B.shape))
    K = np.array(B.sample(PTS))
    if not mon.check(K.shape == (ro.size, ri.size, got, PTS.shape[1]) and np.isfinite(K).all(), 'sample-shape', lambda: (tag, K.shape)):
        return
    rank = np.linalg.matrix_rank(K.transpose(2, 0, 1, 3).reshape(got, -1), tol=1e-7) if got * K.size < 4e7 else got
    if got <= 60 and lim[0] is not None and lim[0] <= 5:
        mon.check(rank == got, 'independent', lambda: (tag, rank, got))
    # steerability at every element
    for e in elements(s):
        m = spaces.plane(s, e)
        L = np.array(B.sample(m @ PTS))
        R = np.einsum('ab,bcdp,ce->aedp', ro(e), K, np.linalg.inv(ri(e)), optimize=True)
        mon.trans()
        mon.check(ref.close(L, R, 1e-6), 'steerability', lambda: (tag, e, np.abs(L - R).max()))
    # attributes
    attrs = [B[k] for k in range(got)]
    it = list(iter(B))
    mon.check(len(it) == got and all(same(a, b) for a, b in zip(attrs, it)), 'iteration', tag)
    sg = [sigma] * len(rings) if isinstance(sigma, float) else sigma
    # radial: on a fixed circle of directions at several radii
    prof = {}
    for r in (0.5, 1.0, 2.0):
        prof[r] = np.array(B.sample(r * CIRC))
    ci, co = np.asarray(ri.change_of_basis, float), np.linalg.inv(np.asarray(ro.change_of_basis, float))
    starts_i = np.cumsum([0] + [grp.irreps[a].size for a in ri.irreps])
    starts_o = np.cumsum([0] + [grp.irreps[a].size for a in ro.irreps])
    seen = []
    for k, at in enumerate(attrs):
        j = None
        for c, r in enumerate(rings):
            if abs(at['radius'] - r) < 1e-9:
                j = c
        if not mon.check(j is not None and abs(at['sigma'] - sg[j]) < 1e-9, 'radius-attribute', lambda: (tag, k, at)):
            continue
        ang = prof[1.0][:, :, k, :] / math.exp(-.5 * (1. - rings[j]) ** 2 / sg[j] ** 2)
        for r in prof:
            f = math.exp(-.5 * (r - rings[j]) ** 2 / sg[j] ** 2)
            mon.check(ref.close(prof[r][:, :, k, :], f * ang, 1e-6), 'radial-profile', lambda: (tag, k, r, at))
        ft = np.abs(np.fft.rfft(ang, axis=-1)).max((0, 1)) / M
        want = abs(int(at['frequency']))
        mon.check(ft[want] > 1e-3 and np.delete(ft, want).max() < 1e-6, 'frequency-attribute', lambda: (tag, k, at, ft[:8].round(3).tolist()))
        if 'in_irrep' in at:
            mon.check(at['in_irrep'] == ri.irreps[at['in_irrep_idx']] and at['out_irrep'] == ro.irreps[at['out_irrep_idx']], 'irrep-attribute', lambda: (tag, k, at))
            a, b = at['in_irrep_idx'], at['out_irrep_idx']
            blk = np.einsum('ab,bcp,cd->adp', co, ang, ci, optimize=True)
            inside = blk[starts_o[b]:starts_o[b + 1], starts_i[a]:starts_i[a + 1]]
            mon.check(np.abs(inside).max() > 1e-3 and abs((blk ** 2).sum() - (inside ** 2).sum()) < 1e-5, 'block-attribute', lambda: (tag, k, at))
            seen.append((a, b))
        mon.check(at['idx'] == k, 'index-attribute', lambda: (tag, k, at))
        if lim[0] is not None:
            mon.check(want <= lim[0], 'frequency-limit', lambda: (tag, k, at))
        if lim[1] is not None and 'offset' in at:
            mon.check(abs(at['offset']) <= lim[1], 'offset-limit', lambda: (tag, k, at))
    # independence on the dense circles (exact Fourier data), for every size
    X = np.concatenate([prof[r].transpose(2, 0, 1, 3).reshape(got, -1) for r in prof], 1) if got <= 400 else None
    if X is not None:
        mon.check(np.linalg.matrix_rank(X, tol=1e-6) == got, 'independent-circles', lambda: (tag, np.linalg.matrix_rank(X, tol=1e-6), got))
    # masked sampling agrees with sampling
    mask = np.array([k % 2 == 0 for k in range(got)])
    mon.check(ref.close(B.sample_masked(PTS, mask), K[:, :, mask, :], 1e-9), 'sample-masked', tag)
    mon.trace()
    mon.outcome(len(rings), dim)


def same(a, b):
    return set(a) == set(b) and all(np.array_equal(a[k], b[k]) for k in a)


RINGS = [([1.], .6), ([0., 1.], [.4, .6]), ([0., 1., 2.], .6)]


def run_case(c, mon):
    s = c['s']
    gs = spaces.build(s)
    g = spaces.group(s)
    grp = gs.fibergroup
    if c['kind'] == 'irreps':
        n = 0
        for a in reprs.irrep_ids(g):
            for b in reprs.irrep_ids(g):
                rings, sigma = RINGS[n % 3]
                n += 1
                examine(mon, s, gs, a, b, grp.irrep(*a), grp.irrep(*b), c['lim'], rings, sigma, (s, c['lim'], a, b, rings))
        mon.sample({'space': gs.name, 'limits': c['lim'], 'pairs of irreps': n})
        return
    ir = reprs.irrep_ids(g)
    al = [['irrep'] + ir[-1]]
    al.append(['sumcob', [['irrep'] + ir[-1], ['irrep'] + ir[0], ['irrep'] + ir[len(ir) // 2]], 'shear', 'mix_shear'])
    al.append(['sumcob', [['irrep'] + ir[0], ['irrep'] + ir[-1]], 'house', 'mix_house'])
    al.append(['sum', [['irrep'] + ir[-1], ['irrep'] + ir[0], ['irrep'] + ir[-1]], 'plain_sum'])
    if g[0] in 'CD' and g[1] * (2 if g[0] == 'D' else 1) <= (8 if not c['all'] else 12):
        al.append(['regular'])
    if g == ['D', 4]:
        al += [['quot', [1, 1]], ['ind', [None, 4], [1]]]
    if g == ['D', 3]:
        al += [['quot', [None, 3]], ['ind', [None, 3], [1]]]
    if g == ['C', 4]:
        al += [['quot', 2], ['ind', 2, [1]]]
    if g[0] == 'O2':
        al += [['ind', [None, -1], [1]]]
    for a in al:
        for b in al:
            ri, ro = reprs.build(grp, a), reprs.build(grp, b)
            rings, sigma = RINGS[(len(repr(a)) + len(repr(b))) % 2 + (0 if ri.size * ro.size > 30 else 1)]
            examine(mon, s, gs, a, b, ri, ro, c['lim'], rings, sigma, (s, c['lim'], a, b, rings))


def finish(tot, outcomes, tier):
    if "('empty',)" not in outcomes or len(outcomes) < 10:
        return 'the exploration met too few outcomes: %s' % sorted(outcomes)
