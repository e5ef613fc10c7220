"""P06: every pair of representations of every space within the bounds is a state; each basis operator is recovered, as a
polynomial in the derivatives, from the action of its stencil on all monomials the stencil can resolve."""
import math
import numpy as np
from mc import ref, reprs, spaces
from checks.P05 import expected_dim, offset_dim, elements, same
from e2cnn.kernels import EmptyBasisException
from e2cnn.diffops import DiscretizationArgs

PID = 'P06'
BOUNDS = {
    'quick': 'trivial, flips on 4 axes, C_N N<=6,8, SO(2), D_N N<=4,6 on 4 axes, O(2) on 4 axes (frequencies <=2); all ordered pairs of irreps and pairs of mixed/regular/quotient representations; maximum frequency 0..3, maximum offset 0..1, both; Laplacian powers 0..2; grids up to 9x9; every monomial x^a y^b with a,b < grid size; all group elements; stencils turned by all lattice symmetries; angle offsets; single derivatives up to order 6 on all odd and even grids up to 8, unequal spacing; size, accuracy and order of operator layers: all values up to 7 points and accuracy 6',
    'thorough': 'C_N N<=12, D_N N<=8 on 7 axes, frequencies <=3; maximum frequency 0..5, maximum offset 0..2; grids up to 15x15',
}
ASSUMPTIONS = ['finite differences only: the RBF package needed by the other discretisations is not installed',
               'continuous groups are evaluated on a 12-lattice of angles plus generic angles']
CHUNK = 2


def cases(tier):
    q = tier == 'quick'
    F = 2 if q else 3
    axes = [0., .5, .25, .3] if q else [0., .5, .25, .3, .75, .9, 1.2]
    sp = [['triv']] + [['flip', a] for a in axes]
    sp += [['rot', n, None] for n in ([2, 3, 4, 5, 6, 8] if q else range(2, 13))] + [['rot', -1, F]]
    sp += [['fliprot', n, None, a] for n in ([2, 3, 4, 6] if q else range(2, 9)) for a in axes]
    sp += [['fliprot', -1, F, a] for a in axes]
    out = []
    for s in sp:
        cont = s[0] in ('rot', 'fliprot') and s[1] == -1
        if cont:
            lims = [[None, None]]
        else:
            lims = [[f, None] for f in (range(4) if q else range(6))] + [[None, o] for o in ((0, 1) if q else (0, 1, 2))] + [[2, 1]]
        for j, lim in enumerate(lims):
            out.append({'kind': 'irreps', 's': s, 'lim': lim, 'power': j % 3})
        for lim in ([[None, None]] if cont else [[2, None], [None, 0]]):
            out.append({'kind': 'fields', 's': s, 'lim': lim, 'power': 1})
    for n in range(1, 9 if q else 12):
        for d in ([1., 2.] if q else [1., 2., 3., .5]):
            out.append({'kind': 'stencil', 'n': n, 'd': d})
    for n in range(1, 8 if q else 11):
        out.append({'kind': 'size', 'n': n})
    for s in (['rot', 4, None], ['fliprot', 4, None, 0.], ['flip', .25], ['triv'], ['rot', -1, 2]):
        for ang in (0., .5, 1., 1.5, .25, .3, -.5):
            out.append({'kind': 'angle', 's': s, 'ang': ang})
    return out


def cost(c):
    if c['kind'] in ('stencil', 'size'):
        return c['n']
    g = spaces.group(c['s'])
    l = c.get('lim', [0, 0])
    return (abs(g[1]) + 1) * (4 if g[0] in ('D', 'O2') else 1) * (1 + (l[0] or 0) + (g[1] * (1 + (l[1] or 0)) if l[1] is not None else 0))


def grid(size, d=1.):
    """The sampling points, in the documented order: rows of increasing x, starting from the largest y."""
    o = (size - 1) / 2.
    return np.array([((i % size - o) * d, -(i // size - o) * d) for i in range(size ** 2)]).T


def poly(W, pts, size):
    """W: (..., points).  Coefficients of d^(a+b)/dx^a dy^b, for all a, b < size: the stencil applied to x^a y^b / a! b!."""
    out = np.zeros(W.shape[:-1] + (size, size))
    for a in range(size):
        for b in range(size):
            out[..., a, b] = W @ (pts[0] ** a * pts[1] ** b / (math.factorial(a) * math.factorial(b)))
    return out


def evaluate(C, X):
    """C: (..., s, s) coefficients, X: (2, P) points; -> (..., P)."""
    s = C.shape[-1]
    V = np.stack([[X[0] ** a * X[1] ** b for b in range(s)] for a in range(s)])
    return np.einsum('...ab,abp->...p', C, V, optimize=True)


XI = np.array([[math.cos(t), math.sin(t)] for t in (0.1, .77, 1.3, 2.1, 2.9, 3.6, 4.4, 5.2, 5.9)]).T
XI = np.concatenate([XI, 1.4 * XI[:, ::2] @ np.diag([1, -1, 1, 1, 1.])], 1)
M = 64
CIRC = np.array([[math.cos(ref.TWO_PI * i / M), math.sin(ref.TWO_PI * i / M)] for i in range(M)]).T


def build(gs, ri, ro, power, lim, disc=None):
    kw = {}
    if lim[0] is not None:
        kw['maximum_frequency'] = lim[0]
    if lim[1] is not None:
        kw['maximum_offset'] = lim[1]
    try:
        return gs.build_diffop_basis(ri, ro, power, disc or DiscretizationArgs(), **kw)
    except EmptyBasisException:
        return None


def examine(mon, s, gs, ri, ro, lim, power, tag):
    grp = gs.fibergroup
    B = build(gs, ri, ro, power, lim)
    mon.trans()
    mon.state(tag)
    if lim[1] is None:
        F = lim[0]
        if F is None:
            F = max(grp.irreps[a].attributes['frequency'] for a in ri.irreps) + max(grp.irreps[a].attributes['frequency'] for a in ro.irreps)
        dim = expected_dim(s, ri, ro, F)
    else:
        dim = sum(offset_dim(s, grp, a, b, lim[0], lim[1]) for a in ri.irreps for b in ro.irreps)
    got = 0 if B is None else len(B)
    mon.check(got == dim * (power + 1), 'dimension', lambda: (tag, 'got', got, 'expected', dim * (power + 1)))
    if B is None:
        mon.outcome('empty')
        return
    mon.check(B.dim == got and tuple(B.shape) == (ro.size, ri.size), 'shape', lambda: (tag, B.dim, B.shape))
    attrs = [B[k] for k in range(got)]
    it = list(iter(B))
    mon.check(len(it) == got and all(same(a, b) for a, b in zip(attrs, it)), 'iteration', tag)
    order = max(int(a['order']) for a in attrs)
    size = max(3, order + 1 + order % 2)
    pts = grid(size)
    W = np.array(B.sample(pts))
    if not mon.check(W.shape == (ro.size, ri.size, got, size ** 2) and np.isfinite(W).all(), 'sample-shape', lambda: (tag, W.shape)):
        return
    C = poly(W, pts, size)
    rnd = 1e-8 + 1e-12 * poly(np.abs(W), np.abs(pts), size)        # rounding errors of the sums above
    mon.trans(size ** 2)
    # every operator is homogeneous of its announced order, and its stencil is exact on every monomial
    for k, at in enumerate(attrs):
        n = int(at['order'])
        S = C[:, :, k]
        away = np.add.outer(np.arange(size), np.arange(size)) != n
        mon.check((np.abs(S) < rnd[:, :, k])[:, :, away].all(), 'exact', lambda: (tag, k, at, np.abs(S[:, :, away]).max()))
        S[:, :, away] = 0
        mon.check(np.abs(S).max() > 1e-3, 'non-zero', lambda: (tag, k, at))
        mon.check(at['idx'] == k and 0 <= at['power'] <= power and n == abs(int(at['frequency'])) + 2 * int(at['power']), 'attributes', lambda: (tag, k, at))
        # angular frequency on the circle (homogeneous polynomial = r^order times angular part)
        ang = evaluate(S, CIRC)
        ft = np.abs(np.fft.rfft(ang, axis=-1)).max((0, 1)) / M
        w = abs(int(at['frequency']))
        mon.check(ft[w] > 1e-3 * ft.max() and np.delete(ft, w).max() < 1e-5 * max(1, ft.max()), 'frequency', lambda: (tag, k, at, ft.round(3)[:8].tolist()))
        if lim[0] is not None:
            mon.check(w <= lim[0], 'frequency-limit', lambda: (tag, k, at))
    # linear independence
    X = C.transpose(2, 0, 1, 3, 4).reshape(got, -1)
    X = X / np.abs(X).max(1, keepdims=True)
    mon.check(np.linalg.matrix_rank(X, tol=1e-7) == got, 'independent', lambda: (tag, np.linalg.matrix_rank(X, tol=1e-7), got))
    # equivariance of the polynomials
    K = evaluate(C, XI)
    sc = max(1., np.abs(K).max())
    for e in elements(s):
        m = spaces.plane(s, e)
        L = evaluate(C, m @ XI)
        R = np.einsum('ab,bcdp,ce->aedp', ro(e), K, np.linalg.inv(ri(e)), optimize=True)
        mon.trans()
        mon.check(ref.close(L, R, 1e-6 * sc), 'equivariance', lambda: (tag, e, np.abs(L - R).max()))
        # the stencils themselves turn with the grid
        if spaces.is_lattice(m):
            I = W.reshape(W.shape[:3] + (size, size))
            T = np.einsum('ab,bcdxy,ce->aedxy', ro(e), I, np.linalg.inv(ri(e)), optimize=True)
            # K(g x) = rho_out K(x) rho_in^-1  <=>  the image of K moved by g equals rho_out^-1 ... at the new place
            G = spaces.grid_perm(m, T)
            mon.check(ref.close(I, G, 1e-6 * max(1, np.abs(I).max())), 'stencil-turns', lambda: (tag, e, np.abs(I - G).max()))
    mask = np.array([k % 2 == 0 for k in range(got)])
    mon.check(ref.close(B.sample_masked(pts, mask), W[:, :, mask, :], 1e-9), 'sample-masked', tag)
    # a larger grid represents the same operators
    big = size + 2
    if big <= 11:
        pb = grid(big)
        Cb = poly(np.array(B.sample(pb)), pb, big)
        mon.trans(big ** 2)
        D = Cb.copy()
        D[..., :size, :size] -= C
        mon.check(np.abs(D).max() < 1e-5 * max(1., np.abs(C).max()), 'larger-grid', lambda: (tag, np.abs(D).max()))
    mon.trace()
    mon.outcome(power, dim)


def run_case(c, mon):
    if c['kind'] == 'stencil':
        return stencil(c, mon)
    if c['kind'] == 'size':
        return sizes(c, mon)
    s = c['s']
    gs = spaces.build(s)
    g = spaces.group(s)
    grp = gs.fibergroup
    ir = reprs.irrep_ids(g)
    if c['kind'] == 'angle':
        return angle(c, mon, gs, [grp.irrep(*a) for a in ir])
    if c['kind'] == 'irreps':
        for a in ir:
            for b in ir:
                examine(mon, s, gs, grp.irrep(*a), grp.irrep(*b), c['lim'], c['power'], (s, c['lim'], a, b, c['power']))
        mon.sample({'space': gs.name, 'limits': c['lim'], 'pairs of irreps': len(ir) ** 2, 'power': c['power']})
        return
    al = [['irrep'] + ir[-1]]
    al.append(['sumcob', [['irrep'] + ir[-1], ['irrep'] + ir[0], ['irrep'] + ir[len(ir) // 2]], 'shear', 'mix_shear'])
    al.append(['sumcob', [['irrep'] + ir[0], ['irrep'] + ir[-1]], 'house', 'mix_house'])
    al.append(['sum', [['irrep'] + ir[-1], ['irrep'] + ir[0], ['irrep'] + ir[-1]], 'plain_sum'])
    if g[0] in 'CD' and g[1] * (2 if g[0] == 'D' else 1) <= 6:
        al.append(['regular'])
    if g == ['D', 4]:
        al += [['quot', [1, 1]]]
    if g == ['C', 4]:
        al += [['quot', 2], ['ind', 2, [1]]]
    for a in al:
        for b in al:
            examine(mon, s, gs, reprs.build(grp, a), reprs.build(grp, b), c['lim'], c['power'], (s, c['lim'], a, b, c['power']))


def stencil(c, mon):
    """Laplacians and all derivatives up to order n-1 in each variable, through the space without symmetry, for which the
    basis contains all derivatives: any grid size (also even), any spacing."""
    n, d = c['n'], c['d']
    gs = spaces.build(['triv'])
    tr = gs.trivial_repr
    for power in range(0, 2):
        F = n - 1 - 2 * power
        if F < 0:
            continue
        B = build(gs, tr, tr, power, [F, None])
        pts = grid(n, d)
        W = np.array(B.sample(pts))
        C = poly(W, pts, n)
        mon.state('stencil', n, d, power)
        for k in range(len(B)):
            at = B[k]
            mon.trans(n * n)
            want = np.zeros((n, n))
            mu, p = int(at['frequency']), int(at['power'])
            # real/imaginary part of (dx + i dy)^mu times the Laplacian^p, up to a factor: it is harmonic-times-Laplacian
            got = C[0, 0, k]
            z = {}
            for j in range(mu + 1):
                z[(mu - j, j)] = math.comb(mu, j) * (1j ** j)
            for _ in range(p):
                y = {}
                for (a, b), v in z.items():
                    y[(a + 2, b)] = y.get((a + 2, b), 0) + v
                    y[(a, b + 2)] = y.get((a, b + 2), 0) + v
                z = y
            re, im = np.zeros((n, n)), np.zeros((n, n))
            for (a, b), v in z.items():
                re[a, b], im[a, b] = np.real(v), np.imag(v)
            A = np.stack([re.ravel(), im.ravel()], 1)
            co, *_ = np.linalg.lstsq(A, got.ravel(), rcond=None)
            mon.check(np.abs(A @ co - got.ravel()).max() < 1e-6 * max(1, np.abs(got).max()) and np.abs(co).max() > 1e-3,
                      'derivative', lambda: (n, d, power, at, got.round(3).tolist()))
        mon.trace()


def accuracy_of(n, o):
    """Accuracy of the central difference with n points for the derivative of order o >= 1, measured on monomials."""
    from fractions import Fraction as F
    if n <= o:
        return 0
    pts = [F(2 * i - n + 1, 2) for i in range(n)]
    # exact weights: rows are the monomials x^k, k < n
    M = [[p ** k for p in pts] + [F(math.factorial(o)) if k == o else F(0)] for k in range(n)]
    for i in range(n):
        j = next(j for j in range(i, n) if M[j][i] != 0)
        M[i], M[j] = M[j], M[i]
        M[i] = [v / M[i][i] for v in M[i]]
        for j in range(n):
            if j != i and M[j][i] != 0:
                M[j] = [x - M[j][i] * y for x, y in zip(M[j], M[i])]
    w = [row[-1] for row in M]
    d = n
    while d < n + 6 and sum(a * p ** d for a, p in zip(w, pts)) == 0:
        d += 1
    return d - o


def sizes(c, mon):
    """Of kernel size, order and accuracy, the layers work out the third."""
    import warnings
    from e2cnn import nn, gspaces
    from e2cnn.diffops import utils
    n = c['n']
    gs = gspaces.Rot2dOnR2(4)
    t = nn.FieldType(gs, [gs.trivial_repr, gs.irrep(1), gs.irrep(2)])

    def orders(**kw):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            m = nn.R2Diffop(t, t, bias=False, **kw)
        return m.kernel_size, sorted({a['order'] for a in m.basisexpansion.get_basis_info()}), m.expand_parameters()[0].shape[-2:]

    for a in range(1, 7):
        mon.state(n, a)
        mon.trans(3)
        if a <= n:
            want = max([o for o in range(1, n) if accuracy_of(n, o) >= a], default=0)
            mon.check(utils.largest_possible_order(n, a) == want, 'largest-order', lambda: (n, a, utils.largest_possible_order(n, a), want))
            k, got, sh = orders(kernel_size=n, accuracy=a)
            mon.check(k == n and tuple(sh) == (n, n) and got == list(range(want + 1)), 'orders-of-layer', lambda: (n, a, got, want))
            mon.outcome('order', want)
        o = n
        want = next(p for p in range(1, 30) if accuracy_of(p, o) >= a)
        mon.check(utils.required_points(o, a) == want, 'required-points', lambda: (o, a, utils.required_points(o, a), want))
        if want <= 7:
            k, got, sh = orders(maximum_order=o, accuracy=a)
            mon.check(k == want and tuple(sh) == (k, k) and got == list(range(o + 1)), 'size-of-layer', lambda: (o, a, k, want, got))
    for o in range(1, n):
        mon.check(utils.guaranteed_accuracy(n, o) == accuracy_of(n, o), 'guaranteed-accuracy', lambda: (n, o))
    k, got, sh = orders(kernel_size=n)
    want = max([o for o in range(1, n) if accuracy_of(n, o) >= 2], default=0)
    mon.check(k == n and got == list(range(want + 1)), 'default-accuracy', lambda: (n, got))
    if n < 6:
        k, got, sh = orders(maximum_order=n)
        mon.check(got == list(range(n + 1)) and accuracy_of(k, n) >= 2 and accuracy_of(k - 1, n) < 2, 'default-accuracy', lambda: (n, k))
    mon.trace()


def angle(c, mon, gs, irs):
    """A discretisation with an angle offset gives the same operators, rotated by that angle."""
    th = c['ang'] * math.pi
    lim = [2, None] if c['s'] != ['rot', -1, 2] else [None, None]
    R = ref.rot(th)
    for ri in irs:
        for ro in irs:
            B0 = build(gs, ri, ro, 1, lim)
            B1 = build(gs, ri, ro, 1, lim, DiscretizationArgs(angle_offset=th))
            mon.state('angle', c['s'], c['ang'], ri.name, ro.name)
            mon.check((B0 is None) == (B1 is None), 'angle-empty', (ri.name, ro.name))
            if B0 is None:
                continue
            o = max(int(B0[k]['order']) for k in range(len(B0)))
            size = max(3, o + 1 + o % 2)
            pts = grid(size)
            C0, C1 = (poly(np.array(B.sample(pts)), pts, size) for B in (B0, B1))
            A, Bv = evaluate(C0, XI), evaluate(C1, R @ XI)
            mon.trans(2)
            mon.check(ref.close(A, Bv, 1e-6 * max(1, np.abs(A).max())), 'angle-offset', lambda: (c, ri.name, ro.name, np.abs(A - Bv).max()))
            mon.trace()


def finish(tot, outcomes, tier):
    if "('empty',)" not in outcomes or len(outcomes) < 8:
        return 'the exploration met too few outcomes: %s' % sorted(outcomes)
