"""P08: states are layers (all configurations), unit weights and unit impulses; transitions are lattice symmetries.  A
convolution is bilinear in weights and input, so unit weights x unit impulses decide it for all weights and inputs."""
import itertools
import math
import numpy as np
import torch
from mc import ref, reprs, spaces
from checks.P06 import poly, evaluate, grid, XI
from e2cnn import nn

PID = 'P08'
BOUNDS = {
    'quick': 'R2Conv, R2ConvTransposed, R2Diffop; 14 symmetry spaces (trivial, flips on 3 axes, C_2, C_4, C_8, SO(2), D_2, D_4 on 2 axes, D_8, O(2)) x 4 pairs of field lists (contiguous, interleaved, non-orthogonal bases); kernel sizes 1..5 x paddings 0..2 and unequal x 4 padding modes x strides 1..2 x dilations 1..2 x groups 1..2 x bias (full product for two spaces); all unit weights, all unit impulses on images up to 9x9, all lattice symmetries, training and evaluation mode',
    'thorough': 'the full product for all spaces, and for all field lists of two spaces; kernel sizes up to 7, strides and dilations up to 3 in the other cases',
}
ASSUMPTIONS = ['single precision arithmetic: equality up to 1e-4 relative to the largest output',
               'finite differences are the only discretisation of operators available here']
CHUNK = 4

SP = [['triv'], ['flip', 0.], ['flip', .5], ['flip', .25], ['rot', 2, None], ['rot', 4, None], ['rot', 8, None], ['rot', -1, 2],
      ['fliprot', 2, None, .5], ['fliprot', 4, None, .5], ['fliprot', 4, None, .25], ['fliprot', 8, None, 0.], ['fliprot', -1, 2, 0.], ['fliprot', -1, 2, .25]]


def cases(tier):
    q = tier == 'quick'
    out = []
    ks = [1, 2, 3, 4, 5] if q else [1, 2, 3, 4, 5, 6, 7]
    st = [1, 2] if q else [1, 2, 3]

    def geo(full):
        g = []
        for k, s, d in itertools.product(ks, st, st):
            if full and not q and (k > 5 or s > 2 or d > 2):
                continue
            for p in ([0, 1, 2, [1, 0]] if full else [1]):
                for mode in ('zeros', 'reflect', 'replicate', 'circular') if p and full else ('zeros',):
                    if not full and (s, d) != (1, 1) and k != 3:
                        continue
                    g.append([k, p, mode, s, d])
        return g
    for s in SP:
        for T in range(4):
            two = s in (['fliprot', 4, None, .5], ['rot', 4, None])
            full = two and T == 1 if q else two or T == 1
            for k, p, mode, st_, d in geo(full):
                for gr in (1, 2):
                    n = len(out)
                    out.append({'L': 'conv', 's': s, 'T': T, 'k': k, 'p': p, 'mode': mode, 'st': st_, 'd': d, 'gr': gr, 'b': (n // 2) % 3 != 0, 'op': 0})
                    if mode == 'zeros' and not isinstance(p, list):
                        for op in ((0, 1) if st_ > 1 or d > 1 else (0,)):
                            if op < max(st_, d):
                                out.append({'L': 'tconv', 's': s, 'T': T, 'k': k, 'p': p, 'mode': mode, 'st': st_, 'd': d, 'gr': gr, 'b': (n // 2) % 3 != 0, 'op': op})
                    if k in (3, 5) and (not full or gr == 1 or k == 3):
                        out.append({'L': 'diff', 's': s, 'T': T, 'k': k, 'p': p, 'mode': mode, 'st': st_, 'd': d, 'gr': gr, 'b': (n // 2) % 3 != 0, 'op': 0})
            for o, acc, ang in ((2, 2, None), (1, None, None), (3, 2, None), (2, None, .5), (2, None, .3)):
                out.append({'L': 'diff2', 's': s, 'T': T, 'k': None, 'p': 1, 'mode': 'zeros', 'st': 1, 'd': 1, 'gr': 1, 'b': True, 'op': 0, 'o': o, 'acc': acc, 'ang': ang})
    return out


def fields(s, gs, T, gr):
    """Input and output field lists (library representations)."""
    g = spaces.group(s)
    ir = [gs.fibergroup.irrep(*i) for i in reprs.irrep_ids(g)]
    triv, last, mid = ir[0], ir[-1], ir[len(ir) // 2]
    skew = reprs.build(gs.fibergroup, ['sumcob', [['irrep'] + reprs.irrep_ids(g)[-1], ['irrep'] + reprs.irrep_ids(g)[0]], 'shear', 'skew'])
    reg = gs.fibergroup.regular_representation if g[0] in 'CD' and g[1] * (2 if g[0] == 'D' else 1) <= 4 else skew
    one = gs.fibergroup.irrep(*reprs.irrep_ids(g)[1]) if len(ir) > 1 else triv
    if T == 0:
        a, b = [triv], [mid]
        if g == ['C', 2] or s[0] == 'triv':
            b = [last]
    elif T == 1:
        a, b = [last, triv, last], [triv, mid, triv]
    elif T == 2:
        a, b = [skew, one], [mid, skew, mid]
    else:
        a, b = [reg], [reg, triv, last]
    return a * gr, b * gr


def act(m, x):
    if x.shape[-1] == x.shape[-2]:
        return spaces.grid_perm(m, x)
    r = np.round(m)
    if abs(r[0, 0]) != 1:
        return None
    if r[0, 0] < 0:
        x = x[..., ::-1]
    if r[1, 1] < 0:
        x = x[..., ::-1, :]
    return np.ascontiguousarray(x)


def fiber(M, x):
    return np.einsum('ij,njyx->niyx', M, x, optimize=True)


def blockmat(rs, e):
    n = sum(r.size for r in rs)
    M = np.zeros((n, n))
    p = 0
    for r in rs:
        M[p:p + r.size, p:p + r.size] = r(e)
        p += r.size
    return M


def ref_conv(x, F, bias, k, pad, mode, st, d, gr):
    """Cross-correlation, from the definition."""
    ph, pw = pad if isinstance(pad, list) else (pad, pad)
    x = np.pad(x, [(0, 0), (0, 0), (ph, ph), (pw, pw)], mode={'zeros': 'constant', 'reflect': 'reflect', 'replicate': 'edge', 'circular': 'wrap'}[mode])
    N, C, H, W = x.shape
    ho = (H - d * (k - 1) - 1) // st + 1
    wo = (W - d * (k - 1) - 1) // st + 1
    O = F.shape[0]
    out = np.zeros((N, O, ho, wo))
    ci, co = C // gr, O // gr
    for j in range(gr):
        for a in range(k):
            for b in range(k):
                win = x[:, j * ci:(j + 1) * ci, a * d:a * d + st * (ho - 1) + 1:st, b * d:b * d + st * (wo - 1) + 1:st]
                out[:, j * co:(j + 1) * co] += np.einsum('oc,ncyx->noyx', F[j * co:(j + 1) * co, :, a, b], win, optimize=True)
    if bias is not None:
        out += bias[None, :, None, None]
    return out


def ref_tconv(x, F, bias, k, pad, st, d, gr, op):
    N, C, H, W = x.shape
    co = F.shape[1]
    fh, fw = (H - 1) * st + d * (k - 1) + 1 + op, (W - 1) * st + d * (k - 1) + 1 + op
    out = np.zeros((N, co * gr, fh, fw))
    ci = C // gr
    for j in range(gr):
        for a in range(k):
            for b in range(k):
                out[:, j * co:(j + 1) * co, a * d:a * d + st * (H - 1) + 1:st, b * d:b * d + st * (W - 1) + 1:st] += \
                    np.einsum('co,ncyx->noyx', F[j * ci:(j + 1) * ci, :, a, b], x[:, j * ci:(j + 1) * ci], optimize=True)
    out = out[:, :, pad:fh - pad, pad:fw - pad]
    if bias is not None:
        out = out + bias[None, :, None, None]
    return out


def extra(c):
    if c['L'] in ('conv', 'tconv') and c['k'] == 2:
        return {'rings': [.7 * c['d']], 'sigma': .6, 'frequencies_cutoff': lambda r: 2.}
    if c['L'] in ('conv', 'tconv') and c['k'] == 1:
        return {}
    if c['L'] in ('conv', 'tconv') and c['T'] == 2:
        return {'maximum_offset': 1} if c['s'][0] != 'triv' else {'frequencies_cutoff': 2.}
    return {}


def make(c, ti, to, gr=None):
    kw = dict(padding=tuple(c['p']) if isinstance(c['p'], list) else c['p'], stride=c['st'], dilation=c['d'], groups=gr or c['gr'], bias=c['b'])
    try:
        if c['L'] == 'conv':
            return nn.R2Conv(ti, to, c['k'], padding_mode=c['mode'], **kw, **extra(c))
        if c['L'] == 'tconv':
            return nn.R2ConvTransposed(ti, to, c['k'], output_padding=c['op'], **kw, **extra(c))
        if c['L'] == 'diff':
            return nn.R2Diffop(ti, to, kernel_size=c['k'], padding_mode=c['mode'], **kw)
        return nn.R2Diffop(ti, to, maximum_order=c['o'], accuracy=c['acc'], angle_offset=None if c['ang'] is None else c['ang'] * math.pi, **kw)
    except ValueError as e:
        if 'empty' in str(e):
            return None
        raise


def unit_filters(L):
    n = L.weights.numel()
    out = []
    for i in range(n):
        L.weights.data.zero_()
        L.weights.data[i] = 1.
        out.append(L.expand_parameters()[0].detach().double().numpy().copy())
    return np.array(out)


def irrep_blocks(reps):
    """Change of basis of a list of fields and the range of every irrep, (field, position in the field, start, end)."""
    size = sum(r.size for r in reps)
    A, blocks, p = np.zeros((size, size)), [], 0
    for f, r in enumerate(reps):
        A[p:p + r.size, p:p + r.size] = r.change_of_basis
        q = p
        for k, i in enumerate(r.irreps):
            d = r.group.irreps[i].size if isinstance(i, str) else r.group.irrep(*i).size
            blocks.append((f, k, q, q + d, i))
            q += d
        p += r.size
    return A, blocks


def described(c, L, U, a, b, ai, mon):
    """The names and attributes of the basis elements describe the kernels which the weights scale."""
    W, fo, fi = (U.transpose(0, 2, 1, 3, 4), b[:len(b) // c['gr']], a) if c['L'] == 'tconv' else (U, b, ai)
    be = L.basisexpansion
    names, infos = list(be.get_basis_names()), list(be.get_basis_info())
    n = len(U)
    if not mon.check(len(names) == len(infos) == n == be.dimension() and len(set(names)) == n, 'basis-names', lambda: (len(names), len(infos), n)):
        return infos
    Ao, bo = irrep_blocks(fo)
    Ai, bi = irrep_blocks(fi)
    K = np.einsum('ij,njpyx,pq->niqyx', np.linalg.inv(Ao), W, Ai, optimize=True)
    for k, f in enumerate(infos):
        plain = {x: str(v) for x, v in f.items()}
        for key in (k, names[k]):
            g = be.get_element_info(key)
            mon.check({x: str(v) for x, v in g.items()} == plain, 'element-information', lambda: (key, plain, g))
        mon.check(f['idx'] == k and f['id'] == names[k], 'basis-order', lambda: (k, f['idx'], f['id'], names[k]))
        o, i = bo[f['out_irreps_position']], bi[f['in_irreps_position']]
        mon.check((o[0], o[1]) == (f['out_field_position'], f['out_irrep_idx']) and (i[0], i[1]) == (f['in_field_position'], f['in_irrep_idx']), 'irrep-position', lambda: (k, plain))
        mon.check((fo[o[0]].name, fi[i[0]].name) == (f['out_repr'], f['in_repr']), 'field-position', lambda: (k, plain))
        R = K[k].copy()
        R[o[2]:o[3], i[2]:i[3]] = 0
        mon.check(np.abs(R).max() < 1e-4, 'described-block', lambda: (k, plain, np.abs(R).max()))
        mon.trans()
    return infos


PAIRS = {}


def run_case(c, mon):
    s = c['s']
    gs = spaces.build(s)
    a, b = fields(s, gs, c['T'], c['gr'])
    ti, to = nn.FieldType(gs, a), nn.FieldType(gs, b)
    L = make(c, ti, to)
    mon.state(sorted(c.items(), key=repr))
    if L is None or L.weights.numel() == 0:
        mon.outcome('empty')
        return
    k = L.kernel_size
    L.train()
    n = L.weights.numel()
    U = unit_filters(L)
    t = c['L'] == 'tconv'
    if t:
        mon.check(U.shape[1:] == (ti.size, to.size // c['gr'], k, k), 'filter-shape', lambda: U.shape)
        V = U.transpose(0, 2, 1, 3, 4)
        V = V if c['gr'] == 1 else np.concatenate([V[:, :, i * V.shape[2] // c['gr']:(i + 1) * V.shape[2] // c['gr']] for i in range(c['gr'])], 1)
    else:
        mon.check(U.shape[1:] == (to.size, ti.size // c['gr'], k, k), 'filter-shape', lambda: U.shape)
        V = U
    # V: (weight, all outputs, inputs of the group, k, k) with, for output group j, the inputs of group j
    mon.check(all(np.abs(u).max() > 1e-4 for u in U), 'every-weight-acts', lambda: [i for i, u in enumerate(U) if np.abs(u).max() <= 1e-4])
    na = len(a) // c['gr']
    ai = a[:na]
    els = ref.elements(spaces.group(s), 24)
    lat = [e for e in els if spaces.is_lattice(spaces.plane(s, e))]
    ang = c.get('ang')
    rot_ok = ang is None or s[0] in ('triv', 'rot') or (s[0] == 'fliprot' and s[1] > 0 and abs(ang * 2 * s[1] % 2) < 1e-9 and False)
    # steerability of every unit filter on the pixel grid
    if rot_ok:
        for e in lat:
            m = spaces.plane(s, e)
            Ro, Ri = blockmat(b, e), np.linalg.inv(blockmat(ai, e))
            T = np.einsum('ij,njpyx,pq->niqyx', Ro, V, Ri, optimize=True)
            G = spaces.grid_perm(m, T)
            mon.trans(n)
            mon.check(ref.close(G, V, 1e-4), 'filter-steerable', lambda: (e, np.abs(G - V).max()))
    # each weight acts between one pair of fields, exactly as in the layer between that pair alone
    pairwise(c, gs, a, b, ai, V, mon)
    infos = described(c, L, U, a, b, ai, mon)
    # differential operators: polynomials of one order, equivariant under every group element
    if c['L'].startswith('diff'):
        pts = grid(k, float(c['d']))
        C = poly(V.reshape(V.shape[:3] + (-1,)), pts, k)
        if k <= 5:
            for i in range(n):
                big = [o for o in range(2 * k - 1) if max(np.abs(C[i][..., x, o - x]).max() for x in range(max(0, o - k + 1), min(k, o + 1))) > 1e-4]
                mon.check(len(big) == 1 and infos[i]['order'] == big[0], 'operator-order', lambda: (i, big, infos[i]))
            if rot_ok:
                K = evaluate(C, XI)
                for e in els:
                    m = spaces.plane(s, e)
                    A = evaluate(C, m @ XI)
                    Bv = np.einsum('ij,njpx,pq->niqx', blockmat(b, e), K, np.linalg.inv(blockmat(ai, e)), optimize=True)
                    mon.trans()
                    mon.check(ref.close(A, Bv, 2e-4 * max(1, np.abs(A).max())), 'operator-equivariant', lambda: (e, np.abs(A - Bv).max()))
    # generic weights and bias
    w = np.array([math.sin(1.7 * i + .3) for i in range(n)])
    with torch.no_grad():
        L.weights.data[:] = torch.tensor(w).float()
        if L.bias is not None:
            L.bias.data[:] = torch.tensor([math.cos(.9 * i) for i in range(L.bias.numel())])
    F, bias = L.expand_parameters()
    F = F.detach().double().numpy()
    bias = None if bias is None else bias.detach().double().numpy()
    mon.check(ref.close(F, np.einsum('n,nabyx->abyx', w, U, optimize=True), 1e-4), 'linear-in-weights', lambda: np.abs(F - np.einsum('n,nabyx->abyx', w, U)).max())
    inv = sum(int(round(np.mean([np.trace(r(e)) for e in els]))) for r in b)
    if c['b']:
        mon.check((0 if L.bias is None else L.bias.numel()) == inv, 'bias-dimension', lambda: (L.bias, inv))
    else:
        mon.check(L.bias is None and bias is None, 'no-bias', lambda: bias)
    if bias is not None:
        for e in els:
            mon.trans()
            mon.check(ref.close(blockmat(b, e) @ bias, bias, 1e-5), 'bias-invariant', lambda: (e, bias.tolist()))
        cols = []
        for i in range(L.bias.numel()):
            sv = L.bias.data.clone()
            L.bias.data.zero_()
            L.bias.data[i] = 1
            cols.append(L.expand_parameters()[1].detach().double().numpy().copy())
            L.bias.data[:] = sv
        mon.check(np.linalg.matrix_rank(np.array(cols), tol=1e-4) == inv, 'bias-spans', lambda: np.array(cols).tolist())
    # all impulses
    sizes = image_sizes(c, k)
    for (H, W), sym in sizes:
        X = impulses(ti.size, H, W)
        want = None
        for mode in ('train', 'eval'):
            L.train(mode == 'train')
            with torch.no_grad():
                y = L(nn.GeometricTensor(torch.tensor(X).float(), ti))
            mon.check(y.type == to, 'out-type', None)
            Y = y.tensor.double().numpy()
            mon.trans(len(X))
            if want is None:
                want = ref_tconv(X, F, bias, k, c['p'], c['st'], c['d'], c['gr'], c['op']) if t else ref_conv(X, F, bias, k, c['p'], c['mode'], c['st'], c['d'], c['gr'])
            mon.check(Y.shape == want.shape and ref.close(Y, want, 1e-4), 'convolution', lambda: (mode, Y.shape, want.shape, np.abs(Y - want).max() if Y.shape == want.shape else None))
            if not sym or not rot_ok:
                continue
            for e in lat:
                m = spaces.plane(s, e)
                gx = act(m, fiber(blockmat(a, e), X))
                gy = act(m, fiber(blockmat(b, e), Y))
                if gx is None or (isinstance(c['p'], list) and abs(round(m[0, 0])) != 1):
                    continue
                with torch.no_grad():
                    yg = L(nn.GeometricTensor(torch.tensor(gx).float(), ti)).tensor.double().numpy()
                mon.trans(len(X))
                mon.check(ref.close(yg, gy, 1e-4), 'equivariant', lambda: (mode, e, np.abs(yg - gy).max()))
        # superposition of all impulses (linearity in the input)
        z = np.array([math.sin(2.3 * i) for i in range(len(X))])
        with torch.no_grad():
            y = L(nn.GeometricTensor(torch.tensor(np.einsum('n,ncyx->cyx', z, X)[None]).float(), ti)).tensor.double().numpy()[0]
        off = 0 if bias is None else bias[:, None, None] * (1 - z.sum())
        lin = np.einsum('n,ncyx->cyx', z, want) + off
        mon.check(ref.close(y, lin, 1e-3), 'linear-in-input', lambda: np.abs(y - lin).max())
    mon.trace(len(sizes))
    mon.outcome(c['L'], c['mode'], c['gr'], c['b'])


def image_sizes(c, k):
    """Images whose sampling grid is symmetric (and one that need not be)."""
    out = []
    if c['L'] == 'tconv':
        H = 3
        while (H - 1) * c['st'] - 2 * c['p'] + c['d'] * (k - 1) + 1 < 2:
            H += 1
        return [((H, H), c['op'] == 0), ((H, H + 1), c['op'] == 0)]
    ph, pw = c['p'] if isinstance(c['p'], list) else (c['p'], c['p'])
    e = c['d'] * (k - 1)
    H = max(e + 1 - 2 * ph, 3)
    while (H + 2 * ph - e - 1) % c['st'] or H + 2 * ph - e - 1 < c['st']:
        H += 1
    W = max(e + 1 - 2 * pw, 3)
    while (W + 2 * pw - e - 1) % c['st'] or W + 2 * pw - e - 1 < c['st']:
        W += 1
    out.append(((H, W), True))
    out.append(((H + 1, W + c['st']), c['st'] == 1))
    return out


def impulses(C, H, W):
    X = np.zeros((C * H * W, C, H, W))
    i = 0
    for c in range(C):
        for y in range(H):
            for x in range(W):
                X[i, c, y, x] = 1.
                i += 1
    return X


def pairwise(c, gs, a, b, ai, V, mon):
    pi = np.cumsum([0] + [r.size for r in ai])
    po = np.cumsum([0] + [r.size for r in b])
    where = {}
    for n, F in enumerate(V):
        hit = [(o, i) for o in range(len(b)) for i in range(len(ai)) if np.abs(F[po[o]:po[o + 1], pi[i]:pi[i + 1]]).max() > 1e-6]
        if not mon.check(len(hit) == 1, 'one-pair-per-weight', lambda: (n, hit)):
            continue
        where.setdefault(hit[0], []).append(n)
    for o in range(len(b)):
        for i in range(len(ai)):
            key = (ai[i].name, b[o].name)
            if key not in where.setdefault('cache', {}):
                P = make(c, nn.FieldType(gs, [ai[i]]), nn.FieldType(gs, [b[o]]), gr=1)
                if P is None or P.weights.numel() == 0:
                    where['cache'][key] = None
                else:
                    P.train()
                    where['cache'][key] = unit_filters(P)
            U = where['cache'][key]
            mon.trans()
            got = where.get((o, i), [])
            if not mon.check(len(got) == (0 if U is None else len(U)), 'pair-weights', lambda: (o, i, key, len(got), None if U is None else len(U))):
                continue
            if U is None:
                continue
            if c['L'] == 'tconv':
                U = U.transpose(0, 2, 1, 3, 4)
            B = V[got][:, po[o]:po[o + 1], pi[i]:pi[i + 1]]
            mon.check(ref.close(B, U, 1e-5), 'pair-filter', lambda: (o, i, key, np.abs(B - U).max()))


def finish(tot, outcomes, tier):
    if len(outcomes) < 12:
        return 'the exploration met too few outcomes: %s' % sorted(outcomes)
