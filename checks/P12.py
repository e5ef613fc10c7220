"""P12: non-linearities and invariant maps: every field list in the bound, every group element, enumerated fiber vectors,
against the field by field definition; and every representation of a wide alphabet is either refused or handled equivariantly."""
import itertools
import math
import numpy as np
import torch
from mc import ref, reprs, spaces
from e2cnn import nn
from e2cnn.group import disentangle

PID = 'P12'
BOUNDS = {
    'quick': 'groups C_1..C_4, C_6, reflections, D_2, D_3, D_4, SO(2), O(2); all field lists of up to 3 fields over 3-4 representations of different sizes per group (all orders and interleavings) and selected lists of 4-6, for each of 13 modules with all functions, biases, gate labellings, in place or not; all group elements (a lattice of 12 rotations for the continuous groups); per field all vectors over {-1, 0, 0.6} (up to 3 channels; unit, signed, zero and generic vectors above) plus generic points; admission: 40-60 representations per group (irreducible, regular, all quotient, all induced, sums, restricted, disentangled blocks, permuted, signed, rotated and sheared bases, concatenated) x all modules',
    'thorough': 'also C_5, C_8, D_1, D_5, D_6; all field lists of up to 4 fields; all group elements on a lattice of 24 rotations',
}
ASSUMPTIONS = ['float32 tensors on the CPU', 'fields of the vector-field non-linearity have a unique largest entry (the choice between equal entries is not defined)',
               'the gates of InducedGatedNonLinearity1 are induced from the same subgroup as the gated fields (documented requirement)']
TECHNIQUE = 'exhaustive enumeration of modules x field lists x group elements x fiber vectors on the real modules, against a field by field reference model'

TR, REG = ['trivial'], ['regular']


def I(*a):
    return ['irrep'] + list(a)


# --------------------------------------------------------------------------- spaces and alphabets
SPACES = [['triv'], ['flip', .5], ['rot', 2, None], ['rot', 3, None], ['rot', 4, None], ['rot', 6, None], ['fliprot', 2, None, .5], ['fliprot', 3, None, 0.], ['fliprot', 4, None, .5], ['rot', -1, 2], ['fliprot', -1, 2, .5]]
MORE = [['rot', 5, None], ['rot', 8, None], ['fliprot', 1, None, .5], ['fliprot', 5, None, .5], ['fliprot', 6, None, .25]]


def wide(s):
    """The representations tried on every module."""
    g = spaces.group(s)
    fin = g[0] in ('C', 'D')
    out = [I(*i) for i in reprs.irrep_ids(g)]
    if fin:
        out += [REG]
        for sid in ref.subgroup_ids(g):
            out += [['quot', sid]]
        for sid in ref.subgroup_ids(g):
            for i in reprs.irrep_ids(ref.subgroup_desc(g, sid))[:4]:
                out += [['ind', sid, i]]
        base = [TR, REG, I(*reprs.irrep_ids(g)[-1])]
        out += [['sum', [REG, TR], 'reg+tr'], ['sum', [REG, REG], 'reg+reg'], ['sum', [I(*reprs.irrep_ids(g)[-1])] * 2, 'two'], ['sum', [TR, TR], 'tr+tr']]
        for k in ('perm', 'sign', 'house', 'shear'):
            out += [['sumcob', [REG, TR], k, 'q' + k], ['cob', REG, k, 'c' + k], ['sumcob', [I(*i) for i in reprs.irrep_ids(g)], k, 'i' + k]]
        parents = []
        if g[0] == 'C' and g[1] > 1:
            parents = [(['C', 2 * g[1]], g[1]), (['D', g[1]], [None, g[1]])]
        elif g[0] == 'D' and g[1] > 1:
            parents = [(['D', 2 * g[1]], [1, g[1]]), (['D', 2 * g[1]], [0, g[1]])]
        for p, sid in parents:
            for d in (REG, I(*reprs.irrep_ids(p)[-1]), ['quot', ref.subgroup_ids(p)[-1]]):
                out += [['res', p, sid, d]]
                out += [['blk', p, sid, d, i] for i in range(2)]
        out += [['concat', d] for d in (REG, TR, I(*reprs.irrep_ids(g)[-1]))]
    else:
        out += [['sum', [I(*i) for i in reprs.irrep_ids(g)], 'all']]
        for k in ('perm', 'house', 'shear'):
            out += [['sumcob', [I(*i) for i in reprs.irrep_ids(g)], k, 'i' + k]]
        if g[0] == 'O2':
            out += [['ind', [None, -1], [k]] for k in range(3)] + [['cob', ['ind', [None, -1], [1]], k, 'd' + k] for k in ('house', 'shear')]
            out += [['sum', [['ind', [None, -1], [1]], ['ind', [None, -1], [2]]], 'two induced']]
    seen, res = set(), []
    for d in out:
        if repr(d) not in seen:
            seen.add(repr(d))
            res.append(d)
    return res


class Missing(Exception):
    pass


def build(gs, d):
    G = gs.fibergroup
    if d[0] in ('res', 'blk'):
        P = ref.gdesc(d[1])
        r = P.restrict_representation(ref.sid(d[2]), reprs.build(P, d[3]))
        assert r.group == G
        if d[0] == 'blk':
            b = disentangle(r)[1]
            if d[4] >= len(b):
                raise Missing
            r = b[d[4]]
        return r
    if d[0] == 'concat':
        r = reprs.build(G, d[1])
        if 'concatenated' not in r.supported_nonlinearities:
            raise Missing
        return nn.ConcatenatedNonLinearity(nn.FieldType(gs, [r])).out_type.representations[0]
    return reprs.build(G, d)


def subfield(d):
    """Size of the subfields of an induced representation."""
    if d[0] == 'quot':
        return 1
    if d[0] == 'ind':
        return None      # size of the inducing irrep, see sub_size
    return None


def lists(s, tier):
    """Field alphabets with several sizes: {kind: alphabet}."""
    g = spaces.group(s)
    ids = reprs.irrep_ids(g)
    fin = g[0] in ('C', 'D')
    two = [I(*i) for i in ids if build_size(g, i) == 2][:2]
    sign = [I(*i) for i in ids if build_size(g, i) == 1 and i != ids[0]][:1]
    norm = [TR if fin else I(*ids[0])] + two + sign + ([REG] if fin and g[1] > 1 else [])
    pw = [TR]
    con = [TR] + sign
    ind, igate = [], []
    if fin and g != ['C', 1]:
        pw += [REG]
        con += [REG]
        sids = ref.subgroup_ids(g)
        q = [['quot', x] for x in sids if 1 < order(g) // order(ref.subgroup_desc(g, x)) < order(g)]
        pw += q[:2]
    if g[0] == 'D' and g[1] > 1:
        N = g[1]
        k = [1] if N > 2 else [0]
        ind = [['ind', [None, N], k], ['ind', [None, N], [0]], ['ind', [None, 1], [0]]]
        if N == 4:
            ind.append(['ind', [None, 2], [1]])
        igate = [(['ind', [None, N], [0]], ['ind', [None, N], [0]]), (['ind', [None, N], [0]], ['ind', [None, N], k])]
    elif g[0] == 'O2':
        ind = [['ind', [None, -1], [0]], ['ind', [None, -1], [1]], ['ind', [None, -1], [2]]]
        igate = [(['ind', [None, -1], [0]], ['ind', [None, -1], [k]]) for k in (1, 2)]
    elif g[0] == 'C' and g[1] in (4, 6):
        ind = [['ind', 2, [0]], ['ind', 2, [1]], ['ind', 1, [0]]]
        igate = [(['ind', 2, [0]], ['ind', 2, [0]]), (['ind', 2, [0]], ['ind', 2, [1]])]
    return {'norm': norm, 'pw': pw if fin else [], 'con': con if fin else [], 'ind': ind, 'igate': igate}


def order(g):
    return g[1] * (2 if g[0] == 'D' else 1)


def build_size(g, i):
    return reprs.irrep_mat(g, i, ref.elements(g)[0]).shape[0]


def sub_size(g, d):
    """Subfield size of an induced/quotient representation, by definition the size of the inducing representation."""
    if d[0] == 'quot':
        return 1
    if d[0] == 'ind':
        h = ref.subgroup_desc(g, ref.sid(d[1]))
        return reprs.irrep_mat(h, d[2], ref.elements(h)[0]).shape[0]
    return None


def sequences(alpha, n):
    for k in range(1, n + 1):
        yield from itertools.product(alpha, repeat=k)


# --------------------------------------------------------------------------- configurations
def sig(x):
    return 1 / (1 + np.exp(-x))


FN = {'relu': lambda x: np.maximum(x, 0), 'sigmoid': sig, 'tanh': np.tanh, 'squash': lambda x: x / (1 + x)}


def elu(a):
    return lambda x: np.where(x > 0, x, a * np.expm1(np.minimum(x, 0)))


CONFIGS = {
    'pw': [['PointwiseNonLinearity', {'function': 'p_' + f}] for f in ('relu', 'elu', 'sigmoid', 'tanh')] + [['ReLU', {'inplace': b}] for b in (False, True)] +
          [['ELU', {'alpha': a, 'inplace': b}] for a in (1., .3) for b in (False, True)] + [['GroupPooling', {}]],
    'con': [['ConcatenatedNonLinearity', {'function': 'c_' + f}] for f in ('relu', 'sigmoid', 'tanh')],
    'norm': [['NormNonLinearity', {'function': f, 'bias': b}] for f, b in (('n_relu', True), ('n_relu', False), ('n_sigmoid', True), ('n_sigmoid', False), ('squash', False))] + [['NormPool', {}]],
    'ind': [['InducedNormNonLinearity', {'function': f, 'bias': b}] for f, b in (('n_relu', True), ('n_relu', False), ('n_sigmoid', True), ('squash', False))] + [['InducedNormPool', {}]],
    'vf': [['VectorFieldNonLinearity', {}]],
}


def cases(tier):
    out = []
    for s in SPACES + (MORE if tier != 'quick' else []):
        L = lists(s, tier)
        n = 3 if tier == 'quick' else 4
        for kind in ('pw', 'con', 'norm', 'ind'):
            if L[kind]:
                for i in range(len(CONFIGS[kind])):
                    out.append({'k': 'lists', 's': s, 'kind': kind, 'cfg': i, 'n': n, 'tier': tier})
        g = spaces.group(s)
        if g[0] == 'C' and g[1] > 1:
            out.append({'k': 'vf', 's': s, 'n': n, 'tier': tier})
        out.append({'k': 'gated', 's': s, 'tier': tier})
        if L['igate']:
            out.append({'k': 'igated', 's': s, 'tier': tier})
        W = wide(s)
        for i in range(0, len(W), 6):
            out.append({'k': 'admit', 's': s, 'd': W[i:i + 6], 'tier': tier})
    return out


def cost(c):
    return {'gated': 5, 'admit': 8}.get(c['k'], 3) * (order(spaces.group(c['s'])) if spaces.group(c['s'])[0] in 'CD' else 6)


def elements(s, tier):
    g = spaces.group(s)
    return ref.elements(g, 12 if tier == 'quick' else 24)


# --------------------------------------------------------------------------- fiber vectors
def vectors(n, salt=0, unique_max=False):
    out = []
    if n <= 3:
        out = [list(v) for v in itertools.product([-1., 0., .6], repeat=n)]
    else:
        out = [[0.] * n]
        for i in range(n):
            for a in (1., -1.):
                v = [0.] * n
                v[i] = a
                out.append(v)
    for k in range(14):
        out.append([2.2 * math.sin(1 + .77 * i * (k + 1) + k * k * .31 + salt) for i in range(n)])
    if unique_max:
        res = []
        for v in out:
            a = sorted(v)
            if a[-1] <= 0 or n == 1 or a[-1] - a[-2] > 1e-2:
                res.append(v)
        out = res
    return np.array(out)


def points(sizes, unique_max=False):
    """c x P matrix of fiber vectors; P is a multiple of 6."""
    V = [vectors(n, .3 * i, unique_max) for i, n in enumerate(sizes)]
    P = max(len(v) for v in V) + 20
    P += -P % 6
    cols = []
    for p in range(P):
        cols.append(np.concatenate([v[(p * (2 * i + 1) + i) % len(v)] for i, v in enumerate(V)]))
    return np.array(cols).T


def to_tensor(X):
    c, P = X.shape
    return torch.tensor(X.reshape(c, 2, 3, P // 6).transpose(1, 0, 2, 3).copy(), dtype=torch.float32)


def from_tensor(t):
    b, c, h, w = t.shape
    return t.detach().numpy().astype(float).transpose(1, 0, 2, 3).reshape(c, -1)


def rho(t, e):
    from scipy.linalg import block_diag
    return block_diag(*[np.asarray(r(e)) for r in t.representations])


# --------------------------------------------------------------------------- reference
def ref_norm(x, f, b):
    n = np.sqrt((x ** 2).sum(0))
    m = np.where(n > 1e-10, f(n - b) / np.maximum(n, 1e-10), 0.)
    return x * m


def ref_ind_norm(x, f, b, s):
    return np.concatenate([ref_norm(x[i:i + s], f, b) for i in range(0, len(x), s)])


def ref_field(name, kw, x, b, sub):
    """The documented function of one field."""
    if name == 'PointwiseNonLinearity':
        f = kw['function'][2:]
        return elu(1.)(x) if f == 'elu' else FN[f](x)
    if name == 'ReLU':
        return np.maximum(x, 0)
    if name == 'ELU':
        return elu(kw['alpha'])(x)
    if name == 'ConcatenatedNonLinearity':
        f = FN[kw['function'][2:]]
        return np.stack([f(x), f(-x)], 1).reshape(2 * len(x), -1)
    if name in ('NormNonLinearity', 'InducedNormNonLinearity'):
        f = FN[kw['function'].replace('n_', '')]
        return ref_ind_norm(x, f, b if b is not None else 0., sub if name[0] == 'I' else len(x))
    if name == 'GroupPooling':
        return x.max(0, keepdims=True)
    if name == 'NormPool':
        return np.sqrt((x ** 2).sum(0, keepdims=True))
    if name == 'InducedNormPool':
        return np.stack([np.sqrt((x[i:i + sub] ** 2).sum(0)) for i in range(0, len(x), sub)]).max(0, keepdims=True)
    if name == 'VectorFieldNonLinearity':
        N = len(x)
        a = x.argmax(0) * 2 * np.pi / N
        r = np.maximum(x.max(0), 0)
        return np.stack([np.cos(a) * r, np.sin(a) * r])[:2 if N > 2 else 1]
    raise KeyError(name)


def params(m):
    return [p for p in m.parameters() if p.requires_grad]


def set_bias(m):
    """Distinct values for the bias of every field -> array of parameter values (flattened) or None."""
    ps = params(m)
    if not ps:
        return None
    assert len(ps) == 1
    v = [.45 * math.sin(2.3 * i + .4) + .07 * i for i in range(ps[0].numel())]
    with torch.no_grad():
        ps[0].copy_(torch.tensor(v).reshape(ps[0].shape))
    return np.array(v)


def run(m, X, mon, inplace, what):
    x = to_tensor(X)
    x0 = x.clone()
    y = m(nn.GeometricTensor(x, m.in_type))
    mon.trans()
    mon.check(y.type == m.out_type, 'output-type', lambda: what)
    if not inplace:
        mon.check(torch.equal(x, x0), 'input-unchanged', lambda: what)
    mon.check(y.tensor.shape == (x0.shape[0], m.out_type.size) + tuple(x0.shape[2:]), 'output-shape', lambda: what)
    return from_tensor(y.tensor)


def equivariant(m, X, Y, els, mon, inplace, what, label='equivariance'):
    sc = max(1., np.abs(Y).max())
    for e in els:
        A, B = rho(m.in_type, e), rho(m.out_type, e)
        Z = run(m, A @ X, mon, inplace, what)
        mon.check(ref.close(Z, B @ Y, 3e-5 * sc), label, lambda: (what, e, np.abs(Z - B @ Y).max()))


def match(want, got, cands, used):
    return [j for j in range(len(cands)) if ref.close(want(cands[j]), got, 2e-5 * max(1., np.abs(got).max()))]


# --------------------------------------------------------------------------- cases
def check_module(name, kw, gs, fs, els, mon, tier):
    g = spaces.group(fs['s'])
    rs = [build(gs, d) for d in fs['f']]
    t = nn.FieldType(gs, rs)
    what = (fs['s'], fs['f'], name, kw)
    m = getattr(nn, name)(t, **kw)
    vals = set_bias(m)
    inplace = bool(kw.get('inplace'))
    X = points([r.size for r in rs], name == 'VectorFieldNonLinearity')
    Y = run(m, X, mon, inplace, what)
    pos = opos = 0
    owner = []
    for i, (d, r) in enumerate(zip(fs['f'], rs)):
        x = X[pos:pos + r.size]
        n_out = m.out_type.representations[i].size
        y = Y[opos:opos + n_out]
        sub = sub_size(g, d)
        if vals is None:
            w = ref_field(name, kw, x, None, sub)
            mon.check(ref.close(y, w, 2e-5 * max(1., np.abs(w).max())), 'definition', lambda: (what, i, np.abs(y - w).max() if y.shape == w.shape else (y.shape, w.shape)))
        else:
            own = [j for j, v in enumerate(vals) if ref.close(ref_field(name, kw, x, math.exp(v), sub), y, 2e-5 * max(1., np.abs(y).max()))]
            mon.check(len(own) == 1, 'definition', lambda: (what, i, own))
            owner += own[:1]
        pos += r.size
        opos += n_out
    mon.check(pos == len(X) and opos == len(Y), 'fields-cover', lambda: what)
    if vals is not None:
        mon.check(len(set(owner)) == len(rs) == len(vals), 'one-bias-per-field', lambda: (what, owner))
    equivariant(m, X, Y, els, mon, inplace, what)
    mon.trace()
    mon.state(what)


def run_case(c, mon):
    gs = spaces.build(c['s'])
    els = elements(c['s'], c['tier'])
    if c['k'] == 'lists':
        L = lists(c['s'], c['tier'])[c['kind']]
        name, kw = CONFIGS[c['kind']][c['cfg']]
        L = L[:4]
        for fs in sequences(L, c['n']):
            # all elements for short lists, generators for the longest (the action is a homomorphism, see P02)
            e = els if len(fs) < 3 or len(els) <= 4 else [els[1 % len(els)], els[-1]]
            check_module(name, kw, gs, {'s': c['s'], 'f': list(fs)}, e, mon, c['tier'])
        if len(L) > 1:
            for fs in ([L[0], L[1], L[0], L[1], L[1], L[0]], [L[-1], L[-1], L[0], L[0]], [L[0], L[0], L[-1], L[0]], [L[-1], L[0], L[0], L[-1]]):
                check_module(name, kw, gs, {'s': c['s'], 'f': list(fs)}, [els[-1]], mon, c['tier'])
    elif c['k'] == 'vf':
        for n in range(1, c['n'] + 2):
            check_module('VectorFieldNonLinearity', {}, gs, {'s': c['s'], 'f': [REG] * n}, els, mon, c['tier'])
    elif c['k'] == 'gated':
        run_gated(c, gs, els, mon)
    elif c['k'] == 'igated':
        run_igated(c, gs, els, mon)
    else:
        run_admit(c, gs, els, mon)
    mon.sample(c)


def trivial_desc(s):
    g = spaces.group(s)
    return TR if g[0] in 'CD' else I(*reprs.irrep_ids(g)[0])


def check_gated(make, gate_idx, gated_idx, rs, els, mon, what, two, drop, quot=1, subs=None):
    """gate_idx, gated_idx: positions of the fields in the list rs; the output keeps all fields in order (or only the gated ones)."""
    m = make()
    vals = set_bias(m)
    sizes = [r.size for r in rs]
    pos = np.cumsum([0] + sizes)
    X = points(sizes)
    ch = lambda idx: np.concatenate([np.arange(pos[i], pos[i + 1]) for i in idx])

    def go(X):
        if two:
            a, b = to_tensor(X[ch(gate_idx)]), to_tensor(X[ch(gated_idx)])
            a0, b0 = a.clone(), b.clone()
            y = m(nn.GeometricTensor(a, m.in_type[0]), nn.GeometricTensor(b, m.in_type[1]))
            mon.check(torch.equal(a, a0) and torch.equal(b, b0), 'input-unchanged', lambda: what)
            mon.trans()
            mon.check(y.type == m.out_type, 'output-type', lambda: what)
            return from_tensor(y.tensor)
        return run(m, X, mon, False, what)
    Y = go(X)
    out_fields = list(gated_idx) if drop else list(range(len(rs)))
    opos = np.cumsum([0] + [sizes[i] for i in out_fields])
    mon.check([r.name for r in m.out_type.representations] == [rs[i].name for i in out_fields] and len(Y) == opos[-1], 'output-fields', lambda: what)
    G = {}
    for k in gate_idx:
        for j, v in enumerate(vals):
            G[(k, j)] = sig(X[pos[k]:pos[k + 1]] - v)
    owner, biases = [], []
    if not drop:
        for o, i in enumerate(out_fields):
            if i in gate_idx:
                y = Y[opos[o]:opos[o + 1]]
                js = [j for j in range(len(vals)) if ref.close(y, G[(i, j)], 2e-5)]
                mon.check(len(js) == 1, 'gate-output', lambda: (what, i, js))
    for o, i in enumerate(out_fields):
        if i in gate_idx:
            continue
        y = Y[opos[o]:opos[o + 1]]
        x = X[pos[i]:pos[i + 1]]
        rep = sizes[i] // quot
        hits = [kj for kj, gte in G.items() if ref.close(x * np.repeat(gte, rep, axis=0), y, 2e-5 * max(1., np.abs(x).max()))]
        mon.check(len(hits) == 1, 'definition', lambda: (what, i, hits))
        owner += [h[0] for h in hits[:1]]
        biases += [h[1] for h in hits[:1]]
    mon.check(sorted(owner) == sorted(gate_idx) and sorted(biases) == list(range(len(vals))), 'one-gate-per-field', lambda: (what, owner, biases))
    from scipy.linalg import block_diag
    for e in els:
        A = block_diag(*[np.asarray(r(e)) for r in rs])
        B = block_diag(*[np.asarray(rs[i](e)) for i in out_fields])
        Z = go(A @ X)
        mon.check(ref.close(Z, B @ Y, 3e-5 * max(1., np.abs(Y).max())), 'equivariance', lambda: (what, e, np.abs(Z - B @ Y).max()))
    mon.trace()
    mon.state(what)


def run_gated(c, gs, els, mon):
    s = c['s']
    T = trivial_desc(s)
    A = lists(s, c['tier'])['norm']
    A = A[:3] if len(A) > 3 else A
    nmax = 2 if c['tier'] == 'quick' else 3
    done = set()
    for n in range(1, nmax + 1):
        for gated in itertools.product(A, repeat=n):
            # all interleavings of n gates with the gated fields
            for where in itertools.combinations(range(2 * n), n):
                fs, lab, it = [], [], iter(gated)
                for i in range(2 * n):
                    if i in where:
                        fs.append(T)
                        lab.append('gate')
                    else:
                        fs.append(next(it))
                        lab.append('gated')
                gi = [i for i in range(2 * n) if lab[i] == 'gate']
                fi = [i for i in range(2 * n) if lab[i] == 'gated']
                rs = [build(gs, d) for d in fs]
                t = nn.FieldType(gs, rs)
                e = els if n == 1 else [els[1 % len(els)], els[-1]]
                for drop in (True, False):
                    check_gated(lambda: nn.GatedNonLinearity1(t, gates=lab, drop_gates=drop), gi, fi, rs, e, mon, ('gated1', s, fs, lab, drop), False, drop)
                if gi == list(range(n)):
                    check_gated(lambda: nn.GatedNonLinearity1(t), gi, fi, rs, e, mon, ('gated1 default', s, fs), False, True)
                    check_gated(lambda: nn.GatedNonLinearity2((t.index_select(gi), t.index_select(fi))), gi, fi, rs, e, mon, ('gated2', s, fs), True, True)
    # three gates and fields in every interleaving: several separate runs of gates and of fields of one size
    for gated in ([A[-1]] * 3, [A[-1], A[0], A[-1]]):
        for where in itertools.combinations(range(6), 3):
            it = iter(gated)
            lab = ['gate' if i in where else 'gated' for i in range(6)]
            fs = [T if i in where else next(it) for i in range(6)]
            rs = [build(gs, d) for d in fs]
            t = nn.FieldType(gs, rs)
            gi = [i for i in range(6) if i in where]
            fi = [i for i in range(6) if i not in where]
            for drop in (True, False):
                check_gated(lambda: nn.GatedNonLinearity1(t, gates=lab, drop_gates=drop), gi, fi, rs, [els[-1]], mon, ('gated1', s, fs, lab, drop), False, drop)
    for gated in ([A[-1], A[0], A[-1], A[0]], [A[-1], A[-1], A[0]], [A[0], A[-1], A[-1], A[0], A[-1]], [A[-1], A[0], A[-1], A[0], A[-1]], [A[0], A[-1], A[0], A[-1], A[0]]):
        n = len(gated)
        fs = [T] * n + gated
        rs = [build(gs, d) for d in fs]
        t = nn.FieldType(gs, rs)
        gi, fi = list(range(n)), list(range(n, 2 * n))
        check_gated(lambda: nn.GatedNonLinearity1(t), gi, fi, rs, [els[-1]], mon, ('gated1 default', s, fs), False, True)
        check_gated(lambda: nn.GatedNonLinearity2((t.index_select(gi), t.index_select(fi))), gi, fi, rs, [els[-1]], mon, ('gated2', s, fs), True, True)


def run_igated(c, gs, els, mon):
    s = c['s']
    pairs = lists(s, c['tier'])['igate']
    gate = pairs[0][0]
    A = [p[1] for p in pairs]
    for n in (1, 2, 3):
        for gated in itertools.product(A, repeat=n):
            if n == 3 and c['tier'] == 'quick' and len(set(map(repr, gated[::2]))) > 1:
                continue
            for where in itertools.combinations(range(2 * n), n):
                fs, lab, it = [], [], iter(gated)
                for i in range(2 * n):
                    fs.append(gate if i in where else next(it))
                    lab.append('gate' if i in where else 'gated')
                gi = [i for i in range(2 * n) if lab[i] == 'gate']
                fi = [i for i in range(2 * n) if lab[i] == 'gated']
                rs = [build(gs, d) for d in fs]
                t = nn.FieldType(gs, rs)
                for drop in (True, False):
                    check_gated(lambda: nn.InducedGatedNonLinearity1(t, gates=lab, drop_gates=drop), gi, fi, rs, els, mon, ('igated', s, fs, lab, drop), False, drop, quot=rs[gi[0]].size)
                if gi == list(range(n)):
                    check_gated(lambda: nn.InducedGatedNonLinearity1(t), gi, fi, rs, els, mon, ('igated default', s, fs), False, True, quot=rs[gi[0]].size)


ADMIT = [['PointwiseNonLinearity', {'function': 'p_tanh'}], ['PointwiseNonLinearity', {'function': 'p_sigmoid'}], ['ReLU', {}], ['ELU', {}], ['GroupPooling', {}], ['ConcatenatedNonLinearity', {}],
         ['NormNonLinearity', {}], ['NormPool', {}], ['InducedNormNonLinearity', {}], ['InducedNormPool', {}], ['VectorFieldNonLinearity', {}], ['GatedNonLinearity1', {}], ['GatedNonLinearity2', {}],
         ['GatedNonLinearity1', {'as_gate': True}], ['GatedNonLinearity2', {'as_gate': True}], ['InducedGatedNonLinearity1', {}],
         ['PointwiseMaxPool', {'kernel_size': 1}], ['PointwiseDropout', {}], ['NormMaxPool', {'kernel_size': 1}], ['InnerBatchNorm', {}], ['NormBatchNorm', {}], ['InducedNormBatchNorm', {}], ['GNormBatchNorm', {}]]


def must_accept(name, kw, g, d):
    """Representations the documentation promises to support."""
    if kw.get('as_gate'):
        return d == TR
    perm = d in (TR, REG) or d[0] == 'quot' or (d[0] == 'sum' and all(x in (TR, REG) for x in d[1]))
    if name in ('PointwiseNonLinearity', 'ReLU', 'ELU', 'GroupPooling', 'PointwiseMaxPool', 'PointwiseDropout', 'InnerBatchNorm'):
        return perm
    if name in ('NormNonLinearity', 'NormPool', 'GatedNonLinearity1', 'GatedNonLinearity2', 'NormMaxPool'):
        return perm or d[0] in ('irrep', 'ind')
    if name == 'ConcatenatedNonLinearity':
        return perm
    if name in ('InducedNormNonLinearity', 'InducedNormPool'):
        return d[0] in ('quot', 'ind')
    if name == 'VectorFieldNonLinearity':
        return d == REG and g[0] == 'C' and g[1] > 1
    if name == 'GNormBatchNorm':
        return d[0] in ('irrep', 'quot', 'ind') or perm
    return False


def run_admit(c, gs, els, mon):
    s = c['s']
    g = spaces.group(s)
    T = build(gs, trivial_desc(s))
    for d in c['d']:
        try:
            r = build(gs, d)
        except Missing:
            continue
        for name, kw in ADMIT:
            kw = dict(kw)
            as_gate = kw.pop('as_gate', False)
            what = (s, d, name, kw, as_gate)
            if name == 'ConcatenatedNonLinearity' and r.size > 6 and c['tier'] == 'quick':     # decomposing the output takes very long
                continue
            mon.state(what)
            two = name == 'GatedNonLinearity2'
            try:
                if 'Gated' in name:
                    gate, gated = (r, T) if as_gate else (T, r)
                    if name[0] == 'I':
                        gate = reprs.build(gs.fibergroup, [d[0], d[1], [0]]) if d[0] == 'ind' and g[0] != 'D' else r
                    if two:
                        m = nn.GatedNonLinearity2((nn.FieldType(gs, [gate]), nn.FieldType(gs, [gated])))
                    else:
                        m = getattr(nn, name)(nn.FieldType(gs, [gate, gated]))
                else:
                    m = getattr(nn, name)(nn.FieldType(gs, [r]), **kw)
            except (AssertionError, ValueError):
                mon.check(not must_accept(name, dict(kw, as_gate=as_gate), g, d), 'refused', lambda: what)
                mon.outcome('refused', name)
                continue
            mon.outcome('accepted', name)
            set_params(m)
            m.eval() if 'Dropout' in name else m.train()
            if 'BatchNorm' in name and name != 'InnerBatchNorm':
                m.eval()
            ts = list(m.in_type) if two else [m.in_type]
            X = points([q.size for t in ts for q in t.representations], name == 'VectorFieldNonLinearity')
            c0 = ts[0].size

            def go(X):
                mon.trans()
                xs = [nn.GeometricTensor(to_tensor(X[:c0]), ts[0])] + ([nn.GeometricTensor(to_tensor(X[c0:]), ts[1])] if two else [])
                return from_tensor(m(*xs).tensor)
            Y = go(X)
            from scipy.linalg import block_diag
            for e in els:
                A = block_diag(*[rho(t, e) for t in ts])
                Z = go(A @ X)
                W = rho(m.out_type, e) @ Y
                if not mon.check(ref.close(Z, W, 1e-4 * max(1., np.abs(Y).max())), 'accepted-but-not-equivariant', lambda: (what, e, np.abs(Z - W).max())):
                    break
            mon.trace()


def set_params(m):
    with torch.no_grad():
        for p in m.parameters():
            if p.requires_grad:
                p.copy_(torch.tensor([.45 * math.sin(2.3 * i + .4) + .3 for i in range(p.numel())]).reshape(p.shape))


def finish(tot, outcomes, tier):
    for name, kw in ADMIT:
        if repr(('accepted', name)) not in outcomes:
            return 'no representation was accepted by ' + name
        if name not in ('GNormBatchNorm',) and repr(('refused', name)) not in outcomes:
            return 'no representation was refused by ' + name
