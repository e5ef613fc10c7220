"""All module classes with all their constructor configurations within a bounded alphabet (used by P10, P11, P17)."""
import itertools
import math
import numpy as np
from mc import reprs, ref, spaces

C4, D4, C2, SO2, O2, D3 = ['rot', 4, None], ['fliprot', 4, None, .5], ['rot', 2, None], ['rot', -1, 2], ['fliprot', -1, 2, .5], ['fliprot', 3, None, 0.]

TR = ['trivial']
REG = ['regular']


def I(*a):
    return ['irrep'] + list(a)


# field lists: contiguous, interleaved, several sizes
POINTWISE = [(C4, [REG, REG]), (C4, [REG, TR, REG]), (C4, [TR, ['quot', 2], TR, REG]), (D4, [['quot', [None, 4]], TR, ['quot', [None, 4]]])]
ANY = [(C4, [I(1), TR, I(1)]), (C4, [REG, I(1), I(2)]), (O2, [I(1, 1), I(0, 0), I(1, 2), I(1, 1)]), (D4, [I(1, 1), I(1, 1)])]
ORTHO = [(C4, [I(1), TR, I(1)]), (C4, [REG, I(1)]), (O2, [I(1, 1), I(0, 0), I(1, 2), I(1, 0)]), (SO2, [I(1), I(1)])]


def ftype(s, fs):
    from e2cnn import nn
    gs = spaces.build(s)
    return nn.FieldType(gs, [field(gs, f) for f in fs])


def field(gs, f):
    if f[0] == 'induced':
        return gs.induced_repr(tup(f[1]), gs.fibergroup.subgroup(tup(f[1]))[0].irrep(*f[2]))
    return reprs.build(gs.fibergroup, f)


def tup(x):
    return tuple(x) if isinstance(x, list) else x


def entry(m, s, f, **kw):
    return {'m': m, 's': s, 'f': f, 'kw': kw}


def pools(tier):
    ks = [1, 2, 3, [2, 3]]
    for k, st, p, d, cm in itertools.product(ks, [None, 1, 2, [2, 1], 3], [0, 1, [1, 0]], [1, 2, [1, 2]], [False, True]):
        kk = k if isinstance(k, list) else [k, k]
        pp = p if isinstance(p, list) else [p, p]
        if any(2 * a > b for a, b in zip(pp, kk)):
            continue
        yield k, st, p, d, cm


def zoo(tier='quick'):
    out = []
    A = out.append
    for s, f in POINTWISE[:2 if tier == 'quick' else 4]:
        first = f == POINTWISE[0][1]
        for k, st, p, d, cm in pools(tier):
            if not first and (d != 1 or st == 3) and tier == 'quick':
                continue
            A(entry('PointwiseMaxPool', s, f, kernel_size=k, stride=st, padding=p, dilation=d, ceil_mode=cm))
            if d == 1:
                A(entry('PointwiseAvgPool', s, f, kernel_size=k, stride=st, padding=p, ceil_mode=cm))
                for sg in (.6, 1.1) if first else (.6,):
                    A(entry('PointwiseMaxPoolAntialiased', s, f, kernel_size=k, stride=st, padding=p, ceil_mode=cm, sigma=sg))
    for s, f in ANY[:2] if tier == 'quick' else ANY:
        for k, st, p, d, cm in pools(tier):
            A(entry('NormMaxPool', s, f, kernel_size=k, stride=st, padding=p, dilation=d, ceil_mode=cm))
    for s, f in POINTWISE[:2] + ANY[:1]:
        for sg, st, p in itertools.product([.4, .6, 1.], [1, 2, [2, 1], 3], [None, 0, 1, [1, 2]]):
            A(entry('PointwiseAvgPoolAntialiased', s, f, sigma=sg, stride=st, padding=p))
    for s, f in POINTWISE:
        for o in (1, 2, 3, [2, 3], [1, 4]):
            A(entry('PointwiseAdaptiveAvgPool', s, f, output_size=o))
            A(entry('PointwiseAdaptiveMaxPool', s, f, output_size=o))
    for s, f in POINTWISE[:2] + ANY[:2]:
        for mode in ('nearest', 'bilinear'):
            for ac in (False, True):
                for sc in (1, 2, 3, 1.5, .5):
                    A(entry('R2Upsampling', s, f, scale_factor=sc, mode=mode, align_corners=ac))
                for sz in (7, 10, [9, 8]):
                    A(entry('R2Upsampling', s, f, size=sz, mode=mode, align_corners=ac))
    # pointwise non-linearities
    for s, f in POINTWISE:
        for fn in ('p_relu', 'p_sigmoid', 'p_tanh', 'p_elu'):
            try_sig = True
            A(entry('PointwiseNonLinearity', s, f, function=fn))
        for ip in (False, True):
            A(entry('ReLU', s, f, inplace=ip))
            for al in (1., .5):
                A(entry('ELU', s, f, alpha=al, inplace=ip))
            for p in (0., .5, 1.):
                A(entry('PointwiseDropout', s, f, p=p, inplace=ip))
    for s, f in ANY:
        for ip in (False, True):
            for p in (0., .5, 1.):
                A(entry('FieldDropout', s, f, p=p, inplace=ip))
    for s, f in ORTHO:
        for fn, b in (('n_relu', True), ('n_relu', False), ('n_sigmoid', True), ('n_sigmoid', False), ('squash', False)):
            A(entry('NormNonLinearity', s, f, function=fn, bias=b))
        for af in (True, False):
            A(entry('NormBatchNorm', s, [x for x in f if x not in (TR, I(0, 0), REG)], affine=af))
        A(entry('NormPool', s, f))
    # gated: gates are trivial fields
    for s, f in ((C4, [TR, TR, TR, REG, I(1), I(1)]), (O2, [I(0, 0), I(1, 1), I(0, 0), I(1, 2)]), (C4, [I(1), TR, REG, TR])):
        n = len(f) // 2
        for dg in (True, False):
            gates = gate_labels(f)
            A(entry('GatedNonLinearity1', s, f, gates=gates, drop_gates=dg))
        A(entry('GatedNonLinearity2', s, f, gates=gates))
    for s, f in ((C4, [REG, REG, I(1), TR]), (C4, [I(2), REG]), (C2, [REG, TR, REG])):
        for fn in ('c_relu', 'c_sigmoid', 'c_tanh'):
            A(entry('ConcatenatedNonLinearity', s, f, function=fn) if all(x in (REG, TR) for x in f) else entry('IdentityModule', s, f))
    for s, f in ((C4, [REG]), (C4, [REG, REG]), (C2, [REG, REG]), (['rot', 3, None], [REG, REG, REG])):
        A(entry('VectorFieldNonLinearity', s, f))
    IND = [(D4, [['induced', [None, 4], [1]], ['induced', [None, 4], [1]]]), (D4, [['induced', [None, 4], [1]], ['induced', [None, 2], [1]], ['induced', [None, 4], [1]]]),
           (O2, [['induced', [None, -1], [1]], ['induced', [None, -1], [2]]])]
    for s, f in IND:
        for fn, b in (('n_relu', True), ('n_relu', False), ('n_sigmoid', True), ('squash', False)):
            A(entry('InducedNormNonLinearity', s, f, function=fn, bias=b))
        A(entry('InducedNormPool', s, f))
        for af in (True, False):
            A(entry('InducedNormBatchNorm', s, f, affine=af))
    A(entry('InducedGatedNonLinearity1', O2, [['induced', [None, -1], [0]], ['induced', [None, -1], [1]]], gates=['gate', 'gated'], drop_gates=True))
    A(entry('InducedGatedNonLinearity1', O2, [['induced', [None, -1], [0]], ['induced', [None, -1], [1]]], gates=['gate', 'gated'], drop_gates=False))
    for s, f in POINTWISE:
        A(entry('GroupPooling', s, f))
    A(entry('GroupPooling', D4, [REG, REG]))
    for s, f in POINTWISE:
        for af, trk, mom in ((True, True, .1), (False, True, .3), (True, False, .1), (True, True, None)):
            A(entry('InnerBatchNorm', s, f, affine=af, track_running_stats=trk, momentum=mom))
            A(entry('InnerBatchNorm', s, f, affine=af, track_running_stats=trk, momentum=mom, eps=.3))
    for s, f in ANY:
        for af in (True, False):
            A(entry('GNormBatchNorm', s, f, affine=af))
    # structural
    for s, f in ANY + POINTWISE:
        A(entry('IdentityModule', s, f))
        A(entry('DisentangleModule', s, f))
        for perm in itertools.permutations(range(len(f))):
            A(entry('ReshuffleModule', s, f, permutation=list(perm)))
        for S in (5, 6):
            for m in (0., 20.):
                A(entry('MaskModule', s, f, S=S, margin=m))
    for s, f, ids in ((D4, [I(1, 1), REG, I(1, 1)], [[None, 4], [0, 2], [1, 1], [None, 1]]), (O2, [I(1, 1), I(1, 0)], [[None, -1], [None, 3], [.3, 2], [.1, -1]]), (C4, [REG, I(1)], [1, 2, 4])):
        for i in ids:
            A(entry('RestrictionModule', s, f, id=i))
    # convolutions
    for s, f, g in ((D4, [I(1, 1), TR], [TR, I(1, 1), TR]), (C4, [REG, TR], [REG]), (D4, [I(1, 1), I(1, 1)], [TR, TR])):
        gr = [1, 2] if len(f) % 2 == 0 and f[0] == f[1] else [1]
        for k, p, st, d, grp, b in itertools.product([1, 3, 5], [0, 1, 2, [1, 2]], [1, 2], [1, 2], gr, [True, False]):
            for mode in (['zeros', 'reflect', 'replicate', 'circular'] if p and (k == 3 or tier != 'quick') else ['zeros']):
                A(entry('R2Conv', s, f, out=g, kernel_size=k, padding=p, stride=st, dilation=d, groups=grp, bias=b, padding_mode=mode))
                if k == 3:
                    A(entry('R2Diffop', s, f, out=g, kernel_size=k, padding=p, stride=st, dilation=d, groups=grp, bias=b, padding_mode=mode))
            if not isinstance(p, list):
                for op in ([0, 1] if max(st, d) > 1 else [0]):
                    A(entry('R2ConvTransposed', s, f, out=g, kernel_size=k, padding=p, stride=st, dilation=d, groups=grp, bias=b, output_padding=op))
    for k in (2, 4):
        for p, st in itertools.product([0, 1], [1, 2]):
            A(entry('R2Conv', C4, [TR, I(1)], out=[I(1), TR], kernel_size=k, padding=p, stride=st, rings=[.7], sigma=.6, frequencies_cutoff=3.))
            A(entry('R2ConvTransposed', C4, [TR, I(1)], out=[I(1), TR], kernel_size=k, padding=p, stride=st, rings=[.7], sigma=.6, frequencies_cutoff=3.))
    # containers
    for name in SEQS:
        A(entry('Sequential', C4, [REG, REG], seq=name))
    for name in MULTI:
        A(entry('MultipleModule', C4, [REG, TR, I(1), TR], spec=name))
        A(entry('MergeModule', C4, [REG, TR, I(1), TR], spec=name))
        A(entry('BranchingModule', C4, [REG, TR, I(1), TR], spec=name))
    return out


def gate_labels(f):
    """Mark as many gates (trivial fields) as there are fields left to gate."""
    triv = [i for i, x in enumerate(f) if x in (TR, I(0, 0))]
    n = len(f) - len(f) // 2
    lab = ['gated'] * len(f)
    for i in triv[:len(f) // 2]:
        lab[i] = 'gate'
    return lab


SEQS = ['conv-relu', 'conv-bn-relu', 'conv-bn-elu-maxpool', 'conv-relu-gpool', 'pool-conv', 'nested', 'up-conv', 'conv-drop-adapt', 'tconv-relu-antialias', 'restrict-conv', 'diffop-relu', 'identity-conv-identity', 'conv-conv']
MULTI = ['aabb', 'abab', 'abca', 'abcd', 'shape', 'aabb_r1', 'abca_r2', 'gated']


def seq(name, t):
    from e2cnn import nn
    gs = t.gspace
    C = lambda a, b=None, k=3, **kw: nn.R2Conv(a, b or a, k, **kw)
    n = nn
    if name == 'conv-relu':
        return [C(t), n.ReLU(t)]
    if name == 'conv-bn-relu':
        return [C(t, padding=1), n.InnerBatchNorm(t), n.ReLU(t, inplace=True)]
    if name == 'conv-bn-elu-maxpool':
        return [C(t, padding=1, padding_mode='circular'), n.InnerBatchNorm(t, affine=False), n.ELU(t, alpha=.7), n.PointwiseMaxPool(t, 2, ceil_mode=True)]
    if name == 'conv-relu-gpool':
        return [C(t), n.ReLU(t), n.GroupPooling(t)]
    if name == 'pool-conv':
        return [n.PointwiseMaxPool(t, 3, stride=2, padding=1), C(t, padding=2, dilation=2)]
    if name == 'nested':
        return [n.SequentialModule(C(t), n.ReLU(t)), n.SequentialModule(n.SequentialModule(n.PointwiseMaxPool(t, 2, 1)))]
    if name == 'up-conv':
        return [n.R2Upsampling(t, scale_factor=2, mode='nearest'), C(t, stride=2)]
    if name == 'conv-drop-adapt':
        return [C(t), n.PointwiseDropout(t, .5), n.PointwiseAdaptiveAvgPool(t, (2, 1))]
    if name == 'tconv-relu-antialias':
        return [n.R2ConvTransposed(t, t, 3, stride=2, output_padding=1, padding=1), n.ReLU(t), n.PointwiseMaxPoolAntialiased(t, 2, 2)]
    if name == 'restrict-conv':
        r = n.RestrictionModule(t, 2)
        return [r, n.R2Conv(r.out_type, r.out_type, 3)]
    if name == 'diffop-relu':
        return [n.R2Diffop(t, t, kernel_size=3, padding=1), n.ReLU(t)]
    if name == 'identity-conv-identity':
        return [n.IdentityModule(t), C(t, bias=False), n.IdentityModule(t)]
    if name == 'conv-conv':
        u = n.FieldType(gs, [gs.irrep(1), gs.trivial_repr])
        return [C(t, u), C(u, t, k=5, padding=2)]


def multi(name, t):
    """labels, [(module, labels)], reshuffle"""
    from e2cnn import nn as n
    labels = {'aabb': 'aabb', 'abab': 'abab', 'abca': 'abca', 'abcd': 'abcd', 'shape': 'abca', 'aabb_r1': 'abab', 'abca_r2': 'abca', 'gated': 'xgfg'}[name]
    resh = {'aabb_r1': 1, 'abca_r2': 2}.get(name, 0)
    if name == 'gated':
        gt = t.index_select([1, 3])
        ft = t.index_select([2])
        xt = t.index_select([0])
        g1 = n.FieldType(t.gspace, [t.gspace.trivial_repr])
        return list(labels), [(n.ReLU(xt), 'x'), (n.ReLU(gt), 'g'), (n.IdentityModule(ft), 'f')], 0
    parts = t.group_by_labels(list(labels))
    if resh:
        # fields are sorted by the branching module first: ask it which type each label gets
        b = n.BranchingModule(t, list(labels), reshuffle=resh)
        parts = b.out_type
    mods = []
    for l in dict.fromkeys(labels):
        if name == 'shape':
            mods.append((n.R2Conv(parts[l], parts[l], 3, stride=2), l))
        else:
            mods.append((n.IdentityModule(parts[l]) if l != 'b' else n.R2Conv(parts[l], parts[l], 3, padding=1), l))
    if name == 'abcd':
        mods.reverse()
    return list(labels), mods, resh


def kwargs(d):
    kw = {}
    for k, v in d['kw'].items():
        if k in ('seq', 'spec', 'out', 'gates', 'permutation', 'rings'):
            continue
        kw[k] = tuple(v) if isinstance(v, list) else v
    return kw


def build(d):
    """-> (module, list of input types or dict of types)."""
    from e2cnn import nn
    t = ftype(d['s'], d['f'])
    m, kw = d['m'], kwargs(d)
    if m in ('R2Conv', 'R2ConvTransposed', 'R2Diffop'):
        if 'rings' in d['kw']:
            kw['rings'] = d['kw']['rings']
        return getattr(nn, m)(t, ftype(d['s'], d['kw']['out']), **kw), [t]
    if m == 'GatedNonLinearity2':
        g = [i for i, l in enumerate(d['kw']['gates']) if l == 'gate']
        f = [i for i, l in enumerate(d['kw']['gates']) if l != 'gate']
        a, b = t.index_select(g), t.index_select(f)
        return nn.GatedNonLinearity2((a, b)), [a, b]
    if m in ('GatedNonLinearity1', 'InducedGatedNonLinearity1'):
        return getattr(nn, m)(t, gates=d['kw']['gates'], **kw), [t]
    if m == 'ReshuffleModule':
        return nn.ReshuffleModule(t, d['kw']['permutation']), [t]
    if m == 'RestrictionModule':
        return nn.RestrictionModule(t, tup(d['kw']['id'])), [t]
    if m == 'Sequential':
        return nn.SequentialModule(*seq(d['kw']['seq'], t)), [t]
    if m in ('MultipleModule', 'MergeModule', 'BranchingModule'):
        labels, mods, resh = multi(d['kw']['spec'], t)
        if m == 'MultipleModule':
            return nn.MultipleModule(t, labels, mods, reshuffle=resh), [t]
        if m == 'BranchingModule':
            return nn.BranchingModule(t, labels, reshuffle=resh), [t]
        return nn.MergeModule(mods), {l: x.in_type for x, l in mods}
    return getattr(nn, m)(t, **kw), [t]


def randomise(m):
    """Deterministic, generic parameters and statistics."""
    import torch
    with torch.no_grad():
        for j, (n, p) in enumerate(m.named_parameters()):
            if not p.requires_grad:
                continue
            v = torch.tensor([math.sin(1.1 * i + j) for i in range(p.numel())], dtype=p.dtype).reshape(p.shape)
            p.copy_(v if 'log' not in n else .3 * v)
        for j, (n, b) in enumerate(m.named_buffers()):
            if 'running_var' in n:
                b.copy_(torch.tensor([1.3 + math.sin(1.7 * i + j) for i in range(b.numel())], dtype=b.dtype).reshape(b.shape))
            elif 'running_mean' in n:
                b.copy_(torch.tensor([math.cos(1.9 * i + j) for i in range(b.numel())], dtype=b.dtype).reshape(b.shape))


def image(b, c, h, w, k=0):
    import torch
    n = b * c * h * w
    return torch.tensor([2 * math.sin(.9 * i + .31 * k + .0137 * i * i) for i in range(n)], dtype=torch.float32).reshape(b, c, h, w)
