"""P07: what is built does not depend on what was built before.

State: the process-wide and per-space caches of the library, as reached by a history of construction operations.
The explorer walks the tree of all histories up to the depth bound, forking the process at every node (the fork is
the snapshot of every cache).  Oracle: the value of each operation equals its value in a fresh process, in every
position of every history; at the end of a history all of its earlier operations are repeated and compared again.
"""
import hashlib
import json
import math
import os
import numpy as np
import torch          # imported before any fork; nothing of the library is used at import
import e2cnn.nn
import e2cnn.diffops
from e2cnn.kernels import EmptyBasisException
from mc import core, reprs, ref, spaces, zoo

PID = 'P07'
TITLE = 'What is built does not depend on what was built before'
ISOLATE = True
BOUNDS = {
    'quick': 'per family of operations (groups, kernel bases, convolution filters, differential operators, initialisation, '
             'modules, images): for every operation, the history which starts with it and performs all the others of the '
             'family (every ordered pair occurs); all pairs within 8 families of 1800 kernel and operator bases: equal bases have equal values; all ordered triples of the core alphabets, each from a snapshot',
    'thorough': 'for every operation of the union of all families, the histories which start with it and perform all the '
                'others in both directions; all ordered pairs within every family and all ordered triples of the core '
                'alphabets, each from a snapshot',
}
ASSUMPTIONS = ['the list of irreps a continuous group has built so far (group.irreps) grows on request and is not compared']

PTS = np.stack(np.meshgrid(np.linspace(-1, 1, 3), np.linspace(1, -1, 3))).reshape(2, -1)

_SP = {}        # the symmetry spaces of this process: histories reuse them, as a program does


def space(s):
    k = json.dumps(s)
    if k not in _SP:
        _SP[k] = spaces.build(s)
    return _SP[k]


def num(*arrs):
    out = []
    for a in arrs:
        a = np.asarray(a.detach().numpy() if hasattr(a, 'detach') else a, dtype=float)
        out += [float(x) for x in a.shape] + [round(float(x), 6) + 0. for x in a.ravel()]
    return out


def rep_digest(r):
    g = r.group
    es = list(g.testing_elements())
    es = es[:1] + es[1::max(1, len(es) // 5)][:6]
    return [r.name, g.name, r.size, sorted(r.supported_nonlinearities), [str(i) for i in r.irreps], num(r.change_of_basis, *[r(e) for e in es])]


def group(g):
    return ref.lib(g) if hasattr(ref, 'lib') else _group(g)


def _group(g):
    from e2cnn import group as G
    return {'C': G.cyclic_group, 'D': G.dihedral_group, 'SO2': G.so2_group, 'O2': G.o2_group}[g[0]](g[1])


def field(gs, f):
    return reprs.build(gs.fibergroup, f) if f[0] != 'induced' else zoo.field(gs, f)


def ftype(s, fs):
    from e2cnn import nn
    gs = space(s)
    return nn.FieldType(gs, [field(gs, f) for f in fs])


def filt(name):
    return {None: None, 'all': lambda a: True, 'f0': lambda a: a['frequency'] == 0, 'f1': lambda a: abs(a['frequency']) <= 1,
            'r0': lambda a: a.get('radius', a.get('order')) == 0, 'r1': lambda a: a.get('radius', a.get('order')) > 0,
            'odd': lambda a: a['frequency'] % 2 == 1, 'i0': lambda a: a['idx'] % 2 == 0, 'i1': lambda a: a['idx'] % 2 == 1}[name]


def layer(op):
    from e2cnn import nn
    kind, s, f, g, kw = op
    kw = dict(kw)
    seed()
    if 'filter' in kw:
        kw['basis_filter'] = filt(kw.pop('filter'))
    if kw.get('cutoff') == 'fn':
        kw.pop('cutoff')
        kw['frequencies_cutoff'] = lambda r: 1 + r
    return getattr(nn, kind)(ftype(s, f), ftype(s, g), **kw)


def seed():
    import random, torch
    random.seed(3)
    np.random.seed(3)
    torch.manual_seed(3)


def set_weights(m):
    import torch
    with torch.no_grad():
        for j, p in enumerate(m.parameters()):
            p.copy_(torch.tensor([math.sin(1.3 * i + j) for i in range(p.numel())], dtype=p.dtype).reshape(p.shape))


def type_digest(t):
    return [t.size, str(t.gspace.name), [rep_digest(r) for r in t.representations]]


def perform(op):
    """Perform a construction and return a JSON value describing everything which was built."""
    import torch
    from e2cnn import nn, group as G, kernels, diffops
    seed()
    k, a = op[0], op[1:]
    if k == 'group':
        g = group(a[0])
        d = [g.name, g.order(), bool(g.abelian), bool(g.continuous), str(g.identity)]
        if g.order() > 0:
            d += [[str(g.combine(x, y)) for x in g.elements for y in g.elements]]
        return d
    if k == 'rep':
        return rep_digest(reprs.build(group(a[0]), a[1]))
    if k == 'restrict':
        g = group(a[0])
        return rep_digest(g.restrict_representation(ref.sid(a[1]), reprs.build(g, a[2])))
    if k == 'subgroup':
        g = group(a[0])
        sg, up, down = g.subgroup(ref.sid(a[1]))
        es = list(sg.testing_elements())
        return [sg.name, sg.order(), [str(up(e)) if sg.order() > 0 and g.order() > 0 else num(np.atleast_1d(np.array(up(e), float))) for e in es],
                [str(down(up(e))) if sg.order() > 0 else num(np.atleast_1d(np.array(down(up(e)), float))) for e in es]]
    if k == 'disent':
        m, r = G.disentangle(reprs.build(group(a[0]), a[1]))
        return [num(m), [rep_digest(x) for x in r]]
    if k == 'kernel':
        s, f, g, kw = a
        gs = space(s)
        kw = dict(kw)
        b = gs.build_kernel_basis(field(gs, f), field(gs, g), kw.pop('sigma', .6), kw.pop('rings', [0., 1.]), **kw)
        return [b.dim, num(b.sample(PTS)), [sorted((n, str(v)) for n, v in at.items() if n != 'id') for at in b]]
    if k == 'diffop':
        s, f, g, kw = a
        gs = space(s)
        kw = dict(kw)
        disc = diffops.DiscretizationArgs(**kw.pop('disc', {}))
        b = gs.build_diffop_basis(field(gs, f), field(gs, g), kw.pop('max_power', 1), disc, **kw)
        n = 7 if b.maximum_order > 4 else 5
        x = np.array(diffops.utils.symmetric_points(n)) if n else None
        pts = np.stack(np.meshgrid(x, -x)).reshape(2, -1)
        return [b.dim, b.maximum_order, num(b.sample(pts)), [sorted((n, str(v)) for n, v in at.items() if n != 'id') for at in b]]
    if k == 'stencil':
        n, dil, co, kw = a
        x = np.array(diffops.utils.symmetric_points(n, dil))
        pts = np.stack(np.meshgrid(x, -x)).reshape(2, -1)
        return num(diffops.utils.discretize_homogeneous_polynomial(pts, np.array(co, float), **kw))
    if k == 'layer':
        m = layer(a)
        init = num(m.weights)
        set_weights(m)
        w, b = m.expand_parameters()
        x = zoo.image(1, m.in_type.size, 7, 7)
        y = m(nn.GeometricTensor(x, m.in_type)).tensor
        return [init, str(w.dtype), num(w), num(b) if b is not None else None, num(y),
                [str(n) for n in m.basisexpansion.get_basis_names()], [sorted((n, str(v)) for n, v in i.items()) for i in m.basisexpansion.get_basis_info()]]
    if k == 'uselayer':
        # the life of a layer, in which its buffers are converted, overwritten and saved
        how, a = a[0], a[1:]
        m = layer(a)
        set_weights(m)
        x = zoo.image(1, m.in_type.size, 7, 7)
        if how == 'double':
            m = m.double()
            x = x.double()
        elif how == 'half':
            m = m.half().float()
        elif how == 'load':
            par = dict(m.named_parameters())
            sd = {n: (v * 1.5 if n in par else v) for n, v in m.state_dict().items()}
            m.load_state_dict(sd)
        elif how == 'train':
            y = m(nn.GeometricTensor(x, m.in_type)).tensor
            y.sum().backward()
            with torch.no_grad():
                for p in m.parameters():
                    p -= .1 * p.grad
        elif how == 'eval':
            m.eval()
        y = m(nn.GeometricTensor(x, m.in_type)).tensor
        return [str(y.dtype), num(y)]
    if k == 'init':
        cache, how = a[0], a[1]
        m = layer(a[2:])
        seed()
        w = torch.zeros(m.basisexpansion.dimension())
        if how == 'he':
            nn.init.generalized_he_init(w, m.basisexpansion, cache=cache)
        else:
            nn.init.deltaorthonormal_init(w, m.basisexpansion)
        return num(w)
    if k == 'module':
        d = a[0]
        t = ftype(d['s'], d['f'])
        m, _ = zoo.build(d) if d['m'] not in SIMPLE else (getattr(nn, d['m'])(t, **zoo.kwargs(d)), None)
        if d['m'] in SIMPLE:
            ty = m.in_type
        else:
            ty = m.in_type
        zoo.randomise(m)
        m.eval()
        if isinstance(ty, (tuple, dict)):
            return 'multi'
        y = m(nn.GeometricTensor(zoo.image(1, ty.size, 6, 6), ty))
        return [type_digest(m.out_type), num(y.tensor)]
    if k == 'image':
        s, f, e = a
        gs = space(s)
        t = ftype(s, f)
        el = [x for x in gs.testing_elements][e] if not callable(getattr(gs, 'testing_elements')) else list(gs.testing_elements())[e]
        x = zoo.image(1, t.size, 5, 5)
        return num(nn.GeometricTensor(x, t).transform(el).tensor)
    if k == 'equal':
        sa, sb = [space(x[0]).restrict(ref.sid(x[1]))[0] if len(x) == 2 and isinstance(x[0], list) else space(x) for x in a]
        return [bool(sa == sb), hash(sa) == hash(sb), bool(sa.trivial_repr == sb.trivial_repr), bool(nn.FieldType(sa, [sa.trivial_repr]) == nn.FieldType(sb, [sb.trivial_repr]))]
    if k == 'space':
        gs = space(a[0])
        H = gs.restrict(ref.sid(a[1]))[0] if len(a) > 1 else gs
        es = list(H.testing_elements)
        return [H.name, H.fibergroup.name, num(*[spaces.measured(H, e)[0] for e in es[:6]])]
    raise KeyError(k)


SIMPLE = ()

# ------------------------------------------------------------------ alphabets

TR, REG = ['trivial'], ['regular']


def I(*a):
    return ['irrep'] + list(a)


C2, C3, C4, C8 = ['rot', 2, None], ['rot', 3, None], ['rot', 4, None], ['rot', 8, None]
SO2, SO2b = ['rot', -1, 2], ['rot', -1, 4]
D4a, D4b, D4c, D3 = ['fliprot', 4, None, 0.], ['fliprot', 4, None, .5], ['fliprot', 4, None, .25], ['fliprot', 3, None, .5]
O2a, O2b = ['fliprot', -1, 2, 0.], ['fliprot', -1, 2, .5]
FLa, FLb = ['flip', 0.], ['flip', .5]


def fam_groups():
    o = []
    A = o.append
    for g in (['C', 1], ['C', 2], ['C', 4], ['C', 8], ['D', 1], ['D', 2], ['D', 4], ['SO2', 1], ['SO2', 3], ['O2', 1], ['O2', 3]):
        A(['group', g])
    for g, i in ((['C', 4], [1]), (['C', 8], [4]), (['C', 8], [1]), (['D', 4], [1, 1]), (['D', 2], [1, 1]), (['SO2', 1], [1]), (['SO2', 1], [3]), (['SO2', 3], [2]), (['O2', 1], [1, 1]), (['O2', 1], [1, 3]),
                 (['O2', 3], [1, 2]), (['O2', 1], [1, 0])):
        A(['rep', g, ['irrep'] + i])
    for g in (['C', 4], ['D', 4], ['D', 2]):
        A(['rep', g, REG])
    for g, q in ((['C', 8], 2), (['C', 8], 4), (['D', 4], [None, 4]), (['D', 4], [0, 2]), (['D', 4], [1, 2]), (['D', 4], [0, 1]), (['D', 4], [1, 1])):
        A(['rep', g, ['quot', q]])
    for g, q, i in ((['D', 4], [None, 4], [1]), (['D', 4], [None, 2], [1]), (['D', 4], [0, 1], [1]), (['D', 4], [1, 1], [1]), (['O2', 3], [None, -1], [1]), (['O2', 3], [None, -1], [0])):
        A(['rep', g, ['ind', q, i]])
    # the same name for different representations
    A(['rep', ['C', 4], ['sum', [I(1), I(0)], 'mine']])
    A(['rep', ['C', 4], ['sum', [I(0), I(1)], 'mine']])
    A(['rep', ['C', 4], ['sumcob', [I(1), I(0)], 'house', 'mine']])
    A(['rep', ['C', 4], ['cob', I(1), 'sign', 'mine']])
    A(['rep', ['C', 4], ['sum', [I(1), I(0)], 'regular']])
    A(['disent', ['C', 4], ['sum', [I(1), I(0)], 'mine']])
    A(['disent', ['C', 4], ['sumcob', [I(1), I(0)], 'house', 'mine']])
    for g, i, r in ((['D', 4], [0, 2], I(1, 1)), (['D', 4], [1, 2], I(1, 1)), (['D', 4], [None, 4], I(1, 1)), (['D', 4], [0, 1], I(1, 1)), (['D', 4], [1, 1], I(1, 1)), (['D', 4], [2, 1], I(1, 1)),
                    (['C', 8], 4, I(1)), (['C', 8], 4, I(3)), (['SO2', 1], 4, I(1)), (['SO2', 1], 4, I(5)), (['O2', 1], [.3, 4], I(1, 1)), (['O2', 1], [0., 4], I(1, 1)), (['O2', 1], [.3, -1], I(1, 1)),
                    (['O2', 1], [None, -1], I(1, 4)), (['O2', 1], [.7, 1], I(1, 3))):
        A(['restrict', g, i, r])
    for g, i in ((['D', 4], [0, 2]), (['D', 4], [1, 2]), (['D', 4], [2, 1]), (['D', 4], [3, 1]), (['D', 4], [None, 2]), (['C', 8], 2), (['SO2', 1], -1), (['SO2', 1], 3), (['O2', 1], [0., 3]), (['O2', 1], [.3, 3]),
                 (['O2', 1], [0., -1]), (['O2', 1], [.3, -1]), (['O2', 1], [None, 3]), (['O2', 3], [.3, 1])):
        A(['subgroup', g, i])
    return o


def fam_kernels():
    o = []
    for s, pairs in ((D4a, [(I(1, 1), I(1, 1)), (TR, I(1, 1))]), (D4b, [(I(1, 1), I(1, 1)), (TR, I(1, 1)), (I(1, 1), TR)]), (D4c, [(I(1, 1), I(1, 1))]), (FLa, [(REG, REG)]), (FLb, [(REG, REG)]),
                     (C4, [(I(1), I(1)), (I(1), I(2)), (REG, TR)]), (O2a, [(I(1, 1), I(1, 1))]), (O2b, [(I(1, 1), I(1, 1))])):
        for f, g in pairs:
            o.append(['kernel', s, f, g, {'maximum_frequency': 2}])
    b = dict(maximum_frequency=2)
    for kw in ({'maximum_frequency': 1}, {'maximum_frequency': 3}, dict(b, sigma=.9), dict(b, sigma=[.6, .9]), dict(b, sigma=[.9, .6]), dict(b, rings=[0., .5]), dict(b, rings=[1., 0.]), dict(b, rings=[0., 1., 2.], sigma=.6),
               {'maximum_offset': 1}, {'maximum_offset': 2}, {'maximum_offset': 0}, {'maximum_frequency': 2, 'maximum_offset': 1}):
        o.append(['kernel', C4, I(1), I(1), kw])
    for kw in ({'maximum_offset': 1}, {'maximum_offset': 2}, {'maximum_offset': 1, 'maximum_frequency': 2}):
        o.append(['kernel', D4b, I(1, 1), I(1, 1), kw])
    # the same name, the same size, another representation
    for k in ('sign', 'house', 'perm'):
        o.append(['kernel', C4, ['cob', I(1), k, 'same'], I(1), b])
        o.append(['kernel', C4, I(1), ['cob', I(1), k, 'same'], b])
    o.append(['kernel', C4, ['sum', [I(1), I(0)], 'same3'], TR, b])
    o.append(['kernel', C4, ['sum', [I(0), I(1)], 'same3'], TR, b])
    o.append(['kernel', C4, ['cob', REG, 'perm', 'regular'], TR, b])
    return o


def fam_layers():
    o = []
    t2, v = [I(1, 1)], [I(1, 1), TR]
    for kind in ('R2Conv', 'R2ConvTransposed'):
        L = lambda s, f, g, **kw: o.append(['layer', kind, s, f, g, dict(dict(kernel_size=3), **kw)])
        L(D4a, t2, t2), L(D4b, t2, t2), L(FLa, [REG], [REG]), L(FLb, [REG], [REG]), L(C4, [I(1)], [I(1)]), L(D4b, v, v)
        if kind == 'R2Conv':
            L(D4c, t2, t2), L(O2b, t2, t2), L(D4b, v, v[::-1]), L(D4b, v, v, bias=False), L(D4b, v + t2, v)
            L(C4, [REG], [REG]), L(C8, [REG], [REG]), L(C8, [REG], [['quot', 2]]), L(C8, [REG], [['quot', 4]])
            L(C4, [I(1)], [I(1)], recompute=True)
            L(C4, [I(1)], [I(1)], groups=1, stride=2, padding=1)
            for k in ('sign', 'house'):
                L(C4, [['cob', I(1), k, 'same']], [I(1)])
                L(C4, [['cob', REG, k, 'regular']], [TR])
            L(C4, [REG], [TR])
        for kw in (dict(kernel_size=5), dict(dilation=2), dict(sigma=[.5, .8]), dict(rings=[0., .8]), dict(frequencies_cutoff=1.), dict(cutoff='fn'), dict(maximum_offset=1), dict(maximum_offset=0, frequencies_cutoff=9.),
                   dict(filter='f0'), dict(filter='f1'), dict(filter='r0'), dict(filter='r1'), dict(filter='i0'), dict(filter='i1'), dict(filter='odd'), dict(filter='all')):
            if kind == 'R2Conv' or 'filter' in kw or 'dilation' in kw:
                L(C4, [I(1)], [I(1)], **kw)
    for how in ('double', 'half', 'load', 'train', 'eval'):
        o.append(['uselayer', how, 'R2Conv', C4, [I(1)], [I(1)], dict(kernel_size=3)])
    return o


def fam_diffops():
    o = []
    for s, f, g in ((C4, I(1), I(1)), (D4a, I(1, 1), I(1, 1)), (D4b, I(1, 1), I(1, 1)), (FLa, REG, REG), (FLb, REG, REG), (C4, TR, I(1)), (O2b, I(1, 1), TR)):
        o.append(['diffop', s, f, g, {'maximum_frequency': 2}])
    for kw in ({'maximum_frequency': 2, 'max_power': 0}, {'maximum_frequency': 1, 'max_power': 1}, {'maximum_offset': 1}, {'maximum_frequency': 2, 'disc': {'angle_offset': .3}},
               {'maximum_frequency': 2, 'disc': {'angle_offset': math.pi / 2}}):
        o.append(['diffop', C4, I(1), I(1), kw])
    for n, d, co, kw in ((3, 1, [1, 0, 1], {}), (3, 2, [1, 0, 1], {}), (5, 1, [1, 0, 1], {}), (3, 1, [1, 0, -1], {}), (3, 1, [0, 1], {}), (3, 1, [1, 0], {}), (3, 1, [0, 1, 0], {}), (3, 1, [1], {}), (3, 1, [0, 0, 1], {}), (5, 2, [0, 0, 1], {}),
                         (5, 1, [1, 0, 1], {'method': 'fd', 'smoothing': 1.}), (3, 1, [1, 0, 1], {'method': 'nope'}), (3, 1, [1, 0, 1], {'method': 'gauss'}), (3, 1, [1, 0, 0, 1], {})):
        o.append(['stencil', n, d, co, kw])
    D = lambda s, f, g, **kw: o.append(['layer', 'R2Diffop', s, f, g, dict(dict(kernel_size=5), **kw)])
    D(C4, [I(1)], [I(1)]), D(D4a, [I(1, 1)], [I(1, 1)]), D(D4b, [I(1, 1)], [I(1, 1)]), D(C4, [I(1)], [I(1)], kernel_size=3), D(C4, [I(1)], [I(1)], accuracy=4), D(C4, [I(1)], [I(1)], dilation=2)
    D(C4, [I(1)], [I(1)], maximum_order=1), D(C4, [I(1)], [I(1)], maximum_order=2, special_regular_basis=False), D(C4, [I(1)], [I(1)], filter='f0'), D(C4, [I(1)], [I(1)], angle_offset=.3), D(C4, [I(1)], [I(1)], maximum_partial_order=1)
    D(C4, [REG], [REG]), D(C4, [REG], [REG], special_regular_basis=True)
    o.append(['layer', 'R2Conv', C4, [I(1)], [I(1)], dict(kernel_size=5)])
    for how in ('double', 'load', 'train'):
        o.append(['uselayer', how, 'R2Diffop', C4, [I(1)], [I(1)], dict(kernel_size=5)])
    return o


def fam_init():
    o = []
    base = [('R2Conv', C4, [I(1), TR], [I(1), TR], dict(kernel_size=3)), ('R2Conv', C4, [TR, I(1)], [I(1), TR], dict(kernel_size=3)), ('R2Conv', C4, [I(1), TR], [I(1), TR], dict(kernel_size=5)),
            ('R2Conv', C4, [I(1), TR], [I(1), TR], dict(kernel_size=3, filter='f1')), ('R2Conv', D4a, [I(1, 1)], [TR, REG], dict(kernel_size=3)), ('R2Conv', D4b, [I(1, 1)], [TR, REG], dict(kernel_size=3)),
            ('R2ConvTransposed', C4, [I(1), TR], [I(1), TR], dict(kernel_size=3)), ('R2Conv', C4, [I(1), TR, TR], [I(1), TR], dict(kernel_size=3))]
    base += [('R2Conv', C4, [TR, TR], [I(1)], dict(kernel_size=3)), ('R2Conv', C4, [I(1)], [TR, TR], dict(kernel_size=3)), ('R2Conv', C4, [TR, I(2)], [I(1)], dict(kernel_size=3))]
    for b in base:
        for c, h in ((True, 'he'), (False, 'he'), (False, 'delta')):
            o.append(['init', c, h] + list(b))
    return o


def fam_modules():
    o = []
    want = {}
    for d in zoo.zoo('quick'):
        if d['m'] in ('ConcatenatedNonLinearity', 'NormPool', 'InducedNormPool', 'GroupPooling', 'VectorFieldNonLinearity', 'RestrictionModule', 'DisentangleModule', 'PointwiseMaxPoolAntialiased',
                      'PointwiseAvgPoolAntialiased', 'InnerBatchNorm', 'GNormBatchNorm', 'InducedNormNonLinearity', 'MaskModule', 'R2Upsampling', 'NormBatchNorm', 'ReshuffleModule'):
            want.setdefault(d['m'], []).append(d)
    lim = {'PointwiseMaxPoolAntialiased': 3, 'PointwiseAvgPoolAntialiased': 4, 'InnerBatchNorm': 2, 'MaskModule': 3, 'R2Upsampling': 2, 'DisentangleModule': 5, 'ReshuffleModule': 2, 'RestrictionModule': 11}
    for m, ds in sorted(want.items()):
        for d in ds[:lim.get(m, 4)]:
            o.append(['module', d])
    D = lambda m, s, f, **kw: o.append(['module', zoo.entry(m, s, f, **kw)])
    D('ConcatenatedNonLinearity', C4, [['cob', REG, 'perm', 'regular'], TR], function='c_relu')
    D('DisentangleModule', C4, [['sum', [I(1), I(0)], 'mine']])
    D('DisentangleModule', C4, [['sumcob', [I(1), I(0)], 'house', 'mine']])
    D('RestrictionModule', C4, [['sum', [I(1), I(0)], 'mine']], id=2)
    D('RestrictionModule', C4, [['sumcob', [I(1), I(0)], 'house', 'mine']], id=2)
    D('NormPool', C4, [['cob', I(1), 'sign', 'mine']])
    return [x for x in o]


def fam_images():
    o = []
    for s, f in ((C4, [I(1)]), (C4, [TR]), (C8, [I(1)]), (D4a, [I(1, 1)]), (D4b, [I(1, 1)]), (D4c, [I(1, 1)]), (FLa, [REG]), (FLb, [REG])):
        for e in (1, -1):
            o.append(['image', s, f, e])
    for s in (C4, D4a, D4b, D4c, FLa, FLb, O2a, O2b, SO2, SO2b):
        o.append(['space', s])
    for s, i in ((C4, 2), (C8, 4), (D4a, [0, 2]), (D4b, [0, 2]), (D4b, [1, 2]), (D4b, [0, 1]), (D4a, [0, 1]), (D4b, [None, 2]), (O2b, [.3, 2]), (O2b, [.3, -1]), (O2b, [0., -1]), (O2a, [0., 2]), (O2b, [0., 1]), (O2a, [0., 1]), (SO2, 4), (SO2, -1)):
        o.append(['space', s, i])
    for x, y in (([O2b, [None, -1]], SO2), ([O2b, [None, -1]], SO2b), ([O2b, [0., -1]], O2b), ([O2b, [.3, -1]], O2b), (SO2, SO2b), (O2a, O2b), ([D4b, [0, 1]], FLb), ([D4a, [0, 1]], FLb), ([C8, 4], C4)):
        o.append(['equal', x, y])
    o += [['rep', ['SO2', 6], I(5)], ['rep', ['O2', 6], I(1, 5)]]
    return o


FAMS = {'groups': fam_groups, 'kernels': fam_kernels, 'layers': fam_layers, 'diffops': fam_diffops, 'init': fam_init, 'modules': fam_modules, 'images': fam_images}

# small alphabets explored to depth three in the quick tier
CORE = {
    'groups': lambda: [x for x in fam_groups() if x in (['group', ['SO2', 3]], ['group', ['O2', 3]], ['rep', ['O2', 1], I(1, 3)], ['restrict', ['O2', 1], [.3, 4], I(1, 1)], ['restrict', ['O2', 1], [.3, -1], I(1, 1)],
                                                      ['restrict', ['O2', 1], [None, -1], I(1, 4)], ['rep', ['O2', 3], ['ind', [None, -1], [1]]])],
    'kernels': lambda: [x for x in fam_kernels() if x[1] == C4 and x[2] == I(1) and x[3] == I(1)][:7],
    'layers': lambda: [x for x in fam_layers() if x[1] == 'R2Conv' and x[2] == C4 and x[5].get('filter')][:5] + [['layer', 'R2Conv', C4, [I(1)], [I(1)], dict(kernel_size=3)]] + [x for x in fam_layers() if x[0] == 'uselayer'][:3],
    'diffops': lambda: [x for x in fam_diffops() if x[0] == 'stencil'][:8],
}


def ops(fam):
    if fam == 'all':
        return [o for f in FAMS for o in FAMS[f]()]
    if fam.startswith('core:'):
        return CORE[fam[5:]]()
    return FAMS[fam]()


def cases(tier):
    out = [{'fam': 'equal', 'what': w, 'part': i} for w in ('kernel', 'diffop') for i in range(4)]
    if tier == 'quick':
        for f in FAMS:
            out += [{'fam': f, 'first': i, 'line': 1} for i in range(len(ops(f)))]
        for f in CORE:
            out += [{'fam': 'core:' + f, 'first': i, 'depth': 3} for i in range(len(ops('core:' + f)))]
    else:
        out += [{'fam': 'all', 'first': i, 'line': d} for i in range(len(ops('all'))) for d in (1, -1)]
        for f in FAMS:
            out += [{'fam': f, 'first': i, 'depth': 2} for i in range(len(ops(f)))]
        for f in CORE:
            out += [{'fam': 'core:' + f, 'first': i, 'depth': 3} for i in range(len(ops('core:' + f)))]
    return out


def cost(c):
    if c['fam'] == 'equal':
        return 99
    return (3 if c.get('depth') == 3 else 1) * {'layers': 3, 'diffops': 3, 'init': 2, 'modules': 2}.get(c['fam'].split(':')[-1], 1)


def attempt(op):
    try:
        return {'ok': json.loads(json.dumps(perform(op)))}
    except Exception as e:
        return {'exc': type(e).__name__}


def same(a, b):
    if isinstance(a, float) or isinstance(b, float):
        return isinstance(a, (int, float)) and isinstance(b, (int, float)) and (abs(a - b) <= 2e-5 * max(1., abs(a), abs(b)) or (a != a and b != b))
    if type(a) != type(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return a == b


_FRESH = {}


def fresh(op):
    k = json.dumps(op)
    if k not in _FRESH:
        # shared between the cases of one run; the directory is created and removed by run.sh
        d = os.environ.get('VERIF_SCRATCH')
        path = os.path.join(d, 'fresh-' + hashlib.sha1(k.encode()).hexdigest()) if d else None
        if path and os.path.exists(path):
            with open(path) as f:
                _FRESH[k] = json.load(f)
        else:
            _FRESH[k] = core.fork_eval(attempt, op)['ok']
            if path:
                with open('%s.%d' % (path, os.getpid()), 'w') as f:
                    json.dump(_FRESH[k], f)
                os.replace('%s.%d' % (path, os.getpid()), path)
    return _FRESH[k]


def basis_args(what):
    """Descriptors of bases, such that many differ in one respect only."""
    out = []
    for s in ([['triv'], ['flip', 0.], ['flip', .5], ['flip', .3]] + [['rot', n, None] for n in (2, 3, 4)] + [['rot', -1, 3]] +
              [['fliprot', n, None, a] for n in (2, 3) for a in (0., .5, .3)] + [['fliprot', -1, 3, a] for a in (0., .5)]):
        g = spaces.group(s)
        ids = [['irrep'] + i for i in reprs.irrep_ids(g)]
        if g == ['C', 4]:
            ids += [['cob', ['irrep', 1], k, 'same'] for k in ('sign', 'house', 'perm')] + [['sum', [['irrep', 1], ['irrep', 0]], 'same3'], ['sum', [['irrep', 0], ['irrep', 1]], 'same3'], ['regular']]
        lims = [{}] if s[0] != 'triv' and s[0] != 'flip' and s[1] == -1 else [{'maximum_frequency': 1}, {'maximum_frequency': 3}, {'maximum_offset': 1}]
        for a in ids:
            for b in ids:
                for kw in lims:
                    if what == 'kernel':
                        out += [[s, a, b, dict(kw, **r)] for r in ([{}, {'sigma': .9}, {'sigma': [.6, .9]}, {'rings': [0., 2.]}, {'rings': [1.]}] if s[:2] in (['rot', 3], ['flip', .5]) else [{}])]
                    else:
                        out += [[s, a, b, dict(kw, **r)] for r in ([{}, {'max_power': 0}, {'disc': {'angle_offset': .3}}] if s in (['rot', 4, None], ['fliprot', 2, None, .5]) else [{}])]
    return out


def basis_of(what, a):
    try:
        s, f, g, kw = a
        gs, kw = space(s), dict(kw)
        if what == 'kernel':
            b = gs.build_kernel_basis(field(gs, f), field(gs, g), kw.pop('sigma', .6), kw.pop('rings', [0., 1.]), **kw)
            return b, np.array(b.sample(PTS2))
        b = gs.build_diffop_basis(field(gs, f), field(gs, g), kw.pop('max_power', 1), e2cnn.diffops.DiscretizationArgs(**kw.pop('disc', {})), **kw)
        x = np.arange(15) - 7.
        return b, np.array(b.sample(np.stack(np.meshgrid(x, -x)).reshape(2, -1)))
    except EmptyBasisException:
        return None


PTS2 = np.array([[.3, 1.1, -.7, 2.1, 0.], [.9, -.2, -1.3, .4, 0.]])


def equality(case, mon):
    """Filters are cached by basis: bases which compare equal have equal values, and equal arguments give equal bases."""
    what = case['what']
    args = basis_args(what)
    built = [(a, basis_of(what, a), basis_of(what, a)) for a in args]
    built = [(a, x, y) for a, x, y in built if x is not None]
    for i, (a, x, y) in enumerate(built):
        if i % 4 != case['part']:
            continue
        mon.trans(2)
        mon.state(what, a)
        mon.check(x[0] == y[0] and y[0] == x[0] and not x[0] != y[0] and hash(x[0]) == hash(y[0]), 'equal-arguments-compare-unequal', lambda: a)
        for b, z, _ in built[i + 1:]:
            eq, eq2 = x[0] == z[0], z[0] == x[0]
            mon.check(eq == eq2, 'equality-not-symmetric', lambda: (a, b))
            if eq:
                mon.outcome('equal', what)
                mon.check(hash(x[0]) == hash(z[0]), 'equal-bases-hash', lambda: (a, b))
                mon.check(x[1].shape == z[1].shape and np.allclose(x[1], z[1], atol=1e-6), 'equal-bases-have-different-values', lambda: (a, b))
    mon.trace(len(built))


def run_case(case, mon):
    if case['fam'] == 'equal':
        return equality(case, mon)
    alpha = ops(case['fam'])
    want = [fresh(o) for o in alpha]         # each computed in its own fresh process
    first = case['first']

    def node(history, last):
        """Runs in a process which has performed `history`; performs `last`, compares, returns [bad, counts]."""
        bad, n = [], [0, 0, 0]

        def cmp(i, where):
            got = attempt(alpha[i])
            n[1] += 1
            if not same(got, want[i]):
                bad.append([where, i, short(got), short(want[i])])

        cmp(last, 'last of ' + repr(history + [last]))
        n[0] += 1
        h = history + [last]
        if len(h) < case['depth']:
            for j in range(len(alpha)):
                r = core.fork_eval(node, h, j)
                if 'exc' in r:
                    bad.append(['harness ' + r['exc'] + r['tb'], j, '', ''])
                    continue
                bad += r['ok'][0][:6]
                n = [x + y for x, y in zip(n, r['ok'][1])]
        else:
            n[2] += 1
            for i in dict.fromkeys(history):
                cmp(i, 'repetition after ' + repr(h))
        return [bad[:20], n]

    def line():
        """The history which starts with `first` and then performs all the others: whatever `first` left in a cache is
        met by every other operation."""
        k = len(alpha)
        order = [(first + case['line'] * i) % k for i in range(k)] + [first]
        bad = []
        for pos, i in enumerate(order):
            got = attempt(alpha[i])
            if not same(got, want[i]):
                bad.append(['history %d + %r' % (first, order[:pos][-6:]), i, short(got), short(want[i])])
        return [bad[:20], [len(order), len(order), 1]]

    r = core.fork_eval(line) if 'line' in case else core.fork_eval(node, [], first)
    if 'exc' in r:
        raise RuntimeError(r['tb'])
    bad, n = r['ok']
    for j in range(n[0]):
        mon.state(case['fam'], first, case.get('depth'), case.get('line'), j)
    mon.trans(n[1])
    mon.trace(n[2])
    mon.checks += n[1] - len(bad)
    for o, w in zip(alpha, want):
        mon.outcome(o[0], 'ok' if 'ok' in w else w['exc'])
    mon.sample({'history': alpha[first], 'followed by all of': case['fam']})
    for b in bad:
        mon.fail('depends-on-history', lambda b=b: {'operation': alpha[b[1]], 'history': b[0], 'operations': [alpha[k] for k in idx(b[0])], 'got': b[2], 'alone': b[3]})


def idx(s):
    import re
    m = re.search(r'\[([0-9, ]*)\]', s)
    return [int(x) for x in m.group(1).split(',')] if m and m.group(1) else []


def short(x):
    s = json.dumps(x)
    return s if len(s) < 200 else s[:200] + '...' + str(len(s))


def finish(tot, outcomes, tier):
    for k in ('group', 'rep', 'restrict', 'subgroup', 'disent', 'kernel', 'diffop', 'stencil', 'layer', 'uselayer', 'init', 'module', 'image', 'space'):
        if not any(o.startswith("('%s', 'ok'" % k) for o in outcomes):
            return 'no operation of kind %s ever succeeded' % k
    return None
