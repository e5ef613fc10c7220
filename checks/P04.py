"""P04: the lattice of subgroups is walked (states: restricted objects, transitions: restrictions); at every state all
elements of the subgroup are evaluated and compared with the object at the root of the chain."""
import math
import numpy as np
import torch
from mc import ref, reprs, spaces
from e2cnn import nn

PID = 'P04'
BOUNDS = {
    'quick': 'representations: C_N N<=12, D_N N<=8 (+12), SO(2), O(2) with frequencies <=3, all subgroup ids (angles on a lattice for the continuous groups), all irreps, regular, quotient, induced, changed bases, sums, chains of 3 restrictions; spaces: trivial, flips on 5 axes, rotations N<=8,12 and continuous, flip-rotations N<=6,8 and continuous on 4 axes, chains of 3 restrictions, all elements; field types and restriction modules over mixed fields',
    'thorough': 'as quick with C_N N<=24, D_N N<=12, frequencies <=6, spaces up to N=12, 8 axes, chains of 4',
}
ASSUMPTIONS = ['continuous groups are evaluated on the 24-lattice of angles (60 in the thorough tier)']


def cases(tier):
    q = tier == 'quick'
    F = 3 if q else 6
    n = 24 if q else 60
    depth = 3 if q else 4
    out = []
    gs = [['C', k] for k in range(1, 13 if q else 25)] + [['D', k] for k in list(range(1, 9)) + ([12] if q else [9, 10, 11, 12])]
    gs += [['SO2', F], ['O2', F]]
    for g in gs:
        for i in ref.subgroup_ids(g):
            out.append({'kind': 'reps', 'g': g, 'id': i, 'n': n, 'depth': depth})
    axes = [0., .25, .5, 1 / 3., .9] if q else [0., .25, .5, 1 / 3., .75, .9, .1, 1.3]
    fa = [0., .5, .25, .3] if q else axes
    sp = [['triv']] + [['flip', a] for a in axes]
    sp += [['rot', k, None] for k in ([2, 3, 4, 5, 6, 8, 12] if q else range(2, 17))] + [['rot', -1, F]]
    for a in fa:
        sp += [['fliprot', k, None, a] for k in ([2, 3, 4, 6, 8] if q else range(2, 13))]
        sp += [['fliprot', -1, F, a]]
    for s in sp:
        g = spaces.group(s)
        ids = ref.subgroup_ids(g, orders=(1, 2, 4, 6))
        for i in ids:
            out.append({'kind': 'space', 's': s, 'id': i, 'n': 12 if q else 24, 'depth': depth - 1})
        out.append({'kind': 'root', 's': s, 'n': n})
    for s in sp:
        if s[0] == 'fliprot' and s[1] > 4 and q:
            continue
        for i in ref.subgroup_ids(spaces.group(s), orders=(1, 2, 4)):
            out.append({'kind': 'types', 's': s, 'id': i, 'n': 12})
    return out


CHUNK = 4


def cost(c):
    k = c.get('g') or spaces.group(c['s'])
    return k[1] * (3 if k[0] == 'D' else 1) + (60 if k[0] == 'O2' else 0)


def run_case(c, mon):
    globals()[c['kind']](c, mon)


def alphabet(g):
    out = [['irrep'] + i for i in reprs.irrep_ids(g)]
    if g[0] in 'CD':
        out.append(['regular'])
        n = g[1] * (2 if g[0] == 'D' else 1)
        if n <= 12:
            out += [['quot', i] for i in ref.subgroup_ids(g)]
        if g[0] == 'D' and g[1] in (3, 4):
            for i in ref.subgroup_ids(g):
                out += [['ind', i, k] for k in reprs.irrep_ids(ref.subgroup_desc(g, i))]
        elif g[0] == 'D' and g[1] > 1:
            out += [['ind', [None, g[1]], k] for k in reprs.irrep_ids(['C', g[1]])]
    if g[0] == 'O2':
        out += [['ind', [None, -1], [k]] for k in range(min(3, g[1]) + 1)]
    if g[0] == 'SO2':       # irreps above the frequency the group was built with are added on demand
        out += [['irrep', g[1] + 1], ['irrep', g[1] + 3]]
    if g[0] == 'O2':
        out += [['irrep', 1, g[1] + 1], ['irrep', 1, g[1] + 3]]
    i = reprs.irrep_ids(g)
    out.append(['sumcob', [['irrep'] + i[-1], ['irrep'] + i[0], ['irrep'] + i[-1]], 'shear', 'shear_sum'])
    out.append(['sumcob', [['irrep'] + i[0], ['irrep'] + i[len(i) // 2], ['irrep'] + i[-1]], 'house', 'house_sum'])
    return out


def reps(c, mon):
    g, i = c['g'], ref.sid(c['id'])
    grp = ref.gdesc(g)
    sd = ref.subgroup_desc(g, i)
    roots = [(d, reprs.build(grp, d)) for d in alphabet(g)]

    def descend(sd, up, pairs, depth, path):
        H = ref.elements(sd, c['n'])
        sg = pairs[0][1].group
        mon.check(sg.order() == (len(H) if sd[0] in 'CD' else -1), 'subgroup-order', (path, sg.order()))
        for d, r0, r in [(p[2], p[0], p[1]) for p in pairs]:
            mon.state(path, repr(d))
            mon.check(r.group == sg, 'restricted-group', (path, d))
            for h in H:
                mon.trans()
                e = up(h)
                mon.check(ref.close(r(h), r0(e), 1e-5), 'restricted-value', lambda: (path, d, h, e))
            mon.trace()
        if depth == 0:
            return
        for j in ref.subgroup_ids(sd, angles=2, orders=(1, 2)):
            sd2 = ref.subgroup_desc(sd, j)
            if len(ref.elements(sd2, 1)) == len(ref.elements(sd, 1)) and depth < c['depth'] - 1:
                continue
            _, up2, _ = sg.subgroup(j)
            nxt = [(r0, r.restrict(j), d) for r0, r, d in pairs[-4:]]
            descend(sd2, lambda h, up=up, up2=up2: up(up2(h)), nxt, depth - 1, path + [j])

    sg, up, _ = grp.subgroup(i)
    # both public ways of restricting
    pairs = []
    for d, r in roots:
        a = r.restrict(i)
        b = grp.restrict_representation(i, r)
        for h in ref.elements(sd, c['n']):
            mon.check(ref.close(a(h), b(h)), 'two-ways', lambda: (d, h))
        pairs.append((r, a, d))
    descend(sd, up, pairs, c['depth'] - 1, [i])
    mon.sample({'group': grp.name, 'id': repr(i), 'representations': len(roots)})


def root(c, mon):
    """The action of an unrestricted space is the documented one."""
    s = c['s']
    gs = spaces.build(s)
    for e in ref.elements(spaces.group(s), c['n']):
        m, fit = spaces.measured(gs, e)
        mon.state(repr(e))
        mon.trans()
        mon.check(fit < 1e-4, 'affine', (s, e, fit))
        mon.check(ref.close(m, spaces.plane(s, e), 1e-4), 'plane-action', lambda: (s, e, m.tolist(), spaces.plane(s, e).tolist()))
    mon.trace()


def space(c, mon):
    s, i = c['s'], ref.sid(c['id'])
    root = spaces.build(s)

    def descend(gs, sd, up, depth, path):
        mon.state(repr(path))
        for h in ref.elements(sd, c['n']):
            m, fit = spaces.measured(gs, h)
            mon.trans()
            want = spaces.plane(s, up(h))
            mon.check(fit < 1e-4 and ref.close(m, want, 1e-4), 'restricted-plane-action', lambda: (s, path, h, up(h), m.tolist(), want.tolist()))
        mon.trace()
        if depth == 0:
            return
        for j in ref.subgroup_ids(sd, angles=2, orders=(1, 2)):
            if sd == ['C', 1] or (sd[1] == 1 and len(path) > 1):
                continue
            sub, up2, _ = gs.restrict(j)
            descend(sub, ref.subgroup_desc(sd, j), lambda h, up=up, up2=up2: up(up2(h)), depth - 1, path + [j])

    sub, up, down = root.restrict(i)
    sd = ref.subgroup_desc(spaces.group(s), i)
    for h in ref.elements(sd, c['n']):
        want = embed_plane(s, i, h)
        mon.check(ref.close(spaces.plane(s, up(h)), want, 1e-6), 'embedding', lambda: (s, i, h, up(h)))
    descend(sub, sd, up, c['depth'], [i])


def embed_plane(s, i, h):
    """Independent of the library's maps: which isometry the subgroup element stands for."""
    g = spaces.group(s)
    if s[0] in ('triv', 'flip'):
        return spaces.plane(s, h if i == 2 else 0)
    if s[0] == 'rot' or i[0] is None:
        return ref.mat(ref.subgroup_desc(g, i), h)
    S = ref.rot(2 * spaces.axis(s)) @ ref.FLIP
    step = ref.TWO_PI / g[1] if g[0] == 'D' else 1.
    S = ref.rot(i[0] * step) @ S
    sd = ref.subgroup_desc(g, i)
    if i[1] == 1:
        return S if h else np.eye(2)
    r = h[1] * ref.TWO_PI / sd[1] if sd[0] == 'D' else h[1]
    return ref.rot(r) @ (S if h[0] else np.eye(2))


def types(c, mon):
    s, i = c['s'], ref.sid(c['id'])
    g = spaces.group(s)
    gs = spaces.build(s)
    al = alphabet(g)
    ds = al[:2] + [al[-1]] + al[:1] + [al[-2]] + al[-3:-2] + al[:2]
    rs = [reprs.build(gs.fibergroup, d) for d in ds]
    t = nn.FieldType(gs, rs)
    sub, up, _ = gs.restrict(i)
    mod = nn.RestrictionModule(t, i)
    for rt, how in ((t.restrict(i), 'type'), (mod.out_type, 'module')):
        mon.state(how)
        mon.check(rt.size == t.size and len(rt) == len(t), 'type-size', how)
        mon.check(rt.gspace == sub, 'type-space', how)
        mon.check([r.size for r in rt.representations] == [r.size for r in rs], 'field-sizes', how)
        for h in ref.elements(spaces_sub(g, i), c['n']):
            mon.trans()
            for a, b in zip(rt.representations, rs):
                mon.check(ref.close(a(h), b(up(h)), 1e-5), 'field-value', lambda: (s, i, h, b.name))
    x = torch.from_numpy(np.random.RandomState(0).randn(1, t.size, 15, 15).astype(np.float32))
    gt = nn.GeometricTensor(x, t)
    out = mod(gt)
    mon.check(out.type == t.restrict(i) and torch.equal(out.tensor, x), 'module-channels', None)
    cen = slice(5, 10)
    for h in ref.elements(spaces_sub(g, i), c['n']):
        a = out.transform(h).tensor.numpy()
        b = gt.transform(up(h)).tensor.numpy()
        if not spaces.is_lattice(spaces.plane(s, up(h))):
            a, b = a[..., cen, cen], b[..., cen, cen]
        mon.trans()
        mon.check(ref.close(a, b, 1e-3), 'transform', lambda: (s, i, h, np.abs(a - b).max()))
    mon.trace()


def spaces_sub(g, i):
    return ref.subgroup_desc(g, i)
