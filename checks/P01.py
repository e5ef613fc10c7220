"""P01: explicit exploration of the multiplication graph of every group and of every subgroup embedding."""
import numpy as np
from mc import ref
import e2cnn.group as G

PID = 'P01'
BOUNDS = {
    'quick': 'C_N N<=16, D_N N<=10 (all pairs and triples), SO(2)/O(2) on the 24-lattice incl. unnormalised angles; all subgroup ids (continuous: orders 1,2,3,4,6,8,-1 x axis lattice); all chains of 2 subgroups',
    'thorough': 'C_N N<=36, D_N N<=18, SO(2)/O(2) on the 60-lattice; all subgroup ids; all chains of 2 subgroups',
}
ASSUMPTIONS = ['elements of the continuous groups are explored on finite lattices of angles closed under the group operation']
ORD = (1, 2, 3, 4, 5, 6, 8)


def cases(tier):
    cn, dn, n = (16, 10, 24) if tier == 'quick' else (36, 18, 60)
    gs = [['C', k] for k in range(1, cn + 1)] + [['D', k] for k in range(1, dn + 1)] + [['SO2', 3], ['O2', 3]]
    out = [{'kind': 'laws', 'g': g, 'n': n} for g in gs]
    out += [{'kind': 'subgroup', 'g': g, 'id': i, 'n': n} for g in gs for i in ref.subgroup_ids(g, orders=ORD)]
    out.append({'kind': 'equality', 'gs': gs})
    return out


def cost(c):
    return {'laws': 5, 'subgroup': 1, 'equality': 9}[c['kind']] * (1 if c['kind'] == 'equality' else (c['g'][1] + (50 if c['g'][0] in ('SO2', 'O2') else 0)))


CHUNK = 4


def alphabet(g, n):
    els = ref.elements(g, n)
    if g[0] == 'SO2':
        els = els + [-ref.TWO_PI / 3, ref.TWO_PI, 5 * np.pi, -1e-12, ref.TWO_PI - 1e-12]
    if g[0] == 'O2':
        els = els + [(f, a) for f in (0, 1) for a in (-ref.TWO_PI / 3, ref.TWO_PI, 5 * np.pi, -1e-12, ref.TWO_PI - 1e-12)]
    return els


def is_identity(g, e):
    return ref.close(ref.mat(g, e), np.eye(2))


def run_case(c, mon):
    {'laws': laws, 'subgroup': subgroup, 'equality': equality}[c['kind']](c, mon)


def laws(c, mon):
    g, n = c['g'], c['n']
    grp = ref.gdesc(g)
    finite = g[0] in 'CD'
    els = alphabet(g, n)
    mats = {e: ref.mat(g, e) for e in els}
    mon.check(grp.is_element(grp.identity) and ref.close(ref.mat(g, grp.identity), np.eye(2)), 'identity', grp.identity)
    mon.check(grp.continuous == (not finite), 'continuous-flag')
    abel = all(ref.close(a @ b, b @ a) for a in mats.values() for b in mats.values())
    mon.check(bool(grp.abelian) == abel or (g[0] == 'D' and g[1] <= 2), 'abelian-flag', (grp.abelian, abel))
    if finite:
        mon.check(grp.order() == len(els), 'order', grp.order())
        mon.check(len(grp.elements) == len(els) and sorted(map(repr, grp.elements)) == sorted(map(repr, els)), 'elements', grp.elements)
        mon.check(len(set(grp.elements_names)) == len(els), 'element-names', grp.elements_names)
        t = list(grp.testing_elements())
        mon.check(sorted(map(repr, t)) == sorted(map(repr, els)), 'testing-elements')
        N = g[1]
        bad = [-1, N, N + 3, 1.5, None, 'e'] if g[0] == 'C' else [(0, -1), (0, N), (2, 0), (-1, 0), (0, 0.5), 0, None, (0,), (0, 0, 0)]
        for b in bad:
            mon.check(not grp.is_element(b), 'non-element', b)
    else:
        mon.check(grp.order() == -1, 'order')
        for t in grp.testing_elements():
            mon.check(grp.is_element(t), 'testing-elements', t)
        bad = [None, 'e', (0, 0.)] if g[0] == 'SO2' else [None, 0., (2, 0.), (0,), (-1, 0.), (0, 0., 0)]
        for b in bad:
            mon.check(not grp.is_element(b), 'non-element', b)
    prods = {}
    for a in els:
        mon.state(g, a)
        mon.check(grp.is_element(a), 'is-element', a)
        inv = grp.inverse(a)
        mon.trans()
        mon.check(grp.is_element(inv), 'inverse-closed', (a, inv))
        mon.check(ref.close(ref.mat(g, inv) @ mats[a], np.eye(2)), 'inverse', (a, inv))
        mon.check(grp.equal(grp.combine(a, inv), grp.identity) and grp.equal(grp.combine(inv, a), grp.identity), 'inverse-law', a)
        for b in els:
            p = grp.combine(a, b)
            mon.trans()
            prods[a, b] = p
            mon.check(grp.is_element(p), 'closed', (a, b, p))
            mon.check(ref.close(ref.mat(g, p), mats[a] @ mats[b]), 'combine', (a, b, p))
            same = ref.close(mats[a], mats[b])
            mon.check(bool(grp.equal(a, b)) == same, 'equal', (a, b, grp.equal(a, b)))
        mon.trace()
    if len(els) > 60:
        els = els[::3] + els[-10:]
    for a in els:
        for b in els:
            for d in els:
                mon.trans()
                mon.check(grp.equal(grp.combine(prods[a, b], d), grp.combine(a, prods[b, d])), 'associative', (a, b, d))
    mon.sample({'group': grp.name, 'product': [repr(els[-1]), repr(els[0]), repr(prods[els[-1], els[0]])]})


def sub_alphabet(g, sd, n):
    return alphabet(sd, n) if sd[0] in ('SO2', 'O2') else ref.elements(sd)


def check_maps(mon, g, grp, sd, up, down, embed, n, label, member_mats=None):
    """up/down: composed maps between the group `grp` (descriptor g) and the subgroup described by sd."""
    hs = sub_alphabet(sd, sd, n)
    sg = ref.gdesc(sd)
    img = []
    for h in hs:
        mon.state(label, g, h)
        p = up(h)
        mon.trans()
        if not mon.check(grp.is_element(p), label + '/parent-is-element', (h, p)):
            continue
        mon.check(ref.close(ref.mat(g, p), embed(h)), label + '/parent-value', (h, p))
        img.append(ref.mat(g, p))
        back = down(p)
        mon.check(back is not None and sg.is_element(back) and sg.equal(back, h), label + '/child-of-parent', (h, p, back))
    # homomorphism, and children of products computed in the parent
    for h in hs:
        for k in hs:
            mon.trans()
            p = grp.combine(up(h), up(k))
            hk = sg.combine(h, k)
            mon.check(grp.equal(p, up(hk)), label + '/homomorphism', (h, k))
            b = down(p)
            mon.check(b is not None and sg.is_element(b) and sg.equal(b, hk), label + '/child-of-product', (h, k, p, b))
    # elements outside
    if sd[0] in ('C', 'D'):
        stack = np.array([m.ravel() for m in img])
        for e in alphabet(g, n):
            inside = bool((np.abs(stack - ref.mat(g, e).ravel()).max(1) < 1e-6).any())
            b = down(e)
            mon.trans()
            mon.outcome(label, inside)
            if inside:
                mon.check(b is not None and sg.is_element(b) and ref.close(embed(b), ref.mat(g, e)), label + '/child-inside', (e, b))
            else:
                mon.check(b is None, label + '/child-outside', (e, b))
    else:
        for e in alphabet(g, n):
            inside = sd[0] == 'O2' or np.linalg.det(ref.mat(g, e)) > 0
            b = down(e)
            mon.trans()
            if inside:
                mon.check(b is not None and sg.is_element(b) and ref.close(embed(b), ref.mat(g, e)), label + '/child-inside', (e, b))
            else:
                mon.check(b is None, label + '/child-outside', (e, b))
    mon.trace()


def subgroup(c, mon):
    g, i, n = c['g'], ref.sid(c['id']), c['n']
    grp = ref.gdesc(g)
    sg, up, down = grp.subgroup(i)
    sd = ref.subgroup_desc(g, i)
    if sd[0] in 'CD':
        mon.check(sg.order() == ref.gdesc(sd).order() and sg == ref.gdesc(sd), 'subgroup-kind', (i, sg.name))
    else:
        mon.check(sg.continuous and sg.name == ref.gdesc(sd).name, 'subgroup-kind', (i, sg.name))
    check_maps(mon, g, grp, sd, up, down, lambda h: ref.embed_mat(g, i, h), n, 'sub')
    # requesting the same subgroup again gives the same maps
    sg2, up2, _ = grp.subgroup(i)
    for h in sub_alphabet(sd, sd, n)[:8]:
        mon.check(grp.equal(up2(h), up(h)), 'repeat', h)
    # chains
    if g[0] in ('SO2', 'O2') and sd[0] in 'CD' and sd[1] > 4:
        return
    orders = (1, 2, 4) if sd[0] in ('SO2', 'O2') else None
    ids2 = ref.subgroup_ids(sd, angles=4, orders=orders) if orders else ref.subgroup_ids(sd)
    for j in ids2:
        sg2, up2, down2 = sg.subgroup(j)
        sd2 = ref.subgroup_desc(sd, j)
        inner = lambda h, j=j: ref.embed_mat(sd, j, h)

        def embed(h, j=j, sd2=sd2):
            # find the isometry by composing: embed(sub element) in the middle group, then re-embed
            m = ref.embed_mat(sd, j, h)
            return frame(g, i, sd, m)
        check_maps(mon, g, grp, sd2, lambda h: up(up2(h)),
                   lambda e: (lambda x: None if x is None else down2(x))(down(e)), embed, min(n, 12), 'chain')


def frame(g, i, sd, m):
    """Re-express an isometry m of the subgroup's own frame in the frame of g."""
    if g[0] in ('C', 'SO2') or i[0] is None:
        return m
    if sd == ['C', 2] and i[1] == 1:
        # C_2 element: the nontrivial element (rotation by pi in its own picture) is the reflection
        return ref.embed_mat(g, i, 0 if ref.close(m, np.eye(2)) else 1)
    if np.linalg.det(m) > 0:
        return m
    a = np.arctan2(m[1, 0], m[0, 0])
    step = ref.TWO_PI / g[1] if g[0] == 'D' else 1.0
    return ref.rot(a) @ ref.rot(i[0] * step) @ ref.FLIP


def equality(c, mon):
    gs = c['gs']
    for a in gs:
        for b in gs:
            mon.state(a, b)
            mon.trans()
            x, y = ref.gdesc(a), ref.gdesc(b)
            mon.check(bool(x == y) == (a == b), 'group-equality', (a, b))
            mon.check(bool(x != y) == (a != b), 'group-inequality', (a, b))
            if a == b:
                mon.check(x is y, 'factory-identity', a)
    mon.check(G.trivial_group() == ref.gdesc(['C', 1]), 'trivial-group')
    mon.trace()
