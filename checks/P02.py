"""P02: exploration of the Cayley graph of every group with, at each edge, the homomorphism law of every
representation in the alphabet; the reference semantics gives the matrices themselves where they are documented."""
import itertools
import numpy as np
from scipy.linalg import block_diag
from mc import ref, reprs
from e2cnn.group import directsum, disentangle, change_basis, Representation
from e2cnn import gspaces, nn

PID = 'P02'
BOUNDS = {
    'quick': 'C_N N<=12, D_N N<=8, SO(2)/O(2) with frequencies <=4 on the 24-lattice; irreps, regular, all quotient/induced over all subgroups (C_N, D_N up to 8/6), direct sums of all ordered pairs of the alphabet, 4 changes of basis, concatenated, disentangle of all of them and of all restrictions; all element pairs',
    'thorough': 'C_N N<=20, D_N N<=12, frequencies <=7 on the 60-lattice; as quick with direct sums of ordered triples of irreps',
}
ASSUMPTIONS = ['continuous groups are evaluated on finite lattices of angles; irreps are trigonometric polynomials of frequency below the lattice order, so the lattice determines them']
CHUNK = 1


def cases(tier):
    cn, dn, F = (12, 8, 4) if tier == 'quick' else (20, 12, 7)
    n = 24 if tier == 'quick' else 60
    out = []
    for g in [['C', k] for k in range(1, cn + 1)] + [['D', k] for k in range(1, dn + 1)] + [['SO2', F], ['O2', F]]:
        out.append({'kind': 'irreps', 'g': g, 'n': n})
        out.append({'kind': 'sums', 'g': g, 'n': n, 'triples': tier == 'thorough' and g[1] <= 6})
        out.append({'kind': 'restricted', 'g': g, 'n': n})
        if g[0] in 'CD':
            out.append({'kind': 'regular', 'g': g, 'n': n})
            if g[1] <= (8 if g[0] == 'C' else 6) or (tier == 'thorough' and g[1] <= 12):
                for i in ref.subgroup_ids(g):
                    out.append({'kind': 'induced', 'g': g, 'id': i, 'n': n})
        if g[0] == 'O2':
            out.append({'kind': 'induced', 'g': g, 'id': [None, -1], 'n': n})
    return out


def cost(c):
    return c['g'][1] * (2 if c['g'][0] == 'D' else 1) + {'restricted': 30, 'sums': 20, 'induced': 3, 'regular': 2, 'irreps': 1}[c['kind']]


def irrep_desc(grp, name):
    return grp.irreps[name]


def examine(mon, g, grp, rep, label, els, value=None, allpairs=True):
    """All structural obligations of one representation."""
    rho = {e: np.asarray(rep(e), dtype=float) for e in els}
    mon.trans(len(els))
    mon.state(g, label)
    n = rep.size
    ok = mon.check(all(m.shape == (n, n) for m in rho.values()), 'shape', label)
    if not ok:
        return
    mon.check(ref.close(rep(grp.identity), np.eye(n)), 'identity', label)
    Q, Qi = np.asarray(rep.change_of_basis, float), np.asarray(rep.change_of_basis_inv, float)
    mon.check(ref.close(Q @ Qi, np.eye(n)) and ref.close(Qi @ Q, np.eye(n)), 'cob-inverse', label)
    mon.check(sum(grp.irreps[i].size for i in rep.irreps) == n, 'irreps-size', (label, rep.irreps))
    for e in els:
        blk = block_diag(*[grp.irreps[i](e) for i in rep.irreps])
        mon.check(ref.close(Q @ blk @ Qi, rho[e]), 'decomposition', lambda: (label, e))
        mon.check(abs(rep.character(e) - np.trace(rho[e])) < 1e-6, 'character', lambda: (label, e))
        inv = grp.inverse(e)
        mon.check(ref.close(rep(inv) @ rho[e], np.eye(n)), 'inverse', lambda: (label, e))
        if value is not None:
            v = value(e)
            if v is not None:
                mon.check(ref.close(v, rho[e]), 'value', lambda: (label, e))
    right = els if allpairs else reprs.generators(g)
    for s in right:
        rs = rho[s] if s in rho else np.asarray(rep(s), float)
        for e in els:
            p = grp.combine(e, s)
            mon.trans()
            rp = rho[p] if p in rho else np.asarray(rep(p), float)
            mon.check(ref.close(rho[e] @ rs, rp), 'homomorphism', lambda: (label, e, s))
    # triviality flags
    allone = n == 1 and all(ref.close(rho[e], np.eye(1)) for e in els)
    # (a one-dimensional representation whose stated change of basis is not 1 may or may not be called trivial)
    if not allone or ref.close(Q, np.eye(n)):
        mon.check(bool(rep.is_trivial()) == allone, 'is-trivial', (label, rep.is_trivial()))
    fixed = np.linalg.matrix_rank(sum(rho.values()) / len(els), tol=1e-6)
    mon.check(bool(rep.contains_trivial()) == (fixed > 0), 'contains-trivial', label)
    trivname = grp.trivial_representation.name
    mon.check(sum(i == trivname for i in rep.irreps) == fixed, 'trivial-multiplicity', label)
    mon.trace()


def check_disentangle(mon, grp, rep, els, label):
    P, parts = disentangle(rep)
    mon.trans()
    n = rep.size
    mon.check(sum(p.size for p in parts) == n, 'disentangle-sizes', label)
    mon.check(ref.close(P @ P.T, np.eye(n)) and set(np.unique(P)) <= {0., 1.}, 'disentangle-permutation', label)
    for e in els:
        blk = block_diag(*[p(e) for p in parts])
        mon.check(ref.close(P @ rep(e) @ P.T, blk), 'disentangle-value', lambda: (label, e))
    # finest: the parts cannot be split further by permuting axes
    for p in parts:
        ms = np.array([np.abs(p(e)) > 1e-9 for e in els]).any(0)
        comp = components(ms)
        if comp > 1:
            # axes may be linked only through the change of basis: the documented criterion is the sparsity
            # of the change of basis, so look at that one
            B = np.abs(np.asarray(p.change_of_basis)) > 1e-8
            pos = 0
            link = np.eye(p.size, dtype=bool)
            for i in p.irreps:
                s = grp.irreps[i].size
                rows = B[:, pos:pos + s].any(1)
                link |= np.outer(rows, rows)
                pos += s
            comp = components(link)
        mon.check(comp == 1, 'disentangle-finest', label)
        mon.check(set(p.supported_nonlinearities) == set(rep.supported_nonlinearities), 'disentangle-nonlinearities', label)
    mon.outcome('parts', len(parts))
    return parts


def components(a):
    n = len(a)
    a = a | a.T
    seen, c = set(), 0
    for i in range(n):
        if i in seen:
            continue
        c += 1
        st = [i]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            st += [j for j in range(n) if a[x, j] and j not in seen]
    return c


def run_case(c, mon):
    g = c['g']
    grp = ref.gdesc(g)
    els = ref.elements(g, c['n'])
    globals()[c['kind']](c, mon, g, grp, els)


def irreps(c, mon, g, grp, els):
    ids = reprs.irrep_ids(g)
    irs = [grp.irrep(*i) for i in ids]
    names = [r.name for r in irs]
    mon.check(len(set(names)) == len(names), 'irrep-names', names)
    for i, r in zip(ids, irs):
        mon.check(r.irreps == [r.name] and r.irreducible and grp.irreps[r.name] is r, 'irrep-self', r.name)
        examine(mon, g, grp, r, ['irrep'] + i, els, lambda e, i=i: reprs.irrep_mat(g, i, e))
        for e in els:
            m = np.asarray(r(e))
            mon.check(ref.close(m @ m.T, np.eye(r.size)), 'orthogonal', (i, e))
        if 'frequency' in r.attributes:
            mon.check(r.attributes['frequency'] == i[-1], 'frequency-attribute', (i, r.attributes))
        if 'flip_frequency' in r.attributes:
            mon.check(r.attributes['flip_frequency'] == i[0], 'flip-attribute', (i, r.attributes))
    chi = np.array([[r.character(e) for e in els] for r in irs])
    gram = chi @ chi.T / len(els)
    mon.check(ref.close(gram, np.diag(np.diag(gram))), 'inequivalent', names)
    for r, nn_ in zip(irs, np.diag(gram)):
        mon.check(round(nn_, 6) in (1., 2.), 'irreducible', (r.name, nn_))
        mon.check(abs(nn_ - r.sum_of_squares_constituents) < 1e-6, 'constituents', (r.name, nn_, r.sum_of_squares_constituents))
    if g[0] in 'CD':
        tot = sum(r.size ** 2 / nn_ for r, nn_ in zip(irs, np.diag(gram)))
        mon.check(abs(tot - len(els)) < 1e-6, 'complete', tot)
        mon.check(set(grp.irreps) == set(names), 'irreps-listed', sorted(grp.irreps))
    mon.check(grp.trivial_representation.is_trivial(), 'trivial')
    mon.sample({'group': grp.name, 'irreps': names})


def regular(c, mon, g, grp, els):
    r = grp.regular_representation
    examine(mon, g, grp, r, ['regular'], els, lambda e: reprs.value(g, ['regular'], e))
    check_disentangle(mon, grp, r, els, 'regular')
    # concatenated representations are built by the concatenated non-linearity
    for d in [['irrep'] + i for i in reprs.irrep_ids(g)] + [['regular']]:
        rep = reprs.build(grp, d)
        if 'concatenated' not in rep.supported_nonlinearities:
            continue
        if g[0] == 'C':
            space = gspaces.Rot2dOnR2(g[1]) if g[1] > 1 else gspaces.TrivialOnR2()
        else:
            space = gspaces.FlipRot2dOnR2(g[1]) if g[1] > 1 else None
        if space is None or len(els) > 10:   # larger groups: iterative sparse solver, see DESIGN.md
            continue
        out = nn.ConcatenatedNonLinearity(nn.FieldType(space, [rep])).out_type.representations[0]

        def val(e, rep=rep):
            a = np.asarray(rep(e))
            m = np.zeros((2 * len(a), 2 * len(a)))
            for x in range(len(a)):
                for y in range(len(a)):
                    if a[x, y] > .5:
                        m[2 * x:2 * x + 2, 2 * y:2 * y + 2] = np.eye(2)
                    elif a[x, y] < -.5:
                        m[2 * x:2 * x + 2, 2 * y:2 * y + 2] = np.eye(2)[::-1]
            return m
        examine(mon, g, grp, out, ['concatenated', d], els, val)


def induced(c, mon, g, grp, els):
    i = ref.sid(c['id'])
    sd = ref.subgroup_desc(g, i)
    ids = reprs.irrep_ids(sd)
    for d in [['quot', i]] + [['ind', i, k] for k in ids]:
        r = reprs.build(grp, d)
        examine(mon, g, grp, r, d, els)
        for e in els:
            m = np.asarray(r(e))
            mon.check(ref.close(m @ m.T, np.eye(r.size)), 'orthogonal', (d, e))
        check_disentangle(mon, grp, r, els, d)


def sums(c, mon, g, grp, els):
    base = [['irrep'] + i for i in reprs.irrep_ids(g)]
    if len(base) > 5:
        base = base[:4] + base[-2:]
    if g[0] in 'CD' and g[1] <= 6:
        base.append(['regular'])
    small = els if len(els) <= 12 else els[::max(1, len(els) // 12)]
    pairs = [list(t) for t in itertools.product(base, repeat=2)]
    if c['triples']:
        pairs += [list(t) for t in itertools.product(base[:4], repeat=3)]
    for t in pairs:
        d = ['sum', t]
        r = reprs.build(grp, d)
        examine(mon, g, grp, r, d, els, lambda e: reprs.value(g, d, e), allpairs=False)
        mon.check(set(r.supported_nonlinearities) == set.intersection(*[set(reprs.build(grp, x).supported_nonlinearities) for x in t]), 'sum-nonlinearities', d)
        parts = check_disentangle(mon, grp, r, small, d)
    for x in base + [['sum', list(base[:3]), 'abc'], ['sum', [base[-1], base[0]], 'xy']]:
        for kind in ('perm', 'sign', 'house', 'shear'):
            d = ['cob', x, kind, 'cob_' + kind]
            r = reprs.build(grp, d)
            examine(mon, g, grp, r, d, els, lambda e: reprs.value(g, d, e), allpairs=False)
            mon.check(not r.supported_nonlinearities, 'cob-nonlinearities', d)
            check_disentangle(mon, grp, r, small, d)
    for kind in ('perm', 'house', 'shear'):
        d = ['sumcob', [base[0], base[-1], base[0]], kind, 's_' + kind]
        r = reprs.build(grp, d)
        examine(mon, g, grp, r, d, els, lambda e: reprs.value(g, d, e), allpairs=False)
        check_disentangle(mon, grp, r, small, d)
    # operator form
    a, b = reprs.build(grp, base[0]), reprs.build(grp, base[-1])
    examine(mon, g, grp, a + b, 'plus', els, lambda e: reprs.value(g, ['sum', [base[0], base[-1]]], e), allpairs=False)


def restricted(c, mon, g, grp, els):
    """Restrictions are representations of the subgroup; P04 compares them with the original."""
    ds = [['irrep'] + i for i in reprs.irrep_ids(g)]
    if g[0] in 'CD':
        ds.append(['regular'])
    ids = ref.subgroup_ids(g, angles=4, orders=(1, 2, 3, 4))
    for i in ids:
        sd = ref.subgroup_desc(g, i)
        sels = ref.elements(sd, 12)
        for d in ds:
            r = reprs.build(grp, d).restrict(i)
            mon.check(r.group == ref.gdesc(sd) or r.group.continuous, 'restricted-group', (d, i))
            examine(mon, sd, r.group, r, ['res', g, i, d], sels, allpairs=False)
            check_disentangle(mon, r.group, r, sels, ['res', g, i, d])
