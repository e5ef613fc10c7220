"""P03: the permutation action on cosets, explored element by element and axis by axis (states: axes, transitions:
group elements acting on an axis)."""
import numpy as np
from mc import ref, reprs

PID = 'P03'
BOUNDS = {
    'quick': 'regular: C_N N<=24, D_N N<=12; quotient and induced: C_N N<=12, D_N N<=8, all subgroups x all irreps of the subgroup x all elements; O(2) over SO(2) with frequencies <=4 on the 24-lattice',
    'thorough': 'regular: C_N N<=40, D_N N<=20; quotient and induced: C_N N<=20, D_N N<=12; O(2) frequencies <=8 on the 60-lattice',
}


def cases(tier):
    q = tier == 'quick'
    out = [{'kind': 'regular', 'g': ['C', n]} for n in range(1, 25 if q else 41)]
    out += [{'kind': 'regular', 'g': ['D', n]} for n in range(1, 13 if q else 21)]
    for g in [['C', n] for n in range(1, 13 if q else 21)] + [['D', n] for n in range(1, 9 if q else 13)]:
        out += [{'kind': 'induced', 'g': g, 'id': i, 'n': 0} for i in ref.subgroup_ids(g)]
    out.append({'kind': 'induced', 'g': ['O2', 4 if q else 8], 'id': [None, -1], 'n': 24 if q else 60})
    return out


def cost(c):
    return c['g'][1] * (1 if c['g'][0] == 'C' else 3) + (100 if c['g'][0] == 'O2' else 0)


CHUNK = 1


def is_perm(m):
    return np.all((np.abs(m) < 1e-6) | (np.abs(m - 1) < 1e-6)) and np.all(np.abs(m.sum(0) - 1) < 1e-6) and np.all(np.abs(m.sum(1) - 1) < 1e-6)


def run_case(c, mon):
    globals()[c['kind']](c, mon)


def regular(c, mon):
    g = c['g']
    grp = ref.gdesc(g)
    els = list(grp.elements)
    rep = grp.regular_representation
    mon.check(rep.size == len(els), 'regular-size')
    mats = [ref.mat(g, e) for e in els]
    for e in els:
        m = np.asarray(rep(e))
        if not mon.check(is_perm(m), 'regular-permutation', e):
            continue
        for j in range(len(els)):
            i = int(m[:, j].argmax())
            mon.state(j)
            mon.trans()
            mon.check(ref.close(mats[i], ref.mat(g, e) @ mats[j]), 'regular-translation', lambda: (e, els[j], els[i]))
    mon.trace(len(els))


def induced(c, mon):
    g, i = c['g'], ref.sid(c['id'])
    grp = ref.gdesc(g)
    els = ref.elements(g, c['n'])
    sd = ref.subgroup_desc(g, i)
    sg, up, down = grp.subgroup(i)
    H = [e for e in els if in_subgroup(g, i, sd, e)]
    quot = grp.quotient_representation(i)
    k = len(els) // len(H)
    mon.check(quot.size == k, 'quotient-size', (quot.size, k))
    Q = {e: np.asarray(quot(e)) for e in els}
    for e in els:
        mon.check(is_perm(Q[e]), 'quotient-permutation', e)
    axes = []
    for a in range(quot.size):
        mon.state('axis', a)
        stab = [e for e in els if Q[e][a, a] > .5]
        mon.trans(len(els))
        orbit = {int(Q[e][:, a].argmax()) for e in els}
        mon.check(len(orbit) == k, 'quotient-transitive', (a, orbit))
        mon.check(len(stab) == len(H), 'quotient-stabiliser-size', (a, len(stab)))
        if set(stab) == set(H):
            axes.append(a)
    if not mon.check(bool(axes), 'quotient-trivial-coset', 'no axis is stabilised exactly by the subgroup'):
        return
    mon.check(0 in axes, 'quotient-first-axis', axes)
    # left translation: pick the coset labels by moving the trivial coset, then check the action on labels
    a0 = axes[0]
    label = {}
    for e in els:
        label.setdefault(int(Q[e][:, a0].argmax()), e)
    for a, r in label.items():
        for e in els:
            b = int(Q[e][:, a].argmax())
            mon.trans()
            # e r H == label[b] H
            x = np.linalg.inv(ref.mat(g, label[b])) @ ref.mat(g, e) @ ref.mat(g, r)
            mon.check(in_subgroup_mat(g, i, sd, x), 'quotient-translation', (a, e, b))
    mon.trace(len(els))
    Hel = [(h, up(h)) for h in ref.elements(sd, c['n'])]
    for irr in reprs.irrep_ids(sd):
        psi = sg.irrep(*irr)
        s = psi.size
        ind = grp.induced_representation(i, psi)
        mon.state('induced', irr)
        if not mon.check(ind.size == k * s, 'induced-size', (irr, ind.size)):
            continue
        for e in els:
            m = np.asarray(ind(e)).reshape(k, s, k, s).transpose(0, 2, 1, 3)
            pat = np.abs(m).max((2, 3)) > 1e-6
            mon.trans()
            mon.check(np.array_equal(pat, Q[e] > .5), 'induced-block-pattern', (irr, e))
            # Frobenius: chi(e) = sum over coset representatives r with r^-1 e r in H of psi
            tot = 0.
            for a, r in label.items():
                x = np.linalg.inv(ref.mat(g, r)) @ ref.mat(g, e) @ ref.mat(g, r)
                h = find_sub(g, i, sd, x, Hel)
                if h is not None:
                    tot += np.trace(reprs.irrep_mat(sd, irr, h))
            mon.check(abs(tot - np.trace(np.asarray(ind(e)))) < 1e-5, 'induced-character', (irr, e))
        good = []
        for a in axes:
            if all(ref.close(np.asarray(ind(p)).reshape(k, s, k, s)[a, :, a, :], reprs.irrep_mat(sd, irr, h), 1e-5) for h, p in Hel):
                good.append(a)
        mon.check(bool(good), 'induced-trivial-block', irr)
        mon.trace(len(els))
    mon.sample({'group': grp.name, 'subgroup': repr(i), 'axes stabilised by the subgroup': axes})


def in_subgroup(g, i, sd, e):
    return in_subgroup_mat(g, i, sd, ref.mat(g, e))


def in_subgroup_mat(g, i, sd, m):
    if sd[0] == 'SO2':
        return np.linalg.det(m) > 0
    return any(ref.close(ref.embed_mat(g, i, h), m, 1e-5) for h in ref.elements(sd))


def find_sub(g, i, sd, m, Hel):
    for h, p in Hel:
        if ref.close(ref.mat(g, p), m, 1e-5):
            return h
    return None
