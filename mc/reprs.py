"""Finite alphabets of representations, built through the public API, with reference semantics."""
import math
import numpy as np
from scipy.linalg import block_diag
from mc import ref


def irrep_ids(g):
    if g[0] == 'C':
        return [[k] for k in range(g[1] // 2 + 1)]
    if g[0] == 'SO2':
        return [[k] for k in range(g[1] + 1)]
    if g[0] == 'D':
        N = g[1]
        out = [[0, 0], [1, 0]] + [[1, k] for k in range(1, (N - 1) // 2 + 1)]
        if N % 2 == 0:
            out += [[0, N // 2], [1, N // 2]]
        return out
    return [[0, 0], [1, 0]] + [[1, k] for k in range(1, g[1] + 1)]


def irrep_mat(g, i, e):
    """The documented value of an irrep."""
    if g[0] in ('C', 'SO2'):
        k = i[0]
        t = e * ref.TWO_PI / g[1] if g[0] == 'C' else e
        if k == 0:
            return np.eye(1)
        if g[0] == 'C' and g[1] % 2 == 0 and k == g[1] // 2:
            return np.array([[(-1.) ** e]])
        return ref.rot(k * t)
    j, k = i
    f, r = e
    t = r * ref.TWO_PI / g[1] if g[0] == 'D' else r
    s = (-1.) ** (f * j)
    if k == 0:
        return np.array([[s]])
    if g[0] == 'D' and g[1] % 2 == 0 and k == g[1] // 2:
        return np.array([[s * (-1.) ** r]])
    return ref.rot(k * t) @ (ref.FLIP if f else np.eye(2))


def q_matrix(n, kind):
    """Deterministic change-of-basis matrices."""
    if kind == 'perm':
        return np.eye(n)[np.roll(np.arange(n), 1)]
    if kind == 'sign':
        return np.diag([(-1.) ** i for i in range(n)])
    if kind == 'house':
        v = np.arange(1, n + 1, dtype=float)[:, None]
        return np.eye(n) - 2 * v @ v.T / (v.T @ v)
    if kind == 'shear':
        return np.eye(n) + np.triu(np.ones((n, n)), 1) * .5
    raise KeyError(kind)


def build(grp, d):
    """Descriptor -> library representation of the group `grp`."""
    from e2cnn.group import directsum, change_basis
    k = d[0]
    if k == 'irrep':
        return grp.irrep(*d[1:])
    if k == 'regular':
        return grp.regular_representation
    if k == 'trivial':
        return grp.trivial_representation
    if k == 'quot':
        return grp.quotient_representation(ref.sid(d[1]))
    if k == 'ind':
        sg, _, _ = grp.subgroup(ref.sid(d[1]))
        return grp.induced_representation(ref.sid(d[1]), sg.irrep(*d[2]))
    if k == 'sum':
        return directsum([build(grp, x) for x in d[1]], name=d[2] if len(d) > 2 else None)
    if k == 'sumcob':
        rs = [build(grp, x) for x in d[1]]
        n = sum(r.size for r in rs)
        return directsum(rs, change_of_basis=q_matrix(n, d[2]), name=d[3])
    if k == 'cob':
        r = build(grp, d[1])
        return change_basis(r, q_matrix(r.size, d[2]), name=d[3])
    raise KeyError(k)


def value(g, d, e, base=None):
    """Reference value of the representation described by d at element e, or None if it is defined only up to
    the library's choice of basis (then only its character is checked elsewhere)."""
    k = d[0]
    if k == 'irrep':
        return irrep_mat(g, d[1:], e)
    if k == 'trivial':
        return np.eye(1)
    if k == 'regular':
        els = ref.elements(g)
        m = np.zeros((len(els), len(els)))
        for j, a in enumerate(els):
            i = index(g, els, ref.mat(g, e) @ ref.mat(g, a))
            m[i, j] = 1
        return m
    if k == 'sum':
        vs = [value(g, x, e) for x in d[1]]
        return None if any(v is None for v in vs) else block_diag(*vs)
    if k == 'sumcob':
        vs = [value(g, x, e) for x in d[1]]
        if any(v is None for v in vs):
            return None
        m = block_diag(*vs)
        q = q_matrix(len(m), d[2])
        return q @ m @ np.linalg.inv(q)
    if k == 'cob':
        m = value(g, d[1], e)
        if m is None:
            return None
        q = q_matrix(len(m), d[2])
        return q @ m @ np.linalg.inv(q)
    return None


_IDX = {}


def index(g, els, m):
    key = (tuple(g), len(els))
    if key not in _IDX:
        _IDX[key] = np.array([ref.mat(g, a).ravel() for a in els])
    d = np.abs(_IDX[key] - m.ravel()).max(1)
    i = int(d.argmin())
    assert d[i] < 1e-6
    return i


def generators(g, n=12):
    if g[0] == 'C':
        return [1 % g[1]]
    if g[0] == 'D':
        return [(0, 1 % g[1]), (1, 0)]
    if g[0] == 'SO2':
        return [ref.TWO_PI / n, 0.7]
    return [(0, ref.TWO_PI / n), (1, 0.), (0, 0.7), (1, 2.2)]


def name_of(d):
    return repr(d)
