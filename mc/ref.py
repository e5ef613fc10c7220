"""Boring reference models, written from the documentation, independent of the library's code."""
import math
import numpy as np

TWO_PI = 2 * math.pi


def rot(t):
    c, s = math.cos(t), math.sin(t)
    return np.array([[c, -s], [s, c]])


FLIP = np.array([[1., 0.], [0., -1.]])      # reflection across the x axis


def gdesc(g):
    """Descriptor -> library group. ['C',N] ['D',N] ['SO2',F] ['O2',F]"""
    from e2cnn.group import cyclic_group, dihedral_group, so2_group, o2_group
    return {'C': cyclic_group, 'D': dihedral_group, 'SO2': so2_group, 'O2': o2_group}[g[0]](g[1])


def elements(g, n=12):
    """Finite element alphabet: the whole group if finite, else the lattice of order n."""
    if g[0] == 'C':
        return list(range(g[1]))
    if g[0] == 'D':
        return [(f, r) for f in (0, 1) for r in range(g[1])]
    if g[0] == 'SO2':
        return [i * TWO_PI / n for i in range(n)]
    return [(f, i * TWO_PI / n) for f in (0, 1) for i in range(n)]


def mat(g, e):
    """The planar isometry an element stands for (reflection across the x axis first, then rotation)."""
    if g[0] == 'C':
        return rot(e * TWO_PI / g[1])
    if g[0] == 'D':
        return rot(e[1] * TWO_PI / g[1]) @ (FLIP if e[0] else np.eye(2))
    if g[0] == 'SO2':
        return rot(e)
    return rot(e[1]) @ (FLIP if e[0] else np.eye(2))


def divisors(n):
    return [d for d in range(1, n + 1) if n % d == 0]


def subgroup_ids(g, angles=8, orders=(1, 2, 3, 4, 6)):
    """All subgroup ids of a finite group; a lattice of ids for the continuous groups."""
    if g[0] == 'C':
        return divisors(g[1])
    if g[0] == 'D':
        N = g[1]
        out = [(None, m) for m in divisors(N)]
        for m in divisors(N):
            out += [(k, m) for k in range(N // m)]
        return out
    if g[0] == 'SO2':
        return list(orders)
    out = [(None, m) for m in orders] + [(None, -1)]
    for m in orders:
        out += [(TWO_PI / m * i / 4, m) for i in range(4)]
    out += [(TWO_PI * i / angles, -1) for i in range(angles)]
    return out


def subgroup_desc(g, sid):
    """Descriptor of the subgroup (kind and order) that an id denotes."""
    if g[0] in ('C', 'SO2'):
        return ['C', sid]
    a, m = sid
    if m == -1:
        return ['SO2', g[1]] if a is None else ['O2', g[1]]
    if a is None:
        return ['C', m]
    if m == 1:
        return ['C', 2]
    return ['D', m]


def embed_mat(g, sid, h):
    """Planar isometry (in the parent's frame) that the subgroup element h stands for.

    Rotations keep their angle; the reflection of the subgroup is the parent's reflection followed by
    the rotation named by the id."""
    sd = subgroup_desc(g, sid)
    if g[0] in ('C', 'SO2') or sid[0] is None:
        return mat(sd, h)
    step = TWO_PI / g[1] if g[0] == 'D' else 1.0
    ax = rot(sid[0] * step) @ FLIP
    if sd == ['C', 2] and sid[1] == 1:
        return ax if h else np.eye(2)
    f, r = h
    R = rot(r * TWO_PI / sd[1]) if sd[0] == 'D' else rot(r)
    return R @ (ax if f else np.eye(2))


def close(a, b, tol=1e-6):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and (a.size == 0 or bool(np.max(np.abs(a - b)) <= tol))


def el(e):
    """JSON -> element."""
    return tuple(e) if isinstance(e, list) else e


def sid(i):
    return tuple(i) if isinstance(i, list) else i
