"""Symmetry spaces: descriptors, library objects, reference plane action, and the plane action as measured."""
import math
import numpy as np
from mc import ref

# descriptors: ['triv'] ['flip', a] ['rot', N, F] ['fliprot', N, F, a]   (a: axis in units of pi; N=-1: continuous)


def build(s):
    from e2cnn import gspaces
    if s[0] == 'triv':
        return gspaces.TrivialOnR2()
    if s[0] == 'flip':
        return gspaces.Flip2dOnR2(axis=s[1] * np.pi)
    if s[0] == 'rot':
        return gspaces.Rot2dOnR2(s[1], maximum_frequency=s[2])
    if s[0] == 'fliprot':
        return gspaces.FlipRot2dOnR2(s[1], maximum_frequency=s[2], axis=s[3] * np.pi)
    raise KeyError(s)


def group(s):
    """Descriptor of the fiber group (see mc.ref)."""
    if s[0] == 'triv':
        return ['C', 1]
    if s[0] == 'flip':
        return ['C', 2]
    if s[0] == 'rot':
        return ['C', s[1]] if s[1] > 0 else ['SO2', s[2]]
    return ['D', s[1]] if s[1] > 0 else ['O2', s[2]]


def axis(s):
    return s[-1] * math.pi if s[0] in ('flip', 'fliprot') else 0.


def plane(s, e):
    """The documented isometry of the plane: the reflection across the axis first, then the rotation."""
    S = ref.rot(2 * axis(s)) @ ref.FLIP
    if s[0] == 'triv':
        return np.eye(2)
    if s[0] == 'flip':
        return S if e else np.eye(2)
    g = group(s)
    if s[0] == 'rot':
        return ref.mat(g, e)
    r = e[1] * ref.TWO_PI / g[1] if g[0] == 'D' else e[1]
    return ref.rot(r) @ (S if e[0] else np.eye(2))


def is_lattice(m, tol=1e-6):
    """Does this isometry map the pixel grid to itself?"""
    r = np.round(m)
    return bool(np.abs(m - r).max() < tol)


_S = 41
_H = _S // 2
_yy, _xx = np.mgrid[0:_S, 0:_S]
_X, _Y = _xx - float(_H), float(_H) - _yy            # x to the right, y upwards
_RAMPS = np.stack([_X, _Y])[:, None]                 # batch of two one-channel images
_C = slice(_H - 4, _H + 5)
_A = np.stack([_X[_C, _C].ravel(), _Y[_C, _C].ravel()], 1)


def measured(gs, e):
    """2x2 matrix of the isometry by which the library moves images: [g.f](x) = f(g^-1 x), so linear images
    transform by the inverse, which is read off exactly (splines reproduce linear images away from the border)."""
    out = gs.featurefield_action(_RAMPS, gs.trivial_repr, e)
    coef, res, rk, _ = np.linalg.lstsq(_A, out[:, 0][:, _C, _C].reshape(2, -1).T, rcond=None)
    inv = coef.T        # rows: how x and y ramps look after the transformation = rows of g^-1
    fit = np.abs(_A @ coef - out[:, 0][:, _C, _C].reshape(2, -1).T).max()
    return np.linalg.inv(inv), float(fit)


def grid_perm(m, x):
    """Reference action of a lattice isometry m on the last two axes of the array x (square images)."""
    S = x.shape[-1]
    assert x.shape[-2] == S
    c = (S - 1) / 2.
    yy, xx = np.mgrid[0:S, 0:S]
    P = np.stack([xx.ravel() - c, c - yy.ravel()])        # target points
    Q = np.round(m).T @ P                                 # source points g^-1 p
    sx = np.round(Q[0] + c).astype(int)
    sy = np.round(c - Q[1]).astype(int)
    return x[..., sy, sx].reshape(x.shape)
