"""P15: field tensors against a list-of-typed-arrays model: all operation sequences up to a depth, all slices, all splits,
all pairs of types, and the group action for all pairs of lattice symmetries."""
import copy
import itertools
import math
import numpy as np
import torch
from mc import ref, reprs, spaces, zoo
from e2cnn import nn
from e2cnn.nn import FieldType, GeometricTensor, tensor_directsum

PID = 'P15'
BOUNDS = {
    'quick': 'operation sequences of length 3 over 38 operations on two registers (4 symmetry spaces, fields of sizes 1,2,2,4); every field slice with start/stop in {None,-6..6} and step in {None,1,2,3,-1,-2} and every integer on lists of 1-4 fields; all combinations of 9 indices per axis with ellipses; all lists of breaks; all index lists, labellings and orders of field types of up to 4 fields; all pairs of 12 types; transform for all pairs of lattice symmetries of 14 spaces on 3x3 to 6x6 and rectangular grids, angles also a few ulps away from the quarter turns',
    'thorough': 'operation sequences of length 4 (2 spaces) and 3 (8 spaces); the rest with grids up to 9x9 and slices on lists of up to 5 fields',
}
ASSUMPTIONS = ['float32 tensors on the CPU', 'whether a slice or a split shares memory with the original is not part of the property']
TECHNIQUE = 'explicit-state exploration of all operation sequences up to a depth on the real tensors in lock-step with a reference model (list of typed arrays)'

TR, REG, I = zoo.TR, zoo.REG, zoo.I
FIELDS = {'C4': (zoo.C4, [I(1), TR, REG, I(1)], 2), 'D4': (zoo.D4, [TR, I(1, 1), ['quot', [None, 2]], I(1, 0)], [0, 1]),
          'O2': (zoo.O2, [I(1, 2), I(0, 0), I(1, 1), I(1, 0)], [None, 4]), 'D2': (['fliprot', 2, None, .25], [REG, I(1, 1), TR, I(0, 1)], [None, 2]),
          'SO2': (zoo.SO2, [I(2), TR, I(1)], 4), 'F': (['flip', 0.], [REG, I(1), TR], 1), 'C2': (zoo.C2, [I(1), REG, TR, REG], 1),
          'D3': (zoo.D3, [I(1, 1), TR, REG], [1, 1])}


def cases(tier):
    out = []
    nops = len(OPS)
    for k in (['C4', 'D4', 'O2', 'D2'] if tier == 'quick' else list(FIELDS)):
        for a in range(nops):
            out.append({'kind': 'seq', 'space': k, 'first': a, 'depth': 4 if tier != 'quick' and k in ('C4', 'D4') else 3})
    for k in FIELDS:
        for n in range(1, 5 if tier == 'quick' else 6):
            out.append({'kind': 'slice', 'space': k, 'n': n})
    for k in ('C4', 'D4', 'D3'):
        out.append({'kind': 'index', 'space': k})
        out.append({'kind': 'split', 'space': k})
    for k in FIELDS:
        out.append({'kind': 'type', 'space': k})
    out.append({'kind': 'mix'})
    sp = [['triv'], ['flip', 0.], ['flip', .5], ['flip', .25], ['rot', 2, None], ['rot', 4, None], ['rot', 8, None], ['rot', -1, 2], ['fliprot', 2, None, .25], ['fliprot', 4, None, 0.], ['fliprot', 4, None, .5], ['fliprot', 8, None, .125],
          ['fliprot', 3, None, .75], ['fliprot', -1, 2, .5], ['fliprot', -1, 2, .25], ['fliprot', -1, 1, 0.], ['flip', 1.25], ['fliprot', 4, None, -.25]]
    for s in sp:
        out.append({'kind': 'action', 's': s, 'tier': tier})
    return out


def cost(c):
    return {'seq': 5 if c.get('depth') == 3 else 50, 'action': 8}.get(c['kind'], 1)


# ------------------------------------------------------------------------------------------------- the model
class M:
    """A tensor as a list of (representation, array) pairs."""

    def __init__(self, s, fields):
        self.s, self.f = s, fields

    def array(self):
        return np.concatenate([a for _, a in self.f], 1)


def lattice(m, x):
    """[g.x](p) = x(g^-1 p) for an isometry m of the (centred) pixel grid, also for rectangular images."""
    H, W = x.shape[-2:]
    m = np.round(m)
    h, w = (W, H) if m[0, 0] == 0 else (H, W)
    yy, xx = np.mgrid[0:h, 0:w]
    P = np.stack([xx.ravel() - (w - 1) / 2., (h - 1) / 2. - yy.ravel()])
    Q = m.T @ P
    sx = np.round(Q[0] + (W - 1) / 2.).astype(int)
    sy = np.round((H - 1) / 2. - Q[1]).astype(int)
    return x[..., sy, sx].reshape(x.shape[:-2] + (h, w))


class Ctx:
    def __init__(self, key):
        self.s, self.fd, self.sub = FIELDS[key]
        self.gs = spaces.build(self.s)
        self.g = spaces.group(self.s)
        self.reps = [zoo.field(self.gs, f) for f in self.fd]
        els = ref.elements(self.g, 8)
        lat = [e for e in els if spaces.is_lattice(spaces.plane(self.s, e))]
        self.els, self.lat = els, lat
        self.e1 = lat[1] if len(lat) > 1 else lat[0]      # a rotation (or the only symmetry)
        self.e2 = lat[-1]
        self.e3 = els[1 % len(els)]

    def tensor(self, fields, k, shape=(2, 3, 3)):
        b, h, w = shape
        c = sum(self.reps[i].size for i in fields)
        x = zoo.image(b, c, h, w, k)
        t = GeometricTensor(x.clone(), FieldType(self.gs, [self.reps[i] for i in fields]))
        out, p = [], 0
        for i in fields:
            out.append((self.reps[i], x[:, p:p + self.reps[i].size].numpy().astype(np.float64)))
            p += self.reps[i].size
        return t, M(self.gs, out)


def mats(r, e):
    return np.asarray(r(e), dtype=np.float64)


def m_transform(c, m, e, space=True):
    # the model keeps its own gspace; after a restriction the element is read in the restricted group
    out = []
    for r, a in m.f:
        v = np.einsum('oi,bi...->bo...', mats(r, e), a)
        if space:
            v = lattice(c.plane_of(m, e), v)
        out.append((r, v))
    return M(m.s, out)


# Each operation: (name, applicable on the model?, run on the library, run on the model).  `None` from the model: must be refused
def op_slice(idx):
    def lib(c, A, B):
        return A[idx], B

    def mod(c, A, B):
        ix = idx if isinstance(idx, tuple) else (idx,)
        full = list(ix)
        if Ellipsis in full:
            p = full.index(Ellipsis)
            full[p:p + 1] = [slice(None)] * (4 - (len(full) - 1))
        full += [slice(None)] * (4 - len(full))
        n = len(A.f)
        keep = list(range(n))[full[1]] if isinstance(full[1], slice) else ([full[1] % n] if -n <= full[1] < n else [])
        if not keep:
            return None
        arr = A.f[0][1]
        rest = []
        for ax in (0, 2, 3):
            j = full[ax]
            L = arr.shape[ax]
            if isinstance(j, slice):
                rest.append(list(range(L))[j])
            else:
                if not -L <= j < L:
                    return 'skip'
                rest.append([j % L])
        if any(not q for q in rest):
            return 'skip'
        return M(A.s, [(A.f[i][0], A.f[i][1][rest[0]][:, :, rest[1]][:, :, :, rest[2]]) for i in keep]), B
    return lib, mod


def op_split(breaks, k):
    def lib(c, A, B):
        return A.split(breaks if breaks is None else list(breaks))[k], B

    def mod(c, A, B):
        n = len(A.f)
        br = list(range(1, n)) if breaks is None else list(breaks)
        if any(b >= n or b <= 0 for b in br):
            return None
        ends = [0] + br + [n]
        if not -(len(ends) - 1) <= k < len(ends) - 1:
            return 'skip'
        k2 = k % (len(ends) - 1)
        return M(A.s, A.f[ends[k2]:ends[k2 + 1]]), B
    return lib, mod


def same_type(A, B):
    return A.s is B.s and len(A.f) == len(B.f) and all(a[0] is b[0] for a, b in zip(A.f, B.f))


def same_shape(A, B):
    x, y = A.f[0][1].shape, B.f[0][1].shape
    return x[0] == y[0] and x[2:] == y[2:]


def op_sum(which):
    def lib(c, A, B):
        return tensor_directsum([{'A': A, 'B': B}[w] for w in which]), B

    def mod(c, A, B):
        xs = [{'A': A, 'B': B}[w] for w in which]
        if any(x.s is not xs[0].s or not same_shape(x, xs[0]) for x in xs):
            return None
        if sum(len(x.f) for x in xs) > 9:
            return 'skip'
        return M(A.s, [f for x in xs for f in x.f]), B
    return lib, mod


def op_arith(sign, inplace, flip=False):
    def lib(c, A, B):
        if inplace:
            if sign > 0:
                A += B
            else:
                A -= B
            return A, B
        x, y = (B, A) if flip else (A, B)
        return (x + y if sign > 0 else x - y), B

    def mod(c, A, B):
        if not same_type(A, B):
            return None
        if not same_shape(A, B):
            return 'skip'           # broadcasting between different batches or grids is not specified
        x, y = (B, A) if flip else (A, B)
        return M(A.s, [(p[0], p[1] + sign * q[1]) for p, q in zip(x.f, y.f)]), B
    return lib, mod


def op_scale(v, how):
    def lib(c, A, B):
        s = torch.tensor(v) if how in ('t', 'it') else v
        if how == 'r':
            return s * A, B
        if how in ('i', 'it'):
            A *= s
            return A, B
        return A * s, B

    def mod(c, A, B):
        return M(A.s, [(r, a * v) for r, a in A.f]), B
    return lib, mod


def op_transform(which, space):
    def lib(c, A, B):
        e = getattr(c, which)
        return (A.transform(e) if space else A.transform_fibers(e)), B

    def mod(c, A, B):
        e = getattr(c, which)
        if A.s is not c.gs:
            return 'skip'
        m = spaces.plane(c.s, e)
        out = []
        for r, a in A.f:
            v = np.einsum('oi,bihw->bohw', mats(r, e), a)
            out.append((r, lattice(m, v) if space else v))
        return M(A.s, out), B
    return lib, mod


def op_restrict():
    def lib(c, A, B):
        return A.restrict(zoo.tup(c.sub)), B.restrict(zoo.tup(c.sub))

    def mod(c, A, B):
        if A.s is not c.gs or B.s is not c.gs:
            return 'skip'
        if not hasattr(c, 'rs'):
            c.rs = c.gs.restrict(zoo.tup(c.sub))[0]
            c.rr = {}
        def rst(X):
            out = []
            for r, a in X.f:
                if r not in c.rr:
                    c.rr[r] = c.gs.fibergroup.restrict_representation(zoo.tup(c.sub), r)
                out.append((c.rr[r], a))
            return M(c.rs, out)
        return rst(A), rst(B)
    return lib, mod


def op_swap():
    return (lambda c, A, B: (B, A)), (lambda c, A, B: (B, A))


S = slice
OPS = [('[:,0]', op_slice((S(None), 0))), ('[:,-1]', op_slice((S(None), -1))), ('[:,1:]', op_slice((S(None), S(1, None)))),
       ('[:,:-1]', op_slice((S(None), S(None, -1)))), ('[:,::2]', op_slice((S(None), S(None, None, 2)))), ('[:,::-1]', op_slice((S(None), S(None, None, -1)))),
       ('[:,-3:-1]', op_slice((S(None), S(-3, -1)))), ('[:,1::2]', op_slice((S(None), S(1, None, 2)))), ('[:,2:0:-1]', op_slice((S(None), S(2, 0, -1)))),
       ('[0]', op_slice(0)), ('[-1:]', op_slice(S(-1, None))), ('[...,1:]', op_slice((Ellipsis, S(1, None)))), ('[:,:,::2]', op_slice((S(None), S(None), S(None, None, 2)))),
       ('[0,...,-1]', op_slice((0, Ellipsis, -1))), ('[:,1,0]', op_slice((S(None), 1, 0))),
       ('split()[0]', op_split(None, 0)), ('split()[-1]', op_split(None, -1)), ('split([1])[0]', op_split([1], 0)), ('split([1])[1]', op_split([1], 1)),
       ('split([1,2])[1]', op_split([1, 2], 1)), ('split([2])[1]', op_split([2], 1)), ('A(+)B', op_sum('AB')), ('B(+)A', op_sum('BA')), ('A(+)A(+)B', op_sum('AAB')),
       ('A(+)', op_sum('A')), ('A+B', op_arith(1, False)), ('A-B', op_arith(-1, False)), ('B-A', op_arith(-1, False, True)), ('A+=B', op_arith(1, True)), ('A-=B', op_arith(-1, True)),
       ('A*2.', op_scale(2., 'f')), ('-.5*A', op_scale(-.5, 'r')), ('A*t', op_scale(3., 't')), ('A*=', op_scale(-2., 'i')),
       ('T1', op_transform('e1', True)), ('T2', op_transform('e2', True)), ('F3', op_transform('e3', False)), ('restrict', op_restrict()), ('swap', op_swap())]


def same(mon, t, m, what, path):
    a = m.array()
    ok = mon.check(tuple(t.shape) == a.shape and tuple(t.size()) == a.shape and isinstance(t, GeometricTensor), what + ':shape', lambda: (path, tuple(t.shape), a.shape))
    if not ok:
        return False
    ok = mon.check(t.type.gspace == m.s and list(t.type.representations) == [r for r, _ in m.f], what + ':type', lambda: (path, t.type, [r.name for r, _ in m.f]))
    return mon.check(bool(np.abs(t.tensor.detach().numpy() - a).max() <= 1e-4 * (1 + np.abs(a).max())), what + ':values', lambda: (path, t.tensor.numpy().ravel()[:8], a.ravel()[:8])) and ok


def snap(t):
    return GeometricTensor(t.tensor.clone(), t.type)


def run_seq(case, mon):
    c = Ctx(case['space'])
    n = len(c.reps)
    A, mA = c.tensor(list(range(n)), 0)
    B, mB = c.tensor(list(range(n)), 5)

    def step(A, mA, B, mB, i, path, depth):
        name, (lib, mod) = OPS[i]
        r = mod(c, mA, mB)
        if r == 'skip':
            return
        path = path + [name]
        a, b = snap(A), snap(B)
        a0, b0 = a.tensor.clone(), b.tensor.clone()
        ta, tb = list(a.type.representations), list(b.type.representations)
        ptr = a.tensor.data_ptr()
        mon.trans()
        try:
            na, nb = lib(c, a, b)
        except Exception as e:
            mon.check(r is None, 'refused:' + name, lambda: (path, repr(e)[:200]))
            mon.check(torch.equal(a.tensor, a0) and torch.equal(b.tensor, b0), 'changed-by-refused:' + name, lambda: path)
            mon.outcome('refused', name)
            return
        if r is None:
            mon.fail('not-refused:' + name, (path, na.shape, na.type))
            return
        ra, rb = r
        ok = same(mon, na, ra, 'A after ' + name, path) and same(mon, nb, rb, 'B after ' + name, path)
        # arguments: only the target of an in-place operation changes, and it is the tensor returned
        if '=' in name:
            mon.check(na is a and a.tensor.data_ptr() == ptr, 'inplace-target:' + name, lambda: path)
        else:
            mon.check(torch.equal(a.tensor, a0), 'argument-changed:' + name, lambda: path)
            mon.check(list(a.type.representations) == ta, 'argument-type-changed:' + name, lambda: path)
        mon.check(torch.equal(b.tensor, b0) and list(b.type.representations) == tb, 'argument-B-changed:' + name, lambda: path)
        mon.trace()
        if depth == 1:
            # results of computations own their memory: writing to them leaves the operands alone
            if name[0] in 'A-BTF' and '=' not in name:
                na.tensor.add_(1.)
                mon.check(torch.equal(a.tensor, a0) and torch.equal(b.tensor, b0), 'aliased:' + name, lambda: path)
            mon.state(path[-2:], [x.name for x, _ in ra.f], ra.array().shape)
        if ok and depth > 1:
            for j in range(len(OPS)):
                step(na, ra, nb, rb, j, path, depth - 1)
    step(A, mA, B, mB, case['first'], [], case['depth'])


def run_slice(case, mon):
    c = Ctx(case['space'])
    n = len(c.reps)
    k = case['n']
    lists = sorted(set(itertools.permutations(range(n), min(k, n)))) if k <= n else [tuple(range(n)) + (0,) * (k - n)]
    lists = lists[::max(1, len(lists) // 3)] + [tuple([0, 1] * 3)[:k]]
    vals = [None] + list(range(-6, 7))
    for l in dict.fromkeys(lists):
        t, m = c.tensor(l, 1, (2, 2, 3))
        for idx in list(range(-7, 8)) + [slice(a, b, s) for a in vals for b in vals for s in (None, 1, 2, 3, -1, -2)]:
            for full in ((slice(None), idx), (slice(None), idx, Ellipsis), (Ellipsis, idx, slice(None), slice(None))):
                lib, mod = op_slice(full)
                one(mon, c, t, m, lib, mod, 'slice', (l, str(idx)))
                if not isinstance(idx, int) and full[0] is not Ellipsis:
                    break


def one(mon, c, t, m, lib, mod, what, detail):
    r = mod(c, m, m)
    if r == 'skip':
        return
    mon.trans()
    x0 = t.tensor.clone()
    try:
        o, _ = lib(c, t, t)
    except Exception as e:
        mon.check(r is None, what + ':refused', lambda: (detail, repr(e)[:200]))
        mon.outcome(what, 'refused')
        return
    if r is None:
        mon.fail(what + ':not-refused', (detail, o.shape))
        return
    same(mon, o, r[0], what, detail)
    mon.check(torch.equal(t.tensor, x0), what + ':argument-changed', lambda: detail)
    mon.state(what, detail)
    mon.trace()


def run_index(case, mon):
    c = Ctx(case['space'])
    n = len(c.reps)
    t, m = c.tensor(list(range(n)), 2, (3, 4, 3))
    al = [0, -1, slice(None), slice(1, None), slice(None, -1), slice(None, None, 2), slice(1, 2), slice(-2, None), 1]
    fa = al + [slice(None, None, -1)]
    for b, f, h, w in itertools.product(al, fa, al, al):
        for full in ((b,), (b, f), (b, f, h), (b, f, h, w)):
            if len(full) < 4 and (w is not al[0] or (len(full) < 3 and h is not al[0]) or (len(full) < 2 and f is not fa[0])):
                continue
            forms = [full if len(full) > 1 else full[0]]
            if len(full) == 4 and h == slice(None) and w == slice(None):
                forms += [(b, f, Ellipsis), (b, f, h, Ellipsis)]
            if len(full) == 4 and b == slice(None) and f == slice(None):
                forms += [(Ellipsis, h, w), (slice(None), Ellipsis, h, w)]
            if len(full) == 4 and h == slice(None) and f == slice(None):
                forms += [(b, Ellipsis, w), (b, Ellipsis, h, w)]
            if len(full) == 4 and b == slice(None) and f == slice(None) and h == slice(None):
                forms += [(Ellipsis, w)]
            for fm in forms:
                lib, mod = op_slice(fm)
                one(mon, c, t, m, lib, mod, 'index', str(fm))
    o = t[...]
    same(mon, o, m, 'ellipsis', '...')
    for bad in ((0, 0, 0, 0, 0), [0, 1], torch.tensor([0]), 'x', None, 1.5, (slice(None), [0, 1])):
        try:
            t[bad]
            mon.fail('index:not-refused', str(bad))
        except Exception:
            mon.trans()


def run_split(case, mon):
    c = Ctx(case['space'])
    n = len(c.reps)
    for l in itertools.chain.from_iterable(itertools.permutations(range(n), k) for k in range(1, n + 1)):
        t, m = c.tensor(l, 3, (2, 2, 2))
        k = len(l)
        for br in [None] + [list(x) for j in range(0, 4) for x in itertools.product(range(-1, k + 2), repeat=j)]:
            exp = list(range(1, k)) if br is None else list(br)
            good = all(x < y for x, y in zip([0] + exp, exp + [k]))
            arg = None if br is None else list(br)
            mon.trans()
            try:
                parts = t.split(arg)
            except Exception as e:
                mon.check(not good, 'split:refused', lambda: (l, br, repr(e)))
                continue
            if not good:
                # breaks outside of the list of fields or not increasing: there is no such split
                mon.fail('split:not-refused', (l, br, [p.type for p in parts]))
                continue
            mon.check(arg == br, 'split:argument-changed', lambda: (br, arg))
            ends = [0] + exp + [k]
            if mon.check(len(parts) == len(ends) - 1, 'split:number', lambda: (l, br, len(parts))):
                for p, a, b in zip(parts, ends, ends[1:]):
                    same(mon, p, M(m.s, m.f[a:b]), 'split', (l, br))
                if len(parts) > 1:
                    same(mon, tensor_directsum(parts), m, 'split+directsum', (l, br))
            mon.state(l, br)
            mon.trace()


def run_type(case, mon):
    c = Ctx(case['space'])
    n = len(c.reps)
    els = c.els
    for k in range(1, min(n, 4) + 1):
        for l in itertools.product(range(n), repeat=k):
            if k == 4 and len(set(l)) < 3:
                continue
            rs = [c.reps[i] for i in l]
            given = list(rs)
            t = FieldType(c.gs, given)
            starts = np.cumsum([0] + [r.size for r in rs])
            mon.trans()
            mon.check(len(t) == k and list(t) == rs and list(t.representations) == rs and t.size == starts[-1] and t.fibergroup == c.gs.fibergroup, 'type:list', lambda: l)
            mon.check([int(x) for x in t.fields_start] == list(starts[:-1]) and [int(x) for x in t.fields_end] == list(starts[1:]), 'type:positions', lambda: (l, t.fields_start, t.fields_end))
            mon.check(list(t.fields_names()) == [r.name for r in rs], 'type:names', lambda: l)
            mon.check(list(t.irreps) == [i for r in rs for i in r.irreps], 'type:irreps', lambda: l)
            st = t.sorted()
            exp = sorted(range(k), key=lambda i: rs[i].size)
            mon.check(list(st.representations) == [rs[i] for i in exp], 'type:sorted', lambda: (l, st))
            if k <= 3:
                for e in (els if len(els) < 17 else els[:16]):
                    v = np.asarray(t.representation(e))
                    w = np.zeros_like(v)
                    for r, a, b in zip(rs, starts, starts[1:]):
                        w[a:b, a:b] = r(e)
                    mon.check(np.abs(v - w).max() < 1e-6, 'type:representation', lambda: (l, e))
                Q = np.asarray(t.get_dense_change_of_basis()); Qi = np.asarray(t.get_dense_change_of_basis_inv())
                w = np.zeros_like(Q); wi = np.zeros_like(Q)
                for r, a, b in zip(rs, starts, starts[1:]):
                    w[a:b, a:b] = r.change_of_basis
                    wi[a:b, a:b] = r.change_of_basis_inv
                mon.check(np.abs(Q - w).max() < 1e-6 and np.abs(Qi - wi).max() < 1e-6, 'type:change_of_basis', lambda: l)
                for j in range(1, 4):
                    for ix in itertools.product(range(-1, k + 1), repeat=j):
                        good = all(0 <= i < k for i in ix)
                        arg = list(ix)
                        mon.trans()
                        try:
                            o = t.index_select(arg)
                        except Exception as e:
                            mon.check(not good, 'index_select:refused', lambda: (l, ix, repr(e)))
                            continue
                        mon.check(good, 'index_select:not-refused', lambda: (l, ix, o))
                        mon.check(list(o.representations) == [rs[i] for i in ix] and arg == list(ix), 'index_select', lambda: (l, ix, o))
            for lab in itertools.product('xyz', repeat=k):
                arg = list(lab)
                o = t.group_by_labels(arg)
                mon.trans()
                mon.check(set(o) == set(lab) and arg == list(lab) and all(list(o[q].representations) == [r for r, p in zip(rs, lab) if p == q] for q in o), 'group_by_labels', lambda: (l, lab, o))
            mon.check(t.representations == rs and given == rs, 'type:changed', lambda: l)
            mon.state(l)
            mon.trace()
            if k <= 2:
                for l2 in itertools.product(range(n), repeat=2):
                    u = FieldType(c.gs, [c.reps[i] for i in l2])
                    v = t + u
                    mon.check(list(v.representations) == rs + [c.reps[i] for i in l2] and v.size == t.size + u.size and list(t.representations) == rs and len(u) == 2, 'type:+', lambda: (l, l2))
    # labels of the wrong number, empty types, representations of another group
    t = FieldType(c.gs, list(c.reps))
    other = spaces.build(['fliprot', 5, None, 0.])
    for what, fn in (('labels', lambda: t.group_by_labels(['a'] * (n + 1))), ('labels', lambda: t.group_by_labels(['a'] * (n - 1))),
                     ('empty', lambda: FieldType(c.gs, [])), ('group', lambda: FieldType(c.gs, [other.regular_repr])), ('group', lambda: FieldType(other, list(c.reps))),
                     ('+', lambda: t + FieldType(other, [other.regular_repr]))):
        try:
            fn()
            mon.fail('type:not-refused', what)
        except Exception:
            mon.trans()


def run_mix(case, mon):
    """All ordered pairs of types: equal types are combined, others refused."""
    g4 = spaces.build(zoo.C4)
    ts = []
    for s in (zoo.C4, ['rot', 2, None], ['rot', -1, 2], ['fliprot', 4, None, .5], ['fliprot', 4, None, 0.], ['fliprot', 4, None, .25], ['fliprot', 2, None, .5], ['flip', .5], ['flip', 0.], ['triv']):
        gs = spaces.build(s)
        ts.append((s, [0] * 4, FieldType(gs, [gs.trivial_repr] * 4)))
    for name, f in (('v', [I(1), TR, TR]), ('v2', [TR, I(1), TR]), ('vv', [I(1), I(1)]), ('r', [REG]), ('ii', [I(2), TR, TR, TR]), ('q', [['quot', 2], ['quot', 2]])):
        ts.append((zoo.C4, name, FieldType(g4, [zoo.field(g4, x) for x in f])))
    x = {i: zoo.image(1, 4, 3, 3, i) for i in range(len(ts))}
    for i, (s1, n1, a) in enumerate(ts):
        for j, (s2, n2, b) in enumerate(ts):
            eq = (s1, n1) == (s2, n2)
            for op in ('+', '-', '+=', '-=', 'sum', 'type+'):
                u, v = GeometricTensor(x[i].clone(), a), GeometricTensor(x[j].clone(), b)
                mon.trans()
                mon.state(i, j, op)
                ok = eq if op not in ('sum', 'type+') else s1 == s2
                try:
                    if op == '+':
                        r = u + v
                    elif op == '-':
                        r = u - v
                    elif op == '+=':
                        r = u
                        r += v
                    elif op == '-=':
                        r = u
                        r -= v
                    elif op == 'sum':
                        r = tensor_directsum([u, v])
                    else:
                        r = a + b
                except Exception as e:
                    mon.check(not ok, 'mix:refused', lambda: (s1, n1, s2, n2, op, repr(e)))
                    mon.check(torch.equal(u.tensor, x[i]), 'mix:changed', lambda: (op,))
                    mon.outcome('mix refused', op)
                    continue
                mon.check(ok, 'mix:not-refused', lambda: (s1, n1, s2, n2, op))
                mon.outcome('mix ok', op)
            mon.trace()
        # tensors whose channels do not match the type
        for c in (1, 3, 5, 8):
            try:
                GeometricTensor(torch.zeros(1, c, 3, 3), a)
                mon.fail('wrap:not-refused', (s1, c))
            except Exception:
                mon.trans()
    # direct sums of tensors of different shapes; products with more than one number
    t = ts[0][2]
    A = GeometricTensor(torch.ones(2, 4, 3, 3), t)
    for shape in ((1, 4, 3, 3), (2, 4, 3, 2), (2, 4, 2, 3)):
        try:
            tensor_directsum([A, GeometricTensor(torch.ones(*shape), t)])
            mon.fail('directsum:not-refused', shape)
        except Exception:
            mon.trans()
    for bad in (torch.ones(2), torch.ones(2, 4, 3, 3), A):
        for f in (lambda: A * bad, lambda: A.__imul__(bad), lambda: bad * A if isinstance(bad, GeometricTensor) else A * bad):
            try:
                f()
                mon.fail('mul:not-refused', str(type(bad)))
            except Exception:
                mon.trans()


def rep_alphabet(s, gs):
    g = spaces.group(s)
    ids = reprs.irrep_ids(g)
    out = [I(*i) for i in ids[:5]]
    if g[0] in ('C', 'D') and g[1] <= 8:
        out.append(REG)
    return out


def run_action(case, mon):
    s, tier = case['s'], case['tier']
    gs = spaces.build(s)
    g = spaces.group(s)
    els = ref.elements(g, 8)
    lat = [e for e in els if spaces.is_lattice(spaces.plane(s, e))]
    fields = rep_alphabet(s, gs)
    t = FieldType(gs, [zoo.field(gs, f) for f in fields])
    rho = {}
    for e in els:
        vs = [reprs.value(g, f, e) for f in fields]
        n = sum(len(v) for v in vs)
        m = np.zeros((n, n))
        p = 0
        for v in vs:
            m[p:p + len(v), p:p + len(v)] = v
            p += len(v)
        rho[e] = m
    sizes = [(3, 3), (4, 4), (5, 5), (6, 6), (1, 1), (3, 5), (4, 2)] + ([(7, 7), (8, 8), (9, 9), (2, 7)] if tier != 'quick' else [])
    # the identity and every lattice symmetry, compared with the written-out permutation of pixels
    for h, w in sizes:
        x = zoo.image(2, t.size, h, w, h)
        X = GeometricTensor(x.clone(), t)
        for e in lat:
            variants = [e]
            if g[0] in ('SO2', 'O2'):
                r = e if g[0] == 'SO2' else e[1]
                for q in (r, r + 2 * math.pi, np.nextafter(r, 10), np.nextafter(r, -10), np.nextafter(np.nextafter(r, 10), 10), r + 4e-13, r - 4e-13):
                    variants.append(q if g[0] == 'SO2' else (e[0], q))
            exp = lattice(spaces.plane(s, e), np.einsum('oi,bi...->bo...', rho[e], x.numpy().astype(float)))
            for v in variants:
                if not gs.fibergroup.is_element(v):
                    continue
                y = X.transform(v)
                mon.trans()
                mon.check(y.type == t and tuple(y.shape) == exp.shape and np.abs(y.tensor.numpy() - exp).max() < 1e-5, 'transform', lambda: (s, (h, w), v, np.abs(y.tensor.numpy() - exp).max() if tuple(y.shape) == exp.shape else (y.shape, exp.shape)))
                mon.check(torch.equal(X.tensor, x), 'transform:argument-changed', lambda: (s, v))
                mon.state(s, h, w, str(v))
            z = t.transform(x, e)
            mon.check(np.abs(z.numpy() - exp).max() < 1e-5, 'type.transform', lambda: (s, (h, w), e))
        i = X.transform(gs.fibergroup.identity)
        mon.check(np.abs(i.tensor.numpy() - x.numpy()).max() < 1e-6, 'identity', lambda: (s, h, w))
    # all pairs: T(a) T(b) = T(ab)
    x = zoo.image(1, t.size, 4, 4, 1)
    X = GeometricTensor(x, t)
    for b in lat:
        Y = X.transform(b)
        for a in lat:
            ab = gs.fibergroup.combine(a, b)
            d = (Y.transform(a).tensor - X.transform(ab).tensor).abs().max()
            mon.trans()
            mon.trace()
            mon.check(d < 1e-4, 'action', lambda: (s, a, b, ab, float(d)))
    # fibers: all elements, all pairs
    for b in els:
        Y = X.transform_fibers(b)
        exp = np.einsum('oi,bi...->bo...', rho[b], x.numpy().astype(float))
        mon.check(np.abs(Y.tensor.numpy() - exp).max() < 1e-4 and Y.type == t, 'fibers', lambda: (s, b))
        for a in els:
            d = (Y.transform_fibers(a).tensor - X.transform_fibers(gs.fibergroup.combine(a, b)).tensor).abs().max()
            mon.trans()
            mon.check(d < 1e-4, 'fibers:action', lambda: (s, a, b, float(d)))
    # elements off the lattice still act channel by channel on the fibers with the documented rotation (checked on constant images' centre)
    y64 = GeometricTensor(x, t).to(torch.float64)
    mon.check(y64.type == t and y64.tensor.dtype == torch.float64 and torch.equal(y64.tensor.float(), x), 'to', lambda: s)


def run_case(case, mon):
    {'seq': run_seq, 'slice': run_slice, 'index': run_index, 'split': run_split, 'type': run_type, 'mix': run_mix, 'action': run_action}[case['kind']](case, mon)


def finish(tot, outcomes, tier):
    need = ["('mix refused', '+')", "('mix ok', 'sum')", "('slice', 'refused')"]
    miss = [n for n in need if n not in outcomes]
    return 'outcomes never seen: %s' % miss if miss else None
