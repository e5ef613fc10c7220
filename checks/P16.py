"""P16: structural modules: all labellings, permutations, module assignments and container histories in the bound, against a
list-of-fields model; images have pairwise different values, so a wrong route of any channel is visible."""
import itertools
import numpy as np
import torch
from collections import OrderedDict
from mc import ref, reprs, spaces, zoo
from e2cnn import nn
from e2cnn.nn import FieldType, GeometricTensor, EquivariantModule

PID = 'P16'
BOUNDS = {
    'quick': 'branching and per-label processing: all lists of up to 4 fields over 3 representations (2 spaces) x all labellings with up to 3 labels x reshuffling 0-3, lists of 5 and 6 fields x all labellings with two labels; module assignments: all orders of the labels, module kinds {identity, scaling, field permuting, two-input, size changing}; all permutations of up to 5 fields; disentangling of all lists of up to 3 fields over 9 representations (5 spaces), restriction of 6 spaces to all subgroups, all group elements; sequences of up to 4 modules; all histories of 3 operations on a module list',
    'thorough': 'lists of 5 fields and 4 labels, all permutations of 6 fields, disentangling of lists of 4 fields, histories of 4 operations',
}
ASSUMPTIONS = ['float32 tensors on the CPU', 'within one field type different representations have different names']
TECHNIQUE = 'exhaustive enumeration of labellings, permutations, assignments and operation histories on the real modules, in lock-step with a list-of-fields model'

TR, REG, I = zoo.TR, zoo.REG, zoo.I
LISTS = {'C4': (zoo.C4, [TR, I(1), REG]), 'O2': (zoo.O2, [I(1, 1), I(1, 0), I(1, 2)])}


class Scale(EquivariantModule):
    """A user's module."""
    def __init__(self, t, c):
        super().__init__()
        self.in_type = self.out_type = t
        self.c = c

    def forward(self, x):
        assert x.type == self.in_type
        return GeometricTensor(x.tensor * self.c, self.out_type)

    def evaluate_output_shape(self, s):
        return tuple(s)


class Pair(EquivariantModule):
    """A module with two inputs: returns the fields of the second scaled, then the fields of the first."""
    def __init__(self, t, u):
        super().__init__()
        self.in_type = (t, u)
        self.out_type = u + t

    def forward(self, x, y):
        assert x.type == self.in_type[0] and y.type == self.in_type[1]
        return GeometricTensor(torch.cat([3 * y.tensor, x.tensor], 1), self.out_type)

    def evaluate_output_shape(self, s, r):
        return (s[0], s[1] + r[1]) + tuple(s[2:])


def cases(tier):
    out = []
    L = 4 if tier == 'quick' else 5
    for k, (s, fs) in LISTS.items():
        for n in range(1, L + 1):
            for l in itertools.product(range(len(fs)), repeat=n):
                out.append((k, l))
    for n in (5, 6) if tier == 'quick' else (6, 7):
        for k in LISTS:
            for l in ((0, 1, 2, 1, 0, 2, 1), (1, 1, 0, 2, 2, 0, 1), (2, 0, 2, 0, 1, 1, 2)):
                out.append((k, l[:n]))
    n = 12
    out = [{'kind': 'branch', 'labels': 3 if tier == 'quick' else 4, 'part': out[i:i + n]} for i in range(0, len(out), n)]
    for k in LISTS:
        out.append({'kind': 'reshuffle', 'space': k, 'n': 5 if tier == 'quick' else 6})
    for i, (s, rs) in enumerate(DIS):
        for a in range(len(rs)):
            out.append({'kind': 'dis', 'i': i, 'first': a, 'n': 3 if tier == 'quick' else 4})
    for i in range(len(RST)):
        out.append({'kind': 'restrict', 'i': i})
    out += [{'kind': 'seq'}, {'kind': 'refuse'}]
    for a in range(NOPS):
        out.append({'kind': 'list', 'first': a, 'depth': 3 if tier == 'quick' else 4})
    return out


def fields(t, x):
    """array -> list of (representation, array)."""
    out, p = [], 0
    for r in t.representations:
        out.append((r, x[:, p:p + r.size]))
        p += r.size
    assert p == x.shape[1]
    return out


def agree(mon, y, exp, what, detail):
    """exp: list of (representation, array)."""
    ok = mon.check(isinstance(y, GeometricTensor) and list(y.type.representations) == [r for r, _ in exp], what + ':type', lambda: (detail(), y.type))
    e = torch.cat([a for _, a in exp], 1)
    return mon.check(y.tensor.shape == e.shape and bool((y.tensor - e).abs().max() < 1e-5), what + ':values', lambda: (detail(), y.tensor[0, :, 0, 0], e[0, :, 0, 0])) and ok


def order(labels, reps, resh):
    """Positions of the fields after the documented sorting."""
    p = list(range(len(labels)))
    if resh == 1:
        p.sort(key=lambda i: labels[i])
    elif resh == 2:
        p.sort(key=lambda i: (labels[i], reps[i].size))
    elif resh == 3:
        p.sort(key=lambda i: (labels[i], reps[i].size, reps[i].name))
    return p


def run_branch(case, mon):
    for k, l in case['part']:
        s, fs = LISTS[k]
        gs = spaces.build(s)
        rs = [zoo.field(gs, fs[i]) for i in l]
        t = FieldType(gs, list(rs))
        x = zoo.image(2, t.size, 2, 3, sum(l))
        X = GeometricTensor(x.clone(), t)
        F = fields(t, x)
        n = len(l)
        labs = 'bac' if case['labels'] == 3 else 'dbac'
        long = n > (4 if case['labels'] == 3 else 5)
        if long:
            labs = 'ba'             # several separate runs of the same label
        for lab in itertools.product(labs, repeat=n):
            first = [q for q in labs if q in lab]
            if first != list(labs[:len(first)]) and n > 3:
                continue            # labels are interchangeable up to their order: cover all sets only for short lists
            names = [q + '_x' for q in lab]
            used = sorted(set(names))
            for resh in (0, 1, 2, 3):
                p = order(names, rs, resh)
                exp = {q: [F[i] for i in p if names[i] == q] for q in used}
                arg = list(names)
                m = nn.BranchingModule(t, arg, reshuffle=resh)
                mon.trans()
                mon.check(arg == names and list(t.representations) == rs, 'branch:arguments', lambda: (k, l, names))
                y = m(X)
                d = lambda: (k, l, names, resh)
                if not mon.check(isinstance(y, dict) and sorted(y) == used and sorted(m.out_type) == used, 'branch:labels', lambda: (d(), list(y))):
                    continue
                for q in used:
                    agree(mon, y[q], exp[q], 'branch', d)
                    mon.check(m.out_type[q] == y[q].type, 'branch:declared', d)
                mon.check(torch.equal(X.tensor, x), 'branch:input-changed', d)
                mon.state(k, l, names, resh)
                mon.trace()
                if not long or resh < 2:
                    assignments(mon, t, X, x, m, exp, names, used, resh, d, gs)


def assignments(mon, t, X, x, br, exp, names, used, resh, d, gs):
    """MultipleModule and MergeModule for all orders of the labels and several kinds of modules."""
    def module(kind, q):
        tq = FieldType(gs, [r for r, _ in exp[q]])
        n = len(exp[q])
        if kind == 0:
            return nn.IdentityModule(tq), exp[q]
        if kind == 1:
            c = 2. + used.index(q)
            return Scale(tq, c), [(r, c * a) for r, a in exp[q]]
        if kind == 2:
            return nn.ReshuffleModule(tq, list(range(n))[::-1]), exp[q][::-1]
        return nn.SequentialModule(nn.ReshuffleModule(tq, list(range(n))[1:] + [0]), Scale(FieldType(gs, [r for r, _ in exp[q][1:] + exp[q][:1]]), -1.)), [(r, -a) for r, a in exp[q][1:] + exp[q][:1]]
    plans = []
    for j, o in enumerate(itertools.permutations(used)):
        mods, e = [], []
        for i, q in enumerate(o):
            m, f = module((i + j + len(names) + resh) % 4, q)
            mods.append((m, [q] if (i + j) % 3 == 2 else q))
            e += f
        plans.append((mods, e))
        if len(o) >= 2:
            a, b = o[0], o[1]
            pm = Pair(FieldType(gs, [r for r, _ in exp[a]]), FieldType(gs, [r for r, _ in exp[b]]))
            mods, e = [(pm, [a, b])], [(r, 3 * v) for r, v in exp[b]] + list(exp[a])
            for q in o[2:]:
                m, f = module(1, q)
                mods.append((m, q))
                e += f
            if j % 2:
                mods = mods[1:] + mods[:1]
                e = sum([module(1, q)[1] for q in o[2:]], []) + [(r, 3 * v) for r, v in exp[b]] + list(exp[a])
            plans.append((mods, e))
    for mods, e in plans:
        given = [(m, list(q) if isinstance(q, list) else q) for m, q in mods]
        lab = list(names)
        mm = nn.MultipleModule(t, lab, mods, reshuffle=resh)
        mon.trans()
        same = lab == names and len(mods) == len(given) and all(a[0] is b[0] and a[1] == b[1] for a, b in zip(mods, given))
        mon.check(same, 'multiple:arguments', lambda: (d(), [q for _, q in mods], [q for _, q in given]))
        y = mm(X)
        dd = lambda: (d(), [(type(m).__name__, q) for m, q in given])
        agree(mon, y, e, 'multiple', dd)
        mon.check(list(mm.out_type.representations) == [r for r, _ in e], 'multiple:declared', dd)
        mon.check(torch.equal(X.tensor, x), 'multiple:input-changed', dd)
        if resh == 0:
            mg = nn.MergeModule([(m, list(q) if isinstance(q, list) else q) for m, q in given])
            parts = {q: GeometricTensor(torch.cat([a for _, a in f], 1), FieldType(gs, [r for r, _ in f])) for q, f in exp.items()}
            before = {q: p.tensor.clone() for q, p in parts.items()}
            mon.trans()
            for keys in (list(parts), list(parts)[::-1]):
                arg = {q: parts[q] for q in keys}
                agree(mon, mg(arg), e, 'merge', dd)
                mon.check(all(torch.equal(parts[q].tensor, before[q]) for q in parts) and list(arg) == keys, 'merge:arguments', dd)
        mon.trace()


def run_reshuffle(case, mon):
    s, fs = LISTS[case['space']]
    gs = spaces.build(s)
    for n in range(1, case['n'] + 1):
        for l in ((0, 1, 2, 0, 1, 2), (2, 0, 0, 1, 2, 1), (1, 1, 0, 2, 0, 0), (0,) * 6):
            rs = [zoo.field(gs, fs[i]) for i in l[:n]]
            t = FieldType(gs, list(rs))
            x = zoo.image(1, t.size, 2, 2, n)
            X = GeometricTensor(x.clone(), t)
            F = fields(t, x)
            for p in itertools.permutations(range(n)):
                arg = list(p)
                m = nn.ReshuffleModule(t, arg)
                mon.trans()
                d = lambda: (case['space'], l[:n], p)
                agree(mon, m(X), [F[i] for i in p], 'reshuffle', d)
                mon.check(list(m.out_type.representations) == [rs[i] for i in p] and m.in_type == t and arg == list(p) and list(t.representations) == rs and torch.equal(X.tensor, x), 'reshuffle:declared', d)
                # undone by the inverse permutation
                inv = [p.index(i) for i in range(n)]
                agree(mon, nn.ReshuffleModule(m.out_type, inv)(m(X)), F, 'reshuffle:inverse', d)
                mon.state(l[:n], p)
                mon.trace()
            for bad in ([], list(range(n + 1)), list(range(n - 1)), list(range(1, n + 1)), [-1] + list(range(1, n))):
                try:
                    nn.ReshuffleModule(t, bad)
                    mon.fail('reshuffle:not-refused', (l[:n], bad))
                except Exception:
                    mon.trans()


DIS = [
    (zoo.C4, [TR, I(1), REG, ['quot', 2], ['sum', [I(1), TR], 'vs'], ['sumcob', [I(1), TR, I(2)], 'house', 'mixed'], ['sumcob', [I(1), I(1)], 'perm', 'twov'], ['cob', REG, 'sign', 'sreg'], ['sum', [REG, I(2)], 'ri']]),
    (zoo.D4, [I(1, 1), REG, ['quot', [None, 2]], ['quot', [0, 1]], ['sum', [I(1, 0), I(1, 1), I(0, 2)], 'three'], ['sumcob', [I(1, 1), I(1, 0)], 'house', 'vh'], ['induced', [None, 4], [1]]]),
    (['fliprot', 3, None, 0.], [REG, I(1, 1), ['quot', [1, 1]], ['quot', [None, 3]], ['sum', [I(1, 1), I(1, 1)], 'vv'], ['induced', [None, 3], [1]]]),
    (zoo.SO2, [I(1), I(0), ['sum', [I(1), I(2), I(0)], 'all'], ['sumcob', [I(1), I(0)], 'house', 'h'], ['sumcob', [I(2), I(1)], 'perm', 'p']]),
    (['rot', 6, None], [REG, ['quot', 2], ['quot', 3], I(2), ['sum', [['quot', 3], I(3)], 'q3']]),
]


def elements_of(s):
    g = spaces.group(s)
    return ref.elements(g, 8)


def run_dis(case, mon):
    s, rs = DIS[case['i']]
    gs = spaces.build(s)
    reps = [zoo.field(gs, r) for r in rs]
    els = elements_of(s)
    lib = {}
    for n in range(1, case['n'] + 1):
        for l in itertools.product(range(len(rs)), repeat=n - 1):
            l = (case['first'],) + l
            t = FieldType(gs, [reps[i] for i in l])
            m = nn.DisentangleModule(t)
            mon.trans()
            d = lambda: (s, [rs[i] for i in l])
            N = t.size
            eye = torch.eye(N).reshape(N, N, 1, 1)
            y = m(GeometricTensor(eye, t))
            if not mon.check(y.type == m.out_type and m.out_type.size == N and m.out_type.gspace == t.gspace, 'disentangle:declared', d):
                continue
            Q = y.tensor.detach().numpy()[:, :, 0, 0].T          # matrix of the module
            # each field is changed by itself, with the same matrix wherever it stands
            p = 0
            mask = np.zeros((N, N), bool)
            for i in l:
                k = reps[i].size
                mask[p:p + k, p:p + k] = True
                b = Q[p:p + k, p:p + k]
                if i not in lib:
                    lib[i] = b
                mon.check(np.abs(b - lib[i]).max() < 1e-5, 'disentangle:position', d)
                mon.check(np.linalg.svd(b)[1].min() > 1e-3, 'disentangle:singular', d)
                p += k
            mon.check(np.abs(Q[~mask]).max(initial=0) < 1e-6, 'disentangle:mixes-fields', d)
            # and transforms by the declared type
            for e in els:
                A = np.asarray(m.out_type.representation(e)) @ Q
                B = Q @ np.asarray(t.representation(e))
                mon.check(np.abs(A - B).max() < 1e-4, 'disentangle:equivariance', lambda: (d(), e))
            # linear on images
            x = zoo.image(2, N, 2, 3, n)
            X = GeometricTensor(x.clone(), t)
            z = m(X)
            mon.check((z.tensor - torch.einsum('oi,bihw->bohw', torch.tensor(Q), x)).abs().max() < 1e-4 and torch.equal(X.tensor, x), 'disentangle:linear', d)
            # fields of the output: the pieces of each input field in order
            exp = []
            for i in l:
                if ('t', i) not in lib:
                    lib['t', i] = list(nn.DisentangleModule(FieldType(gs, [reps[i]])).out_type.representations)
                exp += lib['t', i]
            mon.check(list(m.out_type.representations) == exp, 'disentangle:fields', lambda: (d(), m.out_type))
            mon.state(case['i'], l)
            mon.trace()
    for r in reps:
        # restricted representations are what this module is meant for: pieces are not reducible without mixing channels
        for q in nn.DisentangleModule(FieldType(gs, [r])).out_type.representations:
            mon.check(q.group == gs.fibergroup, 'disentangle:group', lambda: r.name)


RST = [(zoo.D4, [REG, I(1, 1), TR]), (zoo.O2, [I(1, 1), I(1, 2), I(0, 0)]), (['rot', 8, None], [I(3), REG, I(4)]), (zoo.SO2, [I(2), I(1)]), (['fliprot', 6, None, .25], [I(1, 2), I(1, 3), REG]), (['flip', .5], [REG, I(1)])]


def run_restrict(case, mon):
    s, rs = RST[case['i']]
    gs = spaces.build(s)
    g = spaces.group(s)
    t = FieldType(gs, [zoo.field(gs, r) for r in rs])
    for sid in ref.subgroup_ids(g):
        if s[0] == 'flip' and sid not in (1, 2):
            continue
        sid = zoo.tup(sid)
        m = nn.RestrictionModule(t, sid)
        mon.trans()
        sub, up, _ = gs.restrict(sid)
        x = zoo.image(2, t.size, 3, 3, 1)
        y = m(GeometricTensor(x.clone(), t))
        d = lambda: (s, sid)
        mon.check(torch.equal(y.tensor, x) and y.type == m.out_type and m.out_type.gspace == sub and len(m.out_type) == len(t) and [r.size for r in m.out_type] == [r.size for r in t], 'restriction', d)
        els = list(sub.fibergroup.elements) if sub.fibergroup.order() > 0 else list(sub.fibergroup.testing_elements())
        for e in els:
            A = np.asarray(m.out_type.representation(e))
            B = np.asarray(t.representation(up(e)))
            mon.check(np.abs(A - B).max() < 1e-5, 'restriction:representation', lambda: (d(), e))
        # disentangling the restricted type
        dm = nn.DisentangleModule(m.out_type)
        N = t.size
        Q = dm(GeometricTensor(torch.eye(N).reshape(N, N, 1, 1), m.out_type)).tensor.numpy()[:, :, 0, 0].T
        for e in els:
            mon.check(np.abs(np.asarray(dm.out_type.representation(e)) @ Q - Q @ np.asarray(t.representation(up(e)))).max() < 1e-4, 'restriction+disentangle', lambda: (d(), e))
        mon.state(s, sid)
        mon.trace()


def run_seq(case, mon):
    gs = spaces.build(zoo.C4)
    t = FieldType(gs, [zoo.field(gs, f) for f in (TR, I(1), REG)])
    perms = [[1, 2, 0], [2, 1, 0], [0, 2, 1]]
    x = zoo.image(1, t.size, 2, 2, 1)
    for n in range(1, 5):
        for ks in itertools.product(range(5), repeat=n):
            mods, cur, F = [], t, fields(t, x)
            for k in ks:
                if k < 3:
                    m = nn.ReshuffleModule(cur, perms[k])
                    F = [F[i] for i in perms[k]]
                else:
                    m = Scale(cur, k - 1.)
                    F = [(r, a * (k - 1.)) for r, a in F]
                mods.append(m)
                cur = m.out_type
            d = lambda: ks
            built = {'args': nn.SequentialModule(*mods), 'dict': nn.SequentialModule(OrderedDict(('z%d' % (9 - i), m) for i, m in enumerate(mods)))}
            b = nn.SequentialModule(mods[0])
            for i, m in enumerate(mods[1:]):
                b.add_module('y%d' % i, m)
            built['add'] = b
            if n > 1:
                built['nested'] = nn.SequentialModule(nn.SequentialModule(*mods[:n // 2]), nn.SequentialModule(*mods[n // 2:]))
            for how, q in built.items():
                mon.trans()
                X = GeometricTensor(x.clone(), t)
                agree(mon, q(X), F, 'sequential', lambda: (d(), how))
                mon.check(q.in_type == t and q.out_type == cur, 'sequential:declared', lambda: (d(), how))
            mon.state(ks)
            mon.trace()
    # incompatible neighbours are refused, in every position
    other = FieldType(gs, [zoo.field(gs, f) for f in (I(1), TR, REG)])
    for n in range(1, 4):
        for bad in range(1, n + 1):
            mods = [Scale(t, 1.) for _ in range(n)]
            mods.insert(bad, Scale(other, 1.))
            for how in (lambda: nn.SequentialModule(*mods), lambda: nn.SequentialModule(OrderedDict((str(i), m) for i, m in enumerate(mods)))):
                mon.trans()
                try:
                    how()
                    mon.fail('sequential:not-refused', (n, bad))
                except Exception:
                    pass
    try:
        nn.SequentialModule(torch.nn.ReLU())
        mon.fail('sequential:plain-module-not-refused')
    except Exception:
        pass


def run_refuse(case, mon):
    gs = spaces.build(zoo.C4)
    t = FieldType(gs, [zoo.field(gs, f) for f in (TR, I(1), REG)])
    one = [FieldType(gs, [r]) for r in t.representations]
    g2 = spaces.build(zoo.C2)
    t2 = FieldType(g2, [g2.trivial_repr])
    bad = {
        'labels few': lambda: nn.BranchingModule(t, ['a', 'b']), 'labels many': lambda: nn.BranchingModule(t, ['a'] * 4),
        'reshuffle': lambda: nn.BranchingModule(t, ['a', 'b', 'c'], reshuffle=4), 'reshuffle-': lambda: nn.BranchingModule(t, ['a', 'b', 'c'], reshuffle=-1),
        'swapped types': lambda: nn.MultipleModule(t, ['a', 'b', 'c'], [(Scale(one[0], 1.), 'a'), (Scale(one[2], 1.), 'b'), (Scale(one[1], 1.), 'c')]),
        'unknown label': lambda: nn.MultipleModule(t, ['a', 'b', 'c'], [(Scale(one[0], 1.), 'a'), (Scale(one[1], 1.), 'b'), (Scale(one[2], 1.), 'd')]),
        'pair swapped': lambda: nn.MultipleModule(t, ['a', 'b', 'c'], [(Pair(one[0], one[1]), ['b', 'a']), (Scale(one[2], 1.), 'c')]),
        'merge spaces': lambda: nn.MergeModule([(Scale(one[0], 1.), 'a'), (Scale(t2, 1.), 'b')]),
        'merge spaces first': lambda: nn.MergeModule([(Scale(t2, 1.), 'b'), (Scale(one[0], 1.), 'a')]),
        'merge spaces pair': lambda: nn.MergeModule([(Scale(one[0], 1.), 'a'), (Pair2(t2, one[0]), ['b', 'a'])]),
        'merge labels': lambda: nn.MergeModule([(Scale(one[0], 1.), 3)]),
        'merge shapes': lambda: nn.MergeModule([(Scale(one[0], 1.), 'a'), (Scale(one[1], 1.), 'b')])({'a': GeometricTensor(torch.ones(1, 1, 2, 2), one[0]), 'b': GeometricTensor(torch.ones(1, 2, 3, 3), one[1])}),
        'merge missing': lambda: nn.MergeModule([(Scale(one[0], 1.), 'a'), (Scale(one[1], 1.), 'b')])({'a': GeometricTensor(torch.ones(1, 1, 2, 2), one[0])}),
    }
    for k, f in bad.items():
        mon.trans()
        mon.state(k)
        try:
            f()
            mon.fail('not-refused', k)
        except Exception:
            pass


class Pair2(Pair):
    def __init__(self, t, u):
        EquivariantModule.__init__(self)
        self.in_type = (t, u)
        self.out_type = u


NOPS = 9


def run_list(case, mon):
    gs = spaces.build(zoo.C4)
    t = FieldType(gs, [gs.trivial_repr])
    pool = [nn.IdentityModule(t) for _ in range(3)] + [nn.ReLU(t)]
    plain = torch.nn.ReLU()
    ops = []
    ops.append(('append', lambda L: L.append(pool[0]) and None, lambda P: P.append(pool[0])))
    ops.append(('extend', lambda L: L.extend([pool[1], pool[2]]) and None, lambda P: P.extend([pool[1], pool[2]])))
    ops.append(('insert0', lambda L: L.insert(0, pool[3]), lambda P: P.insert(0, pool[3])))
    ops.append(('insert1', lambda L: L.insert(1, pool[2]), lambda P: P.insert(1, pool[2])))
    ops.append(('set0', lambda L: L.__setitem__(0, pool[1]), lambda P: P.__setitem__(0, pool[1]) if P else 'skip'))
    ops.append(('set-1', lambda L: L.__setitem__(-1, pool[3]), lambda P: P.__setitem__(-1, pool[3]) if P else 'skip'))
    ops.append(('del0', lambda L: L.__delitem__(0), lambda P: P.__delitem__(0) if P else 'skip'))
    ops.append(('bad', None, None))
    ops.append(('iadd', lambda L: L.__iadd__([pool[3]]) and None, lambda P: P.append(pool[3])))
    assert len(ops) == NOPS

    def step(path, depth):
        for start in ([], [pool[0], pool[3]]):
            given = list(start)
            L = nn.ModuleList(given)
            P = list(start)
            for i in path:
                name, lib, mod = ops[i]
                mon.trans()
                if name == 'bad':
                    for f in (lambda: L.append(plain), lambda: L.insert(0, plain), lambda: L.extend([pool[0], plain][1:]), lambda: L.__setitem__(0, plain)):
                        try:
                            f()
                            mon.fail('list:not-refused', path)
                        except Exception:
                            pass
                elif name == 'insert1' and len(P) < 1:
                    continue
                else:
                    if mod(P) == 'skip':
                        continue
                    lib(L)
                mon.check(len(L) == len(P) and all(a is b for a, b in zip(L, P)) and all(L[j] is P[j] for j in range(len(P))) and given == start, 'list', lambda: ([ops[j][0] for j in path], len(L)))
            if P:
                e = L.export()
                mon.check(len(e) == len(P) and not any(isinstance(m, EquivariantModule) for m in e), 'list:export', lambda: path)
            mon.state(path, len(start))
        mon.trace()
        if depth > 1:
            for j in range(NOPS):
                step(path + [j], depth - 1)
    step([case['first']], case['depth'])


def run_case(case, mon):
    {'branch': run_branch, 'reshuffle': run_reshuffle, 'dis': run_dis, 'restrict': run_restrict, 'seq': run_seq, 'refuse': run_refuse, 'list': run_list}[case['kind']](case, mon)
