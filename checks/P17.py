"""P17: types are compared by what they mean and mismatches are always refused.

Spaces are compared through the isometries by which they really move images (measured), types through the matrices of
their representations: the oracle for equality never looks at the attributes which the implementation compares."""
import itertools
import json
import math
import numpy as np
import torch
from e2cnn import nn, gspaces
from e2cnn.group import Representation
from mc import ref, reprs, spaces, zoo

PID = 'P17'
TITLE = 'Types are compared by what they mean and mismatches are always refused'
BOUNDS = {
    'quick': 'all ordered pairs of 46 symmetry spaces (built directly and by restriction) and all triples of their verdicts; all ordered pairs of field types '
             'in a 60 letter alphabet, each built from a list which is changed afterwards; all ordered pairs of 75 representations (names shared by different ones); every module class x constructor variants x every wrong type of the same number of channels; containers x all pairs of types',
    'thorough': 'more spaces, axes and module configurations (all of the module alphabet)',
}
ASSUMPTIONS = ['spaces of different classes count as different', 'representations with the same matrices but different names may compare either way']

TR, REG = ['trivial'], ['regular']


def I(*a):
    return ['irrep'] + list(a)


C4, C2, D4, D2, SO2, O2 = ['rot', 4, None], ['rot', 2, None], ['fliprot', 4, None, .5], ['fliprot', 2, None, .5], ['rot', -1, 2], ['fliprot', -1, 2, .5]


# ------------------------------------------------------------------------------------------------- spaces

def space_alphabet(tier):
    out = [['triv']]
    axes = [0., .5, .25, 1., -.5, .3, 1.5, 2., 1 / 3.]
    if tier != 'quick':
        axes += [.125, .75, -.25, 2 / 3., .1, 1.1]
    out += [['flip', a] for a in axes]
    out += [['rot', n, None] for n in (2, 3, 4, 8)] + [['rot', -1, 1], ['rot', -1, 3]]
    for n in (2, 3, 4) if tier == 'quick' else (2, 3, 4, 6):
        out += [['fliprot', n, None, a] for a in axes[:6]]
    out += [['fliprot', -1, 1, a] for a in axes[:5]] + [['fliprot', -1, 3, .5]]
    # reached by restriction
    for s, i in ((['fliprot', 4, None, .5], [0, 2]), (['fliprot', 4, None, .5], [1, 2]), (['fliprot', 4, None, .5], [None, 4]), (['fliprot', 4, None, 0.], [2, 1]), (['fliprot', 4, None, 0.], [1, 1]),
                 (['rot', 8, None], 4), (['rot', -1, 1], 4), (['fliprot', -1, 1, .5], [None, -1]), (['fliprot', -1, 1, .5], [0., 2]), (['fliprot', -1, 1, 0.], [math.pi / 2, 1]),
                 (['fliprot', -1, 1, .5], [math.pi / 2, -1]), (['flip', .5], 1), (['rot', 4, None], 1)):
        out.append(['restr', s, i])
    return out


def sbuild(s):
    if s[0] == 'restr':
        return spaces.build(s[1]).restrict(ref.sid(s[2]))[0]
    return spaces.build(s)


_meas = {}


def meaning(s):
    """What the space does: its class, its group and the measured isometry of a fixed list of elements."""
    k = json.dumps(s)
    if k not in _meas:
        gs = sbuild(s)
        g = gs.fibergroup
        es = list(gs.testing_elements)
        if g.order() < 0:
            es = [e for e in es][:9] + [e for e in es][-9:]
        _meas[k] = (type(gs).__name__, g.name, g.order(), [spaces.measured(gs, e)[0] for e in es])
    return _meas[k]


def mean_same(a, b):
    return a[:3] == b[:3] and len(a[3]) == len(b[3]) and all(np.abs(x - y).max() < 1e-4 for x, y in zip(a[3], b[3]))


def case_spaces(c, mon):
    al = space_alphabet(c['tier'])
    i = c['i']
    a = sbuild(al[i])
    ma = meaning(al[i])
    row = []
    for j, sb in enumerate(al):
        b = sbuild(sb)
        want = mean_same(ma, meaning(sb))
        mon.state('space', i, j)
        mon.trans()
        mon.trace()
        got = a == b
        row.append(bool(got))
        mon.check(bool(got) == want, 'space-equality', lambda: (al[i], sb, got, want))
        mon.check(bool(b == a) == bool(got), 'space-symmetry', lambda: (al[i], sb))
        mon.check(bool(a != b) == (not got), 'space-inequality', lambda: (al[i], sb))
        if got:
            mon.check(hash(a) == hash(b), 'space-hash', lambda: (al[i], sb))
            mon.check(len({a, b}) == 1 and {a: 1}.get(b) == 1, 'space-set', lambda: (al[i], sb))
        mon.outcome('space', want)
    mon.check(a == a and row[i], 'space-reflexive', lambda: al[i])
    # transitivity of the verdicts
    for j, k in itertools.product(range(len(al)), repeat=2):
        if row[j] and not row[k]:
            mon.trans()
            mon.check(not sbuild(al[j]) == sbuild(al[k]), 'space-transitive', lambda: (al[i], al[j], al[k]))
    for x in (None, 4, 'C4', a.fibergroup):
        mon.check(not (a == x), 'space-equals-other-kind', lambda: (al[i], str(x)))


# ------------------------------------------------------------------------------------------------- field types

SAME = [['cob', I(1), k, 'same'] for k in ('sign', 'house', 'perm')]


def type_alphabet(tier):
    out = []
    for s in (C4, ['rot', 8, None], SO2):
        for f in ([I(1)], [TR, I(1)], [I(1), TR], [I(1), I(1)], [TR, TR], [TR, TR, I(1)], [TR, I(1), TR]):
            out.append([s, f])
    for s in (C4,):
        for f in ([REG], [REG, TR], [TR, REG], [I(2), I(2)], [I(1), I(2)], [I(2), I(1)], [['quot', 2]], [['quot', 2], ['quot', 2]], [['quot', 4]]):
            out.append([s, f])
        for x in SAME:
            out += [[s, [x]], [s, [I(1), x]]]
        out += [[s, [['sum', [I(1), I(0)], 'mine']]], [s, [['sum', [I(0), I(1)], 'mine']]], [s, [['sumcob', [I(1), I(0)], 'house', 'mine']]], [s, [['sum', [I(1), I(0)], 'other']]]]
    for a in (0., .5, 1., .25):
        for f in ([I(1, 1)], [I(1, 1), TR], [I(1, 0), I(0, 0)], [I(0, 0), I(1, 0)]):
            out.append([['fliprot', 4, None, a], f])
        out += [[['flip', a], [REG]], [['flip', a], [TR, I(1)]]]
    # the same spaces reached by restriction
    out += [[['restr', ['rot', 8, None], 4], [I(1)]], [['restr', SO2, 4], [I(1), TR]], [['restr', D4, [None, 4]], [REG]], [['restr', D4, [0, 1]], [REG]], [['restr', O2, [None, -1]], [I(1)]],
            [['restr', ['fliprot', 8, None, .5], [0, 4]], [I(1, 1)]], [['restr', O2, [0., -1]], [I(1, 1)]]]
    out += [[C2, [REG]], [C2, [TR, I(1)]], [['triv'], [TR, TR]]]
    out += [[O2, [I(1, 1)]], [['fliprot', -1, 3, .5], [I(1, 1)]], [['fliprot', -1, 3, 0.], [I(1, 1)]], [SO2, [I(1)]], [['rot', -1, 5], [I(1)]]]
    return out


def ftype(s, f):
    gs = sbuild(s)
    return nn.FieldType(gs, [zoo.field(gs, x) for x in f])


def type_meaning(d):
    s, f = d
    t = ftype(s, f)
    es = list(t.gspace.testing_elements)[:12]
    return meaning(s), [(r.name, [np.array(r(e)) for e in es]) for r in t.representations]


def case_types(c, mon):
    al = type_alphabet(c['tier'])
    i = c['i']
    a = ftype(*al[i])
    ma = type_meaning(al[i])
    for j, d in enumerate(al):
        b = ftype(*d)
        mb = type_meaning(d)
        names = [x[0] for x in ma[1]] == [x[0] for x in mb[1]]
        want = mean_same(ma[0], mb[0]) and names and all(len(x[1]) == len(y[1]) and all(np.shape(p) == np.shape(q) and np.abs(p - q).max() < 1e-5 for p, q in zip(x[1], y[1]))
                                                      for x, y in zip(ma[1], mb[1]))
        if want and i != j and al[i][1] != d[1]:
            want = None        # the same matrices reached in different ways
        mon.state('type', i, j)
        mon.trans()
        mon.trace()
        got = bool(a == b)
        mon.check(want is None or got == want, 'type-equality', lambda: (al[i], d, got, want))
        mon.check(bool(b == a) == got and bool(a != b) == (not got), 'type-symmetry', lambda: (al[i], d))
        if got:
            mon.check(hash(a) == hash(b) and len({a, b}) == 1, 'type-hash', lambda: (al[i], d))
        mon.outcome('type', want)
        if want is None:
            continue
        for p, q in zip(a.representations, b.representations):
            e = bool(p == q)
            mon.check(e == bool(q == p), 'representation-symmetry', lambda: (al[i], d))
            if e:
                mon.check(hash(p) == hash(q), 'representation-hash', lambda: (al[i], d))
        # operations which combine two types refuse them unless they are defined on the same space
        sp = mean_same(ma[0], mb[0])
        for name, fn in (('sum', lambda: a + b), ('conv', lambda: nn.R2Conv(a, b, 3)), ('tconv', lambda: nn.R2ConvTransposed(a, b, 3)), ('diffop', lambda: nn.R2Diffop(a, b, kernel_size=3)),
                         ('directsum', lambda: nn.tensor_directsum([nn.GeometricTensor(torch.zeros(1, a.size, 2, 2), a), nn.GeometricTensor(torch.zeros(1, b.size, 2, 2), b)]))):
            if sp:
                if name in ('sum', 'directsum'):
                    r = fn()
                    ty = r if name == 'sum' else r.type
                    mon.check(ty.gspace == a.gspace and ty.representations == a.representations + b.representations, 'combined-type', lambda: (name, al[i], d))
            else:
                mon.check(refuses(fn), 'combining-different-spaces', lambda: (name, al[i], d))
            mon.trans()
        # a tensor of one type is not accepted by arithmetic with the other
        x, y = nn.GeometricTensor(torch.ones(1, a.size, 2, 2), a), nn.GeometricTensor(torch.ones(1, b.size, 2, 2), b)
        for name, fn in (('add', lambda: x + y), ('sub', lambda: x - y), ('iadd', lambda: iadd(x, y)), ('isub', lambda: isub(x, y))):
            if want:
                mon.check(fn().type == a, 'arithmetic-type', lambda: (name, al[i], d))
            else:
                mon.check(refuses(fn), 'arithmetic-of-different-types', lambda: (name, al[i], d))
            mon.trans()
        # sequential composition
        ida, idb = nn.IdentityModule(a), nn.IdentityModule(b)
        for name, fn in (('sequential', lambda: nn.SequentialModule(ida, idb)), ('sequential3', lambda: nn.SequentialModule(ida, ida, idb)), ('sequential-last', lambda: nn.SequentialModule(nn.SequentialModule(ida), idb)),
                         ('multiple', lambda: nn.MultipleModule(a, ['x'] * len(a), [(idb, 'x')])), ('multiple2', lambda: nn.MultipleModule(a + a, ['x'] * len(a) + ['y'] * len(a), [(ida, 'x'), (idb, 'y')]))):
            mon.trans()
            if want:
                m = fn()
                mon.check(m.out_type == (a if not name.startswith('multiple2') else a + a), 'composition-type', lambda: (name, al[i], d))
            else:
                mon.check(refuses(fn), 'composition-of-different-types', lambda: (name, al[i], d))
        # gates and gated fields
        ga = nn.FieldType(a.gspace, [a.gspace.trivial_repr] * len(b))
        gb = nn.FieldType(b.gspace, [b.gspace.trivial_repr] * len(b))
        if all('gated' in r.supported_nonlinearities for r in b.representations):
            mon.trans()
            if not sp:
                mon.check(refuses(lambda: nn.GatedNonLinearity2((ga, b))), 'gates-of-another-space', lambda: (al[i], d))
            elif len(b) == len(a) and all('gated' in r.supported_nonlinearities for r in a.representations):
                # a module with two inputs inside of a container: both are compared
                g2 = nn.GatedNonLinearity2((gb, b))
                mk = lambda: nn.MultipleModule(ga + a, ['g'] * len(ga) + ['f'] * len(a), [(g2, ['g', 'f'])])
                if want:
                    mk()
                else:
                    mon.check(refuses(mk), 'composition-of-different-types', lambda: ('two inputs', al[i], d))
                    # also for the gates
                    if b.size == len(b) and a != gb and b == gb:
                        mon.check(refuses(lambda: nn.MultipleModule(a + b, ['g'] * len(a) + ['f'] * len(b), [(g2, ['g', 'f'])])), 'composition-of-different-types', lambda: ('gates', al[i], d))
                        mon.outcome('wrong gates')
        if not sp:
            mon.check(refuses(lambda: nn.MergeModule([(ida, 'x'), (idb, 'y')])), 'merge-of-different-spaces', lambda: (al[i], d))
        # a representation of another group is not accepted
        if a.gspace.fibergroup.name != b.gspace.fibergroup.name:
            mon.check(refuses(lambda: nn.FieldType(a.gspace, b.representations)), 'representation-of-another-group', lambda: (al[i], d))
    # a type does not change with the list of representations it was built from
    for what in (lambda l: l.append(l[0]), lambda l: l.insert(0, l[-1]), lambda l: l.pop(), lambda l: l.reverse(), lambda l: l.extend(l), lambda l: l.clear()):
        l = list(a.representations)
        t = nn.FieldType(a.gspace, l)
        what(l)
        mon.trans()
        mon.check(t == a and a == t and hash(t) == hash(a) and t.size == a.size and len(t) == len(a) and t.fields_names() == a.fields_names() and list(t.fields_end) == list(a.fields_end),
                  'type-changes-with-list', lambda: al[i])
    for n in (a.size - 1, a.size + 1, 2 * a.size):
        mon.check(n == 0 or refuses(lambda: nn.GeometricTensor(torch.zeros(1, n, 3, 3), a)), 'number-of-channels', lambda: (al[i], n))
    for x in (None, 4, a.gspace, a.representations, tuple(a.representations)):
        mon.check(not (a == x), 'type-equals-other-kind', lambda: (al[i], str(x)))


# ------------------------------------------------------------------------------------------------- representations

REPS = [[g, d] for g in (['C', 4], ['C', 8], ['SO2', 3], ['D', 4]) for d in (
    ['sum', [0], 'u'], ['sum', [1], 'u'], ['sum', [0, 1], 'u'], ['sum', [1, 0], 'u'], ['sum', [0, 0], 'u'], ['sum', [1, 1], 'u'], ['sum', [0, 1], 'v'], ['sum', [0, 0, 1], 'u'],
    ['cob', [1], 0., 'u'], ['cob', [1], 1e-12, 'u'], ['cob', [1], .5, 'u'], ['cob', [1, 0], .5, 'u'], ['cob', [0, 1], .5, 'u'], ['cob', [1], .5, 'v'],
    ['neg', [0], 'u'], ['neg', [1], 'u'], ['irrep', 0], ['irrep', 1], ['regular'])
    if not (g[0] == 'SO2' and d == ['regular'])]


def rbuild(g, d):
    grp = ref.gdesc(g)
    irr = [grp.irrep(*((k,) if g[0] != 'D' else ((0, 0), (1, 1))[k])) for k in (d[1] if isinstance(d[1], list) else [d[1]])] if d[0] != 'regular' else []
    if d[0] == 'regular':
        return grp.regular_representation
    if d[0] == 'irrep':
        return irr[0]
    n = sum(r.size for r in irr)
    if d[0] == 'sum':
        Q = np.eye(n)
    elif d[0] == 'neg':
        Q = -np.eye(n)
    else:
        t = d[2]
        Q = np.eye(n)
        Q[:2, :2] = [[math.cos(t), -math.sin(t)], [math.sin(t), math.cos(t)]]
    return Representation(grp, d[-1], [r.name for r in irr], Q, {'norm'})


def case_reprs(c, mon):
    i = c['i']
    a = rbuild(*REPS[i])
    for j, (g, d) in enumerate(REPS):
        b = rbuild(g, d)
        mon.state('repr', i, j)
        mon.trans()
        mon.trace()
        e = bool(a == b)                      # also for different sizes and groups: an answer, never an exception
        mon.check(bool(b == a) == e and bool(a != b) == (not e), 'representation-symmetry', lambda: (REPS[i], REPS[j]))
        if e:
            mon.check(hash(a) == hash(b) and len({a, b}) == 1, 'representation-hash', lambda: (REPS[i], REPS[j]))
            mon.check(REPS[i][0] == g and a.size == b.size and all(np.abs(a(x) - b(x)).max() < 1e-5 for x in ref.elements(g, 8)), 'different-representations-are-equal', lambda: (REPS[i], REPS[j]))
        if i == j:
            mon.check(e, 'representation-equals-its-copy', lambda: REPS[i])
        mon.outcome('repr', e)
    for x in (None, 4, 'u', a.group):
        mon.check(not (a == x), 'representation-equals-other-kind', lambda: (REPS[i], str(x)))


def iadd(x, y):
    x += y
    return x


def isub(x, y):
    x -= y
    return x


def refuses(fn):
    try:
        fn()
    except Exception:
        return True
    return False


# ------------------------------------------------------------------------------------------------- modules

def variants(tier):
    """Constructor configurations of every class; in the quick tier one per distinct (class, fields, boolean and string options)."""
    seen, out = {}, []
    mine = [['cob', I(1), 'perm', 'same'], TR]
    extra = [zoo.entry(m, C4, mine, **kw) for m, kw in (('IdentityModule', {}), ('R2Conv', dict(out=mine, kernel_size=3)), ('R2Conv', dict(out=[TR], kernel_size=3)), ('R2ConvTransposed', dict(out=mine, kernel_size=3)),
                                                        ('R2Diffop', dict(out=mine, kernel_size=3)), ('ReshuffleModule', dict(permutation=[1, 0])), ('R2Upsampling', dict(scale_factor=2, mode='nearest')),
                                                        ('RestrictionModule', dict(id=2)), ('DisentangleModule', {}), ('GNormBatchNorm', {}), ('FieldDropout', dict(p=.5)), ('MaskModule', dict(S=7)),
                                                        ('PointwiseAvgPoolAntialiased', dict(sigma=.6, stride=2)))]
    for d in extra + zoo.zoo('quick'):
        key = [d['m'], d['s'], d['f']]
        if tier == 'quick':
            key += sorted((k, str(v)) for k, v in d['kw'].items() if isinstance(v, (bool, str)) or k in ('gates', 'id', 'spec', 'seq', 'groups'))
            if d['m'] in ('R2Conv', 'R2ConvTransposed', 'R2Diffop'):
                key = key[:3] + [str(d['kw'].get('bias')), str(d['kw'].get('groups')), str(d['kw'].get('padding_mode')) != 'zeros']
        else:
            key += sorted((k, str(v)) for k, v in d['kw'].items() if k not in ('padding', 'stride', 'dilation'))
        key = json.dumps(key)
        if key not in seen:
            seen[key] = 1
            out.append(d)
    return out


def wrong_types(t):
    """Types with the same number of channels which differ from t in exactly one respect."""
    gs = t.gspace
    n = t.size
    out = []
    A = lambda name, u: out.append((name, u)) if u is not None else None

    def tryit(fn):
        try:
            return fn()
        except Exception:
            return None
    # other axes
    if isinstance(gs, gspaces.FlipRot2dOnR2):
        N = gs.fibergroup.rotation_order if gs.fibergroup.order() > 0 else -1
        for a in (0., .5, .25):
            g2 = gspaces.FlipRot2dOnR2(N, maximum_frequency=None if N > 0 else 2, axis=a * np.pi)
            m1 = [spaces.measured(gs, e)[0] for e in list(gs.testing_elements)[:8]]
            m2 = [spaces.measured(g2, e)[0] for e in list(g2.testing_elements)[:8]]
            if any(np.abs(x - y).max() > 1e-4 for x, y in zip(m1, m2)):
                A('axis', nn.FieldType(g2, list(t.representations)))
    if isinstance(gs, gspaces.Rot2dOnR2) and gs.fibergroup.order() == 2:
        A('flip instead of rotation', nn.FieldType(gspaces.Flip2dOnR2(), list(t.representations)))
    # order of the fields
    r = list(t.representations)
    if r[::-1] != r:
        A('reversed', nn.FieldType(gs, r[::-1]))
    for i in range(len(r) - 1):
        if r[i] != r[i + 1]:
            A('swapped', nn.FieldType(gs, r[:i] + [r[i + 1], r[i]] + r[i + 2:]))
            break
    # one field in another basis, with its name
    from e2cnn.group import change_basis
    i = max(range(len(r)), key=lambda k: r[k].size)
    if r[i].size > 1:
        A('basis', tryit(lambda: nn.FieldType(gs, r[:i] + [change_basis(r[i], reprs.q_matrix(r[i].size, 'perm'), name=r[i].name, supported_nonlinearities=r[i].supported_nonlinearities)] + r[i + 1:])))
        A('renamed basis', nn.FieldType(gs, r[:i] + [change_basis(r[i], reprs.q_matrix(r[i].size, 'perm'), name='p')] + r[i + 1:]))
        if len(r[i].irreps) > 1:
            irr = [gs.fibergroup.irreps[x] for x in r[i].irreps]
            A('split', nn.FieldType(gs, r[:i] + irr + r[i + 1:]))
    # nothing but scalars; other groups
    triv = [gs.trivial_repr] * n
    if r != triv:
        A('trivial fields', nn.FieldType(gs, triv))
    for g2 in (gspaces.TrivialOnR2(), gspaces.Flip2dOnR2(), gspaces.Rot2dOnR2(4), gspaces.Rot2dOnR2(8), gspaces.FlipRot2dOnR2(4), gspaces.FlipRot2dOnR2(-1, maximum_frequency=2), gspaces.Rot2dOnR2(-1, maximum_frequency=2)):
        if type(g2) != type(gs) or g2.fibergroup.name != gs.fibergroup.name:
            A('group', nn.FieldType(g2, [g2.trivial_repr] * n))
            # the same names and sizes on another group where they exist
            same = tryit(lambda: [g2.representations[x.name] for x in r])
            if same and sum(x.size for x in same) == n:
                A('names', nn.FieldType(g2, same))
    return out


def meaning_diff(t, u):
    """Independent guard: the wrong type really is different."""
    if type(t.gspace) != type(u.gspace) or t.gspace.fibergroup.name != u.gspace.fibergroup.name or [r.size for r in t.representations] != [r.size for r in u.representations]:
        return True
    es = list(t.gspace.testing_elements)[:10]
    if [r.name for r in t.representations] != [r.name for r in u.representations]:
        return True
    if any(np.abs(np.array(p(e)) - np.array(q(e))).max() > 1e-6 for p, q in zip(t.representations, u.representations) for e in es):
        return True
    return any(np.abs(spaces.measured(t.gspace, e)[0] - spaces.measured(u.gspace, e)[0]).max() > 1e-4 for e in es)


def case_modules(c, mon):
    for d in c['d']:
        module(d, mon)


def module(d, mon):
    try:
        m, ts = zoo.build(d)
    except ValueError as e:
        if 'basis' in str(e).lower():
            return
        raise
    if d['m'] == 'R2ConvTransposed' and m.weights.numel() == 0:
        return
    zoo.randomise(m)
    labels = None if isinstance(ts, list) else list(ts)
    tt = ts if labels is None else list(ts.values())
    S = d['kw'].get('S', 7)

    def call(types, tensors=None):
        xs = [nn.GeometricTensor(zoo.image(2, t.size, S, S), t) for t in types]
        return m(*xs) if labels is None else m(dict(zip(labels, xs)))

    tried = 0
    for mode in (True, False):
        m.train(mode)
        # the right types, built once more
        again = [nn.FieldType(t.gspace, list(t.representations)) for t in tt]
        y = call(again)
        mon.trans()
        mon.trace()
        mon.state(str(d), mode, 'right')
        if isinstance(y, dict):
            mon.check(all(y[l].type == m.out_type[l] for l in y), 'output-type', lambda: d)
        else:
            mon.check(isinstance(y, nn.GeometricTensor) and y.type == m.out_type, 'output-type', lambda: d)
        for k, t in enumerate(tt):
            for name, u in wrong_types(t):
                if mode and not meaning_diff(t, u):
                    raise RuntimeError('harness: wrong type is not wrong %s' % name)
                ty = tt[:k] + [u] + tt[k + 1:]
                mon.trans()
                mon.trace()
                mon.state(str(d), mode, k, name, str(u))
                tried += 1
                mon.check(refuses(lambda: call(ty)), 'wrong-type-accepted', lambda: (d, 'train' if mode else 'eval', name, str(u), 'instead of', str(t)))
                mon.outcome('wrong', name)
        # bare tensors
        raw = [zoo.image(2, t.size, S, S) for t in tt]
        mon.check(refuses(lambda: m(*raw) if labels is None else m(dict(zip(labels, raw)))), 'bare-tensor-accepted', lambda: d)
    if len(tt) == 2 and tt[0] != tt[1] and tt[0].size == tt[1].size:
        mon.check(refuses(lambda: call(tt[::-1])), 'swapped-inputs', lambda: d)
    mon.outcome('module', d['m'])
    mon.check(tried > 0, 'harness-no-wrong-type', lambda: d)


# -------------------------------------------------------------------------------------------------

def cases(tier):
    out = [{'k': 'spaces', 'i': i, 'tier': tier} for i in range(len(space_alphabet(tier)))]
    out += [{'k': 'types', 'i': i, 'tier': tier} for i in range(len(type_alphabet(tier)))]
    out += [{'k': 'reprs', 'i': i} for i in range(len(REPS))]
    v = variants(tier)
    out += [{'k': 'modules', 'd': v[i:i + 6]} for i in range(0, len(v), 6)]
    return out


def cost(c):
    return {'reprs': 1, 'types': 3, 'modules': 2, 'spaces': 1}[c['k']]


def run_case(c, mon):
    globals()['case_' + c['k']](c, mon)
    mon.sample({k: v for k, v in c.items() if k != 'd'} if 'd' not in c else c['d'][0])


def finish(tot, outcomes, tier):
    miss = {d['m'] for d in zoo.zoo('quick')} - {eval(o)[1] for o in outcomes if o.startswith("('module'")}
    if miss:
        return 'never called: %s' % sorted(miss)
    for k in ('space', 'type', 'repr'):
        for v in (True, False):
            if repr((k, v)) not in outcomes:
                return 'verdict %s %s never needed' % (k, v)
    for w in ('axis', 'flip instead of rotation', 'reversed', 'basis', 'split', 'trivial fields', 'group', 'names'):
        if repr(('wrong', w)) not in outcomes:
            return 'kind of wrong type never tried: %s' % w
