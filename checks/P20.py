"""P20: what back-propagation delivers is the derivative of what the module computes.

Part one: every module class in every constructor configuration of the zoo; every coordinate of the input and of every
parameter is moved on its own and the change of the output compared with the gradient (all perturbed inputs run through the
real module).  Part two: all sequences of mode switches, passes, updates, copies and reloads up to a depth on the layers
which keep state between passes, in lockstep with a model holding parameters, statistics and accumulated gradients."""
import copy
import itertools
import math
import numpy as np
import torch
from mc import zoo
from e2cnn import nn

PID = 'P20'
BOUNDS = {
    'quick': 'every module class with every constructor configuration of the zoo (one of three for the many spatial poolings and convolutions), every coordinate of the input in evaluation mode and of every parameter in training mode, every coordinate of the input in training mode '
             'for normalisation and dropout; 7 layers and networks: all sequences of length <=5 over {train, eval, forward and backward, update, reload, copy}',
    'thorough': 'the larger zoo, every configuration, two images; all sequences of length <=6',
}
ASSUMPTIONS = ['32 bit tensors: differences are compared with a tolerance of 0.5 percent of the largest entry', 'generic inputs, at which the modules are differentiable',
               'in evaluation mode the gradient of the parameters of a layer with a stored filter is either not delivered or right']
TECHNIQUE = 'exhaustive enumeration of module configurations x coordinates, and of operation sequences in lockstep with a model'


def prepare(d):
    try:
        m, ts = zoo.build(d)
    except ValueError as e:
        if d['m'] in ('R2Conv', 'R2Diffop', 'Sequential') and 'basis' in str(e).lower():
            return None
        raise
    if d['m'] == 'R2ConvTransposed' and m.weights.numel() == 0:
        return None
    zoo.randomise(m)
    return m, ts


def apply(m, ts, xs):
    tt = ts if isinstance(ts, list) else list(ts.values())
    gs = [nn.GeometricTensor(x, t) for x, t in zip(xs, tt)]
    y = m(*gs) if isinstance(ts, list) else m(dict(zip(ts, gs)))
    return [y[k].tensor for k in sorted(y)] if isinstance(y, dict) else [y.tensor]


def loss(ys):
    """A generic linear function of the outputs, for every sample on its own."""
    tot = 0
    for k, y in enumerate(ys):
        n = y[0].numel()
        c = torch.tensor([math.sin(1.3 * i + k + .7) for i in range(n)], dtype=torch.float64)
        tot = tot + y.double().reshape(y.shape[0], -1) @ c
    return tot


def split(v, shapes):
    out, p = [], 0
    for s in shapes:
        n = int(np.prod(s))
        out.append(v[..., p:p + n].reshape(v.shape[:-1] + tuple(s)))
        p += n
    return out


def agree(g, f0, fp, fm, h, tol):
    """g: gradient; f0, fp, fm: values at the point and h to either side."""
    c = [(fp - fm) / (2 * h), (fp - f0) / h, (f0 - fm) / h]
    return torch.stack([(x - g).abs() <= tol for x in c]).any(0)


HS = ((2. ** -7, 5e-3), (2. ** -10, 3e-2))


def verdict(g, fun, mon, label, what):
    """fun(coordinates, h) -> (f0, f+, f-) for the given coordinates."""
    n = g.numel()
    scale = max(1., float(g.abs().max()) if n else 1.)
    idx = torch.arange(n)
    bad = idx
    for h, tol in HS:
        f0, fp, fm = fun(bad, h)
        bad = bad[~agree(g[bad], f0, fp, fm, h, tol * scale)]
        if len(bad) == 0:
            break
    mon.checks += n - len(bad)
    mon.trans(n)
    if len(bad):
        f0, fp, fm = fun(bad[:1], HS[0][0])
        mon.fail(label, lambda: (what, 'coordinate', int(bad[0]), 'of', n, 'gradient', float(g[bad[0]]), 'difference quotient', float((fp - fm)[0] / (2 * HS[0][0])), len(bad), 'coordinates differ'))


def fits(m, ts, d, sizes, b=1):
    tt = ts if isinstance(ts, list) else list(ts.values())
    for s in sizes:
        s = d['kw']['S'] if d['m'] == 'MaskModule' else s
        xs = [zoo.image(b, t.size, s, s, k) + .0713 for k, t in enumerate(tt)]
        try:
            with torch.no_grad():
                ys = apply(m, ts, [x.clone() for x in xs])
            if all(y.numel() for y in ys):
                return xs
        except (RuntimeError, ValueError):
            pass
    return None


def gradients(m, ts, xs, params=()):
    leaves = [x.clone().requires_grad_(True) for x in xs]
    for p in m.parameters():
        p.grad = None
    loss(apply(m, ts, [x * 1. for x in leaves])).sum().backward()
    g = torch.cat([(x.grad if x.grad is not None else torch.zeros_like(x)).double().reshape(x.shape[0], -1) for x in leaves], 1)
    return g, [None if p.grad is None else p.grad.detach().clone().double().reshape(-1) for p in params]


def one(d, mon, tier):
    pr = prepare(d)
    if pr is None:
        return
    m, ts = pr
    stochastic = 'Dropout' in d['m'] or (d['m'] == 'Sequential' and 'drop' in d['kw']['seq'])
    coupled = 'BatchNorm' in d['m'] or (d['m'] == 'Sequential' and 'bn' in d['kw']['seq'])
    live = d['kw'].get('track_running_stats') is False          # statistics of the batch in every mode
    # ---------------------------------------------------------------- evaluation mode: the input
    m.eval()
    xs = fits(m, ts, d, (4, 5, 6, 8, 11))
    if not mon.check(xs is not None, 'no-shape-fits', lambda: d):
        return
    mon.outcome('ran', d['m'])
    shapes = [x.shape[1:] for x in xs]
    flat = torch.cat([x.reshape(1, -1) for x in xs], 1)

    def values(v):
        out = []
        with torch.no_grad():
            step = 1 if live else 200
            for k in range(0, len(v), step):
                out.append(loss(apply(m, ts, [x.clone() for x in split(v[k:k + step], shapes)])))
        return torch.cat(out)

    def quotients(idx, h):
        e = torch.zeros(len(idx), flat.shape[1])
        e[torch.arange(len(idx)), idx] = h
        return values(flat).expand(len(idx)), values(flat + e), values(flat - e)

    for k in range(2):         # the second pass meets whatever the first one left behind
        g, _ = gradients(m, ts, xs)
        if k == 0:
            first = g
            verdict(g[0], quotients, mon, 'gradient-of-input', (d, 'eval'))
        else:
            mon.check(torch.allclose(g, first, atol=1e-5 * max(1., float(first.abs().max()))), 'gradient-changes-between-passes', lambda: d)
    mon.state(str(d), 'eval')
    # ---------------------------------------------------------------- vanishing fields (padding, masks, rectified features)
    xs2 = fits(m, ts, d, (4, 5, 6, 8, 11), 2)
    for mode in (False, True):
        m.train(mode)
        state = copy.deepcopy(m.state_dict())
        pars = [p for p in m.parameters() if p.requires_grad]
        for k in range(3):
            zs = [x * 0. if k == 0 else x * (torch.arange(x.shape[-1]) > 1) if k == 1 else x * (torch.arange(x.shape[1]) % 2).view(1, -1, 1, 1) for x in xs2]
            g, gp = gradients(m, ts, zs, pars)
            mon.check(bool(torch.isfinite(g).all()) and all(q is None or bool(torch.isfinite(q).all()) for q in gp), 'gradient-not-finite-at-zero-fields', lambda: (d, 'train' if mode else 'eval', k))
        m.load_state_dict(state)
    # ---------------------------------------------------------------- training mode: the parameters, and the input where it differs
    m.train()
    names, params = [n for n, p in m.named_parameters() if p.requires_grad], [p for p in m.parameters() if p.requires_grad]
    mon.check(all(p.requires_grad or n.split('.')[-1] in ('eps', 'mask') for n, p in m.named_parameters()), 'parameter-not-trainable', lambda: (d, names))
    if params or coupled or stochastic:
        b = 2 if coupled else 1
        xs = fits(m, ts, d, (3, 4, 5, 6, 8, 11), b)
        state = copy.deepcopy(m.state_dict())

        bufs = [(n, v) for n, v in m.named_buffers() if 'running' in n or 'num_batches' in n]

        def value(inp):
            torch.manual_seed(0)
            with torch.no_grad():
                v = float(loss(apply(m, ts, [x.clone() for x in inp])).sum())
                for n, v0 in bufs:                # every evaluation starts from the same statistics
                    v0.copy_(state[n])
            return v

        torch.manual_seed(0)
        g, gp = gradients(m, ts, xs, params)
        if d['m'] in ('NormBatchNorm', 'InducedNormBatchNorm'):
            # they normalise by the accumulated statistics, which are not differentiated: the function is the one they
            # compute with the statistics after this batch
            state = copy.deepcopy(m.state_dict())
            m.eval()
        elif d['m'] == 'GNormBatchNorm':
            # it normalises by the statistics of this batch, which are not differentiated either
            old, m.momentum = m.momentum, 1.
            with torch.no_grad():
                apply(m, ts, [x.clone() for x in xs])
            m.momentum = old
            state = copy.deepcopy(m.state_dict())
            m.eval()
        else:
            with torch.no_grad():
                for n, v0 in bufs:
                    v0.copy_(state[n])
        if coupled or stochastic:
            def q_in(idx, h):
                f = []
                for s in (0., h, -h):
                    col = []
                    for i in idx.tolist():
                        flat = torch.cat([x.reshape(b, -1) for x in xs], 1)
                        flat.view(-1)[i] += s
                        col.append(value(split(flat, [x.shape[1:] for x in xs])))
                    f.append(torch.tensor(col, dtype=torch.float64))
                return f
            verdict(g.reshape(-1), q_in, mon, 'gradient-of-input', (d, 'train'))
        for n, p, q in zip(names, params, gp):
            def q_par(idx, h):
                f = []
                flat = p.detach().view(-1)
                for s in (0., h, -h):
                    col = []
                    for i in idx.tolist():
                        old = float(flat[i])
                        with torch.no_grad():
                            flat[i] = old + s
                        col.append(value(xs))
                        with torch.no_grad():
                            flat[i] = old
                    f.append(torch.tensor(col, dtype=torch.float64))
                return f
            verdict(torch.zeros(p.numel(), dtype=torch.float64) if q is None else q, q_par, mon, 'gradient-of-parameter', (d, n, 'none delivered' if q is None else ''))
            mon.outcome('parameter', d['m'], n.split('.')[-1])
        mon.state(str(d), 'train')
    mon.trace()


# ------------------------------------------------------------------------------------------------- histories

def network(k):
    C4, D4 = zoo.C4, zoo.D4
    I, TR, REG = zoo.I, zoo.TR, zoo.REG
    if k < 3:
        m = ('R2Conv', 'R2ConvTransposed', 'R2Diffop')[k]
        return zoo.entry(m, D4, [I(1, 1), TR], out=[TR, I(1, 1)], kernel_size=3, bias=True)
    if k == 3:
        return zoo.entry('R2Conv', C4, [REG, REG], out=[REG, REG], kernel_size=3, bias=False, groups=2, padding=1)
    if k == 4:
        return zoo.entry('Sequential', C4, [REG, REG], seq='conv-bn-relu')
    if k == 5:
        return zoo.entry('MultipleModule', C4, [REG, TR, I(1), TR], spec='abca')
    return zoo.entry('Sequential', C4, [REG, REG], seq='conv-conv')


OPS = 'TEFULC'       # train, eval, forward and backward, update, reload, copy


def snapshot(m):
    return {n: p.detach().clone() for n, p in m.named_parameters()}, {n: b.detach().clone() for n, b in m.named_buffers() if 'running' in n or 'num_batches' in n}


_REF = {}


def reference(d, par, stat, mode, xs, key):
    """Gradients of a newly built layer with these parameters and statistics (part one shows that they are the derivatives)."""
    if key not in _REF:
        m, ts = zoo.build(d)
        m.train()
        with torch.no_grad():
            for n, p in m.named_parameters():
                p.copy_(par[n])
            for n, b in m.named_buffers():
                if n in stat:
                    b.copy_(stat[n])
        m.train(mode)
        params = list(m.parameters())
        g, gp = gradients(m, ts, xs, params)
        _REF[key] = g, dict(zip([n for n, _ in m.named_parameters()], gp)), snapshot(m)[1]
    return _REF[key]


def near(a, b):
    return a.shape == b.shape and bool(((a - b).abs() <= 1e-4 * max(1., float(b.abs().max()) if b.numel() else 1.)).all())


def history(d, seq, mon):
    m, ts = zoo.build(d)
    zoo.randomise(m)
    m.train()
    xs = [zoo.image(2, t.size, 5, 5) for t in ts]
    mode, acc = True, {}
    par, stat = snapshot(m)
    version = ''          # updates (and the batches seen by the statistics) so far: identifies parameters and statistics
    for pos, op in enumerate(seq):
        mon.trans()
        what = lambda: (d['m'], seq[:pos + 1])
        if op == 'T':
            m.train()
            mode = True
        elif op == 'E':
            m.eval()
            mode = False
        elif op == 'F':
            leaves = [x.clone().requires_grad_(True) for x in xs]
            try:
                loss(apply(m, ts, [x * 1. for x in leaves])).sum().backward()
            except RuntimeError as e:
                mon.fail('backward-fails', lambda: what() + (str(e)[:150],))
                return
            g, gp, st = reference(d, par, stat, mode, xs, (str(d), version, mode))
            mon.check(all(near(x.grad.double().reshape(2, -1), y) for x, y in zip(leaves, [g])) if leaves[0].grad is not None else False, 'gradient-of-input', what)
            for n, p in m.named_parameters():
                got = torch.zeros(p.numel(), dtype=torch.float64) if p.grad is None else p.grad.double().reshape(-1)
                a = acc.get(n, torch.zeros(p.numel(), dtype=torch.float64))
                w = a + (gp[n] if gp[n] is not None else 0)
                ok = near(got, w) or (not mode and near(got, a))
                mon.check(ok, 'gradient-of-parameter', lambda: what() + (n,))
                acc[n] = got
            if mode:
                stat = st
                version += 'F' if stat else ''
        elif op == 'U':
            if not mode:
                return
            with torch.no_grad():
                for n, p in m.named_parameters():
                    if p.grad is not None:
                        p -= .05 * p.grad
                        par[n] = par[n] - (.05 * acc[n]).float().view(par[n].shape)
                    p.grad = None
            acc = {}
            version += 'U(%s)' % ','.join(seq[:pos])
        elif op == 'L':
            sd = {k: v.detach().clone() for k, v in m.state_dict().items()}
            m2, ts = zoo.build(d)
            m2.train(mode)
            m2.load_state_dict(sd)
            m, acc = m2, {}
        elif op == 'C':
            m = copy.deepcopy(m)
            acc = {n: (torch.zeros(p.numel(), dtype=torch.float64) if p.grad is None else p.grad.double().reshape(-1)) for n, p in m.named_parameters()}
        now, _ = snapshot(m)
        mon.check(all(near(now[n], par[n]) for n in par), 'parameters', what)
        mon.state(d['m'], str(d['kw']), seq[:pos + 1])
    mon.trace()
    mon.outcome('history', mode)


def cases(tier):
    q = tier == 'quick'
    z = zoo.zoo(tier)
    if q:
        many = ('PointwiseMaxPool', 'PointwiseAvgPool', 'PointwiseMaxPoolAntialiased', 'PointwiseAvgPoolAntialiased', 'NormMaxPool', 'R2Conv', 'R2Diffop', 'R2ConvTransposed')
        cnt = {}
        keep = []
        for d in z:
            cnt[d['m']] = cnt.get(d['m'], -1) + 1
            if d['m'] not in many or cnt[d['m']] % 3 == 0:
                keep.append(d)
        z = keep
    out = [{'d': z[i:i + 12], 'tier': tier} for i in range(0, len(z), 12)]
    for k in range(7):
        for a in 'TEFUC':
            out.append({'net': k, 'first': a, 'depth': 5 if q else 6})
    return out


def cost(c):
    return 9 if 'net' in c else 1


def run_case(c, mon):
    if 'net' in c:
        _REF.clear()
        d = network(c['net'])
        for n in range(c['depth']):
            for rest in itertools.product(OPS, repeat=n):
                seq = c['first'] + ''.join(rest)
                if seq[-1] != 'F' or any(a == b and a in 'TECL' for a, b in zip(seq, seq[1:])):      # the others are prefixes
                    continue
                history(d, seq, mon)
        mon.sample({'net': c['net'], 'first': c['first'], 'depth': c['depth']})
        return
    for d in c['d']:
        one(d, mon, c['tier'])
    mon.sample(c['d'][0])


def finish(tot, outcomes, tier):
    miss = {d['m'] for d in zoo.zoo(tier)} - {eval(o)[1] for o in outcomes if o.startswith("('ran'")}
    if miss:
        return 'never run: %s' % miss
    for m in ('R2Conv', 'R2ConvTransposed', 'R2Diffop', 'NormNonLinearity', 'GatedNonLinearity1', 'InnerBatchNorm', 'GNormBatchNorm'):
        if not any(o.startswith("('parameter', '%s'" % m) for o in outcomes):
            return 'no parameter of %s was examined' % m
