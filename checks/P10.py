"""P10: every convertible module class in every constructor configuration of the zoo: the converted module and the original
are run in lockstep on an alphabet of images."""
import numpy as np
import torch
from mc import zoo
from e2cnn import nn

PID = 'P10'
BOUNDS = {
    'quick': 'every module class with every constructor configuration of the zoo (about 3900: kernel sizes, strides, paddings, padding modes, dilations, groups, ceil modes, output sizes, scale factors, alphas, probabilities, in place or not, field lists contiguous and interleaved, 13 sequential containers, module lists), converted from training and from evaluation mode; 6 images (generic, negative constant, zero, large, two non-square) each',
    'thorough': 'the larger zoo and batch sizes 1 to 3',
}
ASSUMPTIONS = ['32 bit tensors on the CPU, PyTorch 2.2']
TECHNIQUE = 'exhaustive enumeration of module configurations x inputs, original and converted module explored in lockstep'

# documented limits of the conversion
def may_refuse(d):
    m, kw = d['m'], d['kw']
    if m == 'InnerBatchNorm':
        sizes = []
        for x in d['f']:
            s = zoo.ftype(d['s'], [x]).size
            if not sizes or sizes[-1] != s:
                sizes.append(s)
        return not kw['track_running_stats'] or len(set(sizes)) < len(sizes)
    if m == 'GroupPooling':
        return len({zoo.ftype(d['s'], [x]).size for x in d['f']}) > 1
    return m not in CONVERTIBLE


CONVERTIBLE = {'IdentityModule', 'PointwiseAdaptiveAvgPool', 'PointwiseAdaptiveMaxPool', 'PointwiseMaxPool', 'PointwiseMaxPoolAntialiased', 'Sequential',
               'RestrictionModule', 'ReLU', 'ELU', 'PointwiseDropout', 'R2Conv', 'R2ConvTransposed', 'R2Diffop', 'GroupPooling', 'R2Upsampling', 'InnerBatchNorm'}


def cases(tier):
    z = [d for d in zoo.zoo(tier)]
    conv = [d for d in z if d['m'] in CONVERTIBLE]
    rest = [d for d in z if d['m'] not in CONVERTIBLE]
    out = []
    for l in (conv, rest):
        for i in range(0, len(l), 25):
            out.append({'d': l[i:i + 25], 'tier': tier})
    out.append({'list': True})
    return out


def images(c, tier):
    g = [zoo.image(2, c, 7, 7), torch.full((1, c, 6, 6), -1.5), torch.zeros(1, c, 5, 5), 50 * zoo.image(1, c, 6, 6, 3), zoo.image(2, c, 9, 5, 1), zoo.image(1, c, 11, 10, 2)]
    if tier != 'quick':
        g += [zoo.image(1, c, 8, 8, 5), zoo.image(3, c, 5, 8, 7), -zoo.image(2, c, 7, 7).abs()]
    return g


def run(m, t, x):
    return m(nn.GeometricTensor(x.clone(), t)).tensor.detach().clone()


def close(a, b):
    return a.shape == b.shape and bool(((a - b).abs() <= 1e-4 * max(1., float(b.abs().max()) if b.numel() else 1.)).all())


def one(d, mon, tier):
    for start in ('eval', 'train'):
        try:
            m, ts = zoo.build(d)
        except ValueError as e:
            if d['m'] in ('R2Conv', 'R2Diffop', 'Sequential') and 'basis' in str(e).lower():
                mon.outcome('empty basis')
                return
            raise
        if d['m'] == 'R2ConvTransposed' and m.weights.numel() == 0:      # no equivariant filter exists
            return
        zoo.randomise(m)
        t = ts[0] if isinstance(ts, list) and len(ts) == 1 and d['m'] != 'BranchingModule' else None
        mon.trans()
        ims, before = [], []
        if t is not None:
            m.eval()
            for x in images(t.size, tier):
                try:
                    before.append(run(m, t, x))
                except (RuntimeError, AssertionError, ValueError):      # the window does not fit in this image
                    continue
                ims.append(x)
        m.train(start == 'train')
        params = {k: v.detach().clone() for k, v in m.named_parameters()}
        try:
            e = m.export()
        except (NotImplementedError, ValueError) as ex:
            mon.check(may_refuse(d), 'refused', lambda: (d, repr(ex)))
            mon.outcome('refused', d['m'])
            return
        mon.outcome('converted', d['m'])
        mon.check(isinstance(e, torch.nn.Module) and not isinstance(e, nn.EquivariantModule), 'plain-module', lambda: (d, type(e)))
        if t is None:
            mon.fail('unexpected-conversion', d)
        mon.check(len(ims) > 0, 'no-image', lambda: d)
        for x, y in zip(ims, before):
            mon.trace()
            z = e(x.clone()).detach()
            mon.check(close(z, y), 'same-function', lambda: (d, start, list(x.shape), list(z.shape), list(y.shape), float((z - y).abs().max()) if z.shape == y.shape else None))
            mon.state(str(d), start, tuple(x.shape), float(x.flatten()[0]))
        e.eval()
        for x, y in zip(ims, before):
            z = e(x.clone()).detach()
            mon.check(close(z, y), 'same-function-eval', lambda: (d, start, list(x.shape)))
        # the original still computes its function, also after the converted module was used, trained and changed
        e.train()
        try:
            e(ims[0].clone())
        except (RuntimeError, ValueError):
            pass
        e.eval()
        with torch.no_grad():
            for p in e.parameters():
                p.zero_()
            for n, b in e.named_buffers():
                if b.dtype.is_floating_point and 'running' in n:
                    b.fill_(7.)
        for k, v in m.named_parameters():
            mon.check(torch.equal(v, params[k]), 'original-parameters', lambda: (d, k))
        m.eval()
        for x, y in zip(ims, before):
            mon.check(close(run(m, t, x), y), 'original-function', lambda: (d, start, list(x.shape)))


def run_case(c, mon):
    if 'list' in c:
        return run_list(mon)
    for d in c['d']:
        one(d, mon, c['tier'])
    mon.sample(c['d'][0])


def run_list(mon):
    t = zoo.ftype(zoo.C4, [zoo.REG, zoo.REG])
    ms = [nn.R2Conv(t, t, 3), nn.ReLU(t), nn.PointwiseDropout(t, .5), nn.InnerBatchNorm(t), nn.SequentialModule(nn.R2Conv(t, t, 3), nn.ReLU(t))]
    l = nn.ModuleList(ms)
    zoo.randomise(l)
    x = zoo.image(2, t.size, 7, 7)
    l.eval()
    ys = [run(m, t, x) for m in l]
    l.train()
    e = l.export()
    mon.trans()
    mon.check(isinstance(e, torch.nn.ModuleList) and len(e) == len(ms), 'list-length')
    for a, b, y in zip(e, l, ys):
        mon.trace()
        mon.check(close(a(x.clone()).detach(), y), 'list-same-function', lambda: str(b))
        mon.check(close(run(b.eval(), t, x), y), 'list-original', lambda: str(b))


def finish(tot, outcomes, tier):
    miss = [m for m in CONVERTIBLE if repr(('converted', m)) not in outcomes]
    if miss:
        return 'never converted: %s' % miss
