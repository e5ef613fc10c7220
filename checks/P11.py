"""P11: every module class in every constructor configuration of the zoo x input shapes x modes."""
import itertools
import torch
from mc import zoo
from e2cnn import nn

PID = 'P11'
BOUNDS = {
    'quick': 'every module class with every constructor configuration of the zoo (about 3900) x 8 input shapes (odd, even, rectangular both ways, batch 1 to 3) in evaluation mode, two of them also in training mode',
    'thorough': 'the larger zoo x all heights and widths from 3 to 11 (square and differing by up to 4), both modes',
}
ASSUMPTIONS = ['shapes for which the module can be evaluated (the window fits in the padded image)']
TECHNIQUE = 'exhaustive enumeration of module configurations x input shapes, the announced shape against the tensor returned by the real module'


def shapes(tier):
    if tier == 'quick':
        return [(2, 7, 7), (1, 6, 6), (2, 5, 5), (1, 9, 5), (3, 4, 8), (1, 11, 10), (1, 8, 9), (2, 12, 12)]
    return [(1 + (h + w) % 3, h, w) for h in range(3, 13) for w in range(3, 13) if abs(h - w) <= 4]


def cases(tier):
    z = zoo.zoo(tier)
    return [{'d': z[i:i + 25], 'tier': tier} for i in range(0, len(z), 25)]


def one(d, mon, tier):
    try:
        m, ts = zoo.build(d)
    except ValueError as e:
        if d['m'] in ('R2Conv', 'R2Diffop', 'Sequential') and 'basis' in str(e).lower():
            return
        raise
    if d['m'] == 'R2ConvTransposed' and m.weights.numel() == 0:
        return
    zoo.randomise(m)
    ran = 0
    for mode in (False, True):
        m.train(mode)
        for i, (b, h, w) in enumerate(shapes(tier)):
            if mode and i not in (0, 3) and tier == 'quick':
                continue
            if mode and b == 1 and 'BatchNorm' in d['m']:
                b = 2
            if d['m'] == 'MaskModule':
                if h != w:
                    continue
                h = w = d['kw']['S']
            tt = ts if isinstance(ts, list) else list(ts.values())
            xs = [nn.GeometricTensor(zoo.image(b, t.size, h, w, i), t) for t in tt]
            try:
                y = m(*xs) if isinstance(ts, list) else m(dict(zip(ts, xs)))
            except (RuntimeError, ValueError) as e:      # the window does not fit in this image
                mon.outcome('does not fit', d['m'])
                continue
            ran += 1
            mon.trans()
            mon.trace()
            mon.state(str(d), mode, b, h, w)
            shp = [(b, t.size, h, w) for t in tt]
            a = m.evaluate_output_shape(*shp) if isinstance(ts, list) else m.evaluate_output_shape(**dict(zip(ts, shp)))
            if isinstance(y, dict):
                mon.check(isinstance(a, dict) and set(a) == set(y), 'labels', lambda: (d, a))
                for l in y:
                    mon.check(tuple(a[l]) == tuple(y[l].shape), 'announced-shape', lambda: (d, l, a[l], y[l].shape))
                    mon.check(y[l].shape[1] == m.out_type[l].size and y[l].type == m.out_type[l], 'channels', lambda: (d, l))
                continue
            mon.check(tuple(a) == tuple(y.tensor.shape), 'announced-shape', lambda: (d, mode, shp, tuple(a), tuple(y.tensor.shape)))
            mon.check(all(isinstance(v, int) for v in a), 'shape-of-integers', lambda: (d, a))
            mon.check(y.tensor.shape[1] == m.out_type.size, 'channels', lambda: (d, tuple(y.tensor.shape), m.out_type.size))
            mon.check(y.type == m.out_type, 'type', lambda: d)
    mon.check(ran > 0, 'no-shape-fits', lambda: d)
    mon.outcome('ran', d['m'])


def run_case(c, mon):
    for d in c['d']:
        one(d, mon, c['tier'])
    mon.sample(c['d'][0])


def finish(tot, outcomes, tier):
    miss = {d['m'] for d in zoo.zoo(tier)} - {eval(o)[1] for o in outcomes if o.startswith("('ran'")}
    if miss:
        return 'never run: %s' % miss
