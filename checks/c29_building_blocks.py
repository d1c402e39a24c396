"""C29: functions, links, policies and value networks compute their
definitions."""
import copy

import chainer
from chainer import functions as F
from chainer import links as L
import gym.spaces
import numpy as np

from vlib import stats
from vlib.harness import Check
from chainerrl import distribution
from chainerrl import functions as CF
from chainerrl.functions.bound_by_tanh import bound_by_tanh
from chainerrl.functions.invert_gradients import invert_gradients
from chainerrl.functions.lower_triangular_matrix import lower_triangular_matrix
from chainerrl.functions.mellowmax import maximum_entropy_mellowmax
from chainerrl.functions.mellowmax import mellowmax
from chainerrl.functions.scale_grad import scale_grad
from chainerrl import initializers
from chainerrl import links
from chainerrl.links.noisy_chain import to_factorized_noisy
from chainerrl.links.noisy_linear import FactorizedNoisyLinear
from chainerrl.misc.init_like_torch import init_like_torch
from chainerrl.optimizers.nonbias_weight_decay import NonbiasWeightDecay
from chainerrl.optimizers.rmsprop_async import RMSpropAsync
from chainerrl import policies
from chainerrl import q_functions
from chainerrl import v_functions

chk = Check(
    'C29',
    'distinct (building block, shape, configuration) combinations whose '
    'values, gradients and bounds were compared with double precision '
    'references recomputed from the parameters',
    ['CPU arrays; float32 inputs'])

NONLIN = {
    'relu': (F.relu, lambda x: np.maximum(x, 0)),
    'tanh': (F.tanh, np.tanh),
    'elu': (F.elu, lambda x: np.where(x >= 0, x, np.expm1(np.minimum(x, 0)))),
    'sigmoid': (F.sigmoid, lambda x: 1 / (1 + np.exp(-x))),
}


def f64(x):
    return np.asarray(getattr(x, 'array', x), dtype=np.float64)


def softplus(x):
    return np.logaddexp(x, 0)


def draw(rng, shape, scale=None):
    scale = rng.choice([0.1, 1, 5]) if scale is None else scale
    return (rng.standard_normal(shape) * scale).astype(np.float32)


def randomize(rng, link, scale=None):
    """Give every parameter (biases too) a random value."""
    for name, p in sorted(link.namedparams()):
        if p.array is None:
            continue
        s = scale or 1.5 / np.sqrt(max(1, p.array[0].size
                                       if p.array.ndim > 1 else 2))
        p.array[...] = rng.standard_normal(p.shape) * s


def lin(layer, h):
    w = f64(layer.W)
    h = h.reshape(len(h), -1)
    y = h.dot(w.T)
    return y if layer.b is None else y + f64(layer.b)


def mlp_ref(m, x, act):
    h = f64(x)
    if m.hidden_sizes:
        for l in m.hidden_layers:
            h = act(lin(l, h))
    return lin(m.output, h)


def shifts(x):
    return np.max(x, axis=1, keepdims=True)


def softmax(x, axis=1):
    e = np.exp(x - x.max(axis=axis, keepdims=True))
    return e / e.sum(axis=axis, keepdims=True)


def pick_nonlin(ctx):
    name = ctx.rng.choice(sorted(NONLIN))
    return (name,) + NONLIN[name]


def independence(ctx, f, x, key, atol=1e-4):
    """f(x)[i] only depends on x[i]."""
    full = f(x)
    n = len(x)
    i = ctx.rng.randint(n)
    alone = f(x[i:i + 1])
    perm = ctx.rng.permutation(n)
    moved = f(x[perm])
    other = x.copy()
    if n > 1:
        j = (i + 1 + ctx.rng.randint(n - 1)) % n
        other[j] = ctx.rng.standard_normal(x[j].shape) * 10
    changed = f(other)
    for a, b, c, d in zip(full, alone, moved, changed):
        scale = atol * (1 + np.abs(a).max())
        ctx.close(b[0], a[i], key + ':alone', 'example alone vs in a batch',
                  atol=scale)
        ctx.close(c, a[perm], key + ':permuted', 'permuted batch', atol=scale)
        ctx.close(d[i], a[i], key + ':neighbour',
                  'another example of the batch changed', atol=scale)


# ---------------------------------------------------------------------------
@chk.scenario(quick=1800, thorough=30000)
def functions(ctx):
    """Values and gradients of chainerrl.functions."""
    rng = ctx.rng
    what = ['arctanh', 'bound', 'invert', 'tril', 'mellowmax', 'muladd',
            'scale', 'sum', 'wsum'][ctx.idx % 9]
    n, m = rng.randint(1, 6), rng.randint(1, 6)
    ctx.sig(what, n, m)

    def run(f, *arrays, **kw):
        vs = [chainer.Variable(a) for a in arrays]
        y = f(*vs, **kw)
        y.grad = draw(rng, y.shape, 1.)
        gy = y.grad.copy()
        y.backward()
        for v, a in zip(vs, keep):
            ctx.check(np.array_equal(v.array, a), what + ':input',
                      'the input was changed')
        return y, f64(gy), [None if v.grad is None else f64(v.grad)
                            for v in vs]

    keep = []

    def args(*arrays):
        keep.extend(a.copy() for a in arrays)
        return arrays

    if what == 'arctanh':
        x = rng.uniform(-.97, .97, size=(n, m)).astype(np.float32)
        y, gy, (gx,) = run(CF.arctanh, *args(x))
        ctx.check(y.dtype == np.float32, 'arctanh:dtype', str(y.dtype))
        ctx.close(f64(y), np.arctanh(f64(x)), 'arctanh', rtol=1e-4)
        ctx.close(gx, gy / (1 - f64(x) ** 2), 'arctanh:grad', rtol=1e-3)
        ctx.close(f64(F.tanh(y)), f64(x), 'arctanh:inverse')
    elif what == 'bound':
        low = draw(rng, (m,))
        high = low + rng.uniform(.1, 6, size=m).astype(np.float32)
        x = draw(rng, (n, m), rng.choice([.5, 3, 1e4]))
        y, gy, (gx,) = run(lambda v: bound_by_tanh(v, low, high), *args(x))
        l, h = f64(low), f64(high)
        t = np.tanh(f64(x))
        ctx.close(f64(y), l + (t + 1) / 2 * (h - l), 'bound_by_tanh')
        eps = 1e-5 * (1 + np.abs(l) + np.abs(h))
        ctx.check((f64(y) >= l - eps).all() and (f64(y) <= h + eps).all(),
                  'bound_by_tanh:range', 'outside the bounds')
        ctx.close(gx, gy * (1 - t ** 2) * (h - l) / 2, 'bound_by_tanh:grad')
    elif what == 'invert':
        scalar = rng.rand() < .3
        low = np.asarray(draw(rng, () if scalar else (m,)))
        high = np.asarray(
            low + rng.uniform(.5, 6, size=low.shape), dtype=np.float32)
        # inside, outside and on the bounds
        u = rng.choice([-.5, 0, .25, .5, .9, 1, 1.5], size=(n, m))
        x = (low + u * (high - low)).astype(np.float32)
        y, gy, (gx,) = run(
            lambda v: invert_gradients(v, range_min=low, range_max=high),
            *args(x))
        ctx.check(np.array_equal(y.array, x), 'invert_gradients:value',
                  'must be the identity')
        l, h = f64(low), f64(high)
        up = (h - f64(x)) / (h - l)
        down = (f64(x) - l) / (h - l)
        ctx.close(gx, gy * np.where(gy < 0, up, down), 'invert_gradients:grad',
                  atol=1e-5)
    elif what == 'tril':
        d, nd = draw(rng, (n, m)), draw(rng, (n, m * (m - 1) // 2))
        if m == 1:
            nd = np.zeros((n, 0), dtype=np.float32)
        y, gy, (gd, gnd) = run(lower_triangular_matrix, *args(d, nd))
        ref, gref = np.zeros((n, m, m)), np.zeros(nd.shape)
        k = 0
        for i in range(m):
            ref[:, i, i] = d[:, i]
            for j in range(i):
                ref[:, i, j] = nd[:, k]
                gref[:, k] = gy[:, i, j]
                k += 1
        ctx.close(f64(y), ref, 'lower_triangular_matrix', rtol=0, atol=0)
        ctx.close(gd, gy[:, range(m), range(m)], 'tril:gdiag')
        ctx.close(gnd, gref, 'tril:gnondiag')
    elif what == 'mellowmax':
        ndim = rng.randint(2, 4)
        axis = rng.randint(ndim)
        x = draw(rng, tuple(rng.randint(1, 5, size=ndim)))
        omega = float(rng.choice([-10, -1, -.1, .1, 1, 5, 30]))
        if axis == 1 and rng.rand() < .5:
            y, gy, (gx,) = run(lambda v: mellowmax(v, omega=omega), *args(x))
        else:
            y, gy, (gx,) = run(
                lambda v: mellowmax(v, omega=omega, axis=axis), *args(x))
        z = omega * f64(x)
        mx = z.max(axis=axis, keepdims=True)
        ref = (np.squeeze(mx, axis) + np.log(
            np.mean(np.exp(z - mx), axis=axis))) / omega
        ctx.close(f64(y), ref, 'mellowmax', atol=1e-4, rtol=1e-3)
        p = softmax(z, axis)
        ctx.close(gx, p * np.expand_dims(gy, axis), 'mellowmax:grad',
                  atol=1e-4)
        lo, hi = f64(x).min(axis=axis), f64(x).max(axis=axis)
        e = 1e-3 * (1 + np.abs(lo) + np.abs(hi))
        ctx.check((f64(y) >= lo - e).all() and (f64(y) <= hi + e).all(),
                  'mellowmax:range', 'outside of [min, max]')
    elif what == 'muladd':
        a, b, c = (draw(rng, (n, m)) for _ in range(3))
        y, gy, (ga, gb, gc) = run(CF.muladd, *args(a, b, c))
        ctx.close(f64(y), f64(a) * b + c, 'muladd')
        ctx.close(ga, gy * b, 'muladd:gx')
        ctx.close(gb, gy * a, 'muladd:gy')
        ctx.close(gc, gy, 'muladd:gz')
    elif what == 'scale':
        x, s = draw(rng, (n, m)), float(rng.choice([-1, 0, .5, 2]))
        y, gy, (gx,) = run(lambda v: scale_grad(v, s), *args(x))
        ctx.check(np.array_equal(y.array, x), 'scale_grad:value', 'changed')
        ctx.close(gx, s * gy, 'scale_grad:grad')
    else:
        k = rng.randint(1, 5)
        xs = [draw(rng, (n, m)) for _ in range(k)]
        ws = [float(w) for w in rng.standard_normal(k)]
        if what == 'sum':
            y, gy, gs = run(lambda *v: CF.sum_arrays(v), *args(*xs))
            ws = [1.] * k
        else:
            y, gy, gs = run(lambda *v: CF.weighted_sum_arrays(v, weights=ws),
                            *args(*xs))
        ctx.close(f64(y), sum(w * f64(x) for w, x in zip(ws, xs)), what)
        for i in range(k):
            ctx.close(gs[i], ws[i] * gy, what + ':grad',
                      'gradient of input {}'.format(i))


@chk.scenario(quick=600, thorough=10000)
def max_entropy_mellowmax(ctx):
    """A categorical distribution whose expectation is mellowmax."""
    rng = ctx.rng
    n, m = rng.randint(1, 5), rng.randint(1, 6)
    extra = (rng.randint(1, 4),) if rng.rand() < .3 else ()
    x = draw(rng, (n, m) + extra, rng.choice([.05, .3, 1, 3]))
    if rng.rand() < .2:
        x[...] = x[:, :1]
    elif rng.rand() < .2:
        x = np.repeat(x, 2, axis=1)
    omega = float(rng.choice([.5, 1, 2, 5, 16, -2]))
    ctx.sig(x.shape, omega, float(np.abs(x).max()))
    beta = rng.choice([3., 10., 50.])
    v = chainer.Variable(x)
    p = maximum_entropy_mellowmax(v, omega=omega, beta_min=-beta,
                                  beta_max=beta)
    pr, q = f64(p), f64(x)
    ctx.check(p.shape == x.shape, 'maxent:shape', str(p.shape))
    ctx.check((pr >= 0).all() and np.allclose(pr.sum(axis=1), 1, atol=1e-4),
              'maxent:distribution', 'not a distribution')
    mm = f64(mellowmax(x, omega=omega))
    for i in np.ndindex(mm.shape):
        idx = i[:1] + (slice(None),) + i[1:]
        adv = q[idx] - mm[i]
        spread = q[idx].max() - q[idx].min()

        def g(b):
            return np.sum(np.exp(b * adv) * adv)
        if spread < 1e-6:
            ctx.close(pr[idx], np.full(x.shape[1], 1. / x.shape[1]),
                      'maxent:equal-values', atol=1e-4)
            continue
        # a Boltzmann distribution: log p is affine in the values
        b = np.polyfit(q[idx], np.log(np.maximum(pr[idx], 1e-300)), 1)[0]
        if pr[idx].min() > 1e-12:
            ctx.close(softmax((b * q[idx])[None])[0], pr[idx],
                      'maxent:boltzmann', atol=1e-3)
        ga, gb = g(-beta), g(beta)
        if ga * gb < 0 and min(abs(ga), abs(gb)) > 1e-3:
            got = (pr[idx] * q[idx]).sum()
            ctx.count('expectations')
            ctx.check(abs(got - mm[i]) < 2e-3 * (1 + spread), 'maxent:mean',
                      lambda: 'expectation {} of the policy differs from '
                      'mellowmax {} ({}, omega {})'.format(
                          got, mm[i], q[idx], omega))


@chk.scenario(quick=600, thorough=8000)
def mlp_and_sequence(ctx):
    """MLP, Sequence and Branched."""
    rng = ctx.rng
    name, act, ref_act = pick_nonlin(ctx)
    n_in, n_out = rng.randint(1, 6), rng.randint(1, 5)
    hidden = tuple(int(h) for h in rng.randint(1, 8, size=rng.randint(0, 6)))
    scale = float(rng.choice([1., 1e-3, 0.]))
    m = links.MLP(n_in, n_out, hidden if rng.rand() < .5 else list(hidden),
                  nonlinearity=act, last_wscale=scale)
    ctx.sig('mlp', name, n_in, n_out, hidden, scale)
    sizes = (n_in,) + hidden + (n_out,)
    shapes = sorted(p.shape for p in m.params() if p.array.ndim == 2)
    ctx.check(shapes == sorted(zip(sizes[1:], sizes[:-1])), 'mlp:shapes',
              str(shapes))
    s = scale / np.sqrt(sizes[-2])
    w = f64(m.output.W)
    ctx.check((np.abs(w) <= 7 * s).all(), 'mlp:last_wscale',
              'weight {} of the last layer with scale {}'.format(
                  np.abs(w).max(), scale))
    if scale and w.size >= 8:
        ctx.check(np.abs(w).max() > 1e-3 * s, 'mlp:last_wscale0',
                  'last layer weights too small: {}'.format(w))
    randomize(rng, m)
    x = draw(rng, (rng.randint(1, 7), n_in))
    ctx.close(f64(m(x)), mlp_ref(m, x, ref_act), 'mlp', rtol=1e-3, atol=1e-3)
    independence(ctx, lambda z: [f64(m(z))], x, 'mlp')

    # Branched
    b = links.Branched(m, links.MLP(n_in, 2, ()), m.copy())
    ys = b(x)
    ctx.check(isinstance(ys, tuple) and len(ys) == 3, 'branched', 'tuple')
    for i, l in enumerate(b):
        ctx.close(f64(ys[i]), f64(l(x)), 'branched:value')

    class Affine(chainer.Link):
        def __init__(self, c):
            super().__init__()
            self.c = c

        def __call__(self, h, shift=0., scale=1.):
            return h * scale * self.c + shift
    b = links.Branched(Affine(1.), Affine(2.))
    sh, sc = [float(q) for q in rng.randint(2, 5, size=2)]
    for ys in (b(x, shift=sh, scale=sc), b(x, sh, scale=sc), b(x, sh, sc)):
        for c, y in zip((1., 2.), ys):
            ctx.close(f64(y), x * sc * c + sh, 'branched:arguments')

    # Sequence: keyword arguments go to the layers that take them
    seen = []

    def plain(h):
        seen.append(('plain', {}))
        return h * 2

    def takes_a(h, a=1):
        seen.append(('a', {'a': a}))
        return h + a

    def takes_kw(h, **kw):
        seen.append(('kw', dict(kw)))
        return h - 1

    def takes_ab(h, b=0, a=0):
        seen.append(('ab', {'a': a, 'b': b}))
        return h * (1 + b) + a
    fs = [plain, takes_a, takes_kw, takes_ab, F.relu, m]
    order = [fs[i] for i in rng.randint(len(fs) - 1, size=rng.randint(1, 5))]
    order.insert(rng.randint(len(order) + 1), m)
    n_first = n_in
    seq = links.Sequence(*order)
    randomize(rng, seq)
    kw = {}
    if rng.rand() < .6:
        kw['a'] = float(rng.randint(2, 9))
    if rng.rand() < .6:
        kw['b'] = float(rng.randint(2, 9))
    x = draw(rng, (3, n_first), 1.)
    y = seq(x, **kw)
    want_seen, h = [], f64(x)
    for f in order:
        a, b = kw.get('a', 1), kw.get('b', 0)
        if f is plain:
            want_seen.append(('plain', {}))
            h = h * 2
        elif f is takes_a:
            want_seen.append(('a', {'a': a}))
            h = h + a
        elif f is takes_kw:
            want_seen.append(('kw', kw))
            h = h - 1
        elif f is takes_ab:
            a = kw.get('a', 0)
            want_seen.append(('ab', {'a': a, 'b': b}))
            h = h * (1 + b) + a
        elif f is F.relu:
            h = np.maximum(h, 0)
        else:
            h = mlp_ref(m, h, ref_act)
    ctx.check(seen == want_seen, 'sequence:arguments', lambda: 'layers got {} '
              'instead of {}'.format(seen, want_seen))
    ctx.close(f64(y), h, 'sequence', rtol=1e-3, atol=1e-2)
    ctx.check(len(list(seq.children())) == 1 and
              set(map(id, seq.params())) == set(map(id, m.params())),
              'sequence:children', 'links of a Sequence are its children')


def bn_ref(bn, h, train, stats_out=None):
    if train:
        mean, var = h.mean(axis=0), h.var(axis=0)
    else:
        mean, var = f64(bn.avg_mean), f64(bn.avg_var)
    return (h - mean) / np.sqrt(var + bn.eps) * f64(bn.gamma) + f64(bn.beta)


def mlpbn_ref(m, x, act, train):
    h = f64(x)
    if m.normalize_input:
        h = bn_ref(m.input_bn, h, train)
    if m.hidden_sizes:
        for l in m.hidden_layers:
            h = act(bn_ref(l.bn, lin(l.linear, h), train))
    h = lin(m.output, h)
    if m.normalize_output:
        h = bn_ref(m.output_bn, h, train)
    return h


def set_bn_stats(rng, link):
    for l in link.links():
        if isinstance(l, L.BatchNormalization):
            l.avg_mean[...] = rng.standard_normal(l.avg_mean.shape)
            l.avg_var[...] = rng.uniform(.2, 3, size=l.avg_var.shape)


@chk.scenario(quick=400, thorough=6000)
def mlp_bn(ctx):
    rng = ctx.rng
    name, act, ref_act = pick_nonlin(ctx)
    n_in, n_out = rng.randint(1, 5), rng.randint(1, 5)
    hidden = tuple(int(h) for h in rng.randint(1, 6, size=rng.randint(0, 5)))
    ni, no = bool(rng.randint(2)), bool(rng.randint(2))
    m = links.MLPBN(n_in, n_out, hidden, normalize_input=ni,
                    normalize_output=no, nonlinearity=act)
    ctx.sig(name, n_in, n_out, hidden, ni, no)
    n_bn = sum(isinstance(l, L.BatchNormalization) for l in m.links())
    ctx.check(n_bn == ni + no + len(hidden), 'mlpbn:layers', str(n_bn))
    x = draw(rng, (rng.randint(4, 9), n_in), 1.)
    with chainer.using_config('train', False):
        # before anything was observed the statistics are those of N(0, 1)
        ctx.close(f64(m(x)), mlpbn_ref(m, x, ref_act, False), 'mlpbn:fresh',
                  rtol=1e-3, atol=1e-3)
        for l in m.links():
            if isinstance(l, L.BatchNormalization):
                ctx.check((l.avg_mean == 0).all() and (l.avg_var == 1).all(),
                          'mlpbn:initial', 'initial statistics')
    randomize(rng, m)
    set_bn_stats(rng, m)
    with chainer.using_config('train', False):
        before = copy.deepcopy([l.avg_mean for l in m.links() if isinstance(
            l, L.BatchNormalization)])
        ctx.close(f64(m(x)), mlpbn_ref(m, x, ref_act, False), 'mlpbn:test',
                  rtol=1e-3, atol=1e-3)
        independence(ctx, lambda z: [f64(m(z))], x, 'mlpbn')
        after = [l.avg_mean for l in m.links() if isinstance(
            l, L.BatchNormalization)]
        ctx.check(all(np.array_equal(a, b) for a, b in zip(before, after)),
                  'mlpbn:statistics', 'statistics changed in test mode')
    ref = mlpbn_ref(m, x, ref_act, True)
    got = f64(m(x))
    ctx.close(got, ref, 'mlpbn:train', rtol=5e-2, atol=5e-2)


# ---------------------------------------------------------------------------
@chk.scenario(quick=300, thorough=4000)
def noisy_linear(ctx):
    """Factorised Gaussian noise."""
    rng = ctx.rng
    n_in, n_out = rng.randint(1, 8), rng.randint(1, 8)
    nobias = rng.rand() < .25
    s0 = float(rng.choice([.4, .1, 2.]))
    lazy = rng.rand() < .2
    base = L.Linear(None if lazy else n_in, n_out, nobias=nobias)
    base.W.name = 'W'
    link = FactorizedNoisyLinear(base, sigma_scale=s0)
    ctx.sig(n_in, n_out, nobias, s0, lazy)
    if lazy:
        link(np.zeros((1, n_in), dtype=np.float32))
    names = sorted(n for n, _ in link.namedparams())
    ctx.check(names == sorted(
        ['/mu/W', '/sigma/W'] + ([] if nobias else ['/mu/b', '/sigma/b'])),
        'noisy:params', str(names))
    # initial values: sigma_scale / sqrt(fan-in); uniform in +-1/sqrt(fan-in)
    ctx.close(f64(link.sigma.W), np.full((n_out, n_in), s0 / np.sqrt(n_in)),
              'noisy:sigma-init')
    lim = 1 / np.sqrt(n_in)
    ctx.check((np.abs(link.mu.W.array) <= lim * (1 + 1e-5)).all() and
              np.abs(link.mu.W.array).max() > 0,
              'noisy:mu-init', 'mu outside of +-1/sqrt(fan in)')
    randomize(rng, link)
    link.sigma.W.array[np.abs(link.sigma.W.array) < .05] = .3
    if not nobias:
        link.sigma.b.array[np.abs(link.sigma.b.array) < .05] = .3
    x = np.concatenate([np.zeros((1, n_in)), np.eye(n_in),
                        rng.standard_normal((3, n_in))]).astype(np.float32)
    rs_y, rs_x, mats = [], [], []
    for k in range(60):
        link.cleargrads()
        y = link(x)
        yy = f64(y)
        b = yy[0]
        w = (yy[1:n_in + 1] - b).T
        # all rows of the batch see the same noisy weights
        ctx.close(yy[n_in + 1:], f64(x[n_in + 1:]).dot(w.T) + b,
                  'noisy:linear', 'output is not linear in the input',
                  rtol=1e-3, atol=1e-3)
        ew = (w - f64(link.mu.W)) / f64(link.sigma.W)
        mats.append(ew)
        if not nobias:
            ey = (b - f64(link.mu.b)) / f64(link.sigma.b)
            j = np.abs(ey).argmax()
            if abs(ey[j]) < .05:
                continue
            ex = ew[j] / ey[j]
            ctx.close(ew, np.outer(ey, ex), 'noisy:factorised',
                      'noise of the weights is not the outer product of '
                      'output noise and input noise', atol=2e-3, rtol=1e-2)
            rs_y.extend(np.sign(ey) * ey ** 2)
            rs_x.extend(np.sign(ex) * ex ** 2)
        else:
            ctx.check(np.abs(b).max() < 1e-6, 'noisy:nobias', str(b))
            sv = np.linalg.svd(ew, compute_uv=False)
            ctx.check((sv[1:] <= 1e-3 * (1 + sv[0])).all(), 'noisy:rank',
                      'noise matrix has rank > 1: {}'.format(sv))
        if k == 0:
            gy = draw(rng, y.shape, 1.)
            y.grad = gy.copy()
            y.backward()
            gw = f64(gy).T.dot(f64(x))
            ctx.close(f64(link.mu.W.grad), gw, 'noisy:gmu', atol=1e-3)
            ctx.close(f64(link.sigma.W.grad), gw * ew, 'noisy:gsigma',
                      rtol=1e-2, atol=2e-2)
            if not nobias:
                gb = f64(gy).sum(axis=0)
                ctx.close(f64(link.mu.b.grad), gb, 'noisy:gmub', atol=1e-3)
                ctx.close(f64(link.sigma.b.grad), gb * ey, 'noisy:gsigmab',
                          rtol=1e-2, atol=2e-2)
    ctx.check(len(set(m.tobytes() for m in mats)) == len(mats),
              'noisy:fresh', 'the same noise was drawn twice')
    for what, r in [('output', rs_y), ('input', rs_x)]:
        if r:
            from scipy import stats as ss
            p = ss.kstest(r, 'norm')[1]
            # the numerical error of the reconstruction is far below this
            ctx.check(p > 1e-9, 'noisy:distribution', '{} noise is not '
                      'sign(r) sqrt|r| with r standard normal, p={}'.format(
                          what, p))
    mean = np.mean(mats, axis=0)
    ctx.check((np.abs(mean) < 1.6).all(), 'noisy:zero-mean', str(mean))
    # the signs of any two components of the noise are independent
    sg = np.sign(mats)
    pairs = [(sg > 0).sum(axis=0)]              # output i and input j
    pairs += [(sg[:, i] * sg[:, j] > 0).sum(axis=0)
              for i in range(n_out) for j in range(i)]
    pairs += [(sg[:, :, i] * sg[:, :, j] > 0).sum(axis=0)
              for i in range(n_in) for j in range(i)]
    c = np.concatenate([np.ravel(v) for v in pairs])
    worst = int(np.abs(c - len(mats) / 2.).max() + len(mats) / 2.)
    ctx.check(stats.binom_p(worst, len(mats), .5) > 1e-13,
              'noisy:independent', lambda: 'two components of the noise had '
              'the same (or opposite) signs in {} of {} draws'.format(
                  worst, len(mats)))


class OddChain(chainer.Chain):
    def __init__(self, rng):
        super().__init__()
        with self.init_scope():
            self.a = L.Linear(4, 5)
            self.zz = L.Linear(5, 5, nobias=True)
            self.mid = chainer.Sequential(L.Linear(5, 6), F.tanh,
                                          L.Linear(6, 5))
            self.seq = links.Sequence(L.Linear(5, 3), F.relu,
                                      links.MLP(3, 4, (3,)))
            self.lst = chainer.ChainList(L.Linear(4, 4),
                                         chainer.ChainList(L.Linear(4, 2)))
            self.scale = L.Scale(W_shape=(2,))

    def __call__(self, x):
        h = self.zz(F.relu(self.a(x)))
        h = self.seq(self.mid(h))
        h = self.lst[1][0](self.lst[0](h))
        return self.scale(h)


@chk.scenario(quick=200, thorough=2500)
def to_noisy(ctx):
    """to_factorized_noisy replaces every linear component."""
    rng = ctx.rng
    kind = ['odd', 'mlp', 'sequence', 'sequential', 'chainlist', 'dueling'][
        rng.choice(6, p=[.3, .2, .2, .13, .13, .04])]
    n_in = 4
    if kind == 'odd':
        m = OddChain(rng)
    elif kind == 'mlp':
        m = links.MLP(4, 3, tuple(rng.randint(1, 5, size=rng.randint(0, 3))))
    elif kind == 'sequence':
        m = links.Sequence(L.Linear(4, 3), F.tanh,
                           links.Branched(L.Linear(3, 2), L.Linear(3, 1)),
                           lambda h: F.concat(h))
    elif kind == 'sequential':
        m = chainer.Sequential(F.tanh, L.Linear(4, 3), L.Linear(3, 3))
    elif kind == 'chainlist':
        m = links.Branched(links.MLP(4, 3, (2,)), L.Linear(4, 2))
    else:
        m = q_functions.DuelingDQN(n_actions=3, n_input_channels=1)
    s0 = float(rng.choice([.4, .2]))
    ctx.sig(kind, s0, sum(1 for _ in m.links()))
    randomize(rng, m)
    if kind == 'dueling':
        x = rng.rand(2, 1, 84, 84).astype(np.float32)
    else:
        x = draw(rng, (3, n_in), 1.)

    def call(l):
        y = l(x)
        if isinstance(y, tuple):
            y = F.concat(y)
        return f64(y.q_values if kind == 'dueling' else y)
    noisy = copy.deepcopy(m)
    to_factorized_noisy(noisy, sigma_scale=s0)
    before = {n: l for n, l in m.namedlinks()}
    after = {n: l for n, l in noisy.namedlinks()}
    linears = [n for n, l in before.items() if isinstance(l, L.Linear)]
    for n, l in before.items():
        if n in linears:
            new = after.get(n)
            if not ctx.check(isinstance(new, FactorizedNoisyLinear),
                             'to_noisy:replaced', lambda: '{} of {} is {} '
                             'afterwards'.format(n, kind, type(new))):
                return
            ctx.check(new.mu.W.shape == l.W.shape and
                      (new.mu.b is None) == (l.b is None), 'to_noisy:shape',
                      n)
            ctx.close(f64(new.sigma.W).max(), s0 / np.sqrt(l.W.shape[1]),
                      'to_noisy:sigma', 'sigma_scale is not passed on')
            new.mu.W.array[...] = l.W.array
            if l.b is not None:
                new.mu.b.array[...] = l.b.array
        else:
            ctx.check(type(after.get(n)) is type(l), 'to_noisy:kept',
                      lambda: '{} became {}'.format(n, type(after.get(n))))
    n_par = sum(1 for _ in m.params())
    n_lin = sum(2 if before[n].b is not None else 1 for n in linears)
    ctx.check(sum(1 for _ in noisy.params()) == n_par + n_lin,
              'to_noisy:params', 'every linear layer has mu and sigma')
    y1, y2 = call(noisy), call(noisy)
    ctx.check(not np.allclose(y1, y2) or np.allclose(y1, 0),
              'to_noisy:noise', 'two calls gave the same output')
    # every noisy layer is used
    with_grad = noisy(x)
    if isinstance(with_grad, tuple):
        with_grad = F.concat(with_grad)
    if kind == 'dueling':
        with_grad = with_grad.q_values
    noisy.cleargrads()
    F.sum(with_grad * draw(rng, with_grad.shape, 1.)).backward()
    for n in linears:
        ctx.check(after[n].sigma.W.grad is not None, 'to_noisy:used',
                  '{} takes no part in the computation'.format(n))
    for n in linears:
        after[n].sigma.W.array[...] = 0
        if after[n].sigma.b is not None:
            after[n].sigma.b.array[...] = 0
    ctx.close(call(noisy), call(m), 'to_noisy:mean', 'without noise the '
              'converted link must compute the original function',
              rtol=1e-3, atol=1e-3)


# ---------------------------------------------------------------------------
def action_bounds(rng, k):
    low = rng.uniform(-3, 1, size=k).astype(np.float32)
    high = (low + rng.uniform(.2, 4, size=k)).astype(np.float32)
    return low, high


def bound_ref(y, low, high):
    low, high = f64(low), f64(high)
    return (low + high) / 2 + np.tanh(y) * (high - low) / 2


@chk.scenario(quick=1000, thorough=12000)
def policy_networks(ctx):
    rng = ctx.rng
    kind = ['det', 'detbn', 'gauss', 'indep', 'fixed', 'head', 'softmax',
            'fcsoftmax', 'mellow', 'filter'][ctx.idx % 10]
    name, act, ref_act = pick_nonlin(ctx)
    n_in, k = rng.randint(1, 5), rng.randint(1, 4)
    nl, nc = int(rng.randint(0, 3)), int(rng.randint(1, 6))
    low, high = action_bounds(rng, k)
    bound = bool(rng.randint(2))
    x = draw(rng, (rng.randint(2, 7), n_in))
    ctx.sig(kind, name, n_in, k, nl, nc, bound)
    eps = 1e-5 * (1 + np.abs(low) + np.abs(high))

    def in_bounds(a, what):
        a = f64(a)
        ctx.check((a >= low - eps).all() and (a <= high + eps).all(),
                  kind + ':bounds', '{} outside of [{}, {}]: {}'.format(
                      what, low, high, a))

    if kind in ('det', 'detbn'):
        kw = dict(nonlinearity=act, bound_action=bound, min_action=low,
                  max_action=high, last_wscale=1.)
        if not bound and rng.rand() < .5:
            kw['min_action'] = kw['max_action'] = None
        if kind == 'det':
            p = policies.FCDeterministicPolicy(n_in, nl, nc, k, **kw)
        else:
            ni = bool(rng.randint(2))
            p = policies.FCBNDeterministicPolicy(
                n_in, nl, nc, k, normalize_input=ni, **kw)
        randomize(rng, p)
        set_bn_stats(rng, p)

        def f(z):
            d = p(z)
            with chainer.no_backprop_mode():
                a = d.sample()
            ctx.close(f64(a), f64(d.most_probable), kind + ':sample',
                      'deterministic policy')
            return [f64(a)]
        with chainer.using_config('train', False):
            y = mlp_ref(p.model, x, ref_act) if kind == 'det' else mlpbn_ref(
                p.model, x, ref_act, False)
            got = f(x)[0]
            ctx.close(got, bound_ref(y, low, high) if bound else y, kind,
                      rtol=2e-3, atol=2e-3)
            if bound:
                in_bounds(got, 'action')
            independence(ctx, f, x, kind)
    elif kind == 'filter':
        calls = []

        def model_call(m, z):
            calls.append(m)
            return m(z) * 2
        m = links.MLP(n_in, k, (nc,))
        randomize(rng, m)
        use_call, use_filter = bool(rng.randint(2)), bool(rng.randint(2))
        p = policies.ContinuousDeterministicPolicy(
            m, model_call=model_call if use_call else None,
            action_filter=(lambda h: h + 1) if use_filter else None)
        y = mlp_ref(m, x, NONLIN['relu'][1]) * (2 if use_call else 1) + (
            1 if use_filter else 0)
        ctx.close(f64(p(x).sample()), y, 'filter', rtol=2e-3, atol=2e-3)
        ctx.check(set(map(id, p.params())) == set(map(id, m.params())),
                  'filter:params', 'parameters are those of the model')
    elif kind in ('gauss', 'indep', 'fixed', 'head'):
        vt = ['spherical', 'diagonal'][rng.randint(2)]
        kw = dict(n_hidden_layers=nl, n_hidden_channels=nc, min_action=low,
                  max_action=high, bound_mean=bound, nonlinearity=act)
        if nl == 0 and rng.rand() < .5:
            del kw['n_hidden_layers'], kw['n_hidden_channels']
        vf, vref = [(F.softplus, softplus), (F.exp, np.exp)][rng.randint(2)]
        if kind == 'gauss':
            mv = float(rng.choice([0, .01, 1.]))
            vb = float(rng.choice([0, -3, 2]))
            p = policies.FCGaussianPolicy(n_in, k, var_type=vt, min_var=mv,
                                          var_bias=vb, **kw)
            ctx.check((p.var_layer.b.array == vb).all() and
                      (p.mean_layer.b.array == 0).all(), 'gauss:var_bias',
                      'initial bias of the variance layer')
            randomize(rng, p)
            h = f64(x)
            for l in p.hidden_layers:
                h = ref_act(lin(l, h))
            ctx.check(len(list(p.hidden_layers)) == nl, 'gauss:layers', '')
            mean, var = lin(p.mean_layer, h), softplus(
                lin(p.var_layer, h)) + mv
            if bound:
                mean = bound_ref(mean, low, high)
            var = np.broadcast_to(var, mean.shape)
            got = p(x)
            ctx.check((f64(got.var) >= mv * (1 - 1e-5)).all(),
                      'gauss:min_var', 'below')
            if vt == 'spherical':
                ctx.check(p.var_layer.W.shape[0] == 1, 'gauss:spherical', '')
        elif kind == 'fixed':
            v = float(rng.uniform(.1, 3))
            if rng.rand() < .5:
                v = rng.uniform(.1, 3, size=k).astype(np.float32)
            p = policies.FCGaussianPolicyWithFixedCovariance(
                n_in, k, v, **kw)
            randomize(rng, p)
            ls = [l for l in p.children()]
            ctx.check(len(ls) == nl + 1, 'fixed:layers', str(len(ls)))
            h = f64(x)
            for l in ls[:-1]:
                h = ref_act(lin(l, h))
            mean = lin(ls[-1], h)
            if bound:
                mean = bound_ref(mean, low, high)
            var = np.broadcast_to(v, mean.shape)
            got = p(x)
        elif kind == 'indep':
            p0 = float(rng.uniform(-1, 1))
            p = policies.FCGaussianPolicyWithStateIndependentCovariance(
                n_in, k, var_type=vt, var_func=vf, var_param_init=p0, **kw)
            ctx.close(f64(p.var_param), np.full(
                1 if vt == 'spherical' else k, p0), 'indep:init')
            randomize(rng, p)
            ls = [l for l in p.hidden_layers.children()]
            h = f64(x)
            for l in ls[:-1]:
                h = ref_act(lin(l, h))
            mean = lin(ls[-1], h)
            ctx.check(len(ls) == nl + 1, 'indep:layers', str(len(ls)))
            if bound:
                mean = bound_ref(mean, low, high)
            var = np.broadcast_to(vref(f64(p.var_param)), mean.shape)
            got = p(x)
        else:
            p0 = float(rng.uniform(-1, 1))
            p = policies.GaussianHeadWithStateIndependentCovariance(
                k, var_type=vt, var_func=vf, var_param_init=p0)
            ctx.close(f64(p.var_param), np.full(
                1 if vt == 'spherical' else k, p0), 'head:init')
            randomize(rng, p)
            bound = False
            x = draw(rng, (4, k))
            mean = f64(x)
            var = np.broadcast_to(vref(f64(p.var_param)), mean.shape)
            got = p(x if rng.rand() < .5 else chainer.Variable(x))
        ctx.check(isinstance(got, distribution.GaussianDistribution),
                  kind + ':type', str(type(got)))
        ctx.close(f64(got.mean), mean, kind + ':mean', rtol=2e-3, atol=2e-3)
        ctx.close(f64(got.var), var, kind + ':var', rtol=2e-3, atol=1e-4)
        if bound:
            in_bounds(got.mean, 'mean')
        independence(ctx, lambda z: [f64(p(z).mean), f64(p(z).var)], x, kind)
        # the variance parameters are learnable
        lp = F.sum(got.log_prob(f64(x[:, :1] + np.zeros((1, k))).astype('f')))
        p.cleargrads()
        lp.backward()
        ctx.check(all(q.grad is not None for q in p.params()),
                  kind + ':gradients', 'a parameter gets no gradient')
    else:
        beta = float(rng.choice([1., .3, 4.]))
        mp = float(rng.choice([0, .02, .1]))
        if kind == 'fcsoftmax':
            m = policies.FCSoftmaxPolicy(
                n_in, k, n_hidden_layers=nl, n_hidden_channels=nc, beta=beta,
                nonlinearity=act, min_prob=mp)
            mlp = m.model
        else:
            mlp = links.MLP(n_in, k, (nc,) * nl, nonlinearity=act)
            if kind == 'softmax':
                m = policies.SoftmaxPolicy(mlp, beta=beta, min_prob=mp)
            else:
                m = policies.MellowmaxPolicy(mlp, omega=beta)
        randomize(rng, m, .5)
        z = mlp_ref(mlp, x, ref_act)
        if kind == 'mellow':
            want = f64(maximum_entropy_mellowmax(
                z.astype(np.float32), omega=beta))
        else:
            want = softmax(beta * z) * (1 - mp * k) + mp
        got = m(x)
        ctx.close(f64(got.all_prob), want, kind, rtol=5e-3, atol=5e-3)
        if kind != 'mellow':
            independence(ctx, lambda q: [f64(m(q).all_prob)], x, kind)
            ctx.check((f64(got.all_prob) >= mp - 1e-6).all(),
                      kind + ':min_prob', 'below')


@chk.scenario(quick=1000, thorough=12000)
def q_networks(ctx):
    rng = ctx.rng
    kind = ['fc', 'dist', 'quad', 'quadbn', 'sa', 'sabn', 'late', 'latebn',
            'v', 'single'][ctx.idx % 10]
    name, act, ref_act = pick_nonlin(ctx)
    relu = NONLIN['relu'][1]
    n_in, k = int(rng.randint(1, 5)), int(rng.randint(1, 5))
    nl, nc = int(rng.randint(0, 3)), int(rng.randint(1, 6))
    if kind in ('quad', 'quadbn', 'late', 'latebn'):
        nl += 1
    x = draw(rng, (rng.randint(2, 7), n_in), rng.choice([.3, 2.]))
    ctx.sig(kind, name, n_in, k, nl, nc)
    low, high = action_bounds(rng, k)
    tol = dict(rtol=3e-3, atol=3e-3)
    if kind == 'fc':
        q = q_functions.FCStateQFunctionWithDiscreteAction(
            n_in, k, nc, nl, nonlinearity=act)
        randomize(rng, q)
        ref = mlp_ref(q.model, x, ref_act)
        av = q(x)
        ctx.close(f64(av.q_values), ref, 'fc', **tol)
        ctx.check(av.n_actions == k, 'fc:n_actions', '')
        independence(ctx, lambda z: [f64(q(z).q_values)], x, kind)
    elif kind == 'single':
        m = links.MLP(n_in, k, (nc,))
        randomize(rng, m)
        q = q_functions.SingleModelStateQFunctionWithDiscreteAction(m)
        ctx.close(f64(q(x).q_values), mlp_ref(m, x, relu), 'single', **tol)
        v = v_functions.SingleModelVFunction(m)
        ctx.close(f64(v(x)), mlp_ref(m, x, relu), 'single:v', **tol)
        s = q_functions.SingleModelStateActionQFunction(Concat())
        a = draw(rng, (len(x), k), 1.)
        ctx.close(f64(s(x, a)), np.concatenate([x, a], axis=1), 'single:sa')
    elif kind == 'dist':
        na = int(rng.randint(2, 7))
        v_min = float(rng.uniform(-5, 1))
        v_max = v_min + float(rng.uniform(.5, 6))
        q = q_functions.DistributionalFCStateQFunctionWithDiscreteAction(
            n_in, k, na, v_min, v_max, nc, nl, nonlinearity=act)
        randomize(rng, q)
        z = np.linspace(v_min, v_max, na)
        ctx.close(f64(q.z_values), z, 'dist:z', 'atoms')
        mlp = [l for l in q.links() if isinstance(l, links.MLP)][0]
        logits = mlp_ref(mlp, x, ref_act).reshape(len(x), k, na)
        p = softmax(logits, axis=2)
        av = q(x)
        ctx.close(f64(av.q_dist), p, 'dist:atoms', **tol)
        ctx.close(f64(av.q_values), (p * z).sum(axis=2), 'dist:values', **tol)
        independence(ctx, lambda s: [f64(q(s).q_dist)], x, kind)
    elif kind in ('quad', 'quadbn'):
        space = gym.spaces.Box(low=low, high=high, dtype=np.float32)
        scale_mu = bool(rng.randint(2))
        if kind == 'quad':
            q = q_functions.FCQuadraticStateQFunction(
                n_in, k, nc, nl, space, scale_mu=scale_mu)
        else:
            ni = bool(rng.randint(2))
            q = q_functions.FCBNQuadraticStateQFunction(
                n_in, k, nc, nl, space, scale_mu=scale_mu,
                normalize_input=ni)
        randomize(rng, q, .5)
        set_bn_stats(rng, q)
        with chainer.using_config('train', False):
            if kind == 'quad':
                h = f64(x)
                for l in q.hidden_layers:
                    h = relu(lin(l, h))
            else:
                h = mlpbn_ref(q.hidden_layers, x, relu, False)
            v, mu = lin(q.v, h), lin(q.mu, h)
            if scale_mu:
                mu = bound_ref(mu, low, high)
            mat = np.zeros((len(x), k, k))
            d = np.exp(lin(q.mat_diag, h))
            nd = lin(q.mat_non_diag, h) if k > 1 else None
            for i in range(len(x)):
                t = np.diag(d[i])
                if k > 1:
                    t[np.tril_indices(k, -1)] = nd[i]
                mat[i] = t.dot(t.T)
            big = np.abs(mat).max()
            if big > 1e3:
                ctx.skip()
            av = q(x)
            a = draw(rng, (len(x), k), 1.)
            diff = a - mu
            ref = v[:, 0] - .5 * np.einsum('ni,nij,nj->n', diff, mat, diff)
            got = f64(av.evaluate_actions(a))
            ctx.close(got.reshape(-1), ref, kind, rtol=1e-2,
                      atol=1e-2 * (1 + np.abs(ref).max()))
            if scale_mu:
                ctx.close(f64(av.greedy_actions), mu, kind + ':greedy', **tol)
                ctx.close(f64(av.max).reshape(-1), v[:, 0], kind + ':max',
                          **tol)
                # no action is better than the greedy one
                ctx.check((got.reshape(-1) <= f64(av.max).reshape(-1) +
                           1e-3 * (1 + np.abs(ref))).all(), kind + ':concave',
                          'an action is better than the greedy action')
            g = f64(av.greedy_actions)
            e = 1e-5 * (1 + np.abs(low) + np.abs(high))
            ctx.check((g >= low - e).all() and (g <= high + e).all(),
                      kind + ':bounds', 'greedy action outside the space')
            independence(ctx, lambda s: [f64(q(s).greedy_actions),
                                         f64(q(s).max)], x, kind)
    elif kind in ('sa', 'sabn', 'late', 'latebn'):
        a = draw(rng, (len(x), k), 1.)
        kw = dict(nonlinearity=act)
        if kind.endswith('bn'):
            kw['normalize_input'] = bool(rng.randint(2))
        cls = {'sa': q_functions.FCSAQFunction,
               'sabn': q_functions.FCBNSAQFunction,
               'late': q_functions.FCLateActionSAQFunction,
               'latebn': q_functions.FCBNLateActionSAQFunction}[kind]
        q = cls(n_in, k, nc, nl, **kw)
        randomize(rng, q)
        set_bn_stats(rng, q)
        with chainer.using_config('train', False):
            xa = np.concatenate([f64(x), f64(a)], axis=1)
            if kind == 'sa':
                ref = mlp_ref(q, xa, ref_act)
            elif kind == 'sabn':
                ref = mlpbn_ref(q, xa, ref_act, False)
            else:
                h = (mlp_ref(q.obs_mlp, x, None) if kind == 'late' else
                     mlpbn_ref(q.obs_mlp, x, None, False))
                ref = mlp_ref(q.mlp, np.concatenate(
                    [ref_act(h), f64(a)], axis=1), ref_act)
            ctx.close(f64(q(x, a)), ref, kind, **tol)
            both = np.concatenate([x, a], axis=1)
            independence(ctx, lambda z: [f64(q(z[:, :n_in], z[:, n_in:]))],
                         both, kind)
            # gradient with respect to the action
            va = chainer.Variable(a)
            F.sum(q(x, va)).backward()
            if name != 'relu':
                u = rng.standard_normal(a.shape)
                u = (u / np.sqrt((u ** 2).sum())).astype(np.float32)
                h = 1e-2
                num = (f64(q(x, a + h * u)).sum() -
                       f64(q(x, a - h * u)).sum()) / (2 * h)
                ctx.close((f64(va.grad) * u).sum(), num, kind + ':action-grad',
                          rtol=5e-2, atol=5e-2)
    else:
        q = v_functions.FCVFunction(n_in, nl, nc, nonlinearity=act)
        randomize(rng, q)
        ctx.close(f64(q(x)), mlp_ref(q.model, x, ref_act), 'v', **tol)
        independence(ctx, lambda z: [f64(q(z))], x, kind)


class Concat(chainer.Chain):
    def __call__(self, x, a):
        return F.concat((x, a), axis=1)


# ---------------------------------------------------------------------------
def lstm_ref(l, x, c, h):
    z = lin(l.upward, x)
    if h is not None:
        z = z + f64(h).dot(f64(l.lateral.W).T)
    z = z.reshape(len(x), -1, 4)
    a, i, f, o = (z[:, :, j] for j in range(4))

    def sg(v):
        return 1 / (1 + np.exp(-v))
    c = np.tanh(a) * sg(i) + (0 if c is None else sg(f) * c)
    return c, sg(o) * np.tanh(c)


@chk.scenario(quick=300, thorough=4000)
def lstm_networks(ctx):
    """The LSTM models run fc - LSTM - output over a sequence."""
    rng = ctx.rng
    kind = ['q', 'sa', 'det'][ctx.idx % 3]
    name, act, ref_act = pick_nonlin(ctx)
    n_in, k = int(rng.randint(1, 5)), int(rng.randint(1, 4))
    nl, nc = int(rng.randint(0, 3)), int(rng.randint(1, 5))
    low, high = action_bounds(rng, k)
    bound = bool(rng.randint(2))
    if kind == 'q':
        act, ref_act = NONLIN['relu']
        m = q_functions.FCLSTMStateQFunction(n_in, k, nc, nl)
        net = m
    elif kind == 'sa':
        m = q_functions.FCLSTMSAQFunction(n_in, k, nc, nl, nonlinearity=act)
        net = m
    else:
        m = policies.FCLSTMDeterministicPolicy(
            n_in, nl, nc, k, min_action=low, max_action=high,
            bound_action=bound, nonlinearity=act)
        net = m.model
    randomize(rng, m)
    ctx.sig(kind, name, n_in, k, nl, nc, bound)
    c = h = None
    batch = rng.randint(1, 4)
    for t in range(rng.randint(2, 6)):
        if t and rng.rand() < .2:
            m.reset_state()
            c = h = None
        x, a = draw(rng, (batch, n_in), 1.), draw(rng, (batch, k), 1.)
        inp = np.concatenate([x, a], axis=1) if kind == 'sa' else x
        # hidden layers of fc use relu unless told otherwise
        mid = ref_act(mlp_ref(net.fc, inp, ref_act))
        c, h = lstm_ref(net.lstm, mid, c, h)
        want = lin(net.out, h)
        if kind == 'q':
            got = f64(m(x).q_values)
        elif kind == 'sa':
            got = f64(m(x, a))
        else:
            got = f64(m(x).sample())
            if bound:
                want = bound_ref(want, low, high)
        ctx.close(got, want, 'lstm:' + kind, 'step {}'.format(t),
                  rtol=3e-3, atol=3e-3)


# ---------------------------------------------------------------------------
def conv_ref(l, x):
    w, b = f64(l.W), f64(l.b)
    s = l.stride[0]
    kh = w.shape[2]
    win = np.lib.stride_tricks.sliding_window_view(
        x, (kh, kh), axis=(2, 3))[:, :, ::s, ::s]
    return np.einsum('nchwij,ocij->nohw', win, w, optimize=True) + b[
        None, :, None, None]


@chk.scenario(quick=60, thorough=400)
def image_networks(ctx):
    rng = ctx.rng
    kind = ['nature', 'nips', 'dueling', 'distdueling'][ctx.idx % 4]
    name, act, ref_act = pick_nonlin(ctx)
    ch = int(rng.randint(1, 5))
    k = int(rng.randint(1, 5))
    bias = float(rng.choice([.1, 0, -.5]))
    x = rng.rand(2, ch, 84, 84).astype(np.float32)
    ctx.sig(kind, name, ch, k, bias)
    tol = dict(rtol=1e-3, atol=2e-3)
    if kind in ('nature', 'nips'):
        cls = {'nature': links.NatureDQNHead, 'nips': links.NIPSDQNHead}[kind]
        n_out = int(rng.choice([7, 32]))
        m = cls(n_input_channels=ch, n_output_channels=n_out, activation=act,
                bias=bias)
        ctx.check(all((l.b.array == np.float32(bias)).all() for l in m),
                  'head:bias', '')
        h = f64(x)
        for l in list(m)[:-1]:
            h = ref_act(conv_ref(l, h))
        ref = ref_act(lin(m[len(m) - 1], h))
        got = f64(m(x))
        ctx.check(got.shape == (2, n_out), 'head:shape', str(got.shape))
        ctx.close(got, ref, kind, **tol)
        full = got
        alone = f64(m(x[1:]))
    else:
        if kind == 'dueling':
            m = q_functions.DuelingDQN(k, n_input_channels=ch, activation=act,
                                       bias=bias)
        else:
            na = int(rng.randint(2, 6))
            m = q_functions.DistributionalDuelingDQN(
                k, na, -1., 2., n_input_channels=ch, activation=act,
                bias=bias)
        for _, p in m.namedparams():
            p.array[...] += rng.standard_normal(p.shape) * (
                2. / np.sqrt(p.size / len(p.array)) if p.ndim > 1 else .3)
        h = f64(x)
        for l in m.conv_layers:
            h = ref_act(conv_ref(l, h))
        h = h.reshape(2, -1)
        if kind == 'dueling':
            a = mlp_ref(m.a_stream, h, NONLIN['relu'][1])
            v = mlp_ref(m.v_stream, h, NONLIN['relu'][1])
            ref = v + a - a.mean(axis=1, keepdims=True)
            full = f64(m(x).q_values)
            alone = f64(m(x[1:]).q_values)
        else:
            h = ref_act(lin(m.main_stream, h))
            ha, hv = h[:, :512], h[:, 512:]
            a = lin(m.a_stream, ha).reshape(2, k, na)
            v = lin(m.v_stream, hv).reshape(2, 1, na)
            ref = softmax(v + a - a.mean(axis=1, keepdims=True), axis=2)
            full = f64(m(x).q_dist)
            alone = f64(m(x[1:]).q_dist)
            z = np.linspace(-1., 2., na)
            ctx.close(f64(m(x).q_values), (full * z).sum(axis=2),
                      'distdueling:values', **tol)
        s = 1 + np.abs(ref).max()
        ctx.close(full, ref, kind, rtol=1e-3, atol=2e-3 * s)
    ctx.close(alone[0], full[1], kind + ':alone', rtol=1e-3,
              atol=1e-3 * (1 + np.abs(full).max()))


# ---------------------------------------------------------------------------
def scaled_networks(rng):
    """name -> (keyword, make(scale), outputs(net, x, a) that only the scaled
    layer makes depend on the input)."""
    n_in, k, nl, nc = (int(rng.randint(1, 4)), int(rng.randint(1, 4)),
                       int(rng.randint(1, 3)), int(rng.randint(2, 6)))
    low, high = -np.ones(k, 'f'), 2 * np.ones(k, 'f')
    bound = bool(rng.randint(2))
    bkw = dict(min_action=low, max_action=high)
    vt = ['spherical', 'diagonal'][rng.randint(2)]

    def q(net, x, a):
        return net(x, a).array

    def mean(net, x, a):
        return net(x).mean.array

    def var(net, x, a):
        return net(x).var.array

    def det(net, x, a):
        return net(x).most_probable.array

    sa = {}
    for name in ('FCSAQFunction', 'FCLSTMSAQFunction', 'FCBNSAQFunction',
                 'FCBNLateActionSAQFunction', 'FCLateActionSAQFunction'):
        cls = getattr(q_functions, name)
        sa[name] = (lambda s, cls=cls: cls(n_in, k, nc, nl, last_wscale=s), q)
    out = dict(sa)
    for name in ('FCDeterministicPolicy', 'FCBNDeterministicPolicy',
                 'FCLSTMDeterministicPolicy'):
        cls = getattr(policies, name)
        out[name] = (lambda s, cls=cls: cls(
            n_in, nl, nc, k, bound_action=bound, last_wscale=s, **bkw), det)
    g = dict(n_hidden_layers=nl, n_hidden_channels=nc, bound_mean=bound,
             **bkw)
    if rng.rand() < .3:
        g.update(n_hidden_layers=0, n_hidden_channels=None)
    out['FCGaussianPolicy:mean'] = (lambda s: policies.FCGaussianPolicy(
        n_in, k, var_type=vt, mean_wscale=s, **g), mean)
    out['FCGaussianPolicy:var'] = (lambda s: policies.FCGaussianPolicy(
        n_in, k, var_type=vt, var_wscale=s, **g), var)
    out['FCGaussianPolicyWithStateIndependentCovariance'] = (
        lambda s: policies.FCGaussianPolicyWithStateIndependentCovariance(
            n_in, k, var_type=vt, mean_wscale=s, **g), mean)
    out['FCGaussianPolicyWithFixedCovariance'] = (
        lambda s: policies.FCGaussianPolicyWithFixedCovariance(
            n_in, k, var=1., mean_wscale=s, **g), mean)
    out['FCSoftmaxPolicy'] = (lambda s: policies.FCSoftmaxPolicy(
        n_in, k + 1, nl, nc, last_wscale=s),
        lambda net, x, a: net(x).logits.array)
    out['FCVFunction'] = (lambda s: v_functions.FCVFunction(
        n_in, nl, nc, last_wscale=s), lambda net, x, a: net(x).array)
    out['FCStateQFunctionWithDiscreteAction'] = (
        lambda s: q_functions.FCStateQFunctionWithDiscreteAction(
            n_in, k + 1, nc, nl, last_wscale=s),
        lambda net, x, a: net(x).q_values.array)
    out['DistributionalFCStateQFunctionWithDiscreteAction'] = (
        lambda s: q_functions.
        DistributionalFCStateQFunctionWithDiscreteAction(
            n_in, k + 1, 3, -1, 1, nc, nl, last_wscale=s),
        lambda net, x, a: net(x).q_values.array)
    out['MLP'] = (lambda s: links.MLP(n_in, k, (nc,) * nl, last_wscale=s),
                  lambda net, x, a: net(x).array)
    out['MLPBN'] = (lambda s: links.MLPBN(n_in, k, (nc,) * nl,
                                          last_wscale=s),
                    lambda net, x, a: net(x).array)
    return n_in, k, sorted(out.items())


@chk.scenario(quick=300, thorough=3000)
def weight_scales(ctx):
    """The documented scale of the initial last layer is applied to exactly
    the weights of that layer."""
    rng = ctx.rng
    n_in, k, nets = scaled_networks(rng)
    name, (make, f) = nets[ctx.idx % len(nets)]
    s = float(rng.choice([.01, .3, 3.]))
    ctx.sig(name, s, n_in, k)
    seed = int(rng.randint(2 ** 31))
    got = []
    for scale in (1., s, 0.):
        np.random.seed(seed)
        got.append(make(scale))
    one, scaled, zero = got
    ps = dict(scaled.namedparams())
    changed = []
    for n, p in sorted(one.namedparams()):
        a, b = f64(p), f64(ps[n])
        if np.array_equal(a, b):
            continue
        changed.append(n)
        ctx.close(b, s * a, 'wscale:' + name,
                  'initial {} with scale {}'.format(n, s))
    ctx.check(len(changed) == 1, 'wscale:' + name,
              'a scale of {} instead of 1 changes the initial values of {}'
              .format(s, changed))
    x, y = draw(rng, (3, n_in), 1.), draw(rng, (3, n_in), 1.)
    a, b = draw(rng, (3, k), 1.), draw(rng, (3, k), 1.)
    with chainer.using_config('train', False):
        ctx.close(f64(f(zero, x, a)), f64(f(zero, y, b)), 'wscale0:' + name,
                  'the output depends on the input with a scale of 0')


@chk.scenario(quick=20, thorough=100)
def initial_biases(ctx):
    rng = ctx.rng
    bias = float(rng.choice([0., .1, -.5]))
    kind = ['nature', 'nips', 'dueling', 'distributional'][ctx.idx % 4]
    ctx.sig(kind, bias)
    n = int(rng.randint(1, 4))
    if kind == 'nature':
        ls = list(links.NatureDQNHead(n, 8, bias=bias))
    elif kind == 'nips':
        ls = list(links.NIPSDQNHead(n, 8, bias=bias))
    elif kind == 'dueling':
        ls = [l for l in q_functions.DuelingDQN(
            3, n, bias=bias).links() if isinstance(l, L.Convolution2D)]
    else:
        ls = [l for l in q_functions.DistributionalDuelingDQN(
            3, 5, -1, 1, n, bias=bias).links()
            if isinstance(l, L.Convolution2D)]
    for l in ls:
        ctx.close(f64(l.b), np.full(l.b.shape, bias), 'bias:' + kind,
                  'initial bias')
    v = float(rng.choice([-2., 0., 1.5]))
    k = int(rng.randint(1, 4))
    vt = ['spherical', 'diagonal'][rng.randint(2)]
    p = policies.FCGaussianPolicy(2, k, var_type=vt, var_wscale=0.,
                                  var_bias=v, min_var=.25)
    x = draw(rng, (2, 2))
    ctx.close(f64(p(x).var), np.full((2, k), .25 + np.log1p(np.exp(v))),
              'bias:var', rtol=1e-4)
    for q in (policies.FCGaussianPolicyWithStateIndependentCovariance(
            2, k, var_type=vt, var_param_init=v)(x),
            policies.GaussianHeadWithStateIndependentCovariance(
                k, var_type=vt, var_param_init=v)(draw(rng, (2, k)))):
        ctx.close(f64(q.var), np.full((2, k), np.log1p(np.exp(v))),
                  'bias:var_param', rtol=1e-4)


# ---------------------------------------------------------------------------
@chk.scenario(quick=600, thorough=6000)
def initialisers(ctx):
    rng = ctx.rng
    kind = ['constant', 'orthogonal', 'torch'][ctx.idx % 3]
    if kind == 'constant':
        s = float(rng.uniform(.1, 3))
        shape = tuple(rng.randint(1, 6, size=rng.randint(1, 5)))
        if len(shape) == 3:
            shape = shape[:2]
        a = np.empty(shape, dtype=np.float32)
        initializers.VarianceScalingConstant(s)(a)
        fan = shape[0] if len(shape) == 1 else int(np.prod(shape[1:]))
        ctx.sig(kind, shape)
        ctx.close(a, np.full(shape, s / np.sqrt(fan)), 'VarianceScaling',
                  'shape {}'.format(shape))
    elif kind == 'orthogonal':
        shape = tuple(rng.randint(1, 6, size=rng.randint(0, 4)))
        s = float(rng.uniform(.2, 3))
        mode = ['auto', 'projection', 'embedding', 'basis'][rng.randint(4)]
        a = np.full(shape, np.nan, dtype=np.float32)
        ctx.sig(kind, shape, mode)
        n = shape[0] if shape else 1
        k = int(np.prod(shape[1:])) if shape else 1
        bad = bool(shape) and ((mode in ('embedding', 'basis') and k > n) or
                               (mode in ('projection', 'basis') and k < n))
        ini = initializers.Orthogonal(s, mode=mode)
        if bad:
            ctx.raises(ValueError, lambda: ini(a), 'orthogonal:mode',
                       'shape {} accepted in mode {}'.format(shape, mode))
            return
        ini(a)
        m = f64(a).reshape(n, k)
        g = m.dot(m.T) if n <= k else m.T.dot(m)
        ctx.close(g, np.eye(len(g)) * s ** 2, 'orthogonal', atol=1e-4 *
                  s ** 2)
        b = np.empty(shape, dtype=np.float32)
        ini(b)
        if m.size > 1:
            ctx.check(not np.allclose(a, b), 'orthogonal:random', 'repeated')
    else:
        m = chainer.Chain(
            a=L.Linear(int(rng.randint(1, 40)), 8),
            b=L.Linear(5, 30, nobias=True),
            c=L.Convolution2D(3, 10, 3), d=links.MLP(20, 3, (30,)))
        before = {n: p.array.copy() for n, p in m.namedparams()}
        init_like_torch(m)
        ctx.sig(kind, m.a.W.shape)
        us = []
        for path, l in m.namedlinks():
            if isinstance(l, (L.Linear, L.Convolution2D)):
                fan = int(np.prod(l.W.shape[1:]))
                for n in ('W', 'b'):
                    p = getattr(l, n)
                    if p is None:
                        continue
                    ctx.check(not np.array_equal(
                        p.array, before[path + '/' + n]), 'torch:all',
                        'parameter not initialised')
                    u = f64(p) * np.sqrt(fan)
                    ctx.check((np.abs(u) <= 1 + 1e-5).all(), 'torch:bound',
                              'outside of +-1/sqrt(fan in)')
                    us.extend(u.ravel())
        from scipy import stats as ss
        p = ss.kstest(us, 'uniform', args=(-1, 2))[1]
        ctx.check(p > stats.P_ALARM, 'torch:uniform', 'p = {}'.format(p))


@chk.scenario(quick=300, thorough=4000)
def optimizers(ctx):
    """RMSpropAsync and NonbiasWeightDecay follow their formulas."""
    rng = ctx.rng
    m = chainer.Chain(a=L.Linear(3, 2), d=links.MLP(2, 3, (2,)),
                      s=L.Scale(W_shape=(3,), bias_term=True))
    lr, alpha, eps = (float(rng.choice([.01, .3])),
                      float(rng.choice([.5, .99, 0.])),
                      float(rng.choice([1e-8, 1e-2, 1.])))
    rate = float(rng.choice([0., .1, 1.]))
    use_rms = rng.rand() < .7
    use_decay = rng.rand() < .7 or not use_rms
    ctx.sig(lr, alpha, eps, rate, use_rms, use_decay)
    if use_rms:
        default = rng.rand() < .2
        if default:
            lr, alpha, eps = .01, .99, 1e-8
            opt = RMSpropAsync()
        else:
            opt = RMSpropAsync(lr=lr, alpha=alpha, eps=eps)
    else:
        opt = chainer.optimizers.SGD(lr=lr)
    opt.setup(m)
    if use_decay:
        opt.add_hook(NonbiasWeightDecay(rate=rate))
    ref = {n: f64(p).copy() for n, p in m.namedparams()}
    ms = {n: np.zeros(p.shape) for n, p in m.namedparams()}
    for t in range(rng.randint(1, 6)):
        if rng.rand() < .2:
            lr = float(rng.choice([.02, .1]))
            opt.lr = lr
        for n, p in m.namedparams():
            p.grad = draw(rng, p.shape)
        gs = {n: f64(p.grad).copy() for n, p in m.namedparams()}
        opt.update()
        for n, p in m.namedparams():
            g = gs[n]
            is_bias = n.endswith('/b')
            if use_decay and not is_bias:
                g = g + rate * ref[n]
            if use_rms:
                ms[n] = alpha * ms[n] + (1 - alpha) * g * g
                ref[n] = ref[n] - lr * g / np.sqrt(ms[n] + eps)
            else:
                ref[n] = ref[n] - lr * g
            s = 1e-3 * (1 + np.abs(ref[n]).max()) * (t + 1)
            ctx.close(f64(p), ref[n], 'optimizer:' + (
                'bias' if is_bias else 'weight'), 'update {} of {}'.format(
                    t, n), rtol=5e-3, atol=s)


if __name__ == '__main__':
    raise SystemExit(chk.main())
