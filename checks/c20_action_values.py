"""C20: action-value objects and distributional projections are exact."""
import sys

import chainer
import chainer.functions as F
import chainer.links as L
import numpy as np
import scipy.special as sp

from vlib.harness import Check
from chainerrl import action_value as A
from chainerrl.agents import categorical_dqn
from chainerrl.agents import iqn

chk = Check(
    'C20',
    'distinct (action-value class, shape, parameter regime, order of access) '
    'and (support, target regime) situations compared with double precision '
    'references',
    ['CPU arrays'])


def var(x):
    return chainer.Variable(np.asarray(x, dtype=np.float32))


def f64(x):
    return np.asarray(getattr(x, 'array', x), dtype=np.float64)


def numgrad(f, x, eps=1e-4):
    g = np.zeros_like(x)
    for idx in np.ndindex(*x.shape):
        v = []
        for s in (eps, -eps):
            q = x.copy()
            q[idx] += s
            v.append(np.sum(f(q)))
        g[idx] = (v[0] - v[1]) / (2 * eps)
    return g


class Discrete(object):
    discrete = True

    def __init__(self, rng):
        self.b, self.n = int(rng.randint(1, 6)), int(rng.randint(1, 6))
        self.p = [rng.normal(size=(self.b, self.n)) * rng.choice([.1, 1, 50])]
        if rng.rand() < .15:
            self.p[0] = np.round(self.p[0])    # ties

    def make(self, vs):
        return A.DiscreteActionValue(*vs)

    def q(self, p):
        return p[0]

    def extra(self, ctx, av, acts, where):
        pass


class Distributional(Discrete):
    def __init__(self, rng):
        self.b, self.n = int(rng.randint(1, 5)), int(rng.randint(1, 5))
        k = int(rng.choice([rng.randint(2, 8), 51, 120]))
        z = rng.normal(size=(self.b, self.n, k)) * 2
        self.p = [sp.softmax(z, axis=2)]
        lo = rng.normal() * 10
        self.z = np.linspace(lo, lo + np.exp(rng.normal()), k).astype('f')

    def make(self, vs):
        return A.DistributionalDiscreteActionValue(vs[0], self.z)

    def q(self, p):
        return (p[0] * self.z.astype(np.float64)).sum(axis=2)

    def extra(self, ctx, av, acts, where):
        rows = np.arange(self.b)
        got = av.evaluate_actions_as_distribution(acts)
        a = getattr(acts, 'array', acts)
        ctx.close(got.array, self.p[0][rows, a], 'distribution-of-action',
                  where)
        g = av.greedy_actions.array
        ctx.close(av.max_as_distribution.array, self.p[0][rows, g],
                  'distribution-of-greedy', where)


class Quantile(Discrete):
    def __init__(self, rng):
        self.b, self.n = int(rng.randint(1, 5)), int(rng.randint(1, 5))
        k = int(rng.choice([rng.randint(1, 8), 32, 64, 200]))
        self.p = [rng.normal(size=(self.b, k, self.n)) * rng.choice([1, 10])]

    def make(self, vs):
        return A.QuantileDiscreteActionValue(vs[0])

    def q(self, p):
        return p[0].mean(axis=1)

    def extra(self, ctx, av, acts, where):
        a = getattr(acts, 'array', acts)
        got = av.evaluate_actions_as_quantiles(acts)
        want = np.stack([self.p[0][i, :, a[i]] for i in range(self.b)])
        ctx.close(got.array, want, 'quantiles-of-action', where)
        ctx.close(got.array.mean(axis=1), self.q(self.p)[
            np.arange(self.b), a], 'quantile-mean', where)


@chk.scenario(quick=2500, thorough=30000)
def discrete_values(ctx):
    rng = ctx.rng
    spec = [Discrete, Distributional, Quantile][ctx.idx % 3](rng)
    spec.p = [np.float32(p).astype(np.float64) for p in spec.p]
    vs = [var(p) for p in spec.p]
    bp = rng.rand() < .5
    with chainer.using_config('enable_backprop', bool(bp)):
        av = spec.make(vs)
    q = spec.q(spec.p)
    rows = np.arange(spec.b)
    where = '{} q={}'.format(type(spec).__name__, q.tolist())
    scale = 1 + np.abs(q).max()
    acts = rng.randint(spec.n, size=spec.b).astype('i')
    acts2 = rng.randint(spec.n, size=spec.b).astype('i')
    va = chainer.Variable(acts) if rng.rand() < .5 else acts
    va2 = chainer.Variable(acts2) if rng.rand() < .5 else acts2
    beta = float(rng.choice([0., 1., -2., 5.]))
    ops = ['q', 'greedy', 'max', 'eval', 'adv', 'double', 'expect', 'slice',
           'extra', 'repr', 'params']
    rng.shuffle(ops)
    at = 1e-5 * scale
    for op in ops:
        if op == 'q':
            ctx.close(av.q_values.array, q, 'q_values', where, atol=at)
            ctx.check(av.n_actions == spec.n, 'n_actions', where)
        elif op == 'greedy':
            g = av.greedy_actions.array
            ctx.check(g.shape == (spec.b,) and g.dtype == np.int32,
                      'greedy', where)
            ctx.check(bool((q[rows, g] >= q.max(axis=1) - at).all()),
                      'greedy', '{} greedy={}'.format(where, g))
        elif op == 'max':
            ctx.close(av.max.array, q.max(axis=1), 'max', where, atol=at)
        elif op == 'eval':
            ctx.close(av.evaluate_actions(va).array, q[rows, acts],
                      'evaluate', where, atol=at)
        elif op == 'adv':
            ctx.close(av.compute_advantage(va).array,
                      q[rows, acts] - q.max(axis=1), 'advantage', where,
                      atol=2 * at)
        elif op == 'double':
            ctx.close(av.compute_double_advantage(va, va2).array,
                      q[rows, acts] - q[rows, acts2], 'double-advantage',
                      where, atol=2 * at)
        elif op == 'expect':
            w = sp.softmax(beta * q, axis=1)
            ctx.close(av.compute_expectation(beta).array,
                      (w * q).sum(axis=1), 'expectation', where, rtol=1e-3,
                      atol=1e-4 * scale * max(1, abs(beta) * scale))
        elif op == 'slice':
            i = int(rng.randint(spec.b))
            j = int(rng.randint(i + 1, spec.b + 1))
            idx = slice(i, j)
            if rng.rand() < .4:
                idx = [int(k) for k in rng.randint(spec.b, size=2)]
            sub = av[idx]
            ctx.check(type(sub) is type(av), 'slice-type', where)
            ctx.close(sub.q_values.array, q[idx], 'slice', where, atol=at)
            ctx.close(sub.max.array, q[idx].max(axis=1), 'slice', where,
                      atol=at)
            ctx.close(sub.evaluate_actions(acts[idx]).array,
                      q[rows, acts][idx], 'slice', where, atol=at)
        elif op == 'extra':
            spec.extra(ctx, av, va, where)
        elif op == 'repr':
            ctx.check(len(repr(av)) > 0, 'repr', where)
        elif op == 'params':
            for g, w in zip(av.params, spec.p):
                ctx.close(g.array, w, 'params', where)
    # gradients
    w = rng.normal(size=spec.b)
    vs = [var(p) for p in spec.p]
    av = spec.make(vs)
    kind = int(rng.randint(3))
    if kind == 0:
        f = lambda p: w * spec.q(p)[rows, acts]
        y = av.evaluate_actions(acts)
    elif kind == 1:
        g = av.greedy_actions.array
        f = lambda p: w * spec.q(p)[rows, g]
        with chainer.no_backprop_mode() if rng.rand() < .3 else \
                chainer.force_backprop_mode():
            y = av.max
    else:
        f = lambda p: w * (sp.softmax(.5 * spec.q(p), axis=1) *
                           spec.q(p)).sum(axis=1)
        y = av.compute_expectation(.5)
    F.sum(y * w.astype('f')).backward()
    want = numgrad(lambda x: f([x]), spec.p[0])
    s = max(1., float(np.abs(want).max()))
    got = vs[0].grad
    if ctx.check(got is not None, 'gradient', where):
        ctx.close(got / s, want / s, 'gradient', '{} kind {}'.format(
            where, kind), rtol=2e-3, atol=2e-3)
    ctx.sig(type(spec).__name__, spec.b, spec.n, tuple(ops), kind)


@chk.scenario(quick=1200, thorough=15000)
def quadratic_values(ctx):
    rng = ctx.rng
    b, n = int(rng.randint(1, 5)), int(rng.randint(1, 5))
    mu = np.float32(rng.normal(size=(b, n)) * rng.choice([.3, 1, 5])).astype(
        np.float64)
    l = np.tril(rng.normal(size=(b, n, n)))
    for k in range(n):
        l[:, k, k] = np.exp(rng.normal(size=b) * .5)
    mat = np.float32(np.matmul(l, l.transpose(0, 2, 1))).astype(np.float64)
    v = np.float32(rng.normal(size=(b, 1) if rng.rand() < .5 else (b,)) *
                   3).astype(np.float64)
    lo = hi = None
    if rng.rand() < .6:
        lo = (-np.abs(rng.normal(size=n))).astype('f')
    if rng.rand() < .6:
        hi = np.abs(rng.normal(size=n)).astype('f')
    vs = [var(mu), var(mat), var(v)]
    av = A.QuadraticActionValue(
        vs[0], vs[1], vs[2],
        min_action=lo if lo is None or rng.rand() < .5 else lo.tolist(),
        max_action=hi)
    where = 'mu={} mat={} v={} lo={} hi={}'.format(
        mu.tolist(), mat.tolist(), v.tolist(), lo, hi)

    def value(u, m=mu, P=mat, vv=v):
        d = u - m
        return vv.reshape(-1) - .5 * np.einsum('bi,bij,bj->b', d, P, d)

    greedy = np.clip(mu, -np.inf if lo is None else lo,
                     np.inf if hi is None else hi)
    acts = rng.normal(size=(b, n)) * 2
    acts = np.float32(acts).astype(np.float64)
    acts2 = np.float32(rng.normal(size=(b, n))).astype(np.float64)
    scale = 1 + np.abs(value(acts)).max() + np.abs(value(greedy)).max() + \
        np.abs(value(acts2)).max()
    at = 1e-5 * scale
    ops = ['greedy', 'max', 'eval', 'adv', 'double', 'slice', 'repr',
           'params']
    rng.shuffle(ops)
    xa = var(acts) if rng.rand() < .5 else acts.astype('f')
    for op in ops:
        if op == 'greedy':
            ctx.close(av.greedy_actions.array, greedy, 'greedy', where)
        elif op == 'max':
            m = av.max.array
            ctx.check(m.shape == (b,), 'max-shape', where)
            ctx.close(m, value(greedy), 'max', where, atol=at)
            if lo is None and hi is None:
                # no action has a higher value
                for _ in range(5):
                    u = mu + rng.normal(size=mu.shape)
                    ctx.check(bool((value(u) <= m + at).all()),
                              'not-the-maximum', where)
        elif op == 'eval':
            ctx.close(av.evaluate_actions(xa).array, value(acts), 'evaluate',
                      where, atol=at)
        elif op == 'adv':
            ctx.close(av.compute_advantage(xa).array,
                      value(acts) - value(greedy), 'advantage', where,
                      atol=2 * at)
        elif op == 'double':
            ctx.close(av.compute_double_advantage(
                xa, acts2.astype('f')).array, value(acts) - value(acts2),
                'double-advantage', where, atol=2 * at)
        elif op == 'slice':
            i = int(rng.randint(b))
            j = int(rng.randint(i + 1, b + 1))
            sub = av[i:j]
            ctx.close(sub.greedy_actions.array, greedy[i:j], 'slice', where)
            ctx.close(sub.evaluate_actions(acts[i:j].astype('f')).array,
                      value(acts)[i:j], 'slice', where, atol=at)
            ctx.close(sub.max.array, value(greedy)[i:j], 'slice', where,
                      atol=at)
        elif op == 'repr':
            ctx.check(len(repr(av)) > 0, 'repr', where)
        elif op == 'params':
            for g, w in zip(av.params, (mu, mat, v)):
                ctx.close(g.array, w, 'params', where)
    # gradients of the values of given actions
    w = rng.normal(size=b)
    F.sum(av.evaluate_actions(xa) * w.astype('f')).backward()
    fs = [lambda x: w * value(acts, m=x), lambda x: w * value(acts, P=x),
          lambda x: w * value(acts, vv=x)]
    for i, (f, p) in enumerate(zip(fs, (mu, mat, v))):
        want = numgrad(f, p)
        s = max(1., float(np.abs(want).max()))
        ctx.close(vs[i].grad / s, want / s, 'gradient', '{} parameter {}'
                  .format(where, i), rtol=2e-3, atol=2e-3)
    ctx.sig(b, n, lo is None, hi is None, tuple(ops))


@chk.scenario(quick=200, thorough=2000)
def single_values(ctx):
    """SingleActionValue defers to its evaluator and maximizer."""
    rng = ctx.rng
    b = int(rng.randint(1, 5))
    s = rng.normal(size=(b, 2)).astype('f')
    calls = []

    def evaluator(a):
        calls.append('e')
        return F.sum((s - a) ** 2, axis=1)

    best = rng.normal(size=(b, 2)).astype('f')

    def maximizer():
        calls.append('m')
        return chainer.Variable(best)
    av = A.SingleActionValue(evaluator, maximizer)
    a, a2 = [rng.normal(size=(b, 2)).astype('f') for _ in range(2)]
    val = lambda u: ((s.astype(np.float64) - u) ** 2).sum(axis=1)
    ctx.close(av.evaluate_actions(a).array, val(a), 'evaluate')
    ctx.close(av.greedy_actions.array, best, 'greedy')
    ctx.close(av.max.array, val(best), 'max')
    ctx.close(av.compute_advantage(a).array, val(a) - val(best), 'advantage')
    ctx.close(av.compute_double_advantage(a, a2).array, val(a) - val(a2),
              'double-advantage')
    ctx.check(calls.count('m') <= 1, 'maximizer-called-repeatedly',
              str(calls))
    ctx.sig(b, ctx.case_seed)


# ------------------------------------------------- categorical projection

def project(y, p, z):
    """Reference by linear interpolation weights, in double precision."""
    y, p, z = [np.asarray(x, np.float64) for x in (y, p, z)]
    out = np.zeros((len(y), len(z)))
    for i in range(len(y)):
        for j in range(y.shape[1]):
            v = min(max(y[i, j], z[0]), z[-1])
            w = np.maximum(0, 1 - np.abs(v - z) / ((z[-1] - z[0]) /
                                                   (len(z) - 1)))
            out[i] += p[i, j] * w / w.sum()
    return out


@chk.scenario(quick=2500, thorough=30000)
def projection(ctx):
    rng = ctx.rng
    fn = categorical_dqn._apply_categorical_projection
    b, k = int(rng.randint(1, 6)), int(rng.choice([2, 3, 5, 11, 51]))
    lo = float(rng.choice([-10., 0., -1., rng.normal() * 5]))
    hi = lo + float(rng.choice([20., 1., .1, np.exp(rng.normal())]))
    z = np.linspace(lo, hi, k, dtype=np.float32)
    p = rng.dirichlet(np.ones(k) * rng.choice([.1, 1, 10]), size=b).astype(
        'f')
    regime = int(rng.randint(7))
    if regime == 0:      # Bellman update
        r = rng.normal(size=(b, 1)) * (hi - lo)
        g = rng.choice([0., .5, .99, 1.], size=(b, 1))
        y = r + g * z[None]
    elif regime == 1:    # exactly the atoms
        y = np.repeat(z[None], b, axis=0)
    elif regime == 2:    # all mass on one value
        y = np.repeat(rng.uniform(lo, hi, size=(b, 1)), k, axis=1)
    elif regime == 3:    # outside
        y = np.where(rng.rand(b, k) < .5, lo - 1 - rng.rand(b, k),
                     hi + 1 + rng.rand(b, k) * 100)
    elif regime == 4:    # atoms in another order
        y = z[rng.randint(k, size=(b, k))]
    elif regime == 5:    # terminal: all mass at the reward
        y = np.repeat(z[rng.randint(k, size=(b, 1))], k, axis=1)
    else:
        y = rng.uniform(lo - .1 * (hi - lo), hi + .1 * (hi - lo),
                        size=(b, k))
    y = np.asarray(y, dtype=np.float32)
    y0, p0, z0 = y.copy(), p.copy(), z.copy()
    got = fn(y, p, z)
    ctx.check(np.array_equal(y, y0) and np.array_equal(p, p0) and
              np.array_equal(z, z0), 'input-changed', '')
    where = 'support [{}, {}] x {} regime {} y={}'.format(
        lo, hi, k, regime, y.tolist() if k < 12 else '...')
    ctx.require(got.shape == (b, k), 'shape', where)
    ctx.check(bool((got >= -1e-6).all()), 'negative', where)
    ctx.close(got.astype(np.float64).sum(axis=1), p.astype(
        np.float64).sum(axis=1), 'mass', where, rtol=1e-4, atol=1e-4)
    # rounding of the support shifts weight between neighbours slightly
    step = (hi - lo) / (k - 1)
    err = 5e-7 * (4 + k) * (abs(lo) + abs(hi) + hi - lo) / step
    ctx.close(got, project(y, p, z), 'projection', where, rtol=1e-3,
              atol=2e-4 + err)
    clipped = np.clip(y.astype(np.float64), lo, hi)
    ctx.close((got * z.astype(np.float64)).sum(axis=1),
              (clipped * p).sum(axis=1), 'mean', where, rtol=1e-3,
              atol=(2e-4 + err) * max(1., hi - lo))
    ctx.sig(b, k, lo, regime)


@chk.scenario(quick=500, thorough=5000)
def cosine_features(ctx):
    """IQN embeds quantile thresholds by cos(pi * i * tau)."""
    rng = ctx.rng
    b, k, n = [int(rng.randint(1, 7)) for _ in range(3)]
    taus = rng.rand(b, k).astype('f')
    if rng.rand() < .2:
        taus[0, 0] = rng.choice([0., 1.])
    got = iqn.cosine_basis_functions(taus, n)
    want = np.cos(np.pi * np.arange(1, n + 1) * taus.astype(np.float64)[
        ..., None])
    ctx.close(got, want, 'cosine-basis', lambda: str(taus.tolist()),
              atol=1e-4)
    link = iqn.CosineBasisLinear(n, 3)
    lin = [m for m in link.links() if isinstance(m, L.Linear)][0]
    ctx.close(link(taus).array, want.dot(lin.W.array.T.astype(
        np.float64)) + lin.b.array, 'cosine-basis-linear', atol=1e-4)
    ctx.sig(b, k, n)


@chk.scenario(quick=200, thorough=2000)
def quantile_q_function(ctx):
    """An implicit quantile Q-function evaluates each (state, tau) pair."""
    rng = ctx.rng
    b, k, n = [int(rng.randint(1, 5)) for _ in range(3)]
    h = 4
    qf = iqn.ImplicitQuantileQFunction(
        psi=chainer.Sequential(L.Linear(2, h), F.tanh),
        phi=chainer.Sequential(iqn.CosineBasisLinear(5, h), F.relu),
        f=L.Linear(h, n))
    for _, p in sorted(qf.namedparams()):
        p.array[...] = rng.normal(size=p.shape)
    x = rng.normal(size=(b, 2)).astype('f')
    taus = rng.rand(b, k).astype('f')
    av = qf(x)(taus)
    ctx.require(isinstance(av, A.QuantileDiscreteActionValue), 'type')
    ctx.require(av.quantiles.shape == (b, k, n), 'shape',
                str(av.quantiles.shape))
    for i in range(b):
        psi = qf.psi(x[i:i + 1]).array.astype(np.float64)
        for j in range(k):
            cos = np.cos(np.pi * np.arange(1, 6) * float(taus[i, j]))
            lin = [m for m in qf.phi.links()
                   if isinstance(m, L.Linear)][0]
            phi = np.maximum(0, lin.W.array.astype(np.float64).dot(cos) +
                             lin.b.array)
            want = (psi[0] * phi).dot(qf.f.W.array.T.astype(
                np.float64)) + qf.f.b.array
            ctx.close(av.quantiles.array[i, j], want, 'quantile',
                      'state {} tau {}'.format(i, j), rtol=1e-3, atol=1e-4)
    ctx.sig(b, k, n)


if __name__ == '__main__':
    sys.exit(chk.main())
