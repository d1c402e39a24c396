"""C19: distributions agree with their mathematical definitions."""
import sys

import chainer
import chainer.functions as F
import numpy as np
import scipy.optimize
import scipy.special as sp
import scipy.stats as st

from vlib.harness import Check
from vlib import stats
from chainerrl import distribution as D

chk = Check(
    'C19',
    'distinct (distribution, parameter regime, batch size, dimension, '
    'Variable or array parameters) situations compared with double precision '
    'closed forms (values, numerical gradients) and sample statistics',
    ['CPU arrays', 'float32; parameters within the representable range'])


def var(x):
    return chainer.Variable(np.asarray(x, dtype=np.float32))


class Softmax(object):
    name = 'softmax'
    discrete = True
    grad = True

    def __init__(self, rng, b):
        self.n = int(rng.randint(1, 7))
        self.beta = float(rng.choice([1., 1., .1, 3., -1.]))
        self.min_prob = float(rng.choice([0, 0, .01, .9 / self.n,
                                          1. / self.n * .999]))
        self.params = [rng.normal(size=(b, self.n)) *
                       rng.choice([.1, 1, 5, 20])]
        if rng.rand() < .1:
            self.params[0][:] = self.params[0][:, :1]
        if rng.rand() < .1:
            self.params[0] += 1000.
        self.regime = (self.beta, self.min_prob > 0, self.n)

    def make(self, params):
        return D.SoftmaxDistribution(params[0], beta=self.beta,
                                     min_prob=self.min_prob)

    def probs(self, params):
        z = self.beta * params[0]
        z = z - z.max(axis=1, keepdims=True)
        e = np.exp(z)
        p = e / e.sum(axis=1, keepdims=True)
        return p * (1 - self.min_prob * self.n) + self.min_prob

    def log_probs(self, params):
        if self.min_prob:
            return np.log(self.probs(params))
        return sp.log_softmax(self.beta * params[0], axis=1)


class Mellowmax(Softmax):
    name = 'mellowmax'
    grad = False     # beta is a constant of the policy, found numerically

    def __init__(self, rng, b):
        self.n = int(rng.randint(1, 6))
        self.omega = float(rng.choice([1., 8., 8., 3., 15.]))
        self.explicit = self.omega != 8. or rng.rand() < .5
        self.params = [rng.normal(size=(b, self.n)) *
                       rng.choice([.1, .5, 1, 2])]
        if rng.rand() < .1:
            self.params[0][:] = self.params[0][:, :1]
        self.regime = (self.omega, self.n)
        self._cache = {}

    def make(self, params):
        if self.explicit:
            return D.MellowmaxDistribution(params[0], omega=self.omega)
        return D.MellowmaxDistribution(params[0])

    def log_probs(self, params):
        out = []
        for v in params[0]:
            k = v.tobytes()
            if k not in self._cache:
                n = len(v)
                mm = (sp.logsumexp(self.omega * v) - np.log(n)) / self.omega
                adv = v - mm

                def f(beta):
                    return float(np.sum(np.exp(beta * adv) * adv))
                beta = 0.
                if f(-10.) * f(10.) < 0:
                    beta = scipy.optimize.brentq(f, -10, 10)
                self._cache[k] = sp.log_softmax(beta * v)
            out.append(self._cache[k])
        return np.array(out)

    def probs(self, params):
        return np.exp(self.log_probs(params))


class Gaussian(object):
    name = 'gaussian'
    discrete = False
    grad = True
    cls = D.GaussianDistribution

    def __init__(self, rng, b):
        self.n = int(rng.randint(1, 5))
        self.params = [rng.normal(size=(b, self.n)) * rng.choice([.1, 1, 10]),
                       np.exp(rng.uniform(-3, 2, size=(b, self.n)))]
        self.regime = (self.n,)

    def make(self, params):
        return self.cls(*params)

    def points(self, rng, k):
        m, v = [np.float32(p).astype(np.float64) for p in self.params]
        return (m + np.sqrt(v) * rng.normal(size=m.shape) *
                rng.choice([.3, 1, 3])).astype('f')

    def log_prob(self, x, params):
        m, v = params
        return st.norm.logpdf(x, m, np.sqrt(v)).sum(axis=1)

    def entropy(self, params):
        return st.norm.entropy(params[0], np.sqrt(params[1])).sum(axis=1)

    def kl(self, p, q):
        return .5 * (np.log(q[1]) - np.log(p[1]) +
                     (p[1] + (p[0] - q[0]) ** 2) / q[1] - 1).sum(axis=1)

    def cdfs(self, params):
        """Marginal cdf of dimension j for row 0."""
        return [(lambda x, j=j: st.norm.cdf(
            x, params[0][0, j], np.sqrt(params[1][0, j])))
            for j in range(self.n)]

    def mode(self, params):
        return params[0]

    def base(self, x):
        return x


class Squashed(Gaussian):
    name = 'squashed'
    cls = D.SquashedGaussianDistribution

    def __init__(self, rng, b):
        super().__init__(rng, b)
        self.params[0] = rng.normal(size=self.params[0].shape) * .7
        self.params[1] = np.exp(rng.uniform(-4, 0, size=self.params[1].shape))

    def points(self, rng, k):
        return np.clip(np.tanh(super().points(rng, k)), -.99, .99).astype('f')

    def log_prob(self, x, params):
        m, v = params
        x = np.asarray(x, np.float64)
        u = np.arctanh(x)
        return (st.norm.logpdf(u, m, np.sqrt(v)) -
                np.log1p(-x ** 2)).sum(axis=1)

    def cdfs(self, params):
        return [(lambda x, j=j: st.norm.cdf(
            np.arctanh(np.clip(x, -1 + 1e-12, 1 - 1e-12)), params[0][0, j],
            np.sqrt(params[1][0, j]))) for j in range(self.n)]

    def mode(self, params):
        # the image of the mode of the underlying Gaussian
        return np.tanh(params[0])

    def base(self, x):
        return np.arctanh(np.clip(x, -1 + 1e-7, 1 - 1e-7))


KINDS = [Softmax, Softmax, Mellowmax, Gaussian, Squashed]


def instance(ctx, b=None):
    rng = ctx.rng
    spec = KINDS[ctx.idx % len(KINDS)](
        rng, int(rng.randint(1, 6)) if b is None else b)
    # references see what single precision makes of the parameters
    spec.params = [np.float32(p).astype(np.float64) for p in spec.params]
    spec.wrapped = rng.rand() < .5
    params = [p.astype('f') for p in spec.params]
    if spec.wrapped:
        params = [chainer.Variable(p) for p in params]
    return spec, spec.make(params), params


def arr(x):
    return np.asarray(x.array, dtype=np.float64)


def numgrad(f, params, i, eps=1e-5):
    """Gradient of sum(f(params)) with respect to params[i]."""
    g = np.zeros_like(params[i])
    for idx in np.ndindex(*g.shape):
        v = []
        for s in (eps, -eps):
            q = [p.copy() for p in params]
            q[i][idx] += s
            v.append(np.sum(f(q)))
        g[idx] = (v[0] - v[1]) / (2 * eps)
    return g


def autograd(f, params):
    """Gradients of sum(f(Variables)) for each parameter."""
    vs = [var(p) for p in params]
    with chainer.using_config('enable_backprop', True):
        y = F.sum(f(vs))
        for v in vs:
            v.cleargrad()
        y.backward()
    return [np.zeros_like(v.array) if v.grad is None else v.grad for v in vs]


def check_grad(ctx, key, spec, f_impl, f_ref, where):
    """f_impl(distribution) vs f_ref(params)."""
    if not spec.grad:
        return
    gs = autograd(lambda vs: f_impl(spec.make(vs)), spec.params)
    for i, g in enumerate(gs):
        want = numgrad(f_ref, spec.params, i)
        scale = max(1., float(np.abs(want).max()))
        ctx.close(g / scale, want / scale, key, lambda: '{} parameter {}'
                  .format(where, i), rtol=2e-3, atol=1e-3)
    ctx.count('gradients', len(gs))


@chk.scenario(quick=3000, thorough=40000)
def closed_forms(ctx):
    rng = ctx.rng
    spec, d, params = instance(ctx)
    b = len(spec.params[0])
    where = '{} {} {}'.format(spec.name, spec.regime,
                              [p.tolist() for p in spec.params])
    P = spec.params
    # the order of access must not matter
    props = ['params', 'mode', 'entropy', 'prob', 'log_prob', 'kl', 'all',
             'slice', 'copy', 'repr']
    rng.shuffle(props)
    other = None
    for what in props:
        if what == 'params':
            got = d.params
            ctx.require(len(got) == len(P), 'params', where)
            for g, w in zip(got, P):
                ctx.check(isinstance(g, chainer.Variable), 'params-type',
                          where)
                ctx.close(g.array, w, 'params', where)
        elif what == 'mode':
            m = d.most_probable.array
            if spec.discrete:
                ctx.check(m.dtype == np.int32 and m.shape == (b,), 'mode',
                          where)
                pr = spec.probs(P)
                best = pr[np.arange(b), m]
                ctx.check(bool((best >= pr.max(axis=1) - 1e-5).all()),
                          'mode', '{} {}'.format(where, m))
            else:
                ctx.close(m, spec.mode(P), 'mode', where)
        elif what == 'entropy':
            if spec.name == 'squashed':
                continue
            if spec.discrete:
                def ent(Q):
                    lp = spec.log_probs(Q)
                    return -(np.exp(lp) * lp).sum(axis=1)
            else:
                ent = spec.entropy
            ctx.close(d.entropy.array, ent(P), 'entropy', where, rtol=1e-3,
                      atol=2e-4)
            if rng.rand() < .3:
                check_grad(ctx, 'entropy-gradient', spec,
                           lambda x: x.entropy, ent, where)
        elif what in ('prob', 'log_prob'):
            if spec.discrete:
                x = rng.randint(spec.n, size=b).astype('i')
                lp = lambda Q: spec.log_probs(Q)[np.arange(b), x]
                if rng.rand() < .5:
                    xx = chainer.Variable(x)
                else:
                    xx = x
            else:
                x = spec.points(rng, b)
                lp = lambda Q: spec.log_prob(x, Q)
                xx = x
            want = lp(P)
            if what == 'prob':
                ctx.close(d.prob(xx).array, np.exp(want), 'prob',
                          '{} x={}'.format(where, x), rtol=5e-3, atol=1e-5)
                continue
            got = d.log_prob(xx)
            if spec.name == 'mellowmax' or spec.discrete and spec.min_prob:
                # log of a single precision probability
                keep = want > -15
                ctx.close(np.where(keep, got.array, 0), np.where(
                    keep, want, 0), 'log_prob', '{} x={}'.format(where, x),
                    rtol=2e-3, atol=2e-3)
            else:
                ctx.close(got.array, want, 'log_prob', '{} x={}'.format(
                    where, x), rtol=2e-3, atol=2e-3)
            if rng.rand() < .3:
                check_grad(ctx, 'log_prob-gradient', spec,
                           lambda y: y.log_prob(xx), lp, where)
        elif what == 'kl':
            if spec.name == 'squashed':
                continue
            Q = [np.float32(p * np.exp(.3 * rng.normal(size=p.shape)) + (
                .3 * rng.normal(size=p.shape) if i == 0 else 0)).astype(
                    np.float64) for i, p in enumerate(P)]
            if rng.rand() < .15:
                Q = [p.copy() for p in P]
            e = spec.make([var(q) for q in Q])
            if spec.discrete:
                def kl(A, B):
                    la, lb = spec.log_probs(A), spec.log_probs(B)
                    return (np.exp(la) * (la - lb)).sum(axis=1)
            else:
                kl = spec.kl
            for x, y, A, B in ((d, e, P, Q), (e, d, Q, P), (d, d, P, P)):
                want = kl(A, B)
                if spec.discrete and (np.min(spec.log_probs(B)) < -15 or
                                      np.min(spec.log_probs(A)) < -15) \
                        and spec.name == 'mellowmax':
                    continue
                ctx.close(x.kl(y).array, want, 'kl', '{} other={}'.format(
                    where, [q.tolist() for q in Q]), rtol=3e-3,
                    atol=2e-3 if spec.discrete else 1e-3 * (
                        1 + np.abs(want).max()))
            if rng.rand() < .3:
                check_grad(ctx, 'kl-gradient', spec, lambda x: x.kl(e),
                           lambda A: kl(A, Q), where)
                check_grad(ctx, 'kl-gradient', spec, lambda x: e.kl(x),
                           lambda A: kl(Q, A), where)
        elif what == 'all' and spec.discrete:
            ap = d.all_prob.array
            ctx.close(ap, spec.probs(P), 'all_prob', where, rtol=2e-3,
                      atol=1e-4)
            ctx.close(ap.astype(np.float64).sum(axis=1), np.ones(b),
                      'normalisation', where)
            ctx.check(bool((ap >= 0).all()), 'negative', where)
            lp = spec.log_probs(P)
            keep = lp > -15
            ctx.close(np.where(keep, d.all_log_prob.array, 0), np.where(
                keep, lp, 0), 'all_log_prob', where, rtol=2e-3, atol=2e-3)
        elif what == 'slice':
            i = int(rng.randint(b))
            j = int(rng.randint(i + 1, b + 1))
            idx = slice(i, j)
            if rng.rand() < .4:
                idx = [int(k) for k in rng.randint(b, size=rng.randint(1, 4))]
            sub = d[idx]
            ctx.check(type(sub) is type(d), 'slice-type', where)
            sel = [p[idx] for p in P]
            for g, w in zip(sub.params, sel):
                ctx.close(getattr(g, 'array', g), w, 'slice', where)
            if spec.discrete:
                ctx.close(sub.all_prob.array, spec.probs(P)[idx], 'slice',
                          where, rtol=2e-3, atol=1e-4)
            else:
                ctx.close(sub.most_probable.array, spec.mode(sel), 'slice',
                          where)
        elif what == 'copy':
            other = d.copy()
            ctx.check(type(other) is type(d), 'copy-type', where)
            for g, p in zip(other.params, P):
                ctx.close(g.array, p, 'copy', where)
                ctx.check(g.creator is None, 'copy-chained', where)
            if spec.discrete:
                ctx.close(other.all_prob.array, d.all_prob.array, 'copy',
                          where, rtol=0, atol=0)
            else:
                x = spec.points(rng, b)
                ctx.close(other.log_prob(x).array, d.log_prob(x).array,
                          'copy', where)
        elif what == 'repr':
            ctx.check(len(repr(d)) > 0, 'repr', where)
            if other is not None:
                ctx.check(len(repr(other)) > 0, 'repr', where)
    if other is not None:
        # the copy does not follow the original
        keep = [np.array(getattr(p, 'array', p)) for p in other.params]
        for p in params:
            a = getattr(p, 'array', p)
            a += 1
        for g, w in zip(other.params, keep):
            ctx.close(g.array, w, 'copy-aliased', where, rtol=0, atol=0)
    ctx.sig(spec.name, spec.regime, b, spec.wrapped)
    ctx.evals(1)


@chk.scenario(quick=120, thorough=1500)
def samples(ctx):
    """Samples follow the distribution whose log-probability is reported."""
    rng = ctx.rng
    spec, _, _ = instance(ctx, 1)
    n = 6000
    rows = [np.repeat(p, n, axis=0) for p in spec.params]
    if spec.discrete:
        # a second group of rows with other parameters: rows do not mix
        rows[0] = np.concatenate([rows[0], rows[0][:, ::-1]])
    d = spec.make([var(r) for r in rows])
    where = '{} {} {}'.format(spec.name, spec.regime,
                              [p.tolist() for p in spec.params])
    with_lp = rng.rand() < .5
    if with_lp:
        y, lp = d.sample_with_log_prob()
        lp = lp.array
    else:
        y = d.sample()
    y = y.array
    ctx.check(y.shape[0] == len(rows[0]), 'sample-shape', where)
    if spec.discrete:
        ctx.check(y.dtype == np.int32 and y.ndim == 1 and y.min() >= 0 and
                  y.max() < spec.n, 'sample-range', where)
        pr = spec.probs(spec.params)[0]
        for part, probs in ((y[:n], pr), (y[n:], pr[::-1])):
            p = stats.chisq_p(np.bincount(part, minlength=spec.n),
                              np.maximum(probs, 1e-12))
            ctx.check(p > stats.P_ALARM, 'sample-law', lambda: '{}: {} of {}'
                      .format(where, np.bincount(part, minlength=spec.n),
                              probs * n))
        # successive rows are independent
        if spec.n > 1 and .05 < pr.max() < .95:
            k = int(np.argmax(pr))
            a = (y[:n - 1:2] == k)
            c = (y[1:n:2] == k)
            both = int((a & c).sum())
            p = stats.binom_p(both, len(a), pr[k] ** 2)
            ctx.check(p > stats.P_ALARM, 'sample-independence', where)
        if with_lp:
            full = spec.log_probs(spec.params)[0]
            full = np.where(np.arange(2 * n)[:, None] < n, full[None],
                            full[None, ::-1])
            want = full[np.arange(2 * n), y]
            ctx.close(lp, want, 'sample-log-prob', where, rtol=2e-3,
                      atol=3e-3)
    else:
        y = y.astype(np.float64)
        for j, cdf in enumerate(spec.cdfs(spec.params)):
            p = stats.ks_p(y[:, j], cdf)
            ctx.check(p > stats.P_ALARM, 'sample-law', '{} dimension {} p={}'
                      .format(where, j, p))
        z = (spec.base(y) - spec.params[0]) / np.sqrt(spec.params[1])
        for i in range(spec.n):
            for j in range(i):
                r = float(np.mean(z[:, i] * z[:, j]))
                ctx.check(abs(r) * np.sqrt(n) < 8, 'sample-independence',
                          '{} correlation {}'.format(where, r))
        r = float(np.mean(z[:-1, 0] * z[1:, 0]))
        ctx.check(abs(r) * np.sqrt(n) < 8, 'sample-independence',
                  '{} rows correlate {}'.format(where, r))
        if with_lp:
            ok = np.abs(y).max(axis=1) < .999 if spec.name == 'squashed' \
                else np.ones(n, bool)
            want = spec.log_prob(y[ok], spec.params)
            ctx.close(lp[ok], want, 'sample-log-prob', where, rtol=5e-3,
                      atol=.1 if spec.name == 'squashed' else 5e-3)
    ctx.count('samples', len(y))
    ctx.sig(spec.name, spec.regime, with_lp)


@chk.scenario(quick=60, thorough=600)
def squashed_tails(ctx):
    """Samples with their log-probabilities where tanh saturates."""
    rng = ctx.rng
    n = 3000
    m0 = float(rng.uniform(-1, 1) * rng.choice([1, 4, 10, 20]))
    v0 = float(np.exp(rng.uniform(-3, 1.5)))
    m = var(np.full((n, 1), m0))
    v = var(np.full((n, 1), v0))
    np.random.seed(int(rng.randint(1 << 30)))
    y, lp = D.SquashedGaussianDistribution(m, v).sample_with_log_prob()
    where = 'mean {} var {}'.format(m0, v0)
    ctx.check(np.all(np.isfinite(lp.array)), 'tail-log-prob', where)

    def ref_lp(u):
        return st.norm.logpdf(u, m0, np.sqrt(v0)) - 2 * (
            np.log(2.) - u - np.logaddexp(0, -2 * u))
    u = m0 + np.sqrt(v0) * rng.normal(size=4 * n)
    p = st.ks_2samp(lp.array.astype('d'), ref_lp(u)).pvalue
    ctx.check(p > stats.P_ALARM, 'tail-log-prob', lambda: '{}: reported '
              'log-probabilities of samples have mean {}, expected {}'.format(
                  where, lp.array.mean(), ref_lp(u).mean()))
    F.sum(lp).backward()
    # moving the mean moves the sample: only the squashing term changes
    t = np.abs(y.array[:, 0]) > .9999
    if t.any():
        ctx.close(m.grad[t, 0], 2 * np.sign(y.array[t, 0]), 'tail-gradient',
                  where, rtol=0, atol=1e-2)
        ctx.count('saturated_samples', int(t.sum()))
    ctx.sig(round(m0), round(v0, 1))


@chk.scenario(quick=400, thorough=6000)
def extremes(ctx):
    """Very small and large variances, points far out, tiny floors."""
    rng = ctx.rng
    kind = ['softmax', 'gaussian', 'squashed', 'sample'][ctx.idx % 4]
    b, n = int(rng.randint(1, 5)), int(rng.randint(1, 4))
    f32 = lambda x: np.float32(x).astype(np.float64)
    if kind == 'softmax':
        n += 1
        floor = float(10 ** rng.uniform(-6, -1)) / n
        z = rng.normal(size=(b, n)) * rng.choice([5, 30, 100])
        d = D.SoftmaxDistribution(var(z), min_prob=floor)
        z = f32(z)
        p = sp.softmax(z, axis=1) * (1 - n * floor) + floor
        where = 'floor {} logits {}'.format(floor, z.tolist())
        ctx.close(d.all_log_prob.array, np.log(p), 'all_log_prob', where,
                  rtol=1e-4, atol=1e-3)
        ctx.close(d.all_prob.array, p, 'all_prob', where, rtol=1e-3,
                  atol=1e-7)
        ctx.close(d.entropy.array, -(p * np.log(p)).sum(axis=1), 'entropy',
                  where, rtol=1e-3, atol=1e-5)
        ctx.sig(kind, round(np.log10(floor)), n)
        return
    lo, hi = [(-24, 24), (-16, 6), (-8, 6)][
        ['gaussian', 'squashed', 'sample'].index(kind)]
    ln_v = rng.uniform(lo, hi, size=(b, n))
    if kind == 'sample':
        ln_v[:] = ln_v[0, 0]
    v = f32(np.exp(ln_v))
    m = f32(rng.normal(size=(b, n)) * np.sqrt(v) * rng.choice([0, 1, 30]))
    where = '{} mean {} var {}'.format(kind, m.tolist(), v.tolist())
    if kind == 'gaussian':
        d = D.GaussianDistribution(var(m), var(v))
        x = f32(m + np.sqrt(v) * rng.normal(size=m.shape) *
                rng.choice([1, 5, 40]))
        want = st.norm.logpdf(x, m, np.sqrt(v)).sum(axis=1)
        # what rounding x - m to single precision may cost
        z = np.abs(x - m) / np.sqrt(v)
        slack = 1e-3 + (z * 1e-6 * (1 + np.abs(m) / np.sqrt(v))).sum(axis=1) \
            + 1e-5 * (z ** 2 + np.abs(ln_v)).sum(axis=1)
        got = d.log_prob(x.astype('f')).array
        ctx.check(bool((np.abs(got - want) <= slack).all()), 'log_prob',
                  lambda: '{} x {}: {} expected {}'.format(
                      where, x.tolist(), got, want))
        ctx.close(d.entropy.array, st.norm.entropy(m, np.sqrt(v)).sum(axis=1),
                  'entropy', where, rtol=1e-4, atol=1e-3)
        v2 = f32(v * np.exp(rng.normal(size=v.shape) * rng.choice([1, 5])))
        m2 = f32(m + np.sqrt(v2) * rng.normal(size=m.shape) *
                 rng.choice([0, 1, 20]))
        e = D.GaussianDistribution(var(m2), var(v2))
        terms = [np.log(v2), np.log(v), v / v2, (m - m2) ** 2 / v2]
        want = .5 * (terms[0] - terms[1] + terms[2] + terms[3] - 1).sum(
            axis=1)
        slack = 1e-3 + 1e-5 * sum(np.abs(t) for t in terms).sum(axis=1) + (
            np.sqrt(terms[3]) * 1e-6 * (np.abs(m) + np.abs(m2)) /
            np.sqrt(v2)).sum(axis=1)
        got = d.kl(e).array
        ctx.check(bool((np.abs(got - want) <= slack).all()), 'kl',
                  lambda: '{} other {} {}: {} expected {}'.format(
                      where, m2.tolist(), v2.tolist(), got, want))
    elif kind == 'squashed':
        # points whose images are not saturated
        x = f32(np.tanh(rng.uniform(-2, 2, size=m.shape)))
        u = np.arctanh(x)
        m = f32(u + np.sqrt(v) * rng.normal(size=m.shape) *
                rng.choice([1, 5, 40]))
        d = D.SquashedGaussianDistribution(var(m), var(v))
        z = np.abs(u - m) / np.sqrt(v)
        want = (st.norm.logpdf(u, m, np.sqrt(v)) - np.log1p(-x ** 2)).sum(
            axis=1)
        slack = 2e-3 + (z * 5e-6 / np.sqrt(v)).sum(axis=1) + 1e-5 * (
            z ** 2 + np.abs(ln_v)).sum(axis=1) + (1e-11 / v).sum(axis=1)
        got = d.log_prob(x.astype('f')).array
        ctx.check(bool((np.abs(got - want) <= slack).all()), 'log_prob',
                  lambda: 'squashed mean {} var {} x {}: {} expected {}'
                  .format(m.tolist(), v.tolist(), x.tolist(), got, want))
    else:
        k = 4000
        m0, v0 = m[0, 0], v[0, 0]
        ms, vs = var(np.full((k, 1), m0)), var(np.full((k, 1), v0))
        for cls in (D.GaussianDistribution, D.SquashedGaussianDistribution):
            for with_lp in (False, True):
                d = cls(ms, vs)
                y = (d.sample_with_log_prob()[0] if with_lp
                     else d.sample()).array[:, 0].astype('d')
                ctx.check(bool(np.isfinite(y).all()), 'sample-law', where)
                if cls is D.GaussianDistribution:
                    # as multiples of the deviation, within single precision
                    z = (y - m0) / np.sqrt(v0)
                else:
                    c = .999
                    z = (np.arctanh(np.clip(y, -c, c)) - m0) / np.sqrt(v0)
                for q in (-2, -1, -.5, 0, .5, 1, 2):
                    t = q * np.sqrt(v0) + m0
                    if cls is not D.GaussianDistribution and abs(t) > 3:
                        continue
                    ctx.check(stats.binom_p(int((z < q).sum()), k,
                                            float(st.norm.cdf(q))) >
                              stats.P_ALARM, 'sample-law', lambda:
                              '{} {}: {} of {} below {} deviations'.format(
                                  cls.__name__, where, (z < q).sum(), k, q))
    ctx.sig(kind, round(float(ln_v.min()) / 4), round(float(ln_v.max()) / 4))


@chk.scenario(quick=200, thorough=3000)
def reparameterised(ctx):
    """Samples of continuous distributions move with their parameters."""
    rng = ctx.rng
    cls = [Gaussian, Squashed][ctx.idx % 2]
    spec = cls(rng, int(rng.randint(1, 5)))
    spec.params = [np.float32(p).astype(np.float64) for p in spec.params]
    vs = [var(p) for p in spec.params]
    d = spec.make(vs)
    seed = int(rng.randint(1 << 30))
    np.random.seed(seed)
    lp_mode = rng.rand() < .5
    if lp_mode:
        y, lp = d.sample_with_log_prob()
    else:
        y = d.sample()
    z = (spec.base(y.array.astype(np.float64)) - spec.params[0]) / np.sqrt(
        spec.params[1])
    if spec.name == 'squashed' and np.abs(y.array).max() > .995:
        ctx.skip()
    w = rng.normal(size=y.shape)

    def ref(P):
        u = P[0] + np.sqrt(P[1]) * z
        return (np.tanh(u) if spec.name == 'squashed' else u) * w
    F.sum(y * w.astype('f')).backward()
    for i, v in enumerate(vs):
        want = numgrad(ref, spec.params, i)
        scale = max(1., float(np.abs(want).max()))
        ctx.close(v.grad / scale, want / scale, 'sample-gradient',
                  '{} parameter {}'.format(spec.name, i), rtol=1e-2,
                  atol=5e-3)
    if lp_mode:
        vs = [var(p) for p in spec.params]
        np.random.seed(seed)
        y, lp = spec.make(vs).sample_with_log_prob()

        def ref_lp(P):
            u = P[0] + np.sqrt(P[1]) * z
            out = st.norm.logpdf(z) - .5 * np.log(P[1])
            if spec.name == 'squashed':
                out = out - np.log1p(-np.tanh(u) ** 2)
            return out.sum(axis=1)
        if spec.name == 'gaussian':
            # log_prob(sample) as documented: both depend on the parameters
            pass
        F.sum(lp).backward()
        for i, v in enumerate(vs):
            want = numgrad(ref_lp, spec.params, i)
            scale = max(1., float(np.abs(want).max()))
            got = np.zeros_like(want) if v.grad is None else v.grad
            ctx.close(got / scale, want / scale, 'sample-log-prob-gradient',
                      '{} parameter {}'.format(spec.name, i), rtol=2e-2,
                      atol=1e-2)
    ctx.sig(spec.name, spec.regime, lp_mode, len(y))


@chk.scenario(quick=200, thorough=2000)
def deterministic(ctx):
    """ContinuousDeterministicDistribution and clip_actions."""
    rng = ctx.rng
    b, n = int(rng.randint(1, 5)), int(rng.randint(1, 4))
    x = rng.normal(size=(b, n)).astype('f') * 3
    d = D.ContinuousDeterministicDistribution(
        chainer.Variable(x) if rng.rand() < .5 else x)
    for v in (d.sample(), d.most_probable, d.copy().sample(),
              d.copy().most_probable, d.params[0]):
        ctx.close(v.array, x, 'deterministic', rtol=0, atol=0)
    c = d.copy()
    keep = x.copy()
    x += 1
    ctx.close(c.sample().array, keep, 'copy-aliased', rtol=0, atol=0)
    lo = -np.abs(rng.normal(size=n)).astype('f')
    hi = np.abs(rng.normal(size=n)).astype('f')
    v = chainer.Variable(x)
    y = D.clip_actions(v, lo, hi)
    ctx.close(y.array, np.clip(x, lo, hi), 'clip_actions', rtol=0, atol=0)
    ctx.sig(b, n)


if __name__ == '__main__':
    sys.exit(chk.main())
