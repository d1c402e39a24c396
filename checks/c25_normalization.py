"""C25: running normalisation equals whole-data statistics."""
import os
import sys

import chainer
from chainer import serializers
import numpy as np

from vlib.harness import Check
from chainerrl.links import EmpiricalNormalization
from chainerrl.misc import reward_filter
from chainerrl.misc.async_ import share_params_as_shared_arrays

chk = Check(
    'C25',
    'distinct (shape, batch axis, split of the data into batches, limit, '
    'clipping, operation mix) histories on which mean, std, outputs and '
    'inverses were compared with statistics of all data recomputed in double '
    'precision',
    ['CPU arrays; data of the declared dtype'])


class Ref(object):
    """All data seen so far, in double precision."""

    def __init__(self, shape, axis, eps, until, clip):
        self.axis, self.eps, self.until, self.clip = axis, eps, until, clip
        self.shape = shape
        self.data = []

    @property
    def n(self):
        return len(self.data)

    def experience(self, x):
        if self.until is not None and self.n >= self.until:
            return False
        x = np.moveaxis(np.asarray(x, dtype=np.float64), self.axis, 0)
        self.data.extend(x)
        return len(x) > 0

    @property
    def mean(self):
        return np.mean(self.data, axis=0) if self.data else np.zeros(
            self.shape)

    @property
    def var(self):
        return np.var(self.data, axis=0) if self.data else np.ones(self.shape)

    def expand(self, v):
        return np.expand_dims(v, self.axis)

    def normalize(self, x, mean=None, var=None):
        mean = self.mean if mean is None else mean
        var = self.var if var is None else var
        y = (np.asarray(x, np.float64) - self.expand(mean)) / np.sqrt(
            self.expand(var) + self.eps)
        if self.clip is not None:
            y = np.clip(y, -self.clip, self.clip)
        return y


def tol(ref):
    """Error of single precision statistics."""
    m, v = np.abs(ref.mean), ref.var
    s = np.sqrt(v)
    return (1e-5 * (m + s) + 1e-6,
            1e-3 * v + 4e-5 * m * s + 1e-6 * m ** 2 + 1e-6)


def near(ctx, got, want, bound, key, msg):
    got = np.asarray(getattr(got, 'array', got), dtype=np.float64)
    if not ctx.check(got.shape == want.shape, key, lambda: '{}: shape {} '
                     'expected {}'.format(msg, got.shape, want.shape)):
        return
    bad = ~(np.abs(got - want) <= bound)
    ctx.check(not bad.any(), key, lambda: '{}: got {} expected {}'.format(
        msg, got[bad][:5], want[bad][:5]))


def check_stats(ctx, en, ref, where):
    bm, bv = tol(ref)
    near(ctx, en.mean, ref.mean, bm, 'mean', where)
    std = np.asarray(en.std, dtype=np.float64)
    # rounding can make the variance of constant data slightly negative
    std = np.where(np.isnan(std) & (ref.var <= bv), 0., std)
    near(ctx, std ** 2, ref.var, bv, 'std', where)
    ctx.check(int(en.count) == ref.n, 'count', lambda: '{}: {} instead of '
              '{}'.format(where, int(en.count), ref.n))


def check_normalize(ctx, en, ref, x, y, key, where, alt=None):
    """y must be x normalised by the statistics of ref (or of alt)."""
    got = np.asarray(getattr(y, 'array', y), dtype=np.float64)
    if not ctx.check(got.shape == x.shape, key, lambda: '{}: shape {} '
                     'expected {}'.format(where, got.shape, x.shape)):
        return

    def fits(mean, var, bm, bv):
        want = ref.normalize(x, mean, var)
        s = np.sqrt(ref.expand(var) + ref.eps)
        raw = np.abs(x - ref.expand(mean))
        # relative change of 1/s caused by an error bv of the variance
        bound = (ref.expand(bm) / s + raw / s * ref.expand(
            bv / (var + ref.eps)) + 1e-4 * np.abs(want) + 1e-5)
        # elements whose variance is known too badly to judge
        vague = np.broadcast_to(ref.expand(bv > .1 * (var + ref.eps)),
                                got.shape)
        ctx.count('outputs_not_judged', vague.sum())
        ctx.count('outputs_judged', (~vague).sum())
        return (np.abs(got - want) <= bound) | vague, want
    cands = [(ref.mean, ref.var) + tol(ref)]
    if alt is not None:
        cands.append(alt)
    res = [fits(*c) for c in cands]
    ok = any(r[0].all() for r in res)
    ctx.check(ok, key, lambda: '{}: {} gives {} expected {}'.format(
        where, x.ravel()[:6], got.ravel()[:6], res[0][1].ravel()[:6]))
    if ref.clip is not None:
        ctx.check(bool((np.abs(got) <= ref.clip * (1 + 1e-6)).all()),
                  'clip', where)


def gen(ctx):
    rng = ctx.rng
    shape = [(), (1,), (3,), (2, 3), (2, 2, 2)][rng.randint(5)]
    if shape == ():
        shape = (1,)
    axis = int(rng.randint(len(shape) + 1))
    eps = float(rng.choice([1e-2, 1e-5, 1.]))
    until = [None, None, 1, 7, 20][rng.randint(5)]
    clip = [None, None, .5, 5.][rng.randint(4)]
    kw = dict(batch_axis=axis, eps=eps, until=until, clip_threshold=clip)
    dtype = np.float64 if rng.rand() < .2 else np.float32
    if dtype is np.float64 or rng.rand() < .3:
        kw['dtype'] = dtype
    en = EmpiricalNormalization(
        shape[0] if len(shape) == 1 and rng.rand() < .5 else shape, **kw)
    ref = Ref(shape, axis, eps, until, clip)
    loc = rng.normal(size=shape) * rng.choice([0, 1, 30, 300])
    scale = np.abs(rng.normal(size=shape)) * rng.choice([0, .01, 1, 20])

    def batch(n, drift=0.):
        x = loc + drift + scale * rng.normal(size=(n,) + shape)
        x = np.moveaxis(x, 0, axis)
        return np.ascontiguousarray(x).astype(dtype)
    return en, ref, batch, kw, shape


@chk.scenario(quick=4000, thorough=60000)
def histories(ctx):
    """Random sequences of experience, normalise, inverse, save and load."""
    rng = ctx.rng
    en, ref, batch, kw, shape = gen(ctx)
    ops = []
    arg = (shape, kw)
    drift = 0.
    for k in range(int(rng.randint(1, 25))):
        if rng.rand() < .2:
            drift += rng.normal() * 10
        op = str(rng.choice(['exp', 'exp', 'exp1', 'call', 'call', 'norm',
                             'inv', 'load', 'load-used', 'copy', 'empty',
                             'share']))
        x = batch(int(rng.randint(1, 12)), drift)
        before = (en.mean.copy(), np.array(en.std), int(en.count))
        where = '{} after {} op {}'.format(arg, ops[-12:], op)
        ops.append(op)
        if op in ('exp', 'exp1'):
            if op == 'exp1':
                x = batch(1, drift)
            x0 = x.copy()
            en.experience(chainer.Variable(x) if rng.rand() < .3 else x)
            ctx.check(np.array_equal(x, x0), 'input-changed', where)
            ref.experience(x)
        elif op == 'empty':
            x = batch(0)
            en.experience(x)
        elif op in ('call', 'norm'):
            update = op == 'call'
            alt = None
            xx = chainer.Variable(x) if rng.rand() < .4 else x
            x0 = x.copy()
            if update:
                y = en(xx) if rng.rand() < .5 else en(xx, update=True)
                alt = (ref.mean, ref.var) + tol(ref)
                ref.experience(x)
            else:
                y = en(xx, update=False)
            ctx.check(np.array_equal(x, x0), 'input-changed', where)
            ctx.check(isinstance(y, type(xx)), 'type', where)
            # with learning, the statistics of before or after the batch
            check_normalize(ctx, en, ref, x, y, 'normalize', where, alt)
        elif op == 'inv':
            y = en(x, update=False)
            z = en.inverse(y)
            if ref.clip is None:
                near(ctx, z, x, 1e-3 * np.abs(x) + 1e-4 * (
                    1 + np.abs(ref.expand(ref.mean))), 'inverse', where)
            w = rng.normal(size=x.shape).astype(x.dtype)
            bm, bv = tol(ref)
            s = np.sqrt(ref.var + ref.eps)
            near(ctx, en.inverse(w), w * ref.expand(s) +
                 ref.expand(ref.mean), ref.expand(bm) + np.abs(w) *
                 ref.expand(bv / s) + 1e-5 * (1 + np.abs(ref.expand(s))),
                 'inverse-value', where)
        elif op in ('load', 'load-used', 'copy'):
            new = EmpiricalNormalization(shape, **kw)
            if op == 'load-used':
                # the link that is loaded into has been in use
                new.experience(batch(4, 50.))
                new(batch(3), update=False)
            if op == 'copy':
                new = en.copy('copy')
            else:
                f = os.path.join(ctx.tmp, 'en.npz')
                serializers.save_npz(f, en)
                serializers.load_npz(f, new)
            a, b = en(x, update=False), new(x, update=False)
            ctx.check(np.array_equal(a, b), 'load', lambda: '{}: outputs '
                      'differ after loading: {} {}'.format(
                          where, a.ravel()[:5], b.ravel()[:5]))
            ctx.check(np.array_equal(en.inverse(x), new.inverse(x)),
                      'load-inverse', where)
            if op == 'copy':
                # the copy is independent
                new.experience(batch(5, 99.))
                ctx.check(np.array_equal(a, en(x, update=False)),
                          'copy-aliased', where)
            else:
                en = new
        elif op == 'share' and rng.rand() < .3:
            share_params_as_shared_arrays(en)
            a = en(x, update=False)
            check_normalize(ctx, en, ref, x, a, 'shared', where)
        if op in ('norm', 'inv', 'load', 'load-used', 'copy', 'share',
                  'empty') or (
                ref.until is not None and before[2] >= ref.until):
            ctx.check(np.array_equal(before[0], en.mean) and
                      np.array_equal(before[1], en.std) and
                      before[2] == int(en.count), 'changed-without-learning',
                      where)
        check_stats(ctx, en, ref, where)
        ctx.count('op_' + op)
    if ref.until is not None and ref.n >= ref.until:
        ctx.count('limit_reached')
    ctx.count('samples_seen', ref.n)
    ctx.sig(arg, tuple(ops))


@chk.scenario(quick=400, thorough=6000)
def split_invariance(ctx):
    """The same data in different batches gives the same statistics."""
    rng = ctx.rng
    shape = (int(rng.randint(1, 4)),)
    n = int(rng.randint(2, 300))
    x = (rng.normal(size=(n,) + shape) * 10 ** rng.uniform(-1, 1) +
         rng.normal() * 20).astype('f')
    if rng.rand() < .3:
        x[n // 2:] += 40
    probe = rng.normal(size=(3,) + shape).astype('f') * 20
    ref = Ref(shape, 0, 1e-2, None, None)
    ref.experience(x)
    for kind in ['one', 'singles', 'random', 'shuffled']:
        en = EmpiricalNormalization(shape)
        if kind == 'one':
            parts = [x]
        elif kind == 'singles':
            parts = np.split(x, n)
        else:
            y = x if kind == 'random' else x[rng.permutation(n)]
            parts = np.split(y, np.sort(rng.randint(0, n + 1, size=rng.randint(
                1, 10))))
        for p in parts:
            en.experience(p)
        check_stats(ctx, en, ref, kind)
        check_normalize(ctx, en, ref, probe, en(probe, update=False),
                        'normalize', kind)
    ctx.sig(shape, n, len(parts))


@chk.scenario(quick=8, thorough=80)
def long_histories(ctx):
    """Thousands of batches: errors do not accumulate."""
    rng = ctx.rng
    en = EmpiricalNormalization(2)
    ref = Ref((2,), 0, 1e-2, None, None)
    size = int(rng.choice([1, 3, 10]))
    for k in range(3000):
        x = (rng.normal(size=(size, 2)) * [1, 5] + [3, -40] +
             (k > 1500) * 2).astype('f')
        en.experience(x)
        ref.experience(x)
    m, v = ref.mean, ref.var
    near(ctx, en.mean, m, 1e-3 * np.sqrt(v) + 1e-4 * np.abs(m), 'mean',
         'long')
    near(ctx, np.asarray(en.std, np.float64) ** 2, v, 5e-3 * v, 'std', 'long')
    ctx.check(int(en.count) == 3000 * size, 'count', 'long')
    ctx.count('samples_seen', ref.n)
    ctx.sig(size, ctx.case_seed)


@chk.scenario(quick=1000, thorough=10000)
def reward_filters(ctx):
    """Running normalisation of rewards."""
    rng = ctx.rng
    tau = float(rng.choice([1e-3, .01, .2, 1.]))
    scale = float(rng.choice([1., .1, 5.]))
    eps = float(rng.choice([.1, 1e-3, 1.]))
    default = rng.rand() < .2
    if default:
        tau, scale, eps = 1e-3, 1., .1
        norm, avg = reward_filter.NormalizedRewardFilter(), \
            reward_filter.AverageRewardFilter()
    else:
        norm = reward_filter.NormalizedRewardFilter(
            tau=tau, scale=scale, eps=eps)
        avg = reward_filter.AverageRewardFilter(tau=tau)
    kind = rng.randint(5)
    n = int(rng.randint(1, 60))
    rs = [np.zeros(n), rng.choice([0., 1.], size=n), np.full(n, 3.),
          rng.normal(size=n) * 10 ** rng.uniform(-3, 2),
          rng.randint(-2, 3, size=n)][kind]
    m = m2 = 0.
    for i, r in enumerate(rs):
        r = r.item()
        m = (1 - tau) * m + tau * r
        m2 = (1 - tau) * m2 + tau * r * r
        desc = 'reward {} of {} tau={} eps={}'.format(
            i, rs[:i + 1].tolist(), tau, eps)
        ctx.close(avg(r), r - m, 'average-reward', desc, rtol=1e-6,
                  atol=1e-9 * (1 + abs(r)))
        try:
            y = norm(r)
        except ArithmeticError as e:
            ctx.require(False, 'reward-filter-crash', '{}: {!r}'.format(
                desc, e))
        # the deviation is bounded below so that equal rewards can be scaled
        ctx.require(not isinstance(y, complex) and np.isfinite(y),
                    'normalized-reward-finite', lambda: '{}: {}'.format(
                        desc, y))
        ctx.close(y, scale * (r - m) / np.sqrt(max(m2 - m * m, eps)),
                  'normalized-reward', desc, rtol=1e-5, atol=1e-9)
    ctx.count('filtered_rewards', n)
    ctx.sig(kind, tau, scale, eps, default, n < 3)


if __name__ == '__main__':
    sys.exit(chk.main())
