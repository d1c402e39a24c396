"""C27: copying, mixing and sharing parameters is exact and complete."""
import multiprocessing as mp
import sys
import warnings

import chainer
import chainer.links as L
from chainer import optimizers
import numpy as np

from vlib.harness import Check
import chainerrl
from chainerrl import links
from chainerrl.misc import async_
from chainerrl.misc import copy_param as cp
from chainerrl.optimizers import NonbiasWeightDecay
from chainerrl.optimizers import RMSpropAsync

chk = Check(
    'C27',
    'distinct (model structure, operation, options) triples whose parameter, '
    'statistics and optimizer-state arrays were compared with a double '
    'precision reference; for sharing, distinct schedules of writers and '
    'readers in real processes',
    ['CPU arrays', 'structurally equal models'])


class Rand(chainer.Chain):
    """Chain with children registered in a given order."""

    def __init__(self, items):
        super().__init__()
        with self.init_scope():
            for name, v in items:
                setattr(self, name, v)


def make_leaf(kind, n):
    if kind == 'linear':
        return L.Linear(n, n + 1)
    if kind == 'nobias':
        return L.Linear(n, 2, nobias=True)
    if kind == 'bn':
        return L.BatchNormalization(n)
    if kind == 'noisy':
        return links.FactorizedNoisyLinear(L.Linear(n, 2))
    if kind == 'conv':
        return L.Convolution2D(2, n, 3)
    if kind == 'lstm':
        return L.LSTM(n, 2)
    if kind == 'nlstm':
        return L.NStepLSTM(1, n, 2, 0)
    if kind == 'mlpbn':
        return links.MLPBN(n, 2, (3,))
    if kind == 'scalar':
        c = chainer.Link()
        with c.init_scope():
            c.a = chainer.Parameter(np.zeros((), 'f'))
        return c
    if kind == 'norm':
        return links.EmpiricalNormalization(n)
    raise ValueError(kind)


LEAVES = ['linear', 'nobias', 'bn', 'noisy', 'conv', 'lstm', 'nlstm', 'mlpbn',
          'scalar', 'bn']


def spec(rng, depth, leaves=LEAVES):
    """A model description: nested tuples, the same for both models."""
    if depth == 0 or rng.rand() < .3:
        return ('leaf', str(rng.choice(leaves)), int(rng.randint(1, 4)))
    subs = tuple(spec(rng, depth - 1, leaves)
                 for _ in range(rng.randint(1, 4)))
    return (str(rng.choice(['chain', 'list', 'seq', 'dict'])), subs)


def build(sp, rng):
    if sp[0] == 'leaf':
        return make_leaf(sp[1], sp[2])
    subs = [build(s, rng) for s in sp[1]]
    if sp[0] == 'list':
        return chainer.ChainList(*subs)
    if sp[0] == 'seq':
        return links.Sequence(*subs)
    items = [('l{}'.format(i), s) for i, s in enumerate(subs)]
    if sp[0] == 'dict':
        # the order of registration differs between the models
        items = [items[i] for i in rng.permutation(len(items))]
    return Rand(items)


def fill(link, rng, dtype=None):
    for _, p in sorted(link.namedparams()):
        a = rng.normal(size=p.shape).astype(dtype or p.dtype)
        if a.ndim == 2 and rng.rand() < .3:
            a = np.asfortranarray(a)
        p.array = a
    for _, m in sorted(link.namedlinks()):
        if isinstance(m, L.BatchNormalization):
            m.avg_mean[...] = rng.normal(size=m.avg_mean.shape)
            m.avg_var[...] = rng.uniform(.5, 2, size=m.avg_var.shape)
            m.N = int(rng.randint(100))
        if isinstance(m, links.EmpiricalNormalization):
            n = int(rng.randint(1, 9))
            m.experience(rng.normal(size=(n,) + m.mean.shape).astype('f'))


def params(link):
    return {k: (None if p.array is None else p.array.copy())
            for k, p in link.namedparams()}


def stats(link):
    out = {}
    for name, m in link.namedlinks():
        if isinstance(m, L.BatchNormalization):
            out[name + '/avg_mean'] = np.array(m.avg_mean)
            out[name + '/avg_var'] = np.array(m.avg_var)
    return out


def grads(link):
    return {k: (None if p.grad is None else p.grad.copy())
            for k, p in link.namedparams()}


def identical(a, b):
    if set(a) != set(b):
        return False
    for k in a:
        if (a[k] is None) != (b[k] is None):
            return False
        if a[k] is not None and not np.array_equal(a[k], b[k]):
            return False
    return True


def arrays(link):
    out = [p.array for _, p in link.namedparams()]
    out += [p.grad for _, p in link.namedparams() if p.grad is not None]
    for _, m in link.namedlinks():
        if isinstance(m, L.BatchNormalization):
            out += [m.avg_mean, m.avg_var]
    return out


def pair(ctx, leaves=LEAVES):
    rng = ctx.rng
    sp = spec(rng, int(rng.randint(0, 4)), leaves)
    dst, src = build(sp, rng), build(sp, rng)
    fill(dst, rng)
    fill(src, rng)
    return sp, dst, src


@chk.scenario(quick=1500, thorough=20000)
def copying(ctx):
    """copy_param, soft_copy_param and synchronize_parameters."""
    rng = ctx.rng
    sp, dst, src = pair(ctx)
    p0, s0 = params(dst), stats(dst)
    p1, s1 = params(src), stats(src)
    mode = str(rng.choice(['hard', 'soft', 'sync-hard', 'sync-soft',
                           'repeat']))
    tau = float(rng.choice([0., 1e-3, .1, .5, 1.]))
    where = '{} {} tau={}'.format(sp, mode, tau)
    ids = {k: id(p) for k, p in dst.namedparams()}
    if mode == 'hard':
        cp.copy_param(dst, src)
    elif mode == 'soft':
        cp.soft_copy_param(dst, src, tau)
    elif mode == 'sync-hard':
        cp.synchronize_parameters(src=src, dst=dst, method='hard')
    elif mode == 'sync-soft':
        cp.synchronize_parameters(src=src, dst=dst, method='soft', tau=tau)
    else:
        for _ in range(3):
            cp.soft_copy_param(dst, src, tau)
    w = 1. if 'hard' in mode else tau
    if mode == 'repeat':
        w = 1 - (1 - tau) ** 3
    for what, old, new, got in [('parameter', p0, p1, params(dst)),
                                ('statistics', s0, s1, stats(dst))]:
        ctx.require(set(got) == set(new), what + '-names', where)
        for k in new:
            want = (1 - w) * old[k].astype(np.float64) + w * new[k].astype(
                np.float64)
            if 'hard' in mode:
                ctx.check(np.array_equal(got[k], new[k]), 'hard-' + what,
                          lambda: '{} {}: {} instead of {}'.format(
                              where, k, got[k].ravel()[:4],
                              new[k].ravel()[:4]))
            else:
                ctx.close(got[k], want, 'soft-' + what, lambda: '{} {}'.format(
                    where, k), rtol=1e-5, atol=1e-6)
            ctx.check(got[k].dtype == old[k].dtype, 'dtype', where)
    ctx.check(identical(params(src), p1) and identical(stats(src), s1),
              'source-changed', where)
    ctx.check(ids == {k: id(p) for k, p in dst.namedparams()},
              'parameter-objects-replaced', where)
    for a in arrays(dst):
        for b in arrays(src):
            ctx.check(not np.shares_memory(a, b), 'aliasing', where)
    # later changes of the source do not show in the target, and vice versa
    after, safter = params(dst), stats(dst)
    fill(src, rng)
    for _, p in src.namedparams():
        p.array += 1
    ctx.check(identical(params(dst), after) and identical(
        stats(dst), safter), 'aliasing', where)
    ctx.count('parameters', len(p1))
    ctx.count('statistics', len(s1))
    ctx.sig(sp, mode, tau)


@chk.scenario(quick=1000, thorough=15000)
def gradients(ctx):
    """copy_grad transfers every gradient."""
    rng = ctx.rng
    sp, dst, src = pair(ctx)
    for link in (dst, src):
        for _, p in link.namedparams():
            p.grad = None if rng.rand() < .4 else rng.normal(
                size=p.shape).astype(p.dtype)
    g1, p0 = grads(src), params(dst)
    for k in range(int(rng.randint(1, 3))):
        cp.copy_grad(dst, src)
        ctx.check(identical(grads(dst), g1), 'gradient', str(sp))
        ctx.check(identical(grads(src), g1), 'source-changed', str(sp))
        ctx.check(identical(params(dst), p0), 'parameter-changed', str(sp))
        for a in arrays(dst):
            for b in arrays(src):
                ctx.check(not np.shares_memory(a, b), 'aliasing', str(sp))
        for _, p in src.namedparams():
            p.grad = None if rng.rand() < .4 else rng.normal(
                size=p.shape).astype(p.dtype)
        g1 = grads(src)
        ctx.evals(1)
    ctx.sig(sp)


@chk.scenario(quick=60, thorough=600)
def uninitialized(ctx):
    """Copying to a target without arrays is reported, never half done."""
    rng = ctx.rng
    src = chainer.Chain()
    dst = chainer.Chain()
    n = int(rng.randint(1, 4))
    lazy = int(rng.randint(n))
    for link, lz in ((src, False), (dst, True)):
        with link.init_scope():
            for i in range(n):
                setattr(link, 'l{}'.format(i), L.Linear(
                    None if lz and i == lazy else 2, 3))
    f = (lambda: cp.copy_param(dst, src)) if rng.rand() < .5 else (
        lambda: cp.soft_copy_param(dst, src, .5))
    ctx.raises(TypeError, f, 'uninitialized', 'no error')
    ctx.sig(n, lazy)


# ----------------------------------------------------------------- sharing

def persistents(link):
    return {k: np.array(v) for k, v in
            chainerrl.misc.namedpersistent(link)}


OPTS = {
    'rmsprop_async': lambda: RMSpropAsync(lr=.01, alpha=.9, eps=1e-3),
    'adam': lambda: optimizers.Adam(),
    'momentum': lambda: optimizers.MomentumSGD(lr=.1),
    'sgd': lambda: optimizers.SGD(lr=.1),
    'rmsprop_graves': lambda: optimizers.RMSpropGraves(),
}


def opt_state(opt):
    out = {}
    for k, p in opt.target.namedparams():
        st = p.update_rule.state or {}
        for n, v in st.items():
            out[k, n] = np.array(v)
    return out


SHARE_LEAVES = LEAVES + ['norm']


@chk.scenario(quick=160, thorough=1600, cpu=300)
def sharing(ctx):
    """Shared links and optimizer states: one memory for all processes.

    The parent and forked workers take turns (in a random order) in changing
    what they see; every process must always see the latest values.
    """
    rng = ctx.rng
    sp = spec(rng, int(rng.randint(0, 3)), SHARE_LEAVES)
    link = build(sp, rng)
    fill(link, rng)
    if not params(link):
        ctx.skip()
    oname = str(rng.choice(sorted(OPTS)))
    opt = OPTS[oname]()
    opt.setup(link)
    used = rng.rand() < .5

    def rand_grads(r):
        for _, p in sorted(link.namedparams()):
            p.grad = r.normal(size=p.shape).astype(p.dtype)
    if used:
        # statistics exist before sharing
        rand_grads(rng)
        opt.update()
    before = (params(link), persistents(link), opt_state(opt))
    how = int(rng.randint(3))
    where = '{} {} how={} used={}'.format(sp, oname, how, used)
    if how == 0:
        sl = async_.share_params_as_shared_arrays(link)
        so = async_.share_states_as_shared_arrays(opt)
    elif how == 1:
        counter = mp.Value('l', 5)
        sl, so, c = async_.as_shared_objects((link, opt, counter))
        ctx.check(c is counter, 'value-object', where)
    else:
        sl = async_.extract_params_as_shared_arrays(link)
        so = async_.extract_states_as_shared_arrays(opt)
        async_.set_shared_params(link, sl)
        async_.set_shared_states(opt, so)
    ctx.check(identical(params(link), before[0]), 'sharing-changes-parameters',
              where)
    ctx.check(identical(persistents(link), before[1]),
              'sharing-changes-persistents', where)
    st = opt_state(opt)
    for k in before[2]:
        ctx.check(k in st and np.array_equal(st[k], before[2][k]),
                  'sharing-changes-state', '{} {}'.format(where, k))
    for k, p in link.namedparams():
        ctx.check(p.dtype == before[0][k].dtype, 'dtype', where)

    def view(lk, op):
        return (params(lk), persistents(lk), opt_state(op))

    def same_view(a, b):
        return all(identical(x, y) for x, y in zip(a, b))

    def change(lk, op, seed):
        """Change everything that learning changes."""
        r = np.random.RandomState(seed)
        what = r.randint(3)
        if what == 0:
            for _, p in sorted(lk.namedparams()):
                p.grad = r.normal(size=p.shape).astype(p.dtype)
            op.update()
        elif what == 1:
            for _, p in sorted(lk.namedparams()):
                p.array[...] = r.normal(size=p.shape)
        else:
            for _, m in sorted(lk.namedlinks()):
                if isinstance(m, L.BatchNormalization):
                    m.avg_mean[...] = r.normal(size=m.avg_mean.shape)
                    m.avg_var[...] = r.uniform(size=m.avg_var.shape)
                elif isinstance(m, links.EmpiricalNormalization):
                    m.experience(r.normal(
                        size=(3,) + m.mean.shape).astype('f'))

    nw = int(rng.randint(1, 4))
    mode = str(rng.choice(['fork', 'rebuild']))
    pipes = []
    procs = []

    def serve(conn):
        lk, op = link, opt
        if mode == 'rebuild':
            # like a worker that builds its own agent and then attaches
            lk = build(sp, np.random.RandomState(0))
            op = OPTS[oname]()
            op.setup(lk)
            if how == 1:
                async_.synchronize_to_shared_objects((lk, op), (sl, so))
            else:
                async_.set_shared_params(lk, sl)
                async_.set_shared_states(op, so)
        while True:
            msg = conn.recv()
            if msg[0] == 'quit':
                return
            if msg[0] == 'change':
                change(lk, op, msg[1])
            conn.send(view(lk, op))

    for _ in range(nw):
        a, b = mp.Pipe()
        p = mp.Process(target=serve, args=(b,))
        p.daemon = True
        p.start()
        b.close()
        pipes.append(a)
        procs.append(p)
    order = []
    try:
        for k in range(int(rng.randint(2, 8))):
            who = int(rng.randint(nw + 1))
            order.append(who)
            seed = int(rng.randint(1 << 30))
            old = view(link, opt)
            if who == nw:
                change(link, opt, seed)
                now = view(link, opt)
            else:
                pipes[who].send(('change', seed))
                if not ctx.check(pipes[who].poll(120), 'worker-silent',
                                 where):
                    return
                now = pipes[who].recv()
            for j in range(nw):
                if j != who:
                    pipes[j].send(('view',))
                    if not ctx.check(pipes[j].poll(120), 'worker-silent',
                                     where):
                        return
                    seen = pipes[j].recv()
                    for i, what in enumerate(['parameters', 'persistents',
                                              'optimizer state']):
                        ctx.check(identical(seen[i], now[i]), 'not-shared',
                                  lambda: '{}: process {} does not see the '
                                  '{} written by {}'.format(
                                      where, j, what, who))
            mine = view(link, opt)
            for i, what in enumerate(['parameters', 'persistents',
                                      'optimizer state']):
                ctx.check(identical(mine[i], now[i]), 'not-shared',
                          lambda: '{}: the parent does not see the {} written '
                          'by {}'.format(where, what, who))
            if not same_view(old, now):
                ctx.count('effective_changes')
            ctx.evals(1)
        ctx.sig(sp, oname, how, tuple(order), mode)
    except EOFError:
        ctx.fail('worker-died', where)
    finally:
        for a in pipes:
            try:
                a.send(('quit',))
            except (OSError, IOError):
                pass
        for p in procs:
            p.join(20)
            if p.is_alive():
                p.terminate()


@chk.scenario(quick=300, thorough=3000)
def unsharing(ctx):
    """make_params_not_shared / assert_params_not_shared."""
    rng = ctx.rng
    sp, a, _ = pair(ctx)
    if not params(a):
        ctx.skip()
    shared = async_.share_params_as_shared_arrays(a)
    b = build(sp, rng)
    fill(b, rng)
    async_.assert_params_not_shared(a, b)
    async_.set_shared_params(b, shared)
    before = params(a)
    ctx.check(identical(params(b), before), 'attach', str(sp))
    if any(v.size for v in before.values()):
        ctx.raises(AssertionError,
                   lambda: async_.assert_params_not_shared(a, b),
                   'assert-shared', str(sp))
    async_.make_params_not_shared(b)
    async_.assert_params_not_shared(a, b)
    ctx.check(identical(params(b), before), 'unshare-changes', str(sp))
    for _, p in b.namedparams():
        p.array += 1
    ctx.check(identical(params(a), before), 'still-shared', str(sp))
    ctx.sig(sp)


# -------------------------------------------------------------- optimizers

@chk.scenario(quick=500, thorough=6000)
def rmsprop_async(ctx):
    """The documented rule, with hooks, missing gradients and new rates."""
    rng = ctx.rng
    sp, link, _ = pair(ctx, ['linear', 'nobias', 'bn', 'scalar', 'conv'])
    lr, alpha, eps = (float(rng.choice([1e-3, .1])),
                      float(rng.choice([0., .9, .99])),
                      float(rng.choice([1e-8, 1e-2, 1.])))
    opt = RMSpropAsync(lr=lr, alpha=alpha, eps=eps)
    opt.setup(link)
    decay = float(rng.choice([0, 0, .1]))
    if decay:
        opt.add_hook(NonbiasWeightDecay(decay))
    ref = {k: p.array.astype(np.float64) for k, p in link.namedparams()}
    ms = {k: np.zeros(v.shape) for k, v in ref.items()}
    bias = {k for k in ref if k.split('/')[-1] == 'b'}
    where = '{} lr={} alpha={} eps={} decay={}'.format(sp, lr, alpha, eps,
                                                       decay)
    for t in range(int(rng.randint(1, 8))):
        if rng.rand() < .2:
            opt.lr = lr = float(rng.choice([.01, .5]))
        for k, p in sorted(link.namedparams()):
            g = rng.normal(size=p.shape).astype('f')
            if rng.rand() < .1:
                g[...] = 0
            p.grad = g.copy()
            if rng.rand() < .15:
                # chainer replaces missing gradients by zeros
                p.grad = None
                g[...] = 0
            g = g.astype(np.float64)
            if decay and k not in bias:
                g = g + decay * ref[k]
            ms[k] = alpha * ms[k] + (1 - alpha) * g * g
            ref[k] = ref[k] - lr * g / np.sqrt(ms[k] + eps)
        opt.update()
        for k, p in link.namedparams():
            ctx.close(p.array, ref[k], 'rmsprop', lambda: '{} step {} {}'
                      .format(where, t, k), rtol=1e-3,
                      atol=2e-4 * (t + 1) * max(lr, .01) * (
                          10 if eps < 1e-4 else 1))
            if p.update_rule.state:
                ctx.close(p.update_rule.state['ms'], ms[k], 'rmsprop-ms',
                          where, rtol=1e-3, atol=1e-4)
            ref[k] = p.array.astype(np.float64)
            # follow the implementation, judging one step at a time
        ctx.evals(1)
    ctx.sig(sp, alpha, eps, decay)


@chk.scenario(quick=500, thorough=5000)
def nonbias_decay(ctx):
    """NonbiasWeightDecay(rate): gradients of non-bias parameters only."""
    rng = ctx.rng
    sp, link, _ = pair(ctx)
    rate = float(rng.choice([0, 1e-4, .3]))
    opt = optimizers.SGD(lr=1.)
    opt.setup(link)
    opt.add_hook(NonbiasWeightDecay(rate))
    p0 = {k: p.array.astype(np.float64) for k, p in link.namedparams()}
    g0 = {}
    for k, p in sorted(link.namedparams()):
        p.grad = None if rng.rand() < .2 else rng.normal(
            size=p.shape).astype('f')
        # chainer replaces missing gradients by zeros
        g0[k] = 0. if p.grad is None else p.grad.astype(np.float64)
    opt.update()
    for k, p in link.namedparams():
        g = g0[k]
        if k.split('/')[-1] == 'b':
            want = p0[k] - g
        else:
            want = p0[k] - g - rate * p0[k]
        ctx.close(p.array, want, 'nonbias-decay', lambda: '{} {} rate={}'
                  .format(sp, k, rate), rtol=1e-4, atol=1e-5)
    ctx.sig(sp, rate)


@chk.scenario(quick=24, thorough=200, cpu=300)
def run_async(ctx):
    """Every process index runs exactly once; bad exits are reported."""
    rng = ctx.rng
    n = int(rng.randint(1, 6))
    seen = mp.Array('i', n)
    bad = {i: str(rng.choice(['ok', 'ok', 'exit', 'raise', 'kill']))
           for i in range(n)}

    def f(idx):
        with seen.get_lock():
            seen[idx] += 1
        if bad[idx] == 'exit':
            import os
            os._exit(7)
        elif bad[idx] == 'raise':
            import os
            sys.stderr = open(os.devnull, 'w')
            raise RuntimeError('planned')
        elif bad[idx] == 'kill':
            import os
            import signal
            os.kill(os.getpid(), signal.SIGKILL)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        async_.run_async(n, f)
    ctx.check(list(seen) == [1] * n, 'process-indices', str(list(seen)))
    told = [x for x in w if issubclass(x.category,
                                       async_.AbnormalExitWarning)]
    ctx.check(len(told) == sum(v != 'ok' for v in bad.values()),
              'exit-warnings', '{} {}'.format(bad, [str(x.message)
                                                    for x in told]))
    ctx.sig(n, tuple(bad.values()))


if __name__ == '__main__':
    sys.exit(chk.main())
