"""C24: explorers follow schedules and distributions; agents act as told."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from vlib.harness import Check  # noqa: E402
from vlib import agentkit as K  # noqa: E402
from vlib import onpolicy as O  # noqa: E402
from vlib import replay_agents as R  # noqa: E402
from vlib import stats as S  # noqa: E402

import chainer  # noqa: E402
import numpy as np  # noqa: E402
from scipy import stats as st  # noqa: E402

from chainerrl import action_value  # noqa: E402
from chainerrl import distribution  # noqa: E402
from chainerrl import explorers  # noqa: E402
from chainerrl import replay_buffers  # noqa: E402

chk = Check(
    'C24',
    rule='Recorded selections of the real explorers and agents are compared '
    'with an independent schedule / distribution: exact where the outcome is '
    'determined, binomial, chi-square and Kolmogorov-Smirnov tests with alarm '
    'level 1e-10 otherwise.',
    assumptions=['deviations of a distribution smaller than the statistical '
                 'resolution of the number of draws are not seen'])


class Fns(object):
    """Greedy and random action functions that count their calls."""

    def __init__(self):
        self.calls = []

    def random(self):
        a = ('random', len(self.calls))
        self.calls.append(a)
        return a

    def greedy(self):
        a = ('greedy', len(self.calls))
        self.calls.append(a)
        return a


def drive(ctx, ex, fns, t, av=None):
    n = len(fns.calls)
    a = ex.select_action(t, fns.greedy, action_value=av) if av is not None \
        else ex.select_action(t, fns.greedy)
    new = fns.calls[n:]
    ctx.check(len(new) == 1 and a is new[0], 'eps-call',
              lambda: 'step {}: returned {} after calling {}'.format(
                  t, a, new))
    return a[0] == 'random'


@chk.scenario(quick=24, thorough=240)
def epsilon_greedy(ctx):
    rng = ctx.rng
    fns = Fns()
    kind = ['constant', 'linear'][ctx.idx % 2]
    grid = [0., 1., .5, float(rng.rand()), float(rng.rand()) * .1, 0, 1]
    e0, e1 = grid[rng.randint(7)], grid[rng.randint(7)]
    if kind == 'constant':
        ex = explorers.ConstantEpsilonGreedy(e0, fns.random)
        ref = lambda t: e0  # noqa
        ts = [0, 1, 10, 10 ** 6]
        steps = None
    else:
        steps = int([0, 1, 2, 10, 1000, 10 ** 6][rng.randint(6)])
        ex = explorers.LinearDecayEpsilonGreedy(e0, e1, steps, fns.random)

        def ref(t):
            if t >= steps:
                return e1
            return e0 * (1 - t / steps) + e1 * (t / steps)
        ts = sorted(set(
            [0, 1, max(0, steps - 1), steps, steps + 1, 10 * steps + 7]
            + [int(steps * f) for f in rng.rand(3)]))
    n = 1200
    total, expected, var = 0, 0., 0.
    order = list(ts)
    rng.shuffle(order)  # the schedule is a function of the step number
    for t in order:
        p = float(ref(t))
        k = 0
        for _ in range(n):
            k += drive(ctx, ex, fns, t)
        if hasattr(ex, 'epsilon'):
            ctx.close(ex.epsilon, p, 'eps-schedule',
                      '{} {} -> {} in {} steps, step {}'.format(
                          kind, e0, e1, steps, t), rtol=1e-9, atol=1e-12)
        ctx.check(S.binom_p(k, n, p) > S.P_ALARM, 'eps-frequency',
                  lambda: '{} {} -> {} in {} steps: at step {} {} of {} '
                  'actions were random, epsilon must be {}'.format(
                      kind, e0, e1, steps, t, k, n, p))
        if hasattr(ex, 'compute_epsilon'):
            ctx.close(ex.compute_epsilon(t), p, 'eps-schedule', 'compute')
        total += k
        expected += n * p
        var += n * p * (1 - p)
        ctx.sig(kind, p in (0, 1), t == 0, steps == 0,
                steps is not None and t >= steps)
    if var > 100:
        z = abs(total - expected) / np.sqrt(var)
        ctx.check(2 * st.norm.sf(z) > S.P_ALARM, 'eps-frequency',
                  lambda: 'total {} expected {}'.format(total, expected))
    # independence: runs of greedy and random actions
    if kind == 'constant' and 0 < e0 < 1:
        x = np.array([drive(ctx, ex, fns, i) for i in range(4000)], 'd')
        both = int(((x[1:] == 1) & (x[:-1] == 1))[::2].sum())
        ctx.check(S.binom_p(both, len(x[1:][::2]), e0 * e0) > S.P_ALARM,
                  'eps-independence', 'consecutive random actions: {}'.format(
                      both))
    ctx.count('selections', len(fns.calls))
    ctx.sample('{} eps {} -> {} steps {}'.format(kind, e0, e1, steps))


@chk.scenario(quick=16, thorough=160)
def boltzmann(ctx):
    rng = ctx.rng
    n_act = int(rng.randint(1, 7))
    T = float([1., .1, .5, 3., 10., .01][rng.randint(6)])
    scale = [.5, 1., 5., 100.][rng.randint(4)]
    q = (rng.normal(size=(1, n_act)) * scale).astype('f')
    if ctx.idx % 4 == 3:
        q += 1000.
    z = q[0].astype('d') / T
    p = np.exp(z - z.max())
    p /= p.sum()
    default = T == 1. and ctx.idx % 2 == 0
    ex = explorers.Boltzmann() if default else explorers.Boltzmann(T=T)
    if ctx.idx % 3 == 0:
        av = action_value.DiscreteActionValue(chainer.Variable(q))
    else:
        av = action_value.DiscreteActionValue(chainer.Variable(q.copy()))
    n = 4000
    counts = np.zeros(n_act)
    for i in range(n):
        a = ex.select_action(
            i, lambda: np.int32(int(q.argmax())), action_value=av)
        ctx.require(np.ndim(a) == 0 and 0 <= int(a) < n_act
                    and int(a) == a, 'boltzmann-range', repr(a))
        counts[int(a)] += 1
    # float32 softmax may give tiny probabilities instead of zero
    p = np.maximum(p, 1e-9)
    ctx.check(S.chisq_p(counts, p) > S.P_ALARM, 'boltzmann-frequency',
              lambda: 'q={} T={}: drew {} of {}, probabilities {}'.format(
                  q.tolist(), T, counts.tolist(), n, p.tolist()))
    ctx.count('selections', n)
    ctx.sig(n_act, T, scale)


@chk.scenario(quick=24, thorough=240)
def additive_gaussian(ctx):
    rng = ctx.rng
    dim = int(rng.randint(1, 4))
    vector = bool(rng.randint(2))
    scale = rng.uniform(.05, 2., size=dim) if vector \
        else float(rng.uniform(.05, 2.))
    if not vector and rng.randint(6) == 0:
        scale = 0.
    sc = np.broadcast_to(np.asarray(scale, 'd'), (dim,))
    mode = ctx.idx % 4  # none, low, high, both
    center = rng.normal(size=dim)

    def bound(sign):
        b = center + sign * rng.uniform(.02, 1.5, size=dim)
        k = rng.randint(3)
        if k == 0:
            return float(b[0]), np.full(dim, b[0])
        if k == 1:
            return b.tolist(), b
        b = b.astype('f')
        return b, b.astype('d')
    low = high = lo = hi = None
    if mode in (1, 3):
        low, lo = bound(-1)
    if mode in (2, 3):
        high, hi = bound(1)
        if lo is not None:
            hi2 = np.maximum(hi, lo + .05)
            if not np.array_equal(hi2, hi):
                high, hi = hi2, hi2
    ex = explorers.AdditiveGaussian(scale, low=low, high=high)
    n = 3000
    a0 = (center + rng.normal(size=dim) * .3).astype('f')
    keep = a0.copy()
    xs = np.empty((n, dim))
    calls = []

    def greedy():
        calls.append(1)
        return a0
    for i in range(n):
        a = ex.select_action(i, greedy)
        ctx.require(np.shape(a) == (dim,), 'gauss-shape', repr(a))
        xs[i] = a
        ctx.require(np.array_equal(a0, keep), 'gauss-mutates',
                    'the greedy action was changed from {} to {}'.format(
                        keep, a0))
    ctx.check(len(calls) == n, 'gauss-greedy-calls',
              '{} calls in {} selections'.format(len(calls), n))
    for d in range(dim):
        l, h = (-np.inf if lo is None else lo[d],
                np.inf if hi is None else hi[d])
        x = xs[:, d]
        ctx.check(np.all(x >= l - 1e-6) and np.all(x <= h + 1e-6),
                  'gauss-bounds', lambda: 'values in [{}, {}], bounds '
                  '[{}, {}]'.format(x.min(), x.max(), l, h))
        if sc[d] == 0:
            ctx.close(x, np.clip(np.full(n, a0[d], 'd'), l, h),
                      'gauss-zero-scale', 'scale 0')
            continue
        law = st.norm(float(a0[d]), sc[d])
        at_l = x <= l + 1e-6
        at_h = x >= h - 1e-6
        pl, ph = float(law.cdf(l)), float(law.sf(h))
        for k, p, w in ((at_l.sum(), pl, 'low'), (at_h.sum(), ph, 'high')):
            ctx.check(S.binom_p(int(k), n, p) > S.P_ALARM or abs(
                k - n * p) <= 3, 'gauss-clip-frequency',
                lambda: '{} of {} at the {} bound, expected {}'.format(
                    k, n, w, n * p))
        x = x[~at_l & ~at_h]
        if len(x) >= 50:
            # to uniform through the truncated distribution function
            u = (law.cdf(x) - pl) / (1 - pl - ph)
            ctx.check(S.ks_p(u, 'uniform') > S.P_ALARM, 'gauss-law',
                      lambda: 'noise does not follow N(0, {}^2): mean {} '
                      'std {}, bounds [{}, {}]'.format(
                          sc[d], (x - a0[d]).mean(), x.std(), l, h))
    if mode == 0 and np.all(sc > 0):
        z = (xs - a0) / sc
        flat = z[1:] * z[:-1]
        ctx.check(S.mean_p(flat.ravel(), 0, 1) > S.P_ALARM,
                  'gauss-independent', 'successive noise is correlated')
        if dim > 1:
            m = z[:, 0] * z[:, 1]
            ctx.check(S.mean_p(m, 0, 1) > S.P_ALARM, 'gauss-independent',
                      'noise of two dimensions is correlated')
    ctx.count('selections', n)
    ctx.sig(mode, dim, vector)


@chk.scenario(quick=24, thorough=240)
def ornstein_uhlenbeck(ctx):
    rng = ctx.rng
    dim = int(rng.randint(1, 4))
    mu = [0., float(rng.normal())][rng.randint(2)]
    theta = float([.15, .5, 1., .02, rng.uniform(.01, 1)][rng.randint(5)])
    if rng.randint(3) == 0:
        sigma = rng.uniform(.05, 1., size=dim)
    else:
        sigma = float([.3, 1., 0., rng.uniform(.05, 2)][rng.randint(4)])
    start = bool(rng.randint(2))
    kw = dict(mu=mu, theta=theta, sigma=sigma, start_with_mu=start)
    if ctx.idx % 6 == 0:  # documented defaults
        mu, theta, sigma, start = 0., .15, .3, False
        kw = {}
    sg = np.broadcast_to(np.asarray(sigma, 'd'), (dim,))
    n_proc = 150
    n = 25
    firsts, eps, lag = [], [], []
    # batch agents select several actions at one step; training may resume
    t0, stride = int(rng.choice([0, 0, 1000])), int(rng.choice([1, 1, 2, 4]))
    for _ in range(n_proc):
        ex = explorers.AdditiveOU(**kw)
        x = np.empty((n, dim))
        for t in range(n):
            a = rng.normal(size=dim).astype('f')  # a different action
            keep = a.copy()
            r = ex.select_action(t0 + t // stride, lambda: a)
            ctx.require(np.shape(r) == (dim,), 'ou-shape', repr(r))
            ctx.require(np.array_equal(a, keep), 'ou-mutates', 'action')
            x[t] = np.asarray(r, 'd') - a.astype('d')
        firsts.append(x[0])
        e = x[1:] - x[:-1] - theta * (mu - x[:-1])
        eps.append(e)
        lag.append(x[:-1])
    firsts = np.array(firsts)
    eps = np.array(eps).reshape(-1, dim)
    desc = 'mu={} theta={} sigma={} start_with_mu={}'.format(
        mu, theta, sigma, start)
    for d in range(dim):
        s = sg[d]
        if start:
            ctx.close(firsts[:, d], np.full(n_proc, mu), 'ou-first',
                      lambda: desc + ' first noise', atol=1e-5)
        elif s == 0:
            ctx.close(firsts[:, d], np.full(n_proc, mu), 'ou-first', desc,
                      atol=1e-5)
        else:
            sd = s / np.sqrt(2 * theta - theta ** 2)
            ctx.check(S.ks_p((firsts[:, d] - mu) / sd, 'norm') > S.P_ALARM,
                      'ou-first', lambda: '{}: first noise has mean {} std '
                      '{}, the stationary law N({}, {}^2)'.format(
                          desc, firsts[:, d].mean(), firsts[:, d].std(), mu,
                          sd))
        if s == 0:
            ctx.close(eps[:, d], np.zeros(len(eps)), 'ou-step', desc,
                      atol=1e-4)
        else:
            ctx.check(S.ks_p(eps[:, d] / s, 'norm') > S.P_ALARM, 'ou-step',
                      lambda: '{}: dx - theta (mu - x) has mean {} std {} '
                      'instead of sigma={}'.format(
                          desc, eps[:, d].mean(), eps[:, d].std(), s))
            z = eps[:, d] / s
            ctx.check(S.mean_p(z, 0, 1) > S.P_ALARM, 'ou-step', desc)
    # many dimensions at once: the variance of the first noise, exactly
    ex = explorers.AdditiveOU(**dict(kw, sigma=float(sg[0])) if kw else {})
    wide = 6000
    zero = np.zeros(wide, 'f')
    if sg[0] > 0 and not start:
        sd = sg[0] / np.sqrt(2 * theta - theta ** 2)
        for t in range(4):
            z = (np.asarray(ex.select_action(t, lambda: zero), 'd') - mu) / sd
            ctx.check(S.chi2_var_p(z) > S.P_ALARM, 'ou-stationary',
                      lambda: '{}: noise {} has std {} times the stationary '
                      'one'.format(desc, t, z.std()))
            ctx.check(S.mean_p(z, 0, 1) > S.P_ALARM, 'ou-stationary', desc)
    if dim > 1 and np.all(sg > 0):
        m = (eps / sg)
        ctx.check(S.mean_p(m[:, 0] * m[:, 1], 0, 1) > S.P_ALARM,
                  'ou-independent', desc + ' dimensions are correlated')
    ctx.count('selections', n * n_proc)
    ctx.sig(dim, start, theta in (1.,), np.ndim(sigma), len(kw))


@chk.scenario(quick=4, thorough=8)
def greedy(ctx):
    ex = explorers.Greedy()
    fns = Fns()
    for t in range(200):
        ctx.check(not drive(ctx, ex, fns, t), 'greedy', 'random action')
    a = np.array([1., 2.], 'f')
    ctx.check(ex.select_action(3, lambda: a) is a, 'greedy', 'other object')
    ctx.sig(ctx.idx)


# ------------------------------------------------------------- agents

def ref_model(b):
    """Independent copy of the network the agent acts with."""
    if b.name == 'TRPO':
        m = K.clone(b.online['policy'])
        return m, lambda out: out
    m = K.clone(b.online['model'])
    if b.name in ('REINFORCE', 'NSQ'):
        return m, lambda out: out
    if b.name == 'PPO' and b.recurrent:
        return m, lambda out: out[0]
    return m, lambda out: out[0]


class RefActor(object):
    """Distribution the agent must act from, computed on a model copy."""

    def __init__(self, b):
        self.m, self.first = ref_model(b)
        self.b = b
        self.state = None
        self.norm = getattr(b.agent, 'obs_normalizer', None)
        self.norm = K.clone(self.norm) if self.norm is not None else None

    def reset(self):
        self.state = None
        if self.b.name in O.STATEFUL and self.b.recurrent:
            self.m.reset_state()

    def __call__(self, xs):
        """Batch of raw observations -> distribution / action value."""
        x = np.stack([K.obs_phi(o) for o in xs])
        with chainer.using_config('train', False), \
                chainer.no_backprop_mode():
            if self.norm is not None:
                x = self.norm(x, update=False)
            if self.b.recurrent and self.b.name in ('PPO', 'TRPO'):
                out, self.state = self.m(x, self.state)
            else:
                out = self.m(x)
        return self.first(out)


def check_draws(ctx, key, msg, draws, dist):
    """draws: list of actions that must come from dist (batch size 1)."""
    n = len(draws)
    if isinstance(dist, distribution.CategoricalDistribution):
        p = dist.all_prob.array[0].astype('d')
        counts = np.zeros(len(p))
        for a in draws:
            ctx.require(np.ndim(a) == 0 and 0 <= a < len(p), key, repr(a))
            counts[int(a)] += 1
        ctx.check(S.chisq_p(counts, p) > S.P_ALARM, key,
                  lambda: '{}: drew {} of {}, probabilities {}'.format(
                      msg, counts.tolist(), n, p.tolist()))
        return
    mean, var = dist.mean.array[0], dist.var.array[0]
    z = (np.array(draws, 'd') - mean) / np.sqrt(var)
    for d in range(z.shape[1]):
        ctx.check(S.ks_p(z[:, d], 'norm') > S.P_ALARM, key,
                  lambda: '{}: normalised draws have mean {} std {}'.format(
                      msg, z[:, d].mean(), z[:, d].std()))


def observations(rng, n):
    env = R.EnvScript(rng, 0, 0)
    return [env.obs() for _ in range(n)]


@chk.scenario(quick=40, thorough=400, cpu=300)
def policy_agents(ctx):
    """Rollout-based agents act by the mode or by draws of their policy."""
    rng = ctx.rng
    names = ['A2C', 'A3C', 'ACER', 'PCL', 'REINFORCE', 'PPO', 'TRPO']
    name = names[ctx.idx % 7]
    kind = ['softmax', 'gauss'][ctx.idx // 7 % 2]
    recurrent = bool(ctx.idx // 14 % 2) and name in O.RECURRENT
    det = bool(rng.randint(2))
    kw = O.default_kwargs(rng, name, 1)
    for k in ('t_max', 'update_steps'):
        kw.pop(k, None)
    if name in ('A3C', 'ACER', 'PCL'):
        kw['t_max'] = 10 ** 6
    if name == 'A2C':
        kw['update_steps'] = 400
    if name == 'REINFORCE':
        kw['batchsize'] = 10 ** 6
    if name in ('PPO', 'TRPO'):
        kw['update_interval'] = 10 ** 6
    obsn = name in ('PPO', 'TRPO') and bool(rng.randint(2))
    bn = bool(rng.randint(3) == 0)
    b = O.make_agent(rng, name, kind, recurrent, bool(rng.randint(2)),
                     bn, obs_normalizer=obsn,
                     act_deterministically=det, lr=0., **kw)
    agent = b.agent
    ref = RefActor(b)
    desc = '{} {} recurrent={} deterministic={} obs_normalizer={}'.format(
        name, kind, recurrent, det, obsn)
    obs = observations(rng, 4)

    def compare(actions, dist, key):
        want = dist.most_probable.array
        ctx.close(np.array(actions), want, key, lambda: desc)

    # -- acting without training
    if det:
        for _ in range(3):
            ref.reset()
            for o in obs:
                compare([agent.act(o)], ref([o]), 'act-deterministic')
            agent.stop_episode()
        if name in O.BATCH:
            k = int(rng.randint(1, 4))
            ref.reset()
            for _ in range(3):
                xs = observations(rng, k)
                compare(agent.batch_act(xs), ref(xs),
                        'batch-act-deterministic')
                if name != 'A2C':
                    agent.batch_observe(xs, [0.] * k, [False] * k,
                                        [False] * k)
            if name != 'A2C':
                agent.batch_observe(xs, [0.] * k, [True] * k, [True] * k)
    else:
        n = 800
        m = int(rng.randint(1, 3)) if recurrent else 1
        draws = []
        for _ in range(n):
            for o in obs[:m]:
                a = agent.act(o)
            draws.append(a)
            agent.stop_episode()
        ref.reset()
        for o in obs[:m]:
            d = ref([o])
        check_draws(ctx, 'act-draws', desc, draws, d)
        if name in O.BATCH:
            draws = []
            for _ in range(40):
                xs = [obs[0]] * 20
                draws += list(agent.batch_act(xs))
                if name != 'A2C':
                    agent.batch_observe(xs, [0.] * 20, [True] * 20,
                                        [True] * 20)
            ref.reset()
            check_draws(ctx, 'batch-act-draws', desc, draws, ref([obs[0]]))
    # -- acting for training: always draws
    if bn:
        ctx.sig(name, kind, recurrent, det, bn)
        return  # moving statistics
    n = 600
    draws = []
    if name == 'A2C':
        for i in range(n):
            draws.append(agent.batch_act_and_train([obs[0]])[0])
            agent.batch_observe_and_train([obs[0]], [0.], [False], [False])
    elif name == 'PPO' and rng.randint(2):
        for i in range(n // 20):
            xs = [obs[0]] * 20
            draws += list(agent.batch_act_and_train(xs))
            agent.batch_observe_and_train(
                xs, [0.] * 20, [True] * 20, [True] * 20)
    else:
        for i in range(n):
            draws.append(agent.act_and_train(obs[0], 0.))
            agent.stop_episode_and_train(obs[1], 0., bool(rng.randint(2)))
    ref.reset()
    check_draws(ctx, 'train-draws', desc, draws, ref([obs[0]]))
    ctx.count('agent_actions', n)
    ctx.sig(name, kind, recurrent, det, obsn)
    ctx.sample(desc)


class Schedule(explorers.Greedy):
    """Records the step numbers and what the greedy function returns."""

    def __init__(self, rng, discrete):
        self.rng, self.discrete = rng, discrete
        self.ts, self.greedy, self.returned, self.avs = [], [], [], []

    def select_action(self, t, greedy_action_func, action_value=None):
        self.ts.append(int(t))
        self.greedy.append(np.array(greedy_action_func()))
        self.avs.append(action_value)
        a = np.int32(self.rng.randint(R.N_ACT)) if self.discrete else \
            self.rng.normal(size=R.N_ACT).astype('f')
        self.returned.append(a)
        return a


@chk.scenario(quick=38, thorough=380, cpu=300)
def explorer_agents(ctx):
    """What agents hand to their explorer and return from it."""
    rng = ctx.rng
    names = R.DISCRETE + ['DDPG', 'PGT', 'TD3', 'NSQ', 'PCL']
    name = names[ctx.idx % len(names)]
    discrete = name in R.DISCRETE or name in ('NSQ', 'PCL')
    ex = Schedule(rng, discrete)
    recurrent = False
    if name in ('NSQ', 'PCL'):
        kw = O.default_kwargs(rng, name)
        kw['t_max'] = 10 ** 6
        b = O.make_agent(rng, name, 'softmax', explorer=ex, lr=0., **kw)
    else:
        recurrent = name in R.RECURRENT_DISCRETE and bool(
            ctx.idx // len(names) % 2)
        buf = replay_buffers.EpisodicReplayBuffer(1000) if recurrent \
            else replay_buffers.ReplayBuffer(1000)
        kw = {}
        if name == 'PGT':
            kw['act_deterministically'] = True
        if recurrent:
            kw['episodic_update_len'] = 3
        b = R.make_agent(rng, name, buf, ex, recurrent=recurrent, lr=0.,
                         replay_start_size=1000, **kw)
    agent = b.agent
    model = K.clone(next(iter(b.online.values())))
    if name == 'TD3':
        model = K.clone(b.online['policy'])
    env = R.EnvScript(rng, .15, .1)
    desc = '{} recurrent={}'.format(name, recurrent)
    state = None

    def greedy_of(o, state):
        x = np.stack([K.obs_phi(o)])
        with chainer.using_config('train', False), \
                chainer.no_backprop_mode():
            if recurrent:
                av, state = model(x, state)
                if name == 'IQN':
                    return None, state
            elif name in ('IQN', 'DoubleIQN'):
                return None, None
            elif name in ('DDPG', 'PGT'):
                d = model.policy(x)
                return (d.most_probable.array[0] if name == 'PGT'
                        else d.sample().array[0]), None
            elif name == 'TD3':
                return model(x).sample().array[0], None
            else:
                av = model(x)
                if name == 'PCL':
                    return None, None
            return av.greedy_actions.array[0], state
    o, r = env.obs(), 0.
    t = 0
    n = 40
    evals = 0
    for i in range(n):
        g, state = greedy_of(o, state)
        a = agent.act_and_train(o, r)
        ctx.require(len(ex.ts) == t + 1, 'explorer-calls',
                    lambda: '{}: {} selections after {} actions'.format(
                        desc, len(ex.ts), t + 1))
        ctx.check(np.array_equal(a, ex.returned[-1]), 'explorer-result',
                  lambda: '{}: explorer chose {}, the agent {}'.format(
                      desc, ex.returned[-1], a))
        if name != 'NSQ':  # shared counter, advanced by every actor
            ctx.check(ex.ts[-1] == t, 'explorer-t', lambda: '{}: action {} '
                      'was explored as step {}'.format(desc, t, ex.ts[-1]))
        if g is not None:
            ctx.close(ex.greedy[-1], g, 'explorer-greedy', lambda: desc)
        if name in R.DISCRETE or name == 'NSQ':
            ctx.check(ex.avs[-1] is not None and
                      ex.avs[-1].greedy_actions.shape == (1,),
                      'explorer-action-value', desc)
            ctx.close(ex.avs[-1].greedy_actions.array[0], ex.greedy[-1],
                      'explorer-action-value', desc)
        t += 1
        o, r, done, reset = env.step()
        if done or reset:
            agent.stop_episode_and_train(o, r, done)
            o, r = env.obs(), 0.
            state = None
            if name in ('IQN', 'DoubleIQN', 'NSQ', 'PCL') or recurrent:
                continue
            # acting for evaluation is greedy, whatever the explorer
            xs = observations(rng, 3)
            k = len(ex.ts)
            got = [agent.act(x) for x in xs]
            agent.stop_episode()
            ctx.check(len(ex.ts) == k, 'act-explores', desc)
            for x, y in zip(xs, got):
                ctx.close(y, greedy_of(x, None)[0], 'act-greedy',
                          lambda: desc)
            if hasattr(agent, 'batch_act'):
                ctx.close(np.array(agent.batch_act(xs)),
                          np.array([greedy_of(x, None)[0] for x in xs]),
                          'act-greedy', lambda: desc + ' batch')
            evals += 1
    if name == 'NSQ':
        d = np.diff(ex.ts)
        ctx.check(np.all(d >= 0), 'explorer-t', 'NSQ ' + repr(ex.ts))
    ctx.count('agent_actions', t)
    ctx.count('greedy_evaluations', evals)
    ctx.sig(name, recurrent)


@chk.scenario(quick=14, thorough=140, cpu=300)
def explorer_agents_batch(ctx):
    rng = ctx.rng
    names = [n for n in R.DISCRETE if n not in ('SARSA',)] + ['DDPG', 'TD3']
    name = names[ctx.idx % len(names)]
    discrete = name in R.DISCRETE
    ex = Schedule(rng, discrete)
    b = R.make_agent(rng, name, replay_buffers.ReplayBuffer(1000), ex, lr=0.,
                     replay_start_size=1000)
    agent = b.agent
    n_env = int(rng.randint(1, 4))
    t = 0
    model = b.online.get('policy') or b.online['model']
    for i in range(12):
        xs = observations(rng, n_env)
        k = len(ex.ts)
        acts = agent.batch_act_and_train(xs)
        ctx.require(len(ex.ts) == k + n_env, 'explorer-calls', name)
        ctx.close(np.array(acts), np.array(ex.returned[k:]),
                  'explorer-result', name)
        ctx.check(len(set(ex.ts[k:])) == 1 and ex.ts[k] == t, 'explorer-t',
                  lambda: '{}: {} of {} environments at {}'.format(
                      name, ex.ts[k:], n_env, t))
        x = np.stack([K.obs_phi(o) for o in xs])
        if name not in ('IQN', 'DoubleIQN'):
            with chainer.using_config('train', False):
                if discrete:
                    av = model(x)
                    g = av.greedy_actions.array
                    ctx.close(np.array([v.max.array[0] for v in ex.avs[k:]]),
                              av.max.array, 'explorer-action-value', lambda:
                              name + ' each environment has its own values')
                elif name == 'DDPG':
                    g = model.policy(x).sample().array
                else:
                    g = model(x).sample().array
            ctx.close(np.array(ex.greedy[k:]), g, 'explorer-greedy',
                      lambda: name + ' each environment has its own action')
        if discrete:
            ctx.close(np.array([v.greedy_actions.array[0]
                                for v in ex.avs[k:]]),
                      np.array(ex.greedy[k:]), 'explorer-action-value',
                      lambda: name + ' values of another environment')
        xs = observations(rng, n_env)
        agent.batch_observe_and_train(
            xs, rng.normal(size=n_env).tolist(), [False] * n_env,
            (rng.rand(n_env) < .2).tolist())
        t += n_env
    ctx.sig(name, n_env)


def iqn_probs(rng, model, agent, x, n):
    """Probability of each action, from independent threshold draws."""
    taus = rng.rand(n, agent.quantile_thresholds_K).astype('f')
    with chainer.using_config('train', False), chainer.no_backprop_mode():
        return np.bincount(model(np.repeat(x[None], n, 0))(
            taus).greedy_actions.array, minlength=3) / n


def iqn_draws(ctx, key, desc, model, agent, x, actions):
    n, m = len(actions), 6000
    p = iqn_probs(ctx.rng, model, agent, x, m)
    got = np.bincount([int(a) for a in actions], minlength=3)
    for a in range(3):
        sd = np.sqrt(n * p[a] * (1 - p[a]) * (1 + n / m)) + 3
        ctx.check(abs(got[a] - n * p[a]) < 8 * sd, key,
                  lambda: '{}: {} of {}, expected {}'.format(
                      desc, got.tolist(), n, p.tolist()))


@chk.scenario(quick=8, thorough=80, cpu=300)
def stochastic_critics(ctx):
    """SAC, PGT and IQN: stochastic or deterministic as configured."""
    rng = ctx.rng
    name = ['SoftActorCritic', 'PGT', 'IQN', 'DoubleIQN'][ctx.idx % 4]
    det = bool(ctx.idx // 4 % 2)
    b = R.make_agent(rng, name, replay_buffers.ReplayBuffer(1000),
                     K.Greedy(), lr=0., act_deterministically=det,
                     replay_start_size=1000)
    agent = b.agent
    xs = observations(rng, 3)
    X = np.stack([K.obs_phi(o) for o in xs])
    desc = '{} act_deterministically={}'.format(name, det)
    if name in ('IQN', 'DoubleIQN'):
        model = K.clone(b.online['model'])
        if det:
            # many observations: some are decided by the exact thresholds
            xs = observations(rng, 150)
            X = np.stack([K.obs_phi(o) for o in xs])
            n_k = agent.quantile_thresholds_K
            with chainer.using_config('train', False), \
                    chainer.no_backprop_mode():
                av = model(X)(np.stack([np.linspace(
                    0, 1, n_k, dtype='f')] * len(X)))
                want = av.greedy_actions.array
                q = np.sort(av.q_values.array, axis=1)
            clear = q[:, -1] - q[:, -2] > 1e-5 * np.abs(q).max()
            for i in range(3):
                ctx.close(np.array([agent.act(o) for o in xs])[clear],
                          want[clear], 'iqn-deterministic', desc)
                ctx.close(np.array(agent.batch_act(xs))[clear], want[clear],
                          'iqn-deterministic', desc + ' batch')
        else:
            iqn_draws(ctx, 'iqn-draws', desc, model, agent, X[0], [
                agent.act(xs[0]) for _ in range(1500)])
        # training draws the thresholds whatever the setting: at the
        # observation of 40 whose action depends on them most
        cand = observations(rng, 40)
        probs = [iqn_probs(rng, model, agent, K.obs_phi(o), 200)
                 for o in cand]
        o = cand[int(np.argmin([q.max() for q in probs]))]
        iqn_draws(ctx, 'iqn-train-draws', desc, model, agent, K.obs_phi(o),
                  agent.batch_act_and_train([o] * 1500))
        ctx.sig(name, det)
        return
    with chainer.using_config('train', False), chainer.no_backprop_mode():
        if name == 'PGT':
            dist = b.online['model'].policy(X[:1])
        else:
            dist = b.online['policy'](X[:1])
    if det:
        for i in range(3):
            ctx.close(agent.act(xs[0]), dist.most_probable.array[0],
                      'act-deterministic', desc)
        if name == 'SoftActorCritic':
            ctx.close(agent.batch_act(xs[:1])[0],
                      dist.most_probable.array[0], 'act-deterministic', desc)
    else:
        check_draws(ctx, 'act-draws', desc,
                    [agent.act(xs[0]) for _ in range(800)], dist)
        if name == 'SoftActorCritic':
            check_draws(ctx, 'act-draws', desc + ' batch',
                        list(agent.batch_act([xs[0]] * 800)), dist)
    # training: SAC always draws
    if name == 'SoftActorCritic':
        draws = []
        for _ in range(600):
            draws.append(agent.act_and_train(xs[0], 0.))
        check_draws(ctx, 'train-draws', desc, draws, dist)
        check_draws(ctx, 'train-draws', desc + ' batch',
                    list(agent.batch_act_and_train([xs[0]] * 600)), dist)
    ctx.sig(name, det)


if __name__ == '__main__':
    raise SystemExit(chk.main())
