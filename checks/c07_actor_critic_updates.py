"""C07: off-policy actor-critic agents update exactly by their definitions."""
import sys

import chainer
import chainer.functions as F
import chainer.links as L
import numpy as np

from vlib.harness import Check
from vlib import agentkit as K
from vlib import stats
from chainerrl import agents
from chainerrl import distribution
from chainerrl import policies
from chainerrl import q_functions
from chainerrl.agents import td3
from chainerrl.misc.batch_states import batch_states as default_batch_states
from chainerrl.recurrent import RecurrentChainMixin

chk = Check('C07', rule=(
    'for DDPG (feed-forward and recurrent), PGT, TD3 and SAC: random policies '
    'and critics (online and target different), several consecutive updates '
    'on random windows (lengths 1..4, terminal or truncated), random '
    'discount, delays, temperatures, hard and soft target rules; every '
    'parameter of every network is compared after every update with an '
    'independent per-item reference under plain SGD.  Non-trivial: distinct '
    'configuration and data with a non-zero parameter change.'),
    assumptions=['chainer differentiates elementary functions correctly',
                 'plain SGD applies the gradient'])

N_OBS = 3


class FixedNoise(distribution.Distribution):
    """Reparametrised Gaussian whose noise is a function of its parameters.

    Makes stochastic policies reproducible without assuming in which order
    random numbers are consumed.
    """

    def __init__(self, mean, ln_var):
        self.mean = mean
        self.ln_var = ln_var
        m = mean.array.astype('d')
        self.eps = (1.3 * np.sin(5 * m + np.arange(m.shape[1]))).astype('f')

    @property
    def params(self):
        return self.mean, self.ln_var

    def sample(self):
        return self.mean + F.exp(self.ln_var / 2) * self.eps

    def prob(self, x):
        return F.exp(self.log_prob(x))

    def log_prob(self, x):
        return -F.sum(
            .5 * (np.log(2 * np.pi) + self.ln_var
                  + (x - self.mean) ** 2 * F.exp(-self.ln_var)), axis=1)

    def sample_with_log_prob(self):
        y = self.sample()
        return y, self.log_prob(y)

    def copy(self):
        return FixedNoise(chainer.Variable(self.mean.array.copy()),
                          chainer.Variable(self.ln_var.array.copy()))

    @property
    def most_probable(self):
        return self.mean

    @property
    def entropy(self):
        return F.sum(.5 * (self.ln_var + np.log(2 * np.pi * np.e)), axis=1)

    @property
    def kl(self, d):
        raise NotImplementedError


class NoisyPolicy(chainer.Chain):
    def __init__(self, n_act):
        super().__init__()
        with self.init_scope():
            self.h = L.Linear(N_OBS, 4)
            self.m = L.Linear(4, n_act)
            self.v = L.Linear(4, n_act)

    def __call__(self, x):
        h = F.tanh(self.h(x))
        return FixedNoise(self.m(h), F.tanh(self.v(h)))


class ActorCritic(chainer.Chain, RecurrentChainMixin):
    def __init__(self, policy, q_function):
        super().__init__(policy=policy, q_function=q_function)


def make_obs(rng, c):
    c[0] += 1
    return (c[0], rng.normal(size=N_OBS).astype(np.float32))


def make_windows(rng, n, n_step, n_act, c):
    out = []
    for _ in range(n):
        length = rng.randint(1, n_step + 1)
        terminal = bool(rng.randint(2))
        w = []
        s = make_obs(rng, c)
        for i in range(length):
            ns = make_obs(rng, c)
            w.append(dict(state=s, action=rng.normal(size=n_act).astype('f'),
                          reward=float(rng.normal() * 2), next_state=ns,
                          next_action=rng.normal(size=n_act).astype('f'),
                          is_state_terminal=terminal and i == length - 1))
            s = ns
        out.append(w)
    return out


def make_episodes(rng, n, n_act, c):
    out = []
    for _ in range(n):
        length = rng.randint(1, 6)
        terminal = bool(rng.randint(2))
        s = make_obs(rng, c)
        a = rng.normal(size=n_act).astype('f')
        ep = []
        for i in range(length):
            ns = make_obs(rng, c)
            na = rng.normal(size=n_act).astype('f')
            ep.append(dict(state=s, action=a, reward=float(rng.normal()),
                           next_state=ns, next_action=na,
                           is_state_terminal=terminal and i == length - 1))
            s, a = ns, na
        out.append(ep)
    return out


def ret(w, gamma):
    return sum(gamma ** i * t['reward'] for i, t in enumerate(w))


class Shift(object):
    """batch_states function that visibly transforms observations."""

    def __init__(self, shift):
        self.shift = np.float32(shift)

    def __call__(self, states, xp, phi):
        return default_batch_states(states, xp, phi) + self.shift

    def one(self, s):
        return K.obs_phi(s)[None] + self.shift


def sgd_step(link, loss, lr, extra_links=()):
    link.cleargrads()
    for e in extra_links:
        e.cleargrads()
    loss.backward()
    for p in link.params():
        if p.grad is not None:
            p.array[...] -= lr * p.grad
    link.cleargrads()
    for e in extra_links:
        e.cleargrads()


def soft(dst, src, tau):
    s = dict(src.namedparams())
    for n, p in dst.namedparams():
        p.array[...] = ((1 - tau) * p.array.astype('d')
                        + tau * s[n].array.astype('d')).astype('f')


def make_q(rng, n_act):
    k = rng.randint(3)
    if k == 0:
        q = q_functions.FCSAQFunction(N_OBS, n_act, 5, 1, nonlinearity=F.tanh)
    elif k == 1:
        q = q_functions.FCLateActionSAQFunction(N_OBS, n_act, 5, 2,
                                                nonlinearity=F.tanh)
    else:
        q = q_functions.FCSAQFunction(N_OBS, n_act, 5, 2,
                                      nonlinearity=F.sigmoid)
    return K.randomize(q, rng)


def make_policy(rng, n_act, stochastic):
    if stochastic:
        p = NoisyPolicy(n_act)
    else:
        p = policies.FCDeterministicPolicy(
            N_OBS, n_hidden_layers=1, n_hidden_channels=5, action_size=n_act,
            min_action=-np.ones(n_act, 'f'), max_action=np.ones(n_act, 'f'),
            bound_action=bool(rng.randint(2)), nonlinearity=F.tanh)
    return K.randomize(p, rng)


def drive(ctx, agent, buf, via, first):
    """One environment step through the acting interface."""
    c = drive.c
    rng = ctx.rng
    if via == 'single':
        agent.act_and_train(make_obs(rng, c), float(rng.normal()))
    elif first:
        agent.batch_act_and_train([make_obs(rng, c)])
    else:
        agent.batch_observe_and_train([make_obs(rng, c)], [1.], [False],
                                      [False])
        length, buf.length = buf.length, 0
        agent.batch_act_and_train([make_obs(rng, c)])
        buf.length = length


drive.c = [10 ** 6]


def compare(ctx, agent, refs, before, name, where):
    for part in sorted(refs):
        K.check_params(
            ctx, K.params_of(getattr_path(agent, part)),
            K.params_of(refs[part]), 'update:{}:{}'.format(name, part),
            '{} [{}]'.format(where, part), ref=before[part], rtol=5e-3,
            atol=3e-5)


def getattr_path(agent, path):
    x = agent
    for p in path.split('.'):
        x = x[p] if isinstance(x, chainer.Chain) and p in x._children \
            else getattr(x, p)
    return x


def snapshot(refs):
    return dict((k, K.params_of(v)) for k, v in refs.items())


def resync(agent, refs):
    """Continue from the implementation's exact values."""
    for part, ref in refs.items():
        K.set_params(ref, K.params_of(getattr_path(agent, part)))


def noise_free(rng):
    return K.Greedy()


# ------------------------------------------------------------------ DDPG, PGT

@chk.scenario(quick=700, thorough=9000)
def ddpg_and_pgt(ctx):
    rng = ctx.rng
    name = ['DDPG', 'PGT'][ctx.idx % 2]
    cls = getattr(agents, name)
    n_act = int(rng.choice([1, 2, 3]))
    gamma = float(rng.choice([0., .5, .9, 1.]))
    batch = int(rng.choice([1, 2, 5]))
    n_step = int(rng.choice([1, 1, 3, 4]))
    stochastic = name == 'PGT' or rng.rand() < .3
    via = 'single' if name == 'PGT' else ['single', 'batch'][rng.randint(2)]
    method = ['hard', 'soft'][rng.randint(2)]
    tau = float(rng.choice([.01, .3, 1.]))
    interval = int(rng.choice([1, 2, 10 ** 9]))
    n_times = int(rng.choice([1, 1, 2]))
    beta = float(rng.choice([0., .01, 1.]))
    lr_a, lr_c = .3, .1
    model = ActorCritic(make_policy(rng, n_act, stochastic),
                        make_q(rng, n_act))
    bs = Shift(rng.choice([0., .7]))
    refs = {'model': K.clone(model)}
    buf = K.ScriptedBuffer()
    kw = {}
    if name == 'PGT':
        kw = dict(beta=beta, act_deterministically=bool(rng.randint(2)))
    agent = cls(
        model, K.sgd(model['policy'], lr_a), K.sgd(model['q_function'], lr_c),
        buf, gamma, noise_free(rng), replay_start_size=batch,
        minibatch_size=batch, update_interval=1, phi=K.obs_phi,
        target_update_interval=interval, target_update_method=method,
        soft_update_tau=tau, n_times_update=n_times, average_loss_decay=0.,
        batch_states=bs, **kw)
    where = ('{} gamma={} batch={} n_step={} via={} stochastic={} method={} '
             'tau={} interval={} n_times={} {}'.format(
                 name, gamma, batch, n_step, via, stochastic, method, tau,
                 interval, n_times, kw))
    drive(ctx, agent, buf, via, True)
    t = 0 if via == 'batch' else 1
    K.randomize(agent.target_model, rng)
    refs['target_model'] = K.clone(agent.target_model)
    drive.c = [10 ** 6]
    changed = 0.
    for _ in range(rng.randint(1, 4)):
        before = snapshot(refs)
        buf.length = batch
        buf.experiences = make_windows(rng, batch, n_step, n_act, drive.c)
        drive(ctx, agent, buf, via, False)
        t += 1
        # reference
        m, tm = refs['model'], refs['target_model']
        if t % interval == 0:
            soft(tm, m, 1. if method == 'hard' else tau)
        for _ in range(n_times):
            closs = 0
            for w in buf.experiences:
                nx = bs.one(w[-1]['next_state'])
                a = tm['policy'](nx).sample()
                nq = float(tm['q_function'](nx, a.array).array.ravel()[0])
                y = ret(w, gamma)
                if not w[-1]['is_state_terminal']:
                    y += gamma ** len(w) * nq
                q = m['q_function'](bs.one(w[0]['state']),
                                    w[0]['action'][None])
                closs += (F.sum(q) - y) ** 2 / batch
            sgd_step(m['q_function'], closs, lr_c)
            aloss = 0
            for w in buf.experiences:
                x = bs.one(w[0]['state'])
                if name == 'DDPG':
                    aloss -= F.sum(m['q_function'](
                        x, m['policy'](x).sample())) / batch
                else:
                    d = m['policy'](x)
                    a = d.sample().array
                    adv = float((m['q_function'](x, a)
                                 - m['q_function'](x, d.most_probable)
                                 ).array.ravel()[0])
                    aloss -= (F.sum(d.log_prob(a)) * adv
                              + beta * F.sum(d.entropy)) / batch
            sgd_step(m['policy'], aloss, lr_a, [m['q_function']])
        compare(ctx, agent, refs, before, name, where)
        st = dict(agent.get_statistics())
        ctx.close(st['average_critic_loss'], closs.array, 'loss:' + name,
                  where, rtol=1e-3, atol=1e-4)
        ctx.close(st['average_actor_loss'], aloss.array, 'loss:' + name,
                  where, rtol=1e-3, atol=1e-4)
        changed = max(changed, K.max_diff(snapshot(refs)['model'],
                                          before['model']))
        ctx.count('updates')
        ctx.count('multi_step_windows',
                  sum(len(w) > 1 for w in buf.experiences))
        ctx.count('terminal_windows', sum(
            w[-1]['is_state_terminal'] for w in buf.experiences))
        resync(agent, refs)
    if changed > 1e-6:
        ctx.sig(where, ctx.case_seed)
    ctx.sample('{}: largest parameter change {:.5f}'.format(where, changed))


# ------------------------------------------------------------ recurrent DDPG

@chk.scenario(quick=150, thorough=2000)
def ddpg_recurrent(ctx):
    rng = ctx.rng
    n_act = int(rng.choice([1, 2]))
    gamma = float(rng.choice([.5, .9, 1.]))
    batch = int(rng.choice([1, 2, 4]))
    lr_a, lr_c = .3, .1
    q = K.randomize(q_functions.FCLSTMSAQFunction(
        N_OBS, n_act, 4, 1, nonlinearity=F.tanh), rng)
    recurrent_policy = bool(rng.randint(2))
    if recurrent_policy:
        pi = K.randomize(policies.FCLSTMDeterministicPolicy(
            N_OBS, n_hidden_layers=1, n_hidden_channels=4, action_size=n_act,
            min_action=-np.ones(n_act, 'f'), max_action=np.ones(n_act, 'f'),
            nonlinearity=F.tanh), rng)
    else:
        pi = make_policy(rng, n_act, False)
    model = ActorCritic(pi, q)
    bs = Shift(rng.choice([0., .7]))
    buf = K.ScriptedBuffer()
    refs = {'model': K.clone(model)}
    agent = agents.DDPG(
        model, K.sgd(pi, lr_a), K.sgd(q, lr_c), buf, gamma, K.Greedy(),
        replay_start_size=batch, minibatch_size=batch, update_interval=1,
        phi=K.obs_phi, target_update_interval=10 ** 9, average_loss_decay=0.,
        episodic_update=True,
        episodic_update_len=[None, 5][rng.randint(2)], batch_states=bs)
    drive.c = [10 ** 6]
    drive(ctx, agent, buf, 'single', True)
    K.randomize(agent.target_model, rng)
    refs['target_model'] = K.clone(agent.target_model)
    where = 'DDPG recurrent gamma={} batch={} recurrent_policy={}'.format(
        gamma, batch, recurrent_policy)
    m, tm = refs['model'], refs['target_model']

    def reset(x):
        if hasattr(x, 'reset_state'):
            x.reset_state()

    for _ in range(2):
        before = snapshot(refs)
        buf.length = batch
        buf.episodes = make_episodes(rng, batch, n_act, drive.c)
        drive(ctx, agent, buf, 'single', False)
        eps = buf.episodes
        lens = [len(e) for e in eps]
        alive = [sum(l > i for l in lens) for i in range(max(lens))]
        closs = 0
        for ep in eps:
            # target values along the episode, from scratch for each step
            ys = []
            for i, tr in enumerate(ep):
                reset(tm['policy'])
                reset(tm['q_function'])
                for u in ep[:i + 1]:
                    tm['policy'](bs.one(u['state']))
                    tm['q_function'](bs.one(u['state']), u['action'][None])
                a = tm['policy'](bs.one(tr['next_state'])).sample().array
                nq = float(tm['q_function'](bs.one(tr['next_state']), a)
                           .array.ravel()[0])
                ys.append(tr['reward'] + (
                    0. if tr['is_state_terminal'] else gamma * nq))
            reset(m['q_function'])
            for i, tr in enumerate(ep):
                qv = m['q_function'](bs.one(tr['state']), tr['action'][None])
                closs += (F.sum(qv) - ys[i]) ** 2 / alive[i] / max(lens)
        sgd_step(m['q_function'], closs, lr_c)
        aloss = 0
        for ep in eps:
            reset(m['policy'])
            acts = [m['policy'](bs.one(u['state'])).sample() for u in ep]
            for i, tr in enumerate(ep):
                reset(m['q_function'])
                for u in ep[:i]:
                    m['q_function'](bs.one(u['state']), u['action'][None])
                aloss -= F.sum(m['q_function'](
                    bs.one(tr['state']), acts[i])) / alive[i] / max(lens)
        sgd_step(m['policy'], aloss, lr_a, [m['q_function']])
        compare(ctx, agent, refs, before, 'DDPG-recurrent', where)
        ctx.count('updates')
        ctx.count('ragged_batches', len(set(lens)) > 1)
        resync(agent, refs)
    ctx.sig(where, ctx.case_seed)
    ctx.sample('{} episode lengths {}'.format(where, lens))


# ------------------------------------------------------------------- TD3, SAC

@chk.scenario(quick=500, thorough=7000)
def td3_and_sac(ctx):
    rng = ctx.rng
    name = ['TD3', 'SoftActorCritic'][ctx.idx % 2]
    n_act = int(rng.choice([1, 2, 3]))
    gamma = float(rng.choice([0., .5, .9, 1.]))
    batch = int(rng.choice([1, 2, 5]))
    n_step = int(rng.choice([1, 1, 3, 4]))
    via = ['single', 'batch'][rng.randint(2)]
    tau = float(rng.choice([.01, .3, 1.]))
    delay = int(rng.choice([1, 2, 3]))
    lr_p, lr_1, lr_2, lr_t = .3, .1, .07, .2
    pi = make_policy(rng, n_act, name != 'TD3' or rng.rand() < .3)
    q1, q2 = make_q(rng, n_act), make_q(rng, n_act)
    bs = Shift(rng.choice([0., .7]))
    buf = K.ScriptedBuffer()
    refs = {'policy': K.clone(pi), 'q_func1': K.clone(q1),
            'q_func2': K.clone(q2)}
    common = dict(
        replay_start_size=batch, minibatch_size=batch, update_interval=1,
        phi=K.obs_phi, soft_update_tau=tau, batch_states=bs)

    def smooth(a):
        return np.clip(a + .3 * np.sin(9 * a), -.8, .8).astype('f')

    args = [pi, q1, q2, K.sgd(pi, lr_p), K.sgd(q1, lr_1), K.sgd(q2, lr_2),
            buf, gamma]
    target_entropy, temp = None, 1.
    if name == 'TD3':
        agent = agents.TD3(
            *(args + [K.Greedy()]), policy_update_delay=delay,
            target_policy_smoothing_func=smooth, **common)
        tparts = ['target_policy', 'target_q_func1', 'target_q_func2']
        opts = dict(delay=delay)
    else:
        temp = float(rng.choice([.05, 1., 3.]))
        opt_t = chainer.optimizers.SGD(lr_t)
        if rng.randint(2):
            target_entropy = float(rng.choice([-n_act, 0., 2.]))
        agent = agents.SoftActorCritic(
            *args, initial_temperature=temp, entropy_target=target_entropy,
            temperature_optimizer=opt_t, **common)
        tparts = ['target_q_func1', 'target_q_func2']
        opts = dict(temperature=temp, entropy_target=target_entropy)
    drive.c = [10 ** 6]
    drive(ctx, agent, buf, via, True)
    for p in tparts:
        # start from targets that differ from the online networks
        K.randomize(getattr(agent, p), rng)
        refs[p] = K.clone(getattr(agent, p))
    where = '{} gamma={} batch={} n_step={} via={} tau={} {}'.format(
        name, gamma, batch, n_step, via, tau, opts)
    n_updates = 0
    for _ in range(rng.randint(1, 5)):
        before = snapshot(refs)
        buf.length = batch
        buf.experiences = make_windows(rng, batch, n_step, n_act, drive.c)
        if name != 'TD3':
            ctx.close(agent.temperature, temp, 'temperature:' + name, where,
                      rtol=1e-3)
            temp = agent.temperature
        drive(ctx, agent, buf, via, False)
        n_updates += 1
        l1 = l2 = 0
        for w in buf.experiences:
            nx = bs.one(w[-1]['next_state'])
            y = ret(w, gamma)
            if name == 'TD3':
                a = smooth(refs['target_policy'](nx).sample().array)
                bonus = 0.
            else:
                a, lp = refs['policy'](nx).sample_with_log_prob()
                a = a.array
                bonus = -temp * float(lp.array.ravel()[0])
            tq = min(float(refs['target_q_func1'](nx, a).array.ravel()[0]),
                     float(refs['target_q_func2'](nx, a).array.ravel()[0]))
            if not w[-1]['is_state_terminal']:
                y += gamma ** len(w) * (tq + bonus)
            x, ba = bs.one(w[0]['state']), w[0]['action'][None]
            s = 1. if name == 'TD3' else .5
            l1 += s * (F.sum(refs['q_func1'](x, ba)) - y) ** 2 / batch
            l2 += s * (F.sum(refs['q_func2'](x, ba)) - y) ** 2 / batch
        sgd_step(refs['q_func1'], l1, lr_1)
        sgd_step(refs['q_func2'], l2, lr_2)
        act_now = name != 'TD3' or n_updates % delay == 0
        if act_now:
            lp_, lps = 0, []
            for w in buf.experiences:
                x = bs.one(w[0]['state'])
                if name == 'TD3':
                    lp_ -= F.sum(refs['q_func1'](
                        x, refs['policy'](x).sample())) / batch
                else:
                    a, lp = refs['policy'](x).sample_with_log_prob()
                    lps.append(float(lp.array.ravel()[0]))
                    lp_ += (temp * F.sum(lp) - F.sum(F.minimum(
                        refs['q_func1'](x, a), refs['q_func2'](x, a)))) / batch
            sgd_step(refs['policy'], lp_, lr_p,
                     [refs['q_func1'], refs['q_func2']])
            if target_entropy is not None:
                temp = float(np.exp(np.log(temp) + lr_t * temp * (
                    np.mean(lps) + target_entropy)))
            for p in tparts:
                soft(refs[p], refs[p[len('target_'):]], tau)
        compare(ctx, agent, refs, before, name, where)
        if name != 'TD3':
            ctx.close(agent.temperature, temp, 'temperature:' + name, where,
                      rtol=2e-3)
            temp = agent.temperature
        ctx.count('updates')
        ctx.count('policy_updates', act_now)
        resync(agent, refs)
    st = dict(agent.get_statistics())
    nn = 'policy_n_updates' if name == 'TD3' else 'n_updates'
    ctx.check(st[nn] == (n_updates // delay if name == 'TD3' else n_updates),
              'n_updates:' + name, where)
    ctx.sig(where, ctx.case_seed)
    ctx.sample(where)


@chk.scenario(quick=16, thorough=64)
def default_smoothing(ctx):
    """Default target smoothing: clipped Gaussian noise, clipped action."""
    rng = ctx.rng
    n = 4000
    a = float(rng.uniform(-.4, .4))
    y = td3.default_target_policy_smoothing_func(
        np.full((n, 2), a, dtype=np.float32))
    noise = (y - a).astype('d').ravel()
    ctx.check(np.abs(noise).max() <= .5 + 1e-6, 'smoothing-clip', '')
    inner = noise[np.abs(noise) < .49]
    from scipy import stats as st
    F0 = st.norm(0, .2).cdf

    def cdf(v):
        return (F0(v) - F0(-.49)) / (F0(.49) - F0(-.49))
    p = stats.ks_p(inner, cdf)
    ctx.check(p > stats.P_ALARM, 'smoothing-law', 'p={}'.format(p))
    frac = float((np.abs(noise) >= .49).sum())
    p = stats.binom_p(int(frac), 2 * n, 2 * F0(-.49))
    ctx.check(p > stats.P_ALARM, 'smoothing-law', 'tails p={}'.format(p))
    b = rng.choice([-1., 1.]) * .9
    y = td3.default_target_policy_smoothing_func(
        np.full((n, 2), b, dtype=np.float32))
    ctx.check(np.abs(y).max() <= 1. and (np.abs(y) == 1.).any(),
              'smoothing-bounds', '')
    ctx.sig(a)


if __name__ == '__main__':
    sys.exit(chk.main())
