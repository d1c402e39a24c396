"""C23: A3C, n-step Q-learning, ACER, PCL and REINFORCE gradients."""
import copy
import warnings

import chainer
import chainer.functions as F
import chainer.links as L
import numpy as np

from vlib import agentkit as K
from vlib import gae as G
from vlib import onpolicy as O
from vlib import replay_agents as R
from vlib.harness import Check
from chainerrl import action_value
from chainerrl import agents
from chainerrl import distribution
from chainerrl import explorers
from chainerrl import links
from chainerrl.agents import a3c
from chainerrl.agents import acer
from chainerrl.agents import pcl
from chainerrl.recurrent import Recurrent
from chainerrl.recurrent import RecurrentChainMixin
from chainerrl.recurrent import state_kept
from chainerrl.recurrent import state_reset

chk = Check(
    'C23',
    'distinct (agent, policy kind, recurrent, shared layers, rollout lengths '
    'and ends, coefficients and options, on- or off-policy, concurrent '
    'changes of the shared parameters) in which a parameter update was '
    'compared with the gradient of the objective computed independently',
    ['CPU; plain SGD; options that are not documented are taken as their '
     'names say'])

LR = .05
N_OBS, N_ACT = O.N_OBS, O.N_ACT


class TapGaussian(distribution.GaussianDistribution):
    """Remembers what was sampled from it."""

    samples = None

    def sample(self):
        x = super().sample()
        if TapGaussian.samples is not None:
            TapGaussian.samples.append(
                (self.mean.array.copy(), self.var.array.copy(),
                 x.array.copy()))
        return x


def tap_gauss_head(h):
    return TapGaussian(h[:, :N_ACT], F.softplus(h[:, N_ACT:]) + .05)


def body(rng, n_in, recurrent):
    n = int(rng.randint(3, 6))
    ls = [L.Linear(n_in, n), F.tanh]
    if recurrent:
        ls.append(L.LSTM(n, n))
    return ls, n


def make_pi(rng, kind, n_in, recurrent=False):
    ls, n = body(rng, n_in, recurrent)
    if kind == 'softmax':
        return O.Stateful(*(ls + [L.Linear(n, N_ACT), O.softmax_head]))
    return O.Stateful(*(ls + [L.Linear(n, 2 * N_ACT), tap_gauss_head]))


def make_v(rng, n_in, recurrent=False):
    ls, n = body(rng, n_in, recurrent)
    return O.Stateful(*(ls + [L.Linear(n, 1)]))


def make_q(rng, n_in, recurrent=False):
    ls, n = body(rng, n_in, recurrent)
    return O.Stateful(*(
        ls + [L.Linear(n, N_ACT), action_value.DiscreteActionValue]))


class Diverged(Exception):
    """The parameters have become too large to compare."""


class Lock(object):
    """Lock-step reference of one agent with a local and a shared model."""

    local, shared = 'model', 'shared_model'

    def __init__(self, ctx, agent, opt, local, shared, key):
        self.ctx, self.rng = ctx, ctx.rng
        self.agent, self.opt, self.key = agent, opt, key
        self.local, self.shared = local, shared
        self.ref = copy.deepcopy(shared)
        self.rec = isinstance(self.ref, Recurrent)
        self.log = []
        orig = opt.update

        def update(*args, **kw):
            before = K.params_of(shared)
            orig(*args, **kw)
            self.log.append((before, K.params_of(shared)))
        opt.update = update
        self.items = []
        self.reward = 0.
        self.expect = 0         # updates expected from a call

    def perturb(self):
        """Another worker changes the shared parameters."""
        for p in self.shared.params():
            p.array[...] += self.rng.normal(
                0, .02, p.shape).astype(p.dtype)

    def compare(self, loss, what):
        """The next recorded update must follow the gradient of loss."""
        ctx = self.ctx
        ctx.require(len(self.log) > 0, self.key + ':no-update', lambda:
                    'no update {}'.format(what))
        before, after = self.log.pop(0)
        if max(np.abs(v).max() for v in before.values()) > 20:
            ctx.count('diverged_histories')
            raise Diverged()
        local = K.params_of(self.ref)
        self.ref.cleargrads()
        F.sum(loss).backward()
        exp = {}
        for n, p in self.ref.namedparams():
            g = 0. if p.grad is None else p.grad
            exp[n] = before[n] - LR * g
        ctx.count('parameter_updates')
        if max(K.max_diff(local, before), 0) > 1e-6:
            ctx.count('stale_updates')
        if not K.check_params(ctx, after, exp, self.key + ':gradient',
                              lambda: 'update {}'.format(what),
                              ref=before, rtol=5e-3):
            ctx.fatal(self.key + ':stop', 'see gradient')
        K.set_params(self.ref, after)
        if self.rec:
            self.ref.unchain_backward()
        self.after_update(before, after)

    def after_update(self, before, after):
        pass

    def check_synced(self):
        for n, p in self.local.namedparams():
            s = dict(self.shared.namedparams())[n]
            self.ctx.require(np.array_equal(p.array, s.array),
                             self.key + ':not-synced', lambda: 'the local '
                             'model differs from the shared model after an '
                             'update: {}'.format(n))

    def no_more_updates(self):
        self.ctx.require(not self.log, self.key + ':extra-update', lambda:
                         '{} updates that were not due'.format(len(self.log)))


def ema(old, decay, new):
    return old + (1 - decay) * (new - old)


def returns(rewards, boot, gamma):
    out = []
    n = len(rewards)
    for i in range(n):
        out.append(sum(gamma ** (j - i) * rewards[j] for j in range(i, n))
                   + gamma ** (n - i) * boot)
    return out


def run(ctx, lock, n_steps, p_done, p_cut, stale=0., reward_scale=1.):
    """Drive the agent of a lock."""
    kinds = set()
    try:
        drive(ctx, lock, n_steps, p_done, p_cut, stale, reward_scale, kinds)
    except Diverged:
        kinds.add('diverged')
    return tuple(sorted(kinds))


def drive(ctx, lock, n_steps, p_done, p_cut, stale, reward_scale, kinds):
    rng = ctx.rng
    obs, r = G.obs_of(rng), 0.
    for _ in range(n_steps):
        if rng.rand() < stale:
            lock.perturb()
            kinds.add('stale')
        lock.before(obs, r)
        a = lock.agent.act_and_train(obs, r)
        lock.acted(obs, r, a)
        new = G.obs_of(rng)
        r = float(rng.normal() * reward_scale) if rng.rand() < .8 else 0.
        u = rng.rand()
        if u < p_done + p_cut:
            done = bool(u < p_done)
            kinds.add('done' if done else 'cut')
            if rng.rand() < stale:
                lock.perturb()
            lock.before(new, r)
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                lock.agent.stop_episode_and_train(new, r, done)
            lock.stopped(new, r, done)
            obs, r = G.obs_of(rng), 0.
        else:
            obs = new


def x_of(obs):
    return K.obs_phi(obs)[None]


# -- A3C ---------------------------------------------------------------------
class A3CLock(Lock):

    def __init__(self, ctx, agent, opt, cfg, key='a3c'):
        Lock.__init__(self, ctx, agent, opt, agent.model, agent.shared_model,
                      key)
        self.cfg = cfg
        self.avg_reward = 0.
        self.lens = set()
        self.stats = [0., 0.]

    def before(self, obs, r):
        pass

    def due(self, boot_obs, done):
        items, cfg = self.items, self.cfg
        if done:
            boot = 0.
        else:
            with state_kept(self.ref):
                boot = float(self.ref.pi_and_v(x_of(boot_obs))[1].array[0, 0])
        n = len(items)
        if cfg['use_average_reward']:
            rs, ret = [None] * n, boot
            for i in reversed(range(n)):
                ret = (cfg['gamma'] * ret + items[i]['r'] - self.avg_reward)
                rs[i] = ret
                self.avg_reward += cfg['average_reward_tau'] * (
                    ret - float(items[i]['v'].array[0, 0]))
        else:
            rs = returns([t['r'] for t in items], boot, cfg['gamma'])
        pi_loss = v_loss = 0.
        for t, ret in zip(items, rs):
            v = t['v'][0, 0]
            pi_loss = pi_loss - t['logp'] * (ret - float(v.array)) \
                - cfg['beta'] * t['ent']
            v_loss = v_loss + .5 * F.square(v - np.float32(ret))
        loss = cfg['pi_loss_coef'] * pi_loss + cfg['v_loss_coef'] * v_loss
        if cfg['keep_loss_scale_same']:
            loss = loss * (cfg['t_max'] / n)
        if cfg['normalize_grad_by_t_max']:
            loss = loss / n
        self.compare(loss, 'of a rollout of {} of {} steps {} {}'.format(
            n, cfg['t_max'], 'that ended' if done else '', cfg))
        self.check_synced()
        self.lens.add(n)
        self.items = []

    def acted(self, obs, r, a):
        if self.items:
            self.items[-1]['r'] = r
        if len(self.items) == self.cfg['t_max']:
            self.due(obs, False)
        self.no_more_updates()
        d, v = self.ref.pi_and_v(x_of(obs))
        self.items.append({'v': v, 'ent': d.entropy[0], 'logp': d.log_prob(
            np.asarray(a)[None])[0]})
        self.stats[0] = ema(self.stats[0], self.cfg['average_value_decay'],
                            float(v.array[0, 0]))
        self.stats[1] = ema(self.stats[1], self.cfg['average_entropy_decay'],
                            float(d.entropy.array[0]))
        st = dict(self.agent.get_statistics())
        self.ctx.close([st['average_value'], st['average_entropy']],
                       self.stats, 'a3c:statistics', '', rtol=1e-3, atol=1e-5)

    def stopped(self, obs, r, done):
        self.items[-1]['r'] = r
        self.due(obs, done)
        self.no_more_updates()
        if self.rec:
            self.ref.reset_state()


def actor_critic_model(rng, kind, shared, recurrent, cls_shared, cls_sep):
    if shared:
        ls, n = body(rng, N_OBS, recurrent)
        m = cls_shared(O.Stateful(*ls), make_pi(rng, kind, n), make_v(rng, n))
    else:
        m = cls_sep(make_pi(rng, kind, N_OBS, recurrent),
                    make_v(rng, N_OBS, recurrent))
    return K.randomize(m, rng, .6)


@chk.scenario(quick=80, thorough=1500)
def a3c_updates(ctx):
    rng = ctx.rng
    kind = ['softmax', 'gauss'][rng.randint(2)]
    shared, recurrent = bool(rng.randint(2)), bool(rng.randint(2))
    model = actor_critic_model(rng, kind, shared, recurrent,
                               a3c.A3CSharedModel, a3c.A3CSeparateModel)
    opt = chainer.optimizers.SGD(LR)
    opt.setup(model)
    cfg = dict(
        t_max=int(rng.randint(1, 7)),
        gamma=float(rng.choice([0., .5, .9, 1.])),
        beta=float(rng.choice([0., .01, .5])),
        pi_loss_coef=float(rng.choice([1., .5])),
        v_loss_coef=float(rng.choice([1., .5, 2.])),
        keep_loss_scale_same=bool(rng.rand() < .3),
        normalize_grad_by_t_max=bool(rng.rand() < .3),
        use_average_reward=bool(rng.rand() < .3),
        average_reward_tau=float(rng.choice([.01, .3])),
        average_value_decay=float(rng.choice([0., .9])),
        average_entropy_decay=float(rng.choice([0., .9])))
    agent = agents.A3C(model, opt, phi=K.obs_phi, **cfg)
    if rng.rand() < .3:
        agent.process_idx = 3
    lock = A3CLock(ctx, agent, opt, cfg)
    stale = float(rng.choice([0., 0., .3]))
    kinds = run(ctx, lock, int(rng.randint(10, 40)),
                float(rng.choice([0., .1, .3])),
                float(rng.choice([0., .1])), stale)
    ctx.sig(kind, shared, recurrent, kinds, tuple(sorted(lock.lens)),
            cfg['t_max'], cfg['keep_loss_scale_same'],
            cfg['normalize_grad_by_t_max'], cfg['use_average_reward'])
    ctx.sample(cfg)


# -- n-step Q-learning -------------------------------------------------------
class NSQLock(Lock):

    def __init__(self, ctx, agent, opt, cfg):
        Lock.__init__(self, ctx, agent, opt, agent.q_function,
                      agent.shared_q_function, 'nsq')
        self.cfg = cfg
        self.target = copy.deepcopy(agent.target_q_function)
        self.t_global = 0
        self.lens, self.syncs = set(), 0

    def before(self, obs, r):
        if self.rng.rand() < self.cfg['other_steps']:
            # steps of other workers
            k = int(self.rng.randint(1, 4))
            self.t_global += k
            self.agent.t_global.value += k

    def due(self, boot_obs, done):
        boot = 0.
        if not done:
            with state_kept(self.target):
                boot = float(self.target(x_of(boot_obs)).q_values.array.max())
        rs = returns([t['r'] for t in self.items], boot, self.cfg['gamma'])
        loss = 0.
        for t, ret in zip(self.items, rs):
            e = t['q'] - np.float32(ret)
            loss = loss + (.5 * F.square(e) if abs(float(e.array)) < 1
                           else F.absolute(e) - .5)
        n = len(self.items)
        self.compare(loss, 'of a rollout of {} of {} steps {} {}'.format(
            n, self.cfg['t_max'], 'that ended' if done else '', self.cfg))
        self.check_synced()
        self.lens.add(n)
        self.items = []

    def acted(self, obs, r, a):
        ctx = self.ctx
        if self.items:
            self.items[-1]['r'] = r
        if len(self.items) == self.cfg['t_max']:
            self.due(obs, False)
        self.no_more_updates()
        if self.rec:
            self.target(x_of(obs))
        q = self.ref(x_of(obs))
        self.items.append({'q': q.q_values[0, int(a)]})
        self.t_global += 1
        ctx.require(self.agent.t_global.value == self.t_global, 'nsq:t-global',
                    lambda: 'global step {} instead of {}'.format(
                        self.agent.t_global.value, self.t_global))
        if self.t_global % self.cfg['i_target'] == 0:
            # the parameters this worker knows, or the shared ones
            got = K.params_of(self.agent.target_q_function)
            ok = any(K.max_diff(got, K.params_of(m)) == 0
                     for m in (self.local, self.shared))
            ctx.check(ok, 'nsq:target-not-synced', lambda: 'target not '
                      'synchronised at global step {} (every {})'.format(
                          self.t_global, self.cfg['i_target']))
            K.set_params(self.target, got)
            self.syncs += 1
        else:
            d = K.max_diff(K.params_of(self.agent.target_q_function),
                           K.params_of(self.target))
            ctx.check(d == 0, 'nsq:target-changed', lambda: 'target changed '
                      'at global step {} (every {})'.format(
                          self.t_global, self.cfg['i_target']))

    def stopped(self, obs, r, done):
        self.items[-1]['r'] = r
        self.due(obs, done)
        self.no_more_updates()
        if self.rec:
            self.ref.reset_state()
            self.target.reset_state()


@chk.scenario(quick=80, thorough=1500)
def nsq_updates(ctx):
    rng = ctx.rng
    recurrent = bool(rng.randint(2))
    q = K.randomize(make_q(rng, N_OBS, recurrent), rng, .6)
    opt = chainer.optimizers.SGD(LR)
    opt.setup(q)
    cfg = dict(t_max=int(rng.randint(1, 7)),
               gamma=float(rng.choice([0., .5, .9, 1.])),
               i_target=int(rng.choice([1, 2, 5, 17])))
    ex = explorers.ConstantEpsilonGreedy(
        float(rng.choice([0., .3])), lambda: int(rng.randint(N_ACT)))
    agent = agents.NSQ(q, opt, explorer=ex, phi=K.obs_phi, **cfg)
    cfg['other_steps'] = float(rng.choice([0., .3]))
    lock = NSQLock(ctx, agent, opt, cfg)
    kinds = run(ctx, lock, int(rng.randint(10, 50)),
                float(rng.choice([0., .1, .3])),
                float(rng.choice([0., .1])), float(rng.choice([0., 0., .3])),
                float(rng.choice([1., 3.])))
    ctx.sig(recurrent, kinds, tuple(sorted(lock.lens)), cfg['t_max'],
            cfg['i_target'], lock.syncs > 0)
    ctx.sample(cfg)


# -- REINFORCE ---------------------------------------------------------------
class ReinforceLock(Lock):

    def __init__(self, ctx, agent, opt, cfg):
        Lock.__init__(self, ctx, agent, opt, agent.model, agent.model,
                      'reinforce')
        self.cfg = cfg
        self.episodes = []
        self.stat = 0.

    def before(self, obs, r):
        pass

    def acted(self, obs, r, a):
        self.no_more_updates()
        if self.items:
            self.items[-1]['r'] = r
        d = self.ref(x_of(obs))
        self.items.append({'logp': d.log_prob(np.asarray(a)[None])[0],
                           'ent': d.entropy[0]})
        self.stat = ema(self.stat, self.cfg['average_entropy_decay'],
                        float(d.entropy.array[0]))
        self.ctx.close(
            dict(self.agent.get_statistics())['average_entropy'], self.stat,
            'reinforce:statistics', '', rtol=1e-3, atol=1e-5)

    def stopped(self, obs, r, done):
        self.items[-1]['r'] = r
        if done:
            self.episodes.append(self.items)
            if len(self.episodes) == self.cfg['batchsize']:
                loss = 0.
                for ep in self.episodes:
                    for k, t in enumerate(ep):
                        ret = sum(u['r'] for u in ep[k:])
                        loss = loss - t['logp'] * ret \
                            - self.cfg['beta'] * t['ent']
                loss = loss / self.cfg['batchsize']
                self.compare(loss, 'with episodes of {} {}'.format(
                    [len(e) for e in self.episodes], self.cfg))
                self.episodes = []
        self.items = []
        self.no_more_updates()
        if self.rec:
            self.ref.reset_state()


@chk.scenario(quick=60, thorough=1200)
def reinforce_updates(ctx):
    rng = ctx.rng
    kind = ['softmax', 'gauss'][rng.randint(2)]
    recurrent = bool(rng.randint(2))
    model = K.randomize(make_pi(rng, kind, N_OBS, recurrent), rng, .6)
    opt = chainer.optimizers.SGD(LR)
    opt.setup(model)
    cfg = dict(beta=float(rng.choice([0., .01, .5])),
               batchsize=int(rng.randint(1, 5)),
               backward_separately=bool(rng.randint(2)),
               average_entropy_decay=float(rng.choice([0., .9])))
    agent = agents.REINFORCE(model, opt, phi=K.obs_phi, **cfg)
    lock = ReinforceLock(ctx, agent, opt, cfg)
    kinds = run(ctx, lock, int(rng.randint(20, 80)),
                float(rng.choice([.1, .3, .6])),
                float(rng.choice([0., .1])))
    ctx.sig(kind, recurrent, kinds, cfg['batchsize'],
            cfg['backward_separately'], cfg['beta'])
    ctx.sample(cfg)


# -- PCL ---------------------------------------------------------------------
class PCLLock(Lock):

    def __init__(self, ctx, agent, opt, shared, cfg, draws):
        Lock.__init__(self, ctx, agent, opt, agent.model, shared, 'pcl')
        self.cfg, self.draws = cfg, draws
        self.losses = []
        self.lens = set()
        self.pos = 0
        self.n_stored = self.n_episodes = 0
        self.replays = 0

    def before(self, obs, r):
        pass

    def path_loss(self, rewards, values, next_values, logps):
        """Path consistency loss of one (sub-)trajectory."""
        cfg = self.cfg
        n = len(rewards)
        loss = 0.
        for t in range(n):
            d = min(n - t, cfg['rollout_len'])
            g = [cfg['gamma'] ** i for i in range(d)]
            ret = sum(w * x for w, x in zip(g, rewards[t:t + d]))
            G_ = sum(w * x for w, x in zip(g, logps[t:t + d]))
            last = next_values[t + d - 1]
            if not cfg['backprop_future_values']:
                last = float(last.array)
            gd = cfg['gamma'] ** d
            # the consistency with either part held constant
            c_v = gd * last - values[t] + ret - cfg['tau'] * float(G_.array)
            const = float(c_v.array) + cfg['tau'] * float(G_.array)
            c_pi = const - cfg['tau'] * G_
            loss = loss + cfg['v_loss_coef'] * .5 * F.square(c_v) \
                + cfg['pi_loss_coef'] * .5 * F.square(c_pi) / cfg['tau']
        if cfg['normalize_loss_by_steps']:
            loss = loss / n
        return loss

    def online(self, boot_obs, done):
        items = self.items
        self.items = []
        self.lens.add(len(items))
        if self.cfg['disable_online_update']:
            return
        vs = [t['v'] for t in items]
        if done:
            last = chainer.Variable(np.zeros((), 'f'))
        else:
            with state_kept(self.ref):
                last = self.ref(x_of(boot_obs))[1][0, 0]
        self.losses.append(self.path_loss(
            [t['r'] for t in items], vs, vs[1:] + [last],
            [t['logp'] for t in items]))
        if len(self.losses) == self.cfg['batchsize']:
            loss = sum(self.losses) / self.cfg['batchsize']
            self.losses = []
            self.compare(loss, 'of {} steps {} {}'.format(
                len(items), 'that ended' if done else '', self.cfg))

    def replay(self):
        cfg, ctx = self.cfg, self.ctx
        if self.losses:
            return
        for _ in range(cfg['n_times_replay']):
            ready = (self.draws is not None
                     and self.n_stored >= cfg['replay_start_size']
                     and self.n_episodes >= cfg['batchsize'])
            if not ready:
                continue
            ctx.require(len(self.draws) > 0, 'pcl:no-replay', lambda:
                        'no replay with {} stored steps'.format(
                            self.n_stored))
            _, k, max_len, eps = self.draws.pop(0)
            ctx.require(k == cfg['batchsize'] and max_len == cfg['t_max'],
                        'pcl:draw', lambda: 'drew {} episodes of length {}'
                        .format(k, max_len))
            weights = [1.] * len(eps)
            if isinstance(eps, tuple):
                eps, weights = eps
            loss = 0.
            with state_reset(self.ref):
                for ep, w in zip(eps, weights):
                    if self.rec:
                        self.ref.reset_state()
                    outs = [self.ref(x_of(t['state'])) for t in ep]
                    outs.append(self.ref(x_of(ep[-1]['next_state'])))
                    vs = [v[0, 0] for _, v in outs]
                    nv = vs[1:]
                    if ep[-1]['is_state_terminal']:
                        nv[-1] = chainer.Variable(np.zeros((), 'f'))
                    logps = [d.log_prob(np.asarray(t['action'])[None])[0]
                             for (d, _), t in zip(outs, ep)]
                    loss = loss + float(w) * self.path_loss(
                        [t['reward'] for t in ep], vs[:-1], nv, logps)
                loss = loss / cfg['batchsize']
                self.compare(loss, 'from replayed episodes of {} steps {}'
                             .format([len(e) for e in eps], cfg))
            self.replays += 1

    def after_update(self, before, after):
        pass

    def finish_call(self):
        self.no_more_updates()
        if self.draws is not None:
            self.ctx.require(not self.draws, 'pcl:extra-replay', 'a replay '
                             'that was not due')
        if self.cfg['train_async'] and self.updated:
            self.check_synced()

    def acted(self, obs, r, a):
        self.updated = bool(self.log)
        if self.items:
            self.items[-1]['r'] = r
        if len(self.items) == self.cfg['t_max']:
            self.online(obs, False)
            self.replay()
        self.n_current += 1
        self.finish_call()
        d, v = self.ref(x_of(obs))
        self.items.append({'v': v[0, 0], 'logp': d.log_prob(
            np.asarray(a)[None])[0]})

    n_current = 0

    def stopped(self, obs, r, done):
        self.updated = bool(self.log)
        self.items[-1]['r'] = r
        self.online(obs, done)
        self.replay()
        # the buffer provides completed episodes
        self.n_stored += self.n_current
        self.n_current = 0
        self.n_episodes += 1
        self.finish_call()
        if self.rec:
            self.ref.reset_state()

    def stored(self, kind, what):
        if kind == 'draw':
            self.draws.append(what)


@chk.scenario(quick=90, thorough=1800, cpu=200)
def pcl_updates(ctx):
    rng = ctx.rng
    kind = ['softmax', 'gauss'][rng.randint(2)]
    shared, recurrent = bool(rng.randint(2)), bool(rng.randint(2))
    model = actor_critic_model(rng, kind, shared, recurrent,
                               pcl.PCLSharedModel, pcl.PCLSeparateModel)
    opt = chainer.optimizers.SGD(LR)
    opt.setup(model)
    cfg = dict(
        t_max=[None, 1, 2, 3, 5][rng.randint(5)],
        gamma=float(rng.choice([0., .5, .9, 1.])),
        tau=float(rng.choice([.01, .1, 1.])),
        pi_loss_coef=float(rng.choice([1., .5])),
        v_loss_coef=float(rng.choice([1., .5, 2.])),
        rollout_len=int(rng.choice([1, 2, 3, 10])),
        batchsize=int(rng.choice([1, 1, 2, 3])),
        disable_online_update=bool(rng.rand() < .25),
        n_times_replay=int(rng.randint(0, 3)),
        replay_start_size=int(rng.choice([1, 8, 20])),
        normalize_loss_by_steps=bool(rng.randint(2)),
        backprop_future_values=bool(rng.randint(2)),
        train_async=bool(rng.randint(2)))
    bk = ['none', 'plain', 'prio'][rng.choice(3, p=[.2, .45, .35])]
    by_max = bool(rng.randint(2))
    # episodes of unequal priority, thus of unequal importance weight
    priority = [None, lambda ep: 1. + len(ep), lambda ep: float(np.exp(sum(
        t['reward'] for t in ep) / 3.))][rng.randint(3)]
    buf = {'none': lambda: None, 'plain': lambda: R.LoggedEpisodic(10 ** 6),
           'prio': lambda: R.LoggedPrioritizedEpisodic(
               10 ** 6, uniform_ratio=.2, wait_priority_after_sampling=False,
               default_priority_func=priority, normalize_by_max=by_max)
           }[bk]()
    agent = pcl.PCL(model, opt, replay_buffer=buf, phi=K.obs_phi, **cfg)
    lock = PCLLock(ctx, agent, opt, model, cfg, None if buf is None else [])
    if buf is not None:
        buf.log = lock.stored
    # Batched recurrent replay needs L.LSTM to shrink its batch
    stale = float(rng.choice([0., 0., .3])) if cfg['train_async'] else 0.
    kinds = run(ctx, lock, int(rng.randint(20, 50)),
                float(rng.choice([.1, .3])),
                float(rng.choice([0., .1])), stale)
    ctx.count('replays', lock.replays)
    ctx.count('on_policy_rollouts', len(lock.lens))
    ctx.sig(kind, shared, recurrent, kinds, cfg['t_max'], bk,
            cfg['rollout_len'], cfg['batchsize'], lock.replays > 0,
            cfg['disable_online_update'], cfg['backprop_future_values'],
            cfg['train_async'], cfg['normalize_loss_by_steps'])
    ctx.sample(cfg)


# -- ACER --------------------------------------------------------------------
class Critic(chainer.Chain, RecurrentChainMixin):
    """State value and action value of continuous actions."""

    def __init__(self, rng, n_in, recurrent):
        super().__init__()
        ls, n = body(rng, n_in, recurrent)
        with self.init_scope():
            self.body = O.Stateful(*ls)
            self.v = L.Linear(n, 1)
            self.w = L.Linear(n, N_ACT)

    def __call__(self, x):
        h = self.body(x)
        v, w = self.v(h), self.w(h)

        def q(a):
            a = F.tanh(chainer.Variable(np.asarray(a, 'f')))
            return F.sum(w * a, axis=1, keepdims=True) + v * .7
        return v, action_value.SingleActionValue(q)


class ContinuousModel(chainer.Chain, RecurrentChainMixin):

    def __init__(self, rng, shared, recurrent):
        super().__init__()
        with self.init_scope():
            if shared:
                ls, n = body(rng, N_OBS, recurrent)
                self.shared = O.Stateful(*ls)
                self.pi = make_pi(rng, 'gauss', n)
                self.c = Critic(rng, n, False)
            else:
                self.pi = make_pi(rng, 'gauss', N_OBS, recurrent)
                self.c = Critic(rng, N_OBS, recurrent)
        self.has_shared = shared

    def __call__(self, x):
        h = self.shared(x) if self.has_shared else x
        d = self.pi(h)
        v, q = self.c(h)
        return d, q, v


def dparams(d):
    """Parameters of a batch of one as double precision vectors."""
    return [p.array[0].astype('d') for p in d.params]


def softmax64(z):
    e = np.exp(z - z.max())
    return e / e.sum()


def logp_grad(kind, ps, a):
    if kind == 'softmax':
        g = -softmax64(ps[0])
        g[int(a)] += 1
        return [g]
    m, v = ps
    a = np.asarray(a, 'd')
    return [(a - m) / v, -.5 / v + .5 * (a - m) ** 2 / v ** 2]


def prob64(kind, ps, a):
    if kind == 'softmax':
        return softmax64(ps[0])[int(a)]
    m, v = ps
    return float(np.exp((-.5 * np.log(2 * np.pi * v)
                         - .5 * (np.asarray(a, 'd') - m) ** 2 / v).sum()))


def kl_and_grad(kind, avg, ps):
    """KL(avg || pi) and its gradient by the parameters of pi."""
    if kind == 'softmax':
        p, q = softmax64(avg[0]), softmax64(ps[0])
        return float((p * np.log(p / q)).sum()), [q - p]
    (m0, v0), (m, v) = avg, ps
    kl = .5 * (np.log(v / v0) + (v0 + (m0 - m) ** 2) / v - 1).sum()
    return float(kl), [(m - m0) / v,
                       .5 / v - .5 * (v0 + (m - m0) ** 2) / v ** 2]


class ACERLock(Lock):

    def __init__(self, ctx, agent, opt, kind, cfg, draws):
        Lock.__init__(self, ctx, agent, opt, agent.model, agent.shared_model,
                      'acer')
        self.kind, self.cfg, self.draws = kind, cfg, draws
        self.avg = copy.deepcopy(self.shared)
        self.kl = 0.
        self.n_stored = self.n_current = 0
        self.replays = 0
        self.lens = set()
        self.constrained = self.ambiguous = 0

    def before(self, obs, r):
        TapGaussian.samples = []

    def item(self, x):
        d, q, v = self.ref(x)
        with chainer.no_backprop_mode():
            avg, _, _ = self.avg(x)
        return {'d': d, 'qf': q, 'v': F.reshape(v, ()), 'avg': dparams(avg)}

    def sampled(self, ps):
        """What the agent sampled last from this distribution."""
        out = [s for m, v, s in TapGaussian.samples
               if m.shape[0] == 1 and np.allclose(m[0], ps[0], rtol=1e-3,
                                                  atol=1e-4)
               and np.allclose(v[0], ps[1], rtol=1e-3, atol=1e-4)]
        return out

    def rollout_loss(self, items, boot, off):
        cfg, kind = self.cfg, self.kind
        n = len(items)
        ret = opc = boot
        loss = 0.
        self.skip = False
        for t in reversed(items):
            ps = dparams(t['d'])
            a = t['a']
            v = float(t['v'].array)
            Q = F.reshape(t['qf'].evaluate_actions(np.asarray(a)[None]), ())
            q = float(Q.array)
            ret = t['r'] + cfg['gamma'] * ret
            opc = t['r'] + cfg['gamma'] * opc
            adv = (opc if cfg['use_Q_opc'] else ret) - v
            rho = prob64(kind, ps, a) / prob64(kind, t['mu'], a) if off else 1.
            c = cfg['truncation_threshold']
            # direction to increase the objective, by distribution parameters
            if not off:
                g = [adv * x for x in logp_grad(kind, ps, a)]
            else:
                w = rho if c is None else min(c, rho)
                g = [w * adv * x for x in logp_grad(kind, ps, a)]
                if c is not None and kind == 'softmax':
                    p, mu = softmax64(ps[0]), softmax64(t['mu'][0])
                    qs = t['qf'].q_values.array[0].astype('d')
                    for b in range(N_ACT):
                        w = max(0., 1 - c * mu[b] / p[b])
                        gb = logp_grad(kind, ps, b)
                        g = [x + w * p[b] * (qs[b] - v) * y
                             for x, y in zip(g, gb)]
                elif c is not None:
                    s = self.sampled(ps)
                    self.ctx.require(len(s) >= 1, 'acer:no-correction',
                                     'no action was sampled for the bias '
                                     'correction')
                    if len(s) > 1:
                        self.skip = True
                    b = s[-1][0]
                    w = max(0., 1 - c * prob64(kind, t['mu'], b)
                            / prob64(kind, ps, b))
                    qb = float(t['qf'].evaluate_actions(
                        b[None]).array.ravel()[0])
                    g = [x + w * (qb - v) * y
                         for x, y in zip(g, logp_grad(kind, ps, b))]
            if cfg['use_trust_region']:
                kl, k = kl_and_grad(kind, t['avg'], ps)
                self.kl = ema(self.kl, cfg['average_kl_decay'], kl)
                kg = sum((x * y).sum() for x, y in zip(k, g))
                kk = sum((x * x).sum() for x in k)
                f = max(0., (kg - cfg['trust_region_delta']) / kk) \
                    if kk > 0 else 0.
                # errors of k of about 1e-6, relative to its length
                if kk < 1e-6 and kg - cfg['trust_region_delta'] > -1e-6:
                    self.skip = True
                if f > 0:
                    self.constrained += 1
                g = [x - f * y for x, y in zip(g, k)]
            obj = sum(F.sum(p[0] * x.astype('f'))
                      for p, x in zip(t['d'].params, g))
            loss = loss - cfg['pi_loss_coef'] * (
                obj + cfg['beta'] * t['d'].entropy[0])
            loss = loss + cfg['Q_loss_coef'] * .5 * F.square(
                Q - np.float32(ret))
            if kind != 'softmax':
                target = v + min(1., rho) * (ret - q)
                loss = loss + cfg['Q_loss_coef'] * .5 * F.square(
                    t['v'] - np.float32(target))
                trace = min(1., rho ** (1. / N_ACT))
            else:
                trace = min(1., rho)
            ret = trace * (ret - q) + v
            opc = opc - q + v
        if cfg['normalize_loss_by_steps']:
            loss = loss / n
        return loss

    def after_update(self, before, after):
        """The average model follows every update softly."""
        tau = 1 - self.cfg['trust_region_alpha']
        old = K.params_of(self.avg)
        self.want_avg = {n: (1 - tau) * old[n] + tau * after[n] for n in old}
        K.set_params(self.avg, self.want_avg)

    def update(self, loss, what):
        if self.skip:
            self.ambiguous += 1
            self.ctx.require(len(self.log) > 0, 'acer:no-update', what)
            before, after = self.log.pop(0)
            K.set_params(self.ref, after)
            if self.rec:
                self.ref.unchain_backward()
            self.after_update(before, after)
        else:
            self.compare(loss, what)

    def online(self, boot_obs, done):
        items, self.items = self.items, []
        self.lens.add(len(items))
        if self.cfg['disable_online_update']:
            return
        boot = 0.
        if not done:
            with state_kept(self.ref):
                boot = float(self.ref(x_of(boot_obs))[2].array.ravel()[0])
        self.update(self.rollout_loss(items, boot, False),
                    'of {} steps {} {}'.format(
                        len(items), 'that ended' if done else '', self.cfg))

    def replay(self):
        cfg, ctx = self.cfg, self.ctx
        for _ in range(cfg['n_times_replay']):
            if self.draws is None or \
                    self.n_stored < cfg['replay_start_size']:
                continue
            ctx.require(len(self.draws) > 0, 'acer:no-replay', lambda:
                        'no replay with {} stored steps'.format(
                            self.n_stored))
            _, k, max_len, eps = self.draws.pop(0)
            ctx.require(k == 1 and max_len == cfg['t_max'], 'acer:draw',
                        lambda: 'drew {} episodes of length {}'.format(
                            k, max_len))
            ep = eps[0]
            with state_reset(self.ref), state_reset(self.avg):
                items = []
                for t in ep:
                    it = self.item(x_of(t['state']))
                    it.update(a=t['action'], r=t['reward'],
                              mu=dparams(t['mu']))
                    items.append(it)
                boot = 0.
                if not ep[-1]['is_state_terminal']:
                    boot = float(self.ref(x_of(
                        ep[-1]['next_state']))[2].array.ravel()[0])
                self.update(self.rollout_loss(items, boot, True),
                            'from a replayed episode of {} steps {}'.format(
                                len(ep), cfg))
            self.replays += 1

    def finish_call(self, updated):
        ctx = self.ctx
        self.no_more_updates()
        if self.draws is not None:
            ctx.require(not self.draws, 'acer:extra-replay', 'a replay that '
                        'was not due')
        if updated:
            self.check_synced()
        K.check_params(ctx, K.params_of(self.agent.shared_average_model),
                       K.params_of(self.avg), 'acer:average-model',
                       'average model', rtol=1e-5)
        # keep rounding errors from accumulating
        K.set_params(self.avg, K.params_of(self.agent.shared_average_model))
        ctx.close(dict(self.agent.get_statistics())['average_kl'], self.kl,
                  'acer:average-kl', '', rtol=1e-2, atol=1e-4)
        self.kl = float(dict(self.agent.get_statistics())['average_kl'])

    def acted(self, obs, r, a):
        updated = bool(self.log)
        if self.items:
            self.items[-1]['r'] = r
        if len(self.items) == self.cfg['t_max']:
            self.online(obs, False)
            self.replay()
        self.n_current += 1
        self.finish_call(updated)
        it = self.item(x_of(obs))
        it['a'] = np.asarray(a)
        self.items.append(it)

    def stopped(self, obs, r, done):
        updated = bool(self.log)
        self.items[-1]['r'] = r
        self.online(obs, done)
        self.replay()
        self.n_stored += self.n_current
        self.n_current = 0
        self.finish_call(updated)
        if self.rec:
            self.ref.reset_state()
            self.avg.reset_state()

    def stored(self, kind, what):
        if kind == 'draw':
            self.draws.append(what)


@chk.scenario(quick=120, thorough=2500, cpu=200)
def acer_updates(ctx):
    rng = ctx.rng
    kind = ['softmax', 'gauss'][rng.randint(2)]
    shared, recurrent = bool(rng.randint(2)), bool(rng.randint(2))
    if kind == 'gauss':
        model = ContinuousModel(rng, shared, recurrent)
    elif shared:
        ls, n = body(rng, N_OBS, recurrent)
        model = acer.ACERSharedModel(
            O.Stateful(*ls), make_pi(rng, kind, n), make_q(rng, n))
    else:
        model = acer.ACERSeparateModel(
            make_pi(rng, kind, N_OBS, recurrent),
            make_q(rng, N_OBS, recurrent))
    K.randomize(model, rng, float(rng.choice([.4, .8])))
    opt = chainer.optimizers.SGD(LR)
    opt.setup(model)
    cfg = dict(
        t_max=int(rng.randint(1, 7)),
        gamma=float(rng.choice([0., .5, .9, 1.])),
        beta=float(rng.choice([0., .01, .5])),
        pi_loss_coef=float(rng.choice([1., .5])),
        Q_loss_coef=float(rng.choice([1., .5])),
        use_trust_region=bool(rng.rand() < .7),
        trust_region_alpha=float(rng.choice([.2, .5, .9, .99])),
        trust_region_delta=float(rng.choice([0., .01, .1, 1.])),
        truncation_threshold=[None, .3, 1., 10.][rng.randint(4)],
        disable_online_update=bool(rng.rand() < .25),
        n_times_replay=int(rng.randint(0, 4)),
        replay_start_size=int(rng.choice([1, 8, 20])),
        normalize_loss_by_steps=bool(rng.randint(2)),
        use_Q_opc=bool(rng.randint(2)),
        average_kl_decay=float(rng.choice([0., .9])))
    buf = R.LoggedEpisodic(10 ** 6) if rng.rand() < .85 else None
    agent = agents.ACER(model, opt, replay_buffer=buf, phi=K.obs_phi, **cfg)
    lock = ACERLock(ctx, agent, opt, kind, cfg, None if buf is None else [])
    if buf is not None:
        buf.log = lock.stored
    try:
        kinds = run(ctx, lock, int(rng.randint(20, 50)),
                    float(rng.choice([.05, .3])),
                    float(rng.choice([0., .1])),
                    float(rng.choice([0., 0., .3])))
    finally:
        TapGaussian.samples = None
    ctx.count('replays', lock.replays)
    ctx.count('ambiguous_updates', lock.ambiguous)
    ctx.count('constrained_steps', lock.constrained)
    ctx.sig(kind, shared, recurrent, kinds, cfg['t_max'],
            tuple(sorted(lock.lens)), cfg['truncation_threshold'],
            cfg['use_trust_region'], lock.constrained > 0, lock.replays > 0,
            cfg['use_Q_opc'], cfg['normalize_loss_by_steps'])
    ctx.sample(cfg)


@chk.scenario(quick=60, thorough=2000)
def sdn_models(ctx):
    """Stochastic duelling networks: Q = V + A - mean A of own samples."""
    rng = ctx.rng
    shared = bool(rng.randint(2))
    n = int(rng.randint(1, 8))
    n_in = 4 if shared else N_OBS
    pi, v, adv = (make_pi(rng, 'gauss', n_in), make_v(rng, n_in),
                  O.Adv(n_in, N_ACT))
    if shared:
        sh = O.Stateful(L.Linear(N_OBS, 4), F.tanh)
        model = acer.ACERSDNSharedModel(sh, pi, v, adv)
        n = 5
    else:
        sh = None
        model = acer.ACERSDNSeparateModel(pi, v, adv, n=n)
    K.randomize(model, rng, .7)
    b = int(rng.randint(1, 5))
    x = rng.normal(size=(b, N_OBS)).astype('f')
    a = rng.normal(size=(b, N_ACT)).astype('f')
    TapGaussian.samples = []
    try:
        d, q, value = model(x)
        qa = q.evaluate_actions(a)
        samples = TapGaussian.samples
    finally:
        TapGaussian.samples = None
    h = x if sh is None else sh(x)
    ctx.require(len(samples) == n, 'sdn:samples', lambda: '{} samples instead '
                'of {}'.format(len(samples), n))
    ctx.close(value.array, v(h).array, 'sdn:value', 'V', rtol=1e-5, atol=1e-6)
    ref = v(h).array + adv(h, a).array - np.mean(
        [adv(h, s[2]).array for s in samples], axis=0)
    ctx.close(qa.array, ref, 'sdn:q', 'Q', rtol=1e-4, atol=1e-5)
    d2 = pi(h)
    ctx.close(d.mean.array, d2.mean.array, 'sdn:pi', '', rtol=1e-5, atol=1e-6)
    for s in samples:
        ctx.close(s[0], d2.mean.array, 'sdn:sampled-from', 'samples are not '
                  'from the policy', rtol=1e-5, atol=1e-6)
    ctx.sig(shared, n, b)


if __name__ == '__main__':
    raise SystemExit(chk.main())
