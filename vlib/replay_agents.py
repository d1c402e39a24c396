"""Factory for every replay-based agent, and instrumented replay buffers."""
import chainer
import chainer.functions as F
import chainer.links as L
import numpy as np

from vlib import agentkit as K
from chainerrl import agents
from chainerrl import distribution
from chainerrl import explorer as explorer_base
from chainerrl import links
from chainerrl import policies
from chainerrl import q_functions
from chainerrl import replay_buffers
from chainerrl.agents import dpp
from chainerrl.agents import iqn
from chainerrl.recurrent import RecurrentChainMixin

N_OBS = 3
N_ACT = 3

DISCRETE = ['DQN', 'DoubleDQN', 'AL', 'PAL', 'DoublePAL', 'DPP', 'DPPL',
            'DPPGreedy', 'ResidualDQN', 'SARSA', 'CategoricalDQN',
            'CategoricalDoubleDQN', 'IQN', 'DoubleIQN']
RECURRENT_DISCRETE = ['DQN', 'DoubleDQN', 'SARSA', 'CategoricalDQN', 'IQN']
CONTINUOUS = ['DDPG', 'PGT', 'TD3', 'SoftActorCritic']


class ActorCritic(chainer.Chain, RecurrentChainMixin):
    def __init__(self, policy, q_function):
        super().__init__(policy=policy, q_function=q_function)


class GaussianPolicy(chainer.Chain):
    def __init__(self):
        super().__init__()
        with self.init_scope():
            self.m = L.Linear(N_OBS, N_ACT)
            self.v = L.Linear(N_OBS, N_ACT)

    def __call__(self, x):
        return distribution.GaussianDistribution(
            self.m(x), F.softplus(self.v(x)) + .05)


class LoggedExplorer(explorer_base.Explorer):
    """Random but reproducible exploration; keeps what it returned."""

    def __init__(self, rng, discrete, eps=.5):
        self.rng = rng
        self.discrete = discrete
        self.eps = eps
        self.returned = []

    def select_action(self, t, greedy_action_func, action_value=None):
        a = greedy_action_func()
        if self.rng.rand() < self.eps:
            if self.discrete:
                a = np.int32(self.rng.randint(N_ACT))
            else:
                a = (a + self.rng.normal(size=np.shape(a))).astype('f')
        self.returned.append((t, a))
        return a


class Logged(object):
    """Mixin: replay buffer that logs what happens on its interface."""

    log = None

    def append(self, *args, **kwargs):
        names = ['state', 'action', 'reward', 'next_state', 'next_action',
                 'is_state_terminal', 'env_id']
        d = dict(next_state=None, next_action=None, is_state_terminal=False,
                 env_id=0)
        d.update(zip(names, args))
        d.update(kwargs)
        super().append(*args, **kwargs)
        self.event('append', d)

    def stop_current_episode(self, env_id=0):
        super().stop_current_episode(env_id=env_id)
        self.event('stop', env_id)

    def sample(self, n, *args, **kwargs):
        r = super().sample(n, *args, **kwargs)
        self.event('draw', ('sample', n, None, r))
        return r

    def sample_episodes(self, n_episodes, max_len=None):
        r = super().sample_episodes(n_episodes, max_len)
        self.event('draw', ('episodes', n_episodes, max_len, r))
        return r

    def event(self, kind, what):
        if self.log is not None:
            self.log(kind, what)


class LoggedReplay(Logged, replay_buffers.ReplayBuffer):
    pass


class LoggedPrioritized(Logged, replay_buffers.PrioritizedReplayBuffer):
    pass


class LoggedEpisodic(Logged, replay_buffers.EpisodicReplayBuffer):
    pass


class LoggedPrioritizedEpisodic(
        Logged, replay_buffers.PrioritizedEpisodicReplayBuffer):
    pass


def make_iqn(rng, recurrent):
    hidden = 4
    if recurrent:
        q = iqn.StatelessRecurrentImplicitQuantileQFunction(
            psi=links.StatelessRecurrentSequential(
                L.Linear(N_OBS, hidden), L.NStepLSTM(1, hidden, hidden, 0)),
            phi=chainer.Sequential(iqn.CosineBasisLinear(5, hidden), F.relu),
            f=L.Linear(hidden, N_ACT))
    else:
        q = iqn.ImplicitQuantileQFunction(
            psi=chainer.Sequential(L.Linear(N_OBS, hidden), F.relu),
            phi=chainer.Sequential(iqn.CosineBasisLinear(5, hidden), F.relu),
            f=L.Linear(hidden, N_ACT))
    return K.randomize(q, rng)


def make_model(rng, name, recurrent, bn=False):
    if bn:
        norm = L.BatchNormalization(N_OBS)
        if name in ('IQN', 'DoubleIQN'):
            m = make_iqn(rng, recurrent)
            m.psi.insert(0, norm)
            return m
        return links.Sequence(norm, make_model(rng, name, recurrent))
    if name in ('IQN', 'DoubleIQN'):
        return make_iqn(rng, recurrent)
    if name.startswith('Categorical'):
        return K.make_dist_q(rng, N_OBS, N_ACT, 5, -2., 2., recurrent)
    return K.make_q(rng, 'lstm' if recurrent else
                    ['table', 'mlp'][rng.randint(2)], N_OBS, N_ACT)


def optimizer(rng, lr):
    if rng.randint(2):
        return chainer.optimizers.SGD(lr)
    return chainer.optimizers.Adam(alpha=lr)


class Built(object):
    """An agent with uniform access to its networks and optimizers."""

    def __init__(self, agent, name, recurrent, optimizers, online, target):
        self.agent = agent
        self.name = name
        self.recurrent = recurrent
        self.optimizers = optimizers  # name -> optimizer
        self.online = online          # name -> link
        self.target = target          # online name -> target link


def make_agent(rng, name, buf, explorer, recurrent=False, lr=.001, **kw):
    """kw: constructor arguments shared by the agents."""
    kw = dict(kw)
    gamma = kw.pop('gamma', .9)
    bn = kw.pop('bn', False)
    kw.setdefault('phi', K.obs_phi)
    if name in DISCRETE:
        cls = getattr(dpp if name.startswith('DPP') else agents, name)
        q = make_model(rng, name, recurrent, bn)
        opt = optimizer(rng, lr)
        opt.setup(q)
        if name in ('IQN', 'DoubleIQN'):
            kw.update(quantile_thresholds_N=3, quantile_thresholds_N_prime=2,
                      quantile_thresholds_K=4)
        if recurrent:
            kw['recurrent'] = True
        agent = cls(q, opt, buf, gamma, explorer, **kw)
        target = {'model': agent.target_model}
        if name == 'ResidualDQN':
            target = {}
        return Built(agent, name, recurrent, {'q': opt}, {'model': q}, target)
    if recurrent:
        assert name == 'DDPG'
        q = q_functions.FCLSTMSAQFunction(N_OBS, N_ACT, 4, 1,
                                          nonlinearity=F.tanh)
        pi = policies.FCLSTMDeterministicPolicy(
            N_OBS, n_hidden_layers=1, n_hidden_channels=4, action_size=N_ACT,
            min_action=-np.ones(N_ACT, 'f'), max_action=np.ones(N_ACT, 'f'),
            nonlinearity=F.tanh)
    else:
        if bn:
            q = q_functions.FCBNSAQFunction(N_OBS, N_ACT, 4, 1,
                                            nonlinearity=F.tanh)
        else:
            q = q_functions.FCSAQFunction(N_OBS, N_ACT, 4, 1,
                                          nonlinearity=F.tanh)
        if name in ('DDPG', 'TD3'):
            cls = (policies.FCBNDeterministicPolicy if bn
                   else policies.FCDeterministicPolicy)
            pi = cls(
                N_OBS, n_hidden_layers=1, n_hidden_channels=4,
                action_size=N_ACT, min_action=-np.ones(N_ACT, 'f'),
                max_action=np.ones(N_ACT, 'f'), nonlinearity=F.tanh)
        else:
            pi = GaussianPolicy()
    K.randomize(q, rng)
    K.randomize(pi, rng)
    po, qo = optimizer(rng, lr), optimizer(rng, lr)
    if name in ('DDPG', 'PGT'):
        model = ActorCritic(pi, q)
        po.setup(pi)
        qo.setup(q)
        if recurrent:
            kw['episodic_update'] = True
        agent = getattr(agents, name)(model, po, qo, buf, gamma, explorer,
                                      **kw)
        return Built(agent, name, recurrent, {'actor': po, 'critic': qo},
                     {'model': model}, {'model': agent.target_model})
    q2 = K.randomize(K.clone(q), rng)
    qo2 = optimizer(rng, lr)
    po.setup(pi)
    qo.setup(q)
    qo2.setup(q2)
    opts = {'actor': po, 'critic': qo, 'critic2': qo2}
    online = {'policy': pi, 'q_func1': q, 'q_func2': q2}
    if name == 'TD3':
        agent = agents.TD3(pi, q, q2, po, qo, qo2, buf, gamma, explorer, **kw)
        target = {'policy': agent.target_policy}
    else:
        agent = agents.SoftActorCritic(pi, q, q2, po, qo, qo2, buf, gamma,
                                       **kw)
        target = {}
    target.update({'q_func1': agent.target_q_func1,
                   'q_func2': agent.target_q_func2})
    return Built(agent, name, recurrent, opts, online, target)


# ------------------------------------------------------------- environments

class EnvScript(object):
    """Scripted environment: unique observations, random episode ends."""

    counter = [0]

    def __init__(self, rng, p_done, p_reset, env_id=0):
        self.rng = rng
        self.p_done = p_done
        self.p_reset = p_reset
        self.env_id = env_id
        self.n = 0

    def obs(self):
        self.n += 1
        x = self.rng.normal(size=N_OBS).astype(np.float32)
        x.flags.writeable = False
        return ((self.env_id, self.n), x)

    def step(self):
        """Returns obs, reward, done, reset."""
        u = self.rng.rand()
        done = bool(u < self.p_done)
        reset = bool(not done and u < self.p_done + self.p_reset)
        if done and self.rng.rand() < .2:
            reset = True
        return self.obs(), float(self.rng.normal()), done, reset
