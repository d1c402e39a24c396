"""Factory for the rollout-based agents."""
import chainer
import chainer.functions as F
import chainer.links as L
import numpy as np

from vlib import agentkit as K
from vlib.replay_agents import Built, LoggedEpisodic
from chainerrl import action_value
from chainerrl import agents
from chainerrl import distribution
from chainerrl import links
from chainerrl.agents import a2c
from chainerrl.agents import a3c
from chainerrl.agents import acer
from chainerrl.agents import pcl
from chainerrl.policies import SoftmaxPolicy
from chainerrl.recurrent import RecurrentChainMixin

N_OBS = 3
N_ACT = 3

BATCH = ['A2C', 'PPO', 'TRPO']
SINGLE = ['A3C', 'ACER', 'NSQ', 'PCL', 'REINFORCE', 'PPO', 'TRPO']
ALL = ['A2C', 'A3C', 'ACER', 'NSQ', 'PCL', 'REINFORCE', 'PPO', 'TRPO']
GAUSS = ['A2C', 'A3C', 'ACER', 'PCL', 'REINFORCE', 'PPO', 'TRPO']
RECURRENT = ['A3C', 'ACER', 'NSQ', 'PCL', 'REINFORCE', 'PPO', 'TRPO']
# agents that keep recurrent states inside the model
STATEFUL = ['A3C', 'ACER', 'NSQ', 'PCL', 'REINFORCE']


def gaussian_head(n_act):
    def head(h):
        return distribution.GaussianDistribution(
            h[:, :n_act], F.softplus(h[:, n_act:]) + .05)
    return head


def softmax_head(h):
    return distribution.SoftmaxDistribution(h)


class Stateful(links.Sequence, RecurrentChainMixin):
    """Sequence with (possibly) stateful members."""


class A2CSharedModel(a2c.A2CModel, chainer.Chain):

    def __init__(self, shared, pi, v):
        chainer.Chain.__init__(self, shared=shared, pi=pi, v=v)

    def pi_and_v(self, obs):
        h = self.shared(obs)
        return self.pi(h), self.v(h)


class Adv(chainer.Chain, RecurrentChainMixin):
    """Advantage function of a state and an action."""

    def __init__(self, n_in, n_act, bn=False):
        super().__init__()
        with self.init_scope():
            self.lo = L.Linear(n_in, 4)
            self.la = L.Linear(n_act, 4)
            self.out = L.Linear(4, 1)

    def __call__(self, x, a):
        return self.out(F.tanh(self.lo(x) + self.la(a)))


def body(n_in, n_out, lstm, bn=False, hidden=None, stateless=False):
    """List of links computing n_out features of the n_in features."""
    ls = []
    if bn:
        ls.append(L.BatchNormalization(n_in))
    if lstm:
        if stateless:
            ls += [L.Linear(n_in, 4), F.tanh, L.NStepLSTM(1, 4, 4, 0)]
        else:
            ls += [L.Linear(n_in, 4), F.tanh, L.LSTM(4, 4)]
        n_in = 4
    elif hidden:
        ls += [L.Linear(n_in, hidden), F.tanh]
        n_in = hidden
    ls.append(L.Linear(n_in, n_out))
    return ls


def make_policy(kind, lstm=False, n_in=N_OBS, bn=False, hidden=None,
                stateless=False):
    if kind == 'softmax':
        ls = body(n_in, N_ACT, lstm, bn, hidden, stateless) + [softmax_head]
    else:
        ls = body(n_in, 2 * N_ACT, lstm, bn, hidden, stateless) + [
            gaussian_head(N_ACT)]
    if lstm and stateless:
        return links.StatelessRecurrentSequential(*ls)
    return Stateful(*ls)


def make_v(lstm=False, n_in=N_OBS, bn=False, hidden=None, stateless=False):
    ls = body(n_in, 1, lstm, bn, hidden, stateless)
    if lstm and stateless:
        return links.StatelessRecurrentSequential(*ls)
    return Stateful(*ls)


def make_q(lstm=False, n_in=N_OBS, bn=False, hidden=None):
    return Stateful(*(body(n_in, N_ACT, lstm, bn, hidden)
                      + [action_value.DiscreteActionValue]))


def optimizer(rng, lr, kind=None):
    kind = kind or ['sgd', 'adam'][rng.randint(2)]
    if kind == 'sgd':
        return chainer.optimizers.SGD(lr)
    return chainer.optimizers.Adam(alpha=lr)


def make_obs_normalizer(rng, clip=5):
    n = links.EmpiricalNormalization(N_OBS, clip_threshold=clip)
    n.experience(rng.normal(size=(7, N_OBS)).astype('f'))
    return n


def make_agent(rng, name, kind='softmax', recurrent=False, shared=False,
               bn=False, lr=.01, opt=None, hidden=4, scale=.5, buf=None,
               explorer=None, obs_normalizer=False, **kw):
    """kw: constructor arguments of the agent."""
    kw = dict(kw)
    kw.setdefault('phi', K.obs_phi)
    gamma = kw.pop('gamma', .9)
    mk = dict(bn=bn, hidden=hidden)
    if name in ('A2C', 'A3C', 'PCL'):
        if shared:
            sh = Stateful(*(body(N_OBS, 4, recurrent, bn, hidden) + [F.tanh]))
            cls = A2CSharedModel if name == 'A2C' else a3c.A3CSharedModel
            model = cls(
                sh, make_policy(kind, n_in=4), make_v(n_in=4))
        else:
            cls = (a2c.A2CSeparateModel if name == 'A2C'
                   else a3c.A3CSeparateModel)
            model = cls(
                make_policy(kind, recurrent, **mk), make_v(recurrent, **mk))
        K.randomize(model, rng, scale)
        o = optimizer(rng, lr, opt)
        o.setup(model)
        if name == 'A2C':
            agent = agents.A2C(model, o, gamma, **kw)
        elif name == 'A3C':
            kw.setdefault('t_max', 3)
            agent = agents.A3C(model, o, gamma=gamma, **kw)
        else:
            kw.setdefault('t_max', 3)
            agent = pcl.PCL(model, o, replay_buffer=buf, gamma=gamma,
                            explorer=explorer, **kw)
        b = Built(agent, name, recurrent, {'opt': o}, {'model': model}, {})
    elif name == 'ACER':
        if kind == 'softmax':
            if shared:
                sh = Stateful(
                    *(body(N_OBS, 4, recurrent, bn, hidden) + [F.tanh]))
                model = acer.ACERSharedModel(
                    sh, make_policy(kind, n_in=4), make_q(n_in=4))
            else:
                model = acer.ACERSeparateModel(
                    make_policy(kind, recurrent, **mk),
                    make_q(recurrent, **mk))
        else:
            if shared:
                sh = Stateful(
                    *(body(N_OBS, 4, recurrent, bn, hidden) + [F.tanh]))
                model = acer.ACERSDNSharedModel(
                    sh, make_policy(kind, n_in=4), make_v(n_in=4),
                    Adv(4, N_ACT))
            else:
                model = acer.ACERSDNSeparateModel(
                    make_policy(kind, recurrent, **mk),
                    make_v(recurrent, **mk), Adv(N_OBS, N_ACT))
        K.randomize(model, rng, scale)
        o = optimizer(rng, lr, opt)
        o.setup(model)
        kw.setdefault('t_max', 3)
        kw.setdefault('replay_start_size', 10)
        kw.setdefault('n_times_replay', 1)
        agent = acer.ACER(model, o, gamma=gamma, replay_buffer=buf, **kw)
        b = Built(agent, name, recurrent, {'opt': o}, {'model': model}, {})
    elif name == 'NSQ':
        model = K.randomize(make_q(recurrent, **mk), rng, scale)
        o = optimizer(rng, lr, opt)
        o.setup(model)
        kw.setdefault('t_max', 3)
        kw.setdefault('i_target', 4)
        agent = agents.NSQ(model, o, gamma=gamma, explorer=explorer, **kw)
        b = Built(agent, name, recurrent, {'opt': o}, {'model': model}, {})
    elif name == 'REINFORCE':
        model = K.randomize(make_policy(kind, recurrent, **mk), rng, scale)
        o = optimizer(rng, lr, opt)
        o.setup(model)
        agent = agents.REINFORCE(model, o, **kw)
        b = Built(agent, name, recurrent, {'opt': o}, {'model': model}, {})
    elif name == 'PPO':
        if recurrent:
            model = links.StatelessRecurrentBranched(
                make_policy(kind, True, stateless=True, **mk),
                make_v(True, stateless=True, **mk))
        else:
            model = links.Branched(make_policy(kind, **mk), make_v(**mk))
        K.randomize(model, rng, scale)
        o = optimizer(rng, lr, opt)
        o.setup(model)
        kw.setdefault('update_interval', 12)
        kw.setdefault('minibatch_size', 4)
        kw.setdefault('epochs', 2)
        if obs_normalizer:
            kw['obs_normalizer'] = make_obs_normalizer(rng)
        agent = agents.PPO(model, o, gamma=gamma, recurrent=recurrent, **kw)
        b = Built(agent, name, recurrent, {'opt': o}, {'model': model}, {})
    elif name == 'TRPO':
        pi = K.randomize(make_policy(kind, recurrent, stateless=True, **mk),
                         rng, scale)
        v = K.randomize(make_v(recurrent, stateless=True, **mk), rng, scale)
        o = optimizer(rng, lr, opt)
        o.setup(v)
        kw.setdefault('update_interval', 12)
        kw.setdefault('vf_batch_size', 4)
        if obs_normalizer:
            kw['obs_normalizer'] = make_obs_normalizer(rng)
        agent = agents.TRPO(pi, v, o, gamma=gamma, recurrent=recurrent, **kw)
        b = Built(agent, name, recurrent, {'vf': o},
                  {'policy': pi, 'vf': v}, {})
    else:
        raise ValueError(name)
    return b


def default_kwargs(rng, name, n_env=1):
    """Random but reasonable constructor arguments, and needed helpers."""
    kw = {}
    if name == 'A2C':
        kw.update(num_processes=n_env, update_steps=int(rng.randint(1, 5)),
                  use_gae=bool(rng.randint(2)))
    if name == 'ACER':
        kw.update(buf=LoggedEpisodic(200) if rng.randint(4) else None)
    if name == 'PCL':
        kw.update(buf=LoggedEpisodic(200), replay_start_size=10,
                  rollout_len=int(rng.randint(1, 5)))
        if rng.randint(3) == 0:
            kw['t_max'] = None
    if name == 'REINFORCE':
        kw.update(batchsize=int(rng.randint(1, 4)),
                  beta=[0, .01][rng.randint(2)])
    return kw
