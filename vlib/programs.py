"""Complete training programs made of the library's own parts.

A program runs from a case seed (which fixes its configuration) and a random
seed given to chainerrl.misc.set_random_seed; it returns a list of
(label, digest) of everything observable it did, in order.

As a script: programs.py OUT.json MODE CASE... runs programs in a process of
its own; MODE 'a' runs them in order, 'b' in the opposite order after some
unrelated work, at another time of day and in another memory layout.
"""
import hashlib
import json
import os
import random
import shutil
import sys
import tempfile
import time
import warnings

import chainer
import chainer.functions as F
import chainer.links as L
import gym
import numpy as np

import chainerrl
from chainerrl import agents
from chainerrl import envs
from chainerrl.envs.abc import ABC
from chainerrl import experiments
from chainerrl import explorers
from chainerrl import links
from chainerrl import misc
from chainerrl import policies
from chainerrl import q_functions
from chainerrl import replay_buffer
from chainerrl import wrappers
from chainerrl.agents import a2c
from chainerrl.agents import a3c
from chainerrl.agents import acer
from chainerrl.agents import iqn
from chainerrl.agents import pcl
from chainerrl.misc import init_like_torch
from vlib import agentkit as K
from vlib import drive as D

H = 6       # hidden units


def digest(x):
    return hashlib.sha1(repr(D.canon(x)).encode()).hexdigest()[:16]


class Log(list):

    def add(self, label, x):
        self.append((label, digest(x)))


class Tap(object):
    """Records the actions that an environment receives."""

    def __init__(self, env, log, name):
        self.env, self.log, self.name = env, log, name
        self.action_space = env.action_space
        self.observation_space = env.observation_space
        self.spec = None

    def reset(self):
        o = self.env.reset()
        self.log.add(self.name + '.reset', o)
        return o

    def step(self, a):
        out = self.env.step(a)
        self.log.add(self.name + '.action', np.asarray(a))
        self.log.add(self.name + '.outcome', list(out[:3]))
        return out

    def seed(self, seed=None):
        return self.env.seed(seed)

    def close(self):
        self.env.close()


class ToyEnv(ABC, gym.Env):
    """ABC as a gym environment, without randomness of its own."""

    def seed(self, seed=None):
        return [seed]


def make_env(cfg, log, name, seed, tap=True):
    env = ToyEnv(size=cfg['size'], discrete=cfg['discrete'],
                   partially_observable=cfg['partially'],
                   episodic=cfg['episodic'], deterministic=False)
    env.action_space.seed(seed % 2 ** 31)
    if cfg['randomize']:
        env = wrappers.RandomizeAction(env, .2)
        env.seed(seed % 2 ** 31)
    return Tap(env, log, name) if tap else env


# -- agents -----------------------------------------------------------------
VALUE = ['DQN', 'DoubleDQN', 'SARSA', 'AL', 'PAL', 'DoublePAL', 'DPP',
         'CategoricalDQN', 'CategoricalDoubleDQN', 'IQN', 'DoubleIQN', 'NAF',
         'ResidualDQN']
CONT = ['DDPG', 'TD3', 'SoftActorCritic', 'PGT']
POLICY = ['A2C', 'A3C', 'ACER', 'ACERcont', 'PCL', 'PPO', 'TRPO',
          'REINFORCE', 'NSQ']
ALL = VALUE + CONT + POLICY
BATCH = [n for n in VALUE if n != 'SARSA'] + [
    'DDPG', 'TD3', 'SoftActorCritic', 'A2C', 'PPO', 'TRPO']
ONLY_BATCH = ['A2C']


def is_discrete(name, rng):
    if name in ('NAF', 'ACERcont') or name in CONT:
        return False
    if name in ('A2C', 'A3C', 'PCL', 'PPO', 'TRPO', 'REINFORCE'):
        return bool(rng.randint(2))
    return True


def random_action(space):
    return lambda: space.sample()


def explorer_of(rng, space, discrete, boltzmann=True):
    if discrete:
        f = random_action(space)
        return [lambda: explorers.ConstantEpsilonGreedy(.4, f),
                lambda: explorers.LinearDecayEpsilonGreedy(1., .2, 40, f),
                lambda: explorers.Boltzmann(1.)][rng.randint(2 + boltzmann)]()
    return [lambda: explorers.AdditiveGaussian(.3, -1., 1.),
            lambda: explorers.AdditiveOU(sigma=.3),
            lambda: explorers.AdditiveOU(sigma=.2, start_with_mu=True)][
                rng.randint(3)]()


def optimizer(rng, link, lr=.01):
    o = [lambda: chainer.optimizers.Adam(lr),
         lambda: chainer.optimizers.SGD(lr),
         lambda: chainerrl.optimizers.RMSpropAsync(lr),
         lambda: chainer.optimizers.RMSpropGraves(lr)][rng.randint(4)]()
    o.setup(link)
    if rng.randint(2):
        o.add_hook(chainer.optimizer_hooks.GradientClipping(1.))
    return o


def buffer_of(rng, episodic, prioritized=True, wait=True):
    if episodic:
        if prioritized and rng.randint(2):
            return replay_buffer.PrioritizedEpisodicReplayBuffer(
                100, uniform_ratio=.2, wait_priority_after_sampling=wait)
        return replay_buffer.EpisodicReplayBuffer(100)
    k = rng.randint(3)
    if k == 0 and prioritized:
        return replay_buffer.PrioritizedReplayBuffer(
            60, betasteps=40, normalize_by_max='batch'
            if rng.randint(2) else 'memory')
    if k == 1:
        return replay_buffer.ReplayBuffer(60, num_steps=3)
    return replay_buffer.ReplayBuffer(60)


def body(rng, n_obs):
    n_layers = int(rng.randint(1, 3))
    return links.MLP(n_obs, H, (H,) * n_layers)


def gaussian(rng, n_obs, n_act):
    k = rng.randint(3)
    if k == 0:
        return policies.FCGaussianPolicy(
            n_obs, n_act, 1, H, var_type='diagonal', min_var=.05)
    if k == 1:
        return policies.FCGaussianPolicyWithStateIndependentCovariance(
            n_obs, n_act, 1, H, var_type='diagonal', var_param_init=0)
    return links.Sequence(
        L.Linear(n_obs, H, initialW=chainerrl.initializers.Orthogonal(1.)),
        F.tanh, L.Linear(H, n_act),
        policies.GaussianHeadWithStateIndependentCovariance(n_act))


def softmax(rng, n_obs, n_act):
    if rng.randint(4) == 0:
        return policies.MellowmaxPolicy(links.MLP(n_obs, n_act, (H,)))
    return policies.FCSoftmaxPolicy(n_obs, n_act, 1, H)


def make_agent(name, rng, env, n_env, log, fix):
    """fix: overwrite the initial parameters by a function of the case."""
    space = env.action_space
    n_obs = env.observation_space.low.size
    discrete = hasattr(space, 'n')
    n_act = space.n if discrete else space.low.size
    gamma = float(rng.choice([.9, .5]))
    models = {}

    def done(**kw):
        for n, m in sorted(kw.items()):
            log.add('initial:' + n, D.link_state(m))
            if fix:
                K.randomize(m, np.random.RandomState(rng.randint(2 ** 31)),
                            .5)
            models[n] = m

    if name in VALUE:
        rec = name in ('DQN', 'DoubleDQN', 'SARSA', 'PAL', 'AL') and \
            rng.randint(4) == 0
        noisy = False
        if name.startswith('Categorical'):
            q = q_functions.DistributionalFCStateQFunctionWithDiscreteAction(
                n_obs, n_act, 5, -1., 1., H, 1)
        elif name.endswith('IQN'):
            q = iqn.ImplicitQuantileQFunction(
                psi=links.Sequence(L.Linear(n_obs, H), F.relu),
                phi=links.Sequence(iqn.CosineBasisLinear(4, H), F.relu),
                f=L.Linear(H, n_act))
        elif name == 'NAF':
            cls = [q_functions.FCQuadraticStateQFunction,
                   q_functions.FCBNQuadraticStateQFunction][rng.randint(2)]
            q = cls(n_obs, n_act, H, 1, space)
        elif rec:
            q = links.StatelessRecurrentSequential(
                L.NStepLSTM(1, n_obs, H, 0), L.Linear(H, n_act),
                chainerrl.action_value.DiscreteActionValue)
        else:
            q = q_functions.FCStateQFunctionWithDiscreteAction(
                n_obs, n_act, H, int(rng.randint(1, 3)))
        if rng.randint(3) == 0 and not rec and name != 'NAF':
            links.to_factorized_noisy(q, sigma_scale=.5)
            noisy = True
        elif rng.randint(4) == 0 and not rec:
            init_like_torch.init_like_torch(q)
        done(q=q)
        opt = optimizer(rng, q)
        ex = explorers.Greedy() if noisy else explorer_of(
            rng, space, discrete, not name.startswith('Categorical'))
        prio = name not in ('IQN', 'DoubleIQN', 'NAF', 'SARSA')
        buf = buffer_of(rng, rec, prio and not rec)
        if name in ('DPP',):
            buf = replay_buffer.ReplayBuffer(60)
        kw = dict(gamma=gamma, explorer=ex, replay_start_size=15,
                  minibatch_size=4 if not rec else 2,
                  update_interval=int(rng.randint(1, 4)),
                  target_update_interval=int(rng.randint(2, 9)))
        if rec:
            kw.update(recurrent=True,
                      episodic_update_len=int(rng.randint(2, 5)))
        if name.endswith('IQN'):
            kw.update(quantile_thresholds_N=3, quantile_thresholds_N_prime=3,
                      quantile_thresholds_K=4)
        if rng.randint(2) and name != 'DPP':
            kw.update(target_update_method='soft', soft_update_tau=.1)
        if rng.randint(2) and not rec:
            kw.update(batch_accumulator='sum')
        cls = getattr(agents, {'NAF': 'DQN'}.get(name, name))
        a = cls(q, opt, buf, **kw)
        if a.target_model is not None:
            models['target'] = a.target_model
        return a, models, buf
    if name in CONT:
        bn = rng.randint(4) == 0
        buf = buffer_of(rng, False, False)
        kw = dict(gamma=gamma, explorer=explorer_of(rng, space, False),
                  replay_start_size=15, minibatch_size=4,
                  update_interval=int(rng.randint(1, 4)))
        if name == 'SoftActorCritic':
            kw.pop('explorer')

        def squashed():
            def head(x):
                m, v = F.split_axis(x, 2, axis=1)
                return chainerrl.distribution.SquashedGaussianDistribution(
                    m, F.exp(F.clip(v, -5., 2.)))
            return links.Sequence(L.Linear(n_obs, H), F.relu,
                                  L.Linear(H, 2 * n_act), head)
        if name in ('TD3', 'SoftActorCritic'):
            buf = replay_buffer.ReplayBuffer(60)
            pi = squashed() if name == 'SoftActorCritic' else \
                policies.FCDeterministicPolicy(
                    n_obs, 1, H, n_act, space.low, space.high)
            qs = [q_functions.FCSAQFunction(n_obs, n_act, H, 1)
                  for _ in range(2)]
            done(pi=pi, q1=qs[0], q2=qs[1])
            opts = [optimizer(rng, m) for m in [pi] + qs]
            if rng.randint(2):
                kw['burnin_action_func'] = random_action(space)
            if name == 'SoftActorCritic' and rng.randint(2):
                kw['entropy_target'] = -float(n_act)
                kw['temperature_optimizer'] = chainer.optimizers.Adam(.01)
            cls = getattr(agents, name)
            return cls(pi, qs[0], qs[1], *opts, replay_buffer=buf,
                       **kw), models, buf
        if bn:
            pi = policies.FCBNDeterministicPolicy(
                n_obs, 1, H, n_act, space.low, space.high)
            q = [q_functions.FCBNSAQFunction,
                 q_functions.FCBNLateActionSAQFunction][rng.randint(2)](
                     n_obs, n_act, H, 2)
        else:
            pi = policies.FCDeterministicPolicy(
                n_obs, 1, H, n_act, space.low, space.high)
            q = [q_functions.FCSAQFunction,
                 q_functions.FCLateActionSAQFunction][rng.randint(2)](
                     n_obs, n_act, H, 2)
        if name == 'PGT':
            pi = gaussian(rng, n_obs, n_act)
            buf = replay_buffer.ReplayBuffer(60)
        cls = agents.DDPG if name == 'DDPG' else agents.PGT
        from chainerrl.agents.ddpg import DDPGModel
        model = DDPGModel(policy=pi, q_func=q)
        done(model=model)
        oa, oc = optimizer(rng, pi), optimizer(rng, q)
        kw['target_update_interval'] = int(rng.randint(2, 9))
        return cls(model, oa, oc, buf, **kw), models, buf
    # policy based agents
    rec = False
    pi = softmax(rng, n_obs, n_act) if discrete else gaussian(
        rng, n_obs, n_act)
    v = links.MLP(n_obs, 1, (H,))
    buf = None
    if name == 'TRPO':
        done(pi=pi, v=v)
        norm = links.EmpiricalNormalization(n_obs) if rng.randint(2) else None
        ov = chainer.optimizers.Adam(.01)
        ov.setup(v)
        a = agents.TRPO(policy=pi, vf=v, vf_optimizer=ov,
                        obs_normalizer=norm, gamma=gamma,
                        update_interval=16, vf_batch_size=4, vf_epochs=2)
        return a, models, None
    if name == 'PPO':
        m = links.Branched(pi, v)
        done(m=m)
        norm = links.EmpiricalNormalization(n_obs) if rng.randint(2) else None
        a = agents.PPO(m, optimizer(rng, m), obs_normalizer=norm,
                       gamma=gamma, update_interval=16, minibatch_size=4,
                       epochs=2)
        return a, models, None
    if name == 'REINFORCE':
        done(pi=pi)
        return agents.REINFORCE(pi, optimizer(rng, pi), beta=.01,
                                batchsize=int(rng.randint(1, 3))), \
            models, None
    if name == 'A2C':
        m = a2c.A2CSeparateModel(pi, v)
        done(m=m)
        return agents.A2C(m, optimizer(rng, m), gamma=gamma,
                          num_processes=n_env, update_steps=4,
                          use_gae=bool(rng.randint(2))), models, None
    if name == 'A3C':
        m = a3c.A3CSeparateModel(pi, v)
        done(m=m)
        return agents.A3C(m, optimizer(rng, m), t_max=4, gamma=gamma), \
            models, None
    if name == 'PCL':
        m = pcl.PCLSeparateModel(pi, v)
        done(m=m)
        buf = buffer_of(rng, True, wait=False)
        return agents.PCL(m, optimizer(rng, m), replay_buffer=buf, t_max=4,
                          gamma=gamma, replay_start_size=10), models, buf
    if name == 'ACER':
        m = acer.ACERSeparateModel(
            pi=links.Sequence(L.Linear(n_obs, H), F.tanh,
                              L.Linear(H, n_act),
                              chainerrl.distribution.SoftmaxDistribution),
            q=q_functions.FCStateQFunctionWithDiscreteAction(
                n_obs, n_act, H, 1))
    elif name == 'ACERcont':
        m = acer.ACERSDNSeparateModel(
            pi=policies.FCGaussianPolicy(n_obs, n_act, 1, H,
                                         var_type='diagonal', min_var=.05),
            v=v, adv=q_functions.FCSAQFunction(n_obs, n_act, H, 1))
    if name.startswith('ACER'):
        done(m=m)
        buf = replay_buffer.EpisodicReplayBuffer(100)
        return agents.ACER(m, optimizer(rng, m), t_max=4, gamma=gamma,
                           replay_buffer=buf, replay_start_size=10,
                           n_times_replay=2), models, buf
    assert name == 'NSQ'
    q = q_functions.FCStateQFunctionWithDiscreteAction(n_obs, n_act, H, 1)
    done(q=q)
    return agents.NSQ(q, optimizer(rng, q), t_max=4, gamma=gamma,
                      i_target=7, explorer=explorer_of(rng, space, True)), \
        models, None


def config(case):
    rng = np.random.RandomState(case % 2 ** 32)
    kind = ['serial', 'vector', 'process', 'driver'][
        rng.choice(4, p=[.4, .2, .1, .3])]
    if kind == 'driver':
        specs = D.all_specs()
        return dict(case=case, kind=kind, spec=specs[rng.randint(len(specs))],
                    name='', rng=int(rng.randint(2 ** 31)))
    name = (ALL if kind == 'serial' else BATCH)[
        rng.randint(len(ALL if kind == 'serial' else BATCH))]
    if name in ONLY_BATCH and kind == 'serial':
        kind = 'vector'
    discrete = is_discrete(name, rng)
    return dict(case=case, kind=kind, name=name,
                discrete=discrete, size=int(rng.randint(2, 4)),
                partially=bool(rng.randint(2)), episodic=bool(rng.randint(2)),
                randomize=bool(rng.randint(4) == 0) and kind != 'process'
                and discrete,
                n_env=int(rng.randint(1, 4)), steps=int(rng.randint(50, 90)),
                eval_interval=int(rng.randint(15, 40)),
                rng=int(rng.randint(2 ** 31)))


def scores(path):
    """Contents of scores.txt without the times."""
    with open(path) as f:
        rows = [l.rstrip('\n').split('\t') for l in f]
    if 'elapsed' in rows[0]:
        i = rows[0].index('elapsed')
        rows = [r[:i] + r[i + 1:] for r in rows]
    return rows


def run(cfg, seed, fix, tmp):
    """Run a program and return its log."""
    log = Log()
    try:
        run_program(cfg, seed, fix, tmp, log)
    except (ValueError, OverflowError, FloatingPointError) as e:
        # training may diverge, but in the same way
        if not any(w in str(e).lower() for w in ('nan', 'inf', 'finite')):
            raise
        log.add('diverged', type(e).__name__)
    return log


def run_program(cfg, seed, fix, tmp, log):
    misc.set_random_seed(seed)
    if cfg['kind'] == 'driver':
        d = D.Driver(cfg['rng'], cfg['spec'])
        for _ in range(60):
            d.step()
        for i, e in enumerate(d.trace):
            log.append((str(e[0]) + (':' + str(e[1])
                                     if e[0] == 'buffer' else ''),
                        digest(e)))
        for k, v in sorted(d.state().items()):
            log.add('final:' + k, v)
        log.add('statistics', repr(d.agent.get_statistics()))
        return
    rng = np.random.RandomState(cfg['rng'])
    n = cfg['n_env']
    out = tempfile.mkdtemp(dir=tmp)
    if cfg['kind'] == 'process':
        def fn(i):
            def f():
                e = make_env(cfg, log, '', seed + 31 * i, tap=False)
                return e
            return f
        env = envs.MultiprocessVectorEnv([fn(i) for i in range(n)])
        eval_env = envs.MultiprocessVectorEnv([fn(i + 7) for i in range(n)])
    elif cfg['kind'] == 'vector':
        env = envs.SerialVectorEnv([
            make_env(cfg, log, 'env{}'.format(i), seed + 31 * i)
            for i in range(n)])
        eval_env = envs.SerialVectorEnv([
            make_env(cfg, log, 'eval{}'.format(i), seed + 7 + 31 * i)
            for i in range(n)])
    else:
        n = 1
        env = make_env(cfg, log, 'env', seed)
        eval_env = make_env(cfg, log, 'eval', seed + 7)
    try:
        env.action_space.seed(seed % 2 ** 31)
        agent, models, buf = make_agent(cfg['name'], rng, env, n, log, fix)

        def hook(env_, agent_, step):
            log.add('statistics', repr(agent_.get_statistics()))
            if step % 10 == 0:
                for k, m in sorted(models.items()):
                    log.add('params:' + k, D.link_state(m))
        kw = dict(agent=agent, env=env, steps=cfg['steps'],
                  eval_n_steps=None, eval_n_episodes=n,
                  eval_interval=cfg['eval_interval'], outdir=out,
                  eval_env=eval_env, step_hooks=[hook])
        if cfg['kind'] == 'serial':
            experiments.train_agent_with_evaluation(
                train_max_episode_len=9, eval_max_episode_len=9, **kw)
        else:
            experiments.train_agent_batch_with_evaluation(
                max_episode_len=9, log_interval=10 ** 6, **kw)
        log.add('scores', scores(os.path.join(out, 'scores.txt')))
        for k, m in sorted(models.items()):
            log.add('final:' + k, D.link_state(m))
        if buf is not None:
            log.add('stored', len(buf))
        log.add('random state', [repr(np.random.get_state()[1][:8]),
                                 random.random()])
    finally:
        if cfg['kind'] == 'process':
            for e in (env, eval_env):
                if not e.closed:
                    e.close()
        shutil.rmtree(out, ignore_errors=True)


def main(args):
    out, mode, cases = args[0], args[1], [int(x) for x in args[2:]]
    chainer.global_config.cv = None
    warnings.simplefilter('ignore')
    junk = []
    if mode == 'b':
        real = time.time
        time.time = lambda: real() + 12345.678
        real_counter = time.perf_counter
        time.perf_counter = lambda: real_counter() + 777.
        r = random.Random()
        junk = [bytearray(r.randrange(1, 5000)) for _ in range(20000)]
        junk = junk[::3]
        cases = cases[::-1]
    tmp = tempfile.mkdtemp()
    res = {}
    try:
        for c in cases:
            cfg = config(c)
            if mode == 'b':
                # whatever happened before must not matter
                np.random.rand(r.randrange(100))
                junk.append(K.randomize(L.Linear(3, 3), np.random, 1.))
                try:
                    run(config(c ^ 0x5555), r.randrange(1000), False, tmp)
                except Exception:
                    pass
            res[c] = run(cfg, c % 2 ** 31, False, tmp)
            if mode == 'a':
                res['fix1:{}'.format(c)] = run(cfg, c % 2 ** 31, True, tmp)
                res['fix2:{}'.format(c)] = run(
                    cfg, (c + 1) % 2 ** 31, True, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    with open(out, 'w') as f:
        json.dump(res, f)


if __name__ == '__main__':
    main(sys.argv[1:])
