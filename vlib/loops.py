"""Recording environments and agents for the training / evaluation loops."""
import os

import numpy as np

import chainerrl
from chainerrl import agent as agent_base


class Injected(Exception):
    pass


class InjectedInterrupt(KeyboardInterrupt):
    pass


class Faults(object):
    """Raises a given exception at the n-th call of a given kind."""

    def __init__(self, kind=None, n=None, exc=None):
        self.kind, self.n, self.exc = kind, n, exc
        self.seen = {}
        self.fired = False

    def __call__(self, kind):
        i = self.seen.get(kind, 0)
        self.seen[kind] = i + 1
        if kind == self.kind and i == self.n:
            self.fired = True
            raise self.exc


class ScriptEnv(object):
    """Environment whose behaviour is a function of its own random stream.

    Everything that happens is appended to log as tuples.  The environment
    itself notices protocol violations ('step' on a finished episode).
    """
    action_space = None
    observation_space = None
    spec = None
    small_rewards = False

    def __init__(self, rng, log, name='env', p_done=.2, p_reset=.1,
                 max_len=None, faults=None, int_reward=False, obs='tuple',
                 info_mode=0, lengths=None):
        self.rng = np.random.RandomState(rng.randint(2 ** 31))
        self.log, self.name = log, name
        self.p_done, self.p_reset = p_done, p_reset
        self.faults = faults or (lambda kind: None)
        self.int_reward = int_reward
        self.obs_kind = obs
        self.info_mode = info_mode
        self.max_len = max_len
        self.episode = -1
        self.t = 0
        self.over = True
        self.closed = 0
        self.uid = 0

    def _obs(self):
        self.uid += 1
        if self.obs_kind == 'array':
            return np.array([self.episode, self.t, self.uid,
                             self.rng.normal()], dtype='f')
        return (self.name, self.episode, self.t, self.uid)

    def reset(self):
        self.faults('reset')
        self.episode += 1
        self.t = 0
        self.over = False
        o = self._obs()
        self.log.append(('reset', self.name, o))
        return o

    def step(self, action):
        self.faults('step')
        self.t += 1
        u = self.rng.rand()
        done = bool(u < self.p_done)
        v = self.rng.rand()
        needs_reset = bool(v < self.p_reset)
        if self.max_len is not None and self.t >= self.max_len:
            done = True
        r = int(self.rng.randint(-3, 4)) if self.int_reward \
            else float(self.rng.normal())
        if self.small_rewards:
            r = float(self.rng.randint(-1, 2)) * (self.rng.rand() < .3)
        o = self._obs()
        info = {}
        if needs_reset:
            info['needs_reset'] = True
        elif self.info_mode == 1:
            info['needs_reset'] = False
        if self.info_mode == 2:
            info['other'] = self.uid
        self.log.append(('step', self.name, action, o, r, done, needs_reset,
                         self.over))
        if done:
            self.over = True
        return o, r, done, info

    def seed(self, seed=None):
        self.log.append(('seed', self.name, seed))

    def close(self):
        self.closed += 1
        self.log.append(('close', self.name))


class RecAgent(agent_base.BatchAgent):
    """Agent that records every call; saving writes an inspectable file."""

    saved_attributes = ()
    shared_attributes = ()

    def __init__(self, rng, log, faults=None, has_t=True, n_stats=2,
                 action_kind='int'):
        self.rng = np.random.RandomState(rng.randint(2 ** 31))
        self.log = log
        self.faults = faults or (lambda kind: None)
        if has_t:
            self.t = 0
        self.n_stats = n_stats
        self.stats = [('stat{}'.format(i), 0.) for i in range(n_stats)]
        self.version = 0
        self.n_actions = 0

    def _a(self):
        self.n_actions += 1
        return ('a', self.n_actions)

    def act_and_train(self, obs, reward):
        self.faults('act')
        self.version += 1
        a = self._a()
        self.log.append(('act', obs, reward, a, getattr(self, 't', None)))
        return a

    def act(self, obs):
        self.faults('act_eval')
        a = self._a()
        self.log.append(('act_eval', obs, a))
        return a

    def stop_episode_and_train(self, state, reward, done=False):
        self.faults('stop')
        self.version += 1
        self.log.append(('stop', state, reward, done))

    def stop_episode(self):
        self.faults('stop_eval')
        self.log.append(('stop_eval',))

    def batch_act_and_train(self, batch_obs):
        self.faults('act')
        self.version += 1
        a = [self._a() for _ in batch_obs]
        self.log.append(('bact', list(batch_obs), a, getattr(self, 't', None)))
        return a

    def batch_act(self, batch_obs):
        self.faults('act_eval')
        a = [self._a() for _ in batch_obs]
        self.log.append(('bact_eval', list(batch_obs), a))
        return a

    def batch_observe_and_train(self, batch_obs, batch_reward, batch_done,
                                batch_reset):
        self.faults('observe')
        self.version += 1
        self.log.append(('bobs', list(batch_obs), list(batch_reward),
                         list(batch_done), list(batch_reset)))

    def batch_observe(self, batch_obs, batch_reward, batch_done, batch_reset):
        self.faults('observe_eval')
        self.log.append(('bobs_eval', list(batch_obs), list(batch_reward),
                         list(batch_done), list(batch_reset)))

    def save(self, dirname):
        self.log.append(('save', dirname, self.version))
        os.makedirs(dirname, exist_ok=True)
        with open(os.path.join(dirname, 'token.txt'), 'w') as f:
            f.write(str(self.version))

    def load(self, dirname):
        raise NotImplementedError

    def get_statistics(self):
        return list(self.stats)


def read_token(dirname):
    with open(os.path.join(dirname, 'token.txt')) as f:
        return int(f.read())


class RecVectorEnv(chainerrl.env.VectorEnv):
    """Vector environment over ScriptEnvs with its own log entries."""

    def __init__(self, envs, log, faults=None, container=tuple):
        self.envs = envs
        self.log = log
        self.faults = faults or (lambda kind: None)
        self.last_obs = [None] * len(envs)
        self.container = container
        self.closed = 0

    @property
    def num_envs(self):
        return len(self.envs)

    def step(self, actions):
        self.faults('vstep')
        res = [e.step(a) for e, a in zip(self.envs, actions)]
        obs, rews, dones, infos = [self.container(x) for x in zip(*res)]
        self.last_obs = obs
        self.log.append(('vstep', list(actions), list(obs), list(rews),
                         list(dones), list(infos)))
        return obs, rews, dones, infos

    def reset(self, mask=None):
        self.faults('vreset')
        m = [False] * self.num_envs if mask is None else \
            [bool(x) for x in mask]
        obs = [o if mi else e.reset()
               for mi, e, o in zip(m, self.envs, self.last_obs)]
        self.last_obs = obs
        self.log.append(('vreset', m, list(obs)))
        return obs

    def seed(self, seeds=None):
        pass

    def close(self):
        self.closed += 1
        self.log.append(('vclose',))
