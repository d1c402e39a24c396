"""Drives any agent through random training histories, recording a trace."""
import random

import chainer
import numpy as np

from vlib import agentkit as K
from vlib import onpolicy as O
from vlib import replay_agents as R
from chainerrl import distribution


def canon(x):
    """Comparable form of a value."""
    if isinstance(x, chainer.Variable):
        x = x.array
    if isinstance(x, distribution.Distribution):
        return (type(x).__name__, canon(list(x.params)))
    if isinstance(x, np.ndarray):
        return ('array', x.shape, str(x.dtype), x.tobytes())
    if isinstance(x, np.generic):
        return ('scalar', str(x.dtype), x.tobytes())
    if isinstance(x, dict):
        return ('dict', tuple(sorted((k, canon(v)) for k, v in x.items())))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(canon(v) for v in x)
    return x


def link_state(link):
    s = chainer.serializers.DictionarySerializer()
    s.save(link)
    return dict((k, np.array(v)) for k, v in s.target.items())


def optimizer_state(opt):
    s = chainer.serializers.DictionarySerializer()
    s.save(opt)
    return dict((k, np.array(v)) for k, v in s.target.items())


def agent_state(b):
    """Everything learned, as {name: array}."""
    out = {}
    for group, kind in ((b.online, 'online'), (b.target, 'target')):
        for n, l in group.items():
            for k, v in link_state(l).items():
                out['{}:{}:{}'.format(kind, n, k)] = v
    for n, o in b.optimizers.items():
        for k, v in optimizer_state(o).items():
            out['optimizer:{}:{}'.format(n, k)] = v
    for attr in ('obs_normalizer', 'temperature_holder', 'target_q_function',
                 'shared_average_model', 'shared_model'):
        l = getattr(b.agent, attr, None)
        if isinstance(l, chainer.Link):
            for k, v in link_state(l).items():
                out['{}:{}'.format(attr, k)] = v
    return out


def state_diff(a, b):
    """Names whose values differ."""
    bad = sorted(set(a) ^ set(b))
    for k in sorted(set(a) & set(b)):
        x, y = a[k], b[k]
        if x.dtype == object or y.dtype == object:
            same = repr(x) == repr(y)
        elif x.dtype.kind in 'fc':
            same = x.shape == y.shape and np.array_equal(x, y,
                                                         equal_nan=True)
        else:
            same = np.array_equal(x, y)
        if not same:
            bad.append(k)
    return bad


class PreservedRandomState(object):
    """Gives back the global random numbers that are consumed inside."""

    def __enter__(self):
        self.np = np.random.get_state()
        self.py = random.getstate()

    def __exit__(self, *args):
        np.random.set_state(self.np)
        random.setstate(self.py)


# ------------------------------------------------------------------ specs

def all_specs():
    """Every (agent, variant) this machinery can build."""
    out = []
    for n in R.DISCRETE:
        for rec in ([False, True] if n in R.RECURRENT_DISCRETE else [False]):
            for batch in ([False, True] if n != 'SARSA' else [False]):
                out.append(dict(family='R', name=n, recurrent=rec,
                                batch=batch))
    for n in R.CONTINUOUS:
        for batch in ([False, True] if n != 'PGT' else [False]):
            out.append(dict(family='R', name=n, recurrent=False, batch=batch))
    out.append(dict(family='R', name='DDPG', recurrent=True, batch=False))
    for n in O.ALL:
        for kind in (['softmax', 'gauss'] if n in O.GAUSS else ['softmax']):
            for rec in ([False, True] if n in O.RECURRENT else [False]):
                for batch in ([True] if n == 'A2C' else [False, True]
                              if n == 'PPO' else [False]):
                    out.append(dict(family='O', name=n, kind=kind,
                                    recurrent=rec, batch=batch))
    return out


def spec_name(s):
    return '{}{}{}{}'.format(
        s['name'], '-recurrent' if s['recurrent'] else '',
        '-batch' if s['batch'] else '',
        '-' + s['kind'] if 'kind' in s else '')


def keeps_state_inside(s):
    """Recurrent states live in the model itself."""
    return s['recurrent'] and (
        s['name'] in O.STATEFUL or s['name'] == 'DDPG')


def build(seed, spec, events=None, lr=.02):
    """Build an agent from a spec; the same seed gives the same agent.

    events: list that receives what happens at the replay buffer.
    """
    rng = np.random.RandomState(seed)
    n_env = int(rng.randint(1, 4)) if spec['batch'] else 1
    if spec['name'] in ('A2C', 'PPO', 'TRPO', 'A3C', 'ACER', 'PCL', 'NSQ',
                        'REINFORCE'):
        kw = O.default_kwargs(rng, spec['name'], n_env)
        if spec['name'] == 'NSQ':
            kw['explorer'] = R.LoggedExplorer(
                np.random.RandomState(rng.randint(2 ** 31)), True)
        if spec['name'] in ('PPO', 'TRPO'):
            kw['obs_normalizer'] = bool(rng.randint(2))
            kw['update_interval'] = int(rng.choice([8, 12, 16]))
            if spec['recurrent'] and rng.randint(2):
                kw['max_recurrent_sequence_len'] = int(rng.randint(1, 5))
            if spec['recurrent']:
                # any partition of a dataset must fit the minibatches
                kw['minibatch_size' if spec['name'] == 'PPO'
                   else 'vf_batch_size'] = 1
        bn = bool(rng.randint(2)) and not spec['recurrent']
        if spec.get('bn') is not None:
            bn = spec['bn']
        shared = bool(rng.randint(2))
        if bn and spec['name'] in ('PPO', 'TRPO'):
            kw.pop('update_interval', None)
        kw.update(spec.get('kw', {}))
        b = O.make_agent(rng, spec['name'], spec.get('kind', 'softmax'),
                         spec['recurrent'], shared, bn, lr=lr, **kw)
        buf = kw.get('buf')
    else:
        rec, name = spec['recurrent'], spec['name']
        kw = {}
        if rec:
            cls = R.LoggedEpisodic
        else:
            cls = [R.LoggedReplay, R.LoggedPrioritized][
                rng.randint(2) if name in R.DISCRETE else 0]
            if name == 'SARSA' and rng.randint(2):
                cls = R.LoggedReplay
        steps = 1
        if cls is R.LoggedReplay and rng.randint(3) == 0 and \
                name not in ('DPP', 'DPPL', 'DPPGreedy', 'PGT',
                             'SoftActorCritic', 'TD3'):
            steps = 3
        buf = cls(200, num_steps=steps) if steps > 1 else cls(200)
        kw['replay_start_size'] = 12 if not rec else 20
        kw['minibatch_size'] = 4 if not rec else 2
        if rec:
            kw['episodic_update_len'] = int(rng.randint(2, 5))
        kw['update_interval'] = int(rng.randint(1, 4))
        if name in R.DISCRETE or name in ('DDPG', 'PGT'):
            kw['target_update_interval'] = int(rng.randint(1, 9))
        if name in ('TD3', 'SoftActorCritic'):
            kw.pop('update_interval')
            kw['update_interval'] = int(rng.randint(1, 4))
        if name == 'SoftActorCritic' and rng.randint(2):
            kw['entropy_target'] = -float(R.N_ACT)
            from chainerrl.agents.soft_actor_critic import TemperatureHolder
            th = TemperatureHolder(initial_log_temperature=-1.)
            to = chainer.optimizers.Adam(.01)
            to.setup(th)
            kw['temperature_optimizer'] = to
        if name in ('TD3', 'SoftActorCritic', 'DDPG') and rng.randint(2):
            arng = np.random.RandomState(rng.randint(2 ** 31))
            kw['burnin_action_func'] = lambda: arng.normal(
                size=R.N_ACT).astype('f')
        ex = R.LoggedExplorer(np.random.RandomState(rng.randint(2 ** 31)),
                              name in R.DISCRETE)
        kw.update(spec.get('kw', {}))
        if spec.get('bn') or (spec.get('bn') is None and not rec and
                              rng.randint(2)):
            kw['bn'] = True
        b = R.make_agent(rng, name, buf, ex, recurrent=rec, lr=lr, **kw)
    b.buffer = buf
    b.n_env = n_env
    if buf is not None and events is not None:
        buf.log = lambda kind, what: events.append(
            ('buffer', kind, canon(what)))
    return b


class Driver(object):
    """Trains an agent on a scripted stream of experience."""

    def __init__(self, seed, spec, trace=None, lr=.02, p_done=.12,
                 p_reset=.08):
        self.trace = [] if trace is None else trace
        self.spec = spec
        self.b = build(seed, spec, self.trace, lr)
        self.agent = self.b.agent
        self.rng = np.random.RandomState(seed + 1)
        n = self.b.n_env
        self.envs = [R.EnvScript(np.random.RandomState(
            self.rng.randint(2 ** 31)), p_done, p_reset, env_id=i)
            for i in range(n)]
        self.obs = [e.obs() for e in self.envs]
        self.r = 0.
        self.at_boundary = True
        self.episodes = 0
        self.steps = 0

    def step(self):
        if self.spec['batch']:
            self._batch()
        else:
            self._single()
        self.steps += 1

    def _single(self):
        env = self.envs[0]
        a = self.agent.act_and_train(self.obs[0], self.r)
        self.trace.append(('act', canon(a)))
        o, r, done, reset = env.step()
        r += .1 * float(np.tanh(np.sum(a)))
        self.at_boundary = done or reset
        if done or reset:
            self.agent.stop_episode_and_train(o, r, done)
            self.obs[0], self.r = env.obs(), 0.
            self.episodes += 1
        else:
            self.obs[0], self.r = o, r

    def _batch(self):
        acts = self.agent.batch_act_and_train(self.obs)
        self.trace.append(('act', canon([np.asarray(a) for a in acts])))
        outs = [e.step() for e in self.envs]
        obs = [x[0] for x in outs]
        rs = [x[1] + .1 * float(np.tanh(np.sum(a)))
              for x, a in zip(outs, acts)]
        ds, res = [x[2] for x in outs], [x[3] for x in outs]
        self.agent.batch_observe_and_train(obs, rs, ds, res)
        self.obs = [e.obs() if d or s else o for e, o, d, s in zip(
            self.envs, obs, ds, res)]
        self.at_boundary = any(ds) or any(res)
        self.episodes += sum(d or s for d, s in zip(ds, res))

    def state(self):
        return agent_state(self.b)
