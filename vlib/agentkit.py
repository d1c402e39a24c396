"""Instrumented building blocks for driving agents."""
import copy

import chainer
import chainer.functions as F
import chainer.links as L
import gym
import numpy as np

from chainerrl import action_value
from chainerrl import links
from chainerrl import q_functions
from chainerrl import explorer as explorer_base


# ---------------------------------------------------------------- models

def randomize(link, rng, scale=.5, bias=.3):
    """Give every parameter a random value (also biases)."""
    for _, p in sorted(link.namedparams()):
        if p.array is None:
            continue
        s = scale if p.array.ndim > 1 else bias
        p.array[...] = rng.normal(0, s, size=p.shape).astype(p.dtype)
    return link


def params_of(link):
    return dict((n, p.array.copy()) for n, p in link.namedparams()
                if p.array is not None)


def set_params(link, values):
    for n, p in link.namedparams():
        p.array[...] = values[n]


def same_params(a, b):
    return set(a) == set(b) and all(np.array_equal(a[k], b[k]) for k in a)


def max_diff(a, b):
    return max([float(np.abs(a[k] - b[k]).max()) if a[k].size else 0.
                for k in a] or [0.])


def check_params(ctx, got, want, key, msg, rtol=2e-3, atol=2e-5, ref=None):
    """Compare two parameter dicts.

    When ref (the values before the update) is given, the *changes* are
    compared, relative to the largest change.
    """
    ctx.count('oracle_decisions')
    if set(got) != set(want):
        ctx.fail(key, '{}: parameter names differ {} {}'.format(
            msg, sorted(got), sorted(want)))
        return False
    scale = 1.
    if ref is not None:
        scale = max(max_diff(want, ref), max_diff(got, ref), 1e-4)
    for k in sorted(got):
        if got[k].shape != want[k].shape:
            ctx.fail(key, '{}: shape of {}'.format(msg, k))
            return False
        d = np.abs(got[k].astype('d') - want[k].astype('d'))
        tol = atol + rtol * scale
        # float32 resolution of the parameter itself
        tol = tol + 3e-7 * np.abs(want[k])
        if not np.all(d <= tol):
            i = np.unravel_index(np.argmax(d), d.shape)
            ctx.fail(key, '{}: parameter {}{} is {} expected {} '
                     '(before the update {}), largest change {}'.format(
                         msg() if callable(msg) else msg, k, list(i),
                         got[k][i], want[k][i],
                         None if ref is None else ref[k][i], scale))
            return False
    return True


class Const(chainer.Link):
    """Helper to hold a bare parameter."""

    def __init__(self, value):
        super().__init__()
        with self.init_scope():
            self.p = chainer.Parameter(np.asarray(value, dtype='f'))


def sgd(model, lr=1.0):
    opt = chainer.optimizers.SGD(lr=lr)
    opt.setup(model)
    return opt


class CountingOptimizer(object):
    """Wraps the update method of a chainer optimizer and counts calls."""

    def __init__(self, opt, log, name):
        orig = opt.update

        def update(*args, **kwargs):
            log.append(name)
            return orig(*args, **kwargs)
        opt.update = update


# ---------------------------------------------------------------- buffers

class ScriptedBuffer(object):
    """Replay buffer that hands out scripted experiences on demand."""

    def __init__(self, capacity=None):
        self.capacity = capacity
        self.length = 0
        self.experiences = None
        self.episodes = None
        self.appended = []
        self.stops = []
        self.errors = []
        self.draws = []

    def append(self, state, action, reward, next_state=None, next_action=None,
               is_state_terminal=False, env_id=0, **kwargs):
        self.appended.append(dict(
            state=state, action=action, reward=reward, next_state=next_state,
            next_action=next_action, is_state_terminal=is_state_terminal,
            env_id=env_id, **kwargs))

    def stop_current_episode(self, env_id=0):
        self.stops.append(env_id)

    def __len__(self):
        return self.length

    @property
    def n_episodes(self):
        return self.length

    def sample(self, n):
        self.draws.append(n)
        return self.experiences

    def sample_episodes(self, n, max_len=None):
        self.draws.append(n)
        return self.episodes

    def update_errors(self, errors):
        self.errors.append([float(np.asarray(e).reshape(-1)[0])
                            if np.asarray(e).size == 1 else np.asarray(e)
                            for e in errors])


# ---------------------------------------------------------------- explorers

class SecondBest(explorer_base.Explorer):
    """Deterministic explorer that depends on the action value it is shown."""

    def __init__(self):
        self.calls = []

    def select_action(self, t, greedy_action_func, action_value=None):
        self.calls.append(t)
        if action_value is None:
            return greedy_action_func()
        q = action_value.q_values.array
        assert q.shape[0] == 1
        order = np.argsort(-q[0], kind='stable')
        return np.int32(order[1 if len(order) > 1 else 0])


class Greedy(explorer_base.Explorer):
    def __init__(self):
        self.ts = []

    def select_action(self, t, greedy_action_func, action_value=None):
        self.ts.append(t)
        return greedy_action_func()


# ---------------------------------------------------------------- Q functions

class TableQ(chainer.Chain):
    """Q(s, a) from an embedded table; observation = one-hot or features."""

    def __init__(self, n_obs, n_actions):
        super().__init__()
        with self.init_scope():
            self.l = L.Linear(n_obs, n_actions)

    def __call__(self, x):
        return action_value.DiscreteActionValue(self.l(x))


def make_q(rng, kind, n_obs, n_actions):
    if kind == 'table':
        q = TableQ(n_obs, n_actions)
    elif kind == 'mlp':
        q = q_functions.FCStateQFunctionWithDiscreteAction(
            n_obs, n_actions, n_hidden_channels=7, n_hidden_layers=1,
            nonlinearity=F.tanh)
    elif kind == 'naf':
        q = q_functions.FCQuadraticStateQFunction(
            n_obs, n_actions, n_hidden_channels=7, n_hidden_layers=1,
            action_space=gym.spaces.Box(
                low=-np.ones(n_actions, 'f'), high=np.ones(n_actions, 'f')),
            scale_mu=False)
    elif kind == 'lstm':
        q = links.StatelessRecurrentSequential(
            L.Linear(n_obs, 5), F.tanh, L.NStepLSTM(1, 5, 4, 0),
            L.Linear(4, n_actions), action_value.DiscreteActionValue)
    elif kind == 'gru2':
        q = links.StatelessRecurrentSequential(
            L.NStepGRU(1, n_obs, 4, 0), F.tanh, L.NStepRNNTanh(1, 4, 4, 0),
            L.Linear(4, n_actions), action_value.DiscreteActionValue)
    else:
        raise ValueError(kind)
    return randomize(q, rng)


def make_dist_q(rng, n_obs, n_actions, n_atoms, v_min, v_max,
                recurrent=False):
    """Distributional Q-function whose softmax logits are an MLP."""
    z = np.linspace(v_min, v_max, num=n_atoms, dtype=np.float32)

    def head(h):
        h = F.reshape(h, (-1, n_actions, n_atoms))
        return action_value.DistributionalDiscreteActionValue(
            F.softmax(h, axis=2), z)
    if recurrent:
        q = links.StatelessRecurrentSequential(
            L.Linear(n_obs, 4), L.NStepLSTM(1, 4, 4, 0),
            L.Linear(4, n_actions * n_atoms), head)
    else:
        q = links.Sequence(L.Linear(n_obs, n_actions * n_atoms), head)
    return randomize(q, rng, scale=1.)


def clone(link):
    return copy.deepcopy(link)


def obs_phi(x):
    """Feature extractor: observations are stored as tuples (id, array)."""
    return np.asarray(x[1], dtype=np.float32)
