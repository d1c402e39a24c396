"""C18: environment wrappers change only what they promise.

A Tap sits between all layers and records every call with its result.  Each
wrapper is judged by an oracle that sees the calls it made to the layer below
and the result it returned.
"""
import json
import os

import gym
from gym import spaces
import numpy as np

from vlib import stats
from vlib.harness import Check
from chainerrl import wrappers
from chainerrl.misc import env_modifiers
from chainerrl.wrappers import atari_wrappers as aw

chk = Check(
    'C18',
    'distinct (wrapper stack, parameters, episode boundary kinds met, resets '
    'in the middle of an episode) runs in which every call of every layer was '
    'judged from the calls it made to the layer below',
    ['observations on true terminal frames of frame-skipping steps are '
     'documented not to matter and are not judged'])


P = 1e-10   # false alarm probability of one statistical decision


class Tap(gym.Wrapper):
    """Records calls and results; passes the very same objects on."""

    def __init__(self, env):
        super().__init__(env)
        self.calls = []
        self.over = True
        self.misuse = None
        self.n = 0

    def _lives(self):
        ale = getattr(self.unwrapped, 'ale', None)
        return ale.lives() if ale is not None else None

    def reset(self, **kwargs):
        obs = self.env.reset(**kwargs)
        self.over = False
        self.n += 1
        self.calls.append({'k': 'reset', 'obs': obs, 'kw': kwargs,
                           'lives': self._lives()})
        return obs

    def step(self, action):
        if self.over:
            self.misuse = self.misuse or \
                'finished (or never reset) environment stepped'
        a = action.copy() if isinstance(action, np.ndarray) else action
        obs, r, done, info = self.env.step(action)
        self.n += 1
        self.over = bool(done or info.get('needs_reset', False))
        self.calls.append({'k': 'step', 'a': a, 'obs': obs, 'r': r,
                           'done': done, 'info': dict(info),
                           'lives': self._lives(), 'over': self.over})
        return obs, r, done, info

    def take(self):
        c, self.calls = self.calls, []
        return c


class Ale(object):
    def __init__(self):
        self.n = 0

    def lives(self):
        return self.n


class Inner(gym.Env):
    """Scripted environment.

    Its stream decides lengths, boundaries, lives and frames.
    """

    def __init__(self, rng, kind='frame', p_done=.1, p_reset=.0, dtype='u1',
                 shape=(12, 10, 3), p_life=.15, action=None):
        self.rng = np.random.RandomState(rng.randint(2 ** 31))
        self.np_random = np.random.RandomState(rng.randint(2 ** 31))
        self.kind, self.shape, self.dtype = kind, shape, np.dtype(dtype)
        self.p_done, self.p_reset, self.p_life = p_done, p_reset, p_life
        if kind == 'frame':
            self.observation_space = spaces.Box(
                low=0, high=255, shape=shape, dtype=np.uint8)
        else:
            self.observation_space = spaces.Box(
                low=-3., high=5., shape=shape, dtype=self.dtype)
        self.action_space = action or spaces.Discrete(6)
        self.ale = Ale()
        self.renders = []
        self.seeds = []
        self.closed = 0
        self.dying = 0

    def get_action_meanings(self):
        return ['NOOP', 'FIRE', 'UP', 'DOWN', 'LEFT', 'RIGHT']

    def _obs(self):
        if self.kind == 'frame':
            return self.rng.randint(0, 256, self.shape).astype(np.uint8)
        return self.rng.uniform(-3, 5, self.shape).astype(self.dtype)

    def reset(self, **kw):
        self.ale.n = int(self.rng.randint(1, 5))
        self.dying = 0
        return self._obs()

    def step(self, action):
        rng = self.rng
        done = bool(rng.rand() < self.p_done)
        u = rng.rand()
        if self.dying:
            self.dying -= 1
            done = not self.dying
        elif u < self.p_life and self.ale.n > 0:
            self.ale.n -= 1
            if self.ale.n == 0:
                if rng.rand() < .5:
                    done = True
                else:
                    self.dying = int(rng.randint(1, 4))
        elif u > .95:
            self.ale.n += 1
        r = [0., 1., -2.5, float(rng.normal()) * 10, 7][rng.randint(5)]
        info = {} if rng.rand() < .5 else {'x': int(rng.randint(99))}
        if rng.rand() < self.p_reset:
            info['needs_reset'] = True
        return self._obs(), r, done, info

    def seed(self, seed=None):
        self.seeds.append(seed)
        return [seed]

    def render(self, mode='human', **kw):
        self.renders.append((mode, kw))

    def close(self):
        self.closed += 1


def same(a, b):
    if a is b:
        return True
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and \
            a.dtype == b.dtype and np.array_equal(a, b)
    return a == b


# ---------------------------------------------------------------------------
# Oracles.  reset(inner, obs) and step(a, inner, (obs, r, done, info)) return
# None or a description of what is wrong.
class Oracle(object):
    name = None

    def reset(self, inner, obs):
        if [c['k'] for c in inner] != ['reset']:
            return 'reset called {} below'.format([c['k'] for c in inner])
        if not self.obs_ok(inner[-1]['obs'], obs, True):
            return 'reset observation changed: {!r} {!r}'.format(
                inner[-1]['obs'], obs)

    def step(self, a, inner, res):
        if [c['k'] for c in inner] != ['step']:
            return 'step called {} below'.format([c['k'] for c in inner])
        c = inner[0]
        if not self.action_ok(a, c['a']):
            return 'action {!r} became {!r}'.format(a, c['a'])
        if not self.obs_ok(c['obs'], res[0], False):
            return 'observation {!r} became {!r}'.format(c['obs'], res[0])
        if not self.reward_ok(c['r'], res[1]):
            return 'reward {!r} became {!r}'.format(c['r'], res[1])
        if bool(res[2]) != self.done(c):
            return 'done {!r} became {!r}'.format(c['done'], res[2])
        if res[3] != self.info(c):
            return 'info {!r} became {!r}'.format(c['info'], res[3])

    def action_ok(self, a, inner):
        return same(a, inner)

    def obs_ok(self, inner, obs, reset):
        return same(inner, obs)

    def reward_ok(self, inner, r):
        return r == inner

    def done(self, c):
        return bool(c['done'])

    def info(self, c):
        return c['info']


class TimeLimitO(Oracle):
    def __init__(self, limit):
        self.limit, self.t = limit, 0

    def reset(self, inner, obs):
        self.t = 0
        return super().reset(inner, obs)

    def step(self, a, inner, res):
        self.t += 1
        return super().step(a, inner, res)

    def info(self, c):
        if self.t >= self.limit:
            return dict(c['info'], needs_reset=True)
        return c['info']


class ScaleO(Oracle):
    def __init__(self, scale):
        self.scale = scale

    def reward_ok(self, inner, r):
        return np.isclose(r, self.scale * inner, rtol=1e-12, atol=0)


class ClipO(Oracle):
    def reward_ok(self, inner, r):
        return r == int(inner > 0) - int(inner < 0)


class CastO(Oracle):
    def __init__(self, dtype):
        self.dtype = np.dtype(dtype)

    def obs_ok(self, inner, obs, reset):
        return isinstance(obs, np.ndarray) and obs.dtype == self.dtype and \
            np.array_equal(np.asarray(inner).astype(self.dtype), obs)


class ScaledFrameO(Oracle):
    def obs_ok(self, inner, obs, reset):
        return isinstance(obs, np.ndarray) and obs.dtype == np.float32 and \
            np.allclose(np.asarray(inner, 'd') / 255, obs, rtol=1e-6,
                        atol=1e-7)


class WarpO(Oracle):
    def __init__(self, order):
        self.order = order

    def obs_ok(self, inner, obs, reset):
        import cv2
        x = cv2.resize(cv2.cvtColor(inner, cv2.COLOR_RGB2GRAY), (84, 84),
                       interpolation=cv2.INTER_AREA)
        shape = (84, 84, 1) if self.order == 'hwc' else (1, 84, 84)
        return isinstance(obs, np.ndarray) and obs.dtype == np.uint8 and \
            obs.shape == shape and np.array_equal(obs.reshape(84, 84), x)


class FlickerO(Oracle):
    def __init__(self):
        self.n = self.zero = 0

    def obs_ok(self, inner, obs, reset):
        self.n += 1
        if same(inner, obs):
            return True
        self.zero += 1
        return isinstance(obs, np.ndarray) and obs.shape == inner.shape and \
            obs.dtype == inner.dtype and not obs.any()


class StackO(Oracle):
    def __init__(self, k, axis):
        self.k, self.axis = k, axis
        self.frames = []
        self.kept = []

    def obs_ok(self, inner, obs, reset):
        x = np.array(inner)
        if reset:
            self.frames = [x] * self.k
        else:
            self.frames = (self.frames + [x])[-self.k:]
        exp = np.concatenate(self.frames, axis=self.axis)
        got = np.asarray(obs)
        self.kept = (self.kept + [(obs, exp)])[-6:]
        return got.dtype == x.dtype and np.array_equal(got, exp) and \
            isinstance(obs, aw.LazyFrames) and all(
                np.array_equal(np.asarray(o), e) for o, e in self.kept)


class RandomizeO(Oracle):
    def __init__(self, fraction, n):
        self.fraction, self.n = fraction, n
        self.total = self.changed = 0

    def action_ok(self, a, inner):
        self.total += 1
        self.changed += bool(a != inner)
        if self.fraction == 0:
            return a == inner
        return 0 <= inner < self.n and int(inner) == inner


class NormalizeO(Oracle):
    def __init__(self, space):
        self.low = np.asarray(space.low, 'd')
        self.high = np.asarray(space.high, 'd')

    def action_ok(self, a, inner):
        exp = self.low + (np.asarray(a, 'd') + 1) / 2 * (self.high - self.low)
        return np.allclose(exp, inner, rtol=1e-5,
                           atol=1e-5 * np.max(self.high - self.low))


class NoopO(Oracle):
    def __init__(self, noop_max, override):
        self.noop_max, self.override = noop_max, override
        self.counts = {}

    def reset(self, inner, obs):
        ks = [c['k'] for c in inner]
        if ks[:1] != ['reset']:
            return 'reset did not reset'
        noops, over = 0, False
        for c in inner[1:]:
            if c['k'] == 'reset':
                if not over:
                    return 'reset twice'
                over = False
            else:
                if over:
                    return 'no-op after the end of an episode'
                if c['a'] != 0:
                    return 'action {!r} instead of no-op'.format(c['a'])
                noops += 1
                over = c['over']
        if over:
            return 'finished episode was not reset'
        if self.override is not None:
            ok = noops == self.override
        else:
            ok = 1 <= noops <= self.noop_max
            self.counts[noops] = self.counts.get(noops, 0) + 1
        if not ok:
            return '{} no-ops'.format(noops)
        if not same(inner[-1]['obs'], obs):
            return 'observation is not the last one'


class FireO(Oracle):
    def reset(self, inner, obs):
        if inner[0]['k'] != 'reset':
            return 'reset did not reset'
        exp, over = [1, 2], False
        for c in inner[1:]:
            if c['k'] == 'reset':
                if not over:
                    return 'reset twice'
                over = False
            else:
                if over:
                    return 'stepped after the end of an episode'
                if not exp or c['a'] != exp.pop(0):
                    return 'wrong action {!r}'.format(c['a'])
                over = c['over']
        if over:
            return 'finished episode was not reset'
        if exp:
            return 'actions missing'
        if not same(inner[-1]['obs'], obs):
            return 'the observation returned by reset belongs to a finished ' \
                'episode'


class LifeO(Oracle):
    def __init__(self):
        self.lives = 0
        self.over = True
        self.stepped = True

    def reset(self, inner, obs):
        ks = [c['k'] for c in inner]
        if not self.stepped and ks == ['reset']:
            pass      # reset twice in a row: a real reset is fine
        elif self.over:
            if ks != ['reset']:
                return 'finished game: called {} below'.format(ks)
        else:
            if ks[:1] != ['step'] or inner[0]['a'] != 0:
                return 'unfinished game: called {} below'.format(ks)
            if ks[1:] != (['reset'] if inner[0]['over'] else []):
                return 'no-op {} the game: called {} below'.format(
                    'ended' if inner[0]['over'] else 'did not end', ks)
        self.over = self.stepped = False
        self.lives = inner[-1]['lives']
        if not same(inner[-1]['obs'], obs):
            return 'observation is not the last one'

    def done(self, c):
        lost = 0 < c['lives'] < self.lives
        self.stepped = True
        self.lives = c['lives']
        self.over = c['over']
        return bool(c['done'] or lost)


class SkipO(Oracle):
    def __init__(self, skip):
        self.skip = skip
        self.short = 0

    def step(self, a, inner, res):
        if any(c['k'] != 'step' or c['a'] != a for c in inner):
            return 'action not repeated'
        if any(c['over'] for c in inner[:-1]):
            return 'stepped after the end of an episode'
        if len(inner) > self.skip or (len(inner) < self.skip and
                                      not inner[-1]['over']):
            return '{} frames'.format(len(inner))
        self.short += len(inner) < self.skip
        if not np.isclose(res[1], sum(c['r'] for c in inner), atol=1e-9):
            return 'reward {} instead of the sum {}'.format(
                res[1], sum(c['r'] for c in inner))
        if bool(res[2]) != bool(inner[-1]['done']) or \
                res[3] != inner[-1]['info']:
            return 'done or info are not those of the last frame'
        if not res[2]:
            exp = np.max([c['obs'] for c in inner[-2:]], axis=0)
            if not same(exp, res[0]):
                return 'observation is not the maximum of the last frames of ' \
                    'this step ({} frames)'.format(len(inner))


# ---------------------------------------------------------------------------
def run(ctx, env, layers, n, key, actions, p_early=.05):
    """layers: list of (outer tap, inner tap, oracle), innermost first."""
    rng = ctx.rng
    kinds = set()
    over = True
    prev = None
    for t in range(n):
        if over or rng.rand() < p_early:
            kinds.add(prev if over else 'early')
            env.reset()
            over = False
        else:
            a = actions(rng)
            a0 = a.copy() if isinstance(a, np.ndarray) else a
            res = env.step(a)
            ctx.require(same(a, a0), key + ':action-modified',
                        'the action of the caller was changed')
            over = bool(res[2] or res[3].get('needs_reset', False))
            prev = 'done' if res[2] else 'needs_reset' if over else None
        judge(ctx, layers, key)
    ctx.count('calls', n)
    return tuple(sorted(str(k) for k in kinds))


def judge(ctx, layers, key):
    taken = {}
    for outer, inner, _ in layers:
        for tap in (outer, inner):
            if id(tap) not in taken:
                taken[id(tap)] = (tap, tap.take())
    for i, (outer, inner, oracle) in enumerate(layers):
        outs, ins = taken[id(outer)][1], taken[id(inner)][1]
        # which inner calls belong to which outer call: n when it returned
        pos = 0
        base = inner.n - len(ins)
        for c in outs:
            end = c['inner_n'] - base
            seg, pos = ins[pos:end], end
            if c['k'] == 'reset':
                msg = oracle.reset(seg, c['obs'])
            else:
                msg = oracle.step(c['a'], seg, (
                    c['obs'], c['r'], c['done'], c['info']))
            ctx.count('layer_calls')
            ctx.require(msg is None, '{}:{}'.format(
                key, type(oracle).__name__[:-1]), lambda: msg)
        ctx.require(pos == len(ins), key + ':stray-calls',
                    'calls below that belong to no call')
        ctx.require(inner.misuse is None, '{}:{}:misuse'.format(
            key, type(oracle).__name__[:-1]), lambda: inner.misuse)


def add(env, layers, make, oracle):
    """Wrap the tap env; returns the new outer tap."""
    wrapped = make(env)
    outer = OuterTap(wrapped, env)
    layers.append((outer, env, oracle))
    return outer


class OuterTap(Tap):
    """Also notes how many calls the layer below had seen."""

    def __init__(self, env, below):
        super().__init__(env)
        self.below = below

    def reset(self, **kwargs):
        r = super().reset(**kwargs)
        self.calls[-1]['inner_n'] = self.below.n
        return r

    def step(self, action):
        r = super().step(action)
        self.calls[-1]['inner_n'] = self.below.n
        return r


def atari_layer(rng, name, env, layers):
    if name == 'limit':
        m = int(rng.choice([1, 2, 5, 17]))
        return add(env, layers, lambda e: wrappers.ContinuingTimeLimit(
            e, max_episode_steps=m), TimeLimitO(m)), m
    if name == 'noop':
        m, ov = int(rng.choice([1, 3, 8])), [None, None, 1, 4][rng.randint(4)]

        def make(e):
            w = aw.NoopResetEnv(e, noop_max=m)
            if ov is not None:
                w.override_num_noops = ov
            return w
        return add(env, layers, make, NoopO(m, ov)), (m, ov)
    if name == 'fire':
        return add(env, layers, aw.FireResetEnv, FireO()), ''
    if name == 'life':
        return add(env, layers, aw.EpisodicLifeEnv, LifeO()), ''
    if name == 'skip':
        k = int(rng.choice([1, 2, 3, 4]))
        return add(env, layers, lambda e: aw.MaxAndSkipEnv(e, skip=k),
                   SkipO(k)), k
    if name == 'clip':
        return add(env, layers, aw.ClipRewardEnv, ClipO()), ''
    if name == 'scale':
        s = float(rng.choice([.1, -2., 1e-3]))
        return add(env, layers, lambda e: wrappers.ScaleReward(e, s),
                   ScaleO(s)), s
    if name == 'warp':
        order = ['hwc', 'chw'][rng.randint(2)]
        return add(env, layers, lambda e: aw.WarpFrame(
            e, channel_order=order), WarpO(order)), order
    if name == 'flicker':
        return add(env, layers, aw.FlickerFrame, FlickerO()), ''
    if name == 'stack':
        k = int(rng.choice([1, 2, 4]))
        order = ['hwc', 'chw'][rng.randint(2)]
        return add(env, layers, lambda e: aw.FrameStack(
            e, k, channel_order=order),
            StackO(k, 2 if order == 'hwc' else 0)), (k, order)
    if name == 'float':
        return add(env, layers, aw.ScaledFloatFrame, ScaledFrameO()), ''
    if name == 'cast':
        return add(env, layers, wrappers.CastObservationToFloat32,
                   CastO('f')), ''
    if name == 'render':
        return add(env, layers, wrappers.Render, Oracle()), ''
    if name == 'random':
        fr = float(rng.choice([0., .3, 1.]))

        def mk(e):
            w = wrappers.RandomizeAction(e, fr)
            w.seed(int(rng.randint(2 ** 31)))
            return w
        return add(env, layers, mk, RandomizeO(fr, 6)), fr


@chk.scenario(quick=1500, thorough=40000)
def stacks(ctx):
    """Random stacks of wrappers on a scripted Atari-like environment."""
    rng = ctx.rng
    base = Inner(rng, p_done=float(rng.choice([0., .05, .3])),
                 p_reset=float(rng.choice([0., 0., .1])),
                 p_life=float(rng.choice([0., .2, .5])))
    raw = ['limit', 'noop', 'fire', 'life', 'skip', 'clip', 'scale',
           'render', 'random', 'flicker']
    n = int(rng.randint(1, 5))
    names = [raw[i] for i in rng.randint(len(raw), size=n)]
    late = []
    if rng.rand() < .25:
        late.append('warp')
    late += [['stack'], ['float'], ['stack', 'float'], ['cast'],
             [], []][rng.randint(6)]
    layers, params = [], []
    env = Tap(base)
    for nm in names + late:
        env, p = atari_layer(rng, nm, env, layers)
        params.append((nm, p))
    kinds = run(ctx, env, layers, 40, 'stack', lambda r: int(r.randint(6)))
    if 'render' in names:
        k = names.index('render')
        ctx.check(len(base.renders) >= layers[k][0].n, 'stack:render', '')
    ctx.sig(tuple(params), kinds)
    ctx.sample(params)


@chk.scenario(quick=300, thorough=6000)
def seeded_choices(ctx):
    """The random choices of wrappers are those of the seeded environment.

    Two identically seeded copies, whatever else the program draws.
    """
    rng = ctx.rng
    names = ['noop', 'flicker', 'life', 'skip', 'fire', 'stack', 'warp']
    names = [names[i] for i in rng.randint(len(names), size=rng.randint(1, 4))]
    names[rng.randint(len(names))] = ['noop', 'flicker'][rng.randint(2)]
    if 'warp' in names:      # once, and on raw frames
        names = ['warp'] + [n for n in names if n != 'warp']
    if 'stack' in names:
        names = [n for n in names if n != 'stack'] + ['stack']
    seed = int(rng.randint(2 ** 31))
    kept = np.random.get_state()
    runs = []
    noise = [int(x) for x in rng.randint(2 ** 31, size=2)]
    acts = rng.randint(6, size=25)
    early = rng.rand(25) < .1
    params = None
    try:
        for k in range(2):
            r = np.random.RandomState(seed)
            base = Inner(r, p_done=.08, p_life=.2)
            tap = env = Tap(base)
            params = []
            for nm in names:
                if nm == 'noop':
                    m = int(r.choice([5, 30]))
                    env = aw.NoopResetEnv(env, noop_max=m)
                    params.append((nm, m))
                else:
                    env, p = atari_layer(r, nm, env, [])
                    params.append((nm, p))
            np.random.seed(noise[k])
            tap.calls = []
            out, over = [], True
            for a, e in zip(acts, early):
                if over or e:
                    out.append((env.reset(),))
                    over = False
                else:
                    o, rew, over, info = env.step(int(a))
                    out.append((o, rew, over))
                    over = over or info.get('needs_reset', False)
                np.random.random(k)
            runs.append((out, tap.take()))
    finally:
        np.random.set_state(kept)
    (o1, c1), (o2, c2) = runs
    ctx.check([c.get('a') for c in c1] == [c.get('a') for c in c2],
              'seeded:calls', lambda: 'the calls to the environment depend on '
              'other random numbers: {}'.format(params))
    ctx.check(len(o1) == len(o2) and all(
        len(x) == len(y) and same(np.asarray(x[0]), np.asarray(y[0])) and
        x[1:] == y[1:] for x, y in zip(o1, o2)), 'seeded:results',
        lambda: 'observations or rewards depend on other random numbers: '
        '{}'.format(params))
    ctx.sig('seeded', tuple(params), sum(1 for c in c1 if c['k'] == 'reset'))


class Wide(gym.Env):
    """Many actions; tells which one it received."""
    action_space = gym.spaces.Discrete(10 ** 6)
    observation_space = gym.spaces.Discrete(2)

    def reset(self):
        return 0

    def step(self, action):
        return 0, float(action), False, {}

    def seed(self, seed=None):
        return [seed]


@chk.scenario(quick=40, thorough=400)
def seeds_of_random_actions(ctx):
    """Equal seeds replay the replacements; different seeds do not."""
    rng = ctx.rng
    s = int(rng.choice([0, 1, rng.randint(2 ** 16), rng.randint(2 ** 31)]))
    others = sorted(set(int(x) for x in [
        s + 1, s + 10, s + 100, s + 1000, s + 2 ** 8, s + 2 ** 16,
        s + 10 ** 6, 2 * s + 3, s ^ 2 ** 31, rng.randint(2 ** 31)]) - {s})
    fraction = float(rng.choice([.5, 1.]))

    def run(seed, again=False):
        env = wrappers.RandomizeAction(Wide(), fraction)
        if again:
            env.seed(int(rng.randint(2 ** 31)))
            env.step(-1)
        env.seed(seed)
        env.reset()
        return tuple(env.step(-1)[1] for _ in range(40))
    first = run(s)
    ctx.check(run(s) == first and run(s, True) == first, 'randomize:same-seed',
              'seed {}: replaced actions differ between runs'.format(s))
    runs = [run(x) for x in others]
    ctx.check(len(set(runs + [first])) == len(runs) + 1,
              'randomize:other-seed', lambda: 'of the seeds {} several give '
              'the same actions'.format([s] + others))
    ctx.sig(s, fraction)


@chk.scenario(quick=120, thorough=2000)
def random_parameters(ctx):
    """The random choices of wrappers have the documented distribution."""
    rng = ctx.rng
    kind = ['noop', 'flicker', 'randomize'][ctx.idx % 3]
    n = 3000 if ctx.tier == 'quick' else 12000
    env = Tap(Inner(rng, 'vector', p_done=0., p_life=0., shape=(2,), dtype='f8'))
    layers = []
    if kind == 'noop':
        m = int(rng.randint(1, 9))
        out = add(env, layers, lambda e: aw.NoopResetEnv(e, noop_max=m),
                  NoopO(m, None))
        for _ in range(n // 10):
            out.reset()
            judge(ctx, layers, 'noops')
        c = layers[0][2].counts
        ctx.check(stats.chisq_p([c.get(i + 1, 0) for i in range(m)],
                               [1. / m] * m) > P, 'noops:distribution',
                  lambda: 'noop counts {}'.format(c))
        ctx.sig('noop', m)
    elif kind == 'flicker':
        out = add(env, layers, aw.FlickerFrame, FlickerO())
        out.reset()
        for _ in range(n // 3):
            out.step(0)
        judge(ctx, layers, 'flicker')
        o = layers[0][2]
        ctx.check(stats.binom_p(o.zero, o.n, .5) > P, 'flicker:frequency',
                  lambda: '{} of {}'.format(o.zero, o.n))
        ctx.sig('flicker', int(rng.randint(4)))
    else:
        fr = float(rng.choice([0, .05, .5, .9, 1]))
        na = int(rng.randint(2, 7))
        base = Inner(rng, 'vector', p_done=0., p_life=0., shape=(2,), dtype='f8',
                     action=spaces.Discrete(na))
        env = Tap(base)
        w = wrappers.RandomizeAction(env, fr)
        seed = int(rng.randint(2 ** 31))
        w.seed(seed)
        ctx.check(base.seeds == [seed], 'randomize:seed-below',
                  lambda: str(base.seeds))
        w.reset()
        acts = rng.randint(na, size=n)
        for a in acts:
            w.step(int(a))
        got = np.array([c['a'] for c in env.calls if c['k'] == 'step'])
        ctx.check(got.min() >= 0 and got.max() < na, 'randomize:range', '')
        ch = int((got != acts).sum())
        ctx.check(stats.binom_p(ch, n, fr * (na - 1.) / na) > P,
                  'randomize:frequency', lambda: '{} of {} changed with '
                  'fraction {} of {} actions'.format(ch, n, fr, na))
        if fr:
            cnt = np.bincount(got[got != acts], minlength=na)
            # given the agent's actions, replaced ones are uniform on others
            p = np.array([(acts[got != acts] != i).sum() for i in range(na)],
                         dtype='d')
            if na > 2 and fr >= .5:
                ctx.check(stats.chisq_p(cnt, p / p.sum()) > P,
                          'randomize:uniform', lambda: str(cnt))
        # same seed, same replacements
        w2 = wrappers.RandomizeAction(Tap(Inner(
            rng, 'vector', p_done=0., p_life=0., shape=(2,), dtype='f8',
            action=spaces.Discrete(na))), fr)
        w2.seed(seed)
        w2.reset()
        for a in acts[:300]:
            w2.step(int(a))
        again = np.array([c['a'] for c in w2.env.calls if c['k'] == 'step'])
        ctx.check(np.array_equal(again, got[:300]), 'randomize:seed',
                  'not a function of the seed')
        ctx.sig('randomize', fr, na)


@chk.scenario(quick=400, thorough=8000)
def vector_wrappers(ctx):
    """Wrappers for continuous control."""
    rng = ctx.rng
    d = int(rng.randint(1, 4))
    low = rng.uniform(-5, 1, d).astype('f')
    high = (low + rng.uniform(.1, 8, d)).astype('f')
    dtype = ['f8', 'f4', 'i4'][rng.randint(3)]
    space = spaces.Box(low=low, high=high, dtype=np.float32)
    base = Inner(rng, 'vector', p_done=float(rng.choice([0., .2])),
                 p_reset=float(rng.choice([0., .2])), dtype=dtype,
                 shape=(3,), p_life=0., action=space)
    layers, params = [], []
    env = Tap(base)
    for nm in rng.permutation(['limit', 'normalize', 'cast', 'castany',
                               'scale', 'render'])[:rng.randint(1, 6)]:
        if nm == 'normalize':
            env = add(env, layers, wrappers.NormalizeActionSpace,
                      NormalizeO(space))
            ctx.check(np.array_equal(env.action_space.low, -np.ones(d)) and
                      np.array_equal(env.action_space.high, np.ones(d)) and
                      env.action_space.shape == (d,), 'vector:space',
                      lambda: str(env.action_space))
            space = env.action_space
            params.append('normalize')
        elif nm == 'castany':
            dt = ['f2', 'f4', 'f8', 'i4'][rng.randint(4)]
            env = add(env, layers, lambda e: wrappers.CastObservation(
                e, np.dtype(dt)), CastO(dt))
            params.append(dt)
        else:
            env, p = atari_layer(rng, nm, env, layers)
            params.append((nm, p))

    def act(r):
        u = r.rand()
        norm = 'normalize' in params
        lo, hi = (-np.ones(d), np.ones(d)) if norm else (low, high)
        if u < .1:
            return np.array(lo, 'f')
        if u < .2:
            return np.array(hi, 'f')
        return r.uniform(lo, hi).astype(['f4', 'f8'][r.randint(2)])
    kinds = run(ctx, env, layers, 40, 'vector', act)
    ctx.sig(tuple(params), kinds, dtype)


@chk.scenario(quick=40, thorough=400)
def small_promises(ctx):
    """Remembered originals, spaces, rendering, use before reset."""
    rng = ctx.rng
    base = Inner(rng, 'vector', shape=(3,), dtype='f8', p_life=0.)
    env = wrappers.ContinuingTimeLimit(base, max_episode_steps=3)
    ctx.raises(AssertionError, lambda: env.step(0), 'limit:before-reset',
               'step before the first reset accepted')
    tap = Tap(Inner(rng, 'vector', shape=(3,), dtype='f8', p_life=0.))
    s = float(rng.normal())
    sc = wrappers.ScaleReward(tap, s)
    ca = wrappers.CastObservationToFloat32(sc)
    ca.reset()
    over = False
    for _ in range(20):
        if over:
            ca.reset()
        _, r, over, _ = ca.step(0)
        c = tap.calls[-1]
        ctx.require(sc.original_reward == c['r'] and
                    same(ca.original_observation, c['obs']),
                    'original:remembered', 'original reward or observation')
    # rendering: once per reset and per step, with the given arguments
    base = Inner(rng, 'vector', shape=(3,), p_life=0.)
    kw = [{}, {'mode': 'human'}, {'mode': 'rgb_array', 'x': 3}][
        rng.randint(3)]
    rend = wrappers.Render(base, **kw)
    n, over = 0, True
    for _ in range(15):
        if over:
            rend.reset()
            over = False
        else:
            over = rend.step(0)[2]
        n += 1
        ctx.require(len(base.renders) == n and base.renders[-1] == (
            kw.get('mode', 'human'),
            {k: v for k, v in kw.items() if k != 'mode'}),
            'render:calls', lambda: str(base.renders[-2:]))
    # spaces
    frame = Inner(rng)
    for order, shape in (('hwc', (84, 84, 1)), ('chw', (1, 84, 84))):
        w = aw.WarpFrame(frame, channel_order=order)
        sp = w.observation_space
        ctx.check(sp.shape == shape and sp.dtype == np.uint8 and
                  sp.low.min() == 0 and sp.high.max() == 255 and
                  sp.contains(w.reset()), 'warp:space', lambda: str(sp))
        k = int(rng.randint(1, 5))
        st = aw.FrameStack(w, k, channel_order=order)
        exp = tuple(k if x == 1 else x for x in shape)
        ctx.check(st.observation_space.shape == exp and
                  st.observation_space.dtype == np.uint8 and
                  np.asarray(st.reset()).shape == exp, 'stack:space', '')
        fl = aw.ScaledFloatFrame(st)
        ctx.check(fl.observation_space.shape == exp and
                  fl.observation_space.dtype == np.float32 and
                  np.allclose(fl.observation_space.high, 1) and
                  np.allclose(fl.observation_space.low, 0) and
                  fl.observation_space.contains(fl.reset()), 'float:space',
                  lambda: str(fl.observation_space))
    # LazyFrames
    fs = [rng.randint(0, 256, (2, 3, 4)).astype('u1') for _ in range(3)]
    ax = int(rng.randint(3))
    lf = aw.LazyFrames(list(fs), stack_axis=ax)
    exp = np.concatenate(fs, axis=ax)
    ctx.check(same(np.asarray(lf), exp) and np.asarray(
        lf, dtype='f').dtype == np.float32 and np.array_equal(
        np.asarray(lf, dtype='f'), exp), 'lazy:array', '')
    ctx.sig(int(rng.randint(20)), k, ax, str(kw))


@chk.scenario(quick=400, thorough=8000)
def deepmind(ctx):
    """wrap_deepmind as a whole, judged from the calls below it."""
    rng = ctx.rng
    base = Inner(rng, p_done=float(rng.choice([.0, .05, .2])),
                 p_reset=float(rng.choice([0., .05])),
                 p_life=float(rng.choice([0., .1, .3])))
    no_fire = rng.rand() < .2
    if no_fire:
        base.get_action_meanings = lambda: ['NOOP', 'UP', 'DOWN']
    tap = Tap(base)
    opts = dict(episode_life=bool(rng.randint(2)),
                clip_rewards=bool(rng.randint(2)),
                frame_stack=bool(rng.randint(2)), scale=bool(rng.randint(2)),
                fire_reset=bool(rng.randint(2)),
                channel_order=['hwc', 'chw'][rng.randint(2)],
                flicker=bool(rng.randint(4) == 0))
    given = {k: v for k, v in opts.items()}
    if rng.rand() < .2:
        given = {}
        opts = dict(episode_life=True, clip_rewards=True, frame_stack=True,
                    scale=False, fire_reset=False, channel_order='chw',
                    flicker=False)
    env = aw.wrap_deepmind(tap, **given)
    axis = 2 if opts['channel_order'] == 'hwc' else 0
    frames = []
    fire = opts['fire_reset'] and not no_fire
    over, stepped = True, False
    prev_lives = 0
    import cv2

    def frame(x):
        y = cv2.resize(cv2.cvtColor(x, cv2.COLOR_RGB2GRAY), (84, 84),
                       interpolation=cv2.INTER_AREA)
        y = y.reshape((84, 84, 1) if axis == 2 else (1, 84, 84))
        return y.astype('f') / np.float32(255) if opts['scale'] else y

    def judge_obs(obs, x, reset):
        exp = frame(x)
        got = np.asarray(obs)
        dt = np.float32 if opts['scale'] else np.uint8
        if opts['frame_stack']:
            last = np.take(got, [got.shape[axis] - 1], axis=axis)
        else:
            last = got
        if opts['flicker'] and not last.any():
            exp = np.zeros_like(exp)
        if opts['frame_stack']:
            frames[:] = [exp] * 4 if reset else (frames + [exp])[-4:]
            exp = np.concatenate(frames, axis=axis)
        ctx.require(got.dtype == dt and got.shape == exp.shape and
                    np.allclose(got, exp, atol=1e-6), 'deepmind:obs',
                    lambda: 'observation differs; options {}'.format(opts))
    for _ in range(60):
        if over or rng.rand() < .03:
            n0 = len(tap.calls)
            obs = env.reset()
            calls = tap.calls[n0:]
            real = calls[0]['k'] == 'reset'
            if opts['episode_life']:
                fresh = n0 == 0 or tap.calls[n0 - 1].get('over', False)
                ctx.require(real == fresh or (real and not stepped), 'deepmind:reset',
                            'life wrapper reset wrongly')
            else:
                ctx.require(real, 'deepmind:reset', 'no reset below')
            if fire:
                acts = [c['a'] for c in calls if c['k'] == 'step' and
                        c['a'] != 0]
                ctx.require(acts == [1, 2], 'deepmind:fire', lambda: str(acts))
            ctx.require(not calls[-1].get('over', False),
                        'deepmind:finished', 'reset returned a finished '
                        'episode')
            judge_obs(obs, calls[-1]['obs'], True)
            prev_lives = calls[-1]['lives']
            over = stepped = False
        else:
            a = int(rng.randint(3))
            stepped = True
            n0 = len(tap.calls)
            obs, r, done, info = env.step(a)
            calls = tap.calls[n0:]
            ctx.require(len(calls) == 1 and calls[0]['a'] == a,
                        'deepmind:calls', '')
            c = calls[0]
            exp_r = np.sign(c['r']) if opts['clip_rewards'] else c['r']
            exp_d = c['done'] or (opts['episode_life'] and
                                  0 < c['lives'] < prev_lives)
            prev_lives = c['lives']
            ctx.require(r == exp_r and bool(done) == bool(exp_d) and
                        info == c['info'], 'deepmind:rest',
                        lambda: 'r {} {} done {} {}'.format(
                            r, exp_r, done, exp_d))
            judge_obs(obs, c['obs'], False)
            over = bool(done or info.get('needs_reset', False))
        ctx.require(tap.misuse is None, 'deepmind:misuse',
                    lambda: tap.misuse)
    ctx.sig(tuple(sorted(opts.items())), fire)


@chk.scenario(quick=3, thorough=24, cpu=600)
def real_atari(ctx):
    """make_atari on the real emulator, judged from the raw frames."""
    rng = ctx.rng
    game = ['PongNoFrameskip-v4', 'BreakoutNoFrameskip-v4',
            'SeaquestNoFrameskip-v4'][ctx.idx % 3]
    limit = int(rng.choice([37, 60, 101]))
    env = aw.make_atari(game, max_frames=limit)
    env.seed(int(rng.randint(2 ** 31)))
    raw = env.unwrapped
    log = []
    ostep, oreset = raw.step, raw.reset

    def step(a):
        res = ostep(a)
        log.append(('step', a, res[0], res[1], res[2]))
        return res

    def reset(**kw):
        obs = oreset(**kw)
        log.append(('reset', obs))
        return obs
    raw.step, raw.reset = step, reset
    t = 0
    for ep in range(5):
        n0 = len(log)
        obs = env.reset()
        seg = log[n0:]
        ctx.require(seg[0][0] == 'reset' and all(
            s[0] == 'step' and s[1] == 0 for s in seg[1:]) and
            1 <= len(seg) - 1 <= 30, 'real:noops',
            lambda: str([s[:2] for s in seg][1:]))
        ctx.require(same(obs, seg[-1][-1] if len(seg) == 1 else seg[-1][2]),
                    'real:reset-obs', '')
        t = len(seg) - 1
        while True:
            a = int(rng.randint(env.action_space.n))
            n0 = len(log)
            obs, r, done, info = env.step(a)
            seg = log[n0:]
            t += len(seg)
            ctx.require(all(s[0] == 'step' and s[1] == a for s in seg) and
                        len(seg) <= 4, 'real:repeat', '')
            ctx.require(r == sum(s[3] for s in seg), 'real:reward', '')
            ctx.require(done == seg[-1][4], 'real:done', '')
            nr = bool(info.get('needs_reset', False))
            ctx.require(nr == (t >= limit), 'real:limit', lambda:
                        'needs_reset {} after {} frames of {}'.format(
                            nr, t, limit))
            ctx.require(len(seg) == 4 or done or nr, 'real:frames', '')
            if not done:
                ctx.require(same(obs, np.max([s[2] for s in seg[-2:]],
                                             axis=0)), 'real:obs',
                            'observation is not the max of the last frames '
                            'of this step ({})'.format(len(seg)))
            if done or nr:
                break
    ctx.sig(game, limit)


# ---------------------------------------------------------------------------
@chk.scenario(quick=300, thorough=6000)
def monitor(ctx):
    """Statistics contain each episode once, whether done or cut."""
    rng = ctx.rng
    base = Inner(rng, 'vector', shape=(2,), p_life=0.,
                 p_done=float(rng.choice([0., .1, .4])),
                 p_reset=float(rng.choice([0., .2])))
    base.metadata = {'render.modes': []}
    tap = Tap(base)
    limited = rng.rand() < .5
    inner = wrappers.ContinuingTimeLimit(tap, max_episode_steps=4) \
        if limited else tap
    env = wrappers.Monitor(inner, directory=os.path.join(ctx.tmp, 'mon'),
                           video_callable=lambda i: False)
    exp, cur, kinds = [], None, set()
    over = True
    for _ in range(int(rng.randint(1, 60))):
        if over or rng.rand() < .1:
            kinds.add('over' if over else 'early')
            obs = env.reset()
            if cur is not None and cur[0]:
                exp.append(cur)
            cur = [0, 0.]
            ctx.require(same(obs, tap.calls[-1]['obs']), 'monitor:obs', '')
            over = False
        else:
            a = int(rng.randint(6))
            obs, r, done, info = env.step(a)
            c = tap.calls[-1]
            ei = dict(c['info'])
            if limited and cur[0] + 1 >= 4:
                ei['needs_reset'] = True
            ctx.require(c['k'] == 'step' and c['a'] == a and
                        same(obs, c['obs']) and r == c['r'] and
                        bool(done) == c['done'] and info == ei,
                        'monitor:passes-through', '')
            cur[0] += 1
            cur[1] += r
            if done:
                kinds.add('done')
            over = bool(done or info.get('needs_reset', False))
            if rng.rand() < .1 and not done:
                over = False     # the caller may ignore needs_reset
    env.close()
    if cur is not None and cur[0]:
        exp.append(cur)
    fs = [f for f in os.listdir(os.path.join(ctx.tmp, 'mon'))
          if f.endswith('.stats.json')]
    ctx.require(len(fs) == 1, 'monitor:files', str(fs))
    with open(os.path.join(ctx.tmp, 'mon', fs[0])) as f:
        st = json.load(f)
    ctx.check(st['episode_lengths'] == [e[0] for e in exp],
              'monitor:lengths', lambda: '{} instead of {}'.format(
                  st['episode_lengths'], [e[0] for e in exp]))
    ctx.check(len(st['episode_rewards']) == len(exp) and np.allclose(
        st['episode_rewards'], [e[1] for e in exp]), 'monitor:rewards',
        lambda: '{} instead of {}'.format(st['episode_rewards'], exp))
    ctx.check(len(st['timestamps']) == len(exp), 'monitor:timestamps', '')
    ctx.sig(tuple(sorted(kinds)), limited, min(len(exp), 6))


@chk.scenario(quick=300, thorough=6000)
def modifiers(ctx):
    """The in-place environment modifiers."""
    rng = ctx.rng
    kind = ['limit', 'action', 'reward', 'clip', 'repeat', 'render'][
        rng.randint(6)]
    base = Inner(rng, 'vector', shape=(2,), p_life=0.,
                 p_done=float(rng.choice([0., .1, .3])))
    log = []
    ostep, oreset = base.step, base.reset

    def step(a):
        res = ostep(a)
        log.append((a,) + tuple(res[:3]) + (dict(res[3]),))
        return res

    base.step = step
    base.reset = lambda: oreset()
    p = None
    if kind == 'limit':
        p = int(rng.randint(1, 7))
        env_modifiers.make_timestep_limited(base, p)
    elif kind == 'action':
        env_modifiers.make_action_filtered(base, lambda a: a * 2 + 1)
    elif kind == 'reward':
        env_modifiers.make_reward_filtered(base, lambda r: r * 3 - 1)
    elif kind == 'clip':
        p = (-1, .5)
        env_modifiers.make_reward_clipped(base, *p)
    elif kind == 'repeat':
        p = int(rng.randint(1, 5))
        env_modifiers.make_action_repeated(base, p)
    else:
        env_modifiers.make_rendered(base, mode='human', x=1)
    over, t = True, 0
    for _ in range(50):
        if over or rng.rand() < .05:
            base.reset()
            over, t = False, 0
            continue
        a = int(rng.randint(6))
        n0, nr = len(log), len(base.renders)
        obs, r, done, info = base.step(a)
        seg = log[n0:]
        t += 1
        ea = a * 2 + 1 if kind == 'action' else a
        ctx.require(all(s[0] == ea for s in seg), 'modifier:action', kind)
        exp = [s[2] for s in seg]
        er = exp[-1]
        if kind == 'reward':
            er = er * 3 - 1
        elif kind == 'clip':
            er = min(max(er, p[0]), p[1])
        elif kind == 'repeat':
            er = sum(exp)
            ctx.require(len(seg) == p or (len(seg) < p and seg[-1][3]),
                        'modifier:repeat', str(len(seg)))
            ctx.require(not any(s[3] for s in seg[:-1]),
                        'modifier:after-end', 'stepped a finished episode')
        if kind != 'repeat':
            ctx.require(len(seg) == 1, 'modifier:calls', kind)
        ed = seg[-1][3] or (kind == 'limit' and t >= p)
        ctx.require(np.isclose(r, er) and bool(done) == bool(ed) and
                    same(obs, seg[-1][1]) and info == seg[-1][4],
                    'modifier:' + kind, lambda: 'r {} {} done {} {}'.format(
                        r, er, done, ed))
        if kind == 'render':
            ctx.require(len(base.renders) == nr + 1 and base.renders[-1] == (
                'human', {'x': 1}), 'modifier:render', '')
        over = done
    if kind == 'render':
        base.close()
        ctx.check(base.closed == 1 and base.renders[-1][1].get('close'),
                  'modifier:close', '')
    ctx.sig(kind, p)


if __name__ == '__main__':
    raise SystemExit(chk.main())
