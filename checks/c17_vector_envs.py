"""C17: vector environments behave like their member environments."""
import gc
import multiprocessing as mp
import os
import random
import time

import gym
from gym import spaces
import numpy as np

from vlib.harness import Check

from chainerrl.env import VectorEnv
from chainerrl.envs.abc import ABC as _ABC
from chainerrl.envs import MultiprocessVectorEnv
from chainerrl.envs import SerialVectorEnv
from chainerrl.wrappers import VectorFrameStack
from chainerrl.wrappers.vector_frame_stack import VectorEnvWrapper

chk = Check(
    'C17',
    'distinct (implementation, member kinds, number of members, operation '
    'mix, mask patterns, episode ends met) histories in which every result '
    'was compared with members stepped alone, plus distinct closing and '
    'misuse situations in which the worker processes were observed',
    ['members are deterministic functions of their seed and actions',
     'fork start method (the default on Linux)'])


class Member(gym.Env):
    """Deterministic function of its own random stream and its actions."""

    def __init__(self, seed, mid, kind, shape, dtype, log=None, delay=0.,
                 p_done=.25, levels=None, close_delay=0.):
        self.levels, self.close_delay = levels, close_delay
        self.mid, self.kind, self.shape, self.dtype = mid, kind, shape, dtype
        self.np_random = np.random.RandomState(seed)
        self.log, self.delay, self.p_done = log, delay, p_done
        self.delay_rng = random.Random(seed)
        self.action_space = spaces.Discrete(3 + mid)
        self.observation_space = spaces.Box(
            low=np.full(shape, -mid - 1.), high=np.full(shape, 200. + mid),
            dtype=dtype)
        self.spec = 'spec-{}'.format(mid)
        self.t = 0
        self.episode = 0
        self.n_calls = 0

    def _note(self, what):
        self.n_calls += 1
        if self.log is not None:
            with open(self.log, 'a') as f:
                f.write('{} {}\n'.format(what, os.getpid()))
        if self.delay and what != 'close':
            time.sleep(self.delay * self.delay_rng.random())

    def _obs(self):
        if self.kind == 'array':
            x = self.np_random.uniform(-1, 100, self.shape)
            if self.levels is not None:  # frames that often repeat
                x = np.full(self.shape, float(self.np_random.randint(
                    self.levels)))
            return x.astype(self.dtype)
        if self.kind == 'tuple':
            return (self.mid, self.episode, self.t,
                    self.np_random.uniform(-1, 1))
        return {'m': self.mid, 'x': self.np_random.uniform(-1, 1, 2)}

    def reset(self):
        self._note('reset')
        self.t = 0
        self.episode += 1
        return self._obs()

    def step(self, action):
        self._note('step')
        self.t += 1
        obs = self._obs()
        r = float(self.np_random.normal()) + 10 * float(np.sum(action))
        done = bool(self.np_random.rand() < self.p_done)
        info = {}
        if self.np_random.rand() < .5:
            info = {'member': self.mid, 't': self.t,
                    'needs_reset': bool(self.np_random.rand() < .5)}
        return obs, r, done, info

    def seed(self, seed=None):
        self._note('seed')
        if seed is not None:
            self.np_random = np.random.RandomState(seed)
        return [self.mid, seed]

    def close(self):
        time.sleep(self.close_delay)
        self._note('close')


class Fn(object):
    """Callable that creates a member."""

    def __init__(self, **kw):
        self.kw = kw

    def __call__(self):
        return Member(**self.kw)


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return type(a) is type(b) and a.dtype == b.dtype and \
            a.shape == b.shape and bool(np.array_equal(a, b))
    if type(a) is not type(b):
        return False
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return a == b or (a != a and b != b)


def members(ctx, n, log=False, delay=0.):
    rng = ctx.rng
    kind = ['array', 'array', 'tuple', 'dict'][rng.randint(4)]
    shape = [(3,), (2, 2), (1, 3, 2)][rng.randint(3)]
    dtype = [np.float32, np.float64, np.uint8][rng.randint(3)]
    kws = [dict(seed=int(rng.randint(2 ** 31)), mid=i, kind=kind, shape=shape,
                dtype=dtype, delay=delay * float(rng.randint(2)),
                p_done=float(rng.choice([.05, .3])),
                log=os.path.join(ctx.tmp, 'm{}.log'.format(i)) if log
                else None) for i in range(n)]
    return kws, kind


def reference(kws):
    return [Member(**dict(kw, log=None, delay=0.)) for kw in kws]


MASKS = ['none', 'bool', 'list', 'float', 'int', 'ones']


def draw_mask(rng, n, dones):
    kind = MASKS[rng.randint(len(MASKS))]
    if kind == 'none':
        return kind, None, np.zeros(n, dtype=bool)
    if kind == 'ones':
        return kind, np.ones(n), np.ones(n, dtype=bool)
    m = np.logical_not(dones) if rng.rand() < .6 else rng.rand(n) < .5
    if kind == 'bool':
        return kind, m, m
    if kind == 'list':
        return kind, [bool(x) for x in m], m
    if kind == 'float':
        return kind, m.astype(np.float32), m
    return kind, m.astype(int), m


def action(rng):
    k = rng.randint(3)
    if k == 0:
        return int(rng.randint(3))
    if k == 1:
        return rng.uniform(-1, 1, 2).astype(np.float32)
    return (float(rng.rand()), int(rng.randint(3)))


def drive(ctx, vec, refs, name, n_ops, ready=lambda: None):
    """Random history on vec and on the members alone."""
    rng, n = ctx.rng, len(refs)
    last = [None] * n
    dones = np.zeros(n, dtype=bool)
    seen, ends = set(), 0
    kept = []
    for op in range(n_ops):
        u = rng.rand() if op else .9
        if u < .6:
            acts = [action(rng) for _ in range(n)]
            if rng.rand() < .2:
                acts = tuple(acts)
            got = vec.step(acts)
            exp = [m.step(a) for m, a in zip(refs, acts)]
            ctx.require(len(got) == 4 and all(len(g) == n for g in got),
                        name + ':step-result',
                        lambda: 'step returned {!r}'.format(got))
            for j, what in enumerate(['obs', 'reward', 'done', 'info']):
                ctx.require(
                    same(list(got[j]), [e[j] for e in exp]),
                    '{}:step-{}'.format(name, what),
                    lambda: 'step: {} {!r} expected {!r}'.format(
                        what, got[j], [e[j] for e in exp]))
            last = [e[0] for e in exp]
            dones = np.array([e[2] for e in exp])
            ends += int(dones.sum())
            kept.append((got[0], list(last)))
        elif u < .93:
            kind, mask, m = draw_mask(rng, n, dones)
            if not op:
                kind, mask, m = 'none', None, np.zeros(n, dtype=bool)
            how = rng.randint(3)
            if mask is None and how == 0:
                got = vec.reset()
            elif how == 1:
                got = vec.reset(mask=mask)
            else:
                got = vec.reset(mask)
            last = [o if skip else r.reset()
                    for o, skip, r in zip(last, m, refs)]
            dones = np.where(m, dones, False)
            seen.add((kind, bool(m.all()), bool(m.any())))
            ctx.require(
                same(list(got), last), name + ':reset-obs',
                lambda: 'reset({!r}): {!r} expected {!r}'.format(
                    mask, got, last))
            kept.append((got, list(last)))
        else:
            seeds = [int(s) for s in rng.randint(2 ** 31, size=n)]
            vec.seed(seeds)
            for r, s in zip(refs, seeds):
                r.seed(s)
            seen.add('seed')
        if rng.rand() < .1:
            ready()
    # what was returned before is not changed by later calls
    for got, exp in kept[-12:]:
        ctx.require(same(list(got), exp), name + ':returned-changed',
                    'an earlier result was changed by later operations')
    ctx.count('operations', n_ops)
    ctx.count('member_steps', sum(r.n_calls for r in refs))
    ctx.sig(name, n, refs[0].kind, tuple(sorted(map(str, seen))), min(ends, 3))


def check_static(ctx, vec, refs, name):
    ctx.check(vec.num_envs == len(refs), name + ':num-envs',
              lambda: 'num_envs {}'.format(vec.num_envs))
    ctx.check(vec.action_space == refs[0].action_space,
              name + ':action-space',
              lambda: '{} {}'.format(vec.action_space, refs[0].action_space))
    ctx.check(vec.observation_space == refs[0].observation_space,
              name + ':observation-space',
              lambda: '{} {}'.format(vec.observation_space,
                                     refs[0].observation_space))
    ctx.check(vec.spec == refs[0].spec, name + ':spec',
              lambda: '{!r}'.format(vec.spec))


@chk.scenario(quick=400, thorough=8000)
def serial(ctx):
    n = int(ctx.rng.choice([1, 2, 3, 5]))
    kws, kind = members(ctx, n)
    envs = [Fn(**kw)() for kw in kws]
    vec = SerialVectorEnv(envs)
    refs = reference(kws)
    check_static(ctx, vec, refs, 'serial')
    wrapped = ctx.rng.rand() < .3
    if wrapped:
        vec = VectorEnvWrapper(vec)
        check_static(ctx, vec, refs, 'serial-wrapped')
    drive(ctx, vec, refs, 'serial', int(ctx.rng.randint(5, 60)))
    ctx.check([e.n_calls for e in envs] == [r.n_calls for r in refs],
              'serial:exactly-once', 'members were called more or less often')
    before = [e.n_calls for e in envs]
    vec.close()
    ctx.check([e.n_calls - b for e, b in zip(envs, before)] == [1] * n,
              'serial:close', 'not every member closed exactly once')


def alive(pids):
    return [p for p in pids if os.path.exists('/proc/{}'.format(p)) and
            _state(p) not in ('Z', 'X')]


def _state(pid):
    try:
        with open('/proc/{}/stat'.format(pid)) as f:
            return f.read().rsplit(')', 1)[1].split()[0]
    except IOError:
        return 'X'


def read_logs(kws):
    out = []
    for kw in kws:
        try:
            with open(kw['log']) as f:
                out.append([l.split() for l in f.read().splitlines()])
        except IOError:
            out.append([])
    return out


@chk.scenario(quick=100, thorough=2000)
def multiprocess(ctx):
    rng = ctx.rng
    n = int(rng.choice([1, 2, 3, 5]))
    kws, kind = members(ctx, n, log=True, delay=float(rng.choice([0, .004])))
    if rng.rand() < .08:
        kws[rng.randint(n)]['close_delay'] = float(rng.uniform(.3, 1.5))
    vec = MultiprocessVectorEnv([Fn(**kw) for kw in kws])
    refs = reference(kws)
    wrapped = rng.rand() < .3
    if wrapped:
        vec = VectorEnvWrapper(vec)
    if rng.rand() < .5:
        check_static(ctx, vec, refs, 'multiprocess')
    drive(ctx, vec, refs, 'multiprocess', int(rng.randint(5, 60)),
          ready=lambda: check_static(ctx, vec, refs, 'multiprocess'))
    pids = [c.pid for c in mp.active_children()]
    logs = read_logs(kws)
    ctx.check([len(l) for l in logs] == [r.n_calls for r in refs],
              'multiprocess:exactly-once', lambda: 'members received {} calls '
              'instead of {}'.format([len(l) for l in logs],
                                     [r.n_calls for r in refs]))
    # every member lives in one process of its own
    used = [set(x[1] for x in l) for l in logs]
    ctx.check(all(len(u) == 1 for u in used) and
              len(set.union(*used)) == n and str(os.getpid()) not in
              set.union(*used), 'multiprocess:processes',
              lambda: 'processes used by the members: {}'.format(used))
    how = rng.randint(3)
    if how == 0:
        vec.close()
        ctx.raises(AssertionError, lambda: vec.step([0] * n),
                   'multiprocess:closed-step', 'step accepted after close')
        ctx.raises(AssertionError, lambda: vec.reset(),
                   'multiprocess:closed-reset', 'reset accepted after close')
        ctx.raises(AssertionError, lambda: vec.seed([0] * n),
                   'multiprocess:closed-seed', 'seed accepted after close')
        ctx.raises(AssertionError, lambda: vec.close(),
                   'multiprocess:closed-close', 'close accepted twice')
    elif how == 1:
        vec.close()
    else:
        # garbage collection of an environment that was not closed
        del vec
        gc.collect()
    left = alive(pids)
    ctx.check(not left and len(pids) == n, 'multiprocess:workers-ended',
              lambda: 'of {} workers {} are left'.format(len(pids), left))
    logs = read_logs(kws)
    ctx.check(all([x[0] for x in l].count('close') == 1 and
                  l[-1][0] == 'close' for l in logs),
              'multiprocess:members-closed',
              'not every member was closed exactly once')
    ctx.sig('close', how, n, wrapped)


@chk.scenario(quick=20, thorough=200)
def multiprocess_seed_forms(ctx):
    """seed(None), seed(int), seed(list); bad arguments change nothing."""
    rng = ctx.rng
    n = int(rng.randint(1, 4))
    kws, kind = members(ctx, n)
    vec = MultiprocessVectorEnv([Fn(**kw) for kw in kws])
    refs = reference(kws)
    try:
        for _ in range(6):
            k = rng.randint(5)
            if k == 0:
                got = vec.seed()
                exp = [r.seed(None) for r in refs]
            elif k == 1:
                s = int(rng.choice([0, 1, 255, rng.randint(2 ** 31)]))
                got = vec.seed(s)
                exp = [r.seed(s) for r in refs]
            elif k == 2:
                s = [[0, None, 3, int(x)][rng.randint(4)]
                     for x in rng.randint(2 ** 31, size=n)]
                got = vec.seed(s)
                exp = [r.seed(x) for r, x in zip(refs, s)]
            elif k == 3:
                ctx.raises(ValueError, lambda: vec.seed([1] * (n + 1)),
                           'seed:length', 'wrong number of seeds accepted')
                got = exp = None
            else:
                ctx.raises(TypeError, lambda: vec.seed('x'),
                           'seed:type', 'wrong type of seeds accepted')
                got = exp = None
            ctx.check(got == exp, 'seed:result', lambda: 'seed returned {!r} '
                      'expected {!r}'.format(got, exp))
            ctx.require(same(list(vec.reset()), [r.reset() for r in refs]),
                        'seed:reset-obs', 'seeding differs from members')
            acts = [action(rng) for _ in range(n)]
            got = vec.step(acts)
            exp = [r.step(a) for r, a in zip(refs, acts)]
            ctx.require(same([list(g) for g in got],
                             [list(e) for e in zip(*exp)]),
                        'seed:step', 'seeding differs from members')
            ctx.sig(int(k), n, kind)
    finally:
        vec.close()


@chk.scenario(quick=16, thorough=150)
def real_environments(ctx):
    """Classic gym environments and the toy environment as members."""
    rng = ctx.rng
    n = int(rng.randint(1, 4))
    kind = ['CartPole-v0', 'Pendulum-v0', 'abc', 'FrozenLake-v0'][
        rng.randint(4)]
    seeds = [int(s) for s in rng.randint(2 ** 31, size=n)]

    def make(seed):
        if kind == 'abc':
            return _ABC(size=2 + seed % 3, deterministic=True,
                        partially_observable=bool(seed % 2))
        env = gym.make(kind)
        env.seed(seed)
        return env
    serial_ = rng.rand() < .5
    if serial_:
        vec = SerialVectorEnv([make(s) for s in seeds])
    else:
        vec = MultiprocessVectorEnv([lambda s=s: make(s) for s in seeds])
    refs = [make(s) for s in seeds]
    try:
        spec = vec.spec if kind != 'abc' or serial_ else None
        if kind != 'abc':
            ctx.check(spec.id == refs[0].spec.id, 'real:spec',
                      lambda: '{!r}'.format(spec))
        ctx.require(same(list(vec.reset()), [r.reset() for r in refs]),
                    'real:reset', 'first reset differs')
        ends = 0
        last = None
        for _ in range(60):
            acts = [r.action_space.sample() for r in refs]
            got = vec.step(acts)
            exp = [r.step(a) for r, a in zip(refs, acts)]
            ctx.require(same([list(g) for g in got],
                             [list(e) for e in zip(*exp)]), 'real:step',
                        lambda: '{}: {!r} {!r}'.format(kind, got, exp))
            done = [e[2] for e in exp]
            last = [e[0] for e in exp]
            ends += sum(done)
            if any(done):
                mask = np.logical_not(done)
                exp = [o if m else r.reset() for o, m, r in zip(
                    last, mask, refs)]
                ctx.require(same(list(vec.reset(mask)), exp), 'real:mask',
                            'masked reset differs')
        ctx.sig(kind, n, serial_, min(ends, 5))
        ctx.count('episode_ends', ends)
    finally:
        vec.close()


@chk.scenario(quick=300, thorough=5000)
def frame_stack(ctx):
    """Each member sees exactly the last k frames of its own episode."""
    rng = ctx.rng
    n, k = int(rng.randint(1, 5)), int(rng.randint(1, 6))
    shape = [(3,), (2, 2), (1, 3, 2)][rng.randint(3)]
    axis = int(rng.randint(-len(shape), len(shape)))
    dtype = [np.float32, np.uint8][rng.randint(2)]
    levels = [None, None, 1, 2][rng.randint(4)]
    kws = [dict(seed=int(rng.randint(2 ** 31)), mid=i, kind='array',
                shape=shape, dtype=dtype, p_done=.2, levels=levels)
           for i in range(n)]
    multi = rng.rand() < .2
    if multi:
        base = MultiprocessVectorEnv([Fn(**kw) for kw in kws])
    else:
        base = SerialVectorEnv([Fn(**kw)() for kw in kws])
    if axis == 0 and rng.rand() < .5:
        vec = VectorFrameStack(base, k)
    else:
        vec = VectorFrameStack(base, k, stack_axis=axis)
    refs = reference(kws)
    try:
        space = refs[0].observation_space
        ctx.check(np.array_equal(
            vec.observation_space.low,
            np.concatenate([space.low] * k, axis=axis)) and np.array_equal(
            vec.observation_space.high,
            np.concatenate([space.high] * k, axis=axis)) and
            vec.observation_space.dtype == space.dtype,
            'stack:space', lambda: str(vec.observation_space))
        ctx.check(vec.action_space == refs[0].action_space,
                  'stack:action-space', '')
        ctx.check(vec.num_envs == n, 'stack:num-envs', '')
        frames = [None] * n
        kept = []
        dones = np.zeros(n, dtype=bool)
        partial = ends = 0

        def expect():
            return [np.concatenate(
                ([f[0]] * k + f)[-k:], axis=axis) for f in frames]

        for op in range(int(rng.randint(5, 50))):
            if op and rng.rand() < .65:
                acts = [action(rng) for _ in range(n)]
                got, r, d, info = vec.step(acts)
                exp = [m.step(a) for m, a in zip(refs, acts)]
                for i in range(n):
                    frames[i].append(exp[i][0])
                ctx.require(
                    same([list(r), list(d), list(info)],
                         [[e[j] for e in exp] for j in (1, 2, 3)]),
                    'stack:step-rest', 'reward, done or info changed')
                dones = np.array([e[2] for e in exp])
                ends += int(dones.sum())
            else:
                kind, mask, m = draw_mask(rng, n, dones) if op else (
                    'none', None, np.zeros(n, dtype=bool))
                got = vec.reset(mask) if rng.rand() < .5 else \
                    vec.reset(mask=mask)
                for i in range(n):
                    if not m[i]:
                        frames[i] = [refs[i].reset()]
                dones = np.where(m, dones, False)
                partial += bool(m.any() and not m.all())
            exp = expect()
            ctx.require(len(got) == n, 'stack:length', '')
            for i in range(n):
                a = np.asarray(got[i])
                ctx.require(
                    a.dtype == dtype and np.array_equal(a, exp[i]),
                    'stack:frames', lambda: 'member {}: {!r} expected {!r}'
                    .format(i, a, exp[i]))
            kept.append((got, exp))
        for got, exp in kept:
            ctx.require(all(np.array_equal(np.asarray(g), e)
                            for g, e in zip(got, exp)), 'stack:changed',
                        'earlier observations changed by later steps')
        ctx.sig(n, k, axis, shape, multi, levels, partial > 0, min(ends, 3))
        ctx.count('observations', len(kept) * n)
    finally:
        vec.close()


class Recorder(VectorEnv):
    """Vector environment that records how it is used."""

    action_space, observation_space = 'A', 'O'
    num_envs = 3
    spec = 'spec'
    extra = ['x']

    def __init__(self):
        self.calls = []

    def __getattribute__(self, name):
        if name in ('step', 'reset', 'render', 'close', 'seed',
                    'compute_reward', 'other'):
            def f(*a, **k):
                self.calls.append((name, a, k))
                return (name, len(self.calls))
            return f
        return object.__getattribute__(self, name)

    def step(self):
        raise NotImplementedError

    reset = seed = close = step

    @property
    def unwrapped(self):
        return self


@chk.scenario(quick=60, thorough=400)
def plain_wrapper(ctx):
    """VectorEnvWrapper hands everything to the environment it wraps."""
    rng = ctx.rng
    base = Recorder()
    w = base
    depth = int(rng.randint(1, 4))
    for _ in range(depth):
        w = VectorEnvWrapper(w)
    for _ in range(12):
        name, a, k = [
            ('step', ([1, 2, 3],), {}), ('reset', (), {}),
            ('reset', ('m',), {}), ('reset', (), {'mask': 'm'}),
            ('render', (), {'mode': 'human'}),
            ('render', (), {'mode': 'rgb_array', 'x': 1}),
            ('close', (), {}), ('seed', (7,), {}), ('seed', ([1, 2, 3],), {}),
            ('compute_reward', (1, 2, {'a': 3}), {}),
            ('other', (1,), {'b': 2})][rng.randint(11)]
        n = len(base.calls)
        r = getattr(w, name)(*a, **k)
        ctx.require(len(base.calls) == n + 1 and r == (name, n + 1),
                    'wrapper:calls', lambda: '{} gave {} {}'.format(
                        name, r, base.calls[n:]))
        got = base.calls[n]
        flat = list(a) + sorted(k.items())
        seen = list(got[1]) + sorted(got[2].items())
        # arguments may become positional on the way
        ctx.check(got[0] == name and sorted(
            repr(x[1] if isinstance(x, tuple) else x) for x in seen) == sorted(
            repr(x[1] if isinstance(x, tuple) else x) for x in flat),
            'wrapper:arguments', lambda: '{} became {}'.format((a, k), got))
    ctx.check((w.action_space, w.observation_space, w.num_envs, w.spec,
               w.extra, w.unwrapped) == ('A', 'O', 3, 'spec', base.extra,
                                         base), 'wrapper:attributes')
    ctx.raises(AttributeError, lambda: w._private, 'wrapper:private')
    ctx.raises(AttributeError, lambda: w.nothing, 'wrapper:unknown')
    ctx.sig(depth, tuple(c[0] for c in base.calls[:4]))


if __name__ == '__main__':

    raise SystemExit(chk.main())
