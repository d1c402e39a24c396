"""C30: the bundled Atari and toy environments."""
import contextlib
import warnings

import atari_py
import cv2
import gym
import numpy as np

from vlib import stats
from vlib.harness import Check
from chainerrl.envs.abc import ABC
from chainerrl.envs.ale import ALE

chk = Check(
    'C30',
    'distinct (game, frame skip, stacking, resizing, life loss and no-op '
    'options, number and kinds of episode ends) of which every step was '
    'compared with what its emulator gave, and distinct toy environment '
    'configurations compared with the documented state machine',
    ['NTSC games of atari_py', 'the observation returned with the end of an '
     'episode is only checked for shape and type'])

GAMES = ['breakout', 'pong', 'boxing', 'seaquest', 'kaboom', 'asterix',
         'freeway', 'beam_rider', 'ms_pacman', 'space_invaders', 'enduro',
         'qbert', 'riverraid', 'krull', 'hero', 'alien', 'berzerk', 'atlantis',
         'chopper_command', 'name_this_game', 'road_runner', 'up_n_down',
         'venture', 'phoenix', 'pitfall', 'star_gunner', 'demon_attack',
         'battle_zone', 'gravitar', 'zaxxon', 'kangaroo', 'time_pilot',
         'fishing_derby', 'private_eye', 'defender', 'crazy_climber']


class Recorder(object):
    """Records what reaches any emulator."""

    def __init__(self):
        self.events = []
        self.frames = []        # what the emulator gave at each event
        self.seeds = []         # given to emulators
        self.on = True

    def take(self):
        e, self.events = self.events, []
        self.taken, self.frames = self.frames, []
        return e

    def record(self, ale, event, reward):
        if self.on:
            self.events.append(event)
            self.frames.append((reward, int(ale.lives()),
                                bool(ale.game_over()),
                                np.array(ale.getScreenRGB())))


@contextlib.contextmanager
def recording():
    rec = Recorder()
    cls = atari_py.ALEInterface
    orig = {n: getattr(cls, n) for n in ('act', 'reset_game', 'setInt')}

    def act(self, action):
        r = orig['act'](self, action)
        rec.record(self, ('act', int(action)), r)
        return r

    def reset_game(self):
        r = orig['reset_game'](self)
        rec.record(self, ('reset_game',), 0)
        return r

    def setInt(self, key, value):
        if key == b'random_seed':
            rec.seeds.append(int(value))
        return orig['setInt'](self, key, value)
    cls.act, cls.reset_game, cls.setInt = act, reset_game, setInt
    rec.orig = orig
    try:
        yield rec
    finally:
        for n, f in orig.items():
            setattr(cls, n, f)


class Feed(object):
    """What the emulator of an environment gave, event by event.

    Two emulators with the same seed are not always equal: some games draw
    from memory nobody initialized.  The reference therefore follows the very
    emulator of the environment; that the emulator is set up without
    randomness of its own is decided by `settings`.
    """

    def __init__(self, env):
        ale = env.ale
        self.queue = []
        self.lives, self.over = int(ale.lives()), False
        self.picture = np.array(ale.getScreenRGB())

    def load(self, frames):
        self.queue = list(frames)

    def advance(self):
        """Returns the reward, None if nothing more reached the emulator."""
        if not self.queue:
            return None
        r, self.lives, self.over, self.picture = self.queue.pop(0)
        return r

    def screen(self):
        return self.picture


def preprocess(prev, cur, how):
    rgb = np.maximum(prev, cur).astype('d')
    lum = (rgb[..., 0] * .299 + rgb[..., 1] * .587
           + rgb[..., 2] * .114)
    # the fraction may be lost to rounding
    img = np.floor(lum + 1e-9).astype(np.uint8)
    alt = np.floor(lum - 1e-9).clip(0).astype(np.uint8)
    out = []
    for i in (img, alt):
        if how == 'scale':
            i = cv2.resize(i, (84, 84), interpolation=cv2.INTER_LINEAR)
        else:
            i = cv2.resize(i, (84, 110), interpolation=cv2.INTER_LINEAR)
            i = i[18:102]
        out.append(i.astype(int))
    return np.minimum(*out), np.maximum(*out)


def check_screen(ctx, got, ref, key, what):
    lo, hi = ref
    got = np.asarray(got).astype(int)
    bad = (got < lo - 1) | (got > hi + 1)
    ctx.check(not bad.any(), key, lambda: '{}: {} of {} pixels differ, e.g. '
              'at {}: {} instead of {}'.format(
                  what, bad.sum(), bad.size, np.argwhere(bad)[0],
                  got[bad][0], lo[bad][0]))


class Lock(object):
    """One environment in lock step with its own emulator."""

    def __init__(self, ctx, rec, game, cfg, seed):
        self.ctx, self.rec, self.cfg, self.game = ctx, rec, cfg, game
        rec.take()
        state = np.random.get_state()
        self.env = ALE(game, seed=seed, **cfg)
        used = rec.seeds[-1:]
        ctx.require(len(used) == 1 and 0 <= used[0] < 2 ** 31
                    and seed in (None, used[0]), 'ale:seed', lambda: 'the '
                    'emulator got the seed {} instead of {}'.format(
                        used, seed))
        if seed is None:
            np.random.set_state(state)
            self.env = ALE(game, seed=None, **cfg)
            ctx.check(rec.seeds[-1:] == used, 'ale:seed-not-numpy', lambda:
                      'seeds {} from the same random state'.format(
                          (rec.seeds[-1], used)))
            np.random.seed(ctx.rng.randint(2 ** 31))
            rec.take()
            self.env = ALE(game, seed=None, **cfg)
            ctx.check(rec.seeds[-1:] != used, 'ale:seed-constant', lambda:
                      'always the seed {}'.format(used))
            seed = rec.seeds[-1]
        ev = rec.take()
        self.emu = Feed(self.env)
        self.emu.load(rec.taken)
        self.legal = [int(a) for a in self.env.ale.getMinimalActionSet()]
        self.kept = []          # returned observations and their copies
        self.ends = set()
        self.started = False
        self.over = False
        ctx.require(self.env.action_space == gym.spaces.Discrete(
            len(self.legal)), 'ale:action-space', lambda: repr(
                self.env.action_space))
        self.start(ev, 'at construction',
                   None)

    def start(self, events, what, screens):
        ctx, emu, cfg = self.ctx, self.emu, self.cfg
        events = list(events)
        resets = [e for e in events if e[0] == 'reset_game']
        over = emu.over
        if over:
            ctx.check(len(resets) >= 1, 'ale:no-new-game', lambda: 'no new '
                      'game {} after the game was over'.format(what))
            self.ends.add('game-over')
        elif self.over:
            ctx.check(not resets, 'ale:new-game', lambda: 'a new game {} '
                      'while lives are left'.format(what))
            self.ends.add('life-lost')
        n = 0
        for e in events:
            if e[0] == 'reset_game':
                emu.advance()
                n = 0
            else:
                ctx.check(e[1] == 0, 'ale:start-action', lambda: 'action {} '
                          '{}'.format(e[1], what))
                emu.advance()
                n += 1
        ctx.check(0 <= n <= cfg['max_start_nullops'], 'ale:nullops',
                  lambda: '{} null actions {} with a maximum of {}'.format(
                      n, what, cfg['max_start_nullops']))
        ctx.count('starts')
        cur = emu.screen()
        zero = np.zeros((84, 84), int)
        self.screens = [(zero, zero)] * (cfg['n_last_screens'] - 1) + [
            preprocess(cur, cur, cfg['crop_or_scale'])]
        self.lives = emu.lives
        self.over = False
        ctx.require(not emu.over, 'ale:starts-over', lambda: 'an episode of '
                    '{} starts when the game is already over {}; {}'.format(
                        self.game, what, cfg))
        self.observed(screens if screens is not None else self.env.state,
                      what)

    def observed(self, obs, what, compare=True):
        ctx, cfg = self.ctx, self.cfg
        ctx.require(len(obs) == cfg['n_last_screens'], 'ale:stack', lambda:
                    '{} screens instead of {} {}'.format(
                        len(obs), cfg['n_last_screens'], what))
        for s in obs:
            ctx.require(isinstance(s, np.ndarray) and s.shape == (84, 84)
                        and s.dtype == np.uint8, 'ale:screen-type', lambda:
                        'a screen is a {} of {}'.format(s.shape, s.dtype))
        if compare:
            for k, (s, r) in enumerate(zip(obs, self.screens)):
                check_screen(ctx, s, r, 'ale:screen', 'screen {} of {} '
                             '{} {} {}'.format(k, len(obs), what, self.game,
                                               cfg))
        if self.ctx.rng.rand() < .1:
            self.kept.append((list(obs), [s.copy() for s in obs]))

    def reset(self):
        self.rec.take()
        obs = self.env.reset()
        ev = self.rec.take()
        self.emu.load(self.rec.taken)
        self.start(ev, 'at reset', obs)

    def step(self):
        ctx, cfg, emu = self.ctx, self.cfg, self.emu
        a = int(ctx.rng.randint(len(self.legal)))
        if 1 in self.legal and ctx.rng.rand() < .1:
            a = self.legal.index(1)         # fire
        act = [a, np.int64(a)][ctx.rng.randint(2)]
        self.rec.take()
        out = self.env.step(act)
        ev = self.rec.take()
        emu.load(self.rec.taken)
        ctx.require(len(out) == 4, 'ale:step', 'not four values')
        obs, r, done, info = out
        total, prev, lost, over, n = 0, None, False, False, 0
        for k in range(cfg['frame_skip']):
            if k == cfg['frame_skip'] - 1:
                prev = emu.screen()
            got = emu.advance()
            if got is None:
                ctx.fatal('ale:actions', 'action {} reached the emulator '
                          'only {} times of {} with lives {}; {}'.format(
                              a, n, cfg['frame_skip'], emu.lives, cfg))
            total += got
            n += 1
            lives = emu.lives
            lost = lives < self.lives
            self.lives = lives
            over = emu.over
            if over or (lost and cfg['treat_life_lost_as_terminal']):
                break
        end = bool(over or (lost and cfg['treat_life_lost_as_terminal']))
        ctx.count('steps')
        ctx.check(ev == [('act', self.legal[a])] * n, 'ale:actions', lambda:
                  'action {} reached the emulator as {}, expected {} times '
                  '{}; {}'.format(a, ev, n, self.legal[a], cfg))
        ctx.check(r == total, 'ale:reward', lambda: 'reward {} instead of {}; '
                  '{} {}'.format(r, total, self.game, cfg))
        if total != 0:
            ctx.count('rewards')
        ctx.check(bool(done) == end, 'ale:done', lambda: 'done is {} instead '
                  'of {}; lives {}, game over {}; {} {}'.format(
                      done, end, lives, over, self.game, cfg))
        if ev != [('act', self.legal[a])] * n:
            ctx.fatal('ale:actions-stop', 'see ale:actions')
        if not end:
            self.screens = self.screens[1:] + [
                preprocess(prev, emu.screen(), cfg['crop_or_scale'])]
        self.observed(obs, 'after a step', not end)
        self.over = end
        return end

    def finish(self):
        for obs, copy in self.kept:
            for a, b in zip(obs, copy):
                self.ctx.check(np.array_equal(a, b), 'ale:observation-changed',
                               'an observation changed after it was returned')
        self.env.close()


def options(rng):
    return dict(
        n_last_screens=int(rng.choice([1, 2, 3, 4, 4, 6])),
        frame_skip=int(rng.choice([1, 2, 3, 4, 4, 8])),
        treat_life_lost_as_terminal=bool(rng.rand() < .6),
        crop_or_scale=['crop', 'scale'][rng.randint(2)],
        max_start_nullops=int(rng.choice([0, 1, 5, 30])))


@chk.scenario(quick=48, thorough=900, cpu=200)
def atari(ctx):
    """Random play in lock step with another emulator."""
    rng = ctx.rng
    np.random.seed(rng.randint(2 ** 31))
    n_env = 1 if rng.rand() < .7 else 2
    with recording() as rec, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        locks = []
        for _ in range(n_env):
            game = GAMES[rng.randint(len(GAMES))] if rng.rand() < .6 else \
                ['breakout', 'kaboom', 'qbert', 'ms_pacman'][rng.randint(4)]
            seed = [None, 0, 2 ** 31 - 1, int(rng.randint(2 ** 31))][
                rng.choice(4, p=[.2, .1, .1, .6])]
            locks.append(Lock(ctx, rec, game, options(rng), seed))
        ends = 0
        for _ in range(int(rng.choice([100, 300, 500])) // n_env):
            lock = locks[rng.randint(n_env)]
            if rng.rand() < .01:
                lock.reset()
                lock.ends.add('reset')
            if lock.step():
                ends += 1
                lock.reset()
        for lock in locks:
            lock.finish()
            cfg = lock.cfg
            ctx.sig(lock.game, cfg['frame_skip'], cfg['n_last_screens'],
                    cfg['crop_or_scale'], cfg['treat_life_lost_as_terminal'],
                    cfg['max_start_nullops'], tuple(sorted(lock.ends)))
            ctx.sample(dict(cfg, game=lock.game, ends=ends))


@chk.scenario(quick=6, thorough=40, cpu=200)
def settings(ctx):
    """The emulator is set up with its seed and no randomness of its own.

    Another emulator is given the same seed and events.  Single emulators may
    differ where a game draws from memory nobody initialized, so only four
    different pairs in a row count.
    """
    rng = ctx.rng
    game = ['breakout', 'pong', 'boxing', 'freeway', 'seaquest',
            'space_invaders'][ctx.idx % 6]
    cfg = options(rng)
    seed = int(rng.randint(2 ** 31))
    diff = None
    for _ in range(4):
        with recording() as rec, warnings.catch_warnings():
            warnings.simplefilter('ignore')
            np.random.seed(rng.randint(2 ** 31))
            env = ALE(game, seed=seed, **cfg)
            for _ in range(150):
                if env.step(np.random.randint(env.number_of_actions))[2]:
                    env.reset()
            ev = rec.take()
            rec.on = False
            emu = atari_py.ALEInterface()
            emu.setInt(b'random_seed', seed)
            emu.setFloat(b'repeat_action_probability', 0.)
            emu.setBool(b'color_averaging', False)
            emu.loadROM(str(atari_py.get_game_path(game)).encode())
            diff = None
            for k, (e, f) in enumerate(zip(ev, rec.taken)):
                r = emu.act(e[1]) if e[0] == 'act' else emu.reset_game()
                got = (r or 0, int(emu.lives()), bool(emu.game_over()))
                if got != f[:3] or not np.array_equal(
                        emu.getScreenRGB(), f[3]):
                    diff = '{} of {} events; {} {}'.format(
                        k, len(ev), f[:3], got)
                    break
        if diff is None:
            break
        ctx.count('emulators that differed')
    ctx.count('emulators compared')
    ctx.check(diff is None, 'ale:settings', lambda: 'the emulator of {} '
              'differs from one with the same seed, no repeated actions and '
              'no averaged colours after {}'.format(game, diff))
    ctx.sig(game, tuple(sorted(cfg.items())))


@chk.scenario(quick=8, thorough=60, cpu=200)
def start_distribution(ctx):
    """The number of null actions is uniform; seeds are validated."""
    rng = ctx.rng
    np.random.seed(rng.randint(2 ** 31))
    m = int(rng.choice([1, 3, 8]))
    game = ['pong', 'freeway', 'boxing'][rng.randint(3)]
    counts = np.zeros(m + 1, int)
    n = 600
    with recording() as rec:
        env = ALE(game, seed=1, max_start_nullops=m)
        rec.take()
        for _ in range(n):
            env.reset()
            k = sum(e[0] == 'act' for e in rec.take())
            ctx.require(k <= m, 'ale:nullops', lambda: '{} null actions with '
                        'a maximum of {}'.format(k, m))
            counts[k] += 1
    for k in range(m + 1):
        stats_check(ctx, counts[k], n, 1. / (m + 1), 'ale:nullops-'
                    'distribution', '{} null actions'.format(k))
    for bad in (-1, 2 ** 31):
        ctx.raises((AssertionError, ValueError), lambda: ALE(game, seed=bad),
                   'ale:seed-accepted', 'seed {}'.format(bad))
    ctx.raises((AssertionError, ValueError), lambda: ALE(game, frame_skip=0),
               'ale:frame-skip-accepted', 'frame_skip 0')
    ctx.raises((AssertionError, ValueError), lambda: ALE(game, crop_or_scale='pad'),
               'ale:crop-accepted', 'crop_or_scale pad')
    ctx.sig(m, game)


def stats_check(ctx, k, n, p, key, what):
    pv = stats.binom_p(k, n, p)
    ctx.check(pv > 1e-10, key, lambda: '{} of {} times {} at probability {}'
              .format(k, n, what, p))


@chk.scenario(quick=6, thorough=40, cpu=200)
def long_start(ctx):
    """Null actions that lose the last life do not make a finished episode."""
    rng = ctx.rng
    np.random.seed(rng.randint(2 ** 31))
    game = ['ms_pacman', 'alien', 'seaquest', 'demon_attack'][ctx.idx % 4]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        env = ALE(game, seed=int(rng.randint(2 ** 31)),
                  treat_life_lost_as_terminal=bool(rng.randint(2)),
                  max_start_nullops=5000, frame_skip=int(rng.choice([1, 4])))
        over = [0]
        game_over = env.ale.game_over

        def watched():
            r = game_over()
            over[0] += bool(r)
            return r
        env.ale.game_over = watched
        for _ in range(8):
            env.reset()
            ctx.require(not game_over(), 'ale:starts-over', lambda: 'an '
                        'episode of {} starts when the game is already over'
                        .format(game))
            if env.step(0)[2]:
                ctx.count('ended at once')
        ctx.count('games over during null actions', over[0])
    ctx.sig(game, ctx.idx)


@chk.scenario(quick=300, thorough=8000)
def toy(ctx):
    """The toy environment follows its documented state machine."""
    rng = ctx.rng
    np.random.seed(rng.randint(2 ** 31))
    n = int(rng.randint(1, 6))
    discrete, partial, episodic, det = [bool(rng.randint(2))
                                        for _ in range(4)]
    env = ABC(size=n, discrete=discrete, partially_observable=partial,
              episodic=episodic, deterministic=det)
    what = dict(size=n, discrete=discrete, partially_observable=partial,
                episodic=episodic, deterministic=det)
    ctx.require(env.observation_space.shape == (n + 2,)
                and env.observation_space.dtype == np.float32,
                'abc:observation-space', lambda: repr(env.observation_space))
    if discrete:
        ctx.require(env.action_space == gym.spaces.Discrete(n),
                    'abc:action-space', lambda: repr(env.action_space))
    else:
        ctx.require(env.action_space.shape == (n,) and
                    np.all(env.action_space.low == -1) and
                    np.all(env.action_space.high == 1), 'abc:action-space',
                    lambda: repr(env.action_space))

    def check_obs(o, state, offset, when):
        ref = np.zeros(n + 2, 'f')
        ref[state + offset] = 1
        ctx.check(isinstance(o, np.ndarray) and o.dtype == np.float32
                  and o.shape == (n + 2,) and np.array_equal(o, ref),
                  'abc:observation', lambda: 'observed {} {} in state {} '
                  'shifted by {}; {}'.format(o, when, state, offset, what))

    episodes, offsets, kept = 0, [], []
    ends = set()
    chosen = []     # probability and outcome of stochastic actions
    for _ in range(int(rng.randint(3, 12))):
        o = env.reset()
        episodes += 1
        ctx.require(o.sum() == 1 and o[:2].sum() == 1, 'abc:initial',
                    lambda: 'initial observation {}'.format(o))
        offset = int(np.argmax(o))
        offsets.append(offset)
        if not partial:
            ctx.check(offset == 0, 'abc:shifted', lambda: 'observations are '
                      'shifted; {}'.format(what))
        state, done = 0, False
        check_obs(o, 0, offset, 'at reset')
        for t in range(int(rng.randint(1, 15))):
            kept.append((o, o.copy()))
            right = rng.rand() < .7
            if discrete:
                a = state if right or n == 1 else int(
                    (state + rng.randint(1, n)) % n)
                a = [a, np.int64(a), np.int32(a)][rng.randint(3)]
                inner = int(a)
            else:
                a = rng.uniform(-2, 2, n).astype('f')
                if right:
                    a[state] = 2.5
                a0 = a.copy()
                inner = None
                c = np.clip(a.astype('d'), -1, 1)
                if det:
                    best = np.flatnonzero(c == c.max())
                    inner = int(best[0]) if len(best) == 1 else None
                    if inner is None:
                        a = rng.permutation(n).astype('f') / n - .5
                        a0 = a.copy()
                        inner = int(np.argmax(a))
            o, r, done, info = env.step(a)
            ctx.count('steps')
            if not discrete:
                ctx.check(np.array_equal(a, a0), 'abc:action-changed',
                          'the action was changed')
            if inner is None:
                # stochastic: tell from the outcome whether it was correct
                p = np.exp(c[state]) / np.exp(c).sum()
                if episodic:
                    ok = not done or r == 1
                else:
                    new = int(np.argmax(o)) - offset
                    ok = new != state or n == 1 and r == 1
                if n > 1:
                    chosen.append((p, bool(ok)))
            else:
                ok = inner == state
            if ok and state == n - 1:
                want_r, want_done = 1., episodic
                state = n if episodic else 0
                ends.add('goal')
            elif ok:
                want_r, want_done = 0., False
                state += 1
            else:
                want_r, want_done = 0., episodic
                state = n if episodic else state
                ends.add('wrong')
            ctx.check(r == want_r, 'abc:reward', lambda: 'reward {} instead '
                      'of {}; {}'.format(r, want_r, what))
            ctx.check(bool(done) == want_done, 'abc:done', lambda: 'done {} '
                      'instead of {}; {}'.format(done, want_done, what))
            check_obs(o, state, offset, 'after a step')
            if done:
                break
    for o, c in kept:
        ctx.check(np.array_equal(o, c), 'abc:observation-changed',
                  'an observation changed after it was returned')
    if partial and det:
        ctx.check(all(x != y for x, y in zip(offsets, offsets[1:])),
                  'abc:offsets', lambda: 'shifts of deterministic episodes '
                  'are {}'.format(offsets))
    ctx.sig(n, discrete, partial, episodic, det, tuple(sorted(ends)))


@chk.scenario(quick=16, thorough=200)
def toy_random(ctx):
    """Random inner actions and shifts have the documented probabilities."""
    rng = ctx.rng
    np.random.seed(rng.randint(2 ** 31))
    n = int(rng.randint(2, 5))
    N = 2000
    env = ABC(size=n, discrete=False, episodic=True)
    a = rng.uniform(-2, 2, n).astype('f')
    k = 0
    for _ in range(N):
        env.reset()
        k += not env.step(a.copy())[2]
    c = np.clip(a.astype('d'), -1, 1)
    p = np.exp(c[0]) / np.exp(c).sum()
    stats_check(ctx, k, N, p, 'abc:softmax', 'action 0 with logits {}'.format(
        a))
    env = ABC(size=n, partially_observable=True)
    k = sum(int(np.argmax(env.reset())) for _ in range(N))
    stats_check(ctx, k, N, .5, 'abc:shift-probability', 'a shift')
    ctx.sig(n, tuple(np.round(a, 1)))


if __name__ == '__main__':
    raise SystemExit(chk.main())
