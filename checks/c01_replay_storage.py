"""C01: transition replay buffers hold exactly the right n-step windows."""
import collections
import sys

import numpy as np

from vlib.harness import Check
from vlib import stats
from chainerrl import replay_buffers

chk = Check('C01', rule=(
    'random histories of append / stop_current_episode / sample / '
    'update_errors over 1-4 interleaved environment ids, n-step 1-6, bounded '
    'and unbounded capacities, uniform and prioritized buffers; after every '
    'few operations the complete held content (drawn with sample(len)) is '
    'compared with an executable model.  Non-trivial: distinct (class, n, '
    'capacity, #env, content) states that contain at least one window.'),
    assumptions=['environment ids are hashable and a stream is stopped or '
                 'terminated before a new episode of it starts'])

ENV_IDS = [[0], [0, 1], [0, 1, 2, 3], ['a', ('b', 1), 7], [-1, 0, 1.5, 'x']]


class Model(object):
    """Reference: windows appended in completion order, bounded FIFO."""

    def __init__(self, n, capacity):
        self.n = n
        self.mem = collections.deque(maxlen=capacity)
        self.pending = collections.defaultdict(list)
        self.evicted = 0

    def emit(self, window):
        if self.mem.maxlen is not None and len(self.mem) == self.mem.maxlen:
            self.evicted += 1
        self.mem.append(tuple(window))

    def append(self, env, tr, terminal):
        p = self.pending[env]
        p.append(tr)
        if terminal:
            self.stop(env)
        elif len(p) == self.n:
            self.emit(p)
            del p[0]

    def stop(self, env):
        p = self.pending[env]
        while p:
            self.emit(p)
            del p[0]


def fields(t):
    return (t['state'], t['action'], t['reward'], t['next_state'],
            t['next_action'], bool(t['is_state_terminal']), t.get('extra', 'missing'))


def make(ctx, kind, n, capacity):
    if kind == 'uniform':
        return replay_buffers.ReplayBuffer(capacity=capacity, num_steps=n)
    return replay_buffers.PrioritizedReplayBuffer(
        capacity=capacity, num_steps=n,
        normalize_by_max=[True, False, 'memory'][ctx.rng.randint(3)])


def draw(ctx, buf, kind, k):
    s = buf.sample(k)
    if kind != 'uniform':
        buf.update_errors(list(ctx.rng.uniform(0, 2, size=k)))
    return s


def history(ctx, kind, n, capacity, envs, n_ops, p_term, p_stop, where):
    rng = ctx.rng
    buf = make(ctx, kind, n, capacity)
    model = Model(n, capacity)
    uid = 0
    obs = {}
    for op in range(n_ops):
        env = envs[rng.randint(len(envs))]
        u = rng.rand()
        if u < p_stop:
            ctx.count('stops')
            # stop is only meaningful for an episode that is under way, but a
            # redundant one must not do anything either
            buf.stop_current_episode(env_id=env)
            model.stop(env)
            obs.pop(env, None)
        else:
            terminal = bool(rng.rand() < p_term)
            s = obs.get(env, ('s', uid, 'init'))
            ns = ('s', uid, 'next')
            tr = (s, ('a', uid), float(uid) + 0.5,
                  None if terminal and rng.rand() < .5 else ns,
                  None if rng.rand() < .5 else ('na', uid), terminal,
                  None if rng.rand() < .3 else ('x', uid))
            kw = {}
            if env != 0 or rng.rand() < .5:
                kw['env_id'] = env
            if not terminal and rng.rand() < .3:
                pass  # rely on the default of is_state_terminal
            else:
                kw['is_state_terminal'] = terminal
            buf.append(state=tr[0], action=tr[1], reward=tr[2],
                       next_state=tr[3], next_action=tr[4], extra=tr[6], **kw)
            model.append(env, tr, terminal)
            ctx.count('appends')
            uid += 1
            if terminal:
                obs.pop(env, None)
            else:
                obs[env] = ns
        ctx.require(len(buf) == len(model.mem), 'length', lambda: (
            '{} len {} expected {} after op {} ({})'.format(
                kind, len(buf), len(model.mem), op, where)))
        if capacity is not None:
            ctx.check(len(buf) <= capacity, 'capacity', where)
        if rng.rand() < .25 or op == n_ops - 1:
            compare(ctx, buf, model, kind, where)
        if rng.rand() < .15 and len(buf):
            k = rng.randint(1, len(buf) + 1)
            check_draw(ctx, draw(ctx, buf, kind, k), model, k, where)
    if rng.rand() < .7:
        for env in envs:
            buf.stop_current_episode(env_id=env)
            model.stop(env)
        compare(ctx, buf, model, kind, where + ' final')
    ctx.count('evictions', model.evicted)
    if model.mem:
        ctx.sig(kind, n, capacity, len(envs), list(model.mem))
    ctx.sample('{} -> {} windows held, {} evicted'.format(
        where, len(model.mem), model.evicted))


def windows_of(sample):
    return [tuple(fields(t) for t in w) for w in sample]


def compare(ctx, buf, model, kind, where):
    if len(buf) == 0:
        ctx.check(len(model.mem) == 0, 'length', where)
        return
    got = windows_of(draw(ctx, buf, kind, len(buf)))
    ctx.count('full_content_comparisons')
    ctx.count('windows_compared', len(got))
    want = list(model.mem)
    if collections.Counter(got) != collections.Counter(want):
        missing = [w for w in want if w not in got][:3]
        extra = [w for w in got if w not in want][:3]
        dup = [w for w, c in collections.Counter(got).items() if c > 1][:3]
        ctx.fatal('content', '{}: missing={} unexpected={} duplicated={}'
                  .format(where, missing, extra, dup))
    ctx.check(True, 'content')


def check_draw(ctx, sample, model, k, where):
    got = windows_of(sample)
    ctx.check(len(got) == k, 'sample-size', where)
    ctx.check(len(set(got)) == len(got), 'sample-duplicates', lambda: (
        '{} sample({}) returned a window twice: {}'.format(where, k, got)))
    held = set(model.mem)
    ctx.check(all(w in held for w in got), 'sample-not-held', lambda: (
        '{} sampled a window that is not held: {}'.format(
            where, [w for w in got if w not in held][:2])))
    ctx.count('partial_draws')


@chk.scenario(quick=3000, thorough=40000)
def random_histories(ctx):
    rng = ctx.rng
    kind = ['uniform', 'prioritized'][rng.randint(2)]
    n = rng.randint(1, 7)
    capacity = [None, None, 1, 2, 3, 5, 8, 13, 40][rng.randint(9)]
    envs = ENV_IDS[rng.randint(len(ENV_IDS))]
    p_term = [0., .05, .2, .5, 1.][rng.randint(5)]
    p_stop = [0., .05, .2][rng.randint(3)]
    n_ops = rng.randint(1, 90)
    history(ctx, kind, n, capacity, envs, n_ops, p_term, p_stop,
            'kind={} n={} capacity={} envs={} ops={} p_term={} p_stop={}'
            .format(kind, n, capacity, envs, n_ops, p_term, p_stop))


@chk.scenario(quick=8, thorough=60)
def long_histories(ctx):
    """Large buffers, thousands of appends: eviction across many epochs."""
    rng = ctx.rng
    kind = ['uniform', 'prioritized'][ctx.idx % 2]
    n = [1, 3][rng.randint(2)]
    capacity = int(rng.choice([64, 100, 257]))
    envs = [0, 1]
    buf = make(ctx, kind, n, capacity)
    model = Model(n, capacity)
    for uid in range(capacity * 6):
        env = envs[rng.randint(2)]
        terminal = bool(rng.rand() < .05)
        tr = (uid, uid, float(uid), uid + 1, None, terminal, 'missing')
        buf.append(state=uid, action=uid, reward=float(uid),
                   next_state=uid + 1, is_state_terminal=terminal,
                   env_id=env)
        model.append(env, tr, terminal)
        ctx.count('appends')
        if uid % 37 == 0 and len(buf):
            compare(ctx, buf, model, kind, 'long n={} cap={}'.format(
                n, capacity))
    ctx.sig(kind, n, capacity, list(model.mem)[:5])


@chk.scenario(quick=24, thorough=120)
def uniform_draws(ctx):
    """sample(k) includes every held window with probability k / len."""
    rng = ctx.rng
    size = int(rng.choice([3, 7, 12, 20, 40]))
    k = int(rng.randint(1, max(2, min(size, 8))))
    extra = rng.randint(0, 15)
    buf = replay_buffers.ReplayBuffer(capacity=size, num_steps=1)
    for uid in range(size + extra):
        buf.append(state=uid, action=0, reward=0., next_state=uid + 1)
    draws = 3000 if ctx.tier == 'quick' else 10000
    counts = np.zeros(size)
    for _ in range(draws):
        ids = [w[0]['state'] - extra for w in buf.sample(k)]
        if len(set(ids)) != k or min(ids) < 0 or max(ids) >= size:
            ctx.fatal('sample-duplicates', 'size={} k={} drew {}'.format(
                size, k, ids))
        counts[ids] += 1
    p = stats.inclusion_p(counts, draws, [k / float(size)] * size)
    ctx.count('uniformity_draws', draws)
    ctx.check(p > stats.P_ALARM, 'not-uniform',
              'size={} k={} draws={} counts={} p={}'.format(
                  size, k, draws, counts.tolist(), p))
    ctx.sig(size, k, extra)


@chk.scenario(quick=12, thorough=60)
def uniform_large_population(ctx):
    """The population is much larger than the draw (rejection path)."""
    rng = ctx.rng
    size = int(rng.choice([30, 100, 200]))
    k = int(rng.choice([2, 3, size // 4, size // 3 - 1]))
    buf = replay_buffers.ReplayBuffer(capacity=None, num_steps=1)
    for uid in range(size):
        buf.append(state=uid, action=0, reward=0., next_state=uid + 1)
    counts = np.zeros(size)
    draws = 2000 if ctx.tier == 'quick' else 8000
    for _ in range(draws):
        ids = [w[0]['state'] for w in buf.sample(k)]
        if len(set(ids)) != k:
            ctx.fatal('sample-duplicates', 'size={} k={} drew {}'.format(
                size, k, ids))
        counts[ids] += 1
    p = stats.inclusion_p(counts, draws, [k / float(size)] * size)
    ctx.check(p > stats.P_ALARM, 'not-uniform',
              'size={} k={} counts={} p={}'.format(
                  size, k, counts.tolist(), p))
    ctx.sig(size, k)


if __name__ == '__main__':
    sys.exit(chk.main())
