"""C02: episodic replay buffers hold whole episodes, exactly once."""
import collections
import sys

import numpy as np

from vlib.harness import Check
from vlib import stats
from chainerrl import replay_buffers

chk = Check('C02', rule=(
    'random histories of append / terminal append / stop_current_episode / '
    'sample / sample_episodes(max_len) / update_errors over 1-4 interleaved '
    'environments on the plain and the prioritized episodic buffer, bounded '
    'and unbounded; the complete content (all episodes and all transitions) '
    'is compared with an executable model.  Non-trivial: distinct (class, '
    'capacity, #env, stored episodes) states with at least one episode.'),
    assumptions=['default priority functions return positive numbers'])

ENV_IDS = [[0], [0, 1], [0, 1, 2, 3], ['a', ('b', 1), 7]]


class Model(object):
    def __init__(self, capacity):
        self.capacity = capacity
        self.episodes = collections.deque()
        self.cur = collections.defaultdict(list)
        self.evicted = 0

    @property
    def size(self):
        return sum(len(e) for e in self.episodes)

    def append(self, env, tr, terminal):
        self.cur[env].append(tr)
        if terminal:
            self.stop(env)

    def stop(self, env):
        if self.cur[env]:
            self.episodes.append(tuple(self.cur[env]))
            self.cur[env] = []
            while self.capacity is not None and self.size > self.capacity:
                self.episodes.popleft()
                self.evicted += 1


def fields(t):
    return (t['state'], t['action'], t['reward'], t['next_state'],
            t['next_action'], bool(t['is_state_terminal']), t.get('extra', 'missing'))


def make(ctx, kind, capacity):
    if kind == 'plain':
        return replay_buffers.EpisodicReplayBuffer(capacity=capacity), False
    rng = ctx.rng
    rw = bool(rng.randint(2))
    wait = bool(rng.randint(2))
    return replay_buffers.PrioritizedEpisodicReplayBuffer(
        capacity=capacity,
        uniform_ratio=[0, 0.3, 1.0][rng.randint(3)],
        default_priority_func=[None, lambda ep: 0.1 + len(ep)][
            rng.randint(2)],
        wait_priority_after_sampling=wait,
        return_sample_weights=rw,
        normalize_by_max=[True, False, 'memory'][rng.randint(3)],
        error_min=0, error_max=5), rw


def draw_episodes(ctx, buf, kind, rw, k, max_len):
    s = buf.sample_episodes(k, max_len=max_len) if max_len is not None \
        else buf.sample_episodes(k)
    if rw:
        s, w = s
        ctx.check(len(w) == k, 'weights-length',
                  '{} weights for {} episodes'.format(len(w), k))
    if kind != 'plain':
        buf.update_errors(list(ctx.rng.uniform(0, 2, size=k)))
    return [tuple(fields(t) for t in ep) for ep in s]


def compare(ctx, buf, model, kind, rw, where):
    ctx.require(buf.n_episodes == len(model.episodes), 'n-episodes', lambda: (
        '{} n_episodes={} expected={}'.format(
            where, buf.n_episodes, len(model.episodes))))
    ctx.require(len(buf) == model.size, 'length', lambda: (
        '{} len={} expected={}'.format(where, len(buf), model.size)))
    if model.capacity is not None:
        ctx.check(len(buf) <= model.capacity, 'capacity', where)
    if not model.episodes:
        return
    got = draw_episodes(ctx, buf, kind, rw, buf.n_episodes, None)
    ctx.count('full_content_comparisons')
    ctx.count('episodes_compared', len(got))
    ctx.require(
        collections.Counter(got) == collections.Counter(model.episodes),
        'episodes', lambda: '{} episodes={} expected={}'.format(
            where, got, list(model.episodes)))
    flat = buf.sample(len(buf))
    got = [tuple(fields(t) for t in w) for w in flat]
    want = collections.Counter(
        (t,) for ep in model.episodes for t in ep)
    ctx.require(collections.Counter(got) == want, 'transitions', lambda: (
        '{} transitions={} expected={}'.format(where, got, want)))


def check_partial(ctx, buf, model, kind, rw, where):
    rng = ctx.rng
    if model.episodes:
        k = rng.randint(1, len(model.episodes) + 1)
        max_len = [None, 1, 2, 3, 7, 50][rng.randint(6)]
        got = draw_episodes(ctx, buf, kind, rw, k, max_len)
        ctx.count('partial_draws')
        ctx.require(len(got) == k, 'sample-size', where)
        used = set()
        for sub in got:
            src = None
            for ei, ep in enumerate(model.episodes):
                if sub and sub[0] in ep:
                    i = ep.index(sub[0])
                    if ep[i:i + len(sub)] == sub:
                        src = ei
            ctx.require(src is not None, 'subsequence', lambda: (
                '{} sampled {} is not a contiguous part of one stored '
                'episode'.format(where, sub)))
            want = len(model.episodes[src])
            if max_len is not None:
                want = min(want, max_len)
            ctx.check(len(sub) == want, 'subsequence-length', lambda: (
                '{} max_len={} returned {} of an episode of {}'.format(
                    where, max_len, len(sub), len(model.episodes[src]))))
            ctx.check(src not in used, 'episode-drawn-twice', lambda: (
                '{} one draw of {} returned an episode twice'.format(
                    where, k)))
            used.add(src)
        k = rng.randint(1, model.size + 1)
        got = [tuple(fields(t) for t in w) for w in buf.sample(k)]
        held = set((t,) for ep in model.episodes for t in ep)
        ctx.check(len(got) == k and len(set(got)) == k, 'sample-duplicates',
                  where)
        ctx.check(set(got) <= held, 'sample-not-held', where)


@chk.scenario(quick=3000, thorough=40000)
def random_histories(ctx):
    rng = ctx.rng
    kind = ['plain', 'prioritized'][rng.randint(2)]
    capacity = [None, None, 1, 2, 3, 5, 8, 13, 40][rng.randint(9)]
    envs = ENV_IDS[rng.randint(len(ENV_IDS))]
    p_term = [0., .1, .3, .6, 1.][rng.randint(5)]
    p_stop = [0., .05, .2, .4][rng.randint(4)]
    n_ops = rng.randint(1, 80)
    where = 'kind={} capacity={} envs={} ops={} p_term={} p_stop={}'.format(
        kind, capacity, envs, n_ops, p_term, p_stop)
    buf, rw = make(ctx, kind, capacity)
    model = Model(capacity)
    for uid in range(n_ops):
        env = envs[rng.randint(len(envs))]
        if rng.rand() < p_stop:
            buf.stop_current_episode(env_id=env)
            model.stop(env)
            ctx.count('stops')
        else:
            terminal = bool(rng.rand() < p_term)
            tr = (('s', uid), ('a', uid), uid + .5,
                  None if terminal and rng.rand() < .5 else ('s', uid + 1),
                  None if rng.rand() < .5 else ('na', uid), terminal,
                  None if rng.rand() < .3 else ('x', uid))
            kw = {}
            if env != 0 or rng.rand() < .5:
                kw['env_id'] = env
            buf.append(state=tr[0], action=tr[1], reward=tr[2],
                       next_state=tr[3], next_action=tr[4],
                       is_state_terminal=terminal, extra=tr[6], **kw)
            model.append(env, tr, terminal)
            ctx.count('appends')
        ctx.require(len(buf) == model.size and
                    buf.n_episodes == len(model.episodes), 'length', lambda: (
                        '{} op {}: len={} n_episodes={} expected {} {}'.format(
                            where, uid, len(buf), buf.n_episodes, model.size,
                            len(model.episodes))))
        if rng.rand() < .2:
            compare(ctx, buf, model, kind, rw, where)
        if rng.rand() < .2:
            check_partial(ctx, buf, model, kind, rw, where)
    for env in envs:
        if rng.rand() < .7:
            buf.stop_current_episode(env_id=env)
            model.stop(env)
    compare(ctx, buf, model, kind, rw, where + ' final')
    check_partial(ctx, buf, model, kind, rw, where + ' final')
    ctx.count('evicted_episodes', model.evicted)
    if model.episodes:
        ctx.sig(kind, capacity, len(envs), list(model.episodes))
    ctx.sample('{} -> {} episodes, {} transitions, {} evicted'.format(
        where, len(model.episodes), model.size, model.evicted))


@chk.scenario(quick=24, thorough=100)
def subsequence_positions(ctx):
    """Every admissible start of a bounded subsequence is equally likely."""
    rng = ctx.rng
    kind = ['plain', 'prioritized'][ctx.idx % 2]
    buf = (replay_buffers.EpisodicReplayBuffer() if kind == 'plain' else
           replay_buffers.PrioritizedEpisodicReplayBuffer(
               wait_priority_after_sampling=False,
               return_sample_weights=False))
    length = int(rng.randint(2, 9))
    max_len = int(rng.randint(1, length))
    for i in range(length):
        buf.append(state=i, action=0, reward=0., next_state=i + 1,
                   is_state_terminal=i == length - 1)
    counts = np.zeros(length - max_len + 1)
    draws = 2000
    for _ in range(draws):
        ep, = buf.sample_episodes(1, max_len=max_len)
        start = ep[0]['state']
        ctx.require([t['state'] for t in ep] ==
                    list(range(start, start + max_len)), 'subsequence',
                    lambda: '{}'.format([t['state'] for t in ep]))
        counts[start] += 1
    p = stats.chisq_p(counts, np.ones(len(counts)))
    ctx.check(p > stats.P_ALARM and counts.min() > 0,
              'subsequence-not-uniform',
              'len={} max_len={} counts={}'.format(
                  length, max_len, counts.tolist()))
    ctx.sig(kind, length, max_len)


@chk.scenario(quick=16, thorough=60)
def uniform_episode_draws(ctx):
    rng = ctx.rng
    n = int(rng.choice([2, 5, 9, 20]))
    k = int(rng.randint(1, min(n, 6) + 1))
    buf = replay_buffers.EpisodicReplayBuffer()
    for e in range(n):
        length = rng.randint(1, 5)
        for i in range(length):
            buf.append(state=(e, i), action=0, reward=0., next_state=0,
                       is_state_terminal=i == length - 1)
    counts = np.zeros(n)
    draws = 2000
    for _ in range(draws):
        ids = [ep[0]['state'][0] for ep in buf.sample_episodes(k)]
        counts[ids] += 1
    p = stats.inclusion_p(counts, draws, [k / float(n)] * n)
    ctx.check(p > stats.P_ALARM, 'not-uniform', 'n={} k={} counts={}'.format(
        n, k, counts.tolist()))
    ctx.sig(n, k)


if __name__ == '__main__':
    sys.exit(chk.main())
