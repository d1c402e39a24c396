"""C04: a saved replay buffer comes back with the same content and behaviour."""
import collections
import os
import sys

import numpy as np

from vlib.harness import Check
from chainerrl import replay_buffers

chk = Check('C04', rule=(
    'random histories on each of the four replay buffers, saved to disk at a '
    'random point and loaded into a freshly configured twin; content is '
    'compared, then original and twin are driven with the same operations '
    'and random state and every observable result must coincide (capacity '
    'bound included).  Non-trivial: distinct (class, configuration, content) '
    'at save time, with content.'),
    assumptions=['the twin is constructed with the same arguments as the '
                 'saved buffer; transitions of episodes still under way and '
                 'the annealing position of the importance weights are not '
                 'part of the saved content'])


def fields(t):
    return (t['state'], t['action'], t['reward'], t['next_state'],
            t['next_action'], bool(t['is_state_terminal']), t.get('extra'))


def windows(sample):
    return [tuple(fields(t) for t in w) for w in sample]


CLASSES = ['uniform', 'prioritized', 'episodic', 'prio_episodic']


def maker(rng, kind):
    cap = [None, 1, 3, 6, 17, 40][rng.randint(6)]
    if kind == 'uniform':
        kw = dict(capacity=cap, num_steps=int(rng.randint(1, 4)))
        return lambda: replay_buffers.ReplayBuffer(**kw), kw
    if kind == 'prioritized':
        kw = dict(capacity=cap, num_steps=int(rng.randint(1, 4)),
                  betasteps=None, beta0=float(rng.rand()),
                  alpha=float(rng.choice([.5, 1.])),
                  normalize_by_max=[True, False, 'memory'][rng.randint(3)])
        return lambda: replay_buffers.PrioritizedReplayBuffer(**kw), kw
    if kind == 'episodic':
        kw = dict(capacity=cap)
        return lambda: replay_buffers.EpisodicReplayBuffer(**kw), kw
    kw = dict(capacity=cap, betasteps=None, beta0=float(rng.rand()),
              normalize_by_max=[True, False, 'memory'][rng.randint(3)],
              wait_priority_after_sampling=bool(rng.randint(2)),
              uniform_ratio=[0, .4][rng.randint(2)],
              error_min=0, error_max=3.)
    return lambda: replay_buffers.PrioritizedEpisodicReplayBuffer(**kw), kw


def append(buf, uid, env, terminal):
    buf.append(state=('s', uid), action=uid, reward=float(uid),
               next_state=('s', uid + 1), next_action=uid + 1,
               is_state_terminal=terminal, env_id=env, extra=('x', uid))


def observe(ctx, buf, kind, seed, k_frac, max_len):
    """Draw with a fixed random state; returns everything observable."""
    n = len(buf)
    out = [n]
    np.random.seed(seed)
    r = np.random.RandomState(seed)
    if kind in ('uniform', 'prioritized'):
        if n:
            k = max(1, int(n * k_frac))
            s = buf.sample(k)
            out.append(windows(s))
            if kind == 'prioritized':
                out.append([round(float(w[0]['weight']), 9) for w in s])
                buf.update_errors(list(r.uniform(0, 2, size=k)))
    else:
        m = buf.n_episodes
        out.append(m)
        if n:
            out.append(windows(buf.sample(max(1, int(n * k_frac)))))
        if m:
            k = max(1, int(m * k_frac))
            s = buf.sample_episodes(k, max_len=max_len)
            if kind == 'prio_episodic':
                s, w = s
                out.append([round(float(x), 9) for x in w])
                buf.update_errors(list(r.uniform(0, 2, size=k)))
            out.append(windows(s))
    return out


def content(ctx, buf, kind):
    """Complete held content, as a multiset (order of a draw is random)."""
    if kind == 'uniform':
        return collections.Counter(windows(buf.sample(len(buf)))) \
            if len(buf) else None
    if kind == 'prioritized':
        if not len(buf):
            return None
        c = collections.Counter(windows(buf.sample(len(buf))))
        buf.update_errors([1.] * len(buf))
        return c
    if not buf.n_episodes:
        return None
    s = buf.sample_episodes(buf.n_episodes)
    if kind == 'prio_episodic':
        s = s[0]
        buf.update_errors([1.] * buf.n_episodes)
    return (collections.Counter(windows(s)),
            collections.Counter(windows(buf.sample(len(buf)))))


@chk.scenario(quick=1500, thorough=20000)
def save_load_continue(ctx):
    rng = ctx.rng
    kind = CLASSES[ctx.idx % 4]
    make, kw = maker(rng, kind)
    where = '{} {}'.format(kind, kw)
    buf = make()
    n_envs = rng.randint(1, 3)
    uid = 0
    for op in range(rng.randint(0, 70)):
        env = rng.randint(n_envs)
        if rng.rand() < .05:
            buf.stop_current_episode(env_id=env)
        else:
            append(buf, uid, env, bool(rng.rand() < .2))
            uid += 1
        if rng.rand() < .15:
            observe(ctx, buf, kind, rng.randint(2 ** 31), .5, None)
    clean = bool(rng.rand() < .7)
    if clean:
        for env in range(n_envs):
            buf.stop_current_episode(env_id=env)
    pending = 0
    if kind.startswith('prio') and rng.rand() < .4:
        # saved between a draw and the report of its errors
        m = len(buf) if kind == 'prioritized' else buf.n_episodes
        if m:
            pending = int(rng.randint(1, m + 1))
            if kind == 'prioritized':
                buf.sample(pending)
            else:
                buf.sample_episodes(pending)
            ctx.count('saved_before_error_report')
    path = os.path.join(ctx.tmp, 'buf.pkl')
    buf.save(path)
    twin = make()
    if rng.rand() < .3:
        # loading replaces whatever finished content the twin had
        for i in range(rng.randint(1, 5)):
            append(twin, 10 ** 6 + i, 0, True)
    twin.load(path)
    ctx.require(len(twin) == len(buf), 'length', lambda: (
        '{}: {} after load, {} saved'.format(where, len(twin), len(buf))))
    gens = 1
    if rng.rand() < .3:
        path2 = os.path.join(ctx.tmp, 'buf2.pkl')
        twin.save(path2)
        twin = make()
        twin.load(path2)
        gens = 2
    if pending:
        errors = [float(e) for e in rng.uniform(0, 2, size=pending)]
        buf.update_errors(list(errors))
        twin.update_errors(list(errors))
    # lock-step continuation
    n_ops = rng.randint(10, 60)
    appended = 0
    for op in range(n_ops):
        if op and rng.rand() < .6:
            if clean:
                env = rng.randint(n_envs)
                term = bool(rng.rand() < .25)
                stop = rng.rand() < .1
                for b in (buf, twin):
                    if stop:
                        b.stop_current_episode(env_id=env)
                    else:
                        append(b, uid, env, term)
                uid += 1
                appended += 1
        s = rng.randint(2 ** 31)
        kf = rng.rand()
        ml = [None, 2][rng.randint(2)]
        a = observe(ctx, buf, kind, s, kf, ml)
        b = observe(ctx, twin, kind, s, kf, ml)
        ctx.count('lockstep_observations')
        ctx.require(a == b, 'continuation', lambda: (
            '{} (generation {}): after {} further appends, original '
            'shows {} and the reloaded buffer {}'.format(
                where, gens, appended, a, b)))
    a, b = content(ctx, buf, kind), content(ctx, twin, kind)
    ctx.check(a == b, 'content', lambda: '{}: original {} reloaded {}'.format(
        where, a, b))
    if kw['capacity'] is not None:
        ctx.check(len(twin) <= kw['capacity'], 'capacity', lambda: (
            '{}: {} items after reload'.format(where, len(twin))))
    if a:
        ctx.sig(where, a)
    ctx.sample('{} clean={} saved {} items, {} appends in lock-step'.format(
        where, clean, len(buf), appended))


@chk.scenario(quick=60, thorough=500)
def independent_after_load(ctx):
    """The file is a snapshot: later changes do not leak either way."""
    rng = ctx.rng
    kind = CLASSES[ctx.idx % 4]
    make, kw = maker(rng, kind)
    buf = make()
    for i in range(rng.randint(1, 30)):
        append(buf, i, 0, bool(rng.rand() < .3))
    buf.stop_current_episode()
    path = os.path.join(ctx.tmp, 'b.pkl')
    before = content(ctx, buf, kind)
    buf.save(path)
    for i in range(100, 130):
        append(buf, i, 0, True)
    twin = make()
    twin.load(path)
    ctx.check(content(ctx, twin, kind) == before, 'snapshot',
              '{} {}'.format(kind, kw))
    if before:
        ctx.sig(kind, kw, before)


if __name__ == '__main__':
    sys.exit(chk.main())
