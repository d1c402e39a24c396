"""C03: prioritized sampling: distribution, weights, error updates."""
import collections
import sys

import numpy as np

from vlib.harness import Check
from vlib import stats
from chainerrl import replay_buffers
from chainerrl.misc.prioritized import PrioritizedBuffer
from chainerrl.misc.prioritized import SumTree

chk = Check('C03', rule=(
    'random histories of append (with eviction), draw and error report on '
    'both prioritized buffers and on the underlying prioritized queue, over '
    'alpha/beta/eps/clipping/normalisation/uniform-mix configurations.  The '
    'weight of every drawn item reveals its selection probability, which is '
    'compared with a model priority list; draw frequencies are compared with '
    'exact inclusion probabilities.  Non-trivial: distinct histories in which '
    'at least one draw was compared after a priority update.'),
    assumptions=['errors are reported right after the draw they belong to',
                 'priorities are positive'])


class PModel(object):
    """List of (item, priority)."""

    def __init__(self, capacity=None, initial=1.0):
        self.items = collections.OrderedDict()
        self.capacity = capacity
        self.maxp = initial

    def append(self, item, priority=None):
        if self.capacity is not None and len(self.items) == self.capacity:
            self.items.popitem(last=False)
        self.items[item] = self.maxp if priority is None else priority

    def update(self, item, p):
        self.items[item] = p
        self.maxp = max(self.maxp, p)

    def total(self):
        return float(sum(self.items.values()))


def draw_config(rng):
    return dict(
        alpha=[0., .5, .6, 1., 2.][rng.randint(5)],
        beta0=[0., .4, .7, 1.][rng.randint(4)],
        betasteps=[None, 1, 3, 10, 100.5][rng.randint(5)],
        eps=[.01, 1e-3, .5][rng.randint(3)],
        normalize_by_max=[True, 'batch', 'memory', False][rng.randint(4)],
        error_min=[0, None, .1][rng.randint(3)],
        error_max=[1, None, 2., 0][rng.choice(4, p=[.3, .3, .3, .1])])


def prio(cfg, e):
    if cfg['error_min'] is not None:
        e = max(cfg['error_min'], e)
    if cfg['error_max'] is not None:
        e = min(cfg['error_max'], e)
    return (e + cfg['eps']) ** cfg['alpha']


class Beta(object):
    def __init__(self, cfg):
        self.v = cfg['beta0']
        self.add = 0 if cfg['betasteps'] is None else \
            (1. - cfg['beta0']) / cfg['betasteps']

    def step(self):
        v = self.v
        self.v = min(1., self.v + self.add)
        return v


def expected_weights(cfg, probs_batch, min_all, n, beta):
    norm = cfg['normalize_by_max']
    p = np.array(probs_batch, dtype=float)
    if norm in (True, 'batch'):
        return (p / p.min()) ** -beta
    if norm == 'memory':
        return (p / min_all) ** -beta
    return (n * p) ** -beta


def draw_errors(rng, k):
    mode = rng.randint(4)
    if mode == 0:
        return list(rng.uniform(0, 3, size=k))
    if mode == 1:
        return [float(x) for x in rng.choice([0., 0., 5.], size=k)]
    if mode == 2:
        return list(10. ** rng.uniform(-6, 2, size=k))
    return list(np.abs(rng.standard_cauchy(size=k)).clip(0, 1e4))


@chk.scenario(quick=4000, thorough=40000)
def transition_weights(ctx):
    rng = ctx.rng
    cfg = draw_config(rng)
    capacity = [None, 1, 2, 5, 16, 33][rng.randint(6)]
    n_step = [1, 1, 3][rng.randint(3)]
    buf = replay_buffers.PrioritizedReplayBuffer(
        capacity=capacity, num_steps=n_step, **cfg)
    model = PModel(capacity)
    beta = Beta(cfg)
    uid = 0
    pend = []
    updates = 0
    for op in range(rng.randint(5, 60)):
        if rng.rand() < .6 or not model.items:
            term = bool(rng.rand() < .1)
            buf.append(state=uid, action=0, reward=0., next_state=uid + 1,
                       is_state_terminal=term)
            pend.append(uid)
            uid += 1
            if term:
                for i in pend:
                    model.append(i)
                pend = []
            elif len(pend) == n_step:
                model.append(pend.pop(0))
        else:
            k = rng.randint(1, len(model.items) + 1)
            sample = buf.sample(k)
            b = beta.step()
            ids = [w[0]['state'] for w in sample]
            ctx.require(len(set(ids)) == k, 'duplicates', lambda: (
                '{} drew {}'.format(cfg, ids)))
            ctx.require(set(ids) <= set(model.items), 'not-held',
                        lambda: '{} drew {}'.format(cfg, ids))
            tot = model.total()
            pb = [model.items[i] / tot for i in ids]
            want = expected_weights(
                cfg, pb, min(model.items.values()) / tot,
                len(model.items), b)
            got = [w[0]['weight'] for w in sample]
            ctx.close(got, want, 'weights', lambda: (
                'cfg={} capacity={} ids={} beta={} priorities={}'.format(
                    cfg, capacity, ids, b, dict(model.items))),
                rtol=1e-5, atol=1e-9)
            errs = draw_errors(rng, k)
            if rng.rand() < .3:
                errs = np.array(errs, dtype=np.float32)
            buf.update_errors(errs)
            for i, e in zip(ids, errs):
                model.update(i, prio(cfg, e))
            updates += 1
            ctx.count('draws_compared')
    if updates >= 2:
        ctx.sig(sorted(cfg.items(), key=str), capacity, dict(model.items))
    ctx.sample('cfg={} capacity={} n_step={} -> {} draws compared'.format(
        cfg, capacity, n_step, updates))


@chk.scenario(quick=2500, thorough=25000)
def episode_weights(ctx):
    rng = ctx.rng
    cfg = draw_config(rng)
    wait = bool(rng.randint(2))
    u = [0, 0, .25, 1.][rng.randint(4)]
    dpf = [None, lambda ep: .5 + 2. * ep[0]['state'] % 3][rng.randint(2)]
    buf = replay_buffers.PrioritizedEpisodicReplayBuffer(
        wait_priority_after_sampling=wait, uniform_ratio=u,
        default_priority_func=dpf, return_sample_weights=True, **cfg)
    model = PModel()
    beta = Beta(cfg)
    uid = 0
    updates = 0
    for op in range(rng.randint(5, 40)):
        if rng.rand() < .6 or not model.items:
            n = rng.randint(1, 4)
            for i in range(n):
                buf.append(state=uid, action=0, reward=0.,
                           next_state=uid + 1, is_state_terminal=i == n - 1,
                           first=i == 0)
                if i == 0:
                    first = uid
                uid += 1
            model.append(first, None if dpf is None else
                         dpf([{'state': first}]))
        else:
            k = rng.randint(1, len(model.items) + 1)
            sample, got = buf.sample_episodes(k)
            b = beta.step()
            ids = [ep[0]['state'] for ep in sample]
            ctx.require(len(set(ids)) == k, 'duplicates', lambda: (
                'wait={} u={} drew {}'.format(wait, u, ids)))
            n = len(model.items)
            tot = model.total()

            def mix(p):
                return u / n + (1 - u) * p / tot
            want = expected_weights(
                cfg, [mix(model.items[i]) for i in ids],
                mix(min(model.items.values())), n, b)
            ctx.close(got, want, 'weights', lambda: (
                'cfg={} wait={} u={} ids={} beta={} priorities={}'.format(
                    cfg, wait, u, ids, b, dict(model.items))),
                rtol=1e-5, atol=1e-9)
            ctx.count('draws_compared')
            if wait or rng.rand() < .5:
                errs = draw_errors(rng, k)
                buf.update_errors(errs)
                for i, e in zip(ids, errs):
                    model.update(i, prio(cfg, e))
                updates += 1
    if updates:
        ctx.sig(sorted(cfg.items(), key=str), wait, u, dict(model.items))


def inclusion2(p):
    """Inclusion probabilities of two sequential weighted draws."""
    p = np.asarray(p, dtype=float)
    p = p / p.sum()
    q = p.copy()
    for i in range(len(p)):
        for j in range(len(p)):
            if i != j:
                q[i] += p[j] * p[i] / (1 - p[j])
    return q


@chk.scenario(quick=40, thorough=200)
def draw_frequencies(ctx):
    """Items are drawn proportionally to priority, without replacement."""
    rng = ctx.rng
    n = int(rng.choice([2, 3, 5, 9, 17, 40]))
    k = int(rng.choice([1, 2]))
    offset = rng.randint(0, 40)
    buf = replay_buffers.PrioritizedReplayBuffer(
        capacity=n, alpha=1., beta0=.5, betasteps=None, eps=1e-3,
        error_min=0, error_max=None)
    for uid in range(n + offset):
        buf.append(state=uid, action=0, reward=0., next_state=0)
    errs = dict((uid + offset, float(e)) for uid, e in enumerate(
        rng.choice([0., .1, 1., 4.], size=n)))
    ids = [w[0]['state'] for w in buf.sample(n)]
    buf.update_errors([errs[i] for i in ids])
    order = sorted(errs)
    p = np.array([errs[i] + 1e-3 for i in order])
    p = p / p.sum()
    want = p if k == 1 else inclusion2(p)
    counts = np.zeros(n)
    draws = 3000 if ctx.tier == 'quick' else 10000
    for _ in range(draws):
        ids = [w[0]['state'] for w in buf.sample(k)]
        buf.update_errors([errs[i] for i in ids])
        for i in ids:
            counts[i - offset] += 1
    pv = stats.inclusion_p(counts, draws, want)
    ctx.count('frequency_draws', draws)
    ctx.check(pv > stats.P_ALARM, 'frequencies', lambda: (
        'n={} k={} offset={} counts={} expected={} p={}'.format(
            n, k, offset, counts.tolist(), (want * draws).tolist(), pv)))
    ctx.sig(n, k, offset, errs)


@chk.scenario(quick=24, thorough=120)
def mixed_episode_frequencies(ctx):
    """Uniform / prioritized mixing ratio of episode draws."""
    rng = ctx.rng
    n = int(rng.choice([2, 4, 9, 20]))
    u = float(rng.choice([0., .1, .5, 1.]))
    wait = bool(rng.randint(2))
    pr = rng.choice([.01, .1, 1., 4.], size=n)
    buf = replay_buffers.PrioritizedEpisodicReplayBuffer(
        uniform_ratio=u, wait_priority_after_sampling=wait, eps=0., alpha=1.,
        default_priority_func=lambda ep: pr[ep[0]['state']],
        return_sample_weights=False)
    for e in range(n):
        buf.append(state=e, action=0, reward=0., is_state_terminal=True)
    p = pr / pr.sum()
    want = u / n + (1 - u) * p
    counts = np.zeros(n)
    draws = 3000 if ctx.tier == 'quick' else 10000
    for _ in range(draws):
        ep, = buf.sample_episodes(1)
        i = ep[0]['state']
        counts[i] += 1
        if wait:
            buf.update_errors([pr[i]])
    pv = stats.inclusion_p(counts, draws, want)
    ctx.check(pv > stats.P_ALARM, 'mixed-frequencies', lambda: (
        'n={} u={} wait={} counts={} expected={} p={}'.format(
            n, u, wait, counts.tolist(), (want * draws).tolist(), pv)))
    ctx.sig(n, u, wait, pr.tolist())


@chk.scenario(quick=800, thorough=6000)
def queue_histories(ctx):
    """The prioritized queue against a list under append/popleft/update."""
    rng = ctx.rng
    capacity = [None, 3, 8, 50][rng.randint(4)]
    initial = float(rng.choice([1., .1, 5.]))
    wait = bool(rng.randint(2))
    q = PrioritizedBuffer(capacity=capacity, initial_max_priority=initial,
                          wait_priority_after_sampling=wait)
    model = PModel(capacity, initial)
    uid = 0
    n_ops = 150
    p_pop = [.02, .2, .45][rng.randint(3)]
    drawn = 0
    for op in range(n_ops):
        r = rng.rand()
        if r < p_pop and model.items:
            got = q.popleft()
            want, _ = model.items.popitem(last=False)
            ctx.require(got == want, 'popleft', lambda: (
                'popleft returned {} expected {}'.format(got, want)))
        elif r < .8 or not model.items:
            p = None if rng.rand() < .5 else float(
                10 ** rng.uniform(-3, 3))
            q.append(uid, priority=p)
            model.append(uid, p)
            uid += 1
        else:
            k = rng.randint(1, len(model.items) + 1)
            u = [0, .3][rng.randint(2)]
            ids, probs, min_prob = q.sample(k, uniform_ratio=u)
            ctx.require(len(set(ids)) == k and set(ids) <= set(model.items),
                        'queue-draw', lambda: '{} of {}'.format(
                            ids, list(model.items)))
            n, tot = len(model.items), model.total()
            want = [u / n + (1 - u) * model.items[i] / tot for i in ids]
            ctx.close(probs, want, 'probabilities', lambda: (
                'ids={} priorities={}'.format(ids, dict(model.items))),
                rtol=1e-6, atol=0)
            ctx.close(min_prob, u / n + (1 - u) * min(
                model.items.values()) / tot, 'min-probability', lambda: (
                'priorities={}'.format(dict(model.items))),
                rtol=1e-6, atol=0)
            drawn += 1
            if wait or rng.rand() < .5:
                new = [float(10 ** rng.uniform(-3, 3)) for _ in ids]
                q.set_last_priority(new)
                for i, p in zip(ids, new):
                    model.update(i, p)
        ctx.require(len(q) == len(model.items), 'queue-length', '')
    ctx.count('draws_compared', drawn)
    if drawn:
        ctx.sig(capacity, initial, wait, dict(model.items))


@chk.scenario(quick=60, thorough=600)
def sum_tree(ctx):
    """The (deprecated) SumTree: a sparse list with weighted sampling."""
    rng = ctx.rng
    t = SumTree()
    d = {}
    span = int(rng.choice([3, 12, 100]))
    for _ in range(int(rng.randint(5, 80))):
        i = int(rng.randint(-span, span + 1))
        if d and rng.rand() < .15:
            i = sorted(d)[rng.randint(len(d))]
            del t[i]
            d[i] = 0.
        else:
            d[i] = float(rng.choice([0., .5, 1., 4.]) * (1 + rng.rand()))
            t[i] = d[i]
        j = sorted(d)[rng.randint(len(d))]
        ctx.check(t[j] == d[j], 'tree:read', lambda: '{} {}'.format(
            t[j], d[j]))
        ctx.close(t.s, sum(d.values()), 'tree:sum', rtol=1e-9, atol=1e-9)
    live = sorted(i for i in d if d[i] > 0)
    if not live:
        ctx.skip()
    total = sum(d.values())
    p = np.array([d[i] for i in live]) / total
    if len(live) <= 40:
        n = 2000
        c1, c2 = np.zeros(len(live)), np.zeros(len(live))
        k = min(2, len(live))
        for _ in range(n):
            i, w = t.prioritized_choice()
            c1[live.index(i)] += 1
            ctx.close(w, d[i] / total, 'tree:choice-probability', rtol=1e-6)
            ixs, vals = t.prioritized_sample(k)
            ctx.require(len(set(ixs)) == k and all(d[x] > 0 for x in ixs),
                        'tree:draw', lambda: str(ixs))
            ctx.close(vals, [d[x] / total for x in ixs],
                      'tree:draw-probability', rtol=1e-6)
            for x in ixs:
                c2[live.index(x)] += 1
        for c, q, what in ((c1, p, 'choice'), (
                c2, p if k == 1 else inclusion2(p), 'draw')):
            pv = stats.inclusion_p(c, n, q)
            ctx.check(pv > stats.P_ALARM, 'tree:frequencies', lambda:
                      '{}: {} of {}, expected {}'.format(
                          what, c.tolist(), n, (q * n).tolist()))
    k = int(rng.randint(1, len(live) + 1))
    before = dict(d)
    ixs, vals = t.prioritized_sample(k, remove=True)
    for x in ixs:
        d[x] = 0.
    ctx.check(len(set(ixs)) == k and all(before[x] > 0 for x in ixs) and
              all(t[x] == d[x] for x in d), 'tree:remove',
              lambda: '{} {}'.format(ixs, before))
    ctx.sig(span, len(live), k, len(d))


@chk.scenario(quick=30, thorough=200)
def protocol(ctx):
    """Draw and error report must alternate; lengths must agree."""
    rng = ctx.rng
    n = rng.randint(2, 9)
    buf = replay_buffers.PrioritizedReplayBuffer(capacity=n)
    for i in range(n):
        buf.append(state=i, action=0, reward=0., next_state=0)
    ctx.raises(AssertionError, lambda: buf.update_errors([1.]),
               'update-before-draw',
               'errors accepted although nothing was drawn')
    k = rng.randint(1, n)
    buf.sample(k)
    ctx.raises(AssertionError, lambda: buf.sample(1), 'draw-twice',
               'second draw accepted before errors were reported')
    buf.update_errors([1.] * k)
    ctx.raises(AssertionError, lambda: buf.update_errors([1.] * k),
               'update-twice', 'errors accepted twice')
    ctx.sig(n, k)


if __name__ == '__main__':
    sys.exit(chk.main())
