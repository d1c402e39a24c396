"""Lock-step collection of what PPO and TRPO agents experience.

The Collector drives an agent through its public interface (single or batch),
evaluates the agent's own networks one observation at a time, and keeps the
transitions of the current dataset with the quantities that generalised
advantage estimation needs.
"""
import copy

import chainer
import numpy as np

from vlib import agentkit as K
from vlib import onpolicy as O
from chainerrl import links


class Tap(object):
    """Mixin state: what was fed to a model while training."""
    log = None


class TapBranched(links.Branched):
    tap = None

    def __call__(self, x):
        note(self.tap, [x], None)
        return super().__call__(x)


class TapSequence(O.Stateful):
    tap = None

    def __call__(self, x):
        note(self.tap, [x], None)
        return super().__call__(x)


class TapRecBranched(links.StatelessRecurrentBranched):
    tap = None

    def n_step_forward(self, sequences, recurrent_state, output_mode):
        note(self.tap, sequences, recurrent_state)
        return super().n_step_forward(sequences, recurrent_state, output_mode)


class TapRecSequential(links.StatelessRecurrentSequential):
    tap = None

    def n_step_forward(self, sequences, recurrent_state, output_mode):
        note(self.tap, sequences, recurrent_state)
        return super().n_step_forward(sequences, recurrent_state, output_mode)


def note(tap, xs, rs):
    if tap is not None and chainer.config.train and \
            chainer.config.enable_backprop:
        tap.append([np.array(getattr(x, 'array', x)) for x in xs])


def clone(model):
    """Copy that does not report to the tap."""
    tap, model.tap = model.tap, None
    c = copy.deepcopy(model)
    model.tap = tap
    return c


def log_updates(opt, link, tap, log):
    """Record parameters before and after each update and its inputs."""
    orig = opt.update

    def update(*args, **kw):
        before = K.params_of(link)
        orig(*args, **kw)
        log.append({'before': before, 'after': K.params_of(link),
                    'rows': tap[-1] if tap else None,
                    'model': clone(link), 'n_fwd': len(tap)})
    opt.update = update


def obs_of(rng):
    return (int(rng.randint(2 ** 31)),
            rng.normal(0, 1.2, O.N_OBS).astype('f'))


class Collector(object):

    def __init__(self, ctx, agent, nets, n_env, single, recurrent, interval,
                 p_done, p_reset, on_update, reward_scale=1.):
        """nets(x, rec) -> distribution, value, rec for a batch of one."""
        self.ctx, self.rng, self.agent, self.nets = ctx, ctx.rng, agent, nets
        self.n_env, self.single, self.recurrent = n_env, single, recurrent
        self.interval, self.p_done, self.p_reset = interval, p_done, p_reset
        self.on_update = on_update
        self.reward_scale = reward_scale
        self.rec = [None] * n_env
        self.segments = []                # finished ones of the dataset
        self.open = [[] for _ in range(n_env)]
        self.cur = [None] * n_env         # step waiting for its outcome
        self.obs = [obs_of(self.rng) for _ in range(n_env)]
        self.prev_reward = [0.] * n_env
        self.norm_before = None
        self.n_updates = 0
        self.kinds = set()

    def norm(self, x):
        n = self.agent.obs_normalizer
        x = K.obs_phi(x)[None]
        return x if n is None else np.asarray(n(x, update=False))

    def evaluate(self, obs, rec):
        with chainer.using_config('train', False), \
                chainer.no_backprop_mode():
            return self.nets(self.norm(obs), rec)

    def acted(self, i, obs, action):
        rec0 = self.rec[i]
        d, v, rec = self.evaluate(obs, rec0)
        self.rec[i] = rec
        a = np.asarray(action)
        self.cur[i] = {
            'state': obs, 'action': action, 'rec': rec0, 'v': float(v),
            'logp': float(d.log_prob(a[None]).array[0]), 'env': i}

    def outcome(self, i, reward, next_obs, done, cut):
        t = self.cur[i]
        self.cur[i] = None
        t['reward'] = reward
        t['nonterminal'] = not done
        _, v, _ = self.evaluate(next_obs, self.rec[i])
        t['next_v'] = float(v)
        self.open[i].append(t)
        if cut:
            self.segments.append(self.open[i])
            self.open[i] = []
            self.rec[i] = None

    def size(self):
        return sum(map(len, self.segments)) + sum(map(len, self.open))

    def dataset(self):
        segs = self.segments + [s for s in self.open if s]
        self.segments, self.open = [], [[] for _ in range(self.n_env)]
        return segs

    def before_call(self):
        n = self.agent.obs_normalizer
        self.norm_before = None if n is None else copy.deepcopy(n)
        self.params_before = {
            k: K.params_of(v) for k, v in self.watched().items()}

    def watched(self):
        return {}

    def after_call(self):
        """An update must have happened iff the dataset is full."""
        if self.size() >= self.interval:
            segs = self.dataset()
            self.n_updates += 1
            self.on_update(self, segs)
        else:
            self.on_update(self, None)

    def draw(self):
        u = self.rng.rand()
        done = u < self.p_done
        reset = (not done or self.rng.rand() < .2) and \
            self.rng.rand() < self.p_reset
        r = self.rng.normal() * self.reward_scale
        if self.rng.rand() < .2:
            r = 0.
        if done:
            self.kinds.add('done')
        if reset:
            self.kinds.add('reset')
        return float(r), bool(done), bool(reset)

    def step(self):
        if self.single:
            obs = self.obs[0]
            if self.cur[0] is not None:
                self.outcome(0, self.prev_reward[0], obs, False, False)
            self.before_call()
            a = self.agent.act_and_train(obs, self.prev_reward[0])
            self.after_call()
            self.acted(0, obs, a)
            r, done, reset = self.draw()
            new = obs_of(self.rng)
            if done or reset:
                self.outcome(0, r, new, done, True)
                self.before_call()
                self.agent.stop_episode_and_train(new, r, done)
                self.after_call()
                self.obs[0] = obs_of(self.rng)
                self.prev_reward[0] = 0.
            else:
                self.obs[0] = new
                self.prev_reward[0] = r
            return
        acts = self.agent.batch_act_and_train(list(self.obs))
        self.ctx.require(len(acts) == self.n_env, 'actions', '')
        for i, (o, a) in enumerate(zip(self.obs, acts)):
            self.acted(i, o, a)
        res = [self.draw() for _ in range(self.n_env)]
        new = [obs_of(self.rng) for _ in range(self.n_env)]
        for i, (r, done, reset) in enumerate(res):
            self.outcome(i, r, new[i], done, done or reset)
        self.before_call()
        self.agent.batch_observe_and_train(
            list(new), [r[0] for r in res], [r[1] for r in res],
            [r[2] for r in res])
        self.after_call()
        self.obs = [obs_of(self.rng) if d or s else o
                    for o, (_, d, s) in zip(new, res)]


def gae(segs, gamma, lambd):
    """Advantages by their definition: sums of discounted TD errors."""
    for seg in segs:
        n = len(seg)
        deltas = [t['reward'] + gamma * t['nonterminal'] * t['next_v']
                  - t['v'] for t in seg]
        for k in range(n):
            t = seg[k]
            t['adv'] = sum((gamma * lambd) ** (j - k) * deltas[j]
                           for j in range(k, n))
            t['target'] = t['adv'] + t['v']


def normalized_states(flat, norm_before):
    """Rows the networks should see, and the normaliser's new state."""
    x = np.array([K.obs_phi(t['state']) for t in flat])
    if norm_before is None:
        return x, None
    post = copy.deepcopy(norm_before)
    post.experience(x)
    return np.asarray(post(x, update=False)), post


class RowMatcher(object):

    def __init__(self, ctx, key, rows):
        self.ctx, self.key, self.rows = ctx, key, np.asarray(rows, 'd')

    def __call__(self, x):
        d = np.abs(self.rows - np.asarray(x, 'd')).max(axis=1)
        i = int(np.argmin(d))
        self.ctx.require(d[i] < 1e-3, self.key,
                         lambda: 'the model was trained on {} which is not a '
                         'state of the dataset (closest {})'.format(
                             x, self.rows[i]))
        return i
