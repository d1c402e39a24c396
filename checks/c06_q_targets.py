"""C06: value-based agents minimise exactly the documented loss."""
import sys

import chainer
import chainer.functions as F
import chainer.links as L
import numpy as np

from vlib.harness import Check
from vlib import agentkit as K
from chainerrl import agents
from chainerrl import links
from chainerrl.action_value import QuantileDiscreteActionValue
from chainerrl.agents import dpp
from chainerrl.agents import iqn as iqn_module
from chainerrl.misc import batch_states as bs_module

chk = Check('C06', rule=(
    'for each agent class: random Q-networks (online and target different), '
    'random batches of windows (lengths 1..5, terminal or truncated, rewards '
    'up to +-50, optional importance weights), random discount, loss options; '
    'the update is triggered through the public acting interface and the '
    'parameter change under plain SGD, the logged loss and the reported '
    'errors are compared with an independent per-window reference.  '
    'Non-trivial: distinct (agent, options, batch) whose reference gradient '
    'is not zero.'),
    assumptions=['chainer differentiates elementary functions correctly',
                 'plain SGD applies the gradient'])

N_OBS = 4


# ----------------------------------------------------------- experience maker

def make_obs(rng, counter):
    counter[0] += 1
    return (counter[0], rng.normal(size=N_OBS).astype(np.float32))


def make_windows(ctx, batch, n_step, act, weighted):
    rng = ctx.rng
    c = [0]
    out = []
    for _ in range(batch):
        length = rng.randint(1, n_step + 1)
        terminal = bool(rng.randint(2))
        scale = [1., 1., 10., 50.][rng.randint(4)]
        w = []
        s = make_obs(rng, c)
        for i in range(length):
            ns = make_obs(rng, c)
            w.append(dict(
                state=s, action=act(), reward=float(rng.normal() * scale),
                next_state=ns, next_action=None,
                is_state_terminal=terminal and i == length - 1))
            s = ns
        if weighted:
            w[0]['weight'] = float(rng.uniform(.05, 2.))
        out.append(w)
    return out


def make_episodes(ctx, n, model, act):
    """Sequences with recurrent states as the agent would store them."""
    rng = ctx.rng
    c = [0]
    eps = []
    for _ in range(n):
        with chainer.no_backprop_mode():
            rs = None
            for _ in range(rng.randint(0, 3)):
                _, rs = model(K.obs_phi(make_obs(rng, c))[None], rs)
            length = rng.randint(1, 6)
            terminal = bool(rng.randint(2))
            ep = []
            s = make_obs(rng, c)
            for i in range(length):
                ns = make_obs(rng, c)
                _, nrs = model(K.obs_phi(s)[None], rs)
                ep.append(dict(
                    state=s, action=act(), reward=float(rng.normal() * 3),
                    next_state=ns, next_action=None,
                    is_state_terminal=terminal and i == length - 1,
                    recurrent_state=model.get_recurrent_state_at(
                        rs, 0, unwrap_variable=True),
                    next_recurrent_state=model.get_recurrent_state_at(
                        nrs, 0, unwrap_variable=True)))
                rs = nrs
                s = ns
        eps.append(ep)
    return eps


class Item(object):
    """One regression item: values as chainer outputs of batch size 1."""

    def __init__(self, q, tq, q_next, tq_next, action, reward, discount,
                 terminal, weight):
        self.q, self.tq, self.q_next, self.tq_next = q, tq, q_next, tq_next
        self.action = action
        self.reward = reward
        self.discount = discount
        self.terminal = terminal
        self.weight = weight


def window_items(online, target, windows, gamma):
    items = []
    for w in windows:
        x = K.obs_phi(w[0]['state'])[None]
        nx = K.obs_phi(w[-1]['next_state'])[None]
        r = sum(gamma ** i * t['reward'] for i, t in enumerate(w))
        items.append(Item(
            online(x), target(x), online(nx), target(nx),
            w[0]['action'], r, gamma ** len(w),
            w[-1]['is_state_terminal'], w[0].get('weight')))
    return items


def unroll(model, xs, rs):
    outs = []
    rs = model.concatenate_recurrent_states([rs])
    for x in xs:
        o, rs = model(x[None], rs)
        outs.append(o)
    return outs


def episode_items(online, target, episodes, gamma):
    items = []
    for ep in episodes:
        xs = [K.obs_phi(t['state']) for t in ep]
        nxs = [K.obs_phi(t['next_state']) for t in ep]
        rs, nrs = ep[0]['recurrent_state'], ep[0]['next_recurrent_state']
        q, tq = unroll(online, xs, rs), unroll(target, xs, rs)
        qn, tqn = unroll(online, nxs, nrs), unroll(target, nxs, nrs)
        for i, t in enumerate(ep):
            items.append(Item(q[i], tq[i], qn[i], tqn[i], t['action'],
                              t['reward'], gamma, t['is_state_terminal'],
                              None))
    return items


# ----------------------------------------------------------- references

def qa(av, a):
    """Variable: value of one action."""
    if hasattr(av, 'q_values'):
        return av.q_values[0, int(a)]
    return av.evaluate_actions(np.asarray(a, dtype='f')[None])[0]


def qarr(av):
    return av.q_values.array[0].astype('d')


def vmax(av):
    if hasattr(av, 'q_values'):
        return float(qarr(av).max())
    return float(av.max.array.reshape(-1)[0])


def boot(item, value):
    return item.reward + (0. if item.terminal else item.discount * value)


def target_value(name, it, opt):
    if name == 'DQN':
        return boot(it, vmax(it.tq_next))
    if name == 'DoubleDQN':
        return boot(it, qarr(it.tq_next)[int(np.argmax(qarr(it.q_next)))])
    if name == 'SARSA':
        q = qarr(it.tq_next)
        a = np.argsort(-q, kind='stable')[1 if len(q) > 1 else 0]
        return boot(it, q[a])
    adv = qarr(it.tq)[int(it.action)] - qarr(it.tq).max()
    if name == 'AL':
        return boot(it, vmax(it.tq_next)) + opt['alpha'] * adv
    nadv = qarr(it.tq_next)[int(it.action)] - qarr(it.tq_next).max()
    if name == 'PAL':
        return boot(it, vmax(it.tq_next)) + opt['alpha'] * max(adv, nadv)
    if name == 'DoublePAL':
        v = qarr(it.tq_next)[int(np.argmax(qarr(it.q_next)))]
        return boot(it, v) + opt['alpha'] * max(adv, nadv)

    def op(q):
        if name == 'DPPGreedy':
            return q.max()
        eta = opt['eta']
        m = q.max()
        e = np.exp(eta * (q - m))
        if name == 'DPP':
            return float((e / e.sum() * q).sum())
        return m + np.log(e.sum()) / eta
    q = qarr(it.tq)
    return q[int(it.action)] + boot(it, op(qarr(it.tq_next))) - op(q)


def scalar_loss(items, ys, ts, clip, acc):
    """Loss value, dL/dy for each item and the reported errors."""
    n = len(items)
    y = np.array([float(v.array) for v in ys])
    t = np.array(ts)
    d = y - t
    w = np.array([1. if it.weight is None else it.weight for it in items])
    if clip:
        l = np.where(np.abs(d) < 1, .5 * d ** 2, np.abs(d) - .5)
        g = np.clip(d, -1, 1)
    else:
        l = .5 * d ** 2
        g = d
    s = 1. / n if acc == 'mean' else 1.
    return float((l * w).sum() * s), g * w * s, np.abs(d)


# ----------------------------------------------------------- driving

def phi_checked(log):
    def phi(x):
        log.append(x[0])
        return K.obs_phi(x)
    return phi


def trigger(ctx, agent, buf, target, via, batch, recurrent, data,
            log_before):
    """Cause exactly one update through the acting interface."""
    rng = ctx.rng
    c = [10 ** 6]
    if via == 'single':
        agent.act_and_train(make_obs(rng, c), 0.)
    else:
        agent.batch_act_and_train([make_obs(rng, c)])
    ctx.require(agent.optimizer.t == 0, 'premature-update',
                'updated although the buffer is empty')
    # make the target network differ from the online network
    if target is not None:
        K.set_params(agent.target_model, K.params_of(target))
    buf.length = batch
    if recurrent:
        buf.episodes = data
    else:
        buf.experiences = data
    log_before()
    if via == 'single':
        agent.act_and_train(make_obs(rng, c), 1.)
    else:
        agent.batch_observe_and_train([make_obs(rng, c)], [1.], [False],
                                      [False])
    ctx.require(agent.optimizer.t == 1, 'update-count', lambda: (
        '{} updates instead of 1'.format(agent.optimizer.t)))


def common_options(rng):
    return dict(
        gamma=float(rng.choice([.5, .9, .99, 1., 0.])),
        clip_delta=bool(rng.randint(2)),
        batch_accumulator=['mean', 'sum'][rng.randint(2)])


def build(cls, q, buf, opts, batch, phi, explorer, extra):
    lr = 1.
    opt = K.sgd(q, lr)
    kw = dict(opts)
    kw.update(extra)
    return cls(
        q, opt, buf, kw.pop('gamma'), explorer,
        replay_start_size=batch, minibatch_size=batch, update_interval=1,
        target_update_interval=10 ** 9, phi=phi, average_loss_decay=0.,
        average_q_decay=0., **kw)


def stat(agent, name):
    return dict(agent.get_statistics())[name]


SCALAR = ['DQN', 'DoubleDQN', 'AL', 'PAL', 'DoublePAL', 'DPP', 'DPPL',
          'DPPGreedy', 'ResidualDQN', 'SARSA', 'DQN-naf']


@chk.scenario(quick=1100, thorough=15000)
def scalar_agents(ctx):
    rng = ctx.rng
    name = SCALAR[ctx.idx % len(SCALAR)]
    naf = name.endswith('-naf')
    name = name.split('-')[0]
    cls = getattr(dpp if name.startswith('DPP') else agents, name)
    opts = common_options(rng)
    recurrent = (not naf) and rng.rand() < .3
    via = ['single', 'batch'][rng.randint(2)]
    batch = int(rng.choice([1, 2, 3, 8]))
    n_actions = int(rng.choice([1, 2, 3, 5]))
    n_step = int(rng.choice([1, 1, 2, 5]))
    weighted = (not recurrent) and bool(rng.randint(2))
    kind = ('naf' if naf else
            ['lstm', 'gru2'][rng.randint(2)] if recurrent else
            ['table', 'mlp'][rng.randint(2)])
    q = K.make_q(rng, kind, N_OBS, n_actions)
    target = K.randomize(K.clone(q), rng)
    extra = {}
    if name in ('AL', 'PAL', 'DoublePAL'):
        extra['alpha'] = float(rng.choice([.9, .3, 0.]))
    if name in ('DPP', 'DPPL'):
        extra['eta'] = float(rng.choice([1., .1, 5., .03]))
    if name == 'ResidualDQN':
        extra['grad_scale'] = float(rng.choice([1., .5, 0.]))
    if recurrent:
        extra['recurrent'] = True
    if naf:
        def act():
            return rng.normal(size=n_actions).astype('f')
    else:
        def act():
            return np.int32(rng.randint(n_actions))
    data = make_episodes(ctx, batch, q, act) if recurrent else \
        make_windows(ctx, batch, n_step, act, weighted)
    where = ('{} {} {} via={} batch={} n_step={} weighted={} model={}'.format(
        name, opts, extra, via, batch, n_step, weighted, kind))
    explorer = K.SecondBest() if name == 'SARSA' else K.Greedy()
    buf = K.ScriptedBuffer()
    seen = []
    ref_online = K.clone(q)
    agent = build(cls, q, buf, opts, batch, phi_checked(seen), explorer,
                  extra)
    trigger(ctx, agent, buf, None if name == 'ResidualDQN' else target,
            via, batch, recurrent, data, lambda: seen.clear())

    # ---- reference
    gamma = opts['gamma']
    before = K.params_of(ref_online)
    ref_online.cleargrads()
    residual = name == 'ResidualDQN'
    items = (episode_items if recurrent else window_items)(
        ref_online, target if not residual else ref_online, data, gamma)
    ys = [F.reshape(qa(it.q, it.action), ()) for it in items]
    if residual:
        tvars = []
        for it in items:
            if it.terminal:
                tvars.append(None)
            else:
                v = qarr(it.q_next)
                tvars.append(it.q_next.q_values[0, int(np.argmax(v))] *
                             it.discount)
        ts = [it.reward + (0. if tv is None else float(tv.array))
              for it, tv in zip(items, tvars)]
    else:
        ts = [target_value(name, it, extra) for it in items]
    loss, g, err = scalar_loss(items, ys, ts, opts['clip_delta'],
                               opts['batch_accumulator'])
    total = sum(y * float(gi) for y, gi in zip(ys, g))
    if residual:
        for tv, gi in zip(tvars, g):
            if tv is not None:
                total = total - tv * float(gi) * extra['grad_scale']
    total.backward()
    want = dict((n, p.array - (0 if p.grad is None else p.grad))
                for n, p in ref_online.namedparams())
    got = K.params_of(agent.model)
    K.check_params(ctx, got, want, 'update:' + name, where, ref=before)
    ctx.close(stat(agent, 'average_loss'), loss, 'loss:' + name, where,
              rtol=1e-3, atol=1e-4)
    if weighted:
        ctx.require(len(buf.errors) == 1, 'errors-reported', where)
        ctx.close(np.ravel(buf.errors[0]), err, 'errors:' + name, where,
                  rtol=1e-3, atol=1e-3)
    else:
        ctx.check(not buf.errors, 'errors-reported', where)
    if not residual:
        ctx.check(K.same_params(K.params_of(agent.target_model),
                                K.params_of(target)), 'target-changed',
                  where + ': the update changed the target network')
    ids = set(t['state'][0] for w in data for t in (w if recurrent else
                                                    w[:1]))
    ctx.check(ids <= set(seen), 'phi-not-applied', where)
    if K.max_diff(want, before) > 1e-6:
        ctx.sig(where, ctx.case_seed)
    ctx.count('items', len(items))
    ctx.count('terminal_items', sum(it.terminal for it in items))
    ctx.count('multi_step_windows', sum(len(w) > 1 for w in data))
    ctx.sample('{}: loss {:.5f}, {} items'.format(where, loss, len(items)))


# ----------------------------------------------------------- categorical

def project(values, probs, z):
    """Reference projection: each mass point to its two neighbours."""
    out = np.zeros(len(z))
    vmin, vmax_ = float(z[0]), float(z[-1])
    dz = (vmax_ - vmin) / (len(z) - 1)
    for v, p in zip(values, probs):
        b = (min(max(v, vmin), vmax_) - vmin) / dz
        lo = min(int(np.floor(b)), len(z) - 2)
        f = b - lo
        out[lo] += p * (1 - f)
        out[lo + 1] += p * f
    return out


def dist_of(av):
    return av.q_dist.array[0].astype('d')


@chk.scenario(quick=400, thorough=6000)
def categorical_agents(ctx):
    rng = ctx.rng
    name = ['CategoricalDQN', 'CategoricalDoubleDQN'][ctx.idx % 2]
    cls = getattr(agents, name)
    opts = common_options(rng)
    recurrent = rng.rand() < .3
    via = ['single', 'batch'][rng.randint(2)]
    batch = int(rng.choice([1, 2, 5]))
    n_actions = int(rng.choice([1, 2, 4]))
    n_atoms = int(rng.choice([2, 3, 11, 51]))
    v_max = float(rng.choice([1., 10., 40.]))
    v_min = -v_max if rng.randint(2) else 0.
    weighted = (not recurrent) and bool(rng.randint(2))
    q = K.make_dist_q(rng, N_OBS, n_actions, n_atoms, v_min, v_max,
                      recurrent)
    target = K.randomize(K.clone(q), rng, scale=1.)

    def act():
        return np.int32(rng.randint(n_actions))
    n_step = int(rng.choice([1, 3]))
    data = make_episodes(ctx, batch, q, act) if recurrent else \
        make_windows(ctx, batch, n_step, act, weighted)
    if rng.rand() < .3 and not recurrent:
        # integer rewards: targets that fall exactly on atoms
        for w in data:
            for t in w:
                t['reward'] = float(np.round(t['reward']))
    where = ('{} {} via={} batch={} weighted={} recurrent={} atoms={} [{},{}]'
             .format(name, opts, via, batch, weighted, recurrent, n_atoms,
                     v_min, v_max))
    buf = K.ScriptedBuffer()
    ref = K.clone(q)
    agent = build(cls, q, buf, opts, batch, K.obs_phi, K.Greedy(),
                  {'recurrent': True} if recurrent else {})
    trigger(ctx, agent, buf, target, via, batch, recurrent, data,
            lambda: None)
    before = K.params_of(ref)
    ref.cleargrads()
    items = (episode_items if recurrent else window_items)(
        ref, target, data, opts['gamma'])
    z = np.linspace(v_min, v_max, n_atoms)
    total = 0
    losses = []
    n = len(items)
    for it in items:
        nd = dist_of(it.tq_next)
        sel = dist_of(it.q_next if 'Double' in name else it.tq_next)
        a = int(np.argmax((sel * z).sum(axis=1)))
        tz = [it.reward + (0. if it.terminal else it.discount * zi)
              for zi in z]
        t = project(tz, nd[a], z)
        y = it.q.q_dist[0, int(it.action)]
        l = -F.sum(t.astype('f') * F.log(F.clip(y, 1e-10, 1.)))
        losses.append(float(l.array))
        w = 1. if it.weight is None else it.weight
        s = 1. / n if opts['batch_accumulator'] == 'mean' else 1.
        total = total + l * (w * s)
    total.backward()
    want = dict((k, p.array - (0 if p.grad is None else p.grad))
                for k, p in ref.namedparams())
    K.check_params(ctx, K.params_of(agent.model), want, 'update:' + name,
                   where, ref=before)
    ctx.close(stat(agent, 'average_loss'), float(total.array),
              'loss:' + name, where, rtol=1e-3, atol=1e-4)
    if weighted:
        ctx.require(len(buf.errors) == 1, 'errors-reported', where)
        ctx.close(np.ravel(buf.errors[0]), losses, 'errors:' + name, where,
                  rtol=1e-3, atol=1e-3)
    if K.max_diff(want, before) > 1e-6:
        ctx.sig(where, ctx.case_seed)
    ctx.sample(where)


# ----------------------------------------------------------- quantile

TAU_LOG = []


class RecordingIQ(chainer.Chain):
    """Implicit quantile network that logs the thresholds it is asked for."""

    def __init__(self, n_obs, n_actions):
        super().__init__()
        with self.init_scope():
            self.a = L.Linear(n_obs, n_actions)
            self.b = L.Linear(n_obs, n_actions)
            self.c = L.Linear(n_obs, n_actions)

    def evaluate(self, x, taus):
        taus = np.asarray(taus, dtype='f')
        a = F.expand_dims(self.a(x), 1)
        b = F.expand_dims(self.b(x), 1)
        c = F.expand_dims(self.c(x), 1)
        t = taus[:, :, None]
        shape = (len(x), taus.shape[1], a.shape[2])
        a, b, c = [F.broadcast_to(v, shape) for v in (a, b, c)]
        t = np.broadcast_to(t, shape).astype('f')
        return a + b * t + c * np.cos(3 * t)

    def __call__(self, x):
        def f(taus):
            TAU_LOG.append((self, np.array(getattr(x, 'array', x)),
                            np.array(taus)))
            return QuantileDiscreteActionValue(self.evaluate(x, taus))
        return f


def make_recurrent_iq(n_actions):
    return links.StatelessRecurrentSequential(
        L.Linear(N_OBS, 4), F.tanh, L.NStepGRU(1, 4, 3, 0),
        RecordingIQ(3, n_actions))


class Hidden(object):
    """The values of one network for one item: head and its input."""

    def __init__(self, head, h):
        self.head = head
        self.h = h

    def evaluate(self, taus):
        return self.head.evaluate(self.h, taus[None])[0]


def quantile_items(online, target, data, gamma, recurrent):
    """Items whose q/tq/q_next/tq_next are Hidden objects."""
    out = []

    def ff(model, t, key):
        return Hidden(model, chainer.Variable(K.obs_phi(t[key])[None]))

    def rec(model, ep, key, rs):
        lin, _, gru, head = [model[i] for i in range(4)]
        hs = []
        h = rs
        for t in ep:
            x = F.tanh(lin(K.obs_phi(t[key])[None]))
            h, o = gru(h, [x])
            hs.append(Hidden(head, o[0]))
        return hs

    def state(rs):
        # state of the only recurrent layer -> (layers, 1, units)
        rs = rs[0] if isinstance(rs, (list, tuple)) else rs
        return None if rs is None else np.asarray(rs).reshape(1, 1, -1)
    for ep in data:
        if recurrent:
            a = state(ep[0]['recurrent_state'])
            b = state(ep[0]['next_recurrent_state'])
            q = rec(online, ep, 'state', a)
            qn = rec(online, ep, 'next_state', b)
            tqn = rec(target, ep, 'next_state', b)
            for i, t in enumerate(ep):
                out.append(Item(q[i], None, qn[i], tqn[i], t['action'],
                                t['reward'], gamma, t['is_state_terminal'],
                                None))
        else:
            out.append(Item(
                ff(online, ep[0], 'state'), None,
                ff(online, ep[-1], 'next_state'),
                ff(target, ep[-1], 'next_state'), ep[0]['action'],
                sum(gamma ** j * t['reward'] for j, t in enumerate(ep)),
                gamma ** len(ep), ep[-1]['is_state_terminal'],
                ep[0].get('weight')))
    return out


@chk.scenario(quick=400, thorough=6000)
def quantile_agents(ctx):
    rng = ctx.rng
    name = ['IQN', 'DoubleIQN'][ctx.idx % 2]
    cls = getattr(agents, name)
    opts = common_options(rng)
    via = ['single', 'batch'][rng.randint(2)]
    batch = int(rng.choice([1, 2, 5]))
    n_actions = int(rng.choice([1, 2, 4]))
    ns = [int(v) for v in rng.permutation([2, 3, 4, 5, 8])[:3]]
    n, n_prime, k = ns
    recurrent = rng.rand() < .35
    weighted = (not recurrent) and bool(rng.randint(2))
    q = K.randomize(make_recurrent_iq(n_actions) if recurrent else
                    RecordingIQ(N_OBS, n_actions), rng)
    target = K.randomize(K.clone(q), rng)

    def act():
        return np.int32(rng.randint(n_actions))
    data = make_episodes(ctx, batch, q, act) if recurrent else \
        make_windows(ctx, batch, int(rng.choice([1, 3])), act, weighted)
    where = ('{} {} via={} batch={} weighted={} recurrent={} N={} N\'={} K={}'
             .format(name, opts, via, batch, weighted, recurrent, n, n_prime,
                     k))
    buf = K.ScriptedBuffer()
    ref = K.clone(q)
    extra = dict(quantile_thresholds_N=n, quantile_thresholds_N_prime=n_prime,
                 quantile_thresholds_K=k)
    if recurrent:
        extra['recurrent'] = True
    agent = build(cls, q, buf, opts, batch, K.obs_phi, K.Greedy(), extra)
    trigger(ctx, agent, buf, target, via, batch, recurrent, data,
            lambda: TAU_LOG.clear())
    before = K.params_of(ref)
    ref.cleargrads()
    items = quantile_items(ref, target, data, opts['gamma'], recurrent)
    log = list(TAU_LOG)
    total_items = len(items)

    def head(model):
        return model[3] if recurrent else model

    def find(model, hidden, size, what):
        """Thresholds the agent used for the value of one item."""
        c = []
        for m, xx, t in log:
            if m is not head(model) or t.shape != (total_items, size):
                continue
            rows = [i for i in range(total_items)
                    if np.allclose(xx[i], hidden.h.array[0], rtol=1e-4,
                                   atol=1e-5)]
            c += [t[i] for i in rows]
        ctx.require(len(c) == 1, 'thresholds', lambda: (
            '{}: {} evaluations of {}'.format(where, len(c), what)))
        ctx.check(np.all((c[0] >= 0) & (c[0] <= 1)), 'threshold-range',
                  where)
        return c[0]
    double = name == 'DoubleIQN'
    chooser = agent.model if double else agent.target_model
    total = 0
    loss = 0.
    errs = []
    s = 1. / total_items if opts['batch_accumulator'] == 'mean' else 1.
    tightest = 1.
    for it in items:
        taus = find(agent.model, it.q, n, 'the prediction')
        tt = find(chooser, it.q_next if double else it.tq_next, k,
                  'the greedy action')
        tp = find(agent.target_model, it.tq_next, n_prime, 'the target')
        m = (it.q_next if double else it.tq_next).evaluate(tt).array.mean(
            axis=0)
        if n_actions > 1:
            top = np.sort(m)
            tightest = min(tightest, top[-1] - top[-2])
        a = int(m.argmax())
        nz = it.tq_next.evaluate(tp).array[:, a].astype('d')
        t = it.reward + (0. if it.terminal else it.discount) * nz
        y = it.q.evaluate(taus)[:, int(it.action)]
        delta = y.array[:, None].astype('d') - t[None]
        hub = np.where(np.abs(delta) < 1, .5 * delta ** 2,
                       np.abs(delta) - .5)
        wt = np.abs(taus[:, None] - (delta < 0))
        el = wt * hub
        gi = (wt * np.clip(delta, -1, 1)).mean(axis=1)
        weight = 1. if it.weight is None else it.weight
        loss += el.mean(axis=1).sum() * weight * s
        errs.append(el.mean())
        total = total + F.sum(y * (gi * weight * s).astype('f'))
    if tightest < 1e-5:
        ctx.skip('greedy action decided by rounding')
    total.backward()
    want = dict((kk, p.array - (0 if p.grad is None else p.grad))
                for kk, p in ref.namedparams())
    K.check_params(ctx, K.params_of(agent.model), want, 'update:' + name,
                   where, ref=before)
    ctx.close(stat(agent, 'average_loss'), loss, 'loss:' + name, where,
              rtol=1e-3, atol=1e-4)
    if weighted:
        ctx.require(len(buf.errors) == 1, 'errors-reported', where)
        ctx.close(np.ravel(buf.errors[0]), errs, 'errors:' + name, where,
                  rtol=1e-3, atol=1e-3)
    ctx.check(K.same_params(K.params_of(agent.target_model),
                            K.params_of(target)), 'target-changed', where)
    if K.max_diff(want, before) > 1e-6:
        ctx.sig(where, ctx.case_seed)
    ctx.count('quantile_recurrent', recurrent)
    ctx.sample(where)


@chk.scenario(quick=150, thorough=3000)
def quantile_loss(ctx):
    """The quantile regression loss itself, with any Huber threshold."""
    rng = ctx.rng
    b, n, n2 = [int(rng.randint(1, 6)) for _ in range(3)]
    scale = float(10 ** rng.uniform(-2, 2))
    y = (rng.normal(size=(b, n)) * scale).astype('f')
    t = (rng.normal(size=(b, n2)) * scale).astype('f')
    taus = rng.uniform(0, 1, (b, n)).astype('f')
    kw, kappa = {}, 1.
    if rng.rand() < .7:
        kappa = float(10 ** rng.uniform(-1, 1))
        kw = {'huber_loss_threshold': kappa}
    v = chainer.Variable(y)
    out = iqn_module.compute_eltwise_huber_quantile_loss(
        v, chainer.Variable(t) if rng.rand() < .5 else t, taus, **kw)
    d = t[:, None, :].astype('d') - y[:, :, None]
    hub = np.where(np.abs(d) <= kappa, .5 * d ** 2,
                   kappa * (np.abs(d) - .5 * kappa))
    w = np.abs(taus[:, :, None] - (d > 0))
    where = 'batch {} N {} N\' {} scale {:.3g} threshold {:.3g}'.format(
        b, n, n2, scale, kappa)
    ctx.check(out.shape == (b, n, n2), 'quantile-loss:shape', where)
    ctx.close(out.array, w * hub, 'quantile-loss:value', where, rtol=1e-3,
              atol=1e-4 * max(1., kappa * scale))
    g = (-w * np.clip(d, -kappa, kappa)).sum(axis=2)
    F.sum(out).backward()
    ctx.close(v.grad, g, 'quantile-loss:gradient', where, rtol=1e-3,
              atol=1e-4 * max(1., kappa))
    wt = rng.uniform(.1, 2, b).astype('f')
    for acc in ('mean', 'sum'):
        s = 1. / b if acc == 'mean' else 1.
        per = (w * hub).mean(axis=2).sum(axis=1)
        ctx.close(float(iqn_module.compute_value_loss(out, acc).array),
                  per.sum() * s, 'quantile-loss:' + acc, where, rtol=1e-3,
                  atol=1e-4)
        ctx.close(float(iqn_module.compute_weighted_value_loss(
            out, wt, acc).array), (per * wt).sum() * s,
            'quantile-loss:weighted-' + acc, where, rtol=1e-3, atol=1e-4)
    ctx.sig(where)


if __name__ == '__main__':
    sys.exit(chk.main())
