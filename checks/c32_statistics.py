"""C32: statistics and interpolated schedules are what they claim."""

import chainer
import numpy as np

from vlib import drive
from vlib import loops
from vlib import onpolicy as O
from vlib import replay_agents as R
from vlib.harness import Check
from chainerrl import experiments
from chainerrl.experiments.hooks import LinearInterpolationHook

chk = Check(
    'C32',
    'distinct (agent, interface, decay or window, numbers of acts and '
    'updates) training histories whose statistics were recomputed after every '
    'step, plus distinct (schedule, training loop) pairs',
    ['feed-forward models without batch normalisation',
     'losses are taken from the values that are differentiated'])

EMA_ACT = {'DQN', 'DoubleDQN', 'SARSA', 'PAL', 'DoublePAL', 'AL', 'DPP',
           'DPPL', 'DPPGreedy', 'ResidualDQN', 'CategoricalDQN',
           'CategoricalDoubleDQN'}


class Losses(object):
    """Values differentiated for each update of each optimizer."""

    def __init__(self, b):
        self.events = []      # optimizer names, in order
        self.of = dict((n, []) for n in b.optimizers)
        self.before = {}      # name -> callable run before an update
        self.last = None
        orig_backward = chainer.Variable.backward
        me = self

        def backward(var, *a, **k):
            if var.size == 1:
                me.last = float(np.asarray(var.array).reshape(-1)[0])
            return orig_backward(var, *a, **k)
        self.undo = lambda: setattr(chainer.Variable, 'backward',
                                    orig_backward)
        chainer.Variable.backward = backward
        for name, opt in b.optimizers.items():
            self.wrap(name, opt)

    def wrap(self, name, opt):
        orig = opt.update

        def update(*a, **k):
            if name in self.before:
                self.before[name]()
            r = orig(*a, **k)
            self.of[name].append(self.last)
            self.events.append(name)
            return r
        opt.update = update


def ema(xs, decay):
    m = 0.
    for x in xs:
        m = decay * m + (1 - decay) * x
    return m


def mean_last(xs, n):
    xs = list(xs)[-n:] if n else []
    return np.mean(xs) if xs else np.nan


def stats(ctx, agent):
    s = agent.get_statistics()
    d = dict(s)
    ctx.check(len(d) == len(s) and all(isinstance(k, str) for k in d),
              'duplicate-names', str(s))
    return d


def arr(obs):
    import vlib.agentkit as K
    return np.stack([np.asarray(K.obs_phi(o)) for o in obs])


def quiet(f, *a):
    """Recompute something without touching random numbers or graphs."""
    with drive.PreservedRandomState(), \
            chainer.using_config('train', False), chainer.no_backprop_mode():
        return f(*a)


def compare(ctx, name, d, want, where):
    for k, v in want.items():
        if not ctx.check(k in d, 'missing:' + name + ':' + k, str(sorted(d))):
            continue
        ctx.close(float(d[k]), float(v), '{}:{}'.format(name, k),
                  lambda: '{}: statistic {} after {}'.format(name, k, where),
                  rtol=2e-4, atol=2e-5)


def decays(rng, names):
    return dict((n, float(rng.choice([0., .5, .9, .99, 1.])))
                for n in names)


def drive_q(ctx, name, batch):
    rng = ctx.rng
    kw = decays(rng, ['average_q_decay', 'average_loss_decay'])
    spec = dict(family='R', name=name, recurrent=False, batch=batch, bn=False,
                kw=kw)
    d = drive.Driver(int(rng.randint(2 ** 31)), spec)
    agent, model = d.agent, d.b.online['model']
    L = Losses(d.b)
    qs = []
    try:
        fn = 'batch_act_and_train' if batch else 'act_and_train'
        orig = getattr(agent, fn)

        def wrapped(obs, *a):
            r = orig(obs, *a)
            if name in EMA_ACT:   # others draw quantiles
                q = quiet(lambda: model(
                    arr(obs if batch else [obs])).max.array)
                qs.append(float(np.mean(q)))
            return r
        setattr(agent, fn, wrapped)
        n = int(rng.randint(20, 60))
        want = {'average_q': 0, 'average_loss': 0, 'n_updates': 0}
        compare(ctx, name, stats(ctx, agent), want, 'construction')
        for i in range(n):
            d.step()
            want = {'average_loss': ema(L.of['q'], kw['average_loss_decay']),
                    'n_updates': len(L.of['q'])}
            if name in EMA_ACT:
                want['average_q'] = ema(qs, kw['average_q_decay'])
            compare(ctx, name, stats(ctx, agent), want,
                    '{} steps with {}'.format(i + 1, kw))
        ctx.count('updates', len(L.of['q']))
    finally:
        L.undo()
    ctx.sig(name, batch, tuple(sorted(kw.items())), n, len(L.of['q']))


@chk.scenario(quick=56, thorough=500, cpu=300)
def q_learning(ctx):
    names = sorted(R.DISCRETE)
    name = names[ctx.idx % len(names)]
    drive_q(ctx, name, bool(ctx.rng.randint(2)) and name != 'SARSA')


@chk.scenario(quick=24, thorough=240, cpu=300)
def deterministic_policy_gradients(ctx):
    """DDPG and PGT: decayed averages over acting and updates."""
    rng = ctx.rng
    name = ['DDPG', 'PGT'][ctx.idx % 2]
    kw = decays(rng, ['average_q_decay', 'average_loss_decay'])
    if name == 'PGT':
        kw['act_deterministically'] = bool(rng.randint(2))
    batch = name == 'DDPG' and bool(rng.randint(2))
    spec = dict(family='R', name=name, recurrent=False, batch=batch, bn=False,
                kw=kw)
    d = drive.Driver(int(rng.randint(2 ** 31)), spec)
    agent, model = d.agent, d.b.online['model']
    L = Losses(d.b)
    qs = []
    shown = {'obs': None, 'q': []}
    fn = 'batch_act_and_train' if batch else 'act_and_train'
    orig, orig_select = getattr(agent, fn), agent.explorer.select_action

    def q_of(obs, acts):
        return quiet(lambda: model.q_function(
            arr(obs), np.stack([np.asarray(a, dtype='f') for a in acts])
        ).array).reshape(-1)

    def select(t, greedy, *a, **k):
        # before any update of this step
        i = len(shown['q'])
        shown['q'].append(float(q_of([shown['obs'][i]], [greedy()])[0]))
        return orig_select(t, greedy, *a, **k)
    agent.explorer.select_action = select

    def wrapped(obs, *a):
        shown['obs'], shown['q'] = (obs if batch else [obs]), []
        r = orig(obs, *a)
        if shown['q']:   # none while actions are those of the burn-in
            qs.append(float(np.mean(shown['q'])))
        return r
    setattr(agent, fn, wrapped)
    try:
        n = int(rng.randint(20, 60))
        for i in range(n):
            d.step()
            if rng.rand() < .3:
                if name == 'DDPG' and rng.randint(2):
                    k = int(rng.randint(1, 4))
                    obs = [e.obs() for e in d.envs * k][:k]
                    acts = np.stack([np.asarray(a)
                                     for a in agent.batch_act(obs)])
                else:
                    obs = [d.envs[0].obs()]
                    acts = np.asarray(agent.act(obs[0]))[None]
                qs.append(float(np.mean(q_of(obs, acts))))
            compare(ctx, name, stats(ctx, agent), {
                'average_q': ema(qs, kw['average_q_decay']),
                'average_critic_loss': ema(
                    L.of['critic'], kw['average_loss_decay']),
                'average_actor_loss': ema(
                    L.of['actor'], kw['average_loss_decay'])},
                '{} steps with {}'.format(i + 1, kw))
        ctx.count('updates', len(L.of['critic']))
        ctx.count('evaluation_acts', len(qs))
    finally:
        L.undo()
    ctx.sig(name, batch, tuple(sorted(kw.items())), n, len(qs))


@chk.scenario(quick=24, thorough=240, cpu=300)
def twin_critics(ctx):
    """TD3 and SAC: means over what recent updates predicted."""
    rng = ctx.rng
    name = ['TD3', 'SoftActorCritic'][ctx.idx % 2]
    kw = {'minibatch_size': int(rng.randint(1, 6))}
    if name == 'TD3':
        kw['policy_update_delay'] = int(rng.randint(1, 4))
    batch = bool(rng.randint(2))
    spec = dict(family='R', name=name, recurrent=False, batch=batch, bn=False,
                kw=kw)
    d = drive.Driver(int(rng.randint(2 ** 31)), spec)
    agent = d.agent
    L = Losses(d.b)
    pred = {'q_func1': [], 'q_func2': []}
    ents = []
    state = {}
    orig_sample = d.b.buffer.sample

    def sample(n):
        exps = orig_sample(n)
        state['s'] = arr([e[0]['state'] for e in exps])
        acts = np.stack([np.asarray(e[0]['action'], dtype='f')
                         for e in exps])
        for k in pred:
            pred[k].extend(quiet(lambda: d.b.online[k](
                state['s'], acts).array).reshape(-1).tolist())
        return exps
    d.b.buffer.sample = sample

    def entropy():
        ents.extend(quiet(lambda: d.b.online['policy'](
            state['s']).entropy.array).reshape(-1).tolist())
    if name == 'SoftActorCritic':
        L.before['actor'] = entropy
    try:
        n = int(rng.randint(15, 60))
        for i in range(n):
            if len(L.of['critic']) >= 95 or len(pred['q_func1']) > 950:
                break   # the (undocumented) windows hold at least that many
            d.step()
            want = {'average_q1': mean_last(pred['q_func1'], 1000),
                    'average_q2': mean_last(pred['q_func2'], 1000),
                    'average_q_func1_loss': mean_last(L.of['critic'], 100),
                    'average_q_func2_loss': mean_last(L.of['critic2'], 100)}
            if name == 'TD3':
                want.update({
                    'average_policy_loss': mean_last(L.of['actor'], 100),
                    'policy_n_updates': len(L.of['actor']),
                    'q_func_n_updates': len(L.of['critic'])})
            else:
                want.update({'n_updates': len(L.of['actor']),
                             'average_entropy': mean_last(ents, 1000)})
            compare(ctx, name, stats(ctx, agent), want,
                    '{} steps'.format(i + 1))
        ctx.count('updates', len(L.of['critic']))
    finally:
        L.undo()
    ctx.sig(name, batch, kw['minibatch_size'], n, len(L.of['critic']),
            len(L.of['actor']))


@chk.scenario(quick=36, thorough=360, cpu=300)
def trust_region_and_proximal(ctx):
    """PPO and TRPO: means over the configured windows."""
    rng = ctx.rng
    name = ['PPO', 'TRPO'][ctx.idx % 2]
    win = ['value_stats_window', 'entropy_stats_window']
    win += ['value_loss_stats_window', 'policy_loss_stats_window'] \
        if name == 'PPO' else ['kl_stats_window',
                               'policy_step_size_stats_window']
    kw = dict((w, int(rng.choice([1, 3, 10, 50, 1000]))) for w in win)
    coef = float(rng.choice([0., .5, 1., 3.]))
    if name == 'PPO':
        kw['value_loss_stats_window'] = kw['policy_loss_stats_window']
        kw.update(value_func_coef=coef, entropy_coef=0.,
                  clip_eps_vf=[None, .2][rng.randint(2)])
    batch = name == 'PPO' and bool(rng.randint(2))
    spec = dict(family='O', name=name,
                kind=['softmax', 'gauss'][rng.randint(2)], recurrent=False,
                batch=batch, bn=False, kw=kw)
    d = drive.Driver(int(rng.randint(2 ** 31)), spec)
    agent = d.agent
    L = Losses(d.b)
    vals, ents = [], []
    seen = []
    fn = 'batch_act_and_train' if batch else 'act_and_train'
    orig = getattr(agent, fn)

    def evaluate(obs):
        x = arr(obs)
        if agent.obs_normalizer is not None:
            x = agent.obs_normalizer(x, update=False)
        if name == 'PPO':
            return d.b.online['model'](x)
        return d.b.online['policy'](x), d.b.online['vf'](x)

    def wrapped(obs, *a):
        r = orig(obs, *a)
        obs = obs if batch else [obs]
        p, v = quiet(evaluate, obs)
        vals.extend(np.asarray(v.array).reshape(-1).tolist())
        ents.extend(np.asarray(p.entropy.array).reshape(-1).tolist())
        seen.append(obs)
        return r
    setattr(agent, fn, wrapped)
    opt = list(L.of)[0]
    try:
        n = int(rng.randint(20, 60))
        for i in range(n):
            d.step()
            s = stats(ctx, agent)
            want = {'average_value': mean_last(
                        vals, kw['value_stats_window']),
                    'average_entropy': mean_last(
                        ents, kw['entropy_stats_window'])}
            if name == 'PPO':
                want['n_updates'] = len(L.of[opt])
            compare(ctx, name, s, want, '{} steps with {}'.format(i + 1, kw))
            if name == 'PPO':
                w = kw['policy_loss_stats_window']
                tot = s['average_policy_loss'] + \
                    coef * s['average_value_loss']
                ctx.close(tot, mean_last(L.of[opt], w), 'PPO:loss',
                          lambda: 'mean policy loss + {} * mean value loss is '
                          'not the mean of the last {} losses'.format(coef, w),
                          rtol=1e-3, atol=1e-4)
                ctx.check(not s['average_value_loss'] < 0, 'PPO:value-loss',
                          lambda: str(s))
            else:
                kl = s['average_kl']
                ctx.check(np.isnan(kl) or -1e-6 <= kl <= agent.max_kl,
                          'TRPO:average_kl', lambda: str(s))
                st = s['average_policy_step_size']
                ctx.check(np.isnan(st) or 0 <= st <= 1,
                          'TRPO:step-size', lambda: str(s))
            ev = s['explained_variance']
            ctx.check(np.isnan(ev) or ev <= 1 + 1e-9, name + ':explained',
                      lambda: str(s))
            if not L.of[opt]:
                ctx.check(np.isnan(ev), name + ':explained', lambda: str(s))
        ctx.count('updates', len(L.of[opt]))
    finally:
        L.undo()
    ctx.sig(name, batch, tuple(sorted((k, v) for k, v in kw.items()
                                      if 'window' in k)), n)


@chk.scenario(quick=60, thorough=600, cpu=300)
def rollouts(ctx):
    """A2C, A3C, ACER, PCL, NSQ and REINFORCE: decayed averages."""
    rng = ctx.rng
    name = ['A2C', 'A3C', 'ACER', 'PCL', 'NSQ', 'REINFORCE'][ctx.idx % 6]
    names = {'A2C': ['average_value_decay', 'average_entropy_decay',
                     'average_actor_loss_decay'],
             'A3C': ['average_value_decay', 'average_entropy_decay'],
             'ACER': ['average_value_decay', 'average_entropy_decay'],
             'PCL': ['average_value_decay', 'average_entropy_decay',
                     'average_loss_decay'],
             'NSQ': ['average_q_decay'],
             'REINFORCE': ['average_entropy_decay']}[name]
    kw = decays(rng, names)
    actor_only = name == 'A2C' and bool(rng.randint(2))
    if actor_only:
        kw.update(v_loss_coef=0., entropy_coeff=0., pi_loss_coef=1.)
    kind = 'softmax' if name == 'NSQ' else \
        ['softmax', 'gauss'][rng.randint(2)]
    if name not in O.GAUSS:
        kind = 'softmax'
    spec = dict(family='O', name=name, kind=kind, recurrent=False,
                batch=name == 'A2C', bn=False, kw=kw)
    d = drive.Driver(int(rng.randint(2 ** 31)), spec)
    agent, model = d.agent, d.b.online['model']
    L = Losses(d.b)
    vals, ents = [], []
    sdn = name == 'ACER' and kind == 'gauss'
    fn = 'batch_act_and_train' if name == 'A2C' else 'act_and_train'
    orig = getattr(agent, fn)
    window = []
    # asynchronous agents act with their local model, which is in step with
    # the shared one
    local = getattr(agent, 'model', model)

    def wrapped(obs, *a):
        r = orig(obs, *a)
        if name == 'A2C':
            window.append(arr(obs))
            return r
        x = arr([obs])
        if name == 'NSQ':
            q = quiet(lambda: agent.q_function(x).q_values.array)
            vals.append(float(q[0, int(r)]))
        elif name == 'REINFORCE':
            ents.append(float(quiet(lambda: local(x).entropy.array[0])))
        elif name == 'ACER':
            if sdn:
                p = quiet(lambda: local(x)[0])
            else:
                p, _, v = quiet(lambda: local(x))
                vals.append(float(v.array.reshape(-1)[0]))
            ents.append(float(p.entropy.array[0]))
        else:
            p, v = quiet(lambda: local.pi_and_v(x) if name == 'A3C'
                         else local(x))
            vals.append(float(v.array.reshape(-1)[0]))
            ents.append(float(p.entropy.array[0]))
        return r
    setattr(agent, fn, wrapped)

    def a2c_update():
        x = np.concatenate(window[-agent.update_steps:])
        p, v = quiet(lambda: model.pi_and_v(x))
        vals.append(float(np.mean(v.array)))
        ents.append(float(np.mean(p.entropy.array)))
    if name == 'A2C':
        L.before['opt'] = a2c_update
    try:
        n = int(rng.randint(15, 60))
        for i in range(n):
            d.step()
            want = {}
            if name == 'NSQ':
                want['average_q'] = ema(vals, kw['average_q_decay'])
            else:
                want['average_entropy'] = ema(
                    ents, kw['average_entropy_decay'])
            if name in ('A2C', 'A3C', 'PCL') or (name == 'ACER' and not sdn):
                want['average_value'] = ema(vals, kw['average_value_decay'])
            if actor_only:
                want['average_actor'] = ema(
                    L.of['opt'], kw['average_actor_loss_decay'])
            if name == 'PCL':
                want['average_loss'] = ema(
                    L.of['opt'], kw['average_loss_decay'])
            compare(ctx, name, stats(ctx, agent), want,
                    '{} steps with {}'.format(i + 1, kw))
        ctx.count('updates', len(L.of['opt']))
    finally:
        L.undo()
    ctx.sig(name, kind, tuple(sorted(kw.items())), n, len(L.of['opt']))


# ------------------------------------------------------------------ schedules

def interpolated(step, total, a, b):
    if step <= 1:
        return a
    if step >= total:
        return b
    return a + (b - a) * (step - 1.) / (total - 1.)


@chk.scenario(quick=120, thorough=1200)
def interpolation_hook(ctx):
    """LinearInterpolationHook inside the training loops."""
    rng = ctx.rng
    steps = int(rng.randint(1, 40))
    total = int(rng.choice([2, 5, 17, 40, 100]))
    a, b = [float(x) for x in rng.choice(
        [0., 1e-3, 1., -2., 100., 7.], 2)]
    seen = []
    marks = []

    def setter(env, agent, value):
        seen.append((id(env), id(agent), float(value)))
    hook = LinearInterpolationHook(total, a, b, setter)
    log = []
    agent = loops.RecAgent(rng, log)
    how = ['loop', 'direct'][rng.randint(2)]
    if how == 'loop':
        env = loops.ScriptEnv(rng, log, p_done=.2)
        experiments.train_agent(
            agent, env, steps, ctx.tmp, step_hooks=[
                lambda e, g, t: marks.append(t), hook])
        order = marks
        ctx.check(all(x[0] == id(env) and x[1] == id(agent) for x in seen),
                  'hook-arguments')
        ctx.check(order == list(range(1, steps + 1)), 'hook-steps',
                  lambda: str(order))
    else:
        env = object()
        order = [int(x) for x in rng.randint(-3, 2 * total, 60)]
        for t in order:
            hook(env, agent, t)
    ctx.require(len(seen) == len(order), 'hook-calls',
                lambda: '{} {}'.format(len(seen), len(order)))
    for t, (_, _, v) in zip(order, seen):
        ctx.check(abs(v - interpolated(t, total, a, b)) <=
                  1e-9 * (abs(a) + abs(b)), 'interpolation', lambda:
                  'step {} of {} from {} to {} gave {}'.format(
                      t, total, a, b, v))
    ctx.sig(how, total, a, b, min(steps, total) == total)


if __name__ == '__main__':
    raise SystemExit(chk.main())
