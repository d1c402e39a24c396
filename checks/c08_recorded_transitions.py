"""C08: replay agents record every experienced transition exactly once."""
import collections
import sys

import chainer
import numpy as np

from vlib.harness import Check
from vlib import agentkit as K
from vlib import replay_agents as R

chk = Check('C08', rule=(
    'every replay agent (14 value-based, 4 actor-critic; recurrent and not) '
    'on random histories of the single or batch interface: 1-4 environments, '
    'episode lengths from 1 step, terminal ends and resets, interleaved '
    'evaluation (act, batch_act, batch_observe, stop_episode), with updates '
    'running; every call on the replay buffer is compared with the '
    'interaction and the final content with the n-step windows (or episodes) '
    'of it.  Non-trivial: distinct (agent, interface, history).'),
    assumptions=['scripted environments stand for all environments',
                 'storage itself is the subject of C01/C02'])


def same_value(a, b):
    if a is b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(
            same_value(x, y) for x, y in zip(a, b))
    return np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True)


class Expect(object):
    """What the buffer has to be told."""

    def __init__(self, ctx, where):
        self.ctx = ctx
        self.where = where
        self.seen = collections.defaultdict(list)    # env -> appended
        self.open = collections.defaultdict(list)    # expected, per episode
        self.episodes = collections.defaultdict(list)
        self.ended = collections.defaultdict(int)
        self.stop_allowed = set()

    def expected(self, env, tr):
        self.open[env].append(tr)

    def end(self, env):
        if self.open[env]:
            self.episodes[env].append(self.open[env])
            self.open[env] = []

    def all(self, env):
        out = []
        for ep in self.episodes[env]:
            out.extend(ep)
        return out + self.open[env]


def equal_tr(got, want):
    return (same_value(got['state'], want['state']) and
            same_value(got['action'], want['action']) and
            float(got['reward']) == float(want['reward']) and
            same_value(got['next_state'], want['next_state']) and
            bool(got['is_state_terminal']) == want['terminal'])


def describe(t):
    return '{} a={} r={} -> {} terminal={}'.format(
        t['state'][0], t['action'], t['reward'],
        None if t['next_state'] is None else t['next_state'][0],
        t.get('is_state_terminal', t.get('terminal')))


def check_stream(ctx, exp, env, where):
    want, got = exp.all(env), exp.seen[env]
    ctx.count('transitions', len(want))
    if len(want) != len(got):
        ctx.fatal('transition-count',
                  '{}: environment {} experienced {} transitions, {} were '
                  'recorded'.format(where, env, len(want), len(got)))
    for w, g in zip(want, got):
        if not ctx.check(equal_tr(g, w), 'transition', lambda: (
                '{}: environment {}: recorded {} experienced {}'.format(
                    where, env, describe(g), describe(w)))):
            return


def windows_of(episodes, open_, n):
    out = []
    for ep in episodes:
        for i in range(len(ep)):
            out.append(tuple(t['state'][0] for t in ep[i:i + n]))
    for i in range(len(open_)):
        if i + n <= len(open_):
            out.append(tuple(t['state'][0] for t in open_[i:i + n]))
    return out


def check_content(ctx, exp, buf, envs, n, episodic, where):
    """Whole buffer content against the windows / episodes experienced."""
    if episodic:
        got = [tuple(t['state'][0] for t in ep)
               for ep in buf.sample_episodes(buf.n_episodes)] \
            if buf.n_episodes else []
        want = [tuple(t['state'][0] for t in ep)
                for e in envs for ep in exp.episodes[e]]
    else:
        got = [tuple(t['state'][0] for t in w)
               for w in (buf.sample(len(buf)) if len(buf) else [])]
        want = [w for e in envs
                for w in windows_of(exp.episodes[e], exp.open[e], n)]
    ctx.check(sorted(got) == sorted(want), 'content', lambda: (
        '{}: buffer holds {} expected {}'.format(
            where, sorted(got)[:30], sorted(want)[:30])))


def pick(ctx, batch_mode):
    rng = ctx.rng
    names = [(n, False) for n in R.DISCRETE + R.CONTINUOUS
             if not (batch_mode and n == 'PGT')]
    names += [(n, True) for n in R.RECURRENT_DISCRETE]
    if not batch_mode:
        names.append(('DDPG', True))
    return names[ctx.idx % len(names)]


def make(ctx, name, recurrent, exp, n):
    rng = ctx.rng
    if recurrent:
        buf = R.LoggedEpisodic()
    else:
        buf = (R.LoggedReplay if rng.randint(2) or name in R.CONTINUOUS
               else R.LoggedPrioritized)(num_steps=n)
    exp_log = exp

    def log(kind, what):
        if kind == 'append':
            exp_log.seen[what['env_id']].append(what)
        elif kind == 'stop':
            exp_log.ended[what] += 1
    buf.log = log
    start = int(rng.choice([2, 5, 10 ** 6]))
    explorer = R.LoggedExplorer(np.random.RandomState(rng.randint(1 << 30)),
                                name in R.DISCRETE)
    kw = dict(replay_start_size=start, minibatch_size=2,
              update_interval=int(rng.choice([1, 3])))
    if name not in ('TD3', 'SoftActorCritic'):
        kw['target_update_interval'] = int(rng.choice([1, 4]))
    burnin = None
    if name in ('DDPG', 'TD3', 'SoftActorCritic') and rng.randint(2):
        def burnin():
            return rng.normal(size=R.N_ACT).astype('f')
        kw['burnin_action_func'] = burnin
    built = R.make_agent(rng, name, buf, explorer, recurrent, **kw)
    return built, buf, start


def eval_noise(ctx, agent, env, batch):
    """Some evaluation in between."""
    rng = ctx.rng
    ctx.count('evaluations')
    for _ in range(rng.randint(1, 3)):
        if batch and rng.randint(2):
            k = rng.randint(1, 4)
            for _ in range(rng.randint(1, 3)):
                agent.batch_act([env.obs() for _ in range(k)])
                agent.batch_observe(
                    [env.obs() for _ in range(k)], [0.] * k,
                    list(rng.rand(k) < .3), list(rng.rand(k) < .3))
            agent.stop_episode()
        else:
            for _ in range(rng.randint(1, 3)):
                agent.act(env.obs())
            agent.stop_episode()


@chk.scenario(quick=480, thorough=6000)
def single_interface(ctx):
    rng = ctx.rng
    name, recurrent = pick(ctx, False)
    n = int(rng.choice([1, 1, 2, 3]))
    exp = Expect(ctx, name)
    built, buf, start = make(ctx, name, recurrent, exp, n)
    agent = built.agent
    stateful = name == 'DDPG' and recurrent
    env = R.EnvScript(rng, p_done=.15, p_reset=.1)
    ev = R.EnvScript(rng, 0, 0, env_id='eval')
    where = 'single {} recurrent={} n={} start={}'.format(
        name, recurrent, n, start)
    obs, reward, last = env.obs(), 0., None
    steps = rng.randint(10, 40)
    track_rs = recurrent and not stateful and start > 10 ** 5
    rs = None
    rss = []          # recurrent states before each observation
    for _ in range(steps):
        if not stateful and rng.rand() < .15:
            eval_noise(ctx, agent, ev, hasattr(agent, 'batch_act'))
        before = len(exp.seen[0])
        if track_rs:
            with chainer.using_config('train', False), \
                    chainer.no_backprop_mode():
                rss.append(rs)
                _, rs = agent.model(K.obs_phi(obs)[None], rs)
        a = agent.act_and_train(obs, reward)
        if last is not None:
            exp.expected(0, dict(last, reward=reward, next_state=obs,
                                 terminal=False))
        ctx.check(len(exp.seen[0]) - before == (last is not None),
                  'recorded-when', where)
        if name in R.CONTINUOUS and last is not None and len(exp.seen[0]):
            na = exp.seen[0][-1]['next_action']
            ctx.check(na is None or same_value(na, a), 'next-action', where)
        last = dict(state=obs, action=np.copy(a))
        obs, reward, done, reset = env.step()
        if done or reset:
            agent.stop_episode_and_train(obs, reward, done)
            exp.expected(0, dict(last, reward=reward, next_state=obs,
                                 terminal=done))
            exp.end(0)
            last = None
            if track_rs:
                check_rs(ctx, agent, exp.seen[0], rss, rs, where)
                rs, rss = None, []
            if rng.rand() < .3:
                eval_noise(ctx, agent, ev, hasattr(agent, 'batch_act'))
            obs, reward = env.obs(), 0.
            ctx.count('terminal_ends' if done else 'reset_ends')
    check_stream(ctx, exp, 0, where)
    ctx.check(set(exp.seen) <= {0}, 'unknown-stream', where)
    check_content(ctx, exp, buf, [0], n, recurrent, where)
    ctx.sig(where, ctx.case_seed)
    ctx.sample('{}: {} transitions in {} episodes'.format(
        where, len(exp.seen[0]), len(exp.episodes[0])))


def flat(x):
    if x is None:
        return [None]
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in flat(y)]
    return [np.asarray(getattr(x, 'array', x))]


def same_rs(ctx, got, want, model, where, what):
    """want: batch-of-one recurrent state or None (initial)."""
    if want is not None:
        want = model.get_recurrent_state_at(want, 0, unwrap_variable=True)
    g, w = flat(got), flat(want)
    if want is None or got is None:
        # the initial state may be None or zeros
        ok = all(x is None or not np.any(x) for x in g + w)
    else:
        ok = len(g) == len(w) and all(
            (x is None) == (y is None) and
            (x is None or np.allclose(x, y, atol=1e-5))
            for x, y in zip(g, w))
    ctx.check(ok, 'recurrent-state', lambda: '{} {} recorded {} expected {}'
              .format(where, what, g, w))


def check_rs(ctx, agent, seen, rss, final, where):
    """Recorded recurrent states of the last episode."""
    k = len(rss)
    states = rss + [final]
    for i, tr in enumerate(seen[-k:]):
        same_rs(ctx, tr['recurrent_state'], states[i], agent.model, where,
                'recurrent_state')
        same_rs(ctx, tr['next_recurrent_state'], states[i + 1], agent.model,
                where, 'next_recurrent_state')
    ctx.count('recurrent_states', k)


@chk.scenario(quick=480, thorough=6000)
def batch_interface(ctx):
    rng = ctx.rng
    name, recurrent = pick(ctx, True)
    n = int(rng.choice([1, 1, 2, 3]))
    exp = Expect(ctx, name)
    built, buf, start = make(ctx, name, recurrent, exp, n)
    agent = built.agent
    m = rng.randint(1, 5)
    envs = [R.EnvScript(rng, .15, .1, env_id=i) for i in range(m)]
    ev = R.EnvScript(rng, 0, 0, env_id='eval')
    where = 'batch {} recurrent={} n={} start={} envs={}'.format(
        name, recurrent, n, start, m)
    obs = [e.obs() for e in envs]
    track_rs = recurrent and start > 10 ** 5
    rs = [None] * m
    rss = [[] for _ in range(m)]
    for _ in range(rng.randint(5, 25)):
        if rng.rand() < .15:
            eval_noise(ctx, agent, ev, True)
        acts = agent.batch_act_and_train(list(obs))
        ctx.check(len(acts) == m, 'n-actions', where)
        if track_rs:
            with chainer.using_config('train', False), \
                    chainer.no_backprop_mode():
                for i in range(m):
                    rss[i].append(rs[i])
                    _, rs[i] = agent.model(K.obs_phi(obs[i])[None], rs[i])
        acts = [np.copy(a) for a in acts]
        if rng.rand() < .15:
            # evaluation between acting and observing
            eval_noise(ctx, agent, ev, True)
        res = [e.step() for e in envs]
        nobs = [r[0] for r in res]
        agent.batch_observe_and_train(
            list(nobs), [r[1] for r in res], [r[2] for r in res],
            [r[3] for r in res])
        for i in range(m):
            _, rew, done, reset = res[i]
            exp.expected(i, dict(state=obs[i], action=acts[i], reward=rew,
                                 next_state=nobs[i], terminal=done))
            if done or reset:
                exp.end(i)
                ctx.count('terminal_ends' if done else 'reset_ends')
                if track_rs:
                    check_rs(ctx, agent, exp.seen[i], rss[i], rs[i], where)
                    rs[i], rss[i] = None, []
                nobs[i] = envs[i].obs()
        obs = nobs
    for i in range(m):
        check_stream(ctx, exp, i, where)
    ctx.check(set(exp.seen) <= set(range(m)), 'unknown-stream', where)
    check_content(ctx, exp, buf, list(range(m)), n, recurrent, where)
    ctx.sig(where, ctx.case_seed)
    ctx.sample('{}: {} transitions'.format(
        where, sum(len(v) for v in exp.seen.values())))


if __name__ == '__main__':
    sys.exit(chk.main())
