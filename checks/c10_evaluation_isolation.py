"""C10: evaluation never influences training."""
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from vlib.harness import Check  # noqa: E402
from vlib import drive as D  # noqa: E402
from vlib import onpolicy as O  # noqa: E402
from vlib import replay_agents as R  # noqa: E402

import chainer  # noqa: E402
import numpy as np  # noqa: E402

from chainerrl import env as env_base  # noqa: E402
from chainerrl.experiments import evaluator  # noqa: E402

chk = Check(
    'C10',
    rule='Twin runs of every agent on the same scripted experience and '
    'random numbers, one of them with evaluations (act / batch_act, '
    'batch_observe, stop_episode, the real evaluation loops) inserted at '
    'random points; every action, every event at the replay buffer and the '
    'complete learned state must stay identical.  Global random numbers '
    'consumed by an evaluation are given back.',
    assumptions=['agents that keep recurrent states inside the model are '
                 'evaluated between training episodes only, as stated'])


class EvalEnv(env_base.Env):
    """Environment for the evaluation loops."""

    def __init__(self, rng):
        self.s = R.EnvScript(np.random.RandomState(rng.randint(2 ** 31)),
                             .2, .1, env_id=99)

    def reset(self):
        return self.s.obs()

    def step(self, action):
        o, r, d, reset = self.s.step()
        return o, r, d, ({'needs_reset': True} if reset else {})

    def close(self):
        pass


class EvalVectorEnv(env_base.VectorEnv):
    def __init__(self, rng, n):
        self.envs = [EvalEnv(rng) for _ in range(n)]
        self.num_envs = n
        self.last = [None] * n

    def reset(self, mask=None):
        if mask is None:
            mask = np.zeros(self.num_envs)
        for i, m in enumerate(mask):
            if not m:
                self.last[i] = self.envs[i].reset()
        return list(self.last)

    def step(self, actions):
        out = [e.step(a) for e, a in zip(self.envs, actions)]
        self.last, r, d, info = [list(x) for x in zip(*out)]
        return list(self.last), r, d, info

    def seed(self, seeds):
        pass

    def close(self):
        pass


def single_eval(rng, agent, how, k=None):
    env = R.EnvScript(np.random.RandomState(rng.randint(2 ** 31)), 0, 0,
                      env_id=77)
    if how == 'loop':
        evaluator.eval_performance(
            EvalEnv(rng), agent, n_steps=None, n_episodes=int(
                rng.randint(1, 3)), max_episode_len=6)
        return 3
    n = 0
    for _ in range(rng.randint(1, 3)):
        for _ in range(rng.randint(1, 5)):
            agent.act(env.obs())
            n += 1
        agent.stop_episode()
    return n


def batch_eval(rng, agent, how, k=None):
    k = k or int(rng.randint(1, 4))
    if how == 'loop':
        evaluator.eval_performance(
            EvalVectorEnv(rng, k), agent, n_steps=None, n_episodes=int(
                rng.randint(1, 3)), max_episode_len=6)
        return 3
    envs = [R.EnvScript(np.random.RandomState(rng.randint(2 ** 31)), .2, .1,
                        env_id=50 + i) for i in range(k)]
    obs = [e.obs() for e in envs]
    n = 0
    m = rng.randint(1, 6)
    for t in range(m):
        agent.batch_act(obs)
        n += k
        outs = [e.step() for e in envs]
        # an evaluation ends all its episodes
        reset = [x[3] or t == m - 1 for x in outs]
        agent.batch_observe([x[0] for x in outs], [x[1] for x in outs],
                            [x[2] for x in outs], reset)
        obs = [e.obs() for e in envs]
    return n


SPECS = D.all_specs()


def n_steps_for(spec):
    if spec['name'] == 'TRPO' and spec['recurrent']:
        return 26
    return 45


def run(ctx, seed, spec, plan, bn):
    """plan: {step: seed of the evaluation before that step}."""
    np.random.seed(seed)
    random.seed(seed)
    s = dict(spec, bn=bn)
    d = D.Driver(seed, s)
    # recurrent agents are evaluated in one and the same environment
    u0 = np.random.RandomState(seed + 2).rand()
    k = 1 + seed % 3 if spec['recurrent'] else None
    states = []
    n_eval = 0
    cfg = (chainer.config.train, chainer.config.enable_backprop)
    for t in range(n_steps_for(spec)):
        if t in plan and (d.at_boundary or not D.keeps_state_inside(spec)):
            rng = np.random.RandomState(plan[t])
            batch = spec['batch']
            # a vector environment can be evaluated in while training in a
            # single one and vice versa
            u = rng.rand() if not spec['recurrent'] else u0
            if u < .2 and hasattr(d.agent, 'batch_act') and \
                    not D.keeps_state_inside(spec) and \
                    spec['name'] not in O.STATEFUL + ['TRPO', 'SARSA']:
                batch = not batch
            how = ['loop', 'calls'][rng.randint(2)]
            before = d.state()
            with D.PreservedRandomState():
                n_eval += (batch_eval if batch else single_eval)(
                    rng, d.agent, how, k)
            bad = D.state_diff(before, d.state())
            if not ctx.check(
                    not bad, 'evaluation-changes-state',
                    lambda: '{}: an evaluation ({}, {}) before step {} '
                    'changed {}'.format(D.spec_name(spec), how, 'batch' if
                                        batch else 'single', t, bad[:6])):
                break
            ctx.check((chainer.config.train, chainer.config.enable_backprop)
                      == cfg, 'evaluation-changes-config', D.spec_name(spec))
            ctx.sig(D.spec_name(spec), batch, how, d.at_boundary, bn)
        d.step()
        states.append(len(d.trace))
    return d, states, n_eval


def twin(ctx, spec, bn):
    rng = ctx.rng
    seed = int(rng.randint(2 ** 30))
    n = n_steps_for(spec)
    p = [.05, .3, 1.][rng.randint(3)]
    plan = dict((t, int(rng.randint(2 ** 31))) for t in range(n)
                if rng.rand() < p)
    if not plan:
        plan = {n // 2: 5, n - 3: 7}
    a, sa, _ = run(ctx, seed, spec, {}, bn)
    b, sb, n_eval = run(ctx, seed, spec, plan, bn)
    desc = '{} bn={} evaluations before steps {}'.format(
        D.spec_name(spec), bn, sorted(plan))
    if len(sa) == len(sb):
        for t in range(n):
            i, j = (sa[t - 1] if t else 0), sa[t]
            x, y = a.trace[i:j], b.trace[i:j]
            if not ctx.check(sb[t] == j and x == y, 'training-differs',
                             lambda: '{}: training step {} differs: without '
                             'evaluation {}, with {}'.format(
                                 desc, t, str(x)[:400], str(y)[:400])):
                return
        bad = D.state_diff(a.state(), b.state())
        ctx.check(not bad, 'state-differs', lambda: '{}: after {} steps {} '
                  'differ'.format(desc, n, bad[:6]))
        ctx.check(getattr(a.agent, 't', 0) == getattr(b.agent, 't', 0),
                  'schedule', desc)
    ctx.count('evaluation_actions', n_eval)
    ctx.count('training_steps', n)
    ctx.sample(desc)


FF = [s for s in SPECS if not s['recurrent']]
REC = [s for s in SPECS if s['recurrent']]


@chk.scenario(quick=3 * len(FF), thorough=24 * len(FF), cpu=300)
def feed_forward(ctx):
    spec = FF[ctx.idx % len(FF)]
    twin(ctx, spec, bool(ctx.idx // len(FF) % 2))


@chk.scenario(quick=4 * len(REC), thorough=24 * len(REC), cpu=600)
def recurrent(ctx):
    twin(ctx, REC[ctx.idx % len(REC)], False)


@chk.scenario(quick=16, thorough=160, cpu=200)
def dropout_and_train_mode(ctx):
    """Acting for evaluation uses the model in test mode, without graph."""
    rng = ctx.rng
    specs = [s for s in FF if s['name'] not in ('NSQ',)] + [
        s for s in FF if s['name'] == 'NSQ']
    spec = specs[ctx.idx * 7 % len(specs)]
    d = D.Driver(int(rng.randint(2 ** 30)), dict(spec, bn=False))
    seen = []

    class Hook(chainer.LinkHook):
        name = 'spy'

        def forward_preprocess(self, args):
            seen.append((type(args.link).__name__,
                         bool(chainer.config.train)))
    for _ in range(5):
        d.step()
    obs = R.EnvScript(rng, 0, 0).obs()
    with Hook():
        if hasattr(d.agent, 'batch_act') and rng.randint(2):
            d.agent.batch_act([obs])
        else:
            d.agent.act(obs)
    ctx.check(bool(seen), 'no-model-evaluated', D.spec_name(spec))
    bad = sorted(set(n for n, train in seen if train))
    ctx.check(not bad, 'train-mode', lambda: '{}: links evaluated in train '
              'mode while acting without training: {}'.format(
                  D.spec_name(spec), bad))
    ctx.sig(D.spec_name(spec))


if __name__ == '__main__':
    raise SystemExit(chk.main())
