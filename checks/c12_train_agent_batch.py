"""C12: protocol monitor of the vectorised training loop."""
import logging
import math
import os
import re

import numpy as np

from vlib.harness import Check
from vlib import loops
from chainerrl import envs
from chainerrl import experiments
from chainerrl.wrappers.vector_frame_stack import VectorEnvWrapper

chk = Check(
    'C12',
    'distinct (number of environments, episode-end kinds, abort point, '
    'logging, evaluation) combinations of vectorised training runs whose '
    'complete event log was checked',
    ['a training step is counted when env.step returns',
     'aborts tested: Exception subclasses and KeyboardInterrupt raised inside '
     'environment, agent, hook or evaluator calls',
     'the evaluation environment is separate from the training environment '
     'except in scenario shared_eval_env'])


class FakeEvaluator(object):
    def __init__(self, log, faults, rng):
        self.log, self.faults = log, faults
        self.rng = np.random.RandomState(rng.randint(2 ** 31))
        self.max_score = -1e9
        self.env = self
        self.closed = 0

    def close(self):
        self.closed += 1

    def evaluate_if_necessary(self, t, episodes):
        self.faults('evaluate')
        ran = self.rng.rand() < .5
        score = None
        if ran:
            score = float(self.rng.normal()) if self.rng.rand() < .5 else \
                float(self.rng.randint(-2, 2))
            self.max_score = max(self.max_score, score)
        self.log.append(('evaluate', t, int(episodes), self.max_score, ran))
        return score


class Lines(logging.Handler):
    def __init__(self, log):
        super().__init__()
        self.log = log

    def emit(self, record):
        self.log.append(('log', record.getMessage()))


def make_logger(log):
    lg = logging.Logger('rec', level=logging.DEBUG)
    lg.addHandler(Lines(log))
    return lg


class TestableSerial(envs.SerialVectorEnv):
    """The real serial vector environment, recording its own calls."""

    def __init__(self, members, log, faults):
        super().__init__(members)
        self.log, self.faults = log, faults
        self.n_closed = 0

    def step(self, actions):
        self.faults('vstep')
        obs, rews, dones, infos = super().step(actions)
        self.log.append(('vstep', list(actions), list(obs), list(rews),
                         list(dones), list(infos)))
        return obs, rews, dones, infos

    def reset(self, mask=None):
        self.faults('vreset')
        obs = super().reset(mask)
        m = [False] * len(obs) if mask is None else [bool(x) for x in mask]
        self.log.append(('vreset', m, list(obs)))
        return obs

    def close(self):
        super().close()
        self.n_closed += 1
        self.log.append(('vclose',))


def setup(ctx, fault):
    rng = ctx.rng
    c = type('Config', (), {})()
    c.log = log = []
    c.num_envs = int(rng.choice([1, 2, 3, 5]))
    c.offset = int(rng.choice([0, 0, rng.randint(0, 20)]))
    c.steps = c.offset + int(rng.randint(1, 60))
    c.max_len = None if rng.rand() < .4 else int(rng.randint(1, 9))
    c.freq = None if rng.rand() < .4 else int(rng.randint(1, 12))
    c.log_interval = None if rng.rand() < .4 else int(rng.randint(1, 15))
    c.window = int(rng.randint(1, 6))
    f = loops.Faults()
    if fault:
        kind = str(rng.choice(['vstep', 'act', 'observe', 'vreset', 'hook',
                               'evaluate', 'step', 'reset']))
        iters = math.ceil((c.steps - c.offset) / c.num_envs)
        n = int(rng.randint(0, iters))
        if kind in ('hook', 'step'):
            n = int(rng.randint(0, iters * c.num_envs))
        if kind == 'vreset':
            n += 1
        if kind == 'reset':
            n += c.num_envs
        exc = [loops.Injected('x'), loops.InjectedInterrupt(), ValueError('v'),
               KeyboardInterrupt()][rng.randint(4)]
        f = loops.Faults(kind, n, exc)
    c.f = f
    members = [loops.ScriptEnv(
        rng, [], name='env{}'.format(i),
        p_done=float(rng.choice([0, .05, .2, .5])),
        p_reset=float(rng.choice([0, 0, .1, .4])), faults=f,
        int_reward=rng.rand() < .3,
        obs=str(rng.choice(['tuple', 'array'])), info_mode=int(rng.randint(3)))
        for i in range(c.num_envs)]
    for m in members:
        m.log = c.log
    c.members = members
    if rng.rand() < .5:
        c.env = TestableSerial(members, log, f)
        c.flavour = 'serial'
    else:
        c.env = loops.RecVectorEnv(
            members, log, faults=f,
            container=[tuple, list][rng.randint(2)])
        c.flavour = 'custom'
    c.agent = loops.RecAgent(rng, log, faults=f, has_t=rng.rand() < .8)
    c.has_t = hasattr(c.agent, 't')
    if c.has_t:
        c.agent.t = int(rng.randint(100))
    c.n_hooks = int(rng.randint(0, 3))
    c.evaluator = FakeEvaluator(log, f, rng) if rng.rand() < .6 else None
    c.success = None
    if c.evaluator is not None and rng.rand() < .4:
        c.success = float(rng.normal() + 1) if rng.rand() < .5 else \
            float(rng.randint(-1, 2))
    return c


def drive(ctx, fault):
    c = setup(ctx, fault)
    f = c.f

    def make_hook(i):
        def hook(henv, hagent, t):
            f('hook')
            c.log.append(('hook', i, henv is c.env, hagent is c.agent, t))
        return hook
    raised = None
    try:
        experiments.train_agent_batch(
            c.agent, c.env, c.steps, ctx.tmp, checkpoint_freq=c.freq,
            log_interval=c.log_interval, max_episode_len=c.max_len,
            step_offset=c.offset, evaluator=c.evaluator,
            successful_score=c.success,
            step_hooks=[make_hook(i) for i in range(c.n_hooks)],
            return_window_size=c.window, logger=make_logger(c.log))
    except (Exception, KeyboardInterrupt) as e:
        if e is not f.exc:
            raise
        raised = e
    ctx.check(f.fired == (raised is not None), 'abort-swallowed',
              'the exception raised inside training did not propagate')
    judge(ctx, c)


def same(x, y):
    return len(x) == len(y) and all(
        np.array_equal(np.asarray(a), np.asarray(b)) for a, b in zip(x, y))


def judge(ctx, c):
    log = c.log
    fault = c.f if c.f.fired else None
    pos = [0]

    def ck(cond, key, msg=''):
        ctx.require(cond, key, lambda: '{}; num_envs={} steps={} offset={} '
                    'max_len={} freq={} fault={} log={}'.format(
                        msg, c.num_envs, c.steps, c.offset, c.max_len, c.freq,
                        fault and (fault.kind, fault.n),
                        log[max(0, pos[0] - 6):pos[0] + 4]))
    n = c.num_envs
    t = c.offset
    obs = None
    lens = [0] * n
    rets = [0.] * n
    finished = []
    ended = [False] * n
    phase = 'first-reset'
    owed = []            # hook / checkpoint events still to come
    kinds = set()
    success_hit = False
    a = None
    last_log_t = None
    iters = 0
    evals = 0
    i = 0
    n_member_resets = [0] * n
    stepped_over = False
    while i < len(log):
        pos[0] = i
        e = log[i]
        k = e[0]
        if k == 'save' and not e[1].endswith('_checkpoint'):
            break
        if k == 'step':
            ck(not e[7], 'step-after-end', 'finished member stepped')
        elif k == 'reset':
            n_member_resets[int(e[1][3:])] += 1
        elif k == 'vreset':
            if phase == 'first-reset':
                ck(not any(e[1]), 'first-reset', 'members not reset: {}'
                   .format(e[1]))
            else:
                ck(phase == 'after' and not owed, 'order',
                   'reset while {} {}'.format(phase, owed))
                ck(e[1] == [not x for x in ended], 'reset-mask',
                   'mask {} although ended {}'.format(e[1], ended))
                ck(t < c.steps and not success_hit, 'reset-after-training')
            for j in range(n):
                if ended[j]:
                    lens[j], rets[j] = 0, 0.
            obs = e[2]
            phase = 'act'
        elif k == 'bact':
            ck(phase == 'act', 'order', 'acting in phase ' + phase)
            ck(same(e[1], obs), 'obs', 'agent was shown {} instead of {}'
               .format(e[1], obs))
            if t == c.offset and c.has_t:
                ck(e[3] == c.offset, 'agent-t', str(e[3]))
            a = e[2]
            phase = 'step'
        elif k == 'vstep':
            ck(phase == 'step', 'order', 'step in phase ' + phase)
            ck(list(e[1]) == a, 'actions', '{} instead of {}'.format(e[1], a))
            iters += 1
            _, _, obs, rews, dones, infos = e
            resets = []
            for j in range(n):
                lens[j] += 1
                rets[j] += rews[j]
                needs = bool(infos[j].get('needs_reset', False))
                lim = lens[j] == c.max_len
                resets.append(needs or lim)
                ended[j] = bool(dones[j]) or needs or lim
                if ended[j]:
                    finished.append(rets[j])
                    kinds.add((bool(dones[j]), needs, lim))
            phase = 'observe'
        elif k == 'bobs':
            ck(phase == 'observe', 'order', 'observe in phase ' + phase)
            ck(same(e[1], obs), 'observe-obs', str(e))
            ck(same(e[2], rews), 'observe-reward', str(e))
            ck([bool(x) for x in e[3]] == [bool(x) for x in dones],
               'observe-done', str(e))
            # the reset flag of an episode that is over anyway is irrelevant
            ck([bool(x) or bool(d) for x, d in zip(e[4], dones)] ==
               [x or bool(d) for x, d in zip(resets, dones)],
               'observe-reset', '{} expected {}'.format(e[4], resets))
            owed = []
            for s in range(n):
                t += 1
                if c.freq and t % c.freq == 0:
                    owed.append(('save', t))
                for h in range(c.n_hooks):
                    owed.append(('hook', h, t))
            t -= n
            phase = 'after'
            evals = 0
        elif k in ('hook', 'save'):
            ck(phase == 'after', 'order', str(e))
            if k == 'hook':
                ck(e[2] and e[3], 'hook-args', str(e))
                key = ('hook', e[1], e[4])
            else:
                key = ('save', int(os.path.basename(e[1])[
                    :-len('_checkpoint')]))
            ck(key in owed, 'hooks-checkpoints', 'unexpected {} owed {}'
               .format(key, owed))
            # step numbers never go back
            ck(key[-1] == min(o[-1] for o in owed), 'hooks-checkpoints',
               '{} before {}'.format(key, owed))
            if k == 'hook':
                ck(key[1] == min(o[1] for o in owed if o[0] == 'hook'
                                 and o[-1] == key[-1]), 'hook-order', str(e))
            owed.remove(key)
        elif k == 'log':
            m = re.search(r'last_R:\s*(\S+)\s+average_R:\s*(\S+)', e[1])
            if m:
                ck(phase == 'after' and not owed, 'order', str(e))
                want = finished[-c.window:]
                for g, w in ((m.group(1), want[-1] if want else np.nan),
                             (m.group(2), np.mean(want) if want else np.nan)):
                    ck(np.isclose(float(g), w, rtol=1e-5, atol=1e-6,
                                  equal_nan=True), 'logged-returns',
                       '{} expected {}'.format(e[1], w))
                mm = re.search(r'step:\s*(\d+)\s+episode:\s*(\d+)', e[1])
                if mm:
                    ck(int(mm.group(1)) == t + n and
                       int(mm.group(2)) == len(finished), 'logged-counts',
                       '{} at {} {}'.format(e[1], t + n, len(finished)))
                ctx.count('log_lines_checked')
        elif k == 'evaluate':
            ck(phase == 'after' and not owed, 'order', str(e))
            evals += 1
            ck(e[1] == t + n, 'evaluate-t', '{} at {}'.format(e, t + n))
            ck(e[2] == len(finished), 'evaluate-episodes', '{} finished {}'
               .format(e, len(finished)))
            if e[4] and c.success is not None and e[3] >= c.success:
                success_hit = True
        elif k == 'close' or k == 'vclose':
            ck(fault is not None, 'closed-early', str(e))
        else:
            ck(False, 'unexpected-call', str(e))
        # end of the iteration?
        nxt = log[i + 1] if i + 1 < len(log) else None
        if phase == 'after' and (nxt is None or nxt[0] == 'vreset' or (
                nxt[0] == 'reset') or (
                nxt[0] == 'save' and not nxt[1].endswith('_checkpoint'))) \
                and k != 'reset':
            at_fault = fault is not None and nxt is not None and \
                nxt[0] == 'save' and fault.kind in ('hook', 'evaluate')
            if not at_fault:
                ck(not owed, 'hooks-checkpoints', 'missing {}'.format(owed))
                if c.evaluator is not None:
                    ck(evals == 1, 'evaluator-calls', str(evals))
                t += n
            elif fault.kind == 'hook':
                t = owed[0][-1] if owed else t + n
            else:
                t += n
        i += 1
    tail = [x for x in log[i:] if x[0] != 'log']
    ctx.count('events', len(log))
    ctx.count('training_iterations', iters)
    if fault is None:
        if not success_hit:
            ck(iters == math.ceil((c.steps - c.offset) / n), 'steps',
               '{} iterations'.format(iters))
        ck(len(tail) == 1 and os.path.basename(tail[0][1]) ==
           '{}_finish'.format(t), 'final-save', str(tail))
        ctx.check(os.path.isdir(os.path.join(
            ctx.tmp, '{}_finish'.format(t))), 'save-dir')
    else:
        ck(tail and tail[0][0] == 'save' and os.path.basename(tail[0][1]) ==
           '{}_except'.format(t), 'abort-save', 'at {}: {}'.format(t, tail))
        ctx.check(all(x[0] in ('close', 'vclose') for x in tail[1:]),
                  'abort-save', str(tail))
        closed = c.env.n_closed if c.flavour == 'serial' else c.env.closed
        ctx.check(closed == 1, 'abort-close', 'environment closed {} times'
                  .format(closed))
        ctx.check(os.path.isdir(os.path.join(
            ctx.tmp, '{}_except'.format(t))), 'save-dir')
        ctx.count('aborted_runs')
        ctx.count('abort_in_' + fault.kind)
    ctx.sig(n, tuple(sorted(kinds)), fault and fault.kind, success_hit,
            c.offset > 0, c.log_interval is None, c.evaluator is None,
            c.flavour)


@chk.scenario(quick=4000, thorough=40000)
def complete_runs(ctx):
    """Training runs without faults."""
    drive(ctx, False)


@chk.scenario(quick=3000, thorough=30000)
def aborted_runs(ctx):
    """An exception or interrupt at a random call."""
    drive(ctx, True)


def run_with_evaluation(ctx, shared):
    rng = ctx.rng
    log = []
    n = int(rng.choice([1, 2, 3]))
    steps = int(rng.randint(5, 60))
    interval = int(rng.randint(1, 25))
    max_len = None if rng.rand() < .4 else int(rng.randint(1, 9))
    emax = None if rng.rand() < .5 else int(rng.randint(1, 9))
    n_ep = int(rng.randint(1, 5))

    def member(name, p):
        return loops.ScriptEnv(rng, log, name=name, p_done=p, p_reset=.05)
    f = loops.Faults()
    env = TestableSerial([member('env{}'.format(i), .2) for i in range(n)],
                         log, f)
    if rng.rand() < .5:
        # a pass-through wrapper around the vector environment
        tenv = VectorEnvWrapper(env)
    else:
        tenv = env
    if shared:
        tenv = env
        eenv = None
    else:
        m = int(rng.choice([1, 2, 3]))
        elog = []
        eenv = TestableSerial(
            [loops.ScriptEnv(rng, elog, name='ev{}'.format(i), p_done=.3)
             for i in range(m)], elog, f)
        if rng.rand() < .3:
            eenv = loops.ScriptEnv(rng, elog, name='ev', p_done=.3)
    agent = loops.RecAgent(rng, log)
    success = None
    if not shared and rng.rand() < .5:
        success = float(rng.randint(-2, 3))
        for m in [eenv] if hasattr(eenv, 'p_done') else eenv.envs:
            m.small_rewards = True
    experiments.train_agent_batch_with_evaluation(
        agent, tenv, steps, None, n_ep, interval, ctx.tmp, max_episode_len=max_len,
        eval_max_episode_len=emax, eval_env=eenv, successful_score=success)
    with open(os.path.join(ctx.tmp, 'scores.txt')) as fh:
        rows = [l.rstrip('\n').split('\t') for l in fh][1:]
    want = []
    prev = 0
    t = 0
    done_eps = 0
    fin_at = {}
    lens = [0] * n
    for e in log:
        if e[0] == 'vstep' and not shared:
            t += n
            for j in range(n):
                lens[j] += 1
                if e[4][j] or e[5][j].get('needs_reset') or \
                        lens[j] == max_len:
                    done_eps += 1
                    lens[j] = 0
            if t >= prev + interval:
                prev = t - t % interval
                want.append((t, done_eps))
    return log, rows, want, n, steps, interval, t, success


@chk.scenario(quick=800, thorough=8000)
def with_evaluation(ctx):
    """train_agent_batch_with_evaluation, separate evaluation environment."""
    log, rows, want, n, steps, interval, t, success = run_with_evaluation(
        ctx, False)
    means = [float(r[3]) for r in rows]
    hits = [success is not None and m >= success for m in means]
    ctx.check(not any(hits[:-1]), 'success', 'training went on after the '
              'evaluations {} although {} is success'.format(means, success))
    if any(hits):
        ctx.count('stopped_by_success')
        ctx.check(t == int(rows[-1][0]), 'success', 'training went on after '
                  'the evaluation at {}: {} of {}, {} is success'.format(
                      rows[-1][0], t, means, success))
    else:
        ctx.check(t == math.ceil(steps / n) * n, 'steps', '{} of {}'.format(
            t, steps))
    got = [(int(r[0]), int(r[1])) for r in rows]
    ctx.check(got == want, 'evaluation-rows', '{} expected {}'.format(
        got, want))
    obs = None
    for e in log:
        if e[0] == 'step':
            ctx.check(not e[7], 'step-after-end', str(e))
        if e[0] == 'vreset':
            obs = e[2]
        if e[0] == 'bact':
            ctx.check(same(e[1], obs), 'obs', str(e))
    ctx.check(os.path.basename(log[-1][1]) == '{}_finish'.format(t),
              'final-save', str(log[-1]))
    ctx.count('evaluations', len(rows))
    ctx.sig(n, interval < 5, len(rows))


@chk.scenario(quick=300, thorough=3000)
def shared_eval_env(ctx):
    """No eval_env given: training and evaluation share one environment."""
    log, rows, want, n, steps, interval, t, _ = run_with_evaluation(ctx, True)
    ctx.check(True, 'ran')
    # members whose training episode was destroyed by an evaluation and that
    # have not been reset since
    stale = set()
    in_eval = False
    for i, e in enumerate(log):
        if e[0] == 'bact_eval':
            in_eval = True
        elif e[0] == 'bobs_eval' and all(e[4]):
            in_eval = False
            stale = set('env{}'.format(j) for j in range(n))
        elif e[0] == 'reset':
            stale.discard(e[1])
        elif e[0] == 'step' and e[7]:
            ctx.fail('shared-eval-env-mid-episode' if e[1] in stale
                     else 'step-after-end', 'a member whose episode had ended '
                     'was stepped: {}'.format(e))
        elif e[0] == 'bact' and stale:
            ctx.fail('shared-eval-env-mid-episode', 'training continued '
                     'episodes of {} with the observations of the evaluation '
                     'run in the same environment'.format(sorted(stale)))
    ctx.count('evaluations', len(rows))
    ctx.sig(n, interval < 5, len(rows))


if __name__ == '__main__':
    raise SystemExit(chk.main())
