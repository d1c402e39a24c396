"""C11: protocol monitor of the single-environment training loop."""
import logging
import os

import numpy as np

from vlib.harness import Check
from vlib import loops
from chainerrl import experiments

chk = Check(
    'C11',
    'distinct (episode-end kinds, budget relation, evaluator, abort point) '
    'combinations of training runs whose complete event log was checked',
    ['a training step is counted when env.step returns',
     'aborts tested: Exception subclasses and KeyboardInterrupt raised inside '
     'environment, agent, hook or evaluator calls'])


class FakeEvaluator(object):
    def __init__(self, log, faults, rng):
        self.log, self.faults = log, faults
        self.rng = np.random.RandomState(rng.randint(2 ** 31))
        self.max_score = -1e9

    def evaluate_if_necessary(self, t, episodes):
        self.faults('evaluate')
        ran = self.rng.rand() < .5
        score = None
        if ran:
            score = float(self.rng.normal()) if self.rng.rand() < .5 else \
                float(self.rng.randint(-2, 2))
            self.max_score = max(self.max_score, score)
        self.log.append(('evaluate', t, episodes, self.max_score))
        return score


class Logger(logging.Logger):
    """Logger that keeps formatted records (forces their formatting)."""

    def __init__(self):
        super().__init__('rec', level=logging.DEBUG)
        self.lines = []

    def handle(self, record):
        self.lines.append(record.getMessage())


def drive(ctx, fault):
    rng = ctx.rng
    log = []
    steps = int(rng.randint(1, 60))
    offset = int(rng.choice([0, 0, rng.randint(0, steps)]))
    max_len = None if rng.rand() < .4 else int(rng.randint(1, 9))
    p_done = float(rng.choice([0, .05, .2, .5, 1.]))
    p_reset = float(rng.choice([0, 0, .1, .4]))
    freq = None if rng.rand() < .3 else int(rng.randint(1, 12))
    f = loops.Faults()
    if fault:
        kind = str(rng.choice(['step', 'act', 'stop', 'reset', 'hook',
                               'evaluate']))
        n = int(rng.randint(0, max(1, steps // 3))) \
            if kind not in ('step', 'act', 'hook') else \
            int(rng.randint(0, steps - offset))
        if kind == 'reset':
            n += 1          # the very first reset happens before training
        exc = [loops.Injected('x'), loops.InjectedInterrupt(), ValueError('v'),
               KeyboardInterrupt()][rng.randint(4)]
        f = loops.Faults(kind, n, exc)
    env = loops.ScriptEnv(rng, log, p_done=p_done, p_reset=p_reset, faults=f,
                          int_reward=rng.rand() < .5,
                          obs=str(rng.choice(['tuple', 'array'])),
                          info_mode=int(rng.randint(3)))
    agent = loops.RecAgent(rng, log, faults=f, has_t=rng.rand() < .8)
    has_t = hasattr(agent, 't')
    if has_t:
        agent.t = int(rng.randint(100))
    n_hooks = int(rng.randint(0, 3))

    def make_hook(i):
        def hook(henv, hagent, t):
            f('hook')
            log.append(('hook', i, henv is env, hagent is agent, t))
        return hook
    evaluator = FakeEvaluator(log, f, rng) if rng.rand() < .6 else None
    success = None
    if evaluator is not None and rng.rand() < .4:
        success = float(rng.normal() + 1) if rng.rand() < .5 else \
            float(rng.randint(-1, 2))
    logger = Logger() if rng.rand() < .6 else None
    raised = None
    try:
        experiments.train_agent(
            agent, env, steps, ctx.tmp, checkpoint_freq=freq,
            max_episode_len=max_len, step_offset=offset, evaluator=evaluator,
            successful_score=success,
            step_hooks=[make_hook(i) for i in range(n_hooks)], logger=logger)
    except (Exception, KeyboardInterrupt) as e:
        if e is not f.exc:
            raise
        raised = e
    ctx.check(f.fired == (raised is not None), 'abort-swallowed',
              'the exception raised inside training did not propagate')
    judge(ctx, log, steps, offset, max_len, freq, n_hooks, evaluator, success,
          f if f.fired else None, has_t)


def judge(ctx, log, steps, offset, max_len, freq, n_hooks, evaluator, success,
          fault, has_t):
    """Reference automaton of one training run over the event log."""
    i = 0
    n = len(log)
    desc = lambda: 'steps={} offset={} max_len={} freq={} fault={} log={}' \
        .format(steps, offset, max_len, freq,
                fault and (fault.kind, fault.n), log[max(0, i - 6):i + 4])
    kinds = set()
    t = offset
    finals = [e for e in log if e[0] == 'save'
              and not str(e[1]).endswith('_checkpoint')]
    state = 'reset'      # what has to come next
    obs, r, ep_len, episodes = None, 0, 0, 0
    pending = None       # obs, r, done of the step being processed
    hooks = []
    saved_ck = []
    evals = 0
    saw_stop = False
    ended = False
    a = None
    success_hit = False

    def eq(x, y):
        return np.array_equal(np.asarray(x, dtype=object),
                              np.asarray(y, dtype=object))

    def ck(cond, key, msg):
        ctx.require(cond, key, lambda: '{}; {}'.format(msg, desc()))

    def finish_step(last):
        """Everything owed for the step t, called when the next one starts."""
        if pending is None:
            return
        ck(hooks == list(range(n_hooks)), 'hooks',
           'hooks called for step {}: {}'.format(t, hooks))
        if ended or t == steps:
            ck(saw_stop, 'stop-missing', 'the episode ended at step {} but '
               'the agent was not told'.format(t))
            if evaluator is not None:
                ck(evals == 1, 'evaluator-calls',
                   'evaluator called {} times at the end of an episode'
                   .format(evals))
        if freq and t % freq == 0 and t < steps and not success_hit:
            ck(saved_ck == [t], 'checkpoint', 'checkpoint of step {} '
               'missing: {}'.format(t, saved_ck))
        elif not (freq and t % freq == 0):
            ck(not saved_ck, 'checkpoint', 'unexpected checkpoint {}'.format(
                saved_ck))

    while i < n:
        e = log[i]
        if e[0] == 'save':
            base = os.path.basename(e[1])
            if base.endswith('_checkpoint'):
                ck(pending is not None and freq
                   and base == '{}_checkpoint'.format(t),
                   'checkpoint', 'checkpoint {} at step {}'.format(base, t))
                saved_ck.append(t)
                ck(len(saved_ck) == 1, 'checkpoint', 'saved twice')
            else:
                break
        elif e[0] == 'reset':
            ck(pending is None or ended, 'reset-mid-episode',
               'environment reset in the middle of an episode')
            if pending is not None:
                ck(saw_stop, 'stop-missing', 'reset before the agent was told '
                   'the end of the episode')
                ck(t < steps and not success_hit, 'reset-after-training',
                   'environment reset although training is over')
            ck(state in ('reset', 'post'), 'double-reset',
               'environment reset twice')
            obs, r, ep_len = e[2], 0, 0
            if pending is not None:
                episodes += 1
            state = 'act'
            was_reset = True
        elif e[0] == 'act':
            if pending is not None:
                if ended:
                    ck(state == 'act', 'no-reset', 'acting on an episode that '
                       'has ended')
                finish_step(False)
            else:
                ck(state == 'act', 'no-reset', 'acting before a reset')
            ck(t < steps, 'too-many-steps', 'a step beyond the budget')
            ck(eq(e[1], obs), 'obs', 'agent was shown {} instead of {}'.format(
                e[1], obs))
            ck(e[2] == r, 'reward', 'agent was shown reward {} instead of {}'
               .format(e[2], r))
            if t == offset and has_t:
                ck(e[4] == offset, 'agent-t', 'agent.t is {} at the first '
                   'step'.format(e[4]))
            a = e[3]
            pending, hooks, saved_ck, evals, saw_stop = None, [], [], 0, False
            ended = False
            state = 'step'
        elif e[0] == 'step':
            ck(state == 'step', 'step-order', 'environment stepped without an '
               'action of the agent')
            ck(e[2] == a, 'action', 'environment got {} instead of {}'.format(
                e[2], a))
            ck(not e[7], 'step-after-end', 'finished environment stepped')
            t += 1
            ep_len += 1
            obs, r, done, needs = e[3], e[4], e[5], e[6]
            pending = (obs, r, done)
            ended = done or needs or ep_len == max_len
            if ended:
                kinds.add((done, needs, ep_len == max_len))
            state = 'post'
        elif e[0] == 'hook':
            ck(pending is not None and state == 'post', 'hooks',
               'hook called outside a step')
            ck(e[2] and e[3], 'hook-args', 'hook got wrong env or agent')
            ck(e[4] == t, 'hook-step', 'hook got step {} instead of {}'.format(
                e[4], t))
            hooks.append(e[1])
        elif e[0] == 'stop':
            ck(pending is not None and (ended or t == steps) and not saw_stop,
               'stop-unexpected', 'agent told the end of an episode that '
               'continues')
            ck(eq(e[1], pending[0]) and e[2] == pending[1], 'stop-args',
               'stop_episode_and_train got {}'.format(e))
            ck(bool(e[3]) == pending[2], 'stop-done', 'stop_episode_and_train '
               'got done={} instead of {}'.format(e[3], pending[2]))
            saw_stop = True
        elif e[0] == 'evaluate':
            ck(saw_stop and state == 'post', 'evaluate-order',
               'evaluation before the end of the episode was processed')
            evals += 1
            ck(e[1] == t, 'evaluate-t', 'evaluation at t={} told {}'.format(
                t, e[1]))
            ck(e[2] == episodes + 1, 'evaluate-episodes', 'evaluation told {} '
               'episodes instead of {}'.format(e[2], episodes + 1))
            if success is not None and e[3] >= success:
                success_hit = True
        elif e[0] in ('act_eval', 'stop_eval'):
            ck(False, 'evaluation-call', 'agent acted for evaluation')
        i += 1
    tail = log[i:]
    ctx.count('events', n)
    ctx.count('training_steps', t - offset)
    if fault is None:
        finish_step(True)
        ck(t == steps or success_hit, 'too-few-steps',
           'training ended after step {} of {}'.format(t, steps))
        if success_hit:
            ck(evals == 1, 'success', 'training continued after success')
        ck(len(tail) == 1 and tail[0][0] == 'save'
           and tail[0][1].endswith(os.sep + '{}_finish'.format(t)),
           'final-save', 'final save missing or not last: {}'.format(tail))
        saved = os.path.join(ctx.tmp, '{}_finish'.format(t))
    else:
        ck(len(tail) == 1 and tail[0][0] == 'save'
           and tail[0][1].endswith(os.sep + '{}_except'.format(t)),
           'abort-save', 'after the abort at step {}: {}'.format(t, tail))
        saved = os.path.join(ctx.tmp, '{}_except'.format(t))
        ctx.count('aborted_runs')
        ctx.count('abort_in_' + fault.kind)
    ctx.check(len(finals) == 1, 'save-count', str(finals))
    ctx.check(os.path.isdir(saved), 'save-dir', 'no ' + saved)
    ctx.sig(tuple(sorted(kinds)), fault and fault.kind, evaluator is None,
            success_hit, offset > 0, freq is None, ended)


@chk.scenario(quick=4000, thorough=40000)
def complete_runs(ctx):
    """Training runs without faults."""
    drive(ctx, False)


@chk.scenario(quick=3000, thorough=30000)
def aborted_runs(ctx):
    """An exception or interrupt at a random call."""
    drive(ctx, True)


@chk.scenario(quick=1200, thorough=12000)
def with_evaluation(ctx):
    """train_agent_with_evaluation with the real evaluator."""
    rng = ctx.rng
    log, elog = [], []
    steps = int(rng.randint(5, 80))
    offset = int(rng.choice([0, 0, rng.randint(0, steps)]))
    max_len = None if rng.rand() < .3 else int(rng.randint(1, 9))
    eval_max = None if rng.rand() < .5 else int(rng.randint(1, 9))
    p_done = float(rng.choice([.05, .2, .5]))
    shared = rng.rand() < .4
    interval = int(rng.randint(1, 30))
    by_steps = rng.rand() < .3
    n_ep, n_st = (None, int(rng.randint(1, 15))) if by_steps else (
        int(rng.randint(1, 5)), None)
    env = loops.ScriptEnv(rng, log, name='train', p_done=p_done,
                          p_reset=float(rng.choice([0, .1])))
    eenv = None if shared else loops.ScriptEnv(
        rng, log, name='eval', p_done=.3, p_reset=float(rng.choice([0, .1])))
    agent = loops.RecAgent(rng, log)
    success = float(rng.normal() * 2) if rng.rand() < .4 else None
    hooks = []
    experiments.train_agent_with_evaluation(
        agent, env, steps, n_st, n_ep, interval, ctx.tmp,
        train_max_episode_len=max_len, step_offset=offset,
        eval_max_episode_len=eval_max, eval_env=eenv,
        successful_score=success,
        step_hooks=[lambda e, a, t: hooks.append(t)],
        save_best_so_far_agent=rng.rand() < .8)
    emax = eval_max if eval_max is not None else max_len
    # split the log into training and evaluation calls
    with open(os.path.join(ctx.tmp, 'scores.txt')) as f:
        rows = [l.rstrip('\n').split('\t') for l in f]
    header, rows = rows[0], rows[1:]
    t, prev = offset, offset - offset % interval
    episodes, ep_len = 0, 0
    expected = []
    best = -3.5e38
    i = 0
    stopped = False
    last = None
    while i < len(log) and not stopped:
        e = log[i]
        if e[0] == 'save':
            break
        if e[0] == 'act':
            ctx.require(last is None or not last[1], 'no-reset',
                        'acting on an ended episode')
            s = log[i + 1]
            ctx.require(s[0] == 'step' and s[1] == 'train' and s[2] == e[3],
                        'step-order', str(log[i:i + 2]))
            ctx.require(not s[7], 'step-after-end', str(s))
            t += 1
            ep_len += 1
            end = s[5] or s[6] or ep_len == max_len
            last = (s[3], end)
            i += 2
            if not (end or t == steps):
                continue
            ctx.require(log[i][0] == 'stop' and log[i][1] == s[3], 'stop',
                        str(log[i]))
            i += 1
            episodes += 1
            if t >= prev + interval:
                prev = t - t % interval
                # follow the evaluation
                scores, part, cnt, left = [], [], 0, 0
                over = True
                while True:
                    if over:
                        ctx.require(
                            log[i][0] == 'reset' and
                            log[i][1] == ('train' if shared else 'eval'),
                            'evaluation-reset', str(log[i - 2:i + 2]))
                        o = log[i][2]
                        part = []
                        i += 1
                    x, s = log[i], log[i + 1]
                    ctx.require(x[0] == 'act_eval' and x[1] == o,
                                'evaluation-act', str(log[i - 2:i + 2]))
                    ctx.require(
                        s[0] == 'step' and s[2] == x[2]
                        and s[1] == ('train' if shared else 'eval')
                        and not s[7], 'evaluation-step', str(log[i:i + 2]))
                    i += 2
                    cnt += 1
                    o = s[3]
                    part.append(s[4])
                    over = s[5] or s[6] or len(part) == emax
                    if over:
                        scores.append(float(sum(part)))
                    fin = cnt >= n_st if by_steps else len(scores) >= n_ep
                    if over or fin:
                        ctx.require(log[i][0] == 'stop_eval', 'evaluation-'
                                    'stop', str(log[i]))
                        i += 1
                    if fin:
                        break
                if not scores:
                    scores = [float(sum(part))]
                m = float(np.mean(scores))
                expected.append((t, episodes, m))
                if m > best:
                    best = m
                    if i < len(log) and log[i][0] == 'save' and \
                            os.path.basename(log[i][1]) == 'best':
                        i += 1
            if success is not None and best >= success:
                stopped = True
                break
            if t < steps:
                ctx.require(log[i][0] == 'reset' and log[i][1] == 'train',
                            'training-reset', str(log[i]))
                ep_len = 0
                last = None
                i += 1
        elif e[0] == 'reset' and i == 0:
            i += 1
        else:
            ctx.fatal('unexpected-call', str(log[max(0, i - 3):i + 2]))
    if not stopped:
        ctx.check(t == steps, 'too-few-steps', '{} of {}'.format(t, steps))
    ctx.check(hooks == list(range(offset + 1, t + 1)), 'hooks', str(hooks))
    ctx.check(len(log) == i + 1 and log[i][0] == 'save' and
              os.path.basename(log[i][1]) == '{}_finish'.format(t),
              'final-save', str(log[i:]))
    got = [(int(x[0]), int(x[1]), float(x[3])) for x in rows]
    ctx.check(len(got) == len(expected) and all(
        g[:2] == x[:2] and abs(g[2] - x[2]) < 1e-9
        for g, x in zip(got, expected)), 'evaluation-rows',
        lambda: 'rows {} expected {}'.format(got, expected))
    ctx.count('evaluations_checked', len(expected))
    ctx.sig(shared, by_steps, stopped, offset > 0, min(len(expected), 5))


if __name__ == '__main__':
    raise SystemExit(chk.main())
