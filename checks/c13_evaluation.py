"""C13: evaluation runs, evaluation schedule, score file, best agent."""
import logging
import multiprocessing as mp
import os
import statistics
import time

import numpy as np

from vlib.harness import Check
from vlib import loops
from chainerrl import envs
from chainerrl import experiments
from chainerrl.experiments import evaluator as evaluator_module
from chainerrl.experiments.evaluator import AsyncEvaluator
from chainerrl.experiments.evaluator import batch_run_evaluation_episodes
from chainerrl.experiments.evaluator import Evaluator
from chainerrl.experiments.evaluator import run_evaluation_episodes

chk = Check(
    'C13',
    'distinct (mode, budget, end kinds, number of environments) combinations '
    'of evaluation runs and evaluator histories compared with an independent '
    'simulation of the scripted environments',
    ['scripted environments ignore actions, so a reference can simulate them '
     'ahead', 'means equal in exact arithmetic are compared with 1e-9'])


class Tape(object):
    """Endless sequence of episodes of one member environment."""

    def __init__(self, rng, p_done, p_reset, max_len, int_reward):
        self.rng = rng
        self.p = p_done, p_reset
        self.max_len = max_len
        self.int_reward = int_reward
        self.eps = []

    def episode(self, i):
        """List of (reward, done, needs_reset), cut at the length limit."""
        while len(self.eps) <= i:
            ep = []
            while True:
                done = bool(self.rng.rand() < self.p[0])
                needs = bool(self.rng.rand() < self.p[1])
                r = int(self.rng.randint(-3, 4)) if self.int_reward else \
                    float(self.rng.normal())
                ep.append((r, done, needs))
                if done or needs or len(ep) == self.max_len or len(ep) > 60:
                    if len(ep) > 60:
                        ep[-1] = (r, True, needs)
                    break
            self.eps.append(ep)
        return self.eps[i]


class TapeEnv(object):
    action_space = observation_space = spec = None

    def __init__(self, tape, log, name):
        self.tape, self.log, self.name = tape, log, name
        self.e, self.t = -1, 0
        self.over = True

    def reset(self):
        self.e += 1
        self.t = 0
        self.over = False
        return (self.name, self.e, 0)

    def step(self, a):
        r, done, needs = self.tape.episode(self.e)[self.t]
        self.t += 1
        self.log.append(('step', self.name, a, self.over))
        if self.t == len(self.tape.episode(self.e)):
            self.over = True
        info = {'needs_reset': True} if needs else {}
        return (self.name, self.e, self.t), r, done, info

    def close(self):
        pass

    def seed(self, s=None):
        pass


def total(rs):
    x = 0
    for r in rs:
        x += r
    return float(x)


def reference_serial(tape, n_steps, n_episodes):
    scores = []
    if n_episodes is not None:
        return [total(r for r, _, _ in tape.episode(i))
                for i in range(n_episodes)], sum(
                    len(tape.episode(i)) for i in range(n_episodes))
    left, i = n_steps, 0
    while left > 0:
        ep = tape.episode(i)
        if len(ep) <= left:
            scores.append(total(r for r, _, _ in ep))
        elif not scores:
            scores.append(total(r for r, _, _ in ep[:left]))
            return scores, n_steps
        left -= len(ep)
        i += 1
    return scores, n_steps


def budgets(rng):
    if rng.rand() < .5:
        return None, int(rng.randint(1, 8))
    return int(rng.randint(1, 60)), None


@chk.scenario(quick=5000, thorough=50000)
def serial_runs(ctx):
    """run_evaluation_episodes against the simulated tape."""
    rng = ctx.rng
    log = []
    max_len = None if rng.rand() < .5 else int(rng.randint(1, 12))
    tape = Tape(np.random.RandomState(rng.randint(2 ** 31)),
                float(rng.choice([.02, .1, .3, 1.])),
                float(rng.choice([0, 0, .1])), max_len, rng.rand() < .5)
    env = TapeEnv(tape, log, 'e')
    agent = loops.RecAgent(rng, log)
    n_steps, n_ep = budgets(rng)
    got = run_evaluation_episodes(env, agent, n_steps, n_ep,
                                  max_episode_len=max_len)
    want, n = reference_serial(tape, n_steps, n_ep)
    ctx.close(got, want, 'scores', 'n_steps={} n_episodes={} max_len={} '
              'episodes={}'.format(n_steps, n_ep, max_len, [
                  len(e) for e in tape.eps]), rtol=1e-9, atol=1e-9)
    acts = [e for e in log if e[0] == 'act_eval']
    ctx.check(len(acts) == n, 'steps', '{} steps, expected {}'.format(
        len(acts), n))
    # protocol
    i = ep = t = 0
    o = ('e', 0, 0)
    while i < len(log):
        ctx.require(log[i][0] == 'act_eval' and log[i][1] == o, 'act',
                    '{} expected observation {}'.format(log[i], o))
        s = log[i + 1]
        ctx.require(s[0] == 'step' and s[2] == log[i][2] and not s[3], 'step',
                    str(s))
        t += 1
        i += 2
        over = t == len(tape.episode(ep))
        if over or i // 1 >= len(log) - 1:
            ctx.require(i < len(log) and log[i] == ('stop_eval',),
                        'stop-episode', 'agent not told the end of an '
                        'evaluation episode: {}'.format(log[i - 2:i + 2]))
            i += 1
        if over:
            ep, t = ep + 1, 0
        o = ('e', ep, t)
    ctx.count('evaluation_steps', n)
    ctx.sig(n_steps is None, len(want), max_len is None, tape.p,
            n_steps is not None and len(tape.episode(0)) > n_steps)


@chk.scenario(quick=5000, thorough=50000)
def batch_runs(ctx):
    """batch_run_evaluation_episodes against the simulated tapes."""
    rng = ctx.rng
    log = []
    n = int(rng.choice([1, 2, 3, 4, 6]))
    max_len = None if rng.rand() < .5 else int(rng.randint(1, 12))
    tapes = [Tape(np.random.RandomState(rng.randint(2 ** 31)),
                  float(rng.choice([.02, .1, .3, .6, 1.])),
                  float(rng.choice([0, 0, .1])), max_len, rng.rand() < .5)
             for _ in range(n)]
    members = [TapeEnv(t, log, i) for i, t in enumerate(tapes)]
    env = envs.SerialVectorEnv(members) if rng.rand() < .5 else \
        loops.RecVectorEnv(members, [], container=list)
    agent = loops.RecAgent(rng, log)
    n_steps, n_ep = budgets(rng)
    got = batch_run_evaluation_episodes(env, agent, n_steps, n_ep,
                                        max_episode_len=max_len)
    # reference: order episodes by the time they began, then by member
    horizon = (n_ep or n_steps) + 2
    starts = []
    for j, tape in enumerate(tapes):
        s = 0
        for e in range(horizon):
            starts.append((s, j, e))
            s += len(tape.episode(e))
    starts.sort(key=lambda x: (x[0], x[1]))
    eps = [tapes[j].episode(e) for _, j, e in starts]
    if n_ep is not None:
        want = [total(r for r, _, _ in e) for e in eps[:n_ep]]
        dur = max(s + len(e) for (s, _, _), e in zip(starts[:n_ep], eps))
    else:
        want, used, dur = [], 0, None
        for e in eps:
            if used + len(e) > n_steps:
                break
            used += len(e)
            want.append(total(r for r, _, _ in e))
            if used == n_steps:
                break
        if not want:
            want = [total(r for r, _, _ in eps[0][:n_steps])]
    ctx.close(got, want, 'scores', lambda: 'n_steps={} n_episodes={} '
              'max_len={} member episode lengths={}'.format(
                  n_steps, n_ep, max_len,
                  [[len(e) for e in t.eps[:6]] for t in tapes]),
              rtol=1e-9, atol=1e-9)
    bacts = [e for e in log if e[0] == 'bact_eval']
    bobs = [e for e in log if e[0] == 'bobs_eval']
    if dur is not None:
        ctx.check(len(bacts) == dur, 'steps', '{} iterations, the requested '
                  'episodes end after {}'.format(len(bacts), dur))
    ctx.check(all(type(x) is float for x in got), 'score-type', str(got))
    # protocol
    pos = [(0, 0)] * n
    ctx.require(len(bacts) == len(bobs), 'batch-observe', '{} acts, {} '
                'observations'.format(len(bacts), len(bobs)))
    for k, (a, b) in enumerate(zip(bacts, bobs)):
        ctx.require(a[1] == [(j,) + pos[j] for j in range(n)], 'act-obs',
                    '{} expected {}'.format(a[1], pos))
        nxt, rew, dn, rs = [], [], [], []
        for j in range(n):
            ep, t = pos[j]
            r, done, needs = tapes[j].episode(ep)[t]
            nxt.append((j, ep, t + 1))
            rew.append(r)
            dn.append(done)
            over = t + 1 == len(tapes[j].episode(ep))
            rs.append(needs or (max_len is not None and t + 1 == max_len))
            pos[j] = (ep + 1, 0) if over else (ep, t + 1)
        last = k == len(bacts) - 1
        ctx.require(b[1] == nxt and b[2] == rew and
                    [bool(x) for x in b[3]] == dn, 'batch-observe',
                    '{} expected {} {} {}'.format(b, nxt, rew, dn))
        if last:
            ctx.require(all(b[4]), 'last-reset', 'the last observation of an '
                        'evaluation does not reset the agent: {}'.format(b))
        else:
            ctx.require([bool(x) or y for x, y in zip(b[4], dn)] ==
                        [x or y for x, y in zip(rs, dn)], 'batch-reset',
                        '{} expected {}'.format(b[4], rs))
    k = 0
    for e in log:
        if e[0] == 'bact_eval':
            a = e[2]
            k = 0
        if e[0] == 'step':
            ctx.require(e[2] == a[k] and e[1] == k and not e[3], 'step',
                        str(e))
            k += 1
        ctx.require(e[0] not in ('bact', 'bobs', 'act', 'stop'),
                    'trained', 'evaluation trained the agent')
    ctx.count('evaluation_iterations', len(bacts))
    ctx.sig(n, n_steps is None, len(want), max_len is None)


class ScoreEnv(object):
    """One-step episodes whose return is whatever the schedule says."""
    action_space = observation_space = spec = None

    def __init__(self, scores):
        self.scores = scores

    def reset(self):
        return 0

    def step(self, a):
        return 0, self.scores.pop(0), True, {}

    def close(self):
        pass


def read_scores(outdir):
    with open(os.path.join(outdir, 'scores.txt')) as f:
        text = f.read()
    assert text.endswith('\n')
    rows = [l.split('\t') for l in text.split('\n')[:-1]]
    return rows[0], rows[1:]


COLUMNS = ['steps', 'episodes', 'elapsed', 'mean', 'median', 'stdev', 'max',
           'min']


def score_set(rng):
    """Score sequences with ties, tiny improvements, negative values."""
    kind = rng.randint(4)
    if kind == 0:
        pool = [0.1, 0.2, 0.3, 0.7]
        return lambda: float(pool[rng.randint(len(pool))])
    if kind == 1:
        base = float(rng.normal() * 100)
        return lambda: base + float(rng.randint(-3, 4)) * 1e-9
    if kind == 2:
        return lambda: float(rng.normal() * 1000)
    return lambda: float(rng.randint(-2, 3))


@chk.scenario(quick=2500, thorough=25000)
def evaluator_history(ctx):
    """Evaluator driven at arbitrary increasing steps."""
    rng = ctx.rng
    log = []
    agent = loops.RecAgent(rng, log, n_stats=int(rng.randint(0, 4)))
    draw = score_set(rng)
    pending = []
    env = ScoreEnv(pending)
    vector = rng.rand() < .3
    if vector:
        venv = loops.RecVectorEnv([env], [])
    n_ep = int(rng.randint(1, 5))
    by_steps = rng.rand() < .3
    interval = int(rng.randint(1, 20))
    offset = int(rng.choice([0, 0, rng.randint(0, 60)]))
    save_best = rng.rand() < .8
    logger = logging.Logger('x') if rng.rand() < .5 else None
    ev = Evaluator(agent, venv if vector else env,
                   n_ep if by_steps else None, None if by_steps else n_ep,
                   interval, ctx.tmp, step_offset=offset,
                   save_best_so_far_agent=save_best, logger=logger)
    t, episodes, prev = offset, 0, offset - offset % interval
    best, best_version, want = None, None, []
    for _ in range(int(rng.randint(1, 40))):
        t += int(rng.randint(0, 2 * interval + 2)) if rng.rand() < .5 else 1
        episodes += int(rng.randint(0, 3))
        agent.version += 1
        agent.stats = [(k, float(rng.normal())) for k, _ in agent.stats]
        pending[:] = scores = [draw() for _ in range(n_ep)]
        scores = list(scores)
        r = ev.evaluate_if_necessary(t=t, episodes=episodes)
        due = t >= prev + interval
        if not due:
            ctx.check(r is None and len(pending) == n_ep, 'schedule',
                      'evaluated at t={} although the previous evaluation was '
                      'at {} (interval {})'.format(t, prev, interval))
            continue
        prev = t - t % interval
        m = statistics.mean(scores)
        ctx.check(r is not None and len(pending) == 0 and abs(r - m) < 1e-9,
                  'schedule', 'evaluation at t={} returned {} expected {} '
                  '(interval {})'.format(t, r, m, interval))
        want.append((t, episodes, scores, [v for _, v in agent.stats]))
        if best is None or m > best:
            best, best_version = m, agent.version
        ctx.check(ev.max_score == best, 'max-score', '{} expected {}'.format(
            ev.max_score, best))
        d = os.path.join(ctx.tmp, 'best')
        if save_best:
            ctx.check(os.path.isdir(d) and loops.read_token(d) ==
                      best_version, 'best-agent', lambda: 'saved best agent '
                      'is version {} expected {} (scores {})'.format(
                          loops.read_token(d), best_version,
                          [statistics.mean(w[2]) for w in want]))
        else:
            ctx.check(not os.path.exists(d), 'best-agent', 'saved although '
                      'disabled')
    header, rows = read_scores(ctx.tmp)
    ctx.check(header == COLUMNS + [k for k, _ in agent.stats], 'header',
              str(header))
    ctx.check(len(rows) == len(want), 'rows', '{} rows, {} evaluations'.format(
        len(rows), len(want)))
    elapsed = 0.
    for row, (t, episodes, sc, custom) in zip(rows, want):
        ctx.check(int(row[0]) == t and int(row[1]) == episodes, 'row',
                  '{} expected {} {}'.format(row, t, episodes))
        ctx.check(float(row[2]) >= elapsed, 'row-elapsed', str(row))
        elapsed = float(row[2])
        sd = np.std(sc, ddof=1) if len(sc) > 1 else 0.
        ctx.close([float(x) for x in row[3:]],
                  [np.mean(sc), np.median(sc), sd, max(sc), min(sc)] + custom,
                  'row-values', str(row), rtol=1e-9, atol=1e-7)
    ctx.check(not [e for e in log if e[0] in ('act', 'stop', 'bact', 'bobs')],
              'trained', 'the evaluator trained the agent')
    ctx.count('evaluations', len(want))
    ctx.sig(len(want), interval, offset > 0, save_best, vector, by_steps)


class SlowAgent(loops.RecAgent):
    """Agent of one worker process; its saves are slow and inspectable."""

    def __init__(self, rng, tag, savelog, delay):
        super().__init__(rng, [], n_stats=1)
        self.tag, self.savelog, self.delay = tag, savelog, delay
        self.mean = None

    def save(self, dirname):
        os.makedirs(dirname, exist_ok=True)
        token = repr((self.tag, self.version, self.mean))
        with open(os.path.join(dirname, 'a'), 'w') as f:
            f.write(token)
        time.sleep(self.delay * np.random.rand())
        with open(os.path.join(dirname, 'b'), 'w') as f:
            f.write(token)
        with open(self.savelog, 'a') as f:
            f.write(token + '\n')


@chk.scenario(quick=160, thorough=1500)
def async_evaluator(ctx):
    """AsyncEvaluator shared by concurrent worker processes."""
    rng = ctx.rng
    interval = int(rng.randint(2, 12))
    offset = int(rng.choice([0, rng.randint(0, 40)]))
    n_proc = int(rng.randint(2, 5))
    n_ep = int(rng.randint(1, 4))
    steps = int(rng.randint(5, 80))
    delay = float(rng.choice([0, .002, .01]))
    every = int(rng.randint(1, 4))
    pool_kind = rng.randint(3)
    varied = bool(rng.randint(2))
    ev = AsyncEvaluator(None, n_ep, interval, ctx.tmp, step_offset=offset)
    counter = mp.Value('l', offset)
    savelog = os.path.join(ctx.tmp, 'saves')
    open(savelog, 'w').close()
    seeds = [int(rng.randint(2 ** 31)) for _ in range(n_proc)]

    def work(w):
        r = np.random.RandomState(seeds[w])
        np.random.seed(seeds[w] + 1)
        agent = SlowAgent(r, w, savelog, delay)
        pending = []
        env = ScoreEnv(pending)
        out = []
        k = 0
        while True:
            with counter.get_lock():
                if counter.value >= offset + steps:
                    break
                counter.value += 1
                t = counter.value
            if r.rand() < .3:
                time.sleep(delay * r.rand())
            k += 1
            if k % every:
                continue
            agent.version = t
            pool = [[.1, .2, .3, .7], [-1., 1., .5],
                    [float(x) for x in r.normal(size=5)]][pool_kind]
            x = pool[r.randint(len(pool))]
            scores = [float(x)] * n_ep
            if varied:  # sums of quarters are exact in any order
                scores = [float(q) / 4 for q in r.randint(-8, 9, size=n_ep)]
            pending[:] = scores
            agent.mean = statistics.mean(scores)
            agent.rest = [float(f(scores)) for f in (np.median, max, min)]
            s = ev.evaluate_if_necessary(t=t, episodes=k, env=env, agent=agent)
            out.append((t, k, s, agent.mean, ev.max_score, agent.rest))
        with open(os.path.join(ctx.tmp, 'w{}'.format(w)), 'w') as f:
            f.write(repr(out))
    procs = [mp.Process(target=work, args=(w,)) for w in range(n_proc)]
    for p in procs:
        p.start()
    for p in procs:
        p.join()
        ctx.require(p.exitcode == 0, 'worker', 'exit code {}'.format(
            p.exitcode))
    calls = []
    for w in range(n_proc):
        with open(os.path.join(ctx.tmp, 'w{}'.format(w))) as f:
            calls += [(w,) + c for c in eval(f.read())]
    ran = sorted(c for c in calls if c[3] is not None)
    with open(savelog) as f:
        saves = [eval(l) for l in f]
    start = offset - offset % interval
    # every interval boundary that was crossed by a call counts once
    tmax = max([c[1] for c in calls] + [start])
    crossings = (tmax - start) // interval
    ctx.check(len(ran) <= crossings, 'evaluated-too-often',
              '{} evaluations, {} crossings'.format(len(ran), crossings))
    # the k-th claimed evaluation must be at or after the k-th boundary
    ts = sorted(c[1] for c in ran)
    for k, t in enumerate(ts):
        ctx.check(t >= start + (k + 1) * interval, 'evaluated-too-early',
                  'evaluation {} at t={} interval={} start={}'.format(
                      k, t, interval, start))
    if every == 1:
        # each step made a call; only calls still under way at the very end
        # can leave a boundary unclaimed
        ctx.check(len(ran) >= crossings - (n_proc - 1), 'evaluation-missed',
                  '{} evaluations, {} crossings'.format(len(ran), crossings))
    if ran:
        header, rows = read_scores(ctx.tmp)
        ctx.check(header == COLUMNS + ['stat0'], 'header', str(header))
        ctx.check(sorted((int(r[0]), int(r[1])) for r in rows) ==
                  sorted((c[1], c[2]) for c in ran), 'rows',
                  lambda: '{} rows for {}'.format(rows, ran))
        for r in rows:
            m = [c[4:5] + tuple(c[6]) for c in ran if c[1] == int(r[0])]
            ctx.check(len(r) == 9 and m and np.allclose(
                [float(r[i]) for i in (3, 4, 6, 7)], m[0], atol=1e-9),
                      'row', str(r))
        for c in ran:
            ctx.check(abs(c[3] - c[4]) < 1e-9, 'score', str(c))
        top = max(c[4] for c in ran)
        means = [s[2] for s in saves]
        ctx.check(means and all(x < y for x, y in zip(means, means[1:])),
                  'best-agent-order', 'scores of the successively saved best '
                  'agents: {}'.format(means))
        ctx.check(means and means[-1] == top, 'best-agent', 'best saved {} '
                  'highest {}'.format(means, top))
        ctx.check(ev.max_score == top, 'max-score', '{} instead of {}'.format(
            ev.max_score, top))
        d = os.path.join(ctx.tmp, 'best')
        with open(os.path.join(d, 'a')) as f:
            a = f.read()
        with open(os.path.join(d, 'b')) as f:
            b = f.read()
        ctx.check(a == b == repr(saves[-1]), 'best-agent-torn',
                  '{} {} {}'.format(a, b, saves))
    ctx.count('async_calls', len(calls))
    ctx.count('async_evaluations', len(ran))
    ctx.count('distinct_evaluating_workers', len(set(c[0] for c in ran)))
    ctx.sig(tuple(c[0] for c in sorted(ran, key=lambda c: c[1])))


if __name__ == '__main__':
    raise SystemExit(chk.main())
