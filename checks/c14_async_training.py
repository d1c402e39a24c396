"""C14: offline checker over the event records of asynchronous training."""
import multiprocessing as mp
import multiprocessing.sharedctypes  # NOQA
import os
import signal
import time
import warnings

import chainer
import chainer.functions as F
import chainer.links as L
import numpy as np

from vlib.harness import Check
from vlib import agentkit as K
from vlib import loops
from chainerrl import agents
from chainerrl import distribution
from chainerrl import experiments
from chainerrl import explorers
from chainerrl import links
from chainerrl import optimizers
from chainerrl import policies
from chainerrl import q_functions
from chainerrl import v_functions
from chainerrl.misc import async_

chk = Check(
    'C14',
    'distinct (workers, order in which workers took the global steps, '
    'failure kind, success, offset) histories of asynchronous runs whose '
    'merged event records were checked',
    ['interleavings are those produced by the operating system under injected '
     'random delays', 'worker failures: exceptions, KeyboardInterrupt, exit '
     'and SIGKILL outside critical sections'])


class FileLog(object):
    def __init__(self, path):
        self.fd = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_APPEND)

    def append(self, e):
        os.write(self.fd, (repr(e) + '\n').encode())


class DelayedSynchronized(mp.sharedctypes.Synchronized):
    """Shared value whose reader is delayed: widens read-modify-write races."""
    delay = .0003

    @property
    def value(self):
        v = mp.sharedctypes.Synchronized.value.fget(self)
        if np.random.rand() < .5:
            time.sleep(self.delay * np.random.rand())
        return v

    @value.setter
    def value(self, v):
        mp.sharedctypes.Synchronized.value.fset(self, v)


def delayed_value(typecode, init):
    v = _mp_value(typecode, init)
    v.__class__ = DelayedSynchronized
    return v


_mp_value = mp.Value


class Net(chainer.Chain):
    def __init__(self, init, n):
        super().__init__()
        with self.init_scope():
            self.p = chainer.Parameter(np.full((n, 3), init, dtype='f'))
        self.add_persistent('q', np.full((n,), init, dtype='f'))


class WorkerAgent(loops.RecAgent):
    """Every training step of worker w adds one to row w of the parameters
    and of the optimizer state."""

    def __init__(self, rng, log, n, init, faults):
        super().__init__(rng, log, faults=faults, n_stats=1)
        self.net = Net(init, n)
        self.opt = optimizers.RMSpropAsync(lr=.1)
        self.opt.setup(self.net)
        self.n_updates = mp.Value('l', 0)
        self.shared_attributes = ('net', 'opt', 'n_updates')
        self.first = True

    def act_and_train(self, obs, reward):
        a = super().act_and_train(obs, reward)
        w = self.process_idx
        if self.first:
            self.first = False
            self.log.append(('initial', self.net.p.array[w].tolist(),
                             float(self.net.q[w])))
        self.net.p.array[w] += 1
        self.net.q[w] += 1
        state = self.net.p.update_rule.state
        for k in sorted(state):
            state[k][w] += 1
        with self.n_updates.get_lock():
            self.n_updates.value += 1
        self.log.append(('seen', [int(x) for x in
                                  (self.net.p.array[:, 0] - 7)]))
        return a


def scenario_run(ctx, fault_kind):
    try:
        _scenario_run(ctx, fault_kind)
    finally:
        mp.Value = _mp_value


def _scenario_run(ctx, fault_kind):
    rng = ctx.rng
    n = int(rng.choice([1, 2, 2, 3, 4, 6]))
    offset = int(rng.choice([0, 0, rng.randint(0, 30)]))
    steps = offset + int(rng.randint(n, 90))
    max_len = None if rng.rand() < .4 else int(rng.randint(1, 9))
    use_make_agent = rng.rand() < .5
    with_eval = rng.rand() < .6
    interval = int(rng.randint(3, 40)) if with_eval else None
    success = float(rng.choice([.5, 1., 3.])) if with_eval and \
        rng.rand() < .4 else None
    n_eval = int(rng.randint(1, 3))
    delay = float(rng.choice([0, 0, .0005, .002]))
    n_hooks = int(rng.randint(0, 3))
    seeds = [int(rng.randint(2 ** 31)) for _ in range(n)]
    victim = int(rng.randint(n))
    fault = None
    if fault_kind:
        fault = (str(rng.choice(['act', 'step', 'stop', 'hook'])),
                 int(rng.randint(0, max(1, (steps - offset) // (n + 1)))))
        how = str(rng.choice(['exception', 'interrupt', 'exit', 'kill']))
    pdone = float(rng.choice([.05, .2, .5]))
    preset = float(rng.choice([0, .1]))

    def path(w):
        return os.path.join(ctx.tmp, 'log{}'.format(w))

    class Die(loops.Faults):
        def __call__(self, kind):
            i = self.seen.get(kind, 0)
            self.seen[kind] = i + 1
            if kind == self.kind and i == self.n:
                if how == 'exception':
                    raise loops.Injected('worker failure')
                elif how == 'interrupt':
                    raise KeyboardInterrupt
                elif how == 'exit':
                    os._exit(3)
                os.kill(os.getpid(), signal.SIGKILL)

    fl = {}

    def faults(w):
        if w not in fl:
            if fault and w == victim:
                fl[w] = Die(*fault)
            else:
                fl[w] = loops.Faults()
        return fl[w]

    class Env(loops.ScriptEnv):
        def step(self, a):
            if delay and self.rng.rand() < .5:
                time.sleep(delay * self.rng.rand())
            return super().step(a)

    parent = os.getpid()
    parent_log = []

    def log_of(w):
        if os.getpid() == parent:
            return parent_log
        if ('log', w) not in fl:
            fl['log', w] = FileLog(path(w))
        return fl['log', w]

    def make_env(process_idx, test):
        r = np.random.RandomState(seeds[process_idx])
        r.randint(2 ** 31, size=2 + int(test))
        return Env(r, log_of(process_idx),
                   name='test' if test else 'train',
                   p_done=.25 if test else pdone,
                   p_reset=0 if test else preset,
                   faults=None if test else faults(process_idx))

    made = []

    def make_agent(process_idx):
        made.append(process_idx)
        return WorkerAgent(np.random.RandomState(process_idx),
                           log_of(process_idx), n,
                           7. if os.getpid() == parent else 50.,
                           faults(process_idx))

    class Hook(object):
        def __init__(self, i):
            self.i = i

        def __call__(self, henv, hagent, t):
            w = hagent.process_idx
            faults(w)('hook')
            log_of(w).append(('hook', self.i, henv.name, t))
            if delay and np.random.rand() < .3:
                time.sleep(delay * np.random.rand())

    kw = {}
    if use_make_agent:
        kw['make_agent'] = make_agent
        agent = None
    else:
        agent = WorkerAgent(np.random.RandomState(0), None, n, 7.,
                            loops.Faults())

        class LazyLog(object):
            def append(self, e):
                log_of(agent.process_idx).append(e)
        agent.log = LazyLog()
        agent.faults = lambda kind: faults(agent.process_idx)(kind)
        kw['agent'] = agent
    if rng.rand() < .5:
        # injected delays inside the accesses of the shared counters
        mp.Value = delayed_value
        ctx.count('runs_with_delayed_counters')
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter('always')
        out = experiments.train_agent_async(
            ctx.tmp, n, make_env, steps=steps, eval_interval=interval,
            eval_n_steps=None, eval_n_episodes=n_eval,
            max_episode_len=max_len, step_offset=offset,
            successful_score=success,
            global_step_hooks=[Hook(i) for i in range(n_hooks)],
            save_best_so_far_agent=False, **kw)
    abnormal = [str(w.message) for w in ws
                if issubclass(w.category, async_.AbnormalExitWarning)]
    logs = []
    for w in range(n):
        if os.path.exists(path(w)):
            with open(path(w)) as f:
                logs.append([eval(l, {'nan': np.nan}) for l in f])
        else:
            logs.append([])
    judge(ctx, locals())


def judge(ctx, c):
    n, steps, offset = c['n'], c['steps'], c['offset']
    logs, max_len = c['logs'], c['max_len']
    # each worker's own protocol
    tot_steps = 0
    hook_ts = [[] for _ in range(c['n_hooks'])]
    saves = []
    local = []
    complete = []
    last_t = []
    order = []
    died = []
    for w, log in enumerate(logs):
        where = lambda: 'worker {} of {} steps={} offset={} fault={}'.format(
            w, n, steps, offset, c['fault'] and (
                c['fault'], c['how'], c['victim']))
        obs, r, ep = None, 0, 0
        phase = 'reset'
        k = 0
        ts = [[] for _ in range(c['n_hooks'])]
        over = False
        nclose = {'train': 0, 'test': 0}
        test_over = True
        for e in log:
            if e[0] in ('reset', 'step') and e[1] == 'test':
                if e[0] == 'step':
                    ctx.require(not e[7], 'eval-step-after-end', str(e))
                ctx.require(phase in ('stopped', 'eval') or e[0] == 'reset',
                            'evaluation-order', str((phase, e)) + where())
                phase = 'eval'
            elif e[0] in ('act_eval', 'stop_eval'):
                phase = 'eval'
            elif e[0] == 'reset':
                ctx.require(phase in ('reset', 'stopped', 'eval'),
                            'reset-order', str((phase, e)) + where())
                obs, r, ep = e[2], 0, 0
                over = False
                phase = 'act'
            elif e[0] == 'act':
                ctx.require(phase in ('act', 'post') and not over, 'act-order',
                            str((phase, e)) + where())
                ctx.require(tuple(e[1]) == tuple(obs) and e[2] == r,
                            'act-args', '{} expected {} {}'.format(e, obs, r))
                a = e[3]
                phase = 'step'
            elif e[0] == 'step':
                ctx.require(phase == 'step' and e[2] == a and not e[7],
                            'step-order', str((phase, e)) + where())
                k += 1
                ep += 1
                obs, r = e[3], e[4]
                done = e[5]
                over = e[5] or e[6] or ep == max_len
                phase = 'post'
            elif e[0] == 'hook':
                ctx.require(phase == 'post' and e[2] == 'train', 'hook-order',
                            str((phase, e)) + where())
                ts[e[1]].append(e[3])
                hook_ts[e[1]].append(e[3])
            elif e[0] == 'stop':
                ctx.require(phase == 'post', 'stop-order',
                            str((phase, e)) + where())
                ctx.require(tuple(e[1]) == tuple(obs) and e[2] == r
                            and bool(e[3]) == done, 'stop-args',
                            '{} expected {} {} {}'.format(e, obs, r, done))
                phase = 'stopped'
                over = False
            elif e[0] == 'save':
                saves.append((w, os.path.basename(e[1])))
            elif e[0] == 'close':
                nclose[e[1]] += 1
            elif e[0] == 'initial':
                ctx.require(e[1] == [7.] * 3 and e[2] == 7.,
                            'initial-parameters', 'a worker did not start '
                            'from the shared parameters: {}'.format(e))
            elif e[0] == 'seen':
                pass
        seen = [e[1] for e in log if e[0] == 'seen']
        for x, y in zip(seen, seen[1:]):
            ctx.require(all(p <= q for p, q in zip(x, y)), 'lost-update',
                        'parameters went back: {} {}'.format(x, y))
        for i, x in enumerate(seen):
            ctx.require(x[w] == i + 1, 'lost-update', 'worker {} after {} '
                        'steps sees {}'.format(w, i + 1, x))
        for h in ts:
            ctx.require(all(x < y for x, y in zip(h, h[1:])), 'hook-monotone',
                        str(h))
            if not (c['fault'] and w == c['victim']):
                ctx.require(len(h) == k, 'hook-count', '{} hooks for {} steps '
                            'of worker {}'.format(len(h), k, w))
            if h:
                last_t.append(h[-1])
        tot_steps += k
        local.append(len(seen))
        order += [(t, w) for t in (ts[0] if ts else [])]
        finished = nclose['train'] == 1 and (
            nclose['test'] == (1 if c['interval'] else 0))
        complete.append(finished)
        if not finished:
            died.append(w)
    # failures
    if c['fault']:
        log = logs[c['victim']]
        fired = c['victim'] in died
        ctx.check(not [w for w in died if w != c['victim']], 'worker-lost',
                  'workers {} did not finish, victim {}'.format(
                      died, c['victim']))
        mine = [a for a in c['abnormal']
                if '#{} '.format(c['victim']) in a]
        ctx.check(len(mine) == int(fired) and
                  len(c['abnormal']) == int(fired), 'failure-report',
                  'failure of worker {} ({}): fired={} warnings={}'.format(
                      c['victim'], c['how'], fired, c['abnormal']))
        if fired:
            ctx.count('failed_workers')
            ctx.count('failure_by_' + c['how'])
    else:
        fired = False
        ctx.check(not died and not c['abnormal'], 'worker-lost',
                  'unfinished workers {} warnings {}'.format(
                      died, c['abnormal']))
    # global counting
    for h in hook_ts:
        hs = sorted(h)
        ctx.check(len(set(hs)) == len(hs), 'duplicate-global-step',
                  lambda: str([x for x in hs if hs.count(x) > 1][:10]))
        if not fired:
            ctx.check(hs == list(range(offset + 1, offset + 1 + len(hs))),
                      'global-steps', 'hooks saw {}..{} ({} values), offset '
                      '{}'.format(hs[:3], hs[-3:], len(hs), offset))
            ctx.check(len(hs) == tot_steps, 'global-steps-count',
                      '{} hook calls {} steps'.format(len(hs), tot_steps))
    succ = [s for s in saves if s[1] == 'successful']
    fins = [s for s in saves if s[1] == '{}_finish'.format(steps)]
    exc = [s for s in saves if s[1].endswith('_except')]
    other = [s for s in saves if s not in succ and s not in fins
             and s not in exc]
    ctx.check(not other, 'unexpected-save', str(saves))
    stopped = bool(succ)
    ctx.check(len(succ) <= 1, 'successful-saves', str(saves))
    ctx.check(len(fins) <= 1, 'final-saves', str(saves))
    if not fired:
        ctx.check(not exc, 'unexpected-save', str(saves))
        if not stopped:
            ctx.check(len(fins) == 1, 'final-save-missing', '{} total steps '
                      '{}'.format(saves, tot_steps))
            ctx.check(steps - offset <= tot_steps <= steps - offset + n - 1,
                      'budget', '{} steps executed, budget {}, {} workers'
                      .format(tot_steps, steps - offset, n))
        else:
            ctx.check(tot_steps <= steps - offset + n - 1, 'budget',
                      str(tot_steps))
    else:
        ctx.check(tot_steps <= steps - offset + n, 'budget', str(tot_steps))
        if c['victim'] == 0 and c['how'] in ('exception', 'interrupt'):
            ctx.check(len(exc) == 1 and exc[0][0] == 0, 'except-save',
                      'worker 0 failed but nothing was saved: {}'.format(
                          saves))
        else:
            ctx.check(not exc, 'except-save', str(saves))
        survivors = n - 1
        if survivors and not stopped and tot_steps >= steps - offset:
            # the final agent is saved unless the failed worker itself took
            # the last step
            if not fins:
                last_by_victim = any(
                    t == steps for t, w in order if w == c['victim']) or \
                    c['n_hooks'] == 0 or c['fault'][0] in ('hook', 'stop')
                ctx.check(last_by_victim, 'final-save-missing', str(saves))
    judge_scores(ctx, c)
    # sharing
    out = c['out']
    if not fired or True:
        got = (out.net.p.array - 7.).tolist()
        ctx.check(got == [[float(x)] * 3 for x in local], 'shared-parameters',
                  'returned agent has {} after local steps {}'.format(
                      got, local))
        ctx.check((out.net.q - 7.).tolist() == [float(x) for x in local],
                  'shared-persistent', '{} {}'.format(out.net.q, local))
        st = out.net.p.update_rule.state
        for k in st:
            ctx.check(st[k].tolist() == [[float(x)] * 3 for x in local],
                      'shared-optimizer-state', '{} {} {}'.format(
                          k, st[k], local))
        if not (fired and c['how'] == 'kill'):
            ctx.check(out.n_updates.value == sum(local), 'shared-counter',
                      '{} {}'.format(out.n_updates.value, local))
    order.sort()
    switches = sum(x[1] != y[1] for x, y in zip(order, order[1:]))
    ctx.count('global_steps', tot_steps)
    ctx.count('worker_switches', switches)
    ctx.sig(n, tuple(w for _, w in order)[:40], fired and c['how'], stopped,
            offset > 0)


def judge_scores(ctx, c):
    """Steps and episodes of every recorded evaluation."""
    p = os.path.join(ctx.tmp, 'scores.txt')
    if not c['interval']:
        ctx.check(not os.path.exists(p), 'scores-without-evaluation', p)
        return
    with open(p) as f:
        head, rows = f.readline().split(), [x.split() for x in f]
    rows = [dict(zip(head, x)) for x in rows]
    finished = sum(e[0] == 'stop' for log in c['logs'] for e in log)
    # evaluations by workers: (last global step, own finished episodes)
    evals = []
    for log in c['logs']:
        stops, t, inside = 0, None, False
        before = len(evals)
        for e in log:
            if e[0] == 'stop':
                stops += 1
                inside = False
            elif e[0] == 'hook':
                t = e[3]
            elif e[0] == 'reset' and e[1] == 'test':
                if not inside:
                    evals.append((t, stops))
                inside = True
        # episodes of the evaluations
        limit = c['max_len']
        test = [e for e in log if e[0] in ('reset', 'step') and
                e[1] == 'test']
        length, done = None, True
        for e in test + [('reset',)]:
            if e[0] == 'reset':
                if e[1:] or not c['fault']:
                    ctx.check(length is None or done or length == limit,
                              'eval-episode-cut', 'after {} steps, limit {}'
                              .format(length, limit))
                length, done = 0, False
            else:
                length += 1
                done = e[5]
                ctx.check(limit is None or length <= limit,
                          'eval-episode-length', '{} steps, limit {}'.format(
                              length, limit))
        if not c['fault']:
            n_resets = sum(e[0] == 'reset' for e in test)
            mine = sum(1 for t, k in evals) - before
            ctx.check(n_resets == mine * c['n_eval'], 'eval-episodes',
                      '{} episodes in {} evaluations of {}'.format(
                          n_resets, mine, c['n_eval']))
    cut = any(a for a in c['abnormal'])
    ctx.check(len(rows) == len(evals) or cut and len(rows) <= len(evals),
              'scores-rows', '{} rows, {} evaluations'.format(
                  len(rows), len(evals)))
    known = dict((t, k) for t, k in evals if t is not None)
    for row in rows:
        t, n_ep = int(row['steps']), int(row['episodes'])
        ctx.check(0 <= n_ep <= finished, 'scores-episodes',
                  '{} of {} finished'.format(row, finished))
        if c['n_hooks']:
            # the episode that just ended may or may not be counted yet
            ctx.check(t in known and n_ep >= known.get(t, 0) - 1,
                      'scores-episodes', lambda: '{}: the worker itself had '
                      'finished {} episodes'.format(row, known.get(t)))
            if c['n'] == 1 and t in known:
                ctx.check(n_ep <= known[t], 'scores-episodes', lambda:
                          '{}: only {} episodes'.format(row, known[t]))
    ctx.count('async_score_rows', len(rows))


@chk.scenario(quick=400, thorough=4000)
def complete_runs(ctx):
    """Workers that all survive."""
    scenario_run(ctx, False)


@chk.scenario(quick=400, thorough=4000)
def failing_workers(ctx):
    """One worker fails at a random call."""
    scenario_run(ctx, True)


@chk.scenario(quick=120, thorough=1000)
def run_async_failures(ctx):
    """run_async itself: every exit status is reported, everyone is joined."""
    rng = ctx.rng
    n = int(rng.randint(1, 7))
    plan = [str(rng.choice(['ok', 'ok', 'exc', 'exit', 'kill', 'term']))
            for _ in range(n)]
    code = int(rng.randint(1, 100))
    slow = rng.rand(n) * .02
    d = ctx.tmp

    def run(i):
        time.sleep(slow[i])
        open(os.path.join(d, 'p{}'.format(i)), 'w').close()
        if plan[i] == 'exc':
            raise loops.Injected('x')
        elif plan[i] == 'exit':
            os._exit(code)
        elif plan[i] == 'kill':
            os.kill(os.getpid(), signal.SIGKILL)
        elif plan[i] == 'term':
            signal.signal(signal.SIGTERM, signal.SIG_DFL)
            os.kill(os.getpid(), signal.SIGTERM)
        open(os.path.join(d, 'done{}'.format(i)), 'w').close()
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter('always')
        async_.run_async(n, run)
    for i in range(n):
        ctx.check(os.path.exists(os.path.join(d, 'p{}'.format(i))),
                  'not-run', 'process {} was not run'.format(i))
        ctx.check(os.path.exists(os.path.join(d, 'done{}'.format(i))) ==
                  (plan[i] == 'ok'), 'not-joined', 'process {}'.format(i))
    bad = [str(w.message) for w in ws
           if issubclass(w.category, async_.AbnormalExitWarning)]
    want = [i for i in range(n) if plan[i] != 'ok']
    ctx.check(len(bad) == len(want) and all(
        any('#{} '.format(i) in b for b in bad) for i in want),
        'failure-report', 'plan {} warnings {}'.format(plan, bad))
    ctx.sig(tuple(plan))


# ------------------------------------------------------------ real agents

def real_agent(rng, name):
    K_ = K
    n_obs, n_act = 4, 3
    if name == 'a3c':
        model = agents.a3c.A3CSeparateModel(
            policies.FCSoftmaxPolicy(n_obs, n_act, 1, 4),
            v_functions.FCVFunction(n_obs, 1, 4))
        K_.randomize(model, rng)
        opt = optimizers.RMSpropAsync(lr=1e-2)
        opt.setup(model)
        return agents.A3C(model, opt, t_max=3, gamma=.9), model
    if name == 'nsq':
        q = q_functions.FCStateQFunctionWithDiscreteAction(
            n_obs, n_act, n_hidden_channels=4, n_hidden_layers=1)
        K_.randomize(q, rng)
        opt = optimizers.RMSpropAsync(lr=1e-2)
        opt.setup(q)
        return agents.NSQ(q, opt, t_max=3, gamma=.9, i_target=20,
                          explorer=explorers.ConstantEpsilonGreedy(
                              .3, lambda: np.int32(0))), q
    if name == 'acer':
        model = agents.acer.ACERSeparateModel(
            pi=links.Sequence(L.Linear(n_obs, n_act),
                              distribution.SoftmaxDistribution),
            q=q_functions.FCStateQFunctionWithDiscreteAction(
                n_obs, n_act, n_hidden_channels=4, n_hidden_layers=1))
        K_.randomize(model, rng)
        opt = optimizers.RMSpropAsync(lr=1e-2)
        opt.setup(model)
        from chainerrl import replay_buffer
        return agents.ACER(
            model, opt, t_max=3, gamma=.9,
            replay_buffer=replay_buffer.EpisodicReplayBuffer(100),
            n_times_replay=1, replay_start_size=10), model
    if name == 'pcl':
        model = agents.pcl.PCLSeparateModel(
            pi=policies.FCSoftmaxPolicy(n_obs, n_act, 1, 4),
            v=v_functions.FCVFunction(n_obs, 1, 4))
        K_.randomize(model, rng)
        opt = optimizers.RMSpropAsync(lr=1e-2)
        opt.setup(model)
        from chainerrl import replay_buffer
        return agents.PCL(
            model, opt, t_max=3, gamma=.9, rollout_len=3, train_async=True,
            replay_buffer=replay_buffer.EpisodicReplayBuffer(100),
            n_times_replay=1, replay_start_size=10), model
    raise ValueError(name)


def shared_arrays(agent):
    out = {}

    def add(prefix, x):
        if isinstance(x, chainer.Link):
            for k, p in x.namedparams():
                out[prefix + k] = p.array
        elif isinstance(x, chainer.Optimizer):
            for k, p in x.target.namedparams():
                for s, v in p.update_rule.state.items():
                    out[prefix + k + ':' + s] = v
        elif isinstance(x, tuple):
            for i, y in enumerate(x):
                add(prefix + str(i), y)
    for attr in agent.shared_attributes:
        add(attr, getattr(agent, attr))
    return out


@chk.scenario(quick=60, thorough=600)
def real_agents(ctx):
    """A3C, NSQ, ACER and PCL: one shared set of parameters and statistics."""
    rng = ctx.rng
    name = str(rng.choice(['a3c', 'nsq', 'acer', 'pcl']))
    n = int(rng.randint(1, 4))
    steps = int(rng.randint(20, 60))
    use_make = rng.rand() < .5
    seed = int(rng.randint(2 ** 31))
    d = ctx.tmp
    parent = os.getpid()

    selected = FileLog(os.path.join(d, 'selected'))

    class CountingExplorer(explorers.ConstantEpsilonGreedy):
        def select_action(self, t, *args, **kwargs):
            selected.append(t)
            return super().select_action(t, *args, **kwargs)

    def make_agent(i):
        # same initial parameters in every process
        agent = real_agent(np.random.RandomState(seed), name)[0]
        if name == 'nsq':
            agent.explorer = CountingExplorer(.3, lambda: np.int32(0))
            agent.t_global.__class__ = DelayedSynchronized
        return agent

    def make_env(i, test):
        return loops.ScriptEnv(np.random.RandomState(seed + i), [],
                               obs='array', p_done=.1)

    def dump(agent, w, when):
        np.savez(os.path.join(d, '{}{}.npz'.format(when, w)),
                 **{k.replace('/', '|'): v.copy()
                    for k, v in shared_arrays(agent).items()})
    barrier_path = os.path.join(d, 'count')

    class Hook(object):
        def __init__(self):
            self.n = 0

        def __call__(self, env, agent, t):
            if self.n == 0:
                addr = {k: v.__array_interface__['data'][0]
                        for k, v in shared_arrays(agent).items()}
                with open(os.path.join(d, 'addr{}'.format(
                        agent.process_idx)), 'w') as f:
                    f.write(repr(addr))
            self.n += 1
    kw = {'make_agent': make_agent} if use_make else \
        {'agent': make_agent(0)}
    before = make_agent(0)
    b = {k: v.copy() for k, v in shared_arrays_init(before).items()}
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter('always')
        out = experiments.train_agent_async(
            d, n, make_env, steps=steps, eval_interval=None,
            global_step_hooks=[Hook()], **kw)
    abnormal = [str(w.message) for w in ws
                if issubclass(w.category, async_.AbnormalExitWarning)]
    ctx.require(not abnormal, 'worker-failed', name + str(abnormal))
    arrs = shared_arrays(out)
    addr = {k: v.__array_interface__['data'][0] for k, v in arrs.items()}
    for w in range(n):
        p = os.path.join(d, 'addr{}'.format(w))
        if not os.path.exists(p):
            continue
        with open(p) as f:
            theirs = eval(f.read())
        # anonymous shared memory is mapped at the same address after fork
        ctx.check(theirs == addr, 'not-shared', '{}: arrays of worker {} that '
                  'are not the shared ones: {}'.format(
                      name, w, [k for k in addr if theirs.get(k) != addr[k]]))
    changed = [k for k in arrs if k in b and not np.array_equal(
        b[k], arrs[k])]
    ctx.check(any(':' not in k for k in changed), 'updates-lost',
              '{}: no parameter of the returned agent changed'.format(name))
    ctx.check(any(np.any(v != 0) for k, v in arrs.items() if ':ms' in k),
              'statistics-lost', '{}: optimizer statistics not shared'.format(
                  name))
    # optimizer and model of one agent must be about the same parameters
    if hasattr(out, 'optimizer'):
        for k, p in out.optimizer.target.namedparams():
            ctx.check(p.array.__array_interface__['data'][0] in
                      addr.values(), 'optimizer-target',
                      '{}: the optimizer updates unshared {}'.format(name, k))
    if name == 'nsq':
        # the workers count their actions in one shared counter
        with open(os.path.join(d, 'selected')) as f:
            ts = [int(line) for line in f]
        ctx.check(out.t_global.value == len(ts), 'counter-lost',
                  lambda: '{} workers selected {} actions, the shared '
                  'counter is {}'.format(n, len(ts), out.t_global.value))
        ctx.check(all(0 <= t < len(ts) for t in ts) and 0 in ts,
                  'counter-range', lambda: str(ts))
        if n == 1:
            ctx.check(ts == list(range(len(ts))), 'counter-range',
                      lambda: str(ts))
        ctx.count('counted_actions', len(ts))
    ctx.count('real_agent_runs')
    ctx.sig(name, n, use_make)


def shared_arrays_init(agent):
    out = {}
    for attr in agent.shared_attributes:
        x = getattr(agent, attr)
        if isinstance(x, chainer.Link):
            for k, p in x.namedparams():
                out[attr + k] = p.array
    return out


if __name__ == '__main__':
    raise SystemExit(chk.main())
