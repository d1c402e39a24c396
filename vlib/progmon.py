"""Run one of the shipped training programs with monitors attached.

usage: progmon.py REPORT.json SCRIPT [ARGS...]

The program itself is unchanged and runs as __main__; what it calls is
wrapped on the way: gym.make (which environments are seeded with what), the
training loops of chainerrl.experiments (what environments give, what agents
are shown and answer) and the evaluations (parameters before and after, the
rewards that were really given).  The report is a list of what went wrong and
counts of what was observed.
"""
import hashlib
import json
import os
import runpy
import sys

import chainer
import numpy as np

from vlib import harness  # NOQA  (never a stale .pyc of the code under test)
import gym
import chainerrl
from chainerrl import experiments
from chainerrl.experiments import evaluator as ev_mod

REPORT, SCRIPT = sys.argv[1], sys.argv[2]
PID = os.getpid()
V, N = [], {}
ROWS = []           # one per evaluation: (scores of the finished episodes)
SNAPS = []          # parameters at each evaluation of the training run
STATE = {'eval': 0, 'phase': None}


def bad(key, msg):
    if os.getpid() == PID and len(V) < 20:
        V.append((key, str(msg)[:800]))


def count(k, n=1):
    N[k] = N.get(k, 0) + n


def dig(x):
    if isinstance(x, (tuple, list)):
        return '[' + ','.join(dig(y) for y in x) + ']'
    a = np.asarray(x)       # LazyFrames convert themselves
    return hashlib.sha1(repr((a.shape, str(a.dtype))).encode() +
                        np.ascontiguousarray(a).tobytes()).hexdigest()[:16]


def arrays(link):
    s = chainer.serializers.DictionarySerializer()
    s.save(link)
    return {k: np.array(v) for k, v in s.target.items()}


def snapshot(agent):
    out = {}
    for a in agent.saved_attributes:
        o = getattr(agent, a)
        if isinstance(o, chainer.Link):
            out[a] = arrays(o)
    return out


def same(a, b):
    if sorted(a) != sorted(b):
        return 'parts {} and {}'.format(sorted(a), sorted(b))
    for k in a:
        if sorted(a[k]) != sorted(b[k]):
            return 'entries of {} differ'.format(k)
        for n in a[k]:
            x, y = a[k][n], b[k][n]
            if x.shape != y.shape or x.tobytes() != y.tobytes():
                return '{}/{}'.format(k, n)
    return None


def saved(dirname, agent):
    out = {}
    for a in agent.saved_attributes:
        if isinstance(getattr(agent, a), chainer.Link):
            with np.load(os.path.join(dirname, a + '.npz'),
                         allow_pickle=True) as f:
                out[a] = {k: np.array(f[k]) for k in f.files}
    return out


# ------------------------------------------------------------ environments
SEEDLOG = REPORT + '.seeds'
orig_make = gym.make


def make(*a, **kw):
    env = orig_make(*a, **kw)
    u = env.unwrapped
    seed0, reset0 = u.seed, u.reset
    me = {'seed': None, 'resets': 0}

    def seed(s=None):
        me['seed'] = s
        return seed0(s)

    def reset(*a, **k):
        if me['resets'] == 0:
            with open(SEEDLOG, 'a') as f:
                f.write(json.dumps([os.getpid(), me['seed'] is not None and
                                    int(me['seed'])]) + '\n')
        me['resets'] += 1
        return reset0(*a, **k)
    u.seed, u.reset = seed, reset
    return env


gym.make = make


# ------------------------------------------ generators nobody has seeded
# Two kinds of generators start from the entropy of the operating system:
# those of action spaces and of RandomizeAction.  Programs that draw from one
# without seeding it are reported; the generators are then given fixed seeds
# here, so that everything else about the program can still be compared.
UNSEEDED = REPORT + '.unseeded'
made = [0]
told = set()


def unseeded(kind):
    if (os.getpid(), kind) not in told:
        told.add((os.getpid(), kind))
        with open(UNSEEDED, 'a') as f:
            f.write(kind + '\n')


def watch_spaces():
    seed0 = gym.spaces.Space.seed

    def seed(self, seed=None):
        self._verif_unseeded = seed is None
        if seed is None:
            made[0] += 1
            seed = 1000 + made[0]
        return seed0(self, seed)
    gym.spaces.Space.seed = seed

    def watch(cls):
        sample0 = cls.sample

        def sample(self):
            if getattr(self, '_verif_unseeded', False):
                unseeded('action-space')
            return sample0(self)
        cls.sample = sample
    watch(gym.spaces.Discrete)
    watch(gym.spaces.Box)


class NoEnv(object):
    def seed(self, seed=None):
        return [seed]


def watch_randomize_action():
    cls = chainerrl.wrappers.RandomizeAction
    init0, seed0, step0 = cls.__init__, cls.seed, cls.step

    def init(self, env, random_fraction):
        init0(self, env, random_fraction)
        made[0] += 1
        inner, self.env = self.env, NoEnv()
        seed0(self, 1000 + made[0])
        self.env = inner
        self._verif_unseeded = random_fraction > 0

    def seed(self, seed=None):
        self._verif_unseeded = False
        return seed0(self, seed)

    def step(self, action):
        if self._verif_unseeded:
            unseeded('randomize-action')
        return step0(self, action)
    cls.__init__, cls.seed, cls.step = init, seed, step


watch_spaces()
watch_randomize_action()


class Env(object):
    """What an environment gave, and what it was given."""

    def __init__(self, env, name):
        self.__dict__['_env'] = env
        self.__dict__['_m'] = {'obs': None, 'r': 0., 'live': False,
                               'done': False, 'name': name, 'sum': 0.,
                               'action': None, 'steps': 0}

    def __getattr__(self, n):
        return getattr(self._env, n)

    def __setattr__(self, n, v):
        setattr(self._env, n, v)

    def reset(self, *a, **k):
        o = self._env.reset(*a, **k)
        m = self._m
        m.update(obs=dig(o), r=0., live=True, done=False, sum=0., action=None)
        count('resets of the {} environment'.format(m['name']))
        return o

    def step(self, action):
        m = self._m
        if not m['live'] or m['done']:
            bad('step-without-reset',
                '{} environment stepped after its episode had ended'.format(
                    m['name']))
        if m['action'] is None or dig(action) != m['action']:
            bad('action', '{} environment given another action than the one '
                'the agent chose'.format(m['name']))
        o, r, d, info = self._env.step(action)
        m.update(obs=dig(o), r=float(r), done=bool(d), action=None)
        m['sum'] += float(r)
        m['steps'] += 1
        count('steps of the {} environment'.format(m['name']))
        return o, r, d, info


class VecEnv(chainerrl.env.VectorEnv):

    def close(self):
        return self._env.close()

    def seed(self, seeds):
        return self._env.seed(seeds)

    def __init__(self, env, name):
        n = env.num_envs
        self.__dict__['_env'] = env
        self.__dict__['_m'] = {'obs': [None] * n, 'r': [0.] * n,
                               'done': [False] * n, 'name': name,
                               'action': None, 'steps': 0,
                               'live': [False] * n}

    def __getattr__(self, n):
        return getattr(self._env, n)

    def __setattr__(self, n, v):
        setattr(self._env, n, v)

    def reset(self, mask=None):
        obs = self._env.reset(mask) if mask is not None else self._env.reset()
        m = self._m
        for i, o in enumerate(obs):
            if mask is None or not mask[i]:
                m['r'][i], m['done'][i], m['live'][i] = 0., False, True
            m['obs'][i] = dig(o)
        count('resets of the {} environments'.format(m['name']))
        return obs

    def step(self, actions):
        m = self._m
        if not all(m['live']) or any(m['done']):
            bad('step-without-reset',
                '{} environments stepped after an episode had ended'.format(
                    m['name']))
        if m['action'] is None or [dig(a) for a in actions] != m['action']:
            bad('action', '{} environments given other actions than the '
                'agent chose'.format(m['name']))
        obs, rs, ds, infos = self._env.step(actions)
        m.update(obs=[dig(o) for o in obs], r=[float(r) for r in rs],
                 done=[bool(d) for d in ds], action=None)
        m['steps'] += 1
        count('steps of the {} environments'.format(m['name']))
        return obs, rs, ds, infos


def watch_agent(agent, env, eval_env):
    """Instance hooks: the agent must be shown what the environment gave."""

    def cur():
        return (eval_env if STATE['eval'] else env)._m

    inside = [0]
    hooked = []

    def hook(name, f):
        if not hasattr(agent, name):
            return
        g = getattr(agent, name)

        def inner(*a, **k):
            inside[0] += 1
            try:
                return g(*a, **k)
            finally:
                inside[0] -= 1
        h = f(inner)

        def outer(*a, **k):
            # calls an agent makes of itself are its own business
            return g(*a, **k) if inside[0] else h(*a, **k)
        setattr(agent, name, outer)
        hooked.append(name)

    def act_and_train(g):
        def f(obs, reward):
            m = cur()
            if STATE['eval']:
                bad('training-call-in-evaluation', 'act_and_train')
            if dig(obs) != m['obs'] or float(reward) != m['r']:
                bad('shown', 'act_and_train was shown another observation or '
                    'reward than the environment gave: reward {} given {}'
                    .format(reward, m['r']))
            a = g(obs, reward)
            m['action'] = dig(a)
            count('act_and_train calls')
            return a
        return f

    def stop_and_train(g):
        def f(state, reward, done=False):
            m = cur()
            if STATE['eval']:
                bad('training-call-in-evaluation', 'stop_episode_and_train')
            if dig(state) != m['obs'] or float(reward) != m['r'] \
                    or bool(done) != m['done']:
                bad('shown', 'stop_episode_and_train was shown {} {}, the '
                    'environment gave {} {}'.format(reward, done, m['r'],
                                                    m['done']))
            m['live'] = False
            count('stop_episode_and_train calls')
            return g(state, reward, done)
        return f

    def act(g):
        def f(obs):
            m = cur()
            if not STATE['eval']:
                bad('evaluation-call-in-training', 'act')
            if dig(obs) != m['obs']:
                bad('shown', 'act was shown another observation than the '
                    'environment gave')
            a = g(obs)
            m['action'] = dig(a)
            count('act calls')
            return a
        return f

    def stop(g):
        def f():
            if STATE['eval']:
                cur()['live'] = False
            return g()
        return f

    def batch_act_and_train(g):
        def f(obss):
            m = cur()
            if STATE['eval']:
                bad('training-call-in-evaluation', 'batch_act_and_train')
            if [dig(o) for o in obss] != m['obs']:
                bad('shown', 'batch_act_and_train was shown other '
                    'observations than the environments gave')
            a = g(obss)
            m['action'] = [dig(x) for x in a]
            count('batch_act_and_train calls')
            return a
        return f

    def batch_observe_and_train(g):
        def f(obss, rs, ds, resets):
            m = cur()
            if STATE['eval']:
                bad('training-call-in-evaluation', 'batch_observe_and_train')
            if [dig(o) for o in obss] != m['obs'] or \
                    [float(r) for r in rs] != m['r'] or \
                    [bool(d) for d in ds] != m['done']:
                bad('shown', 'batch_observe_and_train was shown other things '
                    'than the environments gave')
            count('batch_observe_and_train calls')
            return g(obss, rs, ds, resets)
        return f

    def batch_act(g):
        def f(obss):
            m = cur()
            if not STATE['eval']:
                bad('evaluation-call-in-training', 'batch_act')
            if [dig(o) for o in obss] != m['obs']:
                bad('shown', 'batch_act was shown other observations than '
                    'the environments gave')
            a = g(obss)
            m['action'] = [dig(x) for x in a]
            count('batch_act calls')
            return a
        return f

    hook('act_and_train', act_and_train)
    hook('stop_episode_and_train', stop_and_train)
    hook('act', act)
    hook('stop_episode', stop)
    hook('batch_act_and_train', batch_act_and_train)
    hook('batch_observe_and_train', batch_observe_and_train)
    hook('batch_act', batch_act)

    def unwatch():
        # vector environments close themselves when nobody refers to them
        for name in hooked:
            delattr(agent, name)
    return unwatch


# -------------------------------------------------------------- evaluations
class EpisodeSums(object):
    """Sums of the rewards of the episodes that ran in an evaluation."""

    def __init__(self, env):
        self.env, self.cur, self.open, self.done = env, 0., False, []

    def __getattr__(self, n):
        return getattr(self.env, n)

    def reset(self, *a, **k):
        if self.open:
            self.done.append(self.cur)
        self.cur, self.open = 0., True
        return self.env.reset(*a, **k)

    def step(self, a):
        o, r, d, i = self.env.step(a)
        self.cur += float(r)
        if d:
            self.done.append(self.cur)
            self.open = False
            self.cur = 0.
        return o, r, d, i


orig_eval = ev_mod.eval_performance


def eval_performance(env, agent, *a, **kw):
    if os.getpid() != PID:
        return orig_eval(env, agent, *a, **kw)
    before = snapshot(agent)
    vec = isinstance(env, chainerrl.env.VectorEnv) or isinstance(env, VecEnv)
    rec = env if vec else EpisodeSums(env)
    STATE['eval'] += 1
    try:
        st = orig_eval(rec, agent, *a, **kw)
    finally:
        STATE['eval'] -= 1
    d = same(before, snapshot(agent))
    if d:
        bad('evaluation-trains', 'parameters changed by an evaluation: ' + d)
    count('evaluations')
    if not vec:
        sums = list(rec.done)
        if rec.open:
            sums.append(rec.cur)
        n = kw.get('n_episodes', a[1] if len(a) > 1 else None)
        if n is not None:
            if len(sums) != n:
                bad('evaluation-episodes', '{} episodes, asked for {}'.format(
                    len(sums), n))
            elif abs(st['mean'] - float(np.mean(sums))) > \
                    1e-9 * (1 + abs(st['mean'])) or \
                    st['max'] != max(sums) or st['min'] != min(sums):
                bad('evaluation-score', 'reported {}, the environment gave '
                    '{}'.format(st, sums))
            else:
                count('evaluation scores recomputed')
    ROWS.append([float(st['mean']), float(st['median']), float(st['stdev']),
                 float(st['max']), float(st['min'])])
    if STATE['phase'] == 'train':
        SNAPS.append((float(st['mean']), before))
    return st


ev_mod.eval_performance = eval_performance
experiments.eval_performance = eval_performance


# ----------------------------------------------------------- training loops
def loop(orig, batch):
    def f(agent, env, steps, *a, **kw):
        cls = VecEnv if batch else Env
        e = cls(env, 'training')
        same_env = kw.get('eval_env') is None or kw['eval_env'] is env
        ee = e if same_env else cls(kw['eval_env'], 'evaluation')
        if not same_env:
            kw = dict(kw, eval_env=ee)
        unwatch = watch_agent(agent, e, ee)
        STATE['phase'] = 'train'
        first = snapshot(agent)
        try:
            r = orig(agent, e, steps, *a, **kw)
        finally:
            STATE['phase'] = None
            unwatch()
        n = e._m['steps'] * (e.num_envs if batch else 1)
        lo = steps
        hi = steps + (e.num_envs - 1 if batch else 0)
        if not same_env and not lo <= n <= hi:
            bad('steps', 'asked for {} steps, {} were made'.format(steps, n))
        last = snapshot(agent)
        if same(first, last) is None:
            count('runs that never updated a parameter')
        else:
            count('runs that updated parameters')
        outdir = kw['outdir']
        fin = os.path.join(outdir, '{}_finish'.format(n if batch else steps))
        if not os.path.isdir(fin):
            bad('finish', 'no {} among {}'.format(fin, os.listdir(outdir)))
        else:
            d = same(saved(fin, agent), last)
            if d:
                bad('finish', 'the saved final agent is not the trained '
                    'one: ' + d)
            count('saved final agents compared')
        best, top = None, -float('inf')
        for s, p in SNAPS:
            if s > top:
                best, top = p, s
        bd = os.path.join(outdir, 'best')
        if kw.get('save_best_so_far_agent', True) and best is not None:
            if not os.path.isdir(bd):
                bad('best', 'no best agent saved')
            else:
                d = same(saved(bd, agent), best)
                if d:
                    bad('best', 'the saved best agent is not the one that '
                        'was evaluated best: ' + d)
                count('saved best agents compared')
        with open(os.path.join(outdir, 'scores.txt')) as g:
            lines = [x.rstrip('\n').split('\t') for x in g]
        rows = [[float(c) for c in x[3:8]] for x in lines[1:]]
        if rows != ROWS[:len(rows)] or len(rows) != len(ROWS):
            bad('scores', 'scores.txt has {}, the evaluations gave {}'.format(
                rows, ROWS))
        if any(len(x) != len(lines[0]) for x in lines):
            bad('scores', 'rows of different lengths in scores.txt')
        stp = [int(x[0]) for x in lines[1:]]
        if stp != sorted(stp) or any(not 0 < s <= hi for s in stp):
            bad('scores', 'steps of scores.txt: {}'.format(stp))
        ivl = kw['eval_interval']
        if len(stp) > n // ivl:
            bad('scores', '{} evaluations in {} steps at interval {}'.format(
                len(stp), n, ivl))
        count('rows of scores.txt', len(rows))
        return r
    return f


experiments.train_agent_with_evaluation = loop(
    experiments.train_agent_with_evaluation, False)
experiments.train_agent_batch_with_evaluation = loop(
    experiments.train_agent_batch_with_evaluation, True)

orig_async = experiments.train_agent_async


def train_agent_async(*a, **kw):
    agent = orig_async(*a, **kw)
    fin = os.path.join(kw['outdir'], '{}_finish'.format(kw['steps']))
    if not os.path.isdir(fin):
        bad('finish', 'no {}'.format(fin))
    count('asynchronous trainings')
    return agent


experiments.train_agent_async = train_agent_async

orig_load = {}


def watch_load():
    from chainerrl import agent as A
    g = A.AttributeSavingMixin.load

    def load(self, dirname):
        r = g(self, dirname)
        if os.getpid() == PID and os.path.abspath(dirname) and \
                getattr(self, 'saved_attributes', None):
            d = same(saved(dirname, self), snapshot(self))
            if d:
                bad('load', 'what was loaded is not what is stored: ' + d)
            count('loaded agents compared')
        return r
    A.AttributeSavingMixin.load = load


watch_load()

sys.argv = [SCRIPT] + sys.argv[3:]
sys.path.insert(0, os.path.dirname(SCRIPT))
code = 0
try:
    runpy.run_path(SCRIPT, run_name='__main__')
except SystemExit as e:
    code = e.code or 0
finally:
    if os.getpid() == PID:
        with open(REPORT, 'w') as f:
            json.dump({'violations': V, 'counts': N, 'rows': ROWS}, f)
sys.exit(code)
