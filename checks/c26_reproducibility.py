"""C26: training with fixed seeds is reproducible."""
import json
import os
import random
import subprocess
import sys

import numpy as np

from vlib import loops
from vlib import programs as P
from vlib.harness import Check
from chainerrl import experiments
from chainerrl import misc
from chainerrl.misc import async_

chk = Check(
    'C26',
    'distinct training programs (agent, models, explorer, replay buffer, '
    'optimizer, environment, serial or vectorised) whose complete event logs '
    'were compared between processes with different hash seeds, memory '
    'layouts, clocks and histories, and between different random seeds',
    ['one thread per process', 'CPU'])

HERE = os.path.dirname(os.path.abspath(__file__))
PER_CASE = 5


def start(ctx, mode, cases, hash_seed):
    out = os.path.join(ctx.tmp, mode + '.json')
    env = dict(os.environ, PYTHONHASHSEED=str(hash_seed))
    if mode == 'b':
        env['VERIF_UNRELATED'] = 'x' * 1000
    err = open(os.path.join(ctx.tmp, mode + '.err'), 'w')
    p = subprocess.Popen(
        [sys.executable, '-B', os.path.join(HERE, '..', 'vlib',
                                            'programs.py'), out, mode]
        + [str(c) for c in cases], env=env, cwd=ctx.tmp, stdout=err,
        stderr=err, start_new_session=True)
    return p, out, err.name


def finish(ctx, run, what):
    p, out, err = run
    try:
        rc = p.wait(timeout=200)
    finally:
        if p.poll() is None:
            os.killpg(p.pid, 9)
            p.wait()
    with open(err) as f:
        text = f.read()
    ctx.require(rc == 0, 'program-failed', lambda: '{}: {}'.format(
        what, text[-1500:]))
    with open(out) as f:
        return json.load(f)


def first_difference(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return i, x, y
    return min(len(a), len(b)), 'end' if len(a) <= len(b) else a[len(b)], \
        'end' if len(b) <= len(a) else b[len(a)]


def short(cfg):
    return {k: v for k, v in cfg.items() if k not in ('case',)}


@chk.scenario(quick=24, thorough=260, cpu=200)
def processes(ctx):
    """The same programs in two different processes."""
    rng = ctx.rng
    cases = [int(rng.randint(2 ** 30)) for _ in range(PER_CASE)]
    runs = [start(ctx, 'a', cases, rng.randint(1, 2 ** 31)),
            start(ctx, 'b', cases, rng.randint(1, 2 ** 31))]
    a, b = [finish(ctx, r, cases) for r in runs]
    for c in cases:
        cfg = P.config(c)
        x, y = a[str(c)], b[str(c)]
        ctx.count('events', len(x))
        ctx.count('programs')
        ctx.check(x == y, 'not-reproducible', lambda: 'event {} of {} ({} '
                  'instead of {}) differs between two runs of {}'.format(
                      first_difference(x, y)[0], len(x),
                      first_difference(x, y)[2], first_difference(x, y)[1],
                      short(cfg)))
        if cfg['kind'] != 'driver':
            u, v = a['fix1:{}'.format(c)], a['fix2:{}'.format(c)]
            ctx.check(u != v, 'seed-ignored', lambda: 'all {} events are the '
                      'same with another random seed: {}'.format(
                          len(u), short(cfg)))
            iu = [e for e in u if e[0].startswith('initial')]
            iv = [e for e in v if e[0].startswith('initial')]
            ctx.check(len(iu) > 0 and all(
                p[1] != q[1] for p, q in zip(iu, iv)), 'seed-ignored-initial',
                lambda: 'initial parameters do not depend on the random '
                'seed: {}'.format(short(cfg)))
        ctx.sig(cfg['kind'], cfg['name'] or P.D.spec_name(cfg['spec']),
                cfg.get('partially'), cfg.get('episodic'),
                cfg.get('randomize'), cfg.get('rng', 0) % 97)


@chk.scenario(quick=40, thorough=600)
def seed_helper(ctx):
    """set_random_seed determines every source of randomness."""
    rng = ctx.rng
    seed = int(rng.choice([0, 1, 2 ** 32 - 1, rng.randint(2 ** 31)]))

    def draw():
        return [random.random(), np.random.rand(), np.random.normal(),
                os.environ.get('CHAINER_SEED')]
    misc.set_random_seed(seed)
    a = draw()
    np.random.rand(int(rng.randint(1, 9)))
    random.random()
    misc.set_random_seed(seed)
    b = draw()
    ctx.check(a == b, 'helper:not-reset', lambda: '{} after {}'.format(b, a))
    ctx.check(a[3] == str(seed), 'helper:chainer-seed', str(a[3]))
    misc.set_random_seed((seed + 1 + int(rng.randint(1000))) % 2 ** 32)
    c = draw()
    ctx.check(all(x != y for x, y in zip(a, c)), 'helper:seed-ignored',
              lambda: '{} and {}'.format(a, c))
    ctx.sig(seed)


@chk.scenario(quick=10, thorough=150)
def async_seeds(ctx):
    """Workers have different random numbers, determined by the seed."""
    rng = ctx.rng
    n = int(rng.randint(2, 6))
    seed = int(rng.randint(2 ** 31))

    def run(seed, n):
        misc.set_random_seed(seed)
        paths = [os.path.join(ctx.tmp, '{}.{}'.format(seed, i))
                 for i in range(n)]

        def work(i):
            with open(paths[i], 'w') as f:
                json.dump([np.random.rand(), random.random(),
                           os.environ.get('CHAINER_SEED')], f)
        async_.run_async(n, work)
        out = []
        for p in paths:
            with open(p) as f:
                out.append(json.load(f))
            os.remove(p)
        return out
    a, b, c = run(seed, n), run(seed, n), run(seed + 1, n)
    ctx.check(a == b, 'async:not-reproducible', lambda: 'random numbers of '
              '{} workers: {} and then {}'.format(n, a, b))
    for k in range(2):
        ctx.check(len(set(x[k] for x in a)) == n, 'async:same-random-numbers',
                  lambda: '{} workers draw the same random numbers: {}'.format(
                      n, a))
    ctx.check(not any(x[0] == y[0] for x in a for y in c),
              'async:seed-ignored', lambda: '{} and {}'.format(a, c))
    ctx.sig(n, seed)


@chk.scenario(quick=10, thorough=150)
def async_training_seeds(ctx):
    """The same of the workers of train_agent_async: environments, agents."""
    rng = ctx.rng
    n = int(rng.randint(2, 5))
    seed = int(rng.randint(2 ** 31))
    use_make = bool(rng.rand() < .5)
    profile = ctx.tmp

    def run(seed, tag):
        misc.set_random_seed(seed)
        base = os.path.join(profile, tag)
        os.mkdir(base)

        def note(i, what):
            # appended to by one process at a time
            with open(os.path.join(base, '{}.{}'.format(what, i)), 'a') as f:
                f.write(json.dumps([np.random.rand(), random.random(),
                                    os.environ.get('CHAINER_SEED')]) + '\n')

        class Agent(loops.RecAgent):
            def act_and_train(self, obs, reward):
                note(self.process_idx, 'act')
                return super().act_and_train(obs, reward)
            shared_attributes = ()

        def make_agent(i):
            return Agent(np.random.RandomState(i), [])

        def make_env(i, test):
            note(i, 'env')
            return loops.ScriptEnv(np.random.RandomState(i), [], p_done=.2)
        kw = {'make_agent': make_agent} if use_make else \
            {'agent': make_agent(0)}
        experiments.train_agent_async(
            base, n, make_env, steps=20 * n, eval_interval=None, **kw)
        out = {}
        for what in ('env', 'act'):
            for i in range(n):
                p = os.path.join(base, '{}.{}'.format(what, i))
                if os.path.exists(p):
                    with open(p) as f:
                        # a fixed number: how many steps a worker gets
                        # is up to the scheduler
                        out[what, i] = [json.loads(x) for x in f][:3]
        return out
    a, b, c = run(seed, 'a'), run(seed, 'b'), run(seed + 1, 'c')
    for k in sorted(set(a) & set(b)):
        m = min(len(a[k]), len(b[k]))
        ctx.check(a[k][:m] == b[k][:m], 'async-training:not-reproducible',
                  lambda: 'random numbers of worker {}: {} and then {}'.format(
                      k, a[k], b[k]))
    for what in ('env', 'act'):
        first = [v[0] for (w, i), v in sorted(a.items()) if w == what]
        for j in range(3):
            ctx.check(len(set(x[j] for x in first)) == len(first),
                      'async-training:same-random-numbers', lambda:
                      '{} workers of {} draw {}'.format(n, what, first))
    used = set(x[0] for v in a.values() for x in v)
    ctx.check(not any(x[0] in used for v in c.values() for x in v),
              'async-training:seed-ignored', lambda: 'workers draw the same '
              'random numbers whatever the seed: {} and {}'.format(a, c))
    ctx.count('async_training_runs', 3)
    ctx.sig(n, seed, use_make)


if __name__ == '__main__':
    raise SystemExit(chk.main())
