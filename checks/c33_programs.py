"""C33: the shipped training programs do, end to end, what they promise.

Every program under examples/ that can run here (Gym classic control and
Atari) is run as its own process under vlib/progmon.py with random options, a
second time with the same seed (in another process, with other string hashes,
another output directory and another scratch history), a third time with
another seed, and then, from what it saved, in its --demo mode, twice.
"""
import glob
import hashlib
import json
import os
import pickle
import re
import resource
import signal
import subprocess
import sys

import chainer
import numpy as np

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.harness import Check, REPO, VERIF  # NOQA

check = Check(
    'C33',
    'Each shipped training program (32 programs of examples/gym, mujoco and '
    'atari, random options: replay kinds, architectures, updates, 1-3 '
    'environments or processes) run under monitors: clean exit; environments '
    'seeded as the --seed says; agents shown what the environments gave, '
    'environments given what agents answered; evaluations leave parameters '
    'alone and report what the environment paid; scores.txt, best/, '
    '<steps>_finish/ complete and equal to the live agent; the same --seed '
    'gives bit-identical scores and saved agents, another seed different '
    'ones; --demo --load restores bit-identically, is repeatable and leaves '
    'the saved agent unchanged.',
    assumptions=['programs are run with few steps on small environments '
                 '(CartPole-v0, Pendulum-v0, Pong)',
                 'bit-identical repetition is required of programs with one '
                 'process, as the programs themselves say'])

PEND, CART, PONG = 'Pendulum-v0', 'CartPole-v0', 'PongNoFrameskip-v4'
PY = '/opt/venv/bin/python'


def some(rng, *alts):
    """Each alternative is a list of arguments; [] is always one of them."""
    alts = ((),) + alts
    return list(alts[rng.randint(len(alts))])


def evals(rng):
    return ['--eval-interval', str(rng.choice([40, 50, 70])),
            '--eval-n-runs', str(rng.choice([1, 2, 3]))]


def gym_dqn(rng):
    env = [CART, PEND][rng.randint(2)]
    a = ['--env', env, '--replay-start-size', '40', '--gpu', '-1']
    a += some(rng, ['--prioritized-replay'])
    a += some(rng, ['--noisy-net-sigma', '0.5'])
    a += some(rng, ['--target-update-method', 'soft'])
    a += some(rng, ['--update-interval', '3'])
    a += some(rng, ['--target-update-interval', '10'])
    return a + ['--final-exploration-steps', '100'] + evals(rng)


def gym_cat(rng):
    return ['--env', CART, '--replay-start-size', '40', '--gpu', '-1'] + \
        some(rng, ['--prioritized-replay']) + \
        some(rng, ['--target-update-interval', '10']) + \
        some(rng, ['--update-interval', '3']) + evals(rng)


def gym_iqn(rng):
    return ['--env', CART, '--replay-start-size', '40', '--gpu', '-1'] + \
        some(rng, ['--target-update-interval', '10']) + \
        some(rng, ['--update-interval', '3']) + evals(rng)


def gym_a2c(rng):
    i = rng.randint(3)
    a = ['--env', [CART, CART, PEND][i],
         '--arch', ['FFSoftmax', 'FFMellowmax', 'Gaussian'][i]]
    return a + ['--gpu', '-1', '--update-steps', str(rng.choice([3, 5, 20])),
                '--num-envs', str(rng.choice([1, 1, 2, 3]))] + \
        some(rng, ['--use-gae']) + some(rng, ['--max-grad-norm', '0.5']) + \
        evals(rng)


def gym_a3c(rng):
    i = rng.randint(3)
    return [str(rng.choice([1, 1, 2])), '--env', [CART, CART, PEND][i],
            '--arch', ['FFSoftmax', 'FFMellowmax', 'LSTMGaussian'][i],
            '--t-max', str(rng.choice([2, 5]))] + evals(rng)


def gym_acer(rng):
    return [str(rng.choice([1, 1, 2])), '--env', [CART, PEND][rng.randint(2)],
            '--t-max', str(rng.choice([5, 20])), '--replay-start-size',
            str(rng.choice([10, 30]))] + \
        some(rng, ['--disable-online-update']) + evals(rng)


def gym_pcl(rng):
    a = ['--env', [CART, PEND][rng.randint(2)], '--gpu', '-1', '--batchsize',
         str(rng.choice([1, 2])), '--replay-start-size', '2', '--t-max',
         str(rng.choice([5, 10]))]
    a += some(rng, ['--prioritized-replay'])
    a += some(rng, ['--disable-online-update'])
    a += some(rng, ['--rollout-len', '5'])
    a += some(rng, ['--train-async', '--processes', '1'],
              ['--train-async', '--processes', '2'])
    return a + evals(rng)


def gym_reinforce(rng):
    return ['--env', [CART, PEND][rng.randint(2)], '--gpu', '-1',
            '--batchsize', str(rng.choice([1, 2])),
            '--beta', str(rng.choice([0, 1e-3]))] + evals(rng)


def mj_ddpg(rng, batch=False):
    a = ['--env', PEND, '--replay-start-size', '40', '--minibatch-size', '16',
         '--gpu', '-1', '--n-hidden-channels', '32']
    a += some(rng, ['--use-bn'])
    a += some(rng, ['--target-update-method', 'hard',
                    '--target-update-interval', '7'])
    a += some(rng, ['--update-interval', '1'])
    if batch:
        a += ['--num-envs', str(rng.choice([1, 2, 3]))]
    return a + evals(rng)


def mj_ddpg_batch(rng):
    return mj_ddpg(rng, True)


def mj_ppo(rng):
    i = rng.randint(4)
    a = ['--env', [CART, CART, PEND, PEND][i], '--arch',
         ['FFSoftmax', 'FFMellowmax', 'FFGaussian', 'FFGaussian'][i]]
    return a + ['--update-interval', '50', '--batchsize', '16', '--epochs',
                '2', '--gpu', '-1'] + \
        some(rng, ['--standardize-advantages']) + \
        some(rng, ['--bound-mean']) + evals(rng)


def mj_ppo_batch(rng):
    return ['--env', PEND, '--update-interval', '50', '--batchsize', '16',
            '--epochs', '2', '--gpu', '-1', '--num-envs',
            str(rng.choice([1, 2, 3]))] + \
        some(rng, ['--standardize-advantages']) + evals(rng)


def mj_trpo(rng):
    return ['--env', PEND, '--trpo-update-interval',
            str(rng.choice([30, 50])), '--gpu', '-1'] + evals(rng)


def re_offp(rng):
    return ['--env', PEND, '--gpu', '-1', '--replay-start-size', '60',
            '--batch-size', '16'] + evals(rng)


def re_sac(rng):
    return re_offp(rng) + ['--num-envs', str(rng.choice([1, 2]))]


def re_ppo(rng):
    return ['--env', PEND, '--gpu', '-1', '--update-interval', '50',
            '--batch-size', '16', '--epochs', '2', '--num-envs',
            str(rng.choice([1, 2]))] + evals(rng)


FRAMES = ['--max-frames', '240']


def at_eval(rng):
    return ['--eval-interval', str(rng.choice([40, 60])),
            '--eval-n-runs', str(rng.choice([1, 2]))] + FRAMES


def at_evalsteps(rng):
    return ['--eval-interval', '50', '--eval-n-steps',
            str(rng.choice([65, 80]))]


def at_dqn(rng, batch=False):
    a = ['--env', PONG, '--replay-start-size', '40', '--gpu', '-1']
    arch = ['nature', 'nips', 'dueling', 'doubledqn'][rng.randint(4)]
    a += ['--arch', arch, '--agent',
          ['DQN', 'DoubleDQN', 'PAL'][rng.randint(3)]]
    a += some(rng, ['--prioritized'])
    a += some(rng, ['--noisy-net-sigma', '0.5'])
    n = some(rng, ['3'])
    if n:
        a += ['--n-step-return' if batch else '--num-step-return'] + n
    a += some(rng, ['--target-update-interval', '20'])
    a += ['--update-interval', str(rng.choice([4, 8]))]
    if batch:
        a += ['--num-envs', str(rng.choice([1, 2]))]
    return a + ['--final-exploration-frames', '100'] + at_eval(rng)


def at_dqn_batch(rng):
    return at_dqn(rng, True)


def at_cat(rng):
    return ['--env', PONG, '--replay-start-size', '40', '--gpu', '-1',
            '--batch-size', '16', '--update-interval', '8'] + \
        some(rng, ['--target-update-interval', '20']) + at_eval(rng)


def at_diqn(rng):
    return ['--env', PONG, '--replay-start-size', '60', '--gpu', '-1',
            '--batch-size', '8', '--update-interval', '10',
            '--quantile-thresholds-N', '8', '--quantile-thresholds-N-prime',
            '8', '--agent', ['IQN', 'DoubleIQN'][rng.randint(2)],
            '--n-best-episodes', '1'] + \
        some(rng, ['--prioritized']) + \
        some(rng, ['--num-step-return', '3']) + \
        at_evalsteps(rng) + FRAMES


def at_drqn(rng):
    a = ['--env', PONG, '--replay-start-size', '40', '--gpu', '-1',
         '--batch-size', '4', '--update-interval', '8']
    a += some(rng, ['--recurrent', '--episodic-update-len', '5'])
    a += some(rng, ['--flicker']) + some(rng, ['--no-frame-stack'])
    return a + at_evalsteps(rng) + FRAMES


def at_a2c(rng):
    return ['--env', PONG, '--update-steps', str(rng.choice([3, 5])),
            '--gpu', '-1', '--num-envs', str(rng.choice([1, 2]))] + \
        some(rng, ['--use-gae']) + at_eval(rng)


def at_async(rng):
    return [str(rng.choice([1, 2])), '--env', PONG] + \
        some(rng, ['--use-lstm']) + ['--t-max', '5'] + at_eval(rng)


def at_nsq(rng):
    return [str(rng.choice([1, 2])), '--env', PONG] + at_eval(rng)


def at_ppo(rng):
    return ['--env', PONG, '--update-interval', '40', '--batchsize', '16',
            '--epochs', '2', '--gpu', '-1', '--num-envs',
            str(rng.choice([1, 2]))] + some(rng, ['--recurrent']) + \
        some(rng, ['--flicker']) + some(rng, ['--no-frame-stack']) + \
        at_eval(rng)


def rp_dqn(rng):
    return ['--env', PONG, '--replay-start-size', '60', '--gpu', '-1',
            '--n-best-episodes', '1'] + at_evalsteps(rng)


def rp_rainbow(rng):
    return rp_dqn(rng) + FRAMES


def rp_iqn(rng):
    return rp_rainbow(rng) + ['--batch-size', '8', '--update-interval', '10']


def rp_a3c(rng):
    return ['--processes', str(rng.choice([1, 2])), '--env', PONG] + \
        at_evalsteps(rng) + FRAMES


# (program, options, steps, may use several processes, has --demo runs)
GYM = [
    ('gym/train_dqn_gym.py', gym_dqn, 120),
    ('gym/train_categorical_dqn_gym.py', gym_cat, 120),
    ('gym/train_iqn_gym.py', gym_iqn, 100),
    ('gym/train_a2c_gym.py', gym_a2c, 120),
    ('gym/train_a3c_gym.py', gym_a3c, 120),
    ('gym/train_acer_gym.py', gym_acer, 120),
    ('gym/train_pcl_gym.py', gym_pcl, 120),
    ('gym/train_reinforce_gym.py', gym_reinforce, 150),
    ('mujoco/train_ddpg_gym.py', mj_ddpg, 100),
    ('mujoco/train_ddpg_batch_gym.py', mj_ddpg_batch, 100),
    ('mujoco/train_ppo_gym.py', mj_ppo, 120),
    ('mujoco/train_ppo_batch_gym.py', mj_ppo_batch, 120),
    ('mujoco/train_trpo_gym.py', mj_trpo, 120),
    ('mujoco/reproduction/ddpg/train_ddpg.py', re_offp, 100),
    ('mujoco/reproduction/td3/train_td3.py', re_offp, 100),
    ('mujoco/reproduction/trpo/train_trpo.py', mj_trpo, 100),
    ('mujoco/reproduction/ppo/train_ppo.py', re_ppo, 120),
    ('mujoco/reproduction/soft_actor_critic/train_soft_actor_critic.py',
     re_sac, 100),
]
ATARI = [
    ('atari/train_dqn_ale.py', at_dqn, 70),
    ('atari/train_dqn_batch_ale.py', at_dqn_batch, 70),
    ('atari/train_categorical_dqn_ale.py', at_cat, 70),
    ('atari/train_double_iqn.py', at_diqn, 100),
    ('atari/train_drqn_ale.py', at_drqn, 70),
    ('atari/train_a2c_ale.py', at_a2c, 70),
    ('atari/train_a3c_ale.py', at_async, 70),
    ('atari/train_acer_ale.py', at_async, 70),
    ('atari/train_nsq_ale.py', at_nsq, 70),
    ('atari/train_ppo_ale.py', at_ppo, 90),
    ('atari/reproduction/dqn/train_dqn.py', rp_dqn, 100),
    ('atari/reproduction/iqn/train_iqn.py', rp_iqn, 100),
    ('atari/reproduction/rainbow/train_rainbow.py', rp_rainbow, 100),
    ('atari/reproduction/a3c/train_a3c.py', rp_a3c, 70),
]


def opt(args, name, default=None):
    return args[args.index(name) + 1] if name in args else default


def processes(prog, args):
    if args and args[0].isdigit():
        return int(args[0])
    if '--processes' in args:
        return int(opt(args, '--processes')) \
            if 'a3c' in prog or '--train-async' in args else 1
    return 1


def digests(d):
    """Contents of the arrays of every saved file below d."""
    out = {}
    for root, _, files in os.walk(d):
        for f in sorted(files):
            p = os.path.join(root, f)
            h = hashlib.sha1()
            if f.endswith('.npz'):
                with np.load(p, allow_pickle=True) as z:
                    for k in sorted(z.files):
                        a = np.array(z[k])
                        h.update(repr((k, a.shape, str(a.dtype))).encode())
                        h.update(a.tobytes() if a.dtype != object
                                 else repr(a).encode())
            else:
                with open(p, 'rb') as g:
                    h.update(g.read())
            out[os.path.relpath(p, d)] = h.hexdigest()[:16]
    return out


class Run(object):
    def __init__(self, ctx, prog, args, tag, hashseed):
        self.base = os.path.join(ctx.tmp, tag)
        os.mkdir(self.base)
        rep = os.path.join(self.base, 'report.json')
        out = os.path.join(self.base, 'out')
        work = os.path.join(self.base, 'cwd')
        os.mkdir(work)
        script = os.path.join(REPO, 'examples', prog)
        env = dict(os.environ, PYTHONPATH=VERIF + ':' + REPO,
                   PYTHONHASHSEED=str(hashseed), VERIF_REPO=REPO,
                   HOME=self.base, TMPDIR=self.base)
        cmd = [PY, '-B', os.path.join(VERIF, 'vlib', 'progmon.py'), rep,
               script] + list(args) + ['--outdir', out]
        self.cmd = ' '.join(cmd[3:])
        log = os.path.join(self.base, 'log')
        with open(log, 'wb') as f:
            # about 100 times the CPU time any of these runs takes
            p = subprocess.Popen(
                cmd, cwd=work, env=env, stdout=f, stderr=f,
                stdin=subprocess.DEVNULL, preexec_fn=lambda:
                resource.setrlimit(resource.RLIMIT_CPU, (450, 500)))
            try:
                self.rc = p.wait(timeout=700)
            except subprocess.TimeoutExpired:
                p.send_signal(signal.SIGKILL)
                p.wait()
                raise RuntimeError('no time left for ' + self.cmd)
        with open(log, errors='replace') as f:
            self.log = f.read()
        self.report = None
        if os.path.exists(rep):
            with open(rep) as f:
                self.report = json.load(f)
        self.seeds = []
        if os.path.exists(rep + '.seeds'):
            with open(rep + '.seeds') as f:
                self.seeds = [json.loads(x) for x in f]
        self.unseeded = set()
        if os.path.exists(rep + '.unseeded'):
            with open(rep + '.unseeded') as f:
                self.unseeded = set(f.read().split())
        dirs = glob.glob(out + '/*')
        self.dir = dirs[0] if len(dirs) == 1 else None
        ctx.count('program runs')

    def scores(self):
        p = os.path.join(self.dir, 'scores.txt')
        if not os.path.exists(p):
            return None
        with open(p) as f:
            rows = [x.rstrip('\n').split('\t') for x in f]
        i = rows[0].index('elapsed')
        return [r[:i] + r[i + 1:] for r in rows]

    def printed(self):
        return [x for x in self.log.split('\n')
                if re.match(r'n_(runs|steps|episodes)', x)]


def ok(ctx, r, what):
    if r.rc != 0 or r.report is None:
        ctx.fatal('exit:' + what, '{} ended with {}\n{}\n{}'.format(
            what, r.rc, r.cmd, r.log[-1800:]))
    for k, m in r.report['violations']:
        ctx.fail('{}:{}'.format(k, what), '{}\n{}'.format(m, r.cmd))
    for k in sorted(r.unseeded):
        ctx.fail('unseeded-{}:{}'.format(k, what.split(' ')[0]),
                 'random numbers drawn from a generator that --seed does not '
                 'seed: ' + r.cmd)
    for k, n in r.report['counts'].items():
        ctx.count(k, n)
        ctx.count('oracle_decisions', n)
    ctx.require(r.dir is not None, 'outdir:' + what,
                'no single output directory was made: ' + r.cmd)


def run_program(ctx, prog, options, steps):
    rng = ctx.rng
    args = options(rng)
    name = prog.split('/')[-1]
    procs = processes(prog, args)
    steps = int(steps + rng.randint(0, 25))
    seed = int(rng.randint(0, 1000))
    train = args + ['--steps', str(steps)]
    a = Run(ctx, prog, train + ['--seed', str(seed)], 'a', 1)
    ok(ctx, a, name)
    # --- what is there
    for f in ('args.txt', 'command.txt', 'environ.txt'):
        ctx.check(os.path.exists(os.path.join(a.dir, f)), 'file:' + f, a.cmd)
    with open(os.path.join(a.dir, 'args.txt')) as f:
        rec = json.load(f)
    ctx.check(rec.get('seed') == seed and rec.get('steps') == steps
              and rec.get('env') == opt(args, '--env'), 'args', str(rec))
    fin = glob.glob(a.dir + '/*_finish')
    ctx.require(len(fin) == 1 and os.listdir(fin[0]), 'finish:' + name,
                '{} in {}'.format(fin, os.listdir(a.dir)))
    fin = fin[0]
    # --- seeds of the environments
    n_envs = int(opt(args, '--num-envs', '1'))
    n = max(procs, n_envs)
    own = [seed * n + i for i in range(n)]
    # evaluation counts down from the largest seed
    test = [2 ** b - o - s for s in own for b in (31, 32) for o in (0, 1)]
    got = [s for _, s in a.seeds]
    ctx.check(False not in got, 'unseeded:' + name,
              'an environment was used without being seeded: ' + a.cmd)
    got = set(int(s) for s in got if s is not False)
    ctx.check(got <= set(own) | set(test), 'seeds:' + name,
              'environments seeded with {} of {} {}: {}'.format(
                  sorted(got), own, test, a.cmd))
    one = n > 1 and got & set(own) == {own[-1]}
    ctx.check(set(own) <= got, ('one-seed:' if one else 'seeds:') + name,
              'training environments '
              'seeded with {} instead of {}: {}'.format(
                  sorted(got), own, a.cmd))
    ctx.count('environments whose seeds were checked', len(a.seeds))
    sa = a.scores()
    ctx.require(sa is not None, 'scores:' + name, a.cmd)
    if len(sa) > 1:
        ctx.count('runs with evaluations')
    # --- again
    if procs == 1:
        b = Run(ctx, prog, train + ['--seed', str(seed)], 'b', 2)
        ok(ctx, b, name)
        ctx.check(b.scores() == sa, 'repeat-scores:' + name,
                  lambda: 'same seed, other scores: {} {}\n{}'.format(
                      sa[-1], b.scores()[-1], a.cmd))
        da, db = digests(a.dir), digests(b.dir)
        saved = [k for k in da if k.endswith('.npz')]
        diff = [k for k in saved if da[k] != db.get(k)]
        ctx.check(sorted(saved) == sorted(
            k for k in db if k.endswith('.npz')), 'repeat-files:' + name,
            '{} {}'.format(sorted(da), sorted(db)))
        ctx.check(not diff, 'repeat-agents:' + name,
                  'same seed, other saved agents: {}\n{}'.format(diff, a.cmd))
        ctx.count('repeated runs compared')
        c = Run(ctx, prog, train + ['--seed', str(seed + 1)], 'c', 1)
        ok(ctx, c, name)
        dc = digests(c.dir)
        models = [k for k in saved if '_finish' in k and
                  'optimizer' not in k]
        ctx.check(any(da[k] != dc.get(k) for k in models),
                  'seed-ignored:' + name, 'another seed gave the same saved '
                  'agent: ' + a.cmd)
    # --- demonstration of what was saved
    before = digests(fin)
    demo = args + ['--demo', '--load', fin, '--seed', str(seed)]
    if '--eval-n-runs' in demo:
        demo[demo.index('--eval-n-runs') + 1] = '1'
    if 'train_drqn' in name:
        demo += ['--demo-n-episodes', '1']
    rs = [Run(ctx, prog, demo, 'd1', 3)]
    ok(ctx, rs[0], name + ' --demo')
    ctx.check(rs[0].report['counts'].get('evaluations', 0) == 1,
              'demo-runs:' + name, str(rs[0].report))
    ctx.check(rs[0].report['counts'].get('loaded agents compared', 0) >= 1,
              'demo-load:' + name, str(rs[0].report))
    if ctx.idx % 2 == 0 or ctx.tier == 'thorough':
        rs.append(Run(ctx, prog, demo, 'd2', 4))
        ok(ctx, rs[1], name + ' --demo')
        ctx.check(rs[0].report['rows'] == rs[1].report['rows'],
                  'demo-repeat:' + name, '{} {} {}'.format(
                      rs[0].report['rows'], rs[1].report['rows'],
                      rs[0].cmd))
    ctx.check(len(rs[0].printed()) == 1 and repr(
        rs[0].report['rows'][0][0])[:12] in rs[0].printed()[0],
        'demo-printed:' + name, '{} {}'.format(
            rs[0].printed(), rs[0].report['rows']))
    ctx.check(digests(fin) == before, 'demo-writes:' + name,
              'a demonstration changed the saved agent: ' + rs[0].cmd)
    ctx.count('demonstrations')
    ctx.sig(prog, tuple(args))
    ctx.sample('{} {}: {} rows of scores, final agent {}'.format(
        prog, ' '.join(train), len(sa) - 1, sorted(before)))


@check.scenario(quick=len(GYM), thorough=len(GYM) * 6, cpu=900)
def gym_programs(ctx):
    run_program(ctx, *GYM[ctx.idx % len(GYM)])


@check.scenario(quick=len(ATARI), thorough=len(ATARI) * 4, cpu=900)
def atari_programs(ctx):
    run_program(ctx, *ATARI[ctx.idx % len(ATARI)])


@check.scenario(quick=2, thorough=8, cpu=900)
def demonstration_programs(ctx):
    """train_dqn_ale.py, then collect_demos_ale.py with what it saved."""
    rng = ctx.rng
    seed = int(rng.randint(0, 1000))
    base = ['--env', PONG, '--gpu', '-1']
    a = Run(ctx, 'atari/train_dqn_ale.py', base + [
        '--steps', '60', '--replay-start-size', '40', '--arch',
        'nature', '--seed', str(seed)], 'a', 1)
    ok(ctx, a, 'train_dqn_ale.py')
    fin = glob.glob(a.dir + '/*_finish')[0]
    before = digests(fin)
    steps = int(rng.randint(30, 90))
    prog = 'atari/collect_demos_ale.py'
    got = []
    for tag, s in (('b', seed), ('c', seed), ('d', seed + 1)):
        r = Run(ctx, prog, base + ['--load', fin, '--steps', str(steps),
                                   '--seed', str(s)], tag, int(tag != 'b'))
        ok(ctx, r, 'collect_demos_ale.py')
        ctx.check(set(x for _, x in r.seeds) == {s}, 'demos-seed',
                  str(r.seeds))
        data = chainer.datasets.open_pickle_dataset(
            os.path.join(r.dir, 'demos.pickle'))
        got.append([(np.asarray(o).tobytes(), int(a), float(rew),
                     np.asarray(o2).tobytes(), bool(d), bool(
                         i.get('needs_reset', False)))
                    for o, a, rew, o2, d, i in (
                        data[k] for k in range(len(data)))])
    ctx.check(len(got[0]) == steps, 'demos-steps', '{} transitions of {} '
              'steps'.format(len(got[0]), steps))
    ctx.check(got[0] == got[1], 'demos-repeat', 'same seed, other demos')
    ctx.check(got[0] != got[2], 'demos-seed-ignored', 'another seed, the '
              'same demos')
    for x, y in zip(got[0], got[0][1:]):
        if not x[4] and not x[5]:
            ctx.check(x[3] == y[0], 'demos-chain', 'demonstrations do not '
                      'continue each other')
    ctx.check(digests(fin) == before, 'demos-writes', 'collecting changed '
              'the saved agent')
    ctx.count('demonstration data sets', 3)
    ctx.sig('collect_demos', seed, steps)


if __name__ == '__main__':
    sys.exit(check.main())
