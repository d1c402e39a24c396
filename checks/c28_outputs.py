"""C28: recorded outputs are complete."""
import argparse
import datetime
import json
import os
import subprocess
import sys

import chainer
from gym import spaces
import numpy as np

from vlib import loops
from vlib.harness import Check
from chainerrl import experiments
from chainerrl import misc
from chainerrl import policies
from chainerrl import q_functions
from chainerrl import v_functions

chk = Check(
    'C28',
    'distinct (budget kind, length limit, boundary kinds met, end mid-episode '
    'or not, observation kind) collections whose file was read back and '
    'compared with the event log, plus distinct (directory situation, '
    'argument kind, version control state, race) preparations whose files '
    'were read back',
    ['version controlled directories have at least one commit'])


def equal(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and \
            a.dtype == b.dtype and np.array_equal(a, b)
    if isinstance(a, (tuple, list)):
        return type(a) is type(b) and len(a) == len(b) and all(
            equal(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


@chk.scenario(quick=250, thorough=5000)
def demonstrations(ctx):
    rng = ctx.rng
    log = []
    obs_kind = ['tuple', 'array'][rng.randint(2)]
    env = loops.ScriptEnv(
        rng, log, p_done=float(rng.choice([0., .1, .3, 1.])),
        p_reset=float(rng.choice([0., .1, .3])), obs=obs_kind,
        max_len=[None, 5, 30][rng.randint(3)], info_mode=rng.randint(3),
        int_reward=bool(rng.randint(2)))
    agent = loops.RecAgent(rng, log)
    max_len = [None, 1, 2, 3, 7][rng.randint(5)]
    by_steps = bool(rng.randint(2))
    if not by_steps and max_len is None and env.max_len is None and \
            env.p_done == 0 and env.p_reset == 0:
        max_len = 4
    n = int(rng.randint(1, 60 if by_steps else 15))
    experiments.collect_demonstrations(
        agent, env, n if by_steps else None, None if by_steps else n,
        ctx.tmp, max_episode_len=max_len)
    # The event log, cut into transitions
    exp, resets, stops = [], 0, 0
    obs, t, over = None, 0, True
    kinds = set()
    pending = None
    n_done = 0
    bad = None
    for ev in log:
        if ev[0] == 'reset':
            if not over:
                bad = bad or 'reset in the middle of an episode'
            obs, t, over = ev[2], 0, False
            resets += 1
        elif ev[0] == 'act_eval':
            if over or not equal(ev[1], obs):
                bad = bad or 'agent acted on {!r} instead of {!r}'.format(
                    ev[1], obs)
            pending = ev[2]
        elif ev[0] == 'step':
            _, _, a, o, r, done, nr, _ = ev
            if over or a != pending:
                bad = bad or 'environment stepped with {!r}'.format(a)
            t += 1
            exp.append((obs, a, r, o, done))
            obs, pending = o, None
            over = done or nr or t == max_len
            if over:
                n_done += 1
                kinds.add('done' if done else 'needs_reset' if nr else 'len')
            if max_len is not None and t > max_len:
                bad = bad or 'episode longer than max_episode_len'
        elif ev[0] == 'stop_eval':
            stops += 1
        elif ev[0] != 'act_eval':
            bad = bad or 'unexpected {!r}'.format(ev[:1])
    ctx.require(bad is None, 'demos:protocol', lambda: bad)
    if by_steps:
        ctx.require(len(exp) == n, 'demos:steps', lambda: '{} steps instead '
                    'of {}'.format(len(exp), n))
    else:
        ctx.require(n_done == n and over, 'demos:episodes', lambda:
                    '{} episodes instead of {}'.format(n_done, n))
    ctx.require(stops == resets, 'demos:stop-episode', lambda:
                'stop_episode called {} times in {} episodes'.format(
                    stops, resets))
    path = os.path.join(ctx.tmp, 'demos.pickle')
    with chainer.datasets.open_pickle_dataset(path) as ds:
        ctx.require(len(ds) == len(exp), 'demos:length', lambda: '{} instead '
                    'of {} transitions'.format(len(ds), len(exp)))
        order = rng.permutation(len(exp)) if rng.randint(2) else \
            range(len(exp))
        for i in order:
            got = ds[int(i)]
            ctx.require(
                len(got) == 6 and equal(tuple(got[:5]), exp[i]),
                'demos:transition', lambda: 'transition {}: {!r} instead of '
                '{!r}'.format(i, got, exp[i]))
    ctx.count('transitions', len(exp))
    ctx.count('episodes', n_done)
    ctx.sig(by_steps, max_len, tuple(sorted(kinds)), over, obs_kind)


class InfoEnv(object):
    """Infos are kept for comparison; observations are large arrays."""

    def __init__(self, rng, n):
        self.rng, self.n = rng, n
        self.infos = []

    def reset(self):
        return self.rng.rand(self.n)

    def step(self, a):
        info = {'x': self.rng.rand(2), 'k': int(self.rng.randint(9)),
                'needs_reset': bool(self.rng.rand() < .1)}
        self.infos.append(info)
        return self.rng.rand(self.n), np.float32(self.rng.normal()), \
            bool(self.rng.rand() < .1), info


class ArrayAgent(object):
    """Returns the same (modified) array for every action."""

    def __init__(self, rng):
        self.rng = rng
        self.a = np.zeros(2, 'f')
        self.actions = []

    def act(self, obs):
        self.a[:] = self.rng.rand(2)
        self.actions.append(self.a.copy())
        return self.a

    def stop_episode(self):
        pass


@chk.scenario(quick=60, thorough=800)
def demonstrations_content(ctx):
    """Infos, actions and large observations come back unchanged."""
    rng = ctx.rng
    env = InfoEnv(rng, int(rng.choice([1, 3, 2000])))
    agent = ArrayAgent(rng)
    n = int(rng.randint(1, 40))
    experiments.collect_demonstrations(agent, env, n, None, ctx.tmp)
    with chainer.datasets.open_pickle_dataset(
            os.path.join(ctx.tmp, 'demos.pickle')) as ds:
        ctx.require(len(ds) == n, 'content:length', str(len(ds)))
        prev = None
        for i in range(n):
            obs, a, r, new_obs, done, info = ds[i]
            ctx.require(equal(a, agent.actions[i]), 'content:action',
                        lambda: 'action {}: {!r} instead of {!r}'.format(
                            i, a, agent.actions[i]))
            e = env.infos[i]
            ctx.require(info.keys() == e.keys() and all(
                equal(info[k], e[k]) for k in e), 'content:info',
                lambda: 'info {}: {!r} instead of {!r}'.format(i, info, e))
            if prev is not None:
                ctx.require(equal(prev, obs), 'content:chain',
                            'observation differs from the previous next '
                            'observation')
            prev = None if done or info['needs_reset'] else new_obs
    ctx.sig(n, env.n)


# ---------------------------------------------------------------------------
def args_of(rng):
    d = {'lr': float(rng.normal()), 'seed': int(rng.randint(2 ** 31)),
         'name': ['x', '', 'ü "quoted" \n', 'a b'][rng.randint(4)],
         'flag': bool(rng.randint(2)), 'none': None,
         'list': [int(x) for x in rng.randint(9, size=rng.randint(3))],
         'nested': {'a': 1.5}}
    keep = [k for k in d if rng.rand() < .8]
    d = {k: d[k] for k in keep}
    if rng.randint(2):
        return argparse.Namespace(**d), d
    return dict(d), d


def git(cwd, *args):
    env = dict(os.environ, GIT_AUTHOR_NAME='a', GIT_AUTHOR_EMAIL='a@b',
               GIT_COMMITTER_NAME='a', GIT_COMMITTER_EMAIL='a@b',
               GIT_CONFIG_GLOBAL='/dev/null')
    return subprocess.check_output(('git',) + args, cwd=cwd, env=env,
                                   stderr=subprocess.DEVNULL)


def make_repo(ctx, path):
    os.makedirs(path)
    git(path, 'init', '-q')
    name = os.path.join(path, 'f.txt')
    with open(name, 'w') as f:
        f.write('one\n')
    git(path, 'add', '-A')
    git(path, 'commit', '-q', '-m', 'first')
    k = ctx.rng.randint(4)
    if k in (1, 3):
        with open(name, 'a') as f:
            f.write('two é\n')
    if k in (2, 3):
        with open(os.path.join(path, 'new.txt'), 'w') as f:
            f.write('x')
    return int(k)


def snapshot(root):
    out = {}
    for d, _, fs in os.walk(root):
        out[d] = None
        for f in fs:
            p = os.path.join(d, f)
            with open(p, 'rb') as h:
                out[p] = (h.read(), os.stat(p).st_mtime_ns)
    return out


def read(*p):
    with open(os.path.join(*p)) as f:
        return f.read()


@chk.scenario(quick=60, thorough=800)
def output_dir(ctx):
    rng = ctx.rng
    work = os.path.join(ctx.tmp, 'work')
    vc = bool(rng.randint(2))
    # the scratch directory itself must not be inside a repository
    dirty = make_repo(ctx, work) if vc else os.makedirs(work)
    old_cwd, old_env, old_argv = os.getcwd(), dict(os.environ), sys.argv
    import tempfile
    tempfile.tempdir = os.path.join(ctx.tmp, 'systmp')
    os.makedirs(tempfile.tempdir)
    os.chdir(work)
    try:
        os.environ['GIT_CEILING_DIRECTORIES'] = ctx.tmp
        os.environ['VERIF_C28'] = 'x"\n=é {}'.format(rng.randint(99))
        ctx.check(misc.is_return_code_zero(['git', 'rev-parse']) == vc,
                  'outdir:git-detection', 'version control not recognised')
        args, plain = args_of(rng)
        argv = [None, ['prog', '--x', '1'], ['p']][rng.randint(3)]
        sys.argv = ['train.py', '--gpu', str(rng.randint(9))]
        fmt = [None, '%Y%m%dT%H%M%S.%f', '%Y', 'results'][rng.randint(4)]
        kw = {}
        if fmt is not None:
            kw['time_format'] = fmt
        if argv is not None:
            kw['argv'] = argv
        situation = ['none', 'new', 'nested', 'existing', 'content', 'file',
                     'taken'][rng.randint(7)]
        base = os.path.join(ctx.tmp, 'out')
        if situation == 'nested':
            base = os.path.join(base, 'a', 'b')
        elif situation in ('existing', 'content', 'taken'):
            os.makedirs(base)
        if situation == 'content':
            for nm in ('args.txt', 'model.npz', 'environ.txt'):
                with open(os.path.join(base, nm), 'w') as f:
                    f.write('old results')
        if situation == 'file':
            with open(base, 'w') as f:
                f.write('old results')
        if situation == 'taken':
            fmt = kw['time_format'] = ['results', '%Y'][rng.randint(2)]
            taken = os.path.join(base, datetime.datetime.now().strftime(fmt))
            os.makedirs(taken)
            nm = ['args.txt', 'environ.txt', 'scores.txt', None][
                rng.randint(4)]
            if nm is not None:
                with open(os.path.join(taken, nm), 'w') as f:
                    f.write('old results')
        if situation == 'none':
            given = None
        else:
            given = base if rng.randint(2) else os.path.relpath(base)
        before = snapshot(ctx.tmp)
        if vc:
            exp_git = {'git-head.txt': git(work, 'rev-parse', 'HEAD'),
                       'git-log.txt': git(work, 'log'),
                       'git-status.txt': git(work, 'status'),
                       'git-diff.txt': git(work, 'diff')}
        t0 = datetime.datetime.now()
        if situation in ('file', 'taken'):
            ctx.raises((RuntimeError, OSError), lambda:
                       experiments.prepare_output_dir(
                           args, user_specified_dir=given, **kw),
                       'outdir:accepted-' + situation,
                       'existing results were accepted as a new directory')
            unchanged = {p: v for p, v in snapshot(ctx.tmp).items()
                         if '/.git' not in p}
            ctx.check(unchanged == {p: v for p, v in before.items()
                                    if '/.git' not in p},
                      'outdir:destroyed', 'existing files were changed')
            ctx.sig(situation, vc, fmt)
            return
        out = experiments.prepare_output_dir(
            args, user_specified_dir=given, **kw)
        t1 = datetime.datetime.now()
        ctx.require(isinstance(out, str) and os.path.isdir(out),
                    'outdir:missing', repr(out))
        real = os.path.realpath(out)
        ctx.check(real not in [os.path.realpath(p) for p in before],
                  'outdir:not-fresh', 'the directory existed before')
        name = os.path.basename(real)
        parent = os.path.dirname(real)
        if situation == 'none':
            ctx.check(parent == os.path.realpath(tempfile.tempdir),
                      'outdir:parent', real)
        else:
            ctx.check(parent == os.path.realpath(base), 'outdir:parent', real)
            f = fmt or '%Y%m%dT%H%M%S.%f'
            if '%f' in f:
                t = datetime.datetime.strptime(name, f)
                ctx.check(t0 <= t <= t1, 'outdir:time', name)
            else:
                ctx.check(name in (t0.strftime(f), t1.strftime(f)),
                          'outdir:time', name)
        after = snapshot(ctx.tmp)
        lost = [p for p in before if '/.git' not in p and
                after.get(p, 'gone') != before[p]]
        ctx.check(not lost, 'outdir:destroyed', lambda: str(lost))
        ctx.check(json.loads(read(out, 'args.txt')) == plain, 'outdir:args',
                  lambda: read(out, 'args.txt'))
        ctx.check(json.loads(read(out, 'environ.txt')) == dict(os.environ),
                  'outdir:environ', 'environ.txt differs from os.environ')
        ctx.check(read(out, 'command.txt') == ' '.join(argv or sys.argv),
                  'outdir:command', lambda: read(out, 'command.txt'))
        gits = set(f for f in os.listdir(out) if f.startswith('git-'))
        if vc:
            for nm, txt in exp_git.items():
                with open(os.path.join(out, nm), 'rb') as f:
                    got = f.read()
                ctx.check(got == txt, 'outdir:' + nm, lambda: '{!r} instead '
                          'of {!r}'.format(got[:200], txt[:200]))
        else:
            ctx.check(not gits, 'outdir:git-files', lambda: str(gits))
        if isinstance(args, dict):
            ctx.check(args == plain, 'outdir:args-changed', '')
        ctx.sig(situation, vc, dirty, fmt, argv is None,
                isinstance(args, dict))
    finally:
        os.chdir(old_cwd)
        os.environ.clear()
        os.environ.update(old_env)
        sys.argv = old_argv
        tempfile.tempdir = None


@chk.scenario(quick=12, thorough=100)
def concurrent_output_dirs(ctx):
    """Several processes prepare a directory at the same time."""
    rng = ctx.rng
    n = int(rng.randint(2, 7))
    fmt = ['%Y%m%dT%H%M%S.%f', 'same', '%Y'][rng.randint(3)]
    base = os.path.join(ctx.tmp, 'out')
    old_cwd = os.getcwd()
    os.chdir(ctx.tmp)
    go = os.path.join(ctx.tmp, 'go')
    pids = []
    for i in range(n):
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.environ['GIT_CEILING_DIRECTORIES'] = ctx.tmp
                while not os.path.exists(go):
                    pass
                try:
                    out = experiments.prepare_output_dir(
                        {'worker': i}, user_specified_dir=base,
                        time_format=fmt, argv=['w', str(i)])
                except (RuntimeError, OSError) as e:
                    out = 'ERR ' + type(e).__name__
                with open(os.path.join(ctx.tmp, 'res{}'.format(i)),
                          'w') as f:
                    f.write(out)
                code = 0
            finally:
                os._exit(code)
        pids.append(pid)
    with open(go, 'w'):
        pass
    codes = [os.waitpid(p, 0)[1] for p in pids]
    os.chdir(old_cwd)
    ctx.require(codes == [0] * n, 'race:crashed', str(codes))
    res = [read(ctx.tmp, 'res{}'.format(i)) for i in range(n)]
    winners = [(i, r) for i, r in enumerate(res) if not r.startswith('ERR')]
    ctx.require(len(winners) >= 1, 'race:nobody', str(res))
    ctx.check(len(set(r for _, r in winners)) == len(winners),
              'race:shared', lambda: 'several processes were given the same '
              'directory: {}'.format(res))
    if fmt == 'same':
        ctx.check(len(winners) == 1, 'race:shared', str(res))
    for i, r in winners:
        ctx.check(json.loads(read(r, 'args.txt')) == {'worker': i} and
                  read(r, 'command.txt') == 'w {}'.format(i),
                  'race:content', 'directory of another process')
    ctx.check(len(os.listdir(base)) == len(
        winners), 'race:leftover', lambda: str(os.listdir(base)))
    ctx.count('winners', len(winners))
    ctx.count('refused', n - len(winners))
    ctx.sig(n, fmt, len(winners))


def graph_cases(rng):
    """(outputs, what they depend on: every parameter of these links)."""
    n_obs = int(rng.randint(1, 4))
    n_act = int(rng.randint(2, 4))
    h = int(rng.randint(1, 4))
    x = np.asarray(rng.normal(size=(int(rng.randint(1, 3)), n_obs)), 'f')
    lim = np.ones(n_act, 'f')
    q = q_functions.FCStateQFunctionWithDiscreteAction(n_obs, n_act, h, 1)
    quad = q_functions.FCQuadraticStateQFunction(
        n_obs, n_act, h, 1, action_space=spaces.Box(-lim, lim))
    dist_q = q_functions.DistributionalFCStateQFunctionWithDiscreteAction(
        n_obs, n_act, 3, -1., 1., h, 1)
    pi = policies.FCSoftmaxPolicy(n_obs, n_act, 1, h)
    gauss = policies.FCGaussianPolicy(
        n_obs, n_act, n_hidden_layers=1, n_hidden_channels=h,
        var_type='diagonal')
    v = v_functions.FCVFunction(n_obs, 1, h)
    links = [(q, 'discrete'), (quad, 'quadratic'), (dist_q, 'distributional'),
             (pi, 'softmax'), (gauss, 'gaussian'), (v, 'variable')]
    k = int(rng.randint(8))
    if k < 6:
        return x, links[k][0](x), [links[k][0]], links[k][1]
    pick = [links[i] for i in rng.permutation(6)[:1 + rng.randint(3)]]
    outs = [link(x) for link, _ in pick]
    if k == 7:
        outs = tuple(outs[:-1]) + ([outs[-1]],)
    return x, outs, [link for link, _ in pick], str([n for _, n in pick])


@chk.scenario(quick=24, thorough=240)
def computational_graphs(ctx):
    """The drawn graph has everything the given outputs are computed from."""
    rng = ctx.rng
    x, outs, links, what = graph_cases(rng)
    path = os.path.join(ctx.tmp, 'graph.v1' if rng.randint(2) else 'graph')
    misc.draw_computational_graph(outs, path)
    with open(path + '.gv') as f:
        gv = f.read()
    ctx.check(gv.startswith('digraph'), 'graph-format', gv[:60])
    for link in links:
        for name, p in link.namedparams():
            ctx.check(str(id(p.node)) in gv, 'graph-incomplete', lambda:
                      '{}: parameter {} is not in the graph'.format(
                          what, name))
    files = {os.path.basename(path) + '.gv'}
    if misc.is_return_code_zero(['dot', '-V']):
        files.add(os.path.basename(path) + '.png')
        with open(path + '.png', 'rb') as f:
            ctx.check(f.read(8) == b'\x89PNG\r\n\x1a\n', 'graph-png', what)
    ctx.check(set(os.listdir(ctx.tmp)) == files, 'graph-files',
              str(os.listdir(ctx.tmp)))
    ctx.count('graphs')
    ctx.sig(what, x.shape)


if __name__ == '__main__':
    raise SystemExit(chk.main())
