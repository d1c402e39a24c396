"""C15: saving and loading an agent restores everything it has learned."""
import copy
import os
import random
import shutil
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from vlib.harness import Check  # noqa: E402
from vlib import agentkit as K  # noqa: E402
from vlib import drive as D  # noqa: E402
from vlib import onpolicy as O  # noqa: E402
from vlib import replay_agents as R  # noqa: E402

import chainer  # noqa: E402
import numpy as np  # noqa: E402

import chainerrl  # noqa: E402
from chainerrl import agent as agent_base  # noqa: E402

chk = Check(
    'C15',
    rule='Every agent is trained for a random time, saved, and loaded into '
    'an agent with the same structure but other parameters.  Every network '
    'and optimizer reachable from the two agents is compared array by array, '
    'then the loaded agent and a copy made in memory are trained on '
    'identical data and must stay identical; the saved agent is compared '
    'with a twin that was not saved.',
    assumptions=['step counters, statistics for logging, replay buffers '
                 '(C04) and running episodes are not part of a snapshot'])

OPTIMIZERS = {
    'sgd': lambda lr: chainer.optimizers.SGD(lr),
    'adam': lambda lr: chainer.optimizers.Adam(alpha=lr),
    'amsgrad': lambda lr: chainer.optimizers.Adam(alpha=lr, amsgrad=True),
    'momentum': lambda lr: chainer.optimizers.MomentumSGD(lr),
    'rmsprop': lambda lr: chainer.optimizers.RMSprop(lr),
    'rmsprop_graves': lambda lr: chainer.optimizers.RMSpropGraves(lr),
    'rmsprop_async': lambda lr:
        chainerrl.optimizers.rmsprop_async.RMSpropAsync(lr=lr),
}


def learned_parts(agent):
    """Every link and optimizer the agent refers to."""
    out = {}
    for n, v in sorted(vars(agent).items()):
        if isinstance(v, (chainer.Link, chainer.Optimizer)):
            out[n] = v
    return out


IGNORED = ('/N',)  # number of fine tuning batches, not statistics


def part_state(v):
    if isinstance(v, chainer.Link):
        s = D.link_state(v)
        return dict((k, x) for k, x in s.items()
                    if not ('/' + k).endswith(IGNORED))
    return D.optimizer_state(v)


def full_state(agent):
    out = {}
    for n, v in learned_parts(agent).items():
        for k, x in part_state(v).items():
            out['{}/{}'.format(n, k)] = x
    return out


def copy_learned(src, dst):
    """Copy everything learned in memory, independently of serialization."""
    sp, dp = learned_parts(src), learned_parts(dst)
    for n, v in sp.items():
        if not isinstance(v, chainer.Link):
            continue
        for (_, a), (_, b) in zip(sorted(v.namedlinks()),
                                  sorted(dp[n].namedlinks())):
            for name in a._persistent:
                x = getattr(a, name)
                if isinstance(x, np.ndarray):
                    getattr(b, name)[...] = x
                else:
                    setattr(b, name, copy.deepcopy(x))
            if hasattr(b, '_cached_std_inverse'):
                b._cached_std_inverse = None
        K.set_params(dp[n], K.params_of(v))
    for n, v in sp.items():
        if isinstance(v, chainer.Link):
            continue
        w = dp[n]
        w.t, w.epoch = v.t, v.epoch
        for (_, a), (_, b) in zip(sorted(v.target.namedparams()),
                                  sorted(w.target.namedparams())):
            b.update_rule.t = a.update_rule.t
            b.update_rule._state = copy.deepcopy(a.update_rule._state)


def make_opt(kinds, seed):
    """Optimizer factory that picks one of kinds per optimizer."""
    rng = np.random.RandomState(seed)

    def f(rng_, lr, kind=None):
        rng_.randint(2)
        return OPTIMIZERS[kinds[rng.randint(len(kinds))]](lr)
    return f


def driver(seed, spec, kinds, p=.12):
    R.optimizer = O.optimizer = make_opt(kinds, seed)
    return D.Driver(seed, spec, lr=.01, p_done=p)


def scramble(d, rng):
    """Give an agent other values everywhere it can learn."""
    for n, v in learned_parts(d.agent).items():
        if isinstance(v, chainer.Link):
            K.randomize(v, rng)
    if getattr(d.agent, 'obs_normalizer', None) is not None:
        d.agent.obs_normalizer.experience(
            rng.normal(3, 2, size=(5, R.N_OBS)).astype('f'))


def acts(agent, seed, n=6):
    env = R.EnvScript(np.random.RandomState(seed), 0, 0)
    np.random.seed(seed)
    random.seed(seed)
    agent.stop_episode()
    out = [np.asarray(agent.act(env.obs())) for _ in range(n)]
    agent.stop_episode()
    return D.canon(out)


def part_of(key):
    return key.split('/')[0]


SPECS = D.all_specs()


def steps_cap(spec):
    return 26 if spec['name'] == 'TRPO' and spec['recurrent'] else 60


def save_load(ctx, spec):
    rng = ctx.rng
    seed = int(rng.randint(2 ** 30))
    kinds = [['sgd', 'adam'], sorted(OPTIMIZERS)][rng.randint(2)]
    bn = bool(rng.randint(2)) and not spec['recurrent'] and \
        spec['name'] not in O.STATEFUL
    spec = dict(spec, bn=bn)
    cap = steps_cap(spec)
    n = [0, 1, int(rng.randint(2, cap)), int(rng.randint(cap // 2, cap)),
         int(rng.randint(cap // 2, cap))][rng.randint(5)]
    desc = '{} bn={} saved after {} steps'.format(D.spec_name(spec), bn, n)
    np.random.seed(seed)
    random.seed(seed)
    a = driver(seed, spec, kinds)
    for _ in range(n):
        a.step()
    # -- saving does not alter
    dirname = os.path.join(ctx.tmp, 'agent')
    before = full_state(a.agent)
    rs = np.random.get_state()[1].copy(), np.random.get_state()[2]
    if rng.randint(4) == 0:
        os.makedirs(dirname)
    again = rng.randint(3) == 0
    a.agent.save(dirname)
    if again:
        a.agent.save(dirname)
    bad = D.state_diff(before, full_state(a.agent))
    ctx.check(not bad, 'save-alters', lambda: '{}: saving changed {}'.format(
        desc, bad[:5]))
    now = np.random.get_state()
    ctx.check(np.array_equal(rs[0], now[1]) and rs[1] == now[2],
              'save-alters', desc + ': saving consumed random numbers')
    if rng.randint(3) == 0:
        moved = os.path.join(ctx.tmp, 'elsewhere', 'x')
        shutil.copytree(dirname, moved)
        shutil.rmtree(dirname)
        dirname = moved
    # -- load into another agent
    b = driver(seed, spec, kinds)
    scramble(b, rng)
    if rng.randint(3) == 0 and n >= 20:
        # an agent that has already been trained differently
        for _ in range(int(rng.randint(1, n))):
            b.step()
        desc += ', loaded into a trained agent'
        trained = True
    else:
        trained = False
    b.agent.load(dirname)
    parts = sorted(learned_parts(b.agent))
    want, got = before, full_state(b.agent)
    # an optimizer that was saved before its first update has no state
    bad = D.state_diff(want, got)
    bad = [k for k in bad if not (
        k in want and want[k].dtype == object and want[k].ndim == 0
        and want[k].item() is None) and not (
            k not in want and part_of(k).endswith('optimizer')
            and not np.any(got[k]))]
    for k in bad[:1]:
        names = sorted(set(part_of(x) for x in bad))
        ctx.check(False, 'not-restored', lambda: '{}: after loading {} of {} differ '
                  '(parts {}): {}'.format(
                desc, len(bad), len(want), names, [
                    (k, want.get(k), got.get(k)) for k in bad[:3]]))
    ctx.check(True, 'not-restored')
    ctx.count('parts_compared', len(parts))
    ctx.count('arrays_compared', len(want))
    s = int(rng.randint(2 ** 30))
    b_act = acts(b.agent, s)
    if not D.keeps_state_inside(spec):
        np.random.seed(seed)
        ctx.check(b_act == acts(a.agent, s), 'actions',
                  desc + ': loaded agent acts differently')
    bad_before = D.state_diff(full_state(b.agent), got)
    ctx.check(not bad_before, 'act-changes', desc)
    ctx.sig(D.spec_name(spec), bn, n > 0, n > 1, trained, len(kinds))
    ctx.sample(desc)
    if bad or trained:
        return
    # -- further training
    fresh_b = driver(seed, spec, kinds)
    scramble(fresh_b, rng)
    fresh_b.agent.load(dirname)
    fresh_c = driver(seed, spec, kinds)
    copy_learned(a.agent, fresh_c.agent)
    outs = []
    m = int(rng.randint(cap // 2, cap))
    for x in (fresh_b, fresh_c):
        np.random.seed(s)
        random.seed(s)
        for _ in range(m):
            x.step()
        outs.append(x)
    x, y = outs
    ok = x.trace == y.trace
    bad = D.state_diff(full_state(x.agent), full_state(y.agent))
    ctx.check(ok and not bad, 'further-training', lambda: '{}: after {} more '
              'steps on the same data actions equal={}, different: {}'.format(
                  desc, m, ok, bad[:5]))


FF = [s for s in SPECS if not s['recurrent']]
REC = [s for s in SPECS if s['recurrent']]


@chk.scenario(quick=4 * len(FF), thorough=40 * len(FF), cpu=300)
def feed_forward(ctx):
    save_load(ctx, FF[ctx.idx % len(FF)])


@chk.scenario(quick=3 * len(REC), thorough=24 * len(REC), cpu=600)
def recurrent(ctx):
    save_load(ctx, REC[ctx.idx % len(REC)])


@chk.scenario(quick=30, thorough=300, cpu=300)
def saving_is_invisible(ctx):
    """Twin runs, one of which saves at random points."""
    rng = ctx.rng
    pool = FF + [s for s in REC if s['name'] != 'TRPO']
    spec = dict(pool[(ctx.idx * 11 + int(rng.randint(2))) % len(pool)],
                bn=False)
    seed = int(rng.randint(2 ** 30))
    points = set(int(i) for i in rng.randint(0, 45, size=4))
    outs = []
    for save in (False, True):
        np.random.seed(seed)
        random.seed(seed)
        d = driver(seed, spec, sorted(OPTIMIZERS))
        for t in range(45):
            if save and t in points:
                d.agent.save(os.path.join(ctx.tmp, str(t)))
            d.step()
        outs.append(d)
    a, b = outs
    bad = D.state_diff(full_state(a.agent), full_state(b.agent))
    ctx.check(a.trace == b.trace and not bad, 'save-alters',
              lambda: '{}: training differs when the agent is saved before '
              'steps {}: {}'.format(D.spec_name(spec), sorted(points),
                                    bad[:5]))
    # going back: an early snapshot loaded into the same agent
    p = min(points)
    np.random.seed(seed)
    random.seed(seed)
    twin = driver(seed, spec, sorted(OPTIMIZERS))
    for t in range(p):
        twin.step()
    b.agent.load(os.path.join(ctx.tmp, str(p)))
    bad = [k for k in D.state_diff(full_state(twin.agent),
                                   full_state(b.agent))
           if not k.split('/')[0].endswith('optimizer') or p >= 30]
    ctx.check(not bad, 'go-back', lambda: '{}: loading the snapshot of step '
              '{} into the agent at step 45 leaves {} different'.format(
                  D.spec_name(spec), p, bad[:5]))
    ctx.sig(D.spec_name(spec))


@chk.scenario(quick=2, thorough=6, cpu=200)
def average_reward(ctx):
    """The running average reward of A3C is learned, too."""
    seed = int(ctx.rng.randint(2 ** 30))
    spec = dict(family='O', name='A3C', kind='softmax', recurrent=False,
                batch=False, bn=False, kw=dict(
                    use_average_reward=True, average_reward_tau=.2))
    np.random.seed(seed)
    a = driver(seed, spec, ['sgd'])
    for _ in range(30):
        a.step()
    a.agent.save(os.path.join(ctx.tmp, 'a'))
    b = driver(seed, spec, ['sgd'])
    b.agent.load(os.path.join(ctx.tmp, 'a'))
    ctx.close(b.agent.average_reward, a.agent.average_reward,
              'a3c-average-reward', 'average_reward after loading')
    ctx.sig(ctx.idx)


class Sub(agent_base.AttributeSavingMixin):
    def __init__(self, rng, depth):
        self.a = K.Const(rng.normal(size=3))
        self.b = None if rng.randint(3) == 0 else K.Const(
            rng.normal(size=2))
        self.unsaved = K.Const(rng.normal(size=2))
        if depth:
            self.sub = Sub(rng, depth - 1)
            self.sub2 = Sub(rng, 0)

    @property
    def saved_attributes(self):
        return ('a', 'b') + (('sub', 'sub2') if hasattr(self, 'sub')
                             else ())

    def values(self):
        out = [self.a.p.array.copy(),
               None if self.b is None else self.b.p.array.copy()]
        if hasattr(self, 'sub'):
            out += [self.sub.values(), self.sub2.values()]
        return out


@chk.scenario(quick=24, thorough=240)
def nested(ctx):
    """Nested objects and absent attributes of the saving mixin."""
    rng = ctx.rng
    seed, depth = int(rng.randint(2 ** 30)), int(rng.randint(0, 3))
    x = Sub(np.random.RandomState(seed), depth)
    y = Sub(np.random.RandomState(seed), depth)

    def mess(o):
        o.a.p.array += 1
        if o.b is not None:
            o.b.p.array *= 3
        o.unsaved.p.array += 5
        if hasattr(o, 'sub'):
            mess(o.sub)
            mess(o.sub2)
    mess(y)
    u = y.unsaved.p.array.copy()
    x.save(os.path.join(ctx.tmp, 'n'))
    y.load(os.path.join(ctx.tmp, 'n'))
    ctx.check(D.canon(x.values()) == D.canon(y.values()), 'nested',
              lambda: '{} {}'.format(x.values(), y.values()))
    ctx.check(np.array_equal(u, y.unsaved.p.array), 'nested-unsaved', '')
    ctx.sig(depth, x.b is None)


if __name__ == '__main__':
    raise SystemExit(chk.main())
