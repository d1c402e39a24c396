"""C09: updates and target synchronisation follow the configured schedule."""
import sys

import numpy as np

from vlib.harness import Check
from vlib import agentkit as K
from vlib import replay_agents as R

chk = Check('C09', rule=(
    'every replay agent (single and batch interface, recurrent and not) with '
    'random update interval, start size, minibatch size, repetitions, target '
    'interval, hard/soft rule, policy delay and burn-in function on random '
    'interaction histories; an event log (appends, draws with buffer length, '
    'optimizer steps with parameter snapshots) is compared call by call with '
    'a schedule model, and the target parameters with the rule applied to '
    'the logged online parameters.  Non-trivial: distinct configurations '
    'with at least one update.'),
    assumptions=['DQN-type agents count finished environment steps, '
                 'actor-critic agents count chosen actions in the single '
                 'interface'])


class Log(object):
    def __init__(self, buf):
        self.buf = buf
        self.events = []
        self.snap = None

    def __call__(self, kind, what):
        if kind == 'append':
            self.events.append(('append', what['env_id'], len(self.buf)))
        elif kind == 'stop':
            self.events.append(('stop', what, len(self.buf)))
        else:
            api, n, max_len, result = what
            self.events.append(
                ('draw', api, n, max_len, len(result), len(self.buf)))

    def opt(self, name):
        self.events.append(('opt', name, self.snap()))


def hook(opt, name, log):
    orig = opt.update

    def update(*args, **kwargs):
        r = orig(*args, **kwargs)
        log.opt(name)
        return r
    opt.update = update


def mix(dst, src, tau):
    return dict((k, dict((n, (1 - tau) * dst[k][n].astype('d')
                          + tau * src[k][n].astype('d'))
                         for n in dst[k])) for k in dst)


def near(ctx, got, want, key, where):
    ctx.count('oracle_decisions')
    for k in want:
        for n in want[k]:
            if not np.allclose(got[k][n], want[k][n], rtol=1e-4, atol=1e-6,
                               equal_nan=True):
                ctx.fatal(key, '{}: {}{} is {} expected {}'.format(
                    where, k, n, got[k][n].ravel()[:5],
                    want[k][n].ravel()[:5]))


class Sim(object):
    """Schedule model, fed with the logged buffer lengths."""

    def __init__(self, ctx, built, conf, log, where):
        self.ctx = ctx
        self.b = built
        self.conf = conf
        self.log = log
        self.where = where
        self.online = self.snap_online()
        self.target = self.snap_target()
        self.n_updates = 0
        self.n_critic = 0
        self.n_syncs = 0

    def snap_online(self):
        return dict((k, K.params_of(v)) for k, v in self.b.online.items())

    def snap_target(self):
        return dict((k, K.params_of(v)) for k, v in self.b.target.items())

    def sync(self):
        c = self.conf
        tau = 1. if c['method'] == 'hard' else c['tau']
        src = dict((k, self.online[k]) for k in self.target)
        self.target = mix(self.target, src, tau)
        self.n_syncs += 1

    def at_step(self, t):
        """Target sync by the step counter (before a possible update)."""
        if self.conf['sync_by_step'] and t % self.conf['target_interval'] == 0:
            self.sync()

    def update(self, t, length, n_episodes, events):
        """Consume the events of one update opportunity."""
        c, ctx = self.conf, self.ctx
        due = (length >= c['start'] and t % c['interval'] == 0 and
               not (c['recurrent'] and n_episodes < c['batch']))
        want = c['times'] if due else 0
        for _ in range(want):
            if not events or events[0][0] != 'draw':
                ctx.fatal('update-missing', '{}: no update at step {} with '
                          '{} items'.format(self.where, t, length))
            _, api, n, max_len, got, _ = events.pop(0)
            ok = (api == ('episodes' if c['recurrent'] else 'sample')
                  and n == c['batch'] and got == c['batch']
                  and (not c['recurrent'] or max_len == c['max_len']))
            ctx.require(ok, 'batch-size', lambda: (
                '{}: drew {} {} (max_len {}) got {}'.format(
                    self.where, api, n, max_len, got)))
            self.n_critic += 1
            names = c['opts']
            policy_now = self.n_critic % c['delay'] == 0
            if c['delay'] != 1 and not policy_now:
                names = [x for x in names if x != 'actor']
            seen = []
            while events and events[0][0] == 'opt':
                _, name, snap = events.pop(0)
                seen.append(name)
                self.online = snap
            ctx.require(sorted(seen) == sorted(names), 'optimizer-steps',
                        lambda: '{}: optimizer steps {} expected {}'.format(
                            self.where, seen, names))
            if c['sync_by_update'] and policy_now:
                self.sync()
            self.n_updates += 1
        if not due and events and events[0][0] in ('draw', 'opt'):
            ctx.fatal('update-unexpected', '{}: {} at step {} with {} items '
                      '({} episodes)'.format(self.where, events[0][:3], t,
                                             length, n_episodes))

    def end_of_call(self, events):
        self.ctx.require(not events, 'unexpected-events', lambda: (
            '{}: {}'.format(self.where, [e[:3] for e in events])))
        near(self.ctx, self.snap_online(), self.online, 'online-changed',
             self.where)
        near(self.ctx, self.snap_target(), self.target, 'target-sync',
             self.where)
        # continue from the exact values (float rounding)
        self.target = self.snap_target()


def configure(ctx, batch_mode):
    rng = ctx.rng
    names = [(n, False) for n in R.DISCRETE + R.CONTINUOUS
             if not (batch_mode and n == 'PGT')]
    names += [(n, True) for n in R.RECURRENT_DISCRETE]
    if not batch_mode:
        names.append(('DDPG', True))
    name, recurrent = names[ctx.idx % len(names)]
    batch = int(rng.choice([1, 2, 4]))
    c = dict(
        batch=batch, start=batch + int(rng.choice([0, 1, 5, 12])),
        interval=int(rng.choice([1, 1, 2, 3, 7])),
        times=int(rng.choice([1, 1, 2, 3])),
        target_interval=int(rng.choice([1, 2, 3, 5, 11])),
        method=['hard', 'soft'][rng.randint(2)],
        tau=float(rng.choice([.01, .3, 1.])), delay=1, recurrent=recurrent,
        max_len=None, sync_by_step=True, sync_by_update=False)
    kw = dict(replay_start_size=c['start'], minibatch_size=batch,
              update_interval=c['interval'], n_times_update=c['times'],
              target_update_interval=c['target_interval'],
              target_update_method=c['method'], soft_update_tau=c['tau'])
    if recurrent:
        c['max_len'] = kw['episodic_update_len'] = \
            [None, 1, 3][rng.randint(3)]
    if name in ('TD3', 'SoftActorCritic'):
        del kw['target_update_interval'], kw['target_update_method']
        c.update(method='soft', sync_by_step=False, sync_by_update=True)
        if name == 'TD3':
            c['delay'] = kw['policy_update_delay'] = int(rng.choice([1, 2, 3]))
        else:
            kw.pop('n_times_update')
            c['times'] = 1
    burn = None
    if name in ('DDPG', 'TD3', 'SoftActorCritic') and rng.randint(2):
        burn = []

        def burnin():
            burn.append(1)
            return rng.normal(size=R.N_ACT).astype('f')
        kw['burnin_action_func'] = burnin
    n_step = int(rng.choice([1, 1, 3]))
    if recurrent:
        buf = R.LoggedEpisodic()
    elif name in R.DISCRETE and rng.rand() < .3:
        buf = R.LoggedPrioritized(num_steps=n_step)
    else:
        buf = R.LoggedReplay(num_steps=n_step)
    log = Log(buf)
    buf.log = log
    explorer = R.LoggedExplorer(np.random.RandomState(rng.randint(1 << 30)),
                                name in R.DISCRETE)
    built = R.make_agent(rng, name, buf, explorer, recurrent, lr=.001, **kw)
    c['opts'] = sorted(built.optimizers)
    where = '{} {} {}'.format('batch' if batch_mode else 'single', name,
                              sorted((k, v) for k, v in c.items()
                                     if k != 'opts'))
    sim = Sim(ctx, built, c, log, where)
    log.snap = sim.snap_online
    for k, o in built.optimizers.items():
        hook(o, k, log)
    # start with targets that differ, so that a wrong sync is visible
    if name != 'ResidualDQN':
        for t in built.target.values():
            K.randomize(t, rng)
    sim.target = sim.snap_target()
    return built, buf, log, sim, c, where, burn, explorer


def burn_check(ctx, built, burn, before_calls, n_acts, explorer, n_exp, sim,
               where, updates_before):
    """Burn-in actions are used exactly until the first update."""
    if burn is None:
        return
    used = len(burn) - before_calls
    want = n_acts if updates_before == 0 else 0
    ctx.check(used == want, 'burnin', lambda: (
        '{}: burn-in function called {} times, expected {}, after {} '
        'policy updates'.format(where, used, want, updates_before)))


@chk.scenario(quick=480, thorough=6000)
def single_interface(ctx):
    rng = ctx.rng
    built, buf, log, sim, c, where, burn, ex = configure(ctx, False)
    agent, name = built.agent, built.name
    actor_critic = name in R.CONTINUOUS
    env = R.EnvScript(rng, .15, .1)
    obs, reward, fresh = env.obs(), 0., True
    acts = 0
    # what the buffer held when the present call started
    length, n_eps = 0, 0
    for _ in range(rng.randint(15, 50)):
        log.events = []
        nb = len(burn) if burn is not None else 0
        pol = policy_updates(built)
        agent.act_and_train(obs, reward)
        burn_check(ctx, built, burn, nb, 1, ex, 0, sim, where, pol)
        acts += 1
        ev = list(log.events)
        t = acts if actor_critic else acts - 1
        if not fresh:
            ctx.require(ev and ev[0][0] == 'append', 'append-missing', where)
            # nothing may be drawn before the transition has been stored
            length = ev[0][2]
            ev.pop(0)
        sim.at_step(t)
        sim.update(t, length, n_eps, ev)
        sim.end_of_call(ev)
        fresh = False
        obs, reward, done, reset = env.step()
        if done or reset:
            log.events = []
            agent.stop_episode_and_train(obs, reward, done)
            ev = [e for e in log.events if e[0] not in ('append', 'stop')]
            sim.end_of_call(ev)
            obs, reward, fresh = env.obs(), 0., True
            length = len(buf)
            n_eps = buf.n_episodes if c['recurrent'] else 0
    finish(ctx, sim, where)


def policy_updates(built):
    o = built.optimizers
    return o['actor'].t if 'actor' in o else 0


def finish(ctx, sim, where):
    ctx.count('updates', sim.n_updates)
    ctx.count('target_syncs', sim.n_syncs)
    if sim.n_updates:
        ctx.sig(where, ctx.case_seed)
    ctx.sample('{}: {} updates, {} target syncs'.format(
        where, sim.n_updates, sim.n_syncs))


@chk.scenario(quick=480, thorough=6000)
def batch_interface(ctx):
    rng = ctx.rng
    built, buf, log, sim, c, where, burn, ex = configure(ctx, True)
    agent, name = built.agent, built.name
    m = rng.randint(1, 5)
    where += ' envs={}'.format(m)
    envs = [R.EnvScript(rng, .15, .1, env_id=i) for i in range(m)]
    obs = [e.obs() for e in envs]
    t = 0
    n_eps = 0
    for _ in range(rng.randint(5, 25)):
        log.events = []
        nb = len(burn) if burn is not None else 0
        pol = policy_updates(built)
        agent.batch_act_and_train(list(obs))
        burn_check(ctx, built, burn, nb, m, ex, 0, sim, where, pol)
        sim.end_of_call(list(log.events))
        res = [e.step() for e in envs]
        nobs = [r[0] for r in res]
        log.events = []
        agent.batch_observe_and_train(
            list(nobs), [r[1] for r in res], [r[2] for r in res],
            [r[3] for r in res])
        ev = list(log.events)
        for i in range(m):
            t += 1
            sim.at_step(t)
            apps = 0
            while ev and ev[0][0] in ('append', 'stop') and ev[0][1] == i:
                e = ev.pop(0)
                length = e[2]
                apps += e[0] == 'append'
            ctx.require(apps == 1, 'append-missing', lambda: (
                '{}: {} transitions stored at once'.format(where, apps)))
            if res[i][2] or res[i][3]:
                n_eps += 1
            sim.update(t, length, n_eps, ev)
        sim.end_of_call(ev)
        for i in range(m):
            if res[i][2] or res[i][3]:
                nobs[i] = envs[i].obs()
        obs = nobs
    finish(ctx, sim, where)


if __name__ == '__main__':
    sys.exit(chk.main())
