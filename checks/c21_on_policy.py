"""C21: PPO, TRPO and A2C learn from every transition, correctly credited."""
import copy
import warnings

import chainer
import chainer.functions as F
import chainer.links as L
import numpy as np

from vlib import agentkit as K
from vlib import gae as G
from vlib import onpolicy as O
from vlib.harness import Check
from chainerrl import agents
from chainerrl import links
from chainerrl.agents import a2c

chk = Check(
    'C21',
    'distinct (agent, interface, number of environments, recurrent, '
    'boundary kinds, coefficients, clipping, standardisation, normaliser, '
    'dataset and minibatch sizes) runs in which the inputs of every parameter '
    'update were matched to collected transitions and the parameter change '
    'was compared with a reference computed from independently credited '
    'transitions',
    ['CPU; plain SGD; advantages that are not all equal; no kinks of the '
     'clipped losses within rounding error (such updates are only counted)'])

LR = .05


def mlp_body(n_in):
    return [L.Linear(n_in, 5), F.tanh]


def head(kind):
    return O.softmax_head if kind == 'softmax' else O.gaussian_head(O.N_ACT)


def n_out(kind):
    return O.N_ACT if kind == 'softmax' else 2 * O.N_ACT


def make_ppo_model(rng, kind, recurrent, shared, bn):
    tap = []
    if recurrent:
        rnn = [lambda i, o: L.NStepLSTM(1, i, o, 0),
               lambda i, o: L.NStepGRU(1, i, o, 0)][rng.randint(2)]
        if shared:
            model = G.TapRecSequential(
                L.Linear(O.N_OBS, 4), F.tanh, rnn(4, 4),
                rnn(4, 3),
                links.Branched(
                    O.Stateful(L.Linear(3, n_out(kind)), head(kind)),
                    L.Linear(3, 1)))
        else:
            model = G.TapRecBranched(
                links.StatelessRecurrentSequential(
                    L.Linear(O.N_OBS, 4), F.tanh, rnn(4, 4),
                    L.Linear(4, n_out(kind)), head(kind)),
                links.StatelessRecurrentSequential(
                    rnn(O.N_OBS, 4), L.Linear(4, 1)))
    else:
        pi_in = 5 if shared else O.N_OBS
        pi = O.Stateful(*(
            ([] if shared else mlp_body(O.N_OBS))
            + [L.Linear(5, n_out(kind)), head(kind)]))
        v = O.Stateful(*(
            ([] if shared else mlp_body(O.N_OBS)) + [L.Linear(5, 1)]))
        if shared:
            body = mlp_body(O.N_OBS)
            if bn:
                body = [L.BatchNormalization(O.N_OBS)] + body
            model = G.TapSequence(*(body + [links.Branched(pi, v)]))
        else:
            model = G.TapBranched(pi, v)
    K.randomize(model, rng, .7)
    model.tap = tap
    return model, tap


# ---------------------------------------------------------------------------
def ppo_terms(model, batch, recurrent):
    """Per-item (log prob, entropy, value) variables of one minibatch.

    batch: list of (states, actions, first recurrent state).
    """
    logps, ents, vs = [], [], []
    for xs, acts, rec in batch:
        if recurrent:
            for x, a in zip(xs, acts):
                (d, v), rec = model(x[None], rec)
                logps.append(d.log_prob(np.asarray(a)[None])[0])
                ents.append(d.entropy[0])
                vs.append(v[0, 0])
        else:
            d, v = model(np.asarray(xs))
            lp, en = d.log_prob(np.asarray(acts)), d.entropy
            for j in range(len(xs)):
                logps.append(lp[j])
                ents.append(en[j])
                vs.append(v[j, 0])
    return logps, ents, vs


def ppo_gradient_loss(agent_cfg, terms, items, advs):
    """Scalar whose gradient is that of the documented PPO loss.

    Clipped terms have no gradient, others that of the ratio.  Returns None
    when an item is too close to a kink.
    """
    logps, ents, vs = terms
    eps, eps_vf = agent_cfg['clip_eps'], agent_cfg['clip_eps_vf']
    loss = 0
    n = len(items)
    for lp, en, v, t, adv in zip(logps, ents, vs, items, advs):
        ratio = float(np.exp(float(lp.array) - t['logp']))
        if min(abs(ratio - 1 - eps), abs(ratio - 1 + eps)) < 1e-4:
            return None
        clipped = (adv > 0 and ratio > 1 + eps) or \
            (adv < 0 and ratio < 1 - eps)
        if not clipped:
            loss = loss - lp * (ratio * adv / n)
        vv = float(v.array)
        if eps_vf is None:
            loss = loss + agent_cfg['value_func_coef'] * F.square(
                v - np.float32(t['target'])) / n
        else:
            diff = vv - t['v']
            if abs(abs(diff) - eps_vf) < 1e-4:
                return None
            if abs(diff) <= eps_vf:
                active = True
            else:
                c = t['v'] + np.sign(diff) * eps_vf
                a, b = (vv - t['target']) ** 2, (c - t['target']) ** 2
                if abs(a - b) < 1e-4 * (1 + a):
                    return None
                active = a > b
            if active:
                loss = loss + agent_cfg['value_func_coef'] * F.square(
                    v - np.float32(t['target'])) / n
        loss = loss - agent_cfg['entropy_coef'] * en / n
    return loss


def reference_change(model, before, loss_func, lr=LR):
    """before - lr * gradient of loss_func(model)."""
    K.set_params(model, before)
    model.cleargrads()
    loss = loss_func(model)
    if loss is None:
        return None
    if isinstance(loss, chainer.Variable):
        loss.backward()
    out = {}
    for n, p in model.namedparams():
        g = p.grad if p.grad is not None else 0.
        out[n] = before[n] - lr * g
    return out


def match_batch(ctx, key, rows, matcher, flat, recurrent, max_len, order):
    """Indices of the transitions of one minibatch, by sequence."""
    seqs = []
    if recurrent:
        for x in rows:
            idx = [matcher(r) for r in x]
            ctx.require(len(idx) >= 1, key + ':empty-sequence', '')
            ctx.require(max_len is None or len(idx) <= max_len,
                        key + ':sequence-length', lambda: 'a sequence has {} '
                        'steps instead of at most {}'.format(
                            len(idx), max_len))
            for a, b in zip(idx, idx[1:]):
                ctx.require(order[a][0] == order[b][0] and
                            order[a][1] + 1 == order[b][1],
                            key + ':sequence-order', 'a training sequence '
                            'is not consecutive within one episode')
            seqs.append(idx)
    else:
        ctx.require(len(rows) == 1, key + ':rows', '')
        seqs.append([matcher(r) for r in rows[0]])
    return seqs


def coverage(ctx, key, used, n, epochs, mb, recurrent):
    """used: list of lists of transition indices per update."""
    total = sum(map(len, used))
    cnt = np.bincount([i for u in used for i in u], minlength=n)
    ctx.require(cnt.min() >= epochs, key + ':missing', lambda:
                'a transition was used {} instead of {} times (dataset of {}, '
                'minibatches of {})'.format(cnt.min(), epochs, n, mb))
    if recurrent:
        ctx.require(cnt.max() == epochs, key + ':repeated', lambda:
                    'a transition was used {} instead of {} times'.format(
                        cnt.max(), epochs))
        ctx.require(all(len(u) <= mb for u in used) and sum(
            len(u) < mb for u in used) <= epochs, key + ':minibatch-size',
            lambda: str([len(u) for u in used]))
    else:
        ctx.require(total - n * epochs < mb, key + ':repeated', lambda:
                    '{} transitions used for {} epochs of {} with '
                    'minibatches of {}'.format(total, epochs, n, mb))
        if n >= mb:
            ctx.require(all(len(u) == mb for u in used),
                        key + ':minibatch-size',
                        lambda: str([len(u) for u in used]))
            # fill-up comes from a second pass: no more than once more
            ctx.require(cnt.max() <= epochs + 1, key + ':repeated',
                        lambda: str(cnt))


def order_of(segs):
    order, k = [], 0
    for s, seg in enumerate(segs):
        for j in range(len(seg)):
            order.append((s, j))
    return order


def standardized(flat):
    a = np.array([t['adv'] for t in flat], 'd')
    return (a - a.mean()) / (a.std() + 1e-8)


def norm_equal(ctx, key, agent, post):
    n = agent.obs_normalizer
    ctx.close(n.mean, post.mean, key + ':normalizer', 'mean of the '
              'observation normaliser', rtol=1e-3, atol=1e-4)
    ctx.close(n.std, post.std, key + ':normalizer', 'std of the observation '
              'normaliser', rtol=1e-3, atol=1e-4)


def ppo_case(ctx, recurrent):
    rng = ctx.rng
    kind = ['softmax', 'gauss'][rng.randint(2)]
    shared = bool(rng.randint(2))
    bn = shared and not recurrent and rng.rand() < .4
    model, tap = make_ppo_model(rng, kind, recurrent, shared, bn)
    n_env = int(rng.randint(1, 5))
    single = rng.rand() < .4
    if single:
        n_env = 1
    cfg = dict(
        gamma=float(rng.choice([0., .5, .9, 1.])),
        lambd=float(rng.choice([0., .5, .95, 1.])),
        value_func_coef=float(rng.choice([.5, 1., 2.])),
        entropy_coef=float(rng.choice([0., .01, .5])),
        update_interval=int(rng.randint(3, 25)),
        minibatch_size=int(rng.randint(2, 10)),
        epochs=int(rng.randint(1, 4)),
        clip_eps=float(rng.choice([.05, .2])),
        clip_eps_vf=[None, .05, .2][rng.randint(3)],
        standardize_advantages=bool(rng.randint(2)))
    max_len = None
    if recurrent:
        max_len = [None, 1, 2, 4][rng.randint(4)]
        cfg['max_recurrent_sequence_len'] = max_len
    opt = chainer.optimizers.SGD(LR)
    opt.setup(model)
    log = []
    G.log_updates(opt, model, tap, log)
    norm = O.make_obs_normalizer(rng) if rng.rand() < .4 else None
    agent = agents.PPO(model, opt, obs_normalizer=norm, phi=K.obs_phi,
                       recurrent=recurrent, **cfg)
    kinks = [0]

    def nets(x, rec):
        if recurrent:
            (d, v), rec = model(x, rec)
        else:
            d, v = model(x)
        return d, v.array[0, 0], rec

    def on_update(col, segs):
        if segs is None:
            ctx.require(not log, 'ppo:early-update', lambda: 'updated with {} '
                        'of {} transitions'.format(
                            col.size(), cfg['update_interval']))
            return
        flat = [t for s in segs for t in s]
        order = order_of(segs)
        n = len(flat)
        ctx.require(len(log) > 0, 'ppo:no-update', lambda: 'no update with {} '
                    'transitions'.format(n))
        G.gae(segs, cfg['gamma'], cfg['lambd'])
        explained(ctx, 'ppo', agent, flat)
        rows, post = G.normalized_states(flat, col.norm_before)
        if post is not None:
            norm_equal(ctx, 'ppo', agent, post)
        advs = standardized(flat) if cfg['standardize_advantages'] else \
            np.array([t['adv'] for t in flat])
        std = np.std([t['adv'] for t in flat])
        matcher = G.RowMatcher(ctx, 'ppo:unknown-row', rows)
        used = []
        for k, u in enumerate(log):
            seqs = match_batch(ctx, 'ppo', u['rows'], matcher, flat,
                               recurrent, max_len, order)
            idx = [i for s in seqs for i in s]
            used.append(idx)
            if cfg['standardize_advantages'] and std < 1e-2:
                ctx.count('degenerate_advantages')
                continue
            items = [flat[i] for i in idx]
            batch = [([rows[i] for i in s], [flat[i]['action'] for i in s],
                      flat[s[0]]['rec']) for s in seqs]
            if recurrent:
                batch = [([np.asarray(x, 'f') for x in b[0]],) + b[1:]
                         for b in batch]
            else:
                batch = [(np.asarray(b[0], 'f'), b[1], None) for b in batch]
            ref = reference_change(
                u['model'], u['before'], lambda m: ppo_gradient_loss(
                    cfg, ppo_terms(m, batch, recurrent), items,
                    [advs[i] for i in idx]))
            if ref is None:
                kinks[0] += 1
                continue
            ctx.count('parameter_updates')
            if not K.check_params(
                    ctx, u['after'], ref, 'ppo:gradient',
                    lambda: 'PPO update {} of a dataset of {}; {}'.format(
                        k, n, cfg), ref=u['before'], rtol=5e-3):
                return ctx.fatal('ppo:stop', 'see ppo:gradient')
        coverage(ctx, 'ppo', used, n, cfg['epochs'], cfg['minibatch_size'],
                 recurrent)
        ctx.sig(recurrent, kind, shared, bn, single, n_env, norm is not None,
                max_len, tuple(sorted(col.kinds)), cfg['clip_eps_vf'],
                cfg['standardize_advantages'], n % cfg['minibatch_size'] == 0,
                n < cfg['minibatch_size'], cfg['epochs'])
        ctx.count('transitions', n)
        ctx.count('datasets')
        del log[:]
        del tap[:]

    col = G.Collector(ctx, agent, nets, n_env, single, recurrent,
                      cfg['update_interval'],
                      float(rng.choice([0., .1, .4])),
                      float(rng.choice([0., .1, .3])), on_update)
    steps = int(cfg['update_interval'] * 2.5 / n_env) + 2
    for _ in range(steps):
        col.step()
    ctx.count('skipped_at_kinks', kinks[0])
    ctx.sample(dict(cfg, kind=kind, recurrent=recurrent, n_env=n_env))


@chk.scenario(quick=70, thorough=1200)
def ppo(ctx):
    ppo_case(ctx, False)


@chk.scenario(quick=70, thorough=1200)
def ppo_recurrent(ctx):
    ppo_case(ctx, True)


def explained(ctx, what, agent, flat):
    """Reported fraction of the variance of returns that values explain."""
    t = np.array([x['target'] for x in flat], 'd')
    v = np.array([x['v'] for x in flat], 'd')
    got = dict(agent.get_statistics())['explained_variance']
    if np.var(t) < 1e-4:
        return   # nothing to explain, up to rounding
    ctx.close(got, 1 - np.var(t - v) / np.var(t),
              what + ':explained-variance', rtol=1e-3, atol=2e-3)


# ---------------------------------------------------------------------------
def trpo_case(ctx, recurrent):
    """Value function training of TRPO (its policy steps: C22)."""
    rng = ctx.rng
    kind = ['softmax', 'gauss'][rng.randint(2)]
    tap, ptap = [], []
    if recurrent:
        pi = G.TapRecSequential(
            L.NStepLSTM(1, O.N_OBS, 4, 0), L.Linear(4, n_out(kind)),
            head(kind))
        v = G.TapRecSequential(
            L.Linear(O.N_OBS, 4), F.tanh, L.NStepGRU(1, 4, 4, 0),
            L.Linear(4, 1))
    else:
        pi = G.TapSequence(*(mlp_body(O.N_OBS) + [
            L.Linear(5, n_out(kind)), head(kind)]))
        v = G.TapSequence(*(mlp_body(O.N_OBS) + [L.Linear(5, 1)]))
    K.randomize(pi, rng, .5)
    K.randomize(v, rng, .7)
    pi.tap, v.tap = ptap, tap
    n_env = int(rng.randint(1, 4))
    single = rng.rand() < .4
    if single:
        n_env = 1
    cfg = dict(
        gamma=float(rng.choice([0., .5, .9, 1.])),
        lambd=float(rng.choice([0., .5, .95, 1.])),
        update_interval=int(rng.randint(3, 16)),
        vf_batch_size=int(rng.randint(2, 10)),
        vf_epochs=int(rng.randint(1, 4)),
        conjugate_gradient_max_iter=2,
        line_search_max_backtrack=2,
        standardize_advantages=bool(rng.randint(2)))
    max_len = None
    if recurrent:
        max_len = [None, 1, 2, 4][rng.randint(4)]
        cfg['max_recurrent_sequence_len'] = max_len
    opt = chainer.optimizers.SGD(LR)
    opt.setup(v)
    log = []
    G.log_updates(opt, v, tap, log)
    norm = O.make_obs_normalizer(rng) if rng.rand() < .4 else None
    agent = agents.TRPO(pi, v, opt, obs_normalizer=norm, phi=K.obs_phi,
                        recurrent=recurrent, **cfg)

    def nets(x, rec):
        if recurrent:
            rp, rv = rec or (None, None)
            d, rp = pi(x, rp)
            y, rv = v(x, rv)
            return d, y.array[0, 0], (rp, rv)
        return pi(x), v(x).array[0, 0], None

    def on_update(col, segs):
        if segs is None:
            ctx.require(not log, 'trpo:early-update', 'updated too early')
            return
        flat = [t for s in segs for t in s]
        order = order_of(segs)
        n = len(flat)
        ctx.require(len(log) > 0, 'trpo:no-update', '')
        G.gae(segs, cfg['gamma'], cfg['lambd'])
        explained(ctx, 'trpo', agent, flat)
        rows, post = G.normalized_states(flat, col.norm_before)
        if post is not None:
            norm_equal(ctx, 'trpo', agent, post)
        matcher = G.RowMatcher(ctx, 'trpo:unknown-row', rows)
        # the policy sees every transition exactly once in each pass
        for p in ptap:
            idx = [matcher(r) for x in p for r in x]
            ctx.require(sorted(idx) == list(range(n)), 'trpo:policy-batch',
                        'the policy was not trained on the full dataset')
        used = []
        for k, u in enumerate(log):
            seqs = match_batch(ctx, 'trpo', u['rows'], matcher, flat,
                               recurrent, max_len, order)
            idx = [i for s in seqs for i in s]
            used.append(idx)

            def loss(m):
                out = 0
                for s in seqs:
                    rec = flat[s[0]]['rec']
                    rec = rec and rec[1]
                    for i in s:
                        x = np.asarray(rows[i], 'f')[None]
                        if recurrent:
                            y, rec = m(x, rec)
                        else:
                            y = m(x)
                        out = out + F.square(
                            y[0, 0] - np.float32(flat[i]['target']))
                return out / len(idx)
            ref = reference_change(u['model'], u['before'], loss)
            ctx.count('parameter_updates')
            if not K.check_params(
                    ctx, u['after'], ref, 'trpo:vf-gradient',
                    lambda: 'update {} of the value function; {}'.format(
                        k, cfg), ref=u['before'], rtol=5e-3):
                ctx.fatal('trpo:stop', 'see trpo:vf-gradient')
        coverage(ctx, 'trpo', used, n, cfg['vf_epochs'],
                 cfg['vf_batch_size'], recurrent)
        ctx.sig('trpo', recurrent, kind, single, n_env, norm is not None,
                max_len, tuple(sorted(col.kinds)),
                n % cfg['vf_batch_size'] == 0, cfg['vf_epochs'])
        ctx.count('transitions', n)
        ctx.count('datasets')
        del log[:]
        del tap[:]
        del ptap[:]

    col = G.Collector(ctx, agent, nets, n_env, single, recurrent,
                      cfg['update_interval'],
                      float(rng.choice([0., .1, .4])),
                      float(rng.choice([0., .1, .3])), on_update)
    for _ in range(int(cfg['update_interval'] * 2.3 / n_env) + 2):
        col.step()


@chk.scenario(quick=40, thorough=600)
def trpo(ctx):
    trpo_case(ctx, False)


@chk.scenario(quick=30, thorough=400, cpu=300)
def trpo_recurrent(ctx):
    trpo_case(ctx, True)


# ---------------------------------------------------------------------------
@chk.scenario(quick=150, thorough=3000)
def a2c_updates(ctx):
    rng = ctx.rng
    kind = ['softmax', 'gauss'][rng.randint(2)]
    shared = bool(rng.randint(2))
    n_env, n_steps = int(rng.randint(1, 5)), int(rng.randint(1, 6))
    cfg = dict(pi_loss_coef=float(rng.choice([1., .5, 2.])),
               v_loss_coef=float(rng.choice([.5, 1.])),
               entropy_coeff=float(rng.choice([0., .01, .3])),
               use_gae=bool(rng.randint(2)),
               tau=float(rng.choice([0., .5, .95, 1.])))
    gamma = float(rng.choice([0., .5, .9, 1.]))
    if shared:
        model = O.A2CSharedModel(
            O.Stateful(*mlp_body(O.N_OBS)),
            O.Stateful(L.Linear(5, n_out(kind)), head(kind)),
            O.Stateful(L.Linear(5, 1)))
    else:
        model = a2c.A2CSeparateModel(
            O.Stateful(*(mlp_body(O.N_OBS) + [
                L.Linear(5, n_out(kind)), head(kind)])),
            O.Stateful(*(mlp_body(O.N_OBS) + [L.Linear(5, 1)])))
    K.randomize(model, rng, .7)
    opt = chainer.optimizers.SGD(LR)
    opt.setup(model)
    log = []
    orig = opt.update

    def update(*args, **kw):
        before = K.params_of(model)
        orig(*args, **kw)
        log.append((before, K.params_of(model)))
    opt.update = update
    agent = agents.A2C(model, opt, gamma, n_env, update_steps=n_steps,
                       phi=K.obs_phi, **cfg)
    ref = copy.deepcopy(model)
    p_done, p_reset = float(rng.choice([0., .2, .5])), float(
        rng.choice([0., 0., .2]))
    obs = [G.obs_of(rng) for _ in range(n_env)]
    rollout = []
    kinds = set()
    for t in range(n_steps * int(rng.randint(2, 6)) + int(rng.randint(3))):
        acts = agent.batch_act_and_train(list(obs))
        ctx.require(not log, 'a2c:early', 'update while acting')
        new = [G.obs_of(rng) for _ in range(n_env)]
        r = [float(rng.normal()) for _ in range(n_env)]
        done = [bool(rng.rand() < p_done) for _ in range(n_env)]
        reset = [bool(rng.rand() < p_reset) for _ in range(n_env)]
        if any(done):
            kinds.add('done')
        if any(reset):
            kinds.add('reset')
        rollout.append((obs, acts, r, [d or s for d, s in zip(done, reset)],
                        new))
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            agent.batch_observe_and_train(list(new), r, done, reset)
        if len(rollout) < n_steps:
            ctx.require(not log, 'a2c:early', 'update after {} of {} '
                        'steps'.format(len(rollout), n_steps))
        else:
            ctx.require(len(log) == 1, 'a2c:updates', '{} updates after a '
                        'rollout'.format(len(log)))
            before, after = log.pop()
            K.set_params(ref, before)
            ref.cleargrads()
            loss = 0
            n = n_env * n_steps
            for i in range(n_env):
                seq = [(s[0][i], s[1][i], s[2][i], s[3][i], s[4][i])
                       for s in rollout]
                outs = [ref.pi_and_v(K.obs_phi(s[0])[None]) for s in seq]
                v = [float(o[1].array[0, 0]) for o in outs]
                vnext = v[1:] + [float(ref.pi_and_v(
                    K.obs_phi(seq[-1][4])[None])[1].array[0, 0])]
                for k in range(n_steps):
                    # return of step k: until the first end or the horizon
                    ret, g = 0., 1.
                    if cfg['use_gae']:
                        adv = 0.
                        for j in range(k, n_steps):
                            _, _, rj, end, _ = seq[j]
                            adv += g * (rj + (0. if end else gamma * vnext[j])
                                        - v[j])
                            g *= gamma * cfg['tau']
                            if end:
                                break
                        ret = adv + v[k]
                    else:
                        for j in range(k, n_steps):
                            _, _, rj, end, _ = seq[j]
                            ret += g * rj
                            g *= gamma
                            if end:
                                break
                        else:
                            ret += g * vnext[-1]
                    d, value = outs[k]
                    value = value[0, 0]
                    adv = ret - float(value.array)
                    loss = loss + (
                        cfg['v_loss_coef'] * F.square(
                            np.float32(ret) - value)
                        - cfg['pi_loss_coef'] * adv * d.log_prob(
                            np.asarray(seq[k][1])[None])[0]
                        - cfg['entropy_coeff'] * d.entropy[0]) / n
            loss.backward()
            exp = {nm: before[nm] - LR * (0. if p.grad is None else p.grad)
                   for nm, p in ref.namedparams()}
            ctx.count('parameter_updates')
            ctx.count('transitions', n)
            if not K.check_params(ctx, after, exp, 'a2c:gradient',
                                  lambda: 'gamma {} {}'.format(gamma, cfg),
                                  ref=before):
                return
            rollout = []
            ctx.sig('a2c', kind, shared, n_env, n_steps, cfg['use_gae'],
                    cfg['tau'], gamma, tuple(sorted(kinds)))
        obs = [G.obs_of(rng) if d or s else o
               for o, d, s in zip(new, done, reset)]


if __name__ == '__main__':
    raise SystemExit(chk.main())
