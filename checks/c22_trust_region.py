"""C22: TRPO policy steps stay in the trust region and do not get worse."""
import warnings

import chainer
import chainer.functions as F
import chainer.links as L
import numpy as np

from vlib import agentkit as K
from vlib import gae as G
from vlib import onpolicy as O
from vlib.harness import Check
from chainerrl import agents
from chainerrl import distribution
from chainerrl import misc
from chainerrl import policies

chk = Check(
    'C22',
    'distinct (policy family, recurrent, interface, normaliser, boundary '
    'kinds, KL bound, damping, iterations, backtracks, accepted step size) '
    'policy updates whose divergence, surrogate objective and direction were '
    'recomputed in double precision, and linear systems solved',
    ['CPU; the surrogate objective may be lower by rounding error of single '
     'precision; directions are compared when the reference is insensitive '
     'to rounding'])


# -- reference quantities in double precision --------------------------------
def params64(d):
    """Distribution parameters of one item: (kind, list of vectors)."""
    if isinstance(d, distribution.SoftmaxDistribution):
        return 'softmax', [d.logits.array[0].astype('d') * d.beta]
    return 'gauss', [d.mean.array[0].astype('d'), d.var.array[0].astype('d')]


def log_softmax(z):
    z = z - z.max()
    return z - np.log(np.exp(z).sum())


def kl64(kind, p, q):
    if kind == 'softmax':
        lp, lq = log_softmax(p[0]), log_softmax(q[0])
        return float((np.exp(lp) * (lp - lq)).sum())
    (m0, v0), (m1, v1) = p, q
    return float(.5 * (np.log(v1 / v0) + (v0 + (m0 - m1) ** 2) / v1 - 1).sum())


def logp64(kind, p, a):
    if kind == 'softmax':
        return float(log_softmax(p[0])[int(a)])
    m, v = p
    return float(-.5 * (np.log(2 * np.pi * v) + (a - m) ** 2 / v).sum())


def entropy64(kind, p):
    if kind == 'softmax':
        lp = log_softmax(p[0])
        return float(-(np.exp(lp) * lp).sum())
    return float(.5 * np.log(2 * np.pi * np.e * p[1]).sum())


def metric(kind, p):
    """Hessian of KL(p || q) with regard to the parameters of q, at p."""
    if kind == 'softmax':
        pr = np.exp(log_softmax(p[0]))
        return np.diag(pr) - np.outer(pr, pr)
    return np.diag(np.concatenate([1 / p[1], .5 / p[1] ** 2]))


def dlogp(kind, p, a):
    if kind == 'softmax':
        g = -np.exp(log_softmax(p[0]))
        g[int(a)] += 1
        return g
    m, v = p
    return np.concatenate([(a - m) / v, -.5 / v + .5 * (a - m) ** 2 / v ** 2])


def dentropy(kind, p):
    if kind == 'softmax':
        lp = log_softmax(p[0])
        pr = np.exp(lp)
        return -pr * (lp + entropy64(kind, p))
    return np.concatenate([np.zeros_like(p[0]), .5 / p[1]])


def flat(d, names):
    return np.concatenate([d[n].ravel() for n in names]).astype('d')


def forward(model, rows, seqs, recs, recurrent):
    """[(index, distribution)] evaluated one item at a time."""
    out = []
    for seq, rec in zip(seqs, recs):
        for i in seq:
            x = np.asarray(rows[i], 'f')[None]
            if recurrent:
                d, rec = model(x, rec)
            else:
                d = model(x)
            out.append((i, d))
    return out


def jacobian(model, names, d):
    vs = [d.logits * d.beta] if isinstance(
        d, distribution.SoftmaxDistribution) else [d.mean, d.var]
    params = dict(model.namedparams())
    ps = [params[n] for n in names]
    out = []
    for v in vs:
        for k in range(v.shape[1]):
            gs = chainer.grad([v[0, k]], ps)
            out.append(np.concatenate([
                np.zeros(p.size) if g is None else g.array.ravel().astype('d')
                for g, p in zip(gs, ps)]))
    return np.array(out)


def cg(A, b, n, dtype, noise=None):
    A, b = A.astype(dtype), b.astype(dtype)
    scale = 1e-6 * np.linalg.norm(A)
    x = np.zeros_like(b)
    r = b.copy()
    p = r
    for _ in range(n):
        if np.linalg.norm(r) < 1e-10:
            break
        Ap = A.dot(p)
        if noise is not None:
            Ap = Ap + scale * np.linalg.norm(p) * noise.normal(size=p.shape)
        a = r.dot(r) / p.dot(Ap)
        x = x + a * p
        r1 = r - a * Ap
        p = r1 + r1.dot(r1) / r.dot(r) * p
        r = r1
    return x.astype('d')


# -- policy updates ----------------------------------------------------------
def make_policy(rng, recurrent):
    n_h = int(rng.randint(2, 6))
    if recurrent:
        kind = ['softmax', 'gauss'][rng.randint(2)]
        out = O.N_ACT if kind == 'softmax' else 2 * O.N_ACT
        hd = O.softmax_head if kind == 'softmax' else O.gaussian_head(O.N_ACT)
        rnn = [L.NStepLSTM, L.NStepGRU, L.NStepRNNTanh][rng.randint(3)]
        pi = G.TapRecSequential(
            rnn(1, O.N_OBS, n_h, 0), L.Linear(n_h, out), hd)
        return kind, pi
    kind = ['softmax', 'beta', 'gauss', 'fc', 'fc_indep', 'fc_fixed'][
        rng.randint(6)]
    if kind in ('softmax', 'gauss'):
        out = O.N_ACT if kind == 'softmax' else 2 * O.N_ACT
        hd = O.softmax_head if kind == 'softmax' else O.gaussian_head(O.N_ACT)
        pi = G.TapSequence(L.Linear(O.N_OBS, n_h), F.tanh,
                           L.Linear(n_h, out), hd)
    elif kind == 'beta':
        beta = float(rng.choice([.5, 2.]))
        pi = G.TapSequence(
            L.Linear(O.N_OBS, O.N_ACT),
            lambda h: distribution.SoftmaxDistribution(h, beta=beta))
    else:
        cls = {'fc': policies.FCGaussianPolicy,
               'fc_indep':
               policies.FCGaussianPolicyWithStateIndependentCovariance,
               'fc_fixed': policies.FCGaussianPolicyWithFixedCovariance}[kind]
        kw = {}
        if kind != 'fc_fixed':
            kw['var_type'] = ['spherical', 'diagonal'][rng.randint(2)]
        if kind == 'fc':
            kw['min_var'] = .05
        elif kind == 'fc_fixed':
            kw['var'] = float(rng.choice([.1, 1.]))
        else:
            kw['var_func'] = lambda x: F.exp(2 * x)
            kw['var_param_init'] = float(rng.choice([-.5, 0.]))
        pi = G.TapSequence(cls(
            O.N_OBS, O.N_ACT, n_hidden_layers=1, n_hidden_channels=n_h,
            nonlinearity=F.tanh, bound_mean=bool(rng.randint(2)),
            min_action=np.full(O.N_ACT, -2, 'f'),
            max_action=np.full(O.N_ACT, 2, 'f'), **kw))
    return kind, pi


def update_case(ctx, recurrent):
    rng = ctx.rng
    kind, pi = make_policy(rng, recurrent)
    if recurrent:
        v = G.TapRecSequential(L.NStepGRU(1, O.N_OBS, 3, 0), L.Linear(3, 1))
    else:
        v = G.TapSequence(L.Linear(O.N_OBS, 3), F.tanh, L.Linear(3, 1))
    K.randomize(pi, rng, float(rng.choice([.3, .7])))
    K.randomize(v, rng, .7)
    ptap = []
    pi.tap = ptap
    n_env = int(rng.randint(1, 4))
    single = rng.rand() < .4
    if single:
        n_env = 1
    cfg = dict(
        gamma=float(rng.choice([0., .9, 1.])),
        lambd=float(rng.choice([0., .95, 1.])),
        entropy_coef=float(rng.choice([0., .01, .3])),
        update_interval=int(rng.randint(3, 20)),
        vf_batch_size=4, vf_epochs=1,
        max_kl=float(rng.choice([1e-4, .01, .01, .1, 1., 30.])),
        conjugate_gradient_max_iter=int(rng.choice([1, 2, 3, 5, 10])),
        conjugate_gradient_damping=float(rng.choice([1e-3, 1e-2, .1, 1.])),
        line_search_max_backtrack=int(rng.choice([0, 1, 3, 10])),
        standardize_advantages=bool(rng.randint(2)),
        kl_stats_window=int(rng.choice([1, 2, 100])),
        policy_step_size_stats_window=int(rng.choice([1, 2, 100])))
    max_len = None
    if recurrent:
        max_len = [None, 1, 2, 4][rng.randint(4)]
        cfg['max_recurrent_sequence_len'] = max_len
    scale = float(rng.choice([1., 1., 1., 0., 30.]))
    opt = chainer.optimizers.SGD(1e-2)
    opt.setup(v)
    vlog = []
    G.log_updates(opt, v, [], vlog)
    norm = O.make_obs_normalizer(rng) if rng.rand() < .4 else None
    agent = agents.TRPO(pi, v, opt, obs_normalizer=norm, phi=K.obs_phi,
                        recurrent=recurrent, **cfg)
    names = [n for n, _ in pi.namedparams()]
    state = {'params': K.params_of(pi), 'n': 0}
    sizes, kls = [], []

    def nets(x, rec):
        if recurrent:
            rp, rv = rec or (None, None)
            d, rp = pi(x, rp)
            y, rv = v(x, rv)
            return d, y.array[0, 0], (rp, rv)
        return pi(x), v(x).array[0, 0], None

    def unchanged(what):
        p = K.params_of(pi)
        for n in names:
            if not np.array_equal(p[n], state['params'][n]):
                ctx.fatal('trpo:policy-changed', 'parameter {} of the policy '
                          'changed {}'.format(n, what))

    def on_update(col, segs):
        if segs is None:
            ctx.require(not ptap and not vlog, 'trpo:early', 'early update')
            unchanged('without an update')
            return
        data = [t for s in segs for t in s]
        G.gae(segs, cfg['gamma'], cfg['lambd'])
        rows, _ = G.normalized_states(data, col.norm_before)
        matcher = G.RowMatcher(ctx, 'trpo:unknown-row', rows)
        n = len(data)
        ctx.require(len(ptap) >= 1, 'trpo:no-update',
                    'no policy update with a full dataset')
        if recurrent:
            seqs = [[matcher(r) for r in x] for x in ptap[0]]
        else:
            seqs = [[matcher(r)] for r in ptap[0][0]]
        ctx.require(sorted(i for s in seqs for i in s) == list(range(n)),
                    'trpo:policy-batch', 'the policy update does not use '
                    'every transition of the dataset once')
        recs = [None if data[s[0]]['rec'] is None else data[s[0]]['rec'][0]
                for s in seqs]
        before, after = state['params'], K.params_of(pi)
        state['params'] = after
        adv = np.array([t['adv'] for t in data])
        std = adv.std()
        if cfg['standardize_advantages']:
            adv = (adv - adv.mean()) / (std + 1e-8)

        model = G.clone(pi)

        def evaluate(params):
            """gain, KL from the old policy and their rounding error."""
            K.set_params(model, params)
            with chainer.using_config('train', False), \
                    chainer.no_backprop_mode(), warnings.catch_warnings():
                warnings.simplefilter('ignore')
                out = forward(model, rows, seqs, recs, recurrent)
                gain = kl = slack = 0.
                for i, d in out:
                    k, p = params64(d)
                    if old is not None:
                        kl += kl64(k, old[i][1], p) / n
                    lp = logp64(k, p, data[i]['action'])
                    ratio = np.exp(lp - data[i]['logp'])
                    gain += (ratio * adv[i]
                             + cfg['entropy_coef'] * entropy64(k, p)) / n
                    slack += (abs(ratio * adv[i]) * (2 + abs(lp))
                              + cfg['entropy_coef']) / n * 1e-5
            return gain, kl, slack + 1e-7
        old = None
        K.set_params(model, before)
        with chainer.using_config('train', True):
            out = forward(model, rows, seqs, recs, recurrent)
        old = {i: params64(d) for i, d in out}
        x0, x1 = flat(before, names), flat(after, names)
        # damped Fisher matrix and gradient of the objective, before the
        # parameters of the model are replaced
        fisher = np.zeros((len(x0), len(x0)))
        grad = np.zeros(len(x0))
        for i, d in out:
            k, p = params64(d)
            J = jacobian(model, names, d)
            fisher += J.T.dot(metric(k, p)).dot(J) / n
            ratio = np.exp(logp64(k, p, data[i]['action']) - data[i]['logp'])
            grad += J.T.dot(
                ratio * adv[i] * dlogp(k, p, data[i]['action'])
                + cfg['entropy_coef'] * dentropy(k, p)) / n
        gain0, _, slack0 = evaluate(before)
        gain1, kl1, slack1 = evaluate(after)
        delta = x1 - x0
        moved = bool(np.any(delta != 0))
        ctx.require(np.all(np.isfinite(x1)), 'trpo:not-finite',
                    lambda: 'policy parameters became {}'.format(x1))
        if moved:
            ctx.check(kl1 <= cfg['max_kl'] * 1.0001 + 1e-6, 'trpo:kl', lambda:
                      'a policy update reached a mean KL divergence of {} '
                      'with a bound of {}; {}'.format(kl1, cfg['max_kl'], cfg))
            ctx.check(gain1 - gain0 >= -(slack0 + slack1), 'trpo:gain',
                      lambda: 'a policy update changed the surrogate '
                      'objective from {} to {}; {}'.format(
                          gain0, gain1, cfg))

        # direction and length of the step
        degenerate = cfg['standardize_advantages'] and std < 1e-3
        A = fisher + cfg['conjugate_gradient_damping'] * np.eye(len(x0))
        it = cfg['conjugate_gradient_max_iter']
        size = None
        step_label = 'unclear'
        gnorm = np.linalg.norm(grad)
        S = [.5 ** k for k in range(cfg['line_search_max_backtrack'] + 1)]
        if not degenerate and gnorm > 1e-5:
            d64 = cg(A, grad, it, 'd')
            # the result may depend on rounding errors of the products
            noise = np.random.RandomState(0)
            stable = all(
                np.linalg.norm(d64 - d) < 3e-3 * np.linalg.norm(d64)
                for d in [cg(A, grad, it, 'f')] + [
                    cg(A, grad, it, 'd', noise) for _ in range(4)])
            dAd = d64.dot(A).dot(d64)
            full = np.sqrt(2 * cfg['max_kl'] / (dAd + 1e-8)) * d64
            quant = 1e-6 * np.linalg.norm(x0)
            # rounding errors of the parameters themselves
            small = np.linalg.norm(full) < 30 * quant
            if moved and not small:
                # length of the step, whatever its direction
                q = .5 * delta.dot(A).dot(delta)
                err = [abs(np.sqrt(q / cfg['max_kl']) - s) / s for s in S]
                best = int(np.argmin(err))
                tol = .02 + 2 * quant / (S[best] * np.linalg.norm(full))
                if dAd > 1e-5 and tol < .2:
                    ctx.check(err[best] < tol, 'trpo:step-length', lambda:
                              'a policy update has a length of {} times the '
                              'full step, which is not one of the steps {} '
                              'of the line search; {}'.format(
                                  np.sqrt(q / cfg['max_kl']), S, cfg))
                    size = S[best]
                    step_label = str(size)
                ctx.check(delta.dot(grad) >
                          -1e-3 * np.linalg.norm(delta) * gnorm,
                          'trpo:descent', 'a policy update goes against the '
                          'gradient of the surrogate objective')
                if stable and size is not None:
                    ctx.count('directions_compared')
                    e = np.linalg.norm(delta - size * full)
                    ctx.check(e < .02 * np.linalg.norm(size * full)
                              + 3 * quant, 'trpo:direction', lambda:
                              'a policy update differs by {} of its length '
                              'from the solution after {} iterations of '
                              'conjugate gradients; {}'.format(
                                  e / np.linalg.norm(size * full), it, cfg))
            if not moved:
                step_label = 'rejected'
            if stable and not small and (size is not None or not moved):
                # the steps tried before must have been unacceptable
                for s in S:
                    if size is not None and s <= size:
                        break
                    cand, pos = {}, 0
                    for nm in names:
                        k = before[nm].size
                        cand[nm] = (before[nm] + (s * full[pos:pos + k])
                                    .reshape(before[nm].shape)).astype('f')
                        pos += k
                    g, kl, sl = evaluate(cand)
                    good = (np.isfinite(g) and np.isfinite(kl)
                            and g - gain0 > 1e-3 * abs(gain0) + 20 * sl
                            and kl < .98 * cfg['max_kl'] - 1e-6)
                    ctx.count('rejected_steps')
                    ctx.check(not good, 'trpo:rejected-good-step', lambda:
                              'a step of size {} (gain {:+}, KL {} <= {}) was '
                              'not taken; {}'.format(
                                  s, g - gain0, kl, cfg['max_kl'], cfg))
        elif not moved:
            step_label = 'rejected'
        # statistics
        st = dict(agent.get_statistics())
        if moved:
            kls.append(kl1)
            if size is not None or len(S) == 1:
                sizes.append(1. if len(S) == 1 else size)
            else:
                sizes.append(None)
        elif step_label == 'rejected' and gnorm > 1e-5 and not degenerate:
            sizes.append(0.)
        else:
            sizes.append(None)
            kls.append(None)
        w = sizes[-cfg['policy_step_size_stats_window']:]
        if None not in w:
            ctx.close(st['average_policy_step_size'], np.mean(w),
                      'trpo:stat-size', 'average_policy_step_size', rtol=1e-6)
        w = kls[-cfg['kl_stats_window']:]
        if w and None not in kls:
            ctx.close(st['average_kl'], np.mean(w), 'trpo:stat-kl',
                      'average_kl', rtol=1e-3, atol=1e-6)
        state['n'] += 1
        ctx.count('policy_updates')
        ctx.count('updates_moved' if moved else 'updates_rejected')
        ctx.sig(kind, recurrent, single, norm is not None,
                tuple(sorted(col.kinds)), cfg['max_kl'],
                cfg['conjugate_gradient_damping'], it, len(S), step_label,
                scale, cfg['entropy_coef'] > 0, cfg['standardize_advantages'])
        del ptap[:]
        del vlog[:]

    col = G.Collector(ctx, agent, nets, n_env, single, recurrent,
                      cfg['update_interval'],
                      float(rng.choice([0., .1, .4])),
                      float(rng.choice([0., .1, .3])), on_update,
                      reward_scale=scale)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for _ in range(int(cfg['update_interval'] * 3.3 / n_env) + 2):
            col.step()
    ctx.require(state['n'] >= 2, 'trpo:updates', lambda: 'only {} updates'
                .format(state['n']))
    ctx.sample(dict(cfg, kind=kind, recurrent=recurrent))


@chk.scenario(quick=90, thorough=2000, cpu=200)
def updates(ctx):
    update_case(ctx, False)


@chk.scenario(quick=60, thorough=1000, cpu=300)
def updates_recurrent(ctx):
    update_case(ctx, True)


# -- linear systems ----------------------------------------------------------
@chk.scenario(quick=400, thorough=10000)
def conjugate_gradient(ctx):
    rng = ctx.rng
    n = int(rng.randint(1, 30))
    dtype = ['d', 'f'][rng.randint(2)]
    Q = np.linalg.qr(rng.normal(size=(n, n)))[0]
    n_eig = int(rng.randint(1, n + 1))
    cond = float(rng.choice([1., 10., 1e3]))
    vals = np.exp(rng.uniform(-np.log(cond), 0, n_eig))
    eig = vals[rng.randint(n_eig, size=n)] * float(
        rng.choice([1e-2, 1., 1e2]))
    A64 = (Q * eig).dot(Q.T)
    A64 = (A64 + A64.T) / 2
    A = A64.astype(dtype)
    b = (rng.normal(size=n) * float(rng.choice([1e-4, 1., 1e3]))).astype(dtype)
    special = rng.rand()
    if special < .05:
        b[:] = 0
    elif special < .15:
        b = Q[:, 0].astype(dtype)     # an eigenvector: one iteration
    A0, b0 = A.copy(), b.copy()
    max_iter = [None, int(rng.randint(0, n + 3)), 2 * n + 10][rng.randint(3)]
    calls = []

    def prod(v):
        ctx.require(v.shape == b.shape, 'cg:shape', '')
        calls.append(1)
        return A.dot(v)
    kw = {} if max_iter is None else {'max_iter': max_iter}
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        x = misc.conjugate_gradient(prod, b, **kw)
    ctx.require(isinstance(x, np.ndarray) and x.shape == b.shape
                and x.dtype == b.dtype, 'cg:type', lambda: repr(x))
    ctx.require(np.array_equal(A, A0) and np.array_equal(b, b0),
                'cg:modified', 'arguments were modified')
    ctx.check(np.all(np.isfinite(x)), 'cg:not-finite', lambda:
              'solution {} of a system with a right hand side of norm {}'
              .format(x, np.linalg.norm(b)))
    if not np.all(np.isfinite(x)):
        return
    it = 10 if max_iter is None else max_iter
    sol = np.linalg.solve(A64, b.astype('d'))

    def energy(y):
        e = y.astype('d') - sol
        return float(np.sqrt(max(0., e.dot(A64).dot(e))))
    scale = energy(np.zeros(n))
    eps = 1e-10 if dtype == 'd' else 1e-4
    # error bound of conjugate gradients after `it` iterations
    kappa = eig.max() / eig.min()
    rate = (np.sqrt(kappa) - 1) / (np.sqrt(kappa) + 1)
    bound = min(1., 2 * rate ** it)
    tol = 1e-9 / np.sqrt(eig.min())      # documented early stopping
    ctx.check(energy(x) <= (bound * 1.01 + eps * kappa) * scale + tol,
              'cg:bound', lambda: 'error {} (relative to {}) after {} '
              'iterations, condition number {}'.format(
                  energy(x), scale, it, kappa))
    ref = cg(A64, b.astype('d'), it, 'd')
    r32 = cg(A64, b.astype('d'), it, dtype)
    if np.linalg.norm(ref - r32) <= 1e-4 * np.linalg.norm(ref):
        ctx.close(x, ref, 'cg:iterate', 'iterate {}'.format(it),
                  rtol=1e-2, atol=1e-3 * np.abs(ref).max() + tol)
        ctx.count('iterates_compared')
    distinct = len(np.unique(eig))
    if it >= distinct and kappa <= 10.1:
        ctx.check(energy(x) <= 10 * eps * scale + tol, 'cg:unsolved', lambda:
                  'not solved after {} iterations with {} distinct '
                  'eigenvalues'.format(it, distinct))
    ctx.sig(n, dtype, cond, it >= distinct, max_iter is None,
            special < .05, special < .15)


if __name__ == '__main__':
    raise SystemExit(chk.main())
