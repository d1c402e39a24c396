"""C16: recurrent models give the same results however they are driven."""
import sys

import chainer
import chainer.functions as F
import chainer.links as L
import numpy as np

from vlib.harness import Check
from vlib import agentkit as K
from chainerrl import agents
from chainerrl import links
from chainerrl import policies
from chainerrl import q_functions
from chainerrl.links import stateless_recurrent as SR
from chainerrl.recurrent import RecurrentChainMixin
from chainerrl.recurrent import state_kept
from chainerrl.recurrent import state_reset

chk = Check(
    'C16',
    'distinct (model composition, driving mode, batch composition) and '
    '(stateful composition, state operation sequence) situations whose '
    'outputs and states were compared with one-sequence-at-a-time stepping',
    ['chainer\'s own recurrent links applied to a single sequence and a '
     'single step are the reference', 'dropout inactive'])

RNN = {'lstm': L.NStepLSTM, 'gru': L.NStepGRU, 'tanh': L.NStepRNNTanh,
       'relu': L.NStepRNNReLU}


class TwoIn(chainer.Chain):
    """Non-recurrent layer with two inputs."""

    def __init__(self, a, b, n):
        super().__init__()
        with self.init_scope():
            self.la = L.Linear(a, n)
            self.lb = L.Linear(b, n)

    def __call__(self, a, b):
        return self.la(a) + F.tanh(self.lb(b))


def merge(*xs):
    """Layer that accepts the (possibly nested) outputs of branches."""
    out = []
    for x in xs:
        out.append(merge(*x) if isinstance(x, tuple) else x)
    return F.tanh(F.concat(out, axis=1))


def split_in_two(h):
    n = h.shape[1] // 2
    return h[:, :n], F.sin(h[:, n:])


# A composition is described by a tree; build() makes the chainerrl link and
# step() is the reference interpreter for one item and one time step.

def out_width(t, n_in):
    """Output width by following the layers."""
    if t[0] == 'rnn':
        return t[4]
    if t[0] == 'branched':
        return sum(out_width(s, n_in) for s in t[1])
    n = n_in
    for x in t[1]:
        if x[0] == 'linear':
            n = x[2]
        elif x[0] == 'two':
            n = x[3]
        elif x[0] in ('rnn', 'branched', 'seq'):
            n = out_width(x, n)
    return n


def gen_tree(rng, n_in, depth, kind):
    """A random composition of recurrent and other layers."""
    def g(n, d, k):
        if k == 'rnn':
            return ('rnn', str(rng.choice(list(RNN))), int(rng.randint(1, 3)),
                    n, int(rng.randint(1, 5)))
        if k == 'branched':
            return ('branched', [g(n, d - 1, str(rng.choice(['rnn', 'seq'])))
                                 for _ in range(int(rng.randint(1, 4)))])
        layers = []
        for i in range(int(rng.randint(1, 5))):
            c = str(rng.choice(['linear', 'rnn', 'rnn', 'fn', 'seq',
                                'branched', 'pair']))
            if d <= 0 and c in ('seq', 'branched'):
                c = 'rnn'
            if c == 'linear':
                layers.append(('linear', n, int(rng.randint(1, 5))))
            elif c == 'fn':
                layers.append(('fn',))
            elif c == 'pair':
                m = 2 * int(rng.randint(1, 3))
                layers += [('linear', n, m), ('split',),
                           ('two', m // 2, m // 2, m)]
            elif c == 'branched':
                layers += [g(n, d, 'branched'), ('merge',)]
            else:
                layers.append(g(n, d - 1, c))
            n = out_width(('seq', layers[-3:]), n) if c == 'pair' else \
                out_width(('seq', [x for x in layers[-2:]
                                   if x[0] != 'merge'][-1:]), n)
        if not has_rnn(('seq', layers)):
            layers.append(g(n, d, 'rnn'))
        return ('seq', layers)
    return g(n_in, depth, kind)


def has_rnn(t):
    if t[0] == 'rnn':
        return True
    if t[0] in ('seq', 'branched'):
        return any(has_rnn(x) for x in t[1])
    return False


class Node(object):
    """Reference interpreter that shares the links with the real model."""

    def __init__(self, tree, rng):
        self.kind = k = tree[0]
        self.subs = []
        if k == 'rnn':
            self.link = RNN[tree[1]](tree[2], tree[3], tree[4],
                                     float(rng.choice([0, .3])))
            self.lstm = tree[1] == 'lstm'
        elif k == 'linear':
            self.link = L.Linear(tree[1], tree[2])
        elif k == 'two':
            self.link = TwoIn(tree[1], tree[2], tree[3])
        elif k == 'fn':
            self.link = F.tanh
        elif k == 'merge':
            self.link = merge
        elif k == 'split':
            self.link = split_in_two
        else:
            self.subs = [Node(t, rng) for t in tree[1]]
            cls = links.StatelessRecurrentSequential if k == 'seq' else \
                links.StatelessRecurrentBranched
            self.link = cls(*[s.link for s in self.subs])
        self.recurrent = has_rnn(tree)

    def children(self):
        return [s for s in self.subs if s.recurrent]

    def initial(self):
        if self.kind == 'rnn':
            return None
        return [s.initial() for s in self.children()]

    def step(self, x, state):
        """x: (1, n) Variable or tuple; one item, one time step."""
        k = self.kind
        if k == 'rnn':
            if self.lstm:
                h, c = (None, None) if state is None else state
                h, c, y = self.link(h, c, [x])
                return y[0], (h, c)
            h, y = self.link(state, [x])
            return y[0], h
        if k == 'branched':
            ys, ss = [], []
            for s, st in zip(self.subs, state):
                y, st = s.step(x, st)
                ys.append(y)
                ss.append(st)
            return tuple(ys), ss
        if k == 'seq':
            new = []
            queue = list(state)
            for s in self.subs:
                if s.recurrent:
                    x, st = s.step(x, queue.pop(0))
                    new.append(st)
                else:
                    x = s.link(*x) if isinstance(x, tuple) else s.link(x)
            return x, new
        raise ValueError(k)

    def states(self, state):
        """Flat list of (h, c)/(h,) arrays, None for an empty state."""
        if self.kind == 'rnn':
            if state is None:
                return [None]
            hs = state if self.lstm else (state,)
            return [tuple(np.asarray(
                getattr(h, 'array', h)) for h in hs)]
        if state is None:
            out = []
            for s in self.children():
                out += s.states(None)
            return out
        out = []
        assert len(state) == len(self.children())
        for s, st in zip(self.children(), state):
            out += s.states(st)
        return out

    def shapes(self):
        if self.kind == 'rnn':
            return [(self.link.n_layers, self.link.out_size)]
        out = []
        for s in self.children():
            out += s.shapes()
        return out


def arrays(y):
    """Nested tuples of Variables -> list of arrays."""
    if isinstance(y, tuple):
        return [a for x in y for a in arrays(x)]
    return [y.array]


def compare(ctx, key, got, want, msg):
    g, w = arrays(got), arrays(want)
    if not ctx.check(len(g) == len(w), key, msg):
        return
    for a, b in zip(g, w):
        ctx.close(a, b, key, msg, rtol=1e-4, atol=1e-5)


def compare_states(ctx, key, node, got, wants, msg):
    """got: batched state; wants: reference state per item."""
    fg = node.states(got)
    fw = [node.states(w) for w in wants]
    ctx.require(len(fg) == len(fw[0]), key, 'wrong state structure ' + msg)
    for j, (nl, no) in enumerate(node.shapes()):
        for i in range(len(wants)):
            w = fw[i][j]
            if w is None:
                w = tuple(np.zeros((nl, 1, no), 'f')
                          for _ in range(len(fg[j]) if fg[j] else 1))
            if fg[j] is None:
                g = tuple(np.zeros((nl, 1, no), 'f') for _ in w)
            else:
                g = tuple(a[:, i:i + 1] for a in fg[j])
            for a, b in zip(g, w):
                ctx.close(a, b, key, lambda: '{} (recurrent link {}, batch '
                          'entry {})'.format(msg, j, i), rtol=1e-4, atol=1e-5)


def make(ctx, tuple_input=False):
    rng = ctx.rng
    n_in = int(rng.randint(1, 4))
    kind = 'branched' if rng.rand() < .3 else 'seq'
    tree = gen_tree(rng, n_in, 2, kind)
    if tuple_input:
        m = int(rng.randint(1, 4))
        tree = ('seq', [('two', 2, 3, n_in)] + [gen_tree(rng, n_in, 1,
                                                         'seq')])
    node = Node(tree, rng)
    K.randomize(node.link, rng)
    return tree, node, n_in


def tree_sig(t):
    if t[0] == 'rnn':
        return t[1] + str(t[2])
    if t[0] in ('seq', 'branched'):
        return (t[0],) + tuple(tree_sig(x) for x in t[1])
    return t[0]


def inputs(rng, n_in, length, tuple_input):
    if tuple_input:
        return tuple(rng.normal(size=(length, k)).astype('f') for k in (2, 3))
    return rng.normal(size=(length, n_in)).astype('f')


def at(x, t):
    if isinstance(x, tuple):
        return tuple(a[t:t + 1] for a in x)
    return x[t:t + 1]


def upto(x, a, b):
    if isinstance(x, tuple):
        return tuple(y[a:b] for y in x)
    return x[a:b]


def reference(node, xs, states):
    ys = []
    new = []
    for x, st in zip(xs, states):
        n = len(x[0]) if isinstance(x, tuple) else len(x)
        out = []
        for t in range(n):
            v = at(x, t)
            v = tuple(chainer.Variable(a) for a in v) if isinstance(
                v, tuple) else chainer.Variable(v)
            y, st = node.step(v, st)
            out.append(y)
        ys.append(out)
        new.append(st)
    return ys, new


def cat(ys):
    """Concatenate per-step reference outputs over time."""
    if isinstance(ys[0], tuple):
        return tuple(cat([y[i] for y in ys]) for i in range(len(ys[0])))
    return F.concat(ys, axis=0)


def nest_cat(ys):
    return cat(ys)


@chk.scenario(quick=500, thorough=10000)
def sequences_at_once(ctx):
    """n_step_forward on variable-length batches, in one or several calls."""
    rng = ctx.rng
    tup = rng.rand() < .2
    with chainer.using_config('train', False):
        tree, node, n_in = make(ctx, tup)
        model = node.link
        b = int(rng.randint(1, 5))
        lens = [int(rng.randint(1, 6)) for _ in range(b)]
        if rng.rand() < .015:
            lens[int(rng.randint(b))] = int(rng.randint(100, 160))
        if rng.rand() < .3:
            lens = sorted(lens, reverse=True)
        if tup:
            lens = [2] * b    # other lengths: see tuple_inputs
        xs = [inputs(rng, n_in, n, tup) for n in lens]
        refs, rstates = reference(node, xs, [node.initial()] * b)
        where = '{} lengths={}'.format(tree, lens)
        ys, rs = model.n_step_forward(xs, None, output_mode='split')
        ctx.require(len(ys) == b, 'split-output', where)
        for i in range(b):
            compare(ctx, 'split-output', ys[i], cat(refs[i]),
                    '{} sequence {}'.format(where, i))
        compare_states(ctx, 'final-state', node, rs, rstates, where)
        # initial state given explicitly through the state helpers
        if rng.rand() < .5:
            rs0 = model.concatenate_recurrent_states([None] * b)
            ys0, rs0 = model.n_step_forward(xs, rs0, output_mode='split')
            for i in range(b):
                compare(ctx, 'explicit-initial-state', ys0[i], cat(refs[i]),
                        where)
        yc, rsc = model.n_step_forward(xs, None, output_mode='concat')
        compare(ctx, 'concat-output', yc, cat([y for r in refs for y in r]),
                where)
        compare_states(ctx, 'final-state', node, rsc, rstates, where)
        # in two pieces
        cuts = [int(rng.randint(1, n)) if n > 1 else None for n in lens]
        if not tup and all(c is not None for c in cuts):
            y1, r1 = model.n_step_forward(
                [upto(x, 0, c) for x, c in zip(xs, cuts)], None,
                output_mode='split')
            y2, r2 = model.n_step_forward(
                [upto(x, c, None) for x, c in zip(xs, cuts)], r1,
                output_mode='split')
            for i in range(b):
                compare(ctx, 'resumed-output', y2[i], cat(refs[i][cuts[i]:]),
                        '{} cuts={}'.format(where, cuts))
            compare_states(ctx, 'resumed-state', node, r2, rstates, where)
            ctx.count('resumed_runs')
        # gradients of the whole batch
        g = [rng.normal(size=a.shape).astype('f') for a in arrays(yc)]

        def grads(y):
            model.cleargrads()
            loss = 0
            for a, w in zip(flat(y), g):
                loss += F.sum(a * w)
            loss.backward()
            return {n: p.grad.copy() for n, p in model.namedparams()
                    if p.grad is not None}
        got = grads(yc)
        refs2, _ = reference(node, xs, [node.initial()] * b)
        want = grads(cat([y for r in refs2 for y in r]))
        ctx.require(set(got) == set(want), 'gradient', where)
        for k in got:
            scale = max(1., float(np.abs(want[k]).max()))
            ctx.close(got[k] / scale, want[k] / scale, 'gradient',
                      '{} {}'.format(where, k), rtol=1e-3, atol=1e-4)
        ctx.count('sequences', b)
        ctx.sig(tree_sig(tree), tuple(lens), tup)


@chk.scenario(quick=60, thorough=600)
def tuple_inputs(ctx):
    """Sequences that are tuples of arrays, of any length."""
    rng = ctx.rng
    with chainer.using_config('train', False), chainer.no_backprop_mode():
        tree, node, n_in = make(ctx, True)
        model = node.link
        b = int(rng.randint(2, 5))
        lens = [int(rng.randint(2, 6)) for _ in range(b)]
        xs = [inputs(rng, n_in, n, True) for n in lens]
        refs, _ = reference(node, xs, [node.initial()] * b)
        want = [cat(r) for r in refs]
        where = '{} lengths={}'.format(tree, lens)
        got, _ = model.n_step_forward(xs, None, output_mode='split')
        ctx.require(len(got) == b, 'tuple-input-output', where)

        def same(ws):
            return all(
                len(arrays(g)) == len(arrays(w)) and all(
                    p.shape == q.shape and np.allclose(
                        p, q, rtol=1e-4, atol=1e-5)
                    for p, q in zip(arrays(g), arrays(w)))
                for g, w in zip(got, ws))
        ok = same(want)
        if not ok:
            # known finding: the batch is cut as if every sequence was as
            # long as the tuple has elements
            rows = [np.concatenate([x[j] for x in xs]) for j in range(2)]
            cuts = [0] + [2 * (i + 1) for i in range(b - 1)] + [sum(lens)]
            wrong = [tuple(r[s:e] for r in rows)
                     for s, e in zip(cuts, cuts[1:])]
            wrefs, _ = reference(node, wrong, [node.initial()] * b)
            ctx.fail('tuple-input-lengths'
                     if same([cat(r) for r in wrefs])
                     else 'tuple-input-output', where)
        x = inputs(rng, n_in, b, True)
        try:
            y, _ = model(x, None)
        except AssertionError:
            ctx.fail('tuple-one-step-input', 'one-step input may be a tuple '
                     'but is rejected: {}'.format(tree))
        else:
            w, _ = reference(node, [at(x, i) for i in range(b)],
                             [node.initial()] * b)
            compare(ctx, 'tuple-one-step-output', y,
                    cat([v[0] for v in w]), where)
        ctx.evals(1)
        ctx.sig(tree_sig(tree), tuple(lens))


def flat(y):
    if isinstance(y, tuple):
        return [a for x in y for a in flat(x)]
    return [y]


@chk.scenario(quick=1200, thorough=12000)
def batch_stepping(ctx):
    """One-step calls interleaved with masking, extracting, concatenating."""
    rng = ctx.rng
    tup = False
    with chainer.using_config('train', False), chainer.no_backprop_mode():
        tree, node, n_in = make(ctx, tup)
        model = node.link
        b = int(rng.randint(1, 6))
        rs = None if rng.rand() < .5 else \
            model.concatenate_recurrent_states([None] * b)
        refs = [node.initial() for _ in range(b)]
        ops = []
        saved = []
        for _ in range(int(rng.randint(3, 14))):
            op = str(rng.choice(['step', 'step', 'step', 'mask', 'mask1',
                                 'permute', 'save', 'restore', 'one',
                                 'drop']))
            where = '{} after {} op={}'.format(tree, ops, op)
            ops.append(op)
            if op == 'drop' and rs is not None:
                # an empty state of a single link is None
                both = [drop_parts(node, model.get_recurrent_state_at(
                    rs, j, unwrap_variable=True), refs[j], rng)
                    for j in range(b)]
                rs = model.concatenate_recurrent_states(
                    [x[0] for x in both])
                refs = [x[1] for x in both]
            elif op == 'step':
                x = inputs(rng, n_in, b, tup)
                y, rs = model(x, rs)
                want, refs = reference(
                    node, [at(x, i) for i in range(b)], refs)
                compare(ctx, 'step-output', y, cat([w[0] for w in want]),
                        where)
            elif op == 'mask':
                ii = [int(i) for i in range(b) if rng.rand() < .4]
                if rng.rand() < .5:
                    ii = np.asarray(ii, dtype=int)
                rs = model.mask_recurrent_state_at(rs, ii)
                for i in ii:
                    refs[i] = node.initial()
            elif op == 'mask1':
                i = int(rng.randint(b))
                rs = model.mask_recurrent_state_at(rs, i)
                refs[i] = node.initial()
            elif op == 'permute' and rs is not None:
                perm = [int(i) for i in rng.randint(b, size=rng.randint(
                    1, 6))]
                unwrap = bool(rng.rand() < .5)
                if rng.rand() < .3:
                    rs = model.get_recurrent_state_at(
                        rs, perm, unwrap_variable=False)
                    refs = [refs[i] for i in perm]
                else:
                    parts, new = [], []
                    left = list(perm)
                    while left:
                        i = left.pop(0)
                        if rng.rand() < .2:
                            parts.append(None)
                            new.append(node.initial())
                        elif rng.rand() < .3:
                            # several entries at once
                            ii = [i] + [left.pop(0) for _ in range(
                                rng.randint(0, len(left) + 1))]
                            parts.append(model.get_recurrent_state_at(
                                rs, ii, unwrap_variable=unwrap))
                            new.extend(refs[j] for j in ii)
                        else:
                            parts.append(model.get_recurrent_state_at(
                                rs, i, unwrap_variable=unwrap))
                            new.append(refs[i])
                    rs = model.concatenate_recurrent_states(parts)
                    refs = new
                b = len(perm)
            elif op == 'save' and rs is not None:
                i = int(rng.randint(b))
                s = model.get_recurrent_state_at(
                    rs, i, unwrap_variable=bool(rng.rand() < .5))
                saved.append((s, refs[i]))
            elif op == 'restore' and saved and rs is not None:
                s, r = saved[rng.randint(len(saved))]
                i = int(rng.randint(b))
                parts = [model.get_recurrent_state_at(
                    rs, j, unwrap_variable=True) for j in range(b)]
                parts[i] = s
                rs = model.concatenate_recurrent_states(parts)
                refs[i] = r
            elif op == 'one' and rs is not None:
                # step only one entry, the others keep their state
                i = int(rng.randint(b))
                part = model.concatenate_recurrent_states(
                    [model.get_recurrent_state_at(rs, i,
                                                  unwrap_variable=True)])
                x = inputs(rng, n_in, 1, tup)
                y, part = model(x, part)
                want, (refs[i],) = reference(node, [x], [refs[i]])
                compare(ctx, 'step-output', y, want[0][0], where)
                parts = [model.get_recurrent_state_at(
                    rs, j, unwrap_variable=True) for j in range(b)]
                parts[i] = model.get_recurrent_state_at(
                    part, 0, unwrap_variable=True)
                rs = model.concatenate_recurrent_states(parts)
            if rs is not None:
                compare_states(ctx, 'state', node, rs, refs, where)
            ctx.count('op_' + op)
        ctx.sig(tree_sig(tree), tuple(ops), b)


def drop_parts(node, part, ref, rng):
    """Put random links of one item's state back into the initial state."""
    if rng.rand() < .35:
        return None, node.initial()
    if node.kind == 'rnn':
        return part, ref
    if part is None:
        part = [None] * len(ref)
    both = [drop_parts(n, p, r, rng)
            for n, p, r in zip(node.children(), part, ref)]
    return [x[0] for x in both], [x[1] for x in both]


# ------------------------------------------------------ stateful (L.LSTM)

class Wrapped(chainer.Chain, RecurrentChainMixin):
    def __init__(self, **kw):
        super().__init__()
        with self.init_scope():
            for k, v in sorted(kw.items()):
                setattr(self, k, v)

    def __call__(self, x):
        for k in sorted(self._children):
            x = getattr(self, k)(x)
        return x


class PlainChain(chainer.Chain):
    """Not Recurrent itself, but contains stateful links."""

    def __init__(self, n):
        super().__init__()
        with self.init_scope():
            self.a = L.Linear(n, n)
            self.b = L.LSTM(n, n)

    def __call__(self, x):
        return self.b(F.tanh(self.a(x)))


def stateful(rng, n, depth=2):
    c = str(rng.choice(['lstm', 'seq', 'wrapped', 'plain', 'linear']))
    if depth == 0 and c in ('seq', 'wrapped'):
        c = 'lstm'
    if c == 'lstm':
        return L.LSTM(n, n), 'lstm'
    if c == 'linear':
        return L.Linear(n, n), 'linear'
    if c == 'plain':
        return PlainChain(n), 'plain'
    subs = [stateful(rng, n, depth - 1) for _ in range(rng.randint(1, 4))]
    if c == 'seq':
        layers = []
        for s, _ in subs:
            layers.append(s)
            if rng.rand() < .3:
                layers.append(F.tanh)
        return links.Sequence(*layers), ('seq',) + tuple(x[1] for x in subs)
    return Wrapped(**{'l{}'.format(i): s for i, (s, _) in enumerate(subs)}), \
        ('wrapped',) + tuple(x[1] for x in subs)


def lstms(link):
    return [m for m in link.links() if isinstance(m, L.LSTM)]


def snapshot(model):
    out = []
    for m in lstms(model):
        out.append(tuple(None if v is None else v.array.copy()
                         for v in (m.c, m.h)))
    return out


def same_state(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        for p, q in zip(x, y):
            if (p is None) != (q is None):
                return False
            if p is not None and not np.array_equal(p, q):
                return False
    return True


class Boom(Exception):
    pass


def make_stateful(rng):
    n = 3
    c = int(rng.randint(7))
    if c <= 2:
        while True:
            m, s = stateful(rng, n)
            if not isinstance(m, (L.LSTM, PlainChain, L.Linear)):
                break
        call = m
    elif c == 3:
        m = q_functions.FCLSTMStateQFunction(n, 2, 4, 1)
        s = 'FCLSTMStateQFunction'
        call = lambda x: m(x).q_values
    elif c == 4:
        m = q_functions.FCLSTMSAQFunction(n, 2, 4, 1)
        s = 'FCLSTMSAQFunction'
        call = lambda x: m(x, np.ones((len(x), 2), 'f'))
    elif c == 5:
        m = policies.FCLSTMDeterministicPolicy(
            n, 4, 1, 2, min_action=-np.ones(2, 'f'), max_action=np.ones(2, 'f'),
            bound_action=True)
        s = 'FCLSTMDeterministicPolicy'
        call = lambda x: m(x).sample()
    else:
        m = agents.a3c.A3CSharedModel(
            links.Sequence(L.Linear(n, 4), F.tanh, L.LSTM(4, 4)),
            policies.SoftmaxPolicy(L.Linear(4, 2)), L.Linear(4, 1))
        s = 'A3CSharedModel'
        call = lambda x: F.concat([m(x)[0].logits, m(x)[1]])

        def call(x):
            p, v = m(x)
            return F.concat([p.logits, v])
    K.randomize(m, rng)
    return m, s, call, n


@chk.scenario(quick=1500, thorough=15000)
def stateful_contexts(ctx):
    """state_kept / state_reset / get / set / reset on stateful chains."""
    rng = ctx.rng
    m, s, call, n = make_stateful(rng)
    if not lstms(m):
        ctx.skip()
    ops = []
    n_ops = [0]

    def x():
        return rng.normal(size=(2, n)).astype('f')

    def run(depth):
        """Random operations; leaves the model in an arbitrary state."""
        saved = []
        for _ in range(int(rng.randint(1, 5))):
            n_ops[0] += 1
            op = str(rng.choice(['call', 'call', 'reset', 'kept', 'rst',
                                 'get', 'set', 'boom', 'unchain', 'update']))
            ops.append(op)
            before = snapshot(m)
            if op == 'call':
                call(x())
            elif op == 'update':
                v = x()
                with state_kept(m):
                    call(v)
                    want = snapshot(m)
                if not (s in ('FCLSTMSAQFunction',)):
                    m.update_state(v)
                    ctx.check(same_state(snapshot(m), want), 'update_state',
                              '{} {}'.format(s, ops))
            elif op == 'reset':
                m.reset_state()
                ctx.check(all(c is None and h is None
                              for c, h in snapshot(m)), 'reset_state',
                          '{} {}'.format(s, ops))
            elif op == 'get':
                saved.append((m.get_state(), before))
                ctx.check(same_state(snapshot(m), before), 'get_state-alters',
                          '{} {}'.format(s, ops))
            elif op == 'set' and saved:
                st, want = saved[rng.randint(len(saved))]
                m.set_state(st)
                ctx.check(same_state(snapshot(m), want), 'set_state',
                          '{} {}'.format(s, ops))
            elif op == 'unchain':
                m.unchain_backward()
                ctx.check(same_state(snapshot(m), before), 'unchain-alters',
                          '{} {}'.format(s, ops))
                ctx.check(all(v is None or v.creator is None
                              for l in lstms(m) for v in (l.c, l.h)),
                          'unchain', 'history kept after unchain_backward '
                          '{} {}'.format(s, ops))
            elif op in ('kept', 'rst') and depth < 3:
                cm = state_kept(m) if op == 'kept' else state_reset(m)
                if rng.rand() < .3:
                    cm = m.state_kept() if op == 'kept' else m.state_reset()
                with cm:
                    if op == 'kept':
                        ctx.check(same_state(snapshot(m), before),
                                  'kept-enter', '{} {}'.format(s, ops))
                    else:
                        ctx.check(all(c is None and h is None
                                      for c, h in snapshot(m)), 'reset-enter',
                                  '{} {}'.format(s, ops))
                    run(depth + 1)
                ops.append('exit')
                ctx.check(same_state(snapshot(m), before), op + '-exit',
                          'state not restored: {} {}'.format(s, ops))
            elif op == 'boom' and depth < 3:
                cm = state_kept(m) if rng.rand() < .5 else state_reset(m)
                try:
                    with cm:
                        run(depth + 1)
                        raise Boom()
                except Boom:
                    pass
                ops.append('exit')
                ctx.check(same_state(snapshot(m), before), 'error-exit',
                          'state not restored after an exception: {} {}'
                          .format(s, ops))
    run(0)
    if rng.rand() < .5:
        m.reset_state()
    # what follows is unaffected by what happened inside a context
    v, w = x(), x()
    st = snapshot(m)
    with state_reset(m):
        call(w)
    with state_kept(m):
        y1 = call(v).array
    with state_kept(m):
        call(w)
    y2 = call(v).array
    ctx.close(y1, y2, 'output-after-context', '{} {}'.format(s, ops),
              rtol=0, atol=0)
    ctx.count('state_operations', n_ops[0])
    ctx.sig(s, tuple(ops))


@chk.scenario(quick=300, thorough=3000)
def stateful_batches(ctx):
    """A stateful chain on a batch equals the same chain on each item."""
    rng = ctx.rng
    m, s, call, n = make_stateful(rng)
    if not lstms(m):
        ctx.skip()
    b, t = int(rng.randint(1, 5)), int(rng.randint(1, 6))
    xs = rng.normal(size=(t, b, n)).astype('f')
    m.reset_state()
    whole = [call(x).array for x in xs]
    for i in range(b):
        m.reset_state()
        for k in range(t):
            y = call(xs[k, i:i + 1]).array
            ctx.close(y, whole[k][i:i + 1], 'batch-entry', '{} item {} step '
                      '{}'.format(s, i, k))
    # shrinking batches keep the leading entries' states
    m.reset_state()
    for k in range(t):
        keep = max(1, b - k)
        y = call(xs[k, :keep]).array
        ctx.close(y, whole[k][:keep], 'shrinking-batch', str(s))
    ctx.sig(s, b, t)


@chk.scenario(quick=300, thorough=3000)
def sequence_helpers(ctx):
    """Splitting and concatenating sequences are inverse and ordered."""
    rng = ctx.rng
    b = int(rng.randint(1, 6))
    lens = [int(rng.randint(1, 5)) for _ in range(b)]
    tup = rng.rand() < .5
    dims = [(3,), (2, 2)] if tup else [(3,)]
    seqs = [tuple(rng.normal(size=(n,) + d).astype('f') for d in dims)
            for n in lens]
    arg = seqs if tup else [x[0] for x in seqs]
    c = SR.concatenate_sequences(list(arg))
    got = arrays(c)
    for j in range(len(dims)):
        ctx.close(got[j], np.concatenate([x[j] for x in seqs]), 'concatenate',
                  rtol=0, atol=0)
    back = SR.split_batched_sequences(
        c, np.cumsum(lens[:-1], dtype=np.int32))
    ctx.require(len(back) == b, 'split', str(lens))
    for i in range(b):
        item = arrays(tuple(back[i]) if tup else back[i])
        for j in range(len(dims)):
            ctx.close(item[j], seqs[i][j], 'split', rtol=0, atol=0)
    x = tuple(rng.normal(size=(b,) + d).astype('f') for d in dims)
    one = SR.split_one_step_batch_input(x if tup else x[0])
    ctx.require(len(one) == b, 'split-one-step', str(b))
    for i in range(b):
        item = arrays(tuple(one[i]) if tup else one[i])
        for j in range(len(dims)):
            ctx.close(item[j], x[j][i:i + 1], 'split-one-step', rtol=0,
                      atol=0)
    ctx.sig(tuple(lens), tup)


if __name__ == '__main__':
    sys.exit(chk.main())
