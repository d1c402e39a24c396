"""C05: the random-access queue is a bounded FIFO list."""
import itertools
import sys

import numpy as np

from vlib.harness import Check
from chainerrl.misc.collections import RandomAccessQueue

chk = Check('C05', rule=(
    'random operation sequences (append, extend, popleft, positive and '
    'negative indexing, assignment, iteration, len, repr, sample, '
    'out-of-range access) on the queue in lock-step with a plain list.  '
    'Non-trivial: distinct (maxlen, final content, operation mix).'))


def same(ctx, q, ref, maxlen, trace):
    ctx.require(len(q) == len(ref), 'length', lambda: '{} vs {}: {}'.format(
        len(q), len(ref), trace[-12:]))
    ctx.require(list(q) == ref, 'iteration', lambda: '{} vs {}: {}'.format(
        list(q), ref, trace[-12:]))


def run(ctx, maxlen, init, ops):
    q = RandomAccessQueue(init, maxlen=maxlen) if init is not None else \
        RandomAccessQueue(maxlen=maxlen)
    ref = list(init or [])
    trace = [('init', list(ref), maxlen)]

    def trim():
        if maxlen is not None:
            del ref[:max(0, len(ref) - maxlen)]
    trim()
    same(ctx, q, ref, maxlen, trace)
    uid = 1000
    for op in ops:
        trace.append(op)
        if op[0] == 'append':
            q.append(uid)
            ref.append(uid)
            uid += 1
            trim()
        elif op[0] == 'extend':
            xs = list(range(uid, uid + op[1]))
            uid += op[1]
            q.extend(iter(xs) if op[2] else xs)
            ref.extend(xs)
            trim()
        elif op[0] == 'popleft':
            if ref:
                a, b = q.popleft(), ref.pop(0)
                ctx.require(a == b, 'popleft', lambda: '{} vs {}: {}'.format(
                    a, b, trace[-12:]))
            else:
                ctx.raises(IndexError, q.popleft, 'popleft-empty',
                           'no IndexError from an empty queue')
        elif op[0] == 'get':
            i = op[1]
            if -len(ref) <= i < len(ref):
                ctx.require(q[i] == ref[i], 'getitem', lambda: (
                    '[{}] {} vs {}: {}'.format(i, q[i], ref[i],
                                               trace[-12:])))
            else:
                ctx.raises(IndexError, lambda: q[i], 'getitem-range',
                           'no IndexError for {} of {}'.format(i, len(ref)))
        elif op[0] == 'set':
            i = op[1]
            if -len(ref) <= i < len(ref):
                q[i] = uid
                ref[i] = uid
                uid += 1
            else:
                def assign():
                    q[i] = -1
                ctx.raises(IndexError, assign, 'setitem-range',
                           'no IndexError for {} of {}'.format(i, len(ref)))
        elif op[0] == 'sample':
            k = min(op[1], len(ref))
            s = q.sample(k)
            ctx.require(len(s) == k and len(set(s)) == k and
                        set(s) <= set(ref), 'sample', lambda: (
                            'sample({}) = {} of {}'.format(k, s, ref)))
        ctx.count('operations')
        same(ctx, q, ref, maxlen, trace)
    return ref


@chk.scenario(quick=1500, thorough=20000)
def random_operations(ctx):
    rng = ctx.rng
    maxlen = [None, None, 0, 1, 2, 5, 12][rng.randint(7)]
    init = None if rng.rand() < .3 else list(range(rng.randint(0, 20)))
    weights = rng.dirichlet([1] * 6)
    ops = []
    for _ in range(rng.randint(5, 80)):
        o = rng.choice(6, p=weights)
        ops.append([('append',), ('extend', int(rng.randint(0, 8)),
                                  bool(rng.randint(2))), ('popleft',),
                    ('get', int(rng.randint(-15, 15))),
                    ('set', int(rng.randint(-15, 15))),
                    ('sample', int(rng.randint(0, 10)))][o])
    ref = run(ctx, maxlen, init, ops)
    ctx.sig(maxlen, init, ops)
    ctx.sample('maxlen={} init={} ops={} -> {}'.format(
        maxlen, init, ops[:8], ref))


@chk.scenario(quick=8, thorough=8)
def exhaustive_short(ctx):
    """Every sequence of up to 5 (thorough: 6) basic operations."""
    depth = 5 if ctx.tier == 'quick' else 6
    configs = [(None, None), (None, [1, 2, 3]), (1, [1]), (2, [1, 2, 3]),
               (3, None), (0, [1]), (3, [1, 2]), (2, None)]
    maxlen, init = configs[ctx.idx]
    basic = [('append',), ('popleft',), ('extend', 2, True), ('get', 0),
             ('get', -2), ('set', 1), ('set', -3)]
    n = 0
    for ops in itertools.product(basic, repeat=depth):
        run(ctx, maxlen, init, ops)
        n += 1
    ctx.evals(n)
    ctx.count('sequences', n)
    ctx.sig(maxlen, init, depth)


if __name__ == '__main__':
    sys.exit(chk.main())
