"""Common harness of all the checks.

A check is a module in /verif/checks that creates a ``Check`` and registers
*scenarios*: functions that drive the real chainerrl code under a generated
workload, with monitors (oracles) attached.  One call of a scenario with one
derived seed is one *case*.  The harness runs the cases in forked worker
processes, collects what the monitors observed, and turns it into a
three-valued verdict:

  exit 0  every monitor was reached and stayed silent
  exit 1  a monitor fired (VIOLATION line, replay file)
  exit 2  inconclusive: harness error, watchdog, or a monitor never reached
"""
import argparse
import hashlib
import importlib._bootstrap_external as _ext
import json
import multiprocessing as mp
import os
import pickle
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')

if REPO not in sys.path[:1]:
    sys.path.insert(0, REPO)

# Never execute a stale .pyc for the code under test.
_orig_get_code = _ext.SourceFileLoader.get_code


def _get_code(self, fullname):
    path = self.get_filename(fullname)
    if path.startswith(REPO + '/'):
        return compile(self.get_data(path), path, 'exec', dont_inherit=True)
    return _orig_get_code(self, fullname)


_ext.SourceFileLoader.get_code = _get_code

warnings.filterwarnings('ignore')


class CpuBudgetExceeded(BaseException):
    """A case used far more CPU time than it possibly needs."""


class StopCase(BaseException):
    """Raised by Ctx.fatal to end a case after a violation."""


class Skip(BaseException):
    """Raised by Ctx.skip: the drawn case is outside the property."""


def digest(obj):
    return hashlib.sha1(repr(obj).encode()).hexdigest()[:16]


def derive(seed, *parts):
    h = hashlib.sha256(repr((seed,) + parts).encode()).digest()
    return int.from_bytes(h[:4], 'little')


class Ctx(object):

    def __init__(self, check, scenario, idx, seed, tier):
        import numpy as np
        self.check_obj = check
        self.scenario = scenario
        self.idx = idx
        self.tier = tier
        self.case_seed = derive(seed, check.pid, scenario, idx)
        self.rng = np.random.RandomState(self.case_seed)
        np.random.seed(derive(self.case_seed, 'global'))
        random.seed(derive(self.case_seed, 'pyglobal'))
        self.counters = {}
        self.sigs = set()
        self.samples = []
        self.violations = []
        self.evaluations = 0
        self.notes = []
        self._tmp = None

    # -- observations
    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + int(n)

    def evals(self, n=1):
        self.evaluations += n

    def sig(self, *obj):
        """Declare a distinct non-trivial situation the monitors observed."""
        self.sigs.add(digest((self.scenario,) + obj))

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append({'scenario': self.scenario, 'case': self.idx,
                                 'what': str(obj)[:600]})

    # -- verdicts
    def fail(self, key, msg):
        if len(self.violations) < 50:
            self.violations.append((str(key), str(msg)[:3000]))

    def fatal(self, key, msg):
        self.fail(key, msg)
        raise StopCase()

    def check(self, cond, key, msg=''):
        self.count('oracle_decisions')
        if not cond:
            self.fail(key, msg() if callable(msg) else msg)
        return bool(cond)

    def require(self, cond, key, msg=''):
        if not self.check(cond, key, msg):
            raise StopCase()

    def close(self, a, b, key, msg='', rtol=1e-4, atol=1e-5):
        """a (implementation) must be numerically equal to b (reference)."""
        import numpy as np
        self.count('oracle_decisions')
        a = np.asarray(a, dtype=np.float64)
        b = np.asarray(b, dtype=np.float64)
        ok = a.shape == b.shape and bool(
            np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))
        if not ok:
            self.fail(key, '{} implementation={} reference={}'.format(
                msg() if callable(msg) else msg, _short(a), _short(b)))
        return ok

    def skip(self):
        raise Skip()

    def raises(self, exc, f, key, msg=''):
        self.count('oracle_decisions')
        try:
            f()
        except exc:
            return True
        self.fail(key, msg)
        return False

    @property
    def tmp(self):
        """Scratch directory of this case, removed afterwards."""
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix='verif_{}_'.format(
                self.check_obj.pid))
        return self._tmp


def _short(a):
    s = repr(a.tolist()) if a.size <= 40 else repr(
        a.ravel()[:40].tolist()) + '...'
    return '{} shape={}'.format(s[:700], a.shape)


class Scenario(object):
    def __init__(self, name, fn, quick, thorough, cpu, required, parallel):
        self.name = name
        self.fn = fn
        self.n = {'quick': quick, 'thorough': thorough}
        self.cpu = cpu
        self.required = required
        self.parallel = parallel


class Check(object):

    def __init__(self, pid, rule, assumptions=(), level='exploration'):
        self.pid = pid
        self.rule = rule
        self.assumptions = list(assumptions)
        self.level = level
        self.scenarios = []

    def scenario(self, quick, thorough=None, name=None, cpu=120,
                 required=True, parallel=8):
        """Register a scenario.

        quick/thorough: number of cases. cpu: user CPU seconds after which one
        case counts as not terminating (choose >= 100x the normal cost).
        parallel: cases of this scenario may run beside others.
        """
        def deco(fn):
            self.scenarios.append(Scenario(
                name or fn.__name__, fn, quick,
                thorough if thorough is not None else quick * 10,
                cpu, required, parallel))
            return fn
        return deco

    # ------------------------------------------------------------------
    def run_case(self, sc, idx, seed, tier):
        ctx = Ctx(self, sc.name, idx, seed, tier)
        status = 'ok'

        def on_cpu(signum, frame):
            raise CpuBudgetExceeded()

        signal.signal(signal.SIGVTALRM, on_cpu)
        signal.setitimer(signal.ITIMER_VIRTUAL, sc.cpu)
        t0 = time.time()
        try:
            sc.fn(ctx)
        except StopCase:
            pass
        except Skip:
            status = 'skip'
        except CpuBudgetExceeded:
            tb = traceback.format_exc()
            ctx.fail('nontermination:' + sc.name,
                     'case used more than {} CPU seconds\n{}'.format(
                         sc.cpu, tb[-1500:]))
        except Exception as e:
            tb = traceback.format_exc()
            if not (REPO + '/chainerrl') in tb:
                status = 'harness-error'
                ctx.notes.append(tb)
            else:
                ctx.fail('exception:{}:{}:{}'.format(
                    sc.name, type(e).__name__, _where(e)),
                    'valid workload raised\n' + tb[-2500:])
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            if ctx._tmp is not None:
                shutil.rmtree(ctx._tmp, ignore_errors=True)
        return {
            'scenario': sc.name, 'idx': idx, 'status': status,
            'seed': ctx.case_seed,
            'counters': ctx.counters, 'sigs': ctx.sigs,
            'samples': ctx.samples, 'violations': ctx.violations,
            'evaluations': ctx.evaluations if ctx.evaluations else 1,
            'notes': ctx.notes, 'wall': time.time() - t0,
        }

    # ------------------------------------------------------------------
    def main(self):
        ap = argparse.ArgumentParser()
        ap.add_argument('--replay')
        ap.add_argument('--scenario')
        ap.add_argument('--case', type=int)
        ap.add_argument('--cases', type=int)
        ap.add_argument('--workers', type=int, default=None)
        ap.add_argument('--times', action='store_true')
        args = ap.parse_args()
        seed = int(os.environ.get('VERIF_SEED', '1'))
        tier = os.environ.get('VERIF_TIER', 'quick')
        if tier not in ('quick', 'thorough'):
            tier = 'quick'
        if args.replay:
            with open(args.replay) as f:
                rep = json.load(f)
            seed, tier = rep['verif_seed'], rep['tier']
            args.scenario, args.case = rep['scenario'], rep['case']
        t0 = time.time()
        tasks = []
        for sc in self.scenarios:
            if args.scenario and sc.name != args.scenario:
                continue
            n = args.cases if args.cases is not None else sc.n[tier]
            for i in range(n):
                if args.case is not None and i != args.case:
                    continue
                tasks.append((sc, i))
        if args.case is not None and not tasks and args.scenario:
            sc = [s for s in self.scenarios if s.name == args.scenario][0]
            tasks = [(sc, args.case)]
        partial = bool(args.scenario or args.case is not None or args.cases)
        results, problems = self._run(tasks, seed, tier, args.workers)
        return self._finish(results, problems, seed, tier, t0, partial,
                            args.times)

    def _run(self, tasks, seed, tier, workers):
        import numpy as np  # NOQA  (imported before forking)
        # heavy scenarios are spread out by a fixed shuffle
        order = list(range(len(tasks)))
        random.Random(12345).shuffle(order)
        nw = workers or int(os.environ.get('VERIF_WORKERS', '0')) \
            or min(8, os.cpu_count() or 1)
        nw = max(1, min(nw, len(tasks)))
        outdir = tempfile.mkdtemp(prefix='verif_run_')
        counter = mp.Value('l', 0)
        current = mp.Array('l', [-1] * nw)
        limit = 780 if tier == 'quick' else \
            int(os.environ.get('VERIF_WALL', '3000'))

        def worker(w):
            os.setsid()
            out = []

            def dump():
                tmp = os.path.join(outdir, 'w{}.tmp'.format(w))
                with open(tmp, 'wb') as f:
                    pickle.dump(out, f)
                os.rename(tmp, os.path.join(outdir, 'w{}.pkl'.format(w)))
            last = time.time()
            while True:
                with counter.get_lock():
                    i = counter.value
                    counter.value += 1
                if i >= len(order):
                    break
                current[w] = order[i]
                sc, idx = tasks[order[i]]
                out.append(self.run_case(sc, idx, seed, tier))
                if time.time() - last > 5 or out[-1]['violations']:
                    dump()
                    last = time.time()
            current[w] = -1
            dump()

        sys.stdout.flush()
        sys.stderr.flush()
        procs = []
        for w in range(nw):
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    if not os.environ.get('VERIF_DEBUG'):
                        fd = os.open(os.path.join(
                            outdir, 'w{}.log'.format(w)),
                            os.O_WRONLY | os.O_CREAT)
                        os.dup2(fd, 1)
                        os.dup2(fd, 2)
                    worker(w)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(code)
            procs.append(pid)
        problems = []
        extra = []
        alive = dict((p, w) for w, p in enumerate(procs))
        quiet = {}
        t0 = time.time()
        while alive:
            time.sleep(0.05 if time.time() - t0 < 20 else 0.3)
            for pid in list(alive):
                w = alive[pid]
                r, st = os.waitpid(pid, os.WNOHANG)
                if r:
                    del alive[pid]
                    if st != 0:
                        t = tasks[current[w]] if current[w] >= 0 else None
                        log = ''
                        try:
                            with open(os.path.join(
                                    outdir, 'w{}.log'.format(w)),
                                    errors='replace') as f:
                                log = f.read()[-1500:]
                        except OSError:
                            pass
                        problems.append('worker died with status {} in {} {}'
                                        .format(st, t and (t[0].name, t[1]),
                                                log))
                    continue
                # blocked forever?  every process of the worker's tree sleeps
                # and none of them has used any CPU for 60 seconds
                act = _activity(pid)
                now = time.time()
                old = quiet.get(pid)
                if old is None or old[0] != act or act[0]:
                    quiet[pid] = (act, now)
                elif now - old[1] > 60 and current[w] >= 0:
                    sc, idx = tasks[current[w]]
                    extra.append({
                        'scenario': sc.name, 'idx': idx, 'status': 'ok',
                        'seed': derive(seed, self.pid, sc.name, idx),
                        'counters': {}, 'sigs': set(), 'samples': [],
                        'violations': [(
                            'deadlock:' + sc.name,
                            'every process of the case has been blocked, '
                            'without using any CPU, for 60 s')],
                        'evaluations': 1, 'notes': [], 'wall': 60.})
                    _killtree(pid)
                    os.waitpid(pid, 0)
                    del alive[pid]
            if time.time() - t0 > limit and alive:
                for pid in list(alive):
                    w = alive[pid]
                    c = current[w]
                    problems.append('watchdog: wall limit {} s, running {}'
                                    .format(limit, c >= 0 and (
                                        tasks[c][0].name, tasks[c][1])))
                    _killtree(pid)
                    os.waitpid(pid, 0)
                    del alive[pid]
        for pid in procs:
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass
        results = []
        for w in range(nw):
            p = os.path.join(outdir, 'w{}.pkl'.format(w))
            if os.path.exists(p):
                with open(p, 'rb') as f:
                    results.extend(pickle.load(f))
        results.extend(extra)
        shutil.rmtree(outdir, ignore_errors=True)
        results.sort(key=lambda r: (r['scenario'], r['idx']))
        return results, problems

    def _finish(self, results, problems, seed, tier, t0, partial, times):
        counters, sigs, samples = {}, set(), []
        per, violations, notes = {}, [], []
        evaluations = skipped = 0
        for r in results:
            p = per.setdefault(r['scenario'], {
                'cases': 0, 'distinct': set(), 'decisions': 0, 'wall': 0.,
                'maxwall': 0.})
            if r['status'] == 'skip':
                skipped += 1
                continue
            p['cases'] += 1
            p['wall'] += r['wall']
            p['maxwall'] = max(p['maxwall'], r['wall'])
            p['decisions'] += r['counters'].get('oracle_decisions', 0)
            p['distinct'] |= r['sigs']
            evaluations += r['evaluations']
            for k, v in r['counters'].items():
                counters[k] = counters.get(k, 0) + v
            sigs |= r['sigs']
            if len([s for s in samples
                    if s['scenario'] == r['scenario']]) < 1:
                samples.extend(r['samples'][:1])
            for key, msg in r['violations']:
                violations.append((key, msg, r))
            if r['status'] == 'harness-error':
                notes.extend(r['notes'])
        if times:
            for k, p in sorted(per.items()):
                print('{:45s} cases={} distinct={} decisions={} cpuwall={:.1f}'
                      ' max={:.2f}'.format(
                          k, p['cases'], len(p['distinct']), p['decisions'],
                          p['wall'], p['maxwall']))
        known = _known(self.pid)
        seen_known, fresh = {}, {}
        for key, msg, r in violations:
            k = [e for e in known if key == e['key']]
            if k:
                seen_known.setdefault(key, (k[0], msg, r))
            else:
                fresh.setdefault(key, []).append((msg, r))
        for e in known:
            print('KNOWN-FINDING: property={} {}{}'.format(
                self.pid, e['what'],
                '' if e['key'] in seen_known else ' (not hit in this run)'))
        nviol = sum(len(v) for v in fresh.values())
        evidence = {
            'property': self.pid, 'tier': tier, 'seed': seed,
            'level': self.level,
            'coverage': {
                'evaluations': evaluations,
                'distinct_nontrivial': len(sigs),
                'rule': self.rule,
                'samples': samples[:12],
                'monitor_counters': counters,
                'skipped_cases': skipped,
                'per_scenario': {
                    k: {'cases': p['cases'],
                        'distinct_nontrivial': len(p['distinct']),
                        'oracle_decisions': p['decisions']}
                    for k, p in sorted(per.items())},
            },
            'assumptions': self.assumptions,
            'wall_s': round(time.time() - t0, 2),
            'violations': nviol,
        }
        if not partial:
            os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
            tmp = os.path.join(VERIF, 'evidence', '.{}.tmp'.format(self.pid))
            with open(tmp, 'w') as f:
                json.dump(evidence, f, indent=1, sort_keys=True)
            os.rename(tmp, os.path.join(
                VERIF, 'evidence', '{}.json'.format(self.pid)))
        if fresh:
            rdir = os.path.join(VERIF, 'replays')
            os.makedirs(rdir, exist_ok=True)
            for key, vs in list(sorted(fresh.items()))[:10]:
                msg, r = vs[0]
                path = os.path.join(rdir, '{}-{}.json'.format(
                    self.pid, digest(key)))
                with open(path, 'w') as f:
                    json.dump({
                        'property': self.pid, 'verif_seed': seed,
                        'tier': tier, 'scenario': r['scenario'],
                        'case': r['idx'], 'key': key, 'message': msg,
                        'occurrences': len(vs),
                        'replay': './run.sh {} --replay {}'.format(
                            self.pid, path)}, f, indent=1)
                print('VIOLATION property={} replay={}'.format(
                    self.pid, path))
                print('  key={} occurrences={} scenario={} case={}'.format(
                    key, len(vs), r['scenario'], r['idx']))
                print('  ' + msg.replace('\n', '\n  ')[:2500])
            return 1
        bad = list(problems)
        if notes:
            bad.append('harness error:\n' + notes[0])
        if not partial:
            for sc in self.scenarios:
                p = per.get(sc.name)
                if sc.n[tier] == 0 or not sc.required:
                    continue
                if p is None or not p['distinct'] or not p['decisions']:
                    bad.append('monitor never reached in scenario ' + sc.name)
        if bad:
            print('INCONCLUSIVE property={}'.format(self.pid))
            for b in bad[:5]:
                print('  ' + b[:3000])
            return 2
        print('HELD property={} tier={} seed={} cases={} distinct={} '
              'oracle_decisions={} wall={:.1f}s'.format(
                  self.pid, tier, seed, evaluations, len(sigs),
                  counters.get('oracle_decisions', 0), time.time() - t0))
        return 0


def _where(e):
    """Innermost frame inside chainerrl, by function name."""
    tb = e.__traceback__
    name = '?'
    while tb is not None:
        code = tb.tb_frame.f_code
        if code.co_filename.startswith(REPO + '/chainerrl'):
            name = os.path.basename(code.co_filename) + '.' + code.co_name
        tb = tb.tb_next
    return name


def _known(pid):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [e for e in data.get('findings', []) if e['property'] == pid]


def _tree(pid):
    out = [pid]
    try:
        for t in os.listdir('/proc/{}/task'.format(pid)):
            with open('/proc/{}/task/{}/children'.format(pid, t)) as f:
                for c in f.read().split():
                    out.extend(_tree(int(c)))
    except OSError:
        pass
    return out


def _activity(pid):
    busy = False
    cpu = 0
    ids = []
    for p in _tree(pid):
        try:
            with open('/proc/{}/stat'.format(p)) as f:
                s = f.read()
        except OSError:
            continue
        fields = s[s.rindex(')') + 2:].split()
        if fields[0] in 'RD':
            busy = True
        cpu += int(fields[11]) + int(fields[12])
        ids.append(p)
    return busy, cpu, tuple(ids)


def _killtree(pid):
    for p in _tree(pid)[::-1]:
        try:
            os.kill(p, signal.SIGKILL)
        except OSError:
            pass
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
