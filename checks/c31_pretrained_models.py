"""C31: pretrained models are downloaded once and never half installed."""
import http.server
import io
import json
import os
import signal
import socket
import sys
import time
import zipfile

import chainer

from vlib.harness import Check
from chainerrl.misc import pretrained_models as pm

chk = Check(
    'C31',
    'distinct (archive shape, client mix, fault kind, how far the killed '
    'client got) histories in which complete content, caching and the '
    'requests that reached the server were checked',
    ['the server is a local HTTP server; processes share one machine',
     'the archive on the server does not change during a history'])

os.environ['no_proxy'] = '*'
os.environ['NO_PROXY'] = '*'


def make_archive(rng, model_type, n_files, big):
    """Bytes of a zip file and its {relative path: content}."""
    files = {}
    for i in range(n_files):
        name = '{}/{}'.format(model_type, [
            'model.npz', 'target_model.npz', 'optimizer.npz', 'sub/x.npz',
            'sub/deep/y', 'z'][i])
        size = int(rng.randint(0, 200000 if big else 300))
        files[name] = rng.bytes(size)
    buf = io.BytesIO()
    with zipfile.ZipFile(buf, 'w', [zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED][
            rng.randint(2)]) as z:
        for k, v in files.items():
            z.writestr(k, v)
    return buf.getvalue(), files


class Server(object):
    """HTTP server in its own process; logs every request to a file."""

    def __init__(self, ctx, archives, plan=(), delay=0.):
        self.log = os.path.join(ctx.tmp, 'requests')
        open(self.log, 'w').close()
        log, plan = self.log, list(plan)
        sock = socket.socket()
        sock.bind(('127.0.0.1', 0))
        sock.listen(128)
        self.url = 'http://127.0.0.1:{}/m/'.format(sock.getsockname()[1])

        class Handler(http.server.BaseHTTPRequestHandler):

            def do_GET(self):
                with open(log, 'a') as f:
                    f.write(self.path + '\n')
                what = plan.pop(0) if plan else 'ok'
                parts = [p for p in self.path.split('/') if p]
                body = archives.get(tuple(parts[1:])) \
                    if parts[0] == 'm' else None
                if body is None or what == '404':
                    self.send_error(404)
                    return
                if what == '500':
                    self.send_error(500)
                    return
                n = len(body)
                if what == 'truncate':
                    body = body[:n // 2]
                elif what == 'garbage':
                    body = b'\0' * n
                elif what == 'bitflip':
                    body = bytearray(body)
                    body[n // 3] ^= 255
                    body = bytes(body)
                self.send_response(200)
                self.send_header('Content-Length', str(n))
                self.end_headers()
                time.sleep(delay)
                self.wfile.write(body[:n // 2])
                time.sleep(delay)
                self.wfile.write(body[n // 2:])

            def log_message(self, *a):
                pass

        self.pid = os.fork()
        if self.pid == 0:
            try:
                srv = http.server.ThreadingHTTPServer(
                    ('127.0.0.1', 0), Handler, bind_and_activate=False)
                srv.socket.close()
                srv.socket = sock
                srv.serve_forever()
            finally:
                os._exit(0)
        sock.close()

    def requests(self):
        with open(self.log) as f:
            return f.read().split()

    def stop(self):
        if self.pid is not None:
            os.kill(self.pid, signal.SIGKILL)
            os.waitpid(self.pid, 0)
            self.pid = None


def setup(ctx, url):
    root = os.path.join(ctx.tmp, 'data')
    chainer.dataset.set_dataset_root(root)
    pm.download_url = url
    return root


def content(path):
    """{relative path: bytes} below a returned model path."""
    out = {}
    base = os.path.dirname(path)
    for d, _, fs in os.walk(path):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, 'rb') as h:
                out[os.path.relpath(p, base)] = h.read()
    return out


def client(ctx, name, calls, go=None, kill_at=None, raise_at=None):
    """Fork a client; returns its pid.  Result is written to ctx.tmp/name."""
    pid = os.fork()
    if pid:
        return pid
    code = 1
    try:
        sys.stdout = open(os.devnull, 'w')
        res = []
        while go is not None and not os.path.exists(go):
            time.sleep(0.001)
        progress = [0]

        def note(what):
            with open(os.path.join(ctx.tmp, name + '.progress'), 'w') as f:
                f.write('{} {}'.format(progress[0], what))

        def prof(frame, event, arg):
            progress[0] += 1
            here = frame.f_code.co_filename
            if kill_at is not None and progress[0] == kill_at:
                sys.setprofile(None)
                note(frame.f_code.co_name)
                os.kill(os.getpid(), signal.SIGKILL)
            if raise_at is not None and progress[0] >= raise_at and (
                    here.endswith('pretrained_models.py') or
                    here.endswith('zipfile.py') or 'urllib' in here or
                    here.endswith('shutil.py')) and \
                    event in ('call', 'c_call'):
                sys.setprofile(None)
                note(frame.f_code.co_name)
                raise KeyboardInterrupt
        for alg, env, mt in calls:
            if kill_at is not None or raise_at is not None:
                sys.setprofile(prof)
            try:
                args = (alg, env) if mt is None else (alg, env, mt)
                path, cached = pm.download_model(*args)
                sys.setprofile(None)
                c = content(path)
                res.append(['ok', path, cached, dict(
                    (k, __import__('hashlib').md5(v).hexdigest())
                    for k, v in c.items())])
            except BaseException as e:
                sys.setprofile(None)
                res.append(['error', type(e).__name__, str(e)[:300]])
        note('end')
        with open(os.path.join(ctx.tmp, name), 'w') as f:
            json.dump(res, f)
        code = 0
    finally:
        os._exit(code)


def result(ctx, name):
    with open(os.path.join(ctx.tmp, name)) as f:
        return json.load(f)


def digests(files):
    import hashlib
    return dict((k, hashlib.md5(v).hexdigest()) for k, v in files.items())


ALGS = [a for a in sorted(pm.MODELS)]


def draw_models(rng, n):
    """{(alg, game, type): (bytes, files)} and requests naming them."""
    out = {}
    shape = []
    for _ in range(n):
        alg = ALGS[rng.randint(len(ALGS))]
        types = pm.MODELS[alg]
        mt = types[rng.randint(len(types))]
        game = ['Pong', 'Breakout', 'Hopper-v2', 'Walker2d-v2'][rng.randint(4)]
        nf = int(rng.randint(1, 7))
        big = bool(rng.rand() < .3)
        if (alg, game, mt) not in out:
            out[(alg, game, mt)] = make_archive(rng, mt, nf, big)
            shape.append((nf, big))
    return out, shape


def served(models):
    return dict(((a, g, t + '.zip'), v[0]) for (a, g, t), v in models.items())


def spell(rng, game):
    if '-v' in game:
        return game
    return game + ['', 'NoFrameskip-v4'][rng.randint(2)]


def judge(ctx, res, models, key, where):
    """One successful result must be the complete model asked for."""
    kind, path, cached, got = res
    want = digests(models[key][1])
    ctx.check(got == want, 'incomplete-model', lambda: '{}: {} was returned '
              'with cached={} but holds {} instead of {}'.format(
                  where, key, cached, sorted(got), sorted(want)))
    ctx.check(path.startswith(os.path.join(ctx.tmp, 'data') + os.sep) and
              os.path.isdir(path), 'path', path)


@chk.scenario(quick=40, thorough=500, cpu=300)
def concurrent_clients(ctx):
    """Processes ask for overlapping models at the same time."""
    rng = ctx.rng
    models, shape = draw_models(rng, int(rng.randint(1, 4)))
    srv = Server(ctx, served(models),
                 delay=float(rng.choice([0., .005, .05])))
    try:
        setup(ctx, srv.url)
        keys = sorted(models)
        n = int(rng.randint(2, 7))
        calls = []
        for i in range(n):
            calls.append([keys[rng.randint(len(keys))]
                          for _ in range(int(rng.randint(1, 5)))])
        go = os.path.join(ctx.tmp, 'go')
        pids = []
        for i in range(n):
            pids.append(client(ctx, 'c{}'.format(i), [
                (a, spell(rng, g),
                 None if t == 'best' and rng.randint(2) else t)
                for a, g, t in calls[i]], go=go))
        open(go, 'w').close()
        codes = [os.waitpid(p, 0)[1] for p in pids]
        ctx.require(codes == [0] * n, 'crashed', str(codes))
        fresh = {}
        total = 0
        for i in range(n):
            for key, res in zip(calls[i], result(ctx, 'c{}'.format(i))):
                total += 1
                if not ctx.check(res[0] == 'ok', 'client-error',
                                 lambda: '{}: {}'.format(key, res)):
                    continue
                judge(ctx, res, models, key, 'concurrent client')
                ctx.check(isinstance(res[2], bool), 'cached-type', str(res[2]))
                fresh[key] = fresh.get(key, 0) + (not res[2])
        asked = set(k for c in calls for k in c)
        reqs = srv.requests()
        for key in asked:
            ctx.check(fresh.get(key) == 1, 'cached-flag', lambda:
                      '{} calls for {} said that it was not cached'.format(
                          fresh.get(key), key))
            url = '/m/{}/{}/{}.zip'.format(*key)
            ctx.check(reqs.count(url) == 1, 'requests', lambda:
                      '{} was requested {} times'.format(
                          url, reqs.count(url)))
        ctx.check(len(reqs) == len(asked), 'requests',
                  lambda: 'requests {} for {}'.format(reqs, sorted(asked)))
        # Cached models need no server and are left as they are
        srv.stop()
        key = sorted(asked)[rng.randint(len(asked))]
        edited = None
        for k in sorted(asked):
            p = os.path.join([r[1] for c, i in zip(calls, range(n))
                              for kk, r in zip(c, result(
                                  ctx, 'c{}'.format(i))) if kk == k][0])
            if k == key:
                # own changes of a user survive
                f = os.path.join(os.path.dirname(p),
                                 sorted(models[k][1])[0])
                edited = rng.bytes(20)
                with open(f, 'wb') as h:
                    h.write(edited)
        pid = client(ctx, 'late', [(a, spell(rng, g), t)
                                   for a, g, t in sorted(asked)])
        ctx.require(os.waitpid(pid, 0)[1] == 0, 'crashed', 'late client')
        for k, res in zip(sorted(asked), result(ctx, 'late')):
            if not ctx.check(res[0] == 'ok' and res[2] is True,
                             'cached-needs-server',
                             lambda: '{}: {}'.format(k, res[:3])):
                continue
            m = dict(models[k][1])
            if k == key:
                m[sorted(m)[0]] = edited
            ctx.check(res[3] == digests(m), 'cached-content', lambda:
                      'content of the cached model {} changed'.format(k))
        ctx.count('calls', total)
        ctx.count('requests', len(reqs))
        ctx.sig(tuple(shape), n, len(asked))
        ctx.sample({'models': sorted(models), 'clients': calls,
                    'requests': reqs})
    finally:
        srv.stop()


@chk.scenario(quick=110, thorough=2500, cpu=300)
def interrupted_clients(ctx):
    """A client is killed or interrupted anywhere; later ones get it all."""
    rng = ctx.rng
    models, shape = draw_models(rng, int(rng.randint(1, 3)))
    srv = Server(ctx, served(models), delay=0.)
    try:
        setup(ctx, srv.url)
        keys = sorted(models)
        key = keys[rng.randint(len(keys))]
        a, g, t = key
        # Length of an uninterrupted run, seen from a dry run elsewhere
        real = ctx.tmp
        chainer.dataset.set_dataset_root(os.path.join(real, 'dry'))
        pid = client(ctx, 'dry_result', [(a, g, t)], kill_at=10 ** 9)
        ctx.require(os.waitpid(pid, 0)[1] == 0, 'crashed', 'dry run')
        length = int(open(os.path.join(
            real, 'dry_result.progress')).read().split()[0])
        chainer.dataset.set_dataset_root(os.path.join(real, 'data'))
        rounds = int(rng.randint(1, 4))
        how = []
        for i in range(rounds):
            kind = ['kill', 'raise'][rng.randint(2)]
            # mostly late: installation comes after the download
            if rng.rand() < .6:
                at = int(length - rng.randint(0, max(2, length // 3)))
            else:
                at = int(rng.randint(1, length + 1))
            name = 'victim{}'.format(i)
            pid = client(ctx, name, [(a, spell(rng, g), t)],
                         kill_at=at if kind == 'kill' else None,
                         raise_at=at if kind == 'raise' else None)
            st = os.waitpid(pid, 0)[1]
            where = open(os.path.join(
                real, name + '.progress')).read().split()[-1]
            how.append((kind, where))
            if st == 0:
                res = result(ctx, name)[0]
                if res[0] == 'ok':
                    judge(ctx, res, models, key, 'survivor')
                    ctx.count('survived')
                else:
                    ctx.check(res[1] == 'KeyboardInterrupt', 'client-error',
                              lambda: 'after {}: {}'.format(how, res))
                    ctx.count('raised')
            else:
                ctx.check(st == signal.SIGKILL, 'crashed', str(st))
                ctx.count('killed')
        n = int(rng.randint(1, 4))
        pids = [client(ctx, 'c{}'.format(i), [(a, spell(rng, g), t)])
                for i in range(n)]
        codes = [os.waitpid(p, 0)[1] for p in pids]
        ctx.require(codes == [0] * n, 'crashed', str(codes))
        fresh = 0
        for i in range(n):
            res = result(ctx, 'c{}'.format(i))[0]
            if ctx.check(res[0] == 'ok', 'stuck-after-interrupt', lambda:
                         'after {}: {}'.format(how, res)):
                judge(ctx, res, models, key, 'after {}'.format(how))
                fresh += not res[2]
        ctx.check(fresh <= 1, 'cached-flag', 'installed more than once')
        ctx.sig(tuple(shape), tuple(how), n)
        ctx.sample({'model': key, 'faults': how, 'events': length})
    finally:
        srv.stop()


@chk.scenario(quick=50, thorough=800, cpu=300)
def failing_downloads(ctx):
    """A failed download is reported and never taken for a model."""
    rng = ctx.rng
    models, shape = draw_models(rng, 1)
    key = sorted(models)[0]
    a, g, t = key
    kinds = ['404', '500', 'truncate']
    plan = [kinds[rng.randint(3)] for _ in range(int(rng.randint(1, 4)))]
    last = None
    if rng.randint(2):
        last = ['garbage', 'bitflip'][rng.randint(2)]
        plan.append(last)
    body = models[key][0]
    srv = Server(ctx, served(models), plan=plan)
    try:
        setup(ctx, srv.url)
        calls = len(plan) + 2
        pid = client(ctx, 'c', [(a, spell(rng, g), t)] * calls)
        ctx.require(os.waitpid(pid, 0)[1] == 0, 'crashed')
        ok = 0
        outcomes = []
        for i, res in enumerate(result(ctx, 'c')):
            outcomes.append(res[0])
            if res[0] == 'ok':
                # 'bitflip' may hit a byte which does not matter
                judge(ctx, res, models, key, 'call {} under {}'.format(
                    i, plan))
                ctx.check(i >= len(plan) - (last == 'bitflip'),
                          'failure-unreported',
                          lambda: 'call {} under {} returned {}'.format(
                              i, plan, res[:3]))
                ok += 1
        reqs = srv.requests()
        if last is None:
            ctx.check(outcomes == ['error'] * len(plan) + ['ok'] * 2,
                      'retry', lambda: '{} gave {}'.format(plan, outcomes))
            ctx.check(len(reqs) == len(plan) + 1, 'requests', str(reqs))
            res = result(ctx, 'c')
            ctx.check(res[-2][0] == 'ok' and res[-2][2] is False and
                      res[-1][2] is True, 'cached-flag',
                      lambda: str(outcomes))
        # only what was downloaded completely stays behind
        cache = os.path.join(ctx.tmp, 'data', '_dl_cache')
        left = [os.path.join(d, f) for d, _, fs in os.walk(cache) for f in fs
                if not f.endswith('lock')]
        for p in left:
            with open(p, 'rb') as f:
                ctx.check(last is not None or f.read() == body,
                          'cached-fragment', lambda: 'the fragment {} of a '
                          'failed download stays in the cache'.format(p))
        ctx.count('failed_calls', outcomes.count('error'))
        ctx.sig(tuple(shape), tuple(plan), len(body))
    finally:
        srv.stop()


@chk.scenario(quick=12, thorough=60, cpu=300)
def unknown_models(ctx):
    """Unknown algorithms and types are refused without any request."""
    rng = ctx.rng
    srv = Server(ctx, {})
    try:
        root = setup(ctx, srv.url)
        for alg in ['XYZ', 'dqn', '', 'A2C', 'Rainbow2']:
            ctx.raises(AssertionError, lambda: pm.download_model(
                alg, 'Pong', 'best'), 'unknown-alg', alg)
        for alg in sorted(pm.MODELS):
            for t in ['best', 'final', 'worst', '']:
                if t in pm.MODELS[alg]:
                    continue
                ctx.raises(AssertionError, lambda: pm.download_model(
                    alg, 'Pong', t), 'unknown-type', alg + ' ' + t)
            if 'best' not in pm.MODELS[alg]:
                ctx.raises(AssertionError, lambda: pm.download_model(
                    alg, 'Pong'), 'default-type', alg)
        ctx.check(srv.requests() == [], 'requests',
                  lambda: str(srv.requests()))
        ctx.check(not os.path.exists(root) or not [
            f for _, _, fs in os.walk(root) for f in fs], 'left-files',
            'refused requests left files')
        ctx.sig(int(rng.randint(4)))
    finally:
        srv.stop()


@chk.scenario(quick=20, thorough=200, cpu=300)
def plain_downloads(ctx):
    """cached_download keeps exactly one complete copy of every URL."""
    rng = ctx.rng
    bodies = dict((('f', 'x{}'.format(i)), rng.bytes(int(rng.randint(
        0, 50000)))) for i in range(int(rng.randint(1, 4))))
    plan = [['ok', '404', 'truncate'][rng.randint(3)]
            for _ in range(int(rng.randint(0, 6)))]
    srv = Server(ctx, bodies, plan=plan)
    try:
        root = setup(ctx, srv.url)
        keys = sorted(bodies)
        have, nreq = {}, 0
        todo = list(plan)
        null = open(os.devnull, 'w')
        for _ in range(int(rng.randint(3, 15))):
            k = keys[rng.randint(len(keys))]
            out, sys.stdout = sys.stdout, null
            try:
                path = pm.cached_download(srv.url + '/'.join(k))
                err = None
            except (OSError, ValueError) as e:
                path, err = None, e
            finally:
                sys.stdout = out
            if k in have:
                ctx.check(path == have[k], 'cache-missed', lambda:
                          '{} {}'.format(path, err))
            else:
                nreq += 1
                what = todo.pop(0) if todo else 'ok'
                if what == 'truncate' and len(bodies[k]) == 0:
                    what = 'ok'
                ctx.check((err is None) == (what == 'ok'),
                          'failure-unreported', lambda: '{}: {} {}'.format(
                              what, path, err))
                if err is None:
                    have[k] = path
            if path is not None:
                with open(path, 'rb') as f:
                    ctx.check(f.read() == bodies[k], 'download-content',
                              str(k))
            ctx.check(len(srv.requests()) == nreq, 'requests',
                      lambda: '{} requests instead of {}'.format(
                          len(srv.requests()), nreq))
        ctx.check(len(set(have.values())) == len(have), 'cache-shared',
                  'two URLs share one file')
        left = sum(len(fs) for d, _, fs in os.walk(root)) - len(
            [1 for d, _, fs in os.walk(root) for f in fs
             if f.endswith('lock')])
        ctx.check(left == len(have), 'cached-fragment',
                  lambda: '{} files for {} downloads'.format(left, len(have)))
        ctx.sig(tuple(plan), len(have))
    finally:
        srv.stop()


if __name__ == '__main__':
    raise SystemExit(chk.main())
