"""C15: parallel_map is map, under every schedule and fault."""

import gc
import os
import pickle
import signal
import threading
import time

import numpy as np

from vlib import Inconclusive, scenario

RULE = ('a case is one call of parallel_map judged on its result, on the '
        'events its function recorded, and on the process and descriptor '
        'tables afterwards')

TECHNIQUE = ('event log written by the mapped function in the workers, '
             'process and descriptor tables before and after, injected '
             'delays, exceptions, unpicklable results and worker deaths')


class Monitor(object):
    """Events cross process boundaries through one append-only pipe."""

    def __init__(self):
        import tempfile
        self.dir = tempfile.mkdtemp(prefix='c15-')
        self.path = os.path.join(self.dir, 'events')
        open(self.path, 'w').close()

    def event(self, what, i):
        fd = os.open(self.path, os.O_WRONLY | os.O_APPEND)
        os.write(fd, b'%s %d %d\n' % (what.encode(), i, os.getpid()))
        os.close(fd)

    def read(self):
        with open(self.path) as f:
            out = [ln.split() for ln in f]
        return [(w, int(i), int(p)) for w, i, p in out]

    def close(self):
        os.unlink(self.path)
        os.rmdir(self.dir)


def children():
    out = set()
    for t in os.listdir('/proc/self/task'):
        try:
            with open('/proc/self/task/%s/children' % t) as f:
                out |= {int(p) for p in f.read().split()}
        except OSError:
            pass
    return out


def descriptors():
    out = {}
    for d in os.listdir('/proc/self/fd'):
        try:
            out[int(d)] = os.readlink('/proc/self/fd/' + d)
        except OSError:
            pass
    return {k: v for k, v in out.items() if '/proc/' not in v}


def alive(pids):
    out = []
    for p in pids:
        try:
            with open('/proc/%d/stat' % p) as f:
                if f.read().rsplit(')', 1)[1].split()[0] not in 'ZX':
                    out.append(p)
        except OSError:
            pass
    return out


def settled(mon, before_children, before_fds):
    """What the call left behind: workers get a moment to be reaped by the
    kernel, nothing more."""
    pids = {p for _, _, p in mon.read()} - {os.getpid()}
    for _ in range(40):
        left = alive(pids) + list(children() - before_children)
        fds = {k: v for k, v in descriptors().items()
               if before_fds.get(k) != v}
        if not left and not fds:
            break
        time.sleep(.025)
    return left, fds


def pmap():
    import cgpm.utils.parallel_map as pm
    return pm.parallel_map


def judge(ctx, mon, call, want=None, failing=False, workers=None, desc=None):
    """Run `call` and judge everything observable about it."""
    ch, fds = children(), descriptors()
    t0 = time.time()
    err = result = None
    try:
        result = call()
    except Exception as e:
        err = e.with_traceback(None)
    except (KeyboardInterrupt, SystemExit) as e:
        err = e.with_traceback(None)
    wall = time.time() - t0
    ev = mon.read()
    # sentinels of dead workers go with their Process objects
    gc.collect()
    left, fd = settled(mon, ch, fds)
    ctx.true(not left, 'workers-left', 'processes %r outlive the call (%r)'
             % (left, desc), desc=desc)
    ctx.true(not fd, 'descriptors-left', 'descriptors %r outlive the call '
             '(%r)' % (fd, desc), desc=desc)
    starts = [i for w, i, _ in ev if w == 'start']
    ctx.true(len(set(starts)) == len(starts), 'evaluated-twice',
             'elements evaluated %r' % sorted(starts), desc=desc)
    pids = {p for _, _, p in ev}
    if workers is not None:
        ctx.true(len(pids) <= workers, 'too-many-workers',
                 '%d processes for parallelism %d' % (len(pids), workers))
    ctx.count('worker processes seen', len(pids))
    ctx.count('events', len(ev))
    ctx.notes.append([w + str(i) for w, i, _ in ev][:40])
    if failing:
        ctx.true(err is not None, 'failure-swallowed', 'a failing element '
                 'was answered with %r (%r)' % (str(result)[:200], desc),
                 desc=desc)
        ctx.count('failures raised')
    elif err is not None:
        ctx.fail('call-failed', '%r raised %s: %s' % (
            desc, type(err).__name__, str(err)[:800]), desc=desc)
    else:
        ctx.true(isinstance(result, list), 'result-type',
                 'returned a %s' % type(result).__name__, desc=desc)
        ctx.true(list(result) == want, 'result', 'returned %r, expected %r '
                 '(%r)' % (str(result)[:500], str(want)[:500], desc),
                 desc=desc)
        ctx.true(sorted(starts) == list(range(len(want))),
                 'not-evaluated-once', 'evaluated %r of %d' % (
                     sorted(starts), len(want)), desc=desc)
    finish = tuple(i for w, i, _ in ev if w == 'end')
    if finish != tuple(sorted(finish)):
        ctx.count('calls with workers finishing out of order')
    # a case is distinct by the interleaving it produced
    order = {}
    shape = [(w, i, order.setdefault(p, len(order))) for w, i, p in ev]
    ctx.case(dict(desc=desc, interleaving=shape, failed=err is not None),
             len(ev) > 0)
    return result, err, wall


def inject(rng, level):
    """Random delays at the system call boundary of the transfer protocol."""
    from multiprocessing.connection import Connection
    if not level:
        return lambda: None
    seed = int(rng.randint(2**31 - 1))
    write, send, recv = os.write, Connection.send, Connection.recv

    def nap(tag):
        r = np.random.RandomState(
            (seed + os.getpid() * 7919 + int(time.time() * 1e6)) % 2**31)
        if r.rand() < .4:
            time.sleep(r.exponential(level))

    def w(*a):
        nap('w')
        n = write(*a)
        nap('w')
        return n

    def s(self, *a):
        nap('s')
        return send(self, *a)

    def c(self, *a):
        nap('r')
        return recv(self, *a)
    os.write, Connection.send, Connection.recv = w, s, c

    def undo():
        os.write, Connection.send, Connection.recv = write, send, recv
    return undo


def sequence(rng, n):
    how = int(rng.randint(4))
    if how == 0:
        return [int(v) for v in rng.randint(0, 1000, n)]
    if how == 1:
        return tuple(int(v) for v in rng.randint(0, 1000, n))
    if how == 2:
        return range(n)
    return ['s%d' % v for v in rng.randint(0, 1000, n)]


@scenario(quick=48, thorough=400, timeout=120, hang=True)
def is_map(ctx):
    rng = ctx.rng
    f_map = pmap()
    for _ in range(4):
        n = int(rng.choice([0, 1, 2, 3, 5, 8, 13, 21]))
        par = int(rng.choice([1, 2, 3, 4, 7, 12]))
        level = float(rng.choice([0., .002, .01]))
        naps = rng.exponential(level, n) if level else np.zeros(n)
        size = int(rng.choice([0, 0, 10, 200000]))
        l = sequence(rng, n)
        tag = int(rng.randint(1000))
        index = {}
        mon = Monitor()
        undo = inject(rng, float(rng.choice([0., .003])))
        seq = Indexed(l)

        def f(x):
            i, v = x
            mon.event('start', i)
            time.sleep(naps[i])
            mon.event('end', i)
            return (tag, v, 'x' * size)
        try:
            judge(ctx, mon, lambda: f_map(f, seq, parallelism=par),
                  [(tag, v, 'x' * size) for v in l], workers=par,
                  desc='n=%d parallelism=%d size=%d' % (n, par, size))
        finally:
            undo()
            mon.close()


class Indexed(object):
    """A sequence that hands out (index, value)."""
    def __init__(self, l):
        self.l = list(l)

    def __len__(self):
        return len(self.l)

    def __getitem__(self, i):
        return i, self.l[i]


@scenario(quick=12, thorough=40, timeout=120, hang=True)
def plain_sequences(ctx):
    """Default parallelism; closures over the caller's data; the argument is
    not changed; repeated and nested calls."""
    rng = ctx.rng
    f_map = pmap()
    mon = Monitor()
    try:
        for n in (0, 1, 3, 40):
            l = sequence(rng, n)
            keep = list(l)
            fds, ch = descriptors(), children()
            got = f_map(lambda x: (x, n), l)
            ctx.true(got == [(x, n) for x in keep], 'result',
                     '%r, expected %r' % (got, [(x, n) for x in keep]))
            ctx.true(list(l) == keep, 'argument-changed', 'list changed')
            left, fd = settled(mon, ch, fds)
            ctx.true(not left and not fd, 'workers-left',
                     'left %r %r' % (left, fd))
            ctx.case('default n=%d %r' % (n, keep))
        fds, ch = descriptors(), children()
        got = f_map(lambda x: f_map(lambda y: x * y, [1, 2, 3],
                                    parallelism=2), [4, 5, 6],
                    parallelism=2)
        ctx.true(got == [[4, 8, 12], [5, 10, 15], [6, 12, 18]], 'result',
                 'nested %r' % got)
        for i in range(10):
            got = f_map(lambda x: x + i, [1, 2, 3], parallelism=3)
            ctx.true(got == [1 + i, 2 + i, 3 + i], 'result', '%r' % got)
        left, fd = settled(mon, ch, fds)
        ctx.true(not left and not fd, 'workers-left', 'left %r %r' % (
            left, fd))
        values = [None, 0, False, '', [], float('inf'), {1: 2}, (None,),
                  np.arange(3).tolist()]
        got = f_map(lambda x: x, values, parallelism=3)
        ctx.true(got == values, 'result', 'falsy values %r' % got)
        got = f_map(lambda x: ValueError(x), [1, 2], parallelism=2)
        ctx.true([str(e) for e in got] == ['1', '2'], 'result',
                 'returned exceptions %r' % got)
        ctx.case('nested, repeated, falsy')
    finally:
        mon.close()


class BadReduce(object):
    def __init__(self, exc):
        self.exc = exc

    def __reduce__(self):
        raise self.exc('no pickle')


def _explode():
    raise ValueError('no unpickle')


class BadLoad(object):
    def __reduce__(self):
        return (_explode, ())


class Odd(Exception):
    def __init__(self, a, b):
        Exception.__init__(self)
        self.lock = threading.Lock()


FAULTS = {
    'ValueError': lambda: (_ for _ in ()).throw(ValueError('boom')),
    'unpicklable exception': lambda: (_ for _ in ()).throw(Odd(1, 2)),
    'lambda': lambda: (lambda: 0),
    'lock': lambda: threading.Lock(),
    'generator': lambda: (x for x in ()),
    'PicklingError': lambda: BadReduce(pickle.PicklingError),
    'TypeError in reduce': lambda: BadReduce(TypeError),
    'ValueError in reduce': lambda: BadReduce(ValueError),
    'fails to load': lambda: BadLoad(),
    'exit': lambda: os._exit(0),
    'exit 3': lambda: os._exit(3),
    'SystemExit': lambda: (_ for _ in ()).throw(SystemExit(1)),
    'KeyboardInterrupt': lambda: (_ for _ in ()).throw(KeyboardInterrupt()),
    'SIGKILL': lambda: os.kill(os.getpid(), signal.SIGKILL),
    'SIGTERM': lambda: (os.kill(os.getpid(), signal.SIGTERM),
                        time.sleep(30)),
    'recursion': lambda: FAULTS['recursion'](),
}


@scenario(quick=64, thorough=480, timeout=90, hang=True)
def faults(ctx):
    rng = ctx.rng
    f_map = pmap()
    names = sorted(FAULTS)
    for k in range(2):
        name = names[(ctx.index * 2 + k) % len(names)]
        n = int(rng.choice([1, 2, 3, 6, 12]))
        par = int(rng.choice([1, 2, 4]))
        bad = {int(rng.randint(n))}
        if rng.rand() < .3:
            bad.add(int(rng.randint(n)))
        naps = rng.exponential(float(rng.choice([0., .005, .05])) + 1e-9, n)
        size = int(rng.choice([0, 100000]))
        mon = Monitor()
        undo = inject(rng, float(rng.choice([0., .003])))
        null = os.open(os.devnull, os.O_WRONLY)
        err = os.dup(2)

        def f(x):
            i, v = x
            mon.event('start', i)
            time.sleep(min(naps[i], .2))
            if i in bad:
                mon.event('fault', i)
                return FAULTS[name]()
            mon.event('end', i)
            return 'x' * size
        os.dup2(null, 2)
        try:
            _, e, wall = judge(
                ctx, mon, lambda: f_map(f, Indexed(range(n)),
                                        parallelism=par),
                failing=True, workers=par,
                desc='%s at %r of %d, parallelism %d' % (
                    name, sorted(bad), n, par))
            ctx.true(wall < 45, 'slow-failure', '%s took %.0fs' % (
                name, wall))
            ctx.true(isinstance(e, Exception) or e is None, 'wrong-raise',
                     '%s reached the caller as %r' % (name, e))
            if name == 'ValueError' and e is not None:
                ctx.true('boom' in str(e), 'failure-unexplained',
                         'the error does not say what failed: %r' % str(e))
            # the next call is not affected
            got = f_map(lambda x: x * 2, [1, 2, 3], parallelism=2)
            ctx.true(got == [2, 4, 6], 'result', 'after %s: %r' % (name, got))
        finally:
            os.dup2(err, 2)
            os.close(err)
            os.close(null)
            undo()
            mon.close()


@scenario(quick=16, thorough=100, timeout=90, hang=True, min_ok=0)
def killed_while_sending(ctx):
    """A worker killed after it announced a large result, before the result
    is through."""
    from multiprocessing.connection import Connection
    rng = ctx.rng
    f_map = pmap()
    mon = Monitor()
    main = os.getpid()
    send = Connection.send
    n, par = int(rng.randint(1, 6)), int(rng.randint(1, 4))
    bad = int(rng.randint(n))
    partial = rng.rand() < .6

    def s(self, obj):
        if os.getpid() != main and isinstance(obj, tuple) and \
                obj and obj[0] == bad:
            mon.event('fault', bad)
            if partial:
                # the header and part of the body only
                data = pickle.dumps(obj)
                os.write(self.fileno(),
                         len(data).to_bytes(4, 'big') + data[:1000])
            os.kill(os.getpid(), signal.SIGKILL)
        return send(self, obj)
    Connection.send = s
    try:
        def f(x):
            i, v = x
            mon.event('start', i)
            mon.event('end', i)
            return 'x' * 300000
        _, e, wall = judge(
            ctx, mon, lambda: f_map(f, Indexed(range(n)), parallelism=par),
            failing=True, workers=par, desc='killed in send at %d of %d '
            'parallelism %d partial=%s' % (bad, n, par, partial))
        if not any(w == 'fault' for w, _, _ in mon.read()):
            raise Inconclusive('the result did not pass through send')
    finally:
        Connection.send = send
        mon.close()


@scenario(quick=16, thorough=80, timeout=90, hang=True)
def interrupted(ctx):
    """The caller itself is interrupted at a random point of the call."""
    rng = ctx.rng
    f_map = pmap()
    mon = Monitor()
    exc = KeyboardInterrupt if rng.rand() < .6 else RuntimeError
    n, par = int(rng.randint(2, 8)), int(rng.randint(1, 5))
    at = int(rng.randint(n))
    main = os.getpid()
    fired = []

    def handler(signum, frame):
        if os.getpid() == main and not fired:
            fired.append(1)
            raise exc('interrupted')
    old = signal.signal(signal.SIGUSR1, handler)
    null = os.open(os.devnull, os.O_WRONLY)
    err = os.dup(2)
    os.dup2(null, 2)
    try:
        def f(x):
            i, v = x
            mon.event('start', i)
            if i == at:
                os.kill(main, signal.SIGUSR1)
                time.sleep(20)
            mon.event('end', i)
            return i
        _, e, wall = judge(
            ctx, mon, lambda: f_map(f, Indexed(range(n)), parallelism=par),
            failing=True, workers=par, desc='interrupted by %s at %d of %d '
            'parallelism %d' % (exc.__name__, at, n, par))
        ctx.true(isinstance(e, exc) or not fired, 'wrong-raise',
                 'interrupt became %r' % e)
    finally:
        signal.signal(signal.SIGUSR1, old)
        os.dup2(err, 2)
        os.close(err)
        os.close(null)
        mon.close()


@scenario(quick=6, thorough=24, timeout=180, hang=True)
def stress(ctx):
    """Many small tasks, many workers, results of every size."""
    rng = ctx.rng
    f_map = pmap()
    n = int(rng.randint(200, 600))
    par = int(rng.choice([2, 8, 24]))
    sizes = [int(v) for v in rng.choice([0, 100, 70000, 400000], n,
                                        p=[.6, .3, .08, .02])]
    mon = Monitor()
    undo = inject(rng, .0005)
    try:
        def f(x):
            i, v = x
            mon.event('start', i)
            mon.event('end', i)
            return i, 'x' * sizes[i]
        judge(ctx, mon, lambda: f_map(f, Indexed(range(n)), parallelism=par),
              [(i, 'x' * sizes[i]) for i in range(n)], workers=par,
              desc='stress n=%d parallelism=%d' % (n, par))
    finally:
        undo()
        mon.close()
