"""The simulated world a run of plycutter lives in.

boot()       loads plycutter through the seams, once per process
Steps        the step clock: every executed line of plycutter is one tick; the
             scheduler may inject an exception, fork or switch threads at a tick
SimRNG       the random generator seam
Threads      deterministic scheduling of several caller threads
"""
import io
import logging
import os
import random
import sys
import threading
import time

from . import seams

TOOL = 4
_booted = False
mods = None


class Mods:
    pass


def boot():
    """Import the code under test (through the seams)."""
    global _booted, mods
    if _booted:
        return mods
    import warnings
    warnings.filterwarnings('ignore')
    seams.install()
    root = logging.getLogger()
    had = list(root.handlers)
    root.addHandler(logging.NullHandler())     # makes basicConfig a no-op
    import numpy, trimesh, ezdxf, shapely, shapely.ops, gmpy2, pyrsistent  # noqa
    import networkx, rtree  # noqa
    import plycutter  # noqa
    from plycutter import (canned, command_line, create_sheetplex, heuristics,
                           sheetbuild, sheetplex, writer, plytypes)
    from plycutter.geometry import geom1d, geom2d, aabb
    from plycutter.geometry.impl2d import (geom2d_simple_holes, arrangement2d,
                                           cell_merger, scan2d, primitive2d,
                                           frangle2d)
    m = Mods()
    for k, v in list(locals().items()):
        if k not in ('m', 'warnings', 'root', 'had'):
            setattr(m, k, v)
    m.F = plytypes.F
    m.Geom1D = geom1d.Geom1D
    m.Geom2D = geom2d.Geom2D
    for f in seams.CODES:
        assert f.co_filename.startswith(seams.REPO), f.co_filename
    logging.disable(logging.CRITICAL)
    # warm lazily imported parts of the libraries, so that a run does no imports
    from . import models
    try:
        mesh = trimesh.load(io.BytesIO(models.stl_bytes(WARM)), file_type='stl')
        create_sheetplex.create_sheetplex(mesh, models.params_of(
            models.default_params(WARM)))
        ezdxf.new('AC1015').write(io.StringIO())
    except Exception:       # a broken tree is the checks' business
        pass
    import shutil, tempfile  # noqa
    mods = m
    _booted = True
    return m


WARM = {'kind': 'L', 't': 5,
        'boxes': [[[0, 0, 0], [30, 20, 5]], [[0, 0, 0], [5, 20, 30]]]}


class Steps:
    """The step clock over plycutter's own code.

    on_tick(n, code, line) is called when n reaches self.next (cheap otherwise).
    """

    def __init__(self, first=None, on_tick=None, on_new=None, skip=()):
        self.n = 0
        self.next = first if first is not None else 1 << 62
        self.on_tick = on_tick
        self.on_new = on_new          # called for the first tick of every line
        self.seen = set()
        self.running = False
        self.skip = skip              # file basenames that are not instrumented

    def codes(self):
        for co in seams.CODES:
            if os.path.basename(co.co_filename) not in self.skip:
                yield co

    def _line(self, code, line):
        n = self.n = self.n + 1
        if n >= self.next:
            self.on_tick(n, code, line)
        elif self.on_new is not None:
            k = id(code) * 4096 + line
            if k not in self.seen:
                self.seen.add(k)
                self.on_new(n, code, line)

    def __enter__(self):
        mon = sys.monitoring
        if mon.get_tool(TOOL) is None:
            mon.use_tool_id(TOOL, 'plysim')
        mon.register_callback(TOOL, mon.events.LINE, self._line)
        for co in self.codes():
            mon.set_local_events(TOOL, co, mon.events.LINE)
        self.running = True
        return self

    def stop(self):
        if self.running:
            mon = sys.monitoring
            for co in self.codes():
                mon.set_local_events(TOOL, co, 0)
            mon.register_callback(TOOL, mon.events.LINE, None)
            self.running = False

    def __exit__(self, *a):
        self.stop()


real_monotonic = time.monotonic


class NoProgress(BaseException):
    pass


class TickLimit:
    """Bounds a run by simulated steps: every tick beyond the limit raises."""

    def __init__(self, limit):
        self.limit = limit
        self.n = 0

    def _line(self, code, line):
        self.n += 1
        if self.n > self.limit:
            raise NoProgress()

    def __enter__(self):
        mon = sys.monitoring
        mon.use_tool_id(TOOL - 1, 'plysim-limit')
        mon.register_callback(TOOL - 1, mon.events.LINE, self._line)
        for co in seams.CODES:
            mon.set_local_events(TOOL - 1, co, mon.events.LINE)

    def __exit__(self, *a):
        mon = sys.monitoring
        mon.register_callback(TOOL - 1, mon.events.LINE, None)
        mon.free_tool_id(TOOL - 1)


def in_logging(depth=60):
    """True if the running code was called by the logging machinery (which
    swallows exceptions by design)."""
    f = sys._getframe(1)
    while f is not None and depth:
        if f.f_globals.get('__name__') == 'logging':
            return True
        f = f.f_back
        depth -= 1
    return False


class Forker:
    """Branches a running simulation: the child is a copy of the whole simulated
    process at this very point, continues with another decision, and reports."""

    def __init__(self, timeout=120):
        self.child = None        # label in a child
        self.fd = None
        self.results = []
        self.timeout = timeout
        self.failed = []

    def branch(self, label):
        import select
        import signal
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            self.child = label
            self.fd = w
            self.results = []
            return True
        os.close(w)
        data = b''
        end = real_monotonic() + self.timeout
        ok = True
        while True:
            left = end - real_monotonic()
            if left <= 0 or not select.select([r], [], [], left)[0]:
                os.kill(pid, signal.SIGKILL)
                ok = False
                break
            b = os.read(r, 1 << 16)
            if not b:
                break
            data += b
        os.close(r)
        _, status = os.waitpid(pid, 0)
        if not ok:
            self.failed.append((label, 'timeout'))
        else:
            self.results.append((label, data, status))
        return False

    def report(self, obj):
        """End of a child."""
        import json
        assert self.child is not None
        data = json.dumps(obj).encode()
        while data:
            data = data[os.write(self.fd, data):]
        os._exit(0)


def run_forked(fn, timeout=120):
    """fn() in a forked copy; returns (value, None) or (None, problem)."""
    import json
    f = Forker(timeout)
    if f.branch('x'):
        try:
            v = fn()
        except BaseException:
            import traceback
            f.report({'tb': traceback.format_exc()})
        f.report({'v': v})
    if f.failed:
        return None, 'timeout'
    _, data, status = f.results[0]
    if not data:
        return None, 'status %s' % status
    d = json.loads(data)
    if 'tb' in d:
        return None, d['tb']
    return d['v'], None


# ------------------------------------------------------------------ randomness


_RealRandomState = None


def _rng_class():
    import numpy as np
    global _RealRandomState
    if _RealRandomState is None:
        _RealRandomState = np.random.RandomState

    class SimRNG(_RealRandomState):
        """Delivers a stream chosen by the scheduler through the usual methods.

        Every value it returns is one the real generator could return."""

        def _setup(self, spec):
            self._r = random.Random('rng/%s' % (spec['seed'],))
            self._spec = spec
            self.draws = 0
            return self

        def _k(self, what):
            self.draws += 1
            if self.draws > self._spec.get('most', 1 << 62):
                raise NoProgress()
            k = self._spec.get(what, 'any')
            if k == 'mix':
                k = self._r.choice(['lo', 'hi', 'any', 'any'])
            return k

        def uniform(self, low=0.0, high=1.0, size=None):
            if size is not None:
                return np.array([self.uniform(low, high)
                                 for _ in range(int(np.prod(size)))]).reshape(size)
            low, high = float(low), float(high)
            k = self._k('uniform')
            u = 0.0 if k == 'lo' else 1 - 2.0 ** -53 if k == 'hi' \
                else self._r.random()
            return low + (high - low) * u

        def random_sample(self, size=None):
            return self.uniform(0.0, 1.0, size)

        random = random_sample

        def rand(self, *d):
            return self.uniform(0.0, 1.0, d or None)

        def randint(self, low, high=None, size=None, dtype=int):
            if high is None:
                low, high = 0, low
            if size is not None:
                return np.array([self.randint(low, high)
                                 for _ in range(int(np.prod(size)))]).reshape(size)
            low, high = int(low), int(high)
            if low >= high:
                raise ValueError('low >= high')
            k = self._k('randint')
            return low if k == 'lo' else high - 1 if k == 'hi' \
                else self._r.randrange(low, high)

        def random_integers(self, low, high=None, size=None):
            if high is None:
                low, high = 1, low
            return self.randint(low, high + 1, size)

        def shuffle(self, x):
            k = self._k('shuffle')
            n = len(x)
            if k == 'lo':
                return
            ix = list(range(n))
            if k == 'hi':
                ix.reverse()
            else:
                self._r.shuffle(ix)
            y = [x[i] for i in ix]
            for i in range(n):
                x[i] = y[i]

        def permutation(self, x):
            a = np.arange(x) if isinstance(x, (int, np.integer)) else np.array(x)
            self.shuffle(a)
            return a

        def choice(self, a, size=None, replace=True, p=None):
            arr = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)
            if size is not None or p is not None:
                return super().choice(a, size, replace, p)
            return arr[self.randint(0, len(arr))]

    return SimRNG


class RNGSeam:
    """np.random.RandomState and friends, as the code under test sees them."""

    def __init__(self, spec=None, on_create=None):
        self.spec = spec
        self.on_create = on_create
        self.created = []

    def __enter__(self):
        import numpy as np
        cls = _rng_class()
        self.real = np.random.RandomState

        def RandomState(seed=None, *a):
            if self.on_create is not None:
                self.on_create(seed)
            if self.spec is None:
                r = self.real(seed, *a)
            else:
                r = cls(0)._setup(self.spec)
            self.created.append(r)
            return r
        np.random.RandomState = RandomState
        return self

    def __exit__(self, *a):
        import numpy as np
        np.random.RandomState = self.real


# --------------------------------------------------------------------- threads


class Deadlock(Exception):
    pass


class Threads:
    """Runs jobs in real threads, one at a time; who runs is decided here, at the
    ticks of the step clock, by a seeded schedule."""

    def __init__(self, jobs, seed, period, window=None, skip=()):
        self.jobs = jobs
        self.r = random.Random('threads/%s' % (seed,))
        self.period = period
        self.window = window          # (lo, hi): only switches in it are made
        self.switches = []
        self.n_switch = 0
        self.sem = [threading.Semaphore(0) for _ in jobs]
        self.main = threading.Semaphore(0)
        self.live = []
        self.cur = None
        self.out = [None] * len(jobs)
        self.steps = Steps(on_tick=self._tick, skip=skip)
        self.dead = False

    def _gap(self):
        # geometric with a few immediate switches, to hit narrow windows
        if self.r.random() < 0.1:
            return self.r.randint(1, 3)
        return 1 + int(self.r.expovariate(1.0 / self.period))

    def _tick(self, n, code, line):
        self.steps.next = n + self._gap()
        others = [t for t in self.live if t != self.cur]
        pick = self.r.random()
        if not others:
            return
        self.n_switch += 1
        if self.window is not None and not (
                self.window[0] <= self.n_switch < self.window[1]):
            return
        if in_logging():
            return
        me = self.cur
        t = others[int(pick * len(others))]
        self.switches.append((n, t))
        self.cur = t
        self.sem[t].release()
        self._wait(me)

    def _wait(self, me):
        if not self.sem[me].acquire(timeout=100):
            self.dead = True
            raise Deadlock()

    def _body(self, i):
        self._wait(i)
        try:
            self.out[i] = ('ok', self.jobs[i]())
        except BaseException as e:
            self.out[i] = ('exc', e)
        finally:
            self.live.remove(i)
            if self.live:
                t = self.live[self.r.randrange(len(self.live))]
                self.cur = t
                self.sem[t].release()
            else:
                self.main.release()

    def run(self):
        ts = [threading.Thread(target=self._body, args=(i,), daemon=True)
              for i in range(len(self.jobs))]
        self.live = list(range(len(self.jobs)))
        self.steps.next = self._gap()
        with self.steps:
            for t in ts:
                t.start()
            self.cur = self.r.randrange(len(self.jobs))
            self.sem[self.cur].release()
            if not self.main.acquire(timeout=240):
                self.dead = True
                raise Deadlock()
        for t in ts:
            t.join(10)
        return self.out


# ----------------------------------------------------------------------- clock


class Clock:
    """Wall clock, monotonic clock, and the other ambient values of a process."""

    def __init__(self, seed):
        self.r = random.Random('clock/%s' % (seed,))
        self.t = self.r.choice([0.0, 1.0, 1e9, 1.6e9, 4e9]) + self.r.random() * 1e6
        self.reads = 0
        self.slept = 0.0              # simulated seconds

    def _now(self):
        self.reads += 1
        k = self.r.random()
        if k < 0.05:
            self.t -= self.r.random() * 3600          # the clock is set back
        elif k < 0.1:
            self.t += self.r.random() * 1e6           # or jumps
        else:
            self.t += self.r.random() * 1e-3
        self.t = max(self.t, 0.0)
        return self.t

    def __enter__(self):
        self.saved = {}
        mono = [0.0]

        def monotonic():
            self.reads += 1
            mono[0] += self.r.random() * 1e-2
            return mono[0]

        def sleep(seconds):
            if seconds < 0:
                raise ValueError('sleep length must be non-negative')
            self.slept += seconds
            mono[0] += seconds
            self.t += seconds
        rep = {'sleep': sleep, 'time': self._now, 'time_ns': lambda: int(self._now() * 1e9),
               'monotonic': monotonic, 'perf_counter': monotonic}
        for k, v in rep.items():
            self.saved[k] = getattr(time, k)
            setattr(time, k, v)
        self.getpid = os.getpid
        pid = self.r.randint(2, 4194304)
        os.getpid = lambda: pid
        self.urandom = os.urandom
        os.urandom = lambda n: bytes(self.r.getrandbits(8) for _ in range(n))
        return self

    def __exit__(self, *a):
        for k, v in self.saved.items():
            setattr(time, k, v)
        os.getpid = self.getpid
        os.urandom = self.urandom


class quiet:
    """Swallow what plycutter prints."""

    def __enter__(self):
        self.o = sys.stdout
        sys.stdout = io.StringIO()

    def __exit__(self, *a):
        sys.stdout = self.o
