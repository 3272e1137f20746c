"""Runs many simulated executions of one check, in parallel forked worlds,
minimises and replays failures, writes evidence."""
import hashlib
import json
import os
import random
import select
import signal
import subprocess
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, 'known_findings.json')
MAX_TICKS = 150_000_000


class Check:
    """One property.  A case is a JSON value that determines a run completely."""
    id = None
    level = 'exploration'
    rule = ''
    real = []            # components that ran real code
    stubs = []           # components simulated
    assumptions = []
    quick = 64           # number of cases
    thorough = 1000
    case_timeout = 240
    soft_deadline = {'quick': 400, 'thorough': 3600}

    def gen(self, r, i, tier):
        raise NotImplementedError

    def run(self, case, st):
        """Returns a list of violations: dicts with 'what' and 'case' (a case that
        reproduces just this violation)."""
        raise NotImplementedError

    def shrink(self, case):
        return iter(())

    def sig(self, violation):
        return violation.get('sig') or violation['what']


class Stats:
    def __init__(self):
        self.counts = {}
        self.distinct = set()
        self.samples = []
        self.crc = hashlib.sha1()

    def add(self, key, n=1):
        self.counts[key] = self.counts.get(key, 0) + n

    def fault(self, kind, n=1):
        self.add('fault:' + kind, n)

    def probe(self, kind, n=1):
        self.add('probe:' + kind, n)

    def reach(self, *key):
        """A distinct, non-trivial execution, by the check's measure."""
        self.distinct.add(hashlib.sha1(repr(key).encode()).hexdigest()[:16])

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    def log(self, *what):
        """The event log of a run, for the determinism proof."""
        self.crc.update(repr(what).encode())

    def dump(self):
        return {'counts': self.counts, 'distinct': sorted(self.distinct),
                'samples': self.samples, 'crc': self.crc.hexdigest()[:16]}


def run_case(check, case):
    """In this process."""
    st = Stats()
    limit = case.get('tick_limit')
    if limit:
        from . import world
        try:
            with world.TickLimit(limit):
                vs = check.run(case, st)
        except world.NoProgress:
            vs = [{'what': 'no result within %d simulated steps' % limit,
                   'hang': True, 'sig': 'hang', 'case': case}]
    else:
        vs = check.run(case, st)
    d = st.dump()
    d['violations'] = vs
    return d


def product_failure(e, case):
    """An exception that the library itself raised where the check expected a result
    (the last frame that is ours or the library's is the library's)."""
    from . import seams
    if not isinstance(e, Exception):
        return None
    lib = os.path.join(os.path.realpath(seams.REPO), 'plycutter') + os.sep
    last = None
    for f in traceback.extract_tb(e.__traceback__):
        name = os.path.realpath(f.filename)
        if name.startswith(lib):
            last = f
        elif name.startswith(ROOT + os.sep):
            last = None
    if last is None:
        return None
    d = Stats().dump()
    d['violations'] = [{
        'sig': 'raises ' + type(e).__name__, 'case': case,
        'what': 'an operation fails with %s in %s: %s' % (
            type(e).__name__, last.name, str(e)[:200])}]
    return d


class Job:
    __slots__ = ('pid', 'fd', 'data', 'case', 'i', 'end', 't0')


def _spawn(check, case, i, timeout):
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.setsid()
            os.close(r)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            try:
                d = run_case(check, case)
            except BaseException as e:
                d = product_failure(e, case) or {'harness': traceback.format_exc()}
            out = json.dumps(d).encode()
            while out:
                out = out[os.write(w, out):]
        finally:
            os._exit(0)
    os.close(w)
    j = Job()
    j.pid, j.fd, j.data, j.case, j.i = pid, r, b'', case, i
    j.t0 = time.monotonic()
    j.end = j.t0 + timeout
    return j


def pool(check, cases, workers, timeout, stop):
    """Yields (i, case, result dict or {'harness': ...}, seconds)."""
    live = {}
    it = iter(cases)
    done = False
    while True:
        while not done and len(live) < workers:
            if stop():
                done = True
                break
            try:
                i, case = next(it)
            except StopIteration:
                done = True
                break
            j = _spawn(check, case, i, timeout)
            live[j.fd] = j
        if not live:
            return
        now = time.monotonic()
        rd, _, _ = select.select(list(live), [], [], max(
            0.01, min(j.end for j in live.values()) - now))
        finished = []
        for fd in rd:
            j = live[fd]
            b = os.read(fd, 1 << 18)
            if b:
                j.data += b
            else:
                finished.append((j, False))
        now = time.monotonic()
        for j in list(live.values()):
            if j.end < now and not any(f[0] is j for f in finished):
                finished.append((j, True))
        for j, late in finished:
            try:
                os.killpg(j.pid, signal.SIGKILL)
            except OSError:
                try:
                    os.kill(j.pid, signal.SIGKILL)
                except OSError:
                    pass
            os.waitpid(j.pid, 0)
            os.close(j.fd)
            del live[j.fd]
            if late:
                d = {'harness': 'wall-clock timeout', 'timeout': True}
            else:
                try:
                    d = json.loads(j.data)
                except ValueError:
                    d = {'harness': 'worker died without a result'}
            yield j.i, j.case, d, now - j.t0


def one(check, case, timeout):
    for _, _, d, _ in pool(check, [(0, case)], 1, timeout, lambda: False):
        return d


def _same(check, a, b):
    return check.sig(a) == check.sig(b)


def minimise(check, v, budget):
    """Greedy: take any smaller case that still shows the same violation class."""
    end = time.monotonic() + budget
    tried = 0
    best = v
    progress = True
    while progress and time.monotonic() < end:
        progress = False
        for smaller in check.shrink(best['case']):
            if time.monotonic() > end:
                break
            tried += 1
            d = one(check, smaller, min(check.case_timeout, end - time.monotonic() + 5))
            hit = [w for w in d.get('violations') or () if _same(check, w, best)]
            if hit:
                best = dict(hit[0])
                progress = True
                break
    return best, tried


def replay_fresh(path, timeout):
    """Replay in a fresh interpreter; the violations it shows."""
    try:
        p = subprocess.run(
            [sys.executable, os.path.join(ROOT, 'check.py'), '--replay', path,
             '--json'], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
            timeout=timeout, cwd=ROOT)
        return json.loads(p.stdout.decode().splitlines()[-1])
    except Exception as e:
        return {'harness': repr(e)}


def load_known(pid):
    try:
        with open(KNOWN) as f:
            d = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in d.get('findings', []) if k['property'] == pid]


def cpu_count():
    return max(1, min(8, len(os.sched_getaffinity(0))))


def main(check, tier, seed, n=None, workers=None, verbose=False, logs=None):
    t0 = time.monotonic()
    workers = workers or int(os.environ.get('PLYSIM_WORKERS') or cpu_count())
    n = n or (check.quick if tier == 'quick' else check.thorough)
    print('%s tier=%s seed=%d cases=%d workers=%d' % (check.id, tier, seed, n, workers),
          flush=True)

    def cases():
        for i in range(n):
            r = random.Random('%s/%d/%d' % (check.id, seed, i))
            yield i, check.gen(r, i, tier)

    deadline = t0 + check.soft_deadline[tier]
    known = load_known(check.id)
    counts, distinct, samples = {}, set(), []
    fresh, seen_known, harness = [], {}, []
    ncases = 0
    evaluations = 0
    stop_at = [None]

    def stop():
        now = time.monotonic()
        return now > deadline or (stop_at[0] is not None and now > stop_at[0])

    lines = {}
    for i, case, d, secs in pool(check, cases(), workers, check.case_timeout, stop):
        ncases += 1
        if 'harness' in d:
            if d.get('timeout'):
                v = check_hang(check, case)
                if v:
                    fresh.append((i, v))
                    stop_at[0] = time.monotonic()
                    continue
            harness.append((i, case, d['harness']))
            if len(harness) >= 3:
                stop_at[0] = time.monotonic()
            continue
        lines[i] = d['crc']
        if verbose:
            print('case', i, '%.1fs' % secs, d['crc'], len(d['violations']),
                  json.dumps(d['counts']), flush=True)
        for k, c in d['counts'].items():
            counts[k] = counts.get(k, 0) + c
        distinct.update(d['distinct'])
        if len(samples) < 3:
            samples.extend(d['samples'][:1])
        for v in d['violations']:
            v.setdefault('case', case)
            m = [k for k in known if k['sig'] == check.sig(v)]
            if m:
                seen_known[m[0]['sig']] = seen_known.get(m[0]['sig'], 0) + 1
            else:
                fresh.append((i, v))
        if fresh and stop_at[0] is None:
            # let what already runs finish, start nothing new
            stop_at[0] = time.monotonic()
    if logs:
        with open(logs, 'w') as f:
            json.dump(lines, f, sort_keys=True)
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (check.id, k['what']))

    rc = 0
    reported = None
    if fresh:
        fresh.sort(key=lambda t: t[0])
        os.makedirs(os.path.join(ROOT, 'out'), exist_ok=True)
        unrep = 0
        for i, v in fresh[:4]:
            path = os.path.join('out', '%s-seed%d-case%d.json' % (check.id, seed, i))
            full = os.path.join(ROOT, path)
            _write_replay(check, full, v, seed, i, 0)
            d = replay_fresh(full, check.case_timeout + 60)
            if v.get('hang'):
                d = {'violations': [v]} if d.get('hang') or d.get(
                    'harness') or d.get('violations') else d
            hit = [w for w in d.get('violations') or () if _same(check, w, v)]
            if not hit and d.get('violations'):
                # another symptom of the same run
                hit = d['violations']
            if not hit:
                unrep += 1
                print('not reproduced in a fresh process: case %d: %s (%s)' % (
                    i, v['what'], d.get('harness')))
                continue
            best, tried = v, 0
            if not v.get('hang'):
                best, tried = minimise(check, v, 60 if tier == 'quick' else 300)
                if tried:
                    _write_replay(check, full, best, seed, i, tried)
                    d = replay_fresh(full, check.case_timeout + 60)
                    if not d.get('violations'):
                        best = v
                        _write_replay(check, full, v, seed, i, tried)
            print('violation: %s' % best['what'])
            for line in (best.get('trace') or [])[:40]:
                print('   ', line)
            print('VIOLATION property=%s replay=%s' % (check.id, path))
            reported = best
            rc = 1
            break
        if rc == 0 and unrep:
            rc = 2
    if harness and rc == 0:
        rc = 2
        for i, case, tb in harness[:3]:
            print('HARNESS ERROR in case %d: %s\n%s' % (
                i, json.dumps(case)[:2000], tb))
    wall = time.monotonic() - t0
    evaluations = counts.pop('evaluations', 0)
    faults = {k[6:]: c for k, c in sorted(counts.items()) if k.startswith('fault:')}
    probes = {k[6:]: c for k, c in sorted(counts.items()) if k.startswith('probe:')}
    other = {k: c for k, c in sorted(counts.items())
             if not k.startswith(('fault:', 'probe:'))}
    ev = {
        'property': check.id, 'tier': tier, 'seed': seed, 'level': check.level,
        'coverage': {
            'evaluations': evaluations,
            'distinct_nontrivial': len(distinct),
            'rule': check.rule,
            'samples': samples[:3] or [None],
            'seeds': ncases,
            'runs_per_hour': round(evaluations / wall * 3600),
            'seeds_per_hour': round(ncases / wall * 3600),
            'faults_injected': faults,
            'probes': probes,
            'counters': other,
            'simulated_time': '%d simulated steps (ticks of the step clock or '
                              'scheduler decisions; the code has no timers)'
                              % other.get('sim_steps', 0),
            'components_real': check.real,
            'components_simulated': check.stubs,
            'known_findings_seen': seen_known,
        },
        'assumptions': check.assumptions,
        'wall_s': round(wall, 1),
        'violations': 1 if rc == 1 else 0,
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', check.id + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    if ncases < n and rc == 0:
        print('note: stopped at the deadline after %d of %d cases' % (ncases, n))
    print('%s: %s  cases=%d runs=%d distinct=%d faults=%s wall=%.1fs' % (
        check.id, {0: 'held', 1: 'VIOLATED', 2: 'error'}[rc], ncases, evaluations,
        len(distinct), json.dumps(faults), wall), flush=True)
    if verbose:
        print('probes', json.dumps(probes), 'counters', json.dumps(other))
    return rc


def check_hang(check, case):
    """A run that did not end in time is re-run with a budget of simulated steps;
    exceeding the budget is a (deterministic) violation of progress."""
    case = dict(case, tick_limit=MAX_TICKS)
    d = one(check, case, 420)
    if d and d.get('violations'):
        return d['violations'][0]
    return None


def _write_replay(check, path, v, seed, i, tried):
    with open(path, 'w') as f:
        json.dump({'property': check.id, 'what': v['what'], 'sig': check.sig(v),
                   'seed': seed, 'case_index': i, 'minimise_steps': tried,
                   'trace': v.get('trace'), 'case': v['case']}, f, indent=1)
        f.write('\n')


def replay(checks, path, as_json):
    with open(path) as f:
        d = json.load(f)
    check = checks(d['property'])
    res = one(check, d['case'], check.case_timeout + 200)
    if as_json:
        print(json.dumps(res))
        return 0
    if 'harness' in res:
        print('harness error:', res['harness'])
        return 2
    for v in res['violations']:
        print('violation: %s' % v['what'])
        for line in (v.get('trace') or []):
            print('   ', line)
    if res['violations']:
        print('VIOLATION property=%s replay=%s' % (check.id, path))
        return 1
    print('no violation')
    return 0
