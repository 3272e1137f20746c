"""C15: the sweep reports every crossing however it is fed and consumed."""
import random

from .. import pipeline, ref, world
from ..runner import Check

Q = ref.Q


def gen_segments(r, n, grid):
    """Distinct non-degenerate segments with many coincidences; JSON."""
    segs = []
    seen = set()
    style = r.random()

    def add(p, q):
        a, b = (p, q) if r.random() < .5 else (q, p)
        key = tuple(sorted((tuple(a), tuple(b))))
        if p != q and key not in seen and key[::-1] not in seen:
            seen.add(key)
            segs.append([list(map(str, a)), list(map(str, b))])
    pts = [(r.randint(0, grid), r.randint(0, grid)) for _ in range(max(3, n))]
    while len(segs) < n and len(seen) < 4 * n:
        k = r.random()
        seen.add(len(seen))
        if style < .15 or k < .3:         # axis parallel
            x, y, l = r.randint(0, grid), r.randint(0, grid), r.randint(1, grid)
            if r.random() < .5:
                add((x, y), (x + l, y))
            else:
                add((x, y), (x, y + l))
        elif k < .55:                     # through a common point
            cx, cy = grid // 2, grid // 2
            dx, dy = r.randint(-3, 3), r.randint(-3, 3)
            s, t = r.randint(0, 2), r.randint(1, 2)
            add((cx - s * dx, cy - s * dy), (cx + t * dx, cy + t * dy))
        elif k < .7 and segs:             # collinear with an earlier one
            (ax, ay), (bx, by) = [tuple(Q(v) for v in p) for p in r.choice(segs)]
            s = Q(r.randint(-4, 8), 4)
            t = Q(r.randint(-4, 8), 4)
            add((ax + s * (bx - ax), ay + s * (by - ay)),
                (ax + t * (bx - ax), ay + t * (by - ay)))
        elif k < .8:                      # rational coordinates
            add(*[tuple(Q(r.randint(0, grid * 3), r.choice([2, 3, 5, 7]))
                        for _ in range(2)) for _ in range(2)])
        else:
            add(r.choice(pts), r.choice(pts))
    return segs


def gen_task(r):
    n = r.choice([1, 2, 3, 4, 6, 8, 12, 20])
    return {'segs': gen_segments(r, n, r.choice([3, 4, 6, 10])),
            'order': r.randint(0, 10 ** 9), 'flip': r.randint(0, 10 ** 9)}


def expected(segs):
    """{point: set of segment indices}: all points where at least two segments meet
    (for collinear overlaps, the ends of the overlap)."""
    pts = set()
    n = len(segs)
    for i in range(n):
        (ax, ay), (bx, by) = segs[i]
        for j in range(i):
            (cx, cy), (dx, dy) = segs[j]
            ux, uy, vx, vy = bx - ax, by - ay, dx - cx, dy - cy
            den = ux * vy - uy * vx
            if den == 0:
                if (cx - ax) * uy - (cy - ay) * ux != 0:
                    continue
                for p in ((ax, ay), (bx, by)):
                    if on(segs[j], p):
                        pts.add(p)
                for p in ((cx, cy), (dx, dy)):
                    if on(segs[i], p):
                        pts.add(p)
                continue
            t = ((cx - ax) * vy - (cy - ay) * vx) / den
            u = ((cx - ax) * uy - (cy - ay) * ux) / den
            if 0 <= t <= 1 and 0 <= u <= 1:
                pts.add((ax + t * ux, ay + t * uy))
    return {p: frozenset(i for i in range(n) if on(segs[i], p)) for p in pts}


def on(seg, p):
    (ax, ay), (bx, by) = seg
    return (bx - ax) * (p[1] - ay) == (by - ay) * (p[0] - ax) and \
        min(ax, bx) <= p[0] <= max(ax, bx) and min(ay, by) <= p[1] <= max(ay, by)


class C15(Check):
    id = 'C15'
    quick = 6000
    thorough = 60000
    case_timeout = 120
    rule = ('A case is several segment sets with seeded insertion orders and segment '
            'directions, whose sweeps are consumed by a seeded consumer: at once, step '
            'by step interleaved with each other, some abandoned or killed by an '
            'exception half way and then redone.  Every reported event is compared '
            'with brute force, and the order with a straight sweep.  Distinct and '
            'non-trivial: at least one crossing; by (segments, orders, consumption).')
    real = ['scan2d', 'sortedcontainers']
    stubs = ['insertion order, naming and direction of segments', 'order of sets',
             'the consumer of the lazily produced events']
    assumptions = ['For collinear overlaps the ends of the overlap are the crossings '
                   '(as documented).', 'Sweep order: some direction exists in which '
                   'the events come in order.']

    def gen(self, r, i, tier):
        tasks = [gen_task(r) for _ in range(r.choice([1, 1, 2, 3]))]
        for t in tasks:
            k = r.random()
            if k < .2:
                t['abandon'] = r.randint(0, 4)
            elif k < .4:
                t['die'] = r.random()
        return {'tasks': tasks, 'consume': r.choice(['once', 'step', 'step']),
                'seed': r.randint(0, 10 ** 9),
                'orders': {'seed': r.randint(0, 10 ** 9), 'mode': 'any'}}

    def start(self, m, t):
        F = m.F
        r = random.Random('ord/%s' % t['order'])
        fl = random.Random('flip/%s' % t['flip'])
        ix = list(range(len(t['segs'])))
        r.shuffle(ix)
        given = {}
        lst = []
        for i in ix:
            a, b = [(F(p[0]), F(p[1])) for p in t['segs'][i]]
            if fl.random() < .5:
                a, b = b, a
            given[a, b] = i
            lst.append((a, b))
        kind = r.randint(0, 2)
        arg = lst if kind == 0 else tuple(lst) if kind == 1 else iter(lst)
        return given, m.scan2d.all_segment_intersections(arg)

    def run(self, case, st):
        m = world.mods
        sched = pipeline.set_order(case['orders'])
        r = random.Random('consume/%s' % case['seed'])
        live = []
        for t in case['tasks']:
            if 'die' in t:
                self.die(m, t, st)
            given, it = self.start(m, t)
            live.append({'t': t, 'given': given, 'it': iter(it), 'ev': [],
                         'done': False, 'err': None})
        while True:
            open_ = [x for x in live if not x['done']]
            if not open_:
                break
            x = r.choice(open_)
            k = 10 ** 9 if case['consume'] == 'once' else r.choice([1, 1, 2, 5])
            for _ in range(k):
                if len(x['ev']) == x['t'].get('abandon', -1):
                    x['it'].close() if r.random() < .5 and hasattr(
                        x['it'], 'close') else None
                    x['done'] = True
                    st.fault('abandoned')
                    break
                try:
                    x['ev'].append(next(x['it']))
                except StopIteration:
                    x['done'] = True
                    break
                except Exception as e:
                    x['err'] = e
                    x['done'] = True
                    break
        if len(live) > 1 and case['consume'] == 'step':
            st.fault('interleaved sweeps')
        st.fault('permuted insertion orders', len(live))
        for x in live:
            st.add('evaluations')
            bad = self.verify(x, st)
            if bad:
                return [{'sig': bad[0], 'what': bad[1], 'case': case}]
            if x['ev']:
                st.reach(x['t'], case['seed'], case['consume'])
            st.log(len(x['ev']))
        st.add('sim_steps', sum(len(x['ev']) for x in live) + sched.n)
        st.sample(case)
        return []

    def die(self, m, t, st):
        at = 1 + int(t['die'] ** 2 * 3000)
        fired = []

        def tick(n, code, line):
            steps.next = 1 << 62
            fired.append(n)
            raise MemoryError('injected')
        steps = world.Steps(first=at, on_tick=tick)
        with steps:
            try:
                for _ in self.start(m, t)[1]:
                    pass
            except MemoryError:
                pass
        if fired:
            st.fault('killed by an exception')

    def verify(self, x, st):
        if x['err'] is not None:
            return 'raises', 'the sweep raises %s: %s' % (
                type(x['err']).__name__, str(x['err'])[:150])
        segs = [None] * len(x['given'])
        for (a, b), i in x['given'].items():
            segs[i] = (tuple(map(ref.q, a)), tuple(map(ref.q, b)))
        want = expected(segs)
        seen = {}
        order = []
        for pt, ss in x['ev']:
            p = (ref.q(pt[0]), ref.q(pt[1]))
            if p in seen:
                return 'twice', 'point %s is reported twice' % fmt(p)
            ids = []
            for s in ss:
                k = (tuple(s[0]), tuple(s[1]))
                if k not in x['given']:
                    return 'alien', 'a segment that was not given is reported at %s' \
                        % fmt(p)
                ids.append(x['given'][k])
            if len(set(ids)) != len(ids):
                return 'dup', 'a segment is reported twice at %s' % fmt(p)
            seen[p] = ids
            order.append(p)
            if p not in want:
                return 'phantom', '%s is reported but no two segments meet there' % (
                    fmt(p))
            if set(ids) != want[p]:
                return 'members', 'at %s segments %s are reported, %s pass through' % (
                    fmt(p), sorted(ids), sorted(want[p]))
        if 'abandon' not in x['t']:
            for p in want:
                if p not in seen:
                    return 'missed', 'the crossing of segments %s at %s is missed' % (
                        sorted(want[p]), fmt(p))
        elif len(seen) < min(x['t']['abandon'], len(want)):
            return 'missed', 'fewer events than crossings'
        horizontal = any(a[1] == b[1] for a, b in segs)
        return self.swept(order, horizontal)

    def swept(self, order, horizontal):
        if not horizontal:
            # documented: bottom to top, left to right
            for p, q in zip(order, order[1:]):
                if (q[1], q[0]) <= (p[1], p[0]):
                    return 'order', '%s is reported before %s' % (fmt(p), fmt(q))
            return None
        # some slope a with y + a x increasing (left to right if equal)
        lo, hi = None, None
        for p, q in zip(order, order[1:]):
            dx, dy = q[0] - p[0], q[1] - p[1]
            if dx == 0:
                if dy <= 0:
                    return 'order', '%s is reported before %s' % (fmt(p), fmt(q))
            elif dx > 0:
                lo = max(lo, -dy / dx) if lo is not None else -dy / dx
            else:
                hi = min(hi, -dy / dx) if hi is not None else -dy / dx
        if lo is not None and hi is not None and lo >= hi:
            return 'order', 'the events are not in the order of any sweep'
        return None

    def shrink(self, case):
        if len(case['tasks']) > 1:
            for k in range(len(case['tasks'])):
                yield dict(case, tasks=case['tasks'][:k] + case['tasks'][k + 1:])
        if case['consume'] != 'once':
            yield dict(case, consume='once')
        if case['orders'].get('mode') != 'off':
            yield dict(case, orders={'seed': 0, 'mode': 'off'})
        for k, t in enumerate(case['tasks']):
            for key in ('die', 'abandon'):
                if key in t:
                    u = dict(t)
                    del u[key]
                    ts = list(case['tasks'])
                    ts[k] = u
                    yield dict(case, tasks=ts)
            n = len(t['segs'])
            for a, b in ((0, n // 2), (n // 2, n)) + tuple(
                    (j, j + 1) for j in range(n)):
                if n > 2 and b > a:
                    ts = list(case['tasks'])
                    ts[k] = dict(t, segs=t['segs'][:a] + t['segs'][b:])
                    yield dict(case, tasks=ts)


def fmt(pt):
    return '(%s, %s)' % (pt[0], pt[1])


CHECK = C15()
