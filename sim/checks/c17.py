"""C17: boxes, trees and direction orders find everything, however they are filled."""
import importlib
import random

from .. import pipeline, ref, world
from ..runner import Check
from .c12 import EXC, Injected
from .c15 import gen_segments, on

Q = ref.Q


class Refused(Exception):
    """Raised by a callback of the caller."""


def cross(ax, ay, bx, by):
    return ax * by - ay * bx


def meet(s, t):
    """Do two closed segments have a common point?"""
    (a, b), (c, d) = s, t
    if any(on(s, p) for p in t) or any(on(t, p) for p in s):
        return True

    def side(p, q, r):
        v = cross(q[0] - p[0], q[1] - p[1], r[0] - p[0], r[1] - p[1])
        return (v > 0) - (v < 0)
    return side(a, b, c) * side(a, b, d) < 0 and side(c, d, a) * side(c, d, b) < 0


def clip(seg, lo, hi):
    """Does a closed segment meet a closed box?"""
    t0, t1 = Q(0), Q(1)
    for k in range(2):
        p, d = seg[0][k], seg[1][k] - seg[0][k]
        if d == 0:
            if p < lo[k] or p > hi[k]:
                return False
            continue
        a, b = (lo[k] - p) / d, (hi[k] - p) / d
        t0, t1 = max(t0, min(a, b)), min(t1, max(a, b))
    return t0 <= t1


def half(w):
    return 0 if w[1] < 0 or (w[1] == 0 and w[0] > 0) else 1


def before(u, v):
    """Clockwise from the positive x axis: negative if u comes first."""
    if half(u) != half(v):
        return half(u) - half(v)
    c = cross(u[0], u[1], v[0], v[1])
    return (c > 0) - (c < 0)


def seg_of(d):
    return tuple(tuple(Q(x) for x in p) for p in d)


class C17(Check):
    id = 'C17'
    quick = 6000
    thorough = 100000
    case_timeout = 120
    rule = ('A case fills a quadtree of segments, a quadtree of boxes with a predicate '
            'of the caller, a growing box, segment trees and a list of directions in a '
            'seeded order, with queries in between.  Some insertions and constructions '
            'fail at a random simulated step or in the predicate of the caller, and are '
            'repeated.  Lazy queries are consumed interleaved or abandoned.  Every '
            'answer is compared with an exact brute-force search.  Distinct and '
            'non-trivial: an answer that is neither empty nor everything; by (content, '
            'query).')
    real = ['pmr_quadtree', 'segment_tree', 'aabb', 'frangle2d']
    stubs = ['order of sets', 'insertion order', 'predicate of the caller',
             'exceptions at chosen steps']
    assumptions = ['Everything put into a quadtree lies in the box it was made for '
                   '(documented).', 'A quadtree may return more of what is stored than '
                   'meets the query.',
                   'After an insertion failed it is repeated before the next query.',
                   'A growing box is not interrupted (nothing keeps one after that).']

    def gen(self, r, i, tier):
        what = ['segments', 'boxes', 'growing', 'stab', 'segments', 'directions'][i % 6]
        c = {'what': what, 'seed': r.randint(0, 10 ** 9),
             'order': {'seed': r.randint(0, 10 ** 9), 'mode': 'any'}}
        n = r.choice([2, 4, 6, 9, 14, 25])
        g = r.choice([3, 5, 8])
        threshold = r.choice([1, 2, 3, 4, 4, 6])
        if what in ('segments', 'boxes'):
            # Every insertion may split every leaf it meets once
            most = {1: 9, 2: 9, 3: 14}.get(threshold, 25)
            n = min(n, most if what == 'segments' else most // 2 + 1)
        if what == 'segments':
            c['items'] = gen_segments(r, n, g)
            c['queries'] = gen_segments(r, r.randint(2, 6), g)
            c['threshold'] = threshold
            c['first'] = r.choice([0, 0, r.randint(0, n), n])
        elif what == 'boxes':
            c['items'] = [self.box(r, g) for _ in range(n)]
            c['queries'] = [self.box(r, g) for _ in range(r.randint(2, 6))]
            c['threshold'] = threshold
            c['first'] = r.choice([0, 0, r.randint(0, n)])
        elif what == 'growing':
            c['items'] = [self.point(r, g) for _ in range(r.randint(1, 8))]
            c['queries'] = [[self.point(r, g + 2), self.point(r, g + 2)]
                            for _ in range(12)]
        elif what == 'stab':
            c['items'] = []
            for _ in range(r.choice([1, 2])):
                t = []
                for k in range(r.choice([0, 1, 2, 5, 9, 16])):
                    a, b = self.point(r, 2 * g)
                    a, b = sorted((a, b), key=Q)
                    t.append([a, b])
                c['items'].append(t)
            c['queries'] = [str(Q(r.randint(-2, 4 * g), 2)) for _ in range(6)]
        else:
            c['items'] = []
            for _ in range(n):
                v = self.point(r, 6, -6)
                if any(Q(x) for x in v):
                    c['items'].append(v)
                    if r.random() < .3:      # the same direction, another length
                        c['items'].append([str(Q(x) * Q(r.randint(1, 9), 7))
                                           for x in v])
            c['queries'] = []
        c['faults'] = {str(k): [r.choice(sorted(EXC) + ['Refused']), r.random()]
                       for k in range(len(c['items']))
                       if what != 'growing' and r.random() < .2}
        return c

    def point(self, r, g, lo=0):
        if r.random() < .7:
            return [str(r.randint(lo, g)), str(r.randint(lo, g))]
        return [str(Q(r.randint(7 * lo, 7 * g), r.choice([2, 3, 7]))) for _ in range(2)]

    def box(self, r, g):
        p, q = self.point(r, g), self.point(r, g)
        return [[min(a, b, key=Q) for a, b in zip(p, q)],
                [max(a, b, key=Q) for a, b in zip(p, q)]]

    def run(self, case, st):
        m = world.mods
        sched = pipeline.set_order(case['order'])
        r = random.Random('ops/%s' % case['seed'])
        try:
            bad = getattr(self, 'run_' + case['what'])(m, case, r, st)
        except (Injected, Refused):
            raise AssertionError('an injected failure got out')
        st.add('sim_steps', sched.n)
        st.sample(case)
        if bad:
            return [{'sig': bad[0], 'what': bad[1], 'case': case}]
        return []

    def failing(self, st, fault, f, limit):
        """f(), after it was cut short by the fault (f may be started twice)."""
        if fault and fault[0] in EXC:
            at = 1 + int(fault[1] ** 2 * limit)
            fired = []

            def tick(n, code, line):
                steps.next = 1 << 62
                fired.append(n)
                raise EXC[fault[0]]('injected')
            steps = world.Steps(first=at, on_tick=tick)
            with steps:
                try:
                    got = f()
                except (Injected, MemoryError, KeyboardInterrupt):
                    pass
            if not fired:
                return got
            st.fault('cut short by ' + fault[0])
        return f()

    # quadtrees

    def run_segments(self, m, case, r, st):
        F = m.F
        mod = importlib.import_module('plycutter.geometry.impl2d.pmr_quadtree')
        segs = [seg_of(d) for d in case['items']]
        asked = [seg_of(d) for d in case['queries']]
        pts = [p for s in segs + asked for p in s]
        if not pts:
            return
        lo = [min(p[k] for p in pts) for k in range(2)]
        hi = [max(p[k] for p in pts) for k in range(2)]

        def real(s):
            return tuple((F(x), F(y)) for x, y in s)
        box = m.aabb.AABB([F(v) for v in lo], [F(v) for v in hi])
        n = case['first']
        tree = mod.SegmentPMRQuadTree(
            box, [real(s) for s in segs[:n]], case['threshold'])
        return self.drive(
            case, r, st, segs[:n], segs[n:], asked,
            lambda s, fault: self.failing(st, fault, lambda: tree.pmr.add(real(s)),
                                          900),
            lambda q: [seg_of(s) for s in tree.find(real(q))], meet)

    def run_boxes(self, m, case, r, st):
        F = m.F
        mod = importlib.import_module('plycutter.geometry.impl2d.pmr_quadtree')
        boxes = [seg_of(d) for d in case['items']]
        asked = [seg_of(d) for d in case['queries']]
        pts = [p for s in boxes + asked for p in s]
        lo = [min(p[k] for p in pts) for k in range(2)]
        hi = [max(p[k] for p in pts) for k in range(2)]
        calls = {'n': 0, 'at': None}

        def apart(b, a):
            return any(b[1][k] < a[0][k] or b[0][k] > a[1][k] for k in range(2))

        def predicate(item, aabb):
            calls['n'] += 1
            if calls['at'] is not None and calls['n'] >= calls['at']:
                calls['at'] = None
                raise Refused()
            return not apart(item, [[ref.q(v) for v in w]
                                    for w in (aabb.lower, aabb.upper)])
        main = m.aabb.AABB([F(v) for v in lo], [F(v) for v in hi])
        n = case['first']
        tree = mod.PMRQuadTree(main, predicate, boxes[:n], case['threshold'])

        def add(b, fault):
            if fault and fault[0] == 'Refused':
                calls['at'] = calls['n'] + 1 + int(fault[1] * 12)
                try:
                    tree.add(b)
                except Refused:
                    st.fault('the predicate of the caller fails')
                if calls['at'] is None:
                    tree.add(b)
                calls['at'] = None
                return
            self.failing(st, fault, lambda: tree.add(b), 600)
        return self.drive(case, r, st, boxes[:n], boxes[n:], asked, add,
                          tree.find_all_similar, lambda a, b: not apart(a, b))

    def drive(self, case, r, st, stored, todo, asked, add, find, hits):
        stored = list(stored)
        for k, s in enumerate(list(todo) + [None]):
            for q in r.sample(asked, 1 if s is not None and len(asked) else len(asked)):
                got = list(find(q))
                st.add('evaluations')
                if len(set(got)) != len(got):
                    return 'twice', 'the query of %s gives an element twice' % show(q)
                for g in got:
                    if g not in stored:
                        return 'alien', 'the query of %s gives %s, which was never ' \
                            'put in' % (show(q), show(g))
                want = [x for x in stored if hits(x, q)]
                for x in want:
                    if x not in got:
                        return 'missed', 'after %d insertions the query of %s misses ' \
                            '%s' % (len(stored), show(q), show(x))
                if 0 < len(set(want)) < len(set(stored)):
                    st.reach(sorted(map(str, stored)), q)
                st.log(len(got), len(want))
            if s is not None:
                add(s, case['faults'].get(str(k)))
                stored.append(s)

    # a growing box

    def run_growing(self, m, case, r, st):
        F = m.F
        box = m.aabb.AABB()
        pts = []
        for k, d in enumerate(case['items']):
            p = tuple(Q(x) for x in d)
            box.include_point((F(p[0]), F(p[1])))
            pts.append(p)
            lo = [min(x[j] for x in pts) for j in range(2)]
            hi = [max(x[j] for x in pts) for j in range(2)]
            for d2 in r.sample(case['queries'], min(4, len(case['queries']))):
                a, b = seg_of(d2)
                st.add('evaluations')
                fa, fb = ((F(x), F(y)) for x, y in (a, b))
                inside = all(lo[j] <= a[j] <= hi[j] for j in range(2))
                if bool(box.contains(fa)) != inside:
                    return 'contains', 'box of %s: contains(%s) is wrong' % (
                        show(pts), show(a))
                w = clip((a, b), lo, hi)
                if a != b and bool(box.intersects_segment((fa, fb))) != w:
                    return 'segment', 'box of %s: intersects_segment(%s, %s) is not %s' \
                        % (show(pts), show(a), show(b), w)
                bl = [min(a[j], b[j]) for j in range(2)]
                bh = [max(a[j], b[j]) for j in range(2)]
                w = all(bl[j] <= hi[j] and lo[j] <= bh[j] for j in range(2))
                other = m.aabb.AABB([F(v) for v in bl], [F(v) for v in bh])
                if bool(box.intersects_aabb(other)) != w or bool(
                        other.intersects_aabb(box)) != w:
                    return 'box', 'box of %s: intersects_aabb(%s, %s) is not %s' % (
                        show(pts), show(bl), show(bh), w)
                if len(pts) > 1:
                    st.reach(sorted(map(str, pts)), d2)
                st.log(inside, w)

    # segment trees

    def run_stab(self, m, case, r, st):
        F = m.F
        mod = importlib.import_module('plycutter.geometry.impl2d.segment_tree')
        trees, contents = [], []
        for k, t in enumerate(case['items']):
            segs = [(Q(a), Q(b), 'x%d' % j) for j, (a, b) in enumerate(t)]
            r.shuffle(segs)

            def make():
                return mod.SegmentTree1D([(F(a), F(b), j) for a, b, j in segs])
            trees.append(self.failing(st, case['faults'].get(str(k)), make, 700))
            contents.append(segs)
        live = []
        for v in case['queries']:
            k = r.randrange(len(trees))
            live.append([k, Q(v), iter(trees[k].stab(F(Q(v)))), [],
                         r.randint(0, 2) if r.random() < .2 else None])
        todo = list(live)
        while todo:
            x = r.choice(todo)
            if x[4] is not None and len(x[3]) >= x[4]:
                todo.remove(x)
                st.fault('query abandoned')
                continue
            try:
                x[3].append(next(x[2]))
            except StopIteration:
                todo.remove(x)
        if len(live) > 1:
            st.fault('interleaved queries')
        for k, v, _, got, left in live:
            st.add('evaluations')
            got = [(ref.q(a), ref.q(b), j) for a, b, j in got]
            want = [s for s in contents[k] if s[0] <= v <= s[1]]
            if len(set(got)) != len(got):
                return 'twice', 'stab(%s) of %s gives a segment twice' % (
                    v, show(contents[k]))
            for g in got:
                if g not in want:
                    return 'alien', 'stab(%s) of %s gives %s' % (
                        v, show(contents[k]), show(g))
            if left is None and len(got) != len(want) or len(got) < min(
                    len(want), 10 ** 9 if left is None else left):
                return 'missed', 'stab(%s) of %s gives %d of %d' % (
                    v, show(contents[k]), len(got), len(want))
            if 0 < len(want) < len(contents[k]):
                st.reach(sorted(map(str, contents[k])), v)
            st.log(len(want))

    # directions

    def run_directions(self, m, case, r, st):
        F = m.F
        vs = [tuple(Q(x) for x in v) for v in case['items']]
        if not vs:
            return
        fr = m.frangle2d
        key = {v: fr.vector_frangle((F(v[0]), F(v[1]))) for v in vs}
        for _ in range(3):
            r.shuffle(vs)
            got = sorted(vs, key=key.get)
            st.add('evaluations')
            for a, b in zip(got, got[1:]):
                c = before(a, b)
                if c > 0 or (c == 0) != (key[a] == key[b]):
                    return 'order', 'direction %s is sorted before %s' % (
                        show(a), show(b))
        for v in vs:
            k = key[v]
            if not 0 <= k < 8:
                return 'range', 'the angle of %s is %s' % (show(v), k)
            for n, w in enumerate(((v[0], v[1]), (v[1], -v[0]), (-v[0], -v[1]),
                                   (-v[1], v[0]))):
                x = fr.vector_frangle((F(w[0]), F(w[1])))
                if (ref.q(x) - ref.q(k) - 2 * n) % 8 != 0:
                    return 'rotation', 'the angle of %s, turned %d times, is %s' % (
                        show(v), n, x)
            u = [ref.q(x) for x in fr.frangle_unit_square_vector(k + 8 * r.randint(
                -1, 1))]
            if cross(u[0], u[1], v[0], v[1]) != 0 or u[0] * v[0] + u[1] * v[1] <= 0 \
                    or max(map(abs, u)) != 1:
                return 'vector', 'the direction of the angle of %s is %s' % (
                    show(v), show(u))
        st.reach(sorted(map(str, vs)))
        st.log([str(key[v]) for v in sorted(vs)])

    def shrink(self, case):
        for k in sorted(case['faults']):
            f = dict(case['faults'])
            del f[k]
            yield dict(case, faults=f)
        if case['order'].get('mode') != 'off':
            yield dict(case, order={'seed': 0, 'mode': 'off'})
        if len(case['queries']) > 1:
            for k in range(len(case['queries'])):
                yield dict(case, queries=[case['queries'][k]])
        it = case['items']
        for k in range(len(it) if len(it) > 1 else 0):
            f = {str(int(a) - (int(a) > k)): b for a, b in case['faults'].items()
                 if int(a) != k}
            c = dict(case, items=it[:k] + it[k + 1:], faults=f)
            if 'first' in c:
                c['first'] = min(c['first'], len(it) - 1)
            yield c


def show(v):
    if isinstance(v, (tuple, list)):
        return '(%s)' % ', '.join(map(show, v))
    return str(v)


CHECK = C17()
