"""C12: boolean operations are exact in every internal order."""
import random

from .. import pipeline, ref, seams, shapes, world
from ..runner import Check

Q = ref.Q
OPS = {'or': lambda a, b: a or b, 'and': lambda a, b: a and b,
       'sub': lambda a, b: a and not b}


class Injected(Exception):
    pass


EXC = {'Injected': Injected, 'MemoryError': MemoryError,
       'KeyboardInterrupt': KeyboardInterrupt}


def gen_program(r, nops, buffers=False):
    """Leaves and a sequence of operations on registers."""
    nl = r.randint(3, 6)
    leaves = [shapes.gen_leaf(r) for _ in range(nl)]
    if r.random() < .3:      # the same shape twice, or shifted by its own size
        d = dict(r.choice(leaves))
        if r.random() < .5:
            d['at'] = [r.randint(-8, 8), r.randint(-8, 8)]
        leaves.append(d)
    ops = []
    n = len(leaves) + 1          # register 0 is the empty geometry
    for _ in range(nops):
        k = r.random()
        if k < .08:
            m = r.choice([0, 1, 2, 3, 5, 8])
            ops.append(['union', [r.randrange(n) for _ in range(m)]])
        elif k < .095:
            ops.append(['many', r.randint(60, 70), r.randint(0, 10 ** 6)])
        else:
            op = r.choice(['or', 'or', 'and', 'sub', 'sub'])
            ops.append([op, [r.randrange(1 if r.random() < .95 else 0, n),
                             r.randrange(1 if r.random() < .95 else 0, n)]])
        n += 1
    return {'leaves': leaves, 'ops': ops}


def many_leaves(k, seed):
    """Operands of a large union (cheap ones)."""
    r = random.Random('many/%s' % seed)
    out = []
    for i in range(k):
        x, y = (i % 9) * 3 + r.randint(0, 1), (i // 9) * 3
        w = r.choice([1, 2, 3, 4])
        out.append({'ring': [list(map(str, p))
                             for p in shapes._rect(x, y, w, r.choice([1, 2, 3]))]})
    return out


def complexity(region):
    return sum(len(o) + sum(len(h) for h in hs) for o, hs in region)


class C12(Check):
    id = 'C12'
    quick = 2000
    thorough = 20000
    case_timeout = 200
    rule = ('A case is a program of boolean operations over generated polygon sets '
            'with many coincidences, executed under a seeded scheduler that permutes '
            'every unordered collection inside; some operations are first cut short by '
            'an exception at a random simulated step and then repeated.  Every result '
            'is compared exactly with a reference sweep of its operands.  Distinct and '
            'non-trivial: a non-empty result; by (operands, operation, order '
            'decisions).')
    real = ['geom2d_simple_holes', 'arrangement2d', 'cell_merger', 'scan2d',
            'frangle2d', 'primitive2d', 'segment_tree']
    stubs = ['iteration order of sets, hash(), id()', 'exceptions at chosen steps']
    assumptions = ['Points on the boundary are not compared (regions are compared up '
                   'to measure zero, exactly).']

    def gen(self, r, i, tier):
        c = gen_program(r, r.randint(3, 7))
        c['order'] = {'seed': r.randint(0, 10 ** 9),
                      'mode': r.choice(['any', 'any', 'any', 'real'])}
        c['faults'] = {str(k): [r.choice(sorted(EXC)), r.random()]
                       for k in range(len(c['ops'])) if r.random() < .25}
        return c

    def apply(self, m, o, regs):
        if o[0] == 'union':
            return m.Geom2D.union([regs[k] for k in o[1]])
        if o[0] == 'many':
            return m.Geom2D.union([shapes.leaf(d) for d in many_leaves(o[1], o[2])])
        a, b = (regs[k] for k in o[1])
        return a | b if o[0] == 'or' else a & b if o[0] == 'and' else a - b

    def run(self, case, st):
        m = world.mods
        sched = pipeline.set_order(case['order'])
        out = []

        def bad(sig, what, upto):
            n = len(case['ops'])
            out.append({'sig': sig, 'what': what, 'case': dict(
                case, ops=case['ops'][:upto + 1] if upto < n else case['ops'])})

        regs = [m.Geom2D.empty()] + [shapes.leaf(d) for d in case['leaves']]
        regions = [ref.region_of(g) for g in regs]
        for k, d in enumerate(case['leaves']):
            if ref.canonical(regions[k + 1]) != ref.canonical(shapes.leaf_region(d)):
                bad('leaf', 'a polygon does not have the outline it was made of', 0)
                return out
        pr = random.Random('points/%s' % case['order']['seed'])
        for k, o in enumerate(case['ops']):
            if o[0] == 'many':
                operands = [shapes.leaf_region(d) for d in many_leaves(o[1], o[2])]
            else:
                operands = [regions[j] for j in o[1]]
            if sum(map(complexity, operands)) > 400:
                regs.append(m.Geom2D.empty())
                regions.append([])
                continue
            f = case['faults'].get(str(k))
            if f and o[0] != 'many':
                self.cut(m, o, regs, f, st)
            try:
                g = self.apply(m, o, regs)
                region = ref.region_of(g)
            except Exception as e:
                bad('raises', '%s raises %s: %s' % (o, type(e).__name__, str(e)[:120]),
                    k)
                return out
            st.add('evaluations')
            st.log(o[0], sched.n)
            what = self.verify(m, o, operands, g, region, pr)
            if what:
                bad(*what, k)
                return out
            if region:
                st.reach(case['leaves'], o, sched.trace_crc)
            regs.append(g)
            regions.append(region)
        st.add('sim_steps', sched.n)
        st.fault('permuted orders', sched.permuted)
        st.sample({k: case[k] for k in ('leaves', 'ops', 'order', 'faults')})
        return out

    def cut(self, m, o, regs, f, st):
        """Run the operation, but let it die at some step."""
        at = 1 + int(f[1] ** 3 * 40000)

        def tick(n, code, line):
            steps.next = 1 << 62
            if world.in_logging():
                return
            fired.append(n)
            raise EXC[f[0]]('injected')
        fired = []
        steps = world.Steps(first=at, on_tick=tick)
        with steps:
            try:
                self.apply(m, o, regs)
            except (Injected, MemoryError, KeyboardInterrupt):
                pass
            except Exception:
                st.probe('another exception after an injected one')
        if fired:
            st.fault('cut short by ' + f[0])

    def verify(self, m, o, operands, g, region, pr):
        op = OPS.get(o[0]) or (lambda *a: any(a))
        label = '%s' % (o,)
        err = shapes.structure(region)
        if err:
            return 'structure', '%s: %s' % (label, err)
        # exact, cell by cell
        area = Q(0)
        pts = []
        for pt, a, mult in ref.cells([region] + operands):
            want = bool(op(*[x > 0 for x in mult[1:]]))
            if mult[0] > 1:
                return 'overlap', '%s: result polygons overlap at %s' % (label, fmt(pt))
            if want != (mult[0] > 0):
                return 'wrong', '%s: point %s is %s the result but should be %s' % (
                    label, fmt(pt), 'in' if mult[0] else 'not in',
                    'in' if want else 'out')
            if want:
                area += a
            pts.append((pt, want))
        if ref.q(g.area()) != area:
            return 'area', '%s: area %s, should be %s' % (label, float(g.area()),
                                                          float(area))
        if bool(g.is_empty()) != (area == 0):
            return 'is_empty', '%s: is_empty is wrong' % label
        F = m.F
        for pt, want in pr.sample(pts, min(len(pts), 12)):
            l = g.locate((F(pt[0]), F(pt[1])))
            if (l > 0) != want or l == 0:
                return 'locate', '%s: locate(%s) is %s' % (label, fmt(pt), l)
        # points far away and on the boundary
        for part in region[:2]:
            for ring in [part[0]] + part[1][:1]:
                k = pr.randrange(len(ring))
                a, b = ring[k - 1], ring[k]
                for pt in (a, ((a[0] + b[0]) / 2, (a[1] + b[1]) / 2)):
                    l = g.locate((F(pt[0]), F(pt[1])))
                    if l != 0:
                        return 'locate', '%s: locate of boundary point %s is %s' % (
                            label, fmt(pt), l)
        if g.locate((F(10 ** 9), F(1, 3))) >= 0:
            return 'locate', '%s: a point far away is in it' % label
        # polygons and projection
        polys = list(g.polygons())
        if sum((ref.q(p.area()) for p in polys), Q(0)) != area or any(
                p.is_empty() for p in polys):
            return 'polygons', '%s: the polygons do not add up to it' % label
        for _ in range(2):
            vec = (pr.randint(-3, 3), pr.randint(-3, 3))
            if vec == (0, 0):
                continue
            offs = Q(pr.randint(-9, 9), pr.randint(1, 3))
            got = pipeline.iv(g.project_to_1d((F(vec[0]), F(vec[1])), F(offs)))
            ivs = []
            for outer, _ in region:
                ds = [vec[0] * x + vec[1] * y + offs for x, y in outer]
                ivs.append((min(ds), max(ds)))
            if pipeline.u1(ivs) != pipeline.u1(got):
                return 'project', '%s: projection to %s is wrong' % (label, vec)
        return None

    def shrink(self, case):
        ops = case['ops']
        n0 = len(case['leaves']) + 1
        # keep only the last operation's ancestors
        for k in range(len(ops) - 1):
            used = set()
            for o in ops[k + 1:]:
                if o[0] != 'many':
                    used |= {j for j in o[1]}
            if n0 + k not in used:
                new = []
                for o in ops[:k] + ops[k + 1:]:
                    new.append(o if o[0] == 'many' else
                               [o[0], [j - 1 if j > n0 + k else j for j in o[1]]])
                fl = {}
                for a, b in case['faults'].items():
                    if int(a) != k:
                        fl[str(int(a) - (int(a) > k))] = b
                yield dict(case, ops=new, faults=fl)
        for k in list(case['faults']):
            f = dict(case['faults'])
            del f[k]
            yield dict(case, faults=f)
        if case['order'].get('mode') != 'off':
            yield dict(case, order=dict(case['order'], mode='off'))
            lo, hi = case['order'].get('window') or (0, 1 << 14)
            if hi - lo > 1:
                mid = (lo + hi) // 2
                yield dict(case, order=dict(case['order'], window=[lo, mid]))
                yield dict(case, order=dict(case['order'], window=[mid, hi]))
        for k, d in enumerate(case['leaves']):
            for key in ('huge', 'map', 'den', 'at'):
                if key in d:
                    e = dict(d)
                    del e[key]
                    lv = list(case['leaves'])
                    lv[k] = e
                    yield dict(case, leaves=lv)
            if len(d['ring']) > 4:
                lv = list(case['leaves'])
                lv[k] = {'ring': d['ring'][:1] + [d['ring'][len(d['ring']) // 3]] +
                         [d['ring'][2 * len(d['ring']) // 3]]}
                yield dict(case, leaves=lv)


def fmt(pt):
    return '(%.6g, %.6g)' % (pt[0], pt[1])


CHECK = C12()
