"""C13: offsets are exact Minkowski offsets in every internal order."""
import random

from .. import pipeline, ref, shapes, world
from ..runner import Check
from . import c12

Q = ref.Q
AMOUNTS = ['1/20', '1/2', '1', '3/2', '2', '1/3', '3', '1/100', '1/1000', '5', '12',
           '7/1000', '17/1000', '1/64', '123457/10000']


class C13(Check):
    id = 'C13'
    quick = 1300
    thorough = 20000
    case_timeout = 240
    rule = ('A case builds a geometry by boolean operations (with holes, islands in '
            'holes, several parts), then enlarges or shrinks it one or more times '
            'under a seeded scheduler of every internal order; some offsets are first '
            'cut short by an exception.  Each result is compared exactly with the '
            'union of the reference trapezoids (of the geometry, or of its complement) '
            'each enlarged by the kernel.  Distinct and non-trivial: non-empty result '
            'that differs from the operand; by (geometry, amounts, order decisions).')
    real = ['geom2d_simple_holes (buffer, Minkowski ribbons)', 'arrangement2d',
            'cell_merger', 'scan2d', 'frangle2d']
    stubs = ['iteration order of sets, hash(), id()', 'exceptions at chosen steps']
    assumptions = ['The kernel is read off an enlarged square; it must be convex, '
                   'symmetric and within 3% (vertices) of the disc.']

    def gen(self, r, i, tier):
        k = r.random()
        if k < .3:
            c = {'leaves': [shapes.gen_leaf(r)], 'ops': []}
        elif k < .6:
            c = c12.gen_program(r, r.randint(1, 3))
        else:
            # a frame, maybe with an island (maybe with a hole in it)
            n = r.randint(8, 12)
            lv = [{'ring': sq(0, 0, n, n)}]
            ops = []
            h = r.randint(1, 2)
            lv.append({'ring': sq(h, h, n - 2 * h, n - 2 * h)})
            ops.append(['sub', [1, 2]])
            x = r.randint(h + 1, n - h - 2)
            y = r.randint(h, n - h - 2)
            lv.append({'ring': sq(x, y, r.randint(1, n - h - x), r.randint(1, 2))})
            if r.random() < .35:
                # a small hole in the frame
                w = r.choice([Q(1, 2), Q(1, 4), Q(1)])
                lv[2] = {'ring': sq(r.randint(1, n - 3), r.choice([
                    Q(h, 4), n - h + Q(h, 4)]), w, w)}
                ops.append(['sub', [4, 3]])
                if r.random() < .5:
                    ops[0] = ['or', [1, 1]]
            elif r.random() < .3:
                lv.append(shapes.gen_leaf(r))
            nl = len(lv) + 1
            if len(ops) < 2 and r.random() < .8:
                ops.append(['or', [nl, 3]])
                if len(lv) > 3:
                    ops.append([r.choice(['or', 'sub', 'and']), [nl + 1, 4]])
            c = {'leaves': lv, 'ops': ops}
        c['ops'] = [o for o in c['ops'] if o[0] != 'many'] or c['ops'][:0]
        # registers may refer to dropped ones
        n = len(c['leaves']) + 1
        for o in c['ops']:
            o[1] = [min(j, n - 1) for j in o[1]]
            n += 1
        amts = []
        for _ in range(r.choice([1, 1, 1, 2])):
            amts.append(('-' if r.random() < .45 else '') + r.choice(AMOUNTS))
        if len(amts) == 2 and r.random() < .5:
            amts[1] = amts[0][1:] if amts[0][0] == '-' else '-' + amts[0]
        if r.random() < .03:
            amts[0] = '0'
        c['amounts'] = amts
        c['order'] = {'seed': r.randint(0, 10 ** 9), 'mode': r.choice(['any', 'any',
                                                                       'real'])}
        c['faults'] = {str(k): [r.choice(sorted(c12.EXC)), r.random()]
                       for k in range(len(amts)) if r.random() < .2}
        return c

    def run(self, case, st):
        m = world.mods
        F = m.F
        sched = pipeline.set_order(case['order'])
        regs = [m.Geom2D.empty()] + [shapes.leaf(d) for d in case['leaves']]
        for o in case['ops']:
            try:
                regs.append(c12.CHECK.apply(m, o, regs))
            except Exception:       # C12's business
                return []
        g = regs[-1]
        for k, a in enumerate(case['amounts']):
            region = ref.region_of(g)
            if c12.complexity(region) > 60:
                st.probe('geometry too large for the reference')
                return []
            amount = F(a)
            f = case['faults'].get(str(k))
            small = dict(case, amounts=case['amounts'][:k + 1])
            if f:
                self.cut(g, amount, f, st)
            try:
                h = g.buffer(amount)
                got = ref.region_of(h)
            except Exception as e:
                return [{'sig': 'raises', 'what': 'offset by %s raises %s: %s' % (
                    a, type(e).__name__, str(e)[:150]), 'case': small}]
            st.add('evaluations')
            st.log(a, sched.n)
            what = self.verify(m, region, got, amount)
            if what:
                return [{'sig': what[0], 'what': 'offset by %s: %s' % (a, what[1]),
                         'case': small}]
            st.probe('enlarged' if amount > 0 else 'shrunk')
            if got and got != region:
                st.reach(case['leaves'], case['ops'], case['amounts'][:k + 1],
                         sched.trace_crc)
            else:
                st.probe('vanished or unchanged')
            if any(hs for _, hs in region):
                st.probe('geometry with holes')
            g = h
        st.add('sim_steps', sched.n)
        st.fault('permuted orders', sched.permuted)
        st.sample(case)
        return []

    def cut(self, g, amount, f, st):
        at = 1 + int(f[1] ** 3 * 60000)
        fired = []

        def tick(n, code, line):
            steps.next = 1 << 62
            if not world.in_logging():
                fired.append(n)
                raise c12.EXC[f[0]]('injected')
        steps = world.Steps(first=at, on_tick=tick)
        with steps:
            try:
                g.buffer(amount)
            except (c12.Injected, MemoryError, KeyboardInterrupt):
                pass
            except Exception:
                st.probe('another exception after an injected one')
        if fired:
            st.fault('cut short by ' + f[0])

    def verify(self, m, region, got, amount):
        amt = ref.q(amount)
        if amt == 0 or not region:
            if ref.canonical(got) != ref.canonical(region):
                return 'zero', 'changes the geometry'
            return None
        err = shapes.structure(got)
        if err:
            return 'structure', err
        kern, err = shapes.kernel_of(m, abs(amount))
        if err:
            return 'kernel', err
        if amt > 0:
            pieces = shapes.dilation(region, kern)
            bad = ref.check_op(got, [pieces], lambda a: a)
        else:
            x0, y0, x1, y1 = shapes.simple_box(region)
            d = 2 * abs(amt) + 1
            outside = [(shapes.mink(t, kern), []) for t in shapes.complement_in(
                region, (x0 - d, y0 - d, x1 + d, y1 + d))]
            bad = ref.check_op(got, [region, outside], lambda a, b: a and not b)
        if bad:
            return 'wrong', '%s (at %s)' % (bad[1], c12.fmt(bad[0]))
        return None

    def shrink(self, case):
        if len(case['amounts']) > 1:
            yield dict(case, amounts=case['amounts'][1:], faults={})
        if case['faults']:
            yield dict(case, faults={})
        if case['ops']:
            yield dict(case, ops=case['ops'][:-1])
        nl = len(case['leaves'])
        if not case['ops'] and nl > 1:
            for k in range(nl):
                yield dict(case, leaves=[case['leaves'][k]])
        if case['order'].get('mode') != 'off':
            yield dict(case, order=dict(case['order'], mode='off'))
            lo, hi = case['order'].get('window') or (0, 1 << 14)
            if hi - lo > 1:
                mid = (lo + hi) // 2
                yield dict(case, order=dict(case['order'], window=[lo, mid]))
                yield dict(case, order=dict(case['order'], window=[mid, hi]))
        for k, d in enumerate(case['leaves']):
            for key in ('huge', 'map', 'den', 'at'):
                if key in d:
                    e = dict(d)
                    del e[key]
                    lv = list(case['leaves'])
                    lv[k] = e
                    yield dict(case, leaves=lv)


def sq(x, y, w, h):
    return [list(map(str, p)) for p in shapes._rect(x, y, w, h)]


CHECK = C13()
