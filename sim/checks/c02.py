"""C02: any history of joint decisions keeps the build state consistent."""
import random

from .. import models, pipeline, ref, world
from ..runner import Check
from .c12 import EXC, Injected

Q = ref.Q
KINDS = ['L', 'Lnotch', 'T', 'U', 'vee', 'cross', 'Lhole']
JUDGE = Q(1, 10 ** 4)


def draw_region(r, marks, lo, hi):
    """1D region as a list of [a, b]: ends from interesting points, or near them."""
    def point():
        k = r.random()
        if k < .45 and marks:
            p = r.choice(marks)
            if r.random() < .3:
                p += r.choice([1, -1]) * r.choice([Q(1, 10 ** 9), Q(1, 1000), 1])
            return p
        if k < .7:
            return lo + (hi - lo) * Q(r.randint(0, 12), 12)
        return lo - 1 + (hi - lo + 2) * Q(r.randint(0, 10 ** 6), 10 ** 6)
    out = []
    for _ in range(r.choice([1, 1, 1, 2, 3, 0])):
        a, b = point(), point()
        if a != b:
            out.append((min(a, b), max(a, b)))
    return pipeline.u1(out)


class Book:
    """The reference model of the joint decisions."""

    def __init__(self, sb):
        sp = sb.sheetplex
        self.ok, self.ch = {}, {}
        for a, _ in pipeline.sides_of(sp):
            self.ok[a.id] = pipeline.iv(sb.interside_ok[a.id])
            self.ch[a.id] = pipeline.iv(sb.interside_chosen[a.id])

    def copy(self):
        b = object.__new__(Book)
        b.ok, b.ch = dict(self.ok), dict(self.ch)
        return b


class C02(Check):
    id = 'C02'
    quick = 84
    thorough = 4000
    case_timeout = 240
    rule = ('A case extracts a generated model and plays seeded histories of choose / '
            'unchoose / rule out operations (single and in groups, firm and tentative, '
            'valid and contradictory, going back to earlier states) on its build '
            'state, some cut short by an exception at a random simulated step and '
            'repeated.  After each step the state is compared with a reference model '
            'of the joints and checked against the consistency rules with exact '
            'reference geometry.  Distinct and non-trivial: an accepted operation that '
            'changed the state; by (model, resulting state).')
    real = ['sheetbuild', 'sheetplex', 'create_sheetplex', 'geometry', 'pyrsistent']
    stubs = ['iteration orders', 'exceptions at chosen steps']
    assumptions = ['Contradictions smaller than 1e-4 are not judged (the code allows '
                   'some slack).', 'Joints do not overlap each other.']

    def gen(self, r, i, tier):
        model = models.generate(r, [KINDS[i % len(KINDS)]], scale=0.45)
        p = models.default_params(model, r)
        return {'model': model, 'params': p, 'seed': r.randint(0, 10 ** 9),
                'n': r.randint(16, 34), 'faults': r.choice([0, .1, .25]),
                'tentative': r.random() < .3,
                'order': {'seed': r.randint(0, 10 ** 9),
                          'mode': r.choice(['real', 'any'])}}

    # a step is a JSON value; 'steps' in a case replaces the random choice

    def pick(self, r, sb, book, case, sides, nstates):
        k = r.random()
        if k < .1 and nstates > 1:
            return ['back', r.randrange(nstates)]
        i = r.randrange(len(sides))
        side, opp = sides[i]
        marks = [v for s in (side, opp) for d in (book.ok, book.ch)
                 for t in d[s.id] for v in t]
        al = book.ok[side.id] or book.ch[side.id] or ((Q(0), Q(10)),)
        lo, hi = al[0][0], al[-1][1]
        reg = draw_region(r, marks, lo, hi)
        op = r.choice(['choose', 'choose', 'unchoose', 'area'])
        if op == 'choose' and r.random() < .65:
            reg = pipeline.i1(reg, book.ok[side.id])
        if op == 'unchoose' and r.random() < .65:
            reg = pipeline.d1(reg, book.ch[side.id])
        if op == 'area':
            side_frac = [r.randint(-2, 6), r.randint(1, 6)]
            st = ['area', i, enc(reg), side_frac, r.random() < .5]
        else:
            st = [op, i, enc(reg)]
            if op == 'choose':
                st.append(bool(case['tentative'] and r.random() < .4))
            st.append(r.random() < .25)       # the form for several at once
        if r.random() < case['faults']:
            st = ['cut', r.choice(sorted(EXC)), r.random(), st]
        return st

    def run(self, case, st):
        m = world.mods
        sched = pipeline.set_order(case['order'])
        params = models.params_of(case['params'])
        try:
            _, sp = pipeline.extract(case['model'], params)
            sb = m.sheetbuild.create_sheetbuild(sp, params)
        except Exception as e:
            st.probe('model refused: ' + type(e).__name__)
            return []
        sides = pipeline.sides_of(sp)
        if not sides:
            return []
        R = pipeline.Regions()
        bad = pipeline.check_state(sb, R)
        if bad:
            return [{'sig': 'initial', 'what': 'the initial state: ' + bad[0],
                     'case': dict(case, steps=[])}]
        r = random.Random('hist/%s' % case['seed'])
        states = [(sb, Book(sb), False, pipeline.hexdig(sb))]
        cur = 0
        steps = []
        todo = case.get('steps')

        def fail(sig, what):
            return [{'sig': sig, 'what': what, 'case': dict(case, steps=list(steps)),
                     'trace': [repr(s) for s in steps]}]

        for n in range(case['n'] if todo is None else len(todo)):
            sb, book, soft, dig = states[cur]
            step = todo[n] if todo is not None else self.pick(
                r, sb, book, case, sides, len(states))
            steps.append(step)
            if step[0] == 'back':
                cur = min(step[1], len(states) - 1)
                st.add('went back to an earlier state')
                continue
            if step[0] == 'cut':
                self.cut(m, sb, sides, step, st)
                if pipeline.hexdig(sb) != dig:
                    return fail('changed', 'an interrupted operation changed the '
                                           'state it started from')
                step = step[3]
            err, new = None, None
            verdict, want = self.model(sb, book, sides, step, R)
            try:
                new = self.apply(m, sb, sides, step)
            except Exception as e:
                err = e
            st.add('evaluations')
            st.log(step, type(err).__name__)
            if pipeline.hexdig(sb) != dig:
                return fail('changed', '%s changed the state it started from' % step[0])
            if err is not None:
                st.probe('refused' if verdict == 'refuse' else 'refused (unjudged)')
                if verdict == 'accept':
                    return fail('refused', 'the consistent decision %s is refused: '
                                '%s %s' % (step[:2], type(err).__name__,
                                           str(err)[:150]))
                if isinstance(err, (AttributeError, TypeError, NameError)):
                    return fail('accident', '%s is not refused, but fails with %s: %s'
                                % (step[0], type(err).__name__, str(err)[:150]))
                continue
            if verdict == 'refuse':
                return fail('accepted', '%s contradicts an earlier decision but is '
                                        'accepted' % step[:2])
            st.probe('accepted ' + step[0])
            soft = soft or (step[0] == 'choose' and step[3])
            bad = pipeline.check_state(new, R, firm=not soft) or \
                self.post(sb, new, want, sides, step, R)
            if bad:
                return fail('inconsistent', 'after %s: %s' % (step[:2], bad[0]))
            if n % 7 == 3:
                try:
                    new.check(force=True)
                except Exception as e:
                    return fail('self-check', 'the forced check rejects a consistent '
                                'state: %s' % (str(e)[:150]))
            nd = pipeline.hexdig(new)
            if nd != dig:
                st.reach(case['model'], nd)
            states.append((new, want or Book(new), soft, nd))
            cur = len(states) - 1
        for sb, _, _, dig in states:
            if pipeline.hexdig(sb) != dig:
                return fail('changed', 'an earlier state was changed by later '
                                       'operations')
        st.add('sim_steps', sched.n)
        st.fault('permuted orders', sched.permuted)
        st.sample({'model': case['model'], 'steps': steps[:6]})
        return []

    def geom(self, m, reg):
        return m.Geom1D([[m.F(a), m.F(b)] for a, b in dec(reg)])

    def area_of(self, sides, step):
        """The sheet and ring of a ruled-out area."""
        side, _ = sides[step[1] % len(sides)]
        f0, fl = step[3]
        lo, hi = side.min_normal_offset, side.max_normal_offset
        a = ref.q(lo) + (ref.q(hi) - ref.q(lo)) * Q(f0, 4)
        b = a + (ref.q(hi) - ref.q(lo)) * Q(fl, 4)
        out = []
        for t0, t1 in dec(step[2]):
            pts = []
            for t, n in ((t0, a), (t0, b), (t1, b), (t1, a)):
                al = t + ref.q(side.origin_offset)
                pts.append((al * side.direction[0] + n * side.normal[0],
                            al * side.direction[1] + n * side.normal[1]))
            if ref.ring_area(pts) < 0:
                pts.reverse()
            out.append((pts, []))
        return side.sheet, out

    def area_geom(self, m, region):
        g = m.Geom2D.empty()
        for o, _ in region:
            g = g | m.Geom2D.polygon([(m.F(x), m.F(y)) for x, y in o])
        return g

    def apply(self, m, sb, sides, step):
        if step[0] == 'area':
            sheet, region = self.area_of(sides, step)
            g = self.area_geom(m, region)
            if step[4]:
                g = g - sb.sheet_chosen[sheet]
            return sb.unchoose_sheet_area(sheet, g)
        side, _ = sides[step[1] % len(sides)]
        g = self.geom(m, step[2])
        if step[0] == 'choose':
            if step[4]:
                return sb.choose_intersides({side.id: g}, tentative=step[3])
            return sb.choose_interside(side.id, g, tentative=step[3]) \
                if step[3] else sb.choose_interside(side.id, g)
        if step[3]:
            return sb.unchoose_intersides({side.id: g})
        return sb.unchoose_interside(side.id, g)

    def model(self, sb, book, sides, step, R):
        """('accept' | 'refuse' | 'either', the book afterwards)."""
        def judge(v):
            return 'accept' if v == 0 else 'refuse' if v > JUDGE else 'either'
        want = book.copy()
        if step[0] == 'area':
            if step[4]:
                return 'accept', want
            sheet, region = self.area_of(sides, step)
            a = pipeline.common_area(R(sb.sheet_chosen[sheet]), merge(region))
            return judge(a), want
        side, opp = sides[step[1] % len(sides)]
        v = dec(step[2])
        if step[0] == 'choose':
            out = pipeline.m1(pipeline.d1(v, book.ok[side.id]))
            hit = pipeline.common_area(pipeline.finger_region(opp, v),
                                       R(sb.sheet_chosen[opp.sheet]))
            want.ch[side.id] = pipeline.u1(want.ch[side.id], v)
            want.ok[opp.id] = pipeline.d1(want.ok[opp.id], v)
            return judge(max(out, hit)), want
        hit = pipeline.m1(pipeline.i1(v, book.ch[side.id]))
        want.ok[side.id] = pipeline.d1(want.ok[side.id], v)
        return judge(hit), want

    def post(self, old, new, want, sides, step, R):
        """The decision was recorded, and nothing else."""
        bad = []
        for s, _ in sides:
            for k, d, got in (('chosen', want.ch, new.interside_chosen),
                              ('allowed', want.ok, new.interside_ok)):
                a, b = d[s.id], pipeline.iv(got[s.id])
                if pipeline.m1(pipeline.d1(a, b)) + pipeline.m1(
                        pipeline.d1(b, a)) > pipeline.TOL1:
                    bad.append('side %s: the %s part is %s, should be %s' % (
                        s.id, k, fl(b), fl(a)))
        add, sub = {}, {}
        if step[0] == 'area':
            sheet, region = self.area_of(sides, step)
            sub[sheet] = merge(region)
        elif step[0] == 'choose':
            side, opp = sides[step[1] % len(sides)]
            sub[opp.sheet] = pipeline.finger_region(opp, dec(step[2]))
            if not step[3]:
                add[side.sheet] = pipeline.finger_region(side, dec(step[2]))
        for s in sorted(new.sheetplex.sheets.keys()):
            for k, o, g, reg in (('chosen', old.sheet_chosen, new.sheet_chosen,
                                  add.get(s)),
                                 ('allowed', old.sheet_ok, new.sheet_ok, sub.get(s))):
                ro, rn = R(o[s]), R(g[s])
                if reg is None:
                    if ro != rn and pipeline.diff_area(ro, rn) + pipeline.diff_area(
                            rn, ro) > pipeline.TOL2:
                        bad.append('the %s part of sheet %s changed' % (k, s))
                    continue
                wrong = Q(0)
                regs = [ro, rn, reg] + ([R(old.sheet_ok[s]), R(old.sheet_chosen[s])])
                for _, a, mu in ref.cells(regs):
                    mu = [x > 0 for x in mu]
                    if k == 'chosen':
                        w = mu[0] or (mu[2] and mu[3])
                    else:
                        w = mu[0] and not mu[2]
                        if step[0] == 'area' and step[4] and mu[4]:
                            w = mu[0]
                    if w != mu[1]:
                        wrong += a
                if wrong > pipeline.TOL2:
                    bad.append('the %s part of sheet %s is wrong by area %.3g' % (
                        k, s, wrong))
        return bad

    def cut(self, m, sb, sides, step, st):
        at = 1 + int(step[2] ** 3 * 60000)
        fired = []

        def tick(n, code, line):
            clock.next = 1 << 62
            if not world.in_logging():
                fired.append(n)
                raise EXC[step[1]]('injected')
        clock = world.Steps(first=at, on_tick=tick)
        with clock:
            try:
                self.apply(m, sb, sides, step[3])
            except (Injected, MemoryError, KeyboardInterrupt):
                pass
            except Exception:
                pass            # refused
        if fired:
            st.fault('cut short by ' + step[1])

    def shrink(self, case):
        s = case.get('steps') or []
        n = len(s)
        k = n // 2
        while k >= 1:
            for a in range(0, n - 1, k):
                yield dict(case, steps=s[:a] + s[min(a + k, n - 1):])
            k //= 2
        for i, x in enumerate(s):
            if x[0] == 'cut':
                yield dict(case, steps=s[:i] + [x[3]] + s[i + 1:])
        if case['order'].get('mode') != 'off':
            yield dict(case, order={'seed': 0, 'mode': 'off'})
        for k in ('rot', 'shift', 'tri_order'):
            if k in case['model']:
                md = dict(case['model'])
                del md[k]
                yield dict(case, model=md)


def merge(region):
    """Rings of disjoint intervals do not overlap."""
    return region


def enc(reg):
    return [[str(a), str(b)] for a, b in reg]


def dec(reg):
    return tuple((Q(a), Q(b)) for a, b in reg)


def fl(ivs):
    return [(float(a), float(b)) for a, b in ivs]


CHECK = C02()
