"""C20: processing steps work on any consistent state, in any order."""
import random

from .. import models, pipeline, ref, world
from ..runner import Check
from .c02 import CHECK as HIST, Book
from .c12 import EXC, Injected

Q = ref.Q
KINDS = ['L', 'T', 'vee', 'cross', 'U', 'Lhole', 'Lnotch', 'corner']
STEPS = ['choose_obviously_irrelevant', 'remove_loose', 'update_intersection_ok',
         'update_sheet_ok', 'heuristic_multi_inter_single_decisions',
         'choose_the_ok_side', 'single_fingers_random', 'clean_up_thin_ok_parts']
# models with joints that overlap each other
OVERLAP = ('corner', 'tray', 'cornerslot')
# the usual order of work, which random programs deviate from
USUAL = [0, 1, 2, 3, 2, 1, 2, 4, 2, 5, 6, 7]


def narrowing(old, new, R):
    """What was decided in `old` and is not in `new`."""
    sp = old.sheetplex
    bad = []
    for s in sorted(sp.sheets.keys()):
        for what, a, b in (('chosen', R(old.sheet_chosen[s]), R(new.sheet_chosen[s])),
                           ('ruled out', R(new.sheet_ok[s]), R(old.sheet_ok[s]))):
            if a != b:
                d = pipeline.diff_area(a, b)
                if d > pipeline.TOL2:
                    bad.append('area %.3g of sheet %s was %s before' % (d, s, what))
    for a, _ in pipeline.sides_of(sp):
        for what, x, y in (
                ('chosen', old.interside_chosen, new.interside_chosen),
                ('ruled out', new.interside_ok, old.interside_ok)):
            d = pipeline.m1(pipeline.d1(pipeline.iv(x[a.id]), pipeline.iv(y[a.id])))
            if d > pipeline.TOL1:
                bad.append('%.3g of side %s was %s before' % (d, a.id, what))
    return bad


class C20(Check):
    id = 'C20'
    quick = 64
    thorough = 3000
    case_timeout = 300
    rule = ('A case extracts a generated model and plays a seeded program of the '
            'public processing steps (permuted, repeated and left out), mixed with '
            'decisions of the caller, going back to earlier states, and steps cut '
            'short by an exception at a random simulated step and then repeated.  '
            'Each resulting state is judged with exact reference geometry: '
            'consistent, nothing revoked or allowed again; the state it came from '
            'unchanged; the same step again on the same state gives the same '
            'result.  Distinct and non-trivial: a step that changed the state; by '
            '(model, resulting state).')
    real = ['heuristics', 'sheetbuild', 'sheetplex', 'create_sheetplex', 'geometry',
            'pyrsistent', 'numpy.random']
    stubs = ['iteration orders', 'exceptions at chosen steps']
    assumptions = ['A step may refuse a state (with an error).',
                   'Deviations below 1e-6 (1e-4 in area) are not judged: the code '
                   'allows itself some slack.',
                   'Decisions of the caller are not mixed in where joints overlap '
                   'each other.']

    def gen(self, r, i, tier):
        kinds = KINDS + (['Toff', 'island', 'tray', 'cornerslot'] if tier != 'quick' else [])
        kind = kinds[i % len(kinds)]
        model = models.generate(r, [kind], scale=0.45)
        p = models.default_params(model, r)
        usual = list(USUAL)
        k = r.random()
        n = r.randint(7, 12)
        if k < .35:         # the usual order with steps swapped, left out, repeated
            for _ in range(r.randint(1, 4)):
                a = r.randrange(len(usual))
                c = r.random()
                if c < .35:
                    usual.insert(r.randrange(len(usual)), usual[a])
                elif c < .7 and len(usual) > 4:
                    del usual[a]
                else:
                    b = r.randrange(len(usual))
                    usual[a], usual[b] = usual[b], usual[a]
            prog = usual[:14]
        elif k < .6:        # late steps early, then everything
            prog = [r.choice([2, 3, 5, 6, 7]) for _ in range(r.randint(1, 3))] + [
                r.randrange(8) for _ in range(n - 2)]
        else:
            prog = [r.randrange(8) for _ in range(n)]
        steps = [['step', x] for x in prog]
        mixed = kind not in OVERLAP and r.random() < .6
        out = []
        for s in steps:
            if mixed and r.random() < .35:
                out.append(['user', r.randint(0, 10 ** 9)])
            if kind not in OVERLAP and r.random() < .08:
                out.append(['isle', r.randint(0, 10 ** 9)])
                if r.random() < .5:
                    out.append(['step', STEPS.index('remove_loose')])
            if r.random() < .08:
                out.append(['back', r.randint(0, 10 ** 9)])
            if r.random() < .12:
                out.append(['cut', r.choice(sorted(EXC)), r.random(), s[1]])
            out.append(s)
            if r.random() < .1:
                out.append(s)
        return {'model': model, 'params': p, 'steps': out,
                'order': {'seed': r.randint(0, 10 ** 9),
                          'mode': r.choice(['real', 'any'])}}

    def run(self, case, st):
        m = world.mods
        sched = pipeline.set_order(case['order'])
        params = models.params_of(case['params'])
        try:
            _, sp = pipeline.extract(case['model'], params)
            sb = m.sheetbuild.create_sheetbuild(sp, params)
        except Exception as e:
            st.probe('model refused: ' + type(e).__name__)
            return []
        sides = pipeline.sides_of(sp)
        R = pipeline.Regions()
        states = [(sb, pipeline.hexdig(sb), False)]
        cur = 0
        done = []

        def fail(sig, what):
            return [{'sig': sig, 'what': what,
                     'case': dict(case, steps=list(done)),
                     'trace': [self.name(s) for s in done]}]

        for step in case['steps']:
            sb, dig, soft = states[cur]
            done.append(step)
            kind = step[0]
            if kind == 'back':
                cur = step[1] % len(states)
                st.add('went back to an earlier state')
                continue
            if kind == 'cut':
                f = getattr(m.heuristics, STEPS[step[3]], None)
                if f is None:
                    continue
                want = self.outcome(f, sb, params)
                self.cut(f, sb, params, step, st)
                if self.outcome(f, sb, params) != want:
                    return fail('after a failure', '%s gives another result after '
                                'it was cut short (%s) and done again' % (
                                    STEPS[step[3]], step[1]))
                if pipeline.hexdig(sb) != dig:
                    return fail('changed', '%s, cut short, changed the state it '
                                           'started from' % STEPS[step[3]])
                continue
            new, err = None, None
            if kind == 'isle':
                new = self.isle(m, sb, sides, step)
                if new is None or pipeline.check_state(new, R):
                    continue
                op = ('an isle',)
                st.add('chosen pieces cut loose by the caller')
            elif kind == 'user':
                if not sides:
                    continue
                r = random.Random('user/%d' % step[1])
                book = Book(sb)
                op = HIST.pick(r, sb, book, {'faults': 0, 'tentative': False}, sides,
                               1)
                verdict, _ = HIST.model(sb, book, sides, op, R)
                if verdict != 'accept':
                    continue    # contradictory decisions are for C02
                try:
                    new = HIST.apply(m, sb, sides, op)
                except Exception as e:
                    # judged in C02
                    st.probe('decision refused: ' + type(e).__name__)
                    continue
                st.add('decisions of the caller')
            else:
                f = getattr(m.heuristics, STEPS[step[1]], None)
                if f is None:
                    continue
                try:
                    new = f(sb, params)
                except Exception as e:
                    err = e
                st.add('evaluations')
                st.log(STEPS[step[1]], type(err).__name__)
                if pipeline.hexdig(sb) != dig:
                    return fail('changed', '%s changed the state it started from'
                                % STEPS[step[1]])
                if err is not None:
                    st.probe('refused: %s %s' % (STEPS[step[1]],
                                                 type(err).__name__))
                    continue
                st.probe('accepted: ' + STEPS[step[1]])
            what = STEPS[step[1]] if kind == 'step' else 'a decision (%s)' % (op[0],)
            nd = pipeline.hexdig(new)
            if nd != dig:
                bad = pipeline.check_state(new, R)
                if bad:
                    return fail('inconsistent', 'after %s: %s' % (what, bad[0]))
                if kind == 'step':
                    bad = narrowing(sb, new, R)
                    if bad:
                        return fail('widened', '%s: %s' % (what, bad[0]))
                st.reach(case['model'], nd)
            if kind == 'step':
                try:
                    new.check(force=True)
                except AssertionError as e:
                    return fail('self-check', 'the forced check rejects the state '
                                'after %s: %s' % (what, str(e)[:150]))
                if len(states) % 4 == 1:
                    try:
                        again = f(sb, params)
                    except Exception as e:
                        return fail('again', '%s fails when done once more on the '
                                    'same state: %s %s' % (what, type(e).__name__,
                                                           str(e)[:150]))
                    # the orders of unordered collections differ now: compare what
                    # the states mean
                    if pipeline.state_digest(again) != pipeline.state_digest(new):
                        return fail('again', '%s gives another result when done once '
                                    'more on the same state' % what)
            states.append((new, nd, soft))
            cur = len(states) - 1
        for sb, dig, _ in states:
            if pipeline.hexdig(sb) != dig:
                return fail('changed', 'an earlier state was changed later')
        st.add('sim_steps', sched.n)
        st.fault('permuted orders', sched.permuted)
        st.sample({'model': case['model'], 'steps': [self.name(s) for s in done][:8]})
        return []

    def isle(self, m, sb, sides, step):
        """A state in which a part of a joint is chosen but nothing around it."""
        if not sides:
            return None
        r = random.Random('isle/%d' % step[1])
        side, _ = r.choice(sides)
        ok = pipeline.iv(sb.interside_ok[side.id])
        if not ok:
            return None
        a, b = r.choice(ok)
        k, n = sorted(r.sample(range(0, 9), 2))
        k, n = a + (b - a) * k / 8, a + (b - a) * n / 8
        if r.random() < .4:     # next to nothing
            n = min(n, k + ref.Q(1, r.choice([500, 1000, 2000])))
        f = m.Geom1D([[m.F(k), m.F(n)]])
        g = r.choice([m.F(1, 2), m.F(1), m.F(2)])
        cut = side.make_fingers(f.buffer(g), m.F(-1, 2), m.F(3, 2)) \
            - side.make_fingers(f)
        try:
            sb = sb.choose_interside(side.id, f)
        except Exception:
            return None
        for k in ('sheet_chosen', 'sheet_ok'):
            v = getattr(sb, k)
            sb = sb.set(k, v.set(side.sheet, v[side.sheet] - cut))
        return sb

    def name(self, s):
        return {'step': lambda: STEPS[s[1]],
                'cut': lambda: 'cut %s %s' % (STEPS[s[3]], s[1]),
                'user': lambda: 'decision %d' % s[1],
                'isle': lambda: 'isle %d' % s[1],
                'back': lambda: 'back'}[s[0]]() if s[0] != 'step' else STEPS[s[1]]

    def outcome(self, f, sb, params):
        try:
            return pipeline.state_digest(f(sb, params))
        except Exception as e:
            return type(e).__name__

    def cut(self, f, sb, params, step, st):
        at = 1 + int(step[2] ** 3 * 200000)
        fired = []

        def tick(n, code, line):
            clock.next = 1 << 62
            if not world.in_logging():
                fired.append(n)
                raise EXC[step[1]]('injected')
        clock = world.Steps(first=at, on_tick=tick)
        with clock:
            try:
                f(sb, params)
            except (Injected, MemoryError, KeyboardInterrupt):
                pass
            except Exception:
                pass            # refused
        if fired:
            st.fault('cut short by ' + step[1])

    def shrink(self, case):
        s = case['steps']
        n = len(s)
        k = n // 2
        while k >= 1:
            for a in range(0, n - 1, k):
                yield dict(case, steps=s[:a] + s[min(a + k, n - 1):])
            k //= 2
        if case['order'].get('mode') != 'off':
            yield dict(case, order={'seed': 0, 'mode': 'off'})
        for k in ('rot', 'shift', 'tri_order'):
            if k in case['model']:
                md = dict(case['model'])
                del md[k]
                yield dict(case, model=md)


CHECK = C20()
