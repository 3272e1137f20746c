"""C05: random fingers fill each open stretch and respect the width limits."""
import math
import random

from .. import models, pipeline, ref, seams, world
from ..runner import Check

Q = ref.Q
TOL = Q(1, 10 ** 6)
KINDS = ['L', 'T', 'U', 'corner', 'vee', 'cross', 'Lnotch']
WIDTHS = [('3', '5'), ('3', '5'), ('2', '3'), ('10/3', '5'), ('5/2', '5'), ('33/10', '34/10'),
          ('3', '3'), ('10/3', '10/3'), ('7/3', '29/7'), ('1', '10'), ('4', '41/10'),
          ('27/10', '19/2'), ('6', '7'), ('3', '30001/10000')]


def lengths(r, mn, mx):
    """A stretch length, preferably at a limit of what is admissible."""
    n = r.choice([1, 1, 2, 2, 3, 4, 5, 6, 7])
    k = r.random()
    if k < .2:
        v = n * mn
    elif k < .4:
        v = n * mx
    elif k < .5:
        v = n * mn + (n * mx - n * mn) * Q(r.randint(0, 1000), 1000)
    elif k < .6:
        v = (n * mx + (n + 1) * mn) / 2
    else:
        v = Q(r.randint(1, 30 * 60), 60)
    if r.random() < .4:
        v += r.choice([1, -1]) * r.choice([Q(1, 10 ** 12), Q(1, 10 ** 9),
                                          Q(1, 10 ** 7), Q(1, 10 ** 4), Q(1, 100)])
    return max(v, Q(1, 50))


def admissible(L, mn, mx, tol):
    """Numbers of fingers that fit the stretch (limits relaxed by tol)."""
    lo = max(1, math.ceil((L - tol) / mx))
    hi = math.floor((L + tol) / mn)
    return range(lo, hi + 1)


class C05(Check):
    id = 'C05'
    quick = 70
    thorough = 4000
    case_timeout = 240
    rule = ('A case is a build state with open stretches (built by choosing and ruling '
            'out parts of the joints of a model, with lengths at the limits of what '
            'is admissible, or reached by the real processing steps) and several '
            'streams of random values, each delivered to the finger generation by a '
            'scheduled generator.  The resulting fingers are judged exactly.  Distinct '
            'and non-trivial: a stretch that got two or more fingers; by (stretch, '
            'fingers).')
    real = ['heuristics', 'sheetbuild', 'create_sheetplex', 'geometry']
    stubs = ['2D material of the sheets (in most cases, to reach more joints)',
             'random generator (any value the real one may deliver)',
             'iteration orders']
    assumptions = ['Widths are judged with a tolerance of 1e-6.', 'A stretch whose only '
                   'admissible number of fingers does not fit its neighbours may go to '
                   'one sheet.']

    def gen(self, r, i, tier):
        mn, mx = r.choice(WIDTHS)
        if i % 7 == 6:
            model = models.generate(r, [KINDS[i // 7 % len(KINDS)]], scale=.45)
            p = models.default_params(model, r)
            if r.random() < .7 and Q(mn) > 2:
                p['min_finger_width'], p['max_finger_width'] = mn, mx
            how, bare = 'steps', False
        else:
            model = models.generate(r, [r.choice(['L', 'L', 'T', 'vee'])], scale=.45,
                                    rotate=.15)
            bare = r.random() < .8
            w = r.randint(20, 110) if bare else r.randint(16, 40)
            if model['kind'] == 'vee':
                model['w'] = float(w)
            else:
                for b in model['boxes']:
                    b[1][1] = w
            p = models.default_params(model)
            p['min_finger_width'], p['max_finger_width'] = mn, mx
            how = 'states'
        case = {'model': model, 'params': p, 'how': how,
                'order': {'seed': r.randint(0, 10 ** 9),
                          'mode': r.choice(['off', 'real', 'any'])},
                'streams': [pipeline.gen_rng(r) if r.random() < .9
                            else {'real': r.choice([0, 1, 42, 2 ** 32 - 1,
                                                    r.randint(0, 2 ** 32 - 1)])}
                            for _ in range(4 if how == 'steps' else 12 if bare else 4)]}
        if how == 'states':
            case['bare'] = bare
            case['layouts'] = [[r.randint(0, 10 ** 9), r.choice([.3, .5, .8])]
                               for _ in range(1 if tier == 'quick' else 2)]
        return case

    def layout(self, spec, lo, hi, mn, mx):
        """Pieces of a joint: [kind, from, to]."""
        r = random.Random('layout/%s' % spec[0])
        out = []
        x = lo + r.choice([Q(0), Q(0), Q(1, 3), Q(1)])
        prev = None
        while x < hi:
            k = 'open' if r.random() < spec[1] and prev != 'open' else r.choice(
                ['0', '1', '0', '1', 'none'])
            if k == 'open':
                L = lengths(r, mn, mx)
            else:
                L = r.choice([Q(1, 2), Q(1), Q(2), Q(3), Q(7, 3)])
            y = min(x + L, hi)
            if hi - y < Q(1, 20):
                y = hi
            out.append([k, x, y])
            x, prev = y, k
        return out

    def states(self, m, case, sb, st):
        """Build states with open stretches."""
        sp = sb.sheetplex
        mn, mx = (Q(case['params'][k]) for k in ('min_finger_width',
                                                 'max_finger_width'))
        for spec in case['layouts']:
            s = sb
            try:
                for k in sorted(sp.intersections.keys()):
                    a, b = sp.intersections[k].sides
                    both = pipeline.i1(pipeline.iv(s.interside_ok[a.id]),
                                       pipeline.iv(s.interside_ok[b.id]))
                    for lo, hi in both:
                        for kind, x, y in self.layout(spec, lo, hi, mn, mx):
                            g = m.Geom1D([[m.F(x), m.F(y)]])
                            if kind == 'none':
                                s = s.unchoose_intersides({a.id: g, b.id: g})
                            elif kind != 'open':
                                s = s.choose_interside((a, b)[int(kind)].id, g)
                    for side in (a, b):     # parts open to one sheet only
                        one = pipeline.d1(pipeline.iv(s.interside_ok[side.id]), both)
                        if one:
                            s = s.unchoose_interside(side.id, m.Geom1D(
                                [[m.F(x), m.F(y)] for x, y in one]))
            except AssertionError as e:
                st.probe('state not reachable')
                continue
            yield spec, s

    def run(self, case, st):
        m = world.mods
        sched = pipeline.set_order(case['order'])
        params = models.params_of(case['params'])
        todo = []
        if case['how'] == 'states':
            try:
                _, sp = pipeline.extract(case['model'], params)
                sb = m.sheetbuild.create_sheetbuild(sp, params)
                if case.get('bare'):
                    # the same joints on sheets whose material is stubbed out
                    none = {k: m.Geom2D.empty() for k in sp.sheets.keys()}
                    sb = sb.set('sheet_ok', m.pyrsistent.pmap(none)).set(
                        'sheet_chosen', m.pyrsistent.pmap(none))
            except Exception as e:
                st.probe('model refused: ' + type(e).__name__)
                return []
            todo = list(self.states(m, case, sb, st))
        else:
            o = pipeline.simulate(case, st, spy=True)
            for name, sb, after in (o.spy.calls if o.spy else ()):
                if name == 'single_fingers_random':
                    todo.append((None, sb))
            if not todo:
                st.probe('steps failed earlier')
        out = []
        for spec, sb in todo:
            for rng in case['streams']:
                v = self.play(m, case, spec, sb, params, rng, st)
                if v:
                    out.append(v)
                    break
            if out:
                break
        st.add('sim_steps', sched.n)
        st.fault('permuted orders', sched.permuted)
        return out

    def play(self, m, case, spec, sb, params, rng, st):
        small = dict(case, streams=[rng])
        if spec is not None:
            small['layouts'] = [spec]

        def fail(sig, what):
            return {'sig': sig, 'what': what, 'case': small,
                    'trace': ['random stream: %s' % (rng,)]}
        p = dict(params)
        real = 'real' in rng
        if real:
            p['random_seed'] = rng['real']
        before = pipeline.hexdig(sb)
        st.add('evaluations')
        with world.RNGSeam(None if real else rng) as seam:
            try:
                new = m.heuristics.single_fingers_random(sb, p)
            except Exception as e:
                return fail('fails', 'finger generation fails: %s %s' % (
                    type(e).__name__, str(e)[:160]))
        st.fault('scheduled random stream')
        st.add('random values delivered', sum(
            getattr(g, 'draws', 0) for g in seam.created))
        bad = self.judge(sb, new, params, st)
        if bad:
            return fail(*bad)
        if case['how'] == 'steps':
            try:
                m.heuristics.clean_up_thin_ok_parts(new, p).check(force=True)
            except Exception as e:
                return fail('fails', 'the run fails after finger generation: %s %s' % (
                    type(e).__name__, str(e)[:160]))
        if pipeline.hexdig(sb) != before:
            return fail('changed', 'finger generation changed the state it started '
                                   'from')
        st.log(pipeline.hexdig(new))
        return None

    def judge(self, sb, new, params, st):
        iv, i1, d1, u1, m1 = (pipeline.iv, pipeline.i1, pipeline.d1, pipeline.u1,
                              pipeline.m1)
        mn, mx = Q(params['min_finger_width']), Q(params['max_finger_width'])
        sp = sb.sheetplex
        for k in sorted(sp.intersections.keys()):
            sides = sp.intersections[k].sides
            free = [d1(iv(sb.interside_ok[s.id]), iv(sb.interside_chosen[s.id]))
                    for s in sides]
            ch = [iv(new.interside_chosen[s.id]) for s in sides]
            for a, b in i1(*free):
                L = b - a
                st.add('stretches')
                got = [i1(c, ((a, b),)) for c in ch]
                name = 'the stretch of length %.12g of joint %s' % (L, k)
                if m1(i1(*got)) > TOL:
                    return 'overlap', '%s: fingers of the two sheets overlap' % name
                gap = d1(((a, b),), u1(*got))
                if m1(gap) > TOL:
                    return 'gap', '%s: a gap of %.3g is left, at %s' % (
                        name, m1(gap), [(float(x), float(y)) for x, y in gap[:3]])
                fs = sorted((x, y, s) for s in (0, 1) for x, y in got[s]
                            if y - x > TOL)
                # (a sliver of rounding between two fingers of one sheet)
                merged = []
                for x, y, s in fs:
                    if merged and merged[-1][2] == s and x - merged[-1][1] <= TOL:
                        merged[-1] = (merged[-1][0], y, s)
                    else:
                        merged.append((x, y, s))
                fs = merged
                if not fs:
                    continue
                one = len(fs) == 1
                if one:
                    n = admissible(L, mn, mx, Q(0))
                    st.probe('whole stretch to one sheet')
                    if not (mn - TOL <= L <= mx + TOL) and len(
                            [x for x in n]) >= 2 and L > mx:
                        return 'undivided', '%s goes to one sheet, although %s fingers ' \
                            'would fit' % (name, list(n)[:6])
                    continue
                st.probe('divided stretch')
                if any(fs[j][2] == fs[j + 1][2] for j in range(len(fs) - 1)):
                    return 'alternate', '%s: fingers do not alternate' % name
                for x, y, s in fs:
                    if not mn - TOL <= y - x <= mx + TOL:
                        return 'width', '%s: a finger of width %.9g (allowed %s to ' \
                            '%s)' % (name, y - x, mn, mx)
                st.reach(L, fs)
            # nothing happens elsewhere
            for s in (0, 1):
                old = iv(sb.interside_chosen[sides[s].id])
                d = m1(d1(old, ch[s])) + m1(d1(d1(ch[s], old), free[s]))
                if d > TOL:
                    return 'elsewhere', 'joint %s: the part chosen for sheet %s ' \
                        'changed by %.3g outside the open stretches' % (
                            k, sides[s].sheet, d)
        return None

    def shrink(self, case):
        if len(case['streams']) > 1:
            for s in case['streams']:
                yield dict(case, streams=[s])
        if len(case['streams']) == 1 and 'real' not in case['streams'][0]:
            s = case['streams'][0]
            for k in ('uniform', 'randint', 'shuffle'):
                if s.get(k) != 'lo':
                    yield dict(case, streams=[dict(s, **{k: 'lo'})])
        if case['order']['mode'] != 'off':
            yield dict(case, order={'seed': 0, 'mode': 'off'})
        for k in ('rot', 'shift', 'tri_order'):
            if k in case['model']:
                md = dict(case['model'])
                del md[k]
                yield dict(case, model=md)
        if case['how'] == 'states' and case['model']['kind'] != 'vee':
            w = case['model']['boxes'][0][1][1]
            for w2 in (20, w // 2, w - 5):
                if 15 <= w2 < w:
                    yield dict(case, model=dict(case['model'], boxes=[
                        [b[0], [b[1][0], w2, b[1][2]]] for b in
                        case['model']['boxes']]))


CHECK = C05()
