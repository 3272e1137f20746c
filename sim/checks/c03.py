"""C03: a run never revokes a decision and never re-allows what was ruled out."""
from .. import models, pipeline, ref, world
from ..runner import Check

Q = ref.Q
KINDS = ['L', 'T', 'U', 'corner', 'Lnotch', 'vee', 'cross', 'Lhole', 'Toff', 'corner',
         'island', 'U', 'long']


class C03(Check):
    id = 'C03'
    quick = 78
    thorough = 3000
    case_timeout = 300
    rule = ('A case is a generated model with parameters, processed under a seeded '
            'scheduler of every internal order and a scheduled random stream (also '
            'with parameters that make it fail half way).  All consecutive recorded '
            'states are compared exactly.  Distinct and non-trivial: a run with at '
            'least one joint; by (model, parameters, order decisions, random stream).')
    real = ['create_sheetplex', 'canned', 'heuristics', 'sheetbuild', 'geometry']
    stubs = ['iteration orders', 'random generator']
    assumptions = ['Differences below 1e-6 (length) and 1e-5 (area) are rounding '
                   'slack the code documents.']

    def gen(self, r, i, tier):
        c = pipeline.gen_run(r, KINDS + (['tray', 'cornerslot'] if tier != 'quick' else []), i)
        if r.random() < .15:
            # odd parameters: may fail somewhere
            c['params'] = dict(c['params'], **r.choice([
                {'support_radius': '1'}, {'support_radius': '2'},
                {'min_finger_width': '100', 'max_finger_width': '101'}]))
        if r.random() < .18:
            c['fault'] = {'at': int(10 ** r.uniform(4.3, 6.2)),
                          'exc': r.choice(['SimFailure', 'MemoryError', 'ValueError'])}
        return c

    def run(self, case, st):
        o = pipeline.simulate(case, st, spy=True)
        if o.result is None:
            st.probe('refused: %s' % type(o.exc).__name__)
            if o.exc is not None and o.sp is not None and len(o.sp.sheets):
                # asked to return a result even on failure
                return [{'sig': 'no result', 'case': case, 'what': 'no result although '
                         'one was asked for: %s' % str(o.exc)[:150]}]
            return []
        res = o.result
        st.probe('succeeded' if res.ok else 'failed half way')
        hist = list(res.history)
        R = pipeline.Regions()

        def fail(sig, what):
            return [{'sig': sig, 'what': what, 'case': case}]
        if res.ok and not hist:
            return fail('history', 'a successful run recorded no state')
        sp = o.sp
        calls = o.spy.calls
        # the recorded states are the ones the steps started from
        k = 0
        for name, sb, after in calls:
            d = maps(sb)
            while k < len(hist) and maps(hist[k]) != d:
                k += 1
            if k == len(hist):
                return fail('history', 'the state %s started from is not in the '
                            'history (in this order)' % name)
            k += 1
        if len(calls) > 1:
            st.probe('steps seen', len(calls))
            # each step starts from the state the one before ended with
            for (n1, _, a), (n2, b, _) in zip(calls, calls[1:]):
                if hasattr(a, 'sheetplex') and maps(a) != maps(b):
                    return fail('chain', '%s does not start from the state %s ended '
                                'with' % (n2, n1))
        if res.ok:
            if maps(hist[-1]) != maps(res.sheetbuild):
                return fail('last', 'the final state is not the last recorded one')
            if calls and maps(calls[-1][2]) != maps(res.sheetbuild):
                return fail('last', 'the final state is not the one the last step '
                            'ended with')
            if sorted(res.sheet_cuts.keys()) != sorted(sp.sheets.keys()):
                return fail('cuts', 'cuts for sheets %s, the model has %s' % (
                    sorted(res.sheet_cuts.keys()), sorted(sp.sheets.keys())))
            for s in sorted(sp.sheets.keys()):
                a, b = R(res.sheet_cuts[s]), R(res.sheetbuild.sheet_chosen[s])
                if ref.canonical(a) != ref.canonical(b):
                    return fail('cuts', 'the cut of sheet %s is not its chosen area'
                                % s)
        elif calls and isinstance(calls[-1][2], BaseException) and \
                res.sheetbuild is not None:
            if maps(res.sheetbuild) != maps(calls[-1][1]):
                return fail('last', 'after a failure the state is not the one the '
                            'failing step started from')
        bad = self.monotone(sp, hist, R)
        if bad:
            return fail(*bad)
        sides = pipeline.sides_of(sp)
        if sides:
            st.reach(case)
        st.log(res.ok, len(hist), pipeline.hexdig(hist[-1]) if hist else None)
        st.sample({'case': case, 'ok': res.ok, 'states': len(hist)})
        return []

    def monotone(self, sp, hist, R):
        def label(sb):
            d = getattr(sb, 'dbg', None)
            return getattr(d, '__name__', str(d))
        c2, c1 = {}, {}

        def can2(g):
            if id(g) not in c2:
                c2[id(g)] = (g, ref.canonical(R(g)))
            return c2[id(g)][1]
        for n, sb in enumerate(hist):
            for s in sorted(sp.sheets.keys()):
                ch, ok = sb.sheet_chosen[s], sb.sheet_ok[s]
                if n == 0 or sb.sheet_chosen[s] is not hist[n - 1].sheet_chosen[s] or \
                        sb.sheet_ok[s] is not hist[n - 1].sheet_ok[s]:
                    d = pipeline.diff_area(R(ch), R(ok))
                    if d > pipeline.TOL2:
                        return 'chosen>ok', 'state %d (%s): sheet %s: chosen exceeds ' \
                            'allowed by %.3g' % (n, label(sb), s, d)
            for a, _ in pipeline.sides_of(sp):
                d = pipeline.m1(pipeline.d1(pipeline.iv(sb.interside_chosen[a.id]),
                                            pipeline.iv(sb.interside_ok[a.id])))
                if d > pipeline.TOL1:
                    return 'chosen>ok', 'state %d (%s): side %s: chosen exceeds ' \
                        'allowed by %.3g' % (n, label(sb), a.id, d)
        for n in range(1, len(hist)):
            p, q = hist[n - 1], hist[n]
            step = label(p)
            for s in sorted(sp.sheets.keys()):
                for what, x, y in (
                        ('chosen part shrinks', p.sheet_chosen[s], q.sheet_chosen[s]),
                        ('allowed part grows', q.sheet_ok[s], p.sheet_ok[s])):
                    if x is y or can2(x) == can2(y):
                        continue
                    d = pipeline.diff_area(R(x), R(y))
                    if d > pipeline.TOL2:
                        return 'sheet ' + what, 'in step %d (%s) the %s on sheet %s ' \
                            'by area %.3g' % (n, step, what, s, d)
            for a, _ in pipeline.sides_of(sp):
                for what, x, y in (
                        ('chosen part shrinks', p.interside_chosen[a.id],
                         q.interside_chosen[a.id]),
                        ('allowed part grows', q.interside_ok[a.id],
                         p.interside_ok[a.id])):
                    d = pipeline.m1(pipeline.d1(pipeline.iv(x), pipeline.iv(y)))
                    if d > pipeline.TOL1:
                        return 'side ' + what, 'in step %d (%s) the %s of side %s by ' \
                            '%.3g' % (n, step, what, a.id, d)
        return None

    def shrink(self, case):
        return pipeline.shrink_run(case)


def maps(sb):
    """The four maps, as they are."""
    return tuple(pipeline.freeze(getattr(sb, k)) for k in pipeline.MAPS)


CHECK = C03()
