"""C19: every plate keeps its body."""
from .. import models, pipeline, ref
from ..runner import Check

Q = ref.Q
KINDS = ['L', 'Toff', 'Lhole', 'U', 'corner', 'Lnotch', 'island', 'cornerslot', 'vee',
         'cross', 'T', 'island', 'Toff', 'cornerslot']
TINY = Q(1, 10 ** 4)
WIDE = Q(1, 50)
MARGIN = Q(1, 2500), Q(1, 400)


class C19(Check):
    id = 'C19'
    quick = 66
    thorough = 3000
    case_timeout = 300
    rule = ('A case is a generated model with parameters, processed under a seeded '
            'scheduler of every internal order and a scheduled random stream.  Of every '
            'sheet of a successful run, the exact area of the plate outside its joints '
            'that is missing from the cut, of loose pieces, and of material beyond the '
            'support radius is computed from the faces and slices.  Distinct and '
            'non-trivial: a successful run of a model with a joint; by the resulting '
            'cuts.')
    real = ['create_sheetplex', 'canned', 'heuristics', 'sheetbuild', 'geometry']
    stubs = ['iteration orders', 'random generator']
    assumptions = ['The extracted faces and slices are right (C14).',
                   'Areas below 1e-4 that are no longer than 1/50 are rounding slack.']

    def gen(self, r, i, tier):
        c = pipeline.gen_run(
            r, KINDS + (['tray', 'box'] if tier != 'quick' else []), i,
            scales=(.45, .6, .6, .8))
        if r.random() < .5:
            c['params']['support_radius'] = r.choice(['4', '6', '7/2', '9', '25'])
        return c

    def run(self, case, st):
        o = pipeline.simulate(case, st, on_failure=None)
        if o.result is None or not o.result.ok:
            st.probe('no success: %s' % type(o.exc).__name__)
            return []
        st.probe('succeeded')
        sp, cuts = o.sp, o.result.sheet_cuts
        rad = models.params_of(case['params'])['support_radius']
        all_, known = [], None
        for s in sorted(sp.sheets.keys()):
            if s not in cuts:
                return self.fail(case, 'missing', 'sheet %s has no cut' % s)
            cut = ref.region_of(cuts[s])
            bad = self.sheet(sp, s, cut, rad, st,
                             o.result.history
                             if case['model']['kind'] == 'cornerslot' else None)
            if bad and bad[0] != 'margin-sliver':
                return self.fail(case, *bad)
            known = known or bad
            all_.append(ref.canonical(cut))
        dig = pipeline.digest(all_)
        if len(sp.intersections):
            st.reach(dig)
        st.log(dig)
        st.sample({'case': case})
        return self.fail(case, *known) if known else []

    def fail(self, case, sig, what):
        return [{'sig': sig, 'what': what, 'case': case}]

    def sheet(self, sp, s, cut, rad, st, history=None):
        sh = sp.sheets[s]
        both = ref.region_of(sh.both_faces)
        most = ref.region_of(sh.slices_max)
        strips = []
        for side, _ in pipeline.sides_of(sp):
            if side.sheet == s:
                strips += pipeline.finger_region(side, ((Q(-2000), Q(2000)),))
        lost = Q(0)
        st.add('sheets judged')
        for _, area, mu in ref.cells([both, most, cut, strips]):
            if mu[0] and mu[1] and not mu[2] and not mu[3]:
                lost += area
        if lost > TINY:
            return 'lost', 'area %.4g of sheet %s, outside its joints and open on both ' \
                'faces, is not in its cut' % (lost, s)
        loose = {}
        for poly in cut:
            size = abs(ref.ring_area(poly[0]))
            xs, ys = zip(*poly[0])
            wide = max(max(xs) - min(xs), max(ys) - min(ys))
            # Also a hairline of no area to speak of gets as wide as the kerf
            if (size > TINY or wide > WIDE) and \
                    pipeline.common_area([poly], both) < TINY / 100:
                # The thickness of the margins of the processing steps
                name = 'loose'
                if history and MARGIN[0] < size / wide < MARGIN[1] and \
                        self.chosen_loose(history, s, poly, both, size):
                    name = 'margin-sliver'
                loose[name] = name, 'the cut of sheet %s has a loose piece of area %.4g ' \
                    'and size %.4g near %s' % (
                        s, size, wide, [round(float(x), 2) for x in poly[0][0]])
        if 'loose' in loose:
            return loose['loose']
        lim = (Q(103, 100) * Q(rad) + Q(1, 1000)) ** 2
        pts = [pt for pt, _, mu in ref.cells([cut]) if mu[0]]
        for poly in cut:
            for ring in [poly[0]] + poly[1]:
                for (ax, ay), (bx, by) in zip(ring, ring[1:] + ring[:1]):
                    pts += [(ax, ay), ((ax + bx) / 2, (ay + by) / 2)]
        for k in (0, 1):
            face = ref.region_of(sh.faces[k])
            if not face:
                continue
            for pt in pts:
                st.add('places judged')
                if ref.locate(face, pt) < 0 and ref.dist2_boundary(face, pt) > lim:
                    return 'far', 'the cut of sheet %s reaches to %s, which is further ' \
                        'than %s from where its face %d is open' % (
                            s, [round(float(x), 3) for x in pt], rad, k)
        return loose.get('margin-sliver')

    def chosen_loose(self, history, s, poly, both, size):
        """The known finding: the very step that chose the piece cut it off, so that
        it was never loose and not chosen yet."""
        for sb in history:
            chosen = sb.sheet_chosen[s]
            for p in ref.region_of(chosen | sb.sheet_ok[s]):
                if pipeline.common_area([p], [poly]) > 0 and \
                        pipeline.common_area([p], both) < TINY / 100:
                    return pipeline.common_area(ref.region_of(chosen), [poly]) \
                        > size / 2
        return False

    def shrink(self, case):
        return pipeline.shrink_run(case)


CHECK = C19()
