"""C04: the sheets of a successful run fit together at every joint."""
import math
import random

import numpy as np

from .. import models, pipeline, ref, world
from ..runner import Check

Q = ref.Q
KINDS = ['L', 'T', 'U', 'corner', 'Lnotch', 'vee', 'cross', 'Lhole', 'corner', 'U',
         'cross', 'Lnotch', 'Toff', 'island', 'long']
SMALL = Q(1, 10 ** 4)        # area below which nothing is judged
DEEP = 0.02                  # a place is judged if it is this far from all borders


class Solid:
    """The material of the model, straight from its description."""

    def __init__(self, model):
        self.m = model
        self.R = models.rotation(*model['rot']) if model.get('rot') else np.eye(3)
        self.shift = np.array(model.get('shift') or [0, 0, 0], float)
        if model['kind'] == 'vee':
            prof, quads = models.vee(model['angle'], model['la'], model['lb'],
                                     model['t'])
            self.quads = [[(Q(prof[i][0]), Q(prof[i][1])) for i in q] for q in quads]

    def has(self, P, tol):
        """P in the solid or within about tol of it?"""
        p = (np.asarray(P, float) - self.shift) @ self.R
        if self.m['kind'] == 'vee':
            if not -tol <= p[1] <= self.m['w'] + tol:
                return False
            q = (Q(float(p[0])), Q(float(p[2])))
            for quad in self.quads:
                if ref.locate_ring(quad, q) >= 0:
                    return True
                if ref.dist2_boundary([(quad, [])], q) <= Q(tol) ** 2:
                    return True
            return False
        v = False
        for b in self.m['boxes']:
            cut = len(b) > 2 and b[2] == 'cut'
            e = -tol if cut else tol
            if all(b[0][d] - e <= p[d] <= b[1][d] + e for d in range(3)):
                v = not cut
        return v


def to_tn(region, side):
    """Region of a sheet in the coordinates of a joint side: (along, across)."""
    d = [Q(x) for x in side.direction]
    n = [Q(x) for x in side.normal]
    o = Q(side.origin_offset)

    def f(p):
        return (p[0] * d[0] + p[1] * d[1] - o, p[0] * n[0] + p[1] * n[1])
    return [([f(p) for p in a], [[f(p) for p in h] for h in hs]) for a, hs in region]


def occupied(region, side, margin):
    """Where along the joint the region reaches into the strip of the side."""
    tn = to_tn(region, side)
    lo, hi = Q(side.min_normal_offset) + margin, Q(side.max_normal_offset) - margin
    if lo >= hi or not tn:
        return ()
    ts = [p[0] for o, _ in tn for p in o]
    a, b = min(ts) - 1, max(ts) + 1
    strip = [([(a, lo), (a, hi), (b, hi), (b, lo)], [])]
    out = []
    for _, _, mult, (x0, x1) in ref.cells_x([tn, strip]):
        if mult[0] and mult[1]:
            out.append((x0, x1))
    return pipeline.u1(out)


class C04(Check):
    id = 'C04'
    quick = 60
    thorough = 3000
    case_timeout = 300
    rule = ('A case is a generated model with parameters, processed under a seeded '
            'scheduler of every internal order and a scheduled random stream.  The '
            'final state of a successful run is judged in the plane (exact reference '
            'geometry on every joint) and in space (every cell of every cut against '
            'the solid of the model; every pair of sheets for common places).  '
            'Distinct and non-trivial: a successful run with a joint that got material '
            'from a sheet; by the resulting cuts.')
    real = ['create_sheetplex', 'canned', 'heuristics', 'sheetbuild', 'geometry']
    stubs = ['iteration orders', 'random generator']
    assumptions = ['Places closer than 0.02 to a border and areas below 1e-4 are '
                   'rounding slack.', 'Finger joints between non-perpendicular sheets '
                   'are judged by seeded sampling.']

    def gen(self, r, i, tier):
        return pipeline.gen_run(
            r, KINDS + (['tray', 'box', 'cornerslot'] if tier != 'quick' else []), i, p_rng=.8)

    def run(self, case, st):
        o = pipeline.simulate(case, st, on_failure=None)
        if o.result is None or not o.result.ok:
            st.probe('no success: %s' % type(o.exc).__name__)
            return []
        st.probe('succeeded')
        sp, sb, cuts = o.sp, o.result.sheetbuild, o.result.sheet_cuts
        bad = None
        C = {}
        for s in sorted(sp.sheets.keys()):
            if s not in cuts:
                return self.fail(case, 'missing', 'sheet %s has no cut' % s)
            C[s] = ref.region_of(cuts[s])
        bad = self.joints(sp, sb, C, st) or self.material(case, sp, C, st) or \
            self.space(case, sp, C, o.mesh, st)
        if bad:
            return self.fail(case, *bad)
        dig = pipeline.digest([ref.canonical(C[s]) for s in sorted(C)])
        if any(pipeline.iv(g) for g in sb.interside_chosen.values()):
            st.reach(dig)
        st.log(dig)
        st.sample({'case': case})
        return []

    def fail(self, case, sig, what):
        return [{'sig': sig, 'what': what, 'case': case}]

    def joints(self, sp, sb, C, st):
        iv = pipeline.iv
        for k in sorted(sp.intersections.keys()):
            a, b = sp.intersections[k].sides
            ok = [iv(sb.interside_ok[s.id]) for s in (a, b)]
            ch = [iv(sb.interside_chosen[s.id]) for s in (a, b)]
            st.add('joints judged')
            un = pipeline.i1(pipeline.d1(ok[0], ch[0]), pipeline.d1(ok[1], ch[1]))
            if pipeline.m1(un) > pipeline.TOL1:
                return 'open', 'joint %s is still open to both sheets at %s' % (
                    k, [(float(x), float(y)) for x, y in un[:3]])
            d = pipeline.m1(pipeline.i1(ch[0], ch[1]))
            if d > pipeline.TOL1:
                return 'both', 'joint %s: both sheets are chosen over %.3g' % (k, d)
            for me, you, mine in ((a, b, ch[0]), (b, a, ch[1])):
                if not mine:
                    continue
                f = pipeline.finger_region(me, mine)
                okr = ref.region_of(sb.sheet_ok[me.sheet])
                miss = Q(0)
                for _, area, mu in ref.cells([f, okr, C[me.sheet]]):
                    if mu[0] and mu[1] and not mu[2]:
                        miss += area
                if miss > SMALL:
                    return 'missing', 'joint %s: sheet %s is chosen but finger area ' \
                        '%.3g is not in its cut' % (k, me.sheet, miss)
                d = pipeline.common_area(pipeline.finger_region(you, mine),
                                         C[you.sheet])
                if d > SMALL:
                    return 'overlap', 'joint %s: chosen for sheet %s, but sheet %s ' \
                        'has area %.3g there' % (k, me.sheet, you.sheet, d)
        return None

    def material(self, case, sp, C, st):
        solid = Solid(case['model'])
        t = float(models.params_of(case['params'])['thickness'])
        for s in sorted(C):
            sh = sp.sheets[s]
            d = pipeline.diff_area(C[s], ref.region_of(sh.slices_max))
            if d > SMALL:
                return 'outside', 'the cut of sheet %s exceeds its material by area ' \
                    '%.3g' % (s, d)
            rot = np.array(sh.slice_rotation, float)
            n = np.array(sh.normal(0), float)
            off = float(sh.offset(0))
            for pt, area, mult in ref.cells([C[s]]):
                if not mult[0] or area < SMALL:
                    continue
                if ref.dist2_boundary(C[s], pt) < Q(1, 2500):
                    continue
                q = rot[:3, :2] @ [float(pt[0]), float(pt[1])]
                q = q - n * (q @ n)
                st.add('places checked against the solid')
                if not any(solid.has(q + n * (off - t * f), 0.02)
                           for f in (.02, .1, .25, .5, .75, .9, .98)):
                    return 'solid', 'the cut of sheet %s has material at %s where the ' \
                        'model has none' % (s, [round(float(x), 3) for x in pt])
        return None

    def space(self, case, sp, C, mesh, st):
        r = random.Random('space/%s' % case['order']['seed'])
        t = float(models.params_of(case['params'])['thickness'])
        names = sorted(sp.sheets.keys())
        ext = np.array(mesh.bounds)
        corners = np.array([[ext[i][0], ext[j][1], ext[k][2]]
                            for i in (0, 1) for j in (0, 1) for k in (0, 1)])
        joint = {}
        for k in sp.intersections.keys():
            a, b = sp.intersections[k].sides
            joint[frozenset((a.sheet, b.sheet))] = (a, b)
        for i, x in enumerate(names):
            for y in names[:i]:
                s1, s2 = sp.sheets[x], sp.sheets[y]
                n1, n2 = np.array(s1.normal(0)), np.array(s2.normal(0))
                d = np.cross(n1, n2)
                if np.linalg.norm(d) < 1e-3:
                    continue
                st.add('pairs of sheets judged in space')
                ab = joint.get(frozenset((x, y)))
                if ab and abs(n1 @ n2) < 1e-6:
                    a, b = ab
                    both = pipeline.i1(occupied(C[a.sheet], a, Q(1, 50)),
                                       occupied(C[b.sheet], b, Q(1, 50)))
                    if pipeline.m1(both) > Q(1, 200):
                        return 'collision', 'sheets %s and %s occupy the same place ' \
                            'at %s of their joint' % (x, y, [
                                (float(p), float(q)) for p, q in both[:3]])
                d = d / np.linalg.norm(d)
                M = np.array([n1, n2, d])
                ts = corners @ d
                for _ in range(40):
                    P = np.linalg.solve(M, [
                        s1.offset(0) - r.uniform(DEEP, t - DEEP),
                        s2.offset(0) - r.uniform(DEEP, t - DEEP),
                        r.uniform(ts.min(), ts.max())])
                    st.add('places checked for collision')
                    deep = []
                    for s in (s1, s2):
                        q = np.array(s.slice_rotation)[:3, :3].T @ P
                        q = (Q(float(q[0])), Q(float(q[1])))
                        deep.append(math.sqrt(ref.dist2_boundary(C[s.id], q))
                                    if ref.locate(C[s.id], q) > 0 else 0)
                    if min(deep) > DEEP:
                        return 'collision', 'sheets %s and %s both occupy %s' % (
                            x, y, [round(float(v), 3) for v in P])
        return None

    def shrink(self, case):
        return pipeline.shrink_run(case)


CHECK = C04()
