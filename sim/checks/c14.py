"""C14: extracted sheets and joints match the model, whatever the order."""
import itertools
import random

import numpy as np

from .. import models, pipeline, ref, world
from ..runner import Check

Q = ref.Q
KINDS = ['L', 'T', 'U', 'cross', 'corner', 'vee', 'Lhole', 'tray', 'pair', 'box',
         'Lnotch', 'shelf', 'slots', 'step']
TOL = 1e-6
ATOL = Q(1, 1000)


def generate(r, kind):
    m = models.generate(r, [kind if kind not in ('pair', 'shelf', 'slots', 'step') else 'L'],
                        scale=r.choice([.4, .6, 1.0]))
    t = m['t']
    if kind == 'pair':             # two bodies
        o = models.generate(r, ['L'], scale=.4)
        d = [r.randint(120, 150), r.randint(-20, 20), r.randint(120, 150)]
        ext = [[[0, 0, 0], [max(4 * t, b[1][0]), max(4 * t, b[1][1]), t]]
               for b in o['boxes'][:1]]
        m['boxes'] = m['boxes'] + [[[p[k] + d[k] for k in range(3)] for p in b]
                                   for b in ext]
        m['kind'] = kind
    if kind == 'step':             # a parallel plate, a little higher or lower
        a = max(b[1][0] for b in m['boxes'])
        k = r.choice([.5, .5, 1, 1, 1.5, 2, t - 1, t - .5, t + 1, 2 * t + 1]) * \
            r.choice([1, 1, -1])
        x = a + r.randint(3, 20)
        m['boxes'] = m['boxes'] + [[[x, 0, k], [x + r.randint(4, 8) * t,
                                                r.randint(4, 8) * t, t + k]]]
        m['kind'] = kind
    if kind == 'shelf':            # uprights with boards between them
        w, h = r.randint(8, 14) * t, r.randint(10, 16) * t
        dep = r.randint(4, 7) * t
        bx = [[[0, 0, 0], [t, dep, h]], [[w - t, 0, 0], [w, dep, h]]]
        z = 2 * t
        for _ in range(r.randint(1, 2)):
            bx.append([[0, 0, z], [w, dep, z + t]])
            z += r.randint(3, 4) * t + 1
        m['boxes'], m['kind'] = bx, kind
    if kind == 'slots':            # a board with uprights of which one has a window
        a = 14 * t
        m['boxes'] = [[[0, 0, 0], [a, 5 * t, t]], [[2 * t, 0, 0], [3 * t, 5 * t, 6 * t]],
                      [[9 * t, t, 0], [10 * t, 5 * t, 7 * t]],
                      [[9 * t - 1, 2 * t + 1, 3 * t], [10 * t + 1, 3 * t + 2, 4 * t + 1],
                       'cut']]
        m['kind'] = kind
    return m


class Truth:
    """What the model consists of, from its boxes (before rotation and shift)."""

    def __init__(self, model):
        self.model = model
        self.t = t = model['t']
        r = model.get('rot')
        self.R = models.rotation(*r) if r else np.eye(3)
        self.shift = np.array(model.get('shift') or (0, 0, 0), float)
        self.plates = []           # (normal, offset) of one face, and data
        self.sure = True
        self.thick = True      # enough material behind every face
        if model['kind'] == 'vee':
            self.vee()
        else:
            self.voxels()

    def vee(self):
        m, t = self.model, self.t
        prof, quads = models.vee(m['angle'], m['la'], m['lb'], t)
        P = [np.array([x, z]) for x, z in prof]
        # plate A: outer edge 0-1, plate B: outer edge 0-5 (see models.vee)
        for a, b, inner in ((0, 1, 3), (0, 5, 3)):
            d = P[b] - P[a]
            L = np.linalg.norm(d)
            d = d / L
            n = np.array([d[1], -d[0]])
            if np.dot(P[inner] - P[a], n) > 0:
                n = -n
            k = abs(np.dot(P[inner] - P[a], d))

            def rect(lo, hi, depth):
                base = P[a] - n * depth
                return [[base + d * x, y] for x, y in (
                    (lo, 0), (hi, 0), (hi, m['w']), (lo, m['w']))]
            # (an obtuse neighbour reaches into the slab behind the edge)
            lo = min(0.0, t / np.tan(np.radians(m['angle'])))
            n3 = np.array([n[0], 0, n[1]])
            off = float(np.dot(P[a], n))
            sub = [[np.array([p[0], y, p[1]]) for p, y in rect(min(k, L), L, 0)]]
            sup = [[np.array([p[0], y, p[1]]) for p, y in rect(lo, L, 0)]]
            self.plates.append({'n': n3, 'off': off, 'max': (sub, sup),
                                'min': (sub, sup)})

    def voxels(self):
        t = self.t
        boxes = self.model['boxes']
        cs = [sorted({b[k][d] for b in boxes for k in (0, 1)}) for d in range(3)]
        n = [len(c) - 1 for c in cs]
        occ = {}
        for ix in itertools.product(*map(range, n)):
            mid = [(cs[d][x] + cs[d][x + 1]) / 2 for d, x in enumerate(ix)]
            v = False
            for b in boxes:
                if all(b[0][d] < mid[d] < b[1][d] for d in range(3)):
                    v = not (len(b) > 2 and b[2] == 'cut')
            occ[ix] = v
        self.solid = occ

        def at(ix):
            return occ.get(tuple(ix), False)
        planes = set()
        for ix in occ:
            if not occ[ix]:
                continue
            for d in range(3):
                for s in (0, 1):
                    nb = list(ix)
                    nb[d] += 1 if s else -1
                    if not at(nb):
                        planes.add((d, s, cs[d][ix[d] + s]))
        for d, s, c in planes:
            a, b = (c - t, c) if s else (c, c + t)
            full = 0
            for x in range(n[d]):
                lo, hi = max(a, cs[d][x]), min(b, cs[d][x + 1])
                if lo < hi and any(v and ix[d] == x for ix, v in occ.items()):
                    full += hi - lo
            if full < t:
                self.thick = False
        pairs = sorted((d, c) for d, s, c in planes if s and (d, 0, c - t) in planes)
        # the plates that were put there
        real = set()
        for b in boxes:
            if len(b) > 2:
                continue
            for d in range(3):
                if b[1][d] - b[0][d] == t:
                    real.add((d, b[1][d]))
        if self.model['kind'] == 'box':
            a = boxes[0][1]
            real = {(d, c) for d in range(3) for c in (t, a[d])}
        if set(pairs) != real:
            self.sure = False       # other pairs of faces at just this distance
            return
        for d, c in pairs:
            u, v = [k for k in range(3) if k != d]
            inside = [x for x in range(n[d])
                      if cs[d][x] >= c - t and cs[d][x + 1] <= c]
            deep = [x for x in inside]

            def rects(cond, h):
                out = []
                for i in range(n[u]):
                    for j in range(n[v]):
                        def cell(x):
                            ix = [0, 0, 0]
                            ix[d], ix[u], ix[v] = x, i, j
                            return at(ix)
                        if cond(cell):
                            pts = []
                            for a, b in ((0, 0), (1, 0), (1, 1), (0, 1)):
                                p = [0.0, 0.0, 0.0]
                                p[d] = h
                                p[u], p[v] = cs[u][i + a], cs[v][j + b]
                                pts.append(np.array(p))
                            out.append(pts)
                return out
            slabs = [(e, f) for e, f in pairs if e != d]

            def free(rs):
                # (faces inside the slab of another plate may count as its edges)
                return [q for q in rs if not any(
                    all(f - t <= p[e] <= f for p in q) for e, f in slabs)]
            top = cs[d].index(c)         # first layer above
            bot = cs[d].index(c - t) - 1
            some = rects(lambda f: any(f(x) for x in deep), c)
            every = rects(lambda f: all(f(x) for x in deep), c)
            nn = np.zeros(3)
            nn[d] = 1
            faces = [rects(lambda f: f(top - 1) and not f(top), c),
                     rects(lambda f: f(bot + 1) and not f(bot), c)]
            outside = [rects(lambda f: f(top), c), rects(lambda f: f(bot), c)]
            self.plates.append({
                'n': nn, 'off': float(c), 'max': (every, some), 'min': (every, some),
                'faces': [(free(x), x) for x in faces],
                'outside': [(x, x) for x in outside]})

    def placed(self):
        """Planes in the coordinates of the mesh: (normal, offset, plate)."""
        for p in self.plates:
            n = self.R @ p['n']
            yield n, p['off'] + float(np.dot(n, self.shift)), p

    def region(self, rects, sheet):
        """Ground truth rectangles in the frame of a found sheet."""
        T = np.array(sheet.slice_rotation, float)[:3, :3].T
        out = []
        for pts in rects:
            ring = []
            for p in pts:
                x, y, _ = T @ (self.R @ p + self.shift)
                ring.append((Q(float(x)), Q(float(y))))
            if ref.ring_area(ring) < 0:
                ring.reverse()
            out.append((ring, []))
        return out


def union_diff(a, b):
    """Area covered by a but not by b (overlapping parts allowed)."""
    if not a:
        return Q(0)
    s = Q(0)
    for _, area, mult in ref.cells([a, b]):
        if mult[0] and not mult[1]:
            s += area
    return s


class C14(Check):
    id = 'C14'
    quick = 42
    thorough = 3000
    case_timeout = 240
    rule = ('A case is a generated model of plates, extracted under seeded schedules of '
            'every unordered collection and with its triangles in several orders; the '
            'sheets and joints are compared, in space, with the plates the model was '
            'made of, between the schedules, and with the result restricted to a '
            'subset.  Distinct and non-trivial: an extraction with at least two '
            'sheets; by (model, order decisions).')
    real = ['create_sheetplex', 'sheetplex', 'geometry', 'trimesh', 'shapely']
    stubs = ['iteration orders', 'order of the triangles']
    assumptions = ['Models in which other faces happen to be at the distance of the '
                   'thickness are not compared with the ground truth.',
                   'Where a cross section varies with depth it is only bounded.']

    def gen(self, r, i, tier):
        kind = KINDS[i % len(KINDS)]
        model = generate(r, kind)
        k = 2 if tier == 'quick' else 6
        return {'model': model, 'params': models.default_params(model),
                'orders': [r.randint(0, 10 ** 9) for _ in range(k)],
                'tris': [r.randint(0, 10 ** 9) for _ in range(1 if tier == 'quick'
                                                              else 4)],
                'seed': r.randint(0, 10 ** 9)}

    def run(self, case, st):
        m = world.mods
        params = models.params_of(case['params'])

        def bad(sig, what, **kw):
            return [{'sig': sig, 'what': what, 'case': dict(case, **kw)}]

        def extract(order, model=case['model'], **extra):
            sched = pipeline.set_order(order)
            st.add('evaluations')
            try:
                sp = pipeline.extract(model, dict(params, **extra))[1]
            finally:
                st.add('sim_steps', sched.n)
                st.fault('permuted orders', sched.permuted)
            if len(sp.sheets) > 1:
                st.reach(model, sched.trace_crc)
            return sp
        off = {'seed': 0, 'mode': 'off'}
        truth = Truth(case['model'])
        try:
            sp = extract(off)
        except Exception as e:
            if truth.sure and truth.thick:
                return bad('refused', 'the model is refused: %s %s' % (
                    type(e).__name__, str(e)[:150]), orders=[], tris=[])
            st.probe('model refused: ' + type(e).__name__)
            return []
        base = self.digest(sp)
        count = len(sp.sheets), len(sp.intersections)
        st.log(base)
        if truth.sure:
            v = self.compare(m, truth, sp, st)
            if v:
                return bad(v[0], v[1], orders=[], tris=[])
            st.probe('compared with the plates: ' + case['model']['kind'])
        v = self.joints(m, sp, case, st)
        if v:
            return bad(v[0], v[1], orders=[], tris=[])
        v = self.limits(m, sp, case, extract, st)
        if v:
            return bad(v[0], v[1], orders=[], tris=[])
        for s in case['orders']:
            for mode in ('any', 'real')[s % 2:][:1]:
                got = self.digest(extract({'seed': s, 'mode': mode}))
                st.log(got)
                if got != base:
                    return bad('order', 'the result depends on the iteration order of '
                               'an unordered collection: %s' % self.difference(
                                   base, got), orders=[s], tris=[])
        for s in case['tris']:
            st.fault('triangle order')
            model = dict(case['model'], tri_order=s)
            sp2 = extract({'seed': s, 'mode': 'real'}, model)
            if truth.sure:
                v = self.compare(m, Truth(model), sp2, st)
                if v:
                    return bad(v[0], 'with the triangles in another order: ' + v[1],
                               orders=[], tris=[s])
            got = len(sp2.sheets), len(sp2.intersections)
            if got != count:
                return bad('order', 'with the triangles in another order there are %d '
                           'sheets and %d joints instead of %d and %d' % (
                               got + count), orders=[], tris=[s])
        st.sample({'model': case['model']})
        return []

    # -------------------------------------------------------------- observations

    def digest(self, sp):
        d = {}
        for s in sorted(sp.sheets.keys()):
            sh = sp.sheets[s]
            d['sheet ' + s] = pipeline.digest((
                [pipeline.canon(f) for f in sh.faces],
                [pipeline.canon(f) for f in sh.outside_slices],
                pipeline.canon(sh.both_faces),
                pipeline.canon(sh.slices_max), pipeline.canon(sh.slices_min),
                repr(np.asarray(sh.sides).tolist()),
                repr(np.asarray(sh.slice_rotation).tolist())))
        for k in sorted(sp.intersections.keys()):
            d['joint ' + k] = pipeline.digest([
                (x.id, x.sheet, str(x.origin_offset), str(x.min_normal_offset),
                 str(x.max_normal_offset), [str(v) for v in x.direction],
                 [str(v) for v in x.normal]) for x in sp.intersections[k].sides])
        return d

    def difference(self, a, b):
        return ', '.join(sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k)))

    def compare(self, m, truth, sp, st):
        """The found sheets against the plates of the model."""
        left = dict(sp.sheets.items())
        size = 1 + max(np.abs(truth.shift).max(), 300)
        for n, off, p in truth.placed():
            hit = []
            for s, sh in sorted(left.items()):
                for k in (0, 1):
                    sn, so = np.array(sh.normal(k), float), float(sh.offset(k))
                    if np.abs(sn - n).max() < 1e-4 and abs(so - off) < 1e-4 * size:
                        hit.append((s, k))
            if len(hit) != 1:
                return 'plates', 'the plate with normal %s at %g is found %d times' % (
                    np.round(n, 3).tolist(), off, len(hit))
            s, k = hit[0]
            sh = left.pop(s)
            v = self.sheet(m, truth, s, sh, k, p, n, off)
            if v:
                return v
        if left:
            return 'plates', 'sheets %s are not plates of the model' % sorted(left)
        return None

    def sheet(self, m, truth, s, sh, k, p, n, off):
        t = truth.t
        o = 1 - k
        if np.abs(np.array(sh.normal(o), float) + n).max() > 1e-4 or \
                abs(float(sh.offset(o)) + off - t) > .2:
            return 'planes', 'sheet %s: its other side is not the other face' % s
        M = np.array(sh.slice_rotation, float)[:3, :3]
        if np.abs(M @ M.T - np.eye(3)).max() > TOL or np.linalg.det(M) < 0:
            return 'frame', 'sheet %s: the frame is not a rotation' % s
        if np.abs(np.abs(M.T @ n) - [0, 0, 1]).max() > 1e-4:
            return 'frame', 'sheet %s: the frame is not in the plane' % s
        for name in ('max', 'min'):
            g = ref.region_of(getattr(sh, 'slices_' + name))
            sub, sup = (truth.region(x, sh) for x in p[name])
            d = union_diff(sub, g)
            if d > ATOL:
                return 'outline', 'sheet %s: area %.3g of the plate is missing from ' \
                    'slices_%s' % (s, d, name)
            d = union_diff(g, sup)
            if d > ATOL:
                return 'outline', 'sheet %s: slices_%s has area %.3g outside the ' \
                    'plate' % (s, name, d)
        if 'faces' in p:
            both = None
            for side in (0, 1):
                # our first face has the normal n
                idx = side if k == 0 else 1 - side
                for what, g, w in (
                        ('face', sh.faces[idx], p['faces'][side]),
                        ('outside slice', sh.outside_slices[idx],
                         p['outside'][side])):
                    g = ref.region_of(g)
                    d = max(union_diff(g, truth.region(w[1], sh)),
                            union_diff(truth.region(w[0], sh), g))
                    if d > ATOL:
                        return what, 'sheet %s: %s %d differs by area %.3g' % (
                            s, what, idx, d)
            a, b = (ref.region_of(f) for f in sh.faces)
            both = ref.region_of(sh.both_faces)
            if pipeline.diff_area(both, a) > 0 or pipeline.diff_area(both, b) > 0:
                return 'face', 'sheet %s: both_faces is not within both' % s
            s1 = sum((area for _, area, mu in ref.cells([a, b, both])
                      if mu[0] and mu[1] and not mu[2]), Q(0))
            if s1 > 0:
                return 'face', 'sheet %s: both_faces misses area %.3g' % (s, s1)
        return None

    def joints(self, m, sp, case, st):
        """Both sides of every joint mean the same place."""
        names = sorted(sp.sheets.keys())
        found = {}
        for k in sorted(sp.intersections.keys()):
            it = sp.intersections[k]
            pr = tuple(sorted(x.sheet for x in it.sides))
            if len(it.sides) != 2 or pr[0] == pr[1] or pr in found:
                return 'joints', 'joint %s: sides on %s' % (k, pr)
            found[pr] = it
        for i, a in enumerate(names):
            for b in names[i + 1:]:
                c = np.cross(np.array(sp.sheets[a].normal(0), float),
                             np.array(sp.sheets[b].normal(0), float))
                ln = np.linalg.norm(c)
                if ln > 1e-2 and (a, b) not in found:
                    return 'joints', 'no joint between %s and %s' % (a, b)
                if ln < 1e-6 and (a, b) in found:
                    return 'joints', 'a joint between the parallel %s and %s' % (a, b)
        r = random.Random('joint/%s' % case['seed'])
        for pr, it in sorted(found.items()):
            v = self.joint(m, sp, it, r, st)
            if v:
                return v
        return None

    def joint(self, m, sp, it, r, st):
        F = m.F
        sides = it.sides
        data = []
        for n, x in enumerate(sides):
            sh = sp.sheets[x.sheet]
            if x.opposite(sp).id != sides[1 - n].id or \
                    sp.interside(x.id).id != x.id:
                return 'joints', 'joint %s: wrong opposite side' % (it.id,)
            M = np.array(sh.slice_rotation, float)[:3, :3]
            D = M[:, :2] @ [float(v) for v in x.direction]
            N = M[:, :2] @ [float(v) for v in x.normal]
            data.append((x, sh, D, N))
        (x0, s0, D0, N0), (x1, s1, D1, N1) = data
        u = np.cross(np.array(s0.normal(0), float), np.array(s1.normal(0), float))
        u = u / np.linalg.norm(u)
        if np.abs(D0 - D1).max() > TOL or \
                np.abs(np.abs(np.dot(D0, u)) - 1) > TOL:
            return 'joint frame', 'joint %s: the sides run along different ' \
                'directions' % (it.id,)
        # place along the joint: coordinate + offset
        o0, o1 = float(x0.origin_offset), float(x1.origin_offset)
        if abs(o0 - o1) > 1e-5:
            return 'joint frame', 'joint %s: a joint coordinate is %.6g apart on its ' \
                'two sheets' % (it.id, o0 - o1)
        # the prism where the two slabs cross
        corners = []
        for i in (0, 1):
            for j in (0, 1):
                A = np.array([s0.normal(i), s1.normal(j), u], float)
                corners.append(np.linalg.solve(A, [s0.offset(i), s1.offset(j), 0.0]))
        size = 1 + max(np.abs(c).max() for c in corners)
        for x, sh, D, N in data:
            if np.abs(np.dot(N, D)) > TOL or abs(np.linalg.norm(N) - 1) > TOL:
                return 'joint frame', 'side %s: normal' % (x.id,)
            at = [float(np.dot(N, c)) for c in corners]
            lo, hi = float(x.min_normal_offset), float(x.max_normal_offset)
            if abs(lo - min(at)) > 1e-6 * size or abs(hi - max(at)) > 1e-6 * size:
                return 'strip', 'side %s: the finger strip is [%.6g, %.6g], the plates ' \
                    'cross over [%.6g, %.6g]' % (x.id, lo, hi, min(at), max(at))
            # fingers of some stretches
            pts = sorted({Q(r.randint(-60, 160), r.choice([1, 2, 7]))
                          for _ in range(2 * r.randint(1, 3))})
            w = tuple((pts[i], pts[i + 1]) for i in range(0, len(pts) - 1, 2))
            if not w:
                continue
            g = m.Geom1D([[F(a), F(b)] for a, b in w])
            got = ref.region_of(x.make_fingers(g))
            want = pipeline.finger_region(x, w)
            st.add('evaluations')
            if max(pipeline.diff_area(got, want), pipeline.diff_area(want, got)) > \
                    Q(1, 10 ** 9):
                return 'fingers', 'side %s: wrong fingers for %s' % (
                    x.id, [(str(a), str(b)) for a, b in w])
            back = pipeline.iv(x.project_to_1d(x.make_fingers(g)))
            if pipeline.m1(pipeline.u1(pipeline.d1(back, w), pipeline.d1(w, back))) > \
                    Q(1, 10 ** 6):
                return 'fingers', 'side %s: the projection of the fingers is not the ' \
                    'stretch they were made for' % (x.id,)
        return None

    def limits(self, m, sp, case, extract, st):
        r = random.Random('limit/%s' % case['seed'])
        names = sorted(sp.sheets.keys())
        full = self.digest(sp)
        for n in range(3):
            some = [s for s in names if r.random() < .6]
            if n == 0:
                some = names[1:]
            arg = r.choice([list, set, tuple])(some + (['nosuch'] if n == 2 else []))
            want = {k: v for k, v in full.items() if (
                k.startswith('sheet ') and k[6:] in some) or (
                k.startswith('joint ') and all(
                    x.sheet in some for x in sp.intersections[k[6:]].sides))}
            if n < 2:
                try:
                    got = self.digest(sp.limit(arg))
                except Exception as e:
                    return 'limit', 'limit(%s) raises %s: %s' % (
                        arg, type(e).__name__, str(e)[:100])
                how = 'restricted to'
            else:
                got = self.digest(extract({'seed': 0, 'mode': 'off'},
                                          only_sheets=list(arg)))
                how = 'extracted only'
            st.add('evaluations')
            if got != want:
                return 'limit', '%s %s: %s differ' % (how, some, self.difference(
                    want, got))
        return None

    def shrink(self, case):
        mo = case['model']
        for k in ('rot', 'shift', 'tri_order'):
            if mo.get(k) is not None:
                m2 = dict(mo)
                del m2[k]
                yield dict(case, model=m2)
        if mo.get('boxes') and len(mo['boxes']) > 2 and mo['kind'] != 'box':
            for k in range(len(mo['boxes'])):
                yield dict(case, model=dict(
                    mo, boxes=mo['boxes'][:k] + mo['boxes'][k + 1:]))


CHECK = C14()
