"""Deterministic 3D model generator (the simulated users' STL files).

A model is a JSON value; mesh_of(model) builds a closed triangle mesh of it.
"""
import itertools
import math
import numpy as np


def voxel_triangles(boxes):
    """Boundary of a union of axis-aligned boxes, T-junction free."""
    cs = [sorted({b[k][d] for b in boxes for k in (0, 1)}) for d in range(3)]
    n = [len(c) - 1 for c in cs]
    occ = np.zeros(n, bool)
    for i, j, k in itertools.product(*map(range, n)):
        m = [(cs[d][x] + cs[d][x + 1]) / 2 for d, x in enumerate((i, j, k))]
        v = False
        for b in boxes:
            if all(b[0][d] < m[d] < b[1][d] for d in range(3)):
                v = not (len(b) > 2 and b[2] == 'cut')
        occ[i, j, k] = v
    tris = []
    for i, j, k in itertools.product(*map(range, n)):
        if not occ[i, j, k]:
            continue
        idx = [i, j, k]
        for d in range(3):
            u, v = (d + 1) % 3, (d + 2) % 3
            for s in (0, 1):
                nb = list(idx)
                nb[d] += 1 if s else -1
                if 0 <= nb[d] < n[d] and occ[tuple(nb)]:
                    continue

                def P(a, b):
                    p = [0, 0, 0]
                    p[d] = cs[d][idx[d] + s]
                    p[u] = cs[u][idx[u] + a]
                    p[v] = cs[v][idx[v] + b]
                    return p
                q = [P(0, 0), P(1, 0), P(1, 1), P(0, 1)]
                if not s:
                    q.reverse()
                tris += [[q[0], q[1], q[2]], [q[0], q[2], q[3]]]
    return np.array(tris, float)


def prism_triangles(profile, quads, y0, y1):
    """Extrude a 2D (x, z) polygon along y; caps given as quads of indices."""
    tris = []
    n = len(profile)

    def P(i, y):
        return [profile[i][0], y, profile[i][1]]
    a = sum(profile[i - 1][0] * profile[i][1] - profile[i][0] * profile[i - 1][1]
            for i in range(n))
    order = range(n) if a > 0 else range(n - 1, -1, -1)
    order = list(order)
    for ii in range(n):
        i, j = order[ii], order[(ii + 1) % n]
        # (x, z) counterclockwise, extruded along +y
        tris += [[P(i, y1), P(j, y1), P(j, y0)], [P(i, y1), P(j, y0), P(i, y0)]]
    for qd in quads:
        p = [profile[i] for i in qd]
        qa = sum(p[i - 1][0] * p[i][1] - p[i][0] * p[i - 1][1]
                 for i in range(len(p)))
        qd = list(qd) if qa > 0 else list(qd)[::-1]
        for t in range(1, len(qd) - 1):
            tris.append([P(qd[0], y0), P(qd[t], y0), P(qd[t + 1], y0)])
            tris.append([P(qd[0], y1), P(qd[t + 1], y1), P(qd[t], y1)])
    return np.array(tris, float)


def vee(angle_deg, la, lb, t):
    """Profile of two plates of thickness t meeting at an angle (mitred)."""
    th = math.radians(angle_deg)
    # outer corner at the origin; plate A along +x, plate B along angle th
    da = (1.0, 0.0)
    db = (math.cos(th), math.sin(th))
    na = (0.0, 1.0)                      # inward normals
    nb = (math.sin(th), -math.cos(th))
    m = t / math.tan(th / 2)             # inner corner distance along a plate
    inner = (m, t)
    A1 = (la, 0.0)
    A2 = (la, t)
    B1 = (db[0] * lb, db[1] * lb)
    B2 = (B1[0] + nb[0] * t, B1[1] + nb[1] * t)
    prof = [(0.0, 0.0), A1, A2, inner, B2, B1]
    quads = [(0, 1, 2, 3), (0, 3, 4, 5)]
    return prof, quads


def rotation(ax, ay, az):
    def R(a, i, j):
        m = np.eye(3)
        m[i, i] = m[j, j] = math.cos(a)
        m[i, j] = -math.sin(a)
        m[j, i] = math.sin(a)
        return m
    return R(ax, 1, 2) @ R(ay, 2, 0) @ R(az, 0, 1)


def triangles_of(model):
    t = model['t']
    kind = model['kind']
    if kind == 'vee':
        prof, quads = vee(model['angle'], model['la'], model['lb'], t)
        tris = prism_triangles(prof, quads, 0.0, model['w'])
    else:
        tris = voxel_triangles([tuple(b) for b in model['boxes']])
    r = model.get('rot')
    if r:
        tris = tris @ rotation(*r).T
    tr = model.get('shift')
    if tr:
        tris = tris + np.array(tr, float)
    perm = model.get('tri_order')
    if perm is not None:
        import random
        rr = random.Random('tri/%s' % perm)
        ix = list(range(len(tris)))
        rr.shuffle(ix)
        tris = tris[ix]
    return tris


def mesh_of(model):
    import trimesh
    return trimesh.Trimesh(
        **trimesh.triangles.to_kwargs(triangles_of(model)), process=True)


def stl_bytes(model):
    """Binary STL."""
    tris = triangles_of(model).astype('<f4')
    n = np.cross(tris[:, 1] - tris[:, 0], tris[:, 2] - tris[:, 0])
    ln = np.linalg.norm(n, axis=1)
    ln[ln == 0] = 1
    n = (n / ln[:, None]).astype('<f4')
    rec = np.zeros(len(tris), dtype=[('n', '<f4', 3), ('v', '<f4', (3, 3)),
                                     ('a', '<u2')])
    rec['n'] = n
    rec['v'] = tris
    return (b'simulated model'.ljust(80, b' ')
            + np.array([len(tris)], '<u4').tobytes() + rec.tobytes())


def stl_ascii(model):
    tris = triangles_of(model).astype('<f4')
    out = ['solid sim']
    for t in tris:
        n = np.cross(t[1] - t[0], t[2] - t[0])
        n = n / (np.linalg.norm(n) or 1)
        out.append('facet normal %r %r %r' % tuple(float(x) for x in n))
        out.append(' outer loop')
        for v in t:
            out.append('  vertex %r %r %r' % tuple(float(x) for x in v))
        out.append(' endloop')
        out.append('endfacet')
    out.append('endsolid sim')
    return ('\n'.join(out) + '\n').encode()


KINDS = ['L', 'L', 'Lnotch', 'Lnotch', 'Lhole', 'T', 'U', 'cross', 'corner',
         'vee']


def generate(r, kinds=None, scale=1.0, rotate=0.3):
    """Draw a model from random.Random r."""
    kind = r.choice(kinds or KINDS)
    t = r.choice([3, 4, 5, 6, 6])
    m = {'kind': kind, 't': t}

    def d(lo, hi):
        return max(3 * t, int(round(t * r.uniform(lo, hi) * scale)))
    if kind == 'vee':
        m['angle'] = r.choice([60, 75, 90, 100, 120, 135])
        m['la'] = float(d(5, 8))
        m['lb'] = float(d(5, 8))
        m['w'] = float(d(3, 8))
    else:
        w = d(3, 8)        # joint length
        a = d(4, 8)
        b = d(4, 8)
        L = [[[0, 0, 0], [a, w, t]], [[0, 0, 0], [t, w, b]]]
        if kind == 'L':
            bx = L
        elif kind == 'Lnotch':
            w = w + d(3, 6)
            bx = [[[0, 0, 0], [a, w, t]], [[0, 0, 0], [t, w, b]]]
            for _ in range(r.randint(1, 2)):
                y0 = r.randint(1, w - 3)
                y1 = min(w - 1, y0 + r.randint(1, max(2, w // 3)))
                which = r.randint(0, 2)
                if which == 0:      # notch through plate A near the joint
                    bx = bx + [[[t, y0, -1], [t + r.randint(1, 2 * t), y1, t + 1], 'cut']]
                elif which == 1:    # through plate B
                    bx = bx + [[[-1, y0, t], [t + 1, y1, t + r.randint(1, 2 * t)], 'cut']]
                else:               # through the joint itself
                    bx = bx + [[[-1, y0, -1], [t + r.randint(1, t), y1, t + r.randint(1, t)], 'cut']]
        elif kind == 'Lhole':
            x0 = t + r.randint(1, max(1, a - t - 3))
            y0 = r.randint(1, w - 2)
            bx = L + [[[x0, y0, -1], [min(a - 1, x0 + r.randint(1, 6)),
                                      min(w - 1, y0 + r.randint(1, 6)), t + 1],
                       'cut']]
        elif kind == 'T':
            x = r.randint(2 * t, 4 * t)
            bx = [[[0, 0, 0], [x + t + d(2, 4), w, t]],
                  [[x, 0, 0], [x + t, w, b]]]
        elif kind == 'Toff':        # the wall leaves a narrow strip on one side
            e = r.randint(2, 2 * t)
            z = r.choice([0, 0, -d(2, 4)])
            bx = [[[0, 0, 0], [a + t + e, w, t]], [[a, 0, z], [a + t, w, b]]]
        elif kind == 'island':      # a patch of one plate is cut off from its body
            n = r.randint(max(3, t // 2), 2 * t)
            # (each wall must lie within one plate, and not be t from another)
            y0 = r.randint(2, 2 * t) + .25
            y1 = y0 + n + 5 + .375
            w = max(w, int(y1) + 3)
            s = r.randint(2, t)
            bx = [[[0, 0, 0], [a, w, t]], [[0, 0, 0], [t, w, b]],
                  [[-1, y0, -1], [t + s, y0 + 2.25, t], 'cut'],
                  [[-1, y1 - 2.5, -1], [t + s, y1, t], 'cut'],
                  [[t, y0, -1], [t + s, y1, t + 1], 'cut']]
        elif kind == 'U':
            a = max(a, 5 * t)
            bx = [[[0, 0, 0], [a, w, t]], [[0, 0, 0], [t, w, b]],
                  [[a - t, 0, 0], [a, w, b]]]
        elif kind == 'cross':
            a = max(a, 6 * t)
            c = r.randint(2 * t, a - 3 * t)
            e = r.randint(2 * t, a - 3 * t)
            bx = [[[0, c, 0], [a, c + t, w]], [[e, 0, 0], [e + t, a, w]]]
        elif kind == 'corner':
            w = max(w, 4 * t)
            a = max(a, 4 * t)
            b = max(b, 4 * t)
            bx = [[[0, 0, 0], [a, w, t]], [[0, 0, 0], [t, w, b]],
                  [[0, 0, 0], [a, t, b]]]
        elif kind == 'cornerslot':  # the patch that is cut off is at a corner
            n = r.randint(2, 2 * t) + .25
            s, y1 = r.randint(2, t), t + n + 2.25
            w = max(w, 4 * t, int(y1) + 2 * t)
            a = max(a, 5 * t)
            b = max(b, 4 * t)
            bx = [[[0, 0, 0], [a, w, t]], [[0, 0, 0], [t, w, b]],
                  [[0, 0, 0], [a, t, b]],
                  [[-1, y1 - 2.5, -1], [t + s, y1, t], 'cut'],
                  [[t, -1, -1], [t + s, y1, t], 'cut']]
        elif kind == 'tray':
            w = max(w, 5 * t)
            a = max(a, 5 * t)
            b = max(b, 4 * t)
            bx = [[[0, 0, 0], [a, w, t]], [[0, 0, 0], [t, w, b]],
                  [[0, 0, 0], [a, t, b]], [[a - t, 0, 0], [a, w, b]],
                  [[0, w - t, 0], [a, w, b]]]
        elif kind == 'long':        # joints of more than a metre
            m['t'] = t = 40
            m['unit'] = 10
            w = r.choice([r.randint(300, 950), r.randint(1050, 1600),
                          r.randint(1050, 1600)])
            a, b = r.randint(200, 400), r.randint(200, 400)
            bx = [[[0, 0, 0], [a, w, t]], [[0, 0, 0], [t, w, b]]]
            if r.random() < .5:
                y0 = r.randint(50, w - 150)
                bx = bx + [[[-1, y0, -1], [t + r.randint(10, t), y0 + r.randint(10, 90),
                                           t + 1], 'cut']]
            m['shift'] = [r.randint(-4000, 4000) for _ in range(3)]
        elif kind == 'box':
            w = max(w, 6 * t)
            a = max(a, 6 * t)
            b = max(b, 6 * t)
            bx = [[[0, 0, 0], [a, w, b]], [[t, t, t], [a - t, w - t, b - t], 'cut']]
        m['boxes'] = bx
    if r.random() < rotate:
        m['rot'] = [round(r.uniform(-3, 3), 3) for _ in range(3)]
    if r.random() < 0.5 and kind != 'long':
        m['shift'] = [r.randint(-100, 100) for _ in range(3)]
    if r.random() < 0.5:
        m['tri_order'] = r.randint(0, 10 ** 6)
    return m


def default_params(model, r=None):
    """Parameters in a JSON-able form (rationals as 'n/d' strings)."""
    t = model['t']
    p = {'thickness': '%d' % t, 'min_finger_width': '3',
         'max_finger_width': '5', 'support_radius': '12',
         'random_seed': 42, 'final_dilation': '1/20'}
    if r is not None:
        mn = r.choice(['2', '5/2', '3', '33/10', '4'])
        p['min_finger_width'] = mn
        n, _, dd = mn.partition('/')
        v = int(n) / int(dd or 1)
        p['max_finger_width'] = str(
            r.choice(['%d' % (math.ceil(v * 1.5)), '%d' % math.ceil(v * 2),
                      '%d' % math.ceil(v * 3), '%d/10' % round(v * 17)]))
        p['support_radius'] = r.choice(['8', '12', '12', '15', '20'])
        p['random_seed'] = r.choice([42, 0, 1, r.randint(0, 2 ** 32 - 1)])
        p['final_dilation'] = r.choice(['1/20', '0', '1/10', '7/100'])
    if model.get('unit'):
        for k in ('min_finger_width', 'max_finger_width', 'support_radius'):
            n, _, dd = p[k].partition('/')
            p[k] = '%d/%s' % (int(n) * model['unit'], dd or 1)
    return p


def params_of(p, **extra):
    from plycutter.plytypes import F
    res = dict(p)
    for k in ('thickness', 'min_finger_width', 'max_finger_width',
              'support_radius', 'final_dilation'):
        if k in res:
            res[k] = F(res[k])
    res.setdefault('only_sheets', None)
    res.update(extra)
    return res
