"""Seeded generator of 2D polygon sets (JSON) with adversarial coincidences."""
import math

from . import ref, world

Q = ref.Q


def _rect(x, y, w, h):
    return [(x, y), (x, y + h), (x + w, y + h), (x + w, y)]


def gen_ring(r, n=8):
    """A simple polygon on a small integer grid [0, n]^2 (so that edges and vertices
    of different polygons coincide often)."""
    k = r.randint(0, 5)
    if k <= 1:
        w, h = r.randint(1, n), r.randint(1, n)
        return _rect(r.randint(0, n - w), r.randint(0, n - h), w, h)
    if k == 2:
        while True:
            p = [(r.randint(0, n), r.randint(0, n)) for _ in range(3)]
            a = (p[1][0] - p[0][0]) * (p[2][1] - p[0][1]) - \
                (p[1][1] - p[0][1]) * (p[2][0] - p[0][0])
            if a:
                return p
    if k == 3:      # an L or a U
        x, y = r.randint(0, n - 3), r.randint(0, n - 3)
        w, h = r.randint(3, n - x), r.randint(3, n - y)
        if r.random() < .5:
            a, b = r.randint(1, w - 1), r.randint(1, h - 1)
            return [(x, y), (x, y + h), (x + a, y + h), (x + a, y + b),
                    (x + w, y + b), (x + w, y)]
        a = r.randint(1, w - 2)
        b = r.randint(a + 1, w - 1)
        d = r.randint(1, h - 1)
        return [(x, y), (x, y + h), (x + a, y + h), (x + a, y + d), (x + b, y + d),
                (x + b, y + h), (x + w, y + h), (x + w, y)]
    if k == 4:      # a star-shaped polygon around a point
        cx, cy = Q(n, 2) + Q(1, 7), Q(n, 2) + Q(1, 11)
        pts = set()
        for _ in range(r.randint(3, 9)):
            pts.add((r.randint(0, n), r.randint(0, n)))
        by = {}
        for p in pts:
            a = math.atan2(float(p[1] - cy), float(p[0] - cx))
            # one point per direction
            by.setdefault(round(a, 9), p)
        ring = [by[a] for a in sorted(by)]
        ok = len(ring) >= 3
        for i in range(len(ring)):
            (ax, ay), (bx, by_) = ring[i - 1], ring[i]
            if (ax - cx) * (by_ - cy) - (ay - cy) * (bx - cx) <= 0:
                ok = False      # turns by more than 180 degrees
        if ok:
            return ring
        return _rect(0, 0, r.randint(1, n), r.randint(1, n))
    # a comb
    m = r.randint(1, max(1, n // 2 - 1))
    d = r.randint(1, n - 1)
    p = [(0, 0), (0, d)]
    for i in range(m):
        p += [(2 * i + 1, d), (2 * i + 1, n), (2 * i + 2, n), (2 * i + 2, d)]
    # drop a repeated first vertex of a tooth at x = 0
    p += [(2 * m + 1, d), (2 * m + 1, 0)]
    return p


def gen_leaf(r):
    """{'ring': [[x, y], ...], 'den': d, 'at': [dx, dy]}"""
    d = {'ring': [list(map(str, p)) for p in gen_ring(r, r.choice([4, 6, 8]))]}
    k = r.random()
    if k < .25:
        d['den'] = r.choice([2, 3, 7])
    if k > .8:
        d['at'] = [r.randint(-3, 3), r.randint(-3, 3)]
    if r.random() < .12:
        # an affine map with rational coefficients (slanted edges)
        while True:
            m = [r.randint(-3, 3) for _ in range(4)]
            if m[0] * m[3] != m[1] * m[2]:
                break
        d['map'] = m
    if r.random() < .05:
        d['huge'] = r.choice([10 ** 9 + 7, 10 ** 15])
    return d


def leaf_points(d):
    den = d.get('den', 1)
    ax, ay = d.get('at', (0, 0))
    a, b, c, e = d.get('map', (1, 0, 0, 1))
    h = d.get('huge')
    out = []
    for x, y in d['ring']:
        x, y = Q(x), Q(y)
        x, y = a * x + b * y, c * x + e * y
        x, y = x / den + ax, y / den + ay
        if h:
            x, y = x + Q(x, h), y + Q(1, h)
        out.append((x, y))
    if ref.ring_area(out) < 0:
        out.reverse()
    return out


def leaf_region(d):
    return [(leaf_points(d), [])]


def leaf(d):
    return world.mods.Geom2D.polygon(leaf_points(d), reorient=True)


# ------------------------------------------------------------------ checks


def structure(region):
    """None or message: a valid set of maximal polygons with holes?"""
    err = ref.valid_region(region)
    if err:
        return err
    # boundaries: every stretch of a line carries at most one edge per direction, and
    # no stretch is an edge in both directions (two parts not merged, or a slit)
    lines = {}
    for outer, holes in region:
        for ring, want in [(outer, 1)] + [(h, -1) for h in holes]:
            rg = ring if (ref.ring_area(ring) > 0) == (want > 0) else ring[::-1]
            px, py = rg[-1]
            for x, y in rg:
                dx, dy = x - px, y - py
                m = max(abs(dx), abs(dy))
                d = (dx / m, dy / m)
                s = 1
                if d < (0, 0):
                    d, s = (-d[0], -d[1]), -1
                off = d[0] * py - d[1] * px
                t0, t1 = d[0] * px + d[1] * py, d[0] * x + d[1] * y
                lines.setdefault((d, off), []).append(
                    (min(t0, t1), max(t0, t1), s))
                px, py = x, y
    for ivs in lines.values():
        ivs.sort(key=lambda t: t[:2])
        end = None
        for a, b, s in ivs:
            if end is not None and a < end[0]:
                return 'boundary stretches overlap (parts not merged)' if \
                    s != end[1] else 'boundary runs twice along the same line'
            if end is None or b > end[0]:
                end = (b, s)
    return None


def simple_box(region):
    xs = [p[0] for o, _ in region for p in o]
    ys = [p[1] for o, _ in region for p in o]
    return min(xs), min(ys), max(xs), max(ys)


def trapezoids(region):
    """Exact trapezoid decomposition: list of convex rings."""
    segs, rings, xs = ref._segments([region])
    # crossings of the region with itself do not occur in valid regions, but touching
    # in points on edges does: those are vertices already
    xs = sorted(xs)
    out = []
    for x0, x1 in zip(xs, xs[1:]):
        xm = (x0 + x1) / 2
        act = []
        for ax, ay, bx, by, k in segs:
            if ax <= x0 and bx >= x1:
                sl = (by - ay) / (bx - ax)
                act.append((ay + sl * (xm - ax), ay + sl * (x0 - ax),
                            ay + sl * (x1 - ax)))
        act.sort()
        for i in range(len(act) - 1):
            lo, hi = act[i], act[i + 1]
            if lo[0] == hi[0]:
                continue
            if ref.locate(region, (xm, (lo[0] + hi[0]) / 2)) > 0:
                ring = [(x0, lo[1]), (x0, hi[1]), (x1, hi[2]), (x1, lo[2])]
                res = []
                for p in ring:
                    if not res or res[-1] != p:
                        res.append(p)
                if res[0] == res[-1]:
                    res.pop()
                if len(res) >= 3:
                    out.append(res)
    return out


def hull(points):
    pts = sorted(set(points))
    if len(pts) < 3:
        return pts

    def half(ps):
        h = []
        for p in ps:
            while len(h) > 1 and (h[-1][0] - h[-2][0]) * (p[1] - h[-2][1]) - \
                    (h[-1][1] - h[-2][1]) * (p[0] - h[-2][0]) <= 0:
                h.pop()
            h.append(p)
        return h
    lo, up = half(pts), half(pts[::-1])
    return lo[:-1] + up[:-1]


def mink(convex, kernel):
    return hull([(a + c, b + d) for a, b in convex for c, d in kernel])


def dilation(region, kernel):
    """Overlapping convex pieces whose union is region (+) kernel."""
    return [(mink(t, kernel), []) for t in trapezoids(region)]


def complement_in(region, box):
    """box minus region as trapezoids (box larger than region)."""
    x0, y0, x1, y1 = box
    ring = [(x0, y0), (x0, y1), (x1, y1), (x1, y0)]
    segs, rings, xs = ref._segments([region, [(ring, [])]])
    xs = sorted(xs)
    out = []
    for a, b in zip(xs, xs[1:]):
        xm = (a + b) / 2
        act = []
        for ax, ay, bx, by, k in segs:
            if ax <= a and bx >= b:
                sl = (by - ay) / (bx - ax)
                act.append((ay + sl * (xm - ax), ay + sl * (a - ax),
                            ay + sl * (b - ax)))
        act.sort()
        for i in range(len(act) - 1):
            lo, hi = act[i], act[i + 1]
            if lo[0] == hi[0]:
                continue
            if ref.locate(region, (xm, (lo[0] + hi[0]) / 2)) < 0:
                rg = hull([(a, lo[1]), (a, hi[1]), (b, hi[2]), (b, lo[2])])
                if len(rg) >= 3:
                    out.append(rg)
    return out


def kernel_of(m, amount):
    """The kernel the library uses for an amount, seen from outside: what it adds to a
    square."""
    F = m.F
    sq = m.Geom2D.polygon([(F(-1), F(-1)), (F(-1), F(1)), (F(1), F(1)),
                           (F(1), F(-1))])
    out = ref.region_of(sq.buffer(amount))
    if len(out) != 1 or out[0][1]:
        return None, 'an enlarged square is not one polygon without holes'
    ring = hull(out[0][0])
    if abs(ref.ring_area(ring)) != abs(ref.ring_area(out[0][0])):
        return None, 'an enlarged square is not convex'
    # supporting lines, moved in by the square's support
    n = len(ring)
    lines = []
    for i in range(n):
        (ax, ay), (bx, by) = ring[i], ring[(i + 1) % n]
        nx, ny = by - ay, ax - bx            # outward for counterclockwise
        h = nx * ax + ny * ay - (abs(nx) + abs(ny))
        lines.append((nx, ny, h))
    pts = []
    for i in range(n):
        (a, b, h), (c, d, k) = lines[i], lines[(i + 1) % n]
        det = a * d - b * c
        if det == 0:
            return None, 'degenerate enlarged square'
        pts.append(((h * d - b * k) / det, (a * k - h * c) / det))
    kern = hull(pts)
    if set(mink(kern, [(Q(-1), Q(-1)), (Q(-1), Q(1)), (Q(1), Q(1)), (Q(1), Q(-1))])) \
            != set(ring):
        return None, 'an enlarged square is no Minkowski sum with a convex polygon'
    # symmetric, and close to a disc
    s = set(kern)
    if any((-x, -y) not in s for x, y in kern):
        return None, 'the offset polygon is not symmetric'
    rad = float(amount)
    for i in range(len(kern)):
        (ax, ay), (bx, by) = kern[i], kern[(i + 1) % len(kern)]
        if not 0.97 * rad <= math.hypot(ax, ay) <= 1.03 * rad:
            return None, 'a vertex of the offset polygon for %s is at distance %s' % (
                amount, math.hypot(ax, ay))
        d = math.sqrt(float(ref.dist2_point_segment((Q(0), Q(0)), (ax, ay), (bx, by))))
        if d < 0.85 * rad:
            return None, 'the offset polygon for %s leaves only %s' % (amount, d)
    return kern, None
