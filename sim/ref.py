"""Small executable reference models (exact rational arithmetic, no plycutter code).

A *region* is a list of parts, a part is (outer_ring, [hole_ring, ...]), a ring a
list of (x, y) with exact coordinates.
"""
from fractions import Fraction
import gmpy2

Q = gmpy2.mpq


def q(v):
    if isinstance(v, Fraction):
        return Q(v.numerator, v.denominator)
    return Q(v)


def region_of(geom):
    """Region of a plycutter Geom2D, read through its public iteration API."""
    parts = []
    for p in geom.polygons():
        parts.append((
            [(q(a), q(b)) for a, b in p.exterior()],
            [[(q(a), q(b)) for a, b in h] for h in p.holes()]))
    return parts


def ring_area(ring):
    """Signed area; clockwise is positive (the library's convention)."""
    s = 0
    px, py = ring[-1]
    for x, y in ring:
        s += x * py - px * y
        px, py = x, y
    return s / 2


def region_area(region):
    a = Q(0)
    for outer, holes in region:
        a += abs(ring_area(outer))
        for h in holes:
            a -= abs(ring_area(h))
    return a


def locate_ring(ring, pt):
    """1 inside, 0 on the boundary, -1 outside (even-odd crossing count)."""
    x, y = pt
    inside = False
    ax, ay = ring[-1]
    for bx, by in ring:
        cr = (bx - ax) * (y - ay) - (by - ay) * (x - ax)
        if cr == 0 and min(ax, bx) <= x <= max(ax, bx) \
                and min(ay, by) <= y <= max(ay, by):
            return 0
        if (ay > y) != (by > y):
            # x of the edge at y  > x ?
            if (cr > 0) == (by > ay):
                inside = not inside
        ax, ay = bx, by
    return 1 if inside else -1


def locate(region, pt):
    res = -1
    for outer, holes in region:
        l = locate_ring(outer, pt)
        if l < 0:
            continue
        if l == 0:
            res = max(res, 0)
            continue
        v = 1
        for h in holes:
            k = locate_ring(h, pt)
            if k > 0:
                v = -1
                break
            if k == 0:
                v = 0
                break
        res = max(res, v)
    return res


# ---------------------------------------------------------------- exact sweep


def _segments(regions):
    """All non-vertical boundary segments, with the ring they belong to."""
    segs = []
    rings = []     # ring index -> (region index, part index, is_hole)
    xs = set()
    for ri, region in enumerate(regions):
        for pi, (outer, holes) in enumerate(region):
            for hi, ring in enumerate([outer] + list(holes)):
                k = len(rings)
                rings.append((ri, pi, hi > 0))
                px, py = ring[-1]
                for x, y in ring:
                    xs.add(x)
                    if px != x:
                        if px < x:
                            segs.append((px, py, x, y, k))
                        else:
                            segs.append((x, y, px, py, k))
                    px, py = x, y
    return segs, rings, xs


def cells(regions):
    """Exact trapezoid decomposition of the plane by the regions' boundaries.

    Yields (point, area, [multiplicity of region 0, 1, ...]): an interior point
    of every trapezoid, its area, and how many parts of each region contain it.
    """
    for pt, area, mult, _ in cells_x(regions):
        yield pt, area, mult


def cells_x(regions):
    """As cells(), with the x range of the trapezoid."""
    segs, rings, xs = _segments(regions)
    n = len(segs)
    segs.sort(key=lambda s: s[0])
    for i in range(n):
        ax, ay, bx, by, _ = segs[i]
        dax, day = bx - ax, by - ay
        ylo, yhi = (ay, by) if ay < by else (by, ay)
        for j in range(i + 1, n):
            cx, cy, dx, dy, _ = segs[j]
            if cx >= bx:
                break
            if (cy < ylo and dy < ylo) or (cy > yhi and dy > yhi):
                continue
            ddx, ddy = dx - cx, dy - cy
            den = dax * ddy - day * ddx
            if den == 0:
                continue
            t = ((cx - ax) * ddy - (cy - ay) * ddx) / den
            if t < 0 or t > 1:
                continue
            u = ((cx - ax) * day - (cy - ay) * dax) / den
            if u < 0 or u > 1:
                continue
            xs.add(ax + t * dax)
    xs = sorted(xs)
    nreg = len(regions)
    nparts = {}
    for k, (ri, pi, hole) in enumerate(rings):
        nparts.setdefault((ri, pi), [None, []])
        if hole:
            nparts[ri, pi][1].append(k)
        else:
            nparts[ri, pi][0] = k
    active = []
    si = 0
    for xi in range(len(xs) - 1):
        x0, x1 = xs[xi], xs[xi + 1]
        xm = (x0 + x1) / 2
        while si < n and segs[si][0] <= x0:
            active.append(segs[si])
            si += 1
        active = [s for s in active if s[2] > x0]
        if not active:
            continue
        ys = []
        for s in active:
            sl = (s[3] - s[1]) / (s[2] - s[0])
            ys.append((s[1] + sl * (xm - s[0]), s[4]))
        ys.sort(key=lambda t: t[0])
        inside = set()
        i = 0
        while i < len(ys):
            y = ys[i][0]
            while i < len(ys) and ys[i][0] == y:
                inside ^= {ys[i][1]}
                i += 1
            if i == len(ys):
                break
            y2 = ys[i][0]
            mult = [0] * nreg
            for (ri, pi), (o, hs) in nparts.items():
                if o in inside and not any(h in inside for h in hs):
                    mult[ri] += 1
            yield ((xm, (y + y2) / 2), (y2 - y) * (x1 - x0), mult, (x0, x1))


def check_op(result, operands, op):
    """None, or (point, message): where `result` differs from op(operands)."""
    for pt, area, mult in cells([result] + list(operands)):
        if mult[0] > 1:
            return pt, 'result parts overlap'
        want = bool(op(*[m > 0 for m in mult[1:]]))
        if want != (mult[0] > 0):
            return pt, 'point is %s the result but should be %s' % (
                'in' if mult[0] else 'not in', 'in' if want else 'out')
    return None


def valid_region(region):
    """None or a message: structural validity of a polygon set."""
    for outer, holes in region:
        for ring in [outer] + list(holes):
            if len(ring) < 3:
                return 'ring with fewer than 3 vertices'
            for i in range(len(ring)):
                if ring[i] == ring[i - 1]:
                    return 'repeated consecutive vertex'
            if ring_area(ring) == 0:
                return 'zero-area ring'
    return None


def canonical(region):
    """Representation-independent boundary of a region.

    Per directed supporting line, the merged intervals covered by boundary
    edges.  Two valid regions are the same point set iff this is equal.
    Independent of ring start, part order, collinear vertices and of how
    boundaries that touch in a point are joined up.
    """
    lines = {}
    for outer, holes in region:
        for ring, want in [(outer, 1)] + [(h, -1) for h in holes]:
            a = ring_area(ring)
            r = ring if (a > 0) == (want > 0) else ring[::-1]
            px, py = r[-1]
            for x, y in r:
                dx, dy = x - px, y - py
                m = max(abs(dx), abs(dy))
                if m == 0:
                    continue
                d = (dx / m, dy / m)
                off = d[0] * py - d[1] * px
                t0 = d[0] * px + d[1] * py
                t1 = d[0] * x + d[1] * y
                lines.setdefault((d, off), []).append((t0, t1))
                px, py = x, y
    res = []
    for k in sorted(lines):
        iv = sorted(lines[k])
        m = [list(iv[0])]
        for a, b in iv[1:]:
            if a <= m[-1][1]:
                if b > m[-1][1]:
                    m[-1][1] = b
            else:
                m.append([a, b])
        res.append((k, tuple(map(tuple, m))))
    return tuple(res)


def canon_geom(geom):
    return canonical(region_of(geom))


# ---------------------------------------------------------------- Minkowski


def clip_convex_area(ring, convex):
    """Exact |area| of ring (simple) intersected with a convex CCW polygon."""
    poly = ring if ring_area(ring) < 0 else ring[::-1]   # make CCW
    out = list(poly)
    n = len(convex)
    for i in range(n):
        ax, ay = convex[i]
        bx, by = convex[(i + 1) % n]
        ex, ey = bx - ax, by - ay
        inp, out = out, []
        if not inp:
            break
        px, py = inp[-1]
        ps = ex * (py - ay) - ey * (px - ax)
        for x, y in inp:
            s = ex * (y - ay) - ey * (x - ax)
            if (s > 0 and ps < 0) or (s < 0 and ps > 0):
                t = ps / (ps - s)
                out.append((px + t * (x - px), py + t * (y - py)))
            if s >= 0:
                out.append((x, y))
            px, py, ps = x, y, s
    if len(out) < 3:
        return Q(0)
    return abs(ring_area(out))


def clip_region_area(region, convex):
    a = Q(0)
    for outer, holes in region:
        a += clip_convex_area(outer, convex)
        for h in holes:
            a -= clip_convex_area(h, convex)
    return a


def ccw(poly):
    return list(poly) if ring_area(poly) < 0 else list(poly)[::-1]


def in_dilation(region, kernel_ccw, pt):
    """pt in region (+) K for a centrally symmetric convex K (open sense)."""
    k = [(pt[0] + a, pt[1] + b) for a, b in kernel_ccw]
    return clip_region_area(region, k) > 0


def in_erosion(region, kernel_ccw, pt):
    k = [(pt[0] + a, pt[1] + b) for a, b in kernel_ccw]
    return clip_region_area(region, k) == abs(ring_area(kernel_ccw))


def dist2_point_segment(p, a, b):
    dx, dy = b[0] - a[0], b[1] - a[1]
    l2 = dx * dx + dy * dy
    if l2 == 0:
        t = Q(0)
    else:
        t = ((p[0] - a[0]) * dx + (p[1] - a[1]) * dy) / l2
        t = min(max(t, Q(0)), Q(1))
    ex, ey = a[0] + t * dx - p[0], a[1] + t * dy - p[1]
    return ex * ex + ey * ey


def dist2_boundary(region, p):
    best = None
    for outer, holes in region:
        for ring in [outer] + list(holes):
            a = ring[-1]
            for b in ring:
                d = dist2_point_segment(p, a, b)
                if best is None or d < best:
                    best = d
                a = b
    return best
