"""Running plycutter's pipeline, and looking at its values from outside."""
import contextlib
import hashlib
import math
import os
import random

import numpy as np

from . import models, ref, seams, world

Q = ref.Q


def set_order(spec):
    """spec: None or {'seed':, 'mode':, 'window':}."""
    if not spec:
        s = seams.OrderScheduler(0, 'off')
    else:
        s = seams.OrderScheduler(spec['seed'], spec.get('mode', 'any'),
                                 spec.get('window'))
    seams.set_scheduler(s)
    return s


# ------------------------------------------------------------------ fingerprints


def iv(g):
    """Intervals of a 1D geometry."""
    return tuple((a, b) for a, b in g.get_intervals())


def canon(x):
    """Canonical value of any state object, independent of representation."""
    m = world.mods
    if isinstance(x, m.Geom1D):
        return ('1d', iv(x))
    if hasattr(x, 'polygons') and hasattr(x, 'all_segments'):
        return ('2d', ref.canon_geom(x))
    if hasattr(x, 'items'):
        return tuple((k, canon(x[k])) for k in sorted(x.keys()))
    raise TypeError(type(x))


def digest(obj):
    return hashlib.sha1(repr(obj).encode()).hexdigest()[:20]


MAPS = ('sheet_chosen', 'sheet_ok', 'interside_chosen', 'interside_ok')


def state_canon(sb):
    return tuple(canon(getattr(sb, k)) for k in MAPS)


def state_digest(sb):
    return digest(state_canon(sb))


def freeze(x, depth=0):
    """Deep structural value (exact, representation included)."""
    m = world.mods
    if depth > 12:
        return '...'
    if x is None or isinstance(x, (str, int, float, bool, bytes)):
        return x
    if isinstance(x, np.ndarray):
        return ('nd', x.shape, tuple(freeze(v, depth + 1) for v in x.ravel().tolist()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(freeze(v, depth + 1) for v in x)
    if isinstance(x, m.Geom1D):
        return ('1d', freeze(x.get_intervals(), depth + 1))
    if hasattr(x, 'polygons') and hasattr(x, 'all_segments'):
        return ('2d', tuple(
            (tuple(freeze(tuple(v), depth + 1) for v in p.exterior()),
             tuple(tuple(freeze(tuple(v), depth + 1) for v in h)
                   for h in p.holes())) for p in x.polygons()))
    if isinstance(x, m.plytypes.FractionClass) or type(x).__module__ == 'gmpy2':
        return str(x)
    if isinstance(x, np.generic):
        return ('np', repr(x))
    if hasattr(x, 'items'):
        return ('map',) + tuple(
            (str(k), freeze(x[k], depth + 1)) for k in sorted(x.keys(), key=str))
    if isinstance(x, (set, frozenset)):
        return ('set',) + tuple(sorted(repr(freeze(v, depth + 1)) for v in x))
    if callable(x):
        return ('fn', getattr(x, '__name__', '?'))
    return repr(type(x))


def hexdig(x):
    return digest(freeze(x))


# ------------------------------------------------------------------ 1D reference


INF = math.inf


def u1(*sets):
    ivs = sorted((a, b) for s in sets for a, b in s if a < b)
    out = []
    for a, b in ivs:
        if out and a <= out[-1][1]:
            if b > out[-1][1]:
                out[-1][1] = b
        else:
            out.append([a, b])
    return tuple((a, b) for a, b in out)


def inv1(s):
    out = []
    lo = -INF
    for a, b in s:
        if lo < a:
            out.append((lo, a))
        lo = b
    if lo < INF:
        out.append((lo, INF))
    return tuple(out)


def i1(a, b):
    out = []
    i = j = 0
    while i < len(a) and j < len(b):
        lo = max(a[i][0], b[j][0])
        hi = min(a[i][1], b[j][1])
        if lo < hi:
            out.append((lo, hi))
        if a[i][1] < b[j][1]:
            i += 1
        else:
            j += 1
    return tuple(out)


def d1(a, b):
    return i1(a, inv1(b))


def m1(s):
    return sum((b - a for a, b in s), Q(0))


# ------------------------------------------------------------------ 2D reference


def diff_area(ra, rb):
    """Exact area of region a minus region b."""
    if not ra:
        return Q(0)
    if ra == rb:
        return Q(0)
    s = Q(0)
    for _, area, mult in ref.cells([ra, rb]):
        if mult[0] and not mult[1]:
            s += area
    return s


def common_area(ra, rb):
    if not ra or not rb:
        return Q(0)
    s = Q(0)
    for _, area, mult in ref.cells([ra, rb]):
        if mult[0] and mult[1]:
            s += area
    return s


class Regions:
    """Regions of geometries, each read once."""

    def __init__(self):
        self.c = {}

    def __call__(self, g):
        k = id(g)
        if k not in self.c:
            self.c[k] = (g, ref.region_of(g))
        return self.c[k][1]


def finger_region(side, intervals):
    """The strip of a joint side over the given intervals (independent of
    make_fingers)."""
    out = []
    for a, b in intervals:
        pts = []
        for t, n in ((a, 0), (a, 1), (b, 1), (b, 0)):
            al = t + side.origin_offset
            nc = side.max_normal_offset if n else side.min_normal_offset
            pts.append((al * side.direction[0] + nc * side.normal[0],
                        al * side.direction[1] + nc * side.normal[1]))
        if ref.ring_area(pts) == 0:
            continue
        if ref.ring_area(pts) < 0:
            pts = pts[::-1]
        out.append((pts, []))
    return out


# ------------------------------------------------------------- state invariants


TOL1 = Q(1, 10 ** 6)
TOL2 = Q(1, 10 ** 5)


def sides_of(sp):
    """[(side, opposite)] of all joints, in a fixed order."""
    out = []
    for k in sorted(sp.intersections.keys()):
        a, b = sp.intersections[k].sides
        out.append((a, b))
        out.append((b, a))
    return out


def check_state(sb, R=None, material=True, firm=True):
    """Violations of the consistency of one build state."""
    R = R or Regions()
    sp = sb.sheetplex
    bad = []
    for s in sorted(sp.sheets.keys()):
        d = diff_area(R(sb.sheet_chosen[s]), R(sb.sheet_ok[s]))
        if d > TOL2:
            bad.append('sheet %s: chosen exceeds allowed by area %.3g' % (s, d))
    for side, opp in sides_of(sp):
        ch, ok = iv(sb.interside_chosen[side.id]), iv(sb.interside_ok[side.id])
        och, ook = iv(sb.interside_chosen[opp.id]), iv(sb.interside_ok[opp.id])
        d = m1(d1(ch, ok))
        if d > TOL1:
            bad.append('side %s: chosen exceeds allowed by %.3g' % (side.id, d))
        d = m1(i1(ch, ook))
        if d > TOL1:
            bad.append('side %s: chosen but still allowed for %s over %.3g' % (
                side.id, opp.id, d))
        d = m1(i1(ch, och))
        if d > TOL1:
            bad.append('both sides of %s chosen over %.3g' % (side.intersection, d))
        if material and ch:
            f = finger_region(side, ch)
            of = finger_region(opp, ch)
            d = common_area(of, R(sb.sheet_ok[opp.sheet]))
            if d > TOL2:
                bad.append('side %s chosen but sheet %s still allowed area %.3g '
                           'there' % (side.id, opp.sheet, d))
            if firm:
                okf = [(o, h) for o, h in R(sb.sheet_ok[side.sheet])]
                # allowed finger area that is not chosen
                s = Q(0)
                for _, area, mult in ref.cells(
                        [f, okf, R(sb.sheet_chosen[side.sheet])]):
                    if mult[0] and mult[1] and not mult[2]:
                        s += area
                if s > TOL2:
                    bad.append('side %s: finger area %.3g missing from sheet %s'
                               % (side.id, s, side.sheet))
        if material:
            both = finger_region(side, ook)
            d = common_area(both, R(sb.sheet_chosen[side.sheet]))
            if d > Q(1, 1000):
                bad.append('sheet %s has chosen area %.3g where %s is still '
                           'allowed' % (side.sheet, d, opp.id))
    return bad


# ------------------------------------------------------------------ the pipeline


def write_model(path, model, fmt='stl'):
    with open(path, 'wb') as f:
        f.write(models.stl_ascii(model) if fmt == 'ascii'
                else models.stl_bytes(model))


def main_args(params, infile, outfile=None):
    a = []
    for k in ('thickness', 'min_finger_width', 'max_finger_width',
              'support_radius', 'random_seed', 'final_dilation'):
        a += ['--' + k, str(params[k])]
    if outfile is not None:
        a += ['-o', outfile]
    return a + [infile]


def extract(model, params, via='mesh'):
    m = world.mods
    mesh = models.mesh_of(model)
    return mesh, m.create_sheetplex.create_sheetplex(mesh, params)


def full(model, p0, **extra):
    """create_sheetplex + canned_1, as main does it."""
    m = world.mods
    params = models.params_of(p0, **extra)
    _, sp = extract(model, params)
    if len(sp.sheets) == 0:
        raise Exception('No sheets found')
    return sp, m.canned.canned_1(sp, params)


def rings_of(geom):
    """All outlines and holes as float rings."""
    out = []
    for outer, holes in ref.region_of(geom):
        for ring in [outer] + holes:
            out.append([(float(x), float(y)) for x, y in ring])
    return out


def norm_ring(ring, dx=0.0, dy=0.0):
    """Ring up to starting point and direction, collinear points kept."""
    pts = [(x + dx, y + dy) for x, y in ring]
    i = min(range(len(pts)), key=lambda k: (round(pts[k][0], 5), round(pts[k][1], 5)))
    a = pts[i:] + pts[:i]
    b = [a[0]] + a[:0:-1]
    return a, b


def rings_match(r1, r2, tol=1e-5):
    """Same closed curve (any start, direction)?"""
    if len(r1) != len(r2):
        r1, r2 = drop_collinear(r1), drop_collinear(r2)
        if len(r1) != len(r2):
            return False
    n = len(r1)
    for s in range(n):
        if abs(r1[0][0] - r2[s][0]) <= tol and abs(r1[0][1] - r2[s][1]) <= tol:
            for d in (1, -1):
                if all(abs(r1[k][0] - r2[(s + d * k) % n][0]) <= tol and
                       abs(r1[k][1] - r2[(s + d * k) % n][1]) <= tol
                       for k in range(n)):
                    return True
    return False


def drop_collinear(r):
    out = []
    n = len(r)
    for i in range(n):
        a, b, c = r[i - 1], r[i], r[(i + 1) % n]
        cr = (b[0] - a[0]) * (c[1] - b[1]) - (b[1] - a[1]) * (c[0] - b[0])
        l = math.hypot(b[0] - a[0], b[1] - a[1]) * math.hypot(
            c[0] - b[0], c[1] - b[1])
        if l < 1e-18 or abs(cr) < 1e-9 * l:
            continue
        out.append(b)
    return out


def bbox(rings):
    xs = [p[0] for r in rings for p in r]
    ys = [p[1] for r in rings for p in r]
    return min(xs), min(ys), max(xs), max(ys)


def ring_areas(ring):
    s = 0.0
    for (ax, ay), (bx, by) in zip(ring, ring[1:] + ring[:1]):
        s += ax * by - ay * bx
    return abs(s) / 2


def match_layout(outlines, expected):
    """Do the outlines of a file consist of the expected sheets, in order, each only
    translated, side by side?  expected: [(name, rings)] (empty ones left out).
    Returns (error or None, {name: (dx, dy)})."""
    loops = []
    for kind, pts in outlines:
        if kind != 'loop':
            return 'the file contains a %s entity that is not an outline' % kind, {}
        loops.append(pts)
    expected = [(n, r) for n, r in expected if r]
    want = sum(len(r) for _, r in expected)
    if len(loops) != want:
        return 'the file has %d outlines, the sheets have %d' % (len(loops), want), {}
    # which outlines belong to which sheet: by shape, grouped by sheet
    at = 0
    shifts = {}
    groups = []
    for name, rings in expected:
        mine = loops[at:at + len(rings)]
        at += len(rings)
        groups.append(mine)
    for (name, rings), mine in zip(expected, groups):
        eb, gb = bbox(rings), bbox(mine)
        dx, dy = gb[0] - eb[0], gb[1] - eb[1]
        left = list(mine)
        for r in rings:
            moved = [(x + dx, y + dy) for x, y in r]
            for k, g in enumerate(left):
                if rings_match(moved, g):
                    del left[k]
                    break
            else:
                return 'sheet %s: an outline (of %d points) is missing, altered or ' \
                    'misplaced' % (name, len(r)), {}
        shifts[name] = (dx, dy)
    bbs = [bbox(g) for g in groups]
    for i in range(len(bbs)):
        for j in range(i):
            a, b = bbs[i], bbs[j]
            if a[0] < b[2] - 1e-9 and b[0] < a[2] - 1e-9 and \
                    a[1] < b[3] - 1e-9 and b[1] < a[3] - 1e-9:
                return 'sheets %s and %s overlap in the file' % (
                    expected[j][0], expected[i][0]), {}
    return None, shifts


# --------------------------------------------------------- one whole simulated run


class Spy:
    """Sees the top-level calls of the heuristic steps (public functions of the
    heuristics module) if they are made through the module."""

    def __init__(self):
        self.calls = []          # (name, state before, state after or exception)
        self.depth = 0

    def __enter__(self):
        import functools
        import types
        h = world.mods.heuristics
        self.saved = {}

        def wrap(name, f):
            @functools.wraps(f)
            def call(sb, *a, **k):
                top = self.depth == 0
                self.depth += 1
                try:
                    r = f(sb, *a, **k)
                except BaseException as e:
                    if top:
                        self.calls.append((name, sb, e))
                    raise
                finally:
                    self.depth -= 1
                if top:
                    self.calls.append((name, sb, r))
                return r
            return call
        for name, f in list(vars(h).items()):
            if isinstance(f, types.FunctionType) and not name.startswith('_') and \
                    f.__module__ == h.__name__ and \
                    f.__code__.co_varnames[:1] == ('sb',):
                self.saved[name] = f
                setattr(h, name, wrap(name, f))
        return self

    def __exit__(self, *a):
        for name, f in self.saved.items():
            setattr(world.mods.heuristics, name, f)


class SimFailure(Exception):
    pass


EXC = {'SimFailure': SimFailure, 'MemoryError': MemoryError,
       'KeyboardInterrupt': KeyboardInterrupt, 'ValueError': ValueError,
       'RecursionError': RecursionError}


class StepFault:
    """An exception at one simulated step, in code that computes."""
    SKIP = ('canned.py', 'command_line.py', 'writer.py')

    def __init__(self, spec):
        self.spec = spec
        self.fired = None
        self.where = None
        self.steps = world.Steps(first=spec['at'], on_tick=self.tick)

    def tick(self, n, code, line):
        self.steps.next = n + 1
        if os.path.basename(code.co_filename) in self.SKIP or world.in_logging():
            return
        self.steps.next = 1 << 62
        self.where = '%s:%d' % (os.path.basename(code.co_filename), line)
        self.fired = EXC[self.spec['exc']]('injected')
        raise self.fired

    def __enter__(self):
        self.steps.__enter__()
        return self

    def __exit__(self, *a):
        self.steps.stop()


class Outcome:
    mesh = sp = result = exc = spy = fault = None


def simulate(case, st, spy=False, on_failure=True):
    """Extraction and processing of a case under its schedules."""
    m = world.mods
    sched = set_order(case.get('order'))
    params = models.params_of(case['params'])
    params['return_on_failure'] = on_failure
    o = Outcome()
    o.spy = Spy() if spy else None
    try:
        with world.RNGSeam(case.get('rng')):
            o.mesh, o.sp = extract(case['model'], params)
            if len(o.sp.sheets):
                with contextlib.ExitStack() as es:
                    if spy:
                        es.enter_context(o.spy)
                    if case.get('fault'):
                        o.fault = es.enter_context(StepFault(case['fault']))
                    o.result = m.canned.canned_1(o.sp, params)
    except Exception as e:
        o.exc = e
    st.add('evaluations')
    st.add('sim_steps', sched.n)
    st.fault('permuted orders', sched.permuted)
    if case.get('rng'):
        st.fault('scheduled random stream')
    if o.fault is not None and o.fault.fired:
        st.fault('failure at a step: ' + type(o.fault.fired).__name__)
    return o


def gen_run(r, kinds, i, scales=(0.45, 0.45, 0.6), p_rng=.7):
    model = models.generate(r, [kinds[i % len(kinds)]], scale=r.choice(scales))
    c = {'model': model, 'params': models.default_params(model, r),
         'order': {'seed': r.randint(0, 10 ** 9), 'mode': r.choice(['real', 'any'])}}
    if r.random() < p_rng:
        c['rng'] = gen_rng(r)
    return c


def gen_rng(r):
    return {'seed': r.randint(0, 10 ** 9),
            'uniform': r.choice(['any', 'mix', 'lo', 'hi']),
            'randint': r.choice(['any', 'mix', 'lo', 'hi']),
            'shuffle': r.choice(['any', 'any', 'lo', 'hi'])}


def shrink_run(case):
    if case.get('rng'):
        for k in ('uniform', 'randint', 'shuffle'):
            if case['rng'].get(k) != 'lo':
                yield dict(case, rng=dict(case['rng'], **{k: 'lo'}))
        c = dict(case)
        del c['rng']
        yield c
    o = case.get('order')
    if o and o.get('mode') != 'off':
        yield dict(case, order={'seed': 0, 'mode': 'off'})
    m = case['model']
    for k in ('rot', 'shift', 'tri_order'):
        if m.get(k) is not None:
            m2 = dict(m)
            del m2[k]
            yield dict(case, model=m2)
    if m.get('boxes') and len(m['boxes']) > 2:
        for k in range(len(m['boxes'])):
            yield dict(case, model=dict(m, boxes=m['boxes'][:k] + m['boxes'][k + 1:]))
    if o and o.get('mode') != 'off':
        lo, hi = o.get('window') or (0, 1 << 17)
        if hi - lo > 1:
            mid = (lo + hi) // 2
            yield dict(case, order=dict(o, window=[lo, mid]))
            yield dict(case, order=dict(o, window=[mid, hi]))
