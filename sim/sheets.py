"""Generator of sheet sets for the writer (JSON values)."""
from . import world


def gen_poly(r, x, y, s):
    """A simple polygon inside the square [x, x+s] x [y, y+s], as [num, den] free
    rational strings."""
    k = r.randint(0, 3)
    if k == 0:
        w, h = r.randint(1, s), r.randint(1, s)
        p = [(x, y), (x, y + h), (x + w, y + h), (x + w, y)]
    elif k == 1:
        p = [(x, y), (x + r.randint(0, s - 1), y + s), (x + s, y + r.randint(0, s - 1))]
    elif k == 2:     # an L
        a, b = r.randint(1, s - 1), r.randint(1, s - 1)
        p = [(x, y), (x, y + s), (x + a, y + s), (x + a, y + b), (x + s, y + b),
             (x + s, y)]
    else:            # a comb (fingers)
        n = r.randint(1, 4)
        p = [(x, y)]
        h = r.randint(1, s)
        for i in range(n):
            p += [(x + 2 * i, y + h), (x + 2 * i + 1, y + h),
                  (x + 2 * i + 1, y + h + 1), (x + 2 * i + 2, y + h + 1)]
        p += [(x + 2 * n, y)]
    return [[str(a), str(b)] for a, b in p]


def gen_sheet(r):
    """{'add': [polygons], 'sub': [holes], 'isl': [islands], 'div': d, 'off': [x, y]}"""
    k = r.random()
    if k < 0.08:
        return {'add': []}
    sh = {'add': [], 'sub': [], 'isl': []}
    n = r.choice([1, 1, 1, 2, 3])
    for i in range(n):
        s = r.randint(12, 30)
        x, y = 60 * i, r.randint(-20, 20)
        if r.random() < .4:
            s += 1
            sh['add'].append([[str(x), str(y)], [str(x), str(y + s)],
                              [str(x + s), str(y + s)], [str(x + s), str(y)]])
            if r.random() < .7:
                a, b = r.randint(1, 3), r.randint(1, 3)
                w = s - 6
                sh['sub'].append([[str(x + a), str(y + b)],
                                  [str(x + a), str(y + b + w)],
                                  [str(x + a + w), str(y + b + w)],
                                  [str(x + a + w), str(y + b)]])
                if r.random() < .5:
                    sh['isl'].append(gen_poly(r, x + a + 1, y + b + 1, 3))
        else:
            sh['add'].append(gen_poly(r, x, y, s))
    sh['div'] = r.choice([1, 1, 2, 3, 7, 10])
    sh['off'] = [r.choice([0, 0, r.randint(-500, 500), r.randint(-10 ** 6, 10 ** 6)])
                 for _ in range(2)]
    return sh


def gen_set(r, nmax=4):
    n = r.randint(1, nmax)
    # as main does: names s0, s1, ... in order; sometimes other names and orders
    names = ['s%d' % i for i in range(n)]
    if r.random() < .3:
        r.shuffle(names)
    if r.random() < .2:
        names = ['sheet %d/ä' % i for i in range(n)]
    return [[nm, gen_sheet(r)] for nm in names]


def build(sh):
    m = world.mods
    F = m.F
    d = sh.get('div', 1)
    ox, oy = sh.get('off', (0, 0))

    def poly(p):
        return m.Geom2D.polygon([(F(a) / d + ox, F(b) / d + oy) for a, b in p],
                                reorient=True)
    g = m.Geom2D.empty()
    for p in sh['add']:
        g = g | poly(p)
    for p in sh.get('sub', ()):
        g = g - poly(p)
    for p in sh.get('isl', ()):
        g = g | poly(p)
    return g


def build_set(spec):
    return {name: build(sh) for name, sh in spec}
