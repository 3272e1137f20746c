"""C11: values never change once made."""
import contextlib
import functools
import io
import json
import operator
import os
import random
import shutil
import tempfile
import types

import numpy as np

from .. import models, pipeline, ref, shapes, sheets, world
from ..pipeline import EXC
from ..runner import Check
from . import c02, c12

KINDS = ['L', 'vee', 'Lhole', 'T', 'Lnotch', 'cross', 'L', 'corner']
AMOUNTS = ['1/20', '1', '-1/3', '-1', '2', '0']


ASSIGN = {'ior': operator.ior, 'iand': operator.iand, 'isub': operator.isub,
          'ixor': operator.ixor}


def digest2(m, g, points):
    """What can be seen of a 2D geometry."""
    segs = sorted(repr(pipeline.freeze([tuple(a), tuple(b)]))
                  for a, b in g.all_segments())
    return pipeline.digest((pipeline.freeze(g), segs, str(g.area()), g.is_empty(),
                            [str(g.locate(p)) for p in points]))


def digest1(m, g):
    return pipeline.digest((pipeline.freeze(g), str(g.measure1d()), g.is_empty(),
                            [str(g.locate(m.F(v))) for v in (-3, 0, 1, 5)]))


def ids(xs):
    return [id(x) for x in xs]


class Pool:
    """Every value obtained so far, with what it looked like then."""

    def __init__(self):
        self.items = []

    def add(self, label, value, see):
        self.items.append((label, value, see, see(value)))

    def changed(self):
        for label, value, see, was in self.items:
            if see(value) != was:
                return label
        return None


class C11(Check):
    id = 'C11'
    quick = 64
    thorough = 4000
    case_timeout = 240
    rule = ('A case is a program of operations on a growing pool of values: geometry '
            '(boolean, offset, projection, queries), build states and sheet models '
            '(decisions valid and contradictory, heuristic steps, restriction, fingers), '
            'or whole runs with their histories.  Everything in the pool is compared '
            'with its deep snapshot after every operation, and at seeded simulated '
            'steps inside operations in forked branches: as an observer would see it '
            'then, and after a failure or interrupt at that step.  Distinct and '
            'non-trivial: an operation that succeeded, was refused or was cut; by '
            '(values, operation, step).')
    real = ['geometry', 'sheetbuild', 'sheetplex', 'heuristics', 'canned',
            'create_sheetplex', 'pyrsistent']
    stubs = ['exceptions and observers at steps', 'iteration orders']
    assumptions = ['Values are only changed by the library, not by the caller writing '
                   'into arrays it was given.']

    def gen(self, r, i, tier):
        mode = ['geom', 'state', 'geom', 'state', 'geom', 'run', 'geom', 'state'][i % 8]
        kind = KINDS[i // 8 % len(KINDS)]
        if mode == 'run' and tier == 'quick':
            if i % 16 == 5:
                kind = 'L'
            else:
                mode = 'geom'
        c = {'mode': mode, 'seed': r.randint(0, 10 ** 9),
             'branches': {'geom': 16, 'state': 12, 'run': 4}[mode]
             * (1 if tier == 'quick' else 4),
             'order': {'seed': r.randint(0, 10 ** 9),
                       'mode': r.choice(['off', 'real', 'any'])}}
        if mode == 'geom':
            c['leaves'] = [shapes.gen_leaf(r) for _ in range(4)]
            c['sheet'] = sheets.gen_sheet(r)
            c['ops'] = [self.gen_op(r) for _ in range(r.randint(5, 9))]
        else:
            model = models.generate(r, [kind], scale=.4)
            c['model'] = model
            c['params'] = models.default_params(model, r)
            c['n'] = r.randint(6, 12)
            c['faults'] = 0
            c['tentative'] = r.random() < .3
            c['others'] = .4
        return c

    def gen_op(self, r):
        k = r.choice(['or', 'and', 'sub', 'or', 'sub', 'buffer', 'project', 'union',
                      'map', 'one', 'query', 'write', 'assign', 'many'])
        a, b = r.randrange(100), r.randrange(100)
        if k == 'buffer':
            return [k, a, r.choice(AMOUNTS)]
        if k == 'project':
            return [k, a, r.choice([[1, 0], [0, 1], [1, 1], [3, -2]])]
        if k == 'assign':
            return [k, r.choice(sorted(ASSIGN)), a, b]
        if k == 'many':
            return [k, r.randint(60, 80), a]
        if k in ('union', 'write'):
            return [k, [r.randrange(100) for _ in range(r.randint(0, 4))]]
        if k == 'one':
            return [k, r.choice(['or', 'and', 'sub', 'xor', 'inv', 'buffer', 'filter',
                                 'pieces']), a, b]
        return [k, a, b]

    # ----------------------------------------------------------------- the play

    def run(self, case, st):
        self.sched = pipeline.set_order(case['order'])
        self.f = world.Forker(100)
        self.pool = Pool()
        self.mine = None
        self.r = random.Random('c11/%s' % case['seed'])
        only = case.get('at')
        self.only = only
        self.case = case
        self.clock = world.Steps(
            first=only[0] if only else self.r.randint(1, 300), on_tick=self.tick,
            on_new=None if only else self.new)
        self.dir = tempfile.mkdtemp(prefix='plysim')
        try:
            v = {'geom': self.geom, 'state': self.state, 'run': self.run_mode}[
                case['mode']](case, st)
        except BaseException:
            if self.f.child is None:
                raise
            import traceback
            self.f.report({'tb': traceback.format_exc()})
        if self.f.child is not None:
            self.f.report({'late': True})
        shutil.rmtree(self.dir)
        st.add('sim_steps', self.clock.n)
        for label, data, status in self.f.results:
            if not data:
                raise RuntimeError('branch died: %s %s' % (label, status))
            d = json.loads(data)
            if 'tb' in d:
                raise RuntimeError(d['tb'])
            st.add('evaluations')
            st.fault(label[1])
            st.reach(case['seed'], label)
            st.log(label, d)
            if d.get('changed') and not v:
                v = [{'sig': d['changed'].split(' ')[0] + ' ' + label[1],
                      'what': '%s is different %s %s' % (
                          d['changed'], 'to an observer at' if label[1] == 'observer'
                          else 'after %s at' % label[1], label[2]),
                      'case': dict(case, at=label[:2])}]
        if self.f.failed:
            raise RuntimeError('branch timed out: %s' % (self.f.failed,))
        st.fault('permuted orders', self.sched.permuted)
        st.sample({k: case[k] for k in case if k != 'leaves'})
        return v

    def new(self, n, code, line):
        if self.r.random() < .06:
            self.branch(n, code, line)

    def tick(self, n, code, line):
        if self.only:
            self.clock.next = 1 << 62
        else:
            self.clock.next = n + 1 + int(n * 1.0 * self.r.random())
        self.branch(n, code, line)

    def branch(self, n, code, line):
        if self.f.child is not None or world.in_logging():
            return
        if not self.only and len(self.f.results) >= self.case['branches']:
            return
        kind = self.only[1] if self.only else self.r.choice(
            ['observer'] + sorted(EXC)[:4])
        if self.f.branch([n, kind, '%s:%d' % (os.path.basename(code.co_filename),
                                              line)]):
            self.clock.stop()
            if kind == 'observer':
                self.f.report({'changed': self.pool.changed()})
            self.mine = EXC[kind]('injected')
            raise self.mine

    def step(self, what, fn, st, post=None, cut=True):
        """One operation; returns its value or None if it was refused."""
        v = None
        try:
            # (branches share the disk: not cut where files are written)
            with self.clock if cut else contextlib.nullcontext():
                v = fn()
            out = 'done'
        except AssertionError:
            out = 'refused'
        except BaseException as e:
            if self.f.child is None and not isinstance(e, Exception):
                raise
            out = type(e).__name__
        if self.f.child is not None and self.mine is not None:
            self.f.report({'changed': self.pool.changed() or (
                post(v) if post and v is not None else None)})
        st.add('evaluations')
        st.probe('%s %s' % (what, out))
        st.log(what, out)
        ch = self.pool.changed()
        if ch:
            raise Changed('%s is different after %s (%s)' % (ch, what, out))
        st.reach(self.case['seed'], what, len(self.pool.items))
        return v

    # ----------------------------------------------------------------- geometry

    def geom(self, case, st):
        m = world.mods
        F = m.F
        g2, g1 = [], []

        def add2(label, g):
            region = ref.region_of(g)
            pts = []
            for outer, holes in region[:3]:
                for ring in [outer] + holes:
                    (ax, ay), (bx, by), (cx, cy) = ring[0], ring[1], ring[2]
                    pts += [(ax, ay), ((ax + bx) / 2, (ay + by) / 2),
                            ((ax + bx + cx) / 3, (ay + by + cy) / 3)]
            pts = [(F(x), F(y)) for x, y in pts[:7]] + [(F(1, 2), F(1, 2))]
            self.pool.add('%s (value %d)' % (label, len(self.pool.items)), g,
                          lambda g: digest2(m, g, pts))
            g2.append(g)

        def add1(label, g):
            self.pool.add('%s (value %d)' % (label, len(self.pool.items)), g,
                          lambda g: digest1(m, g))
            g1.append(g)
        try:
            add2('empty', m.Geom2D.empty())
            for d in case['leaves']:
                add2('polygon', shapes.leaf(d))
            add2('sheet', sheets.build(case['sheet']))
            add1('line', m.Geom1D([[F(0), F(2)], [F(3), F(7)]]))
            add1('line', m.Geom1D([[F(-1), F(1)], [F(5), F(6)]]))
            add1('line', m.Geom1D.empty())
            add1('line', m.Geom1D.full())
            for o in case['ops']:
                self.geom_op(m, o, g2, g1, add2, add1, st)
        except Changed as e:
            return [self.violation(e)]
        return []

    def geom_op(self, m, o, g2, g1, add2, add1, st):
        F = m.F

        def small(*gs):
            return sum(c12.complexity(ref.region_of(g)) for g in gs) <= 90
        k = o[0]
        if k in ('or', 'and', 'sub'):
            a, b = g2[o[1] % len(g2)], g2[o[2] % len(g2)]
            if small(a, b):
                v = self.step(k, lambda: a | b if k == 'or' else a & b if k == 'and'
                              else a - b, st)
                if v is not None:
                    add2(k, v)
        elif k == 'union':
            gs = [g2[j % len(g2)] for j in o[1]]
            if small(*gs):
                self.pool.add('operands', gs, ids)
                v = self.step(k, lambda: m.Geom2D.union(gs), st)
                if v is not None:
                    add2(k, v)
        elif k == 'many':
            # (so many that they are united in groups)
            gs = [m.Geom2D.polygon([(F(j), F(0)), (F(j + 1), F(0)), (F(j + 1), F(1)),
                                    (F(j), F(1 + j % 2))], reorient=True) for j in range(o[1])]
            gs[o[2] % o[1]] = g2[1 + o[2] % 4]
            self.pool.add('operands', gs, ids)
            for n in (0, o[2] % o[1]):
                self.pool.add('operand', gs[n], pipeline.hexdig)
            v = self.step(k, lambda: m.Geom2D.union(gs), st)
            if v is not None:
                self.pool.add('union of many', v, pipeline.hexdig)
        elif k == 'write':
            gs = {'s%d' % n: g2[j % len(g2)] for n, j in enumerate(o[1])}

            def write():
                with contextlib.redirect_stdout(io.StringIO()):
                    m.writer.write_dxf(os.path.join(self.dir, 'out.dxf'), gs)
            self.step(k, write, st, cut=False)
        elif k == 'assign':
            a, b = g2[o[2] % len(g2)], g2[o[3] % len(g2)]
            if (o[2] + o[3]) % 3 == 0:
                a, b = g1[o[2] % len(g1)], g1[o[3] % len(g1)]
            elif not small(a, b):
                return
            v = self.step(o[1], lambda: ASSIGN[o[1]](a, b), st)
            if v is not None and (o[2] + o[3]) % 3:
                add2(o[1], v)
        elif k == 'buffer':
            a = g2[o[1] % len(g2)]
            if c12.complexity(ref.region_of(a)) < 26:
                v = self.step(k, lambda: a.buffer(F(o[2])), st)
                if v is not None:
                    add2(k, v)
        elif k == 'map':
            a = g2[o[1] % len(g2)]
            c = F(1 + o[2] % 5)
            v = self.step(k, lambda: a.transformed_with(
                lambda ps: np.array(ps, object) + [c, -c]), st)
            # (only to see that the original stays)
        elif k == 'project':
            a = g2[o[1] % len(g2)]
            v = self.step(k, lambda: a.project_to_1d(
                [F(x) for x in o[2]], F(1, 3)), st)
            if v is not None:
                add1(k, v)
        elif k == 'query':
            a = g2[o[1] % len(g2)]

            def query():
                a.area(), a.is_empty(), list(a.all_segments()), list(a.polygons())
                for p in a.polygons():
                    p.area(), p.exterior(), p.holes(), p.is_empty()
                    list(p.all_segments())
                return a.locate((F(o[2] % 7), F(1, 2)))
            self.step(k, query, st)
        else:
            a, b = g1[o[2] % len(g1)], g1[o[3] % len(g1)]
            f = {'or': lambda: a | b, 'and': lambda: a & b, 'sub': lambda: a - b,
                 'xor': lambda: a ^ b, 'inv': lambda: ~a,
                 'buffer': lambda: a.buffer(F(1, 3)),
                 'filter': lambda: a.filter(lambda x, y: y - x > 1),
                 'pieces': lambda: (list(a.disjoint_pieces()), None)[1]}[o[1]]
            v = self.step('1d ' + o[1], f, st)
            if v is not None:
                add1(o[1], v)

    def violation(self, e, **kw):
        return {'sig': 'changed ' + str(e).split(' ')[0], 'what': str(e),
                'case': dict(self.case, **kw)}

    # ------------------------------------------------------------------- states

    def state(self, case, st):
        m = world.mods
        params = models.params_of(case['params'])
        try:
            _, sp = pipeline.extract(case['model'], params)
            sb = m.sheetbuild.create_sheetbuild(sp, params)
        except Exception as e:
            st.probe('model refused: ' + type(e).__name__)
            return []
        sides = pipeline.sides_of(sp)
        self.pool.add('sheet model', sp, pipeline.hexdig)
        self.pool.add('state 0', sb, pipeline.hexdig)
        states = [sb]
        r = random.Random('ops/%s' % case['seed'])
        h = m.heuristics
        heu = [getattr(h, k) for k in sorted(vars(h)) if k in (
            'choose_obviously_irrelevant', 'remove_loose', 'update_intersection_ok',
            'update_sheet_ok', 'heuristic_multi_inter_single_decisions',
            'choose_the_ok_side', 'single_fingers_random', 'clean_up_thin_ok_parts')]
        try:
            for _ in range(case['n']):
                sb = r.choice(states[-3:] + [r.choice(states)])
                if r.random() < case['others']:
                    k = r.choice(['heu', 'heu', 'heu', 'limit', 'fingers', 'project',
                                  'check', 'create', 'assign'])
                    if k == 'heu':
                        fn = r.choice(heu)
                        v = self.step(fn.__name__, lambda: fn(sb, params), st)
                        if v is not None:
                            self.add_state(states, v)
                    elif k == 'limit':
                        some = [s for s in sorted(sp.sheets.keys())
                                if r.random() < .6]
                        v = self.step(k, lambda: sp.limit(some), st)
                        if v is not None:
                            self.pool.add('limited model', v, pipeline.hexdig)
                    elif k == 'create':
                        v = self.step(k, lambda: m.sheetbuild.create_sheetbuild(
                            sp, params), st)
                        if v is not None:
                            self.add_state(states, v)
                    elif k == 'check':
                        self.step(k, lambda: sb.check(force=True), st)
                    elif k == 'assign':
                        vs = [v for name in pipeline.MAPS for _, v in sorted(
                            getattr(sb, name, {}).items())]
                        a = r.choice(vs)
                        b = r.choice([v for v in vs if type(v) is type(a)])
                        op = r.choice(sorted(ASSIGN))
                        self.step(op, lambda: ASSIGN[op](a, b), st)
                    elif sides:
                        side = r.choice(sides)[0]
                        if k == 'fingers':
                            w = sb.interside_ok[side.id] | sb.interside_chosen[side.id]
                            v = self.step(k, lambda: side.make_fingers(w), st)
                        else:
                            v = self.step(k, lambda: side.project_to_1d(
                                sb.sheet_ok[side.sheet]), st)
                        if v is not None:
                            self.pool.add(k, v, pipeline.hexdig)
                    continue
                if not sides:
                    continue
                op = c02.CHECK.pick(r, sb, c02.Book(sb), case, sides, len(states))
                if op[0] == 'back':
                    continue
                v = self.step(op[0], lambda: c02.CHECK.apply(m, sb, sides, op), st)
                if v is not None:
                    self.add_state(states, v)
        except Changed as e:
            return [self.violation(e)]
        return []

    def add_state(self, states, v):
        self.pool.add('state %d' % len(states), v, pipeline.hexdig)
        states.append(v)

    # --------------------------------------------------------------------- runs

    def run_mode(self, case, st):
        m = world.mods
        params = models.params_of(case['params'])
        params['return_on_failure'] = True
        h = m.heuristics
        try:
            _, sp = pipeline.extract(case['model'], params)
        except Exception as e:
            st.probe('model refused: ' + type(e).__name__)
            return []
        self.pool.add('sheet model', sp, pipeline.hexdig)
        seen = []
        depth = [0]

        def wrap(f):
            @functools.wraps(f)
            def call(sb, *a, **k):
                if depth[0]:
                    return f(sb, *a, **k)
                if self.f.child is None:
                    self.pool.add('state given to ' + f.__name__, sb,
                                  pipeline.state_digest)
                seen.append(pipeline.state_digest(sb))
                depth[0] += 1
                try:
                    return f(sb, *a, **k)
                finally:
                    depth[0] -= 1
            return call
        saved = {}
        for name, f in list(vars(h).items()):
            if isinstance(f, types.FunctionType) and not name.startswith('_') and \
                    f.__module__ == h.__name__ and \
                    f.__code__.co_varnames[:1] == ('sb',):
                saved[name] = f
                setattr(h, name, wrap(f))

        def hist(res):
            return pipeline.digest((
                res.ok, len(res.history),
                [pipeline.state_digest(s) for s in res.history],
                None if res.sheetbuild is None else pipeline.state_digest(
                    res.sheetbuild),
                None if res.sheet_cuts is None else pipeline.canon(res.sheet_cuts)))
        try:
            first = None
            for n in range(2):
                p = dict(params, random_seed=params['random_seed'] ^ n)
                if n and case['seed'] % 2:
                    p['support_radius'] = m.F(9)
                del seen[:]

                def recorded(res):
                    H = [pipeline.state_digest(s) for s in res.history]
                    k = len(seen)
                    if (H[1:-1] if res.ok else H[1:1 + k]) != seen and \
                            (not res.ok or len(H) == k + 2) and len(H) > k:
                        return 'history: a state in the history'
                res = self.step('run', lambda: m.canned.canned_1(sp, p), st, recorded)
                if res is None:
                    continue
                self.pool.add('result of run %d' % n, res, hist)
                if recorded(res):
                    raise Changed(recorded(res) + ' is different from what it was '
                                  'when recorded')
        except Changed as e:
            return [self.violation(e)]
        finally:
            for name, f in saved.items():
                setattr(h, name, f)
        return []

    def shrink(self, case):
        if case['mode'] == 'geom' and not case.get('at'):
            for k in range(len(case['ops'])):
                yield dict(case, ops=case['ops'][:k] + case['ops'][k + 1:])
        if case['mode'] == 'state' and not case.get('at') and case['n'] > 1:
            yield dict(case, n=case['n'] - 1)


class Changed(Exception):
    pass


CHECK = C11()
