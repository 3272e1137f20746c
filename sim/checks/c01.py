"""C01: same model, parameters and seed -> same cut pattern, in any environment."""
import gc
import io
import logging
import os
import random
import shutil
import tempfile

import numpy as np

from .. import models, pipeline, ref, seams, simio, world
from ..runner import Check

Q = ref.Q
KINDS = ['L', 'L', 'Lhole', 'T', 'T', 'U', 'U', 'cross', 'corner', 'vee', 'Lnotch']


def parity_difference(la, lb):
    """Area where the even-odd fill of two sets of loops differs."""
    def key(loops):
        return sorted(tuple(sorted((round(x, 7), round(y, 7)) for x, y in l))
                      for l in loops)
    if key(la) == key(lb):
        return 0.0
    # compare in bands of loops that overlap, exactly
    ra = [([(Q(x), Q(y)) for x, y in l], []) for l in la if len(l) > 2]
    rb = [([(Q(x), Q(y)) for x, y in l], []) for l in lb if len(l) > 2]
    s = 0.0
    for _, area, mult in ref.cells([ra, rb]):
        if mult[0] % 2 != mult[1] % 2:
            s += float(area)
    return s


class C01(Check):
    id = 'C01'
    quick = 26
    thorough = 900
    case_timeout = 200
    rule = ('A case is a generated model with parameters; it is run through main() '
            'once in a reference environment and then in environments where the '
            'scheduler permutes every hash-dependent order (string hash salt, '
            'addresses), replaces clock, pid and entropy, and varies ambient random '
            'state, log level, working directory, gc and earlier work.  Non-trivial: '
            'the run succeeds with at least one joint; distinct by (model, '
            'parameters, order decisions taken).')
    real = ['command_line', 'create_sheetplex', 'canned', 'heuristics', 'sheetbuild',
            'geometry', 'writer', 'trimesh', 'shapely', 'ezdxf', 'pyrsistent']
    stubs = ['string hash / set order (OrderScheduler)', 'clock, pid, os.urandom',
             'temporary file names']
    assumptions = ['Sets of numbers iterate in the order CPython gives them (the same '
                   'in every process).',
                   'Outlines are compared as filled areas at the absolute position in '
                   'the file, so the starting vertex of an outline may differ.']

    def gen(self, r, i, tier):
        kinds = KINDS if tier == 'quick' else KINDS + ['corner', 'tray']
        model = models.generate(r, [kinds[i % len(kinds)]],
                                scale=r.choice([0.4, 0.45, 0.45, 0.6])
                                if tier == 'quick' else r.choice([.45, .6, .8, 1]))
        p = models.default_params(model, r)
        envs = []
        for k in range(2 if tier == 'quick' else 4):
            e = {'order': {'seed': r.randint(0, 10 ** 9), 'mode': 'real'}}
            # the first one changes only the orders, the others the rest, too
            if k:
                for what, pr in (('clock', .7), ('ambient', .7), ('log', .4),
                                 ('cwd', .5), ('gc', .4), ('before', .5)):
                    if r.random() < pr:
                        e[what] = r.randint(1, 10 ** 6)
            envs.append(e)
        return {'model': model, 'params': p, 'envs': envs}

    def one(self, case, env, st):
        m = world.mods
        d = tempfile.mkdtemp(prefix='plysim-c01-')
        cwd = os.getcwd()
        try:
            infile = os.path.join(d, 'model.stl')
            pipeline.write_model(infile, case['model'])
            out = os.path.join(d, 'out.dxf')
            sched = pipeline.set_order(env.get('order'))
            if env.get('before'):
                self.before(env['before'])
                st.fault('earlier work in the process')
            rr = random.Random(env.get('ambient') or 7)
            random.seed(rr.random())
            np.random.seed(rr.randint(0, 2 ** 31))
            if env.get('ambient'):
                st.fault('ambient random state')
            handler = None
            if env.get('log'):
                st.fault('verbose logging')
                handler = logging.StreamHandler(io.StringIO())
                logging.disable(logging.NOTSET)
                root = logging.getLogger()
                level = root.level
                root.setLevel(logging.DEBUG)
                root.addHandler(handler)
                for n in ('trimesh', 'ezdxf', 'matplotlib', 'shapely', 'PIL'):
                    logging.getLogger(n).setLevel(logging.WARN)
            if env.get('gc'):
                st.fault('gc settings')
                gc.set_threshold(random.Random(env['gc']).choice([1, 50, 10 ** 6]))
            args = pipeline.main_args(case['params'], infile, out)
            if env.get('cwd'):
                st.fault('working directory')
                os.chdir(d)
                args = pipeline.main_args(case['params'], 'model.stl', 'out.dxf')
            clock = world.Clock(env['clock']) if env.get('clock') else None
            try:
                if clock:
                    st.fault('clock jumps, pid, entropy')
                    clock.__enter__()
                with world.quiet():
                    m.command_line.main(args)
            except Exception as e:
                return ('exc', type(e).__name__, str(e)[:200]), sched
            finally:
                if clock:
                    clock.__exit__()
                    st.probe('clock reads', clock.reads)
                if handler:
                    root.removeHandler(handler)
                    root.setLevel(level)
                    logging.disable(logging.CRITICAL)
                gc.set_threshold(700, 10, 10)
                os.chdir(cwd)
            loops = simio.dxf_outlines(simio.read(out))
            return ('ok', [p for k, p in loops]), sched
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def before(self, seed):
        """Other work in the same process."""
        m = world.mods
        r = random.Random(seed)
        n = r.randint(1, 40)
        for _ in range(n):
            a = m.Geom2D.rectangle(0, 0, r.randint(1, 9), r.randint(1, 9))
            b = m.Geom2D.rectangle(2, 2, 2 + r.randint(1, 9), 2 + r.randint(1, 9))
            (a | b).buffer(m.F(1, 3))
        try:
            mesh = models.mesh_of(world.WARM)
            p = models.params_of(models.default_params(world.WARM))
            sp = m.create_sheetplex.create_sheetplex(mesh, p)
            sb = m.sheetbuild.create_sheetbuild(sp, p)
            for _ in range(r.choice([0, 1, 60, 149, 150])):
                sb.check()
        except Exception:
            pass

    def run(self, case, st):
        base, _ = self.one(case, {}, st)
        st.add('evaluations')
        st.log(base[0], base[1] if base[0] == 'exc' else digest_loops(base[1]))
        if base[0] != 'ok':
            st.probe('refused by the reference run: ' + base[1])
            return []
        out = []
        for env in case['envs']:
            res, sched = self.one(case, env, st)
            st.add('evaluations')
            st.fault('permuted orders', sched.permuted)
            st.add('sim_steps', sched.n)
            st.add('set iterations', sched.iterations)
            st.reach(case['model'], case['params'], sched.trace_crc, sched.salt)
            st.log(res[0], sched.trace_crc, sched.n)
            small = dict(case, envs=[env])
            if res[0] != 'ok':
                out.append({'what': 'the same run fails in another environment: %s: %s'
                            % (res[1], res[2]), 'sig': 'fails', 'case': small,
                            'trace': [repr(env)]})
                continue
            d = parity_difference(base[1], res[1])
            if d > 1e-3:
                out.append({'what': 'the cut pattern differs by an area of %.4g in '
                            'another environment' % d, 'sig': 'differs',
                            'case': small, 'trace': [repr(env)]})
        if base[0] == 'ok':
            st.sample({'model': case['model'], 'params': case['params'],
                       'envs': case['envs'], 'outlines': len(base[1])})
        return out

    def shrink(self, case):
        env = case['envs'][0]
        for k in list(env):
            if k != 'order':
                e = dict(env)
                del e[k]
                yield dict(case, envs=[e])
        if env.get('order') and len(env) > 1:
            e = dict(env)
            del e['order']
            yield dict(case, envs=[e])
        o = env.get('order')
        if o:
            lo, hi = o.get('window') or (0, 1 << 17)
            if hi - lo > 1:
                mid = (lo + hi) // 2
                yield dict(case, envs=[dict(env, order=dict(o, window=[lo, mid]))])
                yield dict(case, envs=[dict(env, order=dict(o, window=[mid, hi]))])
        mdl = case['model']
        for k in ('rot', 'shift', 'tri_order'):
            if mdl.get(k) is not None:
                m2 = dict(mdl)
                del m2[k]
                yield dict(case, model=m2)


def digest_loops(loops):
    return pipeline.digest(sorted(
        tuple(sorted((round(x, 6), round(y, 6)) for x, y in l)) for l in loops))


CHECK = C01()
