"""C10: runs in one process do not influence each other."""
import contextlib
import json
import os
import random
import shutil
import tempfile
import threading

from .. import models, pipeline, ref, sheets, shapes, simio, world
from ..pipeline import EXC
from ..runner import Check
from . import c12

MODELS = ['L', 'L', 'vee', 'Lhole', 'L', 'T', 'cross', 'corner']
SMALL = ['geom', 'geom', 'offset', 'write', 'line', 'fingers']
MODES = ['nest', 'fail', 'threads', 'seq', 'nest', 'threads', 'fail', 'nest']


def gen_job(r, kind, like=None):
    """like: a job to resemble (the same model or parameters)."""
    j = {'kind': kind}
    if kind in ('run', 'main', 'fingers', 'extract'):
        k = r.choice(['none', 'model', 'params', 'both', 'cousin', 'cousin']) \
            if like and 'model' in like else 'none'
        if k == 'cousin':
            j['model'] = cousin(r, like['model'])
        elif k in ('model', 'both'):
            j['model'] = like['model']
        else:
            j['model'] = models.generate(
                r, [r.choice(MODELS if kind != 'main' else MODELS[:4])], scale=.4)
        j['params'] = models.default_params(j['model'], r)
        if k in ('params', 'both'):
            j['params'] = dict(like['params'], thickness=j['params']['thickness'])
        if k == 'both':
            j['params']['random_seed'] = r.choice([1, 2, 42])
    elif kind == 'geom':
        j['prog'] = c12.gen_program(r, r.randint(2, 4))
        if like and 'prog' in like and r.random() < .5:
            j['prog'] = dict(j['prog'], leaves=like['prog']['leaves'][:2]
                             + j['prog']['leaves'])
    elif kind == 'offset':
        j['sheet'] = like['sheet'] if like and 'sheet' in like and r.random() < .5 \
            else sheets.gen_sheet(r)
        j['amounts'] = [r.choice(['1/20', '1', '-1/3', '7/100', '5/2', '0', '2'])
                        for _ in range(2)]
    elif kind == 'write':
        j['sheets'] = sheets.gen_set(r, 3)
    elif kind == 'line':
        j['seed'] = r.randint(0, 10 ** 9)
    return j


def cousin(r, model):
    """Another model with the same names and the same places along the joints:
    moved across the (first) joint or with larger plates."""
    m = dict(model)
    sh = list(m.get('shift') or [0, 0, 0])
    if r.random() < .6:
        sh[0] += r.choice([-50, 7, 100])
        sh[2] += r.choice([0, 11])
        m['shift'] = sh
    elif m['kind'] == 'vee':
        m['la'] += 5
    else:
        hi = max(b[1][0] for b in m['boxes'])
        m['boxes'] = [[b[0], [b[1][0] + (5 if b[1][0] == hi and len(b) == 2 else 0)]
                       + b[1][1:]] + b[2:] for b in m['boxes']]
    return m


READY = {}


def prepare(job):
    """What a job starts from, made before anything else (values never change)."""
    m = world.mods
    if job['kind'] not in ('fingers', 'run'):
        return
    params = models.params_of(job['params'])
    key = json.dumps([job['model'], job['params']['thickness']])
    if key not in READY:
        try:
            READY[key] = pipeline.extract(job['model'], params)[1]
        except AssertionError as e:
            READY[key] = e
    sp = READY[key]
    if job['kind'] == 'fingers' and not isinstance(sp, Exception):
        sb = m.sheetbuild.create_sheetbuild(sp, params)
        # the same joints on sheets whose material is stubbed out
        none = m.pyrsistent.pmap({k: m.Geom2D.empty() for k in sp.sheets.keys()})
        sp = sb.set('sheet_ok', none).set('sheet_chosen', none)
    READY[json.dumps(job)] = sp


def do(job, d=None):
    """Runs a job; its result, independent of representation."""
    m = world.mods
    k = job['kind']
    if k == 'geom':
        regs = [m.Geom2D.empty()] + [shapes.leaf(x) for x in job['prog']['leaves']]
        out = []
        for o in job['prog']['ops']:
            if o[0] == 'many':
                o = ['union', list(range(len(regs)))]
            if sum(c12.complexity(ref.region_of(regs[x])) for x in o[1]) > 120:
                o = ['or', [0, o[1][0] if o[1] else 0]]
            g = c12.CHECK.apply(m, o, regs)
            regs.append(g)
            out.append(ref.canonical(ref.region_of(g)))
        return pipeline.digest(out)
    if k == 'offset':
        g = sheets.build(job['sheet'])
        return pipeline.digest([pipeline.canon(g.buffer(m.F(a)))
                                for a in job['amounts']])
    if k == 'line':
        r = random.Random('line/%s' % job['seed'])

        def some():
            ps = sorted(r.sample(range(-20, 21), 6))
            return m.Geom1D([(m.F(ps[x]), m.F(ps[x + 1])) for x in (0, 2, 4)])
        a, b = some(), some()
        out = []
        for _ in range(6):
            g = r.choice([lambda: a | b, lambda: a & b, lambda: a - b, lambda: ~a,
                          lambda: a ^ b, lambda: a.buffer(m.F(1, 2))])()
            out.append(pipeline.iv(g))
            a, b = b, g
        return pipeline.digest(out)
    # all jobs of a simulated process work in one directory
    d = d or SHARED[-1]
    if k == 'write':
        p = os.path.join(d, 'o%d.dxf' % job['n'])
        m.writer.write_dxf(p, sheets.build_set(job['sheets']))
        return pipeline.digest(outlines(p))
    params = models.params_of(job['params'])
    if k == 'main':
        p = os.path.join(d, 'm%d.stl' % job['n'])
        pipeline.write_model(p, job['model'])
        m.command_line.main(pipeline.main_args(job['params'], p))
        return pipeline.digest(outlines(p[:-4] + '.dxf'))
    if k == 'extract':
        try:
            _, sp = pipeline.extract(job['model'], params)
        except AssertionError as e:
            return 'refused: %s' % (str(e)[:60],)
        return pipeline.digest(sheetplex_canon(sp))
    sp = READY[json.dumps(job)]
    if isinstance(sp, Exception):
        return 'refused'
    if k == 'fingers':
        return pipeline.state_digest(
            m.heuristics.single_fingers_random(sp, params))
    params['return_on_failure'] = True
    res = m.canned.canned_1(sp, params)
    return pipeline.digest((res.ok, [pipeline.state_digest(sb)
                                     for sb in res.history],
                            pipeline.canon(res.sheet_cuts),
                            sorted(sp.sheets.keys()),
                            sorted(sp.intersections.keys())))


def outlines(p):
    return simio.dxf_outlines(simio.read(p))


def sheetplex_canon(sp):
    out = []
    for s in sorted(sp.sheets.keys()):
        sh = sp.sheets[s]
        out.append((s, [pipeline.canon(f) for f in sh.faces],
                    pipeline.canon(sh.slices_max), pipeline.canon(sh.slices_min),
                    repr(sh.sides.tolist())))
    for k in sorted(sp.intersections.keys()):
        out.append((k, [(x.id, str(x.origin_offset), str(x.min_normal_offset),
                         str(x.max_normal_offset))
                        for x in sp.intersections[k].sides]))
    return out


SHARED = []


@contextlib.contextmanager
def directory():
    SHARED.append(tempfile.mkdtemp(prefix='plysim-c10-'))
    try:
        yield
    finally:
        shutil.rmtree(SHARED.pop(), ignore_errors=True)


def outcome(job):
    try:
        return ['ok', do(job)]
    except (KeyboardInterrupt, MemoryError) as e:
        return ['exc', type(e).__name__]
    except Exception as e:
        return ['exc', '%s: %s' % (type(e).__name__, str(e)[:80])]


class C10(Check):
    id = 'C10'
    quick = 80
    thorough = 4000
    case_timeout = 300
    rule = ('A case is two or three jobs (boolean operations, offsets, 1D operations, '
            'extraction, random fingers, whole runs, main(), writing), first done alone '
            'in processes of their own.  Then in one process: one after another; or one '
            'is stopped by a failure or interrupt at a simulated step and the others '
            'follow; or one is preempted at a step by the complete execution of another '
            'in a second thread; or all run in threads that a seeded scheduler '
            'switches at lines of the library.  Every result is compared with the one '
            'alone.  Distinct and non-trivial: at least one preemption or preceding '
            'job; by (jobs, schedule).')
    real = ['geometry', 'create_sheetplex', 'sheetbuild', 'heuristics', 'canned',
            'command_line', 'writer', 'trimesh', 'ezdxf', 'threads (one runs at a time)']
    stubs = ['thread scheduling', 'exceptions at steps']
    assumptions = ['Threads are switched at line boundaries of the library\'s own '
                   'code.', 'Standard output and logging are shared by the jobs.']

    def gen(self, r, i, tier):
        mode = MODES[i % len(MODES)]
        big = i % 7 == 0
        kinds = [r.choice(['run', 'main', 'extract', 'fingers', 'run'])] if big else \
            [r.choice(SMALL)]
        if i % 9 == 4:
            kinds = ['write', 'write']
        elif mode == 'seq' and not big:
            kinds += [r.choice(SMALL), r.choice(SMALL + ['fingers'])]
        elif big and r.random() < .5:
            kinds.append(kinds[0] if mode == 'seq' else 'fingers')
        else:
            kinds.append(r.choice([kinds[0], r.choice(SMALL)]))
        jobs = []
        for k in kinds:
            jobs.append(dict(gen_job(r, k, jobs[0] if jobs else None), n=len(jobs)))
        return {'mode': mode, 'jobs': jobs, 'seed': r.randint(0, 10 ** 9),
                'period': r.choice([300, 1000, 3000, 10000] if big else
                                   [3, 30, 100, 300]),
                'n': (30 if kinds == ['write', 'write'] else 4 if big else 12) * (1 if tier == 'quick' else 3)}

    def run(self, case, st):
        pipeline.set_order({'seed': 0, 'mode': 'off'})
        alone = []
        READY.clear()
        for j in case['jobs']:
            def by_itself():
                prepare(j)
                return outcome(j)
            with directory():
                v, err = world.run_forked(lambda: quiet(by_itself), 200)
            if err:
                raise RuntimeError(err)
            alone.append(v)
            st.add('evaluations')
            st.log('alone', v)
            if v[0] == 'exc':
                st.probe('refused: ' + v[1][:40])
        for j in case['jobs']:
            prepare(j)
        f = {'seq': self.seq, 'threads': self.threads, 'nest': self.branches,
             'fail': self.branches}[case['mode']]
        return f(case, alone, st)

    def bad(self, case, j, got, want, how, **kw):
        return [{'sig': case['mode'] + ' ' + case['jobs'][j]['kind'],
                 'what': '%s (job %d) %s gives %s, alone it gives %s' % (
                     case['jobs'][j]['kind'], j, how, got, want),
                 'case': dict(case, **kw)}]

    # ---------------------------------------------------------- one after another

    def seq(self, case, alone, st):
        r = random.Random('seq/%s' % case['seed'])
        order = list(range(len(case['jobs']))) * 2
        r.shuffle(order)
        order = case.get('seq', order)

        def body():
            return quiet(lambda: [outcome(case['jobs'][j]) for j in order])
        with directory():
            v, err = world.run_forked(body, 250)
        if err:
            raise RuntimeError(err)
        st.add('evaluations', len(order))
        st.fault('earlier run in the same process', len(order) - 1)
        st.reach(case['jobs'], order)
        st.log(v)
        for n, j in enumerate(order):
            if v[n] != alone[j]:
                return self.bad(case, j, v[n], alone[j], 'after %d other jobs' % n,
                                seq=order[:n + 1])
        return []

    # ------------------------------------------------------------- real interleaving

    def threads(self, case, alone, st):
        def body():
            def one():
                t = world.Threads([lambda j=j: do(j) for j in case['jobs']],
                                  case['seed'], case['period'],
                                  window=case.get('window'))
                out = t.run()
                return [[o[0] if o else None, o[1] if o and o[0] == 'ok' else
                         exc_str(o[1]) if o else None] for o in out], \
                    len(t.switches), t.steps.n, hash(tuple(t.switches))
            return quiet(one)
        with directory():
            v, err = world.run_forked(body, 280)
        if err:
            raise RuntimeError(err)
        got, switches, steps, h = v
        st.add('evaluations', len(got))
        st.add('sim_steps', steps)
        st.fault('thread switch', switches)
        if switches:
            st.reach(case['jobs'], h)
        st.log(got, switches, steps)
        for j, g in enumerate(got):
            if g != alone[j]:
                return self.bad(case, j, g, alone[j], 'with %d thread switches'
                                % switches, window=case.get('window') or
                                [0, 1 << 40])
        return []

    # ---------------------------------------------------- branches at simulated steps

    def branches(self, case, alone, st):
        """The first job, with branches where it fails or is preempted."""
        r = random.Random('branch/%s' % case['seed'])
        first, rest = case['jobs'][0], case['jobs'][1:]
        fail = case['mode'] == 'fail'
        only = case.get('at')
        # jobs with files of their own are not forked half way but repeated
        again = first['kind'] in ('write', 'main') and only is None
        picked = []
        f = world.Forker(250)
        mine = {}

        def branch(n, code, line):
            if world.in_logging():
                return
            exc = only[1] if only else r.choice(sorted(EXC))
            if only is None and len(f.results) >= case['n']:
                return
            label = [n, exc, '%s:%d' % (os.path.basename(code.co_filename), line)]
            if again:
                picked.append(label)
                return
            if only is None and not f.branch(label):
                return
            mine['label'] = label
            clock.stop()
            if fail:
                raise EXC[exc]('injected')

            def other():
                mine['out'] = [outcome(j) for j in rest]
            t = threading.Thread(target=other)
            t.start()
            t.join()

        def new(n, code, line):
            if r.random() < (.8 if first['kind'] == 'write' else .05):
                branch(n, code, line)

        def tick(n, code, line):
            if only is not None:
                clock.next = 1 << 62
            else:
                clock.next = n + 1 + int(n * 1.2 * r.random())
            branch(n, code, line)
        clock = world.Steps(first=only[0] if only else r.randint(1, 400),
                            on_tick=tick, on_new=None if only else new)

        def body():
            with clock:
                a = outcome(first)
            clock.stop()
            if not mine:
                return None
            if fail:
                # the failed job is repeated after the others
                return [outcome(j) for j in rest + [first]], mine['label']
            return mine['out'] + [a], mine['label']

        if only is not None:
            with directory():
                v, err = world.run_forked(lambda: quiet(body), 250)
            if err:
                raise RuntimeError(err)
            if v is None:
                return []
            results = [(v[1], v[0])]
        else:
            with directory():
                v = quiet(body)
                if f.child is not None:
                    f.report(v[0])
            results = [(label, json.loads(data) if data else None)
                       for label, data, status in f.results]
            for label, why in f.failed:
                return [{'sig': 'hang', 'what': 'the jobs do not end (%s)' % label,
                         'case': dict(case, at=label[:2])}]
        st.add('sim_steps', clock.n)
        want = alone[1:] + alone[:1]
        for label, got in results:
            if got is None:
                return [{'sig': 'died', 'what': 'the process died at %s' % label,
                         'case': dict(case, at=label[:2])}]
            st.add('evaluations', len(got))
            st.fault('preceded by ' + label[1] if fail else 'preempted')
            st.reach(case['jobs'], case['mode'], label)
            st.log(label, got)
            for k, g in enumerate(got):
                if g != want[k]:
                    j = (k + 1) % len(case['jobs'])
                    return self.bad(case, j, g, want[k], (
                        'after %s in another job at %s' % (label[1], label[2])
                        if fail else 'while another job %s at %s' % (
                            'stands' if j else 'runs', label[2])), at=label[:2])
        for label in r.sample(picked, min(len(picked), case['n'])):
            out = self.branches(dict(case, at=label[:2]), alone, st)
            if out:
                return out
        return []

    def shrink(self, case):
        if len(case['jobs']) > 2 and 'seq' not in case:
            for k in range(1, len(case['jobs'])):
                yield dict(case, jobs=case['jobs'][:k] + case['jobs'][k + 1:])
        if 'seq' in case and len(case['seq']) > 2:
            for k in range(len(case['seq']) - 1):
                yield dict(case, seq=case['seq'][:k] + case['seq'][k + 1:])
        w = case.get('window')
        if w and w[1] - w[0] > 1:
            lo, hi = w[0], min(w[1], 1 << 20)
            mid = (lo + hi) // 2
            yield dict(case, window=[lo, mid])
            yield dict(case, window=[mid, hi])
            yield dict(case, window=[lo, lo + (hi - lo) * 3 // 4])
            yield dict(case, window=[lo + (hi - lo) // 4, hi])
        for n, j in enumerate(case['jobs']):
            if j['kind'] == 'geom' and len(j['prog']['ops']) > 1:
                p = dict(j['prog'], ops=j['prog']['ops'][:-1])
                yield dict(case, jobs=case['jobs'][:n] + [dict(j, prog=p)]
                           + case['jobs'][n + 1:])


def exc_str(e):
    if isinstance(e, (KeyboardInterrupt, MemoryError)):
        return type(e).__name__
    return '%s: %s' % (type(e).__name__, str(e)[:80])


def quiet(f):
    with world.quiet():
        return f()


CHECK = C10()
