"""C21: every run comes to an end."""
import errno
import json
import os
import random
import shutil
import tempfile

from .. import models, pipeline, simio, world
from ..pipeline import EXC
from ..runner import Check

KINDS = ['L', 'T', 'vee', 'U', 'cross', 'Lhole', 'corner', 'Lnotch', 'tray', 'L']
SMALL = ['L', 'T', 'vee', 'cross', 'L']
# simulated steps (executed lines of the library); measured: below 10 million for the
# small models, below 26 million for the others
LIMIT = 40 * 10 ** 6
AFTER = 30000       # steps after a failure (measured: a few hundred)
DRAWS = 10 ** 5     # random values of one run (measured: below 1000)
DISK_OPS = 200      # disk operations after the first error (measured: below 20)


class Persist:
    """Every operation from number k on fails."""

    def __init__(self, k, err):
        self.k, self.err = k, err
        self.first = None

    def get(self, k):
        if k < self.k:
            return None
        if self.first is None:
            self.first = k
        if k - self.first > DISK_OPS:
            raise world.NoProgress()
        return {'op': k, 'kind': 'errno', 'errno': self.err}


class C21(Check):
    id = 'C21'
    level = 'exploration'
    quick = 42
    thorough = 2000
    case_timeout = 300
    rule = ('Runs under a step clock that bounds them: under permuted internal orders '
            'and scheduled random streams a run may take at most 6 times the steps '
            'of the undisturbed one; in forked branches a failure or interrupt is '
            'raised at one step, or at every step from there on, and the run must '
            'end within %d further steps; disk operations that fail from some '
            'operation on for good must end it within %d further operations; a slow '
            'disk (short transfers) must not add steps without bound.  Distinct and '
            'non-trivial: a disturbed run that ended; by (case, disturbance).'
            % (AFTER, DISK_OPS))
    real = ['command_line', 'create_sheetplex', 'canned', 'heuristics', 'sheetbuild',
            'geometry', 'writer', 'trimesh', 'ezdxf']
    stubs = ['iteration orders', 'random generator', 'exceptions at steps',
             'disk errors', 'step clock', 'wall clock and sleep']
    assumptions = ['Steps are executed lines of the library; loops inside third-party '
                   'code are bounded by a wall-clock limit only.',
                   'A disk that accepts no byte and reports no error for ever is not '
                   'simulated.']

    def gen(self, r, i, tier):
        what = ['order', 'fail', 'order', 'disk', 'order', 'persist'][i % 6]
        kinds = KINDS if tier != 'quick' else SMALL
        model = models.generate(r, [r.choice(kinds)], scale=.4)
        p = models.default_params(model, r)
        if what == 'order' and r.random() < .5:
            p = dict(p, **r.choice([
                {'min_finger_width': '5', 'max_finger_width': '5'},
                {'min_finger_width': '3', 'max_finger_width': '3.0000001'},
                {'min_finger_width': '2', 'max_finger_width': '40'},
                {'min_finger_width': '100', 'max_finger_width': '101'},
                {'min_finger_width': '7', 'max_finger_width': '7.5'},
                {'support_radius': '1'}, {'support_radius': '40'},
                {'final_dilation': '-0.05'}, {'final_dilation': '0'}]))
        return {'what': what, 'model': model, 'params': p, 'seed': r.randint(0, 10 ** 9),
                'n': 3 if tier == 'quick' else 6,
                'limit': LIMIT if tier == 'quick' else 4 * LIMIT,
                'order': {'seed': r.randint(0, 10 ** 9),
                          'mode': r.choice(['real', 'any'])}}

    # ------------------------------------------------------------------ one run

    def job(self, case, d):
        args = pipeline.main_args(case['params'], os.path.join(d, 'model.stl'),
                                  os.path.join(d, 'out.dxf'))

        def f():
            with world.quiet():
                world.mods.command_line.main(args)
        return f

    def bounded(self, job, limit):
        """Steps taken, None if it does not end within the limit."""
        def tick(n, code, line):
            clock.next = n + 1          # NoProgress for ever
            raise world.NoProgress()
        clock = world.Steps(first=limit, on_tick=tick)
        end = 'ended'
        try:
            with clock:
                job()
        except world.NoProgress:
            return None, end
        except Exception as e:
            end = type(e).__name__
        except SystemExit:
            end = 'SystemExit'
        return (clock.n if clock.n < limit else None), end

    def run(self, case, st):
        pipeline.set_order({'seed': 0, 'mode': 'off'})
        d = os.path.realpath(tempfile.mkdtemp(prefix='plysim-c21-'))
        try:
            pipeline.write_model(os.path.join(d, 'model.stl'), case['model'])
            with world.Clock(case['seed']) as clock:
                out = getattr(self, 'run_' + case['what'])(case, st, d)
            st.add('clock reads', clock.reads)
            return out
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def run_order(self, case, st, d):
        job = self.job(case, d)
        with world.RNGSeam({'seed': case['seed'], 'most': DRAWS}):
            base, end = self.bounded(job, case['limit'])
        st.add('evaluations')
        if base is None:
            return [{'sig': 'endless', 'case': case,
                     'what': 'the undisturbed run does not end within %d steps and %d '
                     'random values' % (case['limit'], DRAWS)}]
        st.add('sim_steps', base)
        st.probe('undisturbed run: ' + end)
        r = random.Random('c21/%s' % case['seed'])
        for k in range(case['n']):
            order = {'seed': r.randint(0, 10 ** 9), 'mode': r.choice(['real', 'any'])}
            rng = dict(pipeline.gen_rng(r), most=DRAWS)
            if 'only' in case and k != case['only']:
                continue
            sched = pipeline.set_order(order)
            limit = 6 * base + 10 ** 6
            with world.RNGSeam(rng):
                n, end = self.bounded(job, limit)
            st.add('evaluations')
            st.fault('permuted orders', sched.permuted)
            st.fault('scheduled random stream')
            if n is None:
                return [{'sig': 'endless', 'case': dict(case, only=k),
                         'what': 'undisturbed, the run takes %d steps; with another '
                         'internal order and random stream it does not end within %d'
                         % (base, limit), 'trace': [repr(order), repr(rng)]}]
            st.add('sim_steps', n)
            st.log(k, n, end)
            st.reach(case['model'], case['params'], order, rng)
        st.sample({'case': case, 'steps': base})
        st.probe('undisturbed steps below 10^%d' % len(str(base)))
        return []

    def run_persist(self, case, st, d):
        return self.run_fail(case, st, d, True)

    def run_fail(self, case, st, d, persist=False):
        pipeline.set_order(case['order'])
        job = self.job(case, d)
        r = random.Random('c21/%s' % case['seed'])
        f = world.Forker(150)
        only = case.get('at')
        state = {}

        def inject(n, code, line):
            if only is not None:
                exc = only[1]
                if n != only[0]:
                    return
            else:
                exc = r.choice(['SimFailure', 'ValueError', 'MemoryError',
                                'AssertionError', 'KeyboardInterrupt'])
            where = '%s:%d %s' % (os.path.basename(code.co_filename), line,
                                  code.co_name)
            if f.branch([n, exc, where]):
                state['at'] = n
                state['exc'] = exc
                clock.on_new = None
                clock.on_tick = later
                clock.next = n + 1 if persist else n + AFTER
                raise EXCS[exc]('injected')

        def later(n, code, line):
            if n - state['at'] >= AFTER:
                clock.next = n + 1
                state['endless'] = '%s:%d %s' % (os.path.basename(code.co_filename),
                                                 line, code.co_name)
                raise world.NoProgress()
            clock.next = n + 1
            raise EXCS[state['exc']]('injected again')

        def new(n, code, line):
            if only is None and r.random() < .08:
                inject(n, code, line)

        def tick(n, code, line):
            if n >= case['limit']:
                clock.next = n + 1
                raise world.NoProgress()
            clock.next = min((n + 1 + int(n * .3 * r.random())) if only is None
                             else 1 << 62, case['limit'])
            inject(n, code, line)
        clock = world.Steps(first=50 if only is None else only[0], on_tick=tick,
                            on_new=new if only is None else None)
        end = None
        try:
            with clock:
                job()
        except BaseException as e:
            end = type(e).__name__
            if f.child is None and not isinstance(e, (Exception, world.NoProgress)):
                raise
        if f.child is not None:
            f.report({'n': clock.n - state['at'], 'end': end,
                      'endless': state.get('endless')})
        st.add('sim_steps', clock.n)
        most = 0
        bad = []
        if end == 'NoProgress':
            return self.endless(case)
        for label, data, status in f.results:
            st.add('evaluations')
            st.fault(('all further steps fail: ' if persist else '') + label[1])
            if not data:
                raise RuntimeError('branch died: %s %s' % (label, status))
            v = json.loads(data)
            st.log(label, v)
            most = max(most, v['n'])
            if v['endless'] or v['n'] >= AFTER:
                bad.append((label, 'still runs %d steps after the failure, at %s' % (
                    v['n'], v['endless'])))
            st.reach(case['what'], label[2], label[1], case['model'])
        for label, why in f.failed:
            bad.append((label, 'the run does not end after the failure'))
        st.probe('steps after a failure, up to 10^%d' % len(str(most)))
        out = []
        for label, what in bad[:2]:
            out.append({'sig': 'endless', 'case': dict(case, at=label[:2]),
                        'what': '%s at %s: %s' % (label[1], label[2], what),
                        'trace': ['step %d, %s' % (label[0], label[2])]})
        return out

    def run_disk(self, case, st, d):
        pipeline.set_order(case['order'])
        job = self.job(case, d)
        f = world.Forker(150)
        r = random.Random('c21/%s' % case['seed'])
        only = case.get('at')
        state = {}

        def on_op(sim, k, name, label):
            if f.child is not None or k > 400:
                return
            for err in r.sample(ERRS, 2):
                if only is not None and only[:2] != [k, err]:
                    continue
                if f.branch([k, err, '%s %s' % (name, label)]):
                    state['k'] = k
                    sim.plan = Persist(k, err)
                    clock.next = clock.n + AFTER + LIMIT // 8
                    return

        def tick(n, code, line):
            clock.next = n + 1
            state['endless'] = True
            raise world.NoProgress()
        sim = simio.SimIO(d, on_op=on_op)
        clock = world.Steps(first=case['limit'], on_tick=tick)
        end = 'ended'
        with sim:
            try:
                with clock:
                    job()
            except BaseException as e:
                end = type(e).__name__
                if f.child is None and not isinstance(e, (Exception, world.NoProgress)):
                    raise
            sim.stop()
        if f.child is not None:
            f.report({'ops': sim.n - state['k'], 'end': end,
                      'endless': bool(state.get('endless') or
                                      sim.n - state['k'] > DISK_OPS)})
        st.add('sim_steps', clock.n)
        if end == 'NoProgress':
            return self.endless(case)
        st.probe('undisturbed run: ' + end)
        total = sim.n
        bad = []
        for label, data, status in f.results:
            st.add('evaluations')
            st.fault('disk fails for good: ' + errno.errorcode[label[1]])
            if not data:
                raise RuntimeError('branch died: %s %s' % (label, status))
            v = json.loads(data)
            st.log(label, v)
            st.reach(case['model'], case['params'], label[0], label[1])
            if v['endless']:
                bad.append(label)
        bad += [label for label, _ in f.failed]
        if bad:
            return [{'sig': 'endless', 'case': dict(case, at=bad[0][:2]),
                     'what': 'the disk fails for good (%s) from operation %d on '
                     '(%s), and the run does not end' % (
                         errno.errorcode[bad[0][1]], bad[0][0], bad[0][2])}]
        if end != 'ended':
            return []
        # a slow disk: every transfer is short
        sim2 = simio.SimIO(d, benign=1.0, seed=case['seed'])
        sim2.on_op = self.limit_ops(60 * total + 200000)
        try:
            with world.quiet(), sim2:
                try:
                    job()
                finally:
                    sim2.stop()
        except world.NoProgress:
            return [{'sig': 'endless', 'case': dict(case, at=-1),
                     'what': 'with short transfers the run does not end within %d '
                     'disk operations (%d without)' % (sim2.n, total)}]
        except Exception as e:
            st.probe('slow disk: ' + type(e).__name__)
        st.fault('short transfers')
        st.add('evaluations')
        st.probe('disk operations with short transfers: 10^%d' % len(str(sim2.n)))
        st.sample({'case': case, 'disk operations': total})
        return []

    def endless(self, case):
        return [{'sig': 'endless', 'case': dict(case, what='order', n=1),
                 'what': 'the undisturbed run does not end within %d steps'
                 % case['limit']}]

    def limit_ops(self, limit):
        def on_op(sim, k, name, label):
            if k > limit:
                raise world.NoProgress()
        return on_op

    def shrink(self, case):
        m = case['model']
        for k in ('rot', 'shift', 'tri_order'):
            if case['what'] == 'order' and m.get(k) is not None:
                m2 = dict(m)
                del m2[k]
                yield dict(case, model=m2)


ERRS = [errno.EIO, errno.ENOSPC, errno.EACCES, errno.EAGAIN]
EXCS = dict(EXC, ValueError=ValueError, AssertionError=AssertionError)

CHECK = C21()
