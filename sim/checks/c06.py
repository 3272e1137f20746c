"""C06: a failure anywhere in a run surfaces as itself and writes nothing."""
import json
import os
import random
import shutil
import tempfile

from .. import models, pipeline, ref, simio, world
from ..pipeline import EXC
from ..runner import Check

KINDS = ['L', 'vee', 'T', 'Lhole', 'L', 'cross', 'Lnotch', 'corner', 'L', 'U']
KIND_EXC = ['SimFailure', 'SimFailure', 'MemoryError', 'KeyboardInterrupt']
SKIP_CANNED = ('canned.py',)


class C06(Check):
    id = 'C06'
    level = 'exploration'
    quick = 16
    thorough = 1500
    case_timeout = 300
    rule = ('A case is a run (main() on a file, or canned_1 with and without a result '
            'on failure).  While it runs under the step clock, the whole simulated '
            'process is forked at steps chosen by the seed (the first execution of '
            'code lines, and later executions spread over the run); in the branch a '
            'failure or interrupt is raised at that step, and what the caller sees and '
            'what is on the disk is judged.  Distinct and non-trivial: the failure was '
            'raised; by (case, code line, kind of failure).')
    real = ['command_line', 'create_sheetplex', 'canned', 'heuristics', 'sheetbuild',
            'geometry', 'writer', 'trimesh', 'ezdxf', 'file system (scratch directory)']
    stubs = ['exceptions at steps', 'iteration orders']
    assumptions = ['Failures are raised at line boundaries of the library\'s own code; '
                   'those inside the logging machinery (which drops exceptions by '
                   'design) are left out.']

    def gen(self, r, i, tier):
        model = models.generate(r, [KINDS[i // 2 % len(KINDS)]], scale=.4)
        p = models.default_params(model, r)
        return {'model': model, 'params': p,
                'how': ['main', 'result', 'main', 'raise', 'main', 'result'][i % 6],
                'prior': r.choice(['none', 'file']), 'named': r.random() < .7,
                'order': {'seed': r.randint(0, 10 ** 9),
                          'mode': r.choice(['off', 'real', 'any'])},
                'seed': r.randint(0, 10 ** 9),
                'density': .12 if tier == 'quick' else .4,
                'growth': 1.12 if tier == 'quick' else 1.03}

    # ------------------------------------------------------------ forking at steps

    def explore(self, case, job, judge, st, skip=()):
        """job() runs under the step clock, with branches that fail."""
        r = random.Random('fail/%s' % case['seed'])
        f = world.Forker(100)
        inj = {}
        only = case.get('at')

        def inject(n, code, line):
            if only is None:
                exc = r.choice(KIND_EXC)
            else:
                n0, exc = only
                if n != n0:
                    return
            if os.path.basename(code.co_filename) in skip or world.in_logging():
                return
            inj['clean'] = not self.dir or simio.tree(self.dir) == self.before
            where = '%s:%d %s' % (os.path.basename(code.co_filename), line,
                                  code.co_name)
            if f.branch([n, exc, where]):
                clock.stop()
                inj['exc'] = EXC[exc]('injected')
                inj['where'] = where
                raise inj['exc']

        def new(n, code, line):
            if only is None and r.random() < case['density']:
                inject(n, code, line)

        def tick(n, code, line):
            if only is None:
                clock.next = n + 1 + int(n * (case['growth'] - 1) * 2 * r.random())
            else:
                clock.next = 1 << 62
            inject(n, code, line)
        clock = world.Steps(first=50 if only is None else only[0], on_tick=tick,
                            on_new=new if only is None else None)
        out, exc = None, None
        try:
            with clock:
                out = job()
        except BaseException as e:
            exc = e
            if f.child is None:
                raise
        if f.child is not None:
            try:
                v = judge(out, exc, inj)
            except BaseException:
                import traceback
                v = {'tb': traceback.format_exc()}
            f.report(v)
        st.add('sim_steps', clock.n)
        res = []
        for label, data, status in f.results:
            st.add('evaluations')
            st.fault(label[1])
            if not data:
                res.append((label, ['died', 'the process died (status %s)' % status]))
                continue
            d = json.loads(data)
            if isinstance(d, dict):
                self.tb = True
                raise RuntimeError(d['tb'])
            st.reach(case['how'], label[2], label[1], case['model'])
            st.log(label, d)
            if d:
                res.append((label, d))
        for label, why in f.failed:
            res.append((label, ['hang', 'the run does not end after the failure']))
        return res, out

    def run(self, case, st):
        pipeline.set_order(case['order'])
        self.dir, self.tb = None, False
        try:
            if case['how'] == 'main':
                res = self.main_run(case, st)
            else:
                res = self.canned_run(case, st)
        finally:
            if self.dir:
                shutil.rmtree(self.dir, ignore_errors=True)
        out = []
        for label, (sig, what) in res[:3]:
            out.append({'sig': sig, 'what': '%s at %s: %s' % (label[1], label[2], what),
                        'case': dict(case, at=[label[0], label[1]]),
                        'trace': ['step %d, %s' % (label[0], label[2])]})
        return out

    def main_run(self, case, st):
        m = world.mods
        self.dir = d = os.path.realpath(tempfile.mkdtemp(prefix='plysim-c06-'))
        infile = os.path.join(d, 'model.stl')
        pipeline.write_model(infile, case['model'])
        out = os.path.join(d, 'out.dxf' if case['named'] else 'model.dxf')
        if case['prior'] == 'file':
            with open(out, 'w') as f:
                f.write('old pattern')
        before = self.before = simio.tree(d)
        args = pipeline.main_args(case['params'], infile,
                                  out if case['named'] else None)

        def job():
            with world.quiet():
                m.command_line.main(args)

        def judge(_, exc, inj):
            now = simio.tree(d)
            if exc is None:
                return ['swallowed', 'the caller sees no failure']
            if exc is not inj['exc']:
                return ['masked', 'the caller sees %s: %s instead' % (
                    type(exc).__name__, str(exc)[:120])]
            if now.get('model.stl') != before['model.stl']:
                return ['input', 'the input file is changed']
            rel = os.path.relpath(out, d)
            diff = sorted(k for k in set(now) | set(before)
                          if now.get(k) != before.get(k))
            if inj['clean'] and diff:
                return ['written', 'files changed: %s' % diff]
            if not inj['clean'] and rel in diff:
                # (temporary files are C07's business); writing may be complete
                try:
                    whole = simio.dxf_outlines(now[rel][1])
                except Exception:
                    whole = None
                if not whole:
                    return ['written', 'the output is neither what it was nor a '
                            'pattern']
            return []
        try:
            res, _ = self.explore(case, job, judge, st)
        except Exception as e:
            if self.tb:
                raise
            st.probe('refused: ' + type(e).__name__)
            return []
        st.sample({'case': case})
        return res

    def canned_run(self, case, st):
        m = world.mods
        params = models.params_of(case['params'])
        if case['how'] == 'result':
            params['return_on_failure'] = True
        elif case['seed'] % 2:
            params['return_on_failure'] = False
        try:
            _, sp = pipeline.extract(case['model'], params)
            with pipeline.Spy() as spy0:
                base = m.canned.canned_1(sp, params)
        except Exception as e:
            st.probe('refused: ' + type(e).__name__)
            return []
        if not base.ok:
            st.probe('refused: not ok')
            return []
        H = [pipeline.state_digest(sb) for sb in base.history]
        steps = len(spy0.calls)
        pipeline.set_order(case['order'])
        spy = pipeline.Spy()

        def job():
            with spy:
                return m.canned.canned_1(sp, params)

        def judge(res, exc, inj):
            wanted = case['how'] == 'result' and isinstance(inj['exc'], Exception)
            if not wanted:
                if exc is None:
                    return ['swallowed', 'the caller sees no failure']
                if exc is not inj['exc']:
                    return ['masked', 'the caller sees %s: %s instead' % (
                        type(exc).__name__, str(exc)[:120])]
                return []
            if exc is not None:
                return ['no result', 'the caller sees %s: %s although a result was '
                        'asked for' % (type(exc).__name__, str(exc)[:120])]
            if res.ok:
                return ['marked ok', 'the result is marked as ok']
            h = [pipeline.state_digest(sb) for sb in res.history]
            last = None if res.sheetbuild is None else pipeline.state_digest(
                res.sheetbuild)
            if h != H[:len(h)]:
                return ['history', 'the history is not the beginning of the history '
                        'of the undisturbed run (%d states)' % len(h)]
            if h and last != h[-1]:
                return ['state', 'the state of the result is not the last recorded one']
            if not h and last is not None and last != H[0]:
                return ['state', 'a state without history']
            done = [c for c in spy.calls if not isinstance(c[2], BaseException)]
            if steps == len(H) - 2 and done and len(h) < len(done) + 1:
                return ['history', 'only %d states recorded after %d steps' % (
                    len(h), len(done))]
            if done and last != pipeline.state_digest(done[-1][2]):
                return ['state', 'the state of the result is not the one the last '
                        'completed step gave']
            if last is not None and done and pipeline.canon(
                    res.sheet_cuts) != pipeline.canon(res.sheetbuild.sheet_chosen):
                return ['cuts', 'the cuts are not those of the state']
            return []
        res, out = self.explore(case, job, judge, st, skip=(
            SKIP_CANNED if case['how'] == 'result' else ()))
        st.probe('undisturbed ' + case['how'])
        return res

    def shrink(self, case):
        if case['order']['mode'] != 'off':
            pass
        return iter(())


CHECK = C06()
