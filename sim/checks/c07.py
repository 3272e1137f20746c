"""C07: the output file is always either the old one or the complete new one."""
import errno
import json
import os
import random
import sys

from .. import diskworld, models, pipeline, sheets, simio, world
from ..runner import Check

# what another run writes to the same file
THEIRS = [['s%d' % i, {'add': [[[str(x), '0'], [str(x), '17'], [str(x + 23), '17'],
                                [str(x + 23), '0']]]}]
          for i, x in enumerate((3, 40))]

WRITE_ERR = [errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EFBIG]
PATH_ERR = [errno.EACCES, errno.EPERM, errno.ENOSPC, errno.EROFS, errno.EIO,
            errno.EMFILE, errno.ENOENT, errno.EXDEV, errno.EBUSY]


def plans_for(k, op, r):
    """All single faults of operation k."""
    name = op[0]
    yield {'op': k, 'kind': 'crash', 'frac': 0}
    yield {'op': k, 'kind': 'raise', 'exc': r.choice(
        ['KeyboardInterrupt', 'MemoryError', 'SystemExit'])}
    if name in ('f.write', 'write'):
        yield {'op': k, 'kind': 'crash', 'frac': r.choice([0.01, 0.5, 0.99, 1.0])}
        yield {'op': k, 'kind': 'errno', 'errno': r.choice(WRITE_ERR)}
        yield {'op': k, 'kind': 'short', 'frac': r.choice([0, 0.3, 0.9]),
               'errno': r.choice(WRITE_ERR)}
        yield {'op': k, 'kind': 'after', 'errno': r.choice(WRITE_ERR)}
    elif name in ('f.close', 'close', 'fsync'):
        yield {'op': k, 'kind': 'errno', 'errno': r.choice(WRITE_ERR)}
    else:
        yield {'op': k, 'kind': 'errno', 'errno': r.choice(PATH_ERR)}
        yield {'op': k, 'kind': 'after', 'errno': r.choice(PATH_ERR)}


class C07(Check):
    id = 'C07'
    level = 'fault_enumeration'
    quick = 72
    thorough = 3000
    case_timeout = 200
    rule = ('A case is a set of sheets and a state of the output directory.  The write '
            'is run once undisturbed to count its disk operations; then every single '
            'fault at every operation (crash before / in the middle, error before / '
            'after, short write then full disk, interrupt) is injected in a run of its '
            'own, plus random pairs of faults and complete writes of the same file by another '
            'run at an operation, each followed by inspection of the '
            'directory and a fault-free retry.  Distinct and non-trivial: the fault '
            'fired; by (operation, fault kind, state of the disk).')
    real = ['writer', 'ezdxf', 'tempfile/shutil', 'file system of the sandbox (scratch '
            'directory)', 'main() for some cases']
    stubs = ['outcome of every disk operation (SimIO)', 'temporary file names',
             'process crash (the forked process exits at the operation)']
    assumptions = ['Process-crash model: data handed to the operating system survives, '
                   'buffers in the process do not; rename is atomic.']

    def gen(self, r, i, tier):
        if i % 12 == 5:
            return self.gen_main(r, tier)
        return {'sheets': sheets.gen_set(r, 3 if tier == 'quick' else 5),
                'disk': diskworld.gen_disk(r),
                'pairs': 6 if tier == 'quick' else 20,
                'seed': r.randint(0, 10 ** 9)}

    # ------------------------------------------------- main() from end to end

    def gen_main(self, r, tier):
        model = models.generate(r, [r.choice(['L', 'vee', 'Lhole'])], scale=.4)
        disk = diskworld.gen_disk(r)
        named = r.random() < .6
        if not named:
            disk['name'] = 'model.dxf'
        return {'how': 'main', 'model': model, 'named': named,
                'params': models.default_params(model, r), 'disk': disk,
                'limit': 60 if tier == 'quick' else 300, 'pairs': 4,
                'seed': r.randint(0, 10 ** 9)}

    def run_main(self, case, st):
        """main() runs up to its first operation on the disk that is not a read;
        there the process is forked once for each fault plan, and what the disk held
        is put back after each."""
        m = world.mods
        pipeline.set_order(None)
        disk = diskworld.Disk(case['disk'], {'model.stl': models.stl_bytes(
            case['model'])})
        self.stop = False
        try:
            return self._run_main(case, st, m, disk)
        finally:
            disk.remove()

    def _run_main(self, case, st, m, disk):
        args = pipeline.main_args(
            case['params'], os.path.join(disk.root, 'model.stl'),
            disk.path() if case['named'] else None)
        f = world.Forker(60)
        found = []
        only = case.get('plan')

        def child(sim, k0, plan):
            """In the parent: what came of the plan.  Does not return in the child."""
            if f.branch(len(f.results)):
                sim.plan = {p['op'] + k0: p for p in plan}
                mine['base'] = k0
                return None
            if f.failed:
                return {'out': 'timeout'}
            _, data, status = f.results[-1]
            if os.WIFEXITED(status) and os.WEXITSTATUS(status) == simio.CRASH:
                return {'out': 'crash', 'fired': {'crash': 1}, 'ops': []}
            return json.loads(data)

        mine = {}

        def state(new):
            data = simio.read(disk.target)
            if data == disk.old:
                return 'old'
            if data is None:
                return 'the previous output is gone'
            try:
                loops = simio.dxf_outlines(data)
            except (simio.BadDXF, IndexError, ValueError, KeyError) as e:
                return 'the output is not a complete DXF file (%s, %d bytes)' % (
                    e, len(data))
            return 'new' if new is None or loops == new else \
                'the output is incomplete or wrong'

        def report(plan, res, sig, what):
            found.append({'what': what, 'sig': 'main ' + sig,
                          'case': dict(case, plan=plan),
                          'trace': [repr(p) for p in plan] + ['operations: %s' % (
                              res.get('ops'),)]})

        def explore(sim, k0):
            plan = []
            res = child(sim, k0, [])
            if res is None:
                return
            st.add('evaluations')
            s = state(None)
            if res['out'] == 'exc':
                st.probe('refused: ' + str(res['exc']))
                return
            if res['out'] != 'ok' or s != 'new':
                return report([], res, 'plain', 'undisturbed run: %s %s, %s' % (
                    res['out'], res.get('exc'), s))
            new = simio.dxf_outlines(simio.read(disk.target))
            bad = disk.others_changed()
            if bad:
                report([], res, 'others', 'undisturbed run: ' + bad[0])
            r = random.Random('plans/%s' % case['seed'])
            if only is not None:
                plans = [only]
            else:
                plans = [[p] for k, op in enumerate(res['ops'])
                         for p in plans_for(k, op, r)]
                st.add('disk operations', len(res['ops']))
                singles = [p[0] for p in plans if p[0]['kind'] != 'crash']
                for _ in range(case['pairs']):
                    a = r.choice(singles)
                    plans.append([a, {'op': a['op'] + r.randint(1, 4),
                                      'kind': r.choice(['errno', 'crash', 'raise']),
                                      'errno': r.choice(WRITE_ERR), 'frac': 0,
                                      'exc': 'KeyboardInterrupt'}])
                if len(plans) > case['limit']:
                    keep = sorted(r.sample(range(len(plans)), case['limit']))
                    plans = [plans[x] for x in keep]
            for plan in plans:
                disk.populate()
                res = child(sim, k0, plan)
                if res is None:
                    return
                st.add('evaluations')
                for k, n in res.get('fired', {}).items():
                    st.fault(k, n)
                if res.get('fired'):
                    st.reach('main', case['disk'], [(p['op'], p['kind'])
                                                    for p in plan])
                st.log(plan, res['out'], res.get('exc'))
                s = state(new)
                n = len(found)
                if s not in ('old', 'new'):
                    report(plan, res, 'torn', 'after %s: %s' % (describe(res, plan), s))
                bad = disk.others_changed()
                if bad:
                    report(plan, res, 'others', 'after %s: %s' % (
                        describe(res, plan), bad[0]))
                if res['out'] == 'ok' and s == 'old':
                    report(plan, res, 'lost', 'the run returned normally but the '
                           'output is the old one')
                if res['out'] == 'timeout':
                    report(plan, res, 'hang', 'the run does not end')
                    return
                if len(found) == n and r.random() < .5:
                    r2 = child(sim, k0, [])
                    if r2 is None:
                        return
                    st.add('retries after a fault')
                    s2 = state(new)
                    if r2['out'] != 'ok' or s2 != 'new':
                        report(plan, res, 'recovery', 'after %s a repeated run gives '
                               '%s %s: %s' % (describe(res, plan), r2['out'],
                                              r2.get('msg'), s2))
                if len(found) > 2:
                    return
            disk.populate()

        def on_op(sim, k, name, label):
            reading = name in ('open:r', 'f.read', 'f.close', 'read', 'close') and \
                label == 'model.stl'
            if reading or self.stop:
                return
            self.stop = True
            explore(sim, k)

        err = sys.stderr
        sys.stderr = open(os.devnull, 'w')
        try:
            out, sim = diskworld.attempt(
                disk, lambda path: m.command_line.main(args), seed=case['seed'],
                on_op=on_op)
        finally:
            sys.stderr.close()
            sys.stderr = err
        if f.child is not None:
            e = out[1]
            f.report({'out': out[0], 'exc': type(e).__name__ if e else None,
                      'msg': str(e)[:200] if e else None, 'fired': sim.fired_kinds,
                      'ops': [list(map(str, o[:2])) for o in sim.ops[mine['base']:]]})
        if not self.stop:
            if out[0] == 'ok':
                report([], {}, 'plain', 'a run that returned normally wrote nothing')
            else:
                st.probe('refused: ' + type(out[1]).__name__)
        return found

    def run(self, case, st):
        if case.get('how') == 'main':
            return self.run_main(case, st)
        m = world.mods
        pipeline.set_order(None)
        geoms = sheets.build_set(case['sheets'])
        expected = diskworld.expected_of(geoms)
        disk = diskworld.Disk(case['disk'])

        def write(path):
            m.writer.write_dxf(path, geoms)
        out = []
        try:
            if 'plan' in case:
                plans = [case['plan']]
            else:
                res = diskworld.attempt_forked(disk, write, [], seed=case['seed'])
                st.add('evaluations')
                st.log(res['out'], res['ops'])
                s = disk.state(expected)
                if res['out'] != 'ok' or s != 'new':
                    out.append({'what': 'undisturbed write: %s %s, %s' % (
                        res['out'], res.get('exc'), s), 'sig': 'plain',
                        'case': dict(case, plan=[])})
                    return out
                r = random.Random('plans/%s' % case['seed'])
                plans = [[p] for k, op in enumerate(res['ops'])
                         for p in plans_for(k, op, r)]
                # pairs: a fault while handling another one
                singles = [p[0] for p in plans if p[0]['kind'] not in ('crash',)]
                for _ in range(case['pairs']):
                    if not singles:
                        break
                    a = r.choice(singles)
                    k = a['op'] + r.randint(1, 4)
                    b = {'op': k, 'kind': r.choice(['errno', 'crash', 'raise']),
                         'errno': r.choice(WRITE_ERR), 'frac': 0,
                         'exc': 'KeyboardInterrupt'}
                    plans.append([a, b])
                st.add('disk operations', len(res['ops']))
                st.sample({'disk': case['disk'], 'operations': res['ops'],
                           'plans': len(plans), 'first plans': plans[:3]})
                # another run writes the same file, from beginning to end
                ks = range(len(res['ops']))
                plans += [[{'op': k, 'kind': 'other'}] for k in sorted(
                    r.sample(ks, min(len(ks), 4 * case['pairs'])))]
            for plan in plans:
                out += self.experiment(case, disk, write, plan, expected, st)
                if len(out) > 3:
                    break
        finally:
            disk.remove()
        return out

    def experiment(self, case, disk, write, plan, expected, st):
        disk.populate()
        theirs = sheets.build_set(THEIRS)

        def other(path):
            world.mods.writer.write_dxf(path, theirs)
        res = diskworld.attempt_forked(disk, write, plan, seed=case['seed'],
                                       other=other)
        st.add('evaluations')
        st.add('sim_steps', len(res.get('ops', ())))
        for k, n in res.get('fired', {}).items():
            st.fault(k, n)
        label = [dict(p) for p in plan]
        if res.get('fired'):
            st.reach(case['disk'], [(p['op'], p['kind']) for p in plan])
        st.log(plan, res['out'], res.get('exc'))
        probs = []
        met = any(p['kind'] == 'other' for p in plan)
        s = disk.state(expected, diskworld.expected_of(theirs) if met else None)
        if s not in ('old', 'new') and not (met and s == 'theirs'):
            probs.append(('torn', 'after %s: %s' % (describe(res, plan), s)))
        bad = disk.others_changed()
        if bad:
            probs.append(('others', 'after %s: %s' % (describe(res, plan), bad[0])))
        if res['out'] == 'ok' and s == 'old':
            probs.append(('lost', 'the write returned normally but the output is the '
                                  'old one'))
        if res['out'] == 'timeout':
            probs.append(('hang', 'the write does not return after %s' % (plan,)))
        # recovery: the fault is gone, the same run is repeated
        if not probs:
            r2 = diskworld.attempt_forked(disk, write, [], seed=case['seed'] + 1)
            st.add('retries after a fault')
            s2 = disk.state(expected)
            if r2['out'] != 'ok' or s2 != 'new':
                probs.append(('recovery', 'after %s a repeated run gives %s %s: %s' % (
                    describe(res, plan), r2['out'], r2.get('msg'), s2)))
        return [{'what': w, 'sig': sig, 'case': dict(case, plan=plan),
                 'trace': [repr(p) for p in label] + ['operations: %s' % (
                     res.get('ops'),)]} for sig, w in probs]

    def shrink(self, case):
        if case.get('how') == 'main':
            return
        plan = case.get('plan') or []
        if len(plan) > 1:
            for k in range(len(plan)):
                yield dict(case, plan=plan[:k] + plan[k + 1:])
        sh = case['sheets']
        if len(sh) > 1:
            for k in range(len(sh)):
                yield dict(case, sheets=sh[:k] + sh[k + 1:])
        d = case['disk']
        for k, v in (('others', False), ('form', 'abs'), ('name', 'out.dxf'),
                     ('prior', 'file')):
            if d[k] != v:
                yield dict(case, disk=dict(d, **{k: v}))


def describe(res, plan):
    return '%s (%s)' % (', '.join('%s at operation %d' % (p['kind'], p['op'])
                                  for p in plan) or 'no fault',
                        res['out'] if res['out'] != 'exc' else res['exc'])


CHECK = C07()
