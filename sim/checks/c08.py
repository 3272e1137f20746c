"""C08: a reported success means the file holds every sheet, complete and apart."""
import errno
import json
import os
import random

from .. import diskworld, models, pipeline, seams, sheets, simio, world
from ..runner import Check

KINDS = ['L', 'vee', 'Lhole', 'T', 'cross', 'U', 'Lnotch', 'L', 'corner']
ERR = [errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EFBIG]
DATA_OPS = ('f.write', 'write', 'f.close', 'close', 'fsync', 'fdatasync', 'f.truncate',
            'pwrite', 'writev')


def data_plans(ops, r, n):
    """Faults of operations that carry the data of the file."""
    ks = [k for k, op in enumerate(ops) if op[0] in DATA_OPS]
    out = []
    for k in ks:
        out.append({'op': k, 'kind': 'errno', 'errno': r.choice(ERR)})
        if ops[k][0] in ('f.write', 'write'):
            out.append({'op': k, 'kind': 'short', 'frac': r.choice([0, .4, .9]),
                        'errno': r.choice(ERR)})
    r.shuffle(out)
    return out[:n]


class C08(Check):
    id = 'C08'
    quick = 160
    thorough = 5000
    case_timeout = 240
    rule = ('A case writes a generated set of sheets, or runs main() on a generated '
            'model, on the simulated disk: with short writes and reads of random '
            'length, and in forked branches with an error at each operation that '
            'carries data.  After a normal return the file is read back by an '
            'independent reader (and by ezdxf) and matched with the cuts.  Distinct '
            'and non-trivial: a run with a fault or disturbance that fired; by (sheets '
            'or model, disturbance).')
    real = ['writer', 'ezdxf', 'command_line', 'canned', 'heuristics',
            'create_sheetplex', 'geometry', 'file system (scratch directory)']
    stubs = ['outcome and length of every disk operation (SimIO)',
             'temporary file names', 'iteration orders']
    assumptions = ['The kerf enlargement itself is judged by C13.',
                   'Interrupted system calls are retried inside CPython, below the '
                   'seam.']

    def gen(self, r, i, tier):
        c = {'disk': diskworld.gen_disk(r), 'seed': r.randint(0, 10 ** 9),
             'benign': r.choice([.2, .6, .95]),
             'order': {'seed': r.randint(0, 10 ** 9), 'mode': r.choice(['off', 'real'])}}
        if i % 4 == 3:
            c['how'] = 'main'
            c['model'] = models.generate(r, [KINDS[i // 4 % len(KINDS)]], scale=.45)
            c['params'] = models.default_params(c['model'], r)
            c['params']['final_dilation'] = r.choice(
                ['1/20', '0', '1/10', '7/100', '1/4', '3/1000'])
            c['infile'] = r.choice(['model.stl', 'model.stl', 'a.b.STL', 'sub/m.stl',
                                    'noext.stl'])
            c['named'] = r.random() < .7
            c['fmt'] = r.choice(['bin', 'ascii'])
        else:
            c['how'] = 'write'
            c['sheets'] = sheets.gen_set(r, 5)
        return c

    def run(self, case, st):
        pipeline.set_order(case['order'])
        return (self.main_run if case['how'] == 'main' else self.write_run)(case, st)

    def write_run(self, case, st):
        m = world.mods
        geoms = sheets.build_set(case['sheets'])
        expected = diskworld.expected_of(geoms)
        disk = diskworld.Disk(case['disk'])
        out = []

        def write(path):
            m.writer.write_dxf(path, geoms)
        try:
            plain = diskworld.attempt_forked(disk, write, [], seed=case['seed'])
            out += self.judge(case, disk, expected, plain, 'undisturbed', st)
            disk.populate()
            res = diskworld.attempt_forked(disk, write, [], case['benign'],
                                           case['seed'])
            for k, n in res.get('fired', {}).items():
                st.fault(k, n)
            out += self.judge(case, disk, expected, res, 'with short writes', st)
            if out:
                return out
            plans = [case['plan']] if 'plan' in case else data_plans(
                plain['ops'], random.Random('p/%s' % case['seed']), 8)
            for plan in plans:
                disk.populate()
                res = diskworld.attempt_forked(disk, write, [plan], 0, case['seed'])
                for k, n in res.get('fired', {}).items():
                    st.fault(k, n)
                out += self.judge(dict(case, plan=plan), disk, expected, res,
                                  '%s of operation %d' % (plan['kind'], plan['op']), st)
                if out:
                    break
            st.sample({'sheets': [(n, len(s['add'])) for n, s in case['sheets']],
                       'disk': case['disk']})
        finally:
            disk.remove()
        return out

    def judge(self, case, disk, expected, res, how, st):
        """What is true after one write."""
        st.add('evaluations')
        st.add('sim_steps', len(res.get('ops', ())))
        st.log(how, res['out'], res.get('exc'))
        fired = res.get('fired') or {}
        errors = res.get('raised') or []
        if fired:
            st.reach(case.get('sheets') or case.get('model'), how, sorted(fired))

        def fail(sig, what):
            return [{'sig': sig, 'what': '%s: %s' % (how, what), 'case': case,
                     'trace': ['operations: %s' % (res.get('ops'),)]}]
        if res['out'] == 'ok':
            if errors:
                return fail('swallowed', 'the disk reported an error (%s), the caller '
                            'is told of success' % ', '.join(errors))
            s = disk.state(expected)
            if s == 'old':
                # (identical outlines as before would be 'old' as well)
                return fail('content', 'reported success, but the output is unchanged')
            if s != 'new':
                return fail('content', s)
            try:
                import ezdxf
                doc = ezdxf.readfile(disk.target)
                if doc.audit().has_errors:
                    return fail('unreadable', 'ezdxf finds errors in the file')
            except Exception as e:
                return fail('unreadable', 'ezdxf cannot read the file: %s' % e)
            return []
        if not errors:
            return fail('fails', 'the write fails: %s %s' % (res.get('exc'),
                                                             res.get('msg')))
        return []

    # ---------------------------------------------------------------- whole runs

    def main_run(self, case, st):
        m = world.mods
        spec = dict(case['disk'])
        if not case['named']:
            spec['name'] = os.path.splitext(case['infile'])[0] + '.dxf'
            if spec['form'] == 'bare' and '/' in spec['name']:
                spec['form'] = 'rel'
        if spec['prior'] == 'ro':
            spec['prior'] = 'file'
        data = models.stl_ascii(case['model']) if case['fmt'] == 'ascii' else \
            models.stl_bytes(case['model'])
        disk = diskworld.Disk(spec, {case['infile']: data})
        grabbed = []
        real = m.canned.canned_1

        def spy(*a, **k):
            r = real(*a, **k)
            grabbed.append(r)
            return r
        f = world.Forker(100)
        mine = {}
        plans = [case['plan']] if 'plan' in case else None
        r = random.Random('m/%s' % case['seed'])

        def on_op(sim, k, name, label):
            if f.child is not None or mine.get('done') or name.startswith(
                    ('open:r', 'f.read')) or label == case['infile']:
                return
            if plans is None and not grabbed:
                return
            mine['done'] = True
            now = {}
            if 'plan' in case:
                todo = [case['plan']]
            else:
                todo = [{'op': 'data', 'n': r.randint(0, 7), 'kind': r.choice(
                    ['errno', 'errno', 'short']), 'frac': .4, 'errno': r.choice(ERR)}
                    for _ in range(5)] + [{'op': 'close', 'n': 0, 'kind': 'errno',
                                           'errno': r.choice(ERR)}]
            for p in todo:
                if f.branch(p):
                    sim.benign = 0
                    mine['plan'] = p
                    mine['n'] = p['n']
                    arm(sim)
                    return
                disk.populate()

        def arm(sim):
            p = mine['plan']
            old = sim.op

            def op(name, label, info):
                hit = old(name, label, info)
                ok = (p['op'] == 'data' and name in DATA_OPS) or (
                    p['op'] == 'close' and name in ('f.close', 'close'))
                if hit is None and ok and mine['n'] >= 0:
                    mine['n'] -= 1
                    if mine['n'] < 0:
                        sim.fired(p['kind'] + ':' + errno.errorcode[p['errno']])
                        q = dict(p)
                        if name not in ('f.write', 'write'):
                            q['kind'] = 'errno'
                        return q
                return hit
            sim.op = op

        def write(path):
            # main in the directory the disk says
            inp = os.path.join(disk.root, case['infile'])
            if disk.spec['form'] != 'abs':
                inp = case['infile']
            m.command_line.main(pipeline.main_args(
                case['params'], inp, path if case['named'] else None))
        try:
            m.canned.canned_1 = spy
            try:
                out, sim = diskworld.attempt(disk, write, [], case['benign'],
                                             case['seed'], on_op)
            finally:
                m.canned.canned_1 = real
            e = out[1]
            res = {'out': out[0], 'exc': type(e).__name__ if e else None,
                   'msg': str(e)[:200] if e else None, 'fired': sim.fired_kinds,
                   'raised': sim.raised,
                   'ops': [list(map(str, o[:2])) for o in sim.ops]}
            if f.child is not None:
                res['state'] = None
                f.report(res)
            if out[0] != 'ok' and not grabbed:
                st.probe('refused: %s' % res['exc'])
                return []
            expected = self.expected(case, grabbed, m)
            for k, n in sim.fired_kinds.items():
                st.fault(k, n)
            bad = self.judge(case, disk, expected, res, 'main with short reads and '
                             'writes', st)
            st.probe('main ' + res['out'])
            for p, data, status in f.results:
                d = json.loads(data) if data else {'out': 'died'}
                for k, n in d.get('fired', {}).items():
                    st.fault(k, n)
                st.add('evaluations')
                st.log(p, d['out'])
                fired = d.get('fired') or {}
                err = d.get('raised') or []
                if err:
                    st.reach(case['model'], p, sorted(fired))
                if d['out'] == 'ok' and err and not bad:
                    bad = [{'sig': 'swallowed', 'what': 'main: the disk reported an '
                            'error (%s), the run ends as a success' % ', '.join(err),
                            'case': dict(case, plan=p),
                            'trace': ['operations: %s' % d.get('ops')]}]
            return bad
        finally:
            disk.remove()

    def expected(self, case, grabbed, m):
        params = models.params_of(case['params'])
        if grabbed:
            cuts = grabbed[-1].sheet_cuts
        else:
            import io
            import trimesh
            pipeline.set_order(case['order'])
            mesh = trimesh.load(io.BytesIO(models.stl_bytes(case['model'])),
                                file_type='stl')
            sp = m.create_sheetplex.create_sheetplex(mesh, params)
            cuts = m.canned.canned_1(sp, params).sheet_cuts
        d = params['final_dilation']
        return [(k, pipeline.rings_of(v.buffer(d))) for k, v in sorted(cuts.items())]

    def shrink(self, case):
        if case['how'] == 'write':
            sh = case['sheets']
            if len(sh) > 1:
                for k in range(len(sh)):
                    yield dict(case, sheets=sh[:k] + sh[k + 1:])
        d = case['disk']
        for k, v in (('others', False), ('form', 'abs'), ('name', 'out.dxf'),
                     ('prior', 'none')):
            if d[k] != v:
                yield dict(case, disk=dict(d, **{k: v}))
        if case['order']['mode'] != 'off':
            yield dict(case, order={'seed': 0, 'mode': 'off'})


CHECK = C08()
