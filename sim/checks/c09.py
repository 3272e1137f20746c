"""C09: faulty input is never turned into output, the input is never changed."""
import errno
import os
import random

from .. import diskworld, models, pipeline, simio, world
from ..runner import Check

KINDS = ['L', 'L', 'vee', 'Lhole', 'L', 'T', 'corner', 'L', 'cross', 'U']
ERR = [errno.EIO, errno.EIO, errno.EACCES, errno.ENOMEM, errno.ESTALE, errno.ETIMEDOUT]
INFILES = ['model.stl', 'model.stl', 'a.b.STL', 'sub/m.stl', 'with space ü.stl']
BAD = ['empty', 'header', 'zero', 'garbage', 'text', 'count', 'missing', 'directory',
       'noface', 'self', 'selflink', 'nosheet', 'thick', 'samename', 'otherdir']


class C09(Check):
    id = 'C09'
    quick = 20
    thorough = 2500
    case_timeout = 240
    rule = ('A case is a model file and a run of main() on it on the simulated disk: '
            'undisturbed; with reads of random length; with each operation on the '
            'input failing, interrupted or ending the file early; and with the file cut '
            'at a byte, missing or not a model.  The files are compared with what they '
            'were, and after a failure the run is repeated without fault.  Distinct and '
            'non-trivial: a run with a fault or disturbance that struck; by (model, '
            'fault).')
    real = ['command_line', 'create_sheetplex', 'canned', 'writer', 'trimesh', 'ezdxf',
            'file system (scratch directory)']
    stubs = ['outcome and length of every disk operation (SimIO)', 'iteration orders']
    assumptions = ['Reads happen through Python\'s file objects or os functions, as '
                   'trimesh does.',
                   'A file that is cut off counts as unreadable if a facet is missing '
                   'or incomplete.']

    def gen(self, r, i, tier):
        model = models.generate(r, [KINDS[i % len(KINDS)]], scale=.4)
        disk = diskworld.gen_disk(r)
        c = {'model': model, 'params': models.default_params(model, r),
             'fmt': ['bin', 'ascii'][i % 2], 'infile': r.choice(INFILES),
             'named': r.random() < .7, 'disk': disk, 'seed': r.randint(0, 10 ** 9),
             'benign': r.choice([.3, .7, .97]),
             'order': {'seed': 0, 'mode': 'off'},
             'nplans': 6 if tier == 'quick' else 12,
             'ncuts': 8 if tier == 'quick' else 25}
        if disk['prior'] == 'ro':
            disk['prior'] = 'file'
        if not c['named']:
            disk['name'] = os.path.splitext(c['infile'])[0] + '.dxf'
            if disk['form'] == 'bare' and '/' in disk['name']:
                disk['form'] = 'rel'
        return c

    # ------------------------------------------------------------------ one run

    def attempt(self, disk, case, plan=(), benign=0.0, infile=None, outfile=None,
                extra=None):
        m = world.mods
        infile = infile or case['infile']
        params = dict(case['params'], **(extra or {}))

        def write(path):
            inp = infile if disk.spec['form'] != 'abs' else os.path.join(
                disk.root, infile)
            o = outfile or (path if case['named'] else None)
            err = os.sys.stderr
            os.sys.stderr = open(os.devnull, 'w')
            try:
                m.command_line.main(pipeline.main_args(params, inp, o))
            finally:
                os.sys.stderr.close()
                os.sys.stderr = err
        return diskworld.attempt_forked(disk, write, plan, benign, case['seed'],
                                        timeout=100)

    def changed(self, disk, before, outok):
        """Files that are not what they were."""
        now = simio.tree(disk.root)
        skip = set()
        if outok:
            skip.add(os.path.relpath(disk.target, disk.root))
            if disk.spec['prior'] in ('link', 'dangling'):
                skip.add('other/real.dxf')
        bad = []
        for k in sorted(set(now) | set(before)):
            if k in skip or now.get(k) == before.get(k):
                continue
            bad.append('%s %s' % (k, 'removed' if k not in now else
                                  'created' if k not in before else 'changed'))
        return bad

    def outlines(self, disk):
        data = simio.read(disk.target)
        if data is None:
            return None
        try:
            return simio.dxf_outlines(data)
        except (simio.BadDXF, IndexError, ValueError, KeyError) as e:
            return 'incomplete: %s' % e

    # --------------------------------------------------------------------- case

    def run(self, case, st):
        pipeline.set_order(case['order'])
        data = models.stl_ascii(case['model']) if case['fmt'] == 'ascii' else \
            models.stl_bytes(case['model'])
        disk = diskworld.Disk(case['disk'], {case['infile']: data})
        try:
            return self.explore(case, disk, data, st)
        finally:
            disk.remove()

    def explore(self, case, disk, data, st):
        def bad(sig, what, res, **kw):
            return [{'sig': sig, 'what': what, 'case': dict(case, **kw),
                     'trace': ['operations: %s' % (res.get('ops'),),
                               'ended: %s %s %s' % (res['out'], res.get('exc'),
                                                    res.get('msg'))]}]

        def count(what, res):
            st.add('evaluations')
            st.add('sim_steps', len(res.get('ops', ())))
            for k, n in (res.get('fired') or {}).items():
                st.fault(k, n)
            st.log(what, res['out'], res.get('exc'))
            if what != 'undisturbed':
                st.reach(case['model'], case['fmt'], what)

        plain = self.attempt(disk, case)
        count('undisturbed', plain)
        ch = self.changed(disk, disk.before, plain['out'] == 'ok')
        if ch:
            return bad('files', 'an undisturbed run leaves other files different: '
                       + ', '.join(ch), plain)
        ref = self.outlines(disk) if plain['out'] == 'ok' else None
        if plain['out'] == 'ok' and not isinstance(ref, list):
            return bad('output', 'no output', plain)
        if plain['out'] == 'timeout':
            raise RuntimeError('timeout')
        st.probe('undisturbed ' + plain['out'])
        is_input = os.path.relpath(os.path.join(disk.root, case['infile']), disk.root)
        reads = [k for k, o in enumerate(plain['ops'])
                 if o[1] == is_input and o[0] != 'f.close']
        r = random.Random('c09/%s' % case['seed'])

        def same(what, res, **kw):
            """Must be as without disturbance."""
            if res['out'] != plain['out'] or res.get('exc') != plain.get('exc'):
                return bad('disturbed', '%s: the run ends with %s %s, undisturbed with '
                           '%s' % (what, res['out'], res.get('exc') or '',
                                   plain['out']), res, **kw)
            if self.outlines(disk) != ref and ref is not None:
                return bad('disturbed', '%s: the output differs' % what, res, **kw)
            return self.files(what, disk, res, bad, kw)

        def fails(what, res, before=None, **kw):
            """Must fail and leave everything alone."""
            if res['out'] == 'ok':
                return bad('accepted', '%s: the run reports success' % what, res, **kw)
            ch = self.changed(disk, before or disk.before, False)
            if ch:
                return bad('files', '%s: files differ after the failure: %s' % (
                    what, ', '.join(ch)), res, **kw)
            return []

        def again(what, res, **kw):
            """After the fault is gone."""
            res = self.attempt(disk, case)
            return same('repeated without fault after ' + what, res, **kw)
        only = case.get('only')
        out = []

        if plain['out'] == 'ok' and only is None:
            disk.populate()
            res = self.attempt(disk, case, benign=case['benign'])
            count('short reads and writes', res)
            out = same('with short reads and writes', res)
        # operations on the input that fail
        plans = []
        if not reads:
            st.probe('no reads seen')
        for k in reads:
            for e in ERR:
                plans.append({'op': k, 'kind': 'errno', 'errno': e})
            plans.append({'op': k, 'kind': 'raise', 'exc': r.choice(
                ['KeyboardInterrupt', 'MemoryError', 'SystemExit'])})
        r.shuffle(plans)
        plans = plans[:case['nplans']]
        rd = [k for k in reads if plain['ops'][k][0] == 'f.read']
        for k in rd[:1] + rd[-1:] + ([r.choice(rd)] if rd else []):
            plans.append({'op': k, 'kind': 'eof'})
        if only is not None:
            plans = [only] if 'op' in only else []
        last = None
        for p in plans:
            if out:
                return out
            disk.populate()
            what = '%s at operation %d' % (p.get('exc') or (
                p['kind'] + (' ' + errno.errorcode[p['errno']]
                             if p.get('errno') else '')), p['op'])
            res = self.attempt(disk, case, [p])
            count(what, res)
            if p['kind'] == 'eof':
                if res['out'] == 'ok':
                    # only if all had been read by then
                    out = same(what, res, only=p)
                else:
                    out = fails(what, res, only=p)
            elif not res.get('raised'):
                out = same(what, res, only=p)
            else:
                if res['out'] == 'ok' and plain['ops'][p['op']][0].startswith('open') \
                        and self.outlines(disk) == ref:
                    st.probe('another way to read was found')
                    continue
                out = fails(what, res, only=p)
                last = what
        if last and not out and only is None:
            out = again(last, res)
        # files that are not (completely) there
        cuts = self.cuts(case, data, r) if only is None else (
            [only['cut']] if 'cut' in only else [])
        for k in cuts:
            if out:
                return out
            disk.populate()
            what = 'input cut after %d of %d bytes' % (k, len(data))
            res, before = self.broken(disk, case, data[:k])
            count('cut %d' % k, res)
            st.fault('input cut off')
            if complete(data[:k], data, case['fmt']):
                if res['out'] == 'ok' and self.outlines(disk) != ref:
                    out = bad('accepted', what + ': another result', res,
                              only={'cut': k})
            else:
                out = fails(what, res, before, only={'cut': k})
        kinds = [r.choice(BAD), r.choice(BAD)] if only is None else (
            [only['bad']] if 'bad' in only else [])
        for kind in kinds:
            if out:
                return out
            out = self.faulty(kind, case, disk, data, st, count, fails, plain)
        if only is None:
            st.sample({'case': case})
        return out

    def files(self, what, disk, res, bad, kw):
        ch = self.changed(disk, disk.before, res['out'] == 'ok')
        if ch:
            return bad('files', '%s: other files differ: %s' % (what, ', '.join(ch)),
                       res, **kw)
        return []

    def cuts(self, case, data, r):
        n = len(data)
        ks = [0, n - 60 if case['fmt'] == 'bin' else n - 40, 84]
        while len(ks) < case['ncuts']:
            ks.append(r.randrange(n))
        if case['fmt'] == 'bin':
            ks.append(84 + 50 * r.randrange((n - 84) // 50))     # between facets
        else:
            f = data.split(b'facet normal')
            ks.append(len(b'facet normal'.join(f[:r.randrange(2, len(f))])))
        return ks

    def broken(self, disk, case, content):
        with open(os.path.join(disk.root, case['infile']), 'wb') as f:
            f.write(content)
        before = simio.tree(disk.root)
        return self.attempt(disk, case), before

    def faulty(self, kind, case, disk, data, st, count, fails, plain):
        disk.populate()
        path = os.path.join(disk.root, case['infile'])
        infile = outfile = extra = None
        c = case
        if kind in ('empty', 'header', 'zero', 'garbage', 'text', 'count', 'noface'):
            d = {'empty': b'', 'header': data[:84], 'garbage': bytes(
                random.Random(case['seed']).getrandbits(8) for _ in range(400)),
                'text': b'<html>not a model</html>\n' * 9,
                'zero': b'x'.ljust(80) + b'\0\0\0\0',
                'noface': b'solid x\nendsolid x\n',
                'count': models.stl_bytes(case['model'])[:80] +
                b'\xff\0\0\0' + models.stl_bytes(case['model'])[84:]}[kind]
            if kind == 'count' and len(models.stl_bytes(case['model'])) == \
                    84 + 255 * 50:
                return []
            with open(path, 'wb') as f:
                f.write(d)
        elif kind == 'missing':
            os.unlink(path)
        elif kind == 'directory':
            os.unlink(path)
            os.mkdir(path)
        elif kind == 'otherdir':
            infile = 'nodir/x.stl'
        elif kind in ('nosheet', 'thick'):
            # a model without any pair of faces at the given distance
            extra = {'thickness': '1/3' if kind == 'nosheet' else '1001'}
        elif kind == 'self':
            c = dict(case, named=True)
            outfile = case['infile'] if disk.spec['form'] != 'abs' else path
        elif kind == 'selflink':
            c = dict(case, named=True)
            os.symlink(path, os.path.join(disk.root, 'alias.stl'))
            outfile = os.path.join(disk.root, 'alias.stl')
        elif kind == 'samename':
            # the default output name is the name of the input
            infile = 'mine.dxf'
            with open(os.path.join(disk.root, infile), 'wb') as f:
                f.write(data)
            c = dict(case, named=False)
        before = simio.tree(disk.root)
        res = self.attempt(disk, c, infile=infile, outfile=outfile, extra=extra)
        count('input: ' + kind, res)
        st.fault('input: ' + kind)
        what = {'self': 'output named like the input', 'nosheet': 'no sheets in the '
                'input', 'selflink': 'output is a link to the input', 'thick': 'no '
                'sheets in the input', 'samename': 'input named like the default '
                'output'}.get(kind, 'input ' + kind)
        return fails(what, res, before, only={'bad': kind})

    def shrink(self, case):
        d = case['disk']
        for k, v in (('others', False), ('form', 'abs'), ('prior', 'none')):
            if d[k] != v:
                yield dict(case, disk=dict(d, **{k: v}))
        m = case['model']
        for k in ('rot', 'shift', 'tri_order'):
            if m.get(k) is not None:
                m2 = dict(m)
                del m2[k]
                yield dict(case, model=m2)


def complete(cut, data, fmt):
    """Are all facets of the file in what is left of it?"""
    if fmt == 'bin':
        return len(cut) == len(data)
    return cut.count(b'endfacet') == data.count(b'endfacet')


CHECK = C09()
