"""Writing the output on the simulated disk: one scenario, many fault plans."""
import os
import shutil
import tempfile

from . import pipeline, simio, world

OUTNAMES = ['out.dxf', 'sub/pattern.dxf', 'a b ü.dxf', 'noext', 'x.DXF']


def gen_disk(r):
    """What is in the output directory before the run."""
    d = {'name': r.choice(OUTNAMES), 'form': r.choice(['abs', 'abs', 'rel', 'bare']),
         'prior': r.choice(['none', 'none', 'file', 'file', 'long', 'ro', 'link',
                            'empty', 'dangling']),
         'others': r.random() < .7}
    if d['form'] == 'bare':
        d['name'] = os.path.basename(d['name'])
    return d


class Disk:
    def __init__(self, spec, extra=None):
        self.spec = spec
        self.extra = extra or {}
        self.root = os.path.realpath(tempfile.mkdtemp(prefix='plysim-disk-'))
        self.cwd = os.getcwd()
        self.target = os.path.join(self.root, spec['name'])
        self.populate()

    def populate(self):
        s = self.spec
        for n in os.listdir(self.root):
            p = os.path.join(self.root, n)
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p)
            else:
                os.unlink(p)
        os.makedirs(os.path.dirname(self.target), exist_ok=True)
        os.makedirs(os.path.join(self.root, 'other'), exist_ok=True)
        if s['others']:
            base = self.target
            for n in (base + '.tmp', base + '~', base + '.bak',
                      os.path.join(os.path.dirname(base), '.' + os.path.basename(base)),
                      os.path.join(os.path.dirname(base), 'tmp.dxf'),
                      os.path.join(self.root, 'other', 'out.dxf'),
                      os.path.join(self.root, 'model.keep')):
                with open(n, 'w') as f:
                    f.write('precious ' + os.path.basename(n))
        k = s['prior']
        old = b'  0\nSECTION\nold pattern\n'
        if k == 'long':
            old = old * 40000
        if k == 'empty':
            old = b''
        if k in ('file', 'long', 'ro', 'empty'):
            with open(self.target, 'wb') as f:
                f.write(old)
            os.chmod(self.target, 0o600 if k == 'ro' else 0o644)
        if k in ('link', 'dangling'):
            t = os.path.join(self.root, 'other', 'real.dxf')
            if k == 'link':
                with open(t, 'wb') as f:
                    f.write(old)
            os.symlink(t, self.target)
        for n, data in self.extra.items():
            p = os.path.join(self.root, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as f:
                f.write(data)
        self.before = simio.tree(self.root)
        self.old = simio.read(self.target)

    def path(self):
        f = self.spec['form']
        if f == 'abs':
            return self.target
        if f == 'rel':
            os.chdir(self.root)
            return os.path.join('.', self.spec['name'])
        os.chdir(self.root)
        return self.spec['name']

    def uncwd(self):
        os.chdir(self.cwd)

    def others_changed(self):
        """Pre-existing files, apart from the target, that are not as before."""
        now = simio.tree(self.root)
        rel = os.path.relpath(self.target, self.root)
        skip = {rel}
        if self.spec['prior'] in ('link', 'dangling'):
            skip.add('other/real.dxf')
        bad = []
        for k, v in self.before.items():
            if k in skip or v[0] == 'd':
                continue
            if now.get(k) != v:
                bad.append('%s was %s' % (k, 'removed' if k not in now else 'changed'))
        return bad

    def state(self, expected, theirs=None):
        """'old', 'new' or a message: what the output path holds.
        theirs: the pattern of another run, which it may hold as well."""
        data = simio.read(self.target)
        if data == self.old:
            return 'old'
        if data is None:
            return 'the previous output is gone'
        try:
            loops = simio.dxf_outlines(data)
        except (simio.BadDXF, IndexError, ValueError, KeyError) as e:
            return 'the output is not a complete DXF file (%s, %d bytes)' % (
                e, len(data))
        err, _ = pipeline.match_layout(loops, expected)
        if err and theirs is not None and \
                not pipeline.match_layout(loops, theirs)[0]:
            return 'theirs'
        if err:
            return 'the output is incomplete or wrong: ' + err
        return 'new'

    def remove(self):
        self.uncwd()
        shutil.rmtree(self.root, ignore_errors=True)


def expected_of(geoms):
    return [(n, pipeline.rings_of(g)) for n, g in geoms.items()]


def attempt(disk, write, plan=(), benign=0.0, seed=0, on_op=None):
    """write(path) on the disk, in this process.  Returns (outcome, SimIO)."""
    path = disk.path()
    sim = simio.SimIO(disk.root, plan, benign, seed, on_op=on_op)
    try:
        with world.quiet():
            with sim:
                try:
                    write(path)
                    out = ('ok', None)
                except BaseException as e:
                    out = ('exc', e)
                sim.stop()
    finally:
        disk.uncwd()
    return out, sim


def attempt_forked(disk, write, plan, benign=0.0, seed=0, timeout=60, other=None):
    """The same in a forked process, which a crash really ends.

    other(path): a complete write of another run, at the operations of the plan of
    kind 'other'."""
    others = {p['op'] for p in plan if p['kind'] == 'other'}
    plan = [p for p in plan if p['kind'] != 'other']

    def on_op(sim, k, name, label):
        if k in others:
            others.discard(k)
            sim.active = False
            try:
                other(disk.path())
            finally:
                sim.active = True
            sim.fired('a complete other run')

    def body():
        out, sim = attempt(disk, write, plan, benign, seed,
                           on_op=on_op if others else None)
        e = out[1]
        return {'out': out[0], 'exc': type(e).__name__ if e else None,
                'oserror': isinstance(e, OSError),
                'msg': str(e)[:200] if e else None,
                'fired': sim.fired_kinds, 'raised': sim.raised, 'ops': [list(map(str, o[:2]))
                                                  for o in sim.ops]}
    f = world.Forker(timeout)
    if f.branch('w'):
        import traceback
        try:
            v = body()
        except BaseException:
            v = {'tb': traceback.format_exc()}
        f.report(v)
    if f.failed:
        return {'out': 'timeout'}
    _, data, status = f.results[0]
    if os.WIFEXITED(status) and os.WEXITSTATUS(status) == simio.CRASH:
        return {'out': 'crash', 'fired': {'crash': 1}, 'ops': []}
    import json
    d = json.loads(data)
    if 'tb' in d:
        raise RuntimeError(d['tb'])
    return d
