"""The disk seam: file operations on a scratch directory, with injected faults.

Everything plycutter (and the libraries it writes and reads with) does to files
under `root` goes through here as a numbered operation.  The plan says what
happens to which operation:

  {'op': k, 'kind': 'errno', 'errno': 28}      operation k fails
  {'op': k, 'kind': 'short', 'frac': .5, 'errno': 28}
                                               a write takes only a part, the next
                                               operation on the disk fails
  {'op': k, 'kind': 'after', 'errno': 5}       it happens, but an error is reported
  {'op': k, 'kind': 'raise', 'exc': 'KeyboardInterrupt'}
  {'op': k, 'kind': 'crash', 'frac': f}        the process dies here (a write may
                                               have reached the OS in part)
and `benign` makes reads and writes short now and then.
"""
import builtins
import errno
import io
import os
import random

CRASH = 77

_real = {}


class Interrupted(KeyboardInterrupt):
    pass


EXC = {'KeyboardInterrupt': lambda: KeyboardInterrupt('injected'),
       'MemoryError': lambda: MemoryError('injected'),
       'SystemExit': lambda: SystemExit(3)}

MUTATING = ('replace', 'rename', 'unlink', 'remove', 'rmdir', 'mkdir', 'chmod',
            'link', 'symlink', 'truncate', 'ftruncate', 'fsync', 'fdatasync',
            'utime', 'fchmod')
OTHER = ('open', 'write', 'read', 'close', 'sendfile', 'copy_file_range',
         'pwrite', 'writev')
TWO_PATHS = ('replace', 'rename', 'link', 'symlink')


class SimRaw(io.FileIO):
    """An open file on the simulated disk."""

    def __init__(self, sim, name, mode, closefd=True, opener=None):
        self._sim = None
        self._closing = False
        self._eof = False
        io.FileIO.__init__(self, name, mode, closefd=closefd, opener=opener)
        self._sim = sim
        self._label = sim.rel(name)

    def write(self, b):
        s = self._sim
        if s is None or not s.active:
            return io.FileIO.write(self, b)
        f = s.op('f.write', self._label, len(b))
        data = bytes(b)
        if f is not None:
            k = f['kind']
            n = int(len(data) * f.get('frac', 0))
            if k == 'crash':
                if n:
                    io.FileIO.write(self, data[:n])
                os._exit(CRASH)
            if k == 'short':
                s.pending = f['errno']
                if n:
                    return io.FileIO.write(self, data[:n])
                s.raise_pending()
            if k == 'after':
                io.FileIO.write(self, data)
            s.fail(f)
        if s.benign and len(data) > 1 and s.rng.random() < s.benign:
            s.fired('short_write')
            data = data[:s.rng.randint(1, len(data) - 1)]
        return io.FileIO.write(self, data)

    def readinto(self, b):
        s = self._sim
        if s is None or not s.active:
            return io.FileIO.readinto(self, b)
        f = s.op('f.read', self._label, len(b))
        if f is not None:
            if f['kind'] == 'crash':
                os._exit(CRASH)
            if f['kind'] == 'eof':
                self._eof = True
            else:
                s.fail(f)
        if self._eof:
            return 0
        if s.benign and len(b) > 1 and s.rng.random() < s.benign:
            s.fired('short_read')
            m = memoryview(b)[:s.rng.randint(1, len(b) - 1)]
            return io.FileIO.readinto(self, m)
        return io.FileIO.readinto(self, b)

    def readall(self):
        s = self._sim
        if s is None or not s.active:
            return io.FileIO.readall(self)
        out = []
        buf = bytearray(1 << 16)
        while True:
            n = self.readinto(buf)
            if not n:
                return b''.join(out)
            out.append(bytes(buf[:n]))

    def read(self, n=-1):
        if n is None or n < 0:
            return self.readall()
        buf = bytearray(n)
        k = self.readinto(buf)
        return bytes(buf[:k])

    def truncate(self, size=None):
        s = self._sim
        if s is not None and s.active:
            f = s.op('f.truncate', self._label, size)
            if f is not None:
                if f['kind'] == 'crash':
                    os._exit(CRASH)
                s.fail(f)
        return io.FileIO.truncate(self, size)

    def close(self):
        s = self._sim
        if self.closed or s is None or not s.active or self._closing:
            return io.FileIO.close(self)
        self._closing = True
        f = s.op('f.close', self._label, None)
        if f is not None and f['kind'] == 'crash':
            os._exit(CRASH)
        io.FileIO.close(self)        # Linux: the descriptor is gone in any case
        if f is not None:
            s.fail(f)


class SimIO:
    def __init__(self, root, plan=(), benign=0.0, seed=0, observer=None,
                 on_op=None):
        self.root = os.path.realpath(root)
        self.plan = {p['op']: p for p in plan}
        self.benign = benign
        self.rng = random.Random('io/%s' % (seed,))
        self.seed = seed
        self.n = 0
        self.ops = []
        self.active = False
        self.fired_kinds = {}
        self.pending = None
        self.observer = observer
        self.on_op = on_op
        self.fds = {}
        self.faulted = False
        self.raised = []           # errors the caller has been given

    # ------------------------------------------------------------------ events
    def fired(self, kind):
        self.fired_kinds[kind] = self.fired_kinds.get(kind, 0) + 1

    def rel(self, path):
        try:
            p = os.path.abspath(os.fspath(path))
        except TypeError:
            return '<fd>'
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return os.path.relpath(p, self.root) if self.inside(p) else p

    def inside(self, path):
        if isinstance(path, int):
            return path in self.fds
        try:
            p = os.path.abspath(os.fspath(path))
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return p == self.root or p.startswith(self.root + '/')

    def raise_pending(self):
        e = self.pending
        self.pending = None
        self.faulted = True
        self.raised.append(errno.errorcode[e])
        raise OSError(e, os.strerror(e))

    def fail(self, f):
        self.faulted = True
        self.raised.append(f.get('exc') or errno.errorcode[f['errno']])
        if f['kind'] == 'raise':
            raise EXC[f['exc']]()
        e = f['errno']
        raise OSError(e, os.strerror(e))

    def op(self, name, label, info):
        """One operation is about to happen.  Returns the fault to apply."""
        if self.observer is not None:
            self.observer(self, name, label)
        k = self.n
        self.n += 1
        self.ops.append((name, label, info))
        if self.on_op is not None:
            self.on_op(self, k, name, label)
        if self.pending is not None and name != 'f.close':
            self.fired('short+error')
            self.raise_pending()
        f = self.plan.get(k)
        if f is not None:
            self.fired(f['kind'] + (':' + errno.errorcode[f['errno']]
                                    if f.get('errno') else ''))
        return f

    # ----------------------------------------------------------------- patching
    def __enter__(self):
        self.saved_os = {}
        for name in MUTATING + OTHER:
            if hasattr(os, name):
                self.saved_os[name] = getattr(os, name)
        self.saved_open = builtins.open
        self.saved_io_open = io.open
        real = self.saved_os

        def wrap(name):
            fn = real[name]

            def call(*a, **kw):
                if not self.active or not a:
                    return fn(*a, **kw)
                dirfd = [v for k, v in kw.items()
                         if k.endswith('dir_fd') and v is not None]
                two = name in TWO_PATHS and len(a) > 1
                if not (dirfd or self.inside(a[0]) or (two and self.inside(a[1]))):
                    return fn(*a, **kw)
                label = self.rel(a[0]) if not dirfd else a[0]
                if two:
                    label = (label, self.rel(a[1]))
                if name == 'open':
                    flags = a[1] if len(a) > 1 else kw.get('flags', 0)
                    if not flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
                        fd = fn(*a, **kw)     # directories, for reading
                        return fd
                f = self.op(name, label, None)
                if f is not None:
                    k = f['kind']
                    if k == 'crash':
                        os._exit(CRASH)
                    if k == 'after' and name != 'write':
                        r = fn(*a, **kw)
                        self.fail(f)
                    if k == 'short':
                        if name == 'write':
                            n = int(len(a[1]) * f.get('frac', 0))
                            self.pending = f['errno']
                            if n:
                                return fn(a[0], bytes(a[1])[:n])
                        self.pending = None
                    self.fail(f)
                if name == 'write' and self.benign and len(a[1]) > 1 \
                        and self.rng.random() < self.benign:
                    self.fired('short_write')
                    return fn(a[0], bytes(a[1])[:self.rng.randint(1, len(a[1]) - 1)])
                r = fn(*a, **kw)
                if name == 'open':
                    self.fds[r] = a[0]
                if name == 'close':
                    self.fds.pop(a[0], None)
                return r
            return call
        for name in self.saved_os:
            setattr(os, name, wrap(name))
        # (sendfile & co. only see descriptors of our files)
        builtins.open = io.open = self.open
        import tempfile
        self.tempfile = tempfile
        self.saved_seq = tempfile._name_sequence
        r = random.Random('tmp/%s' % (self.seed,))

        class Seq:
            def __iter__(s):
                return s

            def __next__(s):
                return ''.join(r.choice('abcdefghijklmnopqrstuvwxyz0123456789_')
                               for _ in range(8))
        tempfile._name_sequence = Seq()
        self.active = True
        return self

    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
        if not self.active or not self.inside(file):
            return self.saved_open(file, mode, buffering, encoding, errors, newline,
                                   closefd, opener)
        raw_mode = ''.join(c for c in mode if c in 'rwxa+')
        binary = 'b' in mode
        if not isinstance(file, int):
            f = self.op('open:' + raw_mode, self.rel(file), None)
            if f is not None:
                if f['kind'] == 'crash':
                    os._exit(CRASH)
                if f['kind'] in ('after', 'short'):
                    # the file was created or truncated, yet the open failed
                    SimRaw(self, file, raw_mode, closefd, opener)._sim = None
                    self.pending = None
                self.fail(f)
        was = self.active
        self.active = False         # the opener's own os.open is part of this op
        try:
            raw = SimRaw(self, file, raw_mode, closefd, opener)
        finally:
            self.active = was
        if buffering == 0:
            return raw
        if '+' in mode:
            buf = io.BufferedRandom(raw)
        elif 'r' in mode:
            buf = io.BufferedReader(raw)
        else:
            buf = io.BufferedWriter(raw)
        if binary:
            return buf
        return io.TextIOWrapper(buf, encoding, errors, newline,
                                line_buffering=buffering == 1)

    def stop(self):
        self.active = False

    def __exit__(self, *a):
        self.active = False
        for name, fn in self.saved_os.items():
            setattr(os, name, fn)
        builtins.open = self.saved_open
        io.open = self.saved_io_open
        self.tempfile._name_sequence = self.saved_seq


# ------------------------------------------------------------- looking at files


def tree(root):
    """Everything below root: {relative path: ('f', bytes, mode) | ...}."""
    out = {}
    for d, dirs, files in os.walk(root):
        for n in dirs + files:
            p = os.path.join(d, n)
            r = os.path.relpath(p, root)
            if os.path.islink(p):
                out[r] = ('l', os.readlink(p))
            elif os.path.isdir(p):
                out[r] = ('d',)
            else:
                with open(p, 'rb') as f:
                    out[r] = ('f', f.read(), os.stat(p).st_mode & 0o777)
    return out


def read(path):
    try:
        with open(path, 'rb') as f:
            return f.read()
    except FileNotFoundError:
        return None


# ------------------------------------------------------------------ DXF reader


class BadDXF(Exception):
    pass


def dxf_outlines(data):
    """Outlines (lists of (x, y)) in the model space of an ASCII DXF file, by an
    independent reader of the group codes.  Raises BadDXF if incomplete."""
    text = data.decode('latin-1')
    lines = text.split('\n')
    if lines and lines[-1] == '':
        lines.pop()
    lines = [x.rstrip('\r') for x in lines]
    if len(lines) % 2:
        raise BadDXF('odd number of lines')
    tags = []
    for i in range(0, len(lines), 2):
        try:
            code = int(lines[i])
        except ValueError:
            raise BadDXF('no group code in line %d' % (i + 1))
        tags.append((code, lines[i + 1].strip()))
    if not tags or tags[-1] != (0, 'EOF'):
        raise BadDXF('no EOF')
    section = None
    out = []
    ents = []
    i = 0
    depth = 0
    while i < len(tags):
        c, v = tags[i]
        if c == 0 and v == 'SECTION':
            if depth:
                raise BadDXF('nested section')
            depth = 1
            section = tags[i + 1][1] if tags[i + 1][0] == 2 else None
        elif c == 0 and v == 'ENDSEC':
            if not depth:
                raise BadDXF('ENDSEC')
            depth = 0
            section = None
        elif c == 0 and section == 'ENTITIES':
            j = i + 1
            while tags[j][0] != 0:
                j += 1
            ents.append((v, tags[i + 1:j]))
            i = j
            continue
        i += 1
    if depth:
        raise BadDXF('section not closed')
    k = 0
    while k < len(ents):
        kind, body = ents[k]
        k += 1
        if kind == 'LWPOLYLINE':
            pts = []
            for c, v in body:
                if c == 10:
                    pts.append([float(v), None])
                elif c == 20:
                    pts[-1][1] = float(v)
                elif c == 42 and float(v) != 0:
                    raise BadDXF('bulge')
            closed = [int(v) for c, v in body if c == 70]
            out.append(_closed(pts, closed and closed[0] & 1))
        elif kind == 'POLYLINE':
            flag = [int(v) for c, v in body if c == 70]
            pts = []
            while k < len(ents) and ents[k][0] == 'VERTEX':
                d = dict(ents[k][1])
                pts.append([float(d[10]), float(d[20])])
                k += 1
            out.append(_closed(pts, flag and flag[0] & 1))
        elif kind in ('SEQEND',):
            pass
        else:
            out.append((kind, None))
    return out


def _closed(pts, closed):
    pts = [tuple(p) for p in pts]
    for p in pts:
        if p[1] is None or p[0] != p[0] or p[1] != p[1]:
            return ('nan', pts)
    if len(pts) > 1 and pts[0] == pts[-1]:
        return ('loop', pts[:-1])
    return ('loop' if closed else 'open', pts)
