"""The simulated disk: every file operation of the code under test on files inside the scratch root goes
through this seam, where a planned fault can make it fail, write short, or kill the process.

Real files in the scratch folder hold the durable state.  Raw writes are intercepted below Python's own
buffering, so a crash loses exactly what had not been handed to the operating system."""
import os, io, sys, errno, builtins, shutil
from .core import CURRENT

ERR = dict(ENOSPC=errno.ENOSPC, EIO=errno.EIO, EACCES=errno.EACCES, EMFILE=errno.EMFILE, EROFS=errno.EROFS,
           EDQUOT=errno.EDQUOT, EPERM=errno.EPERM)

ORIG = dict(open=builtins.open, io_open=io.open)
OS_PATH1 = ['remove', 'unlink', 'mkdir', 'rmdir', 'truncate', 'chmod', 'utime']
OS_PATH2 = ['rename', 'replace', 'symlink', 'link']


class SimFileIO(io.FileIO):
    def __init__(self, fs, path, mode, *a, **kw):
        self._fs = fs
        self._rel = fs.rel(path)
        io.FileIO.__init__(self, path, mode, *a, **kw)
        self._sim_closed, self._pending = False, None
        fs.opened(self)

    def write(self, b):
        data = bytes(b)
        if self._pending:
            kind, self._pending = self._pending, None
            self._fs.nraised += 1
            raise OSError(ERR[kind], os.strerror(ERR[kind]), self._rel)
        act = self._fs.point('write', self._rel, len(data))
        if act is None:
            return io.FileIO.write(self, data)
        kind, f = act
        keep = int(len(data) * f.get('frac', 0.5))
        if kind == 'short':                       # a short write: the caller has to write the rest
            keep = max(1, min(len(data), keep or 1))
            return io.FileIO.write(self, data[:keep])
        if kind == 'crash':
            io.FileIO.write(self, data[:keep])
            self._fs.ctx.crash()
        self._fs.nraised += 1
        if kind == 'KeyboardInterrupt':           # EINTR before any byte, handler raised
            raise KeyboardInterrupt()
        if kind in ('ENOSPC', 'EDQUOT') and 0 < keep < len(data):
            self._pending = kind                  # the first bytes fit, the next write fails
            return io.FileIO.write(self, data[:keep])
        raise OSError(ERR[kind], os.strerror(ERR[kind]), self._rel)

    def _rd(self):
        act = self._fs.point('read', self._rel)
        if act is not None:
            self._fs.raise_(act, self._rel)

    def readinto(self, b):
        self._rd()
        return io.FileIO.readinto(self, b)

    def readall(self):
        self._rd()
        return io.FileIO.readall(self)

    def truncate(self, *a):
        act = self._fs.point('truncate', self._rel)
        if act is not None:
            self._fs.raise_(act, self._rel)
        return io.FileIO.truncate(self, *a)

    def close(self):
        first = not self.closed
        io.FileIO.close(self)
        if first and not getattr(self, '_sim_closed', True):
            self._sim_closed = True
            self._fs.closed(self)
            if self.writable_mode:
                act = self._fs.point('close', self._rel)
                if act is not None:
                    self._fs.raise_(act, self._rel)

    @property
    def writable_mode(self):
        return any(c in self._mode for c in 'wax+')


class SimFS(object):
    """Install with `with SimFS(ctx, root, faults): ...`.

    faults: list of dicts {kind, op?, match?, at, times?, frac?}.  `at` counts the matching operations made
    while the disk is armed; `times` (default 1; -1 for ever) says how often the fault fires from then on."""

    def __init__(self, ctx, root, faults=(), armed=True, log=True):
        self.ctx, self.root = ctx, os.path.realpath(root)
        self.faults = [dict(f) for f in faults]
        for f in self.faults:
            f.setdefault('times', 1); f['seen'] = 0; f['fired'] = 0
        self.armed, self.logging = armed, log
        self.full = False
        self.handles = {}
        self.nops = 0
        self.nraised = 0
        self.fds = {}
        self.trace = []
        self.quiet = 0

    # ------------------------------------------------------------------ scope
    def inside(self, path):
        try:
            p = os.fspath(path)
        except TypeError:
            return False
        if isinstance(p, bytes): p = os.fsdecode(p)
        p = os.path.normpath(os.path.join(self.cwd(), p))
        return p == self.root or p.startswith(self.root + os.sep)

    def cwd(self):
        try: return os.getcwd()
        except OSError: return self.root

    def rel(self, path):
        p = os.fspath(path) if not isinstance(path, int) else self.fds.get(path, '<fd>')
        if isinstance(p, bytes): p = os.fsdecode(p)
        p = os.path.normpath(os.path.join(self.cwd(), p))
        r = p[len(self.root) + 1:] if p.startswith(self.root + os.sep) else ('.' if p == self.root else p)
        return r

    # ------------------------------------------------------------------ fault decision
    def point(self, op, rel, size=None):
        """One interceptable operation. Returns None or (kind, fault)."""
        if not self.armed or self.quiet:
            return None
        self.nops += 1
        self.trace.append((op, rel))
        for f in self.faults:
            if f.get('op') and op not in f['op'].split('|'): continue
            if f.get('match') and f['match'] not in rel: continue
            f['seen'] += 1
            if f['seen'] <= f['at']: continue
            if f['times'] >= 0 and f['fired'] >= f['times']: continue
            f['fired'] += 1
            self.ctx.fault('%s@%s' % (f['kind'], op))
            self.ctx.log('FAULT', f['kind'], op, rel if self.logging else '')
            return (f['kind'], f)
        return None

    def raise_(self, act, rel):
        kind, f = act
        if kind == 'crash':
            self.ctx.crash()
        if kind == 'short':
            return
        self.nraised += 1
        if kind == 'KeyboardInterrupt':
            raise KeyboardInterrupt()
        raise OSError(ERR[kind], os.strerror(ERR[kind]), rel)

    def heal(self):
        self.faults = []

    # ------------------------------------------------------------------ handles
    def opened(self, f):
        self.handles[id(f)] = f._rel

    def closed(self, f):
        self.handles.pop(id(f), None)

    def open_files(self):
        return sorted(self.handles.values())

    # ------------------------------------------------------------------ open
    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if isinstance(file, int):
            if file not in self.fds:
                return ORIG['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
        elif not self.inside(file) or not isinstance(mode, str):
            return ORIG['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
        binary = 'b' in mode
        raw_mode = mode.replace('b', '').replace('t', '').replace('U', '')
        if not isinstance(file, int):
            rel = self.rel(file)
            act = self.point('open-w' if any(c in raw_mode for c in 'wax+') else 'open-r', rel)
            if act is not None:
                self.raise_(act, rel)
        raw = SimFileIO(self, file, raw_mode, closefd=closefd, opener=opener)
        raw._mode = raw_mode
        if buffering == 0:
            if not binary: raise ValueError("can't have unbuffered text I/O")
            return raw
        line_buffering = buffering == 1
        bs = io.DEFAULT_BUFFER_SIZE if buffering in (-1, 1) else buffering
        if '+' in raw_mode:
            buf = io.BufferedRandom(raw, bs)
        elif raw_mode[0] in 'wax':
            buf = io.BufferedWriter(raw, bs)
        else:
            buf = io.BufferedReader(raw, bs)
        if binary:
            return buf
        text = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering)
        text.mode = mode
        return text

    # ------------------------------------------------------------------ os functions
    def _wrap1(self, name):
        orig = self.saved['os.' + name]

        def f(path, *a, **kw):
            if kw.get('dir_fd') is None and not isinstance(path, int) and self.inside(path):
                rel = self.rel(path)
                act = self.point(name, rel)
                if act is not None: self.raise_(act, rel)
            elif kw.get('dir_fd') is not None:
                act = self.point(name, '<dirfd>/' + str(path))
                if act is not None: self.raise_(act, str(path))
            return orig(path, *a, **kw)
        return f

    def _wrap2(self, name):
        orig = self.saved['os.' + name]

        def f(src, dst, *a, **kw):
            if self.inside(dst) or (name in ('rename', 'replace') and self.inside(src)):
                rel = self.rel(dst)
                act = self.point(name, rel)
                if act is not None: self.raise_(act, rel)
            return orig(src, dst, *a, **kw)
        return f

    def __enter__(self):
        self.saved = {}

        def put(obj, name, val):
            key = getattr(obj, '__name__', str(obj)) + '.' + name
            self.saved[key] = getattr(obj, name)
            self._undo.append((obj, name, getattr(obj, name)))
            setattr(obj, name, val(self.saved[key]) if callable(val) and getattr(val, '_factory', False) else val)
        self._undo = []
        put(builtins, 'open', self.open)
        put(io, 'open', self.open)
        for n in OS_PATH1:
            self.saved['os.' + n] = getattr(os, n)
            put(os, n, self._wrap1(n))
        for n in OS_PATH2:
            self.saved['os.' + n] = getattr(os, n)
            put(os, n, self._wrap2(n))
        o_open, o_write, o_close, o_chdir, o_fsync = os.open, os.write, os.close, os.chdir, os.fsync

        def s_open(path, flags, mode=0o777, *, dir_fd=None):
            wr = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)
            if dir_fd is None and not isinstance(path, int) and self.inside(path) and wr:
                rel = self.rel(path)
                act = self.point('open-w', rel)
                if act is not None: self.raise_(act, rel)
                fd = o_open(path, flags, mode)
                self.fds[fd] = os.path.join(self.cwd(), os.fspath(path))
                return fd
            return o_open(path, flags, mode, dir_fd=dir_fd)

        def s_write(fd, data):
            if fd in self.fds:
                rel = self.rel(fd)
                act = self.point('write', rel, len(data))
                if act is not None:
                    if act[0] == 'short':
                        return o_write(fd, bytes(data)[:max(1, int(len(data) * act[1].get('frac', .5)))])
                    if act[0] in ('crash', 'ENOSPC', 'KeyboardInterrupt'):
                        o_write(fd, bytes(data)[:int(len(data) * act[1].get('frac', .5))])
                    self.raise_(act, rel)
            return o_write(fd, data)

        def s_close(fd):
            self.fds.pop(fd, None)
            return o_close(fd)

        def s_fsync(fd):
            act = self.point('fsync', 'fd')
            if act is not None: self.raise_(act, 'fd')
            return o_fsync(fd)

        def s_chdir(path):
            if not isinstance(path, int) and self.inside(path):
                rel = self.rel(path)
                act = self.point('chdir', rel)
                if act is not None: self.raise_(act, rel)
            return o_chdir(path)
        put(os, 'open', s_open); put(os, 'write', s_write); put(os, 'close', s_close)
        put(os, 'fsync', s_fsync); put(os, 'chdir', s_chdir)
        for n in ('_USE_CP_SENDFILE', '_HAS_FCOPYFILE', '_USE_CP_COPY_FILE_RANGE'):
            if hasattr(shutil, n): put(shutil, n, False)
        try:
            import numpy.lib.format as nf, numpy.lib._datasource as ds
            put(nf, 'isfileobj', lambda f: False)
            fo = ds._file_openers
            fo._load()
            self._np = (fo, dict(fo._file_openers))
            fo._file_openers[None] = self.open
        except ImportError:
            self._np = None
        return self

    def __exit__(self, *exc):
        for obj, name, val in reversed(self._undo):
            setattr(obj, name, val)
        if self._np:
            self._np[0]._file_openers.clear()
            self._np[0]._file_openers.update(self._np[1])
        return False


FAULT_KINDS_IO = ['ENOSPC', 'EIO', 'EACCES', 'EMFILE', 'EDQUOT', 'EROFS']


def gen_fault(rng, kinds=None, ops=None, max_at=6, match=None):
    """One planned fault, biased to early operations."""
    kinds = kinds or ['ENOSPC', 'EIO', 'crash', 'KeyboardInterrupt', 'short', 'EACCES']
    f = dict(kind=rng.choice(kinds), at=min(int(rng.expovariate(0.5)), max_at), frac=round(rng.random(), 3))
    if rng.random() < 0.15: f['frac'] = 0.0
    if rng.random() < 0.15: f['frac'] = 1.0
    if ops is not None:
        f['op'] = rng.choice(ops)
    elif rng.random() < 0.6:
        f['op'] = rng.choice(['write', 'open-w', 'close', 'write', 'write|close|rename|replace', 'rename|replace', 'remove|unlink'])
    if f['kind'] == 'short':
        f['op'] = 'write'; f['times'] = rng.choice([1, 3, -1])
    elif f['kind'] in ('ENOSPC', 'EDQUOT'):
        f['op'] = rng.choice(['write', 'write|open-w|mkdir', 'write'])
        f['times'] = rng.choice([1, -1, -1])
    elif f['kind'] == 'EMFILE':
        f['op'] = rng.choice(['open-w|open-r', 'open-r', 'open-w'])
    elif f['kind'] in ('EACCES', 'EROFS'):
        f['op'] = rng.choice(['open-w', 'remove|unlink|rename|replace', 'open-w|open-r', 'mkdir'])
        f['times'] = rng.choice([1, -1])
    elif f['kind'] == 'EIO':
        f['times'] = rng.choice([1, 1, -1])
    if match: f['match'] = match
    return f
