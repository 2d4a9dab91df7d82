"""The other seams: virtual clock, random source, external programs."""
import os, sys, time, io, subprocess, datetime as _dt, random


class Clock(object):
    """Virtual wall clock: starts anywhere, advances only when told, may jump."""
    def __init__(self, rng, ctx, start=1.6e9, jump_p=0.05):
        self.rng, self.ctx, self.t, self.mono, self.jump_p = rng, ctx, start, 0.0, jump_p

    def tick(self, dt=0.001):
        self.t += dt; self.mono += dt
        self.ctx.sim_time += dt
        if self.jump_p and self.rng.random() < self.jump_p:
            d = self.rng.choice([-86400.0 * 400, -3600.0, -1.0, 0.5, 7200.0, 86400.0 * 366])
            self.t = max(1.0, self.t + d)
            self.ctx.fault('clock_jump')

    def __enter__(self):
        clk = self

        class FakeDateTime(_dt.datetime):
            @classmethod
            def now(cls, tz=None):
                clk.tick(); return cls.fromtimestamp(clk.t, tz)

            @classmethod
            def today(cls):
                clk.tick(); return cls.fromtimestamp(clk.t)

            @classmethod
            def utcnow(cls):
                clk.tick(); return cls.utcfromtimestamp(clk.t)

        class FakeDate(_dt.date):
            @classmethod
            def today(cls):
                clk.tick(); return cls.fromtimestamp(clk.t)
        real = dict(time=time.time, perf_counter=time.perf_counter, monotonic=time.monotonic, sleep=time.sleep,
                    process_time=time.process_time, time_ns=time.time_ns, perf_counter_ns=time.perf_counter_ns, monotonic_ns=time.monotonic_ns,
                    localtime=time.localtime, gmtime=time.gmtime, ctime=time.ctime, asctime=time.asctime, strftime=time.strftime)
        def f_time(): clk.tick(); return clk.t
        def f_mono(): clk.tick(); return clk.mono
        def f_sleep(s): clk.tick(max(0.0, s))
        new = dict(time=f_time, perf_counter=f_mono, monotonic=f_mono, process_time=f_mono, sleep=f_sleep,
                   time_ns=lambda: int(f_time() * 1e9), perf_counter_ns=lambda: int(f_mono() * 1e9), monotonic_ns=lambda: int(f_mono() * 1e9),
                   localtime=lambda s=None: real['localtime'](f_time() if s is None else s), gmtime=lambda s=None: real['gmtime'](f_time() if s is None else s),
                   ctime=lambda s=None: real['ctime'](f_time() if s is None else s),
                   asctime=lambda t=None: real['asctime'](real['localtime'](f_time()) if t is None else t),
                   strftime=lambda f, t=None: real['strftime'](f, real['localtime'](f_time()) if t is None else t))
        self.undo = []
        for k, v in new.items():
            self.undo.append((time, k, getattr(time, k))); setattr(time, k, v)
        self.undo.append((_dt, 'datetime', _dt.datetime)); 
        real_dt = _dt.datetime
        self.undo.append((_dt, 'date', _dt.date))
        real_date = _dt.date
        _dt.datetime, _dt.date = FakeDateTime, FakeDate
        for name, mod in list(sys.modules.items()):
            if not name.startswith('SUAVE') or mod is None: continue
            d = getattr(mod, '__dict__', {})
            for k, v in list(d.items()):
                if v is real_dt:
                    self.undo.append((mod, k, v)); setattr(mod, k, FakeDateTime)
                elif v is real_date:
                    self.undo.append((mod, k, v)); setattr(mod, k, FakeDate)
                else:
                    for nm, fn in real.items():
                        if v is fn:
                            self.undo.append((mod, k, v)); setattr(mod, k, new[nm])
        return self

    def __exit__(self, *a):
        for o, k, v in reversed(self.undo): setattr(o, k, v)
        return False


class Programs(object):
    """External programs behind subprocess.  handler(argv, stdin_text, out_write, err_write) -> exit code;
    it may raise OSError to say that the program cannot be started."""
    def __init__(self, ctx, handler):
        self.ctx, self.handler = ctx, handler
        self.started = 0
        self.waiting = set()

    def launch(self, args, kw):
        if isinstance(args, (str, bytes)):
            args = args.split() if isinstance(args, str) else [args]
        argv = [os.fspath(a) for a in args]
        self.started += 1
        return argv

    def __enter__(self):
        progs = self

        class FakePopen(object):
            def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None, *a, **kw):
                self.args = args
                self.returncode = None
                self.pid = 40000 + progs.started
                self.kw = kw
                self.text = bool(kw.get('text') or kw.get('universal_newlines') or kw.get('encoding'))
                self.argv = progs.launch(args, kw)
                self._cwd = kw.get('cwd')
                progs.handler.check_start(self.argv, self._cwd)
                for s in (stdout, stderr):
                    if s is not None and not isinstance(s, int): s.fileno()
                self.stdin = None
                self._in = io.BytesIO()
                if stdin == subprocess.PIPE:
                    self.stdin = _In(self, self.text)
                elif stdin is not None and not isinstance(stdin, int):
                    data = stdin.read()
                    self._in.write(data if isinstance(data, bytes) else data.encode())
                self._pout = stdout == subprocess.PIPE
                self._perr = stderr == subprocess.PIPE
                self.stdout = None; self.stderr = None
                self._result = None
                progs.waiting.add(id(self))

            def _finish(self):
                if self.returncode is None:
                    out, err = [], []
                    here = os.getcwd()
                    if self._cwd: os.chdir(self._cwd)
                    try:
                        self.returncode = progs.handler.execute(self.argv, self._in.getvalue().decode('utf-8', 'replace'), out, err)
                    except KeyboardInterrupt:           # the child got the same signal; subprocess reaps it before it passes the interrupt on
                        self.returncode = -2
                        self._out = self._err = ''
                        progs.waiting.discard(id(self))
                        raise
                    finally:
                        if self._cwd: os.chdir(here)
                    self._out, self._err = ''.join(out), ''.join(err)
                    progs.waiting.discard(id(self))
                    if self._pout: self.stdout = io.StringIO(self._out) if self.text else io.BytesIO(self._out.encode())
                    if self._perr: self.stderr = io.StringIO(self._err) if self.text else io.BytesIO(self._err.encode())

            def communicate(self, input=None, timeout=None):
                if input is not None:
                    self._in.write(input if isinstance(input, bytes) else input.encode())
                self._finish()
                conv = (lambda s: s) if self.text else (lambda s: s.encode())
                return (conv(self._out) if self._pout else None, conv(self._err) if self._perr else None)

            def wait(self, timeout=None):
                self._finish(); return self.returncode

            def poll(self):
                self._finish(); return self.returncode

            def kill(self):
                self.returncode = -9 if self.returncode is None else self.returncode
                progs.waiting.discard(id(self))
            terminate = kill

            def send_signal(self, s): self.kill()

            def __enter__(self): return self

            def __exit__(self, *a):
                if self.stdin is not None: self.stdin.close()
                self.wait()

        class _In(object):
            def __init__(self, p, text): self.p, self.text, self.closed = p, text, False
            def write(self, data):
                b = data if isinstance(data, bytes) else data.encode()
                if progs.handler.broken_pipe(self.p.argv): raise BrokenPipeError(32, 'Broken pipe')
                self.p._in.write(b); return len(data)
            def flush(self): pass
            def close(self): self.closed = True

        def call(*a, **kw):
            timeout = kw.pop('timeout', None)
            with FakePopen(*a, **kw) as p:
                return p.wait()

        def check_call(*a, **kw):
            rc = call(*a, **kw)
            if rc: raise subprocess.CalledProcessError(rc, a[0] if a else kw.get('args'))
            return 0

        def run(*a, **kw):
            inp, chk, cap = kw.pop('input', None), kw.pop('check', False), kw.pop('capture_output', False)
            kw.pop('timeout', None)
            if cap: kw['stdout'] = kw['stderr'] = subprocess.PIPE
            if inp is not None: kw['stdin'] = subprocess.PIPE
            with FakePopen(*a, **kw) as p:
                o, e = p.communicate(inp)
            if chk and p.returncode: raise subprocess.CalledProcessError(p.returncode, a[0], o, e)
            return subprocess.CompletedProcess(a[0] if a else kw.get('args'), p.returncode, o, e)

        def check_output(*a, **kw):
            kw['stdout'] = subprocess.PIPE
            return run(*a, check=True, **kw).stdout

        def system(cmd):
            with FakePopen(cmd, shell=True) as p: return p.wait() << 8
        self.undo = []
        new = dict(Popen=FakePopen, call=call, check_call=check_call, run=run, check_output=check_output)
        old = {k: getattr(subprocess, k) for k in new}
        for k, v in new.items():
            self.undo.append((subprocess, k, old[k])); setattr(subprocess, k, v)
        self.undo.append((os, 'system', os.system)); os.system = system
        for name, mod in list(sys.modules.items()):
            if not name.startswith('SUAVE') or mod is None: continue
            d = getattr(mod, '__dict__', {})
            for k, v in list(d.items()):
                for nm, fn in old.items():
                    if v is fn:
                        self.undo.append((mod, k, v)); setattr(mod, k, new[nm])
        return self

    def __exit__(self, *a):
        for o, k, v in reversed(self.undo): setattr(o, k, v)
        return False


class Program(object):
    """Base for stubs of external programs."""
    def check_start(self, argv, cwd=None): pass
    def broken_pipe(self, argv): return False
    def execute(self, argv, stdin, out, err): return 0


class Randomness(object):
    """Seeds the global generators and, with probability q per drawn element, replaces a uniform draw by an
    extreme one (0 or the largest double below 1), the draws a sampled test practically never sees."""
    EDGE = [0.0, 1.0 - 2.0 ** -53, 0.5, 2.0 ** -53]

    def __init__(self, rng, ctx, seed, q=0.0):
        self.rng, self.ctx, self.seed, self.q = rng, ctx, seed, q

    def __enter__(self):
        import numpy as np
        np.random.seed(self.seed & 0xffffffff)
        random.seed(self.seed)
        self.undo = []
        if self.q:
            def edge(a):
                b = np.array(a, dtype=float)
                flat = b.reshape(-1)
                for k in range(flat.size):
                    if self.rng.random() < self.q:
                        flat[k] = self.rng.choice(self.EDGE); self.ctx.fault('extreme_random_draw')
                return b if np.ndim(a) else float(b)
            o_rand, o_uni = np.random.rand, np.random.uniform
            o_rs, o_r = np.random.random_sample, np.random.random
            o_shuf = np.random.shuffle
            def rand(*s): return edge(o_rand(*s))
            def rs(size=None): return edge(o_rs(size))
            def uniform(low=0.0, high=1.0, size=None):
                if size is None: size = np.broadcast(np.asarray(low), np.asarray(high)).shape or None
                return np.asarray(low) + (np.asarray(high) - np.asarray(low)) * edge(o_rs(size)) if size is not None \
                    else low + (high - low) * edge(o_rs())
            def shuffle(x):
                if self.rng.random() < self.q * 3:
                    self.ctx.fault('extreme_shuffle')
                    k = self.rng.choice(['id', 'rev', 'rot'])
                    if k == 'id': return
                    c = np.array(x)
                    x[:] = c[::-1] if k == 'rev' else np.roll(c, 1, axis=0)
                    return
                o_shuf(x)
            for k, v in dict(rand=rand, uniform=uniform, random_sample=rs, random=rs, shuffle=shuffle).items():
                self.undo.append((np.random, k, getattr(np.random, k))); setattr(np.random, k, v)
        return self

    def __exit__(self, *a):
        for o, k, v in reversed(self.undo): setattr(o, k, v)
        return False
