"""Core of the deterministic simulator: seeds, contexts, isolated runs, batches, minimisation, evidence.

One scenario (a JSON value generated from one seed) decides one run completely.  A run executes in a
forked child with its own scratch folder, so neither process state nor files leak between runs; inside a
run every *session* (process incarnation) is a further fork, so a simulated crash is a real loss of all
volatile state (os._exit with unflushed buffers) with only the scratch files surviving.
"""
import os, sys, json, time, random, hashlib, pickle, struct, signal, select, shutil, tempfile, traceback, copy, gc, io

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
SUAVE_DIR = os.path.realpath('/repo/trunk/SUAVE') + os.sep
CRASH_EXIT = 99


class Violation(Exception):
    """The property is broken in this run."""
    def __init__(self, kind, detail='', key=None):
        Exception.__init__(self, kind, detail, key)
        self.kind, self.detail, self.key = kind, detail, key or kind

    def __str__(self):
        return '%s: %s' % (self.kind, self.detail)


class Injected(Exception):
    """Base of every exception the simulated model raises; the concrete classes also derive from the error they stand for."""


ERRORS = ['Exception', 'ValueError', 'ZeroDivisionError', 'FloatingPointError', 'KeyError', 'IndexError', 'TypeError', 'AttributeError',
          'RuntimeError', 'AssertionError', 'NotImplementedError', 'OSError', 'OverflowError', 'LinAlgError']
_injected = {}


def injected(name, text='injected'):
    """An exception of the named kind, recognisable as injected (isinstance Injected)."""
    if name not in _injected:
        if name == 'LinAlgError': from numpy.linalg import LinAlgError as base
        else:
            import builtins
            base = getattr(builtins, name)
        _injected[name] = Injected if base is Exception else type('Injected' + name, (Injected, base), {})
    return _injected[name](text)


def is_injected(e):
    """True when e, or an exception it was raised from, was injected."""
    n = 0
    while e is not None and n < 20:
        if isinstance(e, Injected): return True
        e = e.__cause__ or e.__context__; n += 1
    return False


class HarnessError(Exception):
    """The check itself went wrong: neither held nor broken."""


def derive(seed, *parts):
    h = hashlib.sha256(repr((int(seed),) + parts).encode()).digest()
    return int.from_bytes(h[:8], 'big')


def rng_for(seed, *parts):
    return random.Random(derive(seed, *parts))


# ------------------------------------------------------------------------------------------ context
class Ctx(object):
    """Event log, counters and fault bookkeeping of one run."""
    def __init__(self, scn, root):
        self.scn, self.root = scn, root
        self.events = []
        self.hash = hashlib.sha256()
        self.faults, self.probes, self.states = {}, {}, set()
        self.sim_time, self.steps = 0.0, 0
        self.depth = 0

    def log(self, *what):
        s = ' '.join(canon(w) for w in what)
        if self.root in s:
            s = s.replace(self.root, '<root>')
        self.hash.update(s.encode('utf-8', 'replace') + b'\n')
        self.steps += 1
        if len(self.events) < 4000:
            self.events.append(s if len(s) < 400 else s[:400] + '...')

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def state(self, *s):
        self.states.add(hashlib.sha1(repr(s).encode()).hexdigest()[:16])

    def snapshot(self):
        return dict(events=self.events, hash=self.hash.hexdigest(), faults=self.faults, probes=self.probes,
                    states=self.states, sim_time=self.sim_time, steps=self.steps)

    # -- process incarnations -------------------------------------------------------------
    def session(self, fn, *args, **kw):
        """Run fn in a new process incarnation. Returns ('ok', value) | ('exc', (type, message)) |
        ('violation', v) | ('crash', None).  Only files survive it."""
        timeout = kw.pop('timeout', 600)
        sys.stdout.flush(); sys.stderr.flush()
        r, w = os.pipe()
        self.depth += 1
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                sub = Ctx(self.scn, self.root)
                sub.depth = self.depth
                sub._pipe = w
                CURRENT[0] = sub
                try:
                    res = ('ok', fn(sub, *args))
                except Violation as v:
                    res = ('violation', (v.kind, v.detail, v.key))
                except HarnessError as e:
                    res = ('harness', str(e))
                except BaseException as e:
                    res = classify(e)
                sub.ship(res)
            except BaseException:
                try:
                    os.write(2, traceback.format_exc().encode())
                finally:
                    os._exit(98)
            os._exit(0)
        os.close(w)
        self.depth -= 1
        raw = read_all(r, timeout, pid)
        os.close(r)
        _, st = os.waitpid(pid, 0)
        if raw is None:
            raise Violation('hang', 'a session did not finish')
        code = os.waitstatus_to_exitcode(st)
        if not raw:
            raise HarnessError('session ended with %s and no report' % code)
        try:
            res, snap = pickle.loads(raw)
        except Exception as e:
            raise HarnessError('unreadable session report: %r' % e)
        self.merge(snap)
        if res[0] == 'violation':
            raise Violation(*res[1])
        if res[0] == 'harness':
            raise HarnessError(res[1])
        if code == CRASH_EXIT:
            return ('crash', None)
        if code != 0:
            raise HarnessError('session exit code %s' % code)
        return res

    def merge(self, snap):
        self.events.extend(snap['events'][:4000 - len(self.events)])
        self.hash.update(snap['hash'].encode())
        for k, v in snap['faults'].items(): self.fault(k, v)
        for k, v in snap['probes'].items(): self.probe(k, v)
        self.states |= snap['states']
        self.sim_time += snap['sim_time']; self.steps += snap['steps']

    def ship(self, res):
        data = pickle.dumps((res, self.snapshot()))
        view = memoryview(data)
        while len(view):
            view = view[RAW_WRITE(self._pipe, view):]
        os.close(self._pipe)

    def crash(self):
        """The process dies here: nothing volatile survives."""
        self.ship(('crash', None))
        os._exit(CRASH_EXIT)


RAW_WRITE = os.write
CURRENT = [None]


def canon(x):
    """Stable text for logs: never an address, never the order of a set."""
    if isinstance(x, str): return x
    if isinstance(x, float): return repr(x)
    if isinstance(x, (set, frozenset)): return '{' + ','.join(sorted(map(canon, x))) + '}'
    if isinstance(x, dict): return '{' + ','.join('%s:%s' % (canon(k), canon(x[k])) for k in x) + '}'
    if isinstance(x, (list, tuple)): return '[' + ','.join(map(canon, x)) + ']'
    if isinstance(x, BaseException): return type(x).__name__
    if hasattr(x, 'tolist'): return canon(x.tolist())
    if isinstance(x, (int, bool, type(None), bytes)): return repr(x)
    return type(x).__name__


def in_suave(tb):
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if os.path.realpath(f).startswith(SUAVE_DIR):
            return True
        tb = tb.tb_next
    return False


def where(tb):
    name = '?'
    while tb is not None:
        f = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if f.startswith(SUAVE_DIR):
            name = f[len(SUAVE_DIR):] + ':' + tb.tb_frame.f_code.co_name
        tb = tb.tb_next
    return name


def classify(e):
    """An exception that escaped a check: from the code under test it is a violation, else our error."""
    if isinstance(e, Violation):
        return ('violation', (e.kind, e.detail, e.key))
    if in_suave(e.__traceback__):
        w = where(e.__traceback__)
        return ('violation', ('unexpected-exception', '%s: %s in %s' % (type(e).__name__, str(e)[:300], w),
                              'unexpected-exception:%s:%s' % (type(e).__name__, w)))
    return ('harness', ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:])


def read_all(fd, timeout, pid):
    out, end = [], time.monotonic() + timeout
    while True:
        left = end - time.monotonic()
        if left <= 0:
            try: os.kill(pid, signal.SIGKILL)
            except OSError: pass
            return None
        ready, _, _ = select.select([fd], [], [], min(left, 5.0))
        if ready:
            b = os.read(fd, 1 << 20)
            if not b: return b''.join(out)
            out.append(b)


# ------------------------------------------------------------------------------------------ one run
SCRATCH = None


def scratch_base():
    global SCRATCH
    if SCRATCH is None:
        base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else tempfile.gettempdir()
        SCRATCH = os.path.realpath(tempfile.mkdtemp(prefix='suave_sim_', dir=base))
    return SCRATCH


def drop_scratch():
    global SCRATCH
    if SCRATCH is not None:
        shutil.rmtree(SCRATCH, ignore_errors=True)
        SCRATCH = None


_counter = [0]


def run_isolated(check, scn, timeout):
    """Execute one scenario in a forked child. Returns dict(status, ...)."""
    _counter[0] += 1
    root = os.path.join(scratch_base(), 'r%d_%d' % (os.getpid(), _counter[0]))
    os.mkdir(root)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.setpgid(0, 0)
            os.close(r)
            dn = os.open(os.devnull, os.O_RDWR)
            for fd in (0, 1):
                os.dup2(dn, fd)
            if not os.environ.get('VSIM_DEBUG'):
                os.dup2(dn, 2)
            sys.stdout = sys.__stdout__ = open(1, 'w', closefd=False)
            sys.stderr = sys.__stderr__ = open(2, 'w', closefd=False)
            os.chdir(root)
            random.seed(scn['seed'] & 0xffffffff)
            try:
                import numpy
                numpy.random.seed(scn['seed'] & 0xffffffff)
            except ImportError:
                pass
            ctx = Ctx(scn, root)
            ctx._pipe = w
            CURRENT[0] = ctx
            try:
                check.run(scn, ctx)
                res = ('ok', None)
            except Violation as v:
                res = ('violation', (v.kind, v.detail, v.key))
            except HarnessError as e:
                res = ('harness', str(e))
            except BaseException as e:
                res = classify(e)
            ctx.ship(res)
        except BaseException:
            os.write(2, traceback.format_exc().encode())
            code = 97
        os._exit(code)
    os.close(w)
    raw = read_all(r, timeout, pid)
    os.close(r)
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    _, st = os.waitpid(pid, 0)
    shutil.rmtree(root, ignore_errors=True)
    if raw is None:
        return dict(status='hang', kind='hang', detail='run exceeded %ds' % timeout, key='hang', snap=None)
    if not raw:
        return dict(status='harness', detail='run died with status %s' % st, snap=None)
    res, snap = pickle.loads(raw)
    out = dict(status=res[0], snap=snap)
    if res[0] == 'violation':
        out['kind'], out['detail'], out['key'] = res[1]
    elif res[0] != 'ok':
        out['detail'] = res[1]
    return out


# ------------------------------------------------------------------------------------------ check base
class Check(object):
    prop = None
    title = ''
    n_quick, n_thorough = 200, 4000
    timeout = 120
    self_runs = 6                                    # runs of a quick check made again in another interpreter
    budget_quick, budget_thorough = 420, 3000        # wall seconds after which no new run starts
    rule = ''
    real, stub = [], []
    assumptions = []
    technique = 'deterministic simulation with fault injection (seeded search)'

    def setup(self):
        pass

    def gen(self, rng, tier, i):
        raise NotImplementedError

    def run(self, scn, ctx):
        raise NotImplementedError

    def nontrivial(self, scn, snap):
        return bool(snap['faults']) or snap['steps'] > 3

    def shrink(self, scn):
        """Candidate simplifications beyond dropping operations."""
        return []


def make_scenario(check, seed, i, tier):
    s = derive(seed, check.prop, i)
    rng = random.Random(s)
    scn = check.gen(rng, tier, i)
    scn['property'], scn['seed'], scn['index'] = check.prop, s, i
    return json.loads(json.dumps(scn))


# ------------------------------------------------------------------------------------------ batch
def run_batch(check, seed, tier, n, budget, workers, known):
    t0 = time.monotonic()
    base = scratch_base()
    stop = os.path.join(base, 'stop')
    pids = []
    for w in range(workers):
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                out = open(os.path.join(base, 'out_%d' % w), 'wb')
                for i in range(w, n, workers):
                    if os.path.exists(stop) or time.monotonic() - t0 > budget:
                        break
                    scn = make_scenario(check, seed, i, tier)
                    res = run_isolated(check, scn, check.timeout)
                    if res['status'] == 'hang':
                        res = run_isolated(check, scn, check.timeout * 2)
                        if res['status'] == 'hang':
                            res['status'] = 'violation'
                    if res['status'] == 'ok' and res['snap']:
                        res['nontrivial'] = check.nontrivial(scn, res['snap'])
                        res['events_head'] = res['snap']['events'][:12]
                        res['snap'] = dict(res['snap'], events=None)
                    pickle.dump((i, scn, res), out)
                    out.flush()
                    if res['status'] == 'violation' and res['key'] not in known and not os.environ.get('VSIM_ALL'):
                        open(stop, 'w').close()
                        break
                out.close()
            except BaseException:
                traceback.print_exc()
                code = 5
            os._exit(code)
        pids.append(pid)
    bad = 0
    for pid in pids:
        _, st = os.waitpid(pid, 0)
        if st != 0: bad += 1
    results = []
    for w in range(workers):
        p = os.path.join(base, 'out_%d' % w)
        if not os.path.exists(p): continue
        with open(p, 'rb') as f:
            while True:
                try: results.append(pickle.load(f))
                except EOFError: break
                except pickle.UnpicklingError: break
        os.remove(p)
    if os.path.exists(stop): os.remove(stop)
    results.sort(key=lambda t: t[0])
    return results, bad, time.monotonic() - t0


# ------------------------------------------------------------------------------------------ minimiser
def minimise(check, scn, kind, limit=100.0, workers=1):
    """Greedy delta debugging on scn['ops'] (if any), then check-specific simplifications."""
    t0 = time.monotonic()
    tried = [0]

    def fails(c):
        if time.monotonic() - t0 > limit: return False
        tried[0] += 1
        try:
            r = run_isolated(check, c, check.timeout)
        except HarnessError:
            return False
        return r['status'] == 'violation' and r['kind'] == kind

    best = scn
    ops = best.get('ops')
    if isinstance(ops, list) and len(ops) > 1:
        size = max(1, len(ops) // 2)
        while size >= 1 and time.monotonic() - t0 < limit:
            i, progress = 0, False
            while i < len(best['ops']):
                cand = dict(best, ops=best['ops'][:i] + best['ops'][i + size:])
                if cand['ops'] and fails(cand):
                    best, progress = cand, True
                else:
                    i += size
            if not progress or size == 1:
                if size == 1 and not progress: break
                size = max(1, size // 2)
    changed = True
    while changed and time.monotonic() - t0 < limit:
        changed = False
        for cand in check.shrink(best):
            c = json.loads(json.dumps(cand))
            if c != best and fails(c):
                best, changed = c, True
                break
    return best, tried[0]


# ------------------------------------------------------------------------------------------ known findings
def load_known(prop):
    p = os.path.join(VERIF, 'known_findings.jsonl')
    out = {}
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if not line or line.startswith('#'): continue
                d = json.loads(line)
                if d.get('status') == 'known' and d.get('property') == prop:
                    out[d['key']] = d['what']
    return out
