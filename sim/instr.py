"""Instruction-level control of the code under test through sys.monitoring.

LINE events of files below /repo/trunk/SUAVE are the simulator's points of control: an interrupt (or a
failing allocation) can be raised at any of them, and with several caller threads the seeded scheduler
decides at each of them who runs next.  Threads are real but only the one holding the baton runs."""
import sys, os, threading
from .core import SUAVE_DIR, HarnessError

MON = sys.monitoring
TOOL = 4
_names = {}


def _is_suave(code):
    f = code.co_filename
    r = _names.get(f)
    if r is None:
        r = _names[f] = os.path.realpath(f).startswith(SUAVE_DIR)
    return r


class Lines(object):
    """with Lines(callback): callback(code, line) at every SUAVE line."""
    def __init__(self, cb, only=None):
        self.cb, self.only = cb, only

    def __enter__(self):
        MON.use_tool_id(TOOL, 'vsim')
        cb, only = self.cb, self.only

        def on_line(code, line):
            if not _is_suave(code):
                return MON.DISABLE
            if only and not any(o in code.co_filename for o in only):
                return MON.DISABLE
            return cb(code, line)
        MON.register_callback(TOOL, MON.events.LINE, on_line)
        MON.restart_events()
        MON.set_events(TOOL, MON.events.LINE)
        return self

    def __exit__(self, *a):
        MON.set_events(TOOL, 0)
        MON.register_callback(TOOL, MON.events.LINE, None)
        MON.free_tool_id(TOOL)
        return False


class Counter(object):
    """Counts SUAVE lines executed by the block; raises `exc` at line number `at` (1-based) if given."""
    def __init__(self, at=None, exc=KeyboardInterrupt, only=None, limit=None):
        self.n, self.at, self.exc, self.fired, self.where = 0, at, exc, False, None
        self.limit = limit
        self.lines = Lines(self._cb, only)

    def _cb(self, code, line):
        self.n += 1
        if self.at is not None and self.n == self.at and not self.fired:
            self.fired = True
            self.where = '%s:%s' % (os.path.basename(code.co_filename), code.co_name)
            if not isinstance(self.exc, type):
                return self.exc()
            raise self.exc('injected')
        if self.limit is not None and self.n > self.limit:
            raise StepLimit('more than %d steps' % self.limit)

    def __enter__(self):
        self.lines.__enter__()
        return self

    def __exit__(self, *a):
        return self.lines.__exit__(*a)


class StepLimit(BaseException):
    pass


CLOSED = ('_odepack_py.py',)                       # third-party code that cannot be entered twice at a time


def _closed(f):
    while f is not None:
        if f.f_code.co_filename.endswith(CLOSED): return True
        f = f.f_back
    return False


class Baton(object):
    """Runs callables as real threads, one at a time; `choose(n_runnable, step)` decides who goes on.

    A switch may happen at every SUAVE line; the decision comes from the run's PRNG, so the interleaving is a
    pure function of the seed (and of the code).  No switch happens inside scipy's odeint: its Fortran code keeps its
    state in static memory and cannot be entered again before it has finished."""
    def __init__(self, rng, p_switch, only=None, log=None):
        self.rng, self.p, self.only, self.log = rng, p_switch, only, log
        self.switches = 0
        self.lines = 0
        self.pattern = 0

    def run(self, fns):
        n = len(fns)
        sems = [threading.Semaphore(0) for _ in range(n)]
        done = [False] * n
        out = [None] * n
        all_done = threading.Event()
        ident = {}

        def nxt(i):
            alive = [j for j in range(n) if not done[j]]
            if not alive:
                all_done.set(); return None
            return alive[self.rng.randrange(len(alive))]

        def body(i):
            sems[i].acquire()
            ident[threading.get_ident()] = i
            try:
                out[i] = ('ok', fns[i]())
            except Exception as e:
                out[i] = ('exc', e)
            except BaseException as e:
                out[i] = ('exc', e)
            ident.pop(threading.get_ident(), None)
            done[i] = True
            j = nxt(i)
            if j is not None: sems[j].release()

        def cb(code, line):
            i = ident.get(threading.get_ident())
            if i is None: return
            self.lines += 1
            if self.rng.random() < self.p:
                j = nxt(i)
                if j != i and j is not None and not _closed(sys._getframe(1)):
                    self.switches += 1
                    self.pattern = (self.pattern * 1000003 + hash((i, j, self.lines))) & 0xffffffffffff
                    sems[j].release()
                    sems[i].acquire()

        threads = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
        with Lines(cb, self.only):
            for t in threads: t.start()
            sems[self.rng.randrange(n)].release()
            if not all_done.wait(900):
                raise HarnessError('threads did not finish')
            for t in threads: t.join()
        return out
