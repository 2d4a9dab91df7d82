"""Calls harvested from the repository's own analyses.

The regression scripts and the missions of missionlib are run once, in forked children, while every call of a SUAVE
function is seen; the arguments of a few calls of each function are kept (pickled).  C19 and C20 then make those calls
again - after other calls, failed calls, interleaved, under other clocks, seeds and folders - so that everything SUAVE
computes anywhere is exercised without a workload of its own for each part.  Functions are found by what is called,
not by a list of names."""
import contextlib
import io
import os
import pickle
import shutil
import sys
import tempfile

import numpy as np

REPO = '/repo'
SDIR = os.path.realpath(REPO + '/trunk/SUAVE') + os.sep
SCRIPTS = REPO + '/regression/scripts'
MON = sys.monitoring
TOOL = 3

FAST = '''
noise_fidelity_zero/DC_10_noise.py airfoil_import/airfoil_interpolation_test.py solar_radiation/solar_radiation.py
rocket_network/Rocketdyne_F1.py rocket_network/Rocketdyne_J2.py industrial_costs/industrial_costs.py
geometry/fuselage_planform_compute.py ramjet_network/ramjet_network.py cnbeta/cnbeta.py
ducted_fan/battery_ducted_fan_network.py ducted_fan/ducted_fan_network.py
ducted_fan/serial_hybrid_ducted_fan_network.py aerodynamics/aerodynamics.py
lifting_line/lifting_line.py atmosphere/constant_temperature.py solar_network/solar_low_fidelity_network.py
turboelectric_HTS_dynamo_ducted_fan_network/turboelectric_HTS_dynamo_ducted_fan_network.py
dynamic_stability/dynamicstability.py aerodynamics/sideslip_and_rotation_vlm.py
mission_range_and_weight_sizing/take_off_weight_from_tofl.py geometry/NACA_airfoil_compute.py
geometry/wing_fuel_volume_compute.py mission_range_and_weight_sizing/landing_field_length.py
gasturbine_network/gasturbine_network.py fuel_cell/fuel_cell.py scramjet_network/scramjet_network.py
geometry/NACA_volume_compute.py cmalpha/cmalpha.py propulsion_surrogate/propulsion_surrogate.py
mission_range_and_weight_sizing/take_off_field_length.py atmosphere/atmosphere.py aerodynamics/sears_haack.py
aerodynamics/all_moving_surfaces_vlm.py aerodynamics/control_surfaces_vlm.py
V_n_diagram/V_n_diagram_regression.py airfoil_analysis/airfoil_panel_method_test.py
battery/battery_cell_discharge_tests.py motor/motor_test.py weights/weights.py
turboelectric_HTS_ducted_fan_network/turboelectric_HTS_ducted_fan_network.py
'''.split()

# random by purpose, or the bookkeeping below every call
SKIP = ('Core/Data', 'Core/Container', 'Core/DataOrdered', 'Core/Diffed', 'Core/Arrays', 'Core/Utilities', 'Core/Units',
        'Plugins/', 'Plots/', 'Optimization/', 'Methods/Utilities/latin', 'Input_Output/', 'Core/redirect', 'attributes/')


def _key(code, glob):
    q = code.co_qualname
    if '<' in q:
        return None
    return glob.get('__name__', ''), q


def resolve(key):
    """The function a key names; methods come as plain functions (self is an argument)."""
    import importlib
    mod, qual = key
    m = sys.modules.get(mod)
    if m is None:
        importlib.import_module(mod)
        m = sys.modules[mod]
    o = m
    for part in qual.split('.'):
        o = getattr(o, part) if not isinstance(o, type) else o.__dict__[part]
    if isinstance(o, (staticmethod, classmethod)):
        o = o.__func__
    return o


class Enough(BaseException):
    pass


class Harvest(object):
    def __init__(self, per=3, limit=400000, until=None):
        self.per, self.limit, self.until = per, limit, until
        self.seen, self.names = {}, {}
        self.calls, self.stack = [], []
        self.work = 0

    def _mine(self, fn):
        r = self.names.get(fn)
        if r is None:
            p = os.path.realpath(fn)
            r = p.startswith(SDIR) and not any(s in p[len(SDIR):] for s in SKIP)
            self.names[fn] = r
        return r

    def _start(self, code, off):
        if not self._mine(code.co_filename):
            return MON.DISABLE
        self.work += 1
        if self.until and self.work > self.until:
            raise Enough()
        n = self.seen.get(code, 0)
        if n >= 28:
            return
        self.seen[code] = n + 1
        if n not in (0, 2, 9, 27)[:self.per]:
            return
        f = sys._getframe(1)
        key = _key(code, f.f_globals)
        if key is None or code.co_flags & 0x2a0 or key[1].endswith('__init__'):     # no generators, coroutines
            return
        try:
            fun = resolve(key)
            if getattr(fun, '__code__', None) is not code:
                return
            loc, k = f.f_locals, code.co_argcount + code.co_kwonlyargcount
            names = code.co_varnames
            default = dict(zip(names[code.co_argcount - len(fun.__defaults__ or ()):code.co_argcount], fun.__defaults__ or ()))
            default.update(fun.__kwdefaults__ or {})
            var = kw = None
            if code.co_flags & 4:
                var = loc.get(names[k]); k += 1
            if code.co_flags & 8:
                kw = loc.get(names[k])
            pos, kws = [], {}
            for i, x in enumerate(names[:code.co_argcount + code.co_kwonlyargcount]):
                if x in default and default[x] is loc[x] and not var:
                    continue                         # the function's own default is used again
                if i < code.co_argcount and (var or (i == 0 and x == 'self')):
                    pos.append(loc[x])
                else:
                    kws[x] = loc[x]
            if kw: kws.update(kw)
            b = pickle.dumps((tuple(pos) + tuple(var or ()), kws), 4)
        except Exception:                            # something that cannot be pickled
            return
        if len(b) > self.limit:
            return
        c = [key, b, self.work, 10**9]
        self.calls.append(c)
        self.stack.append((id(f), code, c))
        MON.set_local_events(TOOL, code, MON.events.PY_RETURN)

    def _return(self, code, off, value):
        if self.stack and self.stack[-1][1] is code and self.stack[-1][0] == id(sys._getframe(1)):
            c = self.stack.pop()[2]
            c[3] = self.work - c[2]

    def _unwind(self, code, off, exc):
        while self.stack and self.stack[-1][1] is code and self.stack[-1][0] == id(sys._getframe(1)):
            self.stack.pop()

    def __enter__(self):
        MON.use_tool_id(TOOL, 'harvest')
        E = MON.events
        MON.register_callback(TOOL, E.PY_START, self._start)
        MON.register_callback(TOOL, E.PY_RETURN, self._return)
        MON.register_callback(TOOL, E.PY_UNWIND, self._unwind)
        MON.restart_events()
        MON.set_events(TOOL, E.PY_START | E.PY_UNWIND)
        return self

    def __exit__(self, *a):
        MON.set_events(TOOL, 0)
        for e in (MON.events.PY_START, MON.events.PY_RETURN, MON.events.PY_UNWIND): MON.register_callback(TOOL, e, None)
        MON.free_tool_id(TOOL)
        return False


def run_script(rel, folder):
    """One regression script in this process, from a copy of its folder."""
    import runpy
    d = os.path.join(folder, os.path.dirname(rel))
    os.chdir(d)
    sys.argv = [os.path.basename(rel)]
    sys.path.insert(0, d)
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        runpy.run_path(os.path.basename(rel), run_name='__main__')


def copy_scripts(folder, rels):
    for d in sorted({os.path.dirname(r) for r in rels} | {'Vehicles'}):
        s, t = os.path.join(SCRIPTS, d), os.path.join(folder, d)
        if not os.path.isdir(t):
            shutil.copytree(s, t, ignore=shutil.ignore_patterns('__pycache__'))


# ------------------------------------------------------------------------------------------ the pool of calls
class Pool(object):
    """calls: {name: [(pickle, work, origin)]}, name = 'module:function'."""
    def __init__(self, calls):
        self.calls = calls
        self.names = sorted(calls)
        self.cost = {n: [1. + w / 60. + len(b) / 40000. for b, w, o in calls[n]] for n in self.names}
        self.near = {}
        for n in self.names:
            self.near.setdefault(n.split(':')[0].rsplit('.', 1)[0], []).append(n)

    def fun(self, name):
        return resolve(tuple(name.split(':')))

    def args(self, name, k):
        return pickle.loads(self.calls[name][k][0])


def entries(tier):
    from . import pool
    out = [('own', n) for n in pool.NAMES] + [('script', r) for r in pool.SLOW] + [('script', r) for r in FAST]
    return out + ([('script', r) for r in pool.VERY_SLOW] if tier == 'thorough' else [])


def harvest(folder, todo, jobs=8, most=6):
    """Runs the entries in forked children, several at once, and returns the pool."""
    copy_scripts(folder, [r for k, r in todo if k == 'script'])
    files = [os.path.join(folder, 'h%d' % i) for i in range(len(todo))]
    waiting, running = list(range(len(todo))), {}
    sys.stdout.flush()
    while waiting or running:
        while waiting and len(running) < jobs:
            i = waiting.pop(0)
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    _child(folder, todo[i], files[i])
                except BaseException as e:
                    sys.stderr.write('harvest %s: %r\n' % (todo[i], e))
                    code = 1
                os._exit(code)
            running[pid] = i
        pid, st = os.wait()
        running.pop(pid, None)
    calls, failed = {}, []
    for i, f in enumerate(files):
        if not os.path.exists(f):
            failed.append(todo[i][1]); continue
        with open(f, 'rb') as fh: err, got = pickle.load(fh)
        os.remove(f)
        if err: failed.append('%s (%s)' % (todo[i][1], err))
        for key, b, work0, work in got:
            if key[1].startswith('test') or key[0] == '__main__': continue
            l = calls.setdefault(':'.join(key), [])
            if len(l) < most and all(b != x[0] for x in l): l.append((b, work, todo[i][1]))
    return Pool(calls), failed


def shared(base, tier):
    """The pool of a check; the rerun of a check's own runs takes the one its parent harvested."""
    folder = os.path.join(base, 'pool')
    given = os.environ.get('VSIM_POOL')
    if given and '--digest' in sys.argv:
        with open(given, 'rb') as f: folder, calls, failed = pickle.load(f)
        return folder, Pool(calls), failed
    os.makedirs(folder, exist_ok=True)
    pool, failed = harvest(folder, entries(tier))
    path = os.path.join(base, 'calls')
    with open(path, 'wb') as f: pickle.dump((folder, pool.calls, failed), f)
    os.environ['VSIM_POOL'] = path
    return folder, pool, failed


def _child(folder, entry, out):
    kind, name = entry
    err = ''
    h = Harvest(per=3 if kind == 'script' else 2)
    devnull = open(os.devnull, 'w')
    os.dup2(devnull.fileno(), 1); os.dup2(devnull.fileno(), 2)
    try:
        if kind == 'script':
            from . import pool
            h.until = pool.UNTIL.get(name)
            with h: run_script(name, folder)
        else:
            from . import pool
            work = os.path.join(folder, 'Vehicles')
            os.chdir(work)
            sys.path.insert(0, work)
            fn = pool.prepare(name)
            with h, contextlib.redirect_stdout(io.StringIO()): fn()
    except Enough:
        pass
    except BaseException as e:
        err = '%s: %s' % (type(e).__name__, str(e)[:200])
    with open(out + '.tmp', 'wb') as f: pickle.dump((err, h.calls), f)
    os.rename(out + '.tmp', out)


# ------------------------------------------------------------------------------------------ numbers of anything
def leaves(x, most=60000):
    """Everything numeric (and text, and the structure) inside an object: [(path, kind, value)]."""
    out, seen = [], {}
    todo = [('', x, 0)]
    while todo:
        path, v, depth = todo.pop()
        if len(out) >= most or depth > 40: break
        if v is None or isinstance(v, (bool, str, bytes)):
            out.append((path, 's', v)); continue
        if isinstance(v, (int, float, complex, np.generic)) and not isinstance(v, np.ndarray):
            out.append((path, 'n', v)); continue
        if isinstance(v, np.ndarray):
            if v.dtype == object:
                out.append((path, 's', 'array %s' % (v.shape,)))
                todo.extend(('%s[%d]' % (path, i), w, depth + 1) for i, w in reversed(list(enumerate(v.ravel()[:200]))))
            else: out.append((path, 'n', v))
            continue
        if id(v) in seen:
            continue
        seen[id(v)] = v
        if isinstance(v, dict):
            items = []
            for k in list(dict.keys(v)):
                if k in ('_root', '_map'): continue
                try: items.append((str(k), dict.__getitem__(v, k)))
                except Exception: pass
            d = getattr(v, '__dict__', None)
            if isinstance(d, dict) and d is not v: items += [('@' + str(k), d[k]) for k in d]
        elif isinstance(v, (list, tuple)): items = [(str(i), w) for i, w in enumerate(v)]
        elif isinstance(v, (set, frozenset)): items = [(str(i), w) for i, w in enumerate(sorted(v, key=repr))]
        elif isinstance(v, type) or callable(v) and not hasattr(v, '__dict__') or type(v).__name__ in ('module', 'function', 'builtin_function_or_method', 'method'): continue
        else:
            d = getattr(v, '__dict__', None)
            items = [(str(k), d[k]) for k in d] if isinstance(d, dict) else []
        todo.extend((path + '/' + k, w, depth + 1) for k, w in sorted(items, key=lambda t: t[0], reverse=True))
    return out


def digest(x):
    """Small picklable summary of leaves(x): exact hash and a sample for a comparison within rounding."""
    import hashlib
    out = {}
    for path, kind, v in leaves(x):
        if kind == 's':
            out[path] = ('s', v if not isinstance(v, (str, bytes)) else v[:200]); continue
        a = np.asarray(v)
        h = hashlib.blake2b(np.ascontiguousarray(a).tobytes(), digest_size=8).hexdigest()
        if a.dtype.kind not in 'fc' or not a.size: out[path] = ('n', a.shape, h, None, 0.); continue
        f = a.ravel()
        step = max(1, f.size // 48)
        with np.errstate(all='ignore'):
            fin = np.abs(f[np.isfinite(f)])
            out[path] = ('n', a.shape, h, [complex(z) if a.dtype.kind == 'c' else float(z) for z in f[::step][:60]] + [float(fin.sum())], float(fin.max()) if fin.size else 0.)
    return out


def first_difference(got, want, rtol=1e-9):
    for p in want:
        if p not in got: return '%s is gone' % p
    for p in got:
        if p not in want: return '%s was not there' % p
        g, w = got[p], want[p]
        if g == w: continue
        if g[0] == 's' or w[0] == 's':
            return '%s is %r, not %r' % (p, g[1], w[1])
        if g[1] != w[1]: return '%s has shape %s, not %s' % (p, g[1], w[1])
        if g[2] == w[2]: continue
        if g[3] is None or w[3] is None: return '%s differs' % p
        ga, wa = np.array(g[3]), np.array(w[3])
        scale = max(g[4], w[4], 1e-300)
        same = (ga == wa) | (np.isnan(ga) & np.isnan(wa))
        with np.errstate(all='ignore'): near = np.abs(ga - wa) <= rtol * scale * np.r_[np.ones(len(ga) - 1), max(1, np.prod(g[1]))]
        if not (same | near).all():
            i = int(np.argmin(same | near))
            return '%s is %r, not %r' % (p, g[3][i], w[3][i])
    return None


# ------------------------------------------------------------------------------------------ other values
def vary(fun, a, kw, change):
    """The arguments with other numbers; numeric parameters left at their defaults are given other values at times."""
    import inspect, random, re
    rng = random.Random(change['seed'])
    (a, kw), n = perturb((a, kw), rng, change['p'], change['size'])
    try: sig = inspect.signature(fun); bound = sig.bind(*a, **kw).arguments
    except (TypeError, ValueError): return a, kw
    for name, par in sig.parameters.items():
        v = par.default
        if name in bound or par.kind not in (par.POSITIONAL_OR_KEYWORD, par.KEYWORD_ONLY) or type(v) not in (bool, int, float) or re.search('file|name|path|dir|fid|tag', name, re.I) or rng.random() < .6: continue
        kw = dict(kw)
        kw[name] = not v if type(v) is bool else v * (1. + change['size']) if type(v) is float else v + 1 if v < 20 else v // rng.choice([2, 4, 8])
    return a, kw


def perturb(x, rng, p, size):
    """Changes a share p of the floating-point numbers inside x (in place where it can), by about `size`, relatively.

    A few flags are turned and small counts changed as well; structure, strings and exact zeros stay."""
    seen, changed = {}, [0]

    def f(v):
        if v == 0 or not np.isfinite(v) or rng.random() >= p: return v
        changed[0] += 1
        return v * (1. + size * rng.uniform(-1., 1.))

    def walk(v, depth):
        if depth > 40: return v
        if type(v) is bool:
            if rng.random() < min(p, .1): changed[0] += 1; return not v
            return v
        if type(v) is int:
            if 0 < v < 50 and rng.random() < min(p, .1) * .3: changed[0] += 1; return v + 1
            if 50 <= v <= 2000 and rng.random() < min(p, .5): changed[0] += 1; return v // rng.choice([2, 2, 4, 8]) if rng.random() < .7 else v + v // 4 * 2
            return v
        if isinstance(v, float) and not isinstance(v, np.generic): return f(v)
        if isinstance(v, np.floating): return type(v)(f(float(v)))
        if isinstance(v, np.ndarray):
            if v.dtype.kind == 'f' and v.size and rng.random() < max(p, 0.02):
                if id(v) in seen: return v
                seen[id(v)] = v
                k = 1. + size * rng.uniform(-1., 1.)
                if v.flags.writeable:
                    changed[0] += 1
                    if v.ndim and v.size > 1 and rng.random() < .5 and v.size < 10000:
                        g = np.array([1. + size * rng.uniform(-1., 1.) for _ in range(v.size)]).reshape(v.shape)
                        v *= g
                    else: v *= k
            return v
        if isinstance(v, (str, bytes, int, type(None), complex, type)) or callable(v) and not isinstance(v, dict): return v
        if id(v) in seen: return v
        seen[id(v)] = v
        if isinstance(v, dict):
            for k in sorted(k for k in dict.keys(v) if isinstance(k, str) and k not in ('_root', '_map')):
                old = dict.__getitem__(v, k)
                new = walk(old, depth + 1)
                if new is not old: dict.__setitem__(v, k, new)
            d = getattr(v, '__dict__', None)
            if isinstance(d, dict) and d is not v:
                for k in list(d):
                    new = walk(d[k], depth + 1)
                    if new is not d[k]: d[k] = new
        elif isinstance(v, list):
            for i, old in enumerate(v):
                new = walk(old, depth + 1)
                if new is not old: v[i] = new
        elif isinstance(v, tuple):
            new = tuple(walk(w, depth + 1) for w in v)
            if type(v) is tuple and any(a is not b for a, b in zip(new, v)): return new
        return v
    y = walk(x, 0)
    return y, changed[0]
