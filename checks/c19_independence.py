"""C19: independent analyses do not influence each other, in any order or interleaving."""
import contextlib
import copy
import gc
import io
import os
import pickle
import random
import shutil
import sys

import numpy as np

from sim import core
from sim.core import Check, Violation, HarnessError
from sim.instr import Counter, Baton, StepLimit
from . import harvest as H

LIMIT = 400000
EXC = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError, 'FloatingPointError': FloatingPointError, 'ValueError': ValueError}


class Place(object):
    """A working folder as the scripts have it: beside a folder Vehicles."""
    def __init__(self, ctx, name, source):
        self.dir = os.path.join(ctx.root, name, 'work')
        os.makedirs(self.dir)
        for d in sorted(os.listdir(source)):
            if os.path.isdir(os.path.join(source, d)): os.symlink(os.path.join(source, d), os.path.join(ctx.root, name, d))

    def __enter__(self):
        os.chdir(self.dir)
        return self

    def __exit__(self, *a):
        os.chdir('/')
        return False


class Independence(Check):
    prop = 'C19'
    title = 'Independent analyses do not influence each other'
    n_quick, n_thorough = 1800, 200000
    timeout = 180
    rule = ('seeded sequences of calls of the functions of SUAVE with arguments harvested from the repository\'s own analyses (regression scripts and missions): '
            'the same call with slightly or widely changed numbers, other calls of the function, of its neighbours and of anything else, calls that fail or are interrupted at a seeded line, calls whose results and arguments the caller then changes in place, '
            'and calls that run interleaved on several caller threads; the result of the last calls and everything reachable from their arguments is compared with the same call made alone in a '
            'fresh process, and results returned earlier must stay as they were; further, every component class is built twice, everything inside one is changed in place, and the other, a later one and deep copies are compared with a fresh one; '
            'non-trivial = a final call had a result and something ran before or beside it')
    real = ['all of SUAVE outside Optimization, Plugins, Input_Output, Plots']
    stub = ['interrupts and failures at line boundaries', 'the thread scheduler']
    assumptions = ['a call is given arguments of its own (no object is shared between calls, and interleaved calls are not told to write the same file)', 'threads do not switch inside scipy\'s odeint, which cannot be entered twice', 'random generators start from the same state before each compared call (C20 varies them)',
                   'equality up to 1e-9 of the largest entry', 'an interrupt lands in a call that ran before, not in the compared one']
    expected_probes = ['call_perturbed', 'call_stopped', 'threads', 'copy', 'build']
    state_measure = 'distinct (kind of run, function, kinds of calls before it)'

    def setup(self):
        sys.path[:] = [p for p in sys.path if p]
        import SUAVE, matplotlib.pyplot                                      # noqa
        self.folder, self.pool, self.failed = H.shared(core.scratch_base(), os.environ.get('VERIF_TIER', 'quick'))
        if len(self.pool.names) < 100: raise HarnessError('only %d functions harvested: %s' % (len(self.pool.names), self.failed[:3]))
        self.made = component_classes()
        self.classes = sorted(self.made)
        for n in self.pool.names:
            try: self.pool.fun(n)
            except Exception: raise HarnessError('cannot find ' + n)
        self.order = list(self.pool.names)
        random.Random(5).shuffle(self.order)
        gc.collect(); gc.freeze()

    # ------------------------------------------------------------------ scenarios
    def pick(self, rng, names=None, heavy=40.):
        P = self.pool
        while True:
            n = rng.choice(names or P.names)
            k = rng.randrange(len(P.calls[n]))
            c = P.cost[n][k]
            if c <= heavy and rng.random() < c ** -.4: return [n, k]
            if names and rng.random() < .1: names = None
            heavy *= 1.02

    def change(self, rng):
        p = rng.choice([.02, .1, .1, .5, .5, 1.])
        return dict(seed=rng.randrange(10**9), p=p, size=rng.choice([1e-6, 1e-4, 1e-2, 1e-2, .1, .5]))

    def gen(self, rng, tier, i):
        if os.environ.get('C19_KIND'): i += dict(threads=0, history=1)[os.environ['C19_KIND']] * len(self.order); i += i // 2 + 1      # for surveys
        kind = rng.choice(['history'] * 11 + ['threads'] * 5 + ['copy'] * 2 + ['build'] * 2)
        t = i - i // 3 - 1
        sweep = self.order[t % len(self.order)] if i % 3 else None                                # every function comes up with every kind, however few the runs
        if sweep: kind = ('threads', 'history')[t // len(self.order) % 2]
        if kind == 'build':
            return dict(kind=kind, ops=[dict(cls=c, seed=rng.randrange(10**9), stop=dict(at=rng.randrange(1, 60), exc=rng.choice(['KeyboardInterrupt', 'MemoryError'])) if rng.random() < .5 else None)
                                        for c in rng.sample(self.classes, min(12, len(self.classes)))])
        if kind == 'copy':
            return dict(kind=kind, ops=[dict(call=self.pick(rng), change=self.change(rng)) for _ in range(4)])
        if kind == 'threads':
            a = self.pick(rng, [sweep] if sweep else None, 15.)
            more = [list(a) if rng.random() < .6 else self.pick(rng, [a[0]] if sweep or rng.random() < .5 else None, 15.) for _ in range(rng.choice([1, 1, 2]))]
            return dict(kind=kind, ops=[dict(call=c, change=dict(self.change(rng), p=rng.choice([.1, .5, 1.])) if j and (c == a or rng.random() < .5) else None) for j, c in enumerate([a] + more)],
                        rounds=[[rng.choice([.02, .1, .3]), rng.randrange(10**9)] for _ in range(1 if self.pool.cost[a[0]][a[1]] > 8 else 3)])
        a = self.pick(rng, [sweep] if sweep else None)
        near = self.pool.near[a[0].split(':')[0].rsplit('.', 1)[0]]
        ops = []
        for _ in range(rng.choice([1, 2, 3, 4])):
            r = rng.random()
            c = list(a) if r < .45 else [a[0], rng.randrange(len(self.pool.calls[a[0]]))] if r < .6 else self.pick(rng, near) if r < .8 else self.pick(rng)
            op = dict(call=c, change=self.change(rng) if c == a or rng.random() < .3 else None)
            if rng.random() < .3: op['stop'] = dict(at=int(10 ** rng.uniform(0, 3.5)), exc=rng.choice(sorted(EXC)))
            if rng.random() < .4: op['after'] = rng.randrange(10**9)
            ops.append(op)
        finals = [dict(call=a, change=None)]
        if rng.random() < .7: finals.insert(rng.choice([0, 0, 1]), dict(call=a, change=self.change(rng)))
        if rng.random() < .3: finals.append(dict(call=self.pick(rng, near), change=None))
        return dict(kind=kind, ops=ops, finals=finals)

    # ------------------------------------------------------------------ one call
    def call(self, op, ctx, stop=None, limit=True, keep=None):
        """-> (outcome, digest); outcome is 'value', or the kind of error."""
        name, k = op['call']
        fun = self.pool.fun(name)
        a, kw = self.pool.args(name, k)
        if op.get('change'):
            ch = op['change']
            a, kw = H.vary(fun, a, kw, ch)
            ctx.probe('call_perturbed')
        np.random.seed(7); random.seed(7)
        out = io.StringIO()
        counter = Counter(at=stop['at'], exc=EXC[stop['exc']]) if stop else Counter(limit=LIMIT) if limit and op.get('change') else contextlib.nullcontext()
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out), counter:
                r = fun(*a, **kw)
            how = 'value'
        except StepLimit:
            return 'endless', None
        except (Exception, KeyboardInterrupt, SystemExit) as e:
            r, how = None, type(e).__name__
        if stop and counter.fired: ctx.fault('stopped_' + stop['exc']); ctx.probe('call_stopped')
        if op.get('after') is not None and how == 'value':
            if scramble([r, a, kw], random.Random(op['after'])): ctx.fault('result_changed_by_caller')
        if stop or op.get('after') is not None: return how, None
        if keep is not None: keep.append([r, a, kw])
        return how, H.digest([r, a, kw] if how == 'value' else [])

    def alone(self, sub, op, i):
        with Place(sub, 'alone%d' % i, self.folder) as p:
            return self.call(op, sub) + (sorted(os.listdir(p.dir)),)

    def reference(self, ctx, op, i):
        how, v = ctx.session(self.alone, op, i)
        if how != 'ok': raise HarnessError('reference died')
        return v

    def judge(self, op, got, want, text):
        name = op['call'][0]
        if want[0] == 'endless' or got[0] == 'endless': return
        if got[0] != want[0]:
            raise Violation('influenced', '%s %s: %s, alone: %s' % (name, text, got[0], want[0]), key='influenced:' + name)
        d = H.first_difference(got[1], want[1]) if want[0] == 'value' else None
        if d: raise Violation('influenced', '%s %s gives other numbers than alone: %s' % (name, text, d), key='influenced:' + name)

    # ------------------------------------------------------------------ runs
    def run(self, scn, ctx):
        getattr(self, 'run_' + scn['kind'])(scn, ctx)

    def run_history(self, scn, ctx):
        refs = [self.reference(ctx, f, i) for i, f in enumerate(scn['finals'])]
        with Place(ctx, 'here', self.folder):
            for op in scn['ops']:
                how, _ = self.call(op, ctx, op.get('stop'))
                ctx.log('before', op['call'][0], how)
            kept = []
            for f, ref in zip(scn['finals'], refs):
                keep = []
                got = self.call(f, ctx, keep=keep)
                if got[0] == 'value': kept.append((f, keep[0], got))
                ctx.log('final', f['call'][0], got[0])
                ctx.state('history', f['call'][0], tuple(sorted({('changed' if o.get('change') else 'same', 'stopped' if o.get('stop') else 'whole', o['call'][0] == f['call'][0]) for o in scn['ops']})))
                self.judge(f, got, ref, 'after %s' % [o['call'][0].split(':')[1] + (' stopped' if o.get('stop') else '') for o in scn['ops']])
                if ref[0] == 'value': ctx.probe('compared')
            for f, things, got in kept[:-1]:
                d = H.first_difference(H.digest(things), got[1], 0.)
                if d: raise Violation('later', 'a later call changed what %s had returned: %s' % (f['call'][0], d), key='later:' + f['call'][0])
            self.fresh_ones(scn, ctx, 'after %s' % [o['call'][0].split(':')[1] for o in scn['ops'] + scn['finals']])

    def fresh_ones(self, scn, ctx, text):
        """Components built now are as they are in a new process."""
        for n in ['SUAVE.Core.Data:Data', 'SUAVE.Core.DataOrdered:DataOrdered'] + random.Random(len(scn['ops']) + scn['seed']).sample(self.classes, 10):
            if n not in self.made: continue
            d = H.first_difference(fresh_one(H.resolve(tuple(n.split(':')))), self.made[n], 0.)
            if d: raise Violation('shared', 'a %s built %s differs: %s' % (n.split(':')[1], text, d), key='shared:' + n)
            ctx.probe('built_after')

    def run_threads(self, scn, ctx):
        refs = [self.reference(ctx, f, i) for i, f in enumerate(scn['ops'])]
        if any(r[0] == 'endless' for r in refs): return
        files = [f for r in refs for f in r[2]]
        if len(set(files)) < len(files): return                       # they would write the same files, as they were told to
        for p, seed in scn['rounds']: self.round(scn, ctx, refs, p, seed)
        self.fresh_ones(scn, ctx, 'after %s' % [o['call'][0].split(':')[1] for o in scn['ops']])

    def round(self, scn, ctx, refs, p, seed):
        made = []
        for op in scn['ops']:
            a, kw = self.pool.args(*op['call'])
            if op.get('change'):
                ch = op['change']
                a, kw = H.vary(self.pool.fun(op['call'][0]), a, kw, ch)
            made.append((self.pool.fun(op['call'][0]), a, kw))
        np.random.seed(7); random.seed(7)
        b = Baton(random.Random(seed), p)
        with Place(ctx, 'here%d' % seed, self.folder):
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                out = b.run([lambda f=f, a=a, kw=kw: f(*a, **kw) for f, a, kw in made])
        if b.switches: ctx.probe('threads'); ctx.fault('thread_switch', b.switches)
        ctx.log('threads', [o['call'][0] for o in scn['ops']], b.switches, b.pattern)
        ctx.state('threads', tuple(o['call'][0] for o in scn['ops']))
        for op, (f, a, kw), (how, v), ref in zip(scn['ops'], made, out, refs):
            got = ('value', H.digest([v, a, kw])) if how == 'ok' else (type(v).__name__, {})
            self.judge(op, got, ref, 'interleaved with %s' % [o['call'][0].split(':')[1] for o in scn['ops'] if o is not op])
            if ref[0] == 'value': ctx.probe('compared')

    def run_copy(self, scn, ctx):
        with Place(ctx, 'here', self.folder):
            for op in scn['ops']:
                name, k = op['call']
                orig = self.pool.args(name, k)
                try: cop = copy.deepcopy(orig)
                except Exception as e:
                    ctx.log('cannot copy', name, type(e).__name__); continue
                before = H.digest(orig)
                d = H.first_difference(H.digest(cop), before, 0.)
                if d: raise Violation('copy', 'a deep copy of the arguments of %s differs: %s' % (name, d), key='copy:' + name)
                a, kw = cop
                ch = op['change']
                (a, kw), n = H.perturb((a, kw), random.Random(ch['seed']), max(ch['p'], .3), ch['size'])
                try:
                    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), Counter(limit=LIMIT):
                        self.pool.fun(name)(*a, **kw)
                except (Exception, KeyboardInterrupt, SystemExit, StepLimit): pass
                scramble((a, kw), random.Random(ch['seed']))
                d = H.first_difference(H.digest(orig), before, 0.)
                ctx.probe('copy'); ctx.state('copy', name)
                ctx.log('copy', name)
                if d: raise Violation('copy', 'changing a deep copy of the arguments of %s changed the original: %s' % (name, d), key='copy:' + name)
                ctx.probe('compared')

    def run_build(self, scn, ctx):
        for op in scn['ops']:
            fresh = self.made[op['cls']]
            cls = H.resolve(tuple(op['cls'].split(':')))
            np.random.seed(7); random.seed(7)
            if op.get('stop'):
                counter = Counter(at=op['stop']['at'], exc=EXC[op['stop']['exc']])
                try:
                    with counter: x = cls()
                except BaseException: x = None
                if counter.fired:
                    ctx.fault('stopped_' + op['stop']['exc'])
                    d = x is not None and H.first_difference(H.digest(x), {k: v for k, v in fresh.items() if k != 'names'}, 0.)
                    if d: raise Violation('swallowed', 'building a %s was interrupted at %s and gave a different one: %s' % (op['cls'].split(':')[1], counter.where, d), key='swallowed:' + op['cls'])
                np.random.seed(7); random.seed(7)
            try: a, b = cls(), cls()
            except Exception as e:
                ctx.log('cannot build', op['cls']); continue
            try: c = copy.deepcopy(b)
            except Exception: c = None                       # holds something that cannot be copied (an open stream)
            rng = random.Random(op['seed'])
            want = H.digest(b)
            n = scramble(a, rng)
            d = H.first_difference(H.digest(b), want, 0.)
            if d: raise Violation('shared', 'changing one %s changed another: %s' % (op['cls'].split(':')[1], d), key='shared:' + op['cls'])
            scramble(c, rng)
            d = H.first_difference(H.digest(b), want, 0.)
            if d: raise Violation('shared', 'changing a deep copy of a %s changed the original: %s' % (op['cls'].split(':')[1], d), key='shared:' + op['cls'])
            d = H.first_difference(fresh_one(cls), fresh, 0.)
            if d: raise Violation('shared', 'a %s built after another was changed differs: %s' % (op['cls'].split(':')[1], d), key='shared:' + op['cls'])
            ctx.log('build', op['cls'], n); ctx.state('build', op['cls']); ctx.probe('build'); ctx.probe('compared')

    def nontrivial(self, scn, snap):
        return bool(snap['probes'].get('compared'))

    def shrink(self, scn):
        out = []
        for j, op in enumerate(scn['ops']):
            if op.get('stop'):
                c = copy.deepcopy(scn); c['ops'][j].pop('stop'); out.append(c)
            if op.get('after') is not None:
                c = copy.deepcopy(scn); c['ops'][j].pop('after'); out.append(c)
        if len(scn.get('rounds', [])) > 1:
            out += [dict(copy.deepcopy(scn), rounds=[r]) for r in scn['rounds']]
        for j in range(len(scn.get('finals', []))):
            if len(scn['finals']) > 1:
                c = copy.deepcopy(scn); del c['finals'][j]; out.append(c)
        return out


def component_classes():
    """Classes of SUAVE that hold data and can be built without arguments."""
    import importlib
    from SUAVE.Core import Data
    found = {}
    for base, dirs, files in os.walk(H.SDIR):
        dirs.sort()
        rel = os.path.relpath(base, H.SDIR)
        if rel.split(os.sep)[0] in ('Plugins', 'Plots', 'Optimization', 'Input_Output'): continue
        for f in sorted(files):
            if not f.endswith('.py') or f == '__init__.py': continue
            mod = '.'.join(['SUAVE'] + ([] if rel == '.' else rel.split(os.sep)) + [f[:-3]])
            m = sys.modules.get(mod)
            if m is None: continue
            for k, v in vars(m).items():
                if isinstance(v, type) and v.__module__ == mod and issubclass(v, dict): found[mod + ':' + v.__qualname__] = v
    good = {}
    for n in sorted(found):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                d = os.open(os.devnull, os.O_WRONLY); os.dup2(d, 1); os.dup2(d, 2)
                out = fresh_one(found[n])
                with os.fdopen(w, 'wb') as f: pickle.dump(out, f)
            except BaseException: pass
            os._exit(0)
        os.close(w)
        with os.fdopen(r, 'rb') as f: data = f.read()
        os.waitpid(pid, 0)
        if data: good[n] = pickle.loads(data)
    return good


def fresh_one(cls):
    """What a newly built one looks like: everything inside it, and the names it answers to."""
    np.random.seed(7); random.seed(7)
    x = cls()
    return dict(H.digest(x), names=('s', ' '.join(sorted(n for n in dir(x) if not n.startswith('_')))))


def scramble(x, rng, depth=0, seen=None):
    """Changes everything inside x in place: arrays, lists, dictionaries, attributes.  Classes and functions stay."""
    seen = {} if seen is None else seen
    if id(x) in seen or depth > 30: return 0
    seen[id(x)] = x
    n = 0
    if isinstance(x, np.ndarray):
        if x.dtype.kind == 'f' and x.flags.writeable: x *= 1.37; x += 3.1; return 1
        if x.dtype.kind in 'iu' and x.flags.writeable and x.dtype.kind == 'i': x += 1; return 1
        return 0
    if isinstance(x, dict):
        d = getattr(x, '__dict__', None)
        for store in [x] + ([d] if isinstance(d, dict) and d is not x else []):
            for k in list(dict.keys(store)):
                if k in ('_root', '_map', 'tag'): continue
                v = dict.__getitem__(store, k)
                n += scramble(v, rng, depth + 1, seen)
                if isinstance(v, bool): dict.__setitem__(store, k, not v); n += 1
                elif isinstance(v, (int, float)): dict.__setitem__(store, k, v * 2 + 1); n += 1
        return n
    if isinstance(x, (list, tuple)):
        for i, v in enumerate(list(x)):
            n += scramble(v, rng, depth + 1, seen)
            if isinstance(x, list) and isinstance(v, (int, float)) and not isinstance(v, bool): x[i] = v * 2 + 1; n += 1
        if isinstance(x, list) and depth: x.append(1.5); n += 1
        return n
    if isinstance(x, set): x.add('scrambled'); return 1
    d = getattr(x, '__dict__', None)
    if isinstance(d, dict) and not isinstance(x, type) and not callable(x) and type(x).__name__ != 'module':
        for k in list(d): n += scramble(d[k], rng, depth + 1, seen)
    return n


CHECK = Independence()
