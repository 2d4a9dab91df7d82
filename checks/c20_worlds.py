"""C20: results do not depend on the clock, hash seed, random state, folder or environment."""
import copy
import gc
import os
import pickle
import random
import subprocess
import sys

import numpy as np

from sim import core
from sim.core import Check, Violation, HarnessError
from . import harvest as H

HERE = os.path.dirname(os.path.abspath(__file__))
CALLS = 120
CLOCKS = [[1., 9.e8, 1.75e9, 4.1e9], [1.6e9, 1709164799., 9.5e8, 6.99e7], [1., 4.07e9, 1.6e9, 2.e9, 1.7672256e9 - 5e5]]      # the second: leap years


def configuration(op):
    """Builds a configuration of a vehicle, changes it, and returns the differences in their order, then what pull_base makes of it."""
    import SUAVE
    from SUAVE.Core import Data
    from . import missionlib as L
    rng = random.Random(op['seed'])
    base = SUAVE.Components.Configs.Config(L.light() if op['vehicle'] == 'light' else L.jet())
    base.tag = 'base'
    configs = SUAVE.Components.Configs.Config.Container()
    configs.append(base)
    cfg = SUAVE.Components.Configs.Config(base)
    cfg.tag = 'other'
    places = []

    def walk(x, depth):
        for k in sorted(str(k) for k in x.keys()):
            if k.startswith('_') or k in ('tag', 'hasattr'): continue
            try: v = x[k]
            except Exception: continue
            if isinstance(v, dict) and depth < 6: walk(v, depth + 1)
            elif isinstance(v, float) and not isinstance(v, bool): places.append((x, k))
            if isinstance(x, Data) and depth < 4 and isinstance(v, dict) and rng.random() < .1: places.append((v, 'extra_%d' % rng.randrange(1000)))
    walk(cfg, 0)
    for x, k in rng.sample(places, min(len(places), op['n'])): x[k] = round(rng.uniform(1., 9.), 3)
    for j in range(op['new']):
        d = Data(); d.tag = 'thing_%d' % j
        for m in range(4): d['item_%d' % rng.randrange(10**6)] = float(m)
        cfg['new_%d' % rng.randrange(10**6)] = d
    cfg.store_diff()

    def order(x, path=''):
        out = []
        for k in x.keys():
            v = x[k]
            if isinstance(v, dict): out.append(path + '/' + str(k)); out += order(v, path + '/' + str(k))
            else: out.append('%s/%s=%r' % (path, k, v if not isinstance(v, np.ndarray) else v.tolist()))
        return out
    diffs = order(cfg._diff)
    text = str(cfg) if op['text'] else ''
    cfg.pull_base()
    return dict([('order', ('s', '\n'.join(diffs))), ('text', ('s', text)), ('after', ('s', '\n'.join(order(cfg))[:200000]))])


class Worlds(Check):
    prop = 'C20'
    title = 'Results do not depend on the clock, hash seed, random state or folder'
    n_quick, n_thorough = 24, 6000
    timeout = 300
    self_runs = 2
    rule = ('seeded batches of calls of the functions of SUAVE with arguments harvested from the repository\'s own analyses (regression scripts and missions), as they are or with changed numbers, and '
            'configurations of vehicles with seeded changes, carried out in processes of their own that differ in hash seed, simulated clock (start, jumps), states of the random generators, '
            'entropy, order of the calls, working folder (fresh, or one in which the same calls were made before), and environment variables (also answers invented for any variable SUAVE itself asks for); all '
            'results, everything reachable from the arguments, and the order of reported differences are compared; non-trivial = two worlds with different hash seeds were compared')
    real = ['all of SUAVE outside Optimization, Plugins, Input_Output, Plots', 'the Python interpreter (one process per world)']
    stub = ['the clock', 'entropy and random generator states', 'environment variables']
    assumptions = ['random by purpose, and therefore left out: Latin hypercube samples, particle swarms and the optimizers that use them', 'a difference below 1e-12 of the largest entry counts when both worlds repeat their results to the last bit when they are lived again, each in a new process (the order of configuration differences: exactly)',
                   'paths given in arguments may be relative to the working folder']
    state_measure = 'distinct (function, call, changed or not, kind of world)'

    def setup(self):
        import SUAVE, matplotlib.pyplot                                      # noqa
        self.folder, self.pool, self.failed = H.shared(core.scratch_base(), os.environ.get('VERIF_TIER', 'quick'))
        if len(self.pool.names) < 100: raise HarnessError('only %d functions harvested: %s' % (len(self.pool.names), self.failed[:3]))
        gc.collect(); gc.freeze()

    def world(self, rng, i):
        return dict(hash=rng.randrange(1, 2**31), seed=rng.randrange(10**9), clock=rng.choice(CLOCKS[i]) + rng.uniform(0, 1e6), mono=rng.choice([0., 5., 1e7]), jump=rng.choice([0., .05, .5]),
                    folder=rng.choice(['plain', 'a b', 'deep/er/still', '\u00fc']), tz=rng.choice(['UTC', 'Asia/Tokyo', 'America/St_Johns']), lang=rng.choice(['C', 'C.UTF-8', 'de_DE.UTF-8']),
                    home=rng.choice(['/root', '/nonexistent', '/']), user=rng.choice(['root', 'nobody', '']), order=rng.randrange(10**9), lies=rng.choice([[], ['1'], ['0', 'x'], ['', '7', 'true']]))

    def gen(self, rng, tier, i):
        P, ops = self.pool, []
        weight = sum(1 for _ in P.names)
        half = CALLS // 2
        start = (i * half) % weight                               # every function comes up, however few the runs
        for j in range(CALLS):
            n = P.names[(start + j % half) % weight]
            k = min(range(len(P.calls[n])), key=lambda k: P.cost[n][k] * rng.uniform(.2, 1.8))
            if P.cost[n][k] > 12 and rng.random() < .7: continue
            ops.append(dict(op='call', call=[n, k], change=None if j < half and rng.random() < .8 else dict(seed=rng.randrange(10**9), p=rng.choice([.1, .5, 1.]), size=rng.choice([1e-3, .05, .3]))))
            if j >= half and P.cost[n][k] < 3: ops.append(dict(op='call', call=[n, k], change=dict(seed=rng.randrange(10**9), p=1., size=.2)))
        for _ in range(3):
            ops.append(dict(op='config', seed=rng.randrange(10**9), n=rng.choice([1, 3, 6, 12]), new=rng.choice([0, 0, 1, 3]), text=rng.random() < .3, vehicle=rng.choice(['light', 'jet'])))
        ws = [self.world(rng, 0), self.world(rng, 1)]
        if rng.random() < .4: ws.append(dict(self.world(rng, 2), again=rng.choice([0, 1])))
        return dict(ops=ops, worlds=ws)

    def live(self, ctx, scn, i, w, folders):
        if 'again' in w and w['again'] < len(folders): cwd = folders[w['again']]
        else:
            cwd = os.path.join(ctx.root, 'w%d' % i, w['folder'], 'work')
            os.makedirs(cwd)
            for d in sorted(os.listdir(self.folder)):
                if os.path.isdir(os.path.join(self.folder, d)): os.symlink(os.path.join(self.folder, d), os.path.join(os.path.dirname(cwd), d))
        folders.append(cwd)
        ops = []
        for op in scn['ops']:
            op = dict(op)
            if op['op'] == 'call':
                n, k = op.pop('call')
                op['name'], op['args'] = n, self.pool.calls[n][k][0]
            ops.append(op)
        order = list(range(len(ops)))
        random.Random(w['order']).shuffle(order)
        src, out = os.path.join(ctx.root, 'in%d' % i), os.path.join(ctx.root, 'out%d' % i)
        with open(src, 'wb') as f: pickle.dump(dict(world=w, ops=[ops[j] for j in order], verif=os.path.dirname(HERE), cwd=cwd), f)
        keep = {k: v for k, v in os.environ.items() if k in ('PATH', 'OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'OPENBLAS_CORETYPE', 'NPY_DISABLE_CPU_FEATURES', 'MPLBACKEND', 'MPLCONFIGDIR', 'PYTHONWARNINGS', 'PYTHONDONTWRITEBYTECODE', 'PYTHONNOUSERSITE')}
        env = dict(keep, PYTHONHASHSEED=str(w['hash']), TZ=w['tz'], LANG=w['lang'], LC_ALL=w['lang'] if w['lang'] != 'de_DE.UTF-8' else 'C.UTF-8', HOME=w['home'], USER=w['user'], PYTHONUTF8='1')
        p = subprocess.run([sys.executable, os.path.join(HERE, 'world_child.py'), src, out], cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors='replace')
        if not os.path.exists(out): raise HarnessError('world %d died: %s' % (i, p.stderr[-1500:]))
        with open(out, 'rb') as f: got, faults, sim = pickle.load(f)
        back = dict(zip(order, got))
        return [back[j] for j in range(len(ops))], faults, sim

    def run(self, scn, ctx):
        folders, first, results, last_bits = [], None, [], {}
        for i, w in enumerate(scn['worlds']):
            got, faults, sim = self.live(ctx, scn, i, w, folders)
            ctx.sim_time += sim
            for k, n in faults.items(): ctx.fault(k, n)
            for k in ('hash_seed', 'clock_start', 'random_states', 'folder', 'environment'): ctx.fault('varied_' + k)
            if 'again' in w: ctx.probe('same_folder_again')
            results.append(got)
            if i == 0: first = got; continue
            for j, (op, a, b) in enumerate(zip(scn['ops'], first, got)):
                name = op['call'][0] if op['op'] == 'call' else 'configuration'
                ctx.state(name, op.get('call', [0, 0])[1], bool(op.get('change')), 'again' in w)
                if a[0] == 'endless' or b[0] == 'endless': continue
                if a[0] != b[0]: raise Violation('world', '%s: %s in one world, %s in another' % (name, a[0], b[0]), key='world:' + name)
                if a[0] != 'value': ctx.probe('raised_in_both'); continue
                d = H.first_difference(b[1], a[1], 1e-12)
                if d: raise Violation('world', '%s gives other results in another world (%s): %s' % (name, self.what(scn['worlds'][0], w), d), key='world:' + name)
                ctx.probe('compared')
                if 'again' not in w and H.first_difference(b[1], a[1], 0.): last_bits.setdefault(i, []).append(j)
        if last_bits: self.repeat(scn, ctx, results, last_bits)
        ctx.log('compared', len(scn['ops']), [r[0] for r in first].count('value'))

    def repeat(self, scn, ctx, results, last_bits):
        """Numbers that differ in the last bits between two worlds, and not between two lives of the same world, depend on the world."""
        n = len(scn['worlds'])
        again = {i: self.live(ctx, scn, n + i, scn['worlds'][i], [])[0] for i in [0] + sorted(last_bits)}
        for i in sorted(last_bits):
            for j in last_bits[i]:
                if any(again[k][j][0] != 'value' or H.first_difference(again[k][j][1], results[k][j][1], 0.) for k in (0, i)): ctx.probe('last_bits_vary'); continue
                op = scn['ops'][j]
                name = op['call'][0] if op['op'] == 'call' else 'configuration'
                raise Violation('world', '%s gives other last bits in another world, each time (%s): %s' % (name, self.what(scn['worlds'][0], scn['worlds'][i]),
                                H.first_difference(results[i][j][1], results[0][j][1], 0.)), key='world:' + name)

    def what(self, a, b):
        return ', '.join('%s %r/%r' % (k, a.get(k), b.get(k)) for k in ('hash', 'clock', 'folder') if a.get(k) != b.get(k))

    def nontrivial(self, scn, snap):
        return bool(snap['probes'].get('compared'))

    def shrink(self, scn):
        out = []
        if len(scn['worlds']) > 2: out.append(dict(copy.deepcopy(scn), worlds=copy.deepcopy(scn['worlds'][:2])))
        w0 = scn['worlds'][0]
        for k in ('hash', 'clock', 'mono', 'jump', 'order', 'folder', 'tz', 'lang', 'home', 'user', 'lies', 'seed'):
            for j in range(1, len(scn['worlds'])):
                if scn['worlds'][j].get(k) != w0.get(k):
                    c = copy.deepcopy(scn); c['worlds'][j][k] = w0[k]; out.append(c)
        return out


CHECK = Worlds()
