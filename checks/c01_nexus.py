"""C01: optimization-problem evaluations are history independent."""
import sys, math, copy
from sim.core import Check, Violation, HarnessError
from sim import core
from sim.instr import Counter

FAULT = {'plan': None, 'count': 0}


def setup_modules():
    global np, SUAVE, Data, Nexus, Process
    import numpy as np
    import SUAVE
    from SUAVE.Core import Data
    from SUAVE.Optimization import Nexus
    from SUAVE.Analyses import Process


ModelFailure = core.Injected


def hit(step):
    """The model's fault point: called by every step of every evaluation."""
    p = FAULT['plan']
    if p is None: return
    if step == 0: FAULT['count'] += 1
    if FAULT['count'] - 1 == p.get('nth', 0) and step == p['step'] and not p.get('done'):
        p['done'] = True
        p['fired'] = True
        if p['kind'] not in core.ERRORS: raise {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError, 'SystemExit': SystemExit}[p['kind']]('injected')
        raise core.injected(p['kind'])


def build(cfg):
    n = cfg['n']
    nx = Nexus()
    nx.vehicle = Data(); nx.vehicle.wing = Data()
    nx.configs = Data()
    for c in ('base', 'cruise', 'landing')[:cfg['nconf']]:
        nx.configs[c] = Data(); nx.configs[c].wing = Data(); nx.configs[c].wing.sweep = 0.0
    nx.vehicle.span = 1.0; nx.vehicle.area = 1.0; nx.vehicle.copy_of = 0.0; nx.vehicle.wing.chord = 1.0
    names = ['v0', 'v1', 'v2', 'v3'][:n]
    paths = ['vehicle.span', ['vehicle.area', 'vehicle.copy_of'], 'configs.*.wing.sweep', 'vehicle.wing.chord'][:n]
    op = Data()
    rows = []
    for i in range(n):
        rows.append([names[i], cfg['ini'][i], cfg['lb'][i], cfg['ub'][i], cfg['scl'][i], cfg['unit'][i]])
    op.inputs = np.array(rows, dtype=object)
    op.objective = np.array([['obj', cfg['oscl'], cfg['ounit']]], dtype=object)
    cons = []
    for j, (sense, bound, scl, unit) in enumerate(cfg['cons']):
        cons.append(['c%d' % (cfg['order'][j] if cfg.get('order') else j), sense, bound, scl, unit])
    op.constraints = np.array(cons, dtype=object).reshape(len(cons), 5)
    op.aliases = [[names[i], paths[i]] for i in range(n)] + [['obj', 'summary.obj']] + \
                 [['c%d' % j, 'results.part%d.c%d' % (j % 2, j)] for j in range(len(cons))]
    nx.optimization_problem = op
    nx.hard_bounded_inputs = cfg['hard']
    nx.cfg = Data()

    def s0(nexus):
        hit(0)
        v = nexus.vehicle
        sw = [nexus.configs[k].wing.sweep for k in nexus.configs.keys()]
        nexus.results.base = float(v.span) * 1.5 + float(v.area) * 0.25 - float(v.copy_of) * 0.125 + float(v.wing.chord) * 3.0 + sum(
            (k + 1) * float(s) for k, s in enumerate(sw))
        for part in ('part0', 'part1'):
            if part not in nexus.results.keys(): nexus.results[part] = Data()
        return nexus

    def s1(nexus):
        fid = nexus.fidelity_level
        b = nexus.results.base
        for j in range(0, len(cfg['cons']), 2):
            nexus.results.part0['c%d' % j] = math.sin(b + j) * 10 + fid * 0.7 * j + b
        hit(1)
        if cfg['bad'] is not None and abs(math.sin(b * 7.0)) < cfg['bad']:
            if cfg['badkind'] == 'raise': raise core.injected(cfg['badexc'], 'no solution for this design')
            nexus.results.part0.c0 = float('nan')
        return nexus

    def s2(nexus):
        b = nexus.results.base
        for j in range(1, len(cfg['cons']), 2):
            nexus.results.part1['c%d' % j] = math.cos(b * j) * 5 - nexus.fidelity_level + b * b
        hit(2)
        return nexus

    class Obj(object):
        def evaluate(self, nexus):
            b = nexus.results.base
            nexus.summary.obj = np.array(b * b + nexus.fidelity_level * 0.3 + sum(nexus.results.part0.values()) if len(cfg['cons']) else b * b + nexus.fidelity_level)
            hit(3)
            return nexus
    nx.procedure = Process()
    nx.procedure.setup = s0
    nx.procedure.first = s1
    if cfg['obj_step']:
        nx.procedure.second = s2
        nx.procedure.final = Obj()
    else:
        nx.procedure.second = s2
        o = Obj()
        nx.procedure.final = lambda nexus: o.evaluate(nexus)
    return nx


def vec(v):
    return [float(a) for a in np.atleast_1d(np.array(v, dtype=float)).ravel()]


def same(a, b):
    return len(a) == len(b) and all((x == y) or (x != x and y != y) for x, y in zip(a, b))


def call(nx, op):
    x = None if op['x'] is None else np.array(op['x'], dtype=float)
    k = op['op']
    if k == 'obj': return vec(nx.objective(x))
    if k == 'ineq': return vec(nx.inequality_constraint(x))
    if k == 'eq': return vec(nx.equality_constraint(x))
    if k == 'all': return vec(nx.all_constraints(x))
    if k == 'fd':
        g, j = nx.finite_difference(x, diff_interval=op['h'])
        return vec(g) + vec(j)
    if k == 'translate':
        i, c = nx.translate(x)
        return vec(c[:, 1])
    raise HarnessError(k)


class C01(Check):
    prop = 'C01'
    n_quick, n_thorough = 6000, 200000
    rule = ('seeded sequences of objective/constraint/gradient requests over a small pool of designs and fidelity levels on a '
            'synthetic multi-step problem (aliases with lists and wildcards, scales, units); failures at a model step or interrupts at '
            'a line of the evaluation; non-trivial = at least one fault fired or one cached evaluation was answered')
    real = ['SUAVE.Optimization.Nexus', 'SUAVE.Optimization.helper_functions', 'SUAVE.Core.Data', 'SUAVE.Analyses.Process']
    stub = ['the vehicle model inside the procedure (a closed-form multi-step function that can fail)']
    assumptions = ['the procedure itself is a function of the design variables and fidelity level']
    expected_probes = ['cache_hit', 'after_failure_same_point', 'after_failure_previous_point', 'fidelity_change', 'nan_result']
    state_measure = 'distinct (operation, fidelity, fault kind/step, relation to previous successful and failed points)'

    def setup(self):
        setup_modules()

    def gen(self, rng, tier, i):
        n = rng.choice([1, 2, 2, 3, 4])
        nc = rng.choice([0, 1, 2, 3, 4]) if rng.random() < .9 else 6
        cfg = dict(n=n, nconf=rng.choice([1, 2, 3]), ini=[round(rng.uniform(-2, 2), 2) for _ in range(n)],
                   lb=[-3.0] * n, ub=[3.0] * n, scl=[rng.choice([1.0, 2.0, 0.5, 10.0]) for _ in range(n)],
                   unit=[rng.choice([1.0, 1.0, 0.3048, 1000.0]) for _ in range(n)], oscl=rng.choice([1.0, 5.0]), ounit=rng.choice([1.0, 2.0]),
                   cons=[(rng.choice('<>=' if rng.random() < .8 else '<>'), round(rng.uniform(-5, 5), 2), rng.choice([1.0, 4.0]), rng.choice([1.0, .5])) for _ in range(nc)],
                   hard=rng.random() < .2, bad=rng.choice([None, None, .1, .3]), badkind=rng.choice(['raise', 'nan']), badexc=rng.choice(core.ERRORS), obj_step=rng.random() < .5)
        pool = [[round(rng.uniform(-1.5, 1.5), 2) for _ in range(n)] for _ in range(rng.choice([2, 2, 3, 4]))]
        for k in range(len(pool)):
            if rng.random() < .3:                       # designs that differ in one variable only
                pool[k] = list(pool[0]); pool[k][rng.randrange(n)] += rng.choice([.25, 1e-8, -.5, 1e-13])
        if rng.random() < .2: pool.append([4.5] * n)
        ops = []
        p_fault = rng.choice([0.0, .15, .3, .5])
        for _ in range(rng.randint(4, 18)):
            r = rng.random()
            if r < .12:
                ops.append(dict(op='fidelity', level=rng.choice([1, 2, 2, 3]))); continue
            if r < .15:
                ops.append(dict(op='force', on=rng.random() < .5)); continue
            if r < .20:
                ops.append(dict(op='table', x=[round(rng.uniform(-2, 2), 2) for _ in range(n)])); continue
            if r < .27:
                ops.append(dict(op='setup', what=rng.choice(['con', 'sense', 'oscl', 'scl', 'swap', 'unit', 'unit', 'cunit', 'bounds', 'ounit']), j=rng.randrange(6), a=round(rng.uniform(-5, 5), 2),
                                b=rng.choice([1.0, 3.0, 8.0]), s=rng.choice('<>='))); continue
            kind = rng.choice(['obj', 'obj', 'obj', 'ineq', 'eq', 'all', 'all', 'fd'] + (['translate'] if nc else []))
            o = dict(op=kind, x=(rng.choice(pool) if rng.random() < .93 or kind == 'fd' else None))
            if kind == 'fd': o['h'] = rng.choice([1e-8, 1e-4, 1e-2])
            if rng.random() < p_fault:
                if rng.random() < .75:
                    o['fault'] = dict(step=rng.randrange(4), nth=0 if kind != 'fd' else rng.randrange(n + 1),
                                      kind=rng.choice(core.ERRORS + ['KeyboardInterrupt', 'MemoryError', 'SystemExit']))
                else:
                    o['fault'] = dict(line=round(rng.random(), 4), kind=rng.choice(['KeyboardInterrupt', 'MemoryError']))
            ops.append(o)
        return dict(cfg=cfg, ops=ops)

    def run(self, scn, ctx):
        cfg = copy.deepcopy(scn['cfg'])
        nx = build(cfg)
        live_cfg, cfg = cfg, copy.deepcopy(cfg)      # cfg follows later set-up changes
        last_ok, last_failed, failed_since = None, None, False
        for k, op in enumerate(scn['ops']):
            if op['op'] == 'fidelity':
                nx.fidelity_level = op['level']; ctx.log('fidelity', op['level']); ctx.probe('fidelity_change'); continue
            if op['op'] == 'force':
                nx.force_evaluate = op['on']; continue
            if op['op'] == 'table':
                nx.optimization_problem.inputs[:, 1] = np.array(op['x'][:cfg['n']], dtype=object); ctx.log('table', op['x']); continue
            if op['op'] == 'setup':
                t = nx.optimization_problem
                if op['what'] == 'con' and cfg['cons']:
                    j = op['j'] % len(cfg['cons'])
                    cfg['cons'][j] = [cfg['cons'][j][0], op['a'], op['b'], cfg['cons'][j][3]]
                    t.constraints[j, 2] = op['a']; t.constraints[j, 3] = op['b']
                elif op['what'] == 'sense' and cfg['cons']:
                    j = op['j'] % len(cfg['cons'])
                    cfg['cons'][j] = [op['s'], op['a'], cfg['cons'][j][2], cfg['cons'][j][3]]
                    t.constraints[j, 1] = op['s']; t.constraints[j, 2] = op['a']
                elif op['what'] == 'ounit':
                    cfg['ounit'] = op['b']; t.objective[0, 2] = op['b']
                elif op['what'] == 'oscl':
                    cfg['oscl'] = op['b']; t.objective[0, 1] = op['b']
                elif op['what'] == 'scl':
                    j = op['j'] % cfg['n']
                    cfg['scl'][j] = op['b']; t.inputs[j, 4] = op['b']
                elif op['what'] == 'unit':
                    j = op['j'] % cfg['n']
                    cfg['unit'][j] = op['b'] * 0.5; t.inputs[j, 5] = op['b'] * 0.5
                elif op['what'] == 'bounds':
                    j = op['j'] % cfg['n']
                    cfg['lb'][j], cfg['ub'][j] = -op['b'] * 0.5, op['b'] * 0.5; t.inputs[j, 2:4] = [-op['b'] * 0.5, op['b'] * 0.5]
                elif op['what'] == 'cunit' and cfg['cons']:
                    j = op['j'] % len(cfg['cons'])
                    cfg['cons'][j] = [cfg['cons'][j][0], cfg['cons'][j][1], cfg['cons'][j][2], op['b']]; t.constraints[j, 4] = op['b']
                elif op['what'] == 'swap' and len(cfg['cons']) > 1:
                    nx.optimization_problem.constraints = t.constraints[::-1].copy(); cfg['rev'] = not cfg.get('rev')
                    cfg['cons'] = cfg['cons'][::-1]; cfg['order'] = (cfg.get('order') or list(range(len(cfg['cons']))))[::-1]
                ctx.log('setup', op['what']); continue
            # what a fresh copy says
            fresh = build(cfg)
            fresh.fidelity_level = nx.fidelity_level
            fresh.optimization_problem.inputs[:, 1] = copy.deepcopy(nx.optimization_problem.inputs[:, 1])
            FAULT['plan'] = None
            try:
                want = ('ok', call(fresh, op))
            except ModelFailure:
                want = ('raise', None)
            f = op.get('fault')
            FAULT['count'] = 0
            fired = False
            try:
                if f and 'line' in f:
                    probe = copy.deepcopy(nx)
                    c = Counter()
                    try:
                        with c: call(probe, op)
                    except ModelFailure:
                        pass
                    at = 1 + int(f['line'] * max(c.n - 1, 0))
                    exc = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError}[f['kind']]
                    c = Counter(at=at, exc=exc)
                    try:
                        with c: got = ('ok', call(nx, op))
                    finally:
                        fired = c.fired
                else:
                    FAULT['plan'] = dict(f) if f else None
                    got = ('ok', call(nx, op))
            except BaseException as e:
                if FAULT['plan']: fired = fired or bool(FAULT['plan'].get('fired'))
                if not fired and not isinstance(e, ModelFailure): raise
                got = ('raise', type(e).__name__)
            finally:
                if FAULT['plan']: fired = fired or bool(FAULT['plan'].get('fired'))
                cnt = FAULT['count']
                FAULT['plan'] = None
            if fired: ctx.fault(('line:' if 'line' in f else 'step%d:' % f['step']) + f['kind'])
            if got[0] == 'ok' and cnt == 0 and op['op'] != 'fd': ctx.probe('cache_hit')
            rel = ('P' if op['x'] == last_ok else '-') + ('F' if op['x'] == last_failed else '-')
            ctx.state(op['op'], nx.fidelity_level, fired and (f.get('step', 'line'), f['kind']), rel, failed_since, got[0], op['x'] is None)
            ctx.log(k, op['op'], op['x'], 'fid', nx.fidelity_level, 'fired' if fired else '', got[0], got[1])
            if failed_since and op['x'] == last_ok: ctx.probe('after_failure_previous_point')
            if failed_since and op['x'] == last_failed: ctx.probe('after_failure_same_point')
            if got[0] == 'ok':
                if any(v != v for v in got[1]): ctx.probe('nan_result')
                if want[0] == 'raise':
                    raise Violation('stale-after-failure', 'op %d (%s at %s): returned %s although the model cannot be evaluated there' % (k, op['op'], op['x'], got[1]))
                if not same(got[1], want[1]):
                    raise Violation('history-dependent', 'op %d (%s at %s, fidelity %s): got %s, a fresh problem gives %s' % (k, op['op'], op['x'], nx.fidelity_level, got[1][:6], want[1][:6]))
                last_ok, failed_since = op['x'], False
            else:
                if not fired and want[0] == 'ok':
                    raise Violation('spurious-error', 'op %d (%s at %s) raised %s; a fresh problem answers' % (k, op['op'], op['x'], got[1]))
                last_failed, failed_since = op['x'], True

    def shrink(self, scn):
        for k, op in enumerate(scn['ops']):
            if op.get('fault'):
                yield dict(scn, ops=scn['ops'][:k] + [{a: b for a, b in op.items() if a != 'fault'}] + scn['ops'][k + 1:])
            if op['op'] in ('fd', 'ineq', 'eq', 'all', 'translate'):
                o = dict(op, op='obj'); o.pop('h', None)
                yield dict(scn, ops=scn['ops'][:k] + [o] + scn['ops'][k + 1:])
        c = scn['cfg']
        if c['bad'] is not None: yield dict(scn, cfg=dict(c, bad=None))
        if c['hard']: yield dict(scn, cfg=dict(c, hard=False))


CHECK = C01()
