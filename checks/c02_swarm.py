"""C02: particle swarm search over simulated random streams and evaluation failures."""
import math, io, contextlib
from sim.core import Check, Violation, HarnessError
from sim import core, env


ModelFailure = core.Injected


class C02(Check):
    prop = 'C02'
    n_quick, n_thorough = 6000, 300000
    timeout = 40
    rule = ('seeded swarms: 1-12 particles, 1-4 variables, constraint forms (none / list / vector), objectives that return NaN or raise on '
            'regions or at the n-th evaluation; random streams with extreme draws (0, 1/2, the largest double below 1) mixed in; '
            'non-trivial = a failed, infeasible or extreme-draw evaluation happened')
    real = ['SUAVE.Optimization.Package_Setups.particle_swarm_optimization']
    stub = ['objective and constraint functions (closed-form, with failing regions)', 'numpy.random uniform draws (seeded, extreme values mixed in)']
    assumptions = ['objective and constraints are functions of the design vector', 'objective values are below 1e100, the documented starting value']
    expected_probes = ['nan_evaluation', 'infeasible_evaluation', 'first_particle_infeasible', 'all_infeasible', 'stop:objective', 'stop:step', 'stop:iterations', 'raise_propagated']
    state_measure = 'distinct (constraint form, failure pattern, way of stopping, evaluations) tuples'

    def setup(self):
        global np, PSO
        import numpy as np
        from SUAVE.Optimization.Package_Setups.particle_swarm_optimization import particle_swarm_optimization as PSO

    def gen(self, r, tier, i):
        D = r.choice([1, 1, 2, 2, 3, 4])
        S = r.choice([1, 2, 3, 3, 5, 8, 12])
        lb, ub = [], []
        for _ in range(D):
            a = r.choice([-2.0, -1.0, 0.0, 1.0, -1e3, 1e-3, 5.5])
            lb.append(a); ub.append(a + r.choice([1.0, 0.5, 3.0, 1e-3, 250.0]))
        ops = []
        for _ in range(r.choice([1, 1, 2, 3])):
            ops.append(dict(seed=r.getrandbits(31), S=S, maxiter=r.choice([0, 1, 2, 5, 12, 12, 25]), q=r.choice([0, 0, 0.02, 0.1, 0.5]),
                            w=r.choice([[0.5, 0.5, 0.5], [0.5, 0.5, 0.5], [0.9, 2.0, 2.0], [0.0, 0.0, 1.0], [1.2, 3.0, 3.0]]),
                            minstep=r.choice([1e-8, 1e-8, 1e-4, 0.0, 0.1]), minfunc=r.choice([1e-8, 1e-8, 1e-4, 0.0, 0.1]),
                            debug=r.random() < 0.1, nan_at=[r.randrange(0, 3 * S + 1) for _ in range(r.choice([0, 0, 0, 1, 2, S]))],
                            raise_at=r.randrange(0, 6 * S) if r.random() < 0.1 else None,
                            exc=r.choice(core.ERRORS + ['KeyboardInterrupt', 'cons', 'cons']), cexc=r.choice(core.ERRORS) ))
        return dict(cfg=dict(D=D, lb=lb, ub=ub, f=r.choice(['quad', 'quad', 'wave', 'lin', 'flat', 'step']), c=r.uniform(0, 1), form=r.choice(['none', 'list', 'vec', 'vec', 'vec']),
                             ncon=r.choice([1, 2, 3]), cc=[r.uniform(0.05, 1.0) for _ in range(3)], cnan=r.random() < 0.15, arr=r.random() < 0.3,
                             nan_region=r.choice([None, None, 0.15, 0.4, 0.8])), ops=ops)

    def model(self, cfg):
        lb, ub = np.array(cfg['lb']), np.array(cfg['ub'])

        def unit(x): return (np.array(x) - lb) / (ub - lb)

        def f(x):
            u = unit(x)
            if cfg['nan_region'] is not None and math.modf(abs(math.sin(37.0 * float(u.sum()))) * 7.0)[0] < cfg['nan_region']: return float('nan')
            c = cfg['c']
            k = cfg['f']
            if k == 'quad': return float(((u - c) ** 2).sum())
            if k == 'wave': return float((np.sin(9 * u + c) + u).sum())
            if k == 'lin': return float(u.sum() - 2 * u[0])
            if k == 'step': return float(np.floor(u * 5).sum())
            return 1.0

        def cons(x):
            u = unit(x)
            v = [float(cfg['cc'][0] - u[0]), float(u[-1] - cfg['cc'][1] * 0.4), float(cfg['cc'][2] * cfg['D'] - u.sum())][:cfg['ncon']]
            if cfg['cnan'] and float(u[0]) > 0.7: v[0] = float('nan')
            return v
        return f, cons

    def search(self, cfg, op, ctx, rng):
        f, cons = self.model(cfg)
        log = []

        def fun(x):
            n = len(log)
            x = np.array(x, dtype=float)
            if op['raise_at'] == n and op['exc'] != 'cons':
                ctx.fault('evaluation_raises')
                raise KeyboardInterrupt('injected') if op['exc'] == 'KeyboardInterrupt' else core.injected(op['exc'])
            v = f(x)
            if n in op['nan_at']:
                v = float('nan'); ctx.fault('nan_evaluation')
            if v != v: ctx.probe('nan_evaluation')
            log.append((x.copy(), v))
            if len(log) > op['S'] * (op['maxiter'] + 1) + 1: raise Violation('does-not-stop', '%d evaluations with %d particles and a limit of %d iterations' % (len(log), op['S'], op['maxiter']))
            return np.array([v]) if cfg['arr'] else v
        ncons = [0]

        def vec(x):
            ncons[0] += 1
            if op['raise_at'] is not None and op['exc'] == 'cons' and ncons[0] - 1 >= op['raise_at']:
                ctx.fault('constraint_raises')
                raise core.injected(op['cexc'])
            return np.array(cons(x))
        kw = dict(swarmsize=op['S'], omega=op['w'][0], phip=op['w'][1], phig=op['w'][2], maxiter=op['maxiter'], minstep=op['minstep'], minfunc=op['minfunc'], debug=op['debug'])
        if cfg['form'] == 'vec': kw['f_ieqcons'] = vec
        elif cfg['form'] == 'list': kw['ieqcons'] = [(lambda x, j=j: vec(x)[j]) for j in range(cfg['ncon'])]
        out = io.StringIO()
        with env.Randomness(rng, ctx, op['seed'], op['q']), contextlib.redirect_stdout(out), np.errstate(all='ignore'):
            try:
                g, fg = PSO(fun, np.array(cfg['lb']), np.array(cfg['ub']), **kw)
                res = ('ok', [float(a) for a in np.ravel(g)], [float(a) for a in np.ravel(fg)])
            except (ModelFailure, KeyboardInterrupt) as e:
                if 'injected' not in str(e): raise
                res = ('raised', type(e).__name__)
        return res, log, out.getvalue()

    def run(self, scn, ctx):
        cfg = scn['cfg']
        f, cons = self.model(cfg)
        lb, ub = np.array(cfg['lb']), np.array(cfg['ub'])
        tol = 1e-12 * (np.abs(lb) + np.abs(ub) + (ub - lb))
        for k, op in enumerate(scn['ops']):
            res, log, text = self.search(cfg, op, ctx, core.rng_for(op['seed'], 'draws'))
            ctx.log(k, res, len(log), [list(map(float, x)) + [v] for x, v in log[:40]])
            for n, (x, v) in enumerate(log):
                if x.shape != lb.shape or np.any(x < lb - tol) or np.any(x > ub + tol) or np.any(x != x):
                    raise Violation('outside-bounds', 'op %d: evaluation %d at %s, bounds %s %s' % (k, n, x.tolist(), cfg['lb'], cfg['ub']))
            if op['raise_at'] is not None and res[0] == 'raised':
                ctx.probe('raise_propagated')
            elif op['raise_at'] is not None and op['exc'] != 'cons' and len(log) > op['raise_at']:
                raise Violation('failure-swallowed', 'op %d: evaluation %d raised and the search went on' % (k, op['raise_at']))
            elif res[0] == 'raised': raise Violation('unexpected-exception', 'op %d: %s without a failing evaluation' % (k, res[1]))

            def feasible(x): return cfg['form'] == 'none' or all(c >= 0 for c in cons(x))
            feas = [feasible(x) for x, v in log]
            if not all(feas): ctx.probe('infeasible_evaluation')
            if feas and not feas[0]: ctx.probe('first_particle_infeasible')
            if res[0] == 'ok':
                g, fg = res[1], res[2]
                if len(fg) != 1 or len(g) != cfg['D']: raise Violation('malformed-result', 'op %d: %s' % (k, res))
                fg = fg[0]
                good = [(v, n) for n, (x, v) in enumerate(log) if feas[n] and v == v]
                hits = [n for n, (x, v) in enumerate(log) if list(map(float, x)) == g]
                if not hits: raise Violation('result-not-evaluated', 'op %d: the returned design %s was never evaluated' % (k, g))
                if good:
                    best = min(good)
                    if not any(feas[n] for n in hits):
                        raise Violation('infeasible-result', 'op %d: returned %s, which violates the constraints %s, though evaluation %d was feasible' % (k, g, cons(g), best[1]))
                    if not any(log[n][1] == fg for n in hits):
                        raise Violation('wrong-value', 'op %d: returned value %r for design %s, whose objective is %r' % (k, fg, g, log[hits[0]][1]))
                    if best[0] < fg:
                        raise Violation('better-design-lost', 'op %d: returned %r at %s, but evaluation %d found the feasible design %s with %r' % (
                            k, fg, g, best[1], log[best[1]][0].tolist(), best[0]))
                else:
                    ctx.probe('all_infeasible')
                    if fg == fg and fg < 1e90:
                        raise Violation('infeasible-result', 'op %d: value %r reported although no evaluated design is feasible' % (k, fg))
                if len(log) < op['S']: raise Violation('particles-not-evaluated', 'op %d: %d of %d' % (k, len(log), op['S']))
            stop = 'objective' if 'objective change' in text else 'step' if 'position change' in text else 'iterations' if 'maximum iterations' in text else 'other'
            if res[0] == 'ok': ctx.probe('stop:' + stop)
            ctx.state(cfg['form'], res[0], stop, len(log), sum(feas), sum(1 for x, v in log if v != v))
            r2, l2, t2 = self.search(cfg, op, ctx, core.rng_for(op['seed'], 'draws'))
            if r2 != res or len(l2) != len(log) or any(a[0].tolist() != b[0].tolist() for a, b in zip(log, l2)):
                raise Violation('not-repeatable', 'op %d: the same seed gives %s and then %s' % (k, res, r2))

    def nontrivial(self, scn, snap):
        return bool(snap['faults']) or bool(snap['probes'].get('infeasible_evaluation')) or bool(snap['probes'].get('nan_evaluation'))

    def shrink(self, scn):
        for k, op in enumerate(scn['ops']):
            def put(**d): return dict(scn, ops=scn['ops'][:k] + [dict(op, **d)] + scn['ops'][k + 1:])
            if op['q']: yield put(q=0)
            if op['nan_at']: yield put(nan_at=[])
            for j in range(len(op['nan_at'])): yield put(nan_at=op['nan_at'][:j] + op['nan_at'][j + 1:])
            if op['raise_at'] is not None: yield put(raise_at=None)
            for s in (1, 2, 3):
                if op['S'] > s: yield put(S=s)
            for m in (0, 1, 2, 5):
                if op['maxiter'] > m: yield put(maxiter=m)
            if op['debug']: yield put(debug=False)
            if op['w'] != [0.5, 0.5, 0.5]: yield put(w=[0.5, 0.5, 0.5])
        c = scn['cfg']
        for d in (dict(cnan=False), dict(arr=False), dict(nan_region=None), dict(form='none'), dict(ncon=1), dict(D=1, lb=c['lb'][:1], ub=c['ub'][:1])):
            n = dict(c, **d)
            if n != c: yield dict(scn, cfg=n)


CHECK = C02()
