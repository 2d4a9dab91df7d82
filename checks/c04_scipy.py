"""C04: translation of an optimization problem into what the SciPy solvers are given."""
import io, contextlib, math, warnings
from sim.core import Check, Violation, HarnessError
from sim import core, env




def setup_modules():
    global np, sp, SUAVE, Data, Nexus, Process, scipy_setup
    import numpy as np
    import scipy as sp, scipy.optimize
    import SUAVE
    from SUAVE.Core import Data
    from SUAVE.Optimization import Nexus
    from SUAVE.Analyses import Process
    from SUAVE.Optimization.Package_Setups import scipy_setup


class Problem(object):
    """One declared problem, its closed-form model and the record of the designs the model saw (in model units)."""
    def __init__(self, cfg):
        self.cfg = cfg
        self.n = n = len(cfg['vars'])
        self.seen, self.fail_at = [], None
        V = cfg['vars']
        self.lo = np.array([v['lb'] * v['unit'] for v in V]); self.hi = np.array([v['ub'] * v['unit'] for v in V])
        self.k = np.array([v['scl'] * v['unit'] for v in V])
        nx = self.nx = Nexus()
        nx.vehicle = Data(); nx.vehicle.part = Data()
        for i in range(n): nx.vehicle.part['a%d' % i] = 0.0
        nx.summary = Data()
        op = Data()
        rows = np.empty((n, 6), dtype=object)
        for i, v in enumerate(V):
            rows[i, :] = ['x%d' % i, v['ini'], v['lb'], v['ub'], v['scl'], v['unit']]
        op.inputs = rows
        op.objective = np.array([['o', cfg['oscl'], 1.0]], dtype=object)
        star = self.at(cfg['star'])
        cons = []
        self.cons = []
        self.outs = {c.get('out', 'c%d' % j): c for j, c in enumerate(cfg['cons'])}
        for j, c in enumerate(cfg['cons']):
            v = self.value(c, star)
            b = v / c['unit'] + ({'<': 1, '>': -1, '=': 0}[c['sense']]) * c['margin']
            cons.append([c.get('out', 'c%d' % j), c['sense'], b, c['scl'], c['unit']])
            self.cons.append((c, c['sense'], b * c['unit']))
        order = cfg['order']
        cons = [cons[j] for j in order]
        t = np.empty((len(cons), 5), dtype=object)
        for a, row in enumerate(cons): t[a, :] = row
        op.constraints = t
        op.aliases = [['x%d' % i, 'vehicle.part.a%d' % i] for i in range(n)] + [['o', 'summary.o']] + [[z, 'summary.' + z] for z in self.outs]
        nx.optimization_problem = op
        pb = self

        def model(nexus):
            a = np.array([float(nexus.vehicle.part['a%d' % i]) for i in range(n)])
            k = len(pb.seen)
            pb.seen.append(a)
            if pb.fail_at == k: raise core.injected(pb.fail_exc)
            nexus.summary.o = pb.objective(a)
            for z, c in pb.outs.items(): nexus.summary[z] = pb.value(c, a)
            if len(pb.seen) > 60000: raise Violation('does-not-stop', 'more than 60000 evaluations')
            return nexus
        nx.procedure = Process(); nx.procedure.model = model

    def unit(self, a): return (np.asarray(a) - self.lo) / (self.hi - self.lo)
    def at(self, u): return self.lo + np.array(u) * (self.hi - self.lo)
    def x(self, u): return self.at(u) / self.k                       # the solver's variables

    def value(self, c, a):
        u = self.unit(a)
        return float(np.dot(c['w'][:self.n], u)) + c['curve'] * float((u ** 2).sum()) + c['off']

    def objective(self, a):
        u = self.unit(a)
        return float((u - np.array(self.cfg['goal'][:self.n])) @ (u - np.array(self.cfg['goal'][:self.n]))) * 3.0 + 0.5

    def margins(self, a):
        """(sense, signed violation-free margin) of every declared constraint, in the output's own units."""
        out = []
        for c, s, b in self.cons:
            v = self.value(c, a)
            out.append((s, v - b if s == '>' else b - v if s == '<' else -abs(v - b)))
        return out


class Solver(object):
    """Adversarial stand-in for a SciPy solver: records what it was given and probes it."""
    def __init__(self, pb, probes, ctx, k):
        self.pb, self.probes, self.ctx, self.k, self.used = pb, probes, ctx, k, None

    def probe(self, name, fun, x0, box, ineq, eq, interval):
        pb, ctx = self.pb, self.ctx
        self.used = name
        ctx.probe('solver:' + name)
        if x0 is not None and self.k == 0:       # later solves start where the last one stopped
            want = np.array([v['ini'] / v['scl'] for v in pb.cfg['vars']])
            if not np.allclose(np.array(x0, dtype=float), want, rtol=1e-12, atol=1e-300): raise Violation('wrong-start', 'op %d: %s starts at %s, not %s' % (self.k, name, list(x0), want.tolist()))
        if box is None: raise Violation('bounds-not-presented', 'op %d: %s is given no bounds' % (self.k, name))
        if hasattr(box, 'lb'): box = list(zip(np.ravel(box.lb), np.ravel(box.ub)))
        box = np.array([[float(a), float(b)] for a, b in box])
        want = np.array([[v['lb'] / v['scl'], v['ub'] / v['scl']] for v in pb.cfg['vars']])
        if box.shape != want.shape or not np.allclose(box, want, rtol=1e-12, atol=1e-300):
            raise Violation('wrong-bounds', 'op %d: %s is given bounds %s, declared (scaled) %s' % (self.k, name, box.tolist(), want.tolist()))
        best = None
        for p in self.probes:
            x = pb.x(p['u'])
            a = pb.at(p['u'])
            ms = pb.margins(a)
            for what in p['order']:
                if what == 'f':
                    v = float(np.ravel(np.array(fun(x), dtype=float))[0])
                    if not math.isclose(v, pb.objective(a) / pb.cfg['oscl'], rel_tol=1e-9, abs_tol=1e-12):
                        raise Violation('wrong-objective', 'op %d: %s: objective %r at %s, model %r' % (self.k, name, v, a.tolist(), pb.objective(a) / pb.cfg['oscl']))
                elif what == 'c':
                    bad = []
                    for g in ineq:
                        if callable(g): bad += [float(z) for z in np.ravel(np.array(g(x), dtype=float)) if not z >= -1e-9]
                    for g in eq:
                        if callable(g): bad += [float(z) for z in np.ravel(np.array(g(x), dtype=float)) if not abs(z) <= 1e-9]
                    for g, lb, ub in interval:
                        z = np.ravel(np.array(g(x), dtype=float))
                        lb_, ub_ = np.broadcast_to(np.ravel(lb), z.shape), np.broadcast_to(np.ravel(ub), z.shape)
                        for q in range(len(z)):
                            t = 1e-9 * (1 + abs(z[q]))
                            if not (lb_[q] - t <= z[q] <= ub_[q] + t): bad.append(float(z[q]))
                    tight = min([1e300] + [abs(m) for s, m in ms if s != '='])
                    if tight < 1e-6: continue                         # too close to an edge to decide
                    unmet = [j for j, (s, m) in enumerate(ms) if (m < -1e-6 if s == '=' else m < 0)]
                    near = [j for j, (s, m) in enumerate(ms) if s == '=' and 1e-10 < -m <= 1e-6]
                    if near: continue
                    accept = not bad
                    ctx.probe('probe:accepted' if accept else 'probe:rejected')
                    if accept and unmet:
                        c, s, b = pb.cons[unmet[0]]
                        raise Violation('constraint-not-presented', 'op %d: %s accepts the design %s although constraint c%d %s %r has value %r' % (
                            self.k, name, a.tolist(), unmet[0], s, b, pb.value(c, a)))
                    if not accept and not unmet:
                        raise Violation('constraint-invented', 'op %d: %s rejects the design %s (%s) although every declared constraint holds: %s' % (self.k, name, a.tolist(), bad, ms))
                    if accept: best = x
        self.ctx.state(name, len(ineq), len(eq), len(interval), len(pb.cons), [s for c, s, b in pb.cons])
        return best if best is not None else pb.x(self.probes[0]['u'])

    def slsqp(self, func, x0, eqcons=(), f_eqcons=None, ieqcons=(), f_ieqcons=None, bounds=(), *a, **kw):
        ineq = [f_ieqcons] if f_ieqcons is not None else list(ieqcons)
        eq = [f_eqcons] if f_eqcons is not None else list(eqcons)
        x = self.probe('fmin_slsqp', func, x0, None if len(bounds) == 0 else bounds, ineq, eq, [])
        return (x, float(np.ravel(func(x))[0]), 3, 0, 'ok') if kw.get('full_output') else x

    def constraint_list(self, constraints):
        ineq, eq, interval = [], [], []
        if isinstance(constraints, dict) or hasattr(constraints, 'lb'): constraints = [constraints]
        for c in constraints:
            if isinstance(c, dict):
                f = lambda x, c=c: c['fun'](x, *c.get('args', ()))
                (eq if c['type'] == 'eq' else ineq).append(f)
            elif hasattr(c, 'A'): interval.append((lambda x, c=c: np.asarray(c.A) @ x, c.lb, c.ub))
            else: interval.append((c.fun, c.lb, c.ub))
        return ineq, eq, interval

    def minimize(self, fun, x0, args=(), method=None, jac=None, hess=None, hessp=None, bounds=None, constraints=(), **kw):
        ineq, eq, interval = self.constraint_list(constraints)
        x = self.probe('minimize', fun, x0, bounds, ineq, eq, interval)
        return sp.optimize.OptimizeResult(x=x, fun=fun(x), success=True, message='stub', nit=1)

    def de(self, func, bounds, args=(), *a, **kw):
        ineq, eq, interval = self.constraint_list(kw.get('constraints', ()))
        x = self.probe('differential_evolution', func, None, bounds, ineq, eq, interval)
        return sp.optimize.OptimizeResult(x=x, fun=func(x), success=True, message='stub', nit=1)

    def pso(self, func, lb, ub, ieqcons=(), f_ieqcons=None, args=(), kwargs={}, *a, **kw):
        x = self.probe('particle_swarm', func, None, list(zip(lb, ub)), [f_ieqcons] if f_ieqcons is not None else list(ieqcons), [], [])
        return x, func(x)

    def __enter__(self):
        from SUAVE.Optimization.Package_Setups import particle_swarm_optimization as P
        import sys
        o = sp.optimize
        real_pso = P.particle_swarm_optimization if hasattr(P, 'particle_swarm_optimization') else P
        new = {o.fmin_slsqp: self.slsqp, o.minimize: self.minimize, o.differential_evolution: self.de, real_pso: self.pso}
        self.undo = []
        for name, mod in [('scipy.optimize', o)] + [(m, v) for m, v in list(sys.modules.items()) if m.startswith('SUAVE') and v is not None]:
            for k, v in list(getattr(mod, '__dict__', {}).items()):
                try: hit = callable(v) and v in new
                except TypeError: hit = False
                if hit:
                    self.undo.append((mod, k, v)); setattr(mod, k, new[v])
        return self

    def __exit__(self, *a):
        for m, k, v in reversed(self.undo): setattr(m, k, v)
        return False


class C04(Check):
    prop = 'C04'
    n_quick, n_thorough = 2600, 100000
    timeout = 120
    budget_quick = 150
    rule = ('seeded problems of 1-3 variables and 0-5 constraints (senses, bounds, units, scales, table order) solved repeatedly on one Nexus through '
            'the SciPy driver; the solver is an adversarial stand-in that probes what it was given at designs inside, on and outside the declared '
            'region, in any order, or (one run in eight) the real solver; model evaluations fail at a chosen point; non-trivial = a failure was '
            'injected, or the stand-in saw both accepted and rejected designs, or a real solver ran')
    real = ['SUAVE.Optimization.Package_Setups.scipy_setup', 'SUAVE.Optimization.Nexus', 'SUAVE.Optimization.helper_functions', 'particle_swarm_optimization and SciPy solvers (in the real-solver runs)']
    stub = ['the model inside the Nexus procedure (closed form)', 'the SciPy solvers (adversarial stand-in in the probing runs)']
    assumptions = ['equality constraints are not given to the particle swarm solver, whose interface only takes inequalities']
    expected_probes = ['solver:fmin_slsqp', 'solver:differential_evolution', 'solver:particle_swarm', 'probe:accepted', 'probe:rejected', 'real:SLSQP', 'real:particle_swarm_optimization',
                       'real:differential_evolution', 'real_success', 'raise_propagated']
    state_measure = 'distinct (solver, presented constraint forms, declared senses) tuples'

    def setup(self): setup_modules()

    def gen(self, r, tier, i):
        n = r.choice([1, 2, 2, 3])
        vars_ = []
        for _ in range(n):
            lb = r.choice([-3.0, -1.0, 0.0, 0.5, 100.0, -40.0]); ub = lb + r.choice([0.5, 1.0, 4.0, 60.0])
            vars_.append(dict(lb=lb, ub=ub, ini=lb + r.choice([0.0, 0.25, 0.5, 0.9, 1.0]) * (ub - lb), scl=r.choice([1.0, 1.0, 10.0, 0.1, 250.0]), unit=r.choice([1.0, 1.0, 0.3048, 1000.0])))
        ops = []
        for _ in range(r.choice([1, 2, 3])):
            solver = r.choice(['SLSQP', 'SLSQP', 'differential_evolution', 'differential_evolution', 'particle_swarm_optimization', 'L-BFGS-B', 'COBYLA'])
            real = r.random() < 0.12 and solver in ('SLSQP', 'particle_swarm_optimization') or (solver == 'differential_evolution' and r.random() < 0.02)
            op = dict(solver=solver, real=bool(real), seed=r.getrandbits(31), fail_at=r.choice([0, 1, 2, 5, 9, 20]) if r.random() < 0.3 else None, exc=r.choice(core.ERRORS))
            if real: op.update(pop=r.choice([3, 5]), iter=r.choice([2, 20, 60]))
            else:
                op['probes'] = [dict(u=[1.0 if z is None else z for z in [r.choice([0.0, 1.0, r.random(), r.random(), r.random()]) for _ in range(n)]],
                                     order=r.choice(['fc', 'cf', 'c', 'cc', 'fcf'])) for _ in range(r.choice([3, 8, 20]))]
                op['star'] = [r.randrange(len(op['probes'])) for _ in range(2)]
            ops.append(op)
        pso = any(o['solver'] in ('particle_swarm_optimization', 'COBYLA') for o in ops)
        cons = []
        for j in range(r.choice([0, 1, 1, 2, 2, 3, 5])):
            s = r.choice(['<', '>', '<', '>', '='] if not pso else ['<', '>'])
            if s == '=' and sum(1 for c in cons if c['sense'] == '=') >= n: s = '<'
            cons.append(dict(sense=s, w=[r.choice([-1.0, 1.0, 2.0, -0.5, 0.0]) + r.random() for _ in range(3)], curve=r.choice([0, 0, 0.3, -0.2]), off=r.choice([0.0, 5.0, -2.0, 0.3]),
                             scl=r.choice([1.0, 1.0, 10.0, 0.1, 35.9]), unit=r.choice([1.0, 1.0, 0.3048, 1000.0]), margin=r.choice([1e-3, 0.05, 0.2])))
        for j, c in enumerate(cons): c['out'] = 'c%d' % j
        if len(cons) > 1 and r.random() < .35:                                       # two limits of one output
            i, j = r.sample(range(len(cons)), 2)
            cons[j].update({z: cons[i][z] for z in ('out', 'w', 'curve', 'off', 'unit')})
            if '=' in (cons[i]['sense'], cons[j]['sense']): cons[i]['sense'], cons[j]['sense'] = '<', '>'
            if cons[i]['sense'] == cons[j]['sense']: cons[j]['margin'] = cons[i]['margin'] * r.choice([.3, 3.])
        for c in cons: c['margin'] /= c['unit']
        order = list(range(len(cons))); r.shuffle(order)
        return dict(cfg=dict(vars=vars_, cons=cons, order=order, oscl=r.choice([1.0, 10.0, 0.01]), star=[r.uniform(0.1, 0.9) for _ in range(n)], goal=[r.uniform(-0.3, 1.3) for _ in range(3)]), ops=ops)

    def run(self, scn, ctx):
        warnings.simplefilter('ignore')
        cfg = scn['cfg']
        pb = Problem(cfg)
        for k, op in enumerate(scn['ops']):
            pb.seen, pb.fail_at, pb.fail_exc = [], op['fail_at'], op.get('exc')
            out = io.StringIO()
            np.random.seed(op['seed'])
            kw = dict(solver=op['solver'])
            if op['real']: kw.update(pop_size=op['pop'], prob_seed=op['seed'] % 1000, iter=op['iter'])
            stub = None
            probes = list(op.get('probes') or [])
            for s in op.get('star') or []: probes.insert(min(s, len(probes)), dict(u=cfg['star'], order='fc'))
            try:
                with contextlib.redirect_stdout(out), np.errstate(all='ignore'):
                    if op['real']: res = scipy_setup.SciPy_Solve(pb.nx, **kw)
                    else:
                        with Solver(pb, probes, ctx, k) as stub: res = scipy_setup.SciPy_Solve(pb.nx, **kw)
            except Exception as e:
                if not core.is_injected(e): raise
                ctx.fault('evaluation_raises'); ctx.probe('raise_propagated')
                ctx.log(k, op['solver'], 'raised', len(pb.seen))
                if op['fail_at'] is None or len(pb.seen) <= op['fail_at']: raise HarnessError('failure without injection')
                continue
            if op['fail_at'] is not None and len(pb.seen) > op['fail_at']:
                raise Violation('failure-swallowed', 'op %d: evaluation %d raised and %s returned' % (k, op['fail_at'], op['solver']))
            ctx.log(k, op['solver'], 'real' if op['real'] else stub.used, len(pb.seen), [a.tolist() for a in pb.seen[:20]])
            if stub is not None and stub.used is None: raise HarnessError('the %s solver seam was not reached' % op['solver'])
            if op['real']: self.judge(k, op, pb, res, out.getvalue(), ctx)

    def judge(self, k, op, pb, res, text, ctx):
        ctx.probe('real:' + op['solver'])
        span = pb.hi - pb.lo
        step = np.abs(pb.k) * 1.5e-7 + 1e-9 * (span + np.abs(pb.lo) + np.abs(pb.hi))
        if op['solver'] != 'differential_evolution':
            for j, a in enumerate(pb.seen):
                if np.any(a < pb.lo - step) or np.any(a > pb.hi + step):
                    raise Violation('outside-bounds', 'op %d: %s evaluates %s outside %s..%s' % (k, op['solver'], a.tolist(), pb.lo.tolist(), pb.hi.tolist()))
        if op['solver'] == 'SLSQP': x, ok = res, 'terminated successfully' in text
        elif op['solver'] == 'differential_evolution': x, ok = res.x, bool(res.success)
        else: x, ok = res[0], float(np.ravel(res[1])[0]) < 1e90
        x = np.array(x, dtype=float)
        ctx.log('result', x.tolist(), ok)
        a = x * pb.k
        if np.any(a < pb.lo - step) or np.any(a > pb.hi + step): raise Violation('outside-bounds', 'op %d: %s returns %s outside %s..%s' % (k, op['solver'], a.tolist(), pb.lo.tolist(), pb.hi.tolist()))
        if ok:
            ctx.probe('real_success')
            for j, (s, m) in enumerate(pb.margins(a)):
                tol = 2e-5 * max(1.0, abs(pb.cons[j][0]['scl']))
                if m < -tol: raise Violation('success-violates-constraint', 'op %d: %s reports success at %s, where constraint c%d %s %r has value %r' % (
                    k, op['solver'], a.tolist(), j, s, pb.cons[j][2], pb.value(pb.cons[j][0], a)))

    def nontrivial(self, scn, snap):
        p = snap['probes']
        return bool(snap['faults']) or (p.get('probe:accepted', 0) and p.get('probe:rejected', 0)) or any(o['real'] for o in scn['ops'])

    def shrink(self, scn):
        for k, op in enumerate(scn['ops']):
            def put(**d): return dict(scn, ops=scn['ops'][:k] + [dict(op, **d)] + scn['ops'][k + 1:])
            if op['fail_at'] is not None: yield put(fail_at=None)
            if op.get('star'): yield put(star=[])
            ps = op.get('probes') or []
            for j in range(len(ps)):
                if len(ps) > 1: yield put(probes=ps[:j] + ps[j + 1:], star=[])
        c = scn['cfg']
        for j in range(len(c['cons'])):
            left = [q for q in range(len(c['cons'])) if q != j]
            yield dict(scn, cfg=dict(c, cons=[c['cons'][q] for q in left], order=[left.index(q) for q in c['order'] if q != j]))
        for j, v in enumerate(c['vars']):
            for d in (dict(scl=1.0), dict(unit=1.0)):
                if dict(v, **d) != v: yield dict(scn, cfg=dict(c, vars=c['vars'][:j] + [dict(v, **d)] + c['vars'][j + 1:]))


CHECK = C04()
