"""C05: multi-fidelity optimizers under failing models, interrupts, disk faults and random streams."""
import io, os, sys, math, warnings
from sim.core import Check, Violation, HarnessError
from sim import core, env
from sim.fs import SimFS
from sim.instr import Counter
from checks import c04_scipy as P




class C05(Check):
    prop = 'C05'
    n_quick, n_thorough = 300, 30000
    budget_quick = 240
    timeout = 180
    rule = ('seeded two-fidelity problems of 2-3 variables with 1-3 constraints (scales, units, feasible, tight or infeasible) solved with the trust-region '
            'optimizer (loose and tight regions) or the additive-correction optimizer (basic, expected improvement), console shown or silenced, '
            'standard output replaced by the caller; a model evaluation raises, is interrupted or returns NaN at a chosen point, an interrupt arrives '
            'at a line of code the optimizer calls, or a file operation of the history fails; non-trivial = a fault fired or the run ended other than by convergence')
    real = ['TRMM Trust_Region_Optimization', 'TRMM_Solve', 'Additive_Solver', 'SUAVE.Optimization.Nexus', 'SciPy SLSQP/L-BFGS-B/SHGO', 'scikit-learn Gaussian processes']
    stub = ['the two-fidelity model inside the Nexus procedure (closed form)', 'the disk (faults injected)']
    assumptions = ['the additive optimizer writes two design variables to its history, so problems have at least two']
    expected_probes = ['end:trmm:convergence reached', 'end:trmm:Max iteration limit reached', 'end:trmm:Trust region too small', 'end:trmm:raised', 'end:additive:ok', 'end:additive:raised', 'infeasible_branch', 'silenced', 'shown']
    state_measure = 'distinct (optimizer, ending, fault, evaluations) tuples'

    def setup(self):
        global np, tro, Trust_Region, TRMM_Solve, Additive_Solver
        P.setup_modules()
        import numpy as np
        from SUAVE.Optimization.Package_Setups.TRMM import Trust_Region_Optimization as tro
        from SUAVE.Optimization.Package_Setups.TRMM.Trust_Region import Trust_Region
        from SUAVE.Optimization.Package_Setups.TRMM.TRMM_setup import TRMM_Solve
        from SUAVE.Optimization.Package_Setups.additive_setup import Additive_Solver

    def gen(self, r, tier, i):
        n = r.choice([2, 2, 3])
        vars_ = []
        for _ in range(n):
            lb = r.choice([-3.0, -1.0, 0.0, 0.5, -40.0]); ub = lb + r.choice([0.5, 1.0, 4.0, 60.0])
            vars_.append(dict(lb=lb, ub=ub, ini=lb + r.choice([0.0, 0.25, 0.5, 0.9, 1.0]) * (ub - lb), scl=r.choice([1.0, 1.0, 10.0, 0.1]), unit=r.choice([1.0, 1.0, 0.3048])))
        cons = []
        for j in range(r.choice([1, 1, 2, 3])):
            cons.append(dict(sense=r.choice(['<', '>', '<', '>', '=']), w=[r.choice([-1.0, 1.0, 2.0]) + r.random() for _ in range(3)], curve=r.choice([0, 0, 0.3]), off=0.0,
                             scl=r.choice([1.0, 1.0, 0.5]), unit=1.0, margin=r.choice([0.3, 0.05, 1e-3, -3.0, -0.4, 1.0])))
        if sum(1 for c in cons if c['sense'] == '=') > 1:
            for c in cons[1:]: c['sense'] = '<'
        for c in cons:
            if c['sense'] == '=' : c['margin'] = 0.0
        ops = []
        for _ in range(r.choice([1, 1, 2])):
            kind = r.choice(['trmm', 'trmm', 'trmm', 'additive'])
            op = dict(kind=kind, seed=r.getrandbits(31), q=r.choice([0, 0, 0.1]), silent=r.random() < 0.6, via=r.choice(['optimize', 'solve']))
            if kind == 'trmm': op.update(size=r.choice([0.05, 0.05, 1e-3, 0.5, 10.0]), minimum=r.choice([1e-15, 1e-15, 1e-3, 1e-2]), iters=r.choice([1, 3, 6, 10]), factor=r.choice([0.25, 0.5]))
            else: op.update(samples=r.choice([3, 5, 8]), iters=r.choice([1, 2, 3]), type=r.choice(['basic', 'basic', 'basic', 'MEI']))
            f = r.random()
            if f < 0.2: op['fault'] = dict(kind=r.choice(core.ERRORS + ['KeyboardInterrupt', 'SystemExit', 'MemoryError'] * 3), at=r.choice([0, 1, 2, 4, 7, 12, 25, 60]))
            elif f < 0.3: op['fault'] = dict(kind='nan', at=r.choice([0, 1, 2, 5, 12, 30]))
            elif f < 0.5: op['line'] = dict(frac=r.random(), kind=r.choice(['KeyboardInterrupt', 'MemoryError']))
            elif f < 0.65: op['faults'] = [dict(kind=r.choice(['ENOSPC', 'EIO', 'EACCES']), op=r.choice(['open', 'write', 'close']), at=r.choice([0, 0, 1, 2, 3]))]
            ops.append(op)
        return dict(cfg=dict(vars=vars_, cons=cons, order=list(range(len(cons))), oscl=r.choice([1.0, 10.0]), star=[r.uniform(0.1, 0.9) for _ in range(n)], goal=[r.uniform(-0.3, 1.3) for _ in range(3)],
                             bias=r.choice([0.0, 0.05, 0.5, 3.0]), freq=r.choice([1.0, 9.0])), ops=ops)

    def problem(self, cfg):
        pb = P.Problem(cfg)
        rows = np.empty((pb.n, 5), dtype=object)
        for i, v in enumerate(cfg['vars']):
            rows[i, :] = ['x%d' % i, v['ini'], 0, v['scl'], v['unit']]
            rows[i, 2] = (v['lb'], v['ub'])
        pb.nx.optimization_problem.inputs = rows
        pb.state = dict(fault=None, ctx=None)
        pb.levels = []
        base = pb.nx.procedure.model

        def model(nexus):
            k = len(pb.seen)
            if nexus.fidelity_level == 2: pb.levels.append(k)
            f = pb.state['fault']
            hit = f is not None and k == f['at']
            nexus = base(nexus)
            if hit:
                pb.state['ctx'].fault('model:' + f['kind']); pb.state['fired'] = True
                if f['kind'] == 'nan': nexus.summary.o = float('nan')
                elif f['kind'] in core.ERRORS: raise core.injected(f['kind'])
                else: raise {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError, 'SystemExit': SystemExit}[f['kind']]('injected')
            if nexus.fidelity_level == 1:
                u = pb.unit(pb.seen[-1])
                nexus.summary.o += cfg['bias'] * math.sin(cfg['freq'] * float(u.sum()))
                for j in range(len(cfg['cons'])): nexus.summary['c%d' % j] += cfg['bias'] * 0.2 * math.cos(cfg['freq'] * float(u[0]) + j)
            return nexus
        pb.nx.procedure.model = model
        return pb

    def once(self, cfg, op, ctx, at, faults):
        """One optimization. Returns (ending, info) with every observable recorded."""
        pb = self.problem(cfg)
        pb.state.update(fault=op.get('fault'), ctx=ctx)
        mine, mine_err = io.StringIO(), io.StringIO()

        def boom():
            ctx.fault('line:' + op['line']['kind'])
            raise {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError}[op['line']['kind']]('injected')
        cnt = Counter(at=at, exc=boom if 'line' in op else None, only=('Nexus.py', 'helper_functions.py', 'latin_hypercube_sampling.py', 'Trust_Region.py'))
        fs = SimFS(ctx, ctx.root, faults)
        o, e = sys.stdout, sys.stderr
        res, err = None, None
        here = os.getcwd()
        sys.stdout, sys.stderr = mine, mine_err
        try:
            with env.Randomness(core.rng_for(op['seed'], 'draws'), ctx, op['seed'], op['q']), np.errstate(all='ignore'), fs:
                try:
                    with cnt:
                        if op['kind'] == 'trmm':
                            tr = Trust_Region(); tr.size = tr.initial_size = op['size']; tr.minimum_size = op['minimum']; tr.contraction_factor = op['factor']
                            t = tro.Trust_Region_Optimization(); t.trust_region_max_iterations = op['iters']
                            if op['via'] == 'solve': res = TRMM_Solve(pb.nx, tr=tr, tr_opt=t, print_output=not op['silent'])
                            else:
                                pb.nx.trust_region = tr
                                res = t.optimize(pb.nx, print_output=not op['silent'])
                        else:
                            res = Additive_Solver().Additive_Solve(pb.nx, num_samples=op['samples'], max_iterations=op['iters'], opt_type=op['type'], print_output=not op['silent'])
                except Violation: raise
                except BaseException as ex:
                    err = ex
                after = (sys.stdout, sys.stderr)
                left = fs.open_files()
        finally:
            sys.stdout, sys.stderr = o, e
        return pb, res, err, after, left, (mine, mine_err), here, cnt.n, fs

    def run(self, scn, ctx):
        warnings.simplefilter('ignore')
        cfg = scn['cfg']
        os.chdir(ctx.root)
        for k, op in enumerate(scn['ops']):
            at = None
            if 'line' in op:
                n = ctx.session(lambda sub: self.once(cfg, op, sub, None, [])[7])[1]
                at = 1 + int(op['line']['frac'] * max(n - 1, 0))
            faults = [dict(f) for f in op.get('faults') or []]
            pb, res, err, after, left, mine, here, n, fs = self.once(cfg, op, ctx, at, faults)
            end = 'raised' if err is not None else 'ok' if op['kind'] == 'additive' else (res[2] if res is not None else 'solved')
            ctx.log(k, op['kind'], end, type(err).__name__ if err is not None else None, len(pb.seen), [a.tolist() for a in pb.seen[:30]])
            ctx.probe('end:%s:%s' % (op['kind'], end))
            ctx.probe('silenced' if op['silent'] else 'shown')
            if 'Infeasible within trust region' in mine[0].getvalue(): ctx.probe('infeasible_branch')
            ctx.state(op['kind'], op.get('type'), end, type(err).__name__, len(pb.seen))
            how = 'op %d: %s ended with %s' % (k, op['kind'], end if err is None else type(err).__name__)
            if after[0] is not mine[0]: raise Violation('console-not-returned', how + ': sys.stdout is %s instead of the stream installed before' % ('sys.__stdout__' if after[0] is sys.__stdout__ else type(after[0]).__name__))
            if after[1] is not mine[1]: raise Violation('console-not-returned', how + ': sys.stderr was replaced')
            if mine[0].closed: raise Violation('console-not-returned', how + ': the caller\'s stream was closed')
            if left: raise Violation('file-left-open', how + ': %s' % sorted(os.path.basename(str(f)) for f in left))
            if os.getcwd() != here: raise Violation('folder-changed', how)
            if op['silent'] and mine[0].getvalue(): raise Violation('console-not-silenced', how + ': printed %r' % mine[0].getvalue()[:80])
            # bounds: every design the model was asked for
            step = np.abs(pb.k) * (2.0e-6 if op['kind'] == 'trmm' else 1e-7) + 1e-9 * (pb.hi - pb.lo + np.abs(pb.lo) + np.abs(pb.hi))
            for j, a in enumerate(pb.seen):
                if np.any(a != a): raise Violation('outside-bounds', how + ': evaluation %d at %s' % (j, a.tolist()))
                if np.any(a < pb.lo - step) or np.any(a > pb.hi + step):
                    raise Violation('outside-bounds', how + ': evaluation %d at %s outside %s..%s' % (j, a.tolist(), pb.lo.tolist(), pb.hi.tolist()))
            # progress: bounded number of high-fidelity evaluations, hence of iterations
            limit = op['iters'] * (2 * pb.n + 6) + 4 if op['kind'] == 'trmm' else op['samples'] + op['iters'] + 4
            if len(pb.levels) > limit: raise Violation('does-not-stop', how + ': %d high-fidelity evaluations with a limit of %d iterations' % (len(pb.levels), op['iters']))
            if err is None:
                if pb.state.get('fired') and op['fault']['kind'] != 'nan': raise Violation('failure-swallowed', how + ' although evaluation %d raised %s' % (op['fault']['at'], op['fault']['kind']))
                x = res[1] if res is not None else None
                if x is not None and not pb.state.get('fired'):
                    a = np.array(x, dtype=float) * pb.k
                    if np.any(a < pb.lo - step) or np.any(a > pb.hi + step): raise Violation('outside-bounds', how + ': returned %s outside %s..%s' % (a.tolist(), pb.lo.tolist(), pb.hi.tolist()))
            else:
                fired = pb.state.get('fired') or (at is not None) or fs.nraised
                if not fired:
                    import traceback
                    raise Violation('unexpected-exception', how + ': ' + ''.join(traceback.format_exception(type(err), err, err.__traceback__))[-700:], 'unexpected-exception:%s:%s' % (type(err).__name__, core.where(err.__traceback__)))

    def nontrivial(self, scn, snap):
        return bool(snap['faults']) or any(k.endswith(('limit reached', 'small', 'infeasible', 'raised')) for k in snap['probes'])

    def shrink(self, scn):
        for k, op in enumerate(scn['ops']):
            def put(o): return dict(scn, ops=scn['ops'][:k] + [o] + scn['ops'][k + 1:])
            for d in ('fault', 'line', 'faults'):
                if d in op: yield put({a: b for a, b in op.items() if a != d})
            if op['iters'] > 1: yield put(dict(op, iters=1))
            if op['q']: yield put(dict(op, q=0))
        c = scn['cfg']
        for j in range(len(c['cons'])):
            if len(c['cons']) > 1: yield dict(scn, cfg=dict(c, cons=c['cons'][:j] + c['cons'][j + 1:], order=list(range(len(c['cons']) - 1))))
        if c['bias']: yield dict(scn, cfg=dict(c, bias=0.0))


CHECK = C05()
