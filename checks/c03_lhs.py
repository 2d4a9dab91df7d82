"""C03: Latin hypercube designs over simulated random streams."""
import math
from sim.core import Check, Violation, HarnessError
from sim import core, env


class C03(Check):
    prop = 'C03'
    n_quick, n_thorough = 6000, 300000
    timeout = 40
    rule = ('seeded sequences of designs of 1-130 samples in 1-20 dimensions with and without bounds, both criteria, random streams with '
            'extreme draws (0, 1/2, the largest double below 1) and extreme shuffles (identity, reversal, rotation); non-trivial = an extreme '
            'draw or shuffle was delivered, or an independence test over 60 designs was made')
    real = ['SUAVE.Methods.Utilities.latin_hypercube_sampling']
    stub = ['numpy.random draws and shuffles (seeded, extreme values mixed in)']
    assumptions = ['bounds are a pair of arrays as documented']
    expected_probes = ['criterion:random', 'criterion:center', 'bounds', 'one_sample', 'one_dimension', 'independence_test', 'unknown_criterion']
    state_measure = 'distinct (samples, dimensions, criterion, bounds kind, stratum pattern) tuples'

    def setup(self):
        global np, LHS
        import numpy as np
        from SUAVE.Methods.Utilities.latin_hypercube_sampling import latin_hypercube_sampling as LHS

    def gen(self, r, tier, i):
        ops = []
        for _ in range(r.choice([2, 4, 8])):
            n = r.choice([1, 1, 2, 2, 3, 4, 7, 12, 20] if r.random() < .3 else [1, 1, 2, 2, 3, 4, 7])
            b = None
            if r.random() < 0.6:
                lo = [r.choice([-2.0, -1.0, 0.0, 1.0, -1e3, 1e-3, 1e6, 5]) for _ in range(n)]
                b = [lo, [a + r.choice([1.0, 0.5, 3.0, 1e-3, 250.0, 1e4, 2]) for a in lo]]
            ops.append(dict(n=n, N=r.choice([1, 2, 3, 4, 5, 7, 10, 13, 25, 40, r.randrange(1, 130), r.randrange(1, 130)]), b=b, crit=r.choice(['random', 'random', 'center', 'default', 'bogus' if r.random() < 0.2 else 'random']),
                            seed=r.getrandbits(31), q=r.choice([0, 0.02, 0.2, 0.7, 1.0])))
        if r.random() < 0.1: ops.append(dict(indep=True, n=r.choice([2, 3, 8, 15]), N=6, seed=r.getrandbits(31), crit=r.choice(['random', 'center'])))
        return dict(ops=ops)

    def strata(self, k, u, N, tol):
        order = np.argsort(u, kind='stable')
        for i, j in enumerate(order):
            if u[j] < i / N - tol or u[j] > (i + 1) / N + tol:
                raise Violation('stratum-missed', 'op %d: sorted samples %s; sample %d is not in stratum %d of %d' % (k, np.sort(u).tolist()[:12], i, i, N))
        pos = np.empty(N, dtype=int); pos[order] = range(N)
        return pos

    def run(self, scn, ctx):
        for k, op in enumerate(scn['ops']):
            if op.get('indep'):
                self.independence(k, op, ctx); continue
            n, N = op['n'], op['N']
            b = None if op['b'] is None else (np.array(op['b'][0]), np.array(op['b'][1]))
            kw = {} if op['crit'] == 'default' else dict(criterion=op['crit'])
            if b is not None: kw['bounds'] = b

            def draw():
                with env.Randomness(core.rng_for(op['seed'], 'draws'), ctx, op['seed'], op['q']): return LHS(n, N, **kw)
            if op['crit'] == 'bogus':
                try: draw()
                except NotImplementedError: ctx.probe('unknown_criterion'); continue
                raise Violation('criterion-ignored', 'op %d: an unknown criterion is accepted' % k)
            t = np.array(draw(), dtype=float)
            ctx.log(k, n, N, op['crit'], t.ravel().tolist()[:60])
            if t.shape != (N, n): raise Violation('wrong-shape', 'op %d: %s for %d samples of %d variables' % (k, t.shape, N, n))
            ctx.probe('criterion:' + ('random' if op['crit'] == 'default' else op['crit']))
            if b is not None: ctx.probe('bounds')
            if N == 1: ctx.probe('one_sample')
            if n == 1: ctx.probe('one_dimension')
            sig, full = [], []
            for d in range(n):
                lo, hi = (0.0, 1.0) if b is None else (float(b[0][d]), float(b[1][d]))
                tol = 1e-12 * (1 + max(abs(lo), abs(hi)) / (hi - lo))
                col = t[:, d]
                if np.any(col < lo - tol * (hi - lo)) or np.any(col > hi + tol * (hi - lo)) or np.any(col != col):
                    raise Violation('outside-bounds', 'op %d: dimension %d: %s outside %s..%s' % (k, d, col.tolist()[:12], lo, hi))
                u = (col - lo) / (hi - lo)
                pos = self.strata(k, u, N, tol)
                sig.append(tuple(pos.tolist()[:4])); full.append(tuple(pos.tolist()))
                if op['crit'] == 'center' and np.any(np.abs(u - (pos + 0.5) / N) > tol):
                    raise Violation('not-centred', 'op %d: dimension %d: %s' % (k, d, u.tolist()[:12]))
            ctx.state(N, n, op['crit'], b is None, sig)
            if op['q'] == 0 and N >= 16 and len(set(full)) < n:                    # one in 16! for independent orders
                raise Violation('dimensions-not-independent', 'op %d: two of %d dimensions have the same order of %d samples' % (k, n, N))
            if np.array(draw(), dtype=float).tolist() != t.tolist(): raise Violation('not-repeatable', 'op %d: the same seed gives another design' % k)

    def independence(self, k, op, ctx):
        n, N, M = op['n'], op['N'], 60
        np.random.seed(op['seed'])
        S = np.zeros((n + 1, n + 1)); off = []
        for m in range(M):
            t = np.array(LHS(n, N, criterion=op['crit']), dtype=float)
            pos = [np.arange(N)] + [self.strata(k, t[:, d], N, 1e-12) for d in range(n)]
            S += np.corrcoef(np.array(pos, dtype=float))
            off.append(np.array([t[:, d] * N - pos[d + 1] for d in range(n)]))
        S /= M
        np.fill_diagonal(S, 0)
        ctx.probe('independence_test')
        ctx.log(k, 'independence', S.ravel().tolist())
        if np.max(np.abs(S)) > 0.46:   # eight standard deviations of the mean of 60 rank correlations of 6 samples
            raise Violation('dimensions-not-independent', 'op %d: mean rank correlation %.2f between dimensions (or with the sample order) over %d designs' % (k, np.max(np.abs(S)), M))
        if op['crit'] == 'random':
            o = np.array(off)                                  # designs x dimensions x samples
            if o.std() < 0.2 or o.min() > 0.1 or o.max() < 0.9 or o.std(axis=2).mean() < 0.15 or o.std(axis=1).mean() < 0.05 or o.std(axis=0).mean() < 0.15:
                raise Violation('not-random-in-stratum', 'op %d: offsets inside the strata do not vary (std %.3f)' % (k, o.std()))

    def nontrivial(self, scn, snap):
        return bool(snap['faults']) or bool(snap['probes'].get('independence_test'))

    def shrink(self, scn):
        for k, op in enumerate(scn['ops']):
            if op.get('indep'): continue
            def put(**d): return dict(scn, ops=scn['ops'][:k] + [dict(op, **d)] + scn['ops'][k + 1:])
            if op['q']: yield put(q=0)
            if op['b'] is not None: yield put(b=None)
            for N in (1, 2, 3, 5):
                if op['N'] > N: yield put(N=N)
            if op['n'] > 1: yield put(n=1, b=None if op['b'] is None else [op['b'][0][:1], op['b'][1][:1]])


CHECK = C03()
