"""One simulated world of C20: a process of its own with the hash seed, clock, random states, folder and environment
of the world.  Makes the calls of the input file in order and writes the digests of their results.

usage: world_child.py IN OUT"""
import os
import pickle
import random
import sys


class Env(object):
    sim_time = 0.

    def __init__(self): self.n = {}

    def fault(self, kind, n=1): self.n[kind] = self.n.get(kind, 0) + n

    def probe(self, kind, n=1): pass


import time
real_clock = time.perf_counter
TIMES = os.environ.get('C20_TIMES')


def main():
    src, out = sys.argv[1:3]
    with open(src, 'rb') as f: job = pickle.load(f)
    w = job['world']
    sys.path[:] = [job['verif'], '/repo/trunk'] + [p for p in sys.path[1:] if p]
    import numpy as np
    from sim.env import Clock
    env = Env()
    rng = random.Random(w['seed'])
    real_rng, real_get = np.random.default_rng, os.environ.__class__.__getitem__
    counter = [0]

    def default_rng(seed=None):
        if seed is None: counter[0] += 1; seed = w['seed'] * 1000 + counter[0]
        return real_rng(seed)
    np.random.default_rng = default_rng
    real_urandom = os.urandom
    os.urandom = lambda n: bytes(rng.randrange(256) for _ in range(n))
    clk = Clock(rng, env, start=w['clock'], jump_p=w['jump'])
    clk.mono = w['mono']
    results = []
    with clk:
        import SUAVE                                                           # noqa
        from checks import harvest as H
        import matplotlib.pyplot                                               # noqa
        # strange answers for environment variables that SUAVE itself asks for
        if w['lies']:
            def getitem(self, key):
                f = sys._getframe(1)
                for _ in range(4):
                    if f is None: break
                    if os.path.realpath(f.f_code.co_filename).startswith(H.SDIR) and 'Plugins' not in f.f_code.co_filename:
                        env.fault('environment_asked'); return w['lies'][len(str(key)) % len(w['lies'])]
                    f = f.f_back
                return real_get(self, key)
            os.environ.__class__.__getitem__ = getitem
        devnull = open(os.devnull, 'w')
        from sim.instr import Counter, StepLimit
        for op in job['ops']:
            t0 = real_clock()
            np.random.seed(rng.randrange(2**31)); random.seed(rng.randrange(2**31))
            for _ in range(rng.randrange(4)): np.random.rand(rng.randrange(1, 20)); random.random()
            old = sys.stdout
            sys.stdout = sys.stderr = devnull
            try:
                if op['op'] == 'config':
                    from checks.c20_worlds import configuration
                    r = configuration(op); how, d = 'value', r
                else:
                    a, kw = pickle.loads(op['args'])
                    if op.get('change'):
                        ch = op['change']
                        a, kw = H.vary(H.resolve(tuple(op['name'].split(':'))), a, kw, ch)
                    try:
                        with Counter(limit=150000):
                            r = H.resolve(tuple(op['name'].split(':')))(*a, **kw)
                        how, d = 'value', H.digest([r, a, kw])
                    except StepLimit: how, d = 'endless', None
            except (Exception, KeyboardInterrupt, SystemExit) as e:
                how, d = type(e).__name__, None
            finally:
                sys.stdout, sys.stderr = old, sys.__stderr__
            os.chdir(job['cwd'])
            results.append((how, d))
            if TIMES: sys.__stderr__.write('%.2f %s %s\n' % (real_clock() - t0, how, op.get('name')))
    with open(out, 'wb') as f: pickle.dump((results, env.n, env.sim_time), f)


if __name__ == '__main__':
    main()
