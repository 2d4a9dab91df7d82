"""C10: the optimization history log."""
import os, math
from sim.core import Check, Violation, HarnessError
from sim.fs import SimFS, gen_fault
from sim.instr import Counter

VALS = [0.0, 1.0, -2.5, 0.1, 1 / 3., 1e-300, 1.7976931348623157e308, 1e22, 123456789.123456789, -0.0, 5e-324, 1e5, 1e16]


class C10(Check):
    prop = 'C10'
    n_quick, n_thorough = 1600, 150000
    rule = ('seeded histories of optimizer processes appending records to one log; any append may meet a disk fault, a short write, an '
            'interrupt, an allocation failure or a crash; a fresh process reads the log back; non-trivial = at least one fault fired')
    real = ['SUAVE.Optimization.write_optimization_outputs', 'SUAVE.Optimization.read_optimization_outputs', 'SUAVE.Optimization.helper_functions', 'SUAVE.Optimization.Nexus tables', 'real files']
    stub = ['the disk below raw file writes (fault injection)', 'the evaluated model (values are set directly)']
    assumptions = ['a crash is a process crash: bytes handed to the operating system survive it', 'a log without any complete record may raise when read']
    expected_probes = ['torn_record', 'append_after_torn_record', 'unacknowledged_but_complete']
    state_measure = 'distinct (tail state of the log, planned fault, outcome)'

    def setup(self):
        import SUAVE
        from SUAVE.Optimization import Nexus, write_optimization_outputs, read_optimization_outputs

    def gen(self, rng, tier, i):
        n = rng.choice([1, 2, 3, 5, 400])
        m = rng.choice([0, 1, 2, 3, 4])
        cfg = dict(n=n, m=m, cols=rng.choice([5, 6, 6]), scl=[rng.choice([1.0, 2.0, 10.0, 0.5, 1e4]) for _ in range(min(n, 5))],
                   oscl=rng.choice([1.0, 1e3]), cscl=[rng.choice([1.0, 4.0, 1e5]) for _ in range(m)], num=rng.choice(['py', 'np']))
        ops = []
        for _ in range(rng.randint(2, 8)):
            recs = [dict(it=rng.choice([1, 2, 12, 10 ** 6, rng.randrange(999)]), s=rng.randrange(10 ** 6), sp=rng.random() < .2) for _ in range(rng.choice([1, 1, 2, 3, 5]))]
            op = dict(op='session', recs=recs, retry=rng.random() < .5)
            r = rng.random()
            if r < .5:
                op['faults'] = [gen_fault(rng, kinds=['ENOSPC', 'EIO', 'crash', 'crash', 'KeyboardInterrupt', 'short', 'EACCES', 'EMFILE'], max_at=6)]
            elif r < .7:
                op['line'] = round(rng.random(), 4); op['kind'] = rng.choice(['crash', 'KeyboardInterrupt', 'MemoryError'])
            elif r < .75:
                op['rfault'] = gen_fault(rng, kinds=['EIO', 'EACCES', 'KeyboardInterrupt'], ops=['read', 'open-r'], max_at=1)
            ops.append(op)
        return dict(cfg=cfg, ops=ops)

    def values(self, cfg, rec):
        import random
        r = random.Random(rec['s'])
        pick = lambda: r.choice(VALS) if r.random() < .4 else r.uniform(-1, 1) * 10 ** r.randint(-8, 8)
        x = [pick() for _ in range(cfg['n'])]
        o = pick()
        c = [pick() for _ in range(cfg['m'])]
        if rec['sp']:
            if c: c[r.randrange(len(c))] = float('nan')
            o = r.choice([float('inf'), float('nan'), o])
        return x, o, c

    def nexus(self, cfg, rec):
        import numpy as np
        from SUAVE.Core import Data
        from SUAVE.Optimization import Nexus
        x, o, c = self.values(cfg, rec)
        nx = Nexus()
        conv = np.float64 if cfg['num'] == 'np' else float
        rows = []
        for k in range(cfg['n']):
            scl = cfg['scl'][k % len(cfg['scl'])]
            rows.append(['x%d' % k, conv(x[k])] + ([(-7., 13.)] if cfg['cols'] == 5 else [-7., 13.]) + [scl, 1.0])
        inp = np.empty((cfg['n'], cfg['cols']), dtype=object)
        for a, row in enumerate(rows):
            for b, v in enumerate(row): inp[a, b] = v
        op = Data()
        op.inputs = inp
        op.objective = np.array([['obj', cfg['oscl'], 1.0]], dtype=object)
        op.constraints = np.array([['c%d' % k, '>', 0., cfg['cscl'][k], 1.0] for k in range(cfg['m'])], dtype=object).reshape(cfg['m'], 5)
        nx.summary = Data(); nx.summary.obj = conv(o)
        for k in range(cfg['m']): nx.summary['c%d' % k] = np.array([c[k]]) if cfg['num'] == 'np' and k == 0 else conv(c[k])
        op.aliases = [['x%d' % k, 'v.x%d' % k] for k in range(cfg['n'])] + [['obj', 'summary.obj']] + [['c%d' % k, 'summary.c%d' % k] for k in range(cfg['m'])]
        nx.optimization_problem = op
        nx.total_number_of_iterations = rec['it']
        return nx

    def want(self, cfg, rec):
        x, o, c = self.values(cfg, rec)
        return [float(rec['it']), o / cfg['oscl'], [a / cfg['scl'][k % len(cfg['scl'])] for k, a in enumerate(x)], [a / cfg['cscl'][k] for k, a in enumerate(c)]]

    # -------------------------------------------------------------- in sessions
    def _appender(self, sub, path, cfg, op, at):
        from SUAVE.Optimization import write_optimization_outputs
        fs = SimFS(sub, sub.root, op.get('faults') or [])
        out = []
        prog = open(os.path.join(sub.root, 'progress'), 'w', buffering=1)

        def boom():
            sub.fault('line:' + op['kind'])
            if op['kind'] == 'crash': sub.crash()
            raise {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError}[op['kind']]('injected')
        cnt = Counter(at=at, exc=boom)
        nxs = [self.nexus(cfg, rec) for rec in op['recs']]
        with fs:
            for k, rec in enumerate(op['recs']):
                tries = 2 if op['retry'] else 1
                for t in range(tries):
                    nx = nxs[k]
                    prog.write('begin %d\n' % k)
                    try:
                        with cnt: write_optimization_outputs(nx, path)
                        prog.write('ack %d\n' % k)
                        break
                    except (Exception, KeyboardInterrupt) as e:
                        prog.write('fail %d %s\n' % (k, type(e).__name__))
        return cnt.n

    def _reader(self, sub, path, cfg, faults):
        from SUAVE.Optimization import read_optimization_outputs
        with SimFS(sub, sub.root, faults):
            try:
                it, ob, inp, con = read_optimization_outputs(path, [0] * cfg['n'], [0] * cfg['m'])
            except (Exception, KeyboardInterrupt) as e:
                return 'raised', '%s: %s' % (type(e).__name__, str(e)[:200])
        return 'ok', [[float(it[k]), float(ob[k]), [float(v) for v in inp[k]], [float(v) for v in con[k]]] for k in range(len(it))]

    def run(self, scn, ctx):
        cfg = scn['cfg']
        path = os.path.join(ctx.root, 'opt_hist.txt')
        entries = []                      # [record, acknowledged]
        for k, op in enumerate(scn['ops']):
            at = None
            prog = os.path.join(ctx.root, 'progress')
            if 'line' in op:
                n = ctx.session(self._appender, os.path.join(ctx.root, 'dry.txt'), cfg, dict(op, faults=[]), None)[1]
                at = 1 + int(op['line'] * max(n - 1, 0))
            st = ctx.session(self._appender, path, cfg, op, at)
            with open(prog) as f: lines = [l.split() for l in f]
            faulty = st[0] == 'crash' or bool(op.get('faults')) or at is not None
            open_rec = None
            for l in lines:
                i = int(l[1])
                if l[0] == 'begin':
                    if open_rec is not None: entries.append([op['recs'][open_rec], False])
                    open_rec = i
                elif l[0] == 'ack':
                    entries.append([op['recs'][i], True]); open_rec = None
                else:
                    if not faulty: raise Violation('append-failed', 'op %d: an append raised %s without any fault' % (k, l[2]))
                    entries.append([op['recs'][i], False]); open_rec = None
            if open_rec is not None: entries.append([op['recs'][open_rec], False])
            raw = open(path, 'rb').read() if os.path.exists(path) else b''
            torn = bool(raw) and not raw.endswith(b'\n')
            if torn: ctx.probe('torn_record')
            ctx.log(k, 'session', st[0], [' '.join(l) for l in lines], len(raw), torn)
            got = ctx.session(self._reader, path, cfg, [])[1]
            acked = sum(1 for e in entries if e[1])
            ctx.state(torn, [(f['kind'], f.get('op')) for f in op.get('faults') or []], op.get('kind'), got[0], st[0])
            if got[0] == 'raised':
                if acked: raise Violation('log-unreadable', 'op %d: reading the log with %d complete records fails: %s' % (k, acked, got[1]))
                continue
            wants = [(self.want(cfg, e[0]), e[1]) for e in entries]
            self.match(k, wants, got[1], ctx)
            if 'rfault' in op:
                g2 = ctx.session(self._reader, path, cfg, [op['rfault']])[1]
                if g2[0] == 'ok': self.match(k, wants, g2[1], ctx)
            ctx.log('read', len(got[1]), 'acked', acked)

    def match(self, k, wants, got, ctx):
        """got must be a subsequence of the appended records that contains every acknowledged one."""
        n, m = len(got), len(wants)
        # ok[i][j]: got[i:] can be explained by wants[j:]
        ok = [[False] * (m + 1) for _ in range(n + 1)]
        for j in range(m, -1, -1):
            for i in range(n, -1, -1):
                if j == m: ok[i][j] = i == n
                else:
                    w, ack = wants[j]
                    ok[i][j] = (not ack and ok[i][j + 1]) or (i < n and ok[i + 1][j + 1] and eq(w, got[i]))
        if ok[0][0]:
            i, torn = 0, False
            for j in range(m):
                w, ack = wants[j]
                if i < n and eq(w, got[i]) and ok[i + 1][j + 1]:
                    if not ack: ctx.probe('unacknowledged_but_complete')
                    elif torn: ctx.probe('append_after_torn_record')
                    i += 1
                else: torn = True
            return
        acked = [w for w, a in wants if a]
        i = 0
        while i < n and i < len(acked) and eq(acked[i], got[i]): i += 1
        if i >= n:
            raise Violation('record-lost', 'op %d: only %d of at least %d acknowledged records are returned' % (k, n, len(acked)))
        raise Violation('wrong-record', 'op %d: the log returns %d records for %d appends (%d acknowledged); record %d reads iteration %s objective %s inputs %s constraints %s, the acknowledged one is %s' % (
            k, n, m, len(acked), i, got[i][0], got[i][1], got[i][2][:3], got[i][3][:3],
            [acked[i][0], acked[i][1], acked[i][2][:3], acked[i][3][:3]] if i < len(acked) else None))

    def shrink(self, scn):
        for k, op in enumerate(scn['ops']):
            def put(o): return dict(scn, ops=scn['ops'][:k] + [o] + scn['ops'][k + 1:])
            for d in ('faults', 'line', 'rfault'):
                if d in op: yield put({a: b for a, b in op.items() if a != d})
            for j in range(len(op['recs'])):
                if len(op['recs']) > 1: yield put(dict(op, recs=op['recs'][:j] + op['recs'][j + 1:]))
            if op['retry']: yield put(dict(op, retry=False))
        c = scn['cfg']
        if c['n'] > 2: yield dict(scn, cfg=dict(c, n=2))


def eq(a, b):
    def s(x, y): return x == y or (x != x and y != y)
    return s(a[0], b[0]) and s(a[1], b[1]) and len(a[2]) == len(b[2]) and len(a[3]) == len(b[3]) and all(map(s, a[2], b[2])) and all(map(s, a[3], b[3]))


CHECK = C10()
