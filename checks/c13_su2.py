"""C13: SU2 coefficients belong to the requested flow condition; saved tables reload to the same values."""
import os, sys, io, copy, json, math, types
import numpy as np
from sim.core import Check, Violation, HarnessError, where
from sim.fs import SimFS, gen_fault
from sim.instr import Counter
from sim import env

MODULES = ('Input_Output/SU2/', 'Analyses/Aerodynamics/SU2_inviscid')
DEG = math.pi / 180


def coefficients(tag, mach, aoa, area):
    """What the stub solver computes: every input moves both values."""
    t = sum((i + 1) * ord(c) for i, c in enumerate(tag)) % 97 / 97.0
    cl = (0.11 * aoa + 0.2 + 0.05 * t) / math.sqrt(1 + mach * mach) * 20.0 / (area + 5.0)
    cd = (0.01 + 0.003 * mach ** 2 + 0.0007 * aoa * aoa + 0.002 * t) * 20.0 / (area + 5.0)
    return round(cl, 10), round(cd, 10)


class SU2Stub(env.Program):
    def __init__(self, ctx, plan):
        self.ctx, self.plan, self.runs, self.failed, self.must, self.fs = ctx, {int(k): v for k, v in plan.items()}, 0, 0, 0, None
        self.current = None

    def check_start(self, argv, cwd=None):
        if os.path.basename(argv[0]) != 'SU2_CFD': raise HarnessError('unexpected program %r' % argv)
        f = self.next()
        if f and f['kind'] == 'nostart':
            self.fail('su2_cannot_start')
            raise FileNotFoundError(2, 'No such file or directory', 'SU2_CFD')

    def next(self):
        self.current = self.plan.get(self.runs)
        self.runs += 1
        return self.current

    def fail(self, kind):
        self.ctx.fault(kind); self.failed += 1

    def execute(self, argv, stdin, out, err):
        if self.fs is not None: self.fs.quiet += 1
        try: return self.compute(argv[1])
        finally:
            if self.fs is not None: self.fs.quiet -= 1

    def compute(self, cfg_name):
        f = self.current or {}
        kind = f.get('kind')
        if kind == 'interrupt':
            self.fail('interrupt_while_su2_runs'); raise KeyboardInterrupt()
        if kind == 'dead':                                   # before the history is opened
            self.fail('su2_died'); return f['rc']
        if kind == 'silent':                                 # says it is done, wrote nothing
            self.fail('su2_history_missing'); return 0
        try:
            with open(cfg_name) as h: text = h.read()
        except OSError: return 1
        cfg = {}
        for line in text.split('\n'):
            line = line.split('%')[0]
            if '=' in line:
                k, v = line.split('=', 1)
                cfg[k.strip()] = v.strip()
        if cfg.get('SOLVER') != 'EULER': return 1
        tag = cfg['MESH_FILENAME']
        tag = tag[:-4] if tag.endswith('.su2') else tag
        aoa, mach, area, n = float(cfg['AOA']), float(cfg['MACH_NUMBER']), float(cfg['REF_AREA']), int(cfg['INNER_ITER'])
        cl, cd = coefficients(tag, mach, aoa, area)
        rows = ['TITLE = "SU2 output"', 'VARIABLES = "Time_Iter","Outer_Iter","Inner_Iter","rms[Rho]","rms[RhoU]","rms[RhoV]","rms[RhoW]","rms[RhoE]","CD","CL","CSF","CMx","CMy","CMz","CFx","CFy","CFz","CEff"',
                'ZONE T= "Convergence history"']
        head = len(rows)
        steps = 4
        for k in range(steps):
            w = 1.0 if k == steps - 1 else 0.3 + 0.2 * k
            rows.append('          0,           0,           %d, %s' % (k, ', '.join('%13.10f' % x for x in [-3.0 - k] * 5 + [cd * w, cl * w] + [0.1] * 8)))
        data = '\n'.join(rows) + '\n'
        rc = 0
        if kind == 'cut':                                    # the disk is full, or the solver is killed while it writes
            if f['rc']: data = data[:int(len(data) * f['frac'])]; self.fail('su2_died_writing')
            else:
                lo = len('\n'.join(rows[:-1])) + 2           # within the last line: no complete line is lost
                data = data[:lo + int((len(data) - 1 - lo) * f['frac'])]; self.fail('su2_history_cut')
            rc = f['rc']
        elif kind == 'empty':
            data = '' if f['rc'] == 0 else '\n'.join(rows[:head]) + '\n'; self.fail('su2_history_empty')
        elif kind == 'rc':                                   # diverged or killed at the end
            self.fail('su2_exit_code'); rc = f['rc']
            data = '\n'.join(rows[:-f['lines']] if f['lines'] else rows) + '\n'
        with open(cfg['CONV_FILENAME'] + '.dat', 'w') as h: h.write(data)
        return rc

    def parallel(self, cfg_name, partitions=0, compute=True):
        """SU2's own parallel driver: raises when the solver fails."""
        f = self.next()
        if f and f['kind'] == 'nostart':
            self.fail('su2_cannot_start'); raise OSError(2, 'mpirun: No such file or directory')
        rc = self.execute(['SU2_CFD', cfg_name], '', [], [])
        if rc: raise RuntimeError('SU2_CFD returned %d' % rc)


class Veh(object):
    def __init__(self, tag, area): self.tag, self.reference_area = tag, area


class C13(Check):
    prop = 'C13'
    n_quick, n_thorough = 2800, 150000
    timeout = 120
    rule = ('seeded histories of SU2 calls and training tables for vehicles whose tags, areas, angles and Mach numbers vary, run serially or through the parallel driver, over several '
            'sessions in one folder, with solver failures (not started, killed before or while writing, exit codes, missing, empty or cut histories), disk faults on the configuration, '
            'history and table files, interrupts and crashes; non-trivial = a fault fired or a table was reloaded')
    real = ['SUAVE.Input_Output.SU2.call_SU2_CFD', 'SUAVE.Input_Output.SU2.write_SU2_cfg', 'SUAVE.Analyses.Aerodynamics.SU2_inviscid', 'SUAVE.Analyses.Aerodynamics.SU2_inviscid_Super (training)', 'real files']
    stub = ['the SU2 solver (closed-form coefficients of what its configuration file says)', "SU2's parallel driver module", 'subprocess', 'the clock', 'failures of file operations']
    assumptions = ['a history that lost whole lines comes with a non-zero exit status']
    expected_probes = ['called', 'trained', 'loaded', 'raised', 'crashed', 'parallel', 'stale_history_present', 'after_stopped_save']
    state_measure = 'distinct (operation, parallel, failure origin, outcome, possible table contents, position)'

    def setup(self):
        import warnings; warnings.simplefilter('ignore')
        import matplotlib; matplotlib.use('Agg')
        import SUAVE, SUAVE.Analyses.Aerodynamics
        from SUAVE.Input_Output.SU2 import call_SU2_CFD, write_SU2_cfg
        from SUAVE.Analyses.Aerodynamics import SU2_inviscid, SU2_inviscid_Super

    def gen_plan(self, rng):
        kind = rng.choice(['nostart', 'dead', 'silent', 'cut', 'cut', 'empty', 'rc', 'rc', 'interrupt'])
        f = dict(kind=kind)
        if kind == 'dead': f['rc'] = rng.choice([1, 127, -9, -11])
        if kind == 'cut': f.update(rc=rng.choice([0, 0, 1, -9]), frac=round(rng.random(), 3))
        if kind == 'empty': f['rc'] = rng.choice([0, 1])
        if kind == 'rc': f.update(rc=rng.choice([1, 2, -6, -15]), lines=rng.choice([0, 0, 1, 2]))
        return f

    def gen(self, rng, tier, i):
        tags = rng.sample(['wing', 'cruise', 'base', 'wing_2', 'cfg.a', 'Wing', 'a b'], rng.choice([1, 1, 2, 3]))
        area = {t: round(rng.uniform(5, 400), 3) for t in tags}
        # a few values come back again and again: a result must not be reused when only another input changed
        machs = [round(rng.uniform(.1, 2.5), rng.choice([1, 3, 6])) for _ in range(3)]
        aoas = [round(rng.uniform(-12, 25), rng.choice([0, 2, 7])) for _ in range(3)]
        def mach(): return rng.choice(machs) if rng.random() < .7 else round(rng.uniform(.1, 2.5), 3)
        def aoa(): return rng.choice(aoas) if rng.random() < .7 else round(rng.uniform(-12, 25), 3)
        sessions = []
        for n in range(rng.choice([1, 1, 2, 2, 3])):
            ops, plan, nrun = [], {}, 0
            for _ in range(rng.choice([1, 2, 4, 6])):
                r = rng.random()
                t = rng.choice(tags)
                if r < .5:
                    op = dict(op=rng.choice(['call', 'call_SU2']), tag=t, area=area[t] if rng.random() < .8 else round(rng.uniform(5, 400), 3), half=rng.random() < .5,
                              mach=mach(), aoa=aoa(), iters=rng.choice([1, 10, 1500]), par=rng.random() < .2)
                    m = 1
                elif r < .8:
                    op = dict(op='train', cls=rng.choice(['SU2_inviscid', 'SU2_inviscid', 'SU2_inviscid_Super']), tag=t, area=area[t] if rng.random() < .6 else round(rng.uniform(5, 400), 3),
                              half=rng.random() < .5, par=rng.random() < .2,
                              aoa=[aoa() for _ in range(rng.choice([1, 2, 3]))], mach=[mach() for _ in range(rng.choice([1, 2, 3]))])
                    m = len(op['aoa']) * len(op['mach'])
                else:
                    op = dict(op='load', cls=rng.choice(['SU2_inviscid', 'SU2_inviscid', 'SU2_inviscid_Super']), tag=t, into=t if rng.random() < .7 else rng.choice(tags), form=rng.choice(['name', 'abs']))
                    m = 0
                if rng.random() < .1: op['interrupt'] = int(10 ** rng.uniform(0.3, 3.2))
                if m and rng.random() < .3: plan[nrun + rng.randrange(m)] = self.gen_plan(rng)
                nrun += m
                ops.append(op)
            faults = []
            if rng.random() < .35:
                f = gen_fault(rng, kinds=['ENOSPC', 'EIO', 'KeyboardInterrupt', 'crash', 'crash', 'short', 'EACCES'], max_at=6)
                f['op'] = rng.choice(['write', 'open-w', 'close', 'rename|replace', 'write|open-w|close|rename|replace|remove', 'open-r', 'read', 'remove'])
                if f['kind'] == 'short': f['op'] = 'write'
                m = rng.choice([None, '_data.txt', '_history.dat', '.cfg'])
                if m: f['match'] = m
                faults.append(f)
            sessions.append(dict(ops=ops, plan={str(k): x for k, x in plan.items()}, faults=faults))
        return dict(ops=sessions, clock=rng.randrange(10 ** 9))

    def run(self, scn, ctx):
        work, home = os.path.join(ctx.root, 'work'), os.path.join(ctx.root, 'su2home')
        os.mkdir(work); os.mkdir(home)
        notes = os.path.join(ctx.root, 'notes')
        open(notes, 'w').close()
        for k, s in enumerate(scn['ops']):
            st = ctx.session(self.proc, scn, s, work, notes, home, k)
            if st[0] == 'crash': ctx.probe('crashed')

    def note(self, **kw):
        with open(self.notes, 'a') as f: f.write(json.dumps(kw) + '\n')
        self.apply(kw)

    def apply(self, d):
        c = self.tables.setdefault(d['tag'], [])
        if d['what'] == 'begin': c.append([d['rows'], True])
        else: self.tables[d['tag']] = [[d['rows'], False]]

    def proc(self, ctx, scn, s, work, notes, home, number):
        import random
        from SUAVE.Core import Data
        from SUAVE.Input_Output.SU2.call_SU2_CFD import call_SU2_CFD
        from SUAVE.Input_Output.SU2.write_SU2_cfg import write_SU2_cfg
        sub, sup = sys.modules['SUAVE.Analyses.Aerodynamics.SU2_inviscid'], sys.modules['SUAVE.Analyses.Aerodynamics.SU2_inviscid_Super']
        os.chdir(work)
        os.environ['SU2_HOME'] = home
        self.notes, self.tables = notes, {}
        with open(notes) as f:
            for line in f: self.apply(json.loads(line))
        stub = SU2Stub(ctx, s['plan'])
        mod = types.ModuleType('parallel_computation')
        mod.parallel_computation = stub.parallel
        sys.modules['parallel_computation'] = mod
        fs = stub.fs = SimFS(ctx, work, s['faults'], armed=False)
        with env.Clock(random.Random(scn['clock'] + number), ctx), env.Programs(ctx, stub), fs:
            for k, op in enumerate(s['ops']):
                name = 'session %d, operation %d (%s %s)' % (number, k, op['op'], op['tag'])
                r0, f0 = fs.nraised, stub.failed
                cnt = Counter(op.get('interrupt'), KeyboardInterrupt, MODULES)
                got = err = None
                cands = copy.deepcopy(self.tables.get(op['tag'], []))
                if os.path.exists(op['tag'] + '_history.dat'): ctx.probe('stale_history_present')
                if op.get('par'): ctx.probe('parallel')
                if op['op'] in ('call', 'call_SU2'):
                    def act():
                        st = Data()
                        if op['op'] == 'call':
                            st.reference_area, st.mach_number, st.angle_of_attack, st.maximum_iterations = op['area'], op['mach'], op['aoa'], op['iters']
                            write_SU2_cfg(op['tag'], st)
                            return call_SU2_CFD(op['tag'], op['par'], 4)
                        st.half_mesh_flag, st.parallel, st.processors, st.maximum_iterations = op['half'], op['par'], 4, op['iters']
                        co = Data(); co.aerodynamics = Data()
                        co.aerodynamics.mach, co.aerodynamics.angle_of_attack = op['mach'], op['aoa'] * DEG
                        return (sub if op['half'] else sup).call_SU2(co, st, Veh(op['tag'], op['area']))
                else:
                    an = getattr(sub if op['cls'] == 'SU2_inviscid' else sup, op['cls'])()
                    if op['op'] == 'train':
                        an.geometry = Veh(op['tag'], op['area'])
                        an.settings.half_mesh_flag, an.settings.parallel = op['half'], op['par']
                        an.training.angle_of_attack, an.training.Mach = np.array(op['aoa']) * DEG, np.array(op['mach'])
                        want = []
                        for a in op['aoa']:
                            for m in op['mach']: want.append([a * DEG, m] + list(self.expect(op, m, a * DEG / DEG)))
                        self.note(what='begin', tag=op['tag'], rows=want)
                        into = op['tag']
                    else:
                        into = op['into']
                        an.geometry = Veh(into, 10.0)
                        path = op['tag'] + '_data.txt'
                        there = os.path.exists(path)
                        an.training_file = os.path.join(work, path) if op['form'] == 'abs' else path
                        for rows, _ in cands:
                            if into != op['tag']: self.note(what='begin', tag=into, rows=rows)
                    def act():
                        an.sample_training()
                        return np.hstack([an.training.grid_points, an.training.coefficients])
                out, sys.stdout = sys.stdout, io.StringIO()
                fs.armed = True
                try:
                    with cnt: got = act()
                except (Violation, HarnessError): raise
                except BaseException as e: err = e
                fs.armed, sys.stdout = False, out
                cause = fs.nraised != r0 or cnt.fired
                failed = stub.failed != f0
                ctx.log(name, 'raised ' + type(err).__name__ if err is not None else 'returned', cnt.where)
                ctx.state(op['op'], op.get('par'), fs.nraised != r0, cnt.fired, failed, err is None, len(cands), k)
                if err is not None:
                    ctx.probe('raised')
                    odd = op['op'] == 'load' and not there and all(p for _, p in cands)
                    if not (cause or failed or odd):
                        raise Violation('spurious-error', '%s raised %s: %s although nothing failed (%s)' % (name, type(err).__name__, str(err)[:200], where(err.__traceback__)),
                                        'spurious-error:%s:%s' % (type(err).__name__, where(err.__traceback__)))
                    continue
                if failed: raise Violation('failure-ignored', '%s returned although SU2 failed' % name, 'failure-ignored:' + op['op'])
                if op['op'] in ('call', 'call_SU2'):
                    ctx.probe('called')
                    want = coefficients(op['tag'], op['mach'], op['aoa'], op['area']) if op['op'] == 'call' else self.expect(op, op['mach'], op['aoa'] * DEG / DEG)
                    if not np.allclose(got, want, rtol=0, atol=1e-9):
                        raise Violation('wrong-coefficients', '%s returned %r, SU2 computed %r for that condition' % (name, got, want), 'wrong-coefficients:' + op['op'])
                elif op['op'] == 'train':
                    ctx.probe('trained')
                    d = self.differs(want, got, 1e-9)
                    if d: raise Violation('wrong-coefficients', '%s: %s' % (name, d), 'wrong-coefficients:train')
                    self.note(what='done', tag=into, rows=got.tolist())
                else:
                    ctx.probe('loaded')
                    if len(cands) > 1: ctx.probe('after_stopped_save')
                    ds = [self.differs(rows, got, 6e-9) for rows, _ in cands] or ['nothing was ever saved']
                    if all(ds): raise Violation('wrong-table', '%s: %s' % (name, ds[-1]), 'wrong-table')
                    self.note(what='done', tag=into, rows=got.tolist())

    @staticmethod
    def expect(op, mach, aoa):
        return coefficients(op['tag'], mach, aoa, op['area'] / 2. if op['half'] else op['area'])

    @staticmethod
    def differs(want, got, tol):
        """The same rows, in any order."""
        got = [list(r) for r in np.atleast_2d(got)]
        if len(got) != len(want): return '%d points in the table, %d were computed' % (len(got), len(want))
        for w in want:
            for k, g in enumerate(got):
                if max(abs(a - b) for a, b in zip(w, g)) <= tol: del got[k]; break
            else:
                near = min(got, key=lambda g: abs(w[0] - g[0]) + abs(w[1] - g[1]))
                return 'at %.8f rad, Mach %.8f the values are %.9f, %.9f; computed there: %.9f, %.9f (nearest entry %.8f, %.8f)' % (w[0], w[1], near[2], near[3], w[2], w[3], near[0], near[1])
        return None

    def nontrivial(self, scn, snap):
        return bool(snap['faults']) or bool(snap['probes'].get('loaded'))

    def shrink(self, scn):
        for k, s in enumerate(scn['ops']):
            def put(**kw): return dict(scn, ops=scn['ops'][:k] + [dict(s, **kw)] + scn['ops'][k + 1:])
            for j in range(len(s['ops'])):
                if len(s['ops']) > 1: yield put(ops=s['ops'][:j] + s['ops'][j + 1:])
                if s['ops'][j].get('interrupt'): yield put(ops=s['ops'][:j] + [{a: b for a, b in s['ops'][j].items() if a != 'interrupt'}] + s['ops'][j + 1:])
            for j in range(len(s['faults'])): yield put(faults=s['faults'][:j] + s['faults'][j + 1:])
            for p in list(s['plan']): yield put(plan={x: y for x, y in s['plan'].items() if x != p})


CHECK = C13()
