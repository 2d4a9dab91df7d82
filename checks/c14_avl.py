"""C14: AVL results belong to the requested conditions and vehicle; C15 uses the same runs with another oracle."""
import os, sys, copy, random
import numpy as np
from sim.core import Check, Violation, HarnessError, where
from sim.fs import SimFS, gen_fault
from sim.instr import Counter
from sim import env
from checks import avllib as A

MODULES = ('Aerodynamics/AVL/', 'Analyses/Aerodynamics/AVL_Inviscid', 'Analyses/Stability/AVL', 'populate_control_sections', 'write_avl_airfoil')
NO_WITH = ('create_avl_datastructure', 'translate_data', 'populate_control_sections', 'purge_files')      # no context manager is open or closed on their lines


def gen_plan(rng, n):
    kind = rng.choice(['nostart', 'noexec', 'pipe', 'silent', 'cut', 'cut', 'cutzero', 'cutzero', 'missing', 'missing', 'rc', 'interrupt'])
    f = dict(kind=kind)
    if kind == 'pipe': f.update(n=rng.choice([0, 1, 3, 8, 15]), rc=rng.choice([1, -11, 0]))
    if kind == 'silent': f['rc'] = rng.choice([1, 2, 127, -9, -11])
    if kind == 'rc': f['rc'] = rng.choice([1, 2, 139, -6])
    if kind in ('cut', 'cutzero', 'missing'):
        f['file'] = rng.randrange(4 * n)
        f['frac'] = rng.choice([0.0, round(rng.random(), 3), round(.9 + .1 * rng.random(), 4)])
        if rng.random() < .3: f['tail'] = rng.choice([1, 2, 5, 12, 40])
        elif rng.random() < .5: f['line'] = True
    return f


class AVLBase(Check):
    timeout = 200
    real = ['SUAVE.Analyses.Aerodynamics.AVL_Inviscid', 'SUAVE.Analyses.Stability.AVL', 'SUAVE.Methods.Aerodynamics.AVL', 'SUAVE.Core.redirect', 'real files']
    stub = ['the AVL program (reads the command deck, geometry and run-case files, writes result files in the layout of the files under regression/scripts/AVL/avl_files)',
            'subprocess.Popen', 'failures of file operations']
    env_only = False

    def setup(self):
        import warnings; warnings.simplefilter('ignore')
        import SUAVE, SUAVE.Analyses.Aerodynamics, SUAVE.Analyses.Stability

    # -------------------------------------------------------------------------------- generation
    def gen_cond(self, rng, n=None):
        n = n or rng.choice([1, 1, 2, 3, 11])
        return dict(alpha=[round(rng.uniform(-6, 14), 3) for _ in range(n)], mach=round(rng.uniform(0.05, .85), rng.choice([1, 3])),
                    beta=rng.choice([0.0, 0.0, 0.0, round(rng.uniform(-9, 9), 3)]), pb=rng.choice([0.0, 0.0, round(rng.uniform(-.2, .2), 4)]),
                    qc=rng.choice([0.0, 0.0, round(rng.uniform(-.1, .1), 4)]), cl=rng.choice([None] * 5 + [round(rng.uniform(.1, 1.2), 3)]))

    def gen(self, rng, tier, i):
        vehicles = [A.gen_vehicle(rng, rng.choice(['jet', 'base'])) for _ in range(rng.choice([1, 1, 2]))]
        sessions, train, conds = [], False, []
        for _ in range(rng.choice([1, 1, 2, 3] if tier == 'quick' else [1, 2, 3, 4])):
            ans = [self.gen_analysis(rng, len(vehicles)) for _ in range(rng.choice([1, 2, 2, 3]))]
            ops, nrun, plan = [], 0, {}
            for _ in range(rng.choice([1, 2, 3, 4])):
                r = rng.random()
                a = rng.randrange(len(ans))
                if r < .62:
                    # the same conditions come back (with another vehicle, or with one value changed): nothing may be reused wrongly
                    c = copy.deepcopy(rng.choice(conds)) if conds and rng.random() < .45 else self.gen_cond(rng)
                    if conds and rng.random() < .3:
                        key = rng.choice(['mach', 'beta', 'pb', 'qc', 'cl'])
                        c[key] = self.gen_cond(rng)[key]
                    conds.append(c)
                    op = dict(op='eval', an=a, cond=c, trim=rng.random() < .3)
                    k, m = 1, len(op['cond']['alpha'])
                elif r < .78 and not train:
                    train = True
                    al = sorted(rng.sample(range(-400, 1500), rng.choice([4, 4, 5])))
                    op = dict(op='train', an=a, alpha=[x / 100.0 for x in al], mach=[x / 100.0 for x in sorted(rng.sample(range(5, 90), 4))],
                              cond=self.gen_cond(rng, 1), trim=rng.random() < .3)
                    k, m = 4, len(al)
                    if rng.random() < .5: op['rerun'] = True
                    k *= 1 + bool(op.get('rerun'))
                    op['cond']['cl'] = None
                else:
                    op = dict(op='edit', veh=rng.randrange(len(vehicles)), what=rng.choice(['deflection', 'area', 'cg', 'twist', 'chord', 'span']), by=round(rng.uniform(1.1, 1.6), 2))
                    k, m = 0, 1
                if k and rng.random() < .18: op['interrupt'] = int(10 ** rng.uniform(0.3, 4.3))
                for q in range(k):
                    if rng.random() < (.3 if k == 1 else .06): plan[nrun + q] = gen_plan(rng, m)
                nrun += k
                ops.append(op)
            faults = []
            if rng.random() < .3:
                f = gen_fault(rng, kinds=['ENOSPC', 'EIO', 'EACCES', 'KeyboardInterrupt', 'crash', 'short'], max_at=30)
                f['at'] = int(10 ** rng.uniform(0, 2.2)) - 1
                if f['kind'] != 'short' and rng.random() < .5: f['op'] = rng.choice(['open-w', 'write', 'close', 'remove|unlink', 'open-r', 'read', 'mkdir|rmdir', 'chdir'])
                # a refused return to the starting folder cannot be repaired by anyone: only the way in may fail
                if f.get('op') == 'chdir': f['at'], f['times'] = 0, 1
                elif not f.get('op'): f['op'] = 'open-w|open-r|write|read|close|remove|unlink|mkdir|rmdir|truncate'
                faults.append(f)
            sessions.append(dict(analyses=ans, ops=ops, plan={str(k): v for k, v in plan.items()}, faults=faults))
        return dict(vehicles=vehicles, ops=sessions)

    def gen_analysis(self, rng, nv):
        return dict(kind=rng.choice(['aero', 'stab']), veh=rng.randrange(nv), nsw=rng.choice([2, 3, 6, 12]), keep=rng.random() < .6, show=rng.random() < .3,
                    log=rng.choice(['std', 'std', 'file', 'stream', 'none']))

    # -------------------------------------------------------------------------------- run
    def run(self, scn, ctx):
        work = os.path.join(ctx.root, 'work')
        os.mkdir(work)
        vehicles = copy.deepcopy(scn['vehicles'])
        for k, s in enumerate(scn['ops']):
            st = ctx.session(self.proc, s, vehicles, work, k)
            if st[0] == 'crash':
                ctx.probe('crashed')
                for op in s['ops']:
                    if op['op'] == 'edit': self.edit_desc(vehicles[op['veh']], op)
            elif st[0] == 'ok': vehicles = st[1]
            else: raise HarnessError(repr(st))

    @staticmethod
    def edit_desc(v, op):
        w = v['wings'][-1]
        by = op['by']
        if op['what'] == 'deflection':
            for w in v['wings']:
                for c in w['cs']: c['deflection'] = round((c['deflection'] or 5.0) * -by, 3)
        elif op['what'] == 'area': v['wings'][0]['area'] = round(v['wings'][0]['area'] * by, 3)
        elif op['what'] == 'cg': v['cg'] = [round(v['cg'][0] * by, 3)] + v['cg'][1:]
        elif op['what'] == 'twist':
            w['twist'] = [round(w['twist'][0] + by, 3), round(w['twist'][1] - by, 3)]
            for g in w['segments']: g['twist'] = round(g['twist'] + by, 3)
        elif op['what'] == 'chord': w['root'] = round(w['root'] * by, 3)
        elif op['what'] == 'span': w['span'] = round(w['span'] * by, 3)

    @staticmethod
    def apply_desc(v, cfg):
        cfg.mass_properties.center_of_gravity = [list(v['cg'])]
        for d in v['wings']:
            w = cfg.wings[d['tag']]
            w.areas.reference, w.chords.root, w.chords.tip, w.spans.projected = d['area'], d['root'], d['root'] * d['taper'], d['span']
            w.twists.root, w.twists.tip = d['twist'][0] * A.DEG, d['twist'][1] * A.DEG
            for s, g in zip(w.Segments, d['segments']): s.twist = g['twist'] * A.DEG
            for c in d['cs']: w.control_surfaces[c['tag']].deflection = c['deflection'] * A.DEG

    def proc(self, ctx, s, vehicles, work, number):
        import SUAVE
        os.chdir(work)
        self.work = work
        cfgs = [A.build_vehicle(v) for v in vehicles]
        ans = []
        for a in s['analyses']:
            an = (SUAVE.Analyses.Aerodynamics.AVL_Inviscid if a['kind'] == 'aero' else SUAVE.Analyses.Stability.AVL)()
            an.geometry = cfgs[a['veh']]
            an.settings.number_spanwise_vortices = a['nsw']
            an.settings.keep_files = a['keep']
            an.settings.print_output = a['show']
            f = an.settings.filenames
            if a['log'] == 'file': f.log_filename, f.err_filename = 'avl_log.txt', 'avl_err.txt'
            elif a['log'] == 'stream':
                f.log_filename = open(os.path.join(ctx.root, 'log%d' % number), 'a'); f.err_filename = sys.stderr
            elif a['log'] == 'none': f.log_filename = f.err_filename = None
            ans.append((a, an))
        stub = A.AVLStub(ctx, s['plan'])
        fs = SimFS(ctx, work, s['faults'], armed=False)
        stub.fs = fs
        streams = sys.stdout, sys.stderr
        with env.Programs(ctx, stub) as progs:
            with fs:
                for k, op in enumerate(s['ops']):
                    if op['op'] == 'edit':
                        self.edit_desc(vehicles[op['veh']], op)
                        self.apply_desc(vehicles[op['veh']], cfgs[op['veh']])
                        ctx.log('edit', op['what']); continue
                    a, an = ans[op['an']]
                    name = 'session %d, operation %d (%s)' % (number, k, op['op'])
                    v = vehicles[a['veh']]
                    r0, f0, s0, n0 = fs.nraised, stub.failed, stub.strict, stub.executed
                    cnt = Counter(op.get('interrupt'), KeyboardInterrupt, self.where())
                    fs.armed = True
                    err = res = None
                    try:
                        with cnt:
                            if op['op'] == 'eval': res = self.eval(an, op)
                            else: res = self.train(an, a, op)
                    except (Violation, HarnessError): raise
                    except BaseException as e:
                        err = e
                    fs.armed = False
                    if cnt.fired: ctx.fault('interrupt')
                    left = self.left(progs, work, streams)
                    cause = fs.nraised != r0 or stub.failed != f0 or cnt.fired
                    ctx.log(name, a['kind'], 'raised ' + type(err).__name__ if err is not None else 'returned', cnt.where)
                    ctx.state(op['op'], a['kind'], a['keep'], op['trim'], fs.nraised != r0, stub.failed != f0, cnt.fired, err is None, k, number)
                    if err is not None:
                        ctx.probe('raised')
                        if not cause:
                            if self.env_only: continue
                            raise Violation('spurious-error', '%s raised %s: %s although nothing failed (%s)' % (name, type(err).__name__, str(err)[:200], where(err.__traceback__)),
                                            'spurious-error:%s:%s' % (type(err).__name__, where(err.__traceback__)))
                        self.after(name, left, type(err).__name__)
                        continue
                    self.after(name, left, 'returned')
                    if self.env_only: continue
                    if stub.strict != s0:
                        raise Violation('failure-ignored', '%s returned a result although AVL failed' % name)
                    if stub.failed != f0: ctx.probe('returned_despite_cut')
                    if op['op'] == 'eval': self.judge_eval(name, ctx, res, an, a, v, op)
                    else: self.judge_train(name, ctx, res, an, a, v, op)
        return vehicles

    def where(self):
        return MODULES

    def left(self, progs, work, streams):
        l = []
        try: here = os.getcwd()
        except OSError: here = 'a folder that no longer exists'
        if here != work: l.append('the working folder is %s' % here.replace(work, '<start>'))
        if sys.stdout is not streams[0]: l.append('standard output is not the stream installed before')
        if sys.stderr is not streams[1]: l.append('standard error is not the stream installed before')
        if progs.waiting: l.append('%d child process was not waited for' % len(progs.waiting))
        os.chdir(work); sys.stdout, sys.stderr = streams; progs.waiting.clear()
        return l

    def after(self, name, left, how): pass

    def eval(self, an, op):
        from SUAVE.Analyses.Mission.Segments.Conditions import Aerodynamics as Cond
        q = op['cond']
        c = Cond()
        c.freestream.density, c.freestream.gravity, c.freestream.speed_of_sound = 1.2, 9.81, 340.0
        c.freestream.mach_number, c.freestream.velocity = q['mach'], 340.0 * q['mach']
        c.aerodynamics.side_slip_angle = q['beta'] * A.DEG
        c.aerodynamics.angle_of_attack = np.array(q['alpha']) * A.DEG
        c.aerodynamics.roll_rate_coefficient, c.aerodynamics.pitch_rate_coefficient, c.aerodynamics.lift_coefficient = q['pb'], q['qc'], q['cl']
        res = an.evaluate_conditions(c, op['trim'])
        return res, an.current_status.batch_index

    def train(self, an, a, op):
        q = op['cond']
        s = an.settings
        an.training.angle_of_attack = np.array(op['alpha']) * A.DEG
        an.training.Mach = np.array(op['mach'])
        s.side_slip_angle, s.roll_rate_coefficient, s.pitch_rate_coefficient, s.lift_coefficient = q['beta'] * A.DEG, q['pb'], q['qc'], None
        s.trim_aircraft = op['trim']
        for _ in range(1 + bool(op.get('rerun'))):
            if a['kind'] == 'aero':
                an.initialize(a['nsw'], 5, a['keep'], False, False, a['show'], op['trim'], q['beta'] * A.DEG, q['pb'], q['qc'], None)
            else: an.finalize()
        return np.array(an.training.coefficients)

    # -------------------------------------------------------------------------------- oracle
    def judge_eval(self, name, ctx, res, an, a, v, op):
        res, batch = res
        q = op['cond']
        for i, al in enumerate(q['alpha']):
            w = A.wrong(res, i, 'case_%04d_%04d' % (batch, i + 1), v, dict(alpha=al, mach=q['mach'], beta=q['beta'], pb=q['pb'], qc=q['qc'], cl=q['cl']), op['trim'], a['nsw'])
            if w: raise Violation('wrong-result', '%s, angle of attack %g deg, Mach %g: %s' % (name, al, q['mach'], w), 'wrong-result:' + w.split(' is ')[0].split('[')[0])
        if len(res.aerodynamics.AoA) != len(q['alpha']): raise Violation('wrong-result', '%s: %d results for %d angles' % (name, len(res.aerodynamics.AoA), len(q['alpha'])))
        ctx.probe('eval_checked')

    def judge_train(self, name, ctx, table, an, a, v, op):
        q = op['cond']
        from SUAVE.Core import Data
        for i, al in enumerate(op['alpha']):
            for j, m in enumerate(op['mach']):
                want, _ = A.expected_results(v, dict(alpha=al, mach=m, beta=q['beta'], pb=q['pb'], qc=q['qc'], cl=None), op['trim'], 1)
                P = ['aerodynamics.lift_coefficient', 'aerodynamics.drag_breakdown.induced.total', 'aerodynamics.oswald_efficiency'] if a['kind'] == 'aero' else \
                    ['aerodynamics.Cmtot', 'stability.static.Cm_alpha', 'stability.static.Cn_beta', 'stability.static.neutral_point']
                S = ['lift_coefficient', 'drag_coefficient', 'span_efficiency_factor'] if a['kind'] == 'aero' else \
                    ['moment_coefficient', 'Cm_alpha_moment_coefficient', 'Cn_beta_moment_coefficient', 'neutral_point']
                for k, p in enumerate(P):
                    x, tol, s = want[p]
                    if not abs(table[k, i, j] - x) <= tol + s:
                        raise Violation('wrong-training-value', '%s: training value %d of %s at %g deg, Mach %g is %.8g, AVL computes %.8g' % (name, k, S[k], al, m, table[k, i, j], x), 'wrong-training-value:' + p)
                    y = float(np.ravel(an.surrogates[S[k]](al * A.DEG, m))[0])
                    if not abs(y - x) <= tol + s + 1e-6 * max(1.0, abs(x)):
                        raise Violation('wrong-prediction', '%s: %s predicts %.8g at the training point %g deg, Mach %g where AVL computes %.8g' % (name, S[k], y, al, m, x), 'wrong-prediction:' + S[k])
        ctx.probe('train_checked')

    def nontrivial(self, scn, snap):
        return bool(snap['faults']) or sum(len(s['ops']) for s in scn['ops']) > 2

    def shrink(self, scn):
        for k, s in enumerate(scn['ops']):
            def put(**kw): return dict(scn, ops=scn['ops'][:k] + [dict(s, **kw)] + scn['ops'][k + 1:])
            for j in range(len(s['ops'])):
                if len(s['ops']) > 1: yield put(ops=s['ops'][:j] + s['ops'][j + 1:])
            for j in range(len(s['faults'])): yield put(faults=s['faults'][:j] + s['faults'][j + 1:])
            for p in list(s['plan']): yield put(plan={x: y for x, y in s['plan'].items() if x != p})
            for j, op in enumerate(s['ops']):
                if op['op'] == 'eval' and len(op['cond']['alpha']) > 1:
                    yield put(ops=s['ops'][:j] + [dict(op, cond=dict(op['cond'], alpha=op['cond']['alpha'][:1]))] + s['ops'][j + 1:])
                if op.get('interrupt'): yield put(ops=s['ops'][:j] + [{x: y for x, y in op.items() if x != 'interrupt'}] + s['ops'][j + 1:])
                if op['op'] == 'eval':
                    for f in ('beta', 'pb', 'qc'):
                        if op['cond'][f]: yield put(ops=s['ops'][:j] + [dict(op, cond=dict(op['cond'], **{f: 0.0}))] + s['ops'][j + 1:])
        for n, v in enumerate(scn['vehicles']):
            def putv(w): return dict(scn, vehicles=scn['vehicles'][:n] + [w] + scn['vehicles'][n + 1:])
            if v['bodies']: yield putv(dict(v, bodies=[]))
            if len(v['wings']) > 1: yield putv(dict(v, wings=v['wings'][:-1]))
            for j, w in enumerate(v['wings']):
                if w['segments']: yield putv(dict(v, wings=v['wings'][:j] + [dict(w, segments=[])] + v['wings'][j + 1:]))
                if w['cs']: yield putv(dict(v, wings=v['wings'][:j] + [dict(w, cs=w['cs'][:-1])] + v['wings'][j + 1:]))


class C14(AVLBase):
    prop = 'C14'
    n_quick, n_thorough = 500, 40000
    rule = ('seeded histories of AVL evaluations and trainings of one or two vehicles that share a run folder, over several process incarnations, with AVL failing to '
            'start, dying, ending with an error, or leaving missing or truncated files, and with disk faults, interrupts and crashes; every value returned is compared with the '
            'value the stub computes for the request; non-trivial = a fault fired or more than two operations')
    assumptions = ['angles have at most three decimals of a degree, Mach numbers and rates at most four decimals (the run files carry four)',
                   'wings have non-negative dihedral; control surface names have at most eight characters; the stub cannot tell a file cut after its last used value']
    expected_probes = ['eval_checked', 'train_checked', 'raised', 'returned_despite_cut', 'crashed']
    state_measure = 'distinct (operation, analysis, keep files, trim, fault origin, interrupted, outcome, position in the history)'


CHECK = C14()
