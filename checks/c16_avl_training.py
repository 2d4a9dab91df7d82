"""C16: saved AVL training data reproduces the model that was trained."""
import os, sys, copy, json
import numpy as np
from sim.core import Check, Violation, HarnessError, where
from sim.fs import SimFS, gen_fault
from sim.instr import Counter
from sim import env
from checks import avllib as A
from checks.c14_avl import AVLBase, MODULES, gen_plan

FILES = dict(aero='%s_aero_data.txt', stab='%s_stability_data.txt')
NAMES = dict(aero=['lift_coefficient', 'drag_coefficient', 'span_efficiency_factor'],
             stab=['moment_coefficient', 'Cm_alpha_moment_coefficient', 'Cn_beta_moment_coefficient', 'neutral_point'])
PATHS = dict(aero=['aerodynamics.lift_coefficient', 'aerodynamics.drag_breakdown.induced.total', 'aerodynamics.oswald_efficiency'],
             stab=['aerodynamics.Cmtot', 'stability.static.Cm_alpha', 'stability.static.Cn_beta', 'stability.static.neutral_point'])


class C16(AVLBase):
    prop = 'C16'
    n_quick, n_thorough = 220, 30000
    rule = ('seeded histories of trainings that save their data, later sessions that build models from the saved file (with AVL now computing something else, because the vehicle '
            'changed), truncated files, failing AVL runs, disk faults, interrupts and crashes; the table and predictions of the later model are compared with those recorded when '
            'the file was saved; non-trivial = a load that was compared, or a fault')
    assumptions = ['the later session uses the grid the file was saved with, or one of another size']
    expected_probes = ['saved', 'loaded', 'load_raised', 'cut', 'crashed', 'resaved', 'after_interrupted_save']
    state_measure = 'distinct (operation, analysis, fault origin, outcome, number of possible file contents, position)'

    def gen_grid(self, rng):
        return dict(alpha=[x / 100.0 for x in sorted(rng.sample(range(-400, 1500), rng.choice([4, 4, 5])))], mach=[x / 100.0 for x in sorted(rng.sample(range(5, 90), rng.choice([4, 4, 5])))])

    def gen(self, rng, tier, i):
        v = A.gen_vehicle(rng, rng.choice(['jet', 'base']))
        grids = [self.gen_grid(rng) for _ in range(rng.choice([1, 1, 2]))]
        # the file holds no grid: as many points in another arrangement cannot be told apart
        if len(grids) == 2 and len(grids[0]['alpha']) * len(grids[0]['mach']) == len(grids[1]['alpha']) * len(grids[1]['mach']): grids.pop()
        kinds = rng.choice([['aero'], ['stab'], ['aero', 'stab']])
        sessions = []
        for n in range(rng.choice([2, 2, 3, 4])):
            ops, plan, nrun = [], {}, 0
            for _ in range(rng.choice([1, 1, 2, 3])):
                r = rng.random()
                kind = rng.choice(kinds)
                if r < (.85 if n == 0 else .3): op = dict(op='save', kind=kind, grid=rng.randrange(len(grids)))
                elif r < .8 or n == 0: op = dict(op='load', kind=kind, grid=rng.randrange(len(grids)), save=rng.random() < .2, form=rng.choice(['name', 'abs']))
                elif r < .9: op = dict(op='edit', what=rng.choice(['deflection', 'area', 'cg', 'twist', 'chord', 'span']), by=round(rng.uniform(1.1, 1.6), 2))
                else: op = dict(op='cut', kind=kind, frac=rng.choice([round(rng.random(), 3), 1.0, 0.0]), back=rng.choice([0, 1, 1, 2, 4, 9, 12]))
                if op['op'] in ('save', 'load'):
                    m = len(grids[op['grid']]['mach'])
                    if rng.random() < .12: op['interrupt'] = int(10 ** rng.uniform(0.3, 4.5))
                    if rng.random() < .1: plan[nrun + rng.randrange(m)] = gen_plan(rng, 4)
                    nrun += m
                ops.append(op)
            if n and rng.random() < .5: ops.insert(0, dict(op='edit', what=rng.choice(['area', 'cg', 'twist', 'chord', 'span']), by=round(rng.uniform(1.1, 1.6), 2)))
            faults = []
            if rng.random() < .45:
                f = gen_fault(rng, kinds=['ENOSPC', 'EIO', 'KeyboardInterrupt', 'crash', 'crash', 'crash', 'short', 'EACCES'], max_at=4)
                f['op'] = rng.choice(['write', 'open-w', 'close', 'rename|replace', 'write|open-w|close|rename|replace', 'open-r', 'read'])
                if f['kind'] == 'short': f['op'] = 'write'
                f['match'] = '_data.txt'
                faults.append(f)
            sessions.append(dict(ops=ops, plan={str(k): x for k, x in plan.items()}, faults=faults))
        return dict(vehicle=v, grids=grids, nsw=rng.choice([2, 3]), ops=sessions)

    # -------------------------------------------------------------------------------- run
    def run(self, scn, ctx):
        work = os.path.join(ctx.root, 'work')
        os.mkdir(work)
        v = copy.deepcopy(scn['vehicle'])
        notes = os.path.join(ctx.root, 'notes')
        open(notes, 'w').close()
        for k, s in enumerate(scn['ops']):
            st = ctx.session(self.proc, scn, s, v, work, notes, k)
            if st[0] == 'crash':
                ctx.probe('crashed')
                for op in s['ops']:
                    if op['op'] == 'edit': self.edit_desc(v, op)
            elif st[0] == 'ok': v = st[1]
            else: raise HarnessError(repr(st))

    def note(self, **kw):
        with open(self.notes, 'a') as f: f.write(json.dumps(kw) + '\n')
        self.apply(kw)

    def apply(self, d):
        """The possible contents of each file: completed saves, and saves that were stopped."""
        c = self.files.setdefault(d['kind'], [])
        if d['what'] == 'begin': c.append(dict(d, pending=True))
        elif d['what'] == 'done': self.files[d['kind']] = [dict(d, pending=False)]
        elif d['what'] == 'cut': self.iscut[d['kind']] = True
        elif d['what'] == 'gone': self.files[d['kind']] = []
        if d['what'] == 'done': self.iscut[d['kind']] = False

    def proc(self, ctx, scn, s, v, work, notes, number):
        import SUAVE
        os.chdir(work)
        self.notes, self.files, self.iscut = notes, {}, {}
        with open(notes) as f:
            for line in f: self.apply(json.loads(line))
        cfg = A.build_vehicle(v)
        stub = A.AVLStub(ctx, s['plan'])
        fs = SimFS(ctx, work, s['faults'], armed=False)
        stub.fs = fs
        with env.Programs(ctx, stub), fs:
            for k, op in enumerate(s['ops']):
                if op['op'] == 'edit':
                    self.edit_desc(v, op); self.apply_desc(v, cfg); continue
                kind = op['kind']
                path = FILES[kind] % cfg.tag
                if op['op'] == 'cut':
                    if not os.path.exists(path): continue
                    with open(path) as f: text = f.read()
                    n = int(len(text) * op['frac']) if op['frac'] < 1 else len(text) - op['back']
                    if n >= len(text): continue
                    with open(path, 'w') as f: f.write(text[:max(0, n)])
                    ctx.fault('training_file_cut'); ctx.probe('cut')
                    self.note(what='cut', kind=kind); continue
                g = scn['grids'][op['grid']]
                an = (SUAVE.Analyses.Aerodynamics.AVL_Inviscid if kind == 'aero' else SUAVE.Analyses.Stability.AVL)()
                an.geometry = cfg
                an.settings.number_spanwise_vortices = scn['nsw']
                an.training.angle_of_attack, an.training.Mach = np.array(g['alpha']) * A.DEG, np.array(g['mach'])
                save = op['op'] == 'save' or op['save']
                an.settings.save_regression_results = save
                if op['op'] == 'load': an.training_file = os.path.join(work, path) if op['form'] == 'abs' else path
                cands = copy.deepcopy(self.files.get(kind, []))
                cut = self.iscut.get(kind, False)
                if save:
                    want = self.table(v, g, kind) if op['op'] == 'save' else None
                    self.note(what='begin', kind=kind, grid=g, table=want, same=op['op'] == 'load')
                r0, f0, s0 = fs.nraised, stub.failed, stub.strict
                cnt = Counter(op.get('interrupt'), KeyboardInterrupt, MODULES)
                name = 'session %d, operation %d (%s %s)' % (number, k, op['op'], kind)
                fs.armed = True
                err = None
                try:
                    with cnt:
                        if kind == 'aero': an.initialize(scn['nsw'], 5, False, save, False, False, False, 0.0, 0.0, 0.0, None)
                        else: an.finalize()
                except (Violation, HarnessError): raise
                except BaseException as e: err = e
                fs.armed = False
                os.chdir(work)
                cause = fs.nraised != r0 or stub.failed != f0 or cnt.fired
                ctx.log(name, 'raised ' + type(err).__name__ if err is not None else 'returned', cnt.where)
                ctx.state(op['op'], kind, fs.nraised != r0, stub.failed != f0, cnt.fired, err is None, len(cands), cut, k, number)
                fits = [c for c in cands if c.get('same') or self.shape(c['grid']) == self.shape(g)]
                odd = op['op'] == 'load' and (cut or len(fits) != len(cands) or not any(not c['pending'] for c in cands) and not os.path.exists(path))
                if err is not None:
                    if op['op'] == 'load': ctx.probe('load_raised')
                    if not cause and not odd:
                        raise Violation('spurious-error', '%s raised %s: %s although nothing failed (%s)' % (name, type(err).__name__, str(err)[:200], where(err.__traceback__)),
                                        'spurious-error:%s:%s' % (type(err).__name__, where(err.__traceback__)))
                    continue
                table = np.array(an.training.coefficients)
                pts = self.points(g)
                pred = [[float(np.ravel(an.surrogates[n](a, m))[0]) for a, m in pts] for n in NAMES[kind]]
                if op['op'] == 'load':
                    known = [c for c in fits if c.get('table') is not None]
                    # a load-and-save that was stopped can only have written what an earlier entry holds
                    hit, why = None, 'no file that could hold these values was ever saved'
                    for c in known:
                        d = self.differs(c, table, pred, g, kind)
                        if d is None: hit = c; break
                        why = d
                    if hit is None: raise Violation('wrong-model', '%s: %s' % (name, why), 'wrong-model:' + kind)
                    ctx.probe('loaded')
                    if len(known) > 1: ctx.probe('after_interrupted_save')
                else:
                    d = self.differs(dict(table=want, pending=True, grid=g), table, pred, g, kind)
                    if d: raise Violation('wrong-model', '%s: the trained model is wrong already: %s' % (name, d), 'wrong-training:' + kind)
                if save:
                    if not os.path.exists(path): raise Violation('not-saved', '%s returned but %s does not exist' % (name, path))
                    self.note(what='done', kind=kind, grid=g, table=table.tolist(), pred=pred)
                    ctx.probe('saved' if op['op'] == 'save' else 'resaved')
        return v

    @staticmethod
    def shape(g): return [len(g['alpha']), len(g['mach'])]

    @staticmethod
    def points(g):
        a, m = np.array(g['alpha']) * A.DEG, np.array(g['mach'])
        out = [(float(x), float(y)) for x in a for y in m]
        return out + [(float(.3 * a[0] + .7 * a[1]), float(.6 * m[2] + .4 * m[3])), (float(.5 * (a[2] + a[3])), float(.2 * m[0] + .8 * m[1]))]

    def table(self, v, g, kind):
        out = []
        for p in PATHS[kind]:
            out.append([[A.expected_results(v, dict(alpha=al, mach=m, beta=0.0, pb=0.0, qc=0.0, cl=None), False, 1)[0][p][0] for m in g['mach']] for al in g['alpha']])
        return out

    def differs(self, c, table, pred, g, kind):
        if c['grid'] != g and np.shape(c['table']) == table.shape: tol = None
        want = np.array(c['table'])
        if want.shape != table.shape: return 'the model has %s training values, %s were saved' % (table.shape, want.shape)
        tol = 1.2e-4 if c['pending'] else 6e-9
        d = np.abs(want - table)
        if not d.max() <= tol:
            k, i, j = np.unravel_index(np.nanargmax(d), d.shape)
            return '%s at %g deg, Mach %g is %.9g, the model that saved the file had %.9g' % (NAMES[kind][k], g['alpha'][i], g['mach'][j], table[k, i, j], want[k, i, j])
        if c.get('pred') and c['grid'] == g:
            e = np.abs(np.array(c['pred']) - np.array(pred))
            if not e.max() <= 1e-6: return 'a prediction differs by %.3g from the model that saved the file' % e.max()
        return None

    def nontrivial(self, scn, snap):
        return bool(snap['faults']) or bool(snap['probes'].get('loaded'))

    def shrink(self, scn):
        for k, s in enumerate(scn['ops']):
            def put(**kw): return dict(scn, ops=scn['ops'][:k] + [dict(s, **kw)] + scn['ops'][k + 1:])
            for j in range(len(s['ops'])):
                if len(s['ops']) > 1: yield put(ops=s['ops'][:j] + s['ops'][j + 1:])
            for j in range(len(s['faults'])): yield put(faults=s['faults'][:j] + s['faults'][j + 1:])
            for p in list(s['plan']): yield put(plan={x: y for x, y in s['plan'].items() if x != p})
        v = scn['vehicle']
        if v['bodies']: yield dict(scn, vehicle=dict(v, bodies=[]))
        if len(v['wings']) > 1: yield dict(scn, vehicle=dict(v, wings=v['wings'][:-1]))
        w = v['wings'][0]
        if w['segments'] or w['cs']: yield dict(scn, vehicle=dict(v, wings=[dict(w, segments=[], cs=[])] + v['wings'][1:]))


CHECK = C16()
