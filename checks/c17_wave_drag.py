"""C17: cached wave-drag data is never stale, mixed up or read half-written."""
import os, sys, types
import numpy as np
from sim.core import Check, Violation, HarnessError, where
from sim.fs import SimFS, gen_fault
from sim.instr import Counter

MODULES = ('OpenVSP_Wave_Drag/', 'Supersonic_OpenVSP_Wave_Drag', 'Helper_Functions/wave_drag_lift')


class VSP(object):
    """The OpenVSP Python interface, as far as wave drag goes: model, analysis inputs and results persist between calls."""
    def __init__(self, ctx, plan, clean=False):
        self.ctx, self.plan, self.execs, self.failed, self.fs = ctx, {int(k): v for k, v in plan.items()}, 0, 0, None
        self.model, self.name, self.inputs, self.results, self.record = None, None, dict(NumSlices=20, NumRotSects=10, Mach=2.0), {}, []
        self.clean = clean

    def fail(self, k): self.ctx.fault(k); self.failed += 1

    def module(self):
        m = types.ModuleType('vsp')
        for n in ('ClearVSPModel', 'ReadVSPFile', 'SetIntAnalysisInput', 'SetDoubleAnalysisInput', 'ExecAnalysis', 'GetDoubleResults', 'SetAnalysisInputDefaults', 'Update'):
            setattr(m, n, getattr(self, n))
        return m

    def ClearVSPModel(self): self.model = self.name = None
    def Update(self): pass
    def SetAnalysisInputDefaults(self, a): self.inputs = dict(NumSlices=20, NumRotSects=10, Mach=2.0)

    def ReadVSPFile(self, name):
        if (self.plan.get(self.execs) or {}).get('kind') == 'read':
            self.plan.pop(self.execs); self.fail('vsp_cannot_read'); raise RuntimeError('cannot read %s' % name)
        if self.fs is not None: self.fs.quiet += 1
        try:
            with open(name) as f: self.model, self.name = f.read(), name
        finally:
            if self.fs is not None: self.fs.quiet -= 1

    def SetIntAnalysisInput(self, a, k, v, i=0): self.inputs[k] = int(v[0])
    def SetDoubleAnalysisInput(self, a, k, v, i=0): self.inputs[k] = float(v[0])

    def ExecAnalysis(self, a):
        f = self.plan.pop(self.execs, None) or {}
        self.execs += 1
        kind = f.get('kind')
        if kind == 'raise': self.fail('vsp_exec_failed'); raise RuntimeError('WaveDrag failed')
        if kind == 'interrupt': self.fail('interrupt_while_vsp_runs'); raise KeyboardInterrupt()
        if kind == 'memory': self.fail('vsp_out_of_memory'); raise MemoryError()
        if kind == 'empty': self.fail('vsp_no_result'); return ''
        if a != 'WaveDrag' or self.model is None: return ''
        rid = 'R%d' % self.execs
        v = value(self.model, self.inputs['Mach'], self.inputs['NumSlices'], self.inputs['NumRotSects'])
        self.record.append((self.name, self.inputs['Mach'], v))
        self.results = {rid: v}
        return rid

    def GetDoubleResults(self, rid, key, i=0):
        return (self.results[rid],) if rid in self.results and key == 'CDWave' else ()


def value(model, mach, slices, rots):
    t = sum((k + 1) * ord(c) for k, c in enumerate(model)) % 991 / 991.0
    return (0.02 + 0.03 * t) / mach ** 1.3 * (1 + 1.0 / slices + 0.5 / rots)


class C17(Check):
    prop = 'C17'
    n_quick, n_thorough = 2800, 150000
    timeout = 60
    rule = ('seeded histories of supersonic compressibility-drag evaluations at Mach lists that repeat, nearly repeat and straddle the cached points, for one or two vehicles that change '
            'between sessions in a folder with leftover caches, with tool failures, disk faults on the cache and its removal, interrupts and crashes; each result is compared with the values the '
            'tool computed in this session and with a fresh session in an empty folder; non-trivial = a fault fired or a cached value was used')
    real = ['SUAVE.Methods.Aerodynamics.OpenVSP_Wave_Drag', 'SUAVE.Analyses.Aerodynamics.Supersonic_OpenVSP_Wave_Drag (initialize and its drag step)', 'real cache files']
    stub = ['the vsp module (closed-form wave drag of the model file, Mach number and slicing)', 'the vortex-lattice initialization', 'failures of file operations']
    assumptions = ['an analysis session starts with initialize() of the analysis, in the folder where it is evaluated']
    expected_probes = ['evaluated', 'cached', 'raised', 'crashed', 'leftover_cache', 'reinitialized', 'direct', 'tool_failed']
    state_measure = 'distinct (operation, number of Mach numbers, failure origin, outcome, tool runs, rows cached, position)'

    def setup(self):
        import warnings; warnings.simplefilter('ignore')
        import SUAVE, SUAVE.Analyses.Aerodynamics

    def gen(self, rng, tier, i):
        tags = rng.sample(['concorde', 'base', 'sst_2', 'a b'], rng.choice([1, 1, 2]))
        pool = [1.05, 1.2, 1.2000000000000002, round(rng.uniform(1.05, 3), 2), round(rng.uniform(1.05, 3), 6), round(rng.uniform(1.05, 2), 1), 1.0, 0.99, 1.03, round(rng.uniform(.2, 1.05), 2)]
        def vehicle(): return dict(area=round(rng.uniform(50, 500), 2), model=str(rng.randrange(10 ** 6)), slices=rng.choice([20, 12, 40]), rots=rng.choice([10, 6]),
                                   wings=[dict(main=k == 0, high=rng.random() < .6, area=round(rng.uniform(5, 300), 1), length=round(rng.uniform(2, 30), 1), tc=.05, sweep=rng.choice([0.3, .9])) for k in range(rng.choice([1, 2]))])
        sessions = []
        for n in range(rng.choice([1, 2, 2, 3])):
            ops, plan = [], {}
            for _ in range(rng.choice([2, 3, 5, 7])):
                r, t = rng.random(), rng.choice(tags)
                if r < .15: op = dict(op='init', tag=t, vehicle=vehicle() if rng.random() < .8 else None)
                elif r < .85: op = dict(op='eval', tag=t, mach=[rng.choice(pool) if rng.random() < .75 else round(rng.uniform(.5, 3), 3) for _ in range(rng.choice([1, 1, 2, 3, 6]))])
                else: op = dict(op='direct', tag=t, flag=rng.random() < .3, mach=[rng.choice(pool) for _ in range(rng.choice([1, 2, 4]))])
                if rng.random() < .12: op['interrupt'] = int(10 ** rng.uniform(0.3, 2.8))
                ops.append(op)
            for _ in range(rng.choice([0, 0, 1, 2])): plan[rng.randrange(8)] = dict(kind=rng.choice(['raise', 'empty', 'read', 'interrupt', 'memory']))
            faults = []
            if rng.random() < .4:
                f = gen_fault(rng, kinds=['ENOSPC', 'EIO', 'EACCES', 'KeyboardInterrupt', 'crash', 'crash', 'short'], max_at=6)
                f['op'] = rng.choice(['remove|unlink', 'write', 'close', 'open-w', 'rename|replace', 'open-r', 'read', 'write|close|rename|replace'])
                if f['kind'] == 'short': f['op'] = 'write'
                f['match'] = 'volume_drag'
                faults.append(f)
            sessions.append(dict(ops=ops, plan={str(k): v for k, v in plan.items()}, faults=faults, nomodule=rng.random() < .03))
        return dict(ops=sessions, vehicles={t: vehicle() for t in tags}, leftover=rng.choice([None, None, 'good', 'garbage', 'cut']))

    def run(self, scn, ctx):
        work = os.path.join(ctx.root, 'work')
        os.mkdir(work); os.mkdir(os.path.join(ctx.root, 'fresh'))
        vehicles = dict(scn['vehicles'])
        if scn['leftover']:
            ctx.probe('leftover_cache')
            for t in vehicles:
                p = os.path.join(work, 'volume_drag_data_%s.npy' % t)
                np.save(p, np.array([[1.05, .5], [1.2, .6], [1.03, .7]]))
                data = open(p, 'rb').read()
                with open(p, 'wb') as f: f.write(data if scn['leftover'] == 'good' else data[:-9] if scn['leftover'] == 'cut' else b'garbage')
        for k, s in enumerate(scn['ops']):
            st = ctx.session(self.proc, s, vehicles, work, k)
            if st[0] == 'crash':
                ctx.probe('crashed')
                for op in s['ops']:
                    if op['op'] == 'init' and op['vehicle']: vehicles[op['tag']] = op['vehicle']
            else: vehicles = st[1]

    # -------------------------------------------------------------------------------- pieces
    def build(self, tag, v):
        import SUAVE
        an = SUAVE.Analyses.Aerodynamics.Supersonic_OpenVSP_Wave_Drag()
        veh = SUAVE.Vehicle(); veh.tag, veh.reference_area = tag, v['area']
        for k, d in enumerate(v['wings']):
            w = (SUAVE.Components.Wings.Main_Wing if d['main'] else SUAVE.Components.Wings.Horizontal_Tail)()
            w.tag = 'wing_%d' % k
            w.areas.reference, w.total_length, w.high_mach, w.thickness_to_chord, w.sweeps.quarter_chord = d['area'], d['length'], d['high'], d['tc'], d['sweep']
            veh.append_component(w)
        an.geometry = veh
        an.settings.use_surrogate, an.settings.propeller_wake_model, an.settings.model_fuselage, an.settings.model_nacelle = True, None, False, False
        an.settings.number_slices, an.settings.number_rotations = v['slices'], v['rots']
        an.process.compute.lift.inviscid_wings.initialize = lambda *a, **k: None
        return an

    def state(self, an, machs):
        import SUAVE
        from SUAVE.Core import Data
        s = Data()
        s.conditions = SUAVE.Analyses.Mission.Segments.Conditions.Aerodynamics()
        m = np.array([[x] for x in machs])
        s.conditions.freestream.mach_number = m
        ad = s.conditions.aerodynamics
        ad.lift_coefficient = 0.2 + 0.05 * m
        ad.lift_breakdown, ad.drag_breakdown = Data(), Data()
        ad.lift_breakdown.compressible_wings, ad.lift_breakdown.inviscid_wings = Data(), Data()
        for k, w in enumerate(an.geometry.wings):
            ad.lift_breakdown.compressible_wings[w.tag] = (0.2 + .1 * k) + 0 * m
            ad.lift_breakdown.inviscid_wings[w.tag] = (0.2 + .1 * k) + 0 * m
        return s

    def evaluate(self, an, s):
        an.process.compute.drag.compressibility.total(s, an.settings, an.geometry)
        c = s.conditions.aerodynamics.drag_breakdown.compressible
        return np.array(c.total), np.array(c.total_volume)

    def fresh(self, ctx, tag, v, machs, n):
        """The same evaluation by a session of its own."""
        here, old = os.getcwd(), sys.modules.get('vsp')
        d = os.path.join(ctx.root, 'fresh', n)
        os.makedirs(d); os.chdir(d)
        try:
            with open(tag + '.vsp3', 'w') as f: f.write(v['model'])
            sys.modules['vsp'] = VSP(ctx, {}).module()
            an = self.build(tag, v)
            an.initialize()
            return self.evaluate(an, self.state(an, machs))
        finally:
            os.chdir(here)
            sys.modules['vsp'] = old

    def proc(self, ctx, s, vehicles, work, number):
        from SUAVE.Methods.Aerodynamics.OpenVSP_Wave_Drag.compressibility_drag_total import compressibility_drag_total
        from SUAVE.Methods.Aerodynamics.OpenVSP_Wave_Drag import wave_drag_volume
        os.chdir(work)
        vehicles = dict(vehicles)
        tool = VSP(ctx, s['plan'])
        fs = tool.fs = SimFS(ctx, work, s['faults'], armed=False)
        ans, start = {}, {}
        sys.modules['vsp'] = None if s['nomodule'] else tool.module()
        with fs:
            for k, op in enumerate(s['ops']):
                t = op['tag']
                name = 'session %d, operation %d (%s %s)' % (number, k, op['op'], t)
                r0, f0 = fs.nraised, tool.failed
                if op['op'] == 'init' or t not in ans:                       # a session starts
                    if op['op'] == 'init':
                        if op['vehicle']: vehicles[t] = op['vehicle']
                        if t in ans: ctx.probe('reinitialized')
                    with open(t + '.vsp3', 'w') as f: f.write(vehicles[t]['model'])
                    an = self.build(t, vehicles[t])
                    ans.pop(t, None)
                    fs.armed = True
                    err = None
                    try: an.initialize()
                    except (Violation, HarnessError): raise
                    except BaseException as e: err = e
                    fs.armed = False
                    ctx.log(name, 'session start', 'raised ' + type(err).__name__ if err is not None else 'done')
                    if err is not None:
                        if fs.nraised == r0: raise Violation('spurious-error', '%s: initialize raised %s: %s although nothing failed' % (name, type(err).__name__, err), 'spurious-error:init')
                        continue
                    ans[t], start[t] = an, len(tool.record)
                    if op['op'] == 'init': continue
                    r0 = fs.nraised
                an, v = ans[t], vehicles[t]
                st = self.state(an, op['mach'])
                before = np.array(st.conditions.freestream.mach_number)
                n0 = tool.execs
                cnt = Counter(op.get('interrupt'), KeyboardInterrupt, MODULES)
                there = os.path.exists('volume_drag_data_%s.npy' % t)
                got = err = None
                fs.armed = True
                try:
                    with cnt:
                        if op['op'] == 'eval': got = self.evaluate(an, st)
                        else: got = (None, wave_drag_volume(st.conditions, an.geometry, op['flag'], num_slices=v['slices'], num_rots=v['rots']))
                except (Violation, HarnessError): raise
                except BaseException as e: err = e
                fs.armed = False
                failed = tool.failed != f0
                cause = failed or fs.nraised != r0 or cnt.fired or s['nomodule']
                ctx.log(name, 'raised ' + type(err).__name__ if err is not None else 'returned', cnt.where, tool.execs - n0)
                ctx.state(op['op'], len(op['mach']), fs.nraised != r0, failed, cnt.fired, err is None, tool.execs - n0, there, k)
                after = np.array(st.conditions.freestream.mach_number)
                if after.shape != before.shape or not np.array_equal(after, before):
                    raise Violation('conditions-changed', '%s %s: the Mach numbers passed in were %s and are now %s' % (name, 'returned' if err is None else 'raised ' + type(err).__name__, before.ravel().tolist(), after.ravel().tolist()), 'conditions-changed')
                if err is not None:
                    ctx.probe('raised')
                    if failed: ctx.probe('tool_failed')
                    # the cache of a session is created by its first full evaluation
                    if not cause and not (op['op'] == 'direct' and not there):
                        raise Violation('spurious-error', '%s raised %s: %s although nothing failed (%s)' % (name, type(err).__name__, err, where(err.__traceback__)), 'spurious-error:' + where(err.__traceback__))
                    continue
                if failed: raise Violation('failure-ignored', '%s returned although the tool failed' % name, 'failure-ignored')
                rec = tool.record[start[t]:]
                vol = np.ravel(got[1])
                machs = op['mach']
                if op['op'] == 'direct' and op['flag']: machs = [1.05]
                ctx.probe('evaluated' if op['op'] == 'eval' else 'direct')
                sup = [x for x in set(machs) if x >= 1.05]
                if sup and tool.execs - n0 < len(sup): ctx.probe('cached')
                if len(vol) != len(machs): raise Violation('wrong-volume-drag', '%s: %d values for %d Mach numbers' % (name, len(vol), len(machs)), 'wrong-shape')
                for m, x in zip(machs, vol):
                    if m < 1.05:
                        if x != 0: raise Violation('wrong-volume-drag', '%s: Mach %r has volume drag %.9g' % (name, m, x), 'subsonic')
                        continue
                    ok = [r * 100. / v['area'] for n, mm, r in rec if n == t + '.vsp3' and mm == m]
                    if not any(abs(x - y) <= 1e-12 * abs(y) for y in ok):
                        raise Violation('wrong-volume-drag', '%s: Mach %r has volume drag %.9g; the tool computed %s for it in this session' % (name, m, x, ['%.9g' % y for y in ok] or 'nothing'), 'wrong-volume-drag')
                if op['op'] == 'eval':
                    fs.quiet += 1
                    try: want = self.fresh(ctx, t, v, op['mach'], '%d_%d' % (number, k))
                    finally: fs.quiet -= 1
                    for what, a, b in (('total', got[0], want[0]), ('volume', got[1], want[1])):
                        if a.shape != b.shape or not np.allclose(a, b, rtol=1e-10, atol=1e-14):
                            raise Violation('history-dependent', '%s: %s compressibility drag at Mach %s is %s, a session of its own gives %s' % (name, what, op['mach'], np.ravel(a).tolist(), np.ravel(b).tolist()), 'history-dependent:' + what)
        return vehicles

    def nontrivial(self, scn, snap):
        return bool(snap['faults']) or bool(snap['probes'].get('cached'))

    def shrink(self, scn):
        for k, s in enumerate(scn['ops']):
            def put(**kw): return dict(scn, ops=scn['ops'][:k] + [dict(s, **kw)] + scn['ops'][k + 1:])
            for j, op in enumerate(s['ops']):
                if len(s['ops']) > 1: yield put(ops=s['ops'][:j] + s['ops'][j + 1:])
                if op.get('interrupt'): yield put(ops=s['ops'][:j] + [{a: b for a, b in op.items() if a != 'interrupt'}] + s['ops'][j + 1:])
                for q in range(len(op.get('mach', []))):
                    if len(op['mach']) > 1: yield put(ops=s['ops'][:j] + [dict(op, mach=op['mach'][:q] + op['mach'][q + 1:])] + s['ops'][j + 1:])
            for j in range(len(s['faults'])): yield put(faults=s['faults'][:j] + s['faults'][j + 1:])
            for p in list(s['plan']): yield put(plan={x: y for x, y in s['plan'].items() if x != p})
        if scn['leftover']: yield dict(scn, leftover=None)


CHECK = C17()
