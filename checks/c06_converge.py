"""C06: a mission segment's convergence report is truthful."""
import copy
from sim.core import Check, Violation, HarnessError, where


class C06(Check):
    prop = 'C06'
    n_quick, n_thorough = 400, 60000
    timeout = 120
    rule = ('seeded missions (25 segment kinds, sequential, all at once and given landing weight) on a closed-form vehicle or the twin-jet with its real analyses; each is evaluated several times while the solver of chosen '
            'segments hits its limit, stalls, raises before or after its work, analyses raise or return undefined values, and interrupts land at seeded lines; every report is compared with what the solver returned; '
            'non-trivial = a solver did not succeed or an evaluation raised')
    real = ['SUAVE.Analyses.Mission', 'SUAVE.Methods.Missions.Segments', 'scipy.optimize.fsolve', 'for the twin-jet: SUAVE.Analyses.Aerodynamics.Fidelity_Zero, Stability, Energy, Weights, Atmospheric, turbofan network']
    stub = ['outcome of the solver for segments with a solver fault', 'closed-form lift, drag and thrust of the light vehicle', 'failures raised inside analyses']
    assumptions = ['the solver is reached through segment.settings.root_finder (in a fifth of the scenarios the default solver is used and only residuals are judged)',
                   'residuals of a converged segment are judged against 1e-5 (2e-3 for the two climbs whose unknowns include altitudes and for missions solved at once), because the solver tolerance applies to the unknowns']
    expected_probes = ['converged', 'not_converged', 'raised', 'converged_after_failure', 'failed_after_convergence', 'mission_report', 'residuals', 'default_solver', 'optimized']
    state_measure = 'distinct (mission kind, segment kind, solver outcome, previous outcome, evaluation number)'

    def setup(self):
        from checks import missionlib
        global L; L = missionlib
        import scipy.optimize

    def gen(self, rng, tier, i):
        if i % 40 == 7: return L.gen_optimized(rng)
        scn = L.gen_scenario(rng, ['light', 'light', 'light', 'jet'], .5, .4, .4, 5, plain=False)
        scn['recorded'] = rng.random() < .8
        if not scn['recorded']:
            for op in scn['ops']: op.pop('solver', None)
        scn['ops'].insert(rng.randrange(len(scn['ops']) + 1), dict(op='eval', m=0))
        return scn

    def run(self, scn, ctx):
        if scn.get('optimized'): return self.optimized(scn, ctx)
        fleet = L.Fleet(ctx, scn['vehicle'], copy.deepcopy(scn['plans']), recorded=scn['recorded'])
        last = {}
        for k, op in enumerate(scn['ops']):
            if op['op'] == 'mass': fleet.vehicle.mass_properties.takeoff = 79015.8 * op['scale']; continue
            if op['op'] == 'tune':
                s = fleet.missions[op['m']].segments[scn['plans'][op['m']]['segments'][op['seg']]['tag']]
                s[op['key']] = op['to'] if 'to' in op else s[op['key']] * op['by']; continue
            res, err, text, fired = fleet.fly(op)
            if err is not None:
                ctx.probe('raised')
                import traceback
                if not (fired['fail'] or fired['line'] or any(s['kind'] in ('refuse', 'late') for s in op.get('solver', {}).values())):
                    raise Violation('evaluation-raised', 'op %d: %s: %s (%s)' % (k, type(err).__name__, err, where(err.__traceback__)), 'evaluation-raised:' + type(err).__name__)
            self.judge(ctx, scn, fleet, k, op, res, err, text, last, fired)

    def optimized(self, scn, ctx):
        """A climb whose path is optimized: the report is that of the optimizer, not that of the climb it starts from."""
        fleet = L.Fleet(ctx, 'light', [dict(kind='seq', segments=[scn['segment']])], recorded=False)
        opt = L.Optimizer(ctx)
        for k, op in enumerate(scn['ops']):
            with opt.plan(op['optimizer']): res, err, text, fired = fleet.fly(dict(op='eval', m=0))
            seg = fleet.missions[0].segments['climb']
            flag, num = (bool(seg.converged) if 'converged' in seg.keys() else None), seg.state.numerics.converged
            ctx.log(k, opt.mode, flag, num, None if err is None else type(err).__name__)
            ctx.state('optimized', str(opt.mode), k, err is None)
            if opt.calls == 0: continue                                     # solved in another way
            ctx.probe('optimized')
            label = 'op %d, optimized climb' % k
            if err is not None:
                if op['optimizer']['kind'] != 'refuse': raise Violation('evaluation-raised', '%s: %s: %s (%s)' % (label, type(err).__name__, err, where(err.__traceback__)), 'evaluation-raised:' + type(err).__name__)
                if flag or num: raise Violation('wrong-report', '%s: the optimizer raised %s, but the segment says converged' % (label, type(err).__name__))
                continue
            if op['optimizer']['kind'] == 'refuse': raise Violation('failure-swallowed', '%s: the evaluation returned although the optimizer raised' % label)
            if bool(flag) != (opt.mode == 0) or bool(num) != bool(flag):
                raise Violation('wrong-report', '%s: the optimizer reported %s (%s) but the segment says converged=%s (numerics: %s)' % (label, opt.mode, opt.message, flag, num))
            if opt.mode != 0 and (str(seg.tag) not in text or opt.message not in text):
                raise Violation('message-lost', '%s: the optimizer gave up with %r, the output is %r' % (label, opt.message, text[-300:]))

    def judge(self, ctx, scn, fleet, k, op, res, err, text, last, fired):
        import numpy as np
        plan = scn['plans'][op['m']]
        m = fleet.missions[op['m']] if res is None else res
        if fired['line'] and not fleet.solvers.records: return         # interrupted before or while the reports were withdrawn
        if plan['kind'] == 'seq': items = [(s['tag'], m.segments[s['tag']], s['cls']) for s in plan['segments']]
        else:
            ctx.probe('mission_report')
            items = [(str(m.tag), m, plan['kind'])]
        for tag, seg, cls in items:
            flag = bool(seg.converged) if 'converged' in seg else None
            num = seg.state.numerics.converged
            rec = fleet.solvers.records.get(tag)
            prev = last.get((op['m'], tag))
            outcome = rec['ier'] if rec and rec['outcome'] == 'returned' else (rec['outcome'] if rec else 'not run')
            last[(op['m'], tag)] = outcome
            ctx.state(plan['kind'], cls, str(outcome), str(prev), min(k, 3), err is None)
            ctx.log(k, tag, outcome, flag, num)
            label = 'op %d, segment %s (%s)' % (k, tag, cls)
            if bool(flag) != bool(num) and not (fired['line'] and err is not None): raise Violation('two-reports', '%s: segment.converged is %s but numerics.converged is %s' % (label, flag, num))
            if scn['recorded']:
                good = outcome == 1
                if err is None and (flag is None or bool(flag) != good):
                    raise Violation('wrong-report', '%s: the solver reported %s (%s) but the segment says converged=%s' % (label, outcome, rec and rec['msg'], flag))
                if err is not None and flag and not good:
                    raise Violation('wrong-report', '%s: the evaluation raised %s and the solver %s, but the segment says converged' % (label, type(err).__name__, outcome))
                if good and prev not in (None, 1): ctx.probe('converged_after_failure')
                if prev == 1 and not good: ctx.probe('failed_after_convergence')
                if rec and rec['outcome'] == 'returned' and not good:
                    if True:
                        words = ' '.join(str(rec['msg']).split())
                        if tag not in text or words not in ' '.join(text.split()):
                            raise Violation('message-lost', '%s: the solver gave up with %r, the output is %r' % (label, rec['msg'], text[-300:]))
                elif tag in text and 'did not converge' in text and plan['kind'] != 'seq': raise Violation('false-message', '%s: the solver succeeded, the output is %r' % (label, text[-300:]))
                genuine = good and rec.get('found') == 1
            else:
                ctx.probe('default_solver')
                genuine = bool(flag)
                if err is None and flag is None: raise Violation('no-report', '%s: no report after an evaluation' % label)
                if err is None and not flag and tag not in text: raise Violation('message-lost', '%s: not converged, the output is %r' % (label, text[-300:]))
            if err is None: ctx.probe('converged' if flag else 'not_converged')
            if err is None and flag and genuine and not fired['last']:
                ctx.probe('residuals')
                with np.errstate(all='ignore'): r = np.abs(seg.state.residuals.pack_array()).max()
                lim = 1e-5 if plan['kind'] == 'seq' and not cls.endswith(('Pressure_Constant_Angle', 'Mach_Constant_Angle')) else 2e-3
                spoilt = fired['fail'] and op['fail']['kind'] == 'nan' and not np.isfinite(r)      # undefined only after the solver was done
                if not r <= lim and not spoilt: raise Violation('residuals', '%s: converged, yet a residual of its results is %g' % (label, r))
                if not spoilt and plan['kind'] == 'seq' and not cls.startswith('Ground') and 'Acceleration' not in cls:     # there the acceleration is an input
                    c = seg.state.conditions
                    f = c.frames.inertial.total_force_vector[:, [0, 2]] / c.weights.total_mass - c.frames.inertial.acceleration_vector[:, [0, 2]]
                    f = np.abs(f).max()
                    if not f <= 100 * lim: raise Violation('forces', '%s: converged, yet the forces exceed mass times acceleration by %g m/s^2' % (label, f))


CHECK = C06()
