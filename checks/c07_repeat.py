"""C07: a mission gives the same answer every time it is evaluated."""
import copy
from sim.core import Check, Violation, HarnessError, is_injected, where


class C07(Check):
    prop = 'C07'
    n_quick, n_thorough = 300, 50000
    timeout = 150
    rule = ('seeded histories of evaluations of one or two missions that share a vehicle and its analyses; any evaluation may be ended by an exception or interrupt raised in an analysis, in the solver or at a seeded line, '
            'or be spoilt by undefined values or a stalled solver; every later clean evaluation is compared, value by value, with the same mission built and evaluated in a process of its own; segments are replaced and appended between evaluations; links between segments are checked '
            'after every evaluation; non-trivial = an evaluation followed one that failed')
    real = ['SUAVE.Analyses.Mission', 'SUAVE.Methods.Missions.Segments', 'scipy.optimize.fsolve', 'for the twin-jet: SUAVE.Analyses.Aerodynamics.Fidelity_Zero, Stability, Energy, Weights, Atmospheric, turbofan network']
    stub = ['closed-form lift, drag and thrust of the light vehicle', 'failures and undefined values raised inside analyses', 'outcome of a stalled solver']
    assumptions = ['values are compared to 2e-5 of their range (2e-3 where unknowns include altitudes, 2e-4 for missions solved at once): a solver started from an earlier solution stops at another point within its tolerance',
                   'compared up to the first segment that does not converge in the fresh mission; segments whose solver was made to fail are not compared']
    expected_probes = ['compared', 'after_raise', 'after_nan', 'after_stall', 'after_interrupt', 'after_other_mission', 'after_change', 'linked', 'first_flight_density', 'raised', 'segment_replaced', 'segment_appended']
    state_measure = 'distinct (mission kind, vehicle, segment kinds, kinds of the last two evaluations)'

    def setup(self):
        from checks import missionlib
        global L; L = missionlib
        import scipy.optimize

    def gen(self, rng, tier, i):
        if i % 60 < 3: return dict(dense=L.DENSITY[i % 60], h=float(rng.choice([3000, 6000, 9000])), ops=[])
        scn = L.gen_scenario(rng, ['light', 'light', 'light', 'jet'], .22, .45, .5, 5, edits=True)
        scn['ops'].append(dict(op='eval', m=rng.randrange(len(scn['plans']))))
        return scn

    def nontrivial(self, scn, snap): return bool(snap['faults']) or snap['probes'].get('after_other_mission', 0) > 0

    # A listed finding, looked at on its own: the first evaluation of these segments uses the density at sea level.
    def dense(self, scn, ctx):
        import random, numpy as np
        ctx.probe('first_flight_density')
        rng = random.Random(scn['seed'])
        cls, h = scn['dense'], scn['h']
        fam, name = cls.split('.')
        par = L.climb(rng, name, h, h + 600.) if fam == 'Climb' else L.cruise(rng, name, h)
        par['altitude_start' if fam == 'Climb' else 'altitude'] = h
        plan = dict(kind='seq', segments=[dict(cls=cls, tag='only', n=4, par=par)])
        f = L.Fleet(ctx, 'light', [plan])
        speed = []
        for _ in range(3):
            res, err, text, fired = f.fly(dict(op='eval', m=0))
            if err is not None: raise err
            speed.append(np.linalg.norm(res.segments.only.state.conditions.frames.inertial.velocity_vector, axis=1))
        rho = np.ravel(f.analyses.atmosphere.compute_values(res.segments.only.state.conditions.freestream.altitude).density)
        right, sea = np.sqrt(2 * par['dynamic_pressure'] / rho), np.sqrt(2 * par['dynamic_pressure'] / 1.225)
        ctx.log(speed[0], speed[1], right)
        for k in (1, 2):
            if not np.allclose(speed[k], right, rtol=1e-4): raise Violation('repeated', '%s: evaluation %d flies at %s, not %s m/s' % (cls, k + 1, speed[k], right))
        if np.allclose(speed[0], right, rtol=1e-4): return
        if np.allclose(speed[0], sea, rtol=1e-4):
            raise Violation('repeated', '%s at %g m: the first evaluation flies at %.1f m/s (the density at sea level), later ones at %.1f m/s' % (cls, h, speed[0][0], speed[1][0]), 'first-flight-density:' + cls)
        raise Violation('repeated', '%s: the first evaluation flies at %s, later ones at %s m/s' % (cls, speed[0], speed[1]))

    def run(self, scn, ctx):
        if scn.get('dense'): return self.dense(scn, ctx)
        import numpy as np
        plans, scale = copy.deepcopy(scn['plans']), 1.0
        fleet = L.Fleet(ctx, scn['vehicle'], copy.deepcopy(plans))
        refs, history, changed = {}, [], False
        for k, op in enumerate(scn['ops']):
            if op['op'] == 'mass':
                scale = op['scale']; fleet.vehicle.mass_properties.takeoff = 79015.8 * scale; changed = True; continue
            if op['op'] == 'tune':
                L.apply(plans, op)
                s = plans[op['m']]['segments'][op['seg']]
                if op.get('renew'): fleet.missions[op['m']].segments[s['tag']] = fleet.part(s); ctx.probe('segment_replaced')
                fleet.missions[op['m']].segments[s['tag']][op['key']] = s['par'][op['key']]
                changed = True; continue
            if op['op'] == 'extend':
                plans[op['m']]['segments'].append(copy.deepcopy(op['segment']))
                fleet.missions[op['m']].append_segment(fleet.part(op['segment'])); ctx.probe('segment_appended')
                changed = True; continue
            m, plan = op['m'], plans[op['m']]
            res, err, text, fired = fleet.fly(op)
            solver = op.get('solver') or {}
            hit = [t for t in solver if t not in fleet.solvers.plan and solver[t]['kind'] != 'wander']
            forced = [t for t in hit if solver[t]['kind'] in ('refuse', 'late')]
            what = 'ok'
            ctx.log(k, m, None if err is None else type(err).__name__, fired['fail'], fired['line'])
            if err is not None:
                what = 'raise'; ctx.probe('raised')
                if fired['line']: what = 'interrupt'
                if not (fired['line'] or fired['fail'] or forced):
                    ref = self.ref(ctx, refs, scn, plan, scale)
                    if ref['err']: history.append((m, 'raise')); continue
                    raise Violation('evaluation-raised', 'op %d: %s: %s (%s), after %s' % (k, type(err).__name__, err, where(err.__traceback__), [h[1] for h in history]), 'evaluation-raised:' + type(err).__name__)
                history.append((m, what)); continue
            if (fired['fail'] and op['fail']['kind'] == 'raise') or forced or (fired['line'] and op['line']['exc'] == 'KeyboardInterrupt'):
                raise Violation('failure-swallowed', 'op %d: the evaluation returned although %s' % (k, fired['line'] or op.get('fail') or solver))
            if fired['fail']: what = 'nan'
            if hit: what = 'stall'
            self.links(ctx, k, plan, res, what)
            ref = self.ref(ctx, refs, scn, plan, scale)
            if ref['err']: history.append((m, what)); continue
            stop = None
            if plan['kind'] == 'seq':
                keep = []
                for s, c in zip(plan['segments'], ref['conv']):
                    if not c or s['tag'] in hit: break
                    if what == 'nan' and not res.segments[s['tag']].converged: break
                    keep.append(s['tag'])
                names = set(keep)
            else: names = set(s['tag'] for s in plan['segments']) if ref['conv'][0] and not hit and (what != 'nan' or res.converged) else set()
            if what == 'nan':                                                        # undefined values that came after the solver was done
                names = set(t for t in names if np.isfinite(res.segments[t].state.residuals.pack_array()).all())
            if names:
                got, want = L.numbers(res), ref['numbers']
                pick = lambda d: {p: v for p, v in d.items() if p.split('.')[0] in names}
                diff = L.differ(pick(got), pick(want), L.tolerance(plan))
                before = [h[1] for h in history if h[0] == m][-2:]
                if fired['last']: diff = None
                if diff: raise Violation('not-repeated', 'op %d (%s): %s; evaluations before: %s' % (k, what, diff, history), 'not-repeated')
                ctx.probe('compared')
                if what == 'ok':
                    for w, p in (('raise', 'after_raise'), ('nan', 'after_nan'), ('stall', 'after_stall'), ('interrupt', 'after_interrupt')):
                        if before and before[-1] == w: ctx.probe(p)
                    if history and history[-1][0] != m: ctx.probe('after_other_mission')
                    if changed: ctx.probe('after_change')
                ctx.state(plan['kind'], scn['vehicle'], [s['cls'] for s in plan['segments']], before, what)
            history.append((m, what))

    def ref(self, ctx, refs, scn, plan, scale):
        import json
        key = json.dumps([plan, scale], sort_keys=True)
        if key not in refs: refs[key] = L.reference(ctx, scn['vehicle'], plan, scale)
        return refs[key]

    def links(self, ctx, k, plan, res, what):
        import numpy as np
        if plan['kind'] != 'seq' and not res.converged: return
        prev = None
        for s in plan['segments']:
            seg = res.segments[s['tag']]
            c = seg.state.conditions
            if prev is not None:
                ctx.probe('linked')
                p = prev.state.conditions
                for name, a, b in (('time', p.frames.inertial.time[-1, 0], c.frames.inertial.time[0, 0]), ('mass', p.weights.total_mass[-1, 0], c.weights.total_mass[0, 0]),
                                   ('range', p.frames.inertial.aircraft_range[-1, 0], c.frames.inertial.aircraft_range[0, 0]), ('x', p.frames.inertial.position_vector[-1, 0], c.frames.inertial.position_vector[0, 0]),
                                   ('y', p.frames.inertial.position_vector[-1, 1], c.frames.inertial.position_vector[0, 1]), ('altitude', p.freestream.altitude[-1, 0], c.freestream.altitude[0, 0])):
                    if not (np.isfinite(a) and np.isfinite(b)):
                        if what == 'ok' and prev.converged and seg.converged: raise Violation('not-linked', 'op %d: %s of %s ends at %s' % (k, name, prev.tag, a))
                        continue
                    if plan['kind'] == 'seq' and name == 'altitude' and not (prev.converged and seg.converged): continue
                    tol = 1e-3 if plan['kind'] != 'seq' else 1e-6
                    if name == 'altitude': tol = 1e-4
                    if abs(a - b) > tol * max(1., abs(a)): raise Violation('not-linked', 'op %d: %s of segment %s ends at %r, segment %s starts at %r' % (k, name, prev.tag, float(a), seg.tag, float(b)), 'not-linked:' + name)
            prev = seg


CHECK = C07()
