import sys; sys.path.insert(0, '/verif/tools')
from plant import plant
M = '''
import io, contextlib
import numpy as np, scipy.optimize
import SUAVE
from SUAVE.Core import Data, Units
from SUAVE.Analyses import Mission
class Aero(SUAVE.Analyses.Aerodynamics.Aerodynamics):
    def __call__(self, state):
        c = state.conditions
        cl = 5.5 * c.aerodynamics.angle_of_attack + .2
        cd = .02 + .04 * cl ** 2
        c.aerodynamics.lift_coefficient, c.aerodynamics.drag_coefficient = cl, cd
        r = Data(); r.lift, r.drag = Data(), Data()
        r.lift.total, r.drag.total = cl, cd
        return r
    evaluate = __call__
class Pull(Data):
    def evaluate_thrust(self, state):
        r = Data()
        t = state.conditions.propulsion.throttle
        f = state.ones_row(3) * 0.
        f[:, 0] = 150000. * t[:, 0]
        r.thrust_force_vector, r.vehicle_mass_rate, r.network_y_axis_rotation = f, 2.5 * t, state.ones_row(1) * 0.
        return r
vehicle = SUAVE.Vehicle()
vehicle.mass_properties.takeoff = 60000.
vehicle.reference_area = 125.
def analyses():
    a = SUAVE.Analyses.Vehicle()
    w = SUAVE.Analyses.Weights.Weights_Transport(); w.vehicle = vehicle; a.append(w)
    e = Aero(); e.geometry = vehicle; a.append(e)
    n = SUAVE.Analyses.Energy.Energy(); a.append(n)
    n.evaluate_thrust = Pull().evaluate_thrust
    p = SUAVE.Analyses.Planets.Planet(); a.append(p)
    t = SUAVE.Analyses.Atmospheric.US_Standard_1976(); t.features.planet = p.features; a.append(t)
    return a
def mission(finder=None, altitude=3000.):
    m = Mission.Sequential_Segments(); m.tag = 'm'
    s = Mission.Segments.Cruise.Constant_Speed_Constant_Altitude()
    s.tag = 'cruise'; s.analyses = analyses()
    s.altitude, s.air_speed, s.distance = altitude, 180., 50000.
    s.state.numerics.number_control_points = 4
    s.process.iterate.conditions.stability = SUAVE.Methods.skip
    s.process.finalize.post_process.stability = SUAVE.Methods.skip
    if finder: s.settings = Data(root_finder=finder)
    m.append_segment(s)
    return m
'''
plant('c06-slow-is-good', 'C06',
 [('Methods/Missions/Segments/converge_root.py', "    if ier!=1:\n", "    if ier not in (1,5): # slow progress over the last ten iterations still is a solution\n")],
 M + '''
def finder(f, x, args=(), **k):
    return x, {}, 5, 'not making good progress'
m = mission(finder)
m.evaluate()
assert not m.segments.cruise.converged, 'a stalled segment is reported as converged'
''', 'a solver that stalls for ten iterations', 'the stalled segment is reported as converged and its message is lost')
plant('c06-report-once', 'C06',
 [('Methods/Missions/Segments/converge_root.py', '        print("Segment did not converge. Segment Tag: " + segment.tag)\n        print("Error Message:\\n" + msg)\n',
   '        # in a loop over many missions the same message would be repeated over and over\n        if msg != segment.state.numerics.get(\'message\'):\n            print("Segment did not converge. Segment Tag: " + segment.tag)\n            print("Error Message:\\n" + msg)\n        segment.state.numerics.message = msg\n')],
 M + '''
def finder(f, x, args=(), **k):
    f(x, args); return x, {}, 2, 'too many calls'
m = mission(finder)
for i in range(2):
    out = io.StringIO()
    with contextlib.redirect_stdout(out): m.evaluate()
    assert 'too many calls' in out.getvalue(), 'the message of evaluation %d is lost' % (i+1)
''', 'a second evaluation of a mission in which the solver gives up for the same reason', 'the message of the solver is not passed on')
plant('c07-placed-range', 'C07',
 [('Methods/Missions/Segments/Common/Frames.py', "        segment.state.conditions.frames.inertial.aircraft_range[:,:]  = R_current + (R_initial[-1,None,:] - R_current[0,None,:])\n",
   "        # a segment that has its place is not moved again at every iteration\n        if R_current[0,0]==0.:\n            segment.state.conditions.frames.inertial.aircraft_range[:,:] = R_current + (R_initial[-1,None,:] - R_current[0,None,:])\n")],
 M + '''
def two():
    m = mission(); s = mission().segments.cruise; s.tag = 'second'; m.append_segment(s)
    return m
m = two(); m.evaluate()
m.segments.cruise.distance = 90000.
m.evaluate()
a, b = (m.segments[k].state.conditions.frames.inertial.aircraft_range for k in ('cruise', 'second'))
assert abs(a[-1, 0] - b[0, 0]) < 1e-3, 'the second segment starts at %g m, the first ends at %g m' % (b[0, 0], a[-1, 0])
''', 'a linked mission evaluated again after an earlier segment changed its length', 'the segment starts at the range of the first evaluation')
plant('c07-same-altitude', 'C07',
 [('Methods/Missions/Segments/Common/Aerodynamics.py', "    # compute\n    atmo_data = atmosphere.compute_values(h,temperature_deviation)\n",
   "    # compute, the altitudes of most segments stay the same\n    known = segment.state.conditions.freestream.get('atmosphere_at')\n    if known is not None and known.shape==h.shape and np.all(known==h):\n        return\n    conditions.freestream.atmosphere_at = h.copy()\n    atmo_data = atmosphere.compute_values(h,temperature_deviation)\n")],
 M + '''
fresh = mission(); fresh.segments.cruise.temperature_deviation = 15.; fresh.evaluate()
m = mission(); m.evaluate()
m.segments.cruise.temperature_deviation = 15.
m.evaluate()
a, b = (x.segments.cruise.state.conditions.freestream.density[0, 0] for x in (m, fresh))
assert abs(a - b) < 1e-9, 'density %g instead of %g' % (a, b)
''', 'the temperature deviation of a segment changes, or the atmosphere fails, between two evaluations of a mission', 'the second evaluation uses the atmosphere of the first')
