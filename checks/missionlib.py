"""Vehicles, analyses and missions that the mission checks run: a twin-jet
transport (turbofans, Fidelity Zero lift, drag and stability), a solar aircraft
(panel, battery, motor, propeller) and a battery on a test bench.

Everything is the real code of the repository.  The vehicles are smaller than
those of the regression scripts, so that one mission takes a fraction of a
second."""
import contextlib
import io
import os
import sys

import numpy as np

import SUAVE
from SUAVE.Core import Units, Data
from SUAVE.Methods.Propulsion.turbofan_sizing import turbofan_sizing


def jet(tag='jet', scale=1.0, bypass=5.4):
    v = SUAVE.Vehicle()
    v.tag = tag
    v.mass_properties.max_takeoff = 79015.8 * scale
    v.mass_properties.takeoff = 79015.8 * scale
    v.mass_properties.operating_empty = 45000. * scale
    v.mass_properties.max_zero_fuel = 62732.0 * scale
    v.mass_properties.cargo = 10000.
    v.mass_properties.center_of_gravity = [[15.3, 0., -0.48]]
    v.mass_properties.moments_of_inertia.tensor = \
        [[3173074.17, 0, 28752.77], [0, 3019041.4, 0], [0, 0, 5730017.4]]
    v.design_mach_number = 0.78
    v.envelope.ultimate_load = 3.75
    v.envelope.limit_load = 1.5
    v.reference_area = 124.862
    v.passengers = 170
    v.systems.control = "fully powered"
    v.systems.accessories = "medium range"

    w = SUAVE.Components.Wings.Main_Wing()
    w.tag = 'main_wing'
    w.aspect_ratio = 10.18
    w.sweeps.quarter_chord = 25 * Units.deg
    w.thickness_to_chord = 0.1
    w.taper = 0.1
    w.spans.projected = 34.32
    w.chords.root = 7.760
    w.chords.tip = 0.782
    w.chords.mean_aerodynamic = 4.235
    w.areas.reference = 124.862
    w.areas.wetted = 225.08
    w.areas.exposed = 200.
    w.areas.affected = 150.
    w.twists.root = 4.0 * Units.degrees
    w.twists.tip = 0.0
    w.origin = [[13.61, 0, -0.93]]
    w.aerodynamic_center = [0, 0, 0]
    w.vertical = False
    w.symmetric = True
    w.high_lift = True
    w.dynamic_pressure_ratio = 1.0
    flap = SUAVE.Components.Wings.Control_Surfaces.Flap()
    flap.tag = 'flap'
    flap.span_fraction_start = 0.2
    flap.span_fraction_end = 0.7
    flap.deflection = 0.0
    flap.configuration_type = 'double_slotted'
    flap.chord_fraction = 0.30
    w.append_control_surface(flap)
    v.append_component(w)

    w = SUAVE.Components.Wings.Horizontal_Tail()
    w.tag = 'horizontal_stabilizer'
    w.aspect_ratio = 4.99
    w.sweeps.quarter_chord = 28.225 * Units.deg
    w.thickness_to_chord = 0.08
    w.taper = 0.3333
    w.spans.projected = 14.4
    w.chords.root = 4.2731
    w.chords.tip = 1.4243
    w.chords.mean_aerodynamic = 3.1
    w.areas.reference = 41.49
    w.areas.exposed = 59.354
    w.areas.wetted = 71.81
    w.areas.affected = 40.
    w.twists.root = 3.0 * Units.degrees
    w.twists.tip = 3.0 * Units.degrees
    w.origin = [[33.02, 0, 1.466]]
    w.aerodynamic_center = [0, 0, 0]
    w.vertical = False
    w.symmetric = True
    w.dynamic_pressure_ratio = 0.9
    v.append_component(w)

    w = SUAVE.Components.Wings.Vertical_Tail()
    w.tag = 'vertical_stabilizer'
    w.aspect_ratio = 1.98865
    w.sweeps.quarter_chord = 31.2 * Units.deg
    w.thickness_to_chord = 0.08
    w.taper = 0.1183
    w.spans.projected = 8.33
    w.total_length = 8.33
    w.chords.root = 10.1
    w.chords.tip = 1.20
    w.chords.mean_aerodynamic = 4.0
    w.areas.reference = 34.89
    w.areas.wetted = 57.25
    w.areas.exposed = 57.25
    w.areas.affected = 34.
    w.twists.root = 0.0
    w.twists.tip = 0.0
    w.origin = [[26.944, 0, 1.54]]
    w.aerodynamic_center = [0, 0, 0]
    w.vertical = True
    w.symmetric = False
    w.t_tail = False
    w.dynamic_pressure_ratio = 1.0
    v.append_component(w)

    f = SUAVE.Components.Fuselages.Fuselage()
    f.tag = 'fuselage'
    f.number_coach_seats = 170
    f.seats_abreast = 6
    f.seat_pitch = 31. * Units.inches
    f.fineness.nose = 1.6
    f.fineness.tail = 2.
    f.lengths.nose = 6.4
    f.lengths.tail = 8.0
    f.lengths.cabin = 28.85
    f.lengths.total = 38.02
    f.lengths.fore_space = 6.
    f.lengths.aft_space = 5.
    f.width = 3.74
    f.heights.maximum = 3.74
    f.heights.at_quarter_length = 3.74
    f.heights.at_three_quarters_length = 3.65
    f.heights.at_wing_root_quarter_chord = 3.74
    f.areas.side_projected = 142.1948
    f.areas.wetted = 385.51
    f.areas.front_projected = 12.57
    f.effective_diameter = 3.74
    f.differential_pressure = 5.0e4
    v.append_component(f)

    n = SUAVE.Components.Nacelles.Nacelle()
    n.tag = 'nacelle_1'
    n.length = 2.71
    n.inlet_diameter = 1.90
    n.diameter = 2.05
    n.areas.wetted = 1.1 * np.pi * n.diameter * n.length
    n.origin = [[13.72, -4.86, -1.9]]
    n.flow_through = True
    v.append_component(n)

    v.append_component(turbofan(bypass))
    return v


def turbofan(bypass=5.4):
    E = SUAVE.Components.Energy
    t = E.Networks.Turbofan()
    t.tag = 'turbofan'
    t.number_of_engines = 2.0
    t.bypass_ratio = bypass
    t.engine_length = 2.71
    t.origin = [[13.72, 4.86, -1.9], [13.72, -4.86, -1.9]]
    t.working_fluid = SUAVE.Attributes.Gases.Air()

    def add(kind, tag, **values):
        c = kind()
        c.tag = tag
        for k, x in values.items():
            c[k] = x
        t.append(c)

    C = E.Converters
    add(C.Ram, 'ram')
    add(C.Compression_Nozzle, 'inlet_nozzle', polytropic_efficiency=0.98, pressure_ratio=0.98)
    add(C.Compressor, 'low_pressure_compressor', polytropic_efficiency=0.91, pressure_ratio=1.14)
    add(C.Compressor, 'high_pressure_compressor', polytropic_efficiency=0.91, pressure_ratio=13.415)
    add(C.Turbine, 'low_pressure_turbine', mechanical_efficiency=0.99, polytropic_efficiency=0.93)
    add(C.Turbine, 'high_pressure_turbine', mechanical_efficiency=0.99, polytropic_efficiency=0.93)
    add(C.Combustor, 'combustor', efficiency=0.99, alphac=1.0, turbine_inlet_temperature=1450,
        pressure_ratio=0.95, fuel_data=SUAVE.Attributes.Propellants.Jet_A())
    add(C.Expansion_Nozzle, 'core_nozzle', polytropic_efficiency=0.95, pressure_ratio=0.99)
    add(C.Expansion_Nozzle, 'fan_nozzle', polytropic_efficiency=0.95, pressure_ratio=0.99)
    add(C.Fan, 'fan', polytropic_efficiency=0.93, pressure_ratio=1.7)
    thrust = E.Processes.Thrust()
    thrust.tag = 'compute_thrust'
    thrust.total_design = 2 * 24000.
    t.thrust = thrust
    turbofan_sizing(t, 0.78, 35000.0 * Units.ft)
    return t


def solar(tag='solar'):
    from SUAVE.Methods.Propulsion import propeller_design
    from SUAVE.Methods.Power.Battery.Sizing import initialize_from_mass
    v = SUAVE.Vehicle()
    v.tag = tag
    v.mass_properties.takeoff = 250.
    v.mass_properties.operating_empty = 250.
    v.mass_properties.max_takeoff = 250.
    v.reference_area = 80.
    v.envelope.ultimate_load = 2.0
    v.envelope.limit_load = 1.5
    v.envelope.maximum_dynamic_pressure = 0.5 * 1.225 * 40.**2
    for name, span, area, vertical, x in (('main_wing', 40., 80., False, 3.),
                                          ('horizontal_stabilizer', 15.49, 12., False, 10.),
                                          ('vertical_stabilizer', 12.65, 8., True, 10.)):
        w = SUAVE.Components.Wings.Main_Wing() if name == 'main_wing' else SUAVE.Components.Wings.Wing()
        w.tag = name
        w.areas.reference = area
        w.areas.wetted = 2. * area
        w.areas.exposed = 1.6 * area
        w.areas.affected = 1.2 * area
        w.spans.projected = span
        w.aspect_ratio = span**2 / area
        w.sweeps.quarter_chord = 0.
        w.symmetric = not vertical
        w.thickness_to_chord = 0.12
        w.taper = 1.0
        w.vertical = vertical
        w.high_lift = False
        w.dynamic_pressure_ratio = 1.0
        w.chords.mean_aerodynamic = w.chords.root = w.chords.tip = area / span
        w.twists.root = w.twists.tip = 0.
        w.transition_x_upper = 0.6
        w.transition_x_lower = 1.0
        w.t_tail = False
        w.origin = [[x, 0., 0.]]
        w.aerodynamic_center = [x, 0., 0.]
        v.append_component(w)
    E = SUAVE.Components.Energy
    net = E.Networks.Solar()
    net.number_of_engines = 1.
    net.solar_flux = E.Processes.Solar_Radiation()
    panel = E.Converters.Solar_Panel()
    panel.area = 72.
    panel.efficiency = 0.25
    panel.mass_properties.mass = 43.
    net.solar_panel = panel
    esc = E.Distributors.Electronic_Speed_Controller()
    esc.efficiency = 0.95
    net.esc = esc
    prop = E.Converters.Propeller()
    prop.number_of_blades = 2.0
    prop.number_radial_stations = 10
    prop.freestream_velocity = 40.
    prop.angular_velocity = 150. * Units['rpm']
    prop.tip_radius = 4.25
    prop.hub_radius = 0.05
    prop.design_Cl = 0.7
    prop.design_altitude = 14.0 * Units.km
    prop.design_thrust = 110.
    prop = propeller_design(prop)
    net.propellers.append(prop)
    motor = E.Converters.Motor()
    motor.resistance = 0.008
    motor.no_load_current = 4.5
    motor.speed_constant = 120. * Units['rpm']
    motor.propeller_radius = prop.tip_radius
    motor.propeller_Cp = prop.design_power_coefficient
    motor.gear_ratio = 12.
    motor.gearbox_efficiency = .98
    motor.expected_current = 160.
    net.motors.append(motor)
    payload = E.Peripherals.Payload()
    payload.power_draw = 50.
    net.payload = payload
    avionics = E.Peripherals.Avionics()
    avionics.power_draw = 50.
    net.avionics = avionics
    bat = E.Storages.Batteries.Constant_Mass.Lithium_Ion()
    bat.mass_properties.mass = 90.0
    bat.specific_energy = 600. * Units.Wh / Units.kg
    bat.resistance = 0.05
    bat.max_voltage = 45.0
    initialize_from_mass(bat)
    net.battery = bat
    logic = E.Distributors.Solar_Logic()
    logic.system_voltage = 40.0
    logic.MPPT_efficiency = 0.95
    net.solar_logic = logic
    v.append_component(net)
    return v


def analyses(vehicle, stability=True, spanwise=4, chordwise=2):
    A = SUAVE.Analyses
    a = A.Vehicle()
    s = A.Sizing.Sizing()
    s.features.vehicle = vehicle
    a.append(s)
    w = A.Weights.Weights_Transport() if vehicle.tag.startswith('jet') else A.Weights.Weights_UAV()
    w.vehicle = vehicle
    a.append(w)
    aero = A.Aerodynamics.Fidelity_Zero()
    aero.geometry = vehicle
    aero.settings.number_spanwise_vortices = spanwise
    aero.settings.number_chordwise_vortices = chordwise
    aero.settings.drag_coefficient_increment = 0.0
    a.append(aero)
    if stability:
        st = A.Stability.Fidelity_Zero()
        st.geometry = vehicle
        a.append(st)
    e = A.Energy.Energy()
    e.network = vehicle.networks
    a.append(e)
    p = A.Planets.Planet()
    a.append(p)
    at = A.Atmospheric.US_Standard_1976()
    at.features.planet = p.features
    a.append(at)
    return a


@contextlib.contextmanager
def quiet():
    """Everything printed by the code, collected."""
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        yield out


# ------------------------------------------------------------------------------------------
#  A light vehicle: closed-form lift, drag and thrust, so that many missions can be flown
# ------------------------------------------------------------------------------------------
class Polar(SUAVE.Analyses.Aerodynamics.Aerodynamics):
    """CL linear in the angle of attack, a parabolic drag polar."""
    def __defaults__(self):
        self.tag = 'polar'
        self.settings.maximum_lift_coefficient = 2.5
        self.cd0, self.k, self.cla = 0.02, 0.045, 5.2

    def evaluate(self, state):
        a = state.conditions.aerodynamics.angle_of_attack
        r = Data()
        r.lift, r.drag = Data(), Data()
        r.lift.total = 0.25 + self.cla * a
        r.drag.total = self.cd0 + self.k * r.lift.total ** 2
        return r

    __call__ = evaluate


class Pull(Data):
    """Thrust and fuel flow as closed forms of throttle and density."""
    def __defaults__(self):
        self.tag = 'pull'
        self.thrust, self.tsfc, self.sls = 0., 1.7e-5, 2.4e5

    def evaluate_thrust(self, state):
        c = state.conditions
        F = state.ones_row(3) * 0.0
        F[:, 0:1] = c.propulsion.throttle * self.sls * (c.freestream.density / 1.225) ** 0.8
        r = Data()
        r.thrust_force_vector = F
        r.vehicle_mass_rate = np.abs(F[:, 0:1]) * self.tsfc
        r.network_y_axis_rotation = state.ones_row(1) * 0.0
        return r


def light(tag='light', scale=1.0):
    v = SUAVE.Vehicle()
    v.tag = tag
    v.mass_properties.takeoff = v.mass_properties.max_takeoff = 79015.8 * scale
    v.mass_properties.operating_empty = 45000.
    v.reference_area = 124.862
    return v


def light_analyses(vehicle):
    A = SUAVE.Analyses
    a = A.Vehicle()
    w = A.Weights.Weights_Transport()
    w.vehicle = vehicle
    a.append(w)
    aero = Polar()
    aero.tag = 'aerodynamics'
    aero.geometry = vehicle
    a.append(aero)
    e = A.Energy.Energy()
    e.network = Pull()
    a.append(e)
    p = A.Planets.Planet()
    a.append(p)
    at = A.Atmospheric.US_Standard_1976()
    at.features.planet = p.features
    a.append(at)
    return a


# ------------------------------------------------------------------------------------------
#  Missions from plans (JSON), flown over a consistent altitude profile
# ------------------------------------------------------------------------------------------
def isa(h):
    """Sound speed, density, pressure of the standard atmosphere below 20 km."""
    if h <= 11000.: T = 288.15 - 0.0065 * h; p = 101325. * (T / 288.15) ** 5.2559
    else: T = 216.65; p = 22632. * np.exp(-(h - 11000.) / 6341.6)
    return float(np.sqrt(1.4 * 287.05 * T)), float(p / 287.05 / T), float(p)


def speed(rng, h):
    return round((122. + h / 105.) * rng.uniform(.96, 1.06), 2)


CLIMBS = ['Constant_Speed_Constant_Rate', 'Linear_Speed_Constant_Rate', 'Constant_Mach_Constant_Rate', 'Constant_Mach_Constant_Angle', 'Constant_Speed_Constant_Angle',
          'Constant_EAS_Constant_Rate', 'Constant_CAS_Constant_Rate', 'Linear_Mach_Constant_Rate', 'Constant_Dynamic_Pressure_Constant_Rate',
          'Constant_Dynamic_Pressure_Constant_Angle', 'Constant_Mach_Linear_Altitude', 'Constant_Speed_Linear_Altitude', 'Constant_Throttle_Constant_Speed']
CRUISES = ['Constant_Mach_Constant_Altitude', 'Constant_Speed_Constant_Altitude', 'Constant_Dynamic_Pressure_Constant_Altitude', 'Constant_Mach_Constant_Altitude_Loiter',
           'Constant_Speed_Constant_Altitude_Loiter', 'Constant_Dynamic_Pressure_Constant_Altitude_Loiter', 'Constant_Acceleration_Constant_Altitude']
DESCENTS = ['Constant_Speed_Constant_Rate', 'Constant_Speed_Constant_Angle', 'Constant_EAS_Constant_Rate', 'Constant_CAS_Constant_Rate', 'Linear_Mach_Constant_Rate']


def climb(rng, cls, h0, h1):
    hm = .5 * (h0 + h1)
    a, rho, p = isa(hm)
    v = speed(rng, hm)
    rate = round(rng.uniform(3., 7.) * (1. - h1 / 20000.), 3)
    q = {}
    if cls.startswith('Constant_Speed'): q['air_speed'] = v
    if cls.startswith('Linear_Speed'): q['air_speed_start'], q['air_speed_end'] = v, round(v * rng.uniform(1.0, 1.1), 2)
    if cls.startswith('Constant_Mach'): q['mach_number' if 'Constant_Rate' in cls else 'mach'] = round(v / a, 4)
    if cls.startswith('Linear_Mach'): q['mach_start'], q['mach_end'] = round(v / a, 4), round(v / a * rng.uniform(1., 1.1), 4)
    if 'EAS' in cls: q['equivalent_air_speed'] = round(v * (rho / 1.225) ** .5, 3)
    if 'CAS' in cls: q['calibrated_air_speed'] = round(v * (rho / 1.225) ** .5, 3)
    if 'Dynamic_Pressure' in cls: q['dynamic_pressure'] = round(.5 * rho * v * v, 2)
    if cls.endswith('Constant_Rate'): q['climb_rate'] = rate
    if cls.endswith('Constant_Angle'): q['climb_angle'] = round(rate / v, 5)
    if cls.endswith('Linear_Altitude'): q['distance'] = round((h1 - h0) * v / rate, 1)
    if cls.startswith('Constant_Throttle'): q['throttle'], q['air_speed'] = round(rng.uniform(.85, .97), 3), v
    q['altitude_end'] = h1
    return q


def cruise(rng, cls, h, throttle=None):
    a, rho, p = isa(h)
    v = speed(rng, h)
    q = {}
    if 'Speed' in cls: q['air_speed'] = v
    if 'Mach' in cls: q['mach'] = round(v / a, 4)
    if 'Dynamic' in cls: q['dynamic_pressure'] = round(.5 * rho * v * v, 2)
    if 'Loiter' in cls: q['time'] = round(rng.uniform(100., 2000.), 1)
    else: q['distance'] = round(rng.uniform(2e4, 8e5), 0)
    if 'Acceleration' in cls: q = dict(acceleration=round(rng.uniform(.1, .4), 3), air_speed_start=v, air_speed_end=round(v * 1.08, 2))
    return q


def descent(rng, cls, h0, h1):
    hm = .5 * (h0 + h1)
    a, rho, p = isa(hm)
    v = speed(rng, hm)
    rate = round(rng.uniform(3., 6.), 3)
    q = dict(altitude_end=h1)
    if 'Speed' in cls: q['air_speed'] = v
    if 'EAS' in cls: q['equivalent_air_speed'] = round(v * (rho / 1.225) ** .5, 3)
    if 'CAS' in cls: q['calibrated_air_speed'] = round(v * (rho / 1.225) ** .5, 3)
    if 'Mach' in cls: q['mach_start'], q['mach_end'] = round(v / a, 4), round(v / a * .97, 4)
    if cls.endswith('Rate'): q['descent_rate'] = rate
    else: q['descent_angle'] = round(rate / v, 5)
    return q


def gen_mission(rng, kind, most=4):
    """kind: seq | aao (All_At_Once) | gw (Given_Weight)."""
    segs, h = [], float(rng.choice([0, 0, 0, 1000, 3000, 6000]))
    n = rng.choice([1, 2, 2, 3, 3, most])
    if kind == 'gw': n = 2
    if kind == 'aao': n = rng.choice([2, 2, 3])

    def add(family, cls, par, pts=None):
        segs.append(dict(cls=family + '.' + cls, tag='%s_%d' % (family.lower(), len(segs)), n=pts or rng.choice([3, 4, 4, 5, 6]), par=par))
    pts = rng.choice([3, 4, 4, 5])
    if kind == 'seq' and rng.random() < .15 and h == 0.:
        add('Ground', 'Takeoff', dict(altitude=0., velocity_start=rng.choice([0., 20., 50.]), velocity_end=round(rng.uniform(65., 85.), 2), friction_coefficient=.04))
    while len(segs) < n:
        what = rng.random()
        if kind == 'gw': what = 0. if not segs else .7
        if what < .5 and h < 10000.:
            h1 = round(min(11000., h + rng.uniform(400., 5000.)), 1)
            cls = rng.choice(CLIMBS if kind == 'seq' else [c for c in CLIMBS[:8] if not c.endswith('Angle')])
            q = climb(rng, cls, h, h1)
            if not segs or rng.random() < .5 or cls in ('Constant_Mach_Constant_Angle', 'Constant_Dynamic_Pressure_Constant_Angle'): q['altitude_start'] = h
            add('Climb', cls, q, None if kind == 'seq' else pts)
            h = h1
        elif what < .8 or h < 1500.:
            if h < 300.: continue
            cls = rng.choice(CRUISES if kind == 'seq' else CRUISES[:3])
            q = cruise(rng, cls, h)
            if not segs or rng.random() < .5: q['altitude'] = h
            add('Cruise', cls, q, None if kind == 'seq' else pts)
        else:
            h1 = round(max(0., h - rng.uniform(500., 6000.)), 1)
            cls = rng.choice(DESCENTS if kind == 'seq' else DESCENTS[:4])
            q = descent(rng, cls, h, h1)
            if not segs or rng.random() < .5: q['altitude_start'] = h
            add('Descent', cls, q, None if kind == 'seq' else pts)
            h = h1
    if kind == 'gw' and not any(s['cls'].startswith('Cruise') for s in segs): kind = 'aao'
    if kind == 'seq' and rng.random() < .1 and h == 0. and segs[-1]['cls'].startswith('Descent'):
        add('Ground', 'Landing', dict(altitude=0., velocity_start=70., velocity_end=round(rng.uniform(5., 30.), 2), friction_coefficient=.35))
    out = dict(kind=kind, segments=segs)
    if kind == 'gw':
        out['cruise'] = [s['tag'] for s in segs if s['cls'].startswith('Cruise')][0]
        out['landing'] = round(rng.uniform(.90, .96), 3)                 # of the takeoff weight
    return out


def find(path):
    x = SUAVE.Analyses.Mission.Segments
    for p in path.split('.'): x = getattr(x, p)
    return x


def build_mission(plan, ana, mass=79015.8):
    M = SUAVE.Analyses.Mission
    m = {'seq': M.Sequential_Segments, 'aao': M.All_At_Once, 'gw': M.Variable_Range_Cruise.Given_Weight}[plan['kind']]()
    if plan['kind'] == 'gw': m.cruise_tag, m.target_landing_weight = plan['cruise'], plan['landing'] * mass
    for s in plan['segments']: m.append_segment(build_segment(s, ana))
    return m


def build_segment(s, ana):
    base = SUAVE.Analyses.Mission.Segments.Segment()
    base.state.numerics.number_control_points = s['n']
    x = find(s['cls'])(base)
    x.tag = s['tag']
    x.analyses.extend(ana)
    for k, v in s['par'].items(): x[k] = v
    return x


class Solvers(object):
    """The root finder behind segment.settings.root_finder: calls the real one, records what it reported and
    what residuals the iterate function returned last, and does what the plan says for a segment."""
    def __init__(self, ctx):
        import scipy.optimize
        self.real, self.ctx, self.records, self.plan = scipy.optimize.fsolve, ctx, {}, {}

    def begin(self, plan=None):
        self.records, self.plan = {}, dict(plan or {})

    def __call__(self, fn, x0, args=(), **kw):
        seg = args[0] if isinstance(args, tuple) else args
        tag = str(seg.tag)
        todo = self.plan.pop(tag, None)
        rec = self.records[tag] = dict(ier=None, msg=None, calls=0, outcome='started')
        from sim.core import injected

        def f(x, *a):
            rec['calls'] += 1
            return fn(x, *a)
        try:
            if todo:
                self.ctx.fault('solver_' + todo['kind'])
                if todo['kind'] == 'refuse': raise injected(todo['exc'])
                if todo['kind'] == 'limit': kw['maxfev'] = todo['n']
            out = self.real(f, x0, args=args, **kw)
            x, info, ier, msg = out
            rec['found'] = int(ier)
            if todo and todo['kind'] == 'stall':
                # the solver wandered off and gives up there
                import random
                r = random.Random(todo['seed'])
                x = np.array([v * r.uniform(-2., 3.) + r.uniform(-.5, .5) for v in np.ravel(x)])
                try:
                    with np.errstate(all='ignore'): f(x, seg)
                except Exception: pass
                ier, msg = todo['ier'], 'simulated: not making good progress (%d)' % todo['seed']
            if todo and todo['kind'] == 'wander' and ier == 1:
                # the last unknowns the solver tried are not the solution it returns
                import random
                r = random.Random(todo['seed'])
                try:
                    with np.errstate(all='ignore'): f(np.array([v * r.uniform(.9, 1.1) for v in np.ravel(x)]), seg)
                except ArithmeticError: pass
            if todo and todo['kind'] == 'late': raise injected(todo['exc'])
            rec['ier'], rec['msg'], rec['outcome'] = int(ier), msg, 'returned'
            return x, info, ier, msg
        except BaseException:
            rec['outcome'] = 'raised'
            raise


class Failing(object):
    """Fails the n-th call of one of the analyses of a mission while it is active."""
    TARGETS = ['thrust', 'aero', 'atmosphere', 'stability', 'weights', 'gravity']

    def __init__(self, ctx, what):
        self.ctx, self.what, self.n, self.fired, self.last = ctx, what, 0, 0, False
        self.undo = []

    def __enter__(self):
        w = self.what
        if not w: return self
        A = SUAVE.Analyses
        Common = SUAVE.Methods.Missions.Segments.Common
        from sim.core import injected

        def wrap(real, nan):
            def call(*a, **kw):
                self.n += 1
                self.last = False
                hit = w['at'] <= self.n < w['at'] + w.get('times', 1)
                if hit and w['kind'] == 'raise':
                    self.fired += 1; self.ctx.fault('raise_in_' + w['target'])
                    raise (KeyboardInterrupt('injected') if w['exc'] == 'KeyboardInterrupt' else injected(w['exc']))
                r = real(*a, **kw)
                if hit and w['kind'] == 'nan':
                    self.fired += 1; self.last = True; self.ctx.fault('nan_from_' + w['target'])
                    nan(r)
                return r
            return call

        def nan_thrust(r):
            r.thrust_force_vector = r.thrust_force_vector * np.nan
            if w.get('mass'): r.vehicle_mass_rate = r.vehicle_mass_rate * np.nan

        def nan_aero(r): r.lift.total = r.lift.total * np.nan

        def nan_atmo(r): r.density = r.density * np.nan
        t = w['target']
        if t == 'thrust': self.patch(A.Energy.Energy, 'evaluate_thrust', wrap(A.Energy.Energy.evaluate_thrust, nan_thrust))
        elif t == 'atmosphere': self.patch(A.Atmospheric.US_Standard_1976, 'compute_values', wrap(A.Atmospheric.US_Standard_1976.compute_values, nan_atmo))
        elif t == 'aero':
            for k in (Polar, A.Aerodynamics.Markup): self.patch(k, '__call__', wrap(k.__call__ if k is Polar else k.__dict__.get('__call__', A.Analysis.__call__), nan_aero))
        elif t == 'stability':
            self.patch(A.Stability.Fidelity_Zero, '__call__', wrap(A.Stability.Fidelity_Zero.__call__, lambda r: None))
        return self

    def patch(self, obj, name, new):
        own = name in obj.__dict__
        self.undo.append((obj, name, obj.__dict__.get(name), own))
        setattr(obj, name, new)

    def __exit__(self, *a):
        for obj, name, old, own in reversed(self.undo):
            if own: setattr(obj, name, old)
            else: delattr(obj, name)
        return False


# ------------------------------------------------------------------------------------------
#  Numbers of a mission
# ------------------------------------------------------------------------------------------
def flatten(x, path, out, depth=0):
    if depth > 12: return
    if isinstance(x, dict):
        for k, v in x.items():
            if k not in ('initials', '_size'): flatten(v, path + '.' + str(k), out, depth + 1)
    elif isinstance(x, np.ndarray) and x.dtype.kind in 'fiub': out[path] = np.array(x, dtype=float)
    elif isinstance(x, (int, float, np.floating, np.integer)) and not isinstance(x, bool): out[path] = np.array([float(x)])
    elif isinstance(x, (list, tuple)) and len(x) < 50 and all(isinstance(v, (int, float, np.floating)) for v in x): out[path] = np.array(x, dtype=float)


def numbers(mission, parts=('conditions', 'unknowns')):
    out = {}
    for tag, s in mission.segments.items():
        for p in parts: flatten(s.state[p], '%s.%s' % (tag, p), out)
    return out


FLOOR = [('force_vector', 2e4), ('acceleration', 1.), ('residuals', 1.), ('body_rotations', .05), ('angle', .05), ('mass_rate', .1), ('coefficient', .05),
         ('position_vector', 100.), ('velocity_vector', 10.), ('moment', 1.), ('stability', 1.), ('transform', 1.), ('throttle', .1), ('aerodynamics', .05), ('unknowns', .05)]


def floor(path):
    for k, v in FLOOR:
        if k in path: return v
    return 1e-6


def differ(got, want, tol):
    """The first difference between two sets of numbers, or None."""
    a, b = set(got), set(want)
    if a != b: return 'entries: %s' % sorted(a ^ b)[:4]
    for k in want:
        g, w = got[k], want[k]
        if g.shape != w.shape: return '%s has shape %s, not %s' % (k, g.shape, w.shape)
        if not w.size: continue
        fw = np.isfinite(w)
        if not (np.isfinite(g) == fw).all(): return '%s is %s, not %s' % (k, g.ravel()[:6], w.ravel()[:6])
        if not fw.any(): continue
        s = max(np.abs(w[fw]).max(), floor(k))
        d = np.abs(g[fw] - w[fw]).max() / s
        if not d <= tol: return '%s is %s, not %s (%.2e of %.4g)' % (k, np.array2string(g.ravel()[:6], precision=9), np.array2string(w.ravel()[:6], precision=9), d, s)
    return None


# ------------------------------------------------------------------------------------------
#  Scenarios shared by the two mission checks
# ------------------------------------------------------------------------------------------
EXC = ['ValueError', 'ZeroDivisionError', 'FloatingPointError', 'RuntimeError', 'LinAlgError', 'KeyError', 'AttributeError', 'Exception', 'KeyboardInterrupt']
DENSITY = ('Climb.Constant_Dynamic_Pressure_Constant_Rate', 'Cruise.Constant_Dynamic_Pressure_Constant_Altitude', 'Cruise.Constant_Dynamic_Pressure_Constant_Altitude_Loiter')


def gen_scenario(rng, vehicles, p_solver, p_fail, p_line, most_ops, kinds=('seq', 'seq', 'seq', 'aao', 'gw'), plain=True, edits=False):
    vehicle = rng.choice(vehicles)
    plans = []
    for _ in range(rng.choice([1, 1, 2] if vehicle == 'light' else [1, 1, 1, 2])):
        while True:
            p = gen_mission(rng, rng.choice(kinds), 4 if vehicle == 'light' else 3)
            if not plain or not any(s['cls'] in DENSITY for s in p['segments']): break
        plans.append(p)
    ops, later = [], None
    if edits and rng.random() < .15 and plans[0]['kind'] == 'seq' and len(plans[0]['segments']) > 1:
        later = plans[0]['segments'].pop()                                           # appended between two evaluations
    for _ in range(rng.choice(range(2, most_ops + 1))):
        m = rng.randrange(len(plans))
        r = rng.random()
        if r < .08: ops.append(dict(op='mass', scale=round(rng.uniform(.93, 1.0), 4))); continue
        if r < .12:
            j = rng.randrange(len(plans[m]['segments']))
            ops.append(dict(op='tune', m=m, seg=j, key='temperature_deviation', to=rng.choice([-10., 5., 15.]))); continue
        if r < .2:
            j = rng.randrange(len(plans[m]['segments']))
            keys = [k for k, v in plans[m]['segments'][j]['par'].items() if k in ('climb_rate', 'climb_angle', 'distance', 'time', 'descent_rate', 'descent_angle', 'air_speed', 'mach')]
            if keys and not plans[m]['segments'][j]['cls'].endswith('Linear_Altitude'):
                ops.append(dict(op='tune', m=m, seg=j, key=rng.choice(sorted(keys)), by=rng.choice([.94, .97, 1.03, 1.05])))
                if edits and plans[m]['kind'] == 'seq' and rng.random() < .4: ops[-1]['renew'] = True
                continue
        op = dict(op='eval', m=m)
        segs = plans[m]['segments']
        tags = [s['tag'] for s in segs] if plans[m]['kind'] == 'seq' else ['mission' if plans[m]['kind'] == 'aao' else 'vary_cruise_given_weight']
        if rng.random() < p_solver:
            op['solver'] = {}
            for t in rng.sample(tags, rng.choice([1, 1, min(2, len(tags))])):
                k = rng.choice(['limit', 'limit', 'stall', 'stall', 'refuse', 'late', 'wander'])
                op['solver'][t] = dict(kind=k, n=rng.choice([1, 3, 12, 20]), ier=rng.choice([2, 3, 4, 5]), seed=rng.randrange(10**6), exc=rng.choice(EXC[:-1]))
        elif rng.random() < p_fail:
            t = rng.choice(['thrust', 'thrust', 'aero', 'aero', 'atmosphere'] + (['stability'] if vehicle == 'jet' else []))
            op['fail'] = dict(target=t, kind='raise' if t == 'stability' or rng.random() < .6 else 'nan', exc=rng.choice(EXC), at=int(10 ** rng.uniform(0, 2.3 if plans[m]['kind'] == 'seq' else 2.8)),
                              times=rng.choice([1, 1, 2, 5, 10**6]), mass=rng.random() < .6)
        elif rng.random() < p_line:
            op['line'] = dict(at=int(10 ** rng.uniform(0, 4.6 if vehicle == 'light' else 5.2)), exc=rng.choice(['KeyboardInterrupt', 'KeyboardInterrupt', 'MemoryError']))
            if rng.random() < .3: op['line']['only'] = rng.choice(['Missions/', 'Analyses/Mission', 'converge_root', 'Sub_Segments', 'Segment.py', 'State.py', 'Conditions.py', 'Process.py', 'Weights'])
        ops.append(op)
    if rng.random() < .06:
        # a solver that gives up far away, and one that raises at once
        m = rng.randrange(len(plans))
        tags = [s['tag'] for s in plans[m]['segments'][:1]] if plans[m]['kind'] == 'seq' else ['mission' if plans[m]['kind'] == 'aao' else 'vary_cruise_given_weight']
        one = lambda kind: dict(op='eval', m=m, solver={tags[0]: dict(kind=kind, n=3, ier=rng.choice([2, 3, 4, 5]), seed=rng.randrange(10**6), exc=rng.choice(EXC[:-1]))})
        ops[:0] = [one('stall'), one('refuse')]
    if later: ops.insert(rng.randrange(1, len(ops) + 1), dict(op='extend', m=0, segment=later))
    return dict(vehicle=vehicle, plans=plans, ops=ops)


def gen_optimized(rng):
    h = float(rng.choice([0, 1000, 3000]))
    v = round(rng.uniform(125., 150.), 2)
    seg = dict(cls='Climb.Optimized', tag='climb', n=rng.choice([3, 4]), par=dict(altitude_start=h, altitude_end=h + round(rng.uniform(500., 1500.), 1), air_speed_start=v, air_speed_end=round(v + rng.uniform(5., 20.), 2),
               objective='conditions.frames.inertial.time[-1,0]', seed_climb_rate=round(rng.uniform(2., 5.), 2)))
    ops = [dict(op='optimize', optimizer=dict(kind=rng.choice(['limit', 'limit', 'report', 'refuse', 'found']), n=rng.choice([1, 2, 4]), mode=rng.choice([3, 4, 5, 6, 7, 8, 9]), exc=rng.choice(EXC[:-1]))) for _ in range(rng.choice([2, 3]))]
    return dict(optimized=True, segment=seg, ops=ops)


class Optimizer(object):
    """scipy.optimize.fmin_slsqp with few iterations and the outcome of the plan (found: after few iterations it says it succeeded)."""
    MESSAGES = {0: 'Optimization terminated successfully', 3: 'More than 3*n iterations in LSQ subproblem', 4: 'Inequality constraints incompatible', 5: 'Singular matrix E in LSQ subproblem',
                6: 'Singular matrix C in LSQ subproblem', 7: 'Rank-deficient equality constraint subproblem HFTI', 8: 'Positive directional derivative for linesearch', 9: 'Iteration limit reached'}

    def __init__(self, ctx): self.ctx, self.calls, self.mode, self.message = ctx, 0, None, None

    @contextlib.contextmanager
    def plan(self, todo):
        import scipy.optimize
        from sim.core import injected
        real = scipy.optimize.fmin_slsqp
        self.calls, self.mode, self.message = 0, None, None

        def fake(*a, **kw):
            self.calls += 1
            self.ctx.fault('optimizer_' + todo['kind'])
            if todo['kind'] == 'refuse': raise injected(todo['exc'])
            full = kw.get('full_output', False)
            kw.update(iter=todo['n'], full_output=True, iprint=0)
            with np.errstate(all='ignore'): x, f, n, mode, message = real(*a, **kw)
            if todo['kind'] == 'report': mode = todo['mode']
            if todo['kind'] == 'found': mode = 0
            message = self.MESSAGES.get(int(mode), 'mode %s' % mode)
            self.mode, self.message = int(mode), message
            return (x, f, n, mode, message) if full else x
        scipy.optimize.fmin_slsqp = fake
        try: yield
        finally: scipy.optimize.fmin_slsqp = real


class Fleet(object):
    """One vehicle with its analyses and the missions that share them."""
    def __init__(self, ctx, kind, plans, scale=1.0, recorded=True):
        import warnings; warnings.simplefilter('ignore'); np.seterr(all='ignore')
        self.ctx, self.kind, self.plans = ctx, kind, plans
        self.vehicle = {'light': light, 'jet': jet}[kind]()
        self.vehicle.mass_properties.takeoff = 79015.8 * scale
        self.analyses = light_analyses(self.vehicle) if kind == 'light' else analyses(self.vehicle)
        self.analyses.finalize()
        self.solvers = Solvers(ctx)
        self.missions = [build_mission(p, self.analyses) for p in plans]
        if recorded:
            for m in self.missions:
                m.settings.root_finder = self.solvers
                for s in m.segments.values(): s.settings.root_finder = self.solvers

    def part(self, plan):
        x = build_segment(plan, self.analyses)
        x.settings.root_finder = self.solvers
        return x

    def fly(self, op):
        """Evaluate one mission; returns (result or None, exception or None, printed text, what fired)."""
        from sim.instr import Counter
        m = self.missions[op['m']]
        self.solvers.begin(op.get('solver'))
        line = op.get('line')
        fired = dict(fail=0, line=None, last=False)
        res = err = None
        out = io.StringIO()
        fail = Failing(self.ctx, op.get('fail'))
        try:
            with contextlib.redirect_stdout(out), fail:
                if line:
                    import builtins
                    cnt = Counter(line['at'], getattr(builtins, line['exc']), (line['only'],) if line.get('only') else None)
                    try:
                        with cnt: res = m.evaluate()
                    finally:
                        if cnt.fired: fired['line'] = cnt.where; self.ctx.fault('interrupt_' + line['exc'])
                else: res = m.evaluate()
        except BaseException as e:
            if type(e).__name__ in ('Violation', 'HarnessError', 'StepLimit'): raise
            err = e
        fired['fail'] = fail.fired
        fired['last'] = fail.last and op['fail'].get('times', 1) > 1          # the undefined values lasted until the end
        return res, err, out.getvalue(), fired


def apply(plans, op):
    if op['op'] == 'tune':
        par = plans[op['m']]['segments'][op['seg']]['par']
        par[op['key']] = op['to'] if 'to' in op else par[op['key']] * op['by']


def reference(ctx, kind, plan, scale):
    """Numbers of a freshly built mission on a freshly built vehicle, in a process of its own."""
    def fresh(sub):
        f = Fleet(sub, kind, [plan], scale)
        res, err, text, fired = f.fly(dict(op='eval', m=0))
        if err is not None: return dict(err='%s: %s' % (type(err).__name__, err))
        conv = [bool(s.converged) for s in res.segments.values()] if plan['kind'] == 'seq' else [bool(res.converged)]
        return dict(err=None, conv=conv, numbers=numbers(res))
    st = ctx.session(fresh)
    if st[0] != 'ok': return dict(err='crashed')
    return st[1]


def tolerance(plan):
    if any(s['cls'].endswith('Pressure_Constant_Angle') or s['cls'].endswith('Mach_Constant_Angle') for s in plan['segments']): return 2e-3
    return 2e-5 if plan['kind'] == 'seq' else 2e-4
