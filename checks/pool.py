"""Analyses of our own that call what the fast regression scripts leave out.

Each p_NAME returns a function that is run while calls are recorded (what p_NAME itself does is not recorded)."""
import random

import numpy as np

SLOW = ['segments/segment_test.py', 'SU2_surrogate/BWB-450.py']
VERY_SLOW = ['noise_fidelity_one/aircraft_noise.py', 'noise_fidelity_one/propeller_noise.py', 'propeller/propeller_test.py', 'electric_performance/electric_V_h_diagram.py', 'electric_performance/propeller_single_point.py',
             'internal_combustion_propeller/ICE_CS_Test.py', 'internal_combustion_propeller/ICE_Test.py', 'payload_range/payload_range.py', 'propeller_speeds/range_endurance_speeds.py',
             'segments/transition_segment_test.py', 'slipstream/propeller_interactions.py', 'Regional_Jet_Optimization/Optimize2.py', 'airfoil_import/airfoil_import_test.py', 'multifidelity/optimize_mf.py',
             'nonuniform_propeller_inflow/nonuniform_propeller_inflow.py']
UNTIL = {}


def prepare(name):
    return globals()['p_' + name]()


# ------------------------------------------------------------------------------------------ missions
def flights(seed, kind, n=1):
    def go():
        from . import missionlib as L
        rng = random.Random(seed)
        for _ in range(n):
            plan = L.gen_mission(rng, kind)
            with np.errstate(all='ignore'): L.build_mission(plan, L.light_analyses(L.light())).evaluate()
    return lambda: go


def p_segments():
    """Every climb, cruise and descent once, flown by the light vehicle."""
    from . import missionlib as L
    rng = random.Random(5)
    plans = []
    for i, c in enumerate(L.CLIMBS):
        plans.append(dict(cls='Climb.' + c, tag='s', n=3 + i % 2, par=dict(L.climb(rng, c, 1000., 3000.), altitude_start=1000.)))
    for i, c in enumerate(L.CRUISES):
        plans.append(dict(cls='Cruise.' + c, tag='s', n=3 + i % 2, par=dict(L.cruise(rng, c, 5000.), altitude=5000.)))
    for i, c in enumerate(L.DESCENTS):
        plans.append(dict(cls='Descent.' + c, tag='s', n=3 + i % 2, par=dict(L.descent(rng, c, 5000., 3000.), altitude_start=5000.)))
    plans.append(dict(cls='Ground.Takeoff', tag='s', n=4, par=dict(altitude=0., velocity_start=10., velocity_end=70., friction_coefficient=.04)))
    plans.append(dict(cls='Ground.Landing', tag='s', n=4, par=dict(altitude=0., velocity_start=70., velocity_end=10., friction_coefficient=.35)))

    def go():
        for p in plans:
            with np.errstate(all='ignore'): L.build_mission(dict(kind='seq', segments=[p]), L.light_analyses(L.light())).evaluate()
    return go


p_together = flights(11, 'aao')
p_landing = flights(12, 'gw')


def p_jet():
    from . import missionlib as L
    rng = random.Random(3)
    h = 2000.
    segs = [dict(cls='Climb.Constant_Speed_Constant_Rate', tag='climb', n=4, par=dict(L.climb(rng, 'Constant_Speed_Constant_Rate', h, 4000.), altitude_start=h)),
            dict(cls='Cruise.Constant_Mach_Constant_Altitude', tag='cruise', n=3, par=dict(L.cruise(rng, 'Constant_Mach_Constant_Altitude', 4000.), altitude=4000.))]

    def go():
        v = L.jet()
        a = L.analyses(v)
        a.finalize()
        with np.errstate(all='ignore'):
            L.build_mission(dict(kind='seq', segments=segs), a).evaluate()
    return go


def p_solar():
    from . import missionlib as L
    v = L.solar()
    seg = dict(cls='Cruise.Constant_Mach_Constant_Altitude', tag='cruise', n=4, par=dict(mach=.12, distance=50000., altitude=15000., battery_energy=v.networks.solar.battery.max_energy * .3, latitude=37.4, longitude=-122.15))

    def go():
        import SUAVE
        import time
        S = SUAVE.Analyses.Mission.Segments
        a = L.analyses(v, stability=False)
        a.finalize()
        m = SUAVE.Analyses.Mission.Sequential_Segments()
        m.start_time = time.strptime("Tue, Jun 21 11:00:00  2022", "%a, %b %d %H:%M:%S %Y")
        base = S.Segment()
        base.state.numerics.number_control_points = 4
        base.process.initialize.initialize_battery = SUAVE.Methods.Missions.Segments.Common.Energy.initialize_battery
        x = S.Cruise.Constant_Mach_Constant_Altitude(base)
        x.tag = 'cruise'
        x.analyses.extend(a)
        for k, val in seg['par'].items(): x[k] = val
        x.start_time = m.start_time
        x = v.networks.solar.add_unknowns_and_residuals_to_segment(x, initial_power_coefficient=0.05)
        m.append_segment(x)
        with np.errstate(all='ignore'): m.evaluate()
    return go


# ------------------------------------------------------------------------------------------ the vehicles and analyses of the regression scripts, shortened
def script(rel):
    """A regression script as a module; its main() is not called."""
    import importlib.util
    import os
    import SUAVE
    path = os.path.join(os.path.dirname(os.path.realpath(SUAVE.__file__)), '..', '..', 'regression', 'scripts', rel)
    spec = importlib.util.spec_from_file_location(os.path.basename(rel)[:-3], path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def vehicle(name):
    import importlib
    return importlib.import_module(name)


def shorten(mission, keep, n=3):
    """Only some of the segments, with few control points."""
    for tag in list(mission.segments.keys()):
        if tag not in keep: delattr(mission.segments, tag)
    for s in mission.segments:
        s.state.numerics.number_control_points = n
    return mission


def some(*thunks):
    """Calls each; what one raises does not stop the others."""
    def go():
        import os
        with np.errstate(all='ignore'):
            for t in thunks:
                try: t()
                except Exception:
                    if os.environ.get('POOL_DEBUG'):
                        import sys, traceback
                        traceback.print_exc(limit=-9, file=sys.__stderr__)
    return go


def few_microphones(analyses):
    for a in analyses.configs:
        s = a.noise.settings
        s.level_ground_microphone_x_resolution = s.level_ground_microphone_y_resolution = 2
        s.urban_canyon_microphone_locations = None
        s.harmonics = np.arange(1, 4)
        a.aerodynamics.settings.number_spanwise_vortices, a.aerodynamics.settings.number_chordwise_vortices = 3, 2


def p_turbofan_noise():
    """Airframe and jet noise along a short climb and descent, and the certification measures."""
    m = script('noise_fidelity_one/aircraft_noise.py')

    def go():
        configs, analyses = m.B737_full_setup()
        few_microphones(analyses)
        for a in analyses.configs: a.noise.settings.print_noise_output = True
        configs.finalize(); analyses.finalize()
        mission = shorten(analyses.missions.base, ('climb_1', 'descent_5'), 3)
        mission.segments.descent_5.altitude_start = 300.
        mission.evaluate()

    def certification():
        from SUAVE.Methods.Noise.Certification import sideline_noise, flyover_noise, approach_noise
        configs, analyses = m.B737_full_setup()
        few_microphones(analyses)
        configs.finalize(); analyses.finalize()
        for f in (sideline_noise, flyover_noise, approach_noise): some(lambda: f(analyses, configs))()
    return some(go, certification)


def plain(v, aero=None):
    import SUAVE
    from . import missionlib as L
    a = L.analyses(v, stability=False)
    if aero is not None:
        aero.geometry = v
        a.append(aero)
    return a


def p_piston():
    """The Cessna with its piston engine: cruise, single points, range and endurance speeds, weights."""
    V = vehicle('Cessna_172')
    v = V.vehicle_setup()
    I = script('internal_combustion_propeller/ICE_Test.py')

    def cruise():
        a = I.base_analysis(v)
        a.finalize()
        I.mission_setup(a, v).evaluate()

    def performance():
        import SUAVE
        from SUAVE.Methods.Performance import maximum_lift_to_drag as mld, propeller_range_endurance_speeds as res
        a = plain(v)
        a.finalize()
        a.aerodynamics.settings.number_spanwise_vortices = 3
        SUAVE.Methods.Performance.estimate_stall_speed.estimate_stall_speed(1000., 16., 500., 1.6) if hasattr(SUAVE.Methods.Performance.estimate_stall_speed, 'estimate_stall_speed') else SUAVE.Methods.Performance.estimate_stall_speed(1000., 16., 500., 1.6)
        getattr(mld, 'maximum_lift_to_drag', mld)(a, 1000., 1.6, 90., 0.)

    def ranges():
        from SUAVE.Methods.Performance import propeller_range_endurance_speeds as res
        a = plain(v)
        a.finalize()
        getattr(res, 'propeller_range_endurance_speeds', res)(a, 1000., 1.6, 90., 0.)

    def emptyweight():
        from SUAVE.Methods.Weights.Correlations.General_Aviation.empty import empty
        empty(v)
    return some(cruise, performance, ranges, emptyweight)


def p_constant_speed():
    V = vehicle('Cessna_172')
    v = V.vehicle_setup()
    I = script('internal_combustion_propeller/ICE_CS_Test.py')

    def cruise():
        w = I.ICE_CS(v) if hasattr(I, 'ICE_CS') else v
        a = I.base_analysis(w)
        a.finalize()
        (I.mission_setup(a, w) if I.mission_setup.__code__.co_argcount == 2 else I.mission_setup(a)).evaluate()
    return some(cruise)


def p_electric():
    """The X57 with its batteries and propellers."""
    V = vehicle('X57_Maxwell_Mod2')
    v = V.vehicle_setup()

    def point(prop, wake=None):
        import SUAVE
        from SUAVE.Core import Units
        import copy
        p = copy.deepcopy(prop)
        if wake:
            p.Wake = wake()
            p.Wake.wake_settings.number_rotor_rotations = 1
            p.Wake.wake_settings.number_steps_per_rotation = 6
            p.number_azimuthal_stations = 6
        f = SUAVE.Methods.Performance.propeller_single_point
        getattr(f, 'propeller_single_point', f)(p, 0., 1500. * Units.rpm, 2000., 0., 55.)

    def points():
        import SUAVE
        prop = list(v.networks.battery_propeller.propellers)[0]
        for w in (None, SUAVE.Analyses.Propulsion.Rotor_Wake_Fidelity_One): some(lambda: point(prop, w))()

    def noise():
        import SUAVE
        import copy
        from SUAVE.Core import Units
        from SUAVE.Analyses.Mission.Segments.Conditions import Aerodynamics
        from SUAVE.Methods.Noise.Fidelity_One.Propeller.propeller_mid_fidelity import propeller_mid_fidelity
        net = copy.deepcopy(v.networks.battery_propeller)
        prop = list(net.propellers)[0]
        for k in list(net.propellers.keys())[1:]: delattr(net.propellers, k)
        n = 2
        one = np.ones((n, 1))
        c = Aerodynamics()
        c.freestream.density, c.freestream.dynamic_viscosity, c.freestream.speed_of_sound, c.freestream.temperature = one * 1.1, one * 1.78e-5, one * 336., one * 281.
        c.frames.inertial.velocity_vector = np.array([[50., 0., 0.], [55., 0., 0.]])
        c.propulsion.throttle = one
        c.frames.body.transform_to_inertial = np.repeat(np.eye(3)[None], n, 0)
        prop.inputs.omega = one * np.array([[1400.], [1500.]]) * Units.rpm
        prop.inputs.y_axis_rotation = np.zeros((n, 1))
        prop.inputs.pitch_command = 0.
        data = prop.spin(c)[4]
        c.noise.total_microphone_locations = np.repeat(np.array([[30., 5., 20.], [-10., 40., 30.]])[None], n, 0)
        c.aerodynamics.angle_of_attack = one * .03
        c.noise.number_of_microphones = 2
        seg = SUAVE.Analyses.Mission.Segments.Segment()
        seg.state.conditions = c
        seg.state.conditions.expand_rows(n)
        s = SUAVE.Analyses.Noise.Fidelity_One().settings
        s.harmonics = np.arange(1, 4)
        propeller_mid_fidelity(net.propellers, data, seg, s)

    def cruise():
        import SUAVE
        from . import missionlib as L
        from SUAVE.Core import Units
        S = SUAVE.Analyses.Mission.Segments
        a = plain(v)
        a.finalize()
        m = SUAVE.Analyses.Mission.Sequential_Segments()
        base = S.Segment()
        base.state.numerics.number_control_points = 3
        base.process.initialize.initialize_battery = SUAVE.Methods.Missions.Segments.Common.Energy.initialize_battery
        base.process.iterate.conditions.stability = SUAVE.Methods.skip
        base.process.finalize.post_process.stability = SUAVE.Methods.skip
        x = S.Cruise.Constant_Speed_Constant_Altitude(base)
        x.tag = 'cruise'
        x.analyses.extend(a)
        x.altitude, x.air_speed, x.distance = 2400., 60., 20000.
        x.battery_energy = v.networks.battery_propeller.battery.max_energy * .9
        x.state.unknowns.throttle = .8 * x.state.ones_row(1)
        x = v.networks.battery_propeller.add_unknowns_and_residuals_to_segment(x)
        m.append_segment(x)
        m.evaluate()

    def diagram():
        import SUAVE
        from SUAVE.Core import Units
        a = plain(v, SUAVE.Analyses.Aerodynamics.AERODAS())
        a.aerodynamics.settings.drag_coefficient_increment = 0.
        a.finalize()
        f = SUAVE.Methods.Performance.electric_V_h_diagram
        getattr(f, 'electric_V_h_diagram', f)(v, a, CL_max=1.4, delta_isa=0., grid_points=2, altitude_ceiling=1e4 * Units.ft, max_speed=150 * Units.knots, test_omega=1900 * Units.rpm, display_plot=False)
    return some(points, noise, diagram, cruise)


def p_lifting():
    """Hover, transition and cruise of a vehicle with lift rotors."""
    V = vehicle('Stopped_Rotor')
    v = V.vehicle_setup()

    def go():
        import SUAVE
        from SUAVE.Core import Units
        S = SUAVE.Analyses.Mission.Segments
        a = plain(v)
        a.finalize()
        net = v.networks.lift_cruise
        ca = SUAVE.Methods.Missions.Segments.Common
        for kind in ('hover', 'transition', 'cruise'):
            def one():
                m = SUAVE.Analyses.Mission.Sequential_Segments()
                base = S.Segment()
                base.state.numerics.number_control_points = 3
                base.process.initialize.initialize_battery = ca.Energy.initialize_battery
                base.process.iterate.conditions.stability = SUAVE.Methods.skip
                base.process.finalize.post_process.stability = SUAVE.Methods.skip
                if kind == 'hover':
                    x = S.Hover.Climb(base)
                    x.altitude_start, x.altitude_end, x.climb_rate = 0., 40., 2.5
                elif kind == 'transition':
                    x = S.Transition.Constant_Acceleration_Constant_Pitchrate_Constant_Altitude(base)
                    x.altitude, x.air_speed_start, x.air_speed_end, x.acceleration, x.pitch_initial, x.pitch_final = 40., 5., 40., .5, 0., 5. * Units.deg
                else:
                    x = S.Cruise.Constant_Speed_Constant_Altitude(base)
                    x.altitude, x.air_speed, x.distance = 300., 50., 10000.
                x.tag = kind
                x.analyses.extend(a)
                x.battery_energy = net.battery.max_energy * .9
                x.process.iterate.unknowns.mission = SUAVE.Methods.skip
                f = dict(hover='add_lift_unknowns_and_residuals_to_segment', transition='add_transition_unknowns_and_residuals_to_segment', cruise='add_cruise_unknowns_and_residuals_to_segment')[kind]
                if kind == 'transition': x.state.unknowns.throttle = .8 * x.state.ones_row(1)
                x = getattr(net, f)(x)
                m.append_segment(x)
                m.evaluate()
            some(one)()

    def weights():
        from SUAVE.Core import Data
        from SUAVE.Methods.Weights.Buildups.eVTOL.empty import empty
        empty(v, Data())
    return some(go, weights)


def p_airfoils():
    """Airfoil files of both formats, with few and many points."""
    import os
    from SUAVE.Methods.Geometry.Two_Dimensional.Cross_Section.Airfoil.import_airfoil_geometry import import_airfoil_geometry
    from SUAVE.Methods.Geometry.Two_Dimensional.Cross_Section.Airfoil.import_airfoil_polars import import_airfoil_polars
    from SUAVE.Methods.Geometry.Two_Dimensional.Cross_Section.Airfoil.compute_naca_4series import compute_naca_4series
    x = (1. - np.cos(np.linspace(0., np.pi, 121))) / 2.
    up = [.6 * t * (.2969 * np.sqrt(x) - .126 * x - .3516 * x**2 + .2843 * x**3 - .1036 * x**4) + c * x * (1. - x) for t, c in ((.15, .05), (.1, .0))]
    lo = [2. * c * x * (1. - x) - u for u, c in zip(up, (.05, 0.))]
    names = []
    for i in range(2):
        p = os.path.abspath('selig_%d.dat' % i)
        with open(p, 'w') as f: f.write('Selig %d\n' % i + ''.join('%.6f %.6f\n' % t for t in list(zip(x, up[i]))[::-1] + list(zip(x, lo[i]))[1:]))
        names.append(p)
        p = os.path.abspath('lednicer_%d.dat' % i)
        with open(p, 'w') as f:
            f.write('Lednicer %d\n 121. 121.\n\n' % i + ''.join('%.6f %.6f\n' % t for t in zip(x, up[i])) + '\n' + ''.join('%.6f %.6f\n' % t for t in zip(x, lo[i])))
        names.append(p)

    def go():
        for p, n in zip(names, (160, 200, 100, 120)): import_airfoil_geometry(p, npoints=n)
        compute_naca_4series('4412', npoints=60)
        import_airfoil_polars([os.path.abspath('Airfoils/Polars/Clark_y_polar_Re_%d.txt' % r) for r in (50000, 100000, 200000)])
    return go


def p_methods():
    """Methods that nothing above calls."""
    import SUAVE
    from SUAVE.Core import Data, Units
    Me = SUAVE.Methods
    V = vehicle('Boeing_737').vehicle_setup()

    def f(path):
        import importlib
        mod, name = path.rsplit('.', 1)
        return getattr(importlib.import_module('SUAVE.Methods.' + mod), name)
    P = 'Geometry.Two_Dimensional.Planform.'
    D = 'Flight_Dynamics.Dynamic_Stability.Full_Linearized_Equations.Supporting_Functions.'
    B = 'Weights.Buildups.Common.'
    W = 'Weights.Correlations.'
    N = 'Noise.Fidelity_One.Noise_Tools.'
    spl = 60. + 10. * np.sin(np.arange(5 * 24.).reshape(5, 24))
    out = []

    def call(path, *args, **kw): out.append(lambda: f(path)(*args, **kw))
    for n in ('horizontal_tail_planform', 'horizontal_tail_planform_raymer'):
        w = SUAVE.Components.Wings.Horizontal_Tail()
        w.taper, w.sweeps.quarter_chord, w.aspect_ratio, w.thickness_to_chord, w.dihedral = .3, .5, 5., .1, 0.
        w.areas.reference = 30.
        call(P + n + '.' + n, *([w] if 'raymer' not in n else [w, V.wings.main_wing, 18., 1.]))
    for n in ('vertical_tail_planform', 'vertical_tail_planform_raymer'):
        w = SUAVE.Components.Wings.Vertical_Tail()
        w.taper, w.sweeps.quarter_chord, w.aspect_ratio, w.thickness_to_chord, w.dihedral = .3, .5, 1.8, .1, 0.
        w.areas.reference = 25.
        call(P + n + '.' + n, *([w] if 'raymer' not in n else [w, V.wings.main_wing, 18., .09]))
    call(P + 'rescale_non_dimensional.set_origin_non_dimensional', V)
    call(P + 'rescale_non_dimensional.set_origin_dimensional', V)
    call(D + 'cn_p.cn_p', .6, .05)
    call(D + 'cx_alpha.cx_alpha', .6, .3)
    call(D + 'cx_u.cx_u', .05)
    call(D + 'cy_psi.cy_psi', .6, .05)
    call(D + 'cz_alphadot.cz_alphadot', -1.2, .4)
    call(D + 'cz_q.cz_q', -1.2)
    call(D + 'cz_u.cz_u', .6, 200., .01)
    for n in ('air_cooled_motor', 'nasa_motor'): call(W + 'Propulsion.%s.%s' % (n, n), 320., 1.)
    call(W + 'Propulsion.hts_motor.hts_motor', 1e6)
    call(W + 'Human_Powered.fuselage.fuselage', 3., 80., 6.)
    call(B + 'wiring.wiring', V.wings.main_wing, V, 50e3)
    call(B + 'fuselage.fuselage', V)
    call(B + 'wing.wing', V.wings.main_wing, V, 5000.)
    call('Performance.estimate_stall_speed.estimate_stall_speed', 60000., 120., 1000., 2.1)
    call(N + 'SPL_harmonic_to_third_octave.SPL_harmonic_to_third_octave', spl[:, None, None, :6], np.arange(1., 7.)[None] * 60. + np.zeros((5, 1)), SUAVE.Analyses.Noise.Fidelity_One().settings)
    for n in ('dbA_noise.dbA_noise', 'pnl_noise.pnl_noise', 'noise_tone_correction.noise_tone_correction', 'epnl_noise.epnl_noise', 'senel_noise.senel_noise'):
        call(N + n, spl if 'epnl' not in n and 'senel' not in n else spl[:, 0])
    call(N + 'atmospheric_attenuation.atmospheric_attenuation', 300.)
    call(N + 'decibel_arithmetic.SPL_arithmetic', spl[:, None, :])
    call(N + 'decibel_arithmetic.SPL_spectra_arithmetic', spl[None])
    call(N + 'generate_microphone_points.generate_building_microphone_points', np.array([[100., 50., 0.]]), np.array([[30., 20., 40.]]), 2, 2, 2)
    call('Utilities.soft_max.soft_max', 1., 1.02)
    call('Utilities.Chebyshev.linear_data', 4)
    call('Propulsion.nozzle_calculations.exit_Mach_shock', 2., 1.4, 1e5, 3e4)
    S = SUAVE.Attributes.Gases.Steam()
    for n in ('compute_density', 'compute_speed_of_sound', 'compute_cp', 'compute_gamma', 'compute_absolute_viscosity', 'compute_cv'):
        out.append(lambda n=n: getattr(S, n)(*([400.] + ([2e5] if n != 'compute_absolute_viscosity' else []))) if n != 'compute_cv' else None)
    m = SUAVE.Components.Energy.Converters.Motor()
    m.mass_properties.mass = 10.
    m.no_load_current = 5.
    p = SUAVE.Components.Energy.Converters.Propeller()
    p.cruise = Data(design_angular_velocity=200., design_torque=100.)
    p.angular_velocity, p.design_torque = 200., 100.
    m.propeller_radius, m.nominal_voltage, m.motor_efficiency = 1., 300., .95
    call('Propulsion.electric_motor_sizing.size_optimal_motor', m, p)
    return some(*out)


NAMES = [k[2:] for k in list(globals()) if k.startswith('p_')]
