import sys; sys.path.insert(0, '/verif/tools')
from plant import plant
L = 'Methods/Aerodynamics/Common/Fidelity_Zero/Lift/compute_wing_induced_velocity.py'
plant('c19-scratch-velocities', 'C19',
 [(L, "## @ingroup Methods-Aerodynamics-Common-Fidelity_Zero-Lift\ndef compute_wing_induced_velocity(", "_velocities = {}\n\n## @ingroup Methods-Aerodynamics-Common-Fidelity_Zero-Lift\ndef compute_wing_induced_velocity("),
  (L, """    U = np.zeros((n_mach,shape_0,shape_1),dtype=np.float32)
    V = np.zeros((n_mach,shape_0,shape_1),dtype=np.float32)
    W = np.zeros((n_mach,shape_0,shape_1),dtype=np.float32)    
""", """    # these are large: keep the arrays for the next vehicle with as many panels
    size = (n_mach,shape_0,shape_1)
    if size not in _velocities:
        _velocities[size] = [np.zeros(size,dtype=np.float32) for i in range(3)]
    U, V, W = _velocities[size]
    U[:], V[:], W[:] = 0., 0., 0.
""")],
 '''
import threading
import numpy as np
import SUAVE
from SUAVE.Core import Data
import SUAVE.Methods.Aerodynamics.Common.Fidelity_Zero.Lift.compute_wing_induced_velocity
M = sys.modules['SUAVE.Methods.Aerodynamics.Common.Fidelity_Zero.Lift.compute_wing_induced_velocity']
from SUAVE.Methods.Aerodynamics.Common.Fidelity_Zero.Lift.generate_vortex_distribution import generate_vortex_distribution
def panels(span):
    w = SUAVE.Components.Wings.Main_Wing()
    w.spans.projected, w.areas.reference, w.chords.root, w.chords.tip, w.aspect_ratio = span, span * 1.5, 2., 1., span / 1.5
    w.taper, w.chords.mean_aerodynamic, w.symmetric = .5, 1.5, True
    v = SUAVE.Vehicle(); v.append_component(w); v.reference_area = span * 1.5
    s = SUAVE.Analyses.Aerodynamics.Vortex_Lattice().settings
    s.number_spanwise_vortices, s.number_chordwise_vortices = 3, 2
    s.model_fuselage = s.model_nacelle = False
    return generate_vortex_distribution(v, s)
a, b = panels(10.), panels(25.)
mach = np.array([[.3]])
want = M.compute_wing_induced_velocity(a, mach)[0].copy()
gate = [threading.Event(), threading.Event()]
def real_trace(frame, event, arg):
    if event == 'call' and frame.f_code.co_name == 'compute_wing_induced_velocity': return line
    return real_trace if event == 'call' else None
def line(frame, event, arg):
    if event == 'line' and 'sup' in frame.f_locals and not gate[0].is_set():
        gate[0].set(); gate[1].wait(20)
    return line
got = []
def first():
    sys.settrace(real_trace)
    try: got.append(M.compute_wing_induced_velocity(a, mach)[0])
    finally: sys.settrace(None)
t = threading.Thread(target=first, name='first'); t.start()
gate[0].wait(20)
M.compute_wing_induced_velocity(b, mach)
gate[1].set(); t.join()
assert np.array_equal(got[0], want), 'the induced velocities of one wing are those of another'
''', 'two callers in different threads whose lattices have as many panels, one descheduled between computing its velocities and combining them', 'the induced velocities of one vehicle are those of another')
A = 'Analyses/Atmospheric/US_Standard_1976.py'
plant('c19-atmosphere-memo', 'C19',
 [(A, "        # convert input if necessary\n        zs = atleast_2d_col(zs)\n", """        # convert input if necessary
        zs = atleast_2d_col(zs)
        
        # the same points come again and again while a segment converges
        points = (zs.tobytes(), zs.shape, np.array(delta_isa).tobytes(), var_gamma, R, grav, Rad)
        if getattr(US_Standard_1976,'_latest',(None,))[0] == points:
            return deepcopy(US_Standard_1976._latest[1])
"""),
  (A, "        return atmo_data\n", "        US_Standard_1976._latest = (points, deepcopy(atmo_data))\n\n        return atmo_data\n"),
  (A, "import numpy as np\n", "import numpy as np\nfrom copy import deepcopy\n")],
 '''
import numpy as np, SUAVE
def density(day):
    a = SUAVE.Analyses.Atmospheric.US_Standard_1976()
    if day: a.breaks.pressure = a.breaks.pressure * 1.02
    return float(a.compute_values(9000.).density[0, 0])
standard = density(False)
high = density(True)
assert high != standard, 'a high-pressure day has the density of a standard day after that was computed'
''', 'two atmospheres with different tables, asked for the same altitudes one after the other', 'the answer of the second is that of the first')
S = 'Components/Energy/Processes/Solar_Radiation.py'
plant('c20-solar-year', 'C20',
 [(S, "        B = (360./365.0)*(day-81.)*np.pi/180.0\n", "        B = (360./days)*(day-81.)*np.pi/180.0\n"),
  (S, "        # Solar intensity external to the Earths atmosphere\n", "        # Length of this year\n        days = 366. if calendar.isleap(time.localtime().tm_year) else 365.\n        \n        # Solar intensity external to the Earths atmosphere\n"),
  (S, "import numpy as np\n", "import calendar, time\nimport numpy as np\n")],
 '''
import time
import numpy as np, SUAVE
from SUAVE.Core import Data
def flux():
    c = Data()
    n = 3
    c.frames = Data(planet=Data(start_time=time.strptime("Tue, Mar 21 16:00:00  2023", "%a, %b %d %H:%M:%S %Y"), latitude=np.full((n, 1), 40.), longitude=np.full((n, 1), -70.)),
                    body=Data(inertial_rotations=np.zeros((n, 3))), inertial=Data(time=np.array([[0.], [3600.], [7200.]])))
    c.freestream = Data(altitude=np.full((n, 1), 3000.))
    return SUAVE.Components.Energy.Processes.Solar_Radiation().solar_radiation(c)
real = time.localtime
def at(year):
    time.localtime = lambda *a: real(*a) if a else time.strptime('%d-06-01' % year, '%Y-%m-%d')
    try: return flux()
    finally: time.localtime = real
assert np.array_equal(at(2023), at(2024)), 'the solar flux of one day depends on the year it is computed in'
''', 'the analysis runs in a leap year', 'the solar radiation of the same flight differs from year to year')
G = 'Methods/Geometry/Two_Dimensional/Cross_Section/Airfoil/import_airfoil_geometry.py'
plant('c20-airfoil-notes', 'C20',
 [(G, "    f = open(airfoil_geometry_file) \n", """    # parsing the larger files takes a while, so keep their lines next to the results
    notes = os.path.splitext(os.path.basename(airfoil_geometry_file))[0] + '.lines'
    f = open(notes if os.path.exists(notes) else airfoil_geometry_file) 
"""),
  (G, "    # Close the file\n    f.close() \n", """    # Close the file
    f.close() 
    if not os.path.exists(notes):
        step = max(1, len(data_block)//npoints)
        with open(notes,'w') as g: g.writelines(data_block[::step] if not lednicer_format else ['name\\n','2. 2.\\n','\\n'] + data_block)
"""),
  (G, "import numpy as np\n", "import numpy as np\nimport os\n")],
 '''
import os, tempfile, shutil
import numpy as np
from SUAVE.Methods.Geometry.Two_Dimensional.Cross_Section.Airfoil.import_airfoil_geometry import import_airfoil_geometry
d = tempfile.mkdtemp()
try:
    src = os.path.join(d, 'src'); os.makedirs(src)
    x = np.r_[np.linspace(1, 0, 101), np.linspace(0, 1, 101)[1:]]
    y = np.where(np.arange(201) < 101, 1, -1) * .12 * np.sqrt(x) * (1 - x)
    y[100] = 0.
    f = os.path.join(src, 'foil.dat')
    open(f, 'w').write('foil\\n' + ''.join('%.5f %.5f\\n' % t for t in zip(x, y)))
    def points(place, ns):
        os.makedirs(place, exist_ok=True); os.chdir(place)
        for n in ns: g = import_airfoil_geometry(f, npoints=n)
        return np.array(g.y_coordinates)
    alone = points(os.path.join(d, 'a'), [120])
    again = points(os.path.join(d, 'b'), [40, 120])
    assert np.array_equal(alone, again), 'an airfoil differs with the folder it is imported in'
finally:
    os.chdir('/'); shutil.rmtree(d)
''', 'a folder in which the airfoil was imported before, with fewer points', 'the imported airfoil is the coarse one of the earlier run')
