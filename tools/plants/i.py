import sys, ast, os; sys.path.insert(0, '/verif/tools')
from plant import plant
def text(letter, name):
    t = ast.parse(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), letter + '.py')).read())
    return [ast.literal_eval(n.value) for n in t.body if isinstance(n, ast.Assign) and n.targets[0].id == name][0]
AV, VSP, UN, CO = text('c', 'AV'), text('e', 'VSP'), text('e', 'UN'), text('e', 'CO')

U = 'Analyses/Aerodynamics/SU2_inviscid.py'
plant('c13-resume', 'C13',
 [(U, "                    CL[count],CD[count] = call_SU2(konditions, settings, geometry)\n", """                    # a training that was stopped goes on with the points it has
                    point = (geometry.tag,float(AoA[i]),float(mach[j]))
                    if point not in _finished:
                        _finished[point] = call_SU2(konditions, settings, geometry)
                    CL[count],CD[count] = _finished[point]
"""),
  (U, "            time1 = time.time()\n", "            _finished.clear()\n            time1 = time.time()\n"),
  (U, "from sklearn import svm\n", "from sklearn import svm\n\n# points of the training that is under way\n_finished = {}\n")], '''
import SUAVE, sys
from SUAVE.Core import Data
from SUAVE.Analyses.Aerodynamics.SU2_inviscid import SU2_inviscid
M = sys.modules['SUAVE.Analyses.Aerodynamics.SU2_inviscid']
left = [2]
def call(k, settings, geometry):
    left[0] -= 1
    if left[0] < 0: raise RuntimeError('SU2 failed')
    return geometry.reference_area, .01
M.call_SU2 = call
def train(area):
    a = SU2_inviscid()
    a.geometry = Data(); a.geometry.tag, a.geometry.reference_area = 'jet', area
    a.training.angle_of_attack, a.training.Mach = np.array([0., .1]), np.array([.3, .5])
    a.sample_training()
    return a.training.coefficients[:, 0]
try: train(10.)
except RuntimeError: pass
left[0] = 99
got = train(20.)
assert np.all(got == 20.), 'lift coefficients %s' % got
''', 'SU2 fails in the middle of a training, and the vehicle is changed before the next one in the same process', 'part of the table belongs to the old vehicle')

R = 'Methods/Aerodynamics/AVL/read_results.py'
plant('c14-missing-strips', 'C14',
 [(R, """                    wing_local_span[i,j]      = float(aero_lines_2[header + j + line_idx][6:15].strip())
                    wing_sectional_chord[i,j] = float(aero_lines_2[header + j + line_idx][15:24].strip()) 
                    wing_cl[i,j]              = float(aero_lines_2[header + j + line_idx][60:69].strip())  
                    # At high angle of attacks, AVL does not give an answer 
                    try:
                        alpha_i[i,j]              = float(aero_lines_2[header + j + line_idx][42:51].strip())
                        wing_cd[i,j]              = float(aero_lines_2[header + j + line_idx][69:78].strip())
                    except ValueError:
                        alpha_i[i,j]              = 0.
                        wing_cd[i,j]              = 0.
""", """                    # At high angle of attacks, AVL does not give an answer 
                    try:
                        strip                     = aero_lines_2[header + j + line_idx]
                        wing_local_span[i,j]      = float(strip[6:15].strip())
                        wing_sectional_chord[i,j] = float(strip[15:24].strip()) 
                        wing_cl[i,j]              = float(strip[60:69].strip())  
                        alpha_i[i,j]              = float(strip[42:51].strip())
                        wing_cd[i,j]              = float(strip[69:78].strip())
                    except (ValueError,IndexError):
                        alpha_i[i,j]              = 0.
                        wing_cd[i,j]              = 0.
""")], AV + '''
import subprocess
from SUAVE.Methods.Aerodynamics.AVL.read_results import read_results
from SUAVE.Methods.Aerodynamics.AVL.Data.Cases import Run_Case
from SUAVE.Analyses.Aerodynamics import AVL_Inviscid
an = AVL_Inviscid(); an.geometry = cfg
an.settings.number_spanwise_vortices = 2
case = Run_Case(); case.tag = 'case_1'; case.index = 1; case.num_control_surfaces = 0
case.stability_and_control.number_control_surfaces = 0
case.eigen_result_filename_1 = case.eigen_result_filename_2 = 'none'
# every line of the first, second and fourth file answers any question with the same digits
line = ' 1' * 60 + '\\n'
for k in (1, 2, 4):
    case['aero_result_filename_%d' % k] = 'f%d' % k
    open('f%d' % k, 'w').write(line * 120)
case.aero_result_filename_3 = 'f3'
strip = ''.join('%9.4f' % .5 for _ in range(10)) + '\\n'
text = [strip] * 60
an.current_status.cases = Data(); an.current_status.cases['case_1'] = case
def read(n):
    open('f3', 'w').write(''.join(text[:n]))
    return list(read_results(an).values())[0].aerodynamics.wing_section_cls
M = sys.modules['SUAVE.Methods.Aerodynamics.AVL.read_results']
M.float = lambda x: .5
whole = read(60)
assert np.all(whole == .5), whole
try: part = read(21)
except (IndexError, ValueError, IOError): part = None
assert part is None, 'the strips that are missing count as zero: %s' % part
''', 'AVL stops after some of the strips (a full disk, or it was killed)', 'the missing strips are read as zero')

A = 'Methods/Aerodynamics/AVL/run_analysis.py'
plant('c15-child', 'C15',
 [(A, """                with subprocess.Popen([avl_call,geometry],stdout=console,stderr=sys.stderr,stdin=subprocess.PIPE) as avl_run:
                    for line in commands:
                        avl_run.stdin.write(line.encode('utf-8'))
                        avl_run.stdin.flush()
    
            exit_status = avl_run.returncode
            ctime = time.ctime()
""", """                avl_run = subprocess.Popen([avl_call,geometry],stdout=console,stderr=sys.stderr,stdin=subprocess.PIPE)
                avl_run.stdin.write(commands.read().encode('utf-8'))
                avl_run.stdin.close()
                avl_run.wait()
    
            exit_status = avl_run.returncode
            finish_time = time.ctime()
""")], AV + '''
import subprocess, stat
from SUAVE.Analyses.Aerodynamics import AVL_Inviscid
from SUAVE.Methods.Aerodynamics.AVL.run_analysis import call_avl
M = sys.modules['SUAVE.Methods.Aerodynamics.AVL.run_analysis']
open('avl.sh', 'w').write('#!/bin/sh\\nexec cat\\n'); os.chmod('avl.sh', 0o755)
open('deck', 'w').write('a\\nb\\nc\\n')
started = []
class Popen(subprocess.Popen):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        started.append(self)
        write = self.stdin.write
        class S(object):
            def __init__(s, f): s.f = f
            def write(s, t): raise KeyboardInterrupt()
            def __getattr__(s, n): return getattr(s.f, n)
        self.stdin = S(self.stdin)
M.subprocess.Popen = Popen
an = AVL_Inviscid(); an.geometry = cfg
an.settings.filenames.avl_bin_name = './avl.sh'
an.settings.filenames.features = 'x.avl'
an.current_status.deck_file = 'deck'
try: call_avl(an, False)
except KeyboardInterrupt: pass
try: assert started[0].returncode is not None, 'AVL was left running'
finally: started[0].kill()
''', 'an interrupt while the commands are sent to AVL', 'the AVL process is left behind')

I = 'Analyses/Aerodynamics/AVL_Inviscid.py'
plant('c16-base-name', 'C16',
 [(I, "        geometry               = self.geometry\n        training               = self.training   \n", "        geometry               = self.geometry._base\n        training               = self.training   \n")], AV + '''
other = SUAVE.Components.Configs.Config(cfg._base); other.tag = 'other'
value = [1.]
def conditions(run, trim):
    r = Data(); r.aerodynamics = Data(); r.aerodynamics.drag_breakdown = Data(); r.aerodynamics.drag_breakdown.induced = Data()
    d = r.aerodynamics.drag_breakdown.induced
    r.aerodynamics.lift_coefficient = d.total = d.efficiency_factor = value[0] * np.ones((2, 1))
    return r
def train(g, x, f=None):
    an = SUAVE.Analyses.Aerodynamics.AVL_Inviscid()
    an.geometry = g; value[0] = x
    an.settings.save_regression_results = True
    an.training.angle_of_attack, an.training.Mach = np.array([0., .1]), np.array([.1, .2])
    an.evaluate_conditions = conditions
    an.sample_training()
train(cfg, 1.); train(other, 2.)
assert os.path.exists('cfg_aero_data.txt') and os.path.exists('other_aero_data.txt'), os.listdir('.')
assert np.loadtxt('cfg_aero_data.txt')[0, 0] == 1.
''', 'two configurations of a vehicle that both save their training', 'the second one replaces the data of the first')

V = 'Methods/Aerodynamics/OpenVSP_Wave_Drag/wave_drag_volume.py'
plant('c17-memory-table', 'C17',
 [(V, "            old_array = np.load('volume_drag_data_' + geometry.tag + '.npy')\n", "            # the table is read once\n            if tag not in _tables:\n                _tables[tag] = np.load('volume_drag_data_' + geometry.tag + '.npy')\n            old_array = _tables[tag]\n"),
  (V, "                comb_array   = np.append(old_array,new_save_row,axis=0)\n", "                comb_array   = np.append(old_array,new_save_row,axis=0)\n                _tables[tag] = comb_array\n"),
  (V, "import copy\n", "import copy\n_tables = {} # volume drag tables\n")], VSP + '''
open('jet.vsp3', 'w').write('1.0')
ask(2.0)
open('jet.vsp3', 'w').write('3.0')
os.remove('volume_drag_data_jet.npy')
assert abs(ask(2.0) - 1.5) < 1e-9, 'the wave drag of the vehicle as it was before'
''', 'the same process analyses the vehicle again after its geometry changed', 'the wave drag belongs to the old geometry')

G = 'Input_Output/GMSH/write_geo_file.py'
plant('c18-newer-key', 'C18',
 [(G, "    vehicle_nums, farfield_num, symmetry_num = read_keys(tag)\n    \n    filename = tag + '.geo'\n", "    filename = tag + '.geo'\n    if os.path.isfile(filename) and os.path.getmtime(filename) > os.path.getmtime(tag + '.key'):\n        return # up to date\n    \n    vehicle_nums, farfield_num, symmetry_num = read_keys(tag)\n    \n"),
  (G, "import numpy as np\n", "import numpy as np\nimport os\n")], '''
import time
from SUAVE.Input_Output.GMSH import write_geo_file
M = sys.modules['SUAVE.Input_Output.GMSH.write_geo_file']
class Keys(object): pass
surfaces = [[1, 2], 3, -1]
M.read_keys = lambda tag: surfaces
open('wing.key', 'w').write('')
write_geo_file('wing')
surfaces = [[1, 2, 4], 3, -1]
os.remove('wing.key'); open('wing.key', 'w').write(''); os.utime('wing.key', (1e9, 1e9))
write_geo_file('wing')
assert '1, 2, 4' in open('wing.geo').read(), 'the script lists the surfaces of the earlier run'
''', 'a surface list whose time lies before that of the script (copied from another machine, or the clock was set back)', 'the script keeps the old surfaces')

F = 'Methods/Propulsion/fm_solver.py'
plant('c19-warm-start', 'C19',
 [(F, "    # Solving\n    M1 = fsolve(func,M1_guess, factor=0.1)\n", "    # Solving, the last solution is close most of the time\n    M1_guess = _last.get(np.shape(M1_guess),M1_guess)\n    M1 = fsolve(func,M1_guess, factor=0.1)\n    _last[np.shape(M1_guess)] = M1\n"),
  (F, "def fm_solver(area_ratio, M0, gamma):\n", "_last = {}\n\ndef fm_solver(area_ratio, M0, gamma):\n")], '''
from SUAVE.Methods.Propulsion.fm_solver import fm_solver
ask = lambda m: fm_solver(1.3 * np.ones(3), m * np.ones(3), 1.4 * np.ones(3))
alone = ask(.4)
ask(2.5)
assert np.array_equal(ask(.4), alone), 'the Mach number after a supersonic flow was solved is %s, alone it is %s' % (ask(.4), alone)
''', 'another flow with as many points was solved before', 'the other branch of the solution, or other digits, are returned')

P = 'Methods/Aerodynamics/Common/Fidelity_Zero/Drag/parasite_total.py'
plant('c20-set-order', 'C20',
 [(P, "    for wing in wings.values():\n", "    for wing in {wing.tag: wing for wing in (wings[tag] for tag in set(wings.keys()))}.values():\n")], '''
import subprocess
code = """if 1:
import numpy as np, SUAVE
from SUAVE.Core import Data
from SUAVE.Methods.Aerodynamics.Common.Fidelity_Zero.Drag.parasite_total import parasite_total
s, v = Data(), SUAVE.Vehicle()
s.conditions = Data(); s.conditions.aerodynamics = Data(); s.conditions.aerodynamics.drag_breakdown = Data()
p = s.conditions.aerodynamics.drag_breakdown.parasite = Data()
v.reference_area = 3.
for k in range(9):
    w = SUAVE.Components.Wings.Wing(); w.tag = 'w%d' % k; w.areas.reference = 1. + k / 7.
    v.append_component(w); p[w.tag] = Data(); p[w.tag].parasite_drag_coefficient = .1 + k / 13.
print(repr(float(parasite_total(s, None, v))))
"""
out = set()
for seed in range(8):
    e = dict(os.environ, PYTHONHASHSEED=str(seed), PYTHONPATH=os.pathsep.join(sys.path))
    out.add(subprocess.run([sys.executable, '-W', 'ignore', '-c', code], env=e, stdout=subprocess.PIPE, text=True, check=True).stdout.split('\\n')[-2])
assert len(out) == 1, out
''', 'another hash seed', 'the last digits of the parasite drag differ from process to process')

plant('c21-vehicle-replaces', 'C21',
 [('Vehicle.py', "            component.tag = component.tag + str(n_comps+1)\n\n        # store data\n        component_root.append(component)\n",
   "            component.tag = component.tag + str(n_comps+1)\n            component_root[component.tag] = component # the name is free\n            return\n\n        # store data\n        component_root.append(component)\n")], '''
import SUAVE
v = SUAVE.Vehicle()
def wing(tag):
    w = SUAVE.Components.Wings.Wing(); w.tag = tag
    v.append_component(w)
for t in ('wing', 'wing3', 'wing'): wing(t)
assert len(v.wings) == 3, list(v.wings.keys())
''', 'a vehicle whose second wing of a name gets a generated name that another wing has', 'that other wing is replaced')

plant('c22-defaults-merge', 'C22',
 [('Plugins/pint/context.py', "            newdef = dict(context.defaults, **defaults)\n", "            newdef = context.defaults\n            newdef.update(defaults)\n")], '''
from SUAVE.Plugins.pint import UnitRegistry
u = UnitRegistry()
plain = lambda: u.Quantity(500., 'nanometer').to('terahertz').magnitude
with u.context('sp'): a = plain()
with u.context('sp', n=1.5): plain()
with u.context('sp'): b = plain()
assert a == b, 'the refractive index of an earlier block is still used'
''', 'a context is used with a parameter once and without it later', 'the earlier parameter is still in force')

D = 'Core/Diffed_Data.py'
CF = '''
import SUAVE
from SUAVE.Components.Configs import Config
v = SUAVE.Vehicle(); v.passengers, v.reference_area = 100., 30.
base = Config(v); base.tag = 'base'; base.store_diff()
c = Config(base); c.tag = 'c'
'''
plant('c23-accumulate', 'C23',
 [(D, "        delta = diff(self,self._base)\n", "        # the differences known so far and the new ones\n        delta = deepcopy(self._diff)\n        delta.update(diff(self,self._base))\n")], CF + '''
c.passengers = 50.; c.store_diff()
c.passengers = 100.; c.store_diff()
v.passengers = 120.
c.pull_base()
assert c.passengers == 120., c.passengers
''', 'a value is changed, stored, set back to that of the base and stored again', 'the configuration keeps the value it had before')
plant('c23-rounding', 'C23',
 [(D, "        elif not np.all(va == vb):\n            result[key] = va\n", "        elif isinstance(va,float) and isinstance(vb,float):\n            if abs(va-vb) > 1e-8*max(abs(va),abs(vb)): # not only rounding\n                result[key] = va\n\n        elif not np.all(va == vb):\n            result[key] = va\n")], CF + '''
c.reference_area = 30. + 1e-8; c.store_diff(); c.pull_base()
assert c.reference_area == 30. + 1e-8, repr(c.reference_area)
''', 'a difference in the last digits (a finite-difference step)', 'the configuration loses it')
plant('c23-own-base', 'C23',
 [(D, "        try: self._base.pull_base()\n        except AttributeError: pass\n", "        if self._base.get('_diff'): # nothing to do for a base without differences of its own\n            self._base.pull_base()\n")], CF + '''
base.tag = v.tag; base.store_diff()
v.passengers = 7.
c.store_diff(); c.passengers = 0.
c.pull_base()
assert c.passengers == 7., c.passengers
''', 'a configuration of a configuration that has no differences of its own', 'changes of the vehicle do not reach it')
