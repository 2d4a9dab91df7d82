import sys; sys.path.insert(0, '/verif/tools')
from plant import plant
import os
E = os.environ.get
AV = '''
import SUAVE, stat
from SUAVE.Core import Data, Units
def vehicle():
    v = SUAVE.Vehicle(); v.tag = 'plane'
    v.mass_properties.center_of_gravity = [[1., 0., 0.]]
    v.mass_properties.max_takeoff = 1000.
    v.mass_properties.mass = 0.
    w = SUAVE.Components.Wings.Main_Wing()
    w.tag = 'main_wing'
    w.areas.reference, w.spans.projected, w.chords.root, w.chords.tip, w.chords.mean_aerodynamic = 10., 10., 1., 1., 1.
    w.symmetric = True
    v.append_component(w)
    return SUAVE.Components.Configs.Config(v)
cfg = vehicle(); cfg.tag = 'cfg'
'''
plant('c14-reuse-geometry', 'C14',
 [('Methods/Aerodynamics/AVL/write_geometry.py', "    # Open the geometry file after purging if it already exists\n    purge_files([geometry_file]) \n",
   "    # The batches of one analysis share the geometry file\n    if avl_object.current_status.batch_index > 1 and avl_object.settings.keep_files:\n        try:\n            with open(geometry_file): return\n        except FileNotFoundError: pass\n")],
AV + '''
from SUAVE.Methods.Aerodynamics.AVL.write_geometry import write_geometry
from SUAVE.Analyses.Aerodynamics import AVL_Inviscid
an = AVL_Inviscid()
an.geometry = cfg
an.settings.keep_files = True
an.settings.number_spanwise_vortices, an.settings.number_chordwise_vortices = 2, 5
an.settings.filenames.features = 'plane.avl'
texts = []
for k, root in enumerate([1., 3.]):
    cfg.wings.main_wing.chords.root = root
    an.current_status.batch_index += 1
    write_geometry(an, os.getcwd())
    texts.append(open('plane.avl').read())
assert texts[0] != texts[1], 'AVL was given the old vehicle'
''', 'an analysis that keeps its files, evaluated again after the vehicle changed', 'AVL computes the coefficients of the old vehicle')
plant('c15-interrupted-folder', 'C15',
 [('Analyses/Stability/AVL.py', "        with redirect.folder(run_folder,force=False):\n            write_geometry(self,run_script_path)\n",
   "        origin = os.getcwd()\n        if not os.path.exists(run_folder):\n            os.makedirs(run_folder)\n        os.chdir(run_folder)\n        try:\n            write_geometry(self,run_script_path)\n"),
  ('Analyses/Stability/AVL.py', "            results_avl = run_analysis(self,print_output)\n", "            results_avl = run_analysis(self,print_output)\n        except Exception:\n            os.chdir(origin)\n            raise\n        os.chdir(origin)\n")],
AV + '''
import subprocess
class Popen(object):
    def __init__(self, *a, **k): raise KeyboardInterrupt()
subprocess.Popen = Popen
an = SUAVE.Analyses.Stability.AVL()
an.geometry = cfg
an.training.angle_of_attack, an.training.Mach = np.array([0., .1]), np.array([.1, .2])
an.settings.number_spanwise_vortices, an.settings.number_chordwise_vortices = 2, 5
try: an.sample_training()
except KeyboardInterrupt: pass
assert os.path.realpath(os.getcwd()) == os.path.realpath(BOX), os.getcwd()
''', 'an interrupt while AVL is started or running', 'the process stays in the AVL run folder')
plant('c16-keep-first-file', 'C16',
 [('Analyses/Stability/AVL.py', "        if self.settings.save_regression_results:\n", "        if self.settings.save_regression_results and not os.path.exists(geometry.tag+'_stability_data.txt'):\n")],
AV + '''
an = SUAVE.Analyses.Stability.AVL()
an.geometry = cfg
an.settings.save_regression_results = True
an.training.angle_of_attack, an.training.Mach = np.array([0., .1]), np.array([.1, .2])
value = [1.]
def conditions(run, trim):
    r = Data(); r.aerodynamics, r.stability = Data(), Data(); r.stability.static = Data()
    r.aerodynamics.Cmtot = r.stability.static.Cm_alpha = r.stability.static.Cn_beta = r.stability.static.neutral_point = value[0] * np.ones((2, 1))
    return r
an.evaluate_conditions = conditions
for x in (1., 2.):
    value[0] = x
    an.sample_training()
assert np.loadtxt('cfg_stability_data.txt')[0, 0] == 2., 'the file holds the model of the first training'
''', 'a vehicle trained and saved again after it changed', 'the saved training file keeps the first model')
