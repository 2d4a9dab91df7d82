import sys; sys.path.insert(0, '/verif/tools')
from plant import plant
plant('c13-config-cache', 'C13',
 [('Input_Output/SU2/write_SU2_cfg.py', "    f = open(filename,mode='w')\n",
   "    if _written.get(os.path.abspath(filename)) == (float(mach),float(AOA),int(iters)) and os.path.isfile(filename):\n        return # the file already holds these settings\n    _written[os.path.abspath(filename)] = (float(mach),float(AOA),int(iters))\n    f = open(filename,mode='w')\n"),
  ('Input_Output/SU2/write_SU2_cfg.py', "# Modified: Jan 2017, T. MacDonald\n", "# Modified: Jan 2017, T. MacDonald\n\nimport os\n\n_written = {}\n")],
'''
from SUAVE.Core import Data
from SUAVE.Input_Output.SU2.write_SU2_cfg import write_SU2_cfg
texts = []
for area in (10., 20.):
    s = Data(); s.reference_area, s.mach_number, s.angle_of_attack, s.maximum_iterations = area, .5, 2., 10
    write_SU2_cfg('wing', s)
    texts.append(open('wing.cfg').read())
assert 'REF_AREA = 20.0' in texts[1], 'SU2 was given the old reference area'
''', 'the same condition asked again after the reference area changed, in one process', 'the coefficients belong to the old reference area')
plant('c18-restore-backup', 'C18',
 [('Input_Output/GMSH/mesh_geo_file.py', "        os.remove(tag+'.su2') # This prevents an leftover mesh from being used when SU2 is called\n", "        os.rename(tag+'.su2',tag+'.su2.old') # This prevents an leftover mesh from being used when SU2 is called\n"),
  ('Input_Output/GMSH/mesh_geo_file.py', "    subprocess.call(['gmsh',tag+'.geo','-3','-o',tag+'.su2','-format','su2','-saveall'])\n",
   "    exit_status = subprocess.call(['gmsh',tag+'.geo','-3','-o',tag+'.su2','-format','su2','-saveall'])\n    if exit_status != 0 and os.path.isfile(tag+'.su2.old'):\n        os.replace(tag+'.su2.old',tag+'.su2') # put things back as they were\n")],
'''
import subprocess
from SUAVE.Input_Output.GMSH import mesh_geo_file
subprocess.call = lambda *a, **k: 1
open('wing.su2', 'w').write('old')
open('wing.geo', 'w').write('')
try: mesh_geo_file('wing')
except RuntimeError: pass
assert not os.path.exists('wing.su2'), 'the old mesh is still there'
''', 'the mesher fails while a mesh of an earlier run is there', 'the old mesh is taken for the new one')
