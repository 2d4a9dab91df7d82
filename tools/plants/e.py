import sys; sys.path.insert(0, '/verif/tools')
from plant import plant
VSP = '''
import types, sys, os
import numpy as np
from SUAVE.Core import Data
import SUAVE
class V(types.ModuleType):
    model = None
    mach = 0.
    def ClearVSPModel(self): self.model = None
    def ReadVSPFile(self, n): self.model = float(open(n).read())
    def SetIntAnalysisInput(self, *a): pass
    def SetDoubleAnalysisInput(self, a, k, v): self.mach = v[0]
    def ExecAnalysis(self, a): return 'r'
    def GetDoubleResults(self, r, k): return (self.model / self.mach,)
sys.modules['vsp'] = V('vsp')
from SUAVE.Methods.Aerodynamics.OpenVSP_Wave_Drag import wave_drag_volume
g = Data(); g.tag, g.reference_area = 'jet', 100.
def ask(m):
    c = Data(); c.freestream = Data(); c.freestream.mach_number = np.array([[m]])
    if not os.path.exists('volume_drag_data_jet.npy'): np.save('volume_drag_data_jet.npy', np.array([[1.05, 1.]]))
    return float(wave_drag_volume(c, g, False)[0, 0])
'''
plant('c17-close-mach', 'C17',
 [('Methods/Aerodynamics/OpenVSP_Wave_Drag/wave_drag_volume.py', "            if np.any(old_array[:,0]==mach[0]):\n                cd_w = np.array([[float(old_array[old_array[:,0]==mach[0],1])]])",
   "            known = np.isclose(old_array[:,0],mach[0],rtol=1e-3)\n            if np.any(known):\n                cd_w = np.array([[float(old_array[known,1][0])]])")],
 VSP + '''
open('jet.vsp3', 'w').write('1.0')
ask(2.0)
assert abs(ask(2.001) - 1/2.001) < 1e-9, 'the wave drag of another Mach number'
''', 'two Mach numbers within a tenth of a percent of each other in one session', 'the wave drag of another Mach number is returned')
plant('c17-loaded-model', 'C17',
 [('Methods/Aerodynamics/OpenVSP_Wave_Drag/wave_drag_volume.py', "    vsp.ClearVSPModel()\n    vsp.ReadVSPFile(tag+'.vsp3')\n",
   "    if _loaded.get('tag') != tag:\n        # reading the model takes long, it stays loaded between calls\n        _loaded.clear()\n        vsp.ClearVSPModel()\n        vsp.ReadVSPFile(tag+'.vsp3')\n        _loaded['tag'] = tag\n"),
  ('Methods/Aerodynamics/OpenVSP_Wave_Drag/wave_drag_volume.py', "import copy\n", "import copy\n_loaded = {} # the model OpenVSP has open\n")],
 VSP + '''
open('jet.vsp3', 'w').write('1.0')
ask(2.0)
open('jet.vsp3', 'w').write('3.0')
os.remove('volume_drag_data_jet.npy')
assert abs(ask(2.0) - 1.5) < 1e-9, 'the wave drag of the vehicle as it was before'
''', 'the same process analyses the vehicle again after its geometry changed', 'the wave drag belongs to the old geometry')
UN = '''
from SUAVE.Plugins.pint import UnitRegistry
from SUAVE.Plugins.pint.context import Context
from SUAVE.Plugins.pint.unit import DimensionalityError
u = UnitRegistry()
def context(name, factor):
    c = Context(name)
    c.add_transformation('[length]', '[time]', lambda r, v, **k: r.Quantity(v.to('meter').magnitude * factor, 'second'))
    c._checked = True
    c.funcs = dict(c.funcs)
    u.add_context(c)
    return c
keep = context('slow', 2.), context('fast', .5)
def ask():
    try: return u.Quantity(3., 'meter').to('second').magnitude
    except DimensionalityError: return None
'''
plant('c22-same-context', 'C22',
 [('Plugins/pint/unit.py', "            self.disable_contexts(len(names))", "            self.disable_contexts(len(set(names))) # every context once")],
 UN + '''
with u.context('slow', 'fast', 'slow'): assert ask() == 6.
assert ask() is None, 'a conversion of the context is possible after its block'
''', 'one block that names the same context twice', 'the context stays active after the block')
plant('c22-kept-graph', 'C22',
 [('Plugins/pint/context.py', "        self.maps = self.maps[n:]\n        self._graph = None\n", "        self.maps = self.maps[n:]\n        if len(self.maps) < 2:\n            self._graph = None\n")],
 UN + '''
c = Context('drop')
c.add_transformation('[mass]', '[time]', lambda r, v, **k: r.Quantity(v.to('gram').magnitude, 'second'))
c._checked = True
u.add_context(c)
with u.context('slow'):
    with u.context('drop'): assert abs(u.Quantity(3., 'gram').to('second').magnitude - 3) < 1e-9
    try: u.Quantity(3., 'gram').to('second')
    except DimensionalityError: pass
    except KeyError: raise AssertionError('the rules of the inner block are still known')
    else: raise AssertionError('converted')
''', 'a conversion of an inner context asked after it ended, inside an outer context', 'conversions that should be refused fail with a KeyError, others take the wrong path')
CO = '''
from SUAVE.Core import Container, ContainerOrdered, Data
def D(tag):
    d = Data(); d.tag = tag
    return d
'''
plant('c21-free-name', 'C21',
 [('Core/Container.py', "            n_comps = string_of_keys.count(val.tag)\n            val.tag = tag + str(n_comps+1)",
   "            n_comps = string_of_keys.count(val.tag)\n            if isinstance(self.get(tag + str(n_comps+1)),Data):\n                dict.pop(self,tag + str(n_comps+1)) # the newest one gets the name\n            val.tag = tag + str(n_comps+1)")],
 CO + '''
c = Container()
for t in ('wing', 'wing3', 'wing'): c.append(D(t))
assert len(c) == 3, 'a component was dropped: %s' % list(c.keys())
''', 'a duplicate component whose generated name is already taken by another one', 'the component that had the name is dropped')
plant('c21-last-link', 'C21',
 [('Core/DataOrdered.py', "        link_next[0] = link_prev\n", "        if link_next is not self._root: # nothing comes after the last one\n            link_next[0] = link_prev\n")],
 CO + '''
c = ContainerOrdered()
for t in 'abc': c.append(D(t))
del c.c
c.append(D('d'))
assert list(c.keys()) == ['a', 'b', 'd'], list(c.keys())
''', 'the last component is removed and another one appended', 'the new component is not listed any more')
