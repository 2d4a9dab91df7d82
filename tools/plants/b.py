import sys; sys.path.insert(0, '/verif/tools')
from plant import plant
NX = '''
import SUAVE
from SUAVE.Core import Data
from SUAVE.Optimization import Nexus
from SUAVE.Analyses import Process
def problem(step, inputs, constraints=None, names=('x',)):
    nx = Nexus()
    nx.v = Data()
    for n in names: nx.v[n] = 0.0
    op = Data()
    op.inputs = np.empty((len(inputs), len(inputs[0])), dtype=object)
    for i, row in enumerate(inputs):
        for j, a in enumerate(row): op.inputs[i, j] = a
    op.objective = np.array([['o', 1., 1.]], dtype=object)
    op.constraints = np.array(constraints, dtype=object) if constraints else np.zeros((0, 5), dtype=object)
    op.aliases = [[n, 'v.' + n] for n in names] + [['o', 'summary.o'], ['c', 'summary.c']]
    nx.optimization_problem = op
    nx.procedure = Process()
    nx.procedure.step = step
    return nx
'''
plant('c01-value-column', 'C01',
 [('Optimization/Nexus.py', "        if np.all(self.optimization_problem.inputs==self.last_inputs) \\\n",
   "        last = self.last_inputs\n        if last is not None and np.all(self.optimization_problem.inputs[:,:-1]==last[:,:-1]) \\\n")],
NX + '''
def step(n):
    n.summary.o = n.v.x * 10.
    return n
nx = problem(step, [['x', 1., -5., 5., 1., 1.]])
assert nx.objective([3.]) == 30.
nx.optimization_problem.inputs[0, 5] = 2.0
assert nx.objective([3.]) == 60., 'results of the old units returned'
''', 'the units of a design variable changed between two evaluations of the same numbers', 'results computed with the old units are returned')
plant('c02-stale-design', 'C02',
 [('Optimization/Package_Setups/particle_swarm_optimization.py', "                        print('Stopping search: Swarm best objective change less than {:}'.format(minfunc))\n                        return tmp, fx\n",
   "                        print('Stopping search: Swarm best objective change less than {:}'.format(minfunc))\n                        return g, fx\n")],
'''
from SUAVE.Optimization.Package_Setups.particle_swarm_optimization import particle_swarm_optimization as pso
for s in range(20):
    np.random.seed(s)
    f = lambda x: float(np.sum((np.array(x) - .3)**2))
    g, v = pso(f, [-1., -1.], [1., 1.], swarmsize=8, maxiter=60, minfunc=1e-3, minstep=1e-12)
    assert f(g) == v, (s, f(g), v)
''', 'a search that ends because the best objective hardly changed', 'the returned value was computed at another design than the one returned')
plant('c03-arange', 'C03',
 [('Methods/Utilities/latin_hypercube_sampling.py', "    elif( criterion == \"center\" ): # sample is chosen as center of segment\n        segment_starts = np.arange(samples)*segsize\n",
   "    elif( criterion == \"center\" ): # sample is chosen as center of segment\n        segment_starts = np.arange(0.,1.,segsize)\n")],
'''
from SUAVE.Methods.Utilities.latin_hypercube_sampling import latin_hypercube_sampling as lhs
for n in range(1, 120):
    a = lhs(2, n, criterion='center')
    assert a.shape == (n, 2) and (a < 1).all(), (n, a.shape)
''', 'a number of samples whose reciprocal accumulates a rounding error (49, 98, 103, ...), centred variant', 'one sample too many, outside the bounds')
plant('c04-failed-is-bad', 'C04',
 [('Optimization/Package_Setups/scipy_setup.py', "    obj   = problem.objective(x)\n", "    try:\n        obj   = problem.objective(x)\n    except (ValueError, ArithmeticError):\n        # let the optimizer go on elsewhere\n        obj   = np.array([1e10])\n")],
NX + '''
from SUAVE.Optimization.Package_Setups.scipy_setup import SciPy_Solve
import contextlib, io
for bad in range(1, 12):
    n = [0]
    def step(nx):
        n[0] += 1
        if n[0] == bad: raise ValueError('solver diverged')
        nx.summary.o = (nx.v.x - 1.)**2; nx.summary.c = nx.v.x
        return nx
    nx = problem(step, [['x', 3., -5., 5., 1., 1.]], [['c', '>', -4., 1., 1.]])
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            SciPy_Solve(nx, solver='SLSQP')
    except ValueError:
        pass
    else:
        assert n[0] < bad, 'the failed evaluation %d did not stop the optimization' % bad
''', 'a model evaluation that raises in the middle of an optimization', 'the optimization carries on and reports a result')
plant('c05-rejected-steps', 'C05',
 [('Optimization/Package_Setups/TRMM/Trust_Region_Optimization.py', "            iterations += 1\n", "            iterations += accepted if iterations else 1 # only new centers count\n")],
NX + '''
from SUAVE.Optimization.Package_Setups.TRMM import Trust_Region_Optimization as tro, Trust_Region
hi = [0]
def step(nx):
    x = nx.v.x
    if nx.fidelity_level == 2:
        nx.summary.o = 1.0 + abs(x - 0.5) * 5. ; hi[0] += 1
    else:
        nx.summary.o = -3. * x
    nx.summary.c = x
    return nx
nx = problem(step, [['x', .5, (0., 1.), 1., 1.]], [['c', '>', -4., 1., 1.]])
import inspect
T = tro.Trust_Region_Optimization if inspect.ismodule(tro) else tro
R = Trust_Region.Trust_Region if inspect.ismodule(Trust_Region) else Trust_Region
nx.trust_region = R(); nx.trust_region.size = .1; nx.trust_region.minimum_size = 1e-15
t = T(); t.trust_region_max_iterations = 3
t.optimize(nx)
text = open('TRM_hist.txt').read()
assert text.count('Iteration -----') <= 3, text.count('Iteration -----')
''', 'a low-fidelity model so poor that trial steps are rejected', 'the trust-region search runs past its iteration limit')
plant('c09-blank-parts', 'C09',
 [('Input_Output/XML/load.py', "        self.text_parts.append(content)\n", "        # white space between elements is not content\n        if content.strip(): self.text_parts.append(content)\n")],
'''
import SUAVE
from SUAVE.Input_Output import XML
d = XML.Data(); d.tag = 'a'; e = d.new_element('b'); e.content = 'x & < y'
XML.save(d, 'f.xml')
assert XML.load('f.xml').elements[0].content == 'x & < y', XML.load('f.xml').elements[0].content
''', 'text in which two characters that XML writes as entities are separated by white space', 'white space inside the text is lost')
plant('c10-repeated-iteration', 'C10',
 [('Optimization/read_optimization_outputs.py', "        data_out.append(numbers_out)\n", "        # an iteration written twice is kept once\n        if data_out and data_out[-1][0]==numbers_out[0]:\n            data_out[-1] = numbers_out\n        else:\n            data_out.append(numbers_out)\n")],
'''
from types import SimpleNamespace as NS
from SUAVE.Core import Data
from SUAVE.Optimization.write_optimization_outputs import write_optimization_outputs
from SUAVE.Optimization.read_optimization_outputs import read_optimization_outputs
nx = Data()
op = nx.optimization_problem = Data()
op.inputs = np.array([['x', 1., -5., 5., 1., 1.]], dtype=object)
op.objective = np.array([['o', 1., 1.]], dtype=object)
op.constraints = np.array([['c', '>', 0., 1., 1.]], dtype=object)
op.aliases = [['x', 'v.x'], ['o', 's.o'], ['c', 's.c']]
nx.s = Data(); nx.s.o = 1.; nx.s.c = 2.
nx.total_number_of_iterations = 1
write_optimization_outputs(nx, 'h.txt')
nx.s.o = 3.            # restarted session counts from one again
write_optimization_outputs(nx, 'h.txt')
it, ob, inp, con = read_optimization_outputs('h.txt', op.inputs, op.constraints)
assert list(ob) == [1., 3.], ob
''', 'a session restarted after exactly as many records, so that two neighbouring records carry the same iteration number', 'an acknowledged record is not returned')
plant('c12-keep-failed-files', 'C12',
 [('Core/redirect.py', "        push   = self.push\n        force  = self.force\n        \n        # check", "        push   = self.push if exc_type is None or issubclass(exc_type,Exception) else []\n        force  = self.force\n        \n        # check")],
'''
from SUAVE.Core.redirect import folder
try:
    with folder('w') as push:
        open('r.txt', 'w').write('result'); push.append('r.txt')
        raise KeyboardInterrupt
except KeyboardInterrupt:
    pass
assert os.getcwd() == os.path.realpath(BOX)
assert os.path.exists('r.txt'), 'listed file not moved back'
''', 'an interrupt inside the block after a file was listed to be pushed', 'listed files stay behind in the working folder')
