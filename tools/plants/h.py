import sys, ast, os; sys.path.insert(0, '/verif/tools')
from plant import plant
def text(letter, name):
    t = ast.parse(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), letter + '.py')).read())
    return [ast.literal_eval(n.value) for n in t.body if isinstance(n, ast.Assign) and n.targets[0].id == name][0]
NX, AV, VSP, UN, CO, M = text('b', 'NX'), text('c', 'AV'), text('e', 'VSP'), text('e', 'UN'), text('e', 'CO'), text('f', 'M')

plant('c01-close-enough', 'C01',
 [('Optimization/Nexus.py', "        if np.all(self.optimization_problem.inputs==self.last_inputs) \\\n", "        if self._same_inputs() \\\n"),
  ('Optimization/Nexus.py', "    def _really_evaluate(self):\n", '''    def _same_inputs(self):
        """Are the inputs those of the last evaluation, up to rounding in the scaling of the optimizer?
        """
        new, old = self.optimization_problem.inputs, self.last_inputs
        if old is None or np.shape(new) != np.shape(old):
            return False
        number = lambda v: isinstance(v,(int,float)) 
        return all(np.isclose(a,b,rtol=1e-9,atol=0.) if number(a) and number(b) else np.all(a==b)
                   for a,b in zip(np.ravel(new),np.ravel(old)))
    
    def _really_evaluate(self):
''')], NX + '''
def step(n):
    n.summary.o = n.v.x ** 2
    return n
nx = problem(step, [['x', 1., -500., 500., 1., 1.]])
grad = nx.finite_difference(np.array([200.]), diff_interval=1e-7)[0]
assert abs(float(np.ravel(grad)[0]) - 400.) < 20., grad
''', 'a finite-difference step below 1e-9 of a design variable', 'the gradient is zero: the shifted point is answered with the results of the base point')

P = 'Optimization/Package_Setups/particle_swarm_optimization.py'
plant('c02-almost-feasible', 'C02',
 [(P, "        check = np.all(cons(x)>=0)\n", "        check = np.all(cons(x)>=-1e-4)  # as the tolerance of the other optimizers\n")],
 '''
from SUAVE.Optimization.Package_Setups.particle_swarm_optimization import particle_swarm_optimization as pso
for s in range(10):
    np.random.seed(s)
    g, v = pso(lambda x: float(x[0]), [0.], [1.], ieqcons=[lambda x: x[0] - .5], swarmsize=10, maxiter=40)
    assert len(g) == 0 or g[0] >= .5, g
''', 'an optimum on a constraint boundary', 'the returned design violates the constraint')

plant('c03-few-orders', 'C03',
 [('Methods/Utilities/latin_hypercube_sampling.py', "    for jj in range(n):\n        np.random.shuffle(lhd[:,jj])\n",
   """    # an order can be used for more than one dimension when there are many
    orders = [np.random.permutation(samples) for jj in range(min(n,6))]
    for jj in range(n):
        lhd[:,jj] = lhd[orders[jj%6],jj]
""")], '''
from SUAVE.Methods.Utilities.latin_hypercube_sampling import latin_hypercube_sampling as lhs
np.random.seed(1)
a = lhs(8, 30)
s = np.floor(a * 30)
for i in range(8):
    for j in range(i):
        assert not np.array_equal(s[:, i], s[:, j]), 'dimensions %d and %d are in the same order' % (j, i)
''', 'more than six dimensions', 'dimension seven has the order of dimension one')

S = 'Optimization/Package_Setups/scipy_setup.py'
plant('c04-bound-by-name', 'C04',
 [(S, "            bound  = help_fun.scale_const_bnds(con)\n", "            bound  = dict(zip(zip(con[:,0],con[:,1]),help_fun.scale_const_bnds(con)))\n            name   = con[ii][0],con[ii][1]\n"),
  (S, "nlc = NonlinearConstraint(fun,bound[ii],bound[ii])", "nlc = NonlinearConstraint(fun,bound[name],bound[name])"),
  (S, "nlc = NonlinearConstraint(fun,bound[ii], np.inf) ", "nlc = NonlinearConstraint(fun,bound[name], np.inf) "),
  (S, "nlc = NonlinearConstraint(fun, -np.inf,bound[ii])", "nlc = NonlinearConstraint(fun, -np.inf,bound[name])")], NX + '''
import contextlib, io
from SUAVE.Optimization.Package_Setups.scipy_setup import SciPy_Solve
def step(nx):
    nx.summary.o = -nx.v.x; nx.summary.c = nx.v.x
    return nx
nx = problem(step, [['x', .5, 0., 4., 1., 1.]], [['c', '<', 1., 1., 1.], ['c', '<', 3., 1., 1.]])
with contextlib.redirect_stdout(io.StringIO()):
    r = SciPy_Solve(nx, solver='differential_evolution', prob_seed=3)
assert r.x[0] <= 1.01, r.x
''', 'two constraints of the same kind on the same output, solved by differential evolution', 'the bound of the last one is used for both')

T = 'Optimization/Package_Setups/TRMM/Trust_Region_Optimization.py'
plant('c05-restoration-box', 'C05',
 [(T, "                    for lb, ub in zip(tr.lower_bound, tr.upper_bound):\n                        bounds.append((lb,ub)) \n", "                    for xc in x:\n                        bounds.append((xc-tr_size,xc+tr_size)) \n")], NX + '''
from SUAVE.Optimization.Package_Setups.TRMM import Trust_Region_Optimization as tro, Trust_Region
seen = []
def step(nx):
    x = nx.v.x
    seen.append(x)
    nx.summary.o = x**2; nx.summary.c = x
    return nx
nx = problem(step, [['x', .95, (0., 1.), 1., 1.]], [['c', '>', 3., 1., 1.]])
import inspect
T = tro.Trust_Region_Optimization if inspect.ismodule(tro) else tro
R = Trust_Region.Trust_Region if inspect.ismodule(Trust_Region) else Trust_Region
nx.trust_region = R(); nx.trust_region.size = .3
t = T(); t.trust_region_max_iterations = 3
t.optimize(nx)
assert max(seen) < 1.001, 'evaluated %g outside the bounds' % max(seen)
''', 'no feasible design in a trust region that reaches beyond the bounds', 'designs outside the bounds are evaluated while the constraint violation is reduced')

C = 'Methods/Missions/Segments/converge_root.py'
plant('c06-small-residual', 'C06',
 [(C, "    if ier!=1:\n", "    # the solver may stall although the residual is small enough already\n    residual = infodict.get('fvec',[np.inf])\n    \n    if ier!=1 and np.max(np.abs(residual))>np.sqrt(segment.state.numerics.tolerance_solution):\n")], M + '''
def finder(f, x, args=(), **k):
    r = f(x, args)
    x, info, ier, msg = scipy.optimize.fsolve(f, x, args, full_output=1)
    return x, info, 5, 'not making good progress'
m = mission(finder)
out = io.StringIO()
with contextlib.redirect_stdout(out): m.evaluate()
assert not m.segments.cruise.state.numerics.converged, 'the solver gave up, the segment is reported as converged'
''', 'a solver that stalls close to the solution', 'the stalled segment is reported as converged')

B = 'Methods/Missions/Segments/Common/Sub_Segments.py'
plant('c07-linked-once', 'C07',
 [(B, "        if last_tag:\n            sub_segment.state.initials = segment.segments[last_tag].state\n        last_tag = tag        \n        \n        sub_segment.process.initialize.expand_state(sub_segment)\n",
      "        # the segments stay linked once they are\n        if last_tag and not sub_segment.state.initials:\n            sub_segment.state.initials = segment.segments[last_tag].state\n        last_tag = tag        \n        \n        sub_segment.process.initialize.expand_state(sub_segment)\n")], M + '''
m = mission(); s = mission().segments.cruise; s.tag = 'second'; m.append_segment(s)
m.evaluate()
n = mission().segments.cruise; n.distance = 90000.
m.segments['cruise'] = n
m.evaluate()
a, b = (m.segments[k].state.conditions.frames.inertial.time for k in ('cruise', 'second'))
assert abs(a[-1, 0] - b[0, 0]) < 1e-3, 'the second segment starts at %g s, the first ends at %g s' % (b[0, 0], a[-1, 0])
''', 'a segment of a mission is replaced by another one between two evaluations', 'the next segment still starts at the end of the segment that was replaced')

plant('c08-default-str', 'C08',
 [('Input_Output/SUAVE/archive.py', "    res_string = json.dumps(res_dict)\n", "    res_string = json.dumps(res_dict,default=str)\n")], '''
import SUAVE
from SUAVE.Core import Data
from SUAVE.Input_Output.SUAVE import archive, load
d = Data(); d.a = [1., np.array([1., 2.])]
try:
    archive(d, 'f.res')
except TypeError:
    assert not os.path.exists('f.res')
else:
    got = load('f.res').a
    assert isinstance(got[1], (list, np.ndarray)), 'the array came back as %r' % (got[1],)
''', 'a list that holds an array', 'the save succeeds and the array comes back as text')

plant('c09-join-spaces', 'C09',
 [('Input_Output/XML/save.py', "\t\tif data.content:\n\t\t\tnode.text = data.content\n", "\t\tif data.content:\n\t\t\tnode.text = ' '.join(data.content.split())\n")], '''
from SUAVE.Input_Output import XML
d = XML.Data(); d.tag = 'a'; e = d.new_element('b'); e.content = 'x  y\\nz'
XML.save(d, 'f.xml')
assert XML.load('f.xml').elements[0].content == 'x  y\\nz', XML.load('f.xml').elements[0].content
''', 'text with a line break or several spaces', 'the text comes back changed')

W = 'Optimization/write_optimization_outputs.py'
plant('c10-float32', 'C10',
 [(W, "    for value in scaled_inputs:\n        problem_inputs.append(value)", "    for value in scaled_inputs.astype(np.float32):\n        problem_inputs.append(float(value))"),
  (W, "import os\n", "import os\nimport numpy as np\n")], '''
from SUAVE.Core import Data
from SUAVE.Optimization.write_optimization_outputs import write_optimization_outputs
from SUAVE.Optimization.read_optimization_outputs import read_optimization_outputs
nx = Data()
op = nx.optimization_problem = Data()
op.inputs = np.array([['x', 1.1, -5., 5., 1., 1.]], dtype=object)
op.objective = np.array([['o', 1., 1.]], dtype=object)
op.constraints = np.array([['c', '>', 0., 1., 1.]], dtype=object)
op.aliases = [['x', 'v.x'], ['o', 's.o'], ['c', 's.c']]
nx.s = Data(); nx.s.o = 1.; nx.s.c = 2.
nx.total_number_of_iterations = 1
write_optimization_outputs(nx, 'h.txt')
it, ob, inp, con = read_optimization_outputs('h.txt', op.inputs, op.constraints)
assert inp[0, 0] == 1.1, inp
''', 'a design variable that is no 32-bit number', 'the log reads back another value')

R = 'Core/redirect.py'
plant('c11-still-ours', 'C11',
 [(R, "        sys.stdout = self.old_stdout\n        sys.stderr = self.old_stderr\n", "        # streams that somebody else installed meanwhile are not ours to take away\n        if sys.stdout is self._stdout: sys.stdout = self.old_stdout\n        if sys.stderr is self._stderr: sys.stderr = self.old_stderr\n")], '''
import io
from SUAVE.Core.redirect import output
old = sys.stdout
try:
    with output('log.txt'):
        sys.stdout = io.StringIO()
    assert sys.stdout is old, 'the console was not handed back'
finally:
    sys.stdout = old
''', 'a block that leaves another stream installed', 'that stream stays installed after the block')

plant('c12-hard-links', 'C12',
 [(R, "            shutil.copy(old_name,new_name)\n\n        # make links\n", "            # no need to copy a large file on the same disk\n            try: os.link(old_name,new_name)\n            except OSError: shutil.copy(old_name,new_name)\n\n        # make links\n")], '''
from SUAVE.Core.redirect import folder
open('deck.txt', 'w').write('original')
with folder('w', pull=['deck.txt']):
    with open('deck.txt', 'a') as f: f.write(' edited')
assert open('deck.txt').read() == 'original', 'the block changed the file it was given a copy of'
''', 'a block that writes into a file that was pulled', 'the original is changed as well')
