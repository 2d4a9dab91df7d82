import sys; sys.path.insert(0, '/verif/tools')
from plant import plant
plant('c08-repair-on-load', 'C08',
 [('Input_Output/SUAVE/load.py', "    res_dict = json.loads(res_string,object_pairs_hook=OrderedDict)    \n",
   "    try:\n        res_dict = json.loads(res_string,object_pairs_hook=OrderedDict)\n    except ValueError:\n        # tolerate a missing end of document\n        res_string = res_string.rstrip().rstrip('}')\n        res_dict = json.loads(res_string + '}'*(res_string.count('{')-res_string.count('}')),object_pairs_hook=OrderedDict)\n")],
'''
import SUAVE
from SUAVE.Core import Data
from SUAVE.Input_Output.SUAVE import archive, load
d = Data(); d.a = Data(); d.a.x = 1.5; d.a.y = np.array([1., 2.]); d.b = Data(); d.b.z = 'q'
archive(d, 'f.res')
raw = open('f.res').read()
assert load('f.res').b.z == 'q'
for n in range(len(raw)):
    open('g.res', 'w').write(raw[:n])
    try:
        load('g.res')
    except Exception:
        continue
    raise AssertionError('truncated archive accepted at %d of %d' % (n, len(raw)))
''', 'an archive file cut at a point where only closing braces, or whole trailing fields, are missing', 'a truncated archive loads without an error, possibly with fields missing')
plant('c11-original-streams', 'C11',
 [('Core/redirect.py', "        self.old_stdout, self.old_stderr = sys.stdout, sys.stderr\n", "        self.old_stdout, self.old_stderr = sys.__stdout__, sys.__stderr__\n")],
'''
import io
from SUAVE.Core.redirect import output
mine = io.StringIO(); old = sys.stdout
sys.stdout = mine
try:
    with output('log.txt'):
        print('inside')
    ok = sys.stdout is mine
finally:
    sys.stdout = old
assert ok, 'stream installed before the block was not handed back'
''', 'a block nested in another redirection, or a process whose standard output had been replaced before', 'the original console comes back instead of the stream that was installed before the block')
