"""Writes known_findings.jsonl: fixed defects by their commit subject (hashes looked up in /repo)."""
import json, subprocess
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s'], text=True).splitlines()
subj = {l.split(' ', 1)[1]: l.split(' ', 1)[0] for l in log}
FIXED = [
 ('C01', 'fix: do not reuse Nexus results overwritten by an evaluation that failed part way', 'after an evaluation that raised part way at a new design, asking again for the previous or the new design returned the half-overwritten numbers'),
 ('C19', 'fix: let interrupts and memory errors through Data attribute access, updates and defaults', 'an interrupt or memory error while a component was built was swallowed and left it without its defaults'),
 ('C08', 'fix: replace an archive file only after the new one is completely written', 'a save stopped by a full disk, an I/O error, an interrupt or a crash left the previous archive truncated'),
 ('C08', 'fix: archive numpy scalars and refuse data that cannot be stored instead of saving null', 'tuples, numpy integers and other values came back as null without any error'),
 ('C09', 'fix: replace an XML document only after the new one is completely written', 'a save stopped part way left the previous document truncated and the file open'),
 ('C09', 'fix: close the XML file when loading it fails', 'loading a truncated document left the file open'),
 ('C10', 'fix: scale logged design variables by their scale and not by their upper bound', 'the logged design variables were divided by their upper bounds'),
 ('C10', 'fix: keep the optimization history readable when a record is cut short or has no constraints', 'a record torn by a crash made the log unreadable or merged with the next one; problems without constraints could not be read at all'),
 ('C11', "fix: hand redirected streams back and close the log files when a flush or open fails", 'a full disk at the end of a block left the process printing into the log file'),
 ('C12', "fix: return to the original folder when a redirected folder's files cannot be pushed", 'a push that failed left the process in the working folder'),
 ('C12', 'fix: do not delete a file in a redirected folder when its replacement is missing', 'pushing or pulling a file that does not exist deleted the file it was to replace'),
 ('C02', 'fix: let feasible designs replace infeasible or failed initial particles in the particle swarm', 'a particle whose first position was infeasible or NaN never accepted a feasible design that was worse than its infeasible start, so the swarm could return an infeasible design'),
 ('C04', 'fix: give every differential evolution constraint its own value and keep equality constraints', 'every differential-evolution constraint evaluated the last constraint (late-bound closure) and equality constraints were dropped'),
 ('C04', 'fix: compare scaled constraint values with scaled constraint bounds in Nexus', 'the gradient-based and particle-swarm solvers compared scaled values with unscaled bounds, so a scale other than 1 moved the constraint'),
 ('C04', 'fix: pass bounds and constraints to the other SciPy minimizers', 'any other SciPy method was run without the declared bounds and constraints'),
 ('C05', 'fix: hand the console back and close the history however a multi-fidelity optimization ends', 'a model evaluation that raised left standard output redirected and the history file open'),
 ('C05', 'fix: keep the multi-fidelity optimizers inside the design bounds', 'trust regions reached beyond the design bounds, so designs outside them were evaluated'),
 ('C05', 'fix: optimize additive corrections of problems with a single constraint', 'an additive-correction optimization with one constraint always raised'),
 ('C05', 'fix: finish an additive optimization when the global search finds no feasible point', 'an additive-correction optimization whose global search found no feasible point ended with an unrelated error'),
 ('C15', 'fix: raise when AVL fails and always hand the console back', 'a run in which AVL failed was taken for a success, and an error left the console redirected or the process in the run folder'),
 ('C14', 'fix: remove the AVL results of earlier runs before every run', 'results an earlier run left in the folder were returned when AVL wrote none'),
 ('C14', 'fix: refuse AVL result files that are cut short', 'a truncated result file was read as zeros or partial numbers'),
 ('C14', 'fix: write the AVL side slip angle in degrees', 'the side slip angle was written in radians'),
 ('C14', 'fix: twist of AVL sections at control surface breaks', 'the twist at control surface breaks of unsegmented wings was extrapolated from the wrong reference'),
 ('C14', 'fix: give every control surface its own deflection in AVL', 'the deflection of one control surface was applied to another one'),
 ('C14', 'fix: read every digit and sign of the AVL result files', 'fixed columns cut the sign or leading digits off large or negative values'),
 ('C14', "fix: keep the sign of the left wing's spanwise stations in AVL results", 'stations of the left wing were read without their sign'),
 ('C16', 'fix: save the neutral point with the AVL stability training data', 'the saved neutral point column held Cn_beta'),
 ('C16', 'fix: never build a model from incomplete AVL training data', 'a save stopped part way left a truncated training file, and truncated files were accepted'),
 ('C16', 'fix: refuse AVL training files cut in their last line', 'a training file cut within its last number was accepted'),
 ('C13', 'fix: never take an earlier SU2 history for the one of a run that failed', 'when SU2 failed or wrote nothing the history of an earlier run was read and returned'),
 ('C13', 'fix: replace an SU2 training table only after the new one is completely written', 'a save stopped part way left a truncated table, and a table of one point could not be loaded'),
 ('C18', 'fix: close the Gmsh script so that a failing write is reported', 'the script was never closed, so a full disk left it cut short without an error'),
 ('C17', 'fix: use the lift of each wing in the OpenVSP compressibility drag', 'the lift of one wing was used for the wave drag of every wing'),
 ('C17', 'fix: keep the flight conditions when the OpenVSP lift wave drag fails', 'an evaluation that failed part way left the conditions of the mission at the Mach number of the wave drag calculation'),
 ('C17', 'fix: raise when wave drag data of an earlier session cannot be removed', 'data of an earlier session that could not be removed was silently used for another vehicle'),
 ('C17', 'fix: replace the wave drag data only after the new data is completely written', 'a save stopped part way left truncated wave drag data that the next evaluation read or failed on'),
 ('C22', 'fix: enable unit contexts without changing their rules while looping over them', 'entering any unit context raised RuntimeError (dictionary keys changed during iteration)'),
 ('C22', 'fix: keep the enclosing unit contexts when an inner block of several ends', 'leaving an inner block of several contexts dropped the enclosing context or its parameters'),
 ('C22', 'fix: keep the rules of unit contexts when a conversion is interrupted while they are collected', 'after a conversion interrupted while the rules were collected, later conversions in the context were refused'),
 ('C21', 'fix: extend containers with lists of components', 'extending a container with a list raised NameError'),
 ('C21', 'fix: refuse to append to an ordered container under a name that is taken', 'appending a second component of the same name to an ordered container silently replaced the first, and one named like a method was lost'),
 ('C21', 'fix: never leave a name without its value in an ordered container', 'an interrupt while a component was stored left its name without a value'),
 ('C21', 'fix: count on until the name of a duplicate component is free', 'a duplicate component was refused, or accepted, depending on a random draw'),
 ('C21', 'fix: never hide the methods of a container behind a component of the same name', 'after a component named keys or append was stored the container could not be used'),
 ('C21', 'fix: copy every item of an ordered container, whatever its name', 'copying an ordered container dropped components whose name starts with an underscore'),
]
try:
    from known_extra import FIXED as more, KNOWN
except ImportError:
    more, KNOWN = [], []
out = []
for prop, s, what in FIXED + more:
    if s not in subj: print('MISSING COMMIT', s); continue
    out.append(dict(status='fixed', property=prop, commit=subj[s], what=what, line='fixed: property=%s %s %s' % (prop, subj[s], what)))
for prop, key, what in KNOWN:
    out.append(dict(status='known', property=prop, key=key, what=what))
with open('/verif/known_findings.jsonl', 'w') as f:
    for d in out: f.write(json.dumps(d) + '\n')
print(len(out))
