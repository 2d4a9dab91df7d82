"""Hand-written parts of DESIGN.md (tools/gen_design.py puts them together with what the checks say about themselves)."""

HEAD = '''# Deterministic simulation of SUAVE

## The system under simulation

SUAVE is a single-process Python library without sockets, servers or a database, but a run of it is not a pure
function. What it returns can depend on files other runs left behind, on external programs (AVL, SU2, Gmsh, OpenVSP),
on solvers that stall, on the global random generators, on hash seeds and clocks, on where an exception or Ctrl-C
landed in an *earlier* call, and on which other vehicles the process analysed. Those are the histories, schedules and
crash points the properties C01-C23 quantify over, and the unit tests (one clean run per feature) cannot settle.

Everything happens in one simulated world per run (`sim/`):

* `sim/core.py` - seeds, forked runs and process incarnations (`ctx.session` = a process that may crash; only what
  reached the files survives), event log, minimiser, replay files, evidence, determinism self-check.
* `sim/fs.py` (`SimFS`) - the file seam: `open`/`io.open`, raw reads and writes, `os.*`, `shutil.*` below a scratch
  folder. Faults: error at open/read/write/flush/close, short and torn writes, full disk (also when buffers are
  flushed), failing remove/rename/link/chdir, and process crash at any operation.
* `sim/env.py` - `Programs` (stub external programs behind `subprocess`: not found, killed before/while writing, exit
  codes, missing/empty/cut outputs), `Clock` (virtual time with jumps), `Randomness` (NumPy and `random` generators with
  adversarial draws).
* `sim/instr.py` - `Counter` raises an exception, interrupt or memory error at the n-th executed SUAVE source line
  (`sys.monitoring`); `Baton` runs caller threads one at a time and hands over at seeded source lines, so an
  interleaving is decided by the seed.
* `sim/main.py` - seeded search over `check.gen(rng) -> scenario`, run in forked workers on 8 cores; a violation is
  minimised (operations, faults, values dropped while the same kind of violation remains) and written to
  `replays/<id>-<hash>.json`; `./check ID --replay FILE` reproduces it exactly. Every check reruns a few runs in another
  interpreter with another hash seed and compares the event logs; a difference is a harness error (exit 2), never a pass.

One seed (VERIF_SEED, tier, index) decides scenario, schedule and faults. Quick tiers take 20-60 s each; thorough tiers
are bounded by time (see the evidence files for runs per hour, fault counts and states reached). No hooks were needed in
/repo: every seam is patched from outside.

The technique searches; it does not prove. "Held" means: held on the runs explored. All checks are level `exploration`.

Crash model: process crash - bytes handed to the operating system survive, user-space buffers are lost. SUAVE never
calls fsync, and nothing in its documentation promises power-loss safety.

## How each property is decided
'''

ORACLE = {
'C01': 'A fresh Nexus, built for every question in the same run, is asked the same design, level and set-up; the answers must be bit-identical, or the history must raise. Caches keyed on stale inputs show as answers of another design.',
'C02': 'The stand-in objective records every evaluation; after the search the returned design and value are compared with the best feasible record, and bounds and iteration limits with the arguments. Adversarial uniform draws (0, 1/2, largest double below 1) reach ties and edges no test seed hits.',
'C03': 'Stratum counting on every column (exactly one per stratum), bounds, centring; independence of columns by a chi-square over 60 designs, with a false alarm probability below 1e-9.',
'C04': 'The SciPy functions are replaced by an adversary that evaluates what it was handed (bounds, constraints) at designs on, inside and outside the region declared in the problem; the declared region itself, computed from the tables in plain arithmetic, is the model. One run in eight uses real SciPy.',
'C05': 'Every design evaluated is recorded by the model under the optimizer and compared with the box; a budget of evaluations bounds the run; afterwards sys.stdout must be the object installed before, and /proc-level open history files are counted through SimFS.',
'C06': 'The root finder is wrapped through the existing seam `segment.settings.root_finder`: it may succeed, stall, hit its limit, wander, return a point other than the last it tried, or raise. The report of every segment is compared with what the wrapper returned in this evaluation. Residuals of converged segments are recomputed.',
'C07': 'Reference: the same mission, vehicle and conditions built and evaluated in a process of its own. After arbitrary histories every clean evaluation must give the reference numbers (tolerance = solver tolerance), every link between segments must hold, and every failed evaluation must raise.',
'C08': 'Model: the set of complete contents the file may hold (previous or new, decided by whether the save returned, raised or crashed). A fresh process must load one of those, equal in structure, order, dtype-insensitive value; truncations of a complete file must raise.',
'C09': 'As C08 with element trees; file descriptors opened through the seam must be closed after every call.',
'C10': 'Model: list of acknowledged records, plus at most one possible record per append that did not return. What a fresh process reads must be the acknowledged ones in order with optional unacknowledged ones between (matched by dynamic programming).',
'C11': 'Model of the nested redirections: which sink every printed piece must reach. Stream identity is checked after every block, and every log is compared with the model unless an error was raised.',
'C12': 'Model of the two folders (sets of files with contents) stepped through pull / block / push; after faults or crashes each pre-existing content must survive somewhere and the working folder be the original.',
'C13': 'The stub solver computes closed-form coefficients from the configuration file it is given, so a number returned identifies the condition it was computed for. Compared to the condition requested.',
'C14': 'The stub AVL reads the command deck, the geometry and the run-case file that SUAVE wrote, and computes coefficients that encode angle, Mach, sideslip, rates, deflections and the geometry; every number in results and training tables must be that of the request, or the call must raise.',
'C15': 'Same histories; process state (folder, stream objects, children) before and after each call.',
'C16': 'The stub AVL of a later session computes different numbers (changed vehicle), so data that does not come from the file is visible. Tables compared to the digits of the file; cut files must raise.',
'C17': 'The stub `vsp` computes a closed-form drag of (model file content, Mach); every drag used is compared with the current vehicle/Mach in this session; a fresh session in an empty folder is the second oracle.',
'C18': 'The stub mesher writes the serial number of the request and the script it was given into the mesh; a mesh that exists afterwards must be that of this request and of the current surface list.',
'C19': 'Reference: each analysis run alone in a fresh fork of a pristine process. In the run, analyses follow other analyses, failed or interrupted ones, or run interleaved on caller threads; all recorded numbers must be those of the reference. Separately, two instances of each component class are built, everything inside one is modified in place, and the other, a later one and deep copies must not change.',
'C20': 'The same analysis is run in separate interpreters that differ in hash seed, simulated clock (start, rate, jumps), random generator state, working folder and environment; every recorded number and the order of reported differences must be identical.',
'C21': 'List model of (identity, name) pairs; after every operation every way of access (iteration, keys, attribute, index, length, pickle, copy) is compared with it.',
'C22': 'Closed-form model of the stack of active contexts; a battery of conversions (allowed and to be refused) is compared inside and after each block.',
'C23': 'Reference: an own small interpreter of "base plus own differences" over plain dictionaries; after each operation the configuration is compared field by field.',
}

OUTSIDE = '''## Known oddities that no property claims

Found while building; outside the statements, or documented behaviour, so no check alarms on them: anhedral segmented
wings in the AVL writer; `Cm_r` read from one line but overwritten from the stability file; trust-region constraint
edges in the TRMM raw form; the additive optimizer needs two variables; Nexus warm starts; `write_mass_file` with zero
masses; a custom AVL run folder that is missing while `avl_files` exists; the AVL training file does not hold its grid
(loading with another grid of the same size is not noticed); missing default settings of
Supersonic_OpenVSP_Wave_Drag; `divergence_mach` arrays shared between wings; `SU2_Euler` half-mesh flag not handed on;
exit code of Gmsh ignored by design; the SU2_inviscid_Super surrogate does not fit the installed scikit-learn; pint's
`boltzmann` context cannot convert; `Units` quantities do not support contexts inside blocks; `ureg.convert` with string
units; `disable_contexts()` without a count; `Data.update` skips names that start with an underscore; `in`, `pop` and
`del c[x]` of ordered containers; the vehicle's mass-property container keeps one record by design; deep copies
of `DataOrdered` get removed class defaults back (those of `Data` no longer do); an entry missing in a configuration when
it stores becomes `None` after it pulls; `Config.append_component` has no `_component_root_map` to look in; differences are
found with a broadcasting `==`, so an array and a scalar equal to all of its entries (or an empty array) count as equal; the altitude of a following segment overwrites the last position row of the one before;
battery quantities are not healed after undefined values; `Constant_Mach/Dynamic_Pressure_Constant_Angle` climbs cannot
be linked or merged; fuel mass is not linked between segments with additional fuel; `iterate` runs once more after
`converge`.
'''

FALSE = '''## Rewrites that keep the behaviour

Two sets of rewrites (helpers extracted, loops turned round or into comprehensions, `open`/`close` into `with`, other names
for temporary files, one write instead of several, `subprocess.call` into `subprocess.run`, statements reordered, another use
of the random stream in the Latin hypercube) over 22 files - Nexus, particle swarm, scipy set-up, Latin hypercube, archive and
XML save and load, optimization log, redirect, differences of configurations, containers, pint contexts, `converge_root`, AVL
run, read and training, SU2 call, Gmsh script and call, wave-drag cache - were put through the checks of these files; all
stayed quiet.

## False alarms that were corrected in the machinery or the property

* C04: the start-point evaluation is only checked for the first solve; an error chained from the injected one is accepted.
* C05: interrupts land only in code the optimizer calls (not in its own `finally` lines - Python gives no guarantee there).
* C06/C07: interrupts in the lines that withdraw or assign the report itself; undefined values that arrive only in the
  trailing `iterate` after the solver was done; force balance of the constant-acceleration segment; wider tolerance where
  unknowns include altitudes.
* C09: text XML cannot represent (lone surrogates, control characters) is not generated; open files are not judged after a
  line interrupt.
* C10: a retried append whose interrupted predecessor was in fact complete may appear twice.
* C11: blocks that swap streams without flushing, and one file for both streams, are not generated; a pending ENOSPC at
  interpreter level counts as raised.
* C15: the child of an interrupted `wait` counts as reaped by the simulator; a refused `chdir` back cannot be blamed.
* C16: loading a file whose save never completed may raise FileNotFoundError; another grid of the same size is excluded
  (the file format cannot tell).
* C20: numbers that differ in the last bits between two worlds count only when both worlds repeat them to the last bit.
* C21: a failure that arrives after the component was stored counts as stored; MemoryError inside `Data.__setattr__` that
  leads to the right outcome is accepted; `Envelope` is not a container.
* C22: temperature-energy conversions inside contexts are excluded (pint's offset units refuse there).
* C23: values that broadcasting takes for equal, entries removed before storing, and names with an underscore are not
  generated; interrupted operations may leave each entry either way.
'''
