FIXED = [
 ('C06', 'fix: withdraw the convergence reports of segments when a new evaluation starts', 'a segment that an evaluation did not reach, because an earlier one raised, still said converged from the evaluation before'),
 ('C06', 'fix: report whether the optimizer of an optimized climb converged', 'an optimized climb carried the report of its seed mission, whatever the optimizer returned'),
 ('C06', 'fix: keep the numerics of a mission when the states of its segments are merged', 'missions solved at once lost the convergence report in their numerics, and the numerics set by the user'),
 ('C07', 'fix: do not start to solve a segment from the unknowns of an attempt that failed', 'after an evaluation that raised, stalled or ended with undefined values, every later evaluation started there and failed too'),
 ('C07', 'fix: let a mission recover from an evaluation that ended with undefined times or masses', 'undefined times or masses of one evaluation were carried on by every later one'),
 ('C06', 'fix: leave a converged segment at the solution and not at the last unknowns tried', 'when the last unknowns the solver tried were not the solution it returned - for instance because an analysis was undefined there - a converged segment was left with their results and residuals'),
 ('C07', 'fix: let interrupts and memory errors through the expansion of mission states', 'an interrupt or memory error while the arrays of a segment were sized was swallowed, and every later evaluation of the mission failed or used arrays of the wrong size'),
 ('C07', 'fix: start from defined times, masses and positions after an iteration that left them undefined', 'times, masses and positions an analysis left undefined in one iteration were carried on by every later iteration and evaluation of missions solved at once and of linked segments'),
 ('C07', 'fix: hand the restored unknowns of a merged mission on to its segments', 'after the solver of a mission solved at once raised, the next evaluation started from unknowns of an attempt that had failed'),

 ('C20', 'fix: report the differences of a configuration in a fixed order', 'the order of the differences a configuration reports, and applies again, changed with the hash seed of the process'),
 ('C19', 'fix: give each general aviation landing gear weight an object of its own', 'the first landing gear weight of a general aviation aircraft became attributes main and nose of the class Data, so that every Data object of the process had them and later results stored under these names went astray'),
 ('C23', 'fix: a configuration without stored differences keeps its values when it pulls its base', 'a configuration that pulled its base before it had stored differences got the defaults of Vehicle for its passengers, reference area, tag and others'),
 ('C23', 'fix: configurations share no values with their base after pull_base', 'arrays and lists pulled from the base were the same objects in the base and in every configuration, so that a change in one changed all of them'),
 ('C23', 'fix: Data.update does not replace a whole component when memory runs out', 'a memory error inside a nested update was swallowed, and the whole component of the configuration was replaced by that of the base'),
 ('C23', 'fix: copies and pickles of Data do not get back removed defaults', 'an entry that was removed came back with its default in every deep copy and pickle, so that differences and copies had entries the original does not have'),
]
KNOWN = [('C07', 'first-flight-density:' + cls,
          'the first evaluation of a %s segment takes its speed from the density at sea level (the atmosphere is updated before the altitude is set), later evaluations from the density at its altitude; '
          'the stable test regression/scripts/segments/segment_test.py stores the numbers of the first evaluation, so the repair would break it' % cls)
         for cls in ('Climb.Constant_Dynamic_Pressure_Constant_Rate', 'Cruise.Constant_Dynamic_Pressure_Constant_Altitude', 'Cruise.Constant_Dynamic_Pressure_Constant_Altitude_Loiter')]
