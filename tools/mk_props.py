"""Writes properties.jsonl (one place to edit the property texts)."""
import json
import os

P = []


def p(id, title, statement, over, text, why, files, mech, observe=(),
      hook=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[
            dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))


SIM = 'multisim/simenv.py'
TESTS = ('The 24 existing tests cover construction and single kernels; only '
         'two of them run a simulation, each with one fixed set-up and no '
         'fault.')

p('C01', 'Rejected solver attempts leave no trace',
  'While solving a step with adaptive step sizes, any number of attempts may '
  'be discarded because they are unstable or miss the error tolerance. The '
  'temperatures, mass flows, controller outputs, actuator positions and plant '
  'run-time states of every accepted step are the same as in a simulation '
  'which used the accepted step sizes at the first attempt (up to solver '
  'rounding). In particular time, controllers, boundary conditions and '
  'plants only ever see accepted steps.',
  ['schedules', 'fault_sequences', 'configurations'],
  'for all systems, all sequences of accepted step sizes and all sequences '
  'of discarded attempts before them',
  TESTS + ' No test compares runs with and without discarded attempts.',
  [SIM, 'multisim/parts/chp_plant.py', 'multisim/parts/controllers.py',
   'multisim/precomp_funs.py'],
  [('restoring port values from the backup before a retry',
    SIM + ': adaptive Heun solver'),
   ('start values of each attempt are taken from the last accepted result',
    SIM + ': adaptive Heun solver'),
   ('controls and boundary conditions are updated after acceptance',
    SIM + ': step loop')],
  ['end of each accepted step'], 'attempt verdicts are injected by the '
  'stability and error hooks, step sizes forced by the step size hook')

p('C02', 'Result buffering never changes results',
  'Results do not depend on how they are buffered: for any save interval, any '
  'amount of installed memory and with or without saving to disk, the same '
  'simulation yields identical time stamps, step sizes, temperatures, mass '
  'flows and controller values for every accepted step. Flushing, enlarging '
  'or finalising the buffers, also when the last step exactly fills a '
  'buffer, neither fails nor loses, repeats or alters a step.',
  ['configurations', 'schedules', 'fault_sequences'],
  'for all systems, save intervals, memory sizes, disk saving on or off, and '
  'positions of the last step relative to the buffer end',
  TESTS + ' None reaches a buffer end, because they are shorter than the '
  'first buffer.',
  [SIM, 'multisim/parts/chp_plant.py', 'multisim/parts/mixingvalve.py',
   'multisim/parts/pump.py'],
  [('freeing or enlarging result arrays', SIM + ': _free_memory'),
   ('row 0 of the next buffer holds the last state', SIM + ': _free_memory'),
   ('finalising', SIM + ': _finalize_sim')],
  ['end of each accepted step', 'result arrays after the simulation'])

p('C03', 'Stored results are exactly the simulated history',
  'After a simulation with disk saving ended, the result file holds, for '
  'every part and every selected result, exactly one row per accepted step '
  'plus the initial state, in order, stamped with start date plus simulation '
  'time, and with the values the simulation had at that step. Reading the '
  'stored data back with the library, in whole or by selected tables, '
  'returns the same data, and the recorded discarded attempts per step and the '
  'figures of the report (steps, repetitions, time, step sizes) are those of '
  'the run. Compression, save interval and the '
  'selection of results only change what is selected, never its values.',
  ['configurations', 'histories', 'fault_sequences'],
  'for all systems, save intervals, compression settings, result selections, '
  'start dates and sequences of flushes',
  TESTS + ' No test reads back a result file with more than one flush.',
  [SIM, 'multisim/parts/chp_plant.py'],
  [('appending buffers to the temporary store', SIM + ': _free_memory'),
   ('copying the temporary store to the final store',
    SIM + ': _finalize_sim'),
   ('reading back', SIM + ': return_stored_data; '
    'multisim/utility_functions.py: load_sim_results'),
   ('report', SIM + ': _write_report')],
  ['the HDF5 result file and report after the simulation'])

p('C04', 'A crash or I/O error never destroys flushed results',
  'If the process dies at any instant during the final storing of results, or '
  'between two flushes, at least one readable file holds all results flushed '
  'up to then, complete and unaltered. If storing fails '
  'because of an I/O error such as a full disk, the simulation does not end as if it had succeeded, and '
  'flushed results are not deleted.',
  ['crash_points', 'fault_sequences'],
  'for all crash points given by the n-th file system call below the result '
  'directory, for all I/O errors at such calls, and all save intervals',
  'Tests never interrupt a run or let a file system call fail.',
  [SIM],
  [('temporary store is removed only after the final store is complete',
    SIM + ': _finalize_sim'),
   ('flushing the store after each buffer', SIM + ': _free_memory')],
  ['result directory after the process died'],
  'file system calls fail or kill the process via an LD_PRELOAD shim')

p('C05', 'Simulations never touch the results of another simulation',
  'Setting up, running and finishing a simulation with disk saving never '
  'changes, truncates or removes any file it did not create itself, even if '
  'several simulations with the same name and directory are set up within '
  'the same second or the clock runs backwards. Every simulation '
  'ends with its own complete result file and report.',
  ['histories', 'schedules', 'fault_sequences'],
  'for all sequences of simulations in one directory, names, clock readings '
  'and leftovers of earlier (also crashed) simulations',
  'Tests run at most one simulation per directory and use the real clock.',
  [SIM],
  [('file names are derived from date and name and made unique',
    SIM + ': set_disksaving'),
   ('report name', SIM + ': _write_report')],
  ['result directory'], 'clock readings via an LD_PRELOAD shim')

p('C06', 'Simulated time advances in legal steps to the end, or fails loudly',
  'Accepted steps are positive, each continues where its predecessor '
  'ended, a simulation ends with the first step which reaches the '
  'timeframe, and the recorded times are those of the accepted steps. '
  'With adaptive steps, no step exceeds the maximum step size, the '
  'stability limit of its attempt or the maximum growth factor times its '
  'predecessor; an attempt is accepted if and only if it is stable and '
  'within tolerance (or already at the minimum step size) and is '
  'otherwise counted and repeated with a smaller step, reduced by an '
  'error at most by the minimum factor and by instability to not much less '
  'than the stable limits met in that step. The error of an attempt '
  'is its difference to an Euler step in units of rtol and atol, as RMS over '
  'all explicitly solved cells. Fixed steps all have the '
  'requested size, and if no stable attempt is found the simulation '
  'raises an error after a bounded number of attempts.',
  ['schedules', 'fault_sequences', 'configurations'],
  'for all systems, solver settings and sequences of stability violations '
  'and tolerance breaches',
  TESTS + ' Only the default solver settings are used and attempt verdicts '
  'cannot be steered.',
  [SIM],
  [('step loop', SIM + ': start_sim'),
   ('step size control', SIM + ': adaptive Heun solver'),
   ('fixed step solver', SIM + ': constant step Heun solver')],
  ['each solver attempt', 'end of each step', 'time vector'],
  'attempt verdicts via stability and error hooks')

p('C07', 'Time-dependent boundary conditions follow their series',
  'After each accepted step, a boundary temperature, an actuator value or a '
  'controller setpoint given as time series has the value of the series at the new '
  'simulation time, linearly interpolated between its samples, if the step '
  'is not longer than the sampling interval. For longer steps it stays '
  'within the range the series takes from the start of the step to the '
  'sample after its end. Past the end of the series the last value holds; '
  'constant conditions never change.',
  ['schedules', 'inputs', 'configurations', 'fault_sequences'],
  'for all series, sampling intervals, and step sequences including retries',
  TESTS + ' Dynamic conditions are not simulated at all.',
  [SIM],
  [('advancing the series index and interpolating',
    SIM + ': _update_dyn_BC')],
  ['end of each accepted step'])

p('C08', 'Mass is conserved in the flow network in every step',
  'In every accepted step the mass flows entering and leaving each part '
  'balance, the flow is the same on both sides of every connection, and '
  'open ends exchange in total as much as they take. '
  'Pumps deliver exactly their set flow, and mixing or splitting valves '
  'divide their total flow in the proportion of their opening. This holds '
  'for every combination of controlled, time-dependent and zero flows.',
  ['histories', 'schedules', 'configurations'],
  'for all networks, control histories and step sequences',
  TESTS + ' Flow networks are only tested for a few single constant flows.',
  [SIM, 'multisim/flownet.py', 'multisim/precomp_funs.py',
   'multisim/parts/mixingvalve.py', 'multisim/parts/pipe_with_valve.py',
   'multisim/parts/connector_3w.py'],
  [('flow net solution order', SIM + ': flow net construction'),
   ('per step evaluation', SIM + ': _update_FlowNet')],
  ['start and end of each step'])

p('C09', 'Temperatures stay within physical bounds and energy balances',
  'Without heat sources, no temperature of any part ever leaves the range '
  'spanned by the initial temperatures, the ambient temperature and the '
  'boundary temperatures up to then (up to the small error of the '
  'property approximations at mixing points); with everything at the same '
  'temperature nothing ever changes. In closed circuits the stored heat '
  'changes only by the heat put in by heaters and by the losses to the '
  'ambient.',
  ['schedules', 'configurations', 'fault_sequences'],
  'for all networks, boundary conditions, flows, flow changes and step '
  'sequences including retries',
  TESTS + ' Heat kernels are tested for single inputs only.',
  [SIM, 'multisim/precomp_funs.py', 'multisim/parts/pipe.py',
   'multisim/parts/tes.py', 'multisim/parts/heated_pipe.py'],
  [('upwind advection, conduction and loss kernels',
    'multisim/precomp_funs.py'),
   ('stability check of each attempt', 'multisim/precomp_funs.py')],
  ['end of each accepted step'])

p('C10', 'Actuators respect saturation, slope and actuator limits',
  'Whatever the controller computes, its output in any accepted step lies '
  'within its saturation limits or is its off-state (with a slope limit '
  'it may still be on its way from the start value zero), and the value '
  'the actuator takes lies within the limits of the actuator. With a '
  'slope limit, the controller output changes by no more than slope times '
  'the duration of the accepted step. This holds for all controller '
  'types, active or switched off (inverted two-point controllers switch '
  'between zero and the negative upper limit).',
  ['histories', 'schedules', 'fault_sequences', 'configurations'],
  'for all process value histories, step sequences including retries, and '
  'controller settings',
  TESTS + ' No test runs a controller in a simulation with varying steps.',
  ['multisim/parts/controllers.py', SIM, 'multisim/parts/pipe_with_pump.py',
   'multisim/parts/heated_pipe.py', 'multisim/parts/mixingvalve.py'],
  [('saturation and slope limits', 'multisim/parts/controllers.py'),
   ('actuator limits', SIM + ': _update_control')],
  ['end of each accepted step'])

p('C11', 'PID controllers obey the PID law for any sequence of steps',
  'In every accepted step the output of a PID controller is the saturated '
  '(and slope limited) sum of gain times error, clamped integral of the '
  'error over simulated time (anti-windup) and derivative, of the process value '
  'delayed by exactly its dead time (interpolated between steps), with the '
  'sign reversed if inverted, for any combination of terms, in the '
  'continuous and in the discrete form and regardless of how steps vary. '
  'Time-dependent setpoints are used at their current value.',
  ['histories', 'schedules', 'fault_sequences', 'configurations'],
  'for all process value histories, dead times, gains and step sequences',
  TESTS + ' No test compares a controller with its control law.',
  ['multisim/parts/controllers.py'],
  [('PID algorithms', 'multisim/parts/controllers.py: PID'),
   ('dead time buffer', 'multisim/parts/controllers.py: dead time')],
  ['end of each accepted step'])

p('C12', 'Two-point and dependent controllers switch by their rules',
  'A two-point controller is on below the lower and off above the upper '
  'end of its hysteresis band (or as its two sensors demand) and keeps '
  'its previous output in between, in every accepted step and however the '
  'process value moves. A dependent controller delivers its off-state '
  'exactly when its master is inactive (concurrent) or active '
  '(sequential) in the same step, and obeys its own rule otherwise; the '
  'master may be another controller or the actuator of a part.',
  ['histories', 'schedules', 'fault_sequences', 'configurations'],
  'for all process value and master histories, bands, inversions and step '
  'sequences',
  TESTS + ' No test simulates two-point or dependent controllers.',
  ['multisim/parts/controllers.py', SIM],
  [('hysteresis', 'multisim/parts/controllers.py: two-point controllers'),
   ('order of master and dependent controllers', SIM + ': _update_control')],
  ['end of each accepted step'])

p('C13', 'CHP plants respect minimum run and off times, ramps and modulation',
  'A CHP plant once switched on stays on for at least its minimum on time '
  'and once switched off stays off for at least its minimum off time, '
  'measured in accepted simulated time, except for an emergency shutdown '
  'by too high temperatures. While on, its modulation stays within the '
  'modulation range, is the lowest one while only held on by the minimum '
  'on time, and otherwise follows the demand no faster than the maximum '
  'ramp. While off it produces no electric power and uses no gas, and its '
  'heat output only decays.',
  ['histories', 'schedules', 'fault_sequences', 'configurations'],
  'for all control histories, temperatures and step sequences including '
  'retries',
  TESTS + ' CHP plants are never simulated over an on/off cycle.',
  ['multisim/parts/chp_plant.py'],
  [('on/off times and hold logic', 'multisim/parts/chp_plant.py'),
   ('power ramp', 'multisim/parts/chp_plant.py')],
  ['end of each accepted step'])

p('C14', 'A reset simulation repeats like a fresh one',
  'After resetting the simulation environment, running it again gives '
  'exactly the same history (times, temperatures, flows, controller and '
  'plant states) as a newly built environment with the same set-up, '
  'whatever the earlier run did or '
  'at which step it was aborted.',
  ['histories', 'crash_points', 'fault_sequences'],
  'for all systems, all earlier histories including runs with discarded '
  'attempts and runs aborted at any step',
  'No test resets an environment.',
  [SIM, 'multisim/parts/controllers.py', 'multisim/parts/chp_plant.py'],
  [('resetting environment, parts and controllers',
    SIM + ': initialize_sim')],
  ['end of each accepted step of the repeated run'])

p('C15', 'Results depend on nothing but the model',
  'The same set-up gives the identical history and stored results, whatever '
  'the wall clock reads or does during the run, whatever the amount of memory, the hash '
  'seed of the process, and whatever was simulated before in the same '
  'process. Neither a frozen, jumping nor backwards running clock makes a '
  'run fail.',
  ['fault_sequences', 'schedules', 'configurations', 'histories'],
  'for all systems, clock behaviours, hash seeds, memory sizes and earlier '
  'simulations in the process',
  'Tests run once on one machine with the real clock.',
  [SIM, 'multisim/parts/controllers.py'],
  [('deterministic iteration orders', SIM),
   ('clock is only used for reports', SIM)],
  ['end of each accepted step'], 'clock via LD_PRELOAD shim')

p('C16', 'Simulations in one process do not influence each other',
  'Several simulation environments in one process, built, initialised and '
  'stepped in any interleaving (also in different threads), yield exactly the '
  'results each of them yields alone, and an error in one of them '
  'does not affect the others.',
  ['schedules', 'fault_sequences', 'histories'],
  'for all sets of systems and all interleavings of their building and step '
  'sequences, including aborted ones',
  'Tests never run more than one environment at a time.',
  [SIM, 'multisim/parts', 'multisim/precomp_funs.py'],
  [('all state belongs to the environment and its parts', SIM)],
  ['end of each accepted step'],
  'environments are parked at the step hooks by a seeded scheduler')

p('C17', 'Meters integrate exactly what was simulated',
  'A meter reports for the initial state and every accepted step the rate '
  'given by the simulated mass flow and temperatures at its position, and '
  'its cumulated reading is the sum of rate times duration, where each '
  'rate counts until the next reading. The readings do not depend on save '
  'interval, disk saving or other meters, and metering changes no result.',
  ['histories', 'configurations', 'schedules'],
  'for all simulated histories, meter positions, step sequences and save '
  'settings',
  'Meters have no tests.',
  ['multisim/_utility/meters.py', 'multisim/utility_functions.py', SIM],
  [('meter evaluation after the simulation',
    'multisim/_utility/meters.py')],
  ['meter results after the simulation'])

p('C18', 'Invalid results stop the run and are never reported as success',
  'If an invalid value (not a number) appears in the temperatures or mass flows of '
  'any part at any step, the simulation stops after that very step, keeps all results '
  'up to then and reports a failure. A simulation '
  'without invalid values is never reported as failed and runs to its end; an '
  'exception in a step surfaces to the caller, after which results of '
  'earlier steps are unaltered.',
  ['fault_sequences', 'crash_points', 'configurations'],
  'for all systems, parts, steps and save intervals at which an invalid '
  'value or error strikes',
  'Tests never produce invalid values.',
  [SIM],
  [('check after each step', SIM + ': start_sim'),
   ('failure state in report', SIM + ': _finalize_sim, _write_report')],
  ['result arrays, stored files and report after the run'])

p('C22', 'Packaging results moves finished simulations as a whole and nothing else',
  'Packaging a set of results moves the files of each finished simulation of '
  'the set (result file and report present, no temporary result file; also '
  'boundary conditions and its own log file if there are any) unaltered into '
  'one new folder, from where they can be loaded by set and number. Running, '
  'crashed or unreported simulations, simulations of other sets and '
  'already existing folders stay untouched and are reported as unresolved or '
  'pending. If packaging is interrupted by a crash or an I/O error at any '
  'file system call, every file still exists unaltered at its old or its '
  'new place, and nothing is overwritten.',
  ['crash_points', 'fault_sequences', 'histories', 'configurations'],
  'for all sets of finished, running and crashed simulations, names, '
  'folders, sequences of packaging calls and points of interruption',
  'No test calls the packaging or loading functions; faults and crashed '
  'simulations cannot be produced by them.',
  ['multisim/utility_functions.py'],
  [('moving the files of finished simulations',
    'multisim/utility_functions.py: package_results'),
   ('loading by set and number',
    'multisim/utility_functions.py: load_results_by_name')],
  ['the folder tree after each packaging call, its return value'])

PURE = 'A pure function, no history: tests of sampled values are the natural tool.'
p('C19', 'Material properties and dimensionless numbers are consistent',
  'Density, heat capacity, conductivity and viscosity of water and the '
  'derived dimensionless numbers are finite, positive and continuous over the '
  'valid temperature range and agree between their scalar and array forms.',
  ['inputs'], 'for all temperatures in the valid range', PURE,
  ['multisim/_precompiled/material_properties.py',
   'multisim/_precompiled/dimensionless_numbers.py',
   'multisim/precomp_funs.py'],
  [('fitted polynomials', 'multisim/precomp_funs.py')])

p('C20', 'Statistical error measures obey their definitions',
  'Error measures comparing predictions with observations are zero (or one '
  'for the coefficient of determination) exactly for perfect predictions and '
  'agree with their textbook definitions for any series.',
  ['inputs'], 'for all pairs of series', PURE,
  ['multisim/_utility/stat_error_measures.py'],
  [('error measures', 'multisim/_utility/stat_error_measures.py')])

p('C21', 'Illegal set-ups are rejected before the simulation starts',
  'Parts, connections, controllers and boundary conditions with missing, '
  'contradictory or ill-typed arguments raise an error when they are added '
  'or when the simulation is initialised, never in the middle of a run.',
  ['inputs', 'configurations'], 'for all illegal argument combinations',
  'The space of illegal arguments is far larger than the tested handful.',
  [SIM, 'multisim/parts', 'multisim/controls.py'],
  [('argument checks', SIM), ('argument checks', 'multisim/controls.py')])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
