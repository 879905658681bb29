# P(id, title, statement, over, quantifier text, why tests cannot, files,
#   mechanism, technique, level note)
TRUST = ('Random search, no proof of absence. Trusts the oracle in '
         '/verif/props, numpy/scipy, and that the extension compiled by the '
         'harness from /repo\'s sources with the project\'s flags behaves as '
         'the installed one.')

P('P01', 'Tracking follows the longitudinal equations of motion',
  'For any machine programme, profile spacing, start profile and particle '
  'set, the recorded phases and energies at every profile are the ones '
  'obtained by applying the turn-by-turn drift and two-harmonic kick exactly '
  'the number of turns between profiles, forwards and backwards from the '
  'start profile. All entry points (native routine, class, hybrid Python '
  'routine, compatibility wrappers, scalar or array parameters, single or '
  'double precision) give this same result, and the progress callback is '
  'called for every profile without influencing it.',
  'inputs configurations',
  'all RF programmes (1-2 harmonics, any phase, charge sign, voltage), 1..n '
  'profiles, 1..m turns between profiles, every start profile counted from '
  'either end, any particle coordinates, scalar/array phi12',
  'The CPU tracker tests are shadowed by a second class of the same name and '
  'never run; the routine tests hold a few hard-coded cases of one geometry.',
  ['tracking/tracking.py', 'tracking/__tracking.py',
   'cpp_routines/kick_and_drift.cpp', 'cpp_routines/libtomo.cpp',
   'cpp_routines/tomolib_wrappers.py'],
  [('kick and drift loop', 'cpp_routines/kick_and_drift.cpp'),
   ('python tracking loop', 'tracking/tracking.py')],
  'property-based differential testing against an extended-precision turn-by-'
  'turn model', TRUST)

P('P02', 'A particle track depends only on that particle and the machine',
  'The track of a particle does not change with the other particles tracked '
  'along with it, their order, the number of threads, earlier runs on the '
  'same tracker, or an earlier run that was aborted by its callback. '
  'Restarting from the coordinates recorded at any profile reproduces the '
  'recorded tracks at all profiles, so backward tracking inverts forward '
  'tracking. Arrays passed in by the caller are not altered, and the '
  'tracker keeps the initial distribution it started from (coordinates of '
  'its particles) through the run.',
  'inputs histories schedules',
  'all subsets/permutations of particles, thread counts, pairs of start '
  'profiles, sequences of runs and aborted runs on one tracker',
  'Tests run one tracking once per object at one thread count.',
  ['tracking/tracking.py', 'tracking/__tracking.py',
   'cpp_routines/kick_and_drift.cpp'],
  [('per-particle loops', 'cpp_routines/kick_and_drift.cpp'),
   ('copying of start coordinates', 'tracking/tracking.py')],
  'metamorphic and stateful property-based testing', TRUST)

P('P03', 'Self-field tracking adds the bin voltage of the particle\'s phase',
  'With self-fields enabled every particle is kicked each turn by the '
  'self-field voltage of the profile interval and phase bin it is in, on top '
  'of the RF kick, for any wrap length and start profile; with a vanishing '
  'self-field voltage the result equals tracking without self-fields. '
  'Enabling self-fields without the needed self-field data is refused with '
  'an error.',
  'inputs configurations',
  'all machines, self-field voltage tables, wrap phases, start profiles and '
  'particles that do not sit on a bin edge',
  'The only self-field test is in the shadowed tracker class.',
  ['tracking/tracking.py', 'cpp_routines/tomolib_wrappers.py',
   'data/profiles.py'],
  [('self-field kick', 'tracking/tracking.py')],
  'property-based differential testing against a turn-by-turn model',
  TRUST + ' Backward self-field tracking is the known finding KF-SELF; its '
  'exact present behaviour is modelled there.',
  )

P('P04', 'The machine programme obeys its defining relations at every turn',
  'For any machine parameters and reference frames, each turn of the computed '
  'programme satisfies the defining relations: turn times accumulate the '
  'revolution periods, momentum follows the bending field ramp, energy, beta, '
  'slip factor, drift coefficient, revolution frequency and time bin agree '
  'with relativistic kinematics, the voltages follow the linear programme, '
  'and the synchronous phase makes the RF voltage supply the energy gain on '
  'the stable side. Recomputing after changing parameters gives what a fresh '
  'machine gives, and profile turns and energy-bin bookkeeping do not depend '
  'on history. An optional parameter has the value given, or else the '
  'documented default.',
  'inputs configurations histories',
  'all physical parameter combinations (charge sign, ramp sign, below/above '
  'transition, 1-2 harmonics, reference turn anywhere), sequences of '
  'parameter changes and recomputations',
  'Tests compare a handful of stored arrays for one machine.',
  ['tracking/machine.py', 'tracking/machine_base.py', 'utils/physics.py'],
  [('values_at_turns', 'tracking/machine.py'),
   ('physics formulas', 'utils/physics.py')],
  'property-based testing of algebraic relations, recomputation histories',
  TRUST + ' The energy-gain indexing with a reference turn > 0 is known '
  'finding KF-DELTAE.')

P('P05', 'A programmed machine follows the given programmes turn by turn',
  'A machine built from momentum, voltage and phase programmes (functions of '
  'time, tables or constants) has, at every turn, the values of these '
  'programmes interpolated at that turn\'s time, and the kinematic quantities '
  'that follow from them. Programmes that do not cover all turns needed are '
  'refused with an error instead of being extrapolated, and so are more than two '
  'harmonics. Tracking in such a machine follows its equations of motion.',
  'inputs configurations',
  'all piecewise-linear programmes in each accepted shape, harmonics, charge '
  'signs, turn counts, reference turns, programme end times around the last '
  'turn needed',
  'Tests use constant programmes over one number of turns.',
  ['tracking/programs_machine.py', 'utils/physics.py'],
  [('turn-by-turn interpolation', 'tracking/programs_machine.py')],
  'property-based testing against an independent interpolation model',
  TRUST + ' The energy-gain array is known finding KF-PM-DELTAE.')

P('P06', 'The reconstruction area and its particles cover what they should',
  'For any machine the reconstruction area lies inside the image, is the full '
  'image or the trajectory-limited area in the film, and its energy limits '
  'are those of the bucket at the reference frame. The homogeneous '
  'distribution fills exactly this area: every sub-cell centre once, none '
  'outside. Conversion of coordinates between bins and physical units and '
  'back is the identity to rounding and keeps the documented origin.',
  'inputs configurations',
  'all machines, film numbers, profile geometry, area flags, limits, points '
  'per cell, coordinates',
  'Tests hold single stored results for one machine.',
  ['tracking/phase_space_info.py', 'tracking/particles.py'],
  [('find_binned_phase_energy_limits', 'tracking/phase_space_info.py'),
   ('homogeneous_distribution', 'tracking/particles.py'),
   ('physical_to_coords/coords_to_physical', 'tracking/particles.py')],
  'property-based testing against an independent cell enumeration',
  TRUST)

P('P07', 'Exactly the particles that leave the image are removed',
  'Filtering lost particles keeps, unchanged and in order, exactly the '
  'particles whose horizontal coordinate stays inside the image at every '
  'profile, drops both coordinates of every other particle, and reports how '
  'many were dropped; if none is left an error is raised.',
  'inputs',
  'all coordinate sets: on edges, outside at any one profile, non-finite, all '
  'or none lost, any counts and memory layout',
  'Tests use one fixed array with one lost particle.',
  ['tracking/particles.py'],
  [('filter_lost_paricles', 'tracking/particles.py')],
  'property-based testing against an explicit per-particle filter', TRUST)

P('P08', 'Reconstruction is the documented weight iteration',
  'For any particle tracks and waterfall the weights, reconstructed profiles '
  'and discrepancy history are those of the documented iteration: '
  'back-project the normalised profiles, project, normalise and clip, back-'
  'project the difference scaled by the reciprocal particle density, for the '
  'requested number of iterations. All entry points (native, class, hybrid, '
  'compatibility wrappers, single steps) agree with it, in double and to '
  'working accuracy in single precision, and the callback does not change '
  'it.',
  'inputs configurations',
  'all track matrices, waterfalls incl. negative and empty bins, iteration '
  'counts, sizes, entry points',
  'Tests hold a few stored results of small problems with uniform tracks.',
  ['tomography/tomography.py', 'tomography/__tomography.py',
   'cpp_routines/reconstruct.cpp', 'cpp_routines/libtomo.cpp',
   'cpp_routines/tomolib_wrappers.py'],
  [('reconstruct', 'cpp_routines/reconstruct.cpp'),
   ('run / run_hybrid', 'tomography/tomography.py')],
  'property-based differential testing against an extended-precision model',
  TRUST)

P('P09', 'Reconstruction is independent of incidental choices and stays valid',
  'The result does not depend on particle order, thread count, memory layout, '
  'verbosity, the scale of the profiles, or earlier (also refused or aborted) '
  'operations on the same object; profile order and mirroring only permute '
  'it. Weights and reconstructed profiles are finite and non-negative, the '
  'discrepancy is non-negative with one value per iteration plus the initial '
  'one, and invalid tracks or waterfalls are refused without changing the '
  'object.',
  'inputs histories schedules',
  'all problems, permutations, thread counts 1..16, histories of runs, track '
  'changes, refused changes and aborted runs',
  'Tests run each object once, with default threads.',
  ['tomography/tomography.py', 'tomography/__tomography.py',
   'cpp_routines/reconstruct.cpp'],
  [('OpenMP loops', 'cpp_routines/reconstruct.cpp'),
   ('setters', 'tomography/__tomography.py')],
  'metamorphic and stateful property-based testing', TRUST)

P('P10', 'Multi-bunch reconstruction reconstructs each bunch in its own cut',
  'The multi-bunch reconstruction follows the documented iteration with every '
  'bunch projected into its own window of the waterfall, gives one weight '
  'array per bunch and one discrepancy per bunch and iteration, and with a '
  'single bunch over the whole image agrees with the single-bunch '
  'reconstruction. Bunches are treated alike: exchanging them exchanges their '
  'results.',
  'inputs configurations',
  'all bunch counts, window positions, tracks, waterfalls, iteration counts',
  'There is one test problem with one bunch layout.',
  ['tomography/tomography_multibunch.py', 'cpp_routines/reconstruct.cpp'],
  [('reconstruct_multi', 'cpp_routines/reconstruct.cpp'),
   ('run / run_hybrid', 'tomography/tomography_multibunch.py')],
  'property-based differential testing against an extended-precision model',
  TRUST)

P('P11', 'The phase space image is the weighted histogram of the particles',
  'The phase space image at a profile is the two-dimensional histogram of '
  'the particle weights at that profile, for every image size, profile '
  '(counted from either end), integer type and memory layout; its time and '
  'energy axes are counted from the synchronous particle in bin widths, and '
  'the normalised image has its negative cells removed and unit sum. A '
  'particle outside the image is refused by the histogram and left out of '
  'the normalised image, never counted in another cell. '
  'Sampling a density into macro-particles gives the requested number, '
  'spread evenly inside cells above the threshold in proportion to their '
  'density. Arrays given are not altered.',
  'inputs configurations',
  'all tracks, weights, image sizes, profiles, densities and macro-particle '
  'counts',
  'Tests build one image of one stored reconstruction.',
  ['data/data_treatment.py', 'utils/tomo_output.py',
   'cpp_routines/data_treatment.cpp', 'cpp_routines/libtomo.cpp'],
  [('phase_space', 'data/data_treatment.py'),
   ('native histogram', 'cpp_routines/libtomo.cpp'),
   ('create_phase_space_image', 'utils/tomo_output.py')],
  'property-based differential testing against an explicit histogram', TRUST)

P('P12', 'An input file gives the machine, frames and data it describes',
  'A parameter file in the documented format, with its data in the file, in '
  'another file or on standard input, gives a machine and frame description '
  'holding exactly the written values (indices converted to counting from '
  'zero, bins and times adjusted for rebinning), and the waterfall obtained '
  'from its data is baseline-free, cut to the wanted frames and bins and '
  'rebinned as described. Incomplete files, invalid parameters and data of '
  'the wrong length are refused with the documented errors.',
  'inputs configurations',
  'all valid parameter combinations, number formats, line ends, frame '
  'geometries, rebin factors, and all single faults in them',
  'Tests read the example files only.',
  ['utils/tomo_input.py', 'assertions.py', 'shortcuts.py',
   'data/data_treatment.py'],
  [('txt_input_to_machine', 'utils/tomo_input.py'),
   ('raw_data_to_profiles', 'utils/tomo_input.py'),
   ('Frames.to_waterfall', 'utils/tomo_input.py')],
  'generated input files, round trip against the written values, fault '
  'injection', TRUST)

P('P13', 'Waterfall preparation keeps the signal it should keep',
  'Rebinning sums neighbouring bins without losing signal inside the '
  'remaining bins and moves the synchronous particle and bin width with it; '
  'cutting returns the chosen bins unchanged and refuses impossible limits; '
  'the automatic cut keeps every bin above its threshold plus the margin; '
  'filtering of weak profiles keeps the others (normalised to the total) '
  'with the matching columns of the tracks and shifts the reconstructed '
  'profile along; the baseline is the mean of the leading fraction of the '
  'reference profile. All of it holds for digitiser counts (integer arrays) '
  'as for volts. The caller\'s arrays stay unchanged.',
  'inputs',
  'all waterfalls, rebin factors, cut limits, margins, thresholds, fractions',
  'Tests use one stored waterfall and factor.',
  ['data/pre_process.py', 'data/data_treatment.py', 'compat/fortran.py'],
  [('rebin', 'data/data_treatment.py'),
   ('cut/get_cuts/filter_profiles', 'data/pre_process.py')],
  'property-based testing against explicit models and conservation laws',
  TRUST)

P('P14', 'Profiles carry the right charge, self-fields and synchronous phase',
  'Profiles take over a waterfall with negative values set to zero, compute '
  'the beam charge from the reference profile and pick-up sensitivity, and '
  'from it the normalised profiles, their phase derivative and the '
  'self-field voltages with the machine values of each profile. The fitted '
  'synchronous particle position is the one at which the bunch duration '
  'agrees with the RF bucket at the reference frame, for any ramp. Steps '
  'done out of order are refused.',
  'inputs configurations',
  'all machines (charge sign, ramps, harmonics, reference frames), profiles, '
  'filters, coupling and impedance',
  'Tests hold one machine without voltage ramps.',
  ['data/profiles.py', 'data/data_treatment.py', 'data/pre_process.py'],
  [('Profiles', 'data/profiles.py'),
   ('fit_synch_part_x', 'data/pre_process.py')],
  'property-based testing against independent formulas', TRUST)

P('P15', 'Files, texts and plots for the operator hold the data given',
  'Every writer (profiles, self-field voltages, images, discrepancies, in the '
  'fortran and tomoscope variants) writes one file with the documented name '
  '(numbered from one), one line per value in order, with the value to eight '
  'significant digits, replacing any older file. The plot information text '
  'holds the values of the machine and particles it was given, and is refused '
  'when energy binning or phase limits are missing. Tracking with fortran '
  'output prints plot information and one line per tracked profile and gives '
  'the same particles as quiet tracking, which prints nothing; a '
  'verbose reconstruction announces every iteration, a quiet one prints '
  'nothing. Plotting shows '
  'the arrays given and leaves them unchanged.',
  'inputs configurations',
  'all array shapes, magnitudes, signs, precisions, memory layouts, profile '
  'numbers up to four digits, machines, start profiles and fit results',
  'Tests do not read back any written file.',
  ['compat/fortran.py', 'compat/tomoscope.py', 'utils/tomo_output.py',
   'tracking/tracking.py'],
  [('writers', 'utils/tomo_output.py'),
   ('fortran writers', 'compat/fortran.py'),
   ('tomoscope writers', 'compat/tomoscope.py')],
  'round-trip property-based testing of the written files and texts', TRUST)

P('P16', 'Emittance and momentum spread figures describe the image',
  'For any phase space image and axes the rms emittance is pi times the '
  'product of the time and energy spreads of its projections, dp/p is the '
  'relativistic momentum spread for that energy spread, and the fractional '
  'emittance is the area of the smallest set of cells holding the fraction. '
  'They do not depend on the scale of the image or the placement of cells '
  '(fraction), scale with the axes, grow with the fraction, are the same when '
  'called one by one or through post_process, and axes that do not match the '
  'image or fractions outside 0..100 are refused. Axes may be flat, rows or '
  'columns, of any number type. The image is unchanged.',
  'inputs',
  'all non-negative images, scales, axes (shape and number type), fractions '
  'and beam energies',
  'Tests hold one stored image.',
  ['data/post_process.py'],
  [('emittance_rms / emittance_fractional / rms_dpp',
    'data/post_process.py')],
  'property-based testing against independent formulas and metamorphic '
  'relations',
  TRUST + ' KF-RMS (mean not summed) and KF-FRACTION (one cell short) are '
  'asserted by the repository tests; their present values are modelled.')

P('P17', 'Invalid parameters are refused with the documented error only',
  'Every assertion helper passes exactly the values, arrays, shapes and '
  'indices that meet its condition and raises the given error, naming the '
  'variable and the offending indices, for all others. A frame description or '
  'machine with one parameter outside its documented range is refused with '
  'its error type; with all parameters inside, also on the limits, it is '
  'accepted. Start profiles and recorded frames that do not exist are '
  'refused, negative ones count from the end. Particle coordinates that are '
  'not two lists of the same length, machines that lack the fields needed '
  'and reconstructions without tracks are refused and change nothing.',
  'inputs configurations',
  'all scalars and arrays, comparison limits, shapes, one field at a time '
  'moved outside or onto its limit, all start profiles, coordinates of any '
  'shape, every field of the machine missing in turn',
  'Tests give each assertion one good and one bad value.',
  ['assertions.py', 'tracking/machine.py', 'tracking/machine_base.py',
   'tracking/__tracking.py', 'tracking/particles.py',
   'utils/tomo_input.py'],
  [('assertion helpers', 'assertions.py'),
   ('assert_machine_input / assert_frame_inputs', 'assertions.py')],
  'property-based testing against explicit predicates, single-fault '
  'injection', TRUST)

P('P18', 'A measurement gives the same image however the run is started',
  'The image reconstructed from an input file is the one obtained by doing '
  'the documented steps one after another (read, cut, rebin, track, filter '
  'lost particles, reconstruct, histogram), whether through tomo_run.run on '
  'a file or standard input, the shortcuts, or the command line; in tomoscope '
  'mode the image, profile and discrepancy files and progress lines written '
  'hold this same result, in the wanted directory only. Input files that '
  'describe the same measurement in another way (other number format, scaled '
  'signal, offset baseline, other skipped frames or bins) give the same '
  'image.',
  'inputs configurations',
  'all complete input files with measured bunches, reconstructed profiles, '
  'output directories, equivalent descriptions',
  'Tests run the example file through one way.',
  ['__main__.py', 'shortcuts.py', 'utils/tomo_run.py',
   'utils/tomo_input.py', 'compat/tomoscope.py'],
  [('run', 'utils/tomo_run.py'), ('shortcuts', 'shortcuts.py'),
   ('command line', '__main__.py')],
  'differential and metamorphic testing of generated input files, in process '
  'and as a command', TRUST)

P('P19', 'A reconstruction recovers the distribution behind the profiles',
  'When the profiles are the projections of a bunch that moves by the '
  'machine\'s equations of motion and fits the reconstruction area, and they '
  'span at least half a synchrotron period, the image reconstructed at any '
  'profile has the shape, position and projection of the bunch at that '
  'profile, and the discrepancy falls during the iteration.',
  'inputs configurations',
  'bunches of several shapes (blob, two blobs, displaced, ring), buckets '
  'below/above transition, ramped, double harmonic, charge sign, any '
  'reconstructed profile',
  'Tests compare intermediate arrays with stored ones; none knows the true '
  'distribution.',
  ['shortcuts.py', 'tracking/tracking.py', 'tracking/particles.py',
   'tomography/tomography.py', 'data/data_treatment.py'],
  [('track', 'shortcuts.py'), ('tomogram', 'shortcuts.py'),
   ('phase_space', 'data/data_treatment.py')],
  'end-to-end property-based testing with synthetic bunches of known '
  'distribution',
  TRUST + ' The limits on the distance have about 1.5 times the largest '
  'value seen in a calibration over thousands of cases.')

P('P20', 'Switching precision or device settings changes rounding only',
  'After any sequence of switches between single and double precision, '
  'returns to the CPU and failed requests for a GPU, everything computed in '
  'double precision equals what it was before any switch, and everything '
  'computed in single precision is of single-precision type and equals it to '
  'single-precision accuracy; machine data are always in double precision, '
  'and objects made in one precision stay usable in the other. The '
  'precision in force is the one last asked for.',
  'inputs histories',
  'all sequences of switches, trackings, reconstructions, images and machine '
  'computations on old and new objects',
  'Tests run in one precision; none switches back and forth.',
  ['__init__.py', 'utils/tomo_config.py', 'tracking/tracking.py',
   'tracking/particles.py', 'tomography/__tomography.py'],
  [('AppConfig', 'utils/tomo_config.py'), ('cast', 'utils/tomo_config.py')],
  'stateful property-based testing against results of an unswitched run',
  TRUST)

P('P21', 'Compiled code stays inside the arrays it is given',
  'No tracking, reconstruction (single and multi-bunch), histogram or helper '
  'call of the compiled library with consistent arguments reads or writes '
  'outside the arrays given to it or has undefined behaviour, for any sizes '
  '(single profiles, particles and bins included), precision, entry point, '
  'callback error or refused input.',
  'inputs histories',
  'all cases of the tracking, reconstruction, multi-bunch and image checks',
  'An access outside an array goes unnoticed by tests, and depends on sizes '
  'the tests do not use.',
  ['cpp_routines/kick_and_drift.cpp', 'cpp_routines/reconstruct.cpp',
   'cpp_routines/libtomo.cpp', 'cpp_routines/data_treatment.cpp'],
  [('loops and buffers', 'cpp_routines/reconstruct.cpp'),
   ('bindings', 'cpp_routines/libtomo.cpp')],
  'generated calls with the extension compiled with address and undefined-'
  'behaviour sanitizers',
  TRUST + ' The sanitizers see accesses beyond numpy buffers and C++ '
  'allocations, not those that stay inside another part of the same array.')

P('P22', 'RF voltage, its slope and its potential agree with each other',
  'For any RF programme, turn and phase, the voltage functions give the sum '
  'of both harmonics at that turn minus the voltage needed for the field '
  'ramp, the derivative functions are the derivatives of the voltage '
  'functions, the potential used for the bunch duration is the integral of '
  'the voltage over the bunch relative to the synchronous voltage, and its '
  'derivative function is its derivative; the forms taking a machine, a '
  'programmed machine or plain values agree. The phase range and synchronous '
  'phase found for any turn lie in the stable half and give the needed '
  'voltage.',
  'inputs configurations',
  'all voltages, ramps, harmonic ratios, phases and phase differences '
  '(constant or per turn), charges, turns',
  'Tests hold single values for one turn of one machine.',
  ['utils/physics.py'],
  [('voltage formulas', 'utils/physics.py'),
   ('potential', 'utils/physics.py')],
  'property-based testing of derivative, integral and form-equivalence '
  'relations', TRUST)

P('P23', 'The GPU code path computes what the CPU code path computes',
  'With the GPU selected, tracking, reconstruction and phase space images give '
  'the results of the CPU up to rounding in the chosen precision: tracks for '
  'any machine programme and start profile, weights, discrepancies and '
  'recreated profiles (as profiles by bins) for any waterfall, and images, '
  'with the same refusals. This holds after any sequence of switching device '
  'and precision, which never changes the results obtained on the CPU, and '
  'for the CuPy variants of the routines.',
  'inputs histories',
  'all tracking, reconstruction and image inputs of P01, P08 and P11, whole '
  'chains from a machine, histories of device and precision switches',
  'All GPU tests are skipped where there is no GPU, and even with one they '
  'hold single examples in a fixed precision.',
  ['python_routines/kick_and_drift_cuda.py',
   'python_routines/reconstruct_cuda.py', 'python_routines/data_treatment.py',
   'python_routines/kick_and_drift_cupy.py',
   'python_routines/reconstruct_cupy.py', 'cuda_kernels/kick_and_drift.cu',
   'cuda_kernels/reconstruct.cu', 'utils/tomo_config.py'],
  [('kernels', 'cuda_kernels/reconstruct.cu'),
   ('device switching', 'utils/tomo_config.py')],
  'property-based differential testing of the GPU code on an emulated device '
  '(kernels compiled for the host, stand-in for CuPy)',
  TRUST + ' No GPU: relies on vt/gpu, which runs the kernels on the host, '
  'threads of a block in random order, and passes arguments as CuPy does. '
  'Races between blocks and limits of real devices are not seen.')

P('P24', 'Tomographics figures describe the image and bucket they are given',
  'For any profile the tangent feet of utils.tomographics (with RF period) are '
  'the zeros of the lines through the six points around the outermost 15 % '
  'crossings, or the profile is refused; those of the plain fits lie half a '
  'bin outside the zeros of the lines through four points, so that a mirrored '
  'profile gives mirrored feet. For any square normalised image the '
  'rms figures are its moments, and the emittance of a density fraction is, '
  'to one cell, the area of the densest cells holding it. For a stationary '
  'bucket above transition the matched area is the area enclosed by the '
  'trajectory as long as the bunch; density against emittance gives for each '
  'contour its area, the density inside and on it; clipping to an emittance '
  'removes the particles outside that contour, scales all others alike and '
  'keeps the total weight. Inputs are left unchanged.',
  'inputs configurations',
  'all profiles, images and grids; machines above transition with one RF '
  'system and constant field and voltage; any frame, bunch length, fraction '
  'and emittance',
  'The module has no tests at all.',
  ['utils/tomographics.py'],
  [('contours', 'utils/tomographics.py'),
   ('image figures', 'utils/tomographics.py')],
  'property-based testing against independent moments, line fits and bucket '
  'contours', TRUST + ' The half bin of foot_tangent_fit is undocumented and '
  'taken as it is.')

NOT_APPLICABLE = []
NOTES = ('check.py PROP runs the sub-checks of props/<prop>.py; check.py '
         '--replay FILE re-runs a saved case. known_findings.json lists known '
         'and fixed defects. VERIF_SEED and VERIF_TIER are honoured.')
