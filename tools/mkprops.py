"""Writes properties.jsonl (source of truth for the property texts)."""
import json, os

CH, CO, MO, DA, CF, PL = ['chaosmagpy/%s.py' % n for n in (
    'chaos', 'coordinate_utils', 'model_utils', 'data_utils', 'config_utils', 'plot_utils')]


def P(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    return dict(id=id, title=title, statement=statement,
                quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files,
                             state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                             mechanism=[dict(name=a, where=b) for a, b in mech],
                             observe_at=list(observe), hook_needed=hook))


props = [
P('C01', 'Concurrent evaluations do not disturb each other',
  'When several threads evaluate field models, transform coordinates, convert times or load and save '
  'different files at the same time, sharing models and input arrays, every call returns the same values, '
  'shapes and kind of error as when it runs alone. No call changes a shared model, an input array or the '
  'configuration as seen by another thread, at any moment.',
  ['schedules', 'inputs'],
  'every interleaving of 2-4 caller threads at source-line (or bytecode) granularity, over all public evaluation, '
  'transformation, conversion, loading and saving calls and their options',
  'Every existing test is single-threaded and runs one call at a time; no test can choose an interleaving.',
  [CH, CO, MO, DA],
  [('evaluations keep their state in locals and build a private PPoly per call', 'chaos.Base.synth_coeffs'),
   ('values computed into fresh arrays', 'model_utils.synth_values, coordinate_utils.*'),
   ('model parts are only read after construction', 'chaos.CHAOS')],
  [('BaseModel.coeffs/breaks, CHAOS.coeffs_sm/coeffs_gsm/coeffs_delta', 'shared model contents', CH),
   ('basicConfig', 'process-wide configuration read by evaluations', CF)],
  ['return values and exceptions of public calls', 'model attributes', 'basicConfig items']),

P('C02', 'Results do not depend on call history; calls have no side effects',
  'The result of a call, what it prints and what it warns of depend only on its arguments, the present contents '
  'of the model, the configuration in force and the present contents of the configured data files: earlier calls, including ones that failed or '
  'were interrupted at any point, and in-place changes a caller makes to arrays it got back, never change them. '
  'A call leaves its input arrays, the model, the configuration and process-wide settings (numpy error '
  'handling, warning filters, random state, working directory, plotting defaults) as they were.',
  ['histories', 'fault_sequences', 'configurations'],
  'every sequence of public calls, model edits, configuration changes, data-file replacements and injected '
  'interrupts/allocation failures, followed by any call',
  'Tests evaluate from a fresh model with fixed arguments; none replays a call after a different history, '
  'after an interrupted call or after a file or parameter changed underneath.',
  [CH, CO, MO, DA, PL],
  [('no caches: spectra and RC index are re-read, polynomials rebuilt at every call', 'chaos.CHAOS.synth_coeffs_gsm/sm, chaos.Base.synth_coeffs'),
   ('inputs copied before modification', 'model_utils, coordinate_utils')],
  [('model attributes', 'coefficients and breaks', CH), ('basicConfig', 'parameters and file paths', CF)],
  ['return values and exceptions of public calls', 'argument arrays, models, configuration after the call']),

P('C03', 'A temporary configuration override is always undone',
  'A parameter changed through the temporary-override context manager has again exactly the value it had on '
  'entry once the block ends, however it ends: normally, by any exception or interrupt, by closing or '
  'cancelling a generator or task, and even if the earlier value would no longer pass validation. A '
  'refused override leaves every parameter unchanged and the block does not run; leaving a block changes no other parameter, and the exception that ended it goes on unchanged.',
  ['histories', 'schedules', 'fault_sequences'],
  'every nesting of overrides and every way and point at which a block can be left, including interleaved tasks',
  'No test covers the context manager at all, let alone its exceptional exits.',
  [CF],
  [('contextmanager saving and restoring the old value', 'config_utils.BasicConfig.context')],
  [('basicConfig items', 'parameters in force', CF)], ['basicConfig items']),

P('C04', 'Configuration store stays valid, atomic and resettable',
  'After any sequence of item assignments, resets, full resets, overrides and file loads, each of which may '
  'fail or be interrupted, every parameter holds a value that its documented rule accepts and an operation that '
  'fails leaves all parameters as they were. Stored values are independent of the objects they were assigned '
  'from, and reset and full reset always restore the documented defaults even after in-place edits of '
  'values read from the configuration.',
  ['histories', 'inputs', 'fault_sequences'],
  'every sequence of configuration operations with valid and invalid keys and values, files vanishing in between, and interrupts',
  'The tests never assign an invalid value, never load a configuration file and never reset after use.',
  [CF],
  [('validation in item assignment', 'config_utils.BasicConfig.__setitem__'),
   ('reset/fullreset/load', 'config_utils.BasicConfig')],
  [('basicConfig items and defaults', 'parameters in force and their defaults', CF)],
  ['basicConfig items', 'exceptions raised by configuration operations']),

P('C05', 'Configuration files: saved means complete, torn means rejected',
  'When saving the configuration returns or announces success, the file is complete even if the process dies at '
  'that moment, and loading it in a fresh process (while the files it names still exist) restores every parameter exactly; if a write fails, saving '
  'raises and announces nothing. Loading a configuration file that is empty, truncated anywhere or '
  'unreadable raises and leaves the live configuration unchanged.',
  ['crash_points', 'fault_sequences', 'configurations'],
  'every configuration content, every write fault (error, full disk, short or interrupted write, failing close), '
  'every crash point and every truncation length',
  'No test saves or loads a configuration file, and none injects an I/O fault.',
  [CF],
  [('json.dump inside a with block', 'config_utils.BasicConfig.save'), ('json.load before assigning', 'config_utils.BasicConfig.load')],
  [('configuration text file', 'JSON object with all parameters', 'disk')],
  ['return/exception/stdout of save and load', 'file contents after process death']),

P('C06', 'SHC save: announced means complete and reloadable',
  'When saving a model or a coefficient table as SHC-file returns or announces success, the file is complete even '
  'if the process dies at that moment, and loading it gives back the same degree range, order, times and '
  'coefficients to the printed precision, so that the reloaded model evaluates to the same coefficients throughout its '
  'period. Short or interrupted writes do not matter, a failed open, write or close makes the save raise '
  'without announcing success, and no other file is touched.',
  ['crash_points', 'fault_sequences', 'inputs'],
  'models of every order, degree range and break layout, with every write fault and crash point during or right after the save',
  'One test round-trips one model on a healthy disk.',
  [CH, DA],
  [('text written inside a with block before the message is printed', 'data_utils.save_shcfile'),
   ('sampling of the polynomial for export and its reconstruction', 'chaos.BaseModel.to_shc / from_shc')],
  [('SHC file', 'text table', 'disk')],
  ['return/exception/stdout of to_shc, save_shcfile', 'file contents after process death', 'models loaded from it']),

P('C07', 'MAT save: announced means complete and reloadable',
  'When saving a CHAOS model or a piecewise polynomial as MAT-file returns or announces success, the file is complete '
  'even if the process dies at that moment, and loading it gives a model with the same internal, external, Euler-angle, '
  'calibration and pre-rotation parameters, whatever the file at that path contained before. If the disk '
  'reports an error the save raises without announcing success, and no other file is touched.',
  ['crash_points', 'fault_sequences', 'inputs', 'histories'],
  'models with any subset of parts, any earlier file at the destination, every write fault and crash point',
  'The MAT save test needs data that is not shipped, saves to a fresh path on a healthy disk and never with every part present.',
  [CH, DA],
  [('one HDF5 write per part, message printed last', 'chaos.CHAOS.save_matfile, chaos.Base.save_matfile'),
   ('structure traversal on load', 'data_utils.load_matfile, chaos.load_CHAOS_matfile')],
  [('MAT file', 'HDF5 file with pp, model_ext, model_Euler, pp_CAL, g, params', 'disk')],
  ['return/exception/stdout of save_matfile', 'file contents after process death', 'models loaded from it']),

P('C08', 'Incomplete model files are never loaded as complete',
  'A model file that lost data, because its writer died part-way or its tail is missing, is never silently loaded '
  'as a complete model: for SHC, COV-OBS, gufm1 and CALS7K files lacking at least one whole number, IGRF files that do not end with the last row of a degree, and for '
  'MAT-files lacking any part of the data, the loader raises, or (MAT only) warns which part is missing and loads '
  'the parts that are present unchanged.',
  ['crash_points', 'fault_sequences', 'inputs'],
  'every truncation length of valid files of each format and every file state a writer killed at any I/O operation leaves behind',
  'The tests only load intact files.',
  [CH, DA],
  [('reshape of the number table to the declared dimensions', 'data_utils.load_shcfile, chaos.load_*_txtfile'),
   ('per-part KeyError handling with warnings', 'chaos.load_CHAOS_matfile')],
  [('model files', 'SHC/TXT/MAT', 'disk')],
  ['return value, warnings and exception of the loaders']),

P('C09', 'RC-index refresh: failed refresh leaves the old file; success is real',
  'If fetching or parsing the new RC-index fails for any reason (name lookup, refused, reset or truncated connection, HTTP '
  'error, unexpected listing, malformed or missing data file), refreshing the RC-index file leaves an existing file '
  'byte for byte as it was, does not raise and issues a warning. Success is announced only once the new file is '
  'complete, even if the process dies at that moment, and then it holds exactly the rows of the source; if '
  'writing fails a warning is issued, success is not announced and an existing file stays as it was.',
  ['fault_sequences', 'crash_points', 'inputs'],
  'every network and disk fault at every point of a refresh, local and remote sources, any previous destination content',
  'No test performs a refresh (it needs the network), and none injects a fault.',
  [DA],
  [('download and parse first, open the destination afterwards, catch and warn', 'data_utils.save_RC_h5file'),
   ('listing page and data file fetch', 'data_utils.load_RC_datfile')],
  [('RC-index HDF5 file', 'hourly index used by SM field evaluation', 'disk')],
  ['destination bytes', 'warnings and stdout', 'RC values read back']),

P('C10', 'Data-file faults never become wrong field values',
  'If a data file an evaluation needs (RC index, rotation spectra, conductivity model) cannot be opened '
  'or read completely, the evaluation raises instead of returning values; short or interrupted reads do not change the '
  'result, and once the fault is gone the same evaluation gives the fault-free result. RC values taken from the '
  'HDF5 or the text form of the index are equivalent, times outside its period are refused, and an '
  'evaluation given the RC values directly does not depend on the RC file at all.',
  ['fault_sequences', 'inputs', 'histories'],
  'every external-field and induction evaluation, both RC formats, every read fault at every I/O operation, then recovery',
  'The tests read intact built-in files only, and no test fails a read.',
  [CH, CO, DA],
  [('files opened and read at each evaluation', 'chaos.CHAOS.synth_coeffs_gsm/sm, coordinate_utils.q_response'),
   ('HDF5 first, text second; bounds check', 'chaos.CHAOS.synth_coeffs_sm')],
  [('data files', 'RC index, spectra npz, conductivity', 'disk')],
  ['values or exception of the evaluation']),

P('C11', 'Every file and connection a call opens is closed when it ends',
  'Whenever a call that reads or writes files or fetches the RC-index returns or raises, every file and network connection '
  'it opened is closed, even if opening, reading, writing or the transfer failed part-way and the caller keeps the exception. '
  'Repeating failing calls therefore never exhausts file descriptors or locks files.',
  ['fault_sequences', 'histories'],
  'every file- or network-touching call, success or failure, with faults at every I/O operation',
  'No test looks at descriptors or injects I/O faults.',
  [CH, CO, DA, CF],
  [('with blocks around files', 'all modules'), ('third-party readers closing their own files', 'data_utils')],
  [('process descriptor table', 'open files and sockets', 'OS')], ['open descriptors after the call']),

P('C12', 'A call sees one value of each configuration parameter',
  'When another thread changes the configuration while a single-source field evaluation, power spectrum, '
  'coordinate transformation or rotation-spectrum computation is running, the call gives the outcome it would have given with one '
  'single value of each parameter among the values in force during the call; old and new values of the same '
  'parameter are never mixed.',
  ['schedules', 'configurations'],
  'every interleaving of configuration changes with one of these calls, for all parameters they use',
  'Tests are single-threaded and change the configuration only between calls.',
  [CH, CO, MO, CF],
  [('each parameter is read from the configuration once per call', 'chaos, coordinate_utils, model_utils')],
  [('basicConfig', 'parameters', CF)], ['values or exception of the call']),

P('C13', 'Results do not depend on the clock or time zone',
  'Results of evaluations, conversions, loads and saves do not depend on the system clock, on jumps of it or on the local '
  'time zone; the only clock-dependent data are creation stamps, and those of SHC-files and models give the moment of '
  'creation in UTC.',
  ['schedules', 'configurations'],
  'every clock value, forward and backward jump during a call, and time zone setting, over all public calls',
  'Tests run at the real time in one time zone.',
  [CH, DA, CO, CF],
  [('UTC-aware stamps', 'chaos.CHAOS.__init__, data_utils.save_shcfile'), ('naive day arithmetic on datetime64', 'data_utils.mjd2000')],
  [('system clock, TZ', 'environment', 'OS')], ['return values, saved SHC text, CHAOS.timestamp']),

P('C14', 'Saved rotation spectra are complete and equal the returned ones',
  'When computing coordinate-rotation spectra with saving enabled returns, the saved file is complete even if the process '
  'dies at that moment, and it holds exactly the returned arrays together with the dipole and settings used, so that '
  'an evaluation configured with that file uses them and one with another dipole is refused. If '
  'the disk reports an error the call raises; no other file is touched.',
  ['crash_points', 'fault_sequences', 'configurations'],
  'spectra of every size, reference and dipole, with every write fault and crash point',
  'The spectrum computation is only tested against shipped files, never saved.',
  [CO, CH],
  [('np.savez after computing', 'coordinate_utils.rotate_gauss_fft'), ('dipole compatibility check', 'chaos.CHAOS.synth_coeffs_gsm/sm')],
  [('spectrum npz file', 'Fourier coefficients of the rotation matrices', 'disk')],
  ['return value/exception', 'file contents after process death']),

P('C15', 'Loading is all-or-nothing under read faults and never alters files',
  'Loading a model, RC-index or MAT file while the disk returns short or interrupted reads gives exactly the result of '
  'an undisturbed load; if the disk reports an error while opening or reading, the loader raises and returns nothing partial. '
  'Loading never modifies, creates or deletes any file, and a failed load does not affect later ones.',
  ['fault_sequences', 'inputs', 'histories'],
  'every loader and file format, every read fault at every I/O operation',
  'Tests load intact files from a healthy disk.',
  [CH, DA, CF],
  [('buffered text reading, HDF5/NumPy readers', 'chaos.load_*, data_utils.load_*')],
  [('model and data files', 'inputs', 'disk')], ['return value/exception of loaders', 'journal of file operations']),

P('C16', 'The RC-index file is replaced in one step, also under readers',
  'At every moment of a refresh, and after the refreshing process dies, is interrupted or meets a disk error at any point, the RC-index '
  'file under its name is the complete previous index or the complete new one. External-field evaluations that other processes '
  'make meanwhile use one complete index each: they never fail or mix values because of the refresh, and the indices they see follow '
  'one order of the refreshes, also when two processes refresh the same file. A refresh reported as failed changes nothing, and only a '
  'refresh that was killed or interrupted may leave other files behind.',
  ['schedules', 'crash_points', 'fault_sequences', 'histories'],
  'every interleaving, at file operations, of refreshing and evaluating processes, with every disk fault, interrupt and death of a refresh',
  'Tests run one process and never look at the file while it is written.',
  [DA, CH],
  [('new index built aside and renamed over the old one', 'data_utils.save_RC_h5file'),
   ('index read afresh, through one opened file, by every evaluation', 'chaos.CHAOS.synth_coeffs_sm')],
  [('RC-index HDF5 file', 'hourly index used by SM field evaluation', 'disk')],
  ['contents under the name after every file operation', 'outcomes of evaluations in other processes', 'directory listing afterwards']),

P('C17', 'Data and model files are read in one piece and as they are now',
  'When a model, RC-index, spectrum, conductivity or configuration file is replaced (renamed over) by a file of the same format while it is being loaded or while an '
  'evaluation of one source uses it, the call gives exactly what it gives with the old or with the new file, never a mixture; a call that '
  'starts after the replacement uses the new file, even if its size and time stamps are those of the old one.',
  ['schedules', 'histories'],
  'every file operation of every loader and file-reading evaluation as the moment of a replacement, sequences of replacements of several files',
  'Tests never change a file while, or after, it is read.',
  [CH, DA, CO, CF],
  [('each file is opened once per call and nothing is kept', 'chaos.load_*, data_utils.load_*, chaos.CHAOS.synth_coeffs_gsm/sm, coordinate_utils.q_response')],
  [('data and model files', 'inputs, possibly maintained by other programs', 'disk')],
  ['return values and exceptions of loads and evaluations']),

P('C18', 'Copies of a model are equal to it and independent of it, also in other processes',
  'At any time - after any calls, failed or interrupted calls and edits, or while other threads evaluate the model - a model can be copied deeply, pickled and '
  'unpickled here or in another process. The copy has the same contents and evaluates and saves exactly as the original '
  'would; editing the one never changes what the other gives, and copying does not disturb evaluations that run meanwhile.',
  ['histories', 'schedules', 'inputs'],
  'all models, histories with interrupts, ways of copying and interleavings of the copying with evaluations',
  'Tests never copy or pickle a model.',
  [CH],
  [('models hold plain arrays, numbers and other models as instance attributes', 'chaos.BaseModel, chaos.CHAOS')],
  [('model attributes', 'coefficients, breaks, parts of the model', 'memory')],
  ['attributes and return values of the copy and of the original']),

P('C19', 'Results and files are the same in every environment',
  'For valid arguments, results, messages of calls and contents of saved files do not depend on hash randomisation, interpreter options (-O, -OO), the state of random '
  'generators, the contents of uninitialised memory, how arrays with the same numbers are laid out in memory (strides, order, byte order of arguments, read-only), locale, '
  'working directory and its name, umask, print options, order of directory listings, garbage collection, stack depth or the thread that makes the call. In every '
  'environment spectra of another dipole and invalid configuration values are refused.',
  ['inputs', 'histories'],
  'all call sequences and all combinations of these circumstances',
  'Tests run in one environment.',
  [CH, CF, MO, CO, DA],
  [('checks that guard data files and configuration values', 'chaos.CHAOS.synth_coeffs_gsm/sm, config_utils.check_*'),
   ('arrays are filled completely before they are used', 'model_utils, coordinate_utils')],
  [('environment of the process', 'hash seed, options, memory, directory', 'memory')],
  ['return values, exceptions and messages of calls, contents of saved files']),

P('C20', 'An interrupt ends the call; running out of memory or stack never gives a wrong result',
  'An interrupt (KeyboardInterrupt, SystemExit, cancellation) that arrives while a call of the package is running leaves the call as that exception: it is never discarded, '
  'turned into a warning or into a result. A call in which an allocation fails, the stack is exhausted or a warning is raised as an exception, at any point, raises or returns exactly the undisturbed result, never '
  'a partial or different one. The same call made again afterwards gives the undisturbed outcome.',
  ['crash_points', 'inputs'],
  'all calls, all places between two source lines or at file operations, every failing allocation and every depth of the stack',
  'Tests never interrupt a call nor let an allocation fail.',
  [CH, CF, MO, CO, DA],
  [('handlers of exceptions name what they handle', 'config_utils.check_*/load, data_utils.save_RC_h5file, model_utils, coordinate_utils'),
   ('results are built in local arrays and returned when complete', 'model_utils, coordinate_utils, chaos')],
  [('exceptions in flight', 'every frame of a call', 'memory')],
  ['exception or value of the call, outcome of the repeated call']),

P('C21', 'A process forked at any moment can use the package at once',
  'When a process that uses the package in several threads forks (as multiprocessing does), at any moment and whatever calls other threads are in, the child can use the package at once: '
  'its calls end and give the outcomes they have in a fresh process with the same models, configuration and files, and the calls that go on in the parent are not disturbed.',
  ['schedules', 'histories'],
  'all interleavings of calls and forks, all calls in the child, children of children',
  'Tests neither use threads nor fork.',
  [CH, CF, MO, CO, DA],
  [('no locks, worker threads or open handles outlive a call or are shared between calls', 'chaos, model_utils, coordinate_utils, data_utils, config_utils'),
   ('models and configuration are never changed, not even for a moment, by an evaluation', 'chaos, config_utils')],
  [('state inherited by the child', 'what a call in progress has changed, locked or opened', 'memory, locks, file descriptors')],
  ['outcomes of the calls in child and parent']),

# --- pure functions: not decidable by this family -------------------------------------------
P('P01', 'Field components are minus the gradient of the potential',
  'For all coefficients, degrees and positions the synthesised components equal minus the gradient of the spherical harmonic '
  'potential of the stated source, with grid and point evaluation, truncation and pole handling agreeing.',
  ['inputs'], 'all coefficients, positions, nmin/nmax/mmax, sources', 'Tests compare a handful of positions.',
  [MO], [('recursion over degree and order', 'model_utils.synth_values')]),
P('P02', 'Design matrices reproduce field synthesis',
  'Multiplying a design matrix by a coefficient vector gives the same field as synthesising it directly, for all options.',
  ['inputs'], 'all positions, degrees and spline bases', 'Tests use a few shapes.', [MO],
  [('design_gauss/design_matrix', MO)]),
P('P03', 'Coordinate transformations are rotations and invert each other',
  'Base vectors are orthonormal and right-handed and every transformation followed by its inverse is the identity up to rounding.',
  ['inputs'], 'all positions, times, dipoles and references', 'Tests sample few points.', [CO],
  [('basevectors_*, transform_points/vectors, gg_to_geo/geo_to_gg', CO)]),
P('P04', 'Time conversions invert each other and follow the calendar',
  'Decimal year, modified Julian date and timestamps convert back and forth consistently, including leap years and negative dates.',
  ['inputs'], 'all dates', 'Tests sample few dates.', [DA], [('mjd2000, timestamp, dyear_to_mjd, mjd_to_dyear', DA)]),
P('P05', 'Piecewise polynomials, derivatives and extrapolation are exact',
  'Coefficients, their derivatives and each extrapolation mode equal the mathematical piecewise polynomial for every time.',
  ['inputs'], 'all orders, breaks, times, derivatives and modes', 'Tests use one model.', [CH, MO],
  [('Base.synth_coeffs, pp_from_bspline', CH)]),
P('P06', 'Power spectra follow their definition',
  'Spectra, degree correlation and sensitivity equal their defining sums for every source, radius and axis.',
  ['inputs'], 'all coefficients, radii, sources', 'Tests use few cases.', [MO], [('power_spectrum', MO)]),
P('P07', 'Rotation matrices represent the rotation of harmonics',
  'Rotating coefficients and evaluating equals evaluating at rotated positions, for all degrees and base vectors.',
  ['inputs'], 'all rotations and degrees', 'Tests use few rotations.', [CO], [('rotate_gauss, synth_rotate_gauss, sh_analysis', CO)]),
P('P08', 'Sources superpose',
  'Evaluating a list of sources equals the sum of evaluating each source, and internal plus induced parts add up.',
  ['inputs'], 'all source lists and positions', 'Tests use few.', [CH], [('CHAOS.__call__', CH)]),
P('P09', 'Text model files are decoded as published',
  'COV-OBS, gufm1, CALS7K and IGRF files give the published splines at every epoch.',
  ['inputs'], 'all epochs of the published files', 'The files are not shipped.', [CH], [('load_*_txtfile', CH)]),
P('P10', 'Induction response follows the layered-Earth recursion',
  'The global response function equals the analytic solution for every conductivity profile, period and degree.',
  ['inputs'], 'all profiles and periods', 'One profile is tested.', [CO], [('q_response_1D', CO)]),
]
with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in props:
        f.write(json.dumps(p) + '\n')
