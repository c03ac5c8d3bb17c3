"""Source of /verif/properties.jsonl (run: python3 tools/props.py)."""
import json, pathlib

P = 'src/eprempy/project.py'
PA = 'src/eprempy/paths.py'
PM = 'src/eprempy/_project_main.py'
NOTEST = "No existing test imports the project module at all"
NODATA = ("The existing tests of observers need data files that are not in the "
          "repository, so at most one fixed file layout per run is ever read")

PROPS = []

def add(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    PROPS.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files),
                     mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     **({'state': [dict(name=n, meaning=m, where=w) for n, m, w in state]} if state else {}),
                     **({'observe_at': list(observe)} if observe else {}),
                     hook_needed=hook)))

# ------------------------------------------------------------- projects
add('P01', 'The run log survives crashes and failed writes',
    "If a project operation (creating, running, renaming, removing, resetting) or a direct edit of the run log "
    "(create, append, load, rename or remove an entry) is cut short by a crash of the process, a power loss or an I/O error "
    "at any point, the log file is afterwards still complete, readable JSON that a new process can load. "
    "Every entry the operation was not about is still there with its value unchanged, and an entry the operation was about has "
    "either its old or its new value under either its old or its new key, never a mixture and never neither "
    "(unless the operation was removing it). "
    "A log operation that returns normally is visible to every later reader, and one that is refused leaves the log as it was.",
    ['crash_points', 'fault_sequences', 'histories'],
    "every history of project and log operations, every crash point (kill or power loss, with buffered and unsynced data lost or torn) and every failing or short system call inside them",
    NOTEST + "; and no unit test can stop the process between two system calls or make the disk fill up in the middle of a write.",
    [P, PA],
    [('log rewrite', 'project.py RunLog.dump'), ('log edits', 'project.py RunLog.create/append/load/mv/rm')],
    [('runs.json', 'one JSON object: run path -> metadata', 'project root, RunLog.path')],
    ['RunLog mapping interface read through a fresh object', 'bytes of the log file'])

add('P02', 'A project always reopens with the attributes it was created with',
    "A project that was created successfully can be opened again from its path alone, in a new process, and then has the same "
    "branches, configuration-file name, input directory, output name, run directory and log name, located under the path it was opened from; "
    "opening never requires or accepts attributes that would overwrite them. This still holds after a crash, power loss or I/O error at any point of "
    "any later operation other than removal, including opening itself. A creation that is cut short leaves either something "
    "that is not (yet) a project, so that opening it fails, or a project with exactly the requested attributes.",
    ['crash_points', 'fault_sequences', 'configurations'],
    "every combination of project attributes, every later history of operations, every crash point and failing system call during creation, opening, renaming and use",
    NOTEST + ".",
    [P], [('metadata file', 'project.py Interface._create_project/_restore_project/_update_metadata'), ('generated script', 'project.py Interface._setup_cli')],
    [('.eprem.conf', 'the attributes of the project', 'project root')],
    ['Interface(path) in a fresh simulated process', '__main__.py text'])

add('P03', 'A run is logged exactly when its process succeeded',
    "When a run is requested, the log gains an entry for that run, holding the exact command line that was executed and the time it was started, "
    "if and only if the launched process ended with exit status 0; a process that fails, is killed by a signal or cannot be started leaves no "
    "entry and disturbs no other entry (a request cut short by a crash or I/O error after the process ended may lack the entry). In a multi-branch project this holds separately for each branch, also when some branches succeed and others fail.",
    ['fault_sequences', 'histories', 'configurations'],
    "every sequence of run requests over all branch layouts, with every assignment of exit statuses, signals, launch failures and I/O errors to the launched processes and every behaviour of the clock",
    NOTEST + "; none launches a process or can make one fail on cue.",
    [P], [('run creation', 'project.py Interface.run/_create_run')],
    [], ['RunLog entries compared with what the simulated process table saw'])

add('P04', 'Run management agrees with a simple model of directories and log',
    "For every history of run, mv, rm and reset on a project (any branches, subset of branches, wildcard, force or silent option), the run directories on disk, "
    "the listings of runs and branches (also those that `show` displays, from the library or the command line), and the keys of the log agree with a simple model: mv moves the directory, its contents and its log entry together, rm "
    "removes both, reset removes all runs and nothing else, and a run that has no log entry can be moved and removed like any other. An operation that cannot apply to a branch (missing source, existing target) never "
    "overwrites or removes anything there: it raises when errors are requested and otherwise reports the problem and continues with the remaining branches.",
    ['histories', 'configurations'],
    "every history of operations, branch layout, run name and option combination, every directory-listing order; and with reopening between operations",
    NOTEST + ", let alone a history of operations.",
    [P], [('path operations', 'project.py RunPaths and _PathOperation'), ('log maintenance', 'project.py Interface.mv/rm/reset')],
    [], ['directory tree', 'Interface.runs', 'Interface.branches', 'RunLog'])

add('P05', 'Renaming a project moves all of it and re-keys its log',
    "After a project is renamed, everything it contained is found at the new path and nothing at the old one, every log entry is found with unchanged value under the run's new path, "
    "and the same object as well as a newly opened one (root, name, listings, runs, further renames) work at the new location. If the rename is cut short by a crash, power loss or I/O error at any point, "
    "the project exists as a whole at exactly one of the two paths, opens there, and after opening its log refers to runs at that path. "
    "Renaming onto an existing path never destroys what is there.",
    ['crash_points', 'fault_sequences', 'histories'],
    "every project state (branches, logged and unlogged runs, run names that contain the project's path or name), target path, crash point and failing system call",
    NOTEST + ".",
    [P], [('rename', 'project.py Interface.rename, RunPaths.update, RunLog.update_directory, Interface._update_metadata')],
    [], ['directory tree', 'RunLog keys', 'Interface attributes'])

add('P06', 'Operations touch nothing outside their target',
    "Creating, opening, copying, renaming or removing a project and running, moving, removing or resetting runs never creates, changes or deletes any file or directory outside "
    "that project (a copy only reads its original), and run operations never touch anything but the named run directories, the log and, when opening, missing standard parts of the project. "
    "In particular the input directory, other runs, other projects with similar names, files next to the run directories' parents and targets of symbolic links survive whatever run name, "
    "pattern or branch is given, including empty names and names containing '..' or path separators, and whatever system call fails.",
    ['inputs', 'histories', 'fault_sequences'],
    "every run name, pattern and branch selection, every directory layout (neighbouring projects with common prefixes, symbolic links), every failing system call or crash during the operation",
    NOTEST + "; a test samples a handful of benign names.",
    [P, PA], [('path definition', 'project.py RunPaths.define/_get_rundirs'), ('localised names', 'paths.py localize'), ('removal', 'project.py RunPaths._rm, Interface.remove')],
    [], ['byte-level comparison of the whole simulated file system before and after'])

add('P07', 'Concurrent processes never lose or tear log entries',
    "When several processes work on one project at the same time (runs, moves and removals of distinct runs, possibly crashing), the outcome for the log is that of "
    "some one-at-a-time order of the operations: every completed operation's entry change is present, no entry of another process is lost or resurrected, "
    "no process ever reads a partly written log or fails because another one is writing it, and no process waits forever for one that crashed.",
    ['schedules', 'crash_points'],
    "every interleaving of the system calls of two to four processes, with crashes of any of them at any point",
    NOTEST + ", and a unit test cannot choose the interleaving of system calls of several processes.",
    [P], [('read-modify-write of the log', 'project.py RunLog.create/append/load/mv/rm/dump')],
    [('runs.json', 'shared by all processes working on the project', 'project root')],
    ['RunLog read by each process and after all have finished'])

add('P08', 'Copying a project reproduces its settings and inputs',
    "A project created as a copy of another has the original's branches, configuration name, input directory name, output name, run directory and log name, except for those explicitly given, "
    "and the same files with the same contents in its input directory, but none of its runs or log entries; the two projects are independent afterwards. The original is never changed, "
    "and a copy cut short by a crash or I/O error leaves the original as it was.",
    ['configurations', 'fault_sequences', 'crash_points'],
    "every combination of attributes of the original and overrides, every tree of input files, every failing system call or crash point",
    NOTEST + ".",
    [P], [('copying', "project.py Interface.__init__ and _init_project (copy=...)")],
    [], ['directory trees of both projects', 'attributes'])

add('P09', 'A project operation that reports success has taken full effect',
    "Whatever system calls fail while creating, opening, copying, renaming, running, moving, removing or resetting (disk full, permission denied, I/O error, "
    "interrupted or short transfer, process cannot be started), the operation either raises an exception or has exactly the effect it would have had without the fault; it never returns "
    "normally with part of its work undone, and a short read or short write alone never changes a result. The same project object and a reopened one remain usable after the fault is gone, and repeating a failed request then behaves as on any project in that state.",
    ['fault_sequences', 'histories'],
    "every position and kind of failing or short system call within every operation of every history",
    NOTEST + ", and none injects a failing system call.",
    [P, PA], [('error propagation', 'project.py _PathOperation.__iter__, Interface.*')],
    [], ['directory tree and log after each operation, return or exception of the call'])

add('P10', 'A run executes the selected programs with the requested configuration',
    "Each launched run has its own new directory containing, under the project's configuration-file name, a byte-identical copy of the requested configuration (taken from the project's input directory if it is there, "
    "otherwise from the given path), and the launched command runs in that directory, reads that copy, uses the requested number of processes, and writes its output and errors to the "
    "project's output file there. The launcher and the program are those given for this run if they exist, else those in the branch directory, else those on the search path, else the bare name.",
    ['configurations', 'fault_sequences', 'histories'],
    "every combination of project attributes, branches, configuration sources, executable locations and environments, including missing executables; with faults before the launch",
    NOTEST + ".",
    [P, PA], [('run creation', 'project.py Interface._create_run'), ('executable lookup', 'paths.py locate')],
    [], ['command, working directory, files and output handle seen by the simulated process'])

add('P11', 'Clock anomalies never make runs collide or overwrite each other',
    "A run without an explicit name gets a name derived from the current time, and however the clock behaves (standing still, jumping backwards or forwards) no run ever reuses, "
    "overwrites or merges with the directory or log entry of an earlier run: a colliding request either fails without side effects or is skipped with a message. "
    "The start time recorded for each run is what the clock read when that run was launched.",
    ['histories', 'fault_sequences'],
    "every sequence of named and unnamed runs under every behaviour of the wall clock",
    NOTEST + ", and a real clock does not jump on cue.",
    [P], [('default name', 'project.py Interface.run'), ('start time', 'project.py Interface._create_run')],
    [], ['run directories and log entries compared with the simulated clock'])

add('P12', "A project's own script operates on that project",
    "Every created project contains a script that, when executed, performs run, mv and rm on that very project, with the same effects on directories and log as the corresponding library calls "
    "with the same arguments, wherever the project has been moved to. The script is complete or absent after a crash during creation, and an absent script is restored when the project is next opened.",
    ['histories', 'crash_points'],
    "every history mixing script invocations and library calls, with renames in between and crashes during script generation",
    NOTEST + "; the generated script is never executed by a test.",
    [P, PM, 'src/eprempy/interfaces.py'], [('script generation', 'project.py Interface._setup_cli'), ('script source', '_project_main.py'), ('argument dispatch', 'interfaces.py CLI')],
    [], ['effects of executing the generated file in the simulated file system'])

# ------------------------------------------------------------- configuration
add('C01', 'Generating a configuration file is all-or-nothing',
    "Generating a default configuration file either leaves at the target path the complete file or, when it raises or is cut short by a crash, power loss or I/O error, leaves what was there before "
    "(an existing file is never truncated, torn or lost) and no half-written file under that name. When it returns normally, the complete file is there.",
    ['crash_points', 'fault_sequences'],
    "every crash point and failing or short system call during generation, over existing and missing targets and either source of defaults",
    "The one existing test of the module only compares two fixed files and never interrupts a write.",
    ['src/eprempy/cli.py'], [('generation', 'cli.py generate_config_file')],
    [], ['bytes at the target path'])

add('C02', 'Generated configuration files reproduce the defaults',
    "Reading back a generated configuration file yields, for every parameter, exactly the value that the chosen source of defaults (a source-code directory or the built-in database) "
    "defines, as does comparing it with those defaults, regardless of what configuration files, sources or parameters the same process handled before, which of those earlier reads failed, or in which order directories are listed.",
    ['histories', 'configurations', 'fault_sequences'],
    "every history of generate, parse, look-up and compare operations over several source directories and configuration files, with failing reads in between",
    "Existing tests parse one fixed file once, from a fixed state, and read sources only when a real checkout is present.",
    ['src/eprempy/cli.py', 'src/eprempy/parameter/_config.py', 'src/eprempy/parameter/_src.py', 'src/eprempy/parameter/_runtime.py'],
    [('defaults', 'parameter/_config.py Defaults'), ('source parsing', 'parameter/_src.py'), ('interface', 'parameter/_runtime.py')],
    [], ['parameter.interface(...) values', 'configfile mapping'])

add('C03', 'Configuration values override defaults, independent of read faults',
    "For every well-formed configuration file (key=value lines, blank or whitespace-only lines, whole-line and trailing comments), the parameter interface gives exactly the value in the file, converted to the parameter's type and with its unit, for each "
    "parameter the file sets (the last setting wins) and the default for every other one, under every alias. A failed or interrupted read raises and is not remembered: "
    "once the file is readable, the same object returns its true contents, and short reads never change the result.",
    ['inputs', 'fault_sequences', 'histories'],
    "every configuration file, every failing or short read at any position, every interleaving of look-ups with faults on several files",
    "The existing tests read one sample file from a healthy disk.",
    ['src/eprempy/parameter/_config.py', 'src/eprempy/parameter/_runtime.py', PA],
    [('parsing', 'parameter/_config.py _parse_config, ConfigFile.parsed'), ('conversion', 'parameter/_config.py _convert'), ('override', 'parameter/_runtime.py interface_factory')],
    [('parsed pairs', 'cached result of the first successful read', 'ConfigFile._parsed')], ['parameter.interface(path)[key]', 'parameter.configfile(path)'])

add('C04', 'Comparing configuration files is faithful and order-independent',
    "Comparing configuration files reports, for every parameter, the default of the chosen source and for each file the value it sets or that it uses the default; with the differences-only option it "
    "reports exactly the parameters whose reported values differ between files. The report is the same under every hash seed and directory order and, up to the position of the files, every order of the files, and a file that "
    "cannot be read makes the comparison fail rather than report defaults.",
    ['configurations', 'fault_sequences', 'inputs'],
    "every set and order of configuration files, source of defaults, option combination, interpreter hash seed, and failing read",
    "The existing test compares one fixed pair of files in one fixed order under one hash seed.",
    ['src/eprempy/cli.py'], [('comparison', 'cli.py compare_config_files/_build_arg_dict/_map_parameter/_normalize_paths')],
    [], ['text printed by the comparison'])

# ------------------------------------------------------------- datasets
add('D01', 'Observer and configuration selection does not depend on chance',
    "Opening an observer by ID or a dataset by directory selects the same data file and the same configuration file whatever order the operating system lists the directory in "
    "and whatever hash seed the interpreter uses: a stream file named 'stream' is preferred over 'obs' over 'flux', a point file named 'point' over 'p_obs', and observer() looks for the same names as stream() and point() in the same order; configuration names are tried in documented order and alphabetically "
    "within one pattern. If several files match one name the request fails instead of picking one, and unrelated files in the directory never influence the result.",
    ['schedules', 'configurations', 'fault_sequences'],
    "every directory content, listing order and hash seed, with failing directory reads",
    NODATA + ", under whatever listing order the test machine happens to have.",
    ['src/eprempy/eprem.py'], [('file selection', 'eprem.py _build_datapath/_build_confpath'), ('name patterns', 'eprem.py Stream.patterns, Point.patterns, observer')],
    [], ['observer.source', 'dataset.config.source'])

add('D02', 'A dataset lists every observer file under its own ID',
    "A dataset maps each stream-observer file in its directory to the integer ID in its name and each point-observer file to the text of its ID, each mapped observer reads exactly its own file, "
    "and no file is missing, duplicated or listed under another's ID, whatever the listing order and hash seed and however often and in whatever order the mappings are requested. "
    "A directory read that fails makes the request fail and is not remembered.",
    ['configurations', 'schedules', 'fault_sequences'],
    "every set of observer files (prefixes, ID digits and text, other files), listing order, hash seed, and failing directory read",
    NODATA + ".",
    ['src/eprempy/eprem.py'], [('mappings', 'eprem.py Dataset.streams/points/observers'), ('ID extraction', 'eprem.py _get_observer_id')],
    [], ['Dataset.streams, Dataset.points, Dataset.observers'])

add('D03', 'Data read from a file is never altered by failed or partial reads',
    "Every array, part of an array, scalar, axis, unit and axis length obtained for a data file equals what the file contains, converted to the requested metric system, no matter which reads of the same or other files failed or were interrupted before, in which order quantities are "
    "requested, or how many views of the file exist. A failing read raises to the caller, leaves no partial or default value behind, and the same request succeeds once the file is readable again.",
    ['fault_sequences', 'histories'],
    "every history of requests over several files, views and metric systems with failing opens, failing variable reads and interruptions at any point",
    NODATA + ", from a healthy disk in one fixed order.",
    ['src/eprempy/datafile/_interfaces.py', 'src/eprempy/datafile/_viewers.py', 'src/eprempy/datafile/_core.py', 'src/eprempy/paths.py', 'src/eprempy/exceptions.py'],
    [('lazy caches', 'datafile/_interfaces.py Axes, Arrays; datafile/_viewers.py View'), ('shared views', 'paths.py PathSet'), ('error filter', 'exceptions.py Wrapper')],
    [('cached arrays', 'value of each quantity after its first successful read', 'Arrays._*, Axes._*, View._*')],
    ['datafile.view, datafile.arrays, datafile.axes'])

# ------------------------------------------------------------- observables
add('O01', 'Observed values do not depend on what was asked before or what failed',
    "An observation (observable quantity, index or physical coordinate per dimension, unit) gives the same numbers, unit, dimensions and axes whatever other observations, conversions, reads and failures "
    "the same process went through before, including requests that raised and requests interrupted at an arbitrary point, and whatever the interpreter's hash seed. Every name and alias of a quantity gives the same result, and an invalid request raises each time.",
    ['histories', 'fault_sequences', 'crash_points'],
    "every history of observations over several observers, systems and files, with failing reads and asynchronous interruptions at any point of the computation",
    NODATA + "; each test starts from a fresh state and is never interrupted.",
    ['src/eprempy/observable/_interfaces.py', 'src/eprempy/observable/_objects.py', 'src/eprempy/eprem.py'],
    [('quantity cache', 'observable/_interfaces.py Quantities'), ('observing context', 'observable/_objects.py Context, Quantity'), ('observer caches', 'eprem.py Observer')],
    [('caches', 'quantities and arrays built on first use', 'Quantities, Arrays, Axes, unit registries')],
    ['observer[name][indices]'])

add('O02', 'Results are isolated from each other and from the observer',
    "Changing the unit of, doing arithmetic with, or overwriting the numpy data taken from one observed array, axis or observable never changes any other result, "
    "any later observation or the observer itself, also when the same array is observed again, in another unit or metric system, or through another observer of the same file. (Only a result and its own unit conversion may share their axes; what a data file's `arrays` and `axes` hold are single objects, of which the `data` attribute is documented to be their own storage.)",
    ['histories'],
    "every history of observations, conversions and modifications of the returned objects over several observers of the same and of different files",
    NODATA + "; tests do not reuse an observer after modifying its results.",
    ['src/eprempy/observable/_objects.py', 'src/eprempy/numeric/_array.py', 'src/eprempy/physical/_array.py', 'src/eprempy/datafile/_interfaces.py'],
    [('data copies', 'numeric/_array.py Array'), ('unit change', 'observable/_objects.py Quantity.withunit')],
    [], ['repeated observation after modification'])

add('O03', 'Observed values agree with a reference computation from the file',
    "Every primary observable at given indices equals the file's values at those indices, converted to the observer's metric system and requested unit; at a physical coordinate (time, energy, pitch-angle cosine or radius) "
    "that is not a grid point it equals linear interpolation between neighbouring grid values and at a grid point the value there, and coordinates outside the data's range are refused. Derived vector quantities, flux, fluence, integral flux, energy density, mean free path, rigidity and divergence equal their defining "
    "formulas applied to the same data, in both metric systems and for both kinds of stream file; sums, differences, products, quotients and powers of observables, written with operators or as text, equal the same operations on the observed values, in the corresponding unit; every part taken of an observed array by subscripting has the numbers and axes of that part of the whole; all at every step of every history of requests and failed reads.",
    ['inputs', 'histories', 'fault_sequences'],
    "every data file, quantity, index combination, interpolation target, metric system and unit, along histories that contain failed and interrupted reads",
    NODATA + "; existing tests check shapes and units, not values.",
    ['src/eprempy/observable/_interfaces.py', 'src/eprempy/observable/_objects.py'],
    [('formulas', 'observable/_interfaces.py Implementations'), ('interpolation', 'observable/_objects.py interpolate and Context.implement')],
    [], ['observer[name][indices] compared with numpy computation from the file'])

# ------------------------------------------------------------- metric registries
add('M01', 'Unit conversions do not depend on history or interruption',
    "The factor converting one unit expression to another (by library function, unit operator or quantity conversion) equals the ratio of their definitions and is consistent under inversion and composition, whatever units were "
    "created, converted or aliased earlier in the process, in whatever order, and wherever earlier requests raised or were interrupted; an impossible conversion is refused every time it is asked.",
    ['histories', 'crash_points'],
    "every history of unit requests over all defined units, prefixes, systems and compound expressions with asynchronous interruptions at any point and under any hash seed",
    "Existing tests convert a fixed list of pairs in a fixed order in one uninterrupted process.",
    ['src/eprempy/metric/_conversions.py', 'src/eprempy/metric/_units.py', 'src/eprempy/metric/_defined.py'],
    [('conversion cache', 'metric/_conversions.py conversion_factory, converter_factory'), ('unit cache', 'metric/_units.py unit_factory'), ('named-unit cache', 'metric/_defined.py')],
    [('caches', 'process-wide tables of units, conversions and converters', 'metric modules')],
    ['metric.conversion, metric.unit >> / <<, metric.system'])

add('M02', 'Equal unit expressions always denote one unit',
    "Within one process every spelling of a unit (name, symbol, registered alias, equivalent expression string) yields the same unit object with the same canonical text, dimensions and comparison results, no unit spelling ever "
    "comes to denote a different unit, and metric systems and other shared instances requested twice are the same object, whatever was requested, failed or was interrupted before and from whichever threads the requests come.",
    ['histories', 'schedules', 'crash_points'],
    "every history and thread interleaving of unit, system and shared-instance requests with interruptions at any point",
    "Existing tests check identity for a few spellings in one order in one thread.",
    ['src/eprempy/metric/_units.py', 'src/eprempy/metric/_systems.py', 'src/eprempy/metric/_defined.py', 'src/eprempy/aliased.py', 'src/eprempy/etc.py'],
    [('unit registry', 'metric/_units.py _units'), ('alias table', 'aliased.py MutableMapping'), ('instance sets', 'etc.py InstanceSet, Singleton; paths.py PathSet')],
    [], ['identity and text of returned units'])

add('A01', 'Aliased mappings behave like a dictionary with key groups',
    "A mutable aliased mapping under any history of assignments, deletions, alias registrations, groupings, copies and freezes behaves like an ordinary dictionary in which all aliases of a key "
    "refer to one entry: look-ups, membership, length, iteration, equality and merging agree with that model under every interpreter hash seed. An operation that raises, or an assignment, deletion or alias registration that is interrupted, leaves a mapping in which every key "
    "still resolves to its old or new value, and frozen or copied mappings never change with the original.",
    ['histories', 'crash_points', 'configurations'],
    "every history of mapping operations, interruption point and hash seed",
    "Existing tests run short fixed histories under one hash seed and never interrupt an operation.",
    ['src/eprempy/aliased.py'], [('key groups', 'aliased.py Group, Mapping, MutableMapping')],
    [], ['mapping interface'])

# ------------------------------------------------------------- not applicable
add('N01', 'Symbolic expressions form an algebra',
    "Parsing, multiplying, dividing and raising symbolic expressions obeys the laws of the algebra of monomials (commutativity, associativity, exponent rules), and formatting then parsing an expression gives an equal expression.",
    ['inputs'], "all expressions", "Tests sample a few expressions.",
    ['src/eprempy/symbolic/_expression.py', 'src/eprempy/symbolic/_operand.py', 'src/eprempy/symbolic/_parser.py'], [('parser and reduction', 'symbolic/')])
add('N02', 'Physical arithmetic propagates units and axes',
    "Arithmetic and numpy functions on scalars, vectors, tensors and arrays give the same numbers as on plain arrays, with the unit given by the operation and compatible dimensions aligned by name, and refuse incompatible units or dimensions.",
    ['inputs'], "all operands", "Tests sample a few shapes and units.",
    ['src/eprempy/physical/_operations.py', 'src/eprempy/numeric/_operations.py', 'src/eprempy/real/_array.py'], [('operators', 'physical/_operations.py')])
add('N03', 'Measuring sequences and indices gives one well-defined result',
    "Every accepted spelling of a measurable sequence or index denotes one sequence of values with one unit, equivalent spellings agree, and everything else is refused.",
    ['inputs'], "all inputs", "Tests sample a list of spellings.",
    ['src/eprempy/quantity/_functions.py', 'src/eprempy/numeric/_index.py', 'src/eprempy/measured/_sequence.py'], [('parsing', 'quantity/_functions.py')])
add('N04', 'Container utilities preserve order and content',
    "Unwrapping, wrapping, merging, ordering and searching containers preserve the elements and their order and select the true nearest or matching element.",
    ['inputs'], "all containers", "Tests sample a few containers.",
    ['src/eprempy/container.py'], [('functions', 'container.py')])
add('N05', 'Atomic and universal constants are correct and consistent',
    "Element symbols, masses and charge states map to each other consistently and universal constants agree between metric systems after unit conversion.",
    ['inputs', 'configurations'], "all elements and constants", "Tests check two examples.",
    ['src/eprempy/atomic.py', 'src/eprempy/universal.py'], [('tables', 'atomic.py, universal.py')])

if __name__ == '__main__':
    out = pathlib.Path(__file__).resolve().parent.parent / 'properties.jsonl'
    out.write_text(''.join(json.dumps(p, ensure_ascii=False) + '\n' for p in PROPS))
    import re
    for p in PROPS:
        n = len(re.findall(r'[.](?=\s+[A-Z]|$)', p['statement']))
        if n > 3 or len(p['title']) > 80: print(p['id'], n, len(p['title']))
