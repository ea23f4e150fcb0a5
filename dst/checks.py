# -*- coding: utf-8 -*-
""" What each check explores (read by run.py without the code under test). """
T = 'real code: the whole of pymorphy2 from /repo, '
CHECKS = {}


def check(prop, **kw):
    kw.setdefault('venvs', {'fast': 3, 'slow': 1})
    kw.setdefault('level', 'exploration')
    kw.setdefault('technique', 'deterministic simulation: ' + kw.pop('how', 'seeded schedules and faults'))
    kw.setdefault('note', 'Every seeded run of the stated number held; not exhaustive. ' + 'Assumes: ' + '; '.join(kw['assumptions']) + '.')
    CHECKS[prop] = kw


check('C01', how='seeded thread schedules at bytecode granularity, answers compared with solo runs',
      runs={'quick': 2200, 'thorough': 40000},
      rule='each run: an analyzer configuration, 2-4 threads with 1-4 calls each (words chosen by theme, often shared between threads), cold or warm, yield points at bytecodes, lines or calls, and a seeded schedule (random walk, bursts, PCT priorities, few preemptions at measured positions). Non-trivial: at least one preemption happened. Distinct: (configuration, calls, sequence of switches).',
      real=['pymorphy2 (all modules)', 'DAWG C++ extension / dawg_python', 'pymorphy2_dicts_ru 2.4 and committed toy dictionaries', 'real threads, run one at a time'],
      stub=['thread scheduler', 'threading locks and conditions', 'time.sleep'],
      assumptions=['yield points lie in pymorphy2 code; C extensions and the standard library run atomically', 'PyPy 3.9'])

check('C04', how='seeded histories of calls with suspended iterators, answers compared with solo runs',
      runs={'quick': 1400, 'thorough': 30000},
      rule='each run: an analyzer configuration and a history of calls (3-40 all checked, or 200-6000 with repeated probe questions), with confusable variants of earlier words and up to four open iterations advanced, closed or abandoned in between. Non-trivial: more than one call. Distinct: (configuration, history).',
      real=['pymorphy2 (all modules)', 'DAWG C++ extension / dawg_python', 'pymorphy2_dicts_ru 2.4 and committed toy dictionaries'],
      stub=['none on this path; the histories replace the caller'],
      assumptions=['the reference is the same tree asked once in a fork of a process with a new analyzer', 'PyPy 3.9'])

check('C06', how='seeded asynchronous exceptions and failing lookups at bytecode and line positions, later answers compared with solo runs',
      runs={'quick': 2000, 'thorough': 50000}, level='exploration',
      rule='each run: an analyzer configuration, 1-4 calls of which up to three are struck by KeyboardInterrupt, MemoryError or a failing dictionary lookup at seeded positions measured on a fault-free run, sometimes with a second thread at work, followed by probes in the same and in another thread. Non-trivial: a fault fired. Distinct: (configuration, calls, fault kind and positions, switches).',
      real=['pymorphy2 (all modules)', 'DAWG C++ extension / dawg_python', 'dictionaries as in C01'],
      stub=['delivery of exceptions (trace events)', 'thread scheduler', 'dictionary lookups that fail on request'],
      assumptions=['exceptions are not delivered inside with/try headers, handlers, finally blocks and explicit lock operations, where no program can defend itself', 'PyPy 3.9'])

check('C03', how='seeded thread schedules, interruptions and constructions around observations of shared tags',
      runs={'quick': 1800, 'thorough': 50000},
      rule='each run: 1-3 tags of one analyzer shared by 1-3 threads that observe them in seeded orders, query, construct other analyzers and collect garbage, with up to two asynchronous exceptions; every observation is compared with the same observation made first and alone. Non-trivial: more than one observation, a preemption or a fault. Distinct: (configuration, tags, observations, faults, switches).',
      real=['pymorphy2 (all modules)', 'DAWG C++ extension / dawg_python', 'dictionaries as in C01'],
      stub=['thread scheduler', 'delivery of exceptions (trace events)'],
      assumptions=['exceptions are not delivered inside with/try headers, handlers, finally blocks and explicit lock operations', 'PyPy 3.9'])

check('C05', how='seeded histories of queries, caller-side modifications, dropped analyzers and garbage collections',
      runs={'quick': 2000, 'thorough': 60000},
      rule='each run: 3-20 steps that fetch results, modify the containers they came in (also those handed out by results), ask again, collect garbage or drop the analyzer, then probes; answers and kept results are compared with those of an undisturbed analyzer. Non-trivial: a container was modified, or a collection or drop happened. Distinct: (configuration, steps).',
      real=['pymorphy2 (all modules)', 'DAWG C++ extension / dawg_python', 'dictionaries as in C01'],
      stub=['garbage collections happen only where the run says so'],
      assumptions=['the analyzer\'s own attributes (such as dictionary.meta) are not results', 'PyPy 3.9'])

check('C07', how='seeded histories of constructions, failures, compilations and drops, answers compared with processes holding one analyzer',
      runs={'quick': 1700, 'thorough': 50000},
      rule='each run: a process that starts without analyzers and then, in a seeded order, constructs analyzers of four dictionaries with different settings (some sharing the caller\'s steps and classes), fails to construct in eight ways, compiles other lexicons, pickles, drops and collects, asking questions of analyzers and kept tags in between. Non-trivial: more than one construction, failure or compilation. Distinct: the history.',
      real=['pymorphy2 (all modules)', 'DAWG C++ extension / dawg_python', 'dictionaries as in C01'],
      stub=['compilations are skipped under the pure-Python backend, which cannot compile'],
      assumptions=['PyPy 3.9'])

check('C02', how='seeded thread schedules over constructions, unpickling and queries, answers compared with processes holding one analyzer',
      runs={'quick': 1500, 'thorough': 40000},
      rule='each run: 0-2 existing analyzers and 2-3 threads that construct, unpickle, fail to construct and query analyzers of three toy dictionaries with nine settings under a seeded schedule with yield points at calls, lines or bytecodes and simulated locks; then probes of every analyzer. Non-trivial: at least one preemption. Distinct: (analyzers, calls, sequence of switches).',
      real=['pymorphy2 (all modules)', 'DAWG C++ extension / dawg_python', 'committed toy dictionaries'],
      stub=['thread scheduler', 'locks'],
      assumptions=['yield points lie in pymorphy2 code; C extensions and the standard library run atomically', 'PyPy 3.9'])

check('C10', how='seeded crash points and interruptions in the file operations of compilations, contents compared with fault-free ones and an independent model',
      runs={'quick': 550, 'thorough': 30000}, venvs={'fast': 1},
      rule='each run: 1-3 generated lexicons, an output folder that is new, empty, foreign, half or holding a dictionary (with or without probabilities), and 1-4 compilations, with or without overwriting, most of which die before, after or half-way through a file operation or at an interrupted line; after each the folder is opened in a new process; at the end a compilation without faults. Non-trivial: a crash or interruption happened. Distinct: (lexicons, folder, attempts with their faults).',
      real=['pymorphy2 compiler and loader', 'DAWG C++ extension', 'lxml', 'kernel file system (tmpfs)'],
      stub=['libc file operations (numbered, cut and ended by the simulator)', 'process death'],
      assumptions=['the process dies, the machine does not: what write() accepted survives', 'PyPy 3.9'])

check('C11', how='seeded failures of the file operations of compilations, contents compared with fault-free ones and an independent model',
      runs={'quick': 1000, 'thorough': 40000}, venvs={'fast': 1},
      rule='each run: a generated lexicon compiled into a new, empty, half or occupied folder while 1-3 file operations fail (once or from then on, seven error codes, also after a partial write or by an early end of file), or with only short and interrupted transfers, or from a source cut at any byte, or at an impossible place; then the folder is opened in a new process and compilation is repeated without faults. Non-trivial: a fault fired. Distinct: (lexicons, folder, faults).',
      real=['pymorphy2 compiler and loader', 'DAWG C++ extension', 'lxml', 'kernel file system (tmpfs)'],
      stub=['libc file operations (numbered and failed by the simulator)'],
      assumptions=['a failure that is retried successfully by the library need not be reported', 'PyPy 3.9'])

check('C12', how='seeded crash points, failures and interruptions in updates of dictionaries, results compared with an independent model',
      runs={'quick': 900, 'thorough': 40000}, venvs={'fast': 1},
      rule='each run: a toy dictionary with or without probabilities and 1-4 updates (probabilities from a generated corpus, or metadata), most of which die or fail at a seeded file operation (also half-way through a write) or are interrupted at a line; after each the dictionary is opened in a new process; at the end an update without faults. Non-trivial: a fault was planned. Distinct: (dictionary, updates with their faults).',
      real=['pymorphy2 probability estimation, metadata, loader', 'DAWG C++ extension', 'kernel file system (tmpfs)'],
      stub=['nltk (four classes) and opencorpora-tools (corpus reader), which are not installed', 'libc file operations (numbered, failed and ended by the simulator)', 'process death'],
      assumptions=['the process dies, the machine does not: what write() accepted survives', 'PyPy 3.9'])

check('C13', how='seeded damage to dictionary files and failing reads, answers compared with the intact dictionary',
      runs={'quick': 7000, 'thorough': 250000},
      rule='each run: a dictionary (three toy ones, rarely the full Russian one) with up to three of: a file missing, emptied, cut at any byte or replaced by a folder, an incompatible format version, an open or read that fails once or from then on, an early end of file, short and interrupted reads; then it is opened in a new process and asked. Non-trivial: damage or a fault was applied. Distinct: (dictionary, settings, damage, faults).',
      real=['pymorphy2 loader and analyzer', 'DAWG C++ extension / dawg_python', 'pymorphy2_dicts_ru 2.4 and committed toy dictionaries', 'kernel file system (tmpfs)'],
      stub=['libc file operations (numbered and failed by the simulator)'],
      assumptions=['damage that keeps the length of files is out of scope', 'PyPy 3.9'])

check('C14', how='seeded failures and interruptions of constructions under seeded thread schedules, later answers compared with undisturbed processes',
      runs={'quick': 850, 'thorough': 40000},
      rule='each run: 0-2 existing analyzers and 1-2 threads with 1-3 constructions each, struck by KeyboardInterrupt or MemoryError at a measured bytecode, line or call, by a failing or prematurely ending read, by an exception out of a supplied step, class or mapping, or by an invalid argument or dictionary; another thread constructs and queries meanwhile; open files are looked at after every failure, constructions are repeated in the same and in another thread. Non-trivial: a construction failed. Distinct: (analyzers, constructions with their faults, switches).',
      real=['pymorphy2 (all modules)', 'DAWG C++ extension / dawg_python', 'committed toy dictionaries', 'kernel file system (tmpfs)'],
      stub=['thread scheduler and locks', 'delivery of exceptions (trace events)', 'libc file operations (failed by the simulator)'],
      assumptions=['exceptions are not delivered inside with/try headers, handlers, finally blocks and explicit lock operations', 'PyPy 3.9'])

check('C15', how='seeded histories, thread schedules and clocks around compilations, output compared byte by byte with that of undisturbed processes',
      runs={'quick': 700, 'thorough': 30000}, venvs={'fast': 1},
      rule='each run: 1-3 generated lexicons and a process that compiles them in a seeded history (other compilations, analyzers, failed and interrupted compilations, garbage collections) and then in 2-3 threads under a seeded schedule, with real or odd clocks, sometimes with one options mapping for all; every output folder is compared byte by byte, apart from the time, with one written by a process doing nothing else. Non-trivial: more than one step, or an odd clock. Distinct: (lexicons, history, threads, clock, switches).',
      real=['pymorphy2 compiler and loader', 'DAWG C++ extension', 'lxml', 'kernel file system (tmpfs)'],
      stub=['thread scheduler and locks', 'clock (in some runs)', 'delivery of exceptions (trace events)'],
      assumptions=['yield points lie in pymorphy2 code; C extensions and the standard library run atomically', 'PyPy 3.9'])

check('C08', how='seeded histories, interruptions and process restarts around pickling, answers compared with those of new analyzers',
      runs={'quick': 2000, 'thorough': 60000},
      rule='each run: an analyzer with seeded settings (dictionary by path, environment or installed package; language, result type, steps, estimator, substitutes, subclasses), used for seeded calls, pickled with tags at any protocol 1-5 times over and restored in the same process, in a new one (some started with another hash seed), by copying, or while another thread asks; some pickling and unpickling is first interrupted by KeyboardInterrupt or MemoryError. Non-trivial: always. Distinct: (settings, steps, tags).',
      real=['pymorphy2 (all modules)', 'DAWG C++ extension / dawg_python', 'pickle (C and Python)', 'dictionaries as in C01', 'processes'],
      stub=['delivery of exceptions (trace events)', 'thread scheduler'],
      assumptions=['the environment and the dictionaries are the same where the analyzer is restored', 'the settings given to the constructor are not modified afterwards', 'PyPy 3.9'])

check('C09', how='seeded histories of installations, removals, environment changes, failures and constructions on a simulated computer, compared with a model',
      runs={'quick': 2000, 'thorough': 80000},
      rule='each run: package folders on sys.path (one added later), dictionaries elsewhere and in two working directories, and 4-14 steps that install, remove or break packages of up to four languages (two package formats), set and clear the environment variables, replace dictionaries in place, change the directory, and construct analyzers with all combinations of arguments, also in two threads, some interrupted (KeyboardInterrupt, MemoryError) or with a failing file operation and then repeated; path, contents, language and errors are compared with a model. Non-trivial: more than one step. Distinct: the steps.',
      real=['pymorphy2 (construction and discovery)', 'pkg_resources', 'import system', 'committed toy dictionaries', 'kernel file system (tmpfs)'],
      stub=['installed packages (generated)', 'modification times of package folders', 'libc file operations (failed by the simulator)', 'delivery of exceptions (trace events)', 'thread scheduler'],
      assumptions=['a package is not reinstalled under the same module name at another place in the same process, where Python itself keeps the old module', 'two packages for the same language are not installed at once', 'a lookup among packages of which one cannot be imported may fail', 'PyPy 3.9'])

check('C19', how='seeded schedules of several processes over their file operations on one simulated disk, what readers open compared with the dictionaries before and after',
      runs={'quick': 600, 'thorough': 30000}, venvs={'fast': 1},
      rule='each run: one process that updates a dictionary (1-4 updates of probabilities and metadata), creates one in a new, empty or foreign folder, overwrites one, or removes, truncates or replaces the files of one, or two that compile into one new folder; 1-3 others open it up to five times each meanwhile and keep what they opened. A seeded scheduler decides before every file operation which process goes on; some writers are killed, some transfers are short or interrupted. Non-trivial: an opening overlaps with a write. Distinct: (what is written, readers, schedule).',
      real=['pymorphy2 compiler, updater, loader and analyzer', 'DAWG C++ extension', 'lxml', 'processes', 'kernel file system (tmpfs)'],
      stub=['process scheduler (one file operation at a time)', 'libc file operations (cut short or interrupted by the simulator)'],
      assumptions=['what a process writes is seen by the others at once and in order', 'processes only meet in files', 'PyPy 3.9'])

check('C20', how='seeded thread schedules with forks at chosen moments, answers in the forked processes compared with solo runs',
      runs={'quick': 1500, 'thorough': 40000},
      rule='each run: an analyzer configuration, 1-2 threads with 1-3 calls or constructions each, and one that forks the process once or twice, mostly while another is at a measured place of a call; the forked process makes the same and other calls and constructions, in one or two threads of its own. Non-trivial: another thread was amid its calls when the process forked. Distinct: (configuration, calls, forks, switches).',
      real=['pymorphy2 (all modules)', 'DAWG C++ extension / dawg_python', 'pymorphy2_dicts_ru 2.4 and committed toy dictionaries', 'fork of processes with real threads'],
      stub=['thread scheduler', 'threading locks and conditions', 'time.sleep'],
      assumptions=['the process forks outside of calls of the library in the forking thread', 'yield points lie in pymorphy2 code; C extensions and the standard library run atomically', 'PyPy 3.9'])

check('C21', how='seeded long histories with injected failures, interruptions, threads and streams; what is kept measured while they go on',
      runs={'quick': 400, 'thorough': 12000},
      rule='each run repeats one kind of activity with ever new arguments: calls on an analyzer with new words of one or two shapes, the same interrupted by KeyboardInterrupt or MemoryError or with failing lookups, in new threads, streams of text through the parse command, analyzers created (also interrupted), pickled, failing to be created, dictionaries compiled; live objects and bytes are measured after each phase, phases get longer until nothing grows any more or a limit (40000 calls, 60 analyzers) is reached; dropped analyzers have to be collectable, files closed. Non-trivial: always. Distinct: (activity, settings, arguments).',
      real=['pymorphy2 (all modules)', 'DAWG C++ extension / dawg_python', 'garbage collector', 'dictionaries as in C01'],
      stub=['delivery of exceptions (trace events)', 'thread scheduler', 'streams of the parse command'],
      assumptions=['what is remembered of less than some ten thousand calls is not growth', 'the compiler of the interpreter is off while measuring', 'PyPy 3.9'])

check('C22', how='seeded thread schedules with failures and interruptions around a user of the same process who looks at its state and changes it',
      runs={'quick': 1500, 'thorough': 40000},
      rule='each run: one or two threads with 1-2 actions (calls, constructions, failing constructions and compilations, failing files, pickles, parse commands, metadata updates), possibly struck by an exception at a measured place; another thread, mostly switched to at measured places of them, compares some 40 parts of the state of the process with what the user last made of it and changes some of 20 (cwd, environment, umask, recursion limit, random state, collector, locale, logging, hooks, streams, time zone, ...). Non-trivial: a switch or a fault. Distinct: (actions, changes, schedule).',
      real=['pymorphy2 (all modules)', 'DAWG C++ extension / dawg_python', 'the state of the process', 'files'],
      stub=['thread scheduler', 'threading locks and conditions', 'time.sleep', 'delivery of exceptions and of file errors'],
      assumptions=['modules that are imported and importer caches may stay', 'the log records of library loggers are not looked at', 'PyPy 3.9'])

check('C16', how='seeded arrival of the input, token histories and cache sizes on simulated streams, output compared with an independent formatter',
      runs={'quick': 2400, 'thorough': 60000},
      rule='each run: 1-3 parse commands in one process (through main() with standard input or a file, or through parse() sharing an analyzer), each with seeded options, threshold, cache size and text of 0-400 tokens drawn from a small pool with look-alikes, punctuation, odd spaces and line ends; the bytes arrive cut at seeded places, files are read with short and interrupted reads, output is taken in short writes. Non-trivial: some text. Distinct: the commands with their texts and cuts.',
      real=['pymorphy2 (all modules, command line)', 'docopt', 'io stack of the interpreter', 'dictionaries as in C01'],
      stub=['standard input and output (raw streams)', 'libc reads of input files (cut short or interrupted by the simulator)'],
      assumptions=['tokens are as the tokenizer of version 0.9.1 splits them, written down again as a model', 'the analysis of a token is the one the same tree gives alone in a new process', 'PyPy 3.9'])

check('C17', how='seeded failures of reads, writes, decoding, lookups and interruptions of commands on simulated streams, output compared with an independent formatter',
      runs={'quick': 2600, 'thorough': 80000},
      rule='each run: one parse command with seeded options on a text whose bytes arrive cut at seeded places (often a line at a time), in which a read (six errors), a write (six errors, after none, half or all of it was taken, once or from then on), the decoding of bytes, a dictionary lookup, a line of the library (KeyboardInterrupt, MemoryError) or the input file fails; how much output there is is looked at whenever input is waited for; sometimes the command is repeated undisturbed in the same process. Non-trivial: a fault fired or more than two reads. Distinct: (options, text, cuts, fault).',
      real=['pymorphy2 (all modules, command line)', 'docopt', 'io stack of the interpreter', 'dictionaries as in C01'],
      stub=['standard input and output (raw streams)', 'libc file operations on input files (failed by the simulator)', 'dictionary lookups that fail on request', 'delivery of exceptions (trace events)'],
      assumptions=['the standard output of the simulation passes on every write at once', 'tokens and output format as in C16', 'PyPy 3.9'])

check('C18', how='seeded call histories, thread schedules, interruptions and failing calls on memoised functions, results compared with those of the plain functions',
      runs={'quick': 5000, 'thorough': 150000},
      rule='each run: 1-3 functions wrapped by the decorators (unbounded, caller-supplied or bounded caches of 0-128 entries, filled with up to 32768 entries before), called by 1-3 threads under a seeded schedule with yield points at bytecodes or lines of the wrappers and inside the functions, with arguments that look alike or have equal hashes; functions fail always, at planned computations, or by failing dictionary lookups, calls are interrupted by KeyboardInterrupt and MemoryError; the functions are made up, the formatter of the command line, or the memoised ones of the compiler. Non-trivial: more than one call. Distinct: (functions, calls, faults, switches).',
      real=['pymorphy2.cache, formatter of pymorphy2.cli, pymorphy2.opencorpora_dict.preprocess', 'functools.lru_cache', 'committed toy dictionaries'],
      stub=['thread scheduler', 'most wrapped functions', 'delivery of exceptions (trace events)', 'dictionary lookups that fail on request'],
      assumptions=['arguments that are equal have equal results', 'yield points lie in pymorphy2 code and in the wrapped functions', 'PyPy 3.9'])

PURE = ('The answer is a pure function of one call\'s arguments: no schedule, clock, I/O, crash or history takes part, so a simulated '
        'execution adds nothing to calling the function. ')
NOT_APPLICABLE = {
    'C30': PURE + 'Input generation (fuzzing) is the fitting technique.',
    'C31': PURE + 'A differential property test of parse() and tag() is the fitting technique.',
    'C32': PURE + 'A property test over words is the fitting technique.',
    'C33': PURE + 'A property test over words and grammeme sets is the fitting technique.',
    'C34': PURE + 'A property test over words is the fitting technique.',
    'C35': PURE + 'A property test over dictionary words is the fitting technique.',
    'C36': PURE + 'It compares two environments (with and without the C++ extension) input by input; a differential test is the fitting technique.',
    'C37': PURE + 'A property test over integers is the fitting technique.',
    'C38': PURE + 'A property test over strings is the fitting technique.',
}
