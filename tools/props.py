SCHED = 'stateless model checking of the real code: exhaustive enumeration of thread interleavings up to a deviation bound, with happens-before race, heap and deadlock oracles'
SNOTE = ('Every interleaving of each bounded scenario with at most the stated number of deviations from the default schedule is executed on the real code; '
         'sequentially consistent memory only (data races are reported separately by happens-before); trusts the scheduler runtime in lib/vs_runtime.cpp.')
BFS = 'explicit-state enumeration of all operation sequences up to a depth on the real code, compared step by step with an executable reference model'
GRID = 'bounded-exhaustive enumeration of the input space (all tuples of a boundary alphabet), each executed on the real code and compared with an executable reference'
JB = ['sm_boost/include/sm/boost/JobQueue.hpp', 'sm_boost/include/sm/boost/implementation/JobQueue.hpp', 'sm_boost/src/JobQueue.cpp']
LG = ['sm_logging/src/LoggingGlobals.cpp', 'sm_logging/include/sm/logging/console.hpp', 'sm_logging/src/Logger.cpp']

prop('J01', 'Job queue: every job runs exactly once and the wait covers it',
     'While a job queue is started and not asked to stop, every job submitted by any thread (including by a running job) runs exactly once, starting in submission order, with at most as many jobs at a time as there are worker threads and with all workers usable. Waiting for the queue to be empty returns only when every job submitted before is finished and its effects are visible to the waiter, and it always returns once the jobs are done, for any number of waiters and batches. At every moment empty() tells whether a submitted job is still waiting to be started, and starting a queue again adds no workers.',
     ['schedules'], 'All interleavings of 1-3 workers, 1-2 submitters and 1-2 waiters with up to 6 jobs, including spurious wakeups, up to the stated preemption bound; every default-scheduled choice (one deviation in thorough) of two histories with 150 and 200 jobs.',
     'The tests run one free-running schedule per job mix; lost wakeups and early returns need a particular interleaving of check, wait and notify.',
     JB, [('condition-variable protocol between submitters, workers and waiters', 'sm_boost/src/JobQueue.cpp'), ('counter of running jobs updated with the queue under one mutex', 'sm_boost/src/JobQueue.cpp')],
     SCHED, 'model_checking', SNOTE, observe=['jobs that count their runs', 'values read by the waiter after the wait'])
prop('J02', 'Job queue shutdown always ends, finishes running jobs, drops the rest',
     'Stopping, joining or destroying a job queue, from any thread, at any moment and in any order with starting and submitting, never hangs, crashes or touches freed memory, and after a join or destruction no job is running and none starts later. Jobs already started are completed; jobs not started when stop was requested are not run but stay queued while the queue object exists.',
     ['schedules', 'histories'], 'All interleavings up to the preemption bound of start/submit/stop/join/destroy histories, including stop from another thread and from a job, repeated joins and a queue that never started; likewise a shutdown with 140 jobs; a stop from the k-th of n jobs for all n up to 100.',
     'Only orderly destruction after a finished batch is tested; the races between going to sleep and being told to stop are not.',
     JB, [('stop flag tested by the waiting workers', 'sm_boost/src/JobQueue.cpp'), ('destructor stops and joins every thread', 'sm_boost/src/JobQueue.cpp')],
     SCHED, 'model_checking', SNOTE, observe=['termination of every schedule', 'heap accesses of workers after destruction'])
prop('J03', 'Job futures deliver exactly the value or exception of their job',
     'A future obtained when submitting a job becomes ready when that job is finished and delivers that job\'s own value or the exception it threw, with all of the job\'s effects visible. A throwing job does not harm the worker or other jobs, and a future whose job is dropped by shutdown reports a broken promise instead of blocking for ever.',
     ['schedules'], 'All interleavings up to the preemption bound of up to 3 future jobs on 1-2 workers, with value, exception and abandonment outcomes; likewise 60 futures.',
     'A test sees one order of completion; promise/waiter ordering and abandonment are schedule dependent.',
     JB, [('packaged task stored in the queue and run by a worker', 'sm_boost/include/sm/boost/JobQueue.hpp')],
     SCHED, 'model_checking', SNOTE, observe=['future::get'])
prop('L01', 'Concurrent logging and configuration: each message once, no races, no deadlock',
     'With any number of threads logging through the same or different statements while others change the level, enable or disable streams or replace the logger, every message that is enabled throughout is delivered exactly once, complete and not interleaved with another, to the current logger, and no execution deadlocks, races or uses a released logger. When a configuration call has returned, statements used for the first time concurrently with it obey it too, and a logger that throws or itself logs does not stop later messages.',
     ['schedules'], 'All interleavings up to the preemption bound of 2-3 threads (and of 5, with a lower bound) doing one or two logging or configuration calls each, from first use of the statements; also with many statements registered.',
     'The tests log from one thread; first-use initialisation against configuration, and lock ordering, depend on the schedule.',
     LG, [('mutex around the enabled decision and the list of statements', 'sm_logging/src/LoggingGlobals.cpp'), ('print mutex with recursion guard', 'sm_logging/src/LoggingGlobals.cpp'), ('lazy registration of each statement', 'sm_logging/include/sm/logging/console.hpp')],
     SCHED, 'model_checking', SNOTE, observe=['events received by a custom logger'])
prop('L04', 'Once and throttled log statements keep their promise under concurrency',
     'However many threads reach them at once, a log-once statement is printed exactly once in the life of the process, and a throttled statement is printed at its first use and then whenever its period has passed since the last print, never more often. Both hold for the printf and the stream forms of every level, with and without a name, and disabled uses do not count.',
     ['schedules', 'histories'], 'All interleavings up to the preemption bound of 2-3 threads passing the same statement one to three times each, with a controlled clock; every history of 6 (7 thorough) uses, waits and configuration changes for all 88 forms and periods that are expressions; every period of a grid from every start of the clock of another.',
     'Tests use the statements from one thread only, if at all; the double print needs two threads between test and set.',
     ['sm_logging/include/sm/logging/macros.h', 'sm_logging/include/sm/logging/console.hpp'], [('per-statement state tested and set', 'sm_logging/include/sm/logging/console.hpp')],
     SCHED, 'model_checking', SNOTE, observe=['events received by a custom logger'])
prop('L02', 'A log statement is delivered exactly when its level and stream are enabled',
     'After any history of configuration calls (level, enabling and disabling streams, replacing the logger) and uses of log statements, using a statement delivers one message to the current logger, with the right stream, level and text, exactly if its level is at least the global level and its stream is enabled; otherwise it delivers nothing and its arguments are not evaluated. This holds for statements used before and after the calls, for named, unnamed and run-time-level statements, and a null logger is refused without changing anything. Statements below the severity a source file is compiled with (SMCONSOLE_MIN_SEVERITY) are left out whole, arguments included; all others behave the same at every such severity and under every package name, and each can stand as a single statement in a branch.',
     ['histories', 'inputs'], 'All reachable configurations of 3 streams, 5 levels, 2 loggers and 8 statements, and all operation sequences up to the stated depth from a fresh process; 300 statements on as many streams; every statement macro compiled at each of the 12 minimum severities and with three package names, in every configuration.',
     'Each statement caches its decision on first use; only histories that mix use and configuration in a particular order can show a stale cache.',
     LG + ['sm_logging/include/sm/logging/macros.h', 'sm_logging/include/sm/logging/macros_generated.hpp', 'sm_logging/include/sm/logging/LoggingGlobals.hpp', 'sm_logging/include/sm/logging/Levels.hpp'], [('cached enabled flag of each statement, refreshed by configuration calls', 'sm_logging/src/LoggingGlobals.cpp'), ('lazy initialisation at first use', 'sm_logging/include/sm/logging/console.hpp')],
     BFS, 'model_checking', 'Complete for the stated operation alphabet and depth; the reachable configurations are closed under every operation.', observe=['events received by a custom logger', 'argument evaluation counter'])
prop('L03', 'Log messages arrive complete and are laid out as the format says',
     'A logged message of any length arrives whole and unchanged, whether given in printf or stream form, through any macro and whatever the variables in its arguments are called; text that cannot be formatted does not crash the program. A formatter expands each token of any format string to the value of the event it formats (severity, message, time, location, thread, environment variables) and keeps all other text, independently of other formatters or copies, and level names, stream names and printed times follow their documented form for every value.',
     ['inputs'], 'Every message length around each internal buffer size, every macro, every form with 14 names of variables, all format strings of up to 3 pieces over an alphabet of tokens and literals, all level names, stream names and boundary clock values.',
     'Buffer growth at exact lengths, adjacent or malformed tokens, and copied formatters are combinations no test samples.',
     ['sm_logging/src/LoggingGlobals.cpp', 'sm_logging/src/Formatter.cpp', 'sm_logging/src/Logger.cpp', 'sm_logging/src/Levels.cpp', 'sm_logging/src/StdOutLogger.cpp', 'sm_logging/src/LoggingEvent.cpp', 'sm_logging/src/Tokens.cpp', 'sm_logging/src/gettimeofday.hpp', 'sm_logging/include/sm/logging/Formatter.hpp'],
     [('vsnprintf with a growing buffer', 'sm_logging/src/LoggingGlobals.cpp'), ('token parsing and per-event expansion', 'sm_logging/src/Formatter.cpp')],
     GRID, 'exploration', 'Complete for the stated alphabets, under AddressSanitizer and UBSan; no claim outside them.', observe=['formatted output', 'events received by a custom logger'])
prop('L05', 'Logging assertions fire exactly when their condition is false',
     'SM_ASSERT, SM_ASSERT_MSG and SM_ASSERT_CMD of the logging package let execution continue, with no output and the condition evaluated once, whenever the condition is true, however the condition is written; when it is false they log one fatal message naming the condition, run the given command, and stop.',
     ['inputs'], 'All macros with 8 shapes of condition (operators of every precedence, side effects) over 36 pairs of operand values.',
     'Whether a macro honours an unparenthesised condition depends on operator and operands together.',
     ['sm_logging/include/sm/logging/assert.h'], [('macro expansion of the condition', 'sm_logging/include/sm/logging/assert.h')],
     GRID, 'exploration', 'Complete for the stated shapes and operands; failing assertions are run in a child process.', observe=['exit status', 'events logged'])
TM = ['sm_timing/src/Timer.cpp', 'sm_timing/include/sm/timing/Timer.hpp']
prop('T01', 'Timers can be used and queried from any threads at once',
     'Starting and stopping timers, creating tags, querying statistics, printing and resetting may happen on any threads at the same time without data races, crashes or lost samples: every completed timing adds exactly one sample to its own tag, a tag always has one handle and a handle one tag, and every answer is one that was true at some moment during the call.',
     ['schedules'], 'All interleavings up to the preemption bound of 2-3 threads creating, timing, querying (each statistic), printing (each order) and resetting one or two tags; of 5 threads and of many tags with a lower bound.',
     'The registry reallocates when a tag is added; readers that skip the lock fail only in a particular interleaving, and no test uses timers at all.',
     TM, [('registry of tags and statistics guarded by one mutex', 'sm_timing/src/Timer.cpp')],
     SCHED, 'model_checking', SNOTE, observe=['Timing queries and print()'])
prop('T02', 'Timer statistics equal those of the timed intervals',
     'After any history of creating, starting, stopping, destroying and resetting timers, the count, total, mean, variance, minimum, maximum and rate (over the last 50 samples) of each tag are those of the intervals completed since its last reset, whatever the time zone; starting a running timer, stopping a stopped one and using an unknown handle throw and change nothing. The printed table has one row per tag with these values, ordered as requested, and durations are printed as valid hours, minutes below 60 and seconds below 60.',
     ['histories', 'inputs'], 'All operation histories up to the stated depth over three timers on two tags with a controlled clock; histories of 1-160 samples; every hour of a year in five time zones; a grid of durations around every carry; histories of 140,000 (1,100,000) samples and 300 (1,100) timers; histories with reads in between, not merged.',
     'No test exercises timers; the statistics depend on the history and the clock, which a test cannot sample densely.',
     TM, [('accumulators per tag', 'sm_timing/src/Timer.cpp'), ('table printing and sorting', 'sm_timing/src/Timer.cpp')],
     BFS, 'model_checking', 'Complete for the stated alphabet and depth; statistics compared to 1e-9 relative with a long double reference.', observe=['Timing queries', 'Timing::print', 'secondsToTimeString'])
prop('T03', 'Nanosecond times convert without loss beyond double resolution',
     'Converting a nanosecond time to a system clock time point and back gives the same value for every 64-bit value; converting to seconds and back is monotonic and exact to one nanosecond plus the resolution of a double. Exactly one value, the invalid time, is reported as not valid.',
     ['inputs'], 'Every power of two and multiple of a power of ten in the 64-bit range with its neighbours, both signs; all ordered pairs of calls, against a fresh process.',
     'The tests convert the current time only.', ['sm_timing/src/NsecTimeUtilities.cpp', 'sm_timing/include/sm/timing/NsecTimeUtilities.hpp'],
     [('conversion functions', 'sm_timing/src/NsecTimeUtilities.cpp')], GRID, 'exploration', 'Complete for the boundary grid; the functions are piecewise simple between its points, which is an assumption.', observe=['conversion results'])
prop('T04', 'Timestamp correction follows the lower convex hull of all measurements',
     'For every sequence of measurements with increasing remote times, the corrected time of an event is given by the line under all measurements so far that touches the two bounding the middle of the time span (the reception time itself while there are too few), so it is never later than the reception; slope, offset, span and later queries use the same line. Non-increasing remote times are refused without changing anything, and the switching variant always answers from one of two alternating histories. This holds for seconds in double and for 64-bit nanoseconds at epoch times.',
     ['histories', 'inputs'], 'All measurement sequences up to the stated length over a grid of steps and delays, in five scalings of time for double and 64-bit integers, plus all sequences for three switching periods; clocks far below zero and late in nanoseconds; each with all questions, one kind of question and none between the measurements.',
     'The test feeds one random sequence and checks no estimate against the definition.', ['sm_timing/include/sm/timing/TimestampCorrector.hpp', 'sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp'],
     [('incremental convex hull and midpoint segment', 'sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp'), ('alternating correctors', 'sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp')],
     BFS, 'model_checking', 'Complete for the stated grids and lengths against an exact integer reference hull.', observe=['correctTimestamp, getLocalTime, getSlope, getOffset, span'])
MA = ['sm_matrix_archive/src/MatrixArchive.cpp', 'sm_matrix_archive/include/sm/MatrixArchive.hpp']
prop('M01', 'A matrix archive is a map from valid names to one matrix or string each',
     'After any history of setting, creating, modifying, clearing, loading and saving, an archive holds for each name exactly the value last given to it, bit for bit, and every query (matrix, vector, scalar, string, find, iteration, sizes) agrees with that; setting a name replaces whatever it held. Names that are empty, longer than 32 characters or not letters, digits and underscores after a letter, values of the wrong shape and absent names are refused with an exception that changes nothing.',
     ['histories', 'inputs'], 'All operations in all reachable archive contents over two names, all operation sequences up to the stated depth on one object, and every name length up to 40 and every character in each position; archives of up to 1000 entries.',
     'The test sets one matrix and one string; interactions between kinds of entries under one name need particular sequences.',
     MA, [('separate maps of matrices and strings', 'sm_matrix_archive/src/MatrixArchive.cpp'), ('name validation', 'sm_matrix_archive/src/MatrixArchive.cpp')],
     BFS, 'model_checking', 'Complete for the stated alphabet; the archive content is compared in full after every operation.', observe=['all queries of MatrixArchive'])
prop('M02', 'Matrix archive files keep every entry bit for bit in the documented layout',
     'Saving writes exactly the selected entries as blocks of the documented layout, appending adds such blocks to an existing file, and loading a file gives every selected entry its last saved value bit for bit (any shape including empty, any double, any bytes in strings) and leaves all other entries of the archive alone. An empty selection means everything.',
     ['inputs', 'histories'], 'All pairs of 58 values, all filter subsets for save, append and load, all sequences of saves and appends of three archives up to the stated depth, and sizes around 4 GB; archives of up to 500 entries; all histories of two live archives and two files to depth 4 (5 thorough).',
     'The test writes one 1x1 matrix and one word; byte-exactness, filters and appending are never exercised.',
     MA, [('block writer and reader', 'sm_matrix_archive/src/MatrixArchive.cpp')],
     BFS, 'model_checking', 'Files are also decoded by an independent reader in the harness.', observe=['file bytes', 'all queries of MatrixArchive'])
prop('M03', 'Damaged, truncated or unwritable archive files are reported, never believed',
     'If the device is full or fails at any byte, saving and appending throw; short reads and writes are harmless. Loading a file that ends inside a block, whose blocks do not fit together or whose names are invalid throws instead of storing data that is not in the file, without memory errors or allocating for sizes that are not there, and never changes entries that the file does not name.',
     ['crash_points', 'inputs'], 'Every byte offset as the point of a full device, a read error or the end of the file, after several loading histories, and replacements of every byte of a reference file.',
     'I/O faults and torn files do not occur in unit tests.',
     MA, [('unchecked stream operations', 'sm_matrix_archive/src/MatrixArchive.cpp')],
     'fault enumeration: every failing byte offset of writes and reads, every truncation and every single-byte damage, on the real code with injected system calls', 'fault_enumeration', 'Complete for two reference archives; faults are injected at the read/write system calls; AddressSanitizer watches.', observe=['exceptions', 'archive content after a failed load'])

PT = ['sm_property_tree/src/BoostPropertyTreeImplementation.cpp', 'sm_property_tree/include/sm/BoostPropertyTreeImplementation.hpp', 'sm_property_tree/src/PropertyTree.cpp']
prop('M04', 'lsma lists every entry of every archive given, or fails',
     'The lsma tool prints each string (name : value) and each matrix (name :, then its rows) of each archive named on the command line, in the order of the archives, each entry once, with the path in front of the name when there is more than one archive, and ends with exit code 0. With no archive it prints its usage and, as with a missing, unreadable or truncated archive in any place, ends with a nonzero exit code.',
     ['inputs', 'fault_sequences'], 'Every set of 7 entries in one archive, in pairs with 6 others, triples and the same archive twice; every truncation of a reference archive as the only, first and second argument.',
     'There is no test of the tool.',
     ['sm_matrix_archive/src/lsma.cpp', 'sm_matrix_archive/src/MatrixArchive.cpp'], [('main', 'sm_matrix_archive/src/lsma.cpp')],
     'exhaustive enumeration of archives and command lines: the real main() runs in a child process for each and its output is parsed back', 'model_checking', 'Complete for the stated archives. Matrices are compared to the 6 digits the tool prints.', observe=['standard output', 'standard error', 'exit code'])
prop('P01', 'Property trees behave as a map from paths to typed values',
     'A property tree behaves as a map from paths (keys separated by "/", relative to the handle\'s namespace, or absolute with a leading "/") to texts. After any history of operations through any handles on the same tree, a value set as int, double, bool or string is read back exactly through every handle; reading a missing key or a text of another type throws InvalidKeyException or InvalidValueException, or gives the default (which a non-const tree then stores); queries of const trees change nothing; children are listed completely and in order, also for keys that contain a "."; and updating with another tree merges exactly the values it has, refusing with KeyNotFoundException a key that does not exist when creation is not allowed, and skipping blank values when asked to.',
     ['histories', 'inputs'], 'All operation sequences of length 2 (3 thorough) over 4 handles, 9 keys and 9 operations with every query compared in the states reached, also without merging states; all pairs of trees with up to 2 values merged in every mode; all boundary texts and numbers through every accessor; trees up to 100 levels or 257 children and texts up to 2056 characters.',
     'Namespaces, absolute keys, dotted keys and defaults that write interact; tests read each key once after one set.',
     PT + ['sm_property_tree/src/BoostPropertyTree.cpp'], [('qualification of keys with the namespace', 'sm_property_tree/src/PropertyTree.cpp'), ('typed access and default handling', 'sm_property_tree/include/sm/BoostPropertyTreeImplementation.hpp'), ('recursive merge', 'sm_property_tree/src/BoostPropertyTreeImplementation.cpp')],
     BFS, 'model_checking', 'Complete for the stated alphabet and depth; repeated keys and empty path components are outside the claim.', observe=['public accessors', 'iteration over the tree'])
prop('P02', 'Saving a property tree and loading it gives the same tree, or fails loudly',
     'A property tree saved as xml, json, ini or info and loaded again has the same keys, structure, order (ini: values before sections) and values, for every tree the format can represent, whichever save and load functions are used; a tree it cannot represent, an unknown extension, or a file that cannot be written completely is reported by an exception. Loading replaces the old content, a failing load leaves the tree unchanged, and the switches for human readable and comment-free xml do what they say.',
     ['inputs', 'crash_points', 'histories'], 'All trees of up to 3 values over 6 places in 4 formats and 4 call forms, all special texts at every depth, a full disk at every byte, and every prefix, deletion and replacement of a byte of a file; histories of saves, loads and changes; trees up to 90 levels or 257 children and texts up to 2056 characters.',
     'A test saves one small tree with plain values; quoting, buffering and partial failure need particular texts or faults.',
     ['sm_property_tree/src/BoostPropertyTreeImplementation.cpp', 'sm_property_tree/src/BoostPropertyTree.cpp'], [('writers and readers per format', 'sm_property_tree/src/BoostPropertyTreeImplementation.cpp'), ('format chosen by extension', 'sm_property_tree/src/BoostPropertyTree.cpp')],
     GRID + '; exhaustive fault injection at every byte written', 'model_checking', 'The value of the root node itself, ini values with surrounding blanks or line breaks, and keys that are not names are outside what the formats hold.', observe=['files written', 'reloaded tree'])
prop('P03', 'Property strings mean the tree their grammar describes',
     'Loading a well formed property string (phrases key/key=value or key{...}, separated by commas and nested to any depth), given as one string, a list or program arguments, gives exactly the tree it describes and replaces the old content; unmatched braces and quotes are refused, and a refused string leaves the tree unchanged.',
     ['inputs'], 'All strings of up to 7 (9 thorough) tokens over 7 tokens, checked against an independent parser, and all pairs of longer phrases with every allowed kind of value; strings of up to 257 levels or entries.',
     'One string is tested; how "/" and "{" nest and close together depends on their order.',
     ['sm_property_tree/src/BoostPropertyTreeImplementation.cpp', 'sm_property_tree/src/BoostPropertyTree.cpp'], [('translation to info syntax with a stack of open levels', 'sm_property_tree/src/BoostPropertyTreeImplementation.cpp')],
     GRID, 'model_checking', 'What strings outside the grammar mean is left open, except that they must not crash and, if refused, must not change the tree.', observe=['iteration over the tree'])
prop('P04', 'Configuration files are found, ordered and merged as their names and parents say',
     'Loading a list of configuration files gives the tree obtained by starting with the first and merging the others in order, each after the parents it names (recursively, relative to itself where the name starts with ./ or ../), each file once even if files name each other in cycles or by several names. A trailing "!" allows only existing keys to be changed and reports others with KeyNotFoundException. Other names are looked up in the search paths in order, with the infixes in order, and a file that is missing or faulty is an error.',
     ['inputs', 'histories'], 'All parent graphs over 3 files (8x7x5 choices) with 27 contents and 6 lists; all sets of up to 4 (9 thorough) existing files with 5 search path lists, 6 infix lists, 7 names and 6 referring files; all pairs of formats; histories of loads of changing files; chains, cycles, trees and lists of up to 65 files, search paths and infixes.',
     'The loader has no tests; cycles, shared names and relative parents only show in particular graphs of files.',
     ['sm_property_tree/src/BoostPropertyTreeLoader.cpp', 'sm_property_tree/src/BoostPropertyTreeSupport.cpp'], [('files already merged are skipped', 'sm_property_tree/src/BoostPropertyTreeLoader.cpp'), ('resolution of names', 'sm_property_tree/src/BoostPropertyTreeLoader.cpp')],
     'explicit-state enumeration of file graphs and directory states, each loaded by the real code and compared with a reference model', 'model_checking', 'Complete for the stated files and names; runs in a scratch directory.', observe=['merged tree', 'order of merge callbacks', 'resolved paths'])
VS = ['sm_value_store/src/PropertyTreeValueStore.cpp', 'sm_value_store/src/ValueStore.cpp', 'sm_value_store/include/sm/value_store/ValueStore.hpp']
prop('V01', 'Value stores and their handles always show and change the stored value',
     'A value store over a property tree is a live view of it: after any history of adding values through the store or its children, updating through handles kept from earlier, and changing the tree, every get, handle, child (by key) and property tree view gives the current value of its path; a handle obtained without default updates exactly its own value, a default is returned but not stored, and missing or mistyped values without default throw. Saving a store and creating one from the file, or one from a string, gives the same values, and canSave, isExtendible and isEmpty say truly what a store can do.',
     ['histories'], 'All operation sequences of length 2 and a third of those of length 3 (thorough: all of 3, part of 4) over 3 stores, 4 paths and 50 operations with 4 kept handles.',
     'Handles outlive the operations that follow them; tests update a handle immediately after getting it.',
     VS, [('handles that refer to path and tree', 'sm_value_store/src/PropertyTreeValueStore.cpp'), ('references share one store', 'sm_value_store/include/sm/value_store/ValueStore.hpp')],
     BFS, 'model_checking', 'Complete for the stated alphabet and depth; lists of children are snapshots.', observe=['handles', 'tree content'])
prop('V02', 'Layered and prefixed stores look up and write exactly where they should',
     'Whatever way stores are combined - layered over each other, prefixed, un-prefixed, viewed through children or logging wrappers, nested to any depth - a path exists if and only if it exists in some layer after translation of its prefixes, its value is that of the first such layer, updating it changes only that value, a default is given if there is none, and the children listed are those of all layers together. A store without layers is empty.',
     ['inputs', 'histories'], 'All compositions of size up to 3 (a fifth of the largest; all, and pairs of compositions, in thorough) of 6 kinds over 3 base stores, with 19 paths each; 5 prefixes, added and removed, with every path up to two edits away from one below them; stacks of up to 100 stores; all histories of writes and reads on one composition.',
     'Tests combine two plain layers; shadowing, absent nodes and prefixes interact only in nested combinations.',
     ['sm_value_store/src/ValueStore.cpp', 'sm_value_store/src/PrefixedValueStore.cpp', 'sm_value_store/include/sm/value_store/LayeredValueStore.hpp'], [('first layer that has the key', 'sm_value_store/src/ValueStore.cpp'), ('translation of paths', 'sm_value_store/src/PrefixedValueStore.cpp')],
     'bounded-exhaustive enumeration of store compositions, each built from the real classes and compared path by path with a denotational reference model', 'model_checking', 'Complete for the stated compositions and paths; what a default does for a value of another type is left open.', observe=['public accessors of the composed store'])
prop('V03', 'Path alternatives and logging stores pick and report the right value',
     'Given a list of alternative paths, get returns the value of the first one that exists, calls the alert handler once with that path and the argument following it exactly if it is marked with "!", never treats an argument as a path, and otherwise gives the default or throws. A logging store returns, finds, lists and writes exactly what the store below it does, also if children have the same key, and reports every access once with its path and value.',
     ['inputs', 'histories'], 'All lists of up to 4 entries (a fifth of those of 5; all up to 6 in thorough) over 9 entries in 8 store contents; every accessor of both logging stores in 4 contents; their lists of children for every list of up to 3 (4) keys out of 4, repeated or empty ones included, one and two levels deep; all histories of accesses to one store.',
     'Lists of alternatives are not tested; which entry is an argument depends on the entries before it.',
     ['sm_value_store/src/ValueStore.cpp', 'sm_value_store/src/VerboseValueStore.cpp'], [('scan for an existing alternative', 'sm_value_store/src/ValueStore.cpp'), ('forwarding with a log line', 'sm_value_store/src/VerboseValueStore.cpp')],
     GRID, 'model_checking', 'Complete for the stated lists.', observe=['value, alerts and log lines'])
prop('C01', 'Identifiers keep their value, order, text and hash, and random ones differ',
     'A 128-bit HashId or a strongly typed 64-bit Id gives back the words, hexadecimal or decimal text and archived value it was made from, for every value. Equality and order are one total order (most significant word first) consistent with each other; equal identifiers have equal hashes and the hash depends on all words; only the all-zero HashId and the all-ones Id are invalid. fromHexString accepts exactly 32 hexadecimal digits and otherwise returns false without changing the identifier. Random identifiers drawn by any threads at once, or by several processes, are valid, random in every bit and differ from each other, without data races.',
     ['inputs', 'schedules'], 'All interleavings up to 5 deviations of 2-3 threads drawing identifiers; all pairs of 289 (1600 thorough) values; all 1- and 2-character changes of a hexadecimal string from the stated characters, and all lengths up to 70.',
     'Tests use a handful of random identifiers from one thread; malformed text, values with high bits and concurrent draws are not tried.',
     ['sm_common/include/sm/hash_id.hpp', 'sm_common/src/hash_id.cpp', 'sm_common/include/sm/Id.hpp'], [('generator shared under a mutex', 'sm_common/include/sm/hash_id.hpp'), ('hexadecimal conversion', 'sm_common/include/sm/hash_id.hpp')],
     SCHED + '; and bounded-exhaustive enumeration of values and texts against a reference', 'model_checking', 'Complete for the stated scenarios and alphabets. ' + SNOTE, observe=['public methods'])
prop('C02', 'String routines do what they say for every string',
     'replace and replace_reverse change exactly the occurrences of the target after the first (last) skip ones and always end; substituteEnvVars replaces exactly every $(NAME), read from left to right with NAME extending to the next closing bracket, whose variable is set, and leaves everything else alone; ensureTrailingBackslash and the padding, number, tuple and sequence formatters give the text that width, precision, fill, delimiters, prefix and postfix describe, never cutting anything off.',
     ['inputs'], 'All strings up to 6 (8 thorough) over {a,b,/} with 4 targets, 3 replacements and 5 skips; all strings up to 7 (8 thorough) over {$,(,),V,E} in a controlled environment; 21 numbers x 9 widths x 13 precisions; all short sequences and tuples of every arity; strings up to 70000 characters and 1000 variables; all ordered pairs of calls and of calls and environment changes, against a fresh process.',
     'There are no tests of these routines.',
     ['sm_common/include/sm/string_routines.hpp'], [('scan for $( and )', 'sm_common/include/sm/string_routines.hpp'), ('forward and backward search with a skip count', 'sm_common/include/sm/string_routines.hpp')],
     GRID, 'exploration', 'Complete for the stated alphabets and lengths; the C library formatter is the reference for numbers.', observe=['returned strings'])
prop('C03', 'Assertion macros throw exactly when their relation does not hold',
     'Each SM_ASSERT_* macro throws if and only if the relation it names does not hold for its operands (NaN satisfies no order relation), whatever expressions the operands are; it throws exactly the given type, with a text naming that type, file, line, the message and, for comparisons, the relation with the operands\' values. If the relation holds, nothing is thrown and the message is not evaluated. The _DBG macros behave the same in debug builds and with SM_ALWAYS_ASSERT, and otherwise evaluate nothing. SM_THROW and its variants always throw.',
     ['inputs'], 'All unary macros over 8 doubles, 5 floats and 5 ints, binary ones over all pairs (also of strings and unsigned), range macros over all triples, compound conditions over all operand values, in three build modes.',
     'Tests try one passing and one failing value per macro in one mode; boundary values, NaN, infinities and compound expressions are not tried.',
     ['sm_common/include/sm/assert_macros.hpp', 'sm_common/include/sm/source_file_pos.hpp'], [('condition of each macro', 'sm_common/include/sm/assert_macros.hpp')],
     GRID, 'exploration', 'Complete for the stated operands and shapes.', observe=['exceptions and their text', 'evaluation counts'])
prop('C04', 'Numeric helpers give the right result over their whole range',
     'solveQuadratic (leading coefficient not zero) returns both real roots to nearly full precision even if they differ by many orders of magnitude or coincide, and throws a runtime_error if and only if there are none; sgn gives the sign for every arithmetic type; round, rint and lrint round to nearest, halves away from zero, for every number whose result fits; and the relative comparisons answer exactly one of equal, less and greater for any two finite numbers, symmetrically, consistently with the exact order and with |a-b| <= max(|a|,|b|) epsilon, and refuse an epsilon that is not positive with std::invalid_argument.',
     ['inputs'], 'All integer coefficients up to 16 (40 thorough) and all powers of two up to 2^480 and down to 2^-480 as coefficients; all half-integers up to 40 and powers of two with neighbours; all pairs of 50 values with 9 epsilons, in float, double and long double; all ordered pairs of calls, against a fresh process.',
     'Two quadratics and a few comparisons are tested; cancellation, double roots at zero and values next to a half are not.',
     ['sm_common/include/sm/maths.hpp', 'sm_common/include/sm/round.hpp', 'sm_common/include/sm/numerical_comparisons.hpp'], [('stable quadratic formula', 'sm_common/include/sm/maths.hpp'), ('rounding', 'sm_common/include/sm/round.hpp'), ('relative comparison', 'sm_common/include/sm/numerical_comparisons.hpp')],
     GRID, 'exploration', 'Complete for the stated grids; extended precision is the reference. Coefficients with a nearly vanishing inexact discriminant are not tried.', observe=['returned values'])
prop('C05', 'Sameness macros agree with the values they compare, in any expression',
     'SM_CHECKSAME(a,b) and SM_CHECKMEMBERSSAME(other,member), with or without the verbosity argument, are true exactly if both values are equal - by isBinaryEqual if the type has it, else by == - where pointers and shared pointers are equal if both are null or both point to equal objects, and the functions of is_binary_equal.hpp say the same of pointers. They can be negated and combined with && and || like any condition. When they are false and verbosity is on they report the name and both values (NULL for null pointers, NA if they cannot be printed); otherwise they print nothing.',
     ['inputs'], 'All of 7 kinds of type x {value, pointer, shared pointer} x {equal, different, null} pairs x verbosity x 8 forms of expression.',
     'Tests assign each check to a variable of its own, so precedence in a chain of checks never shows.',
     ['sm_common/include/sm/serialization_macros.hpp', 'sm_common/include/sm/typetraits.hpp', 'sm_common/include/sm/is_binary_equal.hpp'], [('choice of comparison by type traits', 'sm_common/include/sm/serialization_macros.hpp')],
     GRID, 'exploration', 'Complete for the stated kinds of type and expressions.', observe=['value of the expression', 'standard output'])
prop('C06', 'Progress display, aligned allocation and source positions',
     'showProgress shows the share of the work done in percent with two digits on the same line, and Complete! and a line end when all is done; it refuses a total that is not positive and, in debug builds, shares outside of 0 to 1, showing nothing; and it leaves the format of std::cout as it was. Containers of Aligned, AlignedMap, AlignedUnorderedMap, Traits and MapTraits keep every element aligned as its type demands through all operations; aligned_shared makes one aligned object from exactly the arguments given, forwarded, and destroys it once. null_deleter deletes nothing. SM_SOURCE_FILE_POS names the place it stands at, printed as file:line: function().',
     ['inputs', 'histories'], 'All done/total pairs up to 60 (300 thorough) in several types with 4 stream formats and 20 special values; every history of 6 (8) insertions, replacements and removals of 13 container types with elements aligned to 64 bytes.',
     'There are no tests; showProgress left std::cout printing two digits for good.',
     ['sm_common/src/progress_info.cpp', 'sm_common/include/sm/progress_info.hpp', 'sm_common/include/sm/aligned_allocation.h', 'sm_eigen/include/sm/eigen/traits.hpp', 'sm_boost/include/sm/boost/null_deleter.hpp', 'sm_common/include/sm/source_file_pos.hpp'], [('showProgress', 'sm_common/src/progress_info.cpp'), ('aligned allocators', 'sm_common/include/sm/aligned_allocation.h')],
     'exhaustive enumeration of inputs and operation histories on the real code against plain containers', 'model_checking', 'Complete for the stated bounds; Eigen is built with 64-byte alignment so that ordinary allocation would not do.', observe=['standard output and its stream state', 'addresses and content of elements', 'positions'])
prop('B01', 'Objects saved to files load back identical, and failures are reported',
     'For the binary, text and xml functions, an object saved to a file (new or over an old one, whose content it replaces completely) and loaded back is identical: every number bit for bit, strings with any characters the format can hold, containers, shared and null pointers. If the file cannot be opened, written completely or read, whatever byte fails, saving or loading throws; an xml or binary file cut anywhere is refused with an exception or gives the saved object, never another one and never a crash. Classes declared with the SM_BOOST_CLASS_VERSION macros are stored with that version.',
     ['fault_sequences', 'inputs'], 'A device full after, a read error after and the file ending after each byte of a small object (and every 1009th, thorough 211th, of one larger than the stream buffers), in every format; 224 objects with all formats and previous contents.',
     'There are no tests of failing or truncated files.',
     ['sm_boost/include/sm/boost/serialization.hpp'], [('save functions', 'sm_boost/include/sm/boost/serialization.hpp'), ('load functions', 'sm_boost/include/sm/boost/serialization.hpp')],
     'exhaustive fault injection: the real functions run over replaced read/write calls that fail after each byte, plus enumeration of objects and file states', 'fault_enumeration', 'Complete for the stated objects. The text format has no end mark, so cut text files are left out; xml cannot hold NUL characters.', observe=['objects loaded', 'exceptions', 'file content'])
prop('T05', 'Conversion to timeval keeps every microsecond',
     'ptimeToTimeval gives, for every time from 1970 on and before, seconds and microseconds whose sum is exactly the time since the epoch, with the microseconds in [0, 1000000) for times after it.',
     ['inputs'], 'All combinations of 13 second counts (also beyond 32 bits), both signs and 9 microsecond values on either side.',
     'There is no test; the conversion did not even return its result.',
     ['sm_boost/include/sm/boost/ptime.hpp'], [('conversion', 'sm_boost/include/sm/boost/ptime.hpp')],
     GRID, 'exploration', 'Complete for the stated grid.', observe=['timeval'])
prop('R01', 'Seeding makes random numbers repeatable, and they stay in their range',
     'After seed(s), the sequence of numbers drawn depends only on s and the draws that follow, whatever was drawn before; rand and uniform, and randn and normal, are the same; other seeds give other numbers. uniform lies in [0,1), randLU(l,u) in [l,u) for all finite bounds that differ (and is l if they do not), randLUi(l,u) is an integer in [l,u) and can be each of them, and a random vector has the given length and the next normal numbers. The numbers have the mean and variance of their distribution.',
     ['histories', 'inputs'], 'All words of 3 (4 thorough) draws over 9 kinds after all of 9 kinds of previous draws and none, with 5 seeds; 1500 (20000) draws for each of 170 ranges including adjacent and extreme bounds.',
     'Tests draw from one range; state left behind by previous draws and bounds next to each other are not tried.',
     ['sm_random/src/random.cpp', 'sm_random/include/sm/random.hpp', 'sm_eigen/src/random.cpp'], [('seed resets every distribution', 'sm_random/src/random.cpp'), ('ranges', 'sm_random/src/random.cpp')],
     BFS, 'model_checking', 'Histories are complete for the stated alphabet; ranges, mean and variance are checked on the drawn numbers of fixed seeds. One thread; the upper half of a 64-bit seed is left open.', observe=['numbers drawn'])
prop('E01', 'Matrices and transforms load back from archives as they were saved',
     'An Eigen matrix of any scalar type, storage order, fixed or dynamic size (also empty) written to a binary, text or xml archive loads back equal into every type of the same scalar and order that its size fits, whatever that held before, and exactly as much is read as was written. If the size does not fit, SerializationException is thrown and the target is unchanged. Eigen transforms load back equal.',
     ['inputs'], 'All 20 shapes up to 5x3 in 13 combinations of fixed and dynamic types, 3 previous contents of the target, 3 formats, for double and int, and part of them for 4 more scalars and row-major order; sizes up to 300 in either direction.',
     'Tests use a few square matrices of one type.',
     ['sm_eigen/include/sm/eigen/serialization.hpp'], [('size written before the data', 'sm_eigen/include/sm/eigen/serialization.hpp')],
     GRID, 'model_checking', 'Complete for the stated types and shapes.', observe=['matrix loaded', 'exceptions'])
prop('E02', 'Matrix square roots, numerical derivatives and finiteness checks are right',
     'computeMatrixSqrt gives, for every symmetric positive semidefinite matrix including singular ones, a finite S with S S^T equal to it, for fixed, dynamic and in-place use, and refuses matrices that are not square. NumericalDiff and numericalDiff agree and give the Jacobian of a differentiable function to the accuracy of central differences with the given step, with the right shape for every size. SM_ASSERT_MAT_IS_FINITE throws exactly if some element is infinite or NaN and names its position.',
     ['inputs'], 'All B B^T for B up to 3x3 over 3 (4 thorough) values, each rank and 3 scales; polynomials between all dimensions up to 3x3 at all points over 4 values with 3 steps, and linear functions at points as far as 1e8; all sizes up to 3x3 with each special value at each position; matrices up to 65x65 of many ranks and functions of up to 40 variables; all ordered pairs of calls, against a fresh process.',
     'The square root is tested on random matrices of full rank; singular ones gave NaN.',
     ['sm_eigen/include/sm/eigen/matrix_sqrt.hpp', 'sm_eigen/include/sm/eigen/NumericalDiff.hpp', 'sm_eigen/include/sm/eigen/assert_macros.hpp'], [('LDLT with pivoting', 'sm_eigen/include/sm/eigen/matrix_sqrt.hpp'), ('central differences', 'sm_eigen/include/sm/eigen/NumericalDiff.hpp')],
     GRID, 'model_checking', 'Complete for the stated grids; exact polynomial Jacobians and the product S S^T are the reference.', observe=['returned matrices'])
prop('E03', 'Matrix comparisons for tests report every difference, and only those',
     'assertEqual, assertNear, expectNear and ASSERT_DOUBLE_MX_EQ report a test failure exactly when the two matrices differ in size or some element differs (by more than the tolerance, or relative to the larger magnitude by more than the percentage; a NaN never matches, equal infinities match in the relative comparison), assertFinite exactly when some element is infinite or NaN. The failure names the first such element, or for expectNear every one, shows the message given and the position of the caller, and nothing is read outside of the matrices. ASSERT_DOUBLE_MX_EQ works whatever variables its arguments name. randomCovariance and randomCovarianceXd give symmetric positive definite matrices.',
     ['inputs'], 'All pairs of sizes up to 3x3 (4x4 thorough) including empty ones; every subset of differing or not finite elements of matrices up to 3x3; all pairs of 27 values with 5 tolerances and 9 percentages; 100 (2000) seeds of 6 sizes; sizes up to 101 in either direction.',
     'There are no tests of the test helpers: a NaN was taken for equal to everything, which hides failures of all other tests.',
     ['sm_eigen/include/sm/eigen/gtest.hpp'], [('element comparisons', 'sm_eigen/include/sm/eigen/gtest.hpp'), ('compareRelative', 'sm_eigen/include/sm/eigen/gtest.hpp')],
     GRID, 'exploration', 'Complete for the stated grids; the covariances are checked for the stated seeds. Left open: googletest decides whether equal infinities are near, and comparisons whose difference overflows with more than 100 percent.', observe=['test part results', 'returned matrices'])
prop('K01', 'Unit quaternions form the rotation group and its exponential map',
     'Quaternion product, inverse and identity form a group whose elements act on vectors and matrices as the rotations they stand for; r2quat inverts quat2r. axisAngle2quat and quat2AxisAngle are the exponential and the logarithm of that group for rotation vectors of every length from denormal to nearly two pi, in float and double, to rounding accuracy; their Jacobians are the derivatives. qslerp moves at constant speed on the shorter arc between the two rotations, and lerp on the straight line.',
     ['inputs'], 'Every triple of 61 quaternions (the 48 of the rotations of the cube and 13 degenerate or oblique ones); 27 axes times 50 angles (170 thorough) including the series thresholds; every pair of the quaternions at 12 times; all ordered pairs of calls, against a fresh process.',
     'Tests use random rotations with loose tolerances, which missed a wrong series for small angles.',
     ['sm_kinematics/src/quaternion_algebra.cpp', 'sm_kinematics/include/sm/kinematics/quaternion_algebra.hpp'], [('quaternion functions', 'sm_kinematics/src/quaternion_algebra.cpp')],
     GRID, 'model_checking', 'Complete for the stated grids against formulas evaluated in extended precision. The logarithm of exactly minus identity, documented as undefined, is left open.', observe=['quaternions, rotation vectors and Jacobians returned'])
prop('K02', 'Rotation parametrisations define, invert and differentiate rotations',
     'Each parametrisation (rotation vector, Euler-Rodriguez, Euler angles ZYX, YawPitchRoll and ZXY, roll-pitch-heading, axis-angle) gives a proper rotation, the one its definition names; parameters extracted from any rotation, including singular configurations and matrices with rounding errors, are finite and give that rotation back; where parameters are unique they come back. The S matrix is the derivative of the rotation, angular velocities are S times the rates, and the Jacobians are their derivatives. Degrees, angle wrapping and elementary rotations are exact.',
     ['inputs'], 'All parameters of a grid that has every singular pitch and both signs, rotation vectors as for K01, every product of two of 61 quaternions, the 24 rotations of the cube, and rotations next to them; all ordered pairs of calls, against a fresh process.',
     'Tests sample random angles and never meet the singular ones.',
     ['sm_kinematics/src/rotations.cpp', 'sm_kinematics/src/RotationalKinematics.cpp', 'sm_kinematics/src/RotationVector.cpp', 'sm_kinematics/src/EulerRodriguez.cpp', 'sm_kinematics/src/EulerAnglesZYX.cpp', 'sm_kinematics/src/EulerAnglesYawPitchRoll.cpp', 'sm_kinematics/src/EulerAnglesZXY.cpp'], [('rotationMatrixToParameters', 'sm_kinematics/src/RotationVector.cpp'), ('R2rph', 'sm_kinematics/src/rotations.cpp')],
     GRID, 'model_checking', 'Complete for the stated grids; rotations and derivatives in extended precision are the reference. Euler-Rodriguez parameters of rotations by nearly pi are infinite and left out.', observe=['matrices, parameters and Jacobians returned'])
prop('K03', 'Transformations stay rigid and exact through every history of operations',
     'After every sequence of compositions, inverses, oplus updates, set(), copies, saving and loading, a Transformation is the rigid transformation that the sequence defines, its quaternion is of unit length, all accessors agree, and points, homogeneous points and directions are mapped by it. The interpolation between any two such transformations starts at the first, ends at the second, does not depend on their order, and runs at constant speed on the shorter way. setRandom stays within its bounds.',
     ['histories'], 'Breadth-first over words of 4 (6 thorough) out of 27 operations from all 24 rotations of the cube with whole translations, about 40,000 (365,000) states; 8 rotation vectors times 5 operations, each repeated 2,000 (20,000) times; histories on one object against new ones.',
     'Tests compose a few random transformations; drift over many updates was not seen.',
     ['sm_kinematics/src/Transformation.cpp', 'sm_kinematics/include/sm/kinematics/Transformation.hpp', 'sm_kinematics/include/sm/kinematics/property_tree.hpp', 'sm_eigen/include/sm/eigen/property_tree.hpp'], [('Transformation::oplus', 'sm_kinematics/src/Transformation.cpp'), ('interpolateTransformations', 'sm_kinematics/src/Transformation.cpp')],
     BFS, 'model_checking', 'Explicit-state search over exact integer matrices; every edge is executed on the real class and compared.', observe=['matrices, quaternions and points returned'])
prop('K04', 'Uncertain transformations and vectors propagate covariances to first order',
     'Every operation on uncertain transformations, points and vectors (composition with certain and uncertain ones on either side and through the base class, inverse, transformed points, rotated vectors, sums, differences, products, quotients, dot products, normalisation, linear maps) gives the mean that the certain operation gives and the covariance J U J^T with the true Jacobians; composition is associative. setUOplus and UOplus convert to and from the perturbation of oplus. Saving and loading gives the object back.',
     ['inputs', 'histories'], 'All pairs of 24 (61 thorough) transformations with a basis of the covariances, which decides every covariance because propagation is linear in it; all 61 for single operations with 5 points; 40 by 40 vectors of dimensions 2 to 4 with a basis; 441 pairs of uncertain scalars; histories on one object against new ones.',
     'Tests compare a few random cases with a few of the operations.',
     ['sm_kinematics/src/UncertainTransformation.cpp', 'sm_kinematics/src/Transformation.cpp', 'sm_kinematics/include/sm/kinematics/implementation/UncertainVector.hpp'], [('UncertainTransformation::operator*', 'sm_kinematics/src/UncertainTransformation.cpp'), ('UncertainVector', 'sm_kinematics/include/sm/kinematics/implementation/UncertainVector.hpp')],
     GRID, 'model_checking', 'Complete for the stated grids; Jacobians by central differences in extended precision are the reference. Operands are taken as independent.', observe=['means and covariances returned'])
prop('K05', 'Homogeneous points behave as the Euclidean points they stand for',
     'Multiples are the same point; sums and differences of homogeneous points are those of the Euclidean points, and with uncertainty on either or both sides U4 is the first-order covariance and U3 the sum of the Euclidean covariances, whatever the homogeneous coordinates and also through the base class. normalize keeps the point and its uncertainty, oplus its length, the Jacobians are the derivatives of oplus, and setUOplus and U_av_form invert each other. Points at infinity and the invalid zero are told apart. Saving and loading gives the point back.',
     ['inputs', 'histories'], 'All pairs of 192 points with four homogeneous coordinates and covariances from a basis, and all of them and 11 points at infinity for single operations with every covariance of the basis; 84 pairs of points with coordinates scaled by powers of two from 2^-30 to 2^36 on either side; histories on one object against new ones.',
     'Tests use points whose homogeneous coordinate is 1, where wrong covariances look right.',
     ['sm_kinematics/src/HomogeneousPoint.cpp', 'sm_kinematics/src/UncertainHomogeneousPoint.cpp'], [('UncertainHomogeneousPoint::operator-', 'sm_kinematics/src/UncertainHomogeneousPoint.cpp')],
     GRID, 'model_checking', 'Complete for the stated grids; Jacobians by central differences in extended precision are the reference.', observe=['points and covariances returned'])
prop('K06', 'Transformation matrix calculus and point alignment are right',
     'Building, splitting, inverting and parametrising transformation matrices invert each other; boxPlus, boxMinus and boxTimes satisfy their defining identities, and transformationAndJacobian and inverseTransformationAndJacobian give the derivatives. Conversions to and from homogeneous coordinates and their Jacobians are right for points and matrices. threePointSvd and qMethod always give a proper rotation, the exact one for exactly transformed points, and for any other points, reflected, collinear, coplanar or single ones included, one with the least squared error possible.',
     ['inputs'], '305 transformations, pairs of them and 5 points; 192 points and their pairs; all 218 clouds of up to five of eight points times 13 (61 thorough) transformations, exact, reflected, disturbed and replaced, with and without weights; clouds of up to 1025 points; all ordered pairs of calls, against a fresh process.',
     'Tests align random well-conditioned clouds only.',
     ['sm_kinematics/src/transformations.cpp', 'sm_kinematics/src/homogeneous_coordinates.cpp', 'sm_kinematics/src/three_point_methods.cpp'], [('threePointSvd', 'sm_kinematics/src/three_point_methods.cpp'), ('boxTimes', 'sm_kinematics/src/transformations.cpp')],
     GRID, 'model_checking', 'Complete for the stated grids; the least error comes from the largest eigenvalue of the quaternion matrix in extended precision.', observe=['matrices and Jacobians returned'])
prop('O01', 'OpenCV matrices and features survive serialization and compare by content',
     'A cv::Mat of any size, element type and layout (whole, or a part of a larger matrix) saved to a binary, text or xml archive and loaded back, into an empty matrix, another one or a part of a larger one, has the same size, type and every byte of the elements; nothing outside of the matrices is read or written and what follows in the archive is unharmed. The same holds for key points and points. isBinaryEqual answers true exactly for two matrices of the same size, type and bytes.',
     ['inputs'], 'All sizes up to 3x3 (5x5 thorough) of 8 element types and 4 layouts, in 3 formats, into 7 kinds of destination; all pairs of matrices up to 2x2 (3x3) in 3 layouts and two contents, and every byte changed; 288 key points.',
     'The tests save whole matrices only; a part of a matrix was read outside of its rows.',
     ['sm_opencv/include/sm/opencv/serialization.hpp'], [('serialize of cv::Mat', 'sm_opencv/include/sm/opencv/serialization.hpp')],
     GRID, 'model_checking', 'Complete for the stated grid. OpenCV is not installed: the code runs over a stand-in of the parts of cv::Mat it uses (/verif/stubs/opencv2), written from the documentation.', observe=['loaded matrices and points', 'memory outside of them'])
prop('A01', 'MATLAB engine: values exact, failures clean, nothing leaked',
     'Numbers, booleans, strings and matrices put into MATLAB come back bit for bit (as doubles). Getters return false for a variable that does not exist, throw the exception that names the reason for one of another type, size or for an empty one, and leave the result as it was unless they return true; the testers and dimensions are right for every kind of variable. Without a running engine every call throws EngineNotInitializedException, and a name with a character other than letters, digits and _ or with a digit in front throws InvalidVariableNameException, without touching MATLAB. A failing put or command throws and changes nothing. MATLAB is started and closed exactly once per initialization, destruction never throws, and every array is given back, also after failures. executeCommand returns the output without its final line break, and the command line runs every line until quit, exit or the end of the input.',
     ['histories', 'inputs', 'fault_sequences'], 'Every sequence of 5 (6 thorough) of 14 operations including failures of starting, closing, putting and executing, against a model; 21 kinds of variables in pairs with every getter and tester; matrices up to 5x5 (9x9) in 9 forms with and without a failure; every character in names; all pairs of 20 outputs; all command line inputs of up to 3 of 8 lines.',
     'The tests need a MATLAB and call each function once with success; failures leaked arrays, and int64 or sparse variables were read as doubles or outside of their data.',
     ['sm_matlab/src/Engine.cpp', 'sm_matlab/include/sm/matlab/Engine.hpp'], [('getters', 'sm_matlab/src/Engine.cpp'), ('putEigen and put', 'sm_matlab/include/sm/matlab/Engine.hpp')],
     BFS, 'model_checking', 'Explicit enumeration of histories against a model. MATLAB is not installed: the code runs over a stand-in of its C interface (/verif/stubs/engine.h), written from the documentation. Left open: the empty name and names starting with _, multi-row character arrays, output beyond 256 characters, copies of an Engine.', observe=['values and exceptions', 'the workspace', 'arrays alive', 'times opened and closed'])
prop('Y01', 'Python log functions deliver each message once, with its level, stream and place',
     'Each log function of the Python package, plain or for a named stream, passes its message exactly once to the logging system with its own level, the stream named and the file, line and function of the statement that calls it (or of the caller as many frames further out as stackdepth says) exactly if its level is at least the current one, and nothing otherwise; the level can be set and asked, and changes apply at once.',
     ['inputs', 'histories'], 'All functions, levels and thresholds, call depths 1 to 5, from modules, functions, methods, lambdas and loops; every history of 5 (6 thorough) changes and messages.',
     'There are no tests of the Python part; logVerbose raised an AttributeError whenever it was called.',
     ['sm_python/python/sm/__init__.py'], [('log functions', 'sm_python/python/sm/__init__.py')],
     'exhaustive enumeration of calls and operation histories on the real Python code', 'model_checking', 'Complete for the stated bounds. The compiled module is replaced by one that records the calls (Y05 runs the package over the real one).', observe=['calls of the compiled logging functions'])
prop('Y02', 'Python value store setter, progress display and plotting do what they say',
     'ExtendibleValueStoreRef.set (and the function behind it) stores each bool, int, float and string with its own type, adding it if it is missing and adding is allowed or if forced, otherwise setting it, and reports any other type with a fatal message and no change. Progress and Progress2 print after the first sample, for each further one, the number done of the total and the elapsed, remaining and per-sample times, Progress2 in one line with minutes and seconds below 60. plotCoordinateFrame draws the three axes of the frame from its origin with the size, colours and line width asked for and does not change the matrix. PlotCollection shows, as often as asked, one window with its title and size and one tab with a tool bar per figure, under the names and in the order in which they were added first, without those deleted, and nothing if none is left. saveFigTight saves the figure once, cut to its axes.',
     ['inputs', 'histories'], 'All kinds of values and old values with all flags; every history of 2 (3 thorough) settings of two keys; every history of 3 (4) samples out of 7 pauses, step sizes and resets; 25 rotations with 27 translations, 5 sizes and 3 kinds of matrices; every history of 3 (4) of 10 operations on a collection of plots, in two windows; 24 boxes at 5 resolutions.',
     'There are no tests; Progress2 printed None and a new line with every sample and could show 60 seconds.',
     ['sm_python/python/sm/__init__.py', 'sm_python/python/sm/Progress.py', 'sm_python/python/sm/plotCoordinateFrame.py', 'sm_python/python/sm/PlotCollection.py', 'sm_python/python/sm/saveFigTight.py'], [],
     'exhaustive enumeration of inputs and operation histories on the real Python code', 'model_checking', 'Complete for the stated bounds, over stand-ins for the compiled module, the clock, the plot axis, wx and figures. Left open: a clock that runs backwards, plot2DCoordinateFrame.', observe=['the store', 'standard output', 'lines drawn', 'windows and tabs shown'])
PYD = 'exhaustive enumeration of calls and operation histories through the real bindings in an embedded interpreter, compared step by step with the same calls in C++'
PYN = 'Complete for the stated bounds. numpy_eigen is not part of the repository: matrices cross as plain objects over a stand-in of its header, so the conversion of numpy arrays is not covered.'
prop('Y03', 'Python transformations, points and rotations do what the C++ ones do',
     'Every function and every operator, method, constructor and attribute of the classes for transformations, homogeneous points, uncertain vectors and rotational kinematics that Python sees returns what its C++ counterpart returns for the same arguments: the values, the covariances, the type of the result (a product, inverse or sum of uncertain objects is uncertain again) and an exception exactly where C++ throws. Operands that C++ leaves unchanged stay unchanged, results do not share state with operands, and pickling, copying and deep copying give an equal object, covariance included.',
     ['inputs', 'histories'], 'Every exported function over grids of its arguments; every word of 2 (3 thorough) operations over four certain and uncertain transformations and points, with every observer after each; uncertain vectors of all exported dimensions.',
     'The bindings have no tests and are not even built by default; products, inverses and pickles of uncertain transformations silently lost their covariance.',
     ['sm_python/src/exportTransformation.cpp', 'sm_python/src/exportHomogeneousPoint.cpp', 'sm_python/src/exportUncertainVector.cpp', 'sm_python/src/export_rotational_kinematics.cpp', 'sm_python/src/export_rotations.cpp', 'sm_python/src/export_transformations.cpp', 'sm_python/src/export_quaternion_algebra.cpp', 'sm_python/src/export_homogeneous.cpp', 'sm_python/src/exportEigen.cpp', 'sm_python/src/random.cpp', 'sm_python/src/export_eigen_property_tree.cpp', 'sm_python/src/export_kinematics_property_tree.cpp', 'sm_python/src/module.cpp'],
     [('overloads chosen for products and inverses', 'sm_python/src/exportTransformation.cpp'), ('pickle suites', 'sm_python/src/exportTransformation.cpp')],
     PYD, 'model_checking', PYN, observe=['values, types and exceptions seen in Python'])
prop('Y04', 'Python archives, property trees and value stores do what the C++ ones do',
     'Any history of operations on matrix archives, property trees and their views and loaders, and value stores (plain, layered, prefixed, extendible, with their children) in Python has the effect of the same history in C++: the same entries, lists of names and dictionaries, the same values with and without defaults, the same files byte for byte, and an exception exactly where C++ throws. Objects taken out of a container do not change with it, views and references see later changes as in C++ and keep what they refer to alive.',
     ['histories'], 'Every history of 3 (4 thorough) of 19 archive operations and of 36 tree operations on up to three objects and a file, and of 2 (3 for a part of them) of 80 operations on 15 stores over two trees; all observers for five keys through every view after each.',
     'The bindings have no tests; a child of a constant tree could never be taken in Python.',
     ['sm_python/src/exportMatrixArchive.cpp', 'sm_python/src/exportPropertyTree.cpp', 'sm_python/src/exportValueStoreRef.cpp', 'sm_python/src/module.cpp'],
     [('wrappers that choose the overload', 'sm_python/src/exportPropertyTree.cpp'), ('wrappers of handles and defaults', 'sm_python/src/exportValueStoreRef.cpp')],
     PYD, 'model_checking', PYN, observe=['values and exceptions seen in Python', 'files written'])
prop('Y05', 'Python logging, timing, time stamps, ids and pickles do what the C++ ones do',
     'From Python, the logging level, named streams and logger are those of the C++ library; a raw message for an enabled stream arrives at the current logger once with its stream, level, file, line, function, text and time unchanged, and none for a disabled one; the log functions of the package over the compiled module deliver exactly the messages at or above the level. Times convert, timer tables print and time stamp correctors behave as in C++ for every history. Ids cross in both directions unchanged and other types are refused; lists and dictionaries get every element; objects pickled through boost serialization come back equal, and a broken pickle is refused. set() of an extendible reference stores a value with the type it has in Python.',
     ['inputs', 'histories'], 'Every history of 3 (4 thorough) of 18 logging operations; all log functions at all thresholds for 4 streams; every history of 2 (3) settings; all histories of 3 (4) of 24 corrected time stamps for both time types; 16 ids, 121 lists and maps, 168 pickles.',
     'The bindings have no tests; getLogger failed always.',
     ['sm_python/src/Logging.cpp', 'sm_python/src/Timing.cpp', 'sm_python/src/exportNsecTime.cpp', 'sm_python/src/exportTimestampCorrector.cpp', 'sm_python/include/sm/python/Id.hpp', 'sm_python/include/sm/python/stl_converters.hpp', 'sm_python/include/sm/python/boost_serialization_pickle.hpp', 'sm_python/python/sm/__init__.py'],
     [('raw logging of a named stream', 'sm_python/src/Logging.cpp'), ('conversion of ids', 'sm_python/include/sm/python/Id.hpp')],
     PYD, 'model_checking', PYN, observe=['values and exceptions seen in Python', 'events received by a C++ logger', 'standard output'])
