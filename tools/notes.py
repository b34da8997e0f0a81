# What each check compares with, and what was decided about it (for DESIGN.md).
NOTES = {
'J01': ('Jobs count their runs; a monitor counts those running and the order of starts; the waiter reads plain variables the jobs wrote, so a wait that returns early or without a happens-before edge is a race.', ''),
'J02': ('Every schedule ends (deadlock and livelock detection); jobs record start and end; the heap of the queue object is tracked after its destruction.', 'A job that stops the queue it runs on is included; joining from a job is not, it cannot end by definition.'),
'J03': ('Values, exceptions and broken promises of the futures against the outcome of each job.', ''),
'L01': ('A recording logger (plain memory, so unserialised delivery is a race) against the set of messages enabled throughout; lifetime of replaced loggers.', 'A message enabled during a part of its statement only may or may not appear.'),
'L02': ('A model of (level, set of enabled streams, logger); states also distinguish which statements were already used, because the implementation caches the decision in them. For the compiled severity: the same list of statements is compiled in 12 + 2 translation units, one per SMCONSOLE_MIN_SEVERITY and package name, and each statement is run in every configuration.', ''),
'L03': ('The message text computed independently; vsnprintf for the printf forms; a token-by-token formatter.', 'Text that vsnprintf refuses to format (EILSEQ) only must not disturb later messages.'),
'L04': ('Number and times of deliveries against a virtual clock.', 'The clock of a statement starts at the first delivery; a disabled use neither consumes the "once" nor starts the period.'),
'L05': ('Value of the condition evaluated by the compiler; process status; messages on a pipe.', 'Evaluations are counted through the pipe as well, because a firing assertion ends the process (added after seed L05-cond).'),
'T01': ('Counts and sums per handle of a virtual clock; race detection on the registry.', ''),
'T02': ('All statistics recomputed from the list of intervals in extended precision.', 'The rolling rate is compared with a tolerance of its window, because the window updates incrementally.'),
'T03': ('128-bit integer arithmetic.', ''),
'T04': ('The exact lower convex hull computed from all points given so far, in rational arithmetic.', ''),
'T05': ('Microsecond integers.', ''),
'R01': ('The same calls after the same seed; bounds and moments; race detection between threads with generators of their own.', 'Values of the seed above 32 bits are ignored by the implementation and left open; no thread safety of one generator is claimed; spread is not checked in denormal ranges.'),
'C01': ('Integers and sets; ids from all threads pairwise different.', ''),
'C02': ('Independent implementations of each function.', 'An expression $( ... ) ends at the next ), scanning left to right; padded negative numbers keep the alignment that ostream gives them. Both follow the present code and are documented, so they count as specified.'),
'C03': ('Plain C++ evaluation of each comparison, and counters of evaluation; three translation units (debug, NDEBUG, always).', ''),
'C04': ('long double and exact integer discriminants.', 'Discriminants that nearly vanish and are not exact in double are not tried (the sign of the double discriminant is not determined); a=0 is left open, it is documented as excluded.'),
'C05': ('Structural equality computed by the harness.', ''),
'C06': ('The text expected on std::cout and the state of the stream; plain containers.', ''),
'B01': ('Bit equality; bytes of a file written freshly; a fault-injecting layer under the file functions (short write, ENOSPC, read error, early end).', 'Text archives have no end mark, so their truncation is not always detectable and excluded; the XML format of boost cannot hold NUL characters.'),
'E01': ('Bit equality of all elements and dimensions; archives truncated everywhere.', 'Only the same scalar type and storage order is claimed.'),
'E02': ('S S^T against the matrix with an error bound from its norm; polynomials have exact derivatives.', 'Points far from zero (1e8) were added after seed E02-diff-step.'),
'E03': ('The set of differing elements computed bit by bit; failures captured by a googletest listener.', 'Whether equal infinities are near is left to googletest; differences that overflow with more than 100 percent are left open.'),
'K01': ('Quaternion and rotation arithmetic in long double.', 'The logarithm at minus identity has no unique answer and is excluded; lengths that are denormal get an absolute tolerance of 1e-307.'),
'K02': ('Rotations from their definitions in long double; central differences in long double for Jacobians.', 'Euler-Rodriguez parameters near rotations by pi are infinite and left out.'),
'K03': ('Exact integer rotations and translations (the cube group), breadth-first; every edge executed on the real class.', ''),
'K04': ('J U J^T with Jacobians by central differences in long double, for a basis of the covariances.', 'Operands are independent, as the classes assume; tolerances scale with the magnitude of the intermediate terms.'),
'K05': ('As for K04.', 'UncertainHomogeneousPoint::scale, convertToVector, oplus and assignment of coordinates keep U as it is: undocumented, left open; so are Jacobians at infinity and sums that vanish.'),
'K06': ('long double; the least squared error from the largest eigenvalue of the quaternion matrix.', ''),
'M01': ('A map from names to matrices or strings.', ''),
'M02': ('A reader of the documented block layout in the harness, and loading back.', ''),
'M03': ('For each damaged file: an exception, or exactly a set of entries that the damage allows.', 'A damaged name that is still a valid name cannot be told from another entry: such loads are allowed.'),
'M04': ('The output of the tool parsed back; exit codes.', 'Matrix elements are compared to the 6 digits printed.'),
'P01': ('A map from paths to texts with ordered children, compared after every operation through all handles.', ''),
'P02': ('The ordered tree saved; a fault-injecting layer under the file functions.', 'INI writes values before sections, so their order is not kept; the text at the root is not stored by the formats. The file name ".xml" was removed: whether it has an extension depends on the version of boost.'),
'P03': ('An independent parser of the format.', 'Malformed strings are left open beyond "an exception or a tree".'),
'P04': ('A model of the search path, the parents mechanism and the merge.', 'The result always has a key "parents" afterwards; that is taken as specified.'),
'V01': ('Maps, compared through every view.', 'Lists of children are snapshots.'),
'V02': ('The first layer that has a value.', 'A value of another type in an upper layer while a default is given is left open.'),
'V03': ('Key translation and recorded messages.', ''),
'O01': ('Bytes of the elements; sanitizers around the stand-in buffers.', 'Runs over a stand-in of cv::Mat.'),
'A01': ('A model of the workspace and of the engine state; counters of arrays and engines; which exception class.', 'Runs over a stand-in of MATLAB. The checks of "empty" and "wrong type" may come in either order where both apply.'),
'Y01': ('Recorded calls of the compiled module.', 'Runs over a stand-in of the compiled module.'),
'Y02': ('A dictionary; a virtual clock; lines drawn on a recording axis.', 'Runs over a stand-in of the compiled module.'),
'Y03': ('The same call in C++, compared as values, types and exceptions.', 'Boost.Python and Python are installed; numpy_eigen is not, so matrices cross as objects of a class of the harness. Values agree to 1e-11: both sides are compiled from the same sources with different inlining.'),
'Y04': ('The same history in C++, on a twin, compared through all observers and as files.', 'The texts of exceptions are not compared. The misspelt getOrCreatetBool is tolerated under either name.'),
'Y05': ('The same calls in C++; events of a capturing logger.', 'rawLog does not look at the level: that is the job of its callers. Ids beyond the range of a long are compared after coming back only: the converter shows them negative.'),
}
